"""Builds the Fortran part of /repo's working tree and imports the Python part of it.

Nothing of an earlier build is trusted: the extension is rebuilt whenever the
source of /repo/VolterraBasis/fkernel.f90 (or the toolchain line below) differs
from what the cached object was built from, and the module that is imported as
``VolterraBasis.fkernel`` is always the one built here, never a leftover in /repo.

The extension is compiled with -fcheck=bounds: an array access outside its bounds
ends the process, which the explorer reports as a violation.
"""
import hashlib
import importlib.abc
import importlib.machinery
import importlib.util
import os
import shutil
import subprocess
import sys
import sysconfig
import tempfile

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VB_REPO", "/repo")
CACHE = os.path.join(VERIF, ".build")
FFLAGS = ["-O1", "-fPIC", "-fcheck=bounds"]
FLAG_ID = "v3 " + " ".join(FFLAGS)


def _run(cmd, cwd):
    p = subprocess.run(cmd, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode != 0:
        sys.stderr.write("build step failed: %s\n%s\n" % (" ".join(cmd), p.stdout[-4000:]))
        raise SystemExit(3)


def build():
    """Return the path of the extension built from the current fkernel.f90."""
    src = os.path.join(REPO, "VolterraBasis", "fkernel.f90")
    with open(src, "rb") as f:
        data = f.read()
    key = hashlib.sha256(data + FLAG_ID.encode()).hexdigest()[:24]
    suffix = sysconfig.get_config_var("EXT_SUFFIX")
    out = os.path.join(CACHE, key, "fkernel" + suffix)
    if os.path.exists(out):
        return out
    import numpy as np

    os.makedirs(os.path.join(CACHE, key), exist_ok=True)
    tmp = tempfile.mkdtemp(prefix="vbbuild")
    try:
        with open(os.path.join(tmp, "fkernel.f90"), "wb") as f:
            f.write(data)
        _run([sys.executable, "-m", "numpy.f2py", "fkernel.f90", "-m", "fkernel", "--lower"], tmp)
        f2py_src = os.path.join(os.path.dirname(np.__file__), "f2py", "src")
        inc = ["-I" + f2py_src, "-I" + np.get_include(), "-I" + sysconfig.get_paths()["include"]]
        _run(["gfortran"] + FFLAGS + ["-c", "fkernel.f90", "-o", "k.o"], tmp)
        objs = ["k.o"]
        for i, w in enumerate(sorted(x for x in os.listdir(tmp) if "f2pywrappers" in x)):
            _run(["gfortran", "-O1", "-fPIC", "-c", w, "-o", "w%d.o" % i], tmp)
            objs.append("w%d.o" % i)
        for c, o in (("fkernelmodule.c", "m.o"), (os.path.join(f2py_src, "fortranobject.c"), "fo.o")):
            _run(["gcc", "-O1", "-fPIC", "-w", "-DNPY_NO_DEPRECATED_API=NPY_1_9_API_VERSION"] + inc + ["-c", c, "-o", o], tmp)
            objs.append(o)
        _run(["gfortran", "-shared", "-o", "lib.so"] + objs + ["-llapack"], tmp)
        part = out + ".%d.tmp" % os.getpid()
        shutil.copy(os.path.join(tmp, "lib.so"), part)
        os.replace(part, out)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    return out


class _Finder(importlib.abc.MetaPathFinder):
    def __init__(self, path):
        self.path = path

    def find_spec(self, fullname, path=None, target=None):
        if fullname == "VolterraBasis.fkernel":
            loader = importlib.machinery.ExtensionFileLoader(fullname, self.path)
            return importlib.util.spec_from_file_location(fullname, self.path, loader=loader)
        return None


_done = None


def load():
    """Build, then import VolterraBasis from /repo; returns the package."""
    global _done
    if _done is not None:
        return _done
    so = build()
    sys.meta_path.insert(0, _Finder(so))
    sys.path.insert(0, REPO)
    sys.dont_write_bytecode = True
    import warnings

    warnings.simplefilter("ignore")
    import numpy as np

    np.seterr(all="ignore")
    import VolterraBasis as vb
    import VolterraBasis.basis  # noqa: F401
    import VolterraBasis.fkernel as fk

    assert os.path.realpath(vb.__file__).startswith(os.path.realpath(REPO) + os.sep), vb.__file__
    assert os.path.realpath(fk.__file__) == os.path.realpath(so), fk.__file__
    _done = vb
    return vb
