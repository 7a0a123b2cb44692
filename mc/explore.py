"""A small stateless model checker: exhaustive exploration of choice trees.

A *harness* is a function ``h(c)`` that drives the real code.  Every input, every
environment answer and every scheduling decision it needs is obtained with
``c.choose(name, options)``.  The explorer executes the harness once for every
maximal path of the tree of choices (depth first, no sampling, no cap) and the
harness compares each execution with a reference model through ``c.check``.

Measured counts:
  states       distinct nodes of the choice trees (prefixes of decisions),
               including the final state of every execution
  transitions  edges of those trees (decisions taken) plus, for explicit-state
               harnesses, the operations applied (``c.op``)
  traces       complete executions of the real code that were compared
  outcomes     distinct observed results (digest of everything the harness
               passed to ``c.observe``)
"""
import contextlib
import hashlib
import io
import json
import multiprocessing as mp
import os
import signal
import sys
import tempfile
import shutil
import time
import traceback

import numpy as np


class Violation(Exception):
    def __init__(self, kind, msg, details):
        Exception.__init__(self, msg)
        self.kind = kind
        self.details = details


class Cut(Exception):
    pass


class Skip(Exception):
    """The decisions taken so far describe no case (outside the alphabet)."""


class Divergence(Exception):
    pass


def _short(o):
    if isinstance(o, np.ndarray):
        s = np.array2string(o, threshold=24, precision=9)
        return s if len(s) < 600 else s[:600] + "..."
    if isinstance(o, (float, np.floating)):
        return repr(float(o))
    s = str(o)
    return s if len(s) < 600 else s[:600] + "..."


def label(o):
    """A stable, readable name of an option."""
    if isinstance(o, tuple) and len(o) == 2 and isinstance(o[0], str) and not isinstance(o[1], (int, float, str, bool, type(None))):
        return o[0]
    if callable(o):
        return getattr(o, "__name__", "callable")
    return _short(o)


class Ctx:
    def __init__(self, prefix, cut=None, full=False, params=None):
        self.prefix = prefix
        self.cut = cut
        self.full = full
        self.taken = []  # (name, label, index, n)
        self.digest = hashlib.sha256()
        self.observed = 0
        self.checks = 0
        self.ops = 0
        self.softs = []
        self.params = params or {}

    # -- decisions -------------------------------------------------------
    def choose(self, name, options):
        options = list(options)
        if not options:
            raise Skip()
        i = len(self.taken)
        if self.cut is not None and i >= self.cut:
            raise Cut()
        k = self.prefix[i] if i < len(self.prefix) else 0
        if k >= len(options):
            raise Divergence("replayed decision %d of %s has only %d options" % (k, name, len(options)))
        self.taken.append((name, label(options[k]), k, len(options)))
        o = options[k]
        if isinstance(o, tuple) and len(o) == 2 and isinstance(o[0], str) and not isinstance(o[1], (int, float, str, bool, type(None))):
            return o[1]
        return o

    def skip_if(self, cond):
        if cond:
            raise Skip()

    def op(self, n=1):
        self.ops += n

    # -- observations ----------------------------------------------------
    def observe(self, *vals):
        for v in vals:
            self.observed += 1
            if isinstance(v, str):
                self.digest.update(v.encode())
            elif v is None:
                self.digest.update(b"None")
            else:
                a = np.asarray(v)
                if a.dtype.kind in "fc":
                    a = np.where(np.isfinite(a), a, 0.0)
                    scale = max(1e-300, float(np.max(np.abs(a))) if a.size else 1.0)
                    a = np.round(a / scale, 6) + 0.0
                    self.digest.update(("%.5e" % scale).encode())
                self.digest.update(str(a.shape).encode())
                self.digest.update(np.ascontiguousarray(a).tobytes())

    def check(self, cond, kind, msg="", **details):
        self.checks += 1
        if not bool(cond):
            raise Violation(kind, msg or kind, {k: _short(v) for k, v in details.items()})

    def close(self, got, want, kind, rtol=1e-8, atol=1e-10, msg="", scale=None, **details):
        """got and want agree element by element: |got-want| <= atol + rtol*scale,
        where scale defaults to the largest magnitude in want."""
        self.checks += 1
        got = np.asarray(got)
        want = np.asarray(want)
        if got.shape != want.shape:
            raise Violation(kind, (msg or kind) + ": shape %s, expected %s" % (got.shape, want.shape), {k: _short(v) for k, v in details.items()})
        if got.size == 0:
            return
        if got.dtype.kind not in "fciub" or want.dtype.kind not in "fciub":
            raise Violation(kind, (msg or kind) + ": non numeric result", {"got": _short(got)})
        if not np.all(np.isfinite(got.astype(complex)) | ~np.isfinite(want.astype(complex))):
            raise Violation(kind, (msg or kind) + ": non finite result", {"got": _short(got), "want": _short(want), **{k: _short(v) for k, v in details.items()}})
        s = float(np.max(np.abs(want))) if scale is None else float(scale)
        d = np.abs(got - want)
        lim = atol + rtol * s
        if not np.all(d <= lim):
            idx = np.unravel_index(int(np.nanargmax(d)), d.shape) if d.ndim else ()
            raise Violation(kind, (msg or kind) + ": differs by %.3g at %s (limit %.3g)" % (float(np.nanmax(d)), tuple(int(i) for i in idx), lim), {"got": _short(got), "want": _short(want), **{k: _short(v) for k, v in details.items()}})

    def soft(self, fn):
        """Run a check; a violation is recorded and the execution goes on."""
        try:
            fn()
        except Violation as v:
            self.softs.append(v)


class Result:
    def __init__(self):
        self.states = 0
        self.transitions = 0
        self.traces = 0
        self.skipped = 0
        self.checks = 0
        self.ops = 0
        self.outcomes = set()
        self.samples = []
        self.violations = []
        self.replayed = 0
        self.known = {}

    def merge(self, o):
        for a in ("states", "transitions", "traces", "skipped", "checks", "ops", "replayed"):
            setattr(self, a, getattr(self, a) + getattr(o, a))
        self.outcomes |= o.outcomes
        self.samples += o.samples[: max(0, 6 - len(self.samples))]
        self.violations += o.violations
        for k, n in o.known.items():
            self.known[k] = self.known.get(k, 0) + n


def _execute(h, prefix, cut=None, scratch=None, params=None):
    c = Ctx(prefix, cut=cut, params=params)
    cwd = None
    if scratch:
        cwd = os.getcwd()
        d = tempfile.mkdtemp(prefix="run", dir=scratch)
        os.chdir(d)
    viol = []
    status = "done"
    try:
        h(c)
    except Violation as v:
        viol.append(v)
    except Skip:
        status = "skip"
    except Cut:
        status = "cut"
    except Divergence:
        raise
    except MemoryError:
        raise
    except Exception as e:  # the code under test raised where a result is due
        tb = traceback.extract_tb(e.__traceback__)
        site = ""
        for fr in tb:
            if "VolterraBasis" in fr.filename:
                site = os.path.basename(fr.filename) + ":" + fr.name
        viol.append(Violation("exception", "%s: %s (in %s)" % (type(e).__name__, str(e)[:300], site or "harness"), {"traceback": traceback.format_exc()[-1500:]}))
    finally:
        if scratch:
            os.chdir(cwd)
            shutil.rmtree(d, ignore_errors=True)
    return c, c.softs + viol, status


def _explore_from(h, prefix, res, note=None, scratch=None, limit=None, params=None, base_depth=0, matcher=None):
    """Depth first from prefix (whose nodes up to base_depth are counted elsewhere)."""
    stack = [list(prefix)]
    while stack:
        p = stack.pop()
        if note:
            note(p)
        c, viol, status = _execute(h, p, scratch=scratch, params=params)
        if len(c.taken) < len(p):
            raise Divergence("decision sequence %s was not reproduced" % (p,))
        # nodes new in this execution: those below the branching decision
        first_new = max(len(p) - 1, base_depth) if p else 0
        new = len(c.taken) - first_new
        res.states += new
        res.transitions += new + c.ops
        res.ops += c.ops
        if status == "skip":
            res.skipped += 1
        else:
            res.traces += 1
            res.checks += c.checks
            res.outcomes.add(c.digest.hexdigest()[:16])
            if len(res.samples) < 2 and not viol:
                res.samples.append({"decisions": ["%s=%s" % (n, l) for n, l, _, _ in c.taken], "checks": c.checks})
            if not viol and res.traces == 1:
                # determinism: the same decisions give the same observations
                c2, v2, s2 = _execute(h, [t[2] for t in c.taken], scratch=scratch, params=params)
                if v2 or c2.digest.hexdigest() != c.digest.hexdigest():
                    viol = v2 or [Violation("nondeterministic", "two executions of the same decisions differ", {})]
                res.replayed += 1
        for v in viol:
            rec = {"kind": v.kind, "message": str(v), "details": v.details, "choices": [t[2] for t in c.taken], "decisions": [[n, l] for n, l, _, _ in c.taken]}
            k = matcher(rec) if matcher else None
            if k is None:
                res.violations.append(rec)
            else:
                res.known[k] = res.known.get(k, 0) + 1
        if limit and len(res.violations) >= limit or FIRST and res.violations:
            return
        for i in range(len(c.taken) - 1, len(p) - 1, -1):
            n = c.taken[i][3]
            for alt in range(n - 1, 0, -1):
                stack.append([t[2] for t in c.taken[:i]] + [alt])


def _prefixes(h, depth, params=None):
    """All decision prefixes of the given depth (shorter when a path ends early)."""
    out, inner = [], 0
    stack = [[]]
    seen_edges = 0
    while stack:
        p = stack.pop()
        c, _, status = _execute(h, p, cut=depth, params=params) if depth else (Ctx([]), [], "cut")
        t = [x[2] for x in c.taken]
        first_new = max(len(p) - 1, 0) if p else 0
        seen_edges += len(t) - first_new
        out.append((t, status))
        for i in range(len(t) - 1, len(p) - 1, -1):
            for alt in range(c.taken[i][3] - 1, 0, -1):
                stack.append(t[:i] + [alt])
    return out, seen_edges


FIRST = bool(os.environ.get("VB_FIRST"))  # development: stop everything at the first violation


def _worker(idx, jobs, counter, harnesses, outdir, scratch, limit, quiet, matcher):
    signal.signal(signal.SIGINT, signal.SIG_DFL)
    if quiet:
        devnull = os.open(os.devnull, os.O_WRONLY)
        os.dup2(devnull, 1)
    notefile = os.path.join(outdir, "note%d" % idx)
    per = {}
    while True:
        with counter.get_lock():
            k = counter.value
            if k >= len(jobs):
                break
            counter.value += 1
        hname, prefix, base = jobs[k]
        h, params = harnesses[hname]
        res = per.setdefault(hname, Result())

        def note(p, hname=hname):
            with open(notefile, "w") as f:
                json.dump({"harness": hname, "prefix": p, "t": time.time()}, f)

        if limit and len(res.violations) >= limit:
            continue
        before = res.traces
        if FIRST and res.violations:
            counter.value = len(jobs)
            continue
        _explore_from(h, prefix, res, note=note, scratch=scratch, limit=limit, params=params, base_depth=base, matcher=(lambda r, hname=hname: matcher(hname, r)) if matcher else None)
    try:
        os.unlink(notefile)
    except OSError:
        pass
    import pickle

    with open(os.path.join(outdir, "res%d" % idx), "wb") as f:
        pickle.dump(per, f)
    sys.stdout.flush()
    os._exit(0)


def run(harnesses, split_depth=2, workers=8, limit=12, hang_s=300, quiet=True, matcher=None):
    """harnesses: {name: (function, params[, split depth])}.  Explores all of them
    completely; returns {name: Result}."""
    jobs = []
    results = {n: Result() for n in harnesses}
    table = {}
    for n, spec in harnesses.items():
        h, params = spec[0], spec[1]
        depth = spec[2] if len(spec) > 2 else split_depth
        table[n] = (h, params)
        if depth == 0:
            jobs.append((n, [], 0))
            results[n].states += 1
            continue
        with contextlib.redirect_stdout(io.StringIO()):
            pf, edges = _prefixes(h, depth, params)
        # edges down to the split depth are counted here, the rest by the workers
        results[n].states += 1 + edges
        results[n].transitions += edges
        for p, status in pf:
            jobs.append((n, p, len(p)))
    tmp = tempfile.mkdtemp(prefix="vbmc")
    scratch = os.path.join(tmp, "scratch")
    os.mkdir(scratch)
    counter = mp.Value("i", 0)
    procs = {}
    crashed = []
    sys.stdout.flush()
    try:
        workers = max(1, min(workers, len(jobs)))
        for i in range(workers):
            p = mp.get_context("fork").Process(target=_worker, args=(i, jobs, counter, table, tmp, scratch, limit, quiet, matcher))
            p.start()
            procs[i] = p
        live = set(procs)
        while live:
            for i in list(live):
                p = procs[i]
                p.join(0.05)
                nf = os.path.join(tmp, "note%d" % i)
                if p.exitcode is None:
                    try:
                        if time.time() - os.path.getmtime(nf) > hang_s:
                            note = json.load(open(nf))
                            crashed.append((note, "no termination within %d s" % hang_s))
                            p.kill()
                    except (OSError, ValueError):
                        pass
                    continue
                live.discard(i)
                rf = os.path.join(tmp, "res%d" % i)
                if p.exitcode == 0 and os.path.exists(rf):
                    import pickle

                    with open(rf, "rb") as f:
                        for n, r in pickle.load(f).items():
                            results[n].merge(r)
                else:
                    try:
                        note = json.load(open(nf))
                    except (OSError, ValueError):
                        note = None
                    if note is None or p.exitcode == 1:
                        raise RuntimeError("a worker ended with %s before reporting" % p.exitcode)
                    if not any(c[0] == note for c in crashed):
                        crashed.append((note, "the process ended (exit status %s)" % p.exitcode))
                    # the surviving workers take the remaining jobs
        for note, why in crashed:
            h, params = table[note["harness"]]
            dec = describe(h, note["prefix"], params)
            rec = {"kind": "process-death" if "ended" in why else "hang", "message": why, "details": {}, "choices": note["prefix"], "decisions": dec}
            k = matcher(note["harness"], rec) if matcher else None
            r = results[note["harness"]]
            if k is None:
                r.violations.append(rec)
            else:
                r.known[k] = r.known.get(k, 0) + 1
    finally:
        for p in procs.values():
            if p.is_alive():
                p.kill()
        shutil.rmtree(tmp, ignore_errors=True)
    return results


def describe(h, prefix, params=None):
    """Decisions of a prefix, taken in a process of its own (the code may end it)."""
    tmp = tempfile.mkdtemp(prefix="vbmc")
    out = os.path.join(tmp, "d")

    def body():
        devnull = os.open(os.devnull, os.O_WRONLY)
        os.dup2(devnull, 1)
        os.chdir(tmp)
        c = Ctx(prefix, cut=len(prefix), params=params)

        orig = c.choose

        def choose(name, options):
            o = orig(name, options)
            with open(out, "w") as f:
                json.dump([[n, l] for n, l, _, _ in c.taken], f)
            return o

        c.choose = choose
        try:
            h(c)
        except BaseException:
            pass
        os._exit(0)

    p = mp.get_context("fork").Process(target=body)
    p.start()
    p.join(60)
    if p.is_alive():
        p.kill()
    try:
        with open(out) as f:
            return json.load(f)
    except (OSError, ValueError):
        return [["choices", str(prefix)]]
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
