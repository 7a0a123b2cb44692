"""Out-of-core (dask) trajectories give the results of in-memory ones for every chunking."""
import itertools

import numpy as np

from .common import MODELS, vb, make_xva, basis_specs, estimator, admissible

BOUNDS = "every chunking along time of trajectories of 6 (thorough: 9) times, regular chunk sizes for 40 times (components in one chunk: other chunkings are refused with an explanation), 1 and 2 trajectories, all 6 models, both correlation methods; 999 times in up to 143 chunks"


def compositions(n, parts=None):
    out = []
    for bits in range(2 ** (n - 1)):
        comp, cur = [], 1
        for i in range(n - 1):
            if bits >> i & 1:
                comp.append(cur)
                cur = 1
            else:
                cur += 1
        out.append(tuple(comp + [cur]))
    return sorted(out, key=len)


def rechunk(ds, comp, dims=None):
    import dask.array as da

    out = ds.copy()
    for k in ("x", "v", "a"):
        arr = np.asarray(ds[k].data)
        out[k] = (["time", "dim_x"], da.from_array(arr.copy(), chunks=(comp, dims or arr.shape[1])))
    return out


def val(a):
    return np.asarray(a.compute().values if hasattr(a, "compute") else a)


def run(model, spec, dss, T, method, kernel, noise=True):
    est = estimator(model, spec.make(True), dss, T)
    est.compute_mean_force()
    est.compute_corrs(**method)
    est.compute_kernel(method=kernel)
    out = {
        "mean force": val(est.model.force_coeff),
        "gram": val(est.model.gram_force),
        "bkbk": val(est.bkbkcorrw),
        "bkdx": val(est.bkdxcorrw),
        "dotbkdx": val(est.dotbkdxcorrw),
        "dotbkbk": val(est.dotbkbkcorrw),
        "kernel": val(est.model.kernel),
    }
    est.compute_effective_mass()
    out["effective mass"] = val(est.model.eff_mass)
    out["basis mean"] = val(est.compute_basis_mean())
    out["basis mean of the kernel"] = val(est.compute_basis_mean(basis_type="kernel"))
    est.compute_gram_force()
    out["gram alone"] = val(est.model.gram_force)
    if dss[0].sizes["dim_x"] == 1:
        est.compute_gram_kernel()
        out["gram of the kernel"] = val(est.model.gram_kernel)
    if noise:
        t, pc = est.compute_projected_corrs()
        out["times of the projected correlations"], out["projected correlations"] = np.asarray(t), val(pc)
        out["projected correlations of a column"] = val(est.compute_projected_corrs(left_op="v")[1])
        out["mean position"] = np.asarray(est.data_describe.mean)
        out["extent"] = np.asarray(est.data_describe.minmax)
        t, nz, a, f, m = est.model.compute_noise(dss[0])
        out.update({"noise": val(nz), "force": val(f), "memory": np.asarray(m), "observable": val(a)})
    return out


def compare(c, got, want):
    c.observe(got["kernel"])
    c.check(set(got) == set(want), "results")
    for k in want:
        c.close(got[k], want[k], "dask differs from numpy: " + k, rtol=1e-8, atol=1e-11)


METHODS = [("fft", {}), ("direct", {"method": "direct"}), ("fft vectorized", {"vectorize": True}), ("direct vectorized", {"method": "direct", "vectorize": True})]


def chunkings(c):
    n = c.params["length"]
    comp = c.choose("chunks", compositions(n))
    model = c.choose("model", MODELS)
    method = c.choose("correlation", c.params["methods"])
    spec = basis_specs()[c.choose("basis", c.params["bases"])]
    c.skip_if(not admissible(model, spec, 1, True))
    base = [make_xva(n, seed=4)]
    args = (3, method, "rect")
    compare(c, run(model, spec, [rechunk(base[0], comp)], *args), run(model, spec, base, *args))


def several(c):
    d = c.choose("dimension", [1, 2])
    comps = c.choose("chunks of each trajectory", [("one", [40, 17]), ("small", [3, 4]), ("single", [1, 1]), ("uneven", [7, 16]), ("mixed", [None, 5])])
    model = c.choose("model", MODELS)
    bname = c.choose("basis", ["linear", "linear_c", "bspline", "tensor"])
    method = c.choose("correlation", c.params["methods"])
    kernel = c.choose("kernel", ["rect", "trapz"])
    spec = basis_specs()[bname]
    c.skip_if(not admissible(model, spec, d, True))
    c.skip_if(bname == "tensor" and model in ("Pos_gle", "Pos_gle_with_friction", "Pos_gle_hybrid"))
    c.skip_if(len(comps) and comps == [1, 1] and method.get("vectorize"))
    base = [make_xva(n, seed=3 * i + 1, d=d) for i, n in enumerate((40, 17))]
    dd = [b if ch is None else rechunk(b, ch) for b, ch in zip(base, comps)]
    T = 4
    compare(c, run(model, spec, dd, T, method, kernel), run(model, spec, base, T, method, kernel))


def large(c):
    """A thousand times and many chunks."""
    model = c.choose("model", MODELS)
    chunk = c.choose("chunks", [7, 64, 100, 333, 999, (1, 998), (500, 3, 496), (998, 1)])
    bname = c.choose("basis", ["linear", "fourier1", "linear_c"])
    method = c.choose("correlation", c.params["methods"])
    spec = basis_specs()[bname]
    d = 3 if bname == "linear_c" else 1
    base = [make_xva(999, seed=4, d=d), make_xva(40, seed=7, d=d)]
    dd = [rechunk(base[0], chunk), rechunk(base[1], 16)]
    compare(c, run(model, spec, dd, 12, method, "second_kind_trapz"), run(model, spec, base, 12, method, "second_kind_trapz"))


def harnesses(tier):
    q = tier == "quick"
    return {
        "chunkings": (chunkings, {"length": 6 if q else 9, "methods": METHODS[:2] if q else METHODS, "bases": ["linear"] if q else ["linear", "poly1", "linear_c"]}, 2),
        "large": (large, {"methods": [METHODS[0], METHODS[3]] if q else METHODS}, 3),
        "several": (several, {"methods": [METHODS[0], METHODS[3]] if q else METHODS}, 4),
    }
