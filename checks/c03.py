"""Free energy profile: every sample counted once, profile and forces derived from it."""
import numpy as np
import scipy.interpolate

from .common import vb, series

BOUNDS = "every placement of 4 samples (5 thorough) on a grid of 5 points and edges, 1 to 3 trajectories with every split, 4 to 9 bin edges; profiles of up to 400 samples, and of 6007 samples in 12 trajectories and 101 bins"


def dataset(x, v, a):
    import xarray as xr

    n = len(x)
    return xr.Dataset({k: (["time", "dim_x"], np.asarray(w, float).reshape(-1, 1)) for k, w in (("x", x), ("v", v), ("a", a))}, coords={"time": np.arange(n) * 1.0}, attrs={"dt": 1.0})


def split(x, v, a, cuts):
    out, p = [], 0
    for q in list(cuts) + [len(x)]:
        out.append(dataset(x[p:q], v[p:q], a[p:q]))
        p = q
    return out


def ref_bins(x, edges):
    """Index of the bin of each sample: right-closed, the lowest edge included."""
    idx = []
    for s in x:
        k = 0
        while k < len(edges) - 2 and s > edges[k + 1]:
            k += 1
        idx.append(k)
    return np.array(idx)


def counts(c):
    """Histogram: every placement of the samples relative to the edges."""
    n = c.params["samples"]
    nb = c.choose("edges", [3, 4, 5])
    grid = [0.0, 0.1875, 0.625, 0.75, 1.0625]
    pos = [c.choose("sample %d" % i, grid) for i in range(n)]
    lo, hi = -0.25, 1.5
    x = np.array([lo] + pos + [hi])
    v, a = series(len(x), 2)[:, 0] + 2, series(len(x), 3)[:, 0]
    cut = c.choose("split", ["one", "two", "three"])
    cuts = {"one": [], "two": [2], "three": [1, 3]}[cut]
    lst = split(x, v, a, cuts)
    edges = np.linspace(lo, hi, nb)
    xf, pf = vb().compute_1d_fe(lst, bins=nb, hist=True)
    idx = ref_bins(x, edges)
    want = np.array([(idx == k).sum() for k in range(nb - 1)]) / len(x)
    c.observe(pf)
    c.close(xf, (edges[1:] + edges[:-1]) / 2, "positions", rtol=1e-12, atol=1e-12)
    c.close(pf, want, "occupation", rtol=1e-12, atol=1e-12)
    c.close(pf.sum(), 1.0, "every sample is counted once", rtol=1e-12, atol=0)


def profile(c):
    """All returned quantities against their definitions, for every split."""
    n = c.choose("samples", c.params["samples"])
    nb = c.choose("bins", [7, 9, 14, "auto"])
    kT = c.choose("kT", [1.0, 2.494])
    kind = c.choose("data", ["smooth", "with gap", "reversed", "shifted"])
    cut = c.choose("split", ["one", "half", "uneven", "three", "single samples"])
    x, v, a = series(n, 6)[:, 0], series(n, 2)[:, 0], series(n, 3)[:, 0]
    if kind == "with gap":
        x = np.where(x > 0, x + 1.5, x)
    elif kind == "reversed":
        x, v, a = x[::-1], v[::-1], a[::-1]
    elif kind == "shifted":
        x = 3 * x + 100.0
    c.skip_if(cut == "single samples" and n > 60)
    cuts = {"one": [], "half": [n // 2], "uneven": [3], "three": [n // 4, n // 4 + 5], "single samples": list(range(1, n))}[cut]
    lst = split(x, v, a, cuts)
    r = vb().compute_1d_fe(lst, bins=nb, kT=kT)
    edges = np.histogram_bin_edges(x, bins="auto") if nb == "auto" else np.linspace(x.min(), x.max(), nb)
    idx = ref_bins(x, edges)
    occ = np.array([(idx == k).sum() for k in range(len(edges) - 1)])
    keep = np.nonzero(occ)[0]
    c.skip_if(len(keep) < 4)
    p = occ / n
    xf = ((edges[1:] + edges[:-1]) / 2)[keep]
    fe = -np.log(p[keep])
    fe -= fe.min()
    mean_a = np.array([a[idx == k].mean() for k in keep])
    mass = np.array([(v[idx == k] ** 2).mean() for k in keep])
    force = -scipy.interpolate.splev(xf, scipy.interpolate.splrep(xf, fe, s=0), der=1) * kT / (v ** 2).mean()
    ft = scipy.interpolate.splev(xf, scipy.interpolate.splrep(xf, mass * p[keep], s=0), der=1) / p[keep]
    c.check(len(r) == 6, "result", "%d arrays" % len(r))
    c.observe(r[1], r[3])
    for got, want, name in zip(r, (xf, fe, force, mean_a, ft, mass), ("positions", "free energy", "force", "mean acceleration", "total force", "mean square velocity")):
        c.close(got, want, name, rtol=1e-8, atol=1e-10)
    if kT == 2.494:  # the default
        for g, w in zip(vb().compute_1d_fe(lst, bins=nb), r):
            c.close(np.asarray(g), np.asarray(w), "default temperature", rtol=1e-12)
        if nb == 7 and n > 20:
            g = vb().compute_1d_fe(lst, hist=True)[0]
            w = vb().compute_1d_fe(lst, bins=150, hist=True)[0]
            c.close(np.asarray(g), np.asarray(w), "default bins", rtol=1e-12)
    h = vb().compute_1d_fe(lst, bins=nb, kT=kT, hist=True)
    c.close(h[1], p, "histogram", rtol=1e-12, atol=1e-12)


def large(c):
    """Thousands of samples, many trajectories, many bins."""
    n = c.choose("samples", [1500, 6007])
    nb = c.choose("bins", [30, 101, "auto"])
    k = c.choose("trajectories", [1, 2, 12])
    kT = c.choose("kT", [1.0, 2.494])
    x, v, a = series(n, 6)[:, 0], series(n, 2)[:, 0], series(n, 3)[:, 0]
    cuts = [int(n * (i / k) ** 1.4) for i in range(1, k)]
    r = vb().compute_1d_fe(split(x, v, a, cuts), bins=nb, kT=kT)
    edges = np.histogram_bin_edges(x, bins="auto") if nb == "auto" else np.linspace(x.min(), x.max(), nb)
    idx = ref_bins(x, edges)
    occ = np.bincount(idx, minlength=len(edges) - 1)
    keep = np.nonzero(occ)[0]
    p = occ / n
    xf = ((edges[1:] + edges[:-1]) / 2)[keep]
    fe = -np.log(p[keep])
    fe -= fe.min()
    sel = [idx == q for q in keep]
    mass = np.array([(v[s] ** 2).mean() for s in sel])
    force = -scipy.interpolate.splev(xf, scipy.interpolate.splrep(xf, fe, s=0), der=1) * kT / (v ** 2).mean()
    ft = scipy.interpolate.splev(xf, scipy.interpolate.splrep(xf, mass * p[keep], s=0), der=1) / p[keep]
    c.observe(r[1])
    for got, want, name in zip(r, (xf, fe, force, np.array([a[s].mean() for s in sel]), ft, mass), ("positions", "free energy", "force", "mean acceleration", "total force", "mean square velocity")):
        c.close(got, want, name, rtol=1e-8, atol=1e-10)
    h = vb().compute_1d_fe(split(x, v, a, cuts), bins=nb, kT=kT, hist=True)
    c.close(h[1], p, "histogram", rtol=1e-12, atol=1e-12)


def harnesses(tier):
    q = tier == "quick"
    return {
        "counts": (counts, {"samples": 3 if q else 5}, 3),
        "large": (large, {}, 1),
        "profile": (profile, {"samples": [40, 131] if q else [40, 60, 131, 400]}, 3),
    }
