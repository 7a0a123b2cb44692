"""Truncation: a longer truncation only adds later values; correlations and kernels have
one value per time step up to the truncation time, and never use data that are not there."""
import numpy as np

from .common import MODELS, METHODS, vb, make_xva, basis_specs, estimator, reference, columns, cond, growth

BOUNDS = "trajectories of 24 to 40 times, every truncation time between 0.5 and 24.5 time steps, time steps 0.5, 0.25 and 1, 1 to 4 trajectories with the shortest at every place, all methods, all 6 models; truncations of up to 420 values of up to 1500 times"


def frame(n, seed, dt, t0):
    return make_xva(n, seed=seed, d=1, dt=dt, t0=t0 * dt)


LENGTHS = [(30,), (24, 30), (30, 24), (26, 30, 12), (26, 12, 30), (12, 26, 30), (30, 12, 26, 20), (30, 26, 12, 20)]


def count(c):
    """Number of values and time axes for every truncation time."""
    v = vb()
    model = c.choose("model", ["Pos_gle", "Pos_gle_overdamped"])
    dt = c.choose("time step", [0.5, 0.25, 1.0])
    lens = c.choose("lengths", LENGTHS)
    origin = c.choose("time origin", [0, 1, 3])
    k = c.choose("truncation", c.params["trunc"])
    dss = [frame(n, 3 + i, dt, origin) for i, n in enumerate(lens)]
    est = v.Estimator_gle(dss, getattr(v, model), basis_specs()["linear"].make(True), trunc=(k + 0.5) * dt, saveall=False, verbose=False)
    want = min(k + 1, min(lens))
    got = int(est.trunc_ind)
    c.observe(got)
    c.check(int(est.model.trunc_ind) == got, "model and estimator agree")
    # listed finding: times are compared with the truncation as they are, origin included
    last = min((n - 1 + origin) for n in lens)
    absolute = sum(1 for i in range(lens[0]) if i + origin <= min(k + 0.5, last))
    if got != want and got == absolute:
        c.soft(lambda: c.check(False, "origin of time", "%d values, %d times lie within the truncation" % (got, want)))
        want = got
    c.check(got == want, "number of times up to the truncation", "%d values, %d times lie within the truncation" % (got, want))
    c.skip_if(want < 1 or want > min(lens))
    est.compute_mean_force()
    est.compute_corrs()
    for name in ("bkbkcorrw", "bkdxcorrw", "dotbkbkcorrw", "dotbkdxcorrw"):
        c.check(getattr(est, name).sizes["time_trunc"] == want, "length of the correlations", name)
    if want >= 3:
        est.compute_kernel()
        t = est.model.kernel["time_kernel"].values
        c.close(t, np.arange(len(t)) * dt, "kernel times", rtol=1e-12)
        c.check(t[-1] <= (k + 0.5) * dt, "kernel within the truncation")


def prefix(c):
    """Correlations and kernel of a shorter truncation are the beginning of a longer one."""
    model = c.choose("model", MODELS)
    bname = c.choose("basis", ["linear", "poly3"])
    method = c.choose("method", METHODS)
    second = c.choose("second trajectory", [None, 33])
    Tmax = c.params["Tmax"]
    T = c.choose("shorter truncation", range(4, Tmax))
    c.skip_if(method == "midpoint_w_richardson" and T < 6)
    spec = basis_specs()[bname]
    dss = [make_xva(40, seed=5)] + ([make_xva(second, seed=8)] if second else [])
    out = []
    for n in (T, Tmax):
        est = estimator(model, spec.make(True), dss, n)
        est.compute_mean_force()
        est.compute_corrs()
        est.compute_kernel(method=method)
        out.append(est)
    a, b = out
    for name in ("bkbkcorrw", "bkdxcorrw", "dotbkbkcorrw", "dotbkdxcorrw"):
        u, w = getattr(a, name).values, getattr(b, name).values
        c.close(u, w[:, :, :T], "correlations: " + name, rtol=1e-12, atol=1e-13)
    ku, kw = a.model.kernel.values, b.model.kernel.values
    n = len(ku)
    c.observe(ku)
    if method in ("rect", "rectangular"):
        n -= 1
    c.close(ku[:n], kw[:n], "kernel", rtol=1e-7, scale=growth(kw[:n]))
    if method in ("rect", "rectangular"):
        if np.all(ku[n:] == 0):  # listed finding
            c.soft(lambda: c.close(ku[n:], kw[n : n + 1], "last value", rtol=1e-7, scale=growth(kw[: n + 1])))
        else:
            c.close(ku[n:], kw[n : n + 1], "last value of the kernel", rtol=1e-7, scale=growth(kw[: n + 1]))
    c.close(a.model.kernel["time_kernel"].values, b.model.kernel["time_kernel"].values[: len(ku)], "kernel times", rtol=1e-12)


def large(c):
    """Long truncations, one and several long trajectories."""
    model = c.choose("model", ["Pos_gle", "Pos_gle_const_kernel", "Pos_gle_overdamped"])
    lens = c.choose("lengths", [(1500,), (700, 450, 900)])
    method = c.choose("method", ["second_kind_rect", "second_kind_trapz"])
    T = c.choose("shorter truncation", [60, 101, 128, 200, 256, 400])
    spec = basis_specs()["linear"]
    dss = [make_xva(n, seed=5 + 3 * i) for i, n in enumerate(lens)]
    out = []
    for n in (T, 420):
        est = estimator(model, spec.make(True), dss, n)
        c.check(int(est.trunc_ind) == n, "number of times up to the truncation")
        est.compute_mean_force()
        est.compute_corrs()
        est.compute_kernel(method=method)
        out.append(est)
    a, b = out
    for name in ("bkbkcorrw", "bkdxcorrw", "dotbkbkcorrw", "dotbkdxcorrw"):
        u, w = getattr(a, name).values, getattr(b, name).values
        c.check(u.shape[-1] == T and w.shape[-1] == 420, "length of the correlations")
        c.close(u, w[:, :, :T], "correlations: " + name, rtol=1e-11, atol=1e-12)
    ku, kw = a.model.kernel.values, b.model.kernel.values
    c.observe(ku[::13])
    c.check(len(ku) == T and len(kw) == 420, "length of the kernel")
    c.close(ku, kw[:T], "kernel", rtol=1e-7, scale=growth(kw[:T]))
    c.close(a.model.kernel["time_kernel"].values, np.arange(T) * 0.5, "kernel times", rtol=1e-12)


def late_data(c):
    """The first kernel values only depend on correlations up to the same time: changing the
    correlations at one later time leaves them alone, at that time it changes them."""
    import xarray as xr

    from .c11 import matrices

    method = c.choose("method", METHODS)
    T = c.choose("correlation length", [6, 9, 12])
    nb = c.choose("basis functions", [1, 2])
    what = c.choose("changed", ["bkbk", "bkdx", "dotbkbk", "dotbkdx"])
    at = c.choose("at", range(1, T))
    B, Bd = matrices(nb, T, 1)
    t = np.arange(T) * 0.5
    D = np.array([[0.3 * np.cos(0.8 * t + i + 0.4)] for i in range(nb)])
    Dd = np.array([[0.3 * np.sin(0.8 * t + i + 0.4)] for i in range(nb)])
    ks = []
    for change in (False, True):
        m = {"bkbk": B.copy(), "dotbkbk": Bd.copy(), "bkdx": D.copy(), "dotbkdx": Dd.copy()}
        if change:
            m[what][..., at] += 0.37
        est = estimator("Pos_gle", basis_specs()["linear"].make(True), make_xva(30, d=1), T)
        est.compute_mean_force()
        for k, w in m.items():
            second = "dim_basis" if k.endswith("bkbk") else "dim_o"
            first = "dim_basis'" if k.endswith("bkbk") else "dim_basis"
            setattr(est, k + "corrw", xr.DataArray(w, dims=(first, second, "time_trunc")))
        est.compute_kernel(method=method)
        ks.append(est.model.kernel)
    # first kernel index that may use the correlation at time index `at`
    if method in ("rect", "rectangular"):
        first = at - 1
    elif method == "midpoint":
        first = at // 2 if at % 2 else None
    elif method == "midpoint_w_richardson":
        first = 0
    elif method == "trapz":
        first = max(1, at - 1)
    else:
        first = at
    same = np.all(np.abs(ks[0].values - ks[1].values) < 1e-12, axis=(1, 2))
    c.observe(same.astype(int))
    if first is None:
        c.check(same.all(), "unused values")
        return
    c.check(same[:first].all(), "causality", "kernel value %d depends on a later correlation" % int(np.argmin(same[:first])) if first else "")
    used = {"rect": ("bkbk", "bkdx"), "rectangular": ("bkbk", "bkdx"), "midpoint": ("bkbk", "bkdx"), "trapz": ("bkbk", "bkdx"), "second_kind_rect": ("dotbkbk", "dotbkdx"), "second_kind_trapz": ("dotbkbk", "dotbkdx")}.get(method, ())
    if what in used and first < len(same):
        c.check(not same[first], "the correlation of its own time is used", "kernel value %d does not depend on %s at time %d" % (first, what, at))
    if used and what not in used:
        c.check(same.all(), "correlations that do not enter", what)


def harnesses(tier):
    q = tier == "quick"
    return {
        "count": (count, {"trunc": list(range(1, 27)) if q else list(range(1, 32))}, 3),
        "prefix": (prefix, {"Tmax": 14 if q else 25}, 3),
        "late data": (late_data, {}, 2),
        "large": (large, {}, 3),
    }
