"""The correlation matrices of an estimator are the correlations of the model's own
basis vectors, whatever the way they are computed; the projection onto the range of the
basis keeps everything that the data contain."""
import numpy as np

from .common import MODELS, DEFAULT_OBS, vb, make_xva, basis_specs, estimator, reference, admissible, is_removed, cond, growth, series
from . import large as L_

BOUNDS = "all 6 models, 8 bases with and without the constant, 1 to 3 dimensions, both correlation methods, vectorised or not, with and without derivative correlations, correlation lengths 2 to 12 and the whole trajectory, every rank tolerance between two singular values; 3001 and 66000 times and 13 trajectories with up to 12 functions and 150 correlation times; trajectories of integers"

WAYS = [("fft", False), ("fft", True), ("direct", False), ("direct", True)]


def named(da, dims):
    return da.transpose(*dims).values


def projector(c, m, est, full, where):
    """Checks P and returns it (identity when the model does not project)."""
    C0 = full[:, :, 0]
    if not m.rank_projection:
        return np.eye(len(C0))
    P = named(m.P_range, ("dim_basis", "dim_basis_old"))
    c.close(P @ P.T, np.eye(len(P)), where + ": orthonormal rows", rtol=0, atol=1e-9)
    return P


def compare(c, est, ref, P, second, tol, scale_obs):
    obs = est.bkdxcorrw.dims[1]
    c.close(named(est.bkbkcorrw, ("dim_basis'", "dim_basis", "time_trunc")), np.einsum("ai,bj,ijn->abn", P, P, ref.bkbk), "basis correlation", rtol=1e-9)
    c.close(named(est.bkdxcorrw, ("dim_basis", obs, "time_trunc")), np.einsum("ai,ijn->ajn", P, ref.bkdx), "force correlation", rtol=tol, scale=scale_obs)
    if second:
        c.close(named(est.dotbkbkcorrw, ("dim_basis'", "dim_basis", "time_trunc")), np.einsum("ai,bj,ijn->abn", P, P, ref.dbkbk), "derivative correlation", rtol=1e-9)
        c.close(named(est.dotbkdxcorrw, ("dim_basis", obs, "time_trunc")), np.einsum("ai,ijn->ajn", P, ref.dbkdx), "derivative force correlation", rtol=tol, scale=scale_obs + growth(ref.dbkdx))
    else:
        c.close(named(est.dotbkdxcorrw, ("dim_basis", obs, "time_trunc")), np.einsum("ai,ijn->ajn", P, ref.dbkdx[:, :, :1]), "derivative force correlation at zero", rtol=tol, scale=scale_obs + growth(ref.dbkdx))


def matrices(c):
    model = c.choose("model", MODELS)
    bname = c.choose("basis", list(basis_specs()))
    d = c.choose("dimension", [1, 2, 3])
    rm = c.choose("remove_const", [True, False])
    spec = basis_specs()[bname]
    c.skip_if(not admissible(model, spec, d, rm) or (not rm and not spec.removable))
    way = c.choose("way", [("%s%s" % (m, " vectorised" if v else ""), [m, v]) for m, v in WAYS])
    second = c.choose("derivative correlations", [True, False])
    n, T = c.choose("length and truncation", c.params["sizes"])
    obs = c.choose("observable", c.params["obs"])
    dss = [make_xva(n, seed=4, d=d, extra=("f",))]
    if c.params.get("two"):
        dss.append(make_xva(n + 7, seed=9, d=d, extra=("f",)))
    L = None if obs == "default" else obs
    est = estimator(model, spec.make(rm), dss, T, **({} if L is None else {"L_obs": L}))
    est.compute_mean_force()
    kw = dict(method=way[0], vectorize=way[1])
    if not second:
        kw["second_order_method"] = False
    if bname == "bspline":
        kw["rank_tol"] = 1e-9
    m = est.compute_corrs(**kw)
    c.check(m is est.model, "the model is returned")
    ref = reference(model, spec, dss, T, rm, L_obs=L, force=est.model.force_coeff.values)
    P = projector(c, m, est, ref.bkbk, "projection")
    C0 = ref.bkbk[:, :, 0]
    if m.rank_projection:
        ev = np.linalg.eigvalsh(C0)
        rank = int((ev > 1e-9 * max(1.0, ev.max())).sum())
        c.check(len(P) == rank, "rank", "%d directions are kept, the correlations have rank %d" % (len(P), rank))
        c.close(P.T @ P @ C0, C0, "range", rtol=1e-8)
    c.observe(est.bkbkcorrw.values if way[1] is None else np.round(np.sort(np.abs(est.bkbkcorrw.values).ravel()), 5))
    compare(c, est, ref, P, second, 1e-9, growth(ref.bkdx) + growth(ref.disp) + growth(ref.gram) * growth(ref.force))


def impulses(c):
    """Correlations are bilinear in the observable and the velocities: unit impulses in
    one column and one component at every time."""
    model = c.choose("model", MODELS)
    n = c.params["length"]
    d = c.choose("dimension", [1, 2])
    at = c.choose("time of the impulse in v", range(n))
    comp = c.choose("component", range(d))
    oat = c.choose("time of the impulse in the observable", range(n))
    import xarray as xr

    ds = make_xva(n, seed=3, d=d)
    v = np.zeros((n, d))
    v[at, comp] = 1.0
    o = np.zeros((n, 2))
    o[oat, 1] = 1.0
    ds = ds.assign({"v": (["time", "dim_x"], v), "o": (["time", "dim_o"], o)})
    spec = basis_specs()["linear"]
    est = estimator(model, spec.make(True), ds, n, L_obs="o")
    est.set_zero_force()
    est.model.rank_projection = False
    est.compute_corrs()
    ref = reference(model, spec, [ds], n, True, L_obs="o", force=est.model.force_coeff.values)
    c.observe(est.bkdxcorrw.values)
    compare(c, est, ref, np.eye(ref.bkbk.shape[0]), True, 1e-10, 1.0)


def tolerance(c):
    """For every tolerance between two singular values, exactly the larger ones are kept."""
    model = c.choose("model", ["Pos_gle", "Pos_gle_overdamped"])
    bname, d = c.choose("basis", [("linear", 2), ("linear", 3), ("poly3", 1), ("fourier1", 1), ("bspline", 1)])
    rm = False
    spec = basis_specs()[bname]
    dss = [make_xva(40, seed=4, d=d)]
    ref = reference(model, spec, dss, 3, rm)
    ev = np.sort(np.linalg.eigvalsh(ref.bkbk[:, :, 0]))[::-1]
    keep = c.choose("directions kept", range(1, len(ev)))
    c.skip_if(not ev[keep] < 0.9 * ev[keep - 1])
    tol = 0.5 * (max(ev[keep], 0.0) + ev[keep - 1])
    c.skip_if(tol < 1e-9)
    if model == "Pos_gle":
        est = estimator(model, spec.make(rm), dss, 3)
    else:
        v = vb()

        class Projected(v.Pos_gle_overdamped):
            def __init__(self, *a, **k):
                v.Pos_gle_overdamped.__init__(self, *a, rank_projection=True, **k)

        est = v.Estimator_gle(dss, Projected, spec.make(rm), trunc=2 * 0.5 + 0.01, saveall=False, verbose=False)
    est.compute_mean_force()
    est.compute_corrs(rank_tol=tol)
    ref = reference(model, spec, dss, 3, rm, force=est.model.force_coeff.values)
    P = projector(c, est.model, est, ref.bkbk, "projection")
    c.check(P.shape == (keep, len(ev)), "number of directions", "shape %s" % (P.shape,))
    got = np.sort(np.linalg.eigvalsh(P @ ref.bkbk[:, :, 0] @ P.T))[::-1]
    c.observe(got)
    c.close(got, ev[:keep], "largest directions", rtol=1e-9)
    compare(c, est, ref, P, True, 1e-9, growth(ref.bkdx) + growth(ref.disp) + growth(ref.gram) * growth(ref.force))


def default_tolerance(c):
    """Directions far above rounding are kept, those that the data do not contain are not."""
    from .common import bf

    deg = c.choose("degree", [2, 3])
    d = c.choose("dimension", [1, 2])
    e = c.choose("extent of the data, power of 2", [0, -3, -6, -8, -10])
    lens = c.choose("lengths", [(60,), (31, 40)])
    method = c.choose("method", ["fft", "direct"])
    still = c.choose("last coordinate", ["moves", "stands still"])
    c.skip_if(still == "stands still" and d == 1)
    u = 2.0 ** e
    dss = []
    for i, n in enumerate(lens):
        ds = make_xva(n, seed=4 + i, d=d)
        w = np.ones(d)
        if still == "stands still":
            w[-1] = 0.0
        dss.append(ds.assign({k: (["time", "dim_x"], np.asarray(ds[k]) * u * (w if k == "v" else 1.0)) for k in ("x", "v", "a")}))
    T = 4
    est = vb().Estimator_gle(dss, vb().Pos_gle, bf().PolynomialFeatures(deg=deg, remove_const=False), trunc=(T - 1) * 0.5 + 0.01, saveall=False, verbose=False)
    est.set_zero_force()
    est.compute_corrs(method=method)
    C = named(est.bkbkcorrw, ("dim_basis'", "dim_basis", "time_trunc"))
    P = projector(c, est.model, est, C, "projection")
    # the functions n x^(n-1) v of the coordinates, with the vanishing ones of the constant
    E = []
    for ds in dss:
        x, v = np.asarray(ds["x"]), np.asarray(ds["v"])
        E.append(np.concatenate([n * x ** max(n - 1, 0) * v for n in range(deg + 1)], 1))
    s = np.concatenate([np.full(d, u ** max(n, 1)) for n in range(deg + 1)])
    want = deg * (d - (still == "stands still"))
    c.observe(P.shape)
    c.check(len(P) == want, "rank", "%d directions are kept, the data contain %d" % (len(P), want))
    N = [len(x) for x in E]
    for k in range(T):
        ref = sum(n * (x[: len(x) - k].T @ x[k:] / (len(x) - k)) for n, x in zip(N, E)) / sum(N)
        got = P.T @ C[:, :, k] @ P
        # in units of the functions, up to the rounding of the largest
        c.close(got, P.T @ (P @ ref @ P.T) @ P, "projected correlation", rtol=1e-9)
    ref = sum(n * (x.T @ x / len(x)) for n, x in zip(N, E)) / sum(N)
    c.close((P.T @ P @ ref - ref) / np.outer(s, s), np.zeros_like(ref), "small functions are kept", rtol=0, atol=1e-13 * u ** (2 - 2 * deg) + 1e-9)


def large(c):
    """3001 times, 13 and 30 trajectories; up to 12 functions; 150 correlation times."""
    model, spec, dss, d = L_.instance(c, bases=("linear 1", "fourier 5", "bspline 12", "linear 6"), data=("long", "many", "integers"))
    c.skip_if(model == "Pos_gle_with_friction" and spec.name == "bspline 12")
    way = c.choose("way", [("%s%s" % (m, " vectorised" if v else ""), [m, v]) for m, v in WAYS])
    second = c.choose("derivative correlations", [True, False])
    T = L_.truncation(dss)
    est = L_.build(model, spec, dss, T)
    est.set_zero_force()
    kw = dict(method=way[0], vectorize=way[1])
    if not second:
        kw["second_order_method"] = False
    if spec.name.startswith("bspline"):
        kw["rank_tol"] = 1e-9
    m = est.compute_corrs(**kw)
    ref = L_.reference(model, spec, dss, T, force=est.model.force_coeff.values)
    P = projector(c, m, est, ref.bkbk, "projection")
    C0 = ref.bkbk[:, :, 0]
    c.close(P.T @ P @ C0, C0, "range", rtol=1e-8)
    c.observe(np.round(np.sort(np.abs(est.bkbkcorrw.values).ravel()), 5)[::97])
    compare(c, est, ref, P, second, 1e-9, growth(ref.bkdx) + growth(ref.disp))


def harnesses(tier):
    q = tier == "quick"
    return {
        "matrices": (matrices, {"sizes": [(25, 5), (32, 32), (33, 2)] if q else [(25, 5), (32, 32), (33, 2), (31, 30), (64, 31), (65, 12), (200, 150)], "obs": ["default", "f"]}, 4),
        "several": (matrices, {"sizes": [(25, 5)], "obs": ["default"], "two": True}, 4),
        "impulses": (impulses, {"length": 4 if q else 7}, 3),
        "tolerance": (tolerance, {}, 2),
        "default tolerance": (default_tolerance, {}, 1),
        "large": (large, {}, 3),
    }
