"""The evaluation functions return the function that the coefficients describe, at any
points, in any form of the input, for stored and for given coefficients."""
import warnings

import numpy as np

from .common import MODELS, DEFAULT_OBS, vb, make_xva, basis_specs, estimator, admissible, columns, is_removed, growth, snapshot, same_snapshot
from . import large as L_

BOUNDS = "all 6 models and 8 bases, 1 to 3 dimensions, with and without the constant, 2 observables, 6 forms of the input points, single points and up to 11 at once, stored and given coefficients (every unit coefficient), 3 temperatures; every sequence of 2 changes (3 in the thorough tier) of points, coefficients, kernel and mass between evaluations; trajectories of integers; up to 5003 points, kernels of 1500 values, 11 functions and 6 components"

FORMS = ["array", "list", "flat array", "tuple of rows", "dataset", "trajectory", "non contiguous"]


def points(spec, d, data, n):
    lo, hi = data.min(0), data.max(0)
    g = np.linspace(0, 1, n) if n > 1 else np.array([0.37])
    return np.stack([lo[i] + (hi[i] - lo[i]) * (g if i == 0 else np.roll(g, i)) for i in range(d)], 1)


def give(form, X):
    import xarray as xr

    n, d = X.shape
    if form == "array":
        return X.copy()
    if form == "list":
        return X.tolist()
    if form == "tuple of rows":
        return tuple(tuple(r) for r in X)
    if form == "flat array":
        return X.ravel().copy()
    if form == "dataset":
        return xr.Dataset({"x": (["time", "dim_x"], X.copy())})
    if form == "trajectory":
        ds = make_xva(n, seed=9, d=d, t0=3.0)
        return ds.assign({"x": (["time", "dim_x"], X.copy())})
    if form == "non contiguous":
        big = np.full((2 * n, 2 * d), np.nan)
        big[::2, ::2] = X
        return big[::2, ::2]
    raise KeyError(form)


def prepared(c, with_kernel=True):
    model = c.choose("model", MODELS)
    bname = c.choose("basis", list(basis_specs()))
    spec = basis_specs()[bname]
    d = c.choose("dimension", [1, 2, 3])
    rm = c.choose("remove_const", [True, False])
    c.skip_if(not admissible(model, spec, d, rm) or (not rm and not spec.removable))
    obs = c.choose("observable", c.params["obs"])
    c.skip_if(obs == "g2" and model in ("Pos_gle_const_kernel", "Pos_gle_hybrid"))
    ds = make_xva(60, seed=4, d=d)
    ds = ds.assign({"g2": (["time", "dim_g"], np.sin(1.0 + np.arange(180.0)).reshape(60, 3))})
    est = estimator(model, spec.make(rm), ds, 5, **({} if obs == "default" else {"L_obs": obs}))
    est.compute_mean_force()
    if with_kernel:
        est.compute_corrs(**({"rank_tol": 1e-9} if bname == "bspline" else {}))
        est.compute_kernel(method="rect")
    x = np.asarray(ds["x"])
    return model, bname, spec, d, rm, obs, est, x


def unchanged(c, arg, before):
    if hasattr(arg, "variables"):
        c.check(same_snapshot(snapshot(arg), before), "points are left alone")
    else:
        c.check(np.array_equal(np.asarray(arg), before), "points are left alone")


def keep(arg):
    return snapshot(arg) if hasattr(arg, "variables") else np.array(arg)


def force(c):
    model, bname, spec, d, rm, obs, est, x = prepared(c, False)
    form = c.choose("form", FORMS)
    n = c.choose("points", [1, 2, 11])
    X = points(spec, d, x, n)
    m = est.model
    ref = spec.ref([x])
    arg = give(form, X)
    before = keep(arg)
    F = m.force_coeff.values.copy()
    pos = F[: ref.K]
    s = growth(ref.val(X)) * growth(F)
    got = np.asarray(m.force_eval(arg))
    c.observe(got)
    c.close(got, ref.val(X) @ pos, "force", rtol=1e-11, scale=s)
    c.close(np.asarray(est.force_eval(arg)), got, "same through the estimator", rtol=0, atol=0)
    unchanged(c, arg, before)
    c.close(m.force_coeff.values, F, "coefficients are left alone", rtol=0, atol=0)
    if n > 1:
        one = np.concatenate([np.asarray(m.force_eval(give(form, X[i : i + 1]))) for i in range(n)])
        c.close(one, got, "point by point", rtol=1e-12, scale=s)
        perm = np.arange(n)[::-1]
        c.close(np.asarray(m.force_eval(give(form, X[perm]))), got[perm], "order of the points", rtol=1e-12, scale=s)
    if model == "Pos_gle_with_friction":
        d1 = ref.d1(X)[:, ref.kept if is_removed(model, spec, rm) else slice(None)]
        fr = np.asarray(m.friction_force_eval(arg))
        c.close(fr, np.einsum("nkd,kl->nld", d1, F[ref.K :]), "friction", rtol=1e-11, scale=growth(d1) * growth(F))


def given(c):
    """Given coefficients: every unit coefficient, as array or DataArray, whatever is stored."""
    import xarray as xr

    model, bname, spec, d, rm, obs, est, x = prepared(c, False)
    c.skip_if(model == "Pos_gle_with_friction")  # no coefficients can be given
    m = est.model
    X = points(spec, d, x, 5)
    ref = spec.ref([x])
    V = ref.val(X)
    o = m.force_coeff.shape[1]
    stored = c.choose("stored", ["mean force", "nothing"])
    kind = c.choose("given as", ["array", "DataArray"])
    if stored == "nothing":
        m.force_coeff = None
    for k in range(ref.K):
        for l in range(o):
            w = np.zeros((ref.K, o))
            w[k, l] = -0.75
            arg = w.copy() if kind == "array" else xr.DataArray(w.copy(), dims=("dim_basis", "dim_x" if obs == "default" else "dim_g"))
            c.op()
            got = np.asarray(m.force_eval(X, coeffs=arg))
            c.close(got, V @ w, "force of given coefficients", rtol=1e-11, scale=growth(V), msg="coefficient %d,%d" % (k, l))
            c.check(np.array_equal(np.asarray(arg), w), "coefficients are left alone")
    c.observe(got)
    c.check((m.force_coeff is None) == (stored == "nothing"), "stored coefficients are left alone")


def pmf(c):
    model, bname, spec, d, rm, obs, est, x = prepared(c, False)
    c.skip_if(obs != "default" or bname in ("combined", "tensor"))
    mass = c.choose("mass", ["not computed", "effective mass", "overridden"])
    kT = c.choose("kT", [None, 0.5, 2.494])
    zero = c.choose("set_zero", [None, True, False])
    form = c.choose("form", ["array", "flat array", "dataset"])
    co = c.choose("coefficients", ["stored", "given"])
    import xarray as xr

    m = est.model
    M = np.eye(d)
    if mass == "effective mass":
        est.compute_effective_mass()
        M = m.eff_mass.values
    elif mass == "overridden":
        M = 2.0 * np.eye(d) + 0.25
        m.eff_mass = xr.DataArray(M, dims=("dim_x'", "dim_x"))
    X = points(spec, d, x, 9)
    ref = spec.ref([x])
    A = ref.anti(X)
    w = m.force_coeff.values[: ref.K]
    kw = {}
    if co == "given":
        w = np.cos(np.arange(w.size, dtype=float)).reshape(w.shape)
        kw["coeffs"] = w.copy()
    if kT is not None:
        kw["kT"] = kT
    if zero is not None:
        kw["set_zero"] = zero
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        got = np.asarray(m.pmf_eval(give(form, X), **kw))
    want = -A @ w / (kT or 1.0)
    if model != "Pos_gle_overdamped":
        want = want @ M
    s = growth(A) * growth(w) * growth(M) / (kT or 1.0)
    c.observe(got)
    c.close(got - got[:1], want - want[:1], "free energy differences", rtol=1e-9, scale=s)
    c.close(got - got.flat[0], want - want.flat[0], "free energy differences between the columns", rtol=1e-9, scale=s)
    if zero is not False:
        c.check(abs(float(got.min())) < 1e-12 * (1 + s), "zero minimum", str(got.min()))
    else:
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            one = np.concatenate([np.asarray(m.pmf_eval(give(form, X[i : i + 1]), **kw)) for i in range(len(X))])
        c.close(one, got, "point by point", rtol=1e-12, scale=s)


def kernel(c):
    import xarray as xr

    model, bname, spec, d, rm, obs, est, x = prepared(c)
    form = c.choose("form", c.params["forms"])
    n = c.choose("points", [1, 2, 6])
    co = c.choose("coefficients", ["stored", "given array", "given DataArray", "given shorter", "given longer"])
    c.skip_if(model == "Pos_gle_hybrid" and co != "stored")
    m = est.model
    X = points(spec, d, x, n)
    ref = spec.ref([x])
    K = m.kernel.values.copy()
    o = m.kernel.dims[2]
    if model in ("Pos_gle", "Pos_gle_with_friction"):
        E = ref.d1(X)[:, ref.kept if is_removed(model, spec, rm) else slice(None)]
        if m.rank_projection:
            E = np.einsum("nkd,rk->nrd", E, m.P_range.values)
    elif model == "Pos_gle_const_kernel":
        E = np.tile(np.eye(d), (n, 1, 1))
    else:
        E = np.repeat(ref.val(X)[:, :, None], d, 2)
    kw = {}
    if co != "stored":
        K = np.sin(0.3 + np.arange(K.size, dtype=float)).reshape(K.shape)
        if co == "given shorter":
            K = K[:2]
        elif co == "given longer":
            K = np.concatenate([K, 0.5 * K, -K])
        kw["coeffs_ker"] = K.copy() if co != "given DataArray" else xr.DataArray(K.copy(), dims=m.kernel.dims, coords={"time_kernel": np.arange(len(K)) * 0.5})
    if model == "Pos_gle_hybrid":
        part = np.asarray(m.get_const_kernel_part())
        c.close(part.reshape(len(K), -1), K[:, :d].reshape(len(K), -1), "position independent part", rtol=0, atol=0)
        K = K[:, d:]
    arg = give(form, X)
    before = keep(arg)
    got = m.kernel_eval(arg, **kw)
    want = np.einsum("tko,nkd->tnod", K, E)
    g = np.asarray(got.transpose("time_kernel", "time", o, "dim_x'"))
    s = growth(K) * growth(E)
    c.observe(g)
    c.close(g, want, "kernel", rtol=1e-11, scale=s)
    unchanged(c, arg, before)
    if co == "stored":
        c.close(np.asarray(got["time_kernel"]), np.arange(len(K)) * 0.5, "times of the kernel", rtol=1e-12)
    if n > 1:
        for i in range(n):
            one = m.kernel_eval(give(form, X[i : i + 1]), **kw)
            c.close(np.asarray(one.transpose("time_kernel", "time", o, "dim_x'"))[:, 0], g[:, i], "point by point", rtol=1e-12, scale=s)


def large(c):
    """Thousands of points, kernels of hundreds of values, many functions and components."""
    import xarray as xr

    model, spec, dss, d = L_.instance(c, bases=("linear 1", "fourier 5", "linear 6"), data=("many", "integers"))
    n, M = c.choose("points and kernel values", [(5003, 4), (700, 40), (3, 1500)])
    est = L_.build(model, spec, dss, 6)
    est.compute_mean_force()
    m = est.model
    m.rank_projection = False
    x = np.concatenate([columns(ds)[0] for ds in dss])
    X = np.concatenate([x] * (1 + n // len(x)))[:n]
    ref = spec.ref([columns(ds)[0] for ds in dss])
    F = m.force_coeff.values
    V = ref.val(X[: len(x)])
    V = np.concatenate([V] * (1 + n // len(x)))[:n]
    c.close(np.asarray(m.force_eval(X)), V @ F[: ref.K], "force", rtol=1e-11, scale=growth(V) * growth(F))
    if model in ("Pos_gle", "Pos_gle_with_friction"):
        E = ref.d1(X[: len(x)])[:, ref.kept if is_removed(model, spec, True) else slice(None)]
        E = np.concatenate([E] * (1 + n // len(x)))[:n]
    elif model == "Pos_gle_const_kernel":
        E = np.tile(np.eye(d), (n, 1, 1))
    else:
        E = np.repeat(V[:, :, None], d, 2)
    o = F.shape[1]
    nb = E.shape[1] + (d if model == "Pos_gle_hybrid" else 0)
    t = np.arange(M)[:, None, None]
    K = np.exp(-0.01 * t) * np.cos(0.3 * t + np.arange(nb)[None, :, None] - 0.7 * np.arange(o)[None, None, :])
    m.kernel = xr.DataArray(K, dims=("time_kernel", "dim_basis", m.force_coeff.dims[1]), coords={"time_kernel": np.arange(M) * 0.5})
    if model == "Pos_gle_hybrid":
        c.close(np.asarray(m.get_const_kernel_part()).reshape(M, -1), K[:, :d].reshape(M, -1), "position independent part", rtol=0, atol=0)
        K = K[:, d:]
    got = m.kernel_eval(X)
    g = np.asarray(got.transpose("time_kernel", "time", m.kernel.dims[2], "dim_x'"))
    c.observe(g[::40, ::300])
    c.close(g, np.einsum("tko,nkd->tnod", K, E), "kernel", rtol=1e-11, scale=growth(K) * growth(E))
    c.close(np.asarray(got["time_kernel"]), np.arange(M) * 0.5, "times of the kernel", rtol=1e-12)


OPS = ["points in place", "dataset in place", "other points", "force coefficients in place", "kernel in place", "new force coefficients", "new kernel", "mass", "given coefficients"]


def histories(c):
    """Every sequence of evaluations and changes: each evaluation is that of the present points,
    coefficients and mass, as by a model that has never been evaluated before."""
    import copy

    import xarray as xr

    model = c.choose("model", MODELS)
    bname = c.choose("basis", ["linear", "poly3", "combined"])
    d = c.choose("dimension", [1, 2])
    spec = basis_specs()[bname]
    c.skip_if(not admissible(model, spec, d, True))
    ds0 = make_xva(60, seed=4, d=d)
    est = estimator(model, spec.make(True), ds0, 5)
    est.compute_mean_force()
    est.compute_corrs()
    est.compute_kernel(method="rect")
    m = est.model
    m.eff_mass = xr.DataArray(np.eye(d), dims=("dim_x'", "dim_x"))
    pristine = copy.deepcopy(m)
    x = np.asarray(ds0["x"])
    P = points(spec, d, x, 4)
    D = give("dataset", P)
    S = {"F": m.force_coeff.values.copy(), "K": m.kernel.values.copy(), "M": np.eye(d)}

    def evaluate(mod, pts):
        out = [np.asarray(mod.force_eval(pts)), np.asarray(mod.kernel_eval(pts).transpose("time_kernel", "time", ...))]
        if model == "Pos_gle_with_friction":
            out.append(np.asarray(mod.friction_force_eval(pts)))
        try:
            with warnings.catch_warnings():
                warnings.simplefilter("ignore")
                out.append(np.asarray(mod.pmf_eval(pts, kT=0.7)))
        except NotImplementedError:
            pass
        return out

    def compare(pts, what):
        fresh = copy.deepcopy(pristine)
        fresh.force_coeff = xr.DataArray(S["F"].copy(), dims=pristine.force_coeff.dims)
        fresh.kernel = xr.DataArray(S["K"].copy(), dims=pristine.kernel.dims, coords={"time_kernel": np.arange(len(S["K"])) * 0.5})
        fresh.eff_mass = xr.DataArray(S["M"].copy(), dims=("dim_x'", "dim_x"))
        want = evaluate(fresh, np.array(pts["x"] if hasattr(pts, "variables") else pts))
        got = evaluate(m, pts)
        for i, (g, w) in enumerate(zip(got, want)):
            c.close(g, w, "evaluation " + str(i), rtol=1e-12, msg="evaluation %d after %s" % (i, what), scale=growth(w))
        if model != "x":
            c.close(np.asarray(est.force_eval(pts)), want[0], "evaluation of the estimator", rtol=1e-12, scale=growth(want[0]))
        c.observe(want[0])

    which = c.choose("evaluated at", ["array", "dataset", "both"])

    def all_points(what):
        if which != "dataset":
            compare(P, what)
        if which != "array":
            compare(D, what)

    all_points("preparation")
    for i in range(c.params["depth"]):
        op = c.choose("operation %d" % i, [o for o in OPS if not (which == "array" and o == "dataset in place")])
        c.op()
        if op == "points in place":
            P *= 0.8
        elif op == "dataset in place":
            D["x"].values[...] = 0.9 * D["x"].values
        elif op == "other points":
            P = P[::-1] * 0.95
        elif op == "force coefficients in place":
            m.force_coeff.values[...] = S["F"] = 1.5 * S["F"] + 0.1
        elif op == "kernel in place":
            m.kernel.values[...] = S["K"] = 0.5 * S["K"] - 0.1
        elif op == "new force coefficients":
            S["F"] = -S["F"] + 0.3
            m.force_coeff = xr.DataArray(S["F"].copy(), dims=m.force_coeff.dims)
        elif op == "new kernel":
            S["K"] = (-1.2 * S["K"] + 0.05)[: max(2, len(S["K"]) - 1)]
            m.kernel = xr.DataArray(S["K"].copy(), dims=m.kernel.dims, coords={"time_kernel": np.arange(len(S["K"])) * 0.5})
        elif op == "mass":
            S["M"] = S["M"] + 0.3
            m.eff_mass = xr.DataArray(S["M"].copy(), dims=("dim_x'", "dim_x"))
        elif model != "Pos_gle_with_friction":
            w = np.cos(np.arange(S["F"].size, dtype=float)).reshape(S["F"].shape)
            m.force_eval(P, coeffs=w)
        all_points(op)


def missing(c):
    """Evaluations without coefficients are refused."""
    model = c.choose("model", MODELS)
    call = c.choose("call", ["force_eval", "pmf_eval", "kernel_eval", "friction_force_eval"])
    d = c.choose("dimension", [1, 2])
    done = c.choose("after", ["nothing", "mean force"])
    est = estimator(model, basis_specs()["linear"].make(True), make_xva(20, d=d), 4)
    if done != "nothing":
        est.compute_mean_force()
        c.skip_if(call != "kernel_eval")
    m = est.model
    c.skip_if(not hasattr(m, call))
    try:
        getattr(m, call)(np.zeros((1, d)))
    except Exception as e:
        c.check("has not been computed" in str(e), "message", str(e))
        c.observe(str(e))
    else:
        c.check(False, "evaluation without coefficients is refused", call)


def inverse_mass(c):
    """The position dependent inverse mass in one dimension, for the models whose kernel and force bases are the same."""
    model = c.choose("model", ["Pos_gle_no_vel_basis", "Pos_gle_overdamped"])
    bname = c.choose("basis", list(basis_specs()))
    form = c.choose("form", FORMS)
    n = c.choose("points", [1, 2, 11])
    spec = basis_specs()[bname]
    c.skip_if(not admissible(model, spec, 1, True))
    ds = [make_xva(60, seed=4), make_xva(31, seed=6)]
    est = estimator(model, spec.make(True), ds, 5)
    est.compute_pos_effective_mass()
    x = np.concatenate([columns(q)[0] for q in ds])
    ref = spec.ref([columns(q)[0] for q in ds])
    A = ref.val(x)
    k = np.linalg.cond(A.T @ A)
    c.skip_if(k > 1e8)
    W = np.linalg.lstsq(A, np.concatenate([columns(q)[1] for q in ds]) ** 2, rcond=None)[0]
    X = points(spec, 1, x, n)
    arg = give(form, X)
    before = keep(arg)
    got = est.model.inv_mass_eval(arg)
    c.observe(got)
    c.check(got.size == n, "inverse mass", f"{got.size} values at {n} points")
    c.close(got.reshape(n), (ref.val(X) @ W).reshape(n), "inverse mass", rtol=1e-9 + 1e-13 * k, scale=growth(ref.val(X)) * growth(W))
    unchanged(c, arg, before)


def harnesses(tier):
    q = tier == "quick"
    return {
        "force": (force, {"obs": ["default", "g2"]}, 4),
        "given": (given, {"obs": ["default", "g2"]}, 4),
        "pmf": (pmf, {"obs": ["default"]}, 4),
        "kernel": (kernel, {"obs": ["default", "g2"], "forms": ["array", "dataset", "trajectory"] if q else FORMS}, 4),
        "histories": (histories, {"depth": 2 if q else 3}, 4),
        "missing": (missing, {}, 1),
        "inverse mass": (inverse_mass, {}, 3),
        "large": (large, {}, 1),
    }
