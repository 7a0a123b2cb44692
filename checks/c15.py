"""Projected correlations: the correlations of an operator with the noise propagated by the
projected dynamics, for every kind of operator and every model."""
import numpy as np

from .common import MODELS, DEFAULT_OBS, vb, make_xva, basis_specs, estimator, admissible, columns, is_removed, ref_vectors, growth, pooled, series
from . import large as L_

BOUNDS = "all 6 models and 8 bases, 1 and 2 dimensions, methods of rectangular and trapezoidal type, every kind of left operator, 1 and 2 trajectories; every unit impulse of kernel, residual and operator for trajectories of up to 6 times; 3001 times or 13 trajectories with kernels of up to 1100 values; trajectories of integers"

METHODS_P = ["rect", "second_kind_rect", "trapz", "second_kind_trapz"]


def propagate(method, r, K, E, dt):
    """Yields the noise at time n, defined on the first N-n points: what is left of the
    observable n steps later once the memory of those n steps has been taken out."""
    N, M = len(r), len(K)
    for n in range(M - 1 if "trapz" in method else M):
        out = np.array(r[n:], copy=True)
        for t in range(N - n):
            for j in range(n):
                if "trapz" in method:
                    out[t] += 0.5 * dt * (E[t + n - j] @ K[j] + E[t + n - 1 - j] @ K[j + 1])
                else:
                    out[t] += dt * E[t + n - j] @ K[j]
        yield n, out


def ref_projected(method, r, K, E, left, dt):
    N = len(r)
    return np.array([left[: N - n].T @ w / (N - n) for n, w in propagate(method, r, K, E, dt)])


def impulse(c):
    import xarray as xr

    method = c.choose("method", ["rect", "trapz", None])
    n = c.choose("trajectory", c.params["n"])
    M = c.choose("kernel", [2, 3, 4])
    at = c.choose("impulse of the velocity at", range(n))
    tau, i, l = c.choose("impulse of the kernel", [(k, i, l) for k in range(M) for i in range(2) for l in range(2)])
    lat = c.choose("impulse of the operator at", range(n))
    rat = c.choose("impulse of the observable at", [None] + list(range(n)))
    dt = 0.5
    c.skip_if(M > n)
    ds = make_xva(n, seed=2, d=2, dt=dt)
    v = np.zeros((n, 2))
    v[at, i] = 1.0
    o = np.zeros((n, 2))
    if rat is not None:
        o[rat, l] = 1.0
    left = np.zeros((n, 1))
    left[lat] = 1.0
    ds = ds.assign({"v": (["time", "dim_x"], v), "o": (["time", "dim_o"], o), "left": (["time", "dim_l"], left)})
    m = vb().Pos_gle(basis_specs()["linear"].make(True), dt, dim_x=2, dim_obs=2, trunc_ind=M, L_obs="o")
    m.rank_projection = False
    K = np.zeros((M, 2, 2))
    K[tau, i, l] = 1.0
    m.force_coeff = xr.DataArray(np.zeros((2, 2)), dims=("dim_basis", "dim_o"))
    m.kernel = xr.DataArray(K, dims=("time_kernel", "dim_basis", "dim_o"), coords={"time_kernel": np.arange(M) * dt})
    m.method = method
    t, cn = m.compute_corrs_w_noise(ds, left_op="left")
    want = ref_projected(method or "rect", o, K, v, left, dt)
    c.observe(np.asarray(cn))
    c.close(np.asarray(cn), want, "projected correlation", rtol=1e-12)
    c.close(np.asarray(t), np.arange(len(want)) * dt, "times", rtol=1e-12)


def end_to_end(c):
    model = c.choose("model", MODELS)
    bname = c.choose("basis", list(basis_specs()))
    d = c.choose("dimension", [1, 2])
    rm = c.choose("remove_const", [True, False])
    spec = basis_specs()[bname]
    c.skip_if(not admissible(model, spec, d, rm) or (not rm and not spec.removable))
    method = c.choose("method", METHODS_P)
    op = c.choose("operator", ["none", "column", "positions", "velocities", "observable", "noise-like name", "function", "array", "DataArray"])
    lens = c.choose("lengths", [(30,), (30, 19), (24, 24, 24)])
    c.skip_if(op in ("array", "DataArray") and len(set(lens)) > 1)  # one array cannot serve trajectories of two lengths
    T = 6
    dss = [make_xva(n, seed=4 + 3 * i, d=d, extra=("f",)) for i, n in enumerate(lens)]
    dss = [ds.assign({"kernel": ds["f"] * 0.5}) for ds in dss]  # a column may have any name
    est = estimator(model, spec.make(rm), dss, T)
    est.compute_mean_force()
    est.compute_corrs(**({"rank_tol": 1e-9} if bname == "bspline" else {}))
    est.compute_kernel(method=method)
    m = est.model
    fixed = series(lens[0], 13, 3)
    import xarray as xr

    name = {"column": "f", "positions": "x", "velocities": "v", "observable": DEFAULT_OBS[model], "noise-like name": "kernel"}
    arg = {"none": None, **name, "function": lambda xva: xva["x"] ** 2, "array": fixed, "DataArray": xr.DataArray(fixed, dims=("time", "dim_l"))}[op]
    t, cn = est.compute_projected_corrs(left_op=arg)
    ref = spec.ref([columns(x)[0] for x in dss])
    K = m.kernel.values
    parts = []
    for ds in dss:
        x, v, a = columns(ds)
        f, E, _ = ref_vectors(model, ref, x, v, a, is_removed(model, spec, rm))
        if m.rank_projection:
            E = E @ m.P_range.values.T
        r = np.asarray(ds[DEFAULT_OBS[model]]) - f @ m.force_coeff.values
        left = np.asarray(ds[name[op]]) if op in name else {"none": r, "function": x ** 2, "array": fixed, "DataArray": fixed}[op]
        parts.append(ref_projected(method, r, K, E, left, 0.5))
    want = pooled(parts, lens)
    c.observe(np.asarray(cn))
    c.close(np.asarray(cn), want, "projected correlation", rtol=1e-8, scale=growth(want) + growth(K) * 1e-3)
    c.close(np.asarray(t), np.arange(len(want)) * 0.5, "times", rtol=1e-12)
    if op == "none":  # at time zero it is the covariance of the residual
        c.close(np.asarray(cn)[0], np.asarray(cn)[0].T, "symmetric at zero", rtol=1e-9)


def ref_projected_fast(method, r, K, E, left, dt):
    N, M = len(r), len(K)
    EK = [E @ k for k in K]
    out, w = [], np.array(r, copy=True)
    for n in range(M - 1 if "trapz" in method else M):
        # w: noise at time n on the points 0 .. N-n-1, indexed by the time n later
        u = np.array(r[n:], copy=True)
        for j in range(n):
            if "trapz" in method:
                u += 0.5 * dt * (EK[j][n - j : N - j] + EK[j + 1][n - 1 - j : N - 1 - j])
            else:
                u += dt * EK[j][n - j : N - j]
        out.append(left[: N - n].T @ u / (N - n))
    return np.array(out)


def large(c):
    """Thousands of times or many trajectories, kernels of up to 130 values."""
    import xarray as xr

    model, spec, dss, d = L_.instance(c, bases=("linear 1", "fourier 5", "linear 6"), data=("long", "many", "integers"))
    method = c.choose("method", ["rect", "trapz"])
    op = c.choose("operator", ["none", "column"])
    M = 130 if len(dss) == 1 else 28
    if len(dss) == 1 and d == 1 and spec.name == "linear" and model in ("Pos_gle", "Pos_gle_with_friction"):
        M = c.choose("kernel values", [130, 1100])
    est = L_.build(model, spec, dss, 5)
    est.compute_mean_force()
    m = est.model
    m.rank_projection = False
    ref = spec.ref([columns(x)[0] for x in dss])
    vec = [ref_vectors(model, ref, *columns(ds), is_removed(model, spec, True)) for ds in dss]
    F = m.force_coeff.values
    nb, no = vec[0][1].shape[1], F.shape[1]
    t = np.arange(M)[:, None, None]
    K = 0.1 * np.exp(-0.03 * t) * np.cos(0.3 * t + np.arange(nb)[None, :, None] - 0.7 * np.arange(no)[None, None, :])
    m.kernel = xr.DataArray(K, dims=("time_kernel", "dim_basis", m.force_coeff.dims[1]), coords={"time_kernel": np.arange(M) * 0.5})
    m.method = method
    t, cn = est.compute_projected_corrs(left_op=None if op == "none" else "f")
    parts, lens = [], []
    for ds, (f, E, _) in zip(dss, vec):
        r = np.asarray(ds[DEFAULT_OBS[model]]) - f @ F
        parts.append(ref_projected_fast(method, r, K, E, r if op == "none" else np.asarray(ds["f"]), 0.5))
        lens.append(len(r))
    want = pooled(parts, lens)
    c.observe(np.asarray(cn)[::5])
    c.close(np.asarray(cn), want, "projected correlation", rtol=1e-8, scale=growth(want))
    c.close(np.asarray(t), np.arange(len(want)) * 0.5, "times", rtol=1e-12)


def harnesses(tier):
    q = tier == "quick"
    return {"impulse": (impulse, {"n": [3, 4] if q else [3, 4, 6]}, 3), "end to end": (end_to_end, {}, 4), "large": (large, {}, 3)}
