"""The memory kernel solves the discretised Volterra equation of the chosen method."""
import numpy as np

from .common import MODELS, METHODS, vb, make_xva, basis_specs, estimator, reference, admissible, cond, growth, series, ref_kernel_corrs

BOUNDS = "all 7 method names, 1 to 3 basis functions and 1 to 3 observables with every unit impulse of the right hand side over up to 9 times (13 thorough), all 6 models and 8 bases end to end up to 13 times, given and computed initial values; kernels of up to 2300 times (4500 thorough), 8 functions (16) and 6 observables"

DT = 0.5


def equations(method, B, D, Bd, Dd, K, dt, k0):
    """Residuals of the equations that define the kernel values (one row per equation)
    and the size of the terms in them."""
    T = B.shape[2]
    res, size = [], []

    def add(terms):
        s = sum(terms)
        res.append(s)
        size.append(max(float(np.abs(t).max()) for t in terms))

    if method in ("rect", "rectangular"):
        for i in range(T - 1):
            add([D[:, :, i + 1] / dt] + [B[:, :, i + 1 - j] @ K[j] for j in range(i + 1)])
    elif method == "midpoint":
        for i in range(T // 2):
            add([D[:, :, 2 * i + 1] / (2 * dt)] + [(0.5 if j == 0 else 1.0) * B[:, :, 2 * (i - j) + 1] @ K[j] for j in range(i + 1)])
    elif method in ("second_kind_rect", "second_kind_trapz"):
        h = 0.5 if method.endswith("trapz") else 0.0
        add([K[0], -k0])
        for i in range(1, T):
            terms = [B[:, :, 0] @ K[i], -Dd[:, :, i], -(1 - h) * dt * Bd[:, :, i] @ K[0], -h * dt * Bd[:, :, 0] @ K[i]]
            terms += [-dt * Bd[:, :, i - j] @ K[j] for j in range(1, i)]
            add(terms)
    else:
        return None, None
    return np.array(res), np.array(size)


def lengths(method, T):
    """Number of kernel values and their spacing in units of the time step."""
    return {"rect": (T, 1), "rectangular": (T, 1), "midpoint": (T // 2, 2), "trapz": (T - 1, 1), "second_kind_rect": (T, 1), "second_kind_trapz": (T, 1)}.get(method, (len(range(0, T, 3)) // 2, 6))


def judge(c, method, B, D, Bd, Dd, got, times, dt, k0):
    T = B.shape[2]
    n, stride = lengths(method, T)
    c.check(got.shape == (n, B.shape[0], D.shape[1]), "shape", "%s" % (got.shape,), T=T)
    c.close(times, np.arange(n) * stride * dt, "times of the kernel", rtol=1e-12)
    kk = np.linalg.solve(B[:, :, 0], Dd[:, :, 0]) if k0 is None else k0
    if method in ("trapz", "second_kind_rect", "second_kind_trapz"):
        c.close(got[0], kk, "initial value", rtol=1e-9 + 1e-13 * cond(B[:, :, 0]))
    # the equations themselves (for long kernels only through the reference)
    r, s = equations(method, B, D, Bd, Dd, got, dt, kk) if T < 500 else (None, None)
    if r is not None:
        for i in range(len(r)):
            c.close(r[i], np.zeros_like(r[i]), "equation of time %d" % i, rtol=0, atol=1e-300 + 1e-10 * s[i] * max(1.0, cond(B[:, :, 1]) if T > 1 else 1.0, cond(B[:, :, 0])) ** 0.5)
    _, want = ref_kernel_corrs(method, B, D, Bd, Dd, dt, kk)
    ok = np.isfinite(want)
    rng = np.cos(np.arange(D.size) * 1.1).reshape(D.shape)
    _, near = ref_kernel_corrs(method, B, D * (1 + 1e-10 * rng), Bd * (1 + 1e-10), Dd * (1 + 1e-10 * rng), dt, kk)
    _, near2 = ref_kernel_corrs(method, B * (1 + 1e-10 * np.cos(np.arange(B.size)).reshape(B.shape)), D, Bd, Dd, dt, kk)
    for i in range(n):
        if not ok[i].all():
            continue
        tol = 1e-9 * growth(want[: i + 1]) + np.abs(near[i] - want[i]).max() + np.abs(near2[i] - want[i]).max()
        if tol > 1e-3 * max(growth(want[: i + 1]), 1e-12):
            break
        c.close(got[i], want[i], "kernel at time %d" % i, rtol=0, atol=tol + 1e-12)


def matrices(nb, T, seed):
    """Correlation matrices with a regular start, all different and not symmetric."""
    B = np.zeros((nb, nb, T))
    Bd = np.zeros((nb, nb, T))
    for i in range(nb):
        for j in range(nb):
            t = np.arange(T) * DT
            B[i, j] = (1.5 + 0.2 * i) * (i == j) * np.exp(-0.3 * t) + 0.23 * np.cos((0.9 + 0.3 * i + 0.5 * j) * t + seed + 2 * i - j)
            Bd[i, j] = 0.31 * np.sin((0.7 + 0.4 * i + 0.25 * j) * t + 1.3 * seed + i - 2 * j)
    return B, Bd


def impulse(c):
    """The kernel is linear in the right hand side: all its unit impulses, through
    compute_kernel on given correlation matrices."""
    import xarray as xr

    method = c.choose("method", METHODS)
    nb = c.choose("basis functions", [1, 2, 3])
    no = c.choose("observables", [1, 2, 3])
    T = c.choose("correlation length", c.params["T"])
    c.skip_if(method == "midpoint_w_richardson" and T < 6)
    seed = c.choose("matrices", [1, 2])
    which = c.choose("right hand side", ["force", "derivative", "initial value", "initial value of zero"])
    i = c.choose("basis function", range(nb))
    l = c.choose("observable", range(no))
    n = c.choose("time", range(T) if not which.startswith("initial") else [0])
    c.skip_if(which == "derivative" and method in ("rect", "rectangular", "midpoint", "midpoint_w_richardson"))
    B, Bd = matrices(nb, T, seed)
    D, Dd = np.zeros((nb, no, T)), np.zeros((nb, no, T))
    k0 = None
    if which == "force":
        D[i, l, n] = 1.0
    elif which == "derivative":
        Dd[i, l, n] = 1.0
    else:
        k0 = np.zeros((nb, no))
        if which == "initial value":
            k0[i, l] = 1.0
        else:  # of zero, although the derivative says otherwise
            Dd[i, l, 0] = 1.0
    est = estimator("Pos_gle", basis_specs()["linear"].make(True), make_xva(30, d=1), T)
    est.compute_mean_force()
    est.bkbkcorrw = xr.DataArray(B, dims=("dim_basis'", "dim_basis", "time_trunc"))
    est.dotbkbkcorrw = xr.DataArray(Bd, dims=("dim_basis'", "dim_basis", "time_trunc"))
    est.bkdxcorrw = xr.DataArray(D, dims=("dim_basis", "dim_o", "time_trunc"))
    est.dotbkdxcorrw = xr.DataArray(Dd, dims=("dim_basis", "dim_o", "time_trunc"))
    est.compute_kernel(method=method, k0=k0)
    K = est.model.kernel
    c.observe(K.values)
    judge(c, method, B, D, Bd, Dd, K.values, K["time_kernel"].values, DT, k0)
    c.close(est.bkbkcorrw.values, B, "correlations are left alone", rtol=0, atol=0)
    c.close(est.bkdxcorrw.values, D, "force correlations are left alone", rtol=0, atol=0)
    c.check(est.model.method == method, "method is remembered")


def end_to_end(c):
    model = c.choose("model", MODELS)
    bname = c.choose("basis", list(basis_specs()))
    d = c.choose("dimension", [1, 2])
    rm = c.choose("remove_const", [True, False])
    spec = basis_specs()[bname]
    c.skip_if(not admissible(model, spec, d, rm) or (not rm and not spec.removable))
    T = c.choose("correlation length", c.params["T"])
    lens = c.choose("lengths", [(40,), (35, 21)])
    method = c.choose("method", METHODS)
    given = c.choose("initial value", ["computed", "given", "given as zero"])
    c.skip_if(given != "computed" and method not in ("trapz", "second_kind_rect", "second_kind_trapz"))
    dss = [make_xva(n, seed=4 + 3 * i, d=d) for i, n in enumerate(lens)]
    est = estimator(model, spec.make(rm), dss, T)
    est.compute_mean_force()
    est.compute_corrs(**({"rank_tol": 1e-9} if bname == "bspline" else {}))
    ref = reference(model, spec, dss, T, rm, force=est.model.force_coeff.values)
    m = est.model
    P = m.P_range.values if m.rank_projection else np.eye(ref.bkbk.shape[0])
    B = np.einsum("ai,bj,ijn->abn", P, P, ref.bkbk)
    Bd = np.einsum("ai,bj,ijn->abn", P, P, ref.dbkbk)
    D = np.einsum("ai,ijn->ajn", P, ref.bkdx)
    Dd = np.einsum("ai,ijn->ajn", P, ref.dbkdx)
    c.skip_if(cond(B[:, :, 0]) > 1e5 or cond(B[:, :, 1]) > 1e5)
    k0 = None
    if given == "given":
        k0 = np.asfortranarray(np.cos(np.arange(D[:, :, 0].size) + 0.3).reshape(D[:, :, 0].shape))
    elif given == "given as zero":
        k0 = np.zeros(D[:, :, 0].shape)
    est.compute_kernel(method=method, **({} if k0 is None else {"k0": k0}))
    K = m.kernel
    c.observe(K.values)
    c.check(K.dims == ("time_kernel", "dim_basis", est.bkdxcorrw.dims[1]), "dimensions", str(K.dims))
    judge(c, method, B, D, Bd, Dd, K.values, K["time_kernel"].values, DT, k0)
    # the same again, after another method, gives the same
    first = K.values.copy()
    est.compute_kernel(method="rect")
    est.compute_kernel(method=method, **({} if k0 is None else {"k0": k0}))
    c.close(m.kernel.values, first, "repeated", rtol=0, atol=0)


def no_memory(c):
    """Without correlation between the basis and what the force leaves over there is no kernel;
    a delta-correlated basis returns the force correlation."""
    import xarray as xr

    method = c.choose("method", METHODS)
    nb, no, T = c.choose("size", [(1, 1, 8), (2, 3, 13)])
    dt = c.choose("time step", [0.5, 1.0, 0.01])
    B, Bd = matrices(nb, T, 1)
    est = estimator("Pos_gle", basis_specs()["linear"].make(True), make_xva(30, d=1), T)
    est.compute_mean_force()
    est.dt = dt
    z = np.zeros((nb, no, T))
    for name, val, last in (("bkbkcorrw", B, "dim_basis"), ("dotbkbkcorrw", Bd, "dim_basis"), ("bkdxcorrw", z, "dim_o"), ("dotbkdxcorrw", z, "dim_o")):
        setattr(est, name, xr.DataArray(val, dims=("dim_basis'" if last == "dim_basis" else "dim_basis", last, "time_trunc")))
    est.compute_kernel(method=method)
    c.observe(est.model.kernel.values)
    c.close(est.model.kernel.values, np.zeros_like(est.model.kernel.values), "no memory", rtol=0, atol=1e-14)


def large(c):
    """Hundreds of times, up to 8 basis functions and 6 observables."""
    import xarray as xr

    method = c.choose("method", METHODS)
    nb, no, T = c.choose("size", c.params["sizes"])
    dt = c.choose("time step", [0.5, 0.004])
    given = c.choose("initial value", ["computed", "given"])
    c.skip_if(given == "given" and method not in ("trapz", "second_kind_rect", "second_kind_trapz"))
    t = np.arange(T) * dt
    i, j, l = np.arange(nb)[:, None, None], np.arange(nb)[None, :, None], np.arange(no)[None, :, None]
    B = (i == j) * (1.5 + 0.2 * i) * np.exp(-0.3 * t) + 0.2 / nb * np.cos((0.9 + 0.3 * i + 0.5 * j) * t + 1 + 2 * i - j)
    Bd = -0.3 * (i == j) * (1.5 + 0.2 * i) * np.exp(-0.3 * t) + 0.2 / nb * np.sin((0.7 + 0.4 * i + 0.25 * j) * t + i - 2 * j)
    D = np.exp(-0.2 * t) * np.sin((0.8 + 0.2 * i + 0.3 * l) * t + 0.3 * (i > l))
    Dd = np.exp(-0.2 * t) * np.cos((0.8 + 0.2 * i + 0.3 * l) * t + 0.4 * (i < l))
    k0 = None if given == "computed" else np.cos(np.arange(nb * no) + 0.3).reshape(nb, no)
    est = estimator("Pos_gle", basis_specs()["linear"].make(True), make_xva(T + 5, d=1), T)
    est.compute_mean_force()
    est.dt = dt
    for name, val, last in (("bkbkcorrw", B, "dim_basis"), ("dotbkbkcorrw", Bd, "dim_basis"), ("bkdxcorrw", D, "dim_o"), ("dotbkdxcorrw", Dd, "dim_o")):
        setattr(est, name, xr.DataArray(val, dims=("dim_basis'" if last == "dim_basis" else "dim_basis", last, "time_trunc")))
    est.compute_kernel(method=method, k0=k0)
    K = est.model.kernel
    c.observe(K.values[::7])
    judge(c, method, B, D, Bd, Dd, K.values, K["time_kernel"].values, dt, k0)


def harnesses(tier):
    q = tier == "quick"
    return {
        "impulse": (impulse, {"T": [2, 3, 6, 9] if q else [2, 3, 4, 5, 6, 7, 8, 9, 12, 13]}, 4),
        "end to end": (end_to_end, {"T": [8, 13] if q else [6, 7, 8, 13, 24]}, 4),
        "no memory": (no_memory, {}, 1),
        "large": (large, {"sizes": [(1, 1, 260), (2, 1, 131), (8, 6, 70), (1, 1, 2300), (2, 2, 1201)] if q else [(1, 1, 260), (2, 1, 131), (8, 6, 70), (1, 2, 1030), (3, 3, 300), (16, 1, 40), (1, 1, 2300), (1, 1, 4500), (4, 4, 1500)]}, 2),
    }
