"""The Laplace transform is Simpson's rule over the kernel's times; the inversion check is the
trapezoidal convolution of correlation and kernel, on the grid of the kernel."""
import numpy as np

from .common import vb, bf, make_xva, basis_specs, MODELS, METHODS, estimator, admissible, growth, series

BOUNDS = "all 6 models, 7 methods, 8 bases, 1 and 2 dimensions, correlation functions of 6 to 14 values (24 thorough); every unit impulse of kernels of 2 to 9 values and 1x1 to 2x3 components; 6 ranges of s; kernels of up to 2500 values"

DT = 0.5
RANGES = [{}, {"s_start": 0.5}, {"s_end": 3.0}, {"n_points": 1}, {"s_start": -0.2, "s_end": 0.2, "n_points": 3}, {"s_start": 2.0, "s_end": 0.0, "n_points": 4}]
STRIDE = {"midpoint": 2, "midpoint_w_richardson": 6}


def weights(n, h):
    """Simpson's rule; with an even number of values the last interval is integrated over
    the parabola through the last three."""
    w = np.zeros(n)
    if n == 1:
        return w
    if n == 2:
        return np.array([0.5, 0.5]) * h
    m = n if n % 2 else n - 1
    for i in range(0, m - 2, 2):
        w[i : i + 3] += np.array([1.0, 4.0, 1.0]) * h / 3
    if n % 2 == 0:
        w[n - 3 :] += np.array([-1.0, 8.0, 5.0]) * h / 12
    return w


def ref_laplace(K, h, dt, trunc_ind, s_start=0.0, s_end=None, n_points=None):
    s = np.linspace(s_start, 1.0 / dt if s_end is None else s_end, trunc_ind if n_points is None else n_points)
    w = weights(len(K), h)
    out = np.zeros((len(s),) + K.shape[1:])
    for i, si in enumerate(s):
        out[i] = np.tensordot(w * np.exp(-si * h * np.arange(len(K))), K, 1)
    return s, out


def ref_integral(B, K, stride, dt):
    B = B[:, :, ::stride]
    out = np.zeros((B.shape[0], K.shape[2], B.shape[2]))
    for n in range(1, len(K)):
        out[:, :, n] -= 0.5 * stride * dt * (B[:, :, n] @ K[0] + B[:, :, 0] @ K[n])
        if n > 1:
            out[:, :, n] -= stride * dt * np.tensordot(B[:, :, n - np.arange(1, n)], K[1:n], ([2, 1], [0, 1]))
    return out


def compare_laplace(c, mod, K, h, dt, T):
    s = growth(K)
    for kw in RANGES:
        got = mod.laplace_transform_kernel(**kw)
        want = ref_laplace(K, h, dt, T, **kw)
        c.close(np.asarray(got[0]), want[0], "values of s", rtol=1e-12, atol=1e-15)
        c.close(np.asarray(got[1]), want[1], "Laplace transform", rtol=1e-9, atol=1e-11 * s * max(1.0, h * len(K)))


def estimated(c):
    model = c.choose("model", MODELS)
    name, spec = c.choose("basis", [(k, (k, v)) for k, v in basis_specs().items()])
    d = c.choose("dimension", [1, 2])
    rm = c.choose("remove_const", [True, False])
    c.skip_if(not admissible(model, spec, d, rm))
    T = c.choose("values", c.params["values"])
    method = c.choose("method", METHODS)
    c.skip_if(method == "midpoint_w_richardson" and T < 4)
    n_traj = c.choose("trajectories", [1, 2])
    dss = [make_xva(40 + 7 * i, seed=3 + i, d=d) for i in range(n_traj)]
    est = estimator(model, spec.make(rm), dss, T, DT)
    est.compute_mean_force()
    est.compute_corrs(rank_tol=1e-9)
    mod = est.compute_kernel(method)
    K = np.asarray(mod.kernel)
    B, D = np.asarray(est.bkbkcorrw), np.asarray(est.bkdxcorrw)
    st = STRIDE.get(method, 1)
    c.skip_if(len(K) == 0)
    c.observe(K.shape)
    keep = K.copy()
    want = ref_integral(B, K, st, DT)
    got = np.asarray(est.check_volterra_inversion())
    c.close(got, want, "integral", rtol=1e-9, atol=1e-11 * growth(K) * growth(B))
    diff = np.asarray(est.check_volterra_inversion(return_diff=True))
    c.close(diff, np.abs(want - D[:, :, ::st]), "difference", rtol=1e-9, atol=1e-11 * growth(K) * growth(B))
    compare_laplace(c, mod, K, st * DT, DT, T)
    c.check(np.array_equal(keep, np.asarray(mod.kernel)) and np.array_equal(B, np.asarray(est.bkbkcorrw)) and np.array_equal(D, np.asarray(est.bkdxcorrw)), "nothing is modified")


def impulses(c):
    """Laplace transform of every unit impulse, before and after save and load."""
    import xarray as xr

    v = vb()
    n = c.choose("values", [1, 2, 3, 4, 5, 8, 9])
    nb, dx = c.choose("sizes", [(1, 1), (2, 1), (2, 3)])
    h = c.choose("spacing", [0.5, 1.0])
    i = c.choose("time", list(range(n)))
    j = c.choose("function", list(range(nb)))
    k = c.choose("component", list(range(dx)))
    model = c.choose("model", ["Pos_gle_no_vel_basis", "Pos_gle_overdamped"])
    loaded = c.choose("model is", ["made", "loaded"])
    mod = getattr(v, model)(bf().PolynomialFeatures(deg=nb - 1), 0.5, dim_x=1, dim_obs=dx, trunc_ind=n + 2)
    K = np.zeros((n, nb, dx))
    K[i, j, k] = 1.0
    mod.kernel = xr.DataArray(K.copy(), dims=("time_kernel", "dim_basis", "dim_x"), coords={"time_kernel": np.arange(n) * h})
    if loaded == "loaded":
        mod = getattr(v, model).load_model(bf().PolynomialFeatures(deg=nb - 1), mod.save_model())
    c.observe((i, j, k))
    compare_laplace(c, mod, K, h, 0.5, n + 2)


def inversion(c):
    """With correlations that satisfy the equation exactly, every value of the difference
    vanishes, and changing one kernel value by one changes exactly what it should."""
    import xarray as xr

    T = c.choose("values", [3, 4, 7, 8, 13])
    method = c.choose("method", METHODS)
    nb = c.choose("functions", [1, 2])
    spec = basis_specs()["linear" if nb == 1 else "poly1"]
    est = estimator("Pos_gle_no_vel_basis", spec.make(False), [make_xva(40, seed=4)], T, DT)
    est.compute_mean_force()
    est.compute_corrs()
    c.skip_if(method == "midpoint_w_richardson" and T < 4)
    mod = est.compute_kernel(method)
    K = series(len(mod.kernel), 8, nb)[:, :, None] * np.ones((1, 1, 1)) + 0.3
    st = STRIDE.get(method, 1)
    B = np.asarray(est.bkbkcorrw)
    D = np.zeros(np.asarray(est.bkdxcorrw).shape)
    D[:, :, ::st] = ref_integral(B, K, st, DT)
    est.bkdxcorrw = xr.DataArray(D, dims=est.bkdxcorrw.dims)
    mod.kernel = xr.DataArray(K.copy(), dims=mod.kernel.dims, coords=mod.kernel.coords)
    c.close(np.asarray(est.check_volterra_inversion(return_diff=True)), np.zeros(D[:, :, ::st].shape), "exact kernel", rtol=0, atol=1e-11 * growth(B) * growth(K))
    i = c.choose("changed time", list(range(len(K))))
    j = c.choose("changed function", list(range(nb)))
    K2 = K.copy()
    K2[i, j, 0] += 1.0
    mod.kernel = xr.DataArray(K2, dims=mod.kernel.dims, coords=mod.kernel.coords)
    want = np.abs(ref_integral(B, K2 - K, st, DT))
    c.observe(want)
    c.close(np.asarray(est.check_volterra_inversion(return_diff=True)), want, "changed kernel", rtol=1e-8, atol=1e-10 * growth(B) * growth(K))


def exact(c):
    """Scalar equation with known solution: the check is small for every method, and the
    transform is that of the kernel."""
    import xarray as xr

    method = c.choose("method", METHODS)
    b = c.choose("decay", [0.4, 0.8])
    w = c.choose("frequency", [0.5, 1.0])
    h = c.choose("time step", [0.02, 0.04])
    T = int(8.0 / h) + 1
    est = estimator("Pos_gle_const_kernel", bf().LinearFeatures(), [make_xva(T + 5, seed=4, dt=h)], T, h)
    est.compute_mean_force()
    est.compute_corrs()
    t = np.arange(T) * h
    q = b * b + w * w
    # B = cos wt, K = exp(-bt), D = -int B(t-u) K(u) du
    B = np.cos(w * t)
    D = -(w * np.sin(w * t) + b * np.cos(w * t) - b * np.exp(-b * t)) / q
    Bd = -(-w * np.sin(w * t))  # <dE(0) E(t)> is minus the time derivative
    Dd = -(-(w * w * np.cos(w * t) - b * w * np.sin(w * t) + b * b * np.exp(-b * t)) / q)
    for name, arr in (("bkbkcorrw", B), ("bkdxcorrw", D), ("dotbkbkcorrw", Bd), ("dotbkdxcorrw", Dd)):
        old = getattr(est, name)
        setattr(est, name, xr.DataArray(arr.reshape(1, 1, -1), dims=old.dims))
    mod = est.compute_kernel(method)
    c.observe(np.asarray(mod.kernel).shape)
    st = STRIDE.get(method, 1)
    n = len(mod.kernel) - (1 if method.startswith("rect") else 0)
    diff = np.asarray(est.check_volterra_inversion(return_diff=True))[0, 0, :n]
    # the first-order methods are half a step off
    tol = 3.0 * h if method.startswith("rect") or method == "second_kind_rect" else 3.0 * (st * h) ** 2 + (0.5 * st * h if method.startswith("midpoint") else 0)
    c.check(diff.max() < tol, "inversion check", "%g > %g" % (diff.max(), tol))
    s, L = mod.laplace_transform_kernel(s_start=0.1, s_end=2.0, n_points=5)
    tmax = float(mod.kernel["time_kernel"][-1])
    want = (1 - np.exp(-(s + b) * tmax)) / (s + b)
    c.close(np.asarray(L)[:, 0, 0], want, "transform of the exact kernel", rtol=0, atol=10.0 * st * h)


def large(c):
    """Kernels and correlations of hundreds of values."""
    import xarray as xr

    T = c.choose("values", [101, 200, 402, 1301, 2500])
    method = c.choose("method", METHODS)
    nb, dx = c.choose("functions and components", [(1, 1), (3, 2)] if T < 1000 else [(1, 1), (2, 1)])
    est = estimator("Pos_gle_no_vel_basis", basis_specs()["linear"].make(False), [make_xva(T + 5, seed=4)], T, DT)
    est.compute_mean_force()
    est.compute_corrs()
    mod = est.model
    st = STRIDE.get(method, 1)
    n = {"midpoint": T // 2, "midpoint_w_richardson": len(range(0, T, 3)) // 2, "trapz": T - 1}.get(method, T)
    t = np.arange(n)[:, None, None] * st * DT
    K = np.exp(-0.02 * t) * np.cos(0.2 * t + np.arange(nb)[None, :, None] + 0.5 * np.arange(dx)[None, None, :])
    tt = np.arange(T) * DT
    B = np.cos((0.3 + 0.1 * np.arange(nb)[:, None, None] + 0.05 * np.arange(nb)[None, :, None]) * tt)
    D = np.sin(0.2 * np.arange(nb)[:, None, None] + 0.3 * np.arange(dx)[None, :, None] + 0.4 * tt)
    est.bkbkcorrw = xr.DataArray(B, dims=est.bkbkcorrw.dims)
    est.bkdxcorrw = xr.DataArray(D, dims=("dim_basis", "dim_o", "time_trunc"))
    mod.kernel = xr.DataArray(K.copy(), dims=("time_kernel", "dim_basis", "dim_o"), coords={"time_kernel": t[:, 0, 0]})
    mod.method = method
    want = ref_integral(B, K, st, DT)
    c.observe(want[:, :, ::17])
    c.close(np.asarray(est.check_volterra_inversion()), want, "integral", rtol=1e-9)
    c.close(np.asarray(est.check_volterra_inversion(return_diff=True)), np.abs(want - D[:, :, ::st]), "difference", rtol=1e-9)
    compare_laplace(c, mod, K, st * DT, DT, T)


def missing(c):
    model = c.choose("model", MODELS)
    stage = c.choose("stage", ["new", "mean force", "correlations"])
    est = estimator(model, bf().LinearFeatures(), [make_xva(30, seed=1)], 6, DT)
    if stage != "new":
        est.compute_mean_force()
    if stage == "correlations":
        est.compute_corrs()
    for f in (est.check_volterra_inversion, est.model.laplace_transform_kernel):
        try:
            f()
        except Exception as e:
            c.observe(str(e))
            c.check("ernel has not been computed" in str(e), "says what is missing", str(e))
        else:
            c.check(False, "refused")


def harnesses(tier):
    q = tier == "quick"
    return {
        "estimated kernels": (estimated, {"values": [6, 7, 13] if q else [2, 3, 4, 5, 6, 7, 8, 12, 13, 14, 24]}, 3),
        "impulses": (impulses, {}, 2),
        "inversion": (inversion, {}, 2),
        "exact solutions": (exact, {}, 1),
        "missing kernel": (missing, {}, 1),
        "large": (large, {}, 2),
    }
