"""compute_noise splits the observable into force, memory and noise: they add up, the
memory is the discretised convolution of the kernel with the basis along the trajectory."""
import numpy as np

from .common import MODELS, DEFAULT_OBS, vb, make_xva, basis_specs, estimator, reference, admissible, columns, is_removed, ref_vectors, growth, cond
from . import large as L_

BOUNDS = "every unit impulse of the kernel (up to 5 values) against every unit impulse of the trajectory (up to 7 times), all methods; all 6 models and 8 bases end to end, 1 and 2 dimensions, every kernel truncation, every window of a short trajectory, also counted from its end; 3001 times with kernels of up to 2100 values, 11 functions and 6 components; trajectories of integers"

NOISE_METHODS = ["rect", "rectangular", "second_kind_rect", "trapz", "second_kind_trapz"]


def ref_memory(method, K, E, dt):
    """-int_0^t K(s) E(t-s) ds with the quadrature that the method uses."""
    n, M = len(E), len(K)
    out = np.zeros((n, K.shape[2]))
    for i in range(1, n):
        m = min(i, M - 1)
        for j in range(m + 1):
            w = dt
            if "trapz" in method and j in (0, m):
                w = 0.5 * dt
            out[i] -= w * E[i - j] @ K[j]
    return out


def impulse(c):
    import xarray as xr

    method = c.choose("method", NOISE_METHODS + [None])
    n = c.choose("trajectory", [2, 5, 7])
    M = c.choose("kernel", c.params["kernel"])
    d = c.choose("components", [1, 2])
    at = c.choose("impulse of the trajectory at", range(n))
    comp = c.choose("its component", range(d))
    tau = c.choose("impulse of the kernel at", range(M))
    i, l = c.choose("its element", [(i, l) for i in range(d) for l in range(2)])
    dt = c.choose("time step", [0.5, 2.0])
    c.skip_if(method is not None and "trapz" in method and M < 2)
    ds = make_xva(n, seed=2, d=d, dt=dt)
    v = np.zeros((n, d))
    v[at, comp] = 1.0
    ds = ds.assign({"v": (["time", "dim_x"], v), "o": (["time", "dim_o"], np.cos(np.arange(2.0 * n)).reshape(n, 2))})
    m = vb().Pos_gle(basis_specs()["linear"].make(True), dt, dim_x=d, dim_obs=2, trunc_ind=M, L_obs="o")
    m.rank_projection = False
    K = np.zeros((M, d, 2))
    K[tau, i, l] = 1.0
    F = np.array([[0.3, -0.2], [0.7, 1.1]])[:d]
    m.force_coeff = xr.DataArray(F, dims=("dim_basis", "dim_o"))
    m.kernel = xr.DataArray(K, dims=("time_kernel", "dim_basis", "dim_o"), coords={"time_kernel": np.arange(M) * dt})
    m.method = method
    t, noise, obs, force, memory = m.compute_noise(ds)
    c.observe(np.asarray(memory))
    c.close(np.asarray(memory), ref_memory(method or "rect", K, v, dt), "memory", rtol=1e-12)
    o = np.asarray(ds["o"])
    c.close(np.asarray(force), np.asarray(ds["x"]) @ F, "force", rtol=1e-12)
    c.close(np.asarray(obs), o, "observable", rtol=0, atol=0)
    c.close(np.asarray(noise), o - np.asarray(force) - np.asarray(memory), "sum of the parts", rtol=1e-12)
    c.close(np.asarray(t), np.arange(n) * dt, "times", rtol=1e-12)


def end_to_end(c):
    model = c.choose("model", MODELS)
    bname = c.choose("basis", list(basis_specs()))
    d = c.choose("dimension", [1, 2])
    rm = c.choose("remove_const", [True, False])
    spec = basis_specs()[bname]
    c.skip_if(not admissible(model, spec, d, rm) or (not rm and not spec.removable))
    method = c.choose("method", NOISE_METHODS)
    trunc_kernel = c.choose("kernel truncation", c.params["trunc"])
    start, end = c.choose("window", c.params["windows"])
    which = c.choose("trajectory", ["of the estimator", "another"])
    obs = c.choose("observable", ["default", "f"])
    T = 7
    ds = make_xva(40, seed=4, d=d, extra=("f",))
    other = ds if which == "of the estimator" else make_xva(25, seed=7, d=d, extra=("f",), t0=2.0)
    if which == "another" and bname in ("bspline", "tensor"):
        other = other.assign({"x": other["x"] * 0.4})  # inside the range of the splines
    est = estimator(model, spec.make(rm), ds, T, **({} if obs == "default" else {"L_obs": obs}))
    est.compute_mean_force()
    est.compute_corrs(**({"rank_tol": 1e-9} if bname == "bspline" else {}))
    est.compute_kernel(method=method)
    m = est.model
    kw = {}
    if trunc_kernel is not None:
        kw["trunc_kernel"] = trunc_kernel
    if start:
        kw["start_point"] = start
    if end is not None:
        kw["end_point"] = end
    t, noise, o, force, memory = m.compute_noise(other, **kw)
    ref = spec.ref([columns(ds)[0]])
    x, v, a = (w[start:end] for w in columns(other))
    f, E, _ = ref_vectors(model, ref, x, v, a, is_removed(model, spec, rm))
    if m.rank_projection:
        E = E @ m.P_range.values.T
    K = m.kernel.values[:trunc_kernel]
    want_obs = np.asarray(other[obs if obs != "default" else DEFAULT_OBS[model]])[start:end]
    want_force = f @ m.force_coeff.values
    want_memory = ref_memory(method, K, E, 0.5)
    c.observe(np.asarray(noise))
    c.close(np.asarray(o), want_obs, "observable", rtol=0, atol=0)
    c.close(np.asarray(force), want_force, "force", rtol=1e-9, scale=growth(f) * growth(m.force_coeff.values))
    s = growth(K) * growth(E) * 0.5 * len(K)
    c.close(np.asarray(memory), want_memory, "memory", rtol=1e-9, scale=s)
    c.close(np.asarray(noise), want_obs - want_force - want_memory, "noise", rtol=1e-9, scale=s + growth(f) * growth(m.force_coeff.values))
    full = np.asarray(other["time"])
    c.close(np.asarray(t), full[start:end] - full[0], "times", rtol=1e-12)


def windows(c):
    """Every window and every kernel truncation of a short trajectory: the result is that of
    the window taken as a trajectory of its own."""
    n, T = c.params["n"], 6
    method = c.choose("method", ["rect", "trapz"])
    model = c.choose("model", ["Pos_gle", "Pos_gle_overdamped"])
    start = c.choose("start", list(range(0, n - 2)) + [3 - n, -5, -2])
    first = start % n
    end = c.choose("end", [None] + list(range(first + 2, n + 1)) + [n + 4] + [-k for k in (1, 2, 7) if n - k >= first + 2])
    trunc_kernel = c.choose("kernel truncation", [None, 2, 3, 5, 6, 40])
    ds = make_xva(n, seed=4)
    est = estimator(model, basis_specs()["linear"].make(True), ds, T)
    est.compute_mean_force()
    est.compute_corrs()
    est.compute_kernel(method=method)
    m = est.model
    kw = {} if trunc_kernel is None else {"trunc_kernel": trunc_kernel}
    t, noise, o, force, memory = m.compute_noise(ds, start_point=start, end_point=end, **kw)
    x, v, a = (w[start:end] for w in columns(ds))
    E = x if model.endswith("damped") else v
    want = ref_memory(method, m.kernel.values[:trunc_kernel], E, 0.5)
    c.observe(np.asarray(memory))
    c.close(np.asarray(memory), want, "memory of the window", rtol=1e-10)
    c.close(np.asarray(force), x @ m.force_coeff.values, "force of the window", rtol=1e-10)
    c.close(np.asarray(noise), (v if model.endswith("damped") else a) - x @ m.force_coeff.values - want, "noise of the window", rtol=1e-10, scale=1 + growth(want))
    c.close(np.asarray(t), np.arange(first, first + len(x)) * 0.5, "times of the window", rtol=1e-12)


def ref_memory_fast(method, K, E, dt):
    """ref_memory, one step of the kernel at a time."""
    n, M = len(E), len(K)
    out = np.zeros((n, K.shape[2]))
    for j in range(min(M, n)):
        w = np.full((n - j, 1), dt)
        if "trapz" in method and j == 0:
            w[:] = 0.5 * dt
        if "trapz" in method and j > 0:
            w[0] = 0.5 * dt  # the oldest value at time j
            if j == M - 1:
                w[:] = 0.5 * dt
        out[j:] -= w * (E[: n - j] @ K[j])
    out[0] = 0.0
    return out


def large(c):
    """Thousands of times, kernels of hundreds of values, many functions."""
    import xarray as xr

    model, spec, dss, d = L_.instance(c, bases=("linear 1", "fourier 5", "linear 6"), data=("long", "integers"))
    method = c.choose("method", ["rect", "trapz"])
    M = c.choose("kernel", [40, 300, 2100])
    ds = dss[0]
    n = ds.sizes["time"]
    start, end = c.choose("window", [(0, None), (n // 2, None), (17, (3 * n) // 8)])
    c.skip_if(M > min(x.sizes["time"] for x in dss))
    trunc_kernel = c.choose("kernel truncation", [None, 33, 250])
    est = L_.build(model, spec, dss, M)
    est.compute_mean_force()
    m = est.model
    m.rank_projection = False
    ref = spec.ref([columns(x)[0] for x in dss])
    f, E, _ = ref_vectors(model, ref, *columns(ds), is_removed(model, spec, True))
    nb, no = E.shape[1], m.force_coeff.shape[1]
    t = np.arange(M)[:, None, None]
    K = np.exp(-0.01 * t) * np.cos(0.3 * t + np.arange(nb)[None, :, None] - 0.7 * np.arange(no)[None, None, :])
    m.kernel = xr.DataArray(K, dims=("time_kernel", "dim_basis", m.force_coeff.dims[1]), coords={"time_kernel": np.arange(M) * 0.5})
    m.method = method
    kw = {} if trunc_kernel is None else {"trunc_kernel": trunc_kernel}
    t, noise, o, force, memory = m.compute_noise(ds, start_point=start, end_point=end, **kw)
    want = ref_memory_fast(method, K[:trunc_kernel], E[start:end], 0.5)
    c.observe(np.asarray(memory)[::100])
    F = m.force_coeff.values
    s = growth(want)
    c.close(np.asarray(memory), want, "memory", rtol=1e-9, scale=s)
    c.close(np.asarray(force), (f @ F)[start:end], "force", rtol=1e-9, scale=growth(f) * growth(F))
    ob = np.asarray(ds[DEFAULT_OBS[model]])[start:end]
    c.close(np.asarray(o), ob, "observable", rtol=0, atol=0)
    c.close(np.asarray(noise), ob - (f @ F)[start:end] - want, "noise", rtol=1e-9, scale=s + growth(f) * growth(F))
    c.close(np.asarray(t), np.arange(n)[start:end] * 0.5, "times", rtol=1e-12)


def refused(c):
    """The inversions whose kernel lives on another time grid are refused by name."""
    model = c.choose("model", MODELS)
    method = c.choose("method", ["midpoint", "midpoint_w_richardson"])
    what = c.choose("call", ["noise", "projected correlations"])
    est = estimator(model, basis_specs()["linear"].make(True), make_xva(40, seed=4), 9)
    est.compute_mean_force()
    est.compute_corrs()
    est.compute_kernel(method=method)
    try:
        est.model.compute_noise(est.xva_list[0]) if what == "noise" else est.compute_projected_corrs()
    except ValueError as e:
        c.check(method in str(e), "the message names the method", str(e))
        c.observe(str(e))
    else:
        c.check(False, "a kernel on another time grid is refused")


def harnesses(tier):
    q = tier == "quick"
    wins = [(0, None), (3, None), (0, 11), (5, 17)]
    return {
        "impulse": (impulse, {"kernel": [1, 2, 3] if q else [1, 2, 3, 5, 9]}, 4),
        "end to end": (end_to_end, {"trunc": [None, 2, 5] if q else [None, 1 + 1, 3, 4, 5, 6, 30], "windows": wins if not q else wins[:1] + wins[3:]}, 4),
        "windows": (windows, {"n": 14 if q else 22}, 3),
        "refused": (refused, {}, 1),
        "large": (large, {}, 2),
    }
