"""The integrator solves the generalised Langevin equation of its force and kernel: Runge-Kutta
steps, trapezoidal memory of the past trajectory, noise as an additional acceleration; initial
conditions are pieces of the given trajectories for every answer of the random generator."""
import contextlib
import io
import itertools

import numpy as np

from .common import vb, bf, make_xva, basis_specs, columns, estimator, growth, snapshot, same_snapshot

BOUNDS = "every 16th value (thorough: every value) of kernels of 80 and 260 values (thorough: up to 1040); every unit impulse of a kernel of 2 to 6 values (1 and 2 components), 1 to 4 given initial points, up to 12 steps, 5 bases, both integrators, with a model and without; every unit impulse of the white noise; 4 time steps for convergence; every answer of the random generator for 1 to 3 trajectories and histories of 0 to 3"
ASSUMPTIONS = "the memory changes linearly from the beginning to the end of a Runge-Kutta step"


def integ():
    import VolterraBasis.gle_integrate as g

    vb()
    return g


def ref_run(val, dval, F, K, dt, n, xs, vs, noise=None, const=False):
    """xs, vs: the given beginning (n0, d).  The memory at time n is the trapezoidal rule over
    the values of the kernel, or over the past that exists."""
    d = xs.shape[1]
    M = len(K)
    X, V = np.zeros((n, d)), np.zeros((n, d))
    n0 = len(xs)
    X[:n0], V[:n0] = xs, vs
    Ev = (lambda x, v: v) if const else (lambda x, v: np.einsum("kd,d->k", dval(x), v))
    E = [Ev(X[i], V[i]) for i in range(n0)]

    def past(i):
        if i == 0:
            return np.zeros(d)
        m = min(i, M - 1)
        out = 0.5 * dt * E[i - m] @ K[m]
        if m > 1:
            out = out + dt * np.tensordot(np.array(E[i - m + 1 : i])[::-1], K[1:m], ([0, 1], [0, 1]))
        return out

    for i in range(n0, n):
        begin = past(i - 1) + 0.5 * dt * E[i - 1] @ K[0]
        p = past(i)
        xi = noise[i] if noise is not None else 0.0

        def acc(x, v, w):
            end = p + 0.5 * dt * Ev(x, v) @ K[0]
            return val(x) @ F + xi - (1 - w) * begin - w * end

        x, v = X[i - 1], V[i - 1]
        k1x, k1v = v, acc(x, v, 0.0)
        k2x, k2v = v + dt / 2 * k1v, acc(x + dt / 2 * k1x, v + dt / 2 * k1v, 0.5)
        k3x, k3v = v + dt / 2 * k2v, acc(x + dt / 2 * k2x, v + dt / 2 * k2v, 0.5)
        k4x, k4v = v + dt * k3v, acc(x + dt * k3x, v + dt * k3v, 1.0)
        X[i] = x + dt / 6 * (k1x + 2 * k2x + 2 * k3x + k4x)
        V[i] = v + dt / 6 * (k1v + 2 * k2v + 2 * k3v + k4v)
        E.append(Ev(X[i], V[i]))
    return X, V


def zeros(size):
    return np.zeros(size)


def start(n0, d, dt):
    import xarray as xr

    i = np.arange(n0, dtype=float)[:, None] + 0.7 * np.arange(d)[None, :]
    x, v = 0.4 * np.cos(i), 0.8 * np.sin(1 + 1.3 * i)
    return xr.Dataset({"x": (["time", "dim_x"], x), "v": (["time", "dim_x"], v)}, coords={"time": np.arange(n0) * dt}), x, v


BASES = {
    "linear": ("linear", 1), "linear 2d": ("linear", 2), "poly3": ("poly3", 1), "fourier1": ("fourier1", 1), "bspline": ("bspline", 1),
}


def fitted(name, rm=True):
    bname, d = BASES[name]
    spec = basis_specs()[bname]
    data = np.stack([np.linspace(-3, 3, 13)] * d, 1)
    return spec.make(rm).fit(data), spec.ref([data]), d


def make(which, const, basis, F, K, dt, d, rng, coeffs=None, trunc=None):
    """An integrator, from a model or from its parts."""
    import xarray as xr

    g, v = integ(), vb()
    cls = g.Integrator_gle_const_kernel if const else g.Integrator_gle
    if which == "parts, flat kernel":  # A kernel of one component may be one-dimensional
        K, which, coeffs = K.ravel(), "parts", coeffs if coeffs is not None and np.any(coeffs != np.eye(*coeffs.shape)) else None
    if which == "parts":
        return cls(None, basis=basis, force_coeff=F, kernel=K, dt=dt, rng=rng, verbose=False, coeffs_noise_kernel=coeffs)
    m = (v.Pos_gle_const_kernel if const else v.Pos_gle)(basis, dt, dim_x=d, dim_obs=d, trunc_ind=len(K), L_obs="a")
    m.rank_projection = False
    m.force_coeff = xr.DataArray(F, dims=("dim_basis", "dim_x"))
    m.kernel = xr.DataArray(K, dims=("time_kernel", "dim_basis", "dim_x"), coords={"time_kernel": np.arange(len(K)) * dt})
    return cls(m, coeffs_noise_kernel=np.eye(K.shape[1], d) if coeffs is None else coeffs, rng=rng, verbose=False, **({} if trunc is None else {"trunc_kernel": trunc}))


def parts(name, const):
    b, ref, d = fitted(name)
    nk = d if const else len(ref.kept if basis_specs()[BASES[name][0]].removable else range(ref.K))
    keep = ref.kept if basis_specs()[BASES[name][0]].removable else list(range(ref.K))
    F = 0.3 * np.cos(1 + np.arange(ref.K * d)).reshape(ref.K, d) - (0.5 * np.eye(ref.K, d) if name.startswith("linear") else 0.0)
    val = lambda x: ref.val(x[None])[0]
    dval = lambda x: ref.d1(x[None])[0][keep]
    return b, ref, d, nk, F, val, dval


def noise_free(c):
    name = c.choose("basis", list(BASES))
    const = c.choose("kernel", ["of the position", "constant"]) == "constant"
    which = c.choose("from", ["model", "parts", "parts, flat kernel"])
    M = c.choose("kernel values", c.params["kernels"])
    tau = c.choose("impulse of the kernel at", ["zero kernel", "full"] + list(range(M)))
    n0 = c.choose("initial points", ["none", 1, 2, 4])
    n = c.choose("steps", c.params["steps"])
    trunc = c.choose("truncation", [None, 2, 99] if which == "model" else [None])
    b, ref, d, nk, F, val, dval = parts(name, const)
    dt = 0.25
    K = np.zeros((M, nk, d))
    if tau == "full":
        K += 0.4 * np.cos(np.arange(K.size)).reshape(K.shape)
    elif tau != "zero kernel":
        K[tau] = 0.9 * np.cos(1 + np.arange(nk * d)).reshape(nk, d)
    c.skip_if(which == "parts, flat kernel" and K.shape[1:] != (1, 1))
    it = make(which, const, b, F, K.copy(), dt, d, zeros, trunc=trunc, coeffs=np.eye(nk, d))
    Ke = K if trunc is None else K[:trunc]
    if n0 == "none":
        x0, xs, vs = None, np.zeros((1, d)), np.zeros((1, d))
    else:
        c.skip_if(n0 > n)
        x0, xs, vs = start(n0, d, dt)
    before = None if x0 is None else snapshot(x0)
    with contextlib.redirect_stdout(io.StringIO()):
        tr = it.run(n, x0=x0, set_noise_to_zero=True)
    X, V = ref_run(val, dval, F, Ke, dt, n, xs, vs, const=const)
    c.observe(tr["x"].values)
    c.close(tr["x"].values, X, "positions", rtol=1e-10)
    c.close(tr["v"].values, V, "velocities", rtol=1e-10)
    c.check(tr.attrs["dt"] == dt, "time step")
    if n0 in (1, "none"):
        c.close(tr["time"].values, np.arange(n) * dt, "times", rtol=1e-12)
    if before is not None:
        c.check(same_snapshot(snapshot(x0), before), "initial points are left alone")
    again = it.run(n, x0=x0, set_noise_to_zero=True)
    c.close(again["x"].values, X, "second run", rtol=1e-10)
    silent = it.run(n, x0=x0)  # a generator of zeros
    c.close(silent["x"].values, X, "run with a silent generator", rtol=1e-10)


def long_memory(c):
    """Every value of a long kernel acts."""
    name = c.choose("basis", ["linear", "poly3"])
    const = c.choose("kernel", ["of the position", "constant"]) == "constant"
    which = c.choose("from", ["model", "parts", "parts, flat kernel"])
    M = c.choose("kernel values", c.params["kernels"])
    n0 = c.choose("initial points", [1, M - 1, M + 3])
    tau = c.choose("impulse of the kernel at", ["full"] + list(range(0, M, c.params["every"] * (1 + M // 500))) + [M - 2, M - 1])
    c.skip_if(tau != "full" and (which != "model" or name != "linear" or n0 < M))
    b, ref, d, nk, F, val, dval = parts(name, const)
    dt = 0.0625
    K = np.zeros((M, nk, d))
    if tau == "full":
        K += 0.4 * np.cos(np.arange(K.size)).reshape(K.shape)
    else:
        K[tau] = 0.9 * np.cos(1 + np.arange(nk * d)).reshape(nk, d)
    c.skip_if(which == "parts, flat kernel" and K.shape[1:] != (1, 1))
    it = make(which, const, b, F, K.copy(), dt, d, zeros, coeffs=np.eye(nk, d))
    n = n0 + (4 if n0 > 1 else M + 4)
    x0, xs, vs = start(n0, d, dt)
    c.op(n)
    tr = it.run(n, x0=x0, set_noise_to_zero=True)
    X, V = ref_run(val, dval, F, K, dt, n, xs, vs, const=const)
    c.observe(tr["x"].values)
    c.close(tr["x"].values, X, "positions", rtol=1e-9)
    c.close(tr["v"].values, V, "velocities", rtol=1e-9)


def noisy(c):
    """The response to every unit impulse of the white noise."""
    g = integ()
    name = c.choose("basis", ["linear", "linear 2d", "poly3"])
    const = c.choose("kernel", ["of the position", "constant"]) == "constant"
    which = c.choose("from", ["model", "parts", "parts, flat kernel"])
    M = c.choose("kernel values", [3, 4])
    n = c.choose("steps", [2, 5])
    k = c.choose("impulse", range(n + 2 * M - 2))
    comp = c.choose("component", [0, 1])
    b, ref, d, nk, F, val, dval = parts(name, const)
    c.skip_if(comp >= d)
    dt = 0.25
    K = np.zeros((M, nk, d))
    decay = 1.5 * 0.4 ** np.arange(M)
    for i in range(d):
        K[:, i, i] = decay * (1 + i)
    K[:, d:, :] = 0.1
    calls = []

    def rng(size):
        out = np.zeros(size)
        if len(calls) == comp and k < len(out):
            out[k] = 1.0
        calls.append(size)
        return out

    coeffs = np.eye(nk, d)
    c.skip_if(which == "parts, flat kernel" and K.shape[1:] != (1, 1))
    it = make(which, const, b, F, K.copy(), dt, d, rng, coeffs=coeffs)
    tr = it.run(n)
    calls.clear()
    xi = g.ColoredNoiseGenerator(np.einsum("kl,ikd->ild", coeffs, K), np.arange(M) * dt, rng=rng).generate(n)
    X, V = ref_run(val, dval, F, K, dt, n, np.zeros((1, d)), np.zeros((1, d)), noise=xi, const=const)
    c.observe(tr["x"].values)
    c.close(tr["x"].values, X, "positions", rtol=1e-10)
    c.close(tr["v"].values, V, "velocities", rtol=1e-10)


def converge(c):
    """Exact solutions: harmonic and free motion without memory (fourth order) and with an
    exponential kernel."""
    w2, k, lam = c.choose("equation", [(1.0, 0.0, 1.0), (4.0, 0.0, 1.0), (1.0, 0.5, 1.0), (0.0, 1.0, 2.0), (2.0, 2.0, 0.5), (1.0, 1.0, 4.0)])
    const = c.choose("kernel", ["of the position", "constant"]) == "constant"
    Tmax = 2.0
    errs = []
    for q in c.params["ladder"]:
        dt = Tmax / q
        b = basis_specs()["linear"].make(True).fit(np.zeros((2, 1)))
        K = (k * np.exp(-lam * np.arange(q + 1) * dt)).reshape(-1, 1, 1)
        it = make("parts", const, b, np.array([[-w2]]), K, dt, 1, zeros)
        import xarray as xr

        x0 = xr.Dataset({"x": (["time", "dim_x"], [[0.7]]), "v": (["time", "dim_x"], [[0.3]])}, coords={"time": [0.0]})
        tr = it.run(q + 1, x0=x0, set_noise_to_zero=True)
        c.op(q)
        A = np.array([[0, 1, 0], [-w2, 0, -1], [0, k, -lam]], complex)
        ew, W = np.linalg.eig(A)
        co = np.linalg.solve(W, np.array([0.7, 0.3, 0.0]))
        t = np.arange(q + 1) * dt
        ex = np.stack([(W @ (co * np.exp(ew * s))).real[:2] for s in t])
        errs.append(max(np.abs(tr["x"].values[:, 0] - ex[:, 0]).max(), np.abs(tr["v"].values[:, 0] - ex[:, 1]).max()))
    c.observe(np.array(errs))
    want = 12.0 if k == 0 else c.params["order"]
    for a, b_ in zip(errs, errs[1:]):
        c.check(b_ < a / want + 1e-12, "order of convergence", "errors %s" % errs)


def initial(c):
    """Every answer of the generator gives a piece of a trajectory with enough history."""
    g = integ()
    lens = c.choose("lengths", [(5,), (6, 4), (4, 7, 5)])
    single = c.choose("given as", ["list", "dataset", "tuple"])
    n_mem = c.choose("history", [None, 0, 1, 3])
    d = c.choose("dimension", [1, 2])
    c.skip_if(single == "dataset" and len(lens) > 1)
    dss = [make_xva(n, seed=i + 2, d=d, t0=3.0 * i) for i, n in enumerate(lens)]
    before = [snapshot(x) for x in dss]
    b = basis_specs()["linear"].make(True).fit(np.zeros((2, d)))
    it = make("parts", False, b, np.zeros((d, d)), np.ones((3, d, d)), 0.125, d, zeros)
    orig = np.random.randint
    asked = []

    def randint(low, high=None, size=None, dtype=int):
        if high is None:
            low, high = 0, low
        asked.append((int(low), int(high)))
        return c.choose("generator in [%d,%d)" % (low, high), range(int(low), int(high)))

    np.random.randint = randint
    try:
        arg = dss[0] if single == "dataset" else (list(dss) if single == "list" else tuple(dss))
        s = it.initial_conditions(arg) if n_mem is None else it.initial_conditions(arg, n_mem=n_mem)
    finally:
        np.random.randint = orig
    m = n_mem or 0
    c.check(s.sizes["time"] == m + 1, "length of the history", str(dict(s.sizes)))
    c.close(np.asarray(s["time"]), np.arange(m + 1) * 0.125, "times", rtol=1e-12)
    found = []
    for k, ds in enumerate(dss):
        for p in range(ds.sizes["time"] - m):
            if all(np.array_equal(np.asarray(s[q]), np.asarray(ds[q])[p : p + m + 1]) for q in ("x", "v")):
                found.append((k, p))
    c.observe(str(found))
    c.check(len(found) == 1, "piece of a trajectory", str(found))
    c.check(all(same_snapshot(snapshot(x), y) for x, y in zip(dss, before)), "trajectories are left alone")
    # and it can be used
    tr = it.run(m + 3, x0=s, set_noise_to_zero=True)
    c.close(tr["x"].values[: m + 1], np.asarray(s["x"]), "the run begins with it", rtol=0, atol=0)


def estimated(c):
    """From an estimated model, projected or not, to a trajectory."""
    v, g = vb(), integ()
    model = c.choose("model", ["Pos_gle", "Pos_gle_const_kernel"])
    bname = c.choose("basis", ["linear", "poly1", "poly3"])
    rm = c.choose("remove_const", [True, False])
    method = c.choose("method", ["rect", "trapz", "second_kind_trapz"])
    n = c.choose("steps", [3, 8])
    spec = basis_specs()[bname]
    c.skip_if(not rm and not spec.removable)
    ds = make_xva(60, seed=4)
    est = estimator(model, spec.make(rm), ds, 7)
    est.compute_mean_force()
    est.compute_corrs()
    est.compute_kernel(method=method)
    m = est.model
    const = model == "Pos_gle_const_kernel"
    K = m.kernel.values
    K = np.where(np.isfinite(K), K, 0.0)
    m.kernel = m.kernel.copy(data=0.2 * K / growth(K))  # bounded, so that no trajectory leaves the basis
    m.force_coeff = m.force_coeff * 0.1
    it = (g.Integrator_gle_const_kernel if const else g.Integrator_gle)(m, coeffs_noise_kernel=np.eye(K.shape[1], 1), rng=zeros, verbose=False)
    ref = spec.ref([columns(ds)[0]])
    keep = ref.kept if rm and spec.removable and not const else list(range(ref.K))
    P = m.P_range.values if m.rank_projection else None
    dv = lambda x: (ref.d1(x[None])[0][keep] if P is None else np.einsum("rk,kd->rd", P, ref.d1(x[None])[0]))
    x0, xs, vs = start(2, 1, 0.5)
    tr = it.run(n, x0=x0, set_noise_to_zero=True)
    X, V = ref_run(lambda x: ref.val(x[None])[0], dv, m.force_coeff.values, m.kernel.values, 0.5, n, xs, vs, const=const)
    c.observe(tr["x"].values)
    c.close(tr["x"].values, X, "positions", rtol=1e-9)
    c.close(tr["v"].values, V, "velocities", rtol=1e-9)


def harnesses(tier):
    q = tier == "quick"
    return {
        "noise free": (noise_free, {"kernels": [2, 4] if q else [2, 3, 4, 6], "steps": [1, 3, 7] if q else [1, 2, 3, 7, 12]}, 4),
        "long memory": (long_memory, {"kernels": [80, 260, 1100] if q else [80, 130, 260, 520, 1040, 2100], "every": 16 if q else 1}, 3),
        "noisy": (noisy, {}, 3),
        "convergence": (converge, {"ladder": [16, 32, 64] if q else [16, 32, 64, 128, 256], "order": 1.8}, 2),
        "initial conditions": (initial, {}, 3),
        "estimated": (estimated, {}, 2),
    }
