"""Evolution of the Volterra equation of the stored force and kernel, and the decomposition
of the flux of a solution into force and memory."""
import numpy as np

from .common import vb, bf, make_xva, basis_specs, columns, ref_vectors, ref_corr, pooled, growth

BOUNDS = "every unit impulse of the kernel (up to 4 values of 3x3) and of the force with 3 amplitudes, every memory length, evolutions of 1 to 9 steps, 3 methods; 6 exactly solvable equations over a ladder of 4 time steps; flux: every pair of impulses of correlation and kernel, 3 quadratures; end to end on 5 bases; evolutions of 301 steps with kernels of 140 values and 6 functions, of 2400 steps with kernels of 2200 values"
ASSUMPTIONS = "rectangular memory leaves out the last kernel value of its window, as the rectangular inversion does (its last value is undetermined)"


def model(F, K, dt):
    import xarray as xr

    n = len(F)
    b = bf().PolynomialFeatures(deg=n - 1, remove_const=False)
    m = vb().Pos_gle_overdamped(b, dt, dim_x=1, dim_obs=n, trunc_ind=len(K), L_obs="dE")
    m.force_coeff = xr.DataArray(F, dims=("dim_basis", "dim_dE"))
    m.kernel = xr.DataArray(K, dims=("time_kernel", "dim_basis", "dim_dE"), coords={"time_kernel": np.arange(len(K)) * dt})
    return m


def ref_evolve(F, K, G0, n, dt, method):
    N = len(F)
    L = len(K) - 1
    out = np.zeros((G0.shape[0], N, n))
    out[:, :, 0] = G0
    h = 1.0 if method == "rect" else 0.5
    A = np.eye(N) + h * dt * dt * K[0]
    for i in range(1, n):
        m = min(i, L)
        mem = np.zeros(G0.shape)
        if m > 1:
            mem += dt * np.tensordot(out[:, :, i - np.arange(1, m)], K[1:m], ([2, 1], [0, 1]))
        if method != "rect" and m > 0:
            mem += 0.5 * dt * out[:, :, i - m] @ K[m]
        rhs = out[:, :, i - 1] - dt * mem + dt * out[:, :, i - 1] @ F
        out[:, :, i] = np.linalg.solve(A.T, rhs.T).T
        if method == "trapz_stab":
            out[:, :, i] = np.maximum(out[:, :, i], 0.0)
            out[:, :, i] /= out[:, :, i].sum(1, keepdims=True)
    return out


def evolve(c):
    N = c.choose("functions", [1, 2, 3])
    M = c.choose("kernel values", [2, 3, 4])
    method = c.choose("method", ["default", "rect", "trapz", "trapz_stab"])
    n = c.choose("steps", c.params["steps"])
    trunc = c.choose("memory", [None, -1, 2, 3, 40])
    imp = c.choose("impulse", ["force"] + list(range(M)))
    e = c.choose("element", [(i, j) for i in range(N) for j in range(N)])
    amp = c.choose("amplitude", c.params["amplitudes"])
    dt = c.choose("time step", c.params["dt"])
    base = c.choose("background", ["zero", "full"])
    F, K = np.zeros((N, N)), np.zeros((M, N, N))
    if base == "full":
        F += 0.2 * np.cos(1 + np.arange(N * N)).reshape(N, N)
        K += 0.3 * np.sin(1 + np.arange(M * N * N)).reshape(M, N, N)
    if imp == "force":
        F[e] += amp
    else:
        K[imp][e] += amp
    G0 = np.eye(N) * 0.6 + 0.4 / N if method == "trapz_stab" else np.eye(N) + 0.1 * np.cos(np.arange(N * N)).reshape(N, N)
    m = model(F, K, dt)
    kw = {} if method == "default" else {"method": method}
    if trunc is not None:
        kw["trunc_ind"] = trunc
    keep = G0.copy(), F.copy(), K.copy()
    t, E = m.evolve_volterra(G0, n, **kw)
    Ke = K if trunc is None or trunc <= 0 else K[:trunc]
    want = ref_evolve(F, Ke, G0, n, dt, "trapz" if method == "default" else method)
    c.observe(E)
    c.close(t, np.arange(n) * dt, "times", rtol=1e-12)
    c.close(E, want, "solution", rtol=1e-10)
    c.check(np.array_equal(keep[0], G0) and np.array_equal(m.force_coeff.values, keep[1]) and np.array_equal(m.kernel.values, keep[2]), "arguments are left alone")
    if method == "trapz_stab":
        c.check((E > -1e-12).all(), "probabilities are positive")
        c.close(E.sum(1), np.ones((N, n)), "probabilities add up to one", rtol=1e-10)
    if base == "zero" and imp == "force" and method != "trapz_stab":
        euler = [G0]
        for _ in range(n - 1):
            euler.append(euler[-1] @ (np.eye(N) + dt * F))
        c.close(E, np.stack(euler, 2), "without memory", rtol=1e-11)


def converge(c):
    """E' = E F - int E(t-s) K(s) ds with K = k exp(-l s): a linear differential equation."""
    f, k, lam = c.choose("equation", [(-0.5, 1.0, 1.0), (0.0, 1.0, 0.5), (0.2, 2.0, 1.5), (-1.0, -0.5, 1.0), (0.0, 0.5, 0.0), (-0.3, 0.0, 1.0)])
    N = c.choose("functions", [1, 2])
    method = c.choose("method", ["rect", "trapz"])
    Tmax = 2.0
    Q = np.array([[1.0]]) if N == 1 else np.array([[0.8, -0.6], [0.6, 0.8]])
    scales = [1.0, 0.5][:N]
    errs = []
    for q in c.params["ladder"]:
        dt = Tmax / q
        s = np.arange(q + 1) * dt
        F = Q @ np.diag([f * a for a in scales]) @ Q.T
        K = np.stack([Q @ np.diag([k * a * np.exp(-lam * x) for a in scales]) @ Q.T for x in s])
        _, E = model(F, K, dt).evolve_volterra(np.eye(N), q + 1, method=method)
        c.op(q)
        ex = []
        for a in scales:  # y' = a f y - z, z' = -lam z + a k y
            w, V = np.linalg.eig(np.array([[a * f, -1.0], [a * k, -lam]], complex))
            co = np.linalg.solve(V, np.array([1.0, 0.0]))
            ex.append(((V[0] * co)[:, None] * np.exp(w[:, None] * s)).sum(0).real)
        errs.append(np.abs(E - np.einsum("ia,at,ja->ijt", Q, np.array(ex), Q)).max())
    c.observe(np.array(errs))
    for a, b in zip(errs, errs[1:]):
        c.check(b < 0.65 * a + 1e-12, "first order convergence", "errors %s" % errs)
    c.check(errs[-1] < 8.0 / c.params["ladder"][-1], "close to the solution", str(errs))


def ref_flux(C, K, dt, method):
    o, k, n = C.shape
    out = np.zeros((n, o, K.shape[2]))
    for i in range(1, n):
        m = min(i, len(K) - 1)
        w = np.zeros(m + 1)
        if method == "rect":
            w[:m] = 1.0
        elif method == "trapz" or m == 1:
            w[:] = 1.0
            w[0] = w[m] = 0.5
        else:
            s = 0
            if m % 2:  # trapezoidal rule on the first interval
                w[0] += 0.5
                w[1] += 0.5
                s = 1
            for j in range(s, m - 1, 2):
                w[j] += 1 / 3
                w[j + 1] += 4 / 3
                w[j + 2] += 1 / 3
        out[i] -= dt * np.tensordot(C[:, :, i - np.arange(m + 1)] * w, K[: m + 1], ([2, 1], [0, 1]))
    return out


def flux(c):
    o, N, l = c.choose("sizes", [(1, 1, 1), (2, 2, 2), (3, 2, 2), (2, 3, 1)])
    n = c.choose("times", [2, 3, 7])
    M = c.choose("kernel values", [2, 3, 5, 8])
    method = c.choose("method", ["default", "rect", "trapz", "simpson"])
    at = c.choose("impulse of the correlation at", range(n))
    tau = c.choose("impulse of the kernel at", range(M))
    a, b = c.choose("elements", [(0, 0), (o * N - 1, N * l - 1), (o * N // 2, N * l // 2)])
    given = c.choose("coefficients", ["stored", "given", "truncated", "other correlation"])
    dt = 0.25
    C = np.zeros((o, N, n))
    C.reshape(o * N, n)[a, at] = 1.0
    K = np.zeros((M, N, l))
    K.reshape(M, N * l)[tau, b] = 2.0
    F = np.cos(1 + np.arange(N * l)).reshape(N, l)
    m = model(np.eye(2), np.zeros((M, 2, 2)), dt)
    kw = {} if method == "default" else {"method": method}
    import xarray as xr

    Ck, Ke = C, K
    if given == "given":
        m.trunc_ind = c.choose("truncation of the model", [M, 2])
        kw.update(force_coeff=F, kernel=K)
    else:
        m.force_coeff = xr.DataArray(F, dims=("dim_basis", "dim_dE"))
        m.kernel = xr.DataArray(K, dims=("time_kernel", "dim_basis", "dim_dE"), coords={"time_kernel": np.arange(M) * dt})
    if given == "truncated":
        kw["trunc_ind"] = 2
        Ke = K[:2]
    if given == "other correlation":
        Ck = C[:, :, ::-1].copy()
        kw["corrs_kernel"] = Ck
    f, r = m.flux_from_volterra(C, **kw)
    c.observe(r)
    c.close(f, np.einsum("okt,kl->olt", C, F), "force term", rtol=1e-12)
    c.close(r, ref_flux(Ck, Ke, dt, "trapz" if method == "default" else method), "memory term", rtol=1e-11)


def long_evolution(c):
    """Hundreds of steps, kernels of more than a hundred values."""
    N = c.choose("functions", [1, 3, 6])
    M = c.choose("kernel values", [65, 140, 1100, 2200])
    method = c.choose("method", ["default", "rect", "trapz", "trapz_stab"])
    n = c.choose("steps", [50, 301] if M < 1000 else [2400])
    trunc = c.choose("memory", [None, 70] if M < 1000 else [None, 1050])
    c.skip_if(M > 1000 and N > (3 if M < 2000 else 1))
    dt = 0.05 if M < 1000 else 0.004
    t = np.arange(M)[:, None, None] * dt
    F = -0.8 * np.eye(N) + 0.1 * np.cos(1 + np.arange(N * N)).reshape(N, N)
    K = np.exp(-0.5 * t) * (0.6 * np.eye(N) + 0.1 * np.sin(1 + np.arange(N * N)).reshape(N, N) * np.cos(2.0 * t))
    G0 = np.eye(N) * 0.6 + 0.4 / N if method == "trapz_stab" else np.eye(N) + 0.1 * np.cos(np.arange(N * N)).reshape(N, N)
    m = model(F, K, dt)
    kw = {} if method == "default" else {"method": method}
    if trunc is not None:
        kw["trunc_ind"] = trunc
    ts, E = m.evolve_volterra(G0, n, **kw)
    want = ref_evolve(F, K[:trunc], G0, n, dt, "trapz" if method == "default" else method)
    c.observe(E[:, :, ::20])
    c.close(ts, np.arange(n) * dt, "times", rtol=1e-12)
    c.close(E, want, "solution", rtol=1e-8)
    if method != "trapz_stab":
        C = np.array(E)
        kw2 = dict(kw)
        kw2["method"] = "simpson" if method == "default" else method
        f, r = m.flux_from_volterra(C, **kw2)
        c.close(f, np.einsum("okt,kl->olt", C, F), "force term", rtol=1e-11)
        c.close(r, ref_flux(C, K[:trunc], dt, kw2["method"]), "memory term", rtol=1e-10)


def gfpe(c):
    """to_gfpe: the observable becomes the time derivative of the basis; force term and
    memory term (rectangular kernel) add up to the derivative of the correlations."""
    import xarray as xr

    v = vb()
    bname = c.choose("basis", ["poly1", "poly3", "fourier1", "bspline", "linear"])
    lens = c.choose("lengths", [(60,), (48, 31)])
    name = c.choose("name", [None, "other"])
    T = c.choose("truncation", [4, 9])
    spec = basis_specs()[bname]
    dss = [make_xva(n, seed=4 + i) for i, n in enumerate(lens)]
    tr = [columns(d) for d in dss]
    est = v.Estimator_gle([d.copy() for d in dss], v.Pos_gle_overdamped, spec.make(False), trunc=(T - 1) * 0.5, saveall=False, verbose=False)
    est.to_gfpe(**({} if name is None else {"new_obs_name": name}))
    ref = spec.ref([t[0] for t in tr])
    vec = [ref_vectors("Pos_gle_overdamped", ref, *t, False) for t in tr]
    m = est.model
    for ds, (f, E, dE), d0 in zip(est.xva_list, vec, dss):
        c.close(np.asarray(ds[name or "dE"]), dE, "derivative of the basis", rtol=1e-9)
        c.check(all(np.array_equal(ds[k], d0[k]) for k in ("x", "v", "a")), "columns are left alone")
    c.check(m.L_obs == (name or "dE") and m.dim_obs == ref.K, "observable of the model")
    est.compute_mean_force()
    G = pooled([E.T @ E / len(E) for _, E, _ in vec], lens)
    D = pooled([E.T @ dE / len(E) for _, E, dE in vec], lens)
    F = np.linalg.solve(G, D)
    k = np.linalg.cond(G)
    c.skip_if(k > 1e7)
    c.close(m.force_coeff.values, F, "force", rtol=1e-8)
    est.compute_corrs()
    est.compute_kernel(method="rect")
    C = pooled([ref_corr(E, E, T) for _, E, _ in vec], lens)
    want = pooled([ref_corr(E, dE, T) for _, E, dE in vec], lens)
    f, r = m.flux_from_volterra(C, method="rect")
    got = f + r.transpose(1, 2, 0)
    c.observe(got)
    s = growth(C) * (growth(F) + growth(m.kernel.values))
    c.close(got[:, :, 1:], want[:, :, 1:], "decomposition of the flux", rtol=1e-9, scale=s)
    t, E = m.evolve_volterra(C[:, :, 0], 6, method="rect")
    c.close(E, ref_evolve(m.force_coeff.values, m.kernel.values, C[:, :, 0], 6, 0.5, "rect"), "evolution", rtol=1e-7)


def refused(c):
    what = c.choose("shape", ["force", "kernel", "initial value"])
    N = c.choose("functions", [2, 3])
    F, K, G = np.zeros((N, N)), np.zeros((3, N, N)), np.eye(N)
    m = model(F, K, 0.5)
    if what == "force":
        m.force_coeff = m.force_coeff[:, :-1]
    elif what == "kernel":
        m.kernel = m.kernel[:, :, :-1]
    else:
        G = G[:-1]
    try:
        m.evolve_volterra(G, 4)
    except ValueError as e:
        c.observe(str(e))
    else:
        c.check(False, "wrong shapes are refused")


def harnesses(tier):
    q = tier == "quick"
    return {
        "evolution": (evolve, {"amplitudes": [-0.7] if q else [0.4, -0.7], "dt": [0.5] if q else [0.5, 0.125], "steps": [1, 3, 9] if q else [1, 2, 3, 5, 9]}, 4),
        "convergence": (converge, {"ladder": [32, 64, 128, 256] if q else [32, 64, 128, 256, 512, 1024]}, 2),
        "flux": (flux, {}, 4),
        "gfpe": (gfpe, {}, 2),
        "long": (long_evolution, {}, 2),
        "refused": (refused, {}, 1),
    }
