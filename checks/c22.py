"""A change of units and origins of position and time changes every result by its factor only;
rotated, mirrored and permuted coordinates give rotated, mirrored and permuted results."""
import numpy as np

from .common import MODELS, bf, vb, make_xva, DEFAULT_OBS, growth, columns

BOUNDS = "6 units of length (also mirrored) x 4 units of time x 2 origins of position x 2 origins of time, all 6 models, 7 bases, 6 inversion methods; every element of a set of 8 coordinate transforms in 2 and 3 dimensions; velocities and accelerations, free energies of histograms; 4 units of each of 3 columns of the observable"
ASSUMPTIONS = "the truncation is given in the changed units, as a time of the trajectory"

T = 7
METHODS = ["rect", "trapz", "second_kind_rect", "second_kind_trapz", "midpoint", "midpoint_w_richardson"]


def bases():
    b = bf()
    P = np.polynomial
    # name: (maker of a basis for length unit u, may the origin move, models without)
    return {
        "linear": (lambda u: b.LinearFeatures(), False),
        "linear_c": (lambda u: b.LinearFeatures(to_center=True), True),
        "poly2": (lambda u: b.PolynomialFeatures(deg=2), True),
        "poly1, projected": (lambda u: b.PolynomialFeatures(deg=1, remove_const=False), True),
        "Chebyshev": (lambda u: b.PolynomialFeatures(deg=2, polynom=P.Chebyshev), True),
        "fourier": (lambda u: b.FourierFeatures(order=1, freq=0.8 / abs(u)), True),
        "bspline": (lambda u: b.BSplineFeatures(4, k=3), True),
    }


def run(model, basis, dss, trunc, method, grid):
    v = vb()
    est = v.Estimator_gle(dss, getattr(v, model), basis, trunc=trunc, saveall=False, verbose=False)
    est.compute_mean_force()
    est.compute_effective_mass()
    est.compute_corrs()
    est.compute_kernel(method=method)
    m = est.model
    out = {"force": np.asarray(m.force_eval(grid)), "mass": np.asarray(m.eff_mass), "times": np.asarray(m.kernel["time_kernel"])}
    o = m.kernel.dims[2]
    ev = lambda: np.asarray(m.kernel_eval(grid).transpose("time_kernel", "time", o, "dim_x'"))
    if model == "Pos_gle_hybrid":
        out["kernel"] = np.asarray(m.get_const_kernel_part()).reshape(len(m.kernel), -1)
        out["kernel of the position"] = ev()
    elif model in ("Pos_gle_no_vel_basis", "Pos_gle_overdamped"):
        out["kernel of the position"] = ev()
    else:
        out["kernel"] = ev()
    if hasattr(m, "friction_force_eval"):
        out["friction"] = np.asarray(m.friction_force_eval(grid))
    pmf = m.pmf_eval(grid)
    out["free energy"] = pmf
    if not method.startswith("midpoint"):
        t, noise, obs, f, mem = m.compute_noise(dss[0])
        out.update({"noise": np.asarray(noise), "memory": np.asarray(mem), "observable": np.asarray(obs), "force along": np.asarray(f), "times of the noise": np.asarray(t)})
        t, pc = est.compute_projected_corrs()
        out["projected correlations"] = np.asarray(pc)
        out["times of the projected correlations"] = np.asarray(t)
    return out


def factors(model, u, tau):
    o = u / tau ** 2 if DEFAULT_OBS[model] == "a" else u / tau
    return {
        "force": o, "force along": o, "observable": o, "noise": o, "memory": o, "mass": (tau / u) ** 2,
        "kernel": o * tau ** 0 / u, "kernel of the position": o / tau, "friction": o * tau / u,
        "free energy": u * o if model == "Pos_gle_overdamped" else u * o * (tau / u) ** 2,
        "projected correlations": o * o, "times": tau, "times of the noise": tau, "times of the projected correlations": tau,
    }


def change(ds, u, s, tau, t0):
    import xarray as xr

    x, v, a = columns(ds)
    t = np.asarray(ds["time"])
    dims = ["time", "dim_x"]
    return xr.Dataset({"x": (dims, u * x + s), "v": (dims, u / tau * v), "a": (dims, u / tau ** 2 * a)}, coords={"time": tau * t + t0}, attrs={"dt": tau * ds.attrs["dt"]})


_ref = {}


def units(c):
    model = c.choose("model", MODELS)
    bname = c.choose("basis", list(bases()))
    make, moves = bases()[bname]
    c.skip_if(model == "Pos_gle_with_friction" and bname == "poly1, projected")
    method = c.choose("method", METHODS)
    u = c.choose("unit of length", c.params["lengths"])
    far = abs(np.log2(abs(u))) > 10
    tau = c.choose("unit of time", [1.0] if far else c.params["times"])
    far = far or abs(np.log2(tau)) > 10
    c.skip_if(far and (bname not in ("linear", "linear_c", "fourier", "bspline") or abs(np.log2(tau)) > 10 and u != 1))
    s = c.choose("origin of the position", [0.0] if far else [0.0, 1.5])
    t0 = c.choose("origin of time", [0.0] if far else [0.0, 3.0])
    c.skip_if(s != 0 and not moves)
    c.skip_if(u == 1 and tau == 1 and s == 0 and t0 == 0)
    n = T if method != "midpoint_w_richardson" else 13
    dss = [make_xva(48, seed=4), make_xva(33, seed=9)]
    X = np.linspace(-1.0, 1.0, 7)
    trunc = (n - 1) * 0.5
    key = (model, bname, method)
    if key not in _ref:
        _ref.clear()
        _ref[key] = run(model, make(1.0), dss, trunc, method, X)
    want = _ref[key]
    got = run(model, make(u), [change(d, u, s, tau, t0) for d in dss], tau * trunc + t0, method, u * X + s)
    f = factors(model, u, tau)
    # the velocity enters the kernel of the velocity: per length and per time
    f["kernel"] = f["force"] * tau / u / tau
    c.observe(want["force"])
    big = {"noise": growth(want.get("memory", np.ones(1))), "memory": 0.0}
    for k in want:
        s_ = (growth(want[k]) + big.get(k, 0.0)) * abs(f[k])
        c.close(got[k], want[k] * f[k], k, rtol=1e-7, atol=0.0, scale=s_)


TRANSFORMS = {
    2: {"swap": [[0, 1], [1, 0]], "mirror": [[-1, 0], [0, 1]], "rotation": [[0.6, -0.8], [0.8, 0.6]], "reflection": [[0.6, 0.8], [0.8, -0.6]], "shear": [[1, 0.5], [0, 1]], "stretch": [[2, 0], [0, 0.25]], "small units": [[0.75 * 2.0 ** -20, -(2.0 ** -20)], [2.0 ** -20, 0.75 * 2.0 ** -20]], "large units": [[2.0 ** 20, 2.0 ** 19], [0, 2.0 ** 20]]},
    3: {"cycle": [[0, 1, 0], [0, 0, 1], [1, 0, 0]], "swap": [[0, 1, 0], [1, 0, 0], [0, 0, 1]], "inversion": [[-1, 0, 0], [0, -1, 0], [0, 0, -1]], "rotation": [[0.6, -0.8, 0], [0.8, 0.6, 0], [0, 0, 1]], "shear": [[1, 0.5, 0], [0, 1, -0.25], [0, 0, 1]], "stretch": [[2, 0, 0], [0, 0.25, 0], [0, 0, 4]], "small units": [[2.0 ** -20, 0, 0], [0, 2.0 ** -20, 0], [0, 0, 2.0 ** -20]], "large units": [[2.0 ** 20, 2.0 ** 19, 0], [0, 2.0 ** 20, 0], [0, 2.0 ** 18, 2.0 ** 20]]},
}


def coordinates(c):
    """Linear bases: x -> R x gives R F(x), R K R^-1 and R^-T M R^-1."""
    import xarray as xr

    b = bf()
    d = c.choose("dimension", [2, 3])
    name = c.choose("transform", list(TRANSFORMS[d]))
    model = c.choose("model", MODELS)
    method = c.choose("method", METHODS)
    cen = c.choose("centred", [False, True])
    R = np.array(TRANSFORMS[d][name], float)
    Ri = np.linalg.inv(R)
    n = T if method != "midpoint_w_richardson" else 13
    dss = [make_xva(50, seed=4, d=d), make_xva(41, seed=9, d=d)]

    def tr(ds):
        dims = ["time", "dim_x"]
        return xr.Dataset({k: (dims, np.asarray(ds[k]) @ R.T) for k in ("x", "v", "a")}, coords={"time": ds["time"]}, attrs=ds.attrs)

    def results(ds):
        v = vb()
        est = v.Estimator_gle(ds, getattr(v, model), b.LinearFeatures(to_center=cen), trunc=(n - 1) * 0.5, saveall=False, verbose=False)
        est.compute_mean_force()
        est.compute_effective_mass()
        est.compute_corrs()
        est.compute_kernel(method=method)
        m = est.model
        F = m.force_coeff.values
        out = {"force": [F[i : i + d] for i in range(0, len(F), d)], "kernel": [m.kernel.values[:, i : i + d] for i in range(0, m.kernel.shape[1], d)], "mass": np.asarray(m.eff_mass)}
        if not method.startswith("midpoint"):
            out["noise"] = np.asarray(m.compute_noise(ds[0])[1])
            out["projected correlations"] = np.asarray(est.compute_projected_corrs()[1])
        return out

    want, got = results(dss), results([tr(ds) for ds in dss])
    c.observe(want["kernel"][0])
    # coefficients act from the left on the basis: f(x) = x @ F
    for a, w in zip(got["force"], want["force"]):
        c.close(a, Ri.T @ w @ R.T, "force", rtol=1e-8, scale=growth(w) * 8)
    for a, w in zip(got["kernel"], want["kernel"]):
        c.close(a, np.einsum("ij,tjk,kl->til", Ri.T, w, R.T), "kernel", rtol=1e-7, scale=growth(w) * 8)
    c.close(got["mass"], Ri.T @ want["mass"] @ Ri, "mass", rtol=1e-9)
    s = 8 * max(growth(k) for k in want["kernel"])
    big = np.abs(R).max()
    if "noise" in want:
        c.close(got["noise"], want["noise"] @ R.T, "noise", rtol=1e-8, scale=(growth(want["noise"]) + s) * big)
        w = want["projected correlations"]
        c.close(got["projected correlations"], np.einsum("ij,jkt,lk->ilt", R, w, R) if w.shape[0] == d and w.ndim == 3 and w.shape[1] == d else np.einsum("ij,tjk,lk->til", R, w, R), "projected correlations", rtol=1e-7, scale=(growth(w) * 8 + s) * big ** 2)


def preparation(c):
    """Velocities, accelerations and free energies of histograms in other units."""
    v = vb()
    fn = c.choose("function", ["compute_va", "compute_va_gjf", "compute_a", "compute_1d_fe"])
    u = c.choose("unit of length", [1.0, 2.0, 0.25, -1.0])
    tau = c.choose("unit of time", [1.0, 2.0, 0.25])
    s = c.choose("origin of the position", [0.0, 1.5])
    t0 = c.choose("origin of time", [0.0, 4.0])
    n = c.choose("length", [6, 9, 40])
    d = c.choose("dimension", [1, 2])
    x = np.asarray(make_xva(n, seed=3, d=d)["x"])
    x = np.round(x * 1024) / 1024  # exact in all these units
    t = np.arange(n) * 0.5

    def go(x, t, u):
        ds = v.xframe(x, t, fix_time=False)
        if fn == "compute_a":
            ds = v.xframe(x, t, v=np.gradient(x, t, axis=0), fix_time=False)
            return v.compute_a(ds)
        if fn == "compute_1d_fe":
            return v.compute_1d_fe([v.compute_va(ds)], bins=7)
        return getattr(v, fn)(ds)

    c.skip_if(fn == "compute_1d_fe" and (d != 1 or n < 40 or u < 0))
    a, b = go(x, t, 1.0), go(u * x + s, tau * t + t0, u)
    if fn == "compute_1d_fe":
        c.observe(np.asarray(a[1]))
        f = [u, 1.0, tau ** 2 / u ** 3, u / tau ** 2, u / tau ** 2, (u / tau) ** 2]
        for k, (name, p, q) in enumerate(zip(["centres", "free energy", "force", "mean acceleration", "total force", "squared velocity"], a, b)):
            p = np.asarray(p).ravel() * f[k] + (s if k == 0 else 0)
            c.close(np.asarray(q).ravel(), p, name, rtol=1e-8)
        return
    c.observe(np.asarray(a["a"] if "a" in a else a["v"]))
    c.close(np.asarray(b["time"]), tau * np.asarray(a["time"]) + t0, "times", rtol=1e-12)
    for k, f in {"x": u, "v": u / tau, "a": u / tau ** 2}.items():
        if k in a:
            c.close(np.asarray(b[k]), np.asarray(a[k]) * f + (s if k == "x" else 0), k, rtol=1e-10, scale=(growth(x) + s) * abs(f) * 40)


def column_units(c):
    """Each column of the observable in its own unit: its results have its factor, those of the others stay."""
    import xarray as xr

    v = vb()
    model = c.choose("model", MODELS)
    bname = c.choose("basis", ["linear", "linear_c", "poly2", "fourier"])
    k = c.choose("column", [0, 1, 2])
    u = c.choose("unit", [2.0 ** -40, -0.5, 2.0 ** 40, 0.0])
    method = c.choose("method", METHODS)
    n = T if method != "midpoint_w_richardson" else 13
    dss = [make_xva(50, seed=4), make_xva(41, seed=9)]

    def go(f):
        data = [d.assign({"obs": (["time", "dim_o"], np.hstack([np.asarray(d[DEFAULT_OBS[model]]), np.asarray(make_xva(d.sizes["time"], seed=12 + i, d=2)["a"])]) * f)}) for i, d in enumerate(dss)]
        est = v.Estimator_gle(data, getattr(v, model), bases()[bname][0](1.0), trunc=(n - 1) * 0.5, L_obs="obs", saveall=False, verbose=False)
        est.compute_mean_force()
        est.compute_corrs()
        est.compute_kernel(method=method)
        m = est.model
        out = {"force": m.force_coeff.values, "kernel": m.kernel.values, "correlations with the observable": np.moveaxis(est.bkdxcorrw.values, 1, -1)}
        if not method.startswith("midpoint"):
            out["noise"] = np.asarray(m.compute_noise(data[0])[1])
            out["memory"] = np.asarray(m.compute_noise(data[0])[4])
        return out

    key = ("columns", model, bname, method)
    if key not in _ref:
        _ref[key] = go(np.ones(3))
    want = _ref[key]
    f = np.ones(3)
    f[k] = u
    got = go(f)
    c.observe(want["kernel"][0])
    for name, w in want.items():
        for j in range(3):
            s = (growth(w[..., j]) + (growth(want["memory"][..., j]) if name == "noise" else 0)) * abs(f[j])
            c.close(got[name][..., j], w[..., j] * f[j], "%s, %s" % (name, "changed column" if j == k else "another column"), rtol=1e-9, atol=0.0, scale=s)


def harnesses(tier):
    q = tier == "quick"
    return {
        "units": (units, {"lengths": [1.0, 4.0, -0.5, 2.0 ** -20, 2.0 ** 20] if q else [1.0, 2.0, 0.25, -1.0, -2.0, 64.0, 2.0 ** -20, 2.0 ** -30, 2.0 ** 20], "times": [1.0, 0.25, 2.0, 2.0 ** -20, 2.0 ** 20] if q else [1.0, 2.0, 0.25, 32.0, 2.0 ** -20, 2.0 ** 20]}, 4),
        "coordinates": (coordinates, {}, 4),
        "columns": (column_units, {}, 4),
        "preparation": (preparation, {}, 3),
    }
