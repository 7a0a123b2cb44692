"""Fits of the memory kernel recover kernels of the fitted form, and the fitted function
evaluates to the same kernel, for every component."""
import contextlib
import io
import warnings

import numpy as np

from .common import vb, make_xva, basis_specs, estimator, growth

BOUNDS = "every kernel of a grid of rates, amplitudes and exponents for 8 kinds of functions, 3 time steps, up to 2000 values; Prony series of 1 to 4 terms, real, oscillating and alternating, odd and even lengths; every assignment of two different kernels to the components of 1x1 to 2x3 kernels"
ASSUMPTIONS = "noise-free kernels whose decay is resolved by, and shorter than, the sampled range"

# kind: (function of reduced time u = t/dt, parameters in units of the time step, grid)
A = [1.0, 3.5, -2.0]


def modules():
    import VolterraBasis.fit_memory as fm
    import VolterraBasis.fit_prony as fp

    vb()
    return fm, fp


KINDS = {
    "exp": (lambda t, a, b: a * np.exp(-b * t), [(a, b) for a in A for b in (0.03, 0.08, 0.15, 0.25)], True),
    "exponential": (lambda t, a, b: a * np.exp(-b * t), [(a, b) for a in A for b in (0.06,)], True),
    "expnorm": (lambda t, b: np.exp(-b * t), [(b,) for b in (0.03, 0.08, 0.15, 0.25)], True),
    "exp_norm": (lambda t, b: np.exp(-b * t), [(0.06,)], True),
    "doubleexpnorm": (lambda t, b, c, al: al * np.exp(-b * t) + (1 - al) * np.exp(-c * t), [(b, c, al) for b in (0.01, 0.02) for c in (0.1, 0.2) for al in (0.3, 0.6)], False),
    "double_exp_norm": (lambda t, b, c, al: al * np.exp(-b * t) + (1 - al) * np.exp(-c * t), [(0.02, 0.15, 0.5)], False),
    "sech": (lambda t, a, b, nu: a / np.cosh(b * t) ** nu, [(a, b, nu) for a in (1.0, 2.5) for b in (0.05, 0.1) for nu in (1.0, 2.0)], False),
    "sech_one": (lambda t, a, b: a / np.cosh(b * t), [(a, b) for a in A for b in (0.05, 0.1, 0.2)], True),
    "sech_two": (lambda t, a, b: a / np.cosh(b * t) ** 2, [(a, b) for a in A for b in (0.05, 0.1, 0.2)], True),
    "gaussian": (lambda t, a, b: a * np.exp(-b * t ** 2), [(a, b) for a in A for b in (0.01, 0.04, 0.1)], True),
}


def scaled(kind, p, dt):
    """Parameters for a time step dt."""
    if kind in ("expnorm", "exp_norm"):
        return (p[0] / dt,)
    if kind.startswith("double"):
        return (p[0] / dt, p[1] / dt, p[2])
    if kind == "gaussian":
        return (p[0], p[1] / dt ** 2)
    return (p[0], p[1] / dt) + tuple(p[2:])


def functions(c):
    fm, _ = modules()
    kind = c.choose("function", list(KINDS))
    f, grid, unique = KINDS[kind]
    p = c.choose("parameters", grid)
    dt = c.choose("time step", c.params["dt"])
    shape = c.choose("times", ["(n,)", "(n,1)"])
    n = c.choose("values", [80, 601, 2000])
    t = (np.arange(n) + c.choose("first time in steps", [0, 1, 4])) * dt
    q = scaled(kind, p, dt)
    y = f(t, *q)
    keep = y.copy()
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        res = fm.memory_fit(t if shape == "(n,)" else t.reshape(-1, 1), y, type=kind)
    c.check(res[0] == kind, "type of the fit")
    popt = np.asarray(res[1])
    c.observe(popt)
    s = growth(y)
    tt = (np.arange(2 * n) * 0.5 + 0.25) * dt
    for arg, kw in ((res, {}), (res[1], {"type": kind})):
        c.close(np.asarray(fm.memory_fit_eval(t, arg, **kw)), y, "fit at the sampled times", rtol=0, atol=1e-5 * s)
        c.close(np.asarray(fm.memory_fit_eval(tt, arg, **kw)), f(tt, *q), "fit at other times", rtol=0, atol=1e-5 * s)
        c.close(np.asarray(fm.memory_fit_eval(tt[[5]], arg, **kw)), f(tt[[5]], *q), "fit at one time", rtol=0, atol=1e-5 * s)
    if unique:
        sign = np.abs(popt) if kind.startswith("sech") else popt
        want = np.abs(q) if kind.startswith("sech") else np.array(q)
        c.close(sign, want, "parameters", rtol=0, atol=0 + 1e-4 * max(np.abs(q)))
    c.check(np.array_equal(y, keep), "kernel is left alone")


SERIES = {
    # amplitudes, rates per step (complex: with its conjugate)
    "one": ([1.0], [0.1]),
    "two": ([0.6, 0.4], [0.05, 0.4]),
    "two of different sign": ([1.5, -0.5], [0.1, 0.5]),
    "three": ([0.5, 0.3, 0.2], [0.03, 0.2, 0.8]),
    "four": ([0.4, 0.3, 0.2, 0.1], [0.03, 0.2, 0.6, 1.4]),
    "oscillating": ([1.0], [0.1 + 0.5j]),
    "oscillating and decaying": ([0.5, 0.5], [0.05 + 0.7j, 0.3]),
    "two oscillating": ([0.7, 0.3], [0.08 + 0.3j, 0.1 + 1.1j]),
    "phase shifted": ([1.0 - 0.4j], [0.1 + 0.5j]),
    "constant and decaying": ([0.3, 0.7], [0.0, 0.2]),
}


def series_fct(name, scale=1.0):
    amp, rate = SERIES[name]

    def f(u):
        out = np.zeros(np.shape(u))
        for a, r in zip(amp, rate):
            out = out + (a * np.exp(-r * np.asarray(u, float))).real
        return scale * out

    return f, sum(1 if np.imag(r) == 0 else 2 for r in rate)


def prony(c):
    fm, fp = modules()
    name = c.choose("series", list(SERIES))
    n = c.choose("values", c.params["values"])
    dt = c.choose("time step", c.params["dt"])
    scale = c.choose("amplitude", [1.0, -3.0, 250.0, 1e-13, 1e13])
    how = c.choose("terms", ["number of terms", "threshold", "one more than needed"])
    call = c.choose("call", ["prony_fit_times_serie", "memory_fit"])
    f, order = series_fct(name, scale)
    t = np.arange(n) * dt
    y = f(np.arange(n))
    keep = y.copy()
    kw = {"N_keep": order} if how == "number of terms" else {"thres": 1e-9} if how == "threshold" else {"N_keep": order + 1, "thres": 1e-9}
    if name == "constant and decaying":
        kw["remove"] = False  # a rate of zero may be rounded to a growing one
    fit = fp.prony_fit_times_serie(y, dt, **kw) if call != "memory_fit" else fm.memory_fit(t, y, type="prony", **kw)[1]
    c.observe(np.asarray(fit[1]).shape[0])
    c.close(fit[0], y[0], "initial value", rtol=1e-12)
    c.check(np.asarray(fit[1]).shape == (order, order), "number of terms", str(np.asarray(fit[1]).shape))
    tol = 1e-5 * abs(scale)
    c.close(fp.prony_series_eval(t, *fit), y, "series at the sampled times", rtol=0, atol=tol)
    u = np.arange(2 * n) * 0.5 + 0.25
    c.close(fp.prony_series_eval(u * dt, *fit), f(u), "series at other times", rtol=0, atol=tol)
    for w, what in ((u[[0, 1, 5, 6, 14, 20]], "uneven times"), (u[::-1][:9], "decreasing times"), (u[3:4], "one time"), (u[:7].reshape(-1, 1), "column of times")):
        c.close(fp.prony_series_eval(w * dt, *fit), f(w.ravel()), "series at " + what, rtol=0, atol=tol)
    c.close(fm.memory_fit_eval(t, ("prony", fit)), y, "memory_fit_eval", rtol=0, atol=tol)
    ev = np.sort_complex(np.linalg.eigvals(np.asarray(fit[1])) * dt)
    want = np.sort_complex(np.array([-r for r in SERIES[name][1]] + [-np.conj(r) for r in SERIES[name][1] if np.imag(r)], complex))
    c.close(np.sort(ev.real), np.sort(want.real), "rates", rtol=0, atol=2e-4)
    c.close(np.sort(ev.imag), np.sort(want.imag), "frequencies", rtol=0, atol=2e-4)
    c.check(np.array_equal(y, keep), "kernel is left alone")


def alternating(c):
    """Negative real eigenvalues (sign changes at every step) are represented by a pair; growing
    terms are removed unless asked."""
    _, fp = modules()
    r = c.choose("ratio", [-0.6, -0.9])
    n = c.choose("values", [11, 16])
    dt = c.choose("time step", [0.5, 1.0])
    with_ = c.choose("together with", [None, 0.8, 0.5 + 0.4j])
    y = r ** np.arange(n)
    order = 1
    if with_ is not None:
        y = 0.4 * y + (0.6 * np.power(complex(with_), np.arange(n))).real
        order = 2 if np.imag(with_) == 0 else 3
    fit = fp.prony_fit_times_serie(y, dt, N_keep=order)
    c.check(np.asarray(fit[1]).shape == (order + 1, order + 1), "number of terms", str(np.asarray(fit[1]).shape))
    c.observe(np.asarray(fit[1]))
    c.close(fp.prony_series_eval(np.arange(n) * dt, *fit), y, "alternating series", rtol=0, atol=1e-6)
    y = 1.2 ** np.arange(n)
    fit = fp.prony_fit_times_serie(y, dt, N_keep=1, remove=False)
    c.close(fp.prony_series_eval(np.arange(n) * dt, *fit), y, "growing series", rtol=1e-6)


def frequencies(c):
    """One oscillation of any frequency that the sampling resolves, up to nearly the fastest."""
    fm, fp = modules()
    w = c.choose("angle per step", [0.02, 0.1, 0.8, 1.5707963, 2.4, 3.0, 3.1, 3.1325, 3.14])
    decay = c.choose("decay per step", [0.01, 0.1, 0.3])
    phase = c.choose("phase", [0.0, 0.7])
    n = c.choose("values", [30, 61])
    dt = c.choose("time step", [0.1, 1.0])
    with_ = c.choose("together with", [None, 0.5])
    t = np.arange(n) * dt
    f = lambda u: np.exp(-decay * u) * np.cos(w * u + phase) + (0.0 if with_ is None else with_ * np.exp(-0.5 * u))
    y = f(np.arange(n))
    order = 2 if with_ is None else 3
    fit = fp.prony_fit_times_serie(y, dt, N_keep=order)
    c.check(np.asarray(fit[1]).shape == (order, order), "number of terms", str(np.asarray(fit[1]).shape))
    c.observe(np.asarray(fit[1]))
    c.close(fp.prony_series_eval(t, *fit), y, "series at the sampled times", rtol=0, atol=1e-6)
    c.close(fm.memory_fit_eval(t, ("prony", fit)), y, "memory_fit_eval", rtol=0, atol=1e-6)
    u = np.arange(2 * n) * 0.5 + 0.25
    c.close(fp.prony_series_eval(u * dt, *fit), f(u), "series at other times", rtol=0, atol=1e-5)


def threshold(c):
    """The threshold and the number of terms decide how many terms are fitted: a term below the
    threshold is left out; the remaining ones are fitted as if it were absent. Growing terms are
    left out unless asked for."""
    fm, fp = modules()
    big = c.choose("large term", [0.95, 0.6])
    small = c.choose("small term", [1e-5, 1e-7])
    n = c.choose("values", [20, 21, 40])
    dt = c.choose("time step", [0.5, 1.0])
    call = c.choose("call", ["prony_fit_times_serie", "memory_fit", "prony_fit_kernel", "growing", "growing kept"])
    k = np.arange(n)
    if call.startswith("growing"):
        y = big**k + small * 1.15**k
        fit = fp.prony_fit_times_serie(y, dt, N_keep=2, remove=call == "growing")
        want = 1 if call == "growing" else 2
        c.check(np.asarray(fit[1]).shape == (want, want), "number of terms", str(np.asarray(fit[1]).shape))
        ev = np.sort(np.linalg.eigvals(np.asarray(fit[1])).real) * dt
        c.observe(ev)
        c.close(ev, np.log([big, 1.15][:want]), "rates", rtol=0, atol=1e-3)
        if want == 2:
            c.close(fp.prony_series_eval(k * dt, *fit), y, "series", rtol=1e-4)
        return
    y = big**k + small * 0.2**k
    for kw, want in (({}, 2), ({"thres": 3e-3}, 1), ({"N_keep": 1}, 1), ({"N_keep": 2}, 2), ({"thres": 3e-3, "N_keep": 2}, 1)):
        if call == "prony_fit_times_serie":
            A = fp.prony_fit_times_serie(y, dt, **kw)[1]
        elif call == "memory_fit":
            A = fm.memory_fit(k * dt, y, type="prony", **kw)[1][1]
        else:
            A = fp.prony_fit_kernel(k * dt, y.reshape(-1, 1, 1), **kw)[0][0][1]
        A = np.asarray(A)
        c.check(A.shape == (want, want), "number of terms", "%s: %s" % (kw, A.shape))
        ev = np.sort(np.linalg.eigvals(A).real)[::-1] * dt
        c.observe(ev)
        c.close(ev[0], np.log(big), "rate of the large term", rtol=0, atol=1e-3)
        if want == 2:
            c.close(ev[1], np.log(0.2), "rate of the small term", rtol=0, atol=1e-2)


def filtered(c):
    """Inspection of the data returns the data when nothing is filtered out, and the values of the
    Hankel matrix of the kept singular values otherwise."""
    _, fp = modules()
    name = c.choose("series", list(SERIES))
    n = c.choose("values", [20, 21, 30, 31])
    kept = c.choose("kept", ["all", "all by default", "one", "one by threshold"])
    f, order = series_fct(name, 2.0)
    y = f(np.arange(n))
    m = (n - 1) // 2
    y = y[: 2 * m + 1]  # an even number of values is not used up
    h = np.array([[y[i + j] for j in range(m + 1)] for i in range(m + 1)]) / y[0]
    lam, u = np.linalg.eigh(h)
    o = np.argsort(-np.abs(lam))
    lam, u = lam[o], u[:, o]
    kw = {"all": {"N_keep": order}, "all by default": {}, "one": {"N_keep": 1}, "one by threshold": {"thres": (abs(lam[0]) + abs(lam[1])) / 2}}[kept]
    c.skip_if(kept.startswith("one") and abs(lam[1]) > 0.95 * abs(lam[0]))
    with contextlib.redirect_stdout(io.StringIO()):
        z = fp.prony_inspect_data(f(np.arange(n)), **kw)
    c.observe(z)
    if kept.startswith("one"):
        H = lam[0] * np.outer(u[:, 0], u[:, 0]) * y[0]
        want = np.concatenate((H[:, 0], H[-1, 1:]))
    else:
        want = y
    c.close(z, want, "filtered data", rtol=0, atol=1e-8 * np.abs(y).max())


def components(c):
    """Every component is fitted on its own, at its own place."""
    import xarray as xr

    fm, fp = modules()
    kind = c.choose("function", ["exp", "gaussian", "sech_one", "prony", "prony_fit_kernel"])
    nb, dx = c.choose("sizes", [(1, 1), (2, 1), (1, 2), (2, 3)])
    which = [c.choose("component %d" % i, [0, 1]) for i in range(min(nb * dx, 4))]
    which = (which * 6)[: nb * dx]
    given = c.choose("given as", ["array", "DataArray"])
    n, dt = 41, 0.5
    t = np.arange(n) * dt
    if "prony" in kind:
        fs = [series_fct("two", 1.0)[0], series_fct("two", 2.0)[0]]
        gs = [lambda t: fs[0](t / dt), lambda t: 1.5 * fs[1](1.3 * t / dt)]
    else:
        f, grid, _ = KINDS[kind]
        gs = [lambda t: f(t, *scaled(kind, grid[0], dt)), lambda t: f(t, *scaled(kind, grid[-2], dt))]
    K = np.zeros((n, nb, dx))
    amp = (1 + 0.25 * np.arange(nb * dx).reshape(nb, dx)) * (c.choose("amplitude", [1.0, 1e-13, 1e10]) if "prony" in kind else 1.0)
    for i in range(nb):
        for j in range(dx):
            K[:, i, j] = amp[i, j] * gs[which[i * dx + j]](t)
    Kin = K.copy() if given == "array" else xr.DataArray(K.copy(), dims=("time_kernel", "dim_basis", "dim_x"), coords={"time_kernel": t})
    tin = t if given == "array" else Kin["time_kernel"]
    kw = {"N_keep": 2} if "prony" in kind else {}
    c.skip_if(given == "DataArray" and kind not in ("prony_fit_kernel",))
    # a Prony series only knows the spacing of the samples: it counts from the first of them
    origin = c.choose("first time", [0.0, 3.0, -1.5] if "prony" in kind else [0.0])
    tin = tin + origin
    tt = t[:20] + 0.2
    if kind == "prony_fit_kernel":
        p = fp.prony_fit_kernel(tin, Kin, N_keep=2)
        got, other = fp.prony_series_kernel_eval(t, p), fp.prony_series_kernel_eval(tt, p)
        one = fp.prony_series_kernel_eval(tt[[7]], p)
    else:
        p = fm.memory_fit_kernel(tin, Kin, type=kind, **kw)
        got, other = fm.memory_kernel_eval(t, p), fm.memory_kernel_eval(tt, p)
        one = fm.memory_kernel_eval(tt[[7]], p)
        c.close(fm.memory_kernel_eval(t, p[1], type=kind), got, "type given", rtol=0, atol=0)
    c.observe(got)
    c.close(got, K, "fitted kernel", rtol=0, atol=1e-5 * growth(K))
    want = np.stack([np.stack([amp[i, j] * gs[which[i * dx + j]](tt) for j in range(dx)], 1) for i in range(nb)], 1)
    c.close(other, want, "fitted kernel at other times", rtol=0, atol=1e-5 * growth(K))
    c.close(one, want[[7]], "fitted kernel at one time", rtol=0, atol=1e-5 * growth(K))
    c.check(np.array_equal(np.asarray(Kin), K), "kernel is left alone")
    if kind not in ("prony_fit_kernel",):
        fr = fm.markovian_friction(t, K)[1]
        h = dt / 3
        w = np.array([1.0] + [4.0, 2.0] * ((n - 3) // 2) + [4.0, 1.0]) * h
        c.close(np.array(fr), np.einsum("t,tkd->dk", w, K), "integral of the kernel", rtol=1e-10)


def asymptote(c):
    fm, _ = modules()
    a, b = c.choose("limit", [(1.0, 0.5), (-2.0, 3.0), (4.0, -1.0), (0.5, 0.0)])
    n = c.choose("values", [20, 31])
    dt = c.choose("time step", [0.5, 1.0])
    t = np.arange(n) * dt
    # data whose cumulative trapezoidal integral is a + b/t in the second half
    h = n // 2
    I = np.zeros(n)
    I[h:] = a + b / t[h:]
    I[:h] = I[h] * np.arange(h) / h
    y = np.zeros(n)
    for i in range(1, n):
        y[i] = 2 * (I[i] - I[i - 1]) / dt - y[i - 1]
    p = fm.asymptotic_fit_integral(t, y)
    c.observe(np.asarray(p))
    c.close(np.asarray(p), np.array([a, b]), "asymptotic integral", rtol=1e-6, atol=1e-6)


def refused(c):
    fm, _ = modules()
    what = c.choose("wrong", ["type", "type of evaluation", "data of two dimensions"])
    t = np.arange(10.0)
    try:
        if what == "type":
            fm.memory_fit(t, np.exp(-t), type="cosine")
        elif what == "type of evaluation":
            fm.memory_fit_eval(t, (1.0, 1.0), type="cosine")
        else:
            fm.memory_fit(t, np.ones((10, 2)))
    except ValueError as e:
        c.observe(str(e))
    else:
        c.check(False, "refused")


def harnesses(tier):
    q = tier == "quick"
    return {
        "functions": (functions, {"dt": [0.5, 1.0] if q else [0.05, 0.5, 1.0, 2.0]}, 2),
        "Prony series": (prony, {"values": [21, 30, 201] if q else [15, 21, 30, 41, 60, 150, 201, 400], "dt": [0.5, 1.0] if q else [0.05, 0.5, 1.0, 2.0]}, 3),
        "alternating": (alternating, {}, 1),
        "frequencies": (frequencies, {}, 1),
        "threshold": (threshold, {}, 1),
        "filtered": (filtered, {}, 1),
        "components": (components, {}, 2),
        "asymptote": (asymptote, {}, 1),
        "refused": (refused, {}, 1),
    }
