"""Estimates depend on the space of functions that a basis spans, not on the functions
that are chosen in it: forces, kernels, noises and correlations with the noise are the same."""
import numpy as np

from .common import MODELS, bf, vb, make_xva, estimator, growth

BOUNDS = "5 families of bases of equal span (7 bases of cubic polynomials, combined, Fourier, two-dimensional tensor and linear bases, and linear transforms of each), with and without the constant, all 6 models, 5 inversion methods with noise and 2 without"
ASSUMPTIONS = "sizes at which the gram matrices have a condition number below 1e6, so that rounding stays below the tolerance of 1e-6"

METHODS = ["rect", "second_kind_rect", "trapz", "second_kind_trapz", "midpoint", "midpoint_w_richardson"]


class Mixed:
    """Any object with basis, deriv and hessian is a basis: here, linear combinations of the
    functions of another one."""

    def __init__(self, inner, M):
        self.inner, self.M, self.const_removed = inner, M, False
        self.n_output_features_ = len(M)
        self.dim_out_basis = 1

    def basis(self, X):
        return self.inner.basis(X) @ self.M.T

    def deriv(self, X, deriv_order=1):
        return np.tensordot(self.inner.deriv(X, deriv_order=deriv_order), self.M, ([1], [1])).transpose((0, -1) + tuple(range(1, 1 + deriv_order)))

    def hessian(self, X):
        return self.deriv(X, deriv_order=2)

    def antiderivative(self, X, order=1):
        return self.inner.antiderivative(X, order) @ self.M.T


def mixed(inner, data):
    inner = inner.fit(data)
    n = inner.n_output_features_
    i, j = np.indices((n, n))
    M = np.eye(n) + 0.3 * np.cos(1.0 + i + 2 * j) - 0.2 * (i > j)
    return Mixed(inner, M)


def families():
    b = bf()
    P = np.polynomial
    poly = lambda cls, rm=True: (lambda D: b.PolynomialFeatures(deg=3, polynom=cls, remove_const=rm))
    four = lambda rm: b.FourierFeatures(order=1, freq=0.8, remove_const=rm)
    comb = lambda *a: (lambda D: b.FeaturesCombiner(*a))
    lin = lambda D: b.LinearFeatures()
    t = lambda p, q: (lambda D: b.TensorialBasis2D(p(), q()))
    p1 = lambda cls=P.Polynomial: (lambda: b.PolynomialFeatures(deg=1, polynom=cls))
    p3 = lambda cls=P.Polynomial: (lambda: b.PolynomialFeatures(deg=3, polynom=cls))
    s3 = lambda: b.BSplineFeatures(4, k=3)
    s1 = lambda: b.BSplineFeatures(2, k=1)
    return {
        "cubic": (1, [
            ("monomials", poly(P.Polynomial)), ("monomials, constant projected out", poly(P.Polynomial, False)),
            ("Legendre", poly(P.Legendre)), ("Legendre, constant projected out", poly(P.Legendre, False)),
            ("Chebyshev", poly(P.Chebyshev)), ("Hermite", poly(P.HermiteE)), ("Laguerre", poly(P.Laguerre)),
            ("splines", lambda D: b.BSplineFeatures(4, k=3)), ("splines, constant projected out", lambda D: b.BSplineFeatures(4, k=3, remove_const=False)),
            ("combinations", lambda D: mixed(b.PolynomialFeatures(deg=3, polynom=P.Legendre, remove_const=False), D)),
        ]),
        "trigonometric": (1, [
            ("with constant removed", lambda D: four(True)), ("constant projected out", lambda D: four(False)), ("combinations", lambda D: mixed(four(False), D)),
        ]),
        "linear and trigonometric": (1, [
            ("linear first", comb(b.LinearFeatures(), four(True))), ("linear last", comb(four(True), b.LinearFeatures())),
            ("constant projected out", comb(b.LinearFeatures(), four(False))),
            ("centred", comb(b.LinearFeatures(to_center=True), four(True))),
        ]),
        "linear in two dimensions": (2, [
            ("coordinates", lin), ("rotated", lambda D: mixed(b.LinearFeatures(), D)),
        ]),
        "tensor": (2, [
            ("monomials", t(p1(), p3())), ("Legendre", t(p1(P.Legendre), p3(P.Legendre))), ("splines", t(p1(), s3)), ("splines twice", t(s1, s3)), ("Chebyshev and splines", t(p1(P.Chebyshev), s3)),
        ]),
    }


def run(model, d, make, dss, method, T, obs):
    D = np.concatenate([np.asarray(ds["x"]) for ds in dss])
    basis = make(D)
    est = estimator(model, basis, dss, T, **({} if obs is None else {"L_obs": obs}))
    est.compute_mean_force()
    est.compute_corrs(rank_tol=1e-9)
    est.compute_effective_mass()
    est.compute_kernel(method=method)
    m = est.model
    grid = np.stack([D[:, i].min() + (D[:, i].max() - D[:, i].min()) * np.linspace(0, 1, 9) for i in range(d)], 1)
    out = {"force": np.asarray(m.force_eval(grid)), "rank": np.array(float(est.bkbkcorrw.shape[0]))}
    K = m.kernel_eval(grid) if model != "Pos_gle_hybrid" else m.get_const_kernel_part()
    out["kernel"] = np.asarray(K.transpose("time_kernel", ...))
    if model == "Pos_gle_hybrid":
        out["position dependent part of the kernel"] = np.asarray(m.kernel_eval(grid).transpose("time_kernel", "time", ...))
    if model == "Pos_gle_with_friction":
        out["friction"] = np.asarray(m.friction_force_eval(grid))
    if not method.startswith("midpoint"):
        t, noise, o, f, mem = m.compute_noise(dss[0])
        out["noise"], out["memory"], out["force along the trajectory"] = np.asarray(noise), np.asarray(mem), np.asarray(f)
        t, pc = est.compute_projected_corrs()
        out["projected correlations"] = np.asarray(pc)
    try:
        pmf = m.pmf_eval(grid)
        out["free energy"] = pmf - pmf[0]
    except NotImplementedError:
        pass
    return out, m, est


_ref = {}


def equal_span(c):
    fam = c.choose("span", list(families()))
    d, members = families()[fam]
    model = c.choose("model", MODELS)
    names = [n for n, _ in members]
    other = c.choose("basis", names[1:])
    method = c.choose("method", METHODS)
    obs = c.choose("observable", c.params["obs"])
    lens = c.choose("lengths", c.params["lengths"])
    T = 7 if method != "midpoint_w_richardson" else 13
    dss = [make_xva(n, seed=4 + i, d=d, extra=("f",)) for i, n in enumerate(lens)]
    friction = model == "Pos_gle_with_friction"
    # without projection of the force basis, the friction model needs the constant removed
    c.skip_if(friction and ("projected" in other or "combinations" in other or fam == "tensor"))
    key = (fam, model, method, obs, lens)
    if key not in _ref:
        _ref.clear()
        _ref[key] = run(model, d, dict(members)[names[0]], dss, method, T, obs)
    want, m0, e0 = _ref[key]
    got, m, e = run(model, d, dict(members)[other], dss, method, T, obs)
    c.skip_if(np.linalg.cond(e0.bkbkcorrw[:, :, 0].values) > 1e6 or np.linalg.cond(m0.gram_force.values) > 1e6)
    c.observe(np.nan_to_num(want["kernel"]))
    if model == "Pos_gle":  # the projection finds the same number of functions
        c.close(got["rank"], want["rank"], "number of kernel functions", rtol=0, atol=0)
    for k in want:
        if k != "rank":
            c.check(k in got or k == "free energy", "available: " + k)
            if k in got:
                s = growth(want[k]) + (growth(want["kernel"]) * growth(np.asarray(dss[0]["x"])) if k in ("noise", "memory") else 0)
                c.close(got[k], want[k], k, rtol=1e-6, scale=s)


def near_dependent(c):
    """Functions that are nearly dependent on the data: only rounding distinguishes the bases."""
    b = bf()
    model = c.choose("model", [m for m in MODELS])
    deg = c.choose("degree", [2, 3, 4])
    centre, width = c.choose("positions", [(3.0, 0.25), (-2.0, 0.4), (8.0, 0.6), (1.0, 0.1), (0.0, 0.01), (0.0, 100.0)])
    other = c.choose("basis", ["Chebyshev", "Legendre", "HermiteE"])
    n = c.choose("length", [400, 90])
    ds = make_xva(n, seed=4, d=1)
    ds["x"] = ds["x"] * width + centre
    out, conds = [], []
    for cls in ("Polynomial", other):
        est = estimator(model, b.PolynomialFeatures(deg=deg, polynom=getattr(np.polynomial, cls)), ds, 5)
        est.compute_mean_force()
        m = est.model
        G = m.gram_force.values
        s = np.sqrt(np.diag(G))
        conds.append(np.linalg.cond(G / np.outer(s, s)))
        conds.append(np.linalg.cond(G))
        x = np.asarray(ds["x"])
        grid = x.min() + (x.max() - x.min()) * np.linspace(0, 1, 9)[:, None]
        out.append(np.asarray(m.force_eval(grid)))
        if model == "Pos_gle_with_friction":
            out[-1] = np.concatenate([out[-1].ravel(), np.asarray(m.friction_force_eval(grid)).ravel()])
    k = max(conds)
    c.skip_if(k > 1e12)
    c.observe(out[0])
    c.close(out[1], out[0], "force", rtol=max(1e-9, 300 * k * 2.2e-16), scale=growth(out[0]) + growth(np.asarray(ds["v"])))


def harnesses(tier):
    q = tier == "quick"
    return {"nearly dependent": (near_dependent, {}, 3), "equal span": (equal_span, {"obs": [None] if q else [None, "f"], "lengths": [(60,)] if q else [(60,), (45, 30), (150,)]}, 4)}
