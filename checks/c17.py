"""Basis functions, derivatives, second derivatives and antiderivatives are consistent."""
import itertools
import math

import numpy as np

from .common import bf, series, RefBasis, _separable, ref_linear, ref_poly, ref_fourier, ref_bspline, ref_tensor, ref_combine, _cox, _coxd, _interval, bspline_knots

BOUNDS = "8 families of bases with degrees/orders 0 to 5, every polynomial family, every boundary function, dimensions 1 to 3, points on grids that contain all knots, edges and midpoints, with and without the constant; points and fitted data of 4 integer and 2 floating types in 3 memory layouts; up to 5003 points at once, 39 functions, 12 components; the default options; splines on 4 sets of given knots; windows below, above and on both sides of the fitted range"


def poly_coeffs(kind, n):
    """Monomial coefficients of the n-th polynomial of a classical family (recurrences)."""
    P = [np.array([1.0])]
    first = {"Polynomial": [0, 1], "Chebyshev": [0, 1], "Legendre": [0, 1], "Hermite": [0, 2], "HermiteE": [0, 1], "Laguerre": [1, -1]}[kind]
    P.append(np.array(first, float))

    def times_x(p):
        return np.concatenate([[0.0], p])

    def add(a, b):
        m = max(len(a), len(b))
        return np.pad(a, (0, m - len(a))) + np.pad(b, (0, m - len(b)))

    for k in range(1, n):
        x = times_x(P[k])
        if kind == "Polynomial":
            q = x
        elif kind == "Chebyshev":
            q = add(2 * x, -P[k - 1])
        elif kind == "Legendre":
            q = add((2 * k + 1) / (k + 1) * x, -k / (k + 1) * P[k - 1])
        elif kind == "Hermite":
            q = add(2 * x, -2 * k * P[k - 1])
        elif kind == "HermiteE":
            q = add(x, -k * P[k - 1])
        else:
            q = add(add((2 * k + 1) / (k + 1) * P[k], -x / (k + 1)), -k / (k + 1) * P[k - 1])
        P.append(q)
    return P[n]


def horner(co, x):
    s = 0.0
    for a in co[::-1]:
        s = s * x + a
    return s


def dpoly(co):
    return np.array([i * co[i] for i in range(1, len(co))]) if len(co) > 1 else np.array([0.0])


def ref_polys(dim, deg, kind):
    funs = []
    for n in range(deg + 1):
        co = poly_coeffs(kind, n)
        anti = np.concatenate([[0.0], co / np.arange(1, len(co) + 1)])
        funs.append((lambda x, c=co: horner(c, x), lambda x, c=dpoly(co): horner(c, x), lambda x, c=dpoly(dpoly(co)): horner(c, x), lambda x, c=anti: horner(c, x)))
    return _separable(dim, funs, range(1, deg + 1))


def ref_splinefct(dim, t, co, k):
    def val(x, m):
        j0 = _interval(t, k, x)
        return sum(co[i] * _coxd(t, i, k, x, j0, m) for i in range(len(t) - k - 1))

    def anti(x):
        # primitive by exact integration of every polynomial piece
        s, lo = 0.0, t[k]
        nodes, w = np.polynomial.legendre.leggauss(k // 2 + 2)
        edges = [lo] + [q for q in t[k + 1 : len(t) - k - 1] if lo < q < x] + [x]
        for a, b in zip(edges, edges[1:]):
            s += sum(wi * val(0.5 * (a + b) + 0.5 * (b - a) * ni, 0) for ni, wi in zip(nodes, w)) * 0.5 * (b - a)
        return s

    return _separable(dim, [(lambda x: val(x, 0), lambda x: val(x, 1), lambda x: val(x, 2), anti)], [0])


# ---------------------------------------------------------------- alphabets
LO, HI = -1.5, 2.0


def fit_data(dim):
    """Data whose range is [LO, HI] (shifted by component)."""
    return np.array([[LO + 0.25 * i for i in range(dim)], [0.1 * (i + 1) for i in range(dim)], [HI + 0.25 * i for i in range(dim)]])


def points(dim, knots=()):
    base = sorted(set([LO, HI, -0.7, 0.0, 0.31, 1.0, 1.9] + [float(k) for k in knots]))
    X = np.array([[b + 0.25 * i for i in range(dim)] for b in base])
    if dim > 1:
        X = np.concatenate([X, np.array([[base[(3 * j + 2 * i) % len(base)] for i in range(dim)] for j in range(len(base))])])
    return X


def cases(tier):
    """name -> (make(remove_const), ref(dim, fit data), dims, extra points, removable)"""
    b = bf()
    P = np.polynomial
    out = {"linear": (lambda rm: b.LinearFeatures(), lambda d, D: ref_linear(d), (1, 2, 3), (), False), "linear centered": (lambda rm: b.LinearFeatures(to_center=True), lambda d, D: ref_linear(d, D.mean(0)), (1, 2, 3), (), False)}
    for kind, cls in (("Polynomial", P.Polynomial), ("Chebyshev", P.Chebyshev), ("Legendre", P.Legendre), ("Hermite", P.Hermite), ("HermiteE", P.HermiteE), ("Laguerre", P.Laguerre)):
        for deg in (0, 1, 2, 5):
            out["%s %d" % (kind, deg)] = (lambda rm, deg=deg, cls=cls: b.PolynomialFeatures(deg=deg, polynom=cls, remove_const=rm), lambda d, D, deg=deg, kind=kind: ref_polys(d, deg, kind), (1, 2, 3), (), True)
    for order, freq in itertools.product((1, 2, 4), (1.0, 0.35, 2 * math.pi)):
        out["Fourier %d %.3g" % (order, freq)] = (lambda rm, o=order, f=freq: b.FourierFeatures(order=o, freq=f, remove_const=rm), lambda d, D, o=order, f=freq: ref_fourier(d, o, f), (1, 2, 3), (), True)
    for n, k in [(4, 1), (5, 1), (5, 2), (6, 2), (4, 3), (5, 3), (9, 3), (6, 4), (6, 5), (8, 5)]:
        kn = sorted(set(bspline_knots(np.linspace(LO, HI, n), k)))
        out["BSpline %d %d" % (n, k)] = (lambda rm, n=n, k=k: b.BSplineFeatures(n, k=k, remove_const=rm), lambda d, D, n=n, k=k: ref_bspline(D.min(), D.max(), n, k), (1,), kn, True)
    t = np.array([LO, LO, LO, LO, -0.3, 0.4, 1.1, HI + 0.5, HI + 0.5, HI + 0.5, HI + 0.5])
    co = np.array([0.3, -1.0, 0.7, 2.0, -0.4, 0.9, 1.1])
    out["SplineFct"] = (lambda rm: b.SplineFctFeatures(t, co, k=3), lambda d, D: ref_splinefct(d, list(t), co, 3), (1, 2), (-0.3, 0.4, 1.1), False)
    t2 = np.array([LO, LO, LO, 0.2, 1.3, HI + 0.5, HI + 0.5, HI + 0.5])
    out["SplineFct 2"] = (lambda rm: b.SplineFctFeatures(t2, co[:5], k=2), lambda d, D: ref_splinefct(d, list(t2), co[:5], 2), (1, 2), (0.2, 1.3), False)
    return out


def values(c):
    name = c.choose("basis", list(cases("quick")))
    make, mkref, dims, extra, removable = cases("quick")[name]
    d = c.choose("dimension", dims)
    rm = c.choose("remove_const", [True, False] if removable else [False])
    how = c.choose("fitted on", ["array", "description"])
    kind = c.choose("points", ["as they are", "reversed", "one by one", "fortran", "read-only"])
    D = fit_data(d)
    b = make(rm)
    import scipy.stats

    r = b.fit(D if how == "array" else scipy.stats.describe(np.concatenate([D, D.mean(0)[None]])) if "centered" not in name else scipy.stats.describe(D))
    c.check(r is b, "fit returns the basis")
    ref = mkref(d, D)
    X = points(d, extra)
    if kind == "reversed":
        X = X[::-1]
    elif kind == "fortran":
        X = np.asfortranarray(X)
    elif kind == "read-only":
        X.flags.writeable = False
    before = X.copy()

    def ev(f):
        return np.concatenate([f(X[i : i + 1]) for i in range(len(X))]) if kind == "one by one" else f(X)

    c.check(b.n_output_features_ == ref.K, "number of functions", "%s, expected %d" % (b.n_output_features_, ref.K))
    v = ev(b.basis)
    c.observe(v)
    c.close(v, ref.val(X), "values", rtol=1e-10)
    keep = ref.kept if rm else list(range(ref.K))
    c.close(ev(b.deriv), ref.d1(X)[:, keep], "first derivatives", rtol=1e-9)
    want2 = ref.d2(X)[:, keep]
    c.close(ev(b.hessian), want2, "second derivatives", rtol=1e-8)
    c.close(ev(lambda Y: b.deriv(Y, deriv_order=2)), want2, "second order of deriv", rtol=1e-8)
    A, w = ev(b.antiderivative), ref.anti(X)
    i0 = int(np.argmin(X[:, 0]))
    c.close(A - A[i0], w - w[i0], "antiderivative", rtol=1e-9)
    c.close(X, before, "points are left alone", rtol=0, atol=0)
    c.close(ev(b.basis), v, "repeated", rtol=0, atol=0)


KNOTS = {"uniform": [-1.5, -0.625, 0.25, 1.125, 2.0], "dense on the left": [-1.5, -1.4, -1.2, -0.8, 0.0, 2.0], "irregular": [-2.0, -0.3, 0.1, 0.2, 1.5, 1.7, 3.0], "inside of the data": [-0.5, -0.1, 0.0, 0.4, 0.6]}


def knots(c):
    """Splines on knots that the user gives."""
    name = c.choose("knots", list(KNOTS))
    k = c.choose("degree", [1, 2, 3, 4])
    n = c.choose("number given to the constructor", [4, 9])
    rm = c.choose("remove_const", [True, False])
    form = c.choose("given as", ["array", "list"])
    at = np.array(KNOTS[name])
    b = bf().BSplineFeatures(n, k=k, remove_const=rm)
    b.fit(fit_data(1), knots=at.copy() if form == "array" else list(at))
    ref = ref_bspline(0, 0, len(at), k, at=at)
    X = np.unique(np.concatenate([at, np.linspace(at[0], at[-1], 24), bspline_knots(at, k)]))[:, None]
    c.check(b.n_output_features_ == ref.K, "number of functions", str(b.n_output_features_))
    v = b.basis(X)
    c.observe(v)
    keep = ref.kept if rm else list(range(ref.K))
    c.close(v, ref.val(X), "values", rtol=1e-10)
    c.close(b.deriv(X), ref.d1(X)[:, keep], "first derivatives", rtol=1e-9)
    c.close(b.hessian(X), ref.d2(X)[:, keep], "second derivatives", rtol=1e-8)
    A, w = b.antiderivative(X), ref.anti(X)
    c.close(A - A[0], w - w[0], "antiderivative", rtol=1e-9)
    # fitted again without knots: those of the data
    if n > k:
        b.fit(fit_data(1))
        again = ref_bspline(LO, HI, n, k)
        c.close(b.basis(points(1)), again.val(points(1)), "fitted again", rtol=1e-10)


def second_antiderivative(c):
    """Twice integrated functions: their second difference is the weighted integral of the values."""
    name = c.choose("basis", [k for k in cases("quick") if not k.startswith("Fourier")])
    make, mkref, dims, extra, removable = cases("quick")[name]
    d = c.choose("dimension", dims)
    D = fit_data(d)
    b = make(False).fit(D)
    ref = mkref(d, D)
    x0 = np.array([[-0.5 + 0.25 * i for i in range(d)], [0.9 + 0.25 * i for i in range(d)]])
    h = 0.4
    A = [b.antiderivative(x0 + s * h, order=2) for s in (-1, 0, 1)]
    got = A[0] - 2 * A[1] + A[2]
    nodes, w = np.polynomial.legendre.leggauss(8)
    cuts = np.linspace(-h, h, 41)
    want = 0.0
    for a, e in zip(cuts, cuts[1:]):
        for ni, wi in zip(nodes, w):
            s = 0.5 * (a + e) + 0.5 * (e - a) * ni
            want = want + wi * 0.5 * (e - a) * (h - abs(s)) * ref.val(x0 + s)
    c.observe(got)
    c.close(got, want, "second antiderivative", rtol=2e-3 if "BSpline" in name or "Spline" in name else 1e-8, atol=1e-9)


def outside(c):
    """Positions outside of the fitted range: there are no knots, so that the values at a few
    points determine the functions on a whole window."""
    name = c.choose("basis", list(cases("quick")))
    make, mkref, dims, extra, removable = cases("quick")[name]
    d = c.choose("dimension", dims)
    rm = c.choose("remove_const", [True, False] if removable else [False])
    side = c.choose("side", ["below", "above", "on both sides at once"])
    N, width = 17, 0.12
    D = fit_data(d)
    b = make(rm).fit(D)
    full = make(False).fit(D) if removable else b
    K = mkref(d, D).K
    nodes = -np.cos(np.pi * np.arange(N) / (N - 1))  # Chebyshev points of [-1, 1]
    cc = np.where((np.arange(N) == 0) | (np.arange(N) == N - 1), 2.0, 1.0) * (-1.0) ** np.arange(N)
    M = np.subtract.outer(nodes, nodes) + np.eye(N)
    M = np.outer(cc, 1 / cc) / M
    M = (M - np.diag(M.sum(1))) / width  # differentiates the values at the nodes
    centres = {"below": [LO - 0.9], "above": [HI + 1.4], "on both sides at once": [LO - 0.9, HI + 1.4]}[side]
    for i in range(d):
        X = np.concatenate([np.tile([m + 0.25 * j for j in range(d)], (N, 1)) + np.outer(width * nodes, np.eye(d)[i]) for m in centres])
        v, v1, v2, g = full.basis(X), b.deriv(X), b.hessian(X), full.deriv(X)
        A = full.antiderivative(X)
        keep = list(range(K))
        if rm:  # which one is left out is the subject of "values"
            keep = mkref(d, D).kept
        for p in range(len(centres)):
            s = slice(p * N, (p + 1) * N)
            size = np.abs(v[s]).max() + 1e-3
            c.close(g[s][:, :, i], M @ v[s], "first derivatives outside", rtol=1e-7, scale=size, atol=1e-7)
            c.close(v1[s][:, :, i], (M @ v[s])[:, keep], "kept first derivatives outside", rtol=1e-7, scale=size, atol=1e-7)
            c.close(v2[s][:, :, i, i], (M @ M @ v[s])[:, keep], "second derivatives outside", rtol=1e-5, scale=size, atol=1e-5)
            own = [k for k in range(A.shape[1]) if k % d == i]  # functions of this component
            c.close((M @ A[s])[:, own], v[s][:, own], "antiderivative outside", rtol=1e-7, scale=size, atol=1e-7)
    c.observe(v)


# ------------------------------------------------------------ splines in a ring
def ring(c):
    b = bf()
    n, k = c.choose("knots and degree", [(5, 3), (6, 3), (9, 3), (7, 1), (8, 5), (12, 3)])
    lo, hi = c.choose("range", [(-1.0, 1.0), (0.0, 2 * math.pi), (3.0, 10.0)])
    rm = c.choose("remove_const", [True, False])
    s = c.choose("offset of the points", [0.0, 0.13, 0.5, 0.77])
    h = (hi - lo) / (n - 1)
    B = b.BSplineFeatures(n, k=k, periodic=True, remove_const=rm).fit(np.array([[lo], [hi]]))
    N = n - 1
    c.check(B.n_output_features_ == N, "number of periodic splines", str(B.n_output_features_))
    X = (lo + h * (np.arange(N) + s)).reshape(-1, 1)
    v = B.basis(X)
    c.observe(v)
    c.close(v.sum(1), np.ones(N), "sum of the splines", rtol=1e-10)
    c.check((v > -1e-12).all(), "positive")
    full = b.BSplineFeatures(n, k=k, periodic=True, remove_const=False).fit(np.array([[lo], [hi]]))
    parts = [full.basis, lambda Y: full.deriv(Y)[:, :, 0]] + ([lambda Y: full.hessian(Y)[:, :, 0, 0]] if k > 2 else [])
    ends = np.array([[lo], [hi]])
    for i, f in enumerate(parts):
        if i < k:
            e = f(ends)
            c.close(e[0], e[1], "continuity at the end of the period, derivative %d" % i, rtol=1e-8, scale=h ** -i)
        a = f(X)
        # a shift of one knot only renames the splines
        ranks = [sorted(np.round(np.roll(a, -j, axis=0)[:, q], 8).tolist() for q in range(N)) for j in range(N)]
        c.check(all(np.allclose(np.array(r), np.array(ranks[0]), atol=1e-6 * h ** -i) for r in ranks) if N < 20 else True, "translations, derivative %d" % i)
        if i == 0:
            fine = f((lo + h * (np.arange(4 * N) + s) / 4).reshape(-1, 1))
            r = np.linalg.matrix_rank(fine, tol=1e-6)
            c.check(r == N, "independent splines", "rank %d of %d" % (r, N))
    d = B.deriv(X)
    c.close(d, full.deriv(X)[:, : N - int(rm)], "derivative without the constant", rtol=1e-10)
    c.close(full.deriv(X).sum(1), np.zeros((N, 1)), "derivatives sum to zero", rtol=0, atol=1e-8 / h)


# ------------------------------------------------------------ smooth indicators
W = {"quartic": [1, 0, -2, 0, 1], "triweight": [1, 0, -3, 0, 3, 0, -1], "tricube": [1, 0, 0, -3, 0, 0, 3, 0, 0, -1]}
STATES = {"one": [[-0.5, 0.5]], "two": [[-5, -2], [2, 3]], "three": [[-5, -2], [2, 3], [5, 7]], "touching": [[-3, -1], [-1, 1], [1, 4]], "reversed pairs": [[-2, -5], [3, 2]]}


def indicator(c):
    b = bf()
    sname = c.choose("states", list(STATES))
    kind = c.choose("boundary", list(W) + ["callable"])
    periodic = c.choose("periodic", [False, True])
    c.skip_if(periodic and sname == "one")
    st = [[float(min(s)), float(max(s))] for s in STATES[sname]]
    co = np.array(W["quartic" if kind == "callable" else kind], float)
    fun = (lambda u, der=0: horner([co, dpoly(co), dpoly(dpoly(co))][der], u)) if kind == "callable" else kind
    B = b.SmoothIndicatorFeatures(STATES[sname], fun, periodic=periodic).fit(np.zeros((4, 1)))
    X = np.array(sorted(set([-8.0, 8.0] + [a + f * (e - a) for a, e in st for f in (0.0, 0.1, 0.5, 0.83, 1.0)] + [0.5 * (p[1] + q[0]) for p, q in zip(st, st[1:])]))).reshape(-1, 1)
    edges = {a for s in st for a in s}

    def w(i, x, m):
        a, e = st[i]
        u = (x - a) / (e - a)
        if u < 0:
            return 1.0 if m == 0 else 0.0
        if u > 1:
            return 0.0
        return horner([co, dpoly(co), dpoly(dpoly(co))][m], u) / (e - a) ** m

    def ref(x, m):
        n = len(st)
        up = [1.0 if m == 0 else 0.0] + [(1.0 - w(i, x, 0)) if m == 0 else -w(i, x, m) for i in range(n)]
        down = [w(i, x, m) for i in range(n)] + [1.0 if m == 0 else 0.0]
        out = []
        for i in range(n + 1):
            left = up[i] if i > 0 else None
            right = down[i] if i < n else None
            if left is None:
                out.append(right)
            elif right is None:
                out.append(left)
            else:
                out.append(left if x < st[i][0] else right)
        if periodic:
            first = out[0] + out[-1]
            out = [first] + out[1:-1]
        return out

    K = len(st) + (0 if periodic else 1)
    c.check(B.n_output_features_ == K, "number of states")
    v = B.basis(X)
    c.observe(v)
    c.close(v, np.array([ref(x, 0) for x in X[:, 0]]), "values", rtol=1e-10)
    c.close(v.sum(1), np.ones(len(X)), "sum of the indicators", rtol=1e-10)
    c.close(B.deriv(X)[:, :, 0], np.array([ref(x, 1) for x in X[:, 0]]), "first derivatives", rtol=1e-10)
    inner = np.array([x for x in X[:, 0] if x not in edges]).reshape(-1, 1)
    c.close(B.hessian(inner)[:, :, 0, 0], np.array([ref(x, 2) for x in inner[:, 0]]), "second derivatives", rtol=1e-10)
    refused = False
    try:
        b.SmoothIndicatorFeatures(STATES[sname], kind if kind != "callable" else fun).fit(np.zeros((4, 2)))
    except ValueError:
        refused = True
    c.check(refused, "two dimensions are refused")


# ------------------------------------------------------------ tensors and combinations
def factors():
    b = bf()
    return {
        "linear": (lambda: b.LinearFeatures(), lambda lo, hi, m: ref_linear(1)),
        "linear centered": (lambda: b.LinearFeatures(to_center=True), lambda lo, hi, m: ref_linear(1, [m])),
        "poly2": (lambda: b.PolynomialFeatures(deg=2), lambda lo, hi, m: ref_poly(1, 2)),
        "fourier1": (lambda: b.FourierFeatures(order=1, freq=0.9), lambda lo, hi, m: ref_fourier(1, 1, 0.9)),
        "bspline": (lambda: b.BSplineFeatures(5, k=3), lambda lo, hi, m: ref_bspline(lo, hi, 5, 3)),
    }


def tensor(c):
    b = bf()
    f = factors()
    n1 = c.choose("first", list(f))
    n2 = c.choose("second", list(f) + [None])
    D = fit_data(2)
    D[:, 1] = D[:, 1] * 1.7 - 0.4
    T = b.TensorialBasis2D(f[n1][0](), *(() if n2 is None else (f[n2][0](),)))
    T.fit(D)
    r = [f[n][1](D[:, i].min(), D[:, i].max(), D[:, i].mean()) for i, n in enumerate((n1, n2 or n1))]
    ref = ref_tensor(*r)
    g1 = np.array([LO, -0.6, 0.0, 0.7, HI])
    g2 = np.array([D[:, 1].min(), -1.0, 0.3, 1.6, D[:, 1].max()])
    X = np.array([[p, q] for p in g1 for q in g2])
    c.check(T.n_output_features_ == ref.K, "number of functions")
    c.check(not T.const_removed, "the constant stays")
    v = T.basis(X)
    c.observe(v)
    c.close(v, ref.val(X), "values", rtol=1e-10)
    c.close(T.deriv(X), ref.d1(X), "gradient", rtol=1e-9)
    c.close(T.hessian(X), ref.d2(X), "second derivatives", rtol=1e-8)
    c.close(T.deriv(X, deriv_order=2), ref.d2(X), "second order of deriv", rtol=1e-8)
    K1, K2 = r[0].K, r[1].K
    for i in range(K1):
        for j in range(K2):
            k = T.comb_indices(i, j)
            c.check(tuple(int(q) for q in T.split_index(k)) == (i, j), "indices")
            c.close(v[:, k], r[0].val(X[:, :1])[:, i] * r[1].val(X[:, 1:])[:, j], "product of the factors", rtol=1e-10)


def combiner(c):
    b = bf()
    opts = {
        "linear": (lambda rm: b.LinearFeatures(), lambda d: ref_linear(d), False),
        "poly2": (lambda rm: b.PolynomialFeatures(deg=2, remove_const=rm), lambda d: ref_poly(d, 2), True),
        "fourier1": (lambda rm: b.FourierFeatures(order=1, freq=0.9, remove_const=rm), lambda d: ref_fourier(d, 1, 0.9), True),
        "bspline": (lambda rm: b.BSplineFeatures(5, k=3, remove_const=rm), lambda d: ref_bspline(LO, HI, 5, 3), True),
    }
    n = c.choose("parts", [1, 2, 3, 4] if c.params["deep"] else [1, 2, 3])
    names = [c.choose("part %d" % i, list(opts)) for i in range(n)]
    rms = [c.choose("remove_const %d" % i, [True, False]) if opts[m][2] else False for i, m in enumerate(names)]
    d = c.choose("dimension", [1, 2])
    c.skip_if(d > 1 and "bspline" in names)
    C = b.FeaturesCombiner(*[opts[m][0](rm) for m, rm in zip(names, rms)])
    C.fit(np.concatenate([fit_data(d), fit_data(d)[:1]]))
    refs = [opts[m][1](d) for m in names]
    ref = ref_combine(refs, rms)
    X = points(d)
    c.check(int(C.n_output_features_) == ref.K, "number of functions")
    c.check(bool(C.const_removed) == any(rms), "constant removed")
    v = C.basis(X)
    c.observe(v)
    c.close(v, ref.val(X), "values", rtol=1e-10)
    c.close(C.deriv(X), ref.d1(X)[:, ref.kept], "first derivatives", rtol=1e-9)
    c.close(C.hessian(X), ref.d2(X)[:, ref.kept], "second derivatives", rtol=1e-8)
    C.const_removed = False
    c.check(not C.const_removed, "constant restored")
    c.close(C.deriv(X), ref.d1(X), "derivatives with the constant", rtol=1e-9)


def large(c):
    """Thousands of points at once and many functions; a long way out of the data."""
    b = bf()
    P = np.polynomial
    n = c.choose("points", [1, 600, 5003])
    which = c.choose("basis", ["linear 12", "monomials 9", "Legendre 12", "Chebyshev 12", "Hermite 8", "Fourier 12", "Fourier 3 in 5", "BSpline 20", "BSpline 33 5", "tensor", "combined"])
    rm = c.choose("remove_const", [True, False])
    lo, hi = -1.0, 1.0
    d = {"linear 12": 12, "Fourier 3 in 5": 5, "tensor": 2}.get(which, 1)
    make, ref = {
        "linear 12": (lambda: b.LinearFeatures(), lambda: ref_linear(12)),
        "monomials 9": (lambda: b.PolynomialFeatures(deg=9, remove_const=rm), lambda: ref_polys(1, 9, "Polynomial")),
        "Legendre 12": (lambda: b.PolynomialFeatures(deg=12, polynom=P.Legendre, remove_const=rm), lambda: ref_polys(1, 12, "Legendre")),
        "Chebyshev 12": (lambda: b.PolynomialFeatures(deg=12, polynom=P.Chebyshev, remove_const=rm), lambda: ref_polys(1, 12, "Chebyshev")),
        "Hermite 8": (lambda: b.PolynomialFeatures(deg=8, polynom=P.HermiteE, remove_const=rm), lambda: ref_polys(1, 8, "HermiteE")),
        "Fourier 12": (lambda: b.FourierFeatures(order=12, freq=1.1, remove_const=rm), lambda: ref_fourier(1, 12, 1.1)),
        "Fourier 3 in 5": (lambda: b.FourierFeatures(order=3, freq=1.1, remove_const=rm), lambda: ref_fourier(5, 3, 1.1)),
        "BSpline 20": (lambda: b.BSplineFeatures(20, k=3, remove_const=rm), lambda: ref_bspline(lo, hi, 20, 3)),
        "BSpline 33 5": (lambda: b.BSplineFeatures(33, k=5, remove_const=rm), lambda: ref_bspline(lo, hi, 33, 5)),
        "tensor": (lambda: b.TensorialBasis2D(b.PolynomialFeatures(deg=4), b.FourierFeatures(order=4, freq=1.1)), lambda: ref_tensor(ref_poly(1, 4), ref_fourier(1, 4, 1.1))),
        "combined": (lambda: b.FeaturesCombiner(*[b.FourierFeatures(order=2, freq=0.5 + 0.3 * i, remove_const=rm) for i in range(6)]), lambda: ref_combine([ref_fourier(1, 2, 0.5 + 0.3 * i) for i in range(6)], [rm] * 6)),
    }[which]
    B = make().fit(np.array([[lo] * d, [0.1] * d, [hi] * d]))
    r = ref()
    base = lo + (hi - lo) * (np.arange(d)[None, :] * 0.37 + np.arange(61)[:, None] * 0.61803398875) % (hi - lo)
    base = lo + (base - lo) % (hi - lo)
    base[0], base[-1] = lo, hi
    X = base[np.arange(n) % 61]
    pick = np.arange(n) % 61
    keep = r.kept if rm and which not in ("linear 12", "tensor") else list(range(r.K))
    v = B.basis(X)
    c.observe(v[:61])
    c.check(int(B.n_output_features_) == r.K and v.shape == (n, r.K), "number of functions", str(v.shape))
    tol = 1e-9
    c.close(v, r.val(base)[pick], "values", rtol=tol)
    c.close(B.deriv(X), r.d1(base)[:, keep][pick], "first derivatives", rtol=tol)
    c.close(B.hessian(X), r.d2(base)[:, keep][pick], "second derivatives", rtol=tol * 10)


def defaults(c):
    """A basis made without options is the documented one: of order 1, frequency 1 and degree 1,
    splines of degree 3 on 5 knots, boundaries between states of the tricube form, and the
    constant is left out of the derivatives."""
    b = bf()
    which = c.choose("basis", ["linear", "polynomials", "Fourier", "BSpline", "indicator", "SplineFct", "tensor"])
    options = c.choose("options", ["none", "as documented"])
    P = np.polynomial
    one = options == "none"
    made = {
        "linear": (lambda: b.LinearFeatures() if one else b.LinearFeatures(to_center=False)),
        "polynomials": (lambda: b.PolynomialFeatures() if one else b.PolynomialFeatures(deg=1, polynom=P.Polynomial, remove_const=True)),
        "Fourier": (lambda: b.FourierFeatures() if one else b.FourierFeatures(order=1, freq=1.0, remove_const=True)),
        "BSpline": (lambda: b.BSplineFeatures() if one else b.BSplineFeatures(n_knots=5, k=3, periodic=False, remove_const=True)),
        "indicator": (lambda: b.SmoothIndicatorFeatures([[-0.5, 0.5]]) if one else b.SmoothIndicatorFeatures([[-0.5, 0.5]], boundary_type="tricube", periodic=False)),
        "SplineFct": (lambda: b.SplineFctFeatures(np.array([LO] * 4 + [HI + 1] * 4), np.array([0.3, -1.0, 0.7, 2.0])) if one else b.SplineFctFeatures(knots=np.array([LO] * 4 + [HI + 1] * 4), coeffs=np.array([0.3, -1.0, 0.7, 2.0]), k=3)),
        "tensor": (lambda: b.TensorialBasis2D(b.PolynomialFeatures(deg=2)) if one else b.TensorialBasis2D(b.PolynomialFeatures(deg=2), b2=None)),
    }[which]()
    d = 2 if which == "tensor" else 1
    D = fit_data(d)
    made.fit(D)
    X = points(d)
    u = (X[:, 0] + 0.5).clip(0, 1)
    w = (1 - u ** 3) ** 3
    ref = {
        "linear": lambda: ref_linear(1), "polynomials": lambda: ref_poly(1, 1), "Fourier": lambda: ref_fourier(1, 1, 1.0), "BSpline": lambda: ref_bspline(LO, HI, 5, 3),
        "SplineFct": lambda: ref_splinefct(1, [LO] * 4 + [HI + 1] * 4, [0.3, -1.0, 0.7, 2.0], 3), "tensor": lambda: ref_tensor(ref_poly(1, 2), ref_poly(1, 2)),
    }
    v = made.basis(X)
    c.observe(v)
    if which == "indicator":
        c.close(v, np.stack([w, 1 - w], 1), "values", rtol=1e-12)
        return
    r = ref[which]()
    c.close(v, r.val(X), "values", rtol=1e-10)
    removed = which in ("polynomials", "Fourier", "BSpline")
    c.check(bool(made.const_removed) == removed, "constant removed")
    c.close(made.deriv(X), r.d1(X)[:, r.kept if removed else slice(None)], "first derivatives", rtol=1e-9)


def types(c):
    """Positions may be of any real type: only their values matter."""
    b = bf()
    all_cases = {k: w for k, w in cases("quick").items()}
    f = factors()
    for n1 in f:
        for n2 in f:
            all_cases["tensor %s %s" % (n1, n2)] = (lambda rm, p=n1, q=n2: b.TensorialBasis2D(f[p][0](), f[q][0]()), lambda d, D, p=n1, q=n2: ref_tensor(*[f[n][1](D[:, i].min(), D[:, i].max(), D[:, i].mean()) for i, n in enumerate((p, q))]), (2,), (), False)
    all_cases["combined"] = (lambda rm: b.FeaturesCombiner(b.LinearFeatures(), b.FourierFeatures(order=2, freq=0.9, remove_const=rm), b.PolynomialFeatures(deg=2, remove_const=False)), lambda d, D: ref_combine([ref_linear(d), ref_fourier(d, 2, 0.9), ref_poly(d, 2)], [False, True, False]), (1, 2), (), False)
    name = c.choose("basis", list(all_cases))
    make, mkref, dims, extra, removable = all_cases[name]
    d = c.choose("dimension", dims)
    fitted = c.choose("type when fitted", ["int64", "int32", "int16", "float32", "float64"])
    typ = c.choose("type of the points", ["int64", "int32", "int16", "int8", "float32", "float64"])
    order = c.choose("layout", ["C", "F", "strided"])
    D = np.array([[-2.0 + i for i in range(d)], [0.0 + i for i in range(d)], [3.0 + 2 * i for i in range(d)], [1.0] * d])
    B = make(name == "combined")
    B.fit(D.astype(fitted))
    g = [-1, 0, 1, 2]
    X = np.array(list(itertools.product(g, repeat=d)), dtype=typ)
    if order == "F":
        X = np.asfortranarray(X)
    elif order == "strided":
        X = np.repeat(np.repeat(X, 2, axis=0), 2, axis=1)[::2, ::2]
    Xf = X.astype(float)
    ref = mkref(d, D)
    tol = 2e-5 if "float32" in (fitted, typ) else 1e-9
    v = B.basis(X)
    c.observe(v)
    c.close(v, ref.val(Xf), "values", rtol=tol)
    keep = ref.kept if name == "combined" else list(range(ref.K))
    c.close(B.deriv(X), ref.d1(Xf)[:, keep], "first derivatives", rtol=tol)
    c.close(B.hessian(X), ref.d2(Xf)[:, keep], "second derivatives", rtol=10 * tol)
    if not name.startswith("tensor") and name != "combined":
        A, w = B.antiderivative(X), ref.anti(Xf)
        c.close(A - A[0], w - w[0], "antiderivative", rtol=tol)
    c.check(X.dtype == np.dtype(typ), "points are left alone")


def harnesses(tier):
    q = tier == "quick"
    return {
        "types": (types, {}, 2),
        "values": (values, {}, 3),
        "knots": (knots, {}, 2),
        "second antiderivative": (second_antiderivative, {}, 1),
        "ring": (ring, {}, 2),
        "outside": (outside, {}, 2),
        "indicator": (indicator, {}, 2),
        "tensor": (tensor, {}, 2),
        "combiner": (combiner, {"deep": not q}, 3),
        "large": (large, {}, 1),
        "defaults": (defaults, {}, 1),
    }
