"""Finite element bases: the right element is found everywhere, functions and gradients are
those of the element; meshes cover the data they are built from."""
import itertools

import numpy as np

from .common import vb, bf, make_xva, RefBasis, RefEstimate, columns, DEFAULT_OBS, growth, snapshot, same_snapshot

BOUNDS = "meshes of 1 to 64 elements in 1, 2 and 3 dimensions (uniform, stretched, refined, locally refined, renumbered, curved and very flat ones), scaled by 1e-9 to 1e3 and moved away from the origin; P1 and P2 elements; every barycentric point of denominator 1 to 6 of every element, vertices, edges and faces included"
ASSUMPTIONS = "simplicial meshes; points inside the mesh"


def meshes(tier):
    import skfem as S

    def perm(m, seed):
        """The same mesh with its vertices renumbered."""
        n = m.p.shape[1]
        q = np.array(sorted(range(n), key=lambda i: (i * 7 + seed) % (n + 3) + 1e-3 * i))
        inv = np.empty(n, int)
        inv[q] = np.arange(n)
        return type(m)(m.p[:, q], inv[m.t])

    line = S.MeshLine(np.linspace(0.0, 1.0, 5))
    out = {
        "one segment": S.MeshLine(np.array([0.0, 1.0])),
        "segments": line,
        "uneven segments": S.MeshLine(np.array([0.0, 0.05, 0.4, 0.41, 1.0])),
        "refined segments": line.refined(2),
        "locally refined segments": line.refined([1, 2]),
        "renumbered segments": perm(line, 3),
        "one triangle": S.MeshTri(np.array([[0.0, 1.0, 0.2], [0.0, 0.1, 0.9]]), np.array([[0], [1], [2]])),
        "square": S.MeshTri(),
        "refined square": S.MeshTri().refined(2),
        "locally refined square": S.MeshTri().refined(1).refined([0, 3]).refined([1, 2]),
        "circle": S.MeshTri.init_circle(2),
        "flat triangles": S.MeshTri.init_tensor(np.linspace(0, 1, 9), np.array([0.0, 0.02, 0.03, 1.0])),
        "renumbered square": perm(S.MeshTri().refined(1), 5),
        "one tetrahedron": S.MeshTet(np.array([[0, 1.0, 0.1, 0.2], [0, 0, 1.0, 0.3], [0, 0.1, 0.2, 0.8]]), np.array([[0], [1], [2], [3]])),
        "cube": S.MeshTet(),
        "refined cube": S.MeshTet().refined(1),
        "ball": S.MeshTet.init_ball(1),
        "renumbered cube": perm(S.MeshTet(), 2),
    }
    if tier != "quick":
        out.update({
            "finer square": S.MeshTri().refined(4),
            "finer circle": S.MeshTri.init_circle(3),
            "finer cube": S.MeshTet().refined(2),
            "L shape": S.MeshTri.init_lshaped().refined(2),
            "flat tetrahedra": S.MeshTet.init_tensor(np.linspace(0, 1, 5), np.array([0.0, 0.02, 1.0]), np.array([0.0, 0.5, 1.0])),
            "finer segments": S.MeshLine(np.geomspace(0.01, 1.0, 30)).refined(2),
        })
    return out


PLACES = {"as is": (1.0, 0.0), "tiny": (1e-9, 0.0), "small, moved": (0.37, 5.13), "large, moved": (1003.7, -712.9), "far away": (0.011, 47.3)}


def element(dim, degree):
    import skfem as S

    return {(1, 1): S.ElementLineP1, (1, 2): S.ElementLineP2, (2, 1): S.ElementTriP1, (2, 2): S.ElementTriP2, (3, 1): S.ElementTetP1, (3, 2): S.ElementTetP2}[(dim, degree)]()


def barycentric(d, k):
    for b in itertools.product(range(k + 1), repeat=d):
        if sum(b) <= k:
            yield np.array([k - sum(b)] + list(b)) / k


def element_points(m, k):
    return np.concatenate([np.einsum("v,dve->ed", w, m.p[:, m.t]) for w in barycentric(m.dim(), k)])


def containing(m, X, tol):
    """For every point, the elements that contain it."""
    out = []
    inv = np.array([np.linalg.inv((m.p[:, m.t[1:, e]] - m.p[:, m.t[:1, e]])) for e in range(m.t.shape[1])])
    o = m.p[:, m.t[0]].T
    for x in X:
        lam = np.einsum("eij,ej->ei", inv, x - o)
        lo = np.minimum(lam.min(1), 1 - lam.sum(1))
        out.append(np.nonzero(lo >= -tol)[0])
    return out


def monomials(d, degree):
    return [p for p in itertools.product(range(degree + 1), repeat=d) if sum(p) <= degree]


def ev(p, X):
    return np.prod([X[:, i] ** k for i, k in enumerate(p)], axis=0)


def grad(p, X):
    out = np.zeros(X.shape)
    for i in range(X.shape[1]):
        if p[i]:
            q = list(p)
            q[i] -= 1
            out[:, i] = p[i] * ev(q, X)
    return out


def build(c, meshname, place, degree):
    import skfem as S

    scale, shift = PLACES[place]
    m = meshes(c.params["tier"])[meshname]
    m = type(m)(m.p * scale + shift, m.t)
    B = S.CellBasis(m, element(m.dim(), degree))
    return m, B, bf().FEMScalarFeatures(B), scale, shift


def functions(c):
    """All points of all elements at once."""
    name = c.choose("mesh", list(meshes(c.params["tier"])))
    place = c.choose("place", list(PLACES))
    degree = c.choose("degree", [1, 2])
    k = c.choose("points per edge", c.params["denominators"])
    fitted = c.choose("fit", ["fit", "fit on data"])
    m, B, f, scale, shift = build(c, name, place, degree)
    d = m.dim()
    X = element_points(m, k)
    if k == 1:
        X = np.concatenate([X, B.doflocs.T])  # nodal points of the functions
    f.fit(X if fitted == "fit on data" else None)
    c.check(f.n_output_features_ == B.N, "number of functions")
    keep = X.copy()
    V, G = np.asarray(f.basis(X)), np.asarray(f.deriv(X))
    e = np.asarray(f.element_finder(X))
    c.observe(e)
    c.check(np.array_equal(X, keep), "points are left alone")
    c.check(V.shape == (len(X), B.N) and G.shape == (len(X), B.N, d), "shapes")
    # rounding of the coordinates, in units of the smallest extent of an element
    h = np.array([np.linalg.svd(m.p[:, m.t[1:, i]] - m.p[:, m.t[:1, i]], compute_uv=False).min() for i in range(m.t.shape[1])])
    tol = 1e-14 * np.abs(m.p).max() / h.min() + 1e-13
    inside = containing(m, X, 100 * tol)
    c.check(all(e[i] in inside[i] for i in range(len(X))), "element contains the point", str([(list(X[i]), int(e[i]), list(inside[i])) for i in range(len(X)) if e[i] not in inside[i]][:3]))
    local = [set(B.element_dofs[:, e[i]]) for i in range(len(X))]
    c.check(all(set(np.nonzero(V[i])[0]) <= local[i] for i in range(len(X))), "functions of other elements vanish")
    Xr, Pr = (X - shift) / scale, (B.doflocs.T - shift) / scale
    for p in monomials(d, degree):
        c.close(V @ ev(p, Pr), ev(p, Xr), "polynomials are reproduced", rtol=0, atol=1e3 * tol)
        c.close(np.einsum("nkd,k->nd", G, ev(p, Pr)) * scale, grad(p, Xr), "gradients of polynomials", rtol=0, atol=1e4 * tol / h.min() * scale)
    if k == 1:
        c.close(V[-B.N :], np.eye(B.N), "nodal values", rtol=0, atol=1e3 * tol)


def one_by_one(c):
    """A point is treated the same alone, among others, and in any order."""
    name = c.choose("mesh", list(c.params["meshes"]))
    k = c.choose("points per edge", [2, 3])
    m, B, f, scale, shift = build(c, name, "small, moved", 1)
    f.fit(None)
    X = element_points(m, k)
    V, G, e = np.asarray(f.basis(X)), np.asarray(f.deriv(X)), np.asarray(f.element_finder(X))
    how = c.choose("order", ["reversed", "one by one", "twice", "columns of a larger array"])
    c.observe(e)
    if how == "reversed":
        V2, G2 = np.asarray(f.basis(X[::-1]))[::-1], np.asarray(f.deriv(X[::-1]))[::-1]
    elif how == "one by one":
        V2 = np.concatenate([np.asarray(f.basis(X[i : i + 1])) for i in range(len(X))])
        G2 = np.concatenate([np.asarray(f.deriv(X[i : i + 1])) for i in range(len(X))])
    elif how == "twice":
        V2, G2 = np.asarray(f.basis(np.concatenate([X, X])))[len(X) :], np.asarray(f.deriv(np.concatenate([X, X])))[len(X) :]
    else:
        Y = np.zeros((len(X), 2 * X.shape[1]))
        Y[:, ::2] = X
        V2, G2 = np.asarray(f.basis(Y[:, ::2])), np.asarray(f.deriv(Y[:, ::2]))
    c.close(V2, V, "functions", rtol=0, atol=1e-10)
    c.close(G2, G, "gradients", rtol=0, atol=1e-8)


# ------------------------------------------------------------------- estimation
def ref_p1(m):
    """P1 functions from barycentric coordinates."""
    K, d = m.p.shape[1], m.dim()

    def parts(X):
        where = containing(m, X, 1e-9)
        val, g = np.zeros((len(X), K)), np.zeros((len(X), K, d))
        for n, x in enumerate(X):
            e = where[n][0]
            M = np.linalg.inv(m.p[:, m.t[1:, e]] - m.p[:, m.t[:1, e]])
            lam = M @ (x - m.p[:, m.t[0, e]])
            val[n, m.t[1:, e]] = lam
            val[n, m.t[0, e]] = 1 - lam.sum()
            g[n, m.t[1:, e]] = M
            g[n, m.t[0, e]] = -M.sum(0)
        return val, g

    return RefBasis(K, lambda X: parts(X)[0], lambda X: parts(X)[1], None, list(range(K)))


def estimate(c):
    import skfem as S

    model = c.choose("model", ["Pos_gle_no_vel_basis", "Pos_gle_const_kernel", "Pos_gle_hybrid", "Pos_gle_overdamped"])
    d = c.choose("dimension", [1, 2])
    ntraj = c.choose("trajectories", [1, 2])
    kind = c.choose("mesh", ["plain", "refined"])
    obs = c.choose("observable", ["default", "v", "a"])
    dss = [make_xva(60 + 9 * i, seed=2 + i, d=d) for i in range(ntraj)]
    lo = min(np.asarray(ds["x"]).min() for ds in dss) - 0.1
    hi = max(np.asarray(ds["x"]).max() for ds in dss) + 0.1
    if d == 1:
        m = S.MeshLine(np.linspace(lo, hi, 4)) if kind == "plain" else S.MeshLine(np.array([lo, 0.4 * lo + 0.6 * hi, hi])).refined(1)
    else:
        m = S.MeshTri() if kind == "plain" else S.MeshTri().refined([0])
        m = type(m)(m.p * (hi - lo) + lo, m.t)
    f = bf().FEMScalarFeatures(S.CellBasis(m, element(d, 1)))
    before = [snapshot(ds) for ds in dss]
    v = vb()
    T = 6
    kw = {} if obs == "default" else {"L_obs": obs}
    L = DEFAULT_OBS[model] if obs == "default" else obs
    est = v.Estimator_gle(dss, getattr(v, model), f, trunc=(T - 1) * 0.5 + 0.01, saveall=False, verbose=False, **kw)
    mod = est.compute_mean_force()
    est.compute_corrs()
    R = RefEstimate(model, ref_p1(m), [columns(ds) for ds in dss], [np.asarray(ds[L]) for ds in dss], T, False)
    c.observe(np.asarray(mod.force_coeff))
    c.close(np.asarray(mod.force_coeff), R.force, "mean force", rtol=1e-7, atol=1e-9)
    c.close(np.asarray(est.bkbkcorrw), R.bkbk, "correlation of the basis", rtol=1e-8, atol=1e-10)
    c.close(np.asarray(est.bkdxcorrw), R.bkdx, "correlation with the observable", rtol=1e-6, atol=1e-8)
    c.close(np.asarray(est.dotbkdxcorrw), R.dbkdx, "correlation of the derivative", rtol=1e-6, atol=1e-8)
    c.close(np.asarray(est.dotbkbkcorrw), R.dbkbk, "correlation of derivative and basis", rtol=1e-8, atol=1e-10)
    x = np.concatenate([np.asarray(ds["x"]) for ds in dss])[::7]
    c.close(np.asarray(mod.force_eval(x)), ref_p1(m).val(x) @ R.force, "force", rtol=1e-7, atol=1e-9)
    c.check(all(same_snapshot(a, snapshot(ds)) for a, ds in zip(before, dss)), "trajectories are left alone")


# ------------------------------------------------------------------------ meshes
def lines(c):
    import VolterraBasis.basis._mesh_utils as mu

    a, b = c.choose("ends", [(0.0, 1.0), (-2.0, 3.5), (1e-3, 2e-3), (-3.0, 0.0)])
    n = c.choose("elements", [1, 2, 3, 7, 20, 40])
    kind = c.choose("kind", ["uniform", 1, 1.0, 2, 3, 10, 0.5, 0.9, 1.1, 0.99, 1.01, 0.999, 1.001, "data", "data, ends given", "data, start given", "data, end given", "data, from zero", "data, to zero", "centroids"])
    x = np.linspace(a, b, 41)[:, None] ** 1
    if kind == "uniform":
        g = mu.uniform_line(a, b, n)
        c.close(np.diff(g), np.full(n, (b - a) / n), "even spacing", rtol=1e-9)
    elif kind == "data":
        g = mu.data_driven_line(x, bins=n)
    elif kind == "data, ends given":
        g = mu.data_driven_line(x, bins=n, x_start=a - 1.0, x_end=b + 2.0)
        a, b = a - 1.0, b + 2.0
    elif kind == "data, start given":
        g = mu.data_driven_line(x, bins=n, x_start=a - 1.0)
        a = a - 1.0
    elif kind == "data, end given":
        g = mu.data_driven_line(x, bins=n, x_end=b + 2.0)
        b = b + 2.0
    elif kind == "data, from zero":
        a, b = 0.0, b - a + 1.0
        g = mu.data_driven_line(x - x.min() + 1.0, bins=n, x_start=a)
    elif kind == "data, to zero":
        a, b = a - b - 1.0, 0.0
        g = mu.data_driven_line(x - x.max() - 1.0, bins=n, x_end=b)
    elif kind == "centroids":
        keep = x.copy()
        g = mu.centroid_driven_line(x, bins=n)
        c.check(np.array_equal(keep, x), "data are left alone")
        # a centre on an end is that end
        n = len(g) - 1 if n > 10 and n - 1 <= len(g) - 1 <= n + 1 else n + 1
    else:
        g = mu.non_uniform_line(a, b, n, kind)
        from fractions import Fraction

        r = Fraction(kind)
        exact = [float(Fraction(i, n) if r == 1 else (r ** i - 1) / (r ** n - 1)) for i in range(n + 1)]
        c.close(g, a + np.array(exact) * (b - a), "geometric progression", rtol=1e-11, scale=b - a)
        if min(np.diff(exact)) < 1e-12:  # below the spacing of floating point numbers
            c.observe(np.asarray(g))
            return
        if n > 1 and min(np.diff(exact)) > 1e-6:
            c.close(np.diff(g)[1:] / np.diff(g)[:-1], np.full(n - 1, float(kind)), "ratio of lengths", rtol=1e-6)
    g = np.asarray(g)
    c.observe(g)
    c.check(g.shape == (n + 1,), "number of points", str(g.shape))
    c.close(np.array([g[0], g[-1]]), np.array([a, b]), "ends", rtol=1e-12, atol=1e-15)
    c.check((np.diff(g) > 0).all(), "increasing")


def all_lines(c):
    """Every number of elements: no node is missing or repeated by rounding, and the ends are the requested ones."""
    import VolterraBasis.basis._mesh_utils as mu

    a, b = c.choose("ends", [(0.0, 1.0), (0.0, 0.3), (0.0, 1.1), (0.0, 2.1), (-0.7, 0.7), (0.1, 0.7), (-3.0, 0.2), (1e-3, 2e-3), (1e4, 1e4 + 0.7), (-1e-7, 2e-7), (0.0, 1e7), (-180, 180)])
    kind = c.choose("kind", ["uniform", 1, 1.05, 0.97, "data", "data, ends given"])
    n = c.choose("elements", c.params["elements"])
    x = a + (b - a) * np.append(np.modf(np.arange(37) * 0.618033988749895)[0], [0.0, 1.0])[:, None]
    x[-1] = b
    if kind == "uniform":
        g = mu.uniform_line(a, b, n)
    elif kind == "data":
        g = mu.data_driven_line(x, bins=n)
    elif kind == "data, ends given":
        g = mu.data_driven_line(x, bins=n, x_start=a, x_end=b)
    else:
        g = mu.non_uniform_line(a, b, n, kind)
    g = np.asarray(g)
    c.observe(g.shape)
    c.check(g.shape == (n + 1,), "number of points", str(g.shape))
    r = 1.0 if isinstance(kind, str) else float(kind)
    i = np.arange(n + 1)
    u = i / n if r == 1 else np.expm1(i * np.log(r)) / np.expm1(n * np.log(r))
    c.close(g, a + u * (b - a), "nodes", rtol=1e-11, scale=b - a, atol=1e-12 * max(abs(a), abs(b)))
    c.close(np.array([g[0], g[-1]]), np.array([a, b], dtype=float), "ends", rtol=1e-13, atol=1e-13 * (b - a))
    c.check((np.diff(g) > 0).all(), "increasing")


def intersections(c):
    import VolterraBasis.basis._mesh_utils as mu

    grid = [(0.0, 0.0), (2.0, 0.0), (0.0, 1.0), (3.0, 2.0), (-1.0, 2.0), (1.0, -1.0)]
    q = [c.choose("point %d" % i, grid) for i in range(4)]
    a1, a2, b1, b2 = [np.array(p) for p in q]
    c.skip_if((a1 == a2).all() or (b1 == b2).all())
    p = np.array(mu.get_intersect(a1, a2, b1, b2))
    c.observe(p)
    det = (a2 - a1)[0] * (b2 - b1)[1] - (a2 - a1)[1] * (b2 - b1)[0]
    if det == 0:
        c.check(np.isinf(p).all(), "parallel lines")
        return
    for u, w in ((a1, a2), (b1, b2)):
        s = (w - u)[0] * (p - u)[1] - (w - u)[1] * (p - u)[0]
        c.close(s, 0.0, "on the line", rtol=0, atol=1e-9)


def triangulation(c):
    import VolterraBasis.basis._mesh_utils as mu

    import skfem as S

    bins = c.choose("centres", c.params["bins"])
    cloud = c.choose("cloud", ["square", "disk", "stretched", "unrelated"])
    hull = c.choose("boundary", ["hull", "given", "bevelled", "bevelled, simplification asked for", "simplified 0.01", "simplified 0.05"])
    n = c.choose("points", [40, 90])
    i = np.arange(n)
    u, w = np.mod(i * 0.6180339887, 1.0), np.mod((i + 0.5) * 0.7548776662, 1.0)
    X = np.stack([u, w], 1)
    if cloud == "disk":
        X = np.stack([np.sqrt(u) * np.cos(2 * np.pi * w), np.sqrt(u) * np.sin(2 * np.pi * w)], 1)
    elif cloud == "stretched":
        X = X * np.array([5.0, 0.5]) + np.array([-20.0, 3.0])
    elif cloud == "unrelated":
        X = np.stack([np.sin(3.1 * i) + 0.3 * np.cos(7.0 * i), np.cos(2.3 * i)], 1)
    keep = X.copy()
    lo, hi = X.min(0), X.max(0)
    kw = {"simplify_hull": 0.0} if hull == "hull" else {} if hull.endswith("0.01") else {"simplify_hull": 0.05} if hull.endswith("0.05") else {"boundary_vertices": [[lo[0], lo[1]], [lo[0], hi[1]], [hi[0], lo[1]], [hi[0], hi[1]]]}
    given = None
    if hull.startswith("bevelled"):  # a given boundary with a very short edge, around the data
        (x0, y0), (x1, y1) = lo - 0.05 * (hi - lo), hi + 0.05 * (hi - lo)
        e = 0.02 * (hi - lo)
        given = np.array([[x0, y0], [x1, y0], [x1, y1 - e[1]], [x1 - e[0], y1], [x0, y1]])
        kw = {"boundary_vertices": given.copy()}
        if hull != "bevelled":
            kw["simplify_hull"] = 0.05
    p, t = mu.centroid_driven_mesh(X, bins, **kw)
    if given is not None:
        c.check(np.array_equal(kw["boundary_vertices"], given), "the given boundary is left alone")
    p, t = np.asarray(p), np.asarray(t)
    c.observe(t.shape)
    c.check(np.array_equal(keep, X), "data are left alone")
    m = S.MeshTri(p.T, t.T)
    area = np.abs(np.linalg.det(np.stack([p[t[:, 1]] - p[t[:, 0]], p[t[:, 2]] - p[t[:, 0]]], 1))) / 2
    from scipy.spatial import ConvexHull

    want = np.prod(hi - lo) if hull == "given" else ConvexHull(X).volume
    if given is not None:
        want = np.prod(given.max(0) - given.min(0)) - np.prod(e) / 2
        c.check(all((np.abs(p - q).max(1) < 1e-12).any() for q in given), "the given boundary is the boundary")
    if hull in ("hull", "given") or given is not None:
        c.close(area.sum(), want, "area of the mesh", rtol=1e-9)
    else:
        c.check(area.sum() >= want * (1 - 1e-9), "the simplified boundary encloses the data")
    c.check(all(len(q) for q in containing(m, X, 1e-9)), "every point is covered")
    f = bf().FEMScalarFeatures(S.CellBasis(m, element(2, 1))).fit(None)
    V = np.asarray(f.basis(X))
    c.close(V @ f.basis_fem.doflocs.T, X, "functions on this mesh", rtol=0, atol=1e-8 * np.abs(p).max())
    c.check(V.min() > -1e-8, "no extrapolation", str(V.min()))


def refused(c):
    import skfem as S

    what = c.choose("wrong", ["vector element", "second derivative", "antiderivative"])
    B = S.CellBasis(S.MeshTri(), S.ElementTriRT0() if what == "vector element" else S.ElementTriP1())
    f = bf().FEMScalarFeatures(B)
    X = np.array([[0.2, 0.3]])
    try:
        f.fit(None)
        f.hessian(X) if what == "second derivative" else f.antiderivative(X)
    except NotImplementedError as e:
        c.observe(str(e))
    else:
        c.check(False, "refused")


def harnesses(tier):
    q = tier == "quick"
    return {
        "functions": (functions, {"tier": tier, "denominators": [1, 2, 3, 5] if q else [1, 2, 3, 4, 5, 6]}, 2),
        "one by one": (one_by_one, {"tier": tier, "meshes": ["uneven segments", "refined segments", "locally refined square", "flat triangles", "cube"]}, 1),
        "estimation": (estimate, {"tier": tier}, 2),
        "lines": (lines, {}, 1),
        "all lines": (all_lines, {"elements": list(range(1, 61)) if q else list(range(1, 401))}, 1),
        "intersections": (intersections, {}, 1),
        "triangulation": (triangulation, {"bins": [3, 10] if q else [1, 2, 3, 5, 10, 20]}, 1),
        "refused": (refused, {}, 1),
    }
