"""Alphabets and plain reference models shared by the checks.

Nothing here calls the code under test to obtain an expected value: the reference
bases, estimators and inversions are written again from their definitions, with
ordinary loops, on numpy arrays only."""
import itertools
import math

import numpy as np

from mc import env


def vb():
    return env.load()


def bf():
    import VolterraBasis.basis as b

    env.load()
    return b


# --------------------------------------------------------------- trajectories
def series(n, seed=1, d=1):
    """A fixed, irregular, bounded series (n, d): sums of incommensurate sines."""
    t = np.arange(n, dtype=float)
    out = np.empty((n, d))
    for j in range(d):
        p = seed * 1.7 + 2.3 * j
        out[:, j] = 0.9 * np.sin(0.83 * t * (1 + 0.31 * j) + p) + 0.6 * np.cos(2.17 * t + 1.3 * p) + 0.35 * np.sin(1.37 * t * t * 0.11 + 0.7 * p)
    return out


def make_xva(n, seed=1, d=1, dt=0.5, t0=0.0, extra=(), dask=None, a_cols=True):
    """A dataset of n times with x, v, a that are unrelated series (every identity that
    is checked is algebraic, so the columns need not be derivatives of each other)."""
    import xarray as xr

    x = series(n, seed, d)
    v = series(n, seed + 5, d) * 1.3
    a = series(n, seed + 11, d) * 0.8
    cols = {"x": x, "v": v}
    if a_cols:
        cols["a"] = a
    for k, e in enumerate(extra):
        cols[e] = series(n, seed + 17 + k, d)
    data = {}
    for k, arr in cols.items():
        if dask is not None:
            import dask.array as da

            arr = da.from_array(arr, chunks=(dask, arr.shape[1]))
        data[k] = (["time", "dim_x"], arr)
    return xr.Dataset(data, coords={"time": t0 + np.arange(n) * dt}, attrs={"dt": dt})


def snapshot(ds):
    """Everything of a dataset, to compare it bit for bit later."""
    return {k: np.array(v) for k, v in ds.variables.items()}, dict(ds.attrs), tuple(ds.data_vars), tuple(sorted(dict(ds.sizes).items()))


def same_snapshot(a, b):
    if a[1] != b[1] or a[2] != b[2] or a[3] != b[3] or set(a[0]) != set(b[0]):
        return False
    return all(np.array_equal(a[0][k], b[0][k], equal_nan=a[0][k].dtype.kind in "fc") for k in a[0])


# ------------------------------------------------------------ reference bases
class RefBasis:
    """val (n,K); d1 (n,K,dim); d2 (n,K,dim,dim) of *all* functions; kept: indices of the
    functions whose derivatives the basis hands out when the constant is removed."""

    def __init__(self, K, val, d1, d2, kept, anti=None):
        self.K, self.val, self.d1, self.d2, self.kept, self.anti = K, val, d1, d2, kept, anti


def _separable(dim, funs, kept_funs):
    """funs: list of (f, f', f'', F) of one variable; features ordered function-major."""
    K = len(funs) * dim

    def val(X):
        out = np.zeros((X.shape[0], K))
        for n, f in enumerate(funs):
            for i in range(dim):
                out[:, n * dim + i] = [f[0](x) for x in X[:, i]]
        return out

    def d1(X):
        out = np.zeros((X.shape[0], K, dim))
        for n, f in enumerate(funs):
            for i in range(dim):
                out[:, n * dim + i, i] = [f[1](x) for x in X[:, i]]
        return out

    def d2(X):
        out = np.zeros((X.shape[0], K, dim, dim))
        for n, f in enumerate(funs):
            for i in range(dim):
                out[:, n * dim + i, i, i] = [f[2](x) for x in X[:, i]]
        return out

    def anti(X):
        out = np.zeros((X.shape[0], K))
        for n, f in enumerate(funs):
            for i in range(dim):
                out[:, n * dim + i] = [f[3](x) for x in X[:, i]]
        return out

    kept = [n * dim + i for n in kept_funs for i in range(dim)]
    return RefBasis(K, val, d1, d2, kept, anti)


def ref_linear(dim, mean=None):
    m = np.zeros(dim) if mean is None else np.asarray(mean, float)

    def d1(X):
        out = np.zeros((X.shape[0], dim, dim))
        for i in range(dim):
            out[:, i, i] = 1.0
        return out

    return RefBasis(dim, lambda X: X - m, d1, lambda X: np.zeros((X.shape[0], dim, dim, dim)), list(range(dim)), lambda X: (X - m) ** 2 / 2)


def _mono(n):
    return (
        lambda x: x ** n,
        lambda x: n * x ** (n - 1) if n > 0 else 0.0,
        lambda x: n * (n - 1) * x ** (n - 2) if n > 1 else 0.0,
        lambda x: x ** (n + 1) / (n + 1),
    )


def ref_poly(dim, deg):
    return _separable(dim, [_mono(n) for n in range(deg + 1)], range(1, deg + 1))


def ref_fourier(dim, order, freq):
    c0 = 1 / math.sqrt(2 * math.pi)
    c1 = 1 / math.sqrt(math.pi)
    funs = [(lambda x: c0, lambda x: 0.0, lambda x: 0.0, lambda x: c0 * x)]
    for m in range(1, order + 1):
        w = m * freq
        funs.append((lambda x, w=w: c1 * math.sin(w * x), lambda x, w=w: c1 * w * math.cos(w * x), lambda x, w=w: -c1 * w * w * math.sin(w * x), lambda x, w=w: -c1 * math.cos(w * x) / w))
        funs.append((lambda x, w=w: c1 * math.cos(w * x), lambda x, w=w: -c1 * w * math.sin(w * x), lambda x, w=w: -c1 * w * w * math.cos(w * x), lambda x, w=w: c1 * math.sin(w * x) / w))
    return _separable(dim, funs, range(1, 2 * order + 1))


def bspline_knots(xs, k):
    """The knots of an interpolating spline of degree k through xs (FITPACK's choice)."""
    xs = [float(x) for x in xs]
    if k % 2 == 1:
        h = (k + 1) // 2
        inner = xs[h : len(xs) - h]
    else:
        h = k // 2
        inner = [0.5 * (xs[i] + xs[i + 1]) for i in range(h, len(xs) - h - 1)]
    return [xs[0]] * (k + 1) + inner + [xs[-1]] * (k + 1)


def _interval(t, k, x):
    n = len(t) - k - 1
    j = k
    while j < n - 1 and x >= t[j + 1]:
        j += 1
    return j


def _cox(t, i, k, x, j0):
    """B_{i,k}(x) with the polynomial piece of interval j0 (right end included)."""
    if k == 0:
        return 1.0 if i == j0 else 0.0
    out = 0.0
    if t[i + k] > t[i]:
        out += (x - t[i]) / (t[i + k] - t[i]) * _cox(t, i, k - 1, x, j0)
    if t[i + k + 1] > t[i + 1]:
        out += (t[i + k + 1] - x) / (t[i + k + 1] - t[i + 1]) * _cox(t, i + 1, k - 1, x, j0)
    return out


def _coxd(t, i, k, x, j0, m):
    if m == 0:
        return _cox(t, i, k, x, j0)
    if k == 0:
        return 0.0
    out = 0.0
    if t[i + k] > t[i]:
        out += k / (t[i + k] - t[i]) * _coxd(t, i, k - 1, x, j0, m - 1)
    if t[i + k + 1] > t[i + 1]:
        out -= k / (t[i + k + 1] - t[i + 1]) * _coxd(t, i + 1, k - 1, x, j0, m - 1)
    return out


def _anti_bspline(t, i, k, x):
    """int_{-inf}^x B_{i,k} by summing splines of degree k+1 on the extended knots."""
    te = [t[0]] + list(t) + [t[-1]]
    n = len(te) - (k + 1) - 1
    j0 = _interval(te, k + 1, x)
    s = 0.0
    # antiderivative of B_i^k (support t[i]..t[i+k+1]) = (t[i+k+1]-t[i])/(k+1) * sum_{j>=i} B_j^{k+1}
    for j in range(i + 1, n):
        s += _cox(te, j, k + 1, x, j0)
    return (t[i + k + 1] - t[i]) / (k + 1) * s


def ref_bspline(lo, hi, n_knots, k, at=None):
    t = bspline_knots(np.linspace(lo, hi, n_knots) if at is None else at, k)
    funs = []
    for i in range(n_knots):
        funs.append(
            (
                lambda x, i=i: _cox(t, i, k, x, _interval(t, k, x)),
                lambda x, i=i: _coxd(t, i, k, x, _interval(t, k, x), 1),
                lambda x, i=i: _coxd(t, i, k, x, _interval(t, k, x), 2),
                lambda x, i=i: _anti_bspline(t, i, k, x),
            )
        )
    return _separable(1, funs, range(n_knots - 1))


def ref_tensor(r1, r2):
    K = r1.K * r2.K

    def val(X):
        a, b = r1.val(X[:, :1]), r2.val(X[:, 1:2])
        out = np.zeros((X.shape[0], K))
        for i in range(r1.K):
            for j in range(r2.K):
                out[:, i * r2.K + j] = a[:, i] * b[:, j]
        return out

    def d1(X):
        a, b = r1.val(X[:, :1]), r2.val(X[:, 1:2])
        da, db = r1.d1(X[:, :1]), r2.d1(X[:, 1:2])
        out = np.zeros((X.shape[0], K, 2))
        for i in range(r1.K):
            for j in range(r2.K):
                out[:, i * r2.K + j, 0] = da[:, i, 0] * b[:, j]
                out[:, i * r2.K + j, 1] = a[:, i] * db[:, j, 0]
        return out

    def d2(X):
        a, b = r1.val(X[:, :1]), r2.val(X[:, 1:2])
        da, db = r1.d1(X[:, :1]), r2.d1(X[:, 1:2])
        dda, ddb = r1.d2(X[:, :1]), r2.d2(X[:, 1:2])
        out = np.zeros((X.shape[0], K, 2, 2))
        for i in range(r1.K):
            for j in range(r2.K):
                k = i * r2.K + j
                out[:, k, 0, 0] = dda[:, i, 0, 0] * b[:, j]
                out[:, k, 0, 1] = out[:, k, 1, 0] = da[:, i, 0] * db[:, j, 0]
                out[:, k, 1, 1] = a[:, i] * ddb[:, j, 0, 0]
        return out

    return RefBasis(K, val, d1, d2, list(range(K)))


def ref_combine(refs, removed):
    """removed: for each part, whether it drops its constant in derivatives."""
    K = sum(r.K for r in refs)
    kept, off = [], 0
    for r, rm in zip(refs, removed):
        kept += [off + i for i in (r.kept if rm else range(r.K))]
        off += r.K
    return RefBasis(K, lambda X: np.concatenate([r.val(X) for r in refs], 1), lambda X: np.concatenate([r.d1(X) for r in refs], 1), lambda X: np.concatenate([r.d2(X) for r in refs], 1), kept)


class BasisSpec:
    """How to build a basis with the code, and its reference on given data."""

    def __init__(self, name, make, ref, removable=True, dims=(1,), dup_const=False, const=True):
        self.name, self.make, self.ref = name, make, ref
        self.removable, self.dims, self.dup_const = removable, dims, dup_const
        self.const = const  # the span contains the constants


def basis_specs():
    b = bf()
    pool = lambda xs: np.concatenate(xs, 0)
    return {
        "linear": BasisSpec("linear", lambda rm: b.LinearFeatures(), lambda xs: ref_linear(xs[0].shape[1]), False, (1, 2, 3), const=False),
        "linear_c": BasisSpec("linear_c", lambda rm: b.LinearFeatures(to_center=True), lambda xs: ref_linear(xs[0].shape[1], pool(xs).mean(0)), False, (1, 2, 3), const=False),
        "poly1": BasisSpec("poly1", lambda rm: b.PolynomialFeatures(deg=1, remove_const=rm), lambda xs: ref_poly(xs[0].shape[1], 1), True, (1, 2), True),
        "poly3": BasisSpec("poly3", lambda rm: b.PolynomialFeatures(deg=3, remove_const=rm), lambda xs: ref_poly(xs[0].shape[1], 3), True, (1,)),
        "fourier1": BasisSpec("fourier1", lambda rm: b.FourierFeatures(order=1, freq=0.8, remove_const=rm), lambda xs: ref_fourier(xs[0].shape[1], 1, 0.8), True, (1, 2), True),
        "bspline": BasisSpec("bspline", lambda rm: b.BSplineFeatures(4, k=3, remove_const=rm), lambda xs: ref_bspline(pool(xs).min(), pool(xs).max(), 4, 3), True, (1,)),
        "combined": BasisSpec("combined", lambda rm: b.FeaturesCombiner(b.LinearFeatures(), b.FourierFeatures(order=1, freq=1.3, remove_const=rm)), lambda xs: ref_combine([ref_linear(xs[0].shape[1]), ref_fourier(xs[0].shape[1], 1, 1.3)], [False, True]), True, (1,)),
        "tensor": BasisSpec("tensor", lambda rm: b.TensorialBasis2D(b.PolynomialFeatures(deg=1), b.BSplineFeatures(4, k=3)), lambda xs: ref_tensor(ref_poly(1, 1), ref_bspline(pool(xs)[:, 1].min(), pool(xs)[:, 1].max(), 4, 3)), False, (2,)),
    }


# ------------------------------------------------------------ reference models
MODELS = ["Pos_gle", "Pos_gle_with_friction", "Pos_gle_no_vel_basis", "Pos_gle_const_kernel", "Pos_gle_hybrid", "Pos_gle_overdamped"]
NEEDS_A = {"Pos_gle", "Pos_gle_with_friction", "Pos_gle_const_kernel", "Pos_gle_hybrid"}
DEFAULT_OBS = {m: ("a" if m in NEEDS_A else "v") for m in MODELS}


def ref_vectors(model, ref, x, v, a, removed):
    """(E_force, E, dE) of one trajectory, from the definitions of the models."""
    bk = ref.val(x)
    d1 = ref.d1(x)
    if model in ("Pos_gle", "Pos_gle_with_friction"):
        keep = ref.kept if removed else list(range(ref.K))
        d1 = d1[:, keep]
        d2 = ref.d2(x)[:, keep]
        E = np.einsum("nkd,nd->nk", d1, v)
        dE = np.einsum("nkd,nd->nk", d1, a) + np.einsum("nkde,nd,ne->nk", d2, v, v)
        if model == "Pos_gle":
            return bk, E, dE
        return np.concatenate([bk, E], 1), E, dE
    dbkv = np.einsum("nkd,nd->nk", d1, v)
    if model in ("Pos_gle_no_vel_basis", "Pos_gle_overdamped"):
        return bk, bk, dbkv
    if model == "Pos_gle_const_kernel":
        return bk, v, a
    if model == "Pos_gle_hybrid":
        return bk, np.concatenate([v, bk], 1), np.concatenate([a, dbkv], 1)
    raise KeyError(model)


def ref_corr(A, B, nmax):
    """c[i, j, n] = mean over t of A_i(t) B_j(t+n)."""
    T = A.shape[0]
    out = np.zeros((A.shape[1], B.shape[1], nmax))
    for n in range(nmax):
        out[:, :, n] = A[: T - n].T @ B[n:] / (T - n)
    return out


def pooled(parts, lens):
    W = float(sum(lens))
    return sum(p * (l / W) for p, l in zip(parts, lens))


class RefEstimate:
    """Mean force, correlations of a model on trajectories [(x, v, a)]."""

    def __init__(self, model, ref, trajs, obs, trunc, removed, force=None):
        self.model, self.ref, self.removed, self.trunc = model, ref, removed, trunc
        self.lens = [x.shape[0] for x, _, _ in trajs]
        self.vec = [ref_vectors(model, ref, x, v, a, removed) for x, v, a in trajs]
        self.obs = obs
        self.gram = pooled([f.T @ f / len(f) for f, _, _ in self.vec], self.lens)
        self.disp = pooled([f.T @ o / len(o) for (f, _, _), o in zip(self.vec, obs)], self.lens)
        self.force = np.linalg.solve(self.gram, self.disp) if force is None else force
        self.rest = [o - f @ self.force for (f, _, _), o in zip(self.vec, obs)]
        self.bkbk = pooled([ref_corr(E, E, trunc) for _, E, _ in self.vec], self.lens)
        self.bkdx = pooled([ref_corr(E, r, trunc) for (_, E, _), r in zip(self.vec, self.rest)], self.lens)
        self.dbkdx = pooled([ref_corr(dE, r, trunc) for (_, _, dE), r in zip(self.vec, self.rest)], self.lens)
        self.dbkbk = pooled([ref_corr(dE, E, trunc) for _, E, dE in self.vec], self.lens)


# ------------------------------------------------------- reference inversions
METHODS = ["rect", "rectangular", "midpoint", "midpoint_w_richardson", "trapz", "second_kind_rect", "second_kind_trapz"]


def memory(B, first, K):
    """sum over j of B[:, :, first - j] @ K[j]."""
    n = len(K)
    if n == 0:
        return 0.0
    return np.tensordot(B[:, :, first - np.arange(n)], K, ([2, 1], [0, 1]))


def inv_rect(B, D, dt):
    T = B.shape[2]
    K = np.full((T, B.shape[0], D.shape[1]), np.nan)
    L = np.linalg.inv(B[:, :, 1])
    for i in range(T - 1):
        s = D[:, :, i + 1] / dt + memory(B, i + 1, K[:i])
        K[i] = -L @ s
    return K


def inv_midpoint(B, D, dt):
    T = B.shape[2]
    n = T // 2
    K = np.zeros((n, B.shape[0], D.shape[1]))
    L = np.linalg.inv(B[:, :, 1])
    for i in range(n):
        s = D[:, :, 2 * i + 1] / (2 * dt)
        if i:
            s = s + 0.5 * B[:, :, 2 * i + 1] @ K[0] + memory(B[:, :, 1::2], i - 1, K[1:i])
        K[i] = -L @ s / (0.5 if i == 0 else 1.0)
    return K


def inv_trapz(B, D, dt, k0):
    T = B.shape[2]
    K = np.zeros((T, B.shape[0], D.shape[1]))
    K[0] = k0
    L = np.linalg.inv(0.5 * B[:, :, 0])
    for i in range(1, T):
        s = D[:, :, i] / dt + 0.5 * B[:, :, i] @ K[0] + memory(B, i - 1, K[1:i])
        K[i] = -L @ s
    return K


def inv_second(B0, Bd, Dd, dt, k0, rule):
    T = Bd.shape[2]
    K = np.zeros((T, B0.shape[0], Dd.shape[1]))
    K[0] = k0
    h = 0.5 if rule == "trapz" else 0.0
    L = np.linalg.inv(B0 - h * dt * Bd[:, :, 0])
    for i in range(1, T):
        s = Dd[:, :, i] + (1.0 - h) * dt * Bd[:, :, i] @ K[0] + dt * memory(Bd, i - 1, K[1:i])
        K[i] = L @ s
    return K


def ref_kernel(method, est, dt, k0=None):
    """(times, kernel); NaN where the method leaves the value undetermined."""
    return ref_kernel_corrs(method, est.bkbk, est.bkdx, est.dbkbk, est.dbkdx, dt, k0)


def ref_kernel_corrs(method, B, D, Bd, Dd, dt, k0=None):
    T = B.shape[2]
    t = np.arange(T) * dt
    if k0 is None and method in ("trapz", "second_kind_rect", "second_kind_trapz"):
        k0 = np.linalg.solve(B[:, :, 0], Dd[:, :, 0])
    if method in ("rect", "rectangular"):
        return t, inv_rect(B, D, dt)
    if method == "midpoint":
        K = inv_midpoint(B, D, dt)
        return t[::2][: len(K)], K
    if method == "midpoint_w_richardson":
        K1 = inv_midpoint(B, D, dt)
        K3 = inv_midpoint(B[:, :, ::3], D[:, :, ::3], 3 * dt)
        n = len(K3)
        return t[::6][:n], (9 * K1[::3][:n] - K3) / 8
    if method == "trapz":
        K = inv_trapz(B, D, dt, k0)
        S = K[:-1].copy()
        for i in range(1, T - 1):
            S[i] = 0.25 * K[i - 1] + 0.5 * K[i] + 0.25 * K[i + 1]
        return t[:-1], S
    if method == "second_kind_rect":
        return t, inv_second(B[:, :, 0], Bd, Dd, dt, k0, "rect")
    if method == "second_kind_trapz":
        return t, inv_second(B[:, :, 0], Bd, Dd, dt, k0, "trapz")
    raise KeyError(method)


def growth(K):
    """Magnitude used for tolerances; inversions may amplify rounding."""
    a = np.abs(K[np.isfinite(K)])
    return float(a.max()) if a.size else 1.0


def product(*its):
    return list(itertools.product(*its))


# ------------------------------------------------------------ running the code
def columns(ds):
    """(x, v, a) of a dataset as arrays; a may be missing."""
    return tuple(np.asarray(ds[k].data) if k in ds else None for k in ("x", "v", "a"))


def estimator(model, basis, dss, trunc_ind, dt=0.5, **kw):
    """An estimator whose correlation functions have trunc_ind values (time origin 0)."""
    v = vb()
    kw.setdefault("saveall", False)
    kw.setdefault("verbose", False)
    return v.Estimator_gle(dss, getattr(v, model), basis, trunc=(trunc_ind - 1) * dt + 0.01 * dt, **kw)


def is_removed(model, spec, rm):
    """Does the kernel basis of this model drop the constant?"""
    return bool(rm and spec.removable and model in ("Pos_gle", "Pos_gle_with_friction"))


def admissible(model, spec, d, rm):
    """Cases whose gram matrices are regular without rank projection, or are handled by it."""
    if d not in spec.dims:
        return False
    if spec.dup_const and d > 1:
        return False  # the constant appears once per dimension
    if model == "Pos_gle_with_friction" and not rm and spec.const:
        return False  # the friction part of the force basis has no projection
    return True


def reference(model, spec, dss, trunc_ind, rm, L_obs=None, force=None):
    tr = [columns(ds) for ds in dss]
    ref = spec.ref([t[0] for t in tr])
    obs = [np.asarray(ds[L_obs or DEFAULT_OBS[model]].data) for ds in dss]
    return RefEstimate(model, ref, tr, obs, trunc_ind, is_removed(model, spec, rm), force)


def arr(da, *dims):
    """Values with the dimensions in the given order (dimension names may be given as
    prefixes so that 'obs' stands for whatever the observable's dimension is called)."""
    return np.asarray(da.values if hasattr(da, "values") else da)


def cond(M):
    return float(np.linalg.cond(M))
