"""The correlation functions compute c(n) = mean over t of a(t) b(t+n)."""
import numpy as np

from .common import vb, series

BOUNDS = "lengths 1 to 9 with all pairs of unit impulses, 15 to 17, 31 to 33, 100, 1000, 1023 to 1025, 4096 with irregular series; every truncation around the length; 1 to 4 components; every pair of 3 integer and 2 floating types in 5 memory layouts"


def cor1(a, b, m):
    T = len(a)
    out = np.zeros(m)
    for n in range(m):
        s = 0.0
        for t in range(T - n):
            s += a[t] * b[t + n]
        out[n] = s / (T - n)
    return out


def cor_fast(a, b, m):
    T = len(a)
    return np.array([np.dot(a[: T - n], b[n:]) / (T - n) for n in range(m)])


def trunc_options(n):
    return [None] + sorted({1, 2, n - 1, n, n + 1, n + 5} - {0})


def call(fname, a, b, tr, by_keyword=True):
    from VolterraBasis import correlation as m

    f = getattr(m, fname)
    if b is None:
        return f(a) if tr is None else f(a, trunc=tr)
    return f(a, b) if tr is None else f(a, b, trunc=tr)


def impulses(c):
    """All pairs of unit impulses decide the bilinear functional completely."""
    n = c.choose("length", c.params["lengths"])
    fname = c.choose("function", ["correlation_1D", "correlation_direct_1D", "correlation_ND", "correlation_direct_ND"])
    tr = c.choose("trunc", trunc_options(n))
    i = c.choose("impulse of a", range(n))
    m = n if tr is None else min(n, tr)
    ND = fname.endswith("ND")
    a = np.zeros(n)
    a[i] = 2.0
    for j in range(n):
        b = np.zeros(n)
        b[j] = 3.0
        c.op()
        got = call(fname, a.reshape(1, 1, n) if ND else a, b.reshape(1, n) if ND else b, tr)
        want = cor1(a, b, m)
        c.observe(got)
        c.close(got, want.reshape(1, 1, m) if ND else want, "correlation of two impulses", rtol=1e-10, atol=1e-12, j=j)
    got = call(fname, a.reshape(1, n) if ND else a, None, tr)
    c.close(got, cor1(a, a, m).reshape((1, 1, m) if ND else (m,)), "autocorrelation of an impulse", rtol=1e-10, atol=1e-12)


def dense(c):
    n = c.choose("length", c.params["lengths"])
    kind = c.choose("series", ["irregular", "constant offset", "large scale"])
    tr = c.choose("trunc", trunc_options(n) if n < 100 else [None, 1, 7, n - 1, n, n + 3])
    shape = c.choose("components", [(1, 1), (2, 1), (1, 3), (3, 2), (4, 4)])
    fname = c.choose("function", ["fft", "direct"])
    c.skip_if(n > 1100 and (shape not in ((2, 1), (3, 2)) or kind != "irregular" or (fname == "direct" and tr in (None, n - 1, n, n + 3) and shape != (2, 1))))
    k, l = shape
    A, B = series(n, 2, k).T, series(n, 7, l).T
    if kind == "constant offset":
        A, B = A + 3.0, B - 2.0
    elif kind == "large scale":
        A, B = A * 1e6, B * 1e-3
    keep = A.copy(), B.copy()
    f = vb().correlation_fft if fname == "fft" else vb().correlation_direct
    m = n if tr is None else min(n, tr)
    kw = {} if tr is None else {"trunc": tr}
    scale = float(np.abs(A).max() * np.abs(B).max())
    eps = 1e-11 * max(n, 10)
    want = np.array([[cor_fast(x, y, m) for y in B] for x in A])
    c.observe(want[0, 0, :3])
    c.close(f(A[:, None, :], B, **kw), want, "pairwise correlation", rtol=eps, atol=0, scale=scale)
    c.close(f(A[:, None, :], B[None], **kw), want, "pairwise correlation", rtol=eps, atol=0, scale=scale)
    # component i of b against component j of a: the other broadcasting order
    c.close(f(A, B[:, None, :], **kw), want.transpose(1, 0, 2), "pairwise correlation (b major)", rtol=eps, atol=0, scale=scale)
    auto = np.array([[cor_fast(y, x, m) for y in A] for x in A])
    c.close(f(A, **kw), auto, "autocorrelation c[i,j] = mean a_j(t) a_i(t+n)", rtol=eps, atol=0, scale=float(np.abs(A).max() ** 2))
    from VolterraBasis import correlation as mod

    f1 = mod.correlation_1D if fname == "fft" else mod.correlation_direct_1D
    c.close(f1(A[0], B[0], **kw), want[0, 0], "correlation of two series", rtol=eps, atol=0, scale=scale)
    same = np.array([cor_fast(x, x, m) for x in A])
    A3 = A[None]
    c.close(f(A3, A3, **kw), same[None], "the same series twice", rtol=eps, atol=0, scale=float(np.abs(A).max() ** 2))
    if n > 3:  # overlapping parts of the same array
        p, q = A3[..., : n - 2], A3[..., 2:]
        c.close(f(p, q, **kw), np.array([[cor_fast(x[: n - 2], x[2:], min(n - 2, m)) for x in A]]), "two parts of the same series", rtol=eps, atol=0, scale=float(np.abs(A).max() ** 2))
    c.close(f1(A[0], A[0], **kw), auto[0, 0], "the same series twice", rtol=eps, atol=0, scale=float(np.abs(A).max() ** 2))
    c.close(f1(A[0], **kw), auto[0, 0], "autocorrelation of one series", rtol=eps, atol=0, scale=float(np.abs(A).max() ** 2))
    c.check(np.array_equal(A, keep[0]) and np.array_equal(B, keep[1]), "input modified")


def types(c):
    """Series of any real type and layout: only their values matter."""
    fname = c.choose("function", ["correlation_1D", "correlation_direct_1D", "correlation_ND", "correlation_direct_ND"])
    n = c.choose("length", [1, 2, 7, 16, 33, 301])
    kinds = ["int64", "int32", "int16", "float32", "float64"]
    ta = c.choose("type of a", kinds)
    tb = c.choose("type of b", kinds + [None])
    lay = c.choose("layout", ["C", "strided", "reversed", "read-only", "transposed"])
    tr = c.choose("trunc", [None, max(1, n // 2), n + 3])
    big = c.choose("magnitude", [4, 150])
    ND = fname.endswith("ND")
    A, B = [np.rint(big * series(n, s, 2)).T for s in (2, 7)]
    if not ND:
        A, B = A[0], B[1]

    def lay_out(w, t):
        w = w.astype(t)
        if lay == "strided":
            w = np.repeat(w, 3, axis=-1)[..., ::3]
        elif lay == "reversed":
            w = np.ascontiguousarray(w[..., ::-1])[..., ::-1]
        elif lay == "transposed":
            w = np.asfortranarray(w)
        elif lay == "read-only":
            w.flags.writeable = False
        return w

    a, b = lay_out(A, ta), None if tb is None else lay_out(B, tb)
    if ND and b is not None:
        a = a[:, None, :]
    m = n if tr is None else min(n, tr)
    got = call(fname, a, b, tr)
    if ND:
        want = np.array([[cor_fast(x, y, m) for y in B] for x in A]) if tb else np.array([[cor_fast(y, x, m) for y in A] for x in A])
    else:
        want = cor_fast(A, B if tb else A, m)
    c.observe(got)
    c.close(got, want, "correlation", rtol=3e-5 if "float32" in (ta, tb) else 1e-11 * max(n, 10), scale=float(np.abs(A).max() * np.abs(B if tb else A).max()))


def harnesses(tier):
    q = tier == "quick"
    return {
        "types": (types, {}, 2),
        "impulses": (impulses, {"lengths": [1, 2, 3, 4, 5, 8, 9] if q else list(range(1, 18)) + [31, 32, 33]}, 3),
        "dense": (dense, {"lengths": [1, 2, 3, 7, 8, 9, 16, 17, 33, 100, 1000, 1024, 1025, 4096, 5003] if q else list(range(1, 20)) + [31, 32, 33, 63, 64, 65, 100, 127, 128, 129, 255, 256, 257, 1000, 1023, 1024, 1025, 2047, 2048, 4095, 4096, 4097, 5003, 10007]}, 3),
    }
