"""Noise generators are linear maps of white noise; their covariance, obtained exactly from
the responses to all unit impulses, is the requested one, at all times."""
import numpy as np

from .common import vb, growth
from .c24 import integ

BOUNDS = "every unit impulse of the white noise; stationary generator: 7 correlation functions of 2 to 9 values, 1 to 3 components, 6 sizes; Karhunen-Loeve: every covariance matrix of a grid (stationary, one-sided, modulated, singular), every size, in 3 units; kernels of 101 values and covariances of 80 times"
ASSUMPTIONS = "correlation functions of positive spectrum; the convolution square root has 2M-1 values, so that the covariance is the requested one up to its periodic images at distance 2M-1, which is checked exactly"


def responses(make, size, d):
    """(size, d, components drawn, impulses): the response to every unit impulse."""
    lens = []

    def probe(size=None):
        lens.append(int(np.prod(size)))
        return np.zeros(size)

    shape = np.asarray(make(probe)(size)).shape
    out = []
    for call, L in enumerate(lens):
        for k in range(L):
            count = [0]

            def rng(size=None):
                w = np.zeros(int(np.prod(size)))
                if count[0] == call:
                    w[k] = 1.0
                count[0] += 1
                return w.reshape(size)

            out.append(np.asarray(make(rng)(size)))
    return np.array(out), lens


KERNELS = {
    "white": lambda m: np.eye(1, m)[0] * 2.0,
    "exponential": lambda m: np.exp(-0.9 * np.arange(m)),
    "slow": lambda m: np.exp(-0.4 * np.arange(m)),
    "oscillating": lambda m: np.exp(-0.8 * np.arange(m)) * np.cos(0.7 * np.arange(m)),
    "triangle": lambda m: np.maximum(0.0, 1 - np.arange(m) / 2.3) + np.eye(1, m)[0] * 0.5,
    "neighbours": lambda m: np.where(np.arange(m) == 1, -0.3, np.eye(1, m)[0]),
    "gaussian": lambda m: np.exp(-0.7 * np.arange(m) ** 2) + np.eye(1, m)[0] * 0.2,
}


def stationary(c):
    g = integ()
    name = c.choose("correlation", list(KERNELS))
    M = c.choose("values", c.params["values"])
    d = c.choose("components", [1, 2, 3])
    size = c.choose("size", c.params["sizes"])
    dt = c.choose("time step", [0.5, 2.0])
    other = c.choose("other components", [None] + list(KERNELS) if d > 1 else [None])
    amp = [1.0, 3.0, 0.25]
    ker = np.zeros((M, d, d))
    for i in range(d):
        one = KERNELS[name if i == 0 or other is None else other](M)
        if other is not None:
            amp[i] = 1.0
            one = one / one[0]  # Same variance
        ker[:, i, i] = amp[i] * one
        c.skip_if(np.fft.fft(np.concatenate([one, one[:0:-1]])).real.min() < 1e-3)
    N = 2 * M - 1
    keep = ker.copy()
    t = np.arange(M) * dt
    make = lambda rng: g.ColoredNoiseGenerator(ker, t, rng=rng).generate
    H, lens = responses(make, size, d)
    c.observe(H.sum(0))
    c.check(H.shape[1:] == (size, d), "shape of the noise", str(H.shape))
    C = np.einsum("kia,kjb->iajb", H, H)
    for i in range(size):
        for a in range(d):
            for b in range(d):
                if a != b:
                    c.close(C[i, a, :, b], np.zeros(size), "components are independent", rtol=0, atol=1e-12)
        for j in range(size):
            for a in range(d):
                lag = abs(i - j)
                c.close(C[i, a, j, a], C[0, a, lag, a], "stationary", rtol=0, atol=1e-9 * amp[a])
    # covariance plus its periodic image: needs the covariance at lags 0 .. 2M-2
    Hl, _ = responses(make, N, d)
    Cl = np.einsum("ka,kja->aj", Hl[:, 0, :], Hl)
    for a in range(d):
        for lag in range(M):
            img = Cl[a, N - lag] if 0 < lag else 0.0
            c.close(Cl[a, lag] + img, ker[lag, a, a], "covariance", rtol=0, atol=1e-8 * amp[a], msg="covariance at lag %d of component %d" % (lag, a))
        c.close(C[0, a, : min(size, N), a], Cl[a, : min(size, N)], "same for all sizes", rtol=0, atol=1e-9 * amp[a])
        if size > N:
            c.close(C[0, a, N:, a], np.zeros(size - N), "uncorrelated beyond the kernel", rtol=0, atol=1e-9 * amp[a])
    c.check(np.array_equal(ker, keep), "correlation function is left alone")
    # linear: any white noise is the sum of impulses
    w = [np.cos(1.7 * np.arange(L) + q) for q, L in enumerate(lens)]
    it = iter(list(w))
    got = make(lambda size=None: next(it).reshape(size))(size)
    c.close(np.asarray(got), np.tensordot(np.concatenate(w), H, 1), "linear in the white noise", rtol=1e-9)


def matrices(name, n):
    g = integ()
    K = g.KarhunenLoeveNoiseGenerator
    i, j = np.indices((n, n))
    if name == "stationary":
        return np.exp(-0.5 * abs(i - j))
    if name == "modulated":
        return np.exp(-0.5 * abs(i - j)) * (1 + 0.5 * np.cos(i)) * (1 + 0.5 * np.cos(j))
    if name == "brownian":
        return np.minimum(i, j) + 1.0
    if name == "rank one":
        return np.outer(np.cos(np.arange(n)), np.cos(np.arange(n)))
    if name == "diagonal":
        return np.diag(1.0 + np.arange(n))
    return np.zeros((n, n))


def karhunen(c):
    g = integ()
    name = c.choose("covariance", ["stationary", "modulated", "brownian", "rank one", "diagonal", "zero"])
    n = c.choose("times", c.params["times"])
    size = c.choose("size", [None] + list(range(1, n + 3)))
    dt = c.choose("time step", [0.5, 2.0])
    unit = c.choose("unit", [1.0, 1e-12, 1e12])
    A = matrices(name, n) * unit
    keep = A.copy()
    make = lambda rng: (lambda s: g.KarhunenLoeveNoiseGenerator(A, dt, rng=rng).generate(*(() if s is None else (s,))))
    if size is not None and size > n:
        try:
            make(lambda size=None: np.zeros(size))(size)
        except ValueError as e:
            c.observe(str(e))
        else:
            c.check(False, "longer noise than the covariance is refused")
        return
    H, lens = responses(make, size, 1)
    m = n if size is None else size
    c.check(H.shape[1:] == (m,), "shape", str(H.shape))
    c.observe(H)
    c.close(H.T @ H, A[:m, :m], "covariance", rtol=1e-9, atol=1e-9 * unit, scale=unit * n)
    c.check(np.array_equal(A, keep), "covariance is left alone")


def large(c):
    """Kernels of up to a hundred values."""
    g = integ()
    name = c.choose("correlation", ["exponential", "slow", "oscillating", "gaussian"])
    M = c.choose("values", [33, 64, 101])
    d = c.choose("components", [1, 3])
    size = c.choose("size", [300, 1000])
    c.skip_if(d == 3 and M > 64)
    ker = np.zeros((M, d, d))
    for i in range(d):
        ker[:, i, i] = (1.0 + i) * KERNELS[name](M)
    t = np.arange(M) * 0.5
    N = 2 * M - 1
    make = lambda rng: g.ColoredNoiseGenerator(ker, t, rng=rng).generate
    # the generator is linear and stationary (harness above): its first value only
    H, lens = responses(make, N, d)
    Cl = np.einsum("ka,kja->aj", H[:, 0, :], H)
    c.observe(Cl)
    for a in range(d):
        for lag in range(M):
            img = Cl[a, N - lag] if 0 < lag else 0.0
            c.close(Cl[a, lag] + img, ker[lag, a, a], "covariance", rtol=0, atol=1e-8 * (1 + a), msg="covariance at lag %d of component %d" % (lag, a))
    # a longer noise is the filter moved along the white noise
    count = [0]
    lens2 = []

    def probe(size=None):
        lens2.append(int(np.prod(size)))
        return np.zeros(size)

    make(probe)(size)
    w = [np.cos(1.7 * np.arange(L) + 0.3 * np.arange(L) ** 1.5) for L in lens2]
    it = iter(list(w))
    got = np.asarray(make(lambda size=None: next(it).reshape(size))(size))
    c.check(got.shape == (size, d), "shape of the noise", str(got.shape))
    for s in (0, 1, size // 2, size - N):
        short = iter([np.asarray(x).reshape(-1, d)[s : s + lens[0] // d].ravel() for x in w] if len(w) == 1 and lens2[0] % d == 0 and lens2[0] // d == size + lens[0] // d - N else [])
        try:
            part = make(lambda size=None: next(short).reshape(size))(N)
        except (StopIteration, ValueError):
            break  # drawn in another way: decided by the covariances above
        ok = np.allclose(part, got[s : s + N], rtol=0, atol=1e-9)
        if not ok and s == 0:
            break
        c.op()
        c.check(ok, "same filter at all times", "at %d" % s)


def large_karhunen(c):
    g = integ()
    name = c.choose("covariance", ["stationary", "modulated", "brownian"])
    n = c.choose("times", [30, 80])
    size = c.choose("size", [None, 17])
    A = matrices(name, n)
    make = lambda rng: (lambda s: g.KarhunenLoeveNoiseGenerator(A, 0.5, rng=rng).generate(*(() if s is None else (s,))))
    H, lens = responses(make, size, 1)
    m = n if size is None else size
    c.observe(H[::7])
    c.close(H.T @ H, A[:m, :m], "covariance", rtol=1e-9, atol=1e-8)


def toeplitz(c):
    g = integ()
    n = c.choose("values", [1, 2, 3, 5, 8])
    both = c.choose("backward kernel", [False, True])
    K = np.cos(1 + np.arange(n))
    B = np.sin(2 + np.arange(n - 1)) if both else None
    keep = K.copy()
    A = g.KarhunenLoeveNoiseGenerator.generate_stationary_covariancematrix(K, B) if both else g.KarhunenLoeveNoiseGenerator.generate_stationary_covariancematrix(K)
    want = np.zeros((n, n))
    for i in range(n):
        for j in range(n):
            want[i, j] = K[i - j] if i >= j else (B[n - 1 - (j - i)] if both else K[j - i])
    c.observe(A)
    c.close(A, want, "stationary covariance matrix", rtol=0, atol=0)
    c.check(np.array_equal(K, keep), "kernel is left alone")


def harnesses(tier):
    q = tier == "quick"
    return {
        "stationary": (stationary, {"values": [2, 3, 5] if q else [2, 3, 4, 5, 7, 9], "sizes": [1, 2, 6, 11] if q else [1, 2, 3, 6, 11, 20]}, 3),
        "Karhunen-Loeve": (karhunen, {"times": [1, 2, 5] if q else [1, 2, 3, 5, 9]}, 2),
        "covariance matrix": (toeplitz, {}, 1),
        "large": (large, {}, 2),
        "large Karhunen-Loeve": (large_karhunen, {}, 1),
    }
