"""Kernels converge to the true kernel when the time step goes to zero, at the order of
the method, for every member of a family of exactly solvable Volterra equations."""
import numpy as np

from .common import METHODS, vb, make_xva, basis_specs, estimator, growth

BOUNDS = "correlation functions and kernels that are sums of up to two exponentials (real or oscillating) with every combination of 4 correlations x 5 kernels, 1 and 2 coupled basis functions, time steps 1/8 to 1/256 (1/512 thorough) over a time of 2"

# (coefficient, rate): f(t) = Re sum c exp(r t)
CORRS = {"exponential": [(1.0, -1.0)], "oscillating": [(1.0, -0.3 + 1.7j)], "two": [(0.7, -0.5), (0.3, -2.0)], "cosine": [(1.0, 1.2j)]}
KERNELS = {"exponential": [(2.0, -1.5)], "oscillating": [(1.0, -0.4 + 2.0j)], "two": [(1.0, -0.7), (-2.2, -2.6)], "constant": [(0.8, 0.0)], "phase": [(1.0j, -0.2 + 1.1j)]}
ORDER = {"rect": 1, "rectangular": 1, "midpoint": 2, "trapz": 2, "second_kind_rect": 1, "second_kind_trapz": 2, "midpoint_w_richardson": 3}


def as_complex(f):
    """Re c e^{rt} = (c e^{rt} + conj)/2"""
    out = []
    for co, r in f:
        co, r = complex(co), complex(r)
        out += [(co / 2, r), (co.conjugate() / 2, r.conjugate())]
    return out


def value(f, t, der=0):
    return sum((c * r ** der * np.exp(r * t) for c, r in as_complex(f)), 0.0 * t).real


def convolution(f, g, t, der=0):
    """int_0^t f(t-s) g(s) ds and its derivative."""
    out = 0.0 * t
    for a, r in as_complex(f):
        for b, q in as_complex(g):
            if abs(r - q) < 1e-9:
                w = t * np.exp(r * t) if der == 0 else (1 + r * t) * np.exp(r * t)
            else:
                w = (np.exp(r * t) - np.exp(q * t)) / (r - q) if der == 0 else (r * np.exp(r * t) - q * np.exp(q * t)) / (r - q)
            out = out + (a * b * w).real
    return out


def solve(method, dt, tmax, B, K, M):
    """Kernel of the code for matrices B(t) = M * scalar family etc."""
    import xarray as xr

    T = int(round(tmax / dt)) + 1
    t = np.arange(T) * dt
    nb, no = len(B), len(K[0])
    bk = np.array([[value(B[i][j], t) * M[i][j] for j in range(nb)] for i in range(nb)])
    dbk = np.array([[-value(B[i][j], t, 1) * M[i][j] for j in range(nb)] for i in range(nb)])
    dx = np.array([[-sum(M[i][k] * convolution(B[i][k], K[k][l], t) for k in range(nb)) for l in range(no)] for i in range(nb)])
    ddx = np.array([[sum(M[i][k] * convolution(B[i][k], K[k][l], t, 1) for k in range(nb)) for l in range(no)] for i in range(nb)])
    est = estimator("Pos_gle", basis_specs()["linear"].make(True), make_xva(max(30, T + 2), d=1, dt=dt), T, dt=dt)
    est.bkbkcorrw = xr.DataArray(bk, dims=("dim_basis'", "dim_basis", "time_trunc"))
    est.dotbkbkcorrw = xr.DataArray(dbk, dims=("dim_basis'", "dim_basis", "time_trunc"))
    est.bkdxcorrw = xr.DataArray(dx, dims=("dim_basis", "dim_o", "time_trunc"))
    est.dotbkdxcorrw = xr.DataArray(ddx, dims=("dim_basis", "dim_o", "time_trunc"))
    est.compute_kernel(method=method)
    k = est.model.kernel
    tk = k["time_kernel"].values
    want = np.array([[value(K[i][l], tk) for l in range(no)] for i in range(nb)]).transpose(2, 0, 1)
    got = k.values
    if method in ("rect", "rectangular"):
        got, want, tk = got[:-1], want[:-1], tk[:-1]
    return tk, got, want


def converge(c):
    method = c.choose("method", METHODS)
    bn = c.choose("correlation", list(CORRS))
    kn = c.choose("kernel", list(KERNELS))
    size = c.choose("size", ["1x1", "2x2", "2x1"])
    B1, K1 = CORRS[bn], KERNELS[kn]
    names = list(KERNELS)
    if size == "1x1":
        B, K, M = [[B1]], [[K1]], [[1.0]]
    else:
        other = CORRS["exponential" if bn != "exponential" else "two"]
        B = [[B1, other], [other, B1]]
        M = [[1.0, 0.25], [-0.2, 1.3]]
        K2 = [[KERNELS[names[(names.index(kn) + i + 2 * j) % 5]] for j in range(2)] for i in range(2)]
        K2[0][0] = K1
        K = K2 if size == "2x2" else [[K2[0][0]], [K2[1][0]]]
    mid = method.startswith("midpoint")
    errs, first = [], []
    for k in c.params["ladder"]:
        dt = 1.0 / k
        tk, got, want = solve(method, dt, 2.0, B, K, M)
        c.check(got.shape == want.shape, "shape")
        e = np.abs(got - want).max(axis=(1, 2)) / max(1e-12, growth(want))
        first.append(float(e[0]))
        errs.append(float(e[1:].max() if mid else e.max()))  # the half cell at the start is one-sided
        c.op()
    c.observe(np.array(errs))
    span = np.log2(c.params["ladder"][-1] / c.params["ladder"][0])
    for name, e, p in (("kernel", errs, ORDER[method]), ("first value", first, 1)):
        c.check(e[-1] < c.params["final"][p], "accuracy", "%s: relative error %.3g at the smallest time step" % (name, e[-1]), errors=np.array(e))
        good = [(x, y) for x, y in zip(e, c.params["ladder"]) if x > 1e-8]
        if len(good) >= 2:
            rate = np.log2(good[0][0] / good[-1][0]) / np.log2(good[-1][1] / good[0][1])
            c.check(rate > p - 0.3, "order of convergence", "%s: %.2f, expected %d" % (name, rate, p), errors=np.array(e))


def harnesses(tier):
    q = tier == "quick"
    return {"converge": (converge, {"ladder": [32, 64, 128] if q else [32, 64, 128, 256, 512], "final": {1: 0.12, 2: 0.02, 3: 2e-4}}, 2)}
