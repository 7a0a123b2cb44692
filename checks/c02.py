"""Velocities and accelerations computed from positions are the stated finite
differences at the same times, also across periodic jumps."""
import itertools

import numpy as np

from .common import vb, series

BOUNDS = "3 to 9 times (33 in large series), 1 to 3 dimensions, every unit impulse, every sequence of up to 5 steps out of 7 step sizes around a periodic jump of 8 (threshold 7); series of up to 4097 times and 6 components with hundreds of jumps"

LAMB = {"0.5": 0.5, "0": 0.0, "1": 1.0, "0.25": 0.25}


def expect(x, dt, lamb, unwrap=None):
    """x (n,d) -> v, a at the inner times."""
    n = x.shape[0]
    d = np.diff(x, axis=0)
    if unwrap:
        jump, thr = unwrap
        d = np.where(d <= -thr, d + jump, np.where(d >= thr, d - jump, d))
    v = np.array([(lamb * d[i] + (1 - lamb) * d[i - 1]) / dt for i in range(1, n - 1)])
    a = np.array([(d[i] - d[i - 1]) / dt ** 2 for i in range(1, n - 1)])
    return v.reshape(n - 2, -1), a.reshape(n - 2, -1)


def frame(c, x, t0, dt, container):
    v = vb()
    time = t0 + dt * np.arange(len(x))
    if container == "dask":
        import dask.array as da

        return v.xframe(da.from_array(x, chunks=(3, x.shape[1])), time), time
    return v.xframe(x, time), time


def compare(c, res, x, time, dt, v=None, a=None):
    n = len(x)
    c.observe(res["x"].data if "x" in res else None)
    c.check(set(res.data_vars) == {"x", "v", "a"}, "columns", str(list(res.data_vars)))
    c.close(res["time"].data, time[1:-1], "times", rtol=0, atol=1e-12)
    c.check(res.attrs.get("dt") is not None, "dt", "the time step is lost")
    c.close(res.attrs["dt"], dt, "dt", rtol=1e-12, atol=0)
    for k, w in (("x", x[1:-1]), ("v", v), ("a", a)):
        c.check(res[k].dims == ("time", "dim_x"), "dims", "%s: %s" % (k, res[k].dims))
        c.close(np.asarray(res[k].data), w, k, rtol=1e-11, atol=1e-12)
    c.observe(np.asarray(res["v"].data), np.asarray(res["a"].data))


def stencil(c):
    vbm = vb()
    n = c.choose("length", c.params["lengths"])
    d = c.choose("dimension", [1, 2, 3])
    what = c.choose("positions", ["irregular"] + ["impulse %d" % i for i in range(n)] if n <= 9 else ["irregular"])
    dt = c.choose("dt", [1.0, 0.25, 3e-3])
    t0 = c.choose("first time", [0.0, 5.0])
    fn = c.choose("function", ["compute_va lamb=" + k for k in LAMB] + ["compute_va default", "compute_va_gjf", "compute_a", "compute_a_from_vel"])
    container = c.choose("container", ["numpy", "dask"])
    if what == "irregular":
        x = series(n, 4, d)
    else:
        x = np.zeros((n, d))
        x[int(what.split()[1]), (int(what.split()[1])) % d] = 1.5
    keep = x.copy()
    time = t0 + dt * np.arange(n)
    if fn.startswith("compute_va "):
        f, time = frame(c, x, t0, dt, container)
        kw = {} if fn.endswith("default") else {"lamb_finite_diff": LAMB[fn.split("=")[1]]}
        v, a = expect(x, dt, kw.get("lamb_finite_diff", 0.5))
        compare(c, vbm.compute_va(f, **kw), keep, time, dt, v, a)
    elif fn == "compute_va_gjf":
        f, time = frame(c, x, t0, dt, container)
        v, a = expect(x, dt, 0.0)
        compare(c, vbm.compute_va_gjf(f), keep, time, dt, v, a)
    else:
        vel = series(n, 9, d) if what == "irregular" else np.roll(keep, 1, axis=0)
        xv = vbm.xframe(x, time, v=vel)
        _, a = expect(x, dt, 0.5)
        if fn == "compute_a_from_vel":
            a = np.array([(vel[i + 1] - vel[i - 1]) / (2 * dt) for i in range(1, n - 1)])
            compare(c, vbm.compute_a_from_vel(xv), keep, time, dt, vel[1:-1], a)
        else:
            compare(c, vbm.compute_a(xv), keep, time, dt, vel[1:-1], a)
    c.check(np.array_equal(x, keep), "input modified")


STEPS = [1.0, -2.5, 7.0, -7.0, 7.25, -7.5, 6.5]  # exact, the threshold included


def jumps(c):
    """Every sequence of steps: small steps, and jumps through the boundary."""
    vbm = vb()
    n = c.params["steps"]
    fn = c.choose("function", ["compute_va", "compute_va_gjf"])
    d = c.choose("dimension", [1, 2])
    corr = c.choose("correct_jumps", [True, False])
    seq = [c.choose("step %d" % i, STEPS) for i in range(n)]
    other = seq[::-1]
    x = np.concatenate([[0.25], 0.25 + np.cumsum(seq)]).reshape(-1, 1)
    if d == 2:
        x = np.concatenate([x, np.concatenate([[-1.0], -1.0 + np.cumsum(other)]).reshape(-1, 1)], axis=1)
    dt = 0.5
    f, time = frame(c, x, 1.0, dt, "numpy")
    v, a = expect(x, dt, 0.5 if fn == "compute_va" else 0.0, (8.0, 7.0) if corr else None)
    r = getattr(vbm, fn)(f, correct_jumps=corr, jump=8.0, jump_thr=7.0)
    compare(c, r, x, time, dt, v, a)


def winding(c):
    """A trajectory wrapped on a circle gives the velocities of the unwrapped one."""
    vbm = vb()
    n = c.choose("length", [4, 9, 33])
    fn = c.choose("function", ["compute_va", "compute_va_gjf"])
    d = c.choose("dimension", [1, 2])
    period = c.choose("period", ["2pi", 1.0, 360.0])
    origin = c.choose("cell", [0.0, -0.5, 7.0])
    rate = c.choose("rate", [0.1, -0.07, 0.06])
    P = 2 * np.pi if period == "2pi" else period
    u = P * (rate * np.arange(n)[:, None] * np.array([1.0, -0.9])[:d] + 0.004 * series(n, 3, d))
    lo = origin * P if period != "2pi" else (0.0 if origin == 7.0 else origin * P)
    x = (u - lo) % P + lo
    dt = 0.125
    kw = {} if period == "2pi" else {"jump": P, "jump_thr": 0.75 * P}
    a = getattr(vbm, fn)(frame(c, x, 0.0, dt, "numpy")[0], correct_jumps=True, **kw)
    v, acc = expect(u, dt, 0.5 if fn == "compute_va" else 0.0)
    s = P / dt
    c.observe(a["v"].data)
    c.close(a["x"].data, x[1:-1], "positions", rtol=0, atol=0)
    c.close(a["v"].data, v, "unwrapped velocity", rtol=1e-10, atol=1e-10 * s)
    c.close(a["a"].data, acc, "unwrapped acceleration", rtol=1e-10, atol=1e-10 * s / dt)


def large(c):
    """Long series with many jumps in both directions."""
    vbm = vb()
    n = c.choose("length", [130, 1001, 4097])
    d = c.choose("dimension", [1, 6])
    fn = c.choose("function", ["compute_va", "compute_va_gjf", "compute_a", "compute_a_from_vel"])
    corr = c.choose("correct_jumps", [True, False])
    lamb = c.choose("lamb", [None, 0.0, 0.25])
    container = c.choose("container", ["numpy", "dask"])
    c.skip_if(fn in ("compute_a", "compute_a_from_vel") and (corr or lamb is not None or container == "dask"))
    c.skip_if(fn != "compute_va" and lamb is not None)
    c.skip_if(container == "dask" and n > 1001)
    dt = 0.125
    # steps of binary fractions, a jump at every seventh
    i, j = np.arange(n)[:, None], np.arange(d)[None, :]
    step = np.round(series(n, 3, d) * 1.5 * 64) / 64 + np.where((i + 2 * j) % 7 == 3, np.where((i // 7 + j) % 2 == 0, 8.0, -8.0), 0.0)
    x = np.cumsum(step, axis=0)
    keep = x.copy()
    time = 1.0 + dt * np.arange(n)
    if fn in ("compute_va", "compute_va_gjf"):
        if container == "dask":
            import dask.array as da

            f = vbm.xframe(da.from_array(x, chunks=(97, d)), time)
        else:
            f = vbm.xframe(x, time)
        kw = {"correct_jumps": True, "jump": 8.0, "jump_thr": 5.0} if corr else {}
        if lamb is not None:
            kw["lamb_finite_diff"] = lamb
        v, a = expect(x, dt, 0.0 if fn.endswith("gjf") else (0.5 if lamb is None else lamb), (8.0, 5.0) if corr else None)
        compare(c, getattr(vbm, fn)(f, **kw), keep, time, dt, v, a)
    else:
        vel = series(n, 9, d)
        _, a = expect(x, dt, 0.5)
        if fn == "compute_a_from_vel":
            a = (vel[2:] - vel[:-2]) / (2 * dt)
        compare(c, getattr(vbm, fn)(vbm.xframe(x, time, v=vel)), keep, time, dt, vel[1:-1], a)


def concat(c):
    import xarray as xr

    n = c.choose("length", [1, 2, 5, 9])
    d = c.choose("dimension", [1, 2, 3])
    dt = c.choose("dt", [1.0, 0.25])
    x, v, a = series(n, 1, d), series(n, 2, d), series(n, 3, d)
    ds = xr.Dataset({k: (["time", "dim_x"], w) for k, w in (("x", x), ("v", v), ("a", a))}, coords={"time": 2.0 + dt * np.arange(n)}, attrs={"dt": dt})
    r = vb().concat_underdamped(ds)
    c.observe(r["x"].transpose("time", "dim_x").data, r["v"].transpose("time", "dim_x").data)
    c.close(r["x"].transpose("time", "dim_x").data, np.concatenate([x, v], 1), "x of the phase space", rtol=0, atol=0)
    c.close(r["v"].transpose("time", "dim_x").data, np.concatenate([v, a], 1), "v of the phase space", rtol=0, atol=0)
    c.close(r.attrs["dt"], dt, "dt", rtol=0, atol=0)
    c.close(r["time"].data, 2.0 + dt * np.arange(n), "times", rtol=0, atol=0)


def harnesses(tier):
    q = tier == "quick"
    return {
        "stencil": (stencil, {"lengths": [3, 4, 5, 33] if q else [3, 4, 5, 6, 7, 8, 9, 33, 257]}, 3),
        "jumps": (jumps, {"steps": 3 if q else 5}, 4),
        "winding": (winding, {}, 2),
        "concat": (concat, {}, 1),
        "large": (large, {}, 2),
    }
