"""Loading a trajectory keeps positions, times and the time step."""
import numpy as np

from .common import vb, series

BOUNDS = "2 to 8 times (17 in the thorough tier), 1 to 3 dimensions, every container, every combination of velocity, acceleration and time options; 16 time steps times 7 roundings times 5 deviations for the rounding of the times; up to 30011 times and 40 components"


def load(c):
    v = vb()
    n = c.choose("length", c.params["lengths"])
    shape = c.choose("shape", ["1d", "(n,1)", "(n,2)", "(n,3)"])
    container = c.choose("container", ["float64", "int", "float32", "fortran", "strided", "dask", "list", "read-only"])
    t0 = c.choose("first time", [0.0, 3.0, -2.5])
    step = c.choose("step", [1.0, 0.25, 0.0125])
    extra = c.choose("columns", ["x", "x,v", "x,v,a"])
    fix = c.choose("time fixing", ["none", "round", "coarse", "given dt", "unused dt"])
    given = c.choose("given", [0.3, 0.00123, 3.7e-6, 1 / 3, 1234.5]) if fix == "given dt" else 0.3
    d = {"1d": 1, "(n,1)": 1, "(n,2)": 2, "(n,3)": 3}[shape]
    base = series(n, 2, d)
    if container == "int":
        base = np.round(base * 4).astype(int)
    if container == "float32":
        base = base.astype(np.float32)
    vel, acc = series(n, 3, d), series(n, 4, d)
    if shape == "1d":
        base, vel, acc = base[:, 0], vel[:, 0], acc[:, 0]
    want = np.array(base, copy=True).reshape(n, d)
    x = base
    if container == "fortran":
        x = np.asfortranarray(base)
    elif container == "strided":
        big = np.zeros((2 * n,) + base.shape[1:])
        big[::2] = base
        x = big[::2]
    elif container == "dask":
        import dask.array as da

        x = da.from_array(base, chunks=(max(1, n // 2),) + base.shape[1:])
    elif container == "list":
        x = base.tolist()
    elif container == "read-only":
        x = base.copy()
        x.setflags(write=False)
    time = t0 + step * np.arange(n)
    if fix in ("round", "coarse", "given dt"):
        time = time + 0.2e-5 * np.sin(np.arange(n))  # times as read from a file
    keep_t, keep_v, keep_a = time.copy(), vel.copy(), acc.copy()
    kw = {}
    if extra != "x":
        kw["v"] = vel
    if extra == "x,v,a":
        kw["a"] = acc
    if fix == "round":
        kw["fix_time"] = True
        dt = round((time[1] - time[0]) / 1e-4) * 1e-4
    elif fix == "coarse":
        kw.update(fix_time=True, round_time=0.0125)
        dt = round((time[1] - time[0]) / 0.0125) * 0.0125
    elif fix == "given dt":
        kw.update(fix_time=True, dt=given)
        dt = given
    elif fix == "unused dt":
        kw.update(dt=0.3)  # only used together with fix_time
        dt = time[1] - time[0]
    else:
        dt = time[1] - time[0]
    tw = np.arange(n) * dt if fix in ("round", "coarse", "given dt") else keep_t
    ds = v.xframe(x, time, **kw)
    c.observe(ds["x"].data, ds["time"].data, ds.attrs["dt"])
    names = ["x"] + (["v"] if extra != "x" else []) + (["a"] if extra == "x,v,a" else [])
    c.check(set(ds.data_vars) == set(names), "columns", "columns %s, expected %s" % (list(ds.data_vars), names))
    for k, w in zip(names, (want, vel, acc)):
        c.check(ds[k].dims == ("time", "dim_x"), "dims", "%s has dimensions %s" % (k, ds[k].dims))
        c.close(np.asarray(ds[k].data), np.asarray(w).reshape(n, d), "values of " + k, rtol=0, atol=0)
    c.close(ds["time"].data, tw, "times", rtol=1e-12, atol=1e-12)
    c.check("dt" in ds.attrs, "dt", "no time step")
    c.close(ds.attrs["dt"], dt, "dt", rtol=1e-12, atol=0)
    c.check(np.array_equal(time, keep_t) and np.array_equal(vel, keep_v) and np.array_equal(acc, keep_a) and np.array_equal(np.asarray(x).reshape(n, d), want), "input modified")


def large(c):
    """Long and wide trajectories."""
    v = vb()
    n, d = c.choose("size", [(257, 2), (1000, 1), (1025, 12), (4099, 3), (50, 40), (30011, 1)])
    container = c.choose("container", ["float64", "int", "float32", "fortran", "strided", "dask"])
    fix = c.choose("time fixing", ["none", "round", "given dt"])
    extra = c.choose("columns", ["x", "x,v", "x,v,a"])
    t0 = c.choose("first time", [0.0, 1000.25])
    base = series(n, 2, d)
    if container == "int":
        base = np.round(base * 4).astype(int)
    elif container == "float32":
        base = base.astype(np.float32)
    want = np.array(base, copy=True)
    x = base
    if container == "fortran":
        x = np.asfortranarray(base)
    elif container == "strided":
        big = np.zeros((2 * n, d))
        big[::2] = base
        x = big[::2]
    elif container == "dask":
        import dask.array as da

        x = da.from_array(base, chunks=(max(1, n // 7), d))
    dt = 0.0125
    time = t0 + dt * np.arange(n)
    kw = {}
    if extra != "x":
        kw["v"] = series(n, 3, d)
    if extra == "x,v,a":
        kw["a"] = series(n, 4, d)
    cols = {"x": want, **{k: w.copy() for k, w in kw.items()}}
    keep = time.copy()
    if fix == "round":
        kw["fix_time"] = True
        dt = round((time[1] - time[0]) / 1e-4) * 1e-4
    elif fix == "given dt":
        kw.update(fix_time=True, dt=0.3)
        dt = 0.3
    else:
        dt = time[1] - time[0]
    ds = v.xframe(x, time, **kw)
    c.observe(ds["x"].data[::101], ds.attrs["dt"])
    c.check(set(ds.data_vars) == set(cols), "columns", str(list(ds.data_vars)))
    for k, w in cols.items():
        c.check(ds[k].dims == ("time", "dim_x"), "dims", "%s has dimensions %s" % (k, ds[k].dims))
        c.close(np.asarray(ds[k].data), w, "values of " + k, rtol=0, atol=0)
    c.close(ds["time"].data, np.arange(n) * dt if fix != "none" else keep, "times", rtol=1e-12, atol=1e-12)
    c.close(ds.attrs["dt"], dt, "dt", rtol=1e-12, atol=0)
    c.check(np.array_equal(time, keep) and np.array_equal(np.asarray(x), want), "input modified")


def rounding(c):
    """With fix_time the time step is the nearest multiple of the rounding, for steps and
    roundings whose quotients fall on both sides of an integer in floating point."""
    v = vb()
    rnd = c.choose("rounding", [None, 1e-3, 1e-2, 0.0125, 1e-5, 1e-6, 0.25])
    r = 1e-4 if rnd is None else rnd
    k = c.choose("time step over rounding", [1, 2, 3, 6, 7, 10, 29, 57, 113, 700, 2900, 2999, 3000, 5700, 7000, 11000])
    off = c.choose("written", [0.0, -0.4, -0.01, 0.01, 0.4])
    t0 = c.choose("first time", [0.0, 2.0, -3.1])
    n = c.choose("length", [2, 3, 11])
    time = t0 + np.arange(n) * ((k + off) * r)
    q = (time[1] - time[0]) / r
    c.skip_if(abs(abs(q - np.floor(q)) - 0.5) < 0.05)
    dt = round(q) * r
    x = series(n, 4, 1)
    kw = {} if rnd is None else {"round_time": rnd}
    ds = v.xframe(x, time, fix_time=True, **kw)
    c.observe(ds["time"].data, ds.attrs["dt"])
    c.close(ds.attrs["dt"], dt, "dt", rtol=1e-11, atol=0)
    c.close(ds["time"].data, np.arange(n) * dt, "times", rtol=1e-11, atol=0)
    c.check(round(q) == k, "oracle")


def harnesses(tier):
    return {"rounding": (rounding, {}, 2), "xframe": (load, {"lengths": [2, 3, 5, 8] if tier == "quick" else [2, 3, 4, 5, 6, 7, 8, 9, 17, 64]}, 3), "large": (large, {}, 2)}
