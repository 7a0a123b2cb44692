"""Instances much larger than those of the exhaustive harnesses: long trajectories, many
trajectories, many basis functions, many components, data that are integers. They are what a threshold in the
code (a number of samples, of functions, of trajectories) would separate from the rest."""
import numpy as np

from .common import BasisSpec, MODELS, RefEstimate, DEFAULT_OBS, basis_specs, bf, columns, estimator, is_removed, make_xva, ref_bspline, ref_fourier, ref_linear

DT = 0.5


def specs():
    b = bf()
    pool = lambda xs: np.concatenate(xs, 0)
    out = {
        "fourier 5": BasisSpec("fourier 5", lambda rm: b.FourierFeatures(order=5, freq=1.7, remove_const=rm), lambda xs: ref_fourier(xs[0].shape[1], 5, 1.7), True, (1,)),
        "bspline 12": BasisSpec("bspline 12", lambda rm: b.BSplineFeatures(12, k=3, remove_const=rm), lambda xs: ref_bspline(pool(xs).min(), pool(xs).max(), 12, 3), True, (1,)),
        "linear 1": basis_specs()["linear"],
        "linear 6": basis_specs()["linear_c"],
        "linear 12": basis_specs()["linear"],
    }
    return out


DIMS = {"linear 6": 6, "linear 12": 12}


def lengths(data):
    return {"long": [3001], "many": [31 + 7 * i for i in range(13)], "long and short": [1300, 40, 2050], "thirty": [24 + (5 * i) % 11 for i in range(30)], "integers": [301, 42, 77], "very long": [40000, 66000, 31]}[data]


def rounded(ds):
    """The same on a lattice: positions, velocities and all other columns are integers."""
    for k in ds.data_vars:
        ds = ds.assign({k: (ds[k].dims, np.rint(3 * ds[k].values).astype(np.int64))})
    return ds


def instance(c, models=MODELS, bases=("linear 1", "fourier 5", "linear 6"), data=("long", "many")):
    """(model, spec, datasets, d) of the choices made."""
    model = c.choose("model", models)
    bname = c.choose("basis", list(bases))
    kind = c.choose("data", list(data))
    spec = specs()[bname]
    d = DIMS.get(bname, 1)
    lens = lengths(kind)
    c.skip_if(kind == "very long" and bname != "linear 1")
    dss = [make_xva(n, seed=2 + 3 * i, d=d, dt=DT, extra=("f",)) for i, n in enumerate(lens)]
    if kind == "integers":
        dss = [rounded(ds) for ds in dss]
    return model, spec, dss, d


def truncation(dss):
    return min(150, min(ds.sizes["time"] for ds in dss) - 1)


def reference(model, spec, dss, T, force=None, L_obs=None):
    tr = [columns(ds) for ds in dss]
    ref = spec.ref([t[0] for t in tr])
    obs = [np.asarray(ds[L_obs or DEFAULT_OBS[model]].data) for ds in dss]
    return RefEstimate(model, ref, tr, obs, T, is_removed(model, spec, True), force)


def build(model, spec, dss, T, **kw):
    return estimator(model, spec.make(True), dss, T, dt=DT, **kw)
