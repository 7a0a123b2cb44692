"""A saved model is restored completely, at every stage of the estimation, directly and
through a file; saveall writes what was computed under the chosen prefix and only there."""
import os

import numpy as np

from .common import MODELS, vb, make_xva, basis_specs, estimator, admissible, growth, METHODS
from . import large as L_
from .common import columns

BOUNDS = "all 6 models, 7 bases, every combination of stages (force: none, mean, zero; masses; correlations; every inversion method; kernel gram; GFPE), direct and netCDF, fitted and fresh bases, two generations of saving; saved files for 5 prefixes, all methods; models of 11 functions or 6 components with 300 kernel values; trajectories of integers"

FIELDS = ["force_coeff", "kernel", "gram_force", "gram_kernel", "eff_mass", "inv_mass_coeff", "P_range"]
PLAIN = ["dt", "trunc_ind", "L_obs", "dim_x", "dim_obs", "N_basis_elt", "N_basis_elt_force", "N_basis_elt_kernel"]


def same_field(c, name, a, b):
    if a is None or b is None:
        c.check(a is None and b is None, "restored: " + name, "%s instead of %s" % (b is not None, a is not None))
        return
    a, b = a.compute(), b.compute()
    c.check(tuple(b.dims) == tuple(a.dims), "dimensions of " + name, "%s instead of %s" % (b.dims, a.dims))
    c.close(b.values, a.values, "values of " + name, rtol=0, atol=0)
    if "time_kernel" in a.dims:
        c.close(b["time_kernel"].values, a["time_kernel"].values, "times of " + name, rtol=0, atol=0)


def same_model(c, m, m2):
    c.check(type(m2) is type(m), "class")
    for k in PLAIN:
        a, b = getattr(m, k), getattr(m2, k)
        c.check(a == b, "restored: " + k, "%s instead of %s" % (b, a))
    c.check(bool(m.rank_projection) == bool(m2.rank_projection), "restored: rank_projection")
    c.check(m.method == m2.method and (m.method is None or isinstance(m2.method, str)), "restored: method", "%r instead of %r" % (m2.method, m.method))
    for k in FIELDS:
        same_field(c, k, getattr(m, k), getattr(m2, k))


def same_behaviour(c, m, m2, ds, bname):
    X = np.asarray(ds["x"])[:9]
    # the same numbers in another memory layout: sums may be rounded differently
    big = 1.0 + sum(growth(getattr(m, k).values) for k in ("force_coeff", "kernel") if getattr(m, k) is not None)
    if m.force_coeff is not None:
        if m.L_obs != "dE":
            a = m.force_eval(X)
            c.close(m2.force_eval(X), a, "same force", rtol=1e-10, scale=big)
            if bname not in ("combined", "tensor") and m.dim_obs == m.dim_x:
                c.close(m2.pmf_eval(X), m.pmf_eval(X), "same free energy", rtol=1e-10, scale=big)
        if hasattr(m, "friction_force_eval"):
            c.close(m2.friction_force_eval(X), m.friction_force_eval(X), "same friction", rtol=1e-10, scale=big)
    if m.kernel is not None:
        c.close(np.asarray(m2.kernel_eval(X)), np.asarray(m.kernel_eval(X)), "same kernel", rtol=1e-10, scale=big)
        c.close(m2.laplace_transform_kernel()[1], m.laplace_transform_kernel()[1], "same Laplace transform", rtol=1e-10, scale=big)
        if not m.method.startswith("midpoint"):
            for a, b in zip(m.compute_noise(ds), m2.compute_noise(ds)):
                c.close(np.asarray(b), np.asarray(a), "same noise", rtol=1e-10, scale=big)
            for a, b in zip(m.compute_corrs_w_noise(ds), m2.compute_corrs_w_noise(ds)):
                c.close(np.asarray(b), np.asarray(a), "same projected correlations", rtol=1e-10, scale=big)


def through(how, ds, name):
    import xarray as xr

    if how == "direct":
        return ds
    ds.to_netcdf(name)
    return xr.load_dataset(name)


def roundtrip(c):
    model = c.choose("model", MODELS)
    bname = c.choose("basis", c.params["bases"])
    spec = basis_specs()[bname]
    d = c.choose("dimension", [1, 2])
    rm = c.choose("remove_const", [True, False])
    c.skip_if(not admissible(model, spec, d, rm) or (not rm and not spec.removable))
    force = c.choose("force", ["none", "mean", "zero"])
    extra = c.choose("masses and grams", ["none", "effective mass", "gram", "all"])
    stage = c.choose("stage", ["none", "correlations"] + c.params["methods"] + (["gfpe"] if model == "Pos_gle_overdamped" else []))
    c.skip_if(force == "none" and stage != "none")
    c.skip_if(force == "zero" and stage not in ("none", "rect"))
    how = c.choose("saved", ["direct", "netCDF"])
    again = c.choose("basis for loading", ["the fitted one", "a fresh one"])
    ds = make_xva(60, seed=4, d=d, t0=0.0, dt=0.25)
    T = 9
    est = estimator(model, spec.make(rm), ds, T, dt=0.25)
    m = est.model
    if extra in ("effective mass", "all"):
        est.compute_effective_mass()
    if extra == "all" and (model == "Pos_gle" or d == 1) and (rm or not model.startswith("Pos_gle_with") and model != "Pos_gle"):
        est.compute_pos_effective_mass()
    if extra in ("gram", "all"):
        est.compute_gram_force()
    if stage == "gfpe":
        est.to_gfpe()
    if force == "mean":
        est.compute_mean_force()
    elif force == "zero":
        est.set_zero_force()
    if stage not in ("none", "gfpe"):
        est.compute_corrs(**({"rank_tol": 1e-9} if bname == "bspline" else {}))
        if extra in ("gram", "all"):
            est.compute_gram_kernel()
        if stage != "correlations":
            est.compute_kernel(method=stage)
    if stage == "gfpe":
        est.compute_corrs()
        est.compute_kernel(method="rect")
    before = {k: None if getattr(m, k) is None else getattr(m, k).values.copy() for k in FIELDS}
    saved = m.save_model()
    c.observe(str(sorted(saved.data_vars)), m.kernel if m.kernel is not None else None)
    basis = m.basis if again == "the fitted one" else spec.make(rm)
    kw = {} if again == "the fitted one" else {"describe_data": est.describe_data()}
    m2 = type(m).load_model(basis, through(how, saved, "model.nc"), **kw)
    same_model(c, m, m2)
    same_behaviour(c, m, m2, est.xva_list[0], bname)
    for k in FIELDS:  # saving and loading leave the first model alone
        a = getattr(m, k)
        c.check((a is None) == (before[k] is None) and (a is None or np.array_equal(a.values, before[k], equal_nan=True)), "the saved model is left alone: " + k)
    # a restored model can be saved again
    m3 = type(m).load_model(m2.basis, through(how, m2.save_model(), "again.nc"))
    same_model(c, m, m3)


def large(c):
    """Many functions, components and kernel values."""
    model, spec, dss, d = L_.instance(c, bases=("fourier 5", "linear 6"), data=("long", "integers"))
    T = c.choose("values", [70, 300])
    how = c.choose("saved", ["direct", "netCDF"])
    method = c.choose("method", ["second_kind_rect", "trapz"])
    est = L_.build(model, spec, dss, T)
    est.compute_mean_force()
    est.compute_effective_mass()
    est.compute_corrs()
    est.compute_kernel(method=method)
    m = est.model
    c.observe(np.asarray(m.force_coeff))
    m2 = type(m).load_model(m.basis, through(how, m.save_model(), "model.nc"))
    same_model(c, m, m2)
    c.close(m2.force_eval(columns(dss[0])[0]), m.force_eval(columns(dss[0])[0]), "same force", rtol=1e-10)
    c.close(np.asarray(m2.kernel_eval(columns(dss[0])[0][:5])), np.asarray(m.kernel_eval(columns(dss[0])[0][:5])), "same kernel", rtol=1e-10)


def files(c):
    import xarray as xr

    model = c.choose("model", MODELS)
    rm = c.choose("remove_const", [True, False])
    prefix = c.choose("prefix", ["", "run1_", "sub/", "sub/b-", "default"])
    saveall = c.choose("saveall", [True, False, "default"])
    method = c.choose("method", [None] + METHODS)
    second = c.choose("second order", [True, False])
    c.skip_if(not second and method is not None and method.startswith("second"))
    spec = basis_specs()["poly1"]
    c.skip_if(not admissible(model, spec, 1, rm))
    os.mkdir("sub")
    kw = {}
    if prefix != "default":
        kw["prefix"] = prefix
    v = vb()
    if saveall != "default":
        kw["saveall"] = saveall
    est = v.Estimator_gle(make_xva(40, seed=4), getattr(v, model), spec.make(rm), trunc=4.51, verbose=False, **kw)
    est.compute_mean_force()
    est.compute_effective_mass()

    def listing():
        return sorted(os.path.join(r, f)[2:] for r, _, fs in os.walk(".") for f in fs)

    c.check(listing() == [], "nothing is written before correlations", str(listing()))
    pre = "" if prefix == "default" else prefix
    on = saveall in (True, "default")
    est.compute_corrs(second_order_method=second)
    want = [pre + "corrs.nc"] if on else []
    c.check(listing() == want, "files after compute_corrs", str(listing()))
    if method is not None:
        est.compute_kernel(method=method)
        want = sorted(want + ([pre + "kernel.nc"] if on else []))
        c.check(listing() == want, "files after compute_kernel", str(listing()))
    c.observe(str(listing()))
    if on:
        with xr.open_dataset(pre + "corrs.nc") as f:
            c.close(f["bkbk"].values, est.bkbkcorrw.values, "saved correlation of the basis", rtol=0, atol=0)
            c.close(f["bkdx"].values, est.bkdxcorrw.values, "saved correlation with the observable", rtol=0, atol=0)
            c.close(f["time_trunc"].values, np.arange(est.bkbkcorrw.shape[-1]) * 0.5, "saved times", rtol=1e-12)
            if second:
                c.close(f["dotbkbk"].values, est.dotbkbkcorrw.values, "saved derivative correlation of the basis", rtol=0, atol=0)
                c.close(f["dotbkdx"].values, est.dotbkdxcorrw.values, "saved derivative correlation", rtol=0, atol=0)
        if method is not None:
            with xr.open_dataset(pre + "kernel.nc") as f:
                c.close(f["kernel"].values, est.model.kernel.values, "saved kernel", rtol=0, atol=0)
                c.close(f["time_kernel"].values, est.model.kernel["time_kernel"].values, "saved times of the kernel", rtol=0, atol=0)
        # a second computation replaces the files
        est.compute_kernel(method="rect")
        with xr.open_dataset(pre + "kernel.nc") as f:
            c.close(f["kernel"].values, est.model.kernel.values, "saved kernel of the second run", rtol=0, atol=0)


def harnesses(tier):
    q = tier == "quick"
    return {
        "round trip": (roundtrip, {"bases": ["linear", "poly3", "bspline"] if q else ["linear", "linear_c", "poly1", "poly3", "fourier1", "bspline", "combined", "tensor"], "methods": ["rect", "midpoint", "trapz", "midpoint_w_richardson"] if q else METHODS}, 5),
        "files": (files, {}, 3),
        "large": (large, {}, 2),
    }
