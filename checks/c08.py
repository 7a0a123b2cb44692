"""The mean force is the orthogonal projection of the observable on the force basis."""
import numpy as np

from .common import MODELS, NEEDS_A, DEFAULT_OBS, vb, make_xva, basis_specs, estimator, reference, admissible, columns, cond, growth, ref_vectors
from . import large as L_

BOUNDS = "all 6 models, 8 bases, with and without the constant, 1 to 3 dimensions, 1 and 2 trajectories, up to 200 times, 4 choices of the observable; columns of the observable whose sizes differ by up to 300 orders of magnitude; components and functions of the basis whose sizes differ by up to 12 orders of magnitude, on and off the origin; 3001 and 66000 times, 13 and 30 trajectories, up to 12 functions and 12 components; trajectories of integers"

EXTRA = ["v", "a", "f", "g2"]


def add_obs(ds, d, seed):
    from .common import series

    n = ds.sizes["time"]
    ds = ds.assign({"f": (["time", "dim_x"], series(n, seed + 31, d) + 0.5)})
    return ds.assign({"g2": (["time", "dim_g"], series(n, seed + 41, 3))})


def mean_force(c):
    model = c.choose("model", MODELS)
    bname = c.choose("basis", list(basis_specs()))
    d = c.choose("dimension", [1, 2, 3])
    rm = c.choose("remove_const", [True, False])
    obs = c.choose("observable", ["default"] + EXTRA)
    lens = c.choose("lengths", c.params["lengths"])
    spec = basis_specs()[bname]
    c.skip_if(not admissible(model, spec, d, rm))
    c.skip_if(not rm and not spec.removable)
    dss = [add_obs(make_xva(n, seed=3 * i + 2, d=d), d, i) for i, n in enumerate(lens)]
    L = None if obs == "default" else obs
    if obs == "default":
        c.check(DEFAULT_OBS[model] == getattr(vb(), model).set_of_obs[-1], "default observable")
    kw = {} if L is None else {"L_obs": L}
    est = estimator(model, spec.make(rm), dss if len(dss) > 1 else dss[0], 4, **kw)
    m = est.compute_mean_force()
    c.check(m is est.model, "the model is returned")
    ref = reference(model, spec, dss, 2, rm, L_obs=L)
    k = cond(ref.gram)
    c.skip_if(k > 1e8)
    c.observe(m.force_coeff.values)
    c.close(m.gram_force.values, ref.gram, "gram matrix", rtol=1e-10)
    c.close(m.force_coeff.values, ref.force, "coefficients", rtol=1e-9 + 1e-13 * k * 10)
    # the part that is left over is orthogonal to every basis function
    F = m.force_coeff.values
    lens_ = ref.lens
    left = sum((f.T @ (o - f @ F)) for (f, _, _), o in zip(ref.vec, ref.obs)) / sum(lens_)
    size = growth(ref.disp) + growth(ref.gram) * growth(F)
    c.close(left, np.zeros_like(left), "orthogonality", rtol=0, atol=1e-12 * size * max(10.0, k ** 0.5))
    c.check(m.L_obs == (L or DEFAULT_OBS[model]), "observable of the model")
    # projecting again changes nothing
    est.compute_mean_force()
    c.close(est.model.force_coeff.values, F, "repeated", rtol=1e-12, atol=1e-13)


def exact(c):
    """An observable inside the span of the basis is reproduced by the force."""
    import xarray as xr

    model = c.choose("model", MODELS)
    bname = c.choose("basis", ["linear", "poly3", "fourier1", "bspline", "combined", "tensor"])
    j = c.choose("basis function", range(8))
    col = c.choose("column", [0, 1])
    rm = c.choose("remove_const", [True, False])
    spec = basis_specs()[bname]
    d = spec.dims[0]
    c.skip_if(not admissible(model, spec, d, rm) or (not rm and not spec.removable))
    base = make_xva(60, seed=6, d=d)
    x, v, a = columns(base)
    ref = spec.ref([x])
    f = ref_vectors(model, ref, x, v, a, rm and spec.removable and model == "Pos_gle_with_friction")[0]
    c.skip_if(j >= f.shape[1])
    w = np.zeros((f.shape[1], 2))
    w[j, col] = -1.25
    ds = base.assign({"obs": (["time", "dim_o"], f @ w)})
    est = estimator(model, spec.make(rm), ds, 4, L_obs="obs")
    est.compute_mean_force()
    k = cond(f.T @ f / len(f))
    c.skip_if(k > 1e8)
    c.observe(est.model.force_coeff.values)
    c.close(est.model.force_coeff.values, w, "coefficients of a function of the basis", rtol=0, atol=1e-9 + 1e-13 * k)
    if model != "Pos_gle_with_friction":
        c.close(est.model.force_eval(x), f @ w, "force profile", rtol=1e-7, atol=1e-9)


def large(c):
    """Thousands of times, 11 to 12 functions, 6 and 12 components, 30 trajectories."""
    model, spec, dss, d = L_.instance(c, bases=("linear 1", "fourier 5", "bspline 12", "linear 6", "linear 12"), data=("long", "many", "thirty", "integers", "very long"))
    c.skip_if(model == "Pos_gle_with_friction" and spec.name == "bspline 12")
    obs = c.choose("observable", ["default", "f"])
    est = L_.build(model, spec, dss, 3, **({} if obs == "default" else {"L_obs": obs}))
    est.compute_mean_force()
    ref = L_.reference(model, spec, dss, 1, L_obs=None if obs == "default" else obs)
    k = cond(ref.gram)
    c.skip_if(k > 1e9)
    F = est.model.force_coeff.values
    c.observe(F)
    c.close(est.model.gram_force.values, ref.gram, "gram matrix", rtol=1e-10)
    c.close(F, ref.force, "coefficients", rtol=1e-9 + 1e-12 * k)
    left = sum((f.T @ (o - f @ F)) for (f, _, _), o in zip(ref.vec, ref.obs)) / sum(ref.lens)
    size = growth(ref.disp) + growth(ref.gram) * growth(F)
    c.close(left, np.zeros_like(left), "orthogonality", rtol=0, atol=1e-12 * size * max(10.0, k ** 0.5))
    # profile on many points
    if model != "Pos_gle_with_friction":
        x = columns(dss[0])[0]
        X = np.concatenate([x] * (1 + 4000 // len(x)))
        want = np.concatenate([ref.vec[0][0] @ F] * (1 + 4000 // len(x)))
        c.close(est.model.force_eval(X), want, "force profile", rtol=1e-9, scale=growth(want) + growth(F))


def zero(c):
    model = c.choose("model", MODELS)
    obs = c.choose("observable", ["default"] + EXTRA)
    d = c.choose("dimension", [1, 2])
    again = c.choose("after a mean force", [False, True])
    spec = basis_specs()["linear"]
    ds = add_obs(make_xva(25, seed=6, d=d), d, 1)
    kw = {} if obs == "default" else {"L_obs": obs}
    est = estimator(model, spec.make(True), ds, 4, **kw)
    if again:
        est.compute_mean_force()
    est.set_zero_force()
    o = ds[obs if obs != "default" else DEFAULT_OBS[model]]
    f = est.model.force_coeff
    nb = (2 if model == "Pos_gle_with_friction" else 1) * d
    c.observe(f.values)
    c.close(f.values, np.zeros((nb, o.shape[1])), "zero force", rtol=0, atol=0)
    est.compute_corrs()
    ref = reference(model, spec, [ds], 4, True, L_obs=None if obs == "default" else obs, force=np.zeros((nb, o.shape[1])))
    c.close(est.bkdxcorrw.values, ref.bkdx, "correlation with the whole observable", rtol=1e-9)
    c.close(est.bkbkcorrw.values, ref.bkbk, "correlation of the basis", rtol=1e-9)
    c.close(est.dotbkdxcorrw.values, ref.dbkdx, "derivative correlation", rtol=1e-9)


def columns_of(c):
    """Columns of the observable of very different size: each is projected as if it were alone."""
    model = c.choose("model", MODELS)
    bname = c.choose("basis", list(basis_specs()))
    d = c.choose("dimension", [1, 2])
    spec = basis_specs()[bname]
    c.skip_if(not admissible(model, spec, d, True))
    u = c.choose("sizes of the columns", [(1.0, 1e-11, 1.0), (1e-20, 1e20, 0.0), (1e5, 1.0, 1e-5), (1e-150, 1e-150, 1e150)])
    dss = [add_obs(make_xva(n, seed=3 * i + 2, d=d), d, i) for i, n in enumerate((33, 21))]
    dss = [ds.assign({"g2": ds["g2"] * np.array(u)}) for ds in dss]
    est = estimator(model, spec.make(True), dss, 4, L_obs="g2")
    est.compute_mean_force()
    ref = reference(model, spec, [ds.assign({"g2": ds["g2"] / np.where(np.array(u) == 0, 1.0, u)}) for ds in dss], 2, True, L_obs="g2")
    k = cond(ref.gram)
    c.skip_if(k > 1e8)
    F = est.model.force_coeff.values
    c.observe(F)
    for j in range(3):
        c.close(F[:, j] / (u[j] or 1.0), ref.force[:, j], "coefficients of a column", rtol=1e-9 + 1e-12 * k)


def units(c):
    """Components and functions of very different size, off the origin: nothing may be taken for zero next to another."""
    model = c.choose("model", MODELS)
    bname, d, u = c.choose("basis and units", [("poly1", 1, (1e-5,)), ("poly1", 1, (1e5,)), ("poly3", 1, (1e-2,)), ("poly3", 1, (1e2,)), ("linear_c", 1, (1e-9,)), ("linear", 1, (1e9,)), ("linear", 2, (1.0, 1e-5)), ("linear", 2, (1e5, 1.0)), ("linear", 3, (1e-4, 1.0, 1e4)), ("linear_c", 2, (1.0, 1e-5)), ("combined", 1, (1e-3,))])
    shift = c.choose("mean position, in the unit", [0.0, 0.05, 2.0])
    spec = basis_specs()[bname]
    c.skip_if(not admissible(model, spec, d, True))
    s = np.array(u)
    dss = [make_xva(n, seed=3 * i + 2, d=d) for i, n in enumerate((33, 21))]
    dss = [ds.assign({"x": (ds["x"] + shift) * s, "v": ds["v"] * s, "a": ds["a"] * s}) for ds in dss]
    est = estimator(model, spec.make(True), dss, 4)
    est.compute_mean_force()
    ref = reference(model, spec, dss, 2, True)
    A = np.concatenate([np.repeat(f, 1, 0) for f, _, _ in ref.vec])
    o = np.concatenate(ref.obs)
    n = np.sqrt((A ** 2).mean(0))
    c.skip_if((n == 0).any())
    k = np.linalg.cond(A / n) ** 2
    c.skip_if(k > 1e6)
    want = np.linalg.lstsq(A / n, o / s, rcond=None)[0]
    got = est.model.force_coeff.values * n[:, None] / s
    c.observe(got)
    c.close(got, want, "coefficients in the units of their functions", rtol=1e-9 + 1e-12 * k)


def harnesses(tier):
    q = tier == "quick"
    return {
        "mean force": (mean_force, {"lengths": [(40,), (33, 12)] if q else [(40,), (33, 12), (200,), (12, 33, 15, 60)]}, 4),
        "exact": (exact, {}, 3),
        "columns": (columns_of, {}, 2),
        "units": (units, {}, 2),
        "zero": (zero, {}, 2),
        "large": (large, {}, 2),
    }
