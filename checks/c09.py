"""Effective masses and gram matrices follow their definitions (equipartition, scalar
products of the basis over the data)."""
import itertools

import numpy as np

from .common import MODELS, vb, make_xva, basis_specs, estimator, admissible, columns, cond, pooled, is_removed, growth
from . import large as L_

BOUNDS = "all 6 models, 8 bases, 1 to 4 dimensions, 1 to 3 trajectories in every order, every combination of unit velocities of 2 components over 4 times; components whose units differ by up to 8 orders of magnitude; 3001 and 66000 times, 13 and 30 trajectories with up to 12 functions; trajectories of integers"


def masses(c):
    model = c.choose("model", MODELS)
    d = c.choose("dimension", [1, 2, 3, 4])
    lens = c.choose("lengths", [(9,), (30, 11), (25, 13, 40)])
    order = c.choose("order", list(itertools.permutations(range(len(lens)))))
    scale = c.choose("velocity scale", [1.0, 1e-3, 250.0])
    base = []
    for i, n in enumerate(lens):
        ds = make_xva(n, seed=3 * i + 2, d=d)
        base.append(ds.assign({"v": ds["v"] * scale}))
    est = estimator(model, basis_specs()["linear"].make(True), [base[i] for i in order], 3)
    m = est.compute_effective_mass()
    v2 = pooled([columns(b)[1].T @ columns(b)[1] / b.sizes["time"] for b in base], lens)
    got = m.eff_mass.values
    c.observe(got)
    c.close(got, np.linalg.inv(v2), "effective mass", rtol=1e-9 * cond(v2) ** 0.5)
    c.close(got @ v2, np.eye(d), "equipartition", rtol=0, atol=1e-9 * cond(v2))
    c.close(got, got.T, "symmetry", rtol=1e-9)


def units(c):
    """Components of very different size: no one may be taken for zero next to another."""
    model = c.choose("model", MODELS)
    s = np.array(c.choose("units", [(1.0, 1e-4), (1e-6, 1.0), (1e5, 1e-3), (1e-9, 1e-9), (1.0, 1e-3, 1e3), (1e-5, 1.0, 1e-5), (1e-4, 1.0, 1.0, 1e4)]))
    d = len(s)
    dss = [make_xva(n, seed=3 * i + 2, d=d) for i, n in enumerate((25, 40))]
    dss = [ds.assign({k: ds[k] * s for k in "xva"}) for ds in dss]
    est = estimator(model, basis_specs()["linear"].make(True), dss, 3)
    got = est.compute_effective_mass().eff_mass.values
    c.observe(got)
    lens = [ds.sizes["time"] for ds in dss]
    v2 = pooled([(columns(b)[1] / s).T @ (columns(b)[1] / s) / b.sizes["time"] for b in dss], lens)
    c.close(got * np.outer(s, s), np.linalg.inv(v2), "effective mass in its units", rtol=1e-9 * cond(v2))
    est.compute_gram_force()
    g = est.model.gram_force.values[:d, :d] / np.outer(s, s)
    c.close(g, pooled([(columns(b)[0] / s).T @ (columns(b)[0] / s) / b.sizes["time"] for b in dss], lens), "gram of the force basis in its units", rtol=1e-10)


def unit_velocities(c):
    """Velocities in {-1, 0, 1} at 4 times, two components: all of them."""
    vals = (-1.0, 0.0, 1.0)
    n = c.params["times"]
    v = np.array([[c.choose("v%d%d" % (i, j), vals) for j in range(2)] for i in range(n)])
    G = v.T @ v / n
    c.skip_if(abs(np.linalg.det(G)) < 1e-12)
    ds = make_xva(n, seed=2, d=2)
    ds = ds.assign({"v": (["time", "dim_x"], v)})
    est = estimator("Pos_gle_overdamped", basis_specs()["linear"].make(True), ds, 2)
    est.compute_effective_mass()
    c.observe(est.model.eff_mass.values)
    c.close(est.model.eff_mass.values, np.linalg.inv(G), "effective mass", rtol=1e-9, atol=1e-9)


def grams(c):
    model = c.choose("model", MODELS)
    bname = c.choose("basis", list(basis_specs()))
    d = c.choose("dimension", [1, 2, 3])
    rm = c.choose("remove_const", [True, False])
    lens = c.choose("lengths", [(40,), (21, 30)])
    spec = basis_specs()[bname]
    c.skip_if(d not in spec.dims or (not rm and not spec.removable))
    dss = [make_xva(n, seed=3 * i + 2, d=d) for i, n in enumerate(lens)]
    ref = spec.ref([columns(x)[0] for x in dss])
    removed = is_removed(model, spec, rm)
    est = estimator(model, spec.make(rm), dss, 3)
    vals = [ref.val(columns(x)[0]) for x in dss]
    d1 = [ref.d1(columns(x)[0]) for x in dss]
    keep = ref.kept if removed else list(range(ref.K))
    # force gram and basis mean
    if model == "Pos_gle_with_friction":
        F = [np.concatenate([b, np.einsum("nkd,nd->nk", g[:, keep], columns(x)[1])], 1) for b, g, x in zip(vals, d1, dss)]
    else:
        F = vals
    est.compute_gram_force()
    c.observe(est.model.gram_force.values)
    c.close(est.model.gram_force.values, pooled([f.T @ f / len(f) for f in F], lens), "gram of the force basis", rtol=1e-10)
    c.close(est.compute_basis_mean().values, pooled([f.mean(0) for f in F], lens), "mean of the force basis", rtol=1e-10)
    c.close(est.compute_basis_mean(basis_type="force").values, pooled([f.mean(0) for f in F], lens), "mean of the force basis", rtol=1e-10)
    # kernel gram
    if model in ("Pos_gle", "Pos_gle_with_friction"):
        g = pooled([np.einsum("nkd,nld->kl", a[:, keep], a[:, keep]) / len(a) for a in d1], lens)
        mean = pooled([a[:, keep].mean(0) for a in d1], lens)
    elif model == "Pos_gle_const_kernel":
        g = np.eye(d)
        mean = np.eye(d)
    else:
        c.skip_if(d > 1)
        g = pooled([b.T @ b / len(b) for b in vals], lens)
        mean = pooled([b.mean(0)[:, None] for b in vals], lens)
    c.close(est.compute_basis_mean(basis_type="kernel").values, mean, "mean of the kernel basis", rtol=1e-10)
    if est.model.rank_projection:
        raised = False
        try:
            est.compute_gram_kernel()
        except Exception as e:
            raised = "correlation" in str(e)
        c.check(raised, "gram of an undetermined range", "compute_gram_kernel before compute_corrs with a projected basis")
        c.skip_if(not admissible(model, spec, d, rm) and model == "Pos_gle_with_friction")
        est.set_zero_force()
        est.compute_corrs()
        P = est.model.P_range.values
        g = P @ g @ P.T
    est.compute_gram_kernel()
    c.close(est.model.gram_kernel.values, g, "gram of the kernel basis", rtol=1e-9)


def position_masses(c):
    """Position dependent inverse mass: v^2 projected on the kernel basis (one dimension)."""
    model = c.choose("model", ["Pos_gle", "Pos_gle_no_vel_basis", "Pos_gle_overdamped", "Pos_gle_hybrid"])
    bname = c.choose("basis", ["linear", "poly3", "fourier1", "bspline", "combined"])
    lens = c.choose("lengths", [(60,), (41, 30), (30, 17, 22)])
    order = c.choose("order", list(itertools.permutations(range(len(lens)))))
    spec = basis_specs()[bname]
    base = [make_xva(n, seed=3 * i + 2) for i, n in enumerate(lens)]
    ref = spec.ref([columns(x)[0] for x in base])
    if model == "Pos_gle":
        keep = ref.kept if spec.removable else list(range(ref.K))
        E = [ref.d1(columns(x)[0])[:, keep, 0] for x in base]
    else:
        E = [ref.val(columns(x)[0]) for x in base]
    G = pooled([e.T @ e / len(e) for e in E], lens)
    r = pooled([e.T @ columns(x)[1] ** 2 / len(e) for e, x in zip(E, base)], lens)
    c.skip_if(cond(G) > 1e8)
    est = estimator(model, spec.make(True), [base[i] for i in order], 3)
    est.compute_pos_effective_mass()
    got = est.model.inv_mass_coeff.values
    c.observe(got)
    c.close(got.reshape(r.shape), np.linalg.solve(G, r), "inverse mass", rtol=1e-9 + 1e-12 * cond(G))


def large(c):
    model, spec, dss, d = L_.instance(c, bases=("linear 1", "fourier 5", "bspline 12", "linear 12"), data=("long", "many", "thirty", "integers", "very long"))
    lens = [x.sizes["time"] for x in dss]
    ref = spec.ref([columns(x)[0] for x in dss])
    keep = ref.kept if is_removed(model, spec, True) else list(range(ref.K))
    est = L_.build(model, spec, dss, 3)
    vals = [ref.val(columns(x)[0]) for x in dss]
    d1 = [ref.d1(columns(x)[0])[:, keep] for x in dss]
    F = vals
    if model == "Pos_gle_with_friction":
        F = [np.concatenate([b, np.einsum("nkd,nd->nk", g, columns(x)[1])], 1) for b, g, x in zip(vals, d1, dss)]
    est.compute_gram_force()
    c.observe(est.model.gram_force.values)
    c.close(est.model.gram_force.values, pooled([f.T @ f / len(f) for f in F], lens), "gram of the force basis", rtol=1e-10)
    c.close(est.compute_basis_mean().values, pooled([f.mean(0) for f in F], lens), "mean of the force basis", rtol=1e-10)
    v2 = pooled([columns(b)[1].T @ columns(b)[1] / b.sizes["time"] for b in dss], lens)
    est.compute_effective_mass()
    c.close(est.model.eff_mass.values, np.linalg.inv(v2), "effective mass", rtol=1e-9 * cond(v2) ** 0.5)
    if model in ("Pos_gle", "Pos_gle_with_friction"):
        c.close(est.compute_basis_mean(basis_type="kernel").values, pooled([a.mean(0) for a in d1], lens), "mean of the kernel basis", rtol=1e-10)
        est.model.rank_projection = False
        est.compute_gram_kernel()
        c.close(est.model.gram_kernel.values, pooled([np.einsum("nkd,nld->kl", a, a) / len(a) for a in d1], lens), "gram of the kernel basis", rtol=1e-9)
    elif model == "Pos_gle_overdamped" and d == 1:
        est.compute_gram_kernel()
        c.close(est.model.gram_kernel.values, pooled([b.T @ b / len(b) for b in vals], lens), "gram of the kernel basis", rtol=1e-9)
        r = pooled([e.T @ columns(x)[1] ** 2 / len(e) for e, x in zip(vals, dss)], lens)
        G = est.model.gram_kernel.values
        est.compute_pos_effective_mass()
        c.close(est.model.inv_mass_coeff.values.reshape(r.shape), np.linalg.solve(G, r), "inverse mass", rtol=1e-9 + 1e-12 * cond(G))


def harnesses(tier):
    q = tier == "quick"
    return {
        "masses": (masses, {}, 2),
        "units": (units, {}, 1),
        "unit velocities": (unit_velocities, {"times": 3 if q else 4}, 3),
        "grams": (grams, {}, 3),
        "position dependent masses": (position_masses, {}, 2),
        "large": (large, {}, 2),
    }
