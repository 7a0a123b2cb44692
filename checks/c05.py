"""Estimates from several trajectories are averages weighted by their lengths, whatever
their order; static averages do not depend on how the data are cut."""
import itertools

import numpy as np

from .common import MODELS, NEEDS_A, DEFAULT_OBS, vb, make_xva, basis_specs, estimator, reference, admissible, is_removed, columns, ref_kernel, growth, pooled, ref_vectors, cond
from . import large as L_

BOUNDS = "1 to 4 trajectories of lengths 7 to 60 in every order, all 6 models, 1 and 2 dimensions, serial estimator; every way of cutting a trajectory in two; 13 and 30 trajectories, pieces of 2050 and of 66000 times, integer data, with up to 11 functions and 6 components"

LENS = {1: [(17,)], 2: [(40, 13), (12, 12)], 3: [(30, 12, 19)], 4: [(20, 11, 16, 13)]}


def named(da, dims):
    return da.transpose(*dims).values


def averages(c):
    k = c.choose("trajectories", c.params["counts"])
    lens = c.choose("lengths", LENS[k])
    perm = c.choose("order", list(itertools.permutations(range(k))))
    model = c.choose("model", MODELS)
    bname, d = c.choose("basis", [("linear", 1), ("linear", 2), ("poly3", 1), ("bspline", 1)])
    container = c.choose("container", ["list", "tuple"])
    spec = basis_specs()[bname]
    c.skip_if(not admissible(model, spec, d, True))
    T = 6
    base = [make_xva(n, seed=3 * i + 1, d=d) for i, n in enumerate(lens)]
    dss = [base[i] for i in perm]
    est = estimator(model, spec.make(True), tuple(dss) if container == "tuple" else dss, T)
    est.compute_mean_force()
    est.compute_corrs()
    ref = reference(model, spec, base, T, True)
    m = est.model
    kd = cond(ref.gram)
    obs = est.bkdxcorrw.dims[1]
    c.observe(m.force_coeff.values, est.bkbkcorrw.values)
    c.close(named(m.gram_force, ("dim_basis'", "dim_basis")), ref.gram, "gram matrix", rtol=1e-9)
    c.close(m.force_coeff.values, ref.force, "mean force", rtol=1e-12 * kd + 1e-9)
    tol = 1e-11 * kd + 1e-9
    c.close(named(est.bkbkcorrw, ("dim_basis'", "dim_basis", "time_trunc")), ref.bkbk, "basis correlation", rtol=1e-9)
    c.close(named(est.bkdxcorrw, ("dim_basis", obs, "time_trunc")), ref.bkdx, "force correlation", rtol=tol, scale=growth(ref.bkdx) + growth(ref.disp))
    c.close(named(est.dotbkbkcorrw, ("dim_basis'", "dim_basis", "time_trunc")), ref.dbkbk, "derivative correlation", rtol=1e-9)
    c.close(named(est.dotbkdxcorrw, ("dim_basis", obs, "time_trunc")), ref.dbkdx, "derivative force correlation", rtol=tol, scale=growth(ref.dbkdx) + growth(ref.disp))
    for kind, j in (("force", 0),):
        means = pooled([w[j].mean(0) for w in ref.vec], ref.lens)
        c.close(est.compute_basis_mean(kind).values, means, "mean of the basis", rtol=1e-10)
    est.compute_effective_mass()
    v2 = pooled([col[1].T @ col[1] / len(col[1]) for col in (columns(x) for x in base)], ref.lens)
    c.close(m.eff_mass.values, np.linalg.inv(v2), "effective mass", rtol=1e-9)
    c.close(est.data_describe.mean, np.concatenate([columns(x)[0] for x in base]).mean(0), "mean position", rtol=1e-10)
    c.check(est.data_describe.nobs == sum(lens), "number of samples")
    est.compute_gram_force()
    c.close(named(m.gram_force, ("dim_basis'", "dim_basis")), ref.gram, "gram matrix alone", rtol=1e-9)


def kernels(c):
    """Kernel and projected correlations of the pooled data, in every order."""
    lens = c.choose("lengths", [(30, 12, 19), (25, 14)])
    perm = c.choose("order", list(itertools.permutations(range(len(lens)))))
    model = c.choose("model", MODELS)
    method = c.choose("method", ["rect", "trapz"])
    spec = basis_specs()["linear"]
    base = [make_xva(n, seed=3 * i + 2, d=1) for i, n in enumerate(lens)]
    T = 5
    est = estimator(model, spec.make(True), [base[i] for i in perm], T)
    est.compute_mean_force()
    est.compute_corrs()
    est.compute_kernel(method=method)
    ref = reference(model, spec, base, T, True)
    t, K = ref_kernel(method, ref, 0.5)
    got = est.model.kernel.values
    ok = np.isfinite(K)
    c.close(np.where(ok, got, 0), np.where(ok, K, 0), "kernel of the pooled data", rtol=1e-6)
    tn, cn = est.compute_projected_corrs()
    M = got.shape[0]
    parts = []
    for (f, E, dE), r in zip(ref.vec, ref.rest):
        n = len(r)
        noise = r.copy()
        out = []
        for s in range(M if method == "rect" else M - 1):
            out.append(r[: n - s].T @ noise[: n - s] / (n - s))
            nxt = np.zeros_like(noise)
            for i in range(n - s - 1):
                if method == "rect":
                    nxt[i] = noise[i + 1] + 0.5 * E[i + 1] @ got[s]
                else:
                    nxt[i] = noise[i + 1] + 0.25 * E[i + 1] @ got[s] + 0.25 * E[i] @ got[s + 1]
            noise = nxt
        parts.append(np.array(out))
    want = pooled(parts, ref.lens)
    c.observe(cn)
    c.close(np.asarray(cn), want, "projected correlations", rtol=1e-7, scale=growth(want))
    c.close(np.asarray(tn), 0.5 * np.arange(len(want)), "times", rtol=1e-10)


def cutting(c):
    """Static averages do not depend on how the same samples are cut into pieces."""
    n = c.params["length"]
    model = c.choose("model", MODELS)
    cut1 = c.choose("first cut", list(range(2, n - 1)) if True else [])
    cut2 = c.choose("second cut", [None, n - 2, (cut1 + n) // 2])
    c.skip_if(cut2 is not None and not cut1 + 1 < cut2 < n - 1)
    spec = basis_specs()["poly3"]
    whole = make_xva(n, seed=5)
    cuts = [0, cut1] + ([cut2] if cut2 else []) + [n]
    dss = [whole.isel(time=slice(i, j)).assign_coords(time=np.arange(j - i) * 0.5) for i, j in zip(cuts, cuts[1:])]
    res = []
    for lst in ([whole], dss):
        est = estimator(model, spec.make(True), lst, 2)
        est.compute_mean_force()
        est.compute_effective_mass()
        est.compute_gram_kernel() if not est.model.rank_projection and model not in ("Pos_gle", "Pos_gle_with_friction", "Pos_gle_const_kernel") else None
        mean = est.compute_basis_mean()
        res.append((est.model.gram_force.values, est.model.force_coeff.values, est.model.eff_mass.values, mean.values, est.model.force_eval(np.linspace(-1, 1, 5))))
    c.observe(*res[1])
    k = cond(res[0][0])
    for a, b, name in zip(res[1], res[0], ("gram", "mean force", "effective mass", "mean of the basis", "force profile")):
        c.close(a, b, "cut data: " + name, rtol=1e-9 + 1e-12 * k)


def large(c):
    """Long and many trajectories, many functions, many components."""
    model, spec, dss, d = L_.instance(c, data=("many", "thirty", "long and short", "integers", "very long"))
    T = min(40 if max(ds.sizes["time"] for ds in dss) < 5000 else 5, L_.truncation(dss))
    perm = c.choose("order", ["given", "reversed"])
    est = L_.build(model, spec, dss if perm == "given" else dss[::-1], T)
    est.compute_mean_force()
    est.compute_corrs()
    ref = L_.reference(model, spec, dss, T, force=est.model.force_coeff.values)
    m = est.model
    obs = est.bkdxcorrw.dims[1]
    kd = cond(ref.gram)
    c.skip_if(kd > 1e9)
    c.observe(m.force_coeff.values)
    c.close(named(m.gram_force, ("dim_basis'", "dim_basis")), ref.gram, "gram matrix", rtol=1e-9)
    c.close(m.force_coeff.values, np.linalg.solve(ref.gram, ref.disp), "mean force", rtol=1e-12 * kd + 1e-9)
    P = named(m.P_range, ("dim_basis", "dim_basis_old")) if m.rank_projection else np.eye(ref.bkbk.shape[0])
    c.close(P.T @ P @ ref.bkbk[:, :, 0], ref.bkbk[:, :, 0], "range", rtol=1e-8)
    s = growth(ref.bkdx) + growth(ref.disp) + growth(ref.gram) * growth(ref.force)
    c.close(named(est.bkbkcorrw, ("dim_basis'", "dim_basis", "time_trunc")), np.einsum("ai,bj,ijn->abn", P, P, ref.bkbk), "basis correlation", rtol=1e-9)
    c.close(named(est.bkdxcorrw, ("dim_basis", obs, "time_trunc")), np.einsum("ai,ijn->ajn", P, ref.bkdx), "force correlation", rtol=1e-9, scale=s)
    c.close(named(est.dotbkbkcorrw, ("dim_basis'", "dim_basis", "time_trunc")), np.einsum("ai,bj,ijn->abn", P, P, ref.dbkbk), "derivative correlation", rtol=1e-9)
    c.close(named(est.dotbkdxcorrw, ("dim_basis", obs, "time_trunc")), np.einsum("ai,ijn->ajn", P, ref.dbkdx), "derivative force correlation", rtol=1e-9, scale=s + growth(ref.dbkdx))
    est.compute_effective_mass()
    v2 = pooled([col[1].T @ col[1] / len(col[1]) for col in (columns(x) for x in dss)], ref.lens)
    c.close(m.eff_mass.values, np.linalg.inv(v2), "effective mass", rtol=1e-9 * max(1.0, cond(v2) ** 0.5))
    c.close(est.compute_basis_mean().values, pooled([w[0].mean(0) for w in ref.vec], ref.lens), "mean of the basis", rtol=1e-10)
    c.close(est.data_describe.mean, np.concatenate([columns(x)[0] for x in dss]).mean(0), "mean position", rtol=1e-10)


def harnesses(tier):
    q = tier == "quick"
    return {
        "averages": (averages, {"counts": [1, 2, 3] if q else [1, 2, 3, 4]}, 3),
        "kernels": (kernels, {}, 3),
        "cutting": (cutting, {"length": 14 if q else 33}, 2),
        "large": (large, {}, 2),
    }
