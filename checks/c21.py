"""Results do not depend on the history of calls.

The estimator is driven through every sequence of calls up to a depth.  A small state
machine (below) says which calls are refused and, after each sequence, which earlier calls
the state consists of; everything that can be observed of the estimator is then compared
with a fresh one on which only those calls were made."""
import contextlib
import io

import numpy as np

from .common import MODELS, bf, vb, make_xva, basis_specs, snapshot, same_snapshot, growth

BOUNDS = "every sequence of 1 to 3 (quick) or 4 (thorough) of 15 calls on each of the 6 models, with removed and with projected constant; every interleaving of the calls on two estimators of all pairs of models; every pair of calls in turns, 5 (17) times; 12 estimators in a row on the same data; every pair of whole estimations with different options, one after the other; 9 evaluations on 8 bases with an argument that is overwritten in place"
ASSUMPTIONS = "the state machine of checks/c21.py (14 lines) says which results a call replaces and which calls it needs"

T = 7
OPS = ["mean force", "zero force", "gram of the force", "gram of the kernel", "mass", "correlations", "correlations, first order", "kernel rect", "kernel trapz", "kernel second kind", "kernel with an unknown method", "noise", "projected correlations", "evaluations", "save and load"]


def data(model, which=0):
    return [make_xva(40, seed=4 + which), make_xva(26, seed=8 + which)]


def build(model, rm, dss, basis="poly1", trunc=T, **kw):
    v = vb()
    return v.Estimator_gle(dss, getattr(v, model), basis_specs()[basis].make(rm), trunc=(trunc - 1) * 0.5 + 0.01, **dict({"saveall": False, "verbose": False}, **kw))


def apply(est, op):
    """One call; its visible result, or the exception."""
    if op == "mean force":
        return est.compute_mean_force() is est.model
    if op == "zero force":
        return est.set_zero_force()
    if op == "gram of the force":
        return est.compute_gram_force() is est.model
    if op == "gram of the kernel":
        return est.compute_gram_kernel() is est.model
    if op == "mass":
        return est.compute_effective_mass() is est.model
    if op == "correlations":
        return est.compute_corrs() is est.model
    if op == "correlations, first order":
        return est.compute_corrs(second_order_method=False) is est.model
    if op == "kernel rect":
        return est.compute_kernel(method="rect") is est.model
    if op == "kernel trapz":
        return est.compute_kernel(method="trapz") is est.model
    if op == "kernel second kind":
        return est.compute_kernel(method="second_kind_trapz") is est.model
    if op == "kernel with an unknown method":
        return est.compute_kernel(method="simpson")
    if op == "noise":
        return [np.asarray(a) for a in est.model.compute_noise(est.xva_list[0])]
    if op == "projected correlations":
        return [np.asarray(a) for a in est.compute_projected_corrs()]
    if op == "evaluations":
        X = np.linspace(-1, 1, 5)
        out = [np.asarray(est.model.force_eval(X)), np.asarray(est.model.pmf_eval(X))]
        return out + [np.asarray(est.model.kernel_eval(X)), est.model.laplace_transform_kernel()[1], est.check_volterra_inversion()]
    if op == "save and load":
        m = type(est.model).load_model(est.model.basis, est.model.save_model())
        return [None if getattr(m, k) is None else np.asarray(getattr(m, k)) for k in ("force_coeff", "kernel", "eff_mass", "gram_force", "gram_kernel", "P_range")]
    raise KeyError(op)


class State:
    """force; corrs = (force at that time, both orders); kernel = (method, corrs)."""

    def __init__(self, projects):
        self.projects = projects
        self.force = self.corrs = self.kernel = None
        self.mass = self.gram_force = self.gram_kernel = False

    def refused(self, op):
        if op.startswith("correlations"):
            return self.force is None
        if op.startswith("kernel"):
            return self.corrs is None or "unknown" in op or ("second" in op and not self.corrs[1])
        if op in ("noise", "projected correlations", "evaluations"):
            return self.force is None or self.kernel is None
        if op == "gram of the kernel":
            return self.projects and self.corrs is None
        return False

    def step(self, op):
        if self.refused(op):
            return False
        if op in ("mean force", "zero force"):
            self.force = op
            self.gram_force |= op == "mean force"
        elif op.startswith("correlations"):
            self.corrs = (self.force, op == "correlations")
        elif op.startswith("kernel"):
            self.kernel = (op, self.corrs)
        elif op == "mass":
            self.mass = True
        elif op == "gram of the force":
            self.gram_force = True
        elif op == "gram of the kernel":
            self.gram_kernel = True
        return True

    def key(self):
        return (self.force, self.corrs, self.kernel, self.mass, self.gram_force, self.gram_kernel)

    def calls(self):
        """The calls the state consists of, each made once."""
        out, have = [], {"force": None, "corrs": None}

        def corrs(cc):
            if have["corrs"] != cc:
                if have["force"] != cc[0]:
                    out.append(cc[0])
                out.append("correlations" if cc[1] else "correlations, first order")
                have.update(force=cc[0], corrs=cc)

        if self.kernel:
            corrs(self.kernel[1])
            out.append(self.kernel[0])
        if self.corrs:
            corrs(self.corrs)
        if self.force and have["force"] != self.force:
            out.append(self.force)
        if self.mass:
            out.append("mass")
        if self.gram_force:
            out.append("gram of the force")
        if self.gram_kernel:
            out.append("gram of the kernel")
        return out


def observe(est):
    """Everything visible of an estimator, by name."""
    m, out = est.model, {}
    for k in ("force_coeff", "kernel", "eff_mass", "gram_force", "gram_kernel", "P_range", "inv_mass_coeff"):
        a = getattr(m, k)
        out[k] = None if a is None else (tuple(a.dims), np.asarray(a))
    if m.kernel is not None:
        out["times of the kernel"] = ((), np.asarray(m.kernel["time_kernel"]))
    for k in ("method", "rank_projection", "trunc_ind", "dt", "L_obs", "dim_obs", "dim_x"):
        out[k] = getattr(m, k)
    for k in ("bkbkcorrw", "bkdxcorrw", "dotbkdxcorrw", "dotbkbkcorrw"):
        a = getattr(est, k)
        out[k] = None if a is None or not hasattr(a, "dims") else (tuple(a.dims), np.asarray(a))
    if m.force_coeff is not None and m.kernel is not None:
        for op in ("noise", "projected correlations", "evaluations"):
            for i, a in enumerate(apply(est, op)):
                out["%s, part %d" % (op, i)] = ((), a)
    out["saved"] = [None if a is None else a.shape for a in apply(est, "save and load")]
    return out


def compare(c, got, want, kind):
    for k in sorted(set(got) | set(want)):
        a, b = got.get(k), want.get(k)
        if isinstance(a, tuple) and isinstance(b, tuple):
            c.check(a[0] == b[0], kind + ": " + k, "dimensions %s instead of %s" % (a[0], b[0]))
            c.close(a[1], b[1], kind + ": " + k, rtol=1e-10, scale=growth(b[1]) + growth(want["kernel"][1]) * 3 if want.get("kernel") else None)
        else:
            c.check(str(a) == str(b), kind + ": " + k, "%s instead of %s" % (a, b))


_fresh = {}


def fresh(model, rm, st, which=0):
    key = (model, rm, which, st.key())
    if key not in _fresh:
        est = build(model, rm, data(model, which))
        for op in st.calls():
            apply(est, op)
        _fresh[key] = observe(est)
    return _fresh[key]


def histories(c):
    model, rm = c.choose("model", c.params["models"])
    n = c.params["depth"]
    dss = data(model)
    before = [snapshot(d) for d in dss]
    est = build(model, rm, dss)
    st = State(est.model.rank_projection)
    for i in range(n):
        op = c.choose("call %d" % (i + 1), OPS + (["end"] if i == 1 else []))
        if op == "end":
            break
        c.op()
        expect = st.step(op)
        try:
            apply(est, op)
            ok = True
        except Exception as e:
            ok = False
            c.check(not expect, "a call that has all it needs is refused", "%s: %s" % (op, e))
            c.check(str(e).strip() != "" and type(e) is not AttributeError and type(e) is not TypeError, "the refusal says what is missing", "%s: %s %s" % (op, type(e).__name__, e))
        c.check(ok == expect, "a call without its prerequisites is refused", op)
    got = observe(est)
    c.observe(str(st.key()))
    compare(c, got, fresh(model, rm, st), "differs from a fresh estimator")
    c.check(all(same_snapshot(snapshot(d), b) for d, b in zip(dss, before)), "trajectories are left alone")


def completed(c):
    """After any refused call, making up for the missing steps gives the usual results."""
    model, rm = c.choose("model", [(m, r) for m in MODELS for r in (True, False) if not (m == "Pos_gle_with_friction" and not r)])
    order = ["mean force", "correlations", "kernel rect", "noise"]
    done = c.choose("calls made", range(4))
    bad = c.choose("refused call", ["correlations", "kernel rect", "kernel trapz", "kernel second kind", "kernel with an unknown method", "noise", "projected correlations", "evaluations", "gram of the kernel"])
    times = c.choose("times", [1, 2])
    est = build(model, rm, data(model))
    st = State(est.model.rank_projection)
    for op in order[:done]:
        apply(est, op)
        st.step(op)
    c.skip_if(not st.refused(bad))
    for _ in range(times):
        try:
            apply(est, bad)
        except Exception as e:
            c.observe(str(e))
        else:
            c.check(False, "refused")
    for op in order[done:]:
        apply(est, op)
        st.step(op)
    compare(c, observe(est), fresh(model, rm, st), "after a refused call")


def interleaved(c):
    """Two estimators used in turns do not influence each other."""
    ma = c.choose("first model", c.params["models"])
    mb = c.choose("second model", c.params["models"])
    shared = c.choose("trajectories", ["the same objects", "others"])
    method = c.choose("method of the second", ["kernel rect", "kernel trapz"])
    da = data(ma)
    db = da if shared == "the same objects" else data(mb, 1)
    wb = 0 if shared == "the same objects" else 1
    A, B = build(ma, True, da), build(mb, True, db)
    sa, sb = State(A.model.rank_projection), State(B.model.rank_projection)
    qa = ["mean force", "correlations", "kernel rect", "noise"]
    qb = ["zero force", "correlations", method, "mass"]
    while qa or qb:
        turn = c.choose("turn", (["first"] if qa else []) + (["second"] if qb else []))
        c.op()
        if turn == "first":
            op = qa.pop(0)
            apply(A, op)
            sa.step(op)
        else:
            op = qb.pop(0)
            apply(B, op)
            sb.step(op)
    c.observe(str(sa.key()) + str(sb.key()))
    compare(c, observe(A), fresh(ma, True, sa), "first estimator")
    compare(c, observe(B), fresh(mb, True, sb, wb), "second estimator")


def repeated(c):
    """Two calls made in turns, many times, change nothing more than the first time."""
    model, rm = c.choose("model", c.params["models"])
    a = c.choose("call", [op for op in OPS if "unknown" not in op])
    b = c.choose("in turns with", [None] + [op for op in OPS if op > a and "unknown" not in op])
    n = c.choose("times", c.params["times"])
    c.skip_if(b is None and n < max(c.params["times"]))
    est = build(model, rm, data(model))
    st = State(est.model.rank_projection)
    for op in ["mean force", "correlations", "kernel rect"]:
        apply(est, op)
        st.step(op)
    for _ in range(n):
        for op in (a, b):
            if op is not None and st.step(op):
                c.op()
                apply(est, op)
    c.observe(str(st.key()))
    compare(c, observe(est), fresh(model, rm, st), "repeated calls")


def reused(c):
    """Ten estimators one after the other on the same trajectories and the same basis object."""
    model, rm = c.choose("model", c.params["models"])
    share = c.choose("shared", ["trajectories", "trajectories and basis"])
    n = c.choose("estimators", [2, 12])
    v = vb()
    dss = data(model)
    st = State(False)
    basis = basis_specs()["poly1"].make(rm)
    for i in range(n):
        if share == "trajectories":
            est = build(model, rm, dss)
        else:
            est = v.Estimator_gle(dss, getattr(v, model), basis, trunc=(T - 1) * 0.5 + 0.01, saveall=False, verbose=False)
        st = State(est.model.rank_projection)
        for op in ["mean force", "mass", "correlations", "kernel trapz", "noise", "projected correlations", "evaluations"]:
            c.op()
            apply(est, op)
            st.step(op)
    got = observe(est)
    c.observe(got["kernel"][1])
    compare(c, got, fresh(model, rm, st), "estimator number %d" % n)


FORCES = ["mean force", "zero force"]
CORRS = {"default": {}, "first order": {"second_order_method": False}, "few functions": "few", "all functions": {"rank_tol": 1e-9}}
KERNELS = {"rect": {}, "trapz": {}, "second_kind_rect": {}, "midpoint": {}, "trapz, given": {"k0": 0.3}}
_few = {}


def round_of(est, force, corrs, kernel, few):
    apply(est, force)
    est.compute_corrs(**({"rank_tol": few} if CORRS[corrs] == "few" else CORRS[corrs]))
    kw = dict(KERNELS[kernel])
    if kw:
        kw["k0"] = np.full(np.asarray(est.bkdxcorrw).shape[:2], 0.3)
    est.compute_kernel(method=kernel.split(",")[0], **kw)
    apply(est, "noise" if est.model.method not in ("midpoint",) else "save and load")


def second_round(c):
    """A whole estimation, then another one with other options on the same estimator."""
    model, rm = c.choose("model", c.params["models"])
    basis = "poly3" if model == "Pos_gle" else "poly1"
    key = (model, rm)
    if key not in _few:
        est = build(model, rm, data(model), basis)
        est.compute_mean_force()
        est.compute_corrs()
        sv = np.linalg.svd(np.asarray(est.bkbkcorrw)[:, :, 0])[1]
        _few[key] = float(np.sqrt(sv[0] * sv[1])) if len(sv) > 1 else 1e-9
    few = _few[key]
    names = ["default", "first order"] + (["few functions", "all functions"] if model == "Pos_gle" and not rm else [])

    def options(which):
        out = [c.choose(which + ": " + k, o) for k, o in (("force", FORCES), ("correlations", names), ("kernel", list(KERNELS)))]
        c.skip_if(out[1] == "first order" and out[2] in ("second_kind_rect", "trapz"))
        return out

    one = options("first")
    two = options("second")
    est = build(model, rm, data(model), basis)
    round_of(est, *one, few)
    c.op()
    round_of(est, *two, few)
    k2 = (model, rm, "second") + tuple(two)
    if k2 not in _fresh:
        other = build(model, rm, data(model), basis)
        round_of(other, *two, few)
        _fresh[k2] = look(other)
    got = look(est)
    c.observe(got["kernel"][1])
    compare(c, got, _fresh[k2], "second round")


def look(est):
    """What can be seen after a round, without what an earlier mean force leaves."""
    m, out = est.model, {}
    for k in ("force_coeff", "kernel", "P_range"):
        a = getattr(m, k)
        out[k] = None if a is None else (tuple(a.dims), np.asarray(a))
    out["times of the kernel"] = ((), np.asarray(m.kernel["time_kernel"]))
    out["method"] = m.method
    for k in ("bkbkcorrw", "bkdxcorrw", "dotbkdxcorrw", "dotbkbkcorrw"):
        a = getattr(est, k)
        out[k] = None if a is None or not hasattr(a, "dims") else (tuple(a.dims), np.asarray(a))
    X = np.linspace(-1, 1, 5)
    out["force"] = ((), np.asarray(m.force_eval(X)))
    if m.method != "midpoint":
        for op in ("noise", "projected correlations"):
            for i, a in enumerate(apply(est, op)):
                out["%s, part %d" % (op, i)] = ((), a)
    out["kernel function"] = ((), np.asarray(m.kernel_eval(X)))
    out["inversion"] = ((), np.asarray(est.check_volterra_inversion()))
    return out


def talkative(c):
    """verbose and saveall change nothing in the results."""
    model = c.choose("model", MODELS)
    rm = c.choose("remove_const", [True, False])
    c.skip_if(model == "Pos_gle_with_friction" and not rm)
    verbose = c.choose("verbose", [True, False])
    saveall = c.choose("saveall", [True, False])
    method = c.choose("method", ["kernel rect", "kernel trapz", "kernel second kind"])
    st = State(model == "Pos_gle" and not rm)
    ops = ["mean force", "gram of the force", "correlations", "gram of the kernel", method, "mass"]
    with contextlib.redirect_stdout(io.StringIO()) as text:
        est = build(model, rm, data(model), verbose=verbose, saveall=saveall)
        for op in ops:
            apply(est, op)
            st.step(op)
        got = observe(est)
    c.check(bool(text.getvalue()) or not verbose, "verbose says something")
    c.observe(got["kernel"][1])
    compare(c, got, fresh(model, rm, st), "verbose or saving")


def fem_basis(d, lo, hi):
    import skfem as S

    m = S.MeshTri() if d == 2 else S.MeshLine(np.linspace(0.0, 1.0, 5))
    e = S.ElementTriP1() if d == 2 else S.ElementLineP1()
    return bf().FEMScalarFeatures(S.CellBasis(type(m)(m.p * (hi - lo) + lo, m.t), e))


def buffers(c):
    """An array that was evaluated, overwritten in place and evaluated again counts with its
    new values: nothing is remembered by the identity of an argument."""
    import xarray as xr

    model = c.choose("model", MODELS)
    bname = c.choose("basis", ["linear_c", "poly1", "fourier1", "bspline", "combined", "tensor", "fem 1", "fem 2"])
    what = c.choose("call", ["basis", "derivative", "second derivative", "force", "kernel", "free energy", "friction", "noise", "correlations with the noise"])
    form = c.choose("argument", ["array", "DataArray", "view"] if not what.endswith("noise") else ["trajectory"])
    between = c.choose("in between", [None, "another array", "the mean force again"])
    fem = bname.startswith("fem")
    spec = None if fem else basis_specs()[bname]
    d = int(bname[-1]) if fem else spec.dims[0]
    c.skip_if(fem and (model in ("Pos_gle", "Pos_gle_with_friction") or what == "second derivative"))
    c.skip_if(what == "free energy" and (fem or bname in ("tensor", "combined")))  # no antiderivative
    c.skip_if(fem and form == "DataArray" and what in ("basis", "derivative"))
    c.skip_if(what == "friction" and model != "Pos_gle_with_friction")
    dss = [make_xva(60, seed=4, d=d), make_xva(43, seed=8, d=d)]
    v = vb()
    xs = np.concatenate([np.asarray(ds["x"]) for ds in dss])
    basis = fem_basis(d, xs.min() - 0.01, xs.max() + 0.01) if fem else spec.make(True)
    est = v.Estimator_gle(dss, getattr(v, model), basis, trunc=(T - 1) * 0.5 + 0.01, saveall=False, verbose=False)
    est.compute_mean_force()
    est.compute_corrs()
    est.compute_kernel(method="rect")
    m = est.model
    pool = np.asarray(dss[0]["x"])

    def give(rows):
        if what.endswith("noise"):
            ds = dss[rows].copy(deep=True)
            return ds if rows == 0 else ds.isel(time=slice(0, 43))
        X = pool[rows].copy()
        if form == "view":
            big = np.zeros((len(X), 2 * d))
            big[:, ::2] = X
            return big[:, ::2]
        return X if form == "array" else xr.DataArray(X, dims=["time", "dim_x"])

    def call(A):
        if what == "basis":
            return [m.basis.basis(np.asarray(A) if form == "view" else A)]
        if what == "derivative":
            return [m.basis.deriv(A)]
        if what == "second derivative":
            return [m.basis.hessian(A)]
        if what == "force":
            return [m.force_eval(A)]
        if what == "kernel":
            return [m.kernel_eval(A)]
        if what == "free energy":
            return [m.pmf_eval(A)]
        if what == "friction":
            return [m.friction_force_eval(A)]
        if what == "noise":
            return m.compute_noise(A)
        return m.compute_corrs_w_noise(A)

    def numbers(out):
        return [np.array(a, copy=True) for a in out]

    if what.endswith("noise"):
        A, B = give(0).isel(time=slice(0, 43)).copy(deep=True), give(1)
        other = give(0)
    else:
        A, B = give(slice(0, 7)), give(slice(20, 27))
        other = give(slice(31, 38))
    first = numbers(call(A))
    if between == "another array":
        call(other)
    elif between is not None:
        est.compute_mean_force()
    if what.endswith("noise"):
        for k in ("x", "v", "a"):
            A[k].values[...] = np.asarray(B[k])
    elif form == "DataArray":
        A.values[...] = B.values
    else:
        A[...] = B
    second = numbers(call(A))
    want = numbers(call(B))
    c.observe(*want)
    for g, w in zip(second, want):
        c.close(g, w, "an argument changed in place: " + what, rtol=1e-12, scale=growth(w) + growth(first[0]))


def harnesses(tier):
    q = tier == "quick"
    every = [(m, r) for m in MODELS for r in (True, False) if not (m != "Pos_gle" and not r)]
    return {
        "histories": (histories, {"depth": 3 if q else 4, "models": every}, 3),
        "completed": (completed, {}, 2),
        "interleaved": (interleaved, {"models": MODELS if not q else ["Pos_gle", "Pos_gle_hybrid", "Pos_gle_overdamped"]}, 4),
        "verbose": (talkative, {}, 2),
        "repeated": (repeated, {"models": every if not q else [("Pos_gle", False), ("Pos_gle_hybrid", True)], "times": [5] if q else [5, 17]}, 3),
        "second round": (second_round, {"models": every}, 3),
        "buffers": (buffers, {}, 3),
        "reused": (reused, {"models": every}, 1),
    }
