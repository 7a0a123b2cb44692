"""No call modifies what the user handed in; degenerate or wrong input ends in a Python
exception or in values that are visibly not numbers, never in the end of the process."""
import contextlib
import copy
import io
import warnings

import numpy as np

from .common import vb, bf, make_xva, basis_specs, MODELS, NEEDS_A, METHODS, DEFAULT_OBS, estimator, admissible, snapshot, same_snapshot, series

BOUNDS = "39 public calls (and preparation with missing values) of estimators, models, integrators, fits and preparation on 6 models, 8 bases, 1 and 2 dimensions, in memory and out of core, trajectories of 30 and of 1300 times; 17 kinds of degenerate trajectories x 6 models x 8 bases x 7 methods x lengths of the correlation functions; 30 kinds of wrong calls"

DT = 0.5


class Guard:
    """Copies of everything handed in, and what was handed in."""

    def __init__(self):
        self.kept = []

    def __call__(self, obj, name):
        self.kept.append((name, obj, self._copy(obj)))
        return obj

    @staticmethod
    def _copy(o):
        import xarray as xr

        if isinstance(o, xr.Dataset):
            return snapshot(o)
        if isinstance(o, xr.DataArray):
            return (np.array(o), o.dims, {k: np.array(v) for k, v in o.coords.items()}, dict(o.attrs), o.name)
        if isinstance(o, np.ndarray):
            return (o.copy(), o.shape, o.dtype, o.strides)
        if isinstance(o, (list, tuple)):
            return (len(o), [id(x) for x in o], [Guard._copy(x) for x in o])
        if isinstance(o, dict):
            return copy.deepcopy(o)
        if hasattr(o, "compute"):  # dask
            return np.array(o)
        return o

    @staticmethod
    def _same(o, k):
        import xarray as xr

        if isinstance(o, xr.Dataset):
            return same_snapshot(k, snapshot(o))
        if isinstance(o, xr.DataArray):
            return np.array_equal(np.array(o), k[0], equal_nan=True) and o.dims == k[1] and set(o.coords) == set(k[2]) and all(np.array_equal(np.array(o.coords[q]), k[2][q]) for q in k[2]) and dict(o.attrs) == k[3] and o.name == k[4]
        if isinstance(o, np.ndarray):
            return o.shape == k[1] and o.dtype == k[2] and o.strides == k[3] and np.array_equal(o, k[0], equal_nan=o.dtype.kind == "f")
        if isinstance(o, (list, tuple)):
            return len(o) == k[0] and [id(x) for x in o] == k[1] and all(Guard._same(x, y) for x, y in zip(o, k[2]))
        if isinstance(o, dict):
            return o == k
        if hasattr(o, "compute"):
            return np.array_equal(np.array(o), k)
        return o == k

    def check(self, c):
        for name, o, k in self.kept:
            c.check(self._same(o, k), "%s is left alone" % name)


@contextlib.contextmanager
def quiet():
    with contextlib.redirect_stdout(io.StringIO()), warnings.catch_warnings():
        warnings.simplefilter("ignore")
        yield


# ------------------------------------------------------------- estimation calls
ESTIMATOR_CALLS = ["construct", "describe_data", "compute_basis_mean", "compute_gram_force", "compute_gram_kernel", "compute_effective_mass", "compute_pos_effective_mass", "compute_mean_force", "set_zero_force", "compute_corrs", "compute_corrs direct", "compute_kernel", "compute_kernel k0", "compute_projected_corrs", "check_volterra_inversion"]
MODEL_CALLS = ["compute_noise", "compute_noise part", "compute_corrs_w_noise", "compute_corrs_w_noise column", "compute_corrs_w_noise array", "compute_corrs_w_noise function", "force_eval", "force_eval dataset", "force_eval coefficients", "pmf_eval", "kernel_eval", "kernel_eval coefficients", "friction_force_eval", "get_const_kernel_part", "basis_vector", "evolve_volterra", "flux_from_volterra", "laplace_transform_kernel", "save and load"]


def estimation(c):
    v = vb()
    model = c.choose("model", MODELS)
    name = c.choose("basis", c.params.get("bases", list(basis_specs())))
    spec = basis_specs()[name]
    d = c.choose("dimension", [1, 2])
    rm = c.choose("remove_const", [True, False])
    c.skip_if(not admissible(model, spec, d, rm))
    store = c.choose("trajectories", ["in memory", "out of core"])
    c.skip_if(store == "out of core" and c.params["quick"] and name not in ("linear", "bspline"))
    c.skip_if(store == "out of core" and (name == "tensor" or not (rm or model not in ("Pos_gle", "Pos_gle_with_friction"))))
    method = c.choose("method", c.params["methods"])
    call = c.choose("call", ESTIMATOR_CALLS + MODEL_CALLS)
    c.skip_if(call == "friction_force_eval" and model != "Pos_gle_with_friction")
    c.skip_if(call == "get_const_kernel_part" and model != "Pos_gle_hybrid")
    c.skip_if(call == "evolve_volterra" and model != "Pos_gle_overdamped")
    c.skip_if(method.startswith("midpoint") and (call.startswith("compute_noise") or call.startswith("compute_corrs_w") or call in ("compute_projected_corrs", "flux_from_volterra", "evolve_volterra")))
    T = 6
    g = Guard()
    big = c.params.get("big", 0)
    dss = g([make_xva(big + 30 + 5 * i, seed=3 + i, d=d, dask=None if store == "in memory" else 11 + big // 5) for i in range(2)], "list of trajectories")
    lazy = store == "out of core"
    with quiet():
        basis = spec.make(rm)
        kw = g({"saveall": False, "verbose": True}, "arguments")
        est = v.Estimator_gle(dss, getattr(v, model), basis, trunc=(T - 1) * DT + 0.01, **kw)
        c.op()
        X = g(np.linspace(-1.0, 1.0, 5 * d).reshape(5, d), "points")
        shapes = [X, g(np.linspace(-1.0, 1.0, 5 * d), "flat points"), g(np.linspace(-1.0, 1.0, 6 * d).reshape(2, 3, d), "points in a grid"), g(np.linspace(-1.0, 1.0, 5 * d).reshape(5, d).tolist(), "list of points"), g(np.asfortranarray(np.linspace(-1.0, 1.0, 5 * d).reshape(5, d)), "points by columns"), g(np.arange(4 * d).reshape(4, d), "integer points")]
        other = g(make_xva(big + 25, seed=9, d=d), "other trajectory")

        def upto(stage):
            if stage >= 1:
                est.compute_mean_force()
            if stage >= 2:
                est.compute_corrs(rank_tol=1e-9)
            if stage >= 3:
                est.compute_kernel(method)
            return est.model

        if call == "describe_data":
            est.describe_data()
        elif call == "compute_basis_mean":
            est.compute_basis_mean("force")
            est.compute_basis_mean("kernel")
        elif call == "compute_gram_kernel":
            upto(2)
            est.compute_gram_kernel()
        elif call == "compute_pos_effective_mass":
            c.skip_if(d > 1)
            with contextlib.suppress(np.linalg.LinAlgError):
                est.compute_pos_effective_mass()
        elif call in ("compute_gram_force", "compute_effective_mass", "compute_mean_force", "set_zero_force"):
            getattr(est, call)()
        elif call == "compute_corrs":
            upto(2)
        elif call == "compute_corrs direct":
            upto(1)
            est.compute_corrs(rank_tol=1e-9, method="direct", second_order_method=False)
        elif call == "compute_kernel":
            upto(3)
        elif call == "compute_kernel k0":
            upto(2)
            K = est.bkdxcorrw.shape
            k0 = g(np.ones((K[0], K[1])) * 0.25, "initial value")
            est.compute_kernel(method, k0=k0)
        elif call == "compute_projected_corrs":
            upto(3)
            est.compute_projected_corrs()
            est.compute_projected_corrs(left_op="v")
        elif call == "check_volterra_inversion":
            upto(3)
            est.check_volterra_inversion()
            est.check_volterra_inversion(return_diff=True)
        elif call == "compute_noise":
            upto(3).compute_noise(other)
            est.model.compute_noise(dss[0])
        elif call == "compute_noise part":
            upto(3).compute_noise(other, trunc_kernel=3, start_point=2, end_point=20)
        elif call == "compute_corrs_w_noise":
            upto(3).compute_corrs_w_noise(other)
        elif call == "compute_corrs_w_noise column":
            upto(3).compute_corrs_w_noise(other, left_op="x")
        elif call == "compute_corrs_w_noise array":
            left = g(series(big + 25, 30, 2), "left operator")
            upto(3).compute_corrs_w_noise(other, left_op=left)
        elif call == "compute_corrs_w_noise function":
            upto(3).compute_corrs_w_noise(other, left_op=lambda xva: xva["v"])
        elif call == "force_eval":
            for y in shapes:
                upto(1).force_eval(y)
        elif call == "force_eval dataset":
            upto(1).force_eval(other)
        elif call == "force_eval coefficients":
            c.skip_if(model == "Pos_gle_with_friction")
            m = upto(1)
            m.force_eval(X, coeffs=g(m.force_coeff.copy(), "coefficients"))
            m.force_eval(X, coeffs=g(np.ones(m.force_coeff.shape), "array of coefficients"))
        elif call == "pmf_eval":
            c.skip_if(name == "tensor")
            m = upto(1)
            est.compute_effective_mass()
            with contextlib.suppress(NotImplementedError):
                for y in shapes:
                    m.pmf_eval(y)
                    m.pmf_eval(y, kT=2.0, set_zero=False)
        elif call == "kernel_eval":
            m = upto(3)
            for y in shapes:
                m.kernel_eval(y)
        elif call == "kernel_eval coefficients":
            m = upto(3)
            c.skip_if(model == "Pos_gle_hybrid")
            m.kernel_eval(X, coeffs_ker=g(np.ones(m.kernel.shape), "array of coefficients"))
            m.kernel_eval(X, coeffs_ker=g(m.kernel.copy(), "coefficients"))
        elif call == "friction_force_eval":
            m = upto(1)
            for y in shapes:
                m.friction_force_eval(y)
        elif call == "get_const_kernel_part":
            upto(3).get_const_kernel_part()
        elif call == "basis_vector":
            for w in ("force", "kernel", "corrs"):
                upto(2).basis_vector(other, compute_for=w)
        elif call in ("evolve_volterra", "flux_from_volterra"):
            m = upto(3)
            nk, nf = m.kernel.shape[1], m.force_coeff.shape[0]
            if call == "evolve_volterra":
                import xarray as xr

                m.force_coeff = g(xr.DataArray(-np.eye(nf), dims=("dim_basis", "dim_x")), "coefficients of the force")
                m.kernel = g(xr.DataArray(0.1 * np.ones((4, nk, nk)), dims=("time_kernel", "dim_basis", "dim_x"), coords={"time_kernel": np.arange(4) * DT}), "kernel")
                G0 = g(np.eye(nk), "initial value")
                for w in ("rect", "trapz", "trapz_stab"):
                    m.evolve_volterra(G0, 9, method=w)
                    m.evolve_volterra(G0, 9, method=w, trunc_ind=3)
            else:
                cf = g(series(nf * 2, 7, 8).reshape(2, nf, 8), "correlation of the force")
                ck = g(series(nk * 2, 8, 8).reshape(2, nk, 8), "correlation of the kernel")
                for w in ("rect", "trapz", "simpson"):
                    m.flux_from_volterra(cf, ck, method=w)
                m.flux_from_volterra(cf, ck, force_coeff=g(np.ones(m.force_coeff.shape), "given force"), kernel=g(np.ones(m.kernel.shape), "given kernel"), trunc_ind=3)
        elif call == "laplace_transform_kernel":
            upto(3).laplace_transform_kernel()
        elif call == "save and load":
            m = upto(3)
            saved = g(m.save_model(), "saved model")
            again = getattr(v, model).load_model(m.basis, saved)
            again.force_eval(X)
            again.kernel_eval(X)
            if not method.startswith("midpoint"):
                again.compute_noise(other)
    c.op()
    c.observe(call)
    g.check(c)
    c.check(all(("x" in ds) and set(ds.data_vars) == {"x", "v", "a"} for ds in dss), "no column is added")
    if lazy:
        c.check(all(hasattr(ds["x"].data, "dask") for ds in dss), "trajectories stay out of core")


# -------------------------------------------------------------- other functions
def functions(c):
    v = vb()
    import xarray as xr

    import VolterraBasis.correlation as co
    import VolterraBasis.fit_memory as fm
    import VolterraBasis.fit_prony as fp
    import VolterraBasis.gle_integrate as gi

    call = c.choose("call", ["xframe", "xframe fixed", "compute_a", "compute_a_from_vel", "compute_va", "compute_va jumps", "compute_va_gjf", "compute_va_gjf jumps", "concat_underdamped", "compute_1d_fe", "compute_1d_fe hist", "correlation_1D", "correlation_ND", "correlation_direct_1D", "correlation_direct_ND", "memory_fit", "memory_fit_kernel", "prony", "noise generator", "Karhunen-Loeve", "integrator", "initial conditions", "basis", "describe"])
    d = c.choose("dimension", [1, 2])
    memory = c.choose("layout", ["C", "F", "strided"])
    n = c.choose("length", [30, 41, 1500])
    missing = c.choose("missing values", [False, True])
    c.skip_if(missing and (n != 30 or call not in ("xframe", "xframe fixed", "compute_a", "compute_a_from_vel", "compute_va", "compute_va jumps", "compute_va_gjf", "compute_va_gjf jumps", "concat_underdamped", "compute_1d_fe", "compute_1d_fe hist", "correlation_1D", "correlation_ND", "correlation_direct_1D", "correlation_direct_ND", "basis", "describe")))

    def lay(a):
        if memory == "F":
            return np.asfortranarray(a)
        if memory == "strided":
            b = np.zeros((a.shape[0] * 2,) + a.shape[1:])
            b[::2] = a
            return b[::2]
        return a.copy()

    g = Guard()
    ds = make_xva(n, seed=4, d=d)
    if missing:
        ds = ds.assign({k: (["time", "dim_x"], np.where((np.arange(n) == i + 3)[:, None], w, np.array(ds[k]))) for i, (k, w) in enumerate((("x", np.nan), ("v", np.inf), ("a", np.nan)))})
    x, vel, acc = (g(lay(np.array(ds[k])), k) for k in ("x", "v", "a"))
    t = g(lay(np.arange(n) * DT), "times")
    with quiet(), (contextlib.suppress(Exception) if missing else contextlib.nullcontext()):  # it may be refused
        if call.startswith("xframe"):
            out = v.xframe(x, t, v=vel, a=acc, fix_time=call.endswith("fixed"), dt=0.25 if call.endswith("fixed") else -1)
            out2 = v.xframe(x, t, fix_time=call.endswith("fixed"))
            c.observe(out2.sizes)
            g(out, "dataset")
            v.compute_va(out2)
        elif call.startswith("compute_a") or call.startswith("compute_va") or call == "concat_underdamped":
            f = g(v.xframe(x * (3.0 if "jumps" in call else 1.0), t, v=None if call.startswith("compute_va") else vel), "dataset")
            if call == "concat_underdamped":
                f = g(v.xframe(x, t, v=vel, a=acc), "dataset with acceleration")
                out = v.concat_underdamped(f)
            else:
                out = getattr(v, call.split()[0])(f, **({"correct_jumps": True} if "jumps" in call else {}))
            c.observe(np.asarray(out["v"]))
        elif call.startswith("compute_1d_fe"):
            c.skip_if(d > 1)
            l = g([make_xva(60, seed=5), make_xva(70, seed=6)], "trajectories")
            c.observe(v.compute_1d_fe(l, bins=8, hist=call.endswith("hist"))[0])
        elif call.startswith("correlation"):
            f = getattr(co, call)
            if "ND" in call:
                a, b = g(lay(np.array(x.T)[:, None, :]), "first"), g(lay(np.array(vel.T)[None, :, :]), "second")
                e = g(lay(np.array(x.T)), "series")
                c.observe(np.asarray(f(a, b)), np.asarray(f(e, trunc=5)))
            else:
                a, b = g(lay(np.array(x[:, 0])), "first"), g(lay(np.array(vel[:, 0])), "second")
                c.observe(np.asarray(f(a, b)), np.asarray(f(a, trunc=5)))
        elif call == "memory_fit":
            y = g(lay(2.0 * np.exp(-0.2 * np.arange(n))), "kernel")
            for kind in ("exp", "expnorm", "gaussian", "sech_one", "prony"):
                p = g(fm.memory_fit(t, y, type=kind, **({"N_keep": 1} if kind == "prony" else {})), "fit")
                c.observe(np.asarray(fm.memory_fit_eval(t, p)))
        elif call == "memory_fit_kernel":
            K = g(lay(np.exp(-0.2 * np.arange(n))[:, None, None] * np.ones((1, 2, d))), "kernel")
            p = g(fm.memory_fit_kernel(t, K, type="exp"), "fit")
            c.observe(fm.memory_kernel_eval(t, p))
            fm.markovian_friction(t, K)
        elif call == "prony":
            K = g(lay(np.exp(-0.2 * np.arange(n))[:, None, None] * np.ones((1, 2, d))), "kernel")
            p = g(fp.prony_fit_kernel(t, K, N_keep=1), "fit")
            c.observe(fp.prony_series_kernel_eval(t, p))
            fp.prony_inspect_data(K[:, 0, 0], N_keep=1)
        elif call == "noise generator":
            K = g(lay(np.exp(-0.2 * np.arange(n))[:, None, None] * np.eye(d)), "kernel")
            c.observe(gi.ColoredNoiseGenerator(K, t, rng=fixed).generate(50))
        elif call == "Karhunen-Loeve":
            m = min(n, 41)
            K = g(lay(np.exp(-0.2 * np.abs(np.subtract.outer(np.arange(m), np.arange(m))))), "covariance")
            c.observe(gi.KarhunenLoeveNoiseGenerator(K, DT, rng=fixed).generate())
        elif call in ("integrator", "initial conditions"):
            K = g(lay(np.exp(-0.2 * np.arange(n))[:, None, None] * np.eye(d)), "kernel")
            F = g(-np.eye(d), "coefficients of the force")
            I = gi.Integrator_gle_const_kernel(None, basis=bf().LinearFeatures().fit(np.array(x)), force_coeff=F, kernel=K, dt=DT, verbose=False, rng=fixed)
            if call == "integrator":
                x0 = g(make_xva(3, seed=8, d=d), "initial values")
                c.observe(np.asarray(I.run(12, x0)["x"]), np.asarray(I.run(12)["x"]), np.asarray(I.run(12, x0, set_noise_to_zero=True)["x"]))
            else:
                l = g([make_xva(9, seed=5, d=d), make_xva(12, seed=6, d=d)], "trajectories")
                np.random.seed(3)
                s = I.initial_conditions(l, n_mem=2)
                c.observe(s.sizes)
                I.initial_conditions(l[0], n_mem=0)
        elif call == "basis":
            for name, spec in basis_specs().items():
                if d in spec.dims:
                    f = spec.make(True).fit(x)
                    f.basis(x)
                    f.deriv(x)
                    f.hessian(x)
                    with contextlib.suppress(NotImplementedError):
                        f.antiderivative(x)
        elif call == "describe":
            from VolterraBasis.basis import quick_describe, minimal_describe, sum_describe

            a, b = quick_describe(x), quick_describe(np.array(vel))
            s = g(list(a), "description")
            sum_describe(a, b)
            minimal_describe(x)
            c.observe(np.asarray(a.mean))
    c.op()
    g.check(c)


def fixed(*args, size=None, **kw):
    size = kw.get("size", size)
    if size is None:
        size = args[-1] if args else None
    n = int(np.prod(size))
    return np.sin(1.7 * np.arange(n) + 0.3).reshape(size)


# --------------------------------------------------------------- degenerate data
KINDS = ["zero position", "constant position", "no velocity", "no acceleration", "nothing moves", "not a number in x", "not a number in v", "not a number in a", "infinite x", "infinite v", "two values", "alternating", "no values", "one value", "two times", "three times", "huge", "tiny"]
# every kernel of these is singular for models whose kernel basis is built on the velocity
VELOCITY = {"Pos_gle", "Pos_gle_const_kernel", "Pos_gle_with_friction"}


def degenerate_data(kind, d):
    n = {"no values": 0, "one value": 1, "two times": 2, "three times": 3}.get(kind, 20)
    ds = make_xva(n, seed=3, d=d)
    val = {k: np.array(ds[k]) for k in ("x", "v", "a")}
    if kind in ("zero position",):
        val["x"][:] = 0
    elif kind == "constant position":
        val["x"][:] = 1.0
    elif kind == "no velocity":
        val["v"][:] = 0
    elif kind == "no acceleration":
        val["a"][:] = 0
    elif kind == "nothing moves":
        val["x"][:], val["v"][:], val["a"][:] = 1.0, 0.0, 0.0
    elif kind.startswith("not a number"):
        val[kind[-1]][4] = np.nan
    elif kind.startswith("infinite"):
        val[kind[-1]][4] = np.inf
    elif kind == "two values":
        val["x"][:] = np.where(np.arange(n)[:, None] % 3 == 0, 1.0, -1.0)
    elif kind == "alternating":
        for k in val:
            val[k][:] = np.where(np.arange(n)[:, None] % 2 == 0, 1.0, -1.0)
    elif kind == "huge":
        for k in val:
            val[k] *= 1e200
    elif kind == "tiny":
        for k in val:
            val[k] *= 1e-200
    return ds.assign({k: (["time", "dim_x"], a) for k, a in val.items()})


def degenerate(c):
    v = vb()
    kind = c.choose("trajectory", KINDS)
    model = c.choose("model", MODELS)
    name = c.choose("basis", c.params["bases"])
    spec = basis_specs()[name]
    d = c.choose("dimension", c.params["dims"])
    c.skip_if(d not in spec.dims)
    rm = c.choose("remove_const", [True, False])
    method = c.choose("method", METHODS)
    T = c.choose("values", c.params["values"])
    with_good = c.choose("together with", ["nothing", "a good trajectory"])
    g = Guard()
    dss = g([degenerate_data(kind, d)] + ([make_xva(25, seed=6, d=d)] if with_good != "nothing" else []), "trajectories")
    stage, K, F = "construct", None, None
    with quiet():
        try:
            est = estimator(model, spec.make(rm), dss, T, DT)
            stage = "mean force"
            est.compute_mean_force()
            F = np.asarray(est.model.force_coeff)
            stage = "correlations"
            est.compute_corrs()
            stage = "kernel"
            K = np.asarray(est.compute_kernel(method).kernel)
            stage = "noise"
            if not method.startswith("midpoint"):
                est.model.compute_noise(dss[0])
                stage = "projected correlations"
                est.compute_projected_corrs()
            stage = "done"
        except Exception as e:
            # an exception of Python is what the user can deal with
            c.observe(stage, type(e).__name__)
            c.op()
    c.observe(stage)
    g.check(c)
    if K is None:
        return
    moving = {"no velocity", "nothing moves"}
    if kind in moving and with_good == "nothing" and model in VELOCITY and K.size:
        c.check(not np.isfinite(K).all() or stage != "done", "a kernel is made out of nothing")
    if kind in ("not a number in x", "not a number in v") or (kind == "not a number in a" and DEFAULT_OBS[model] == "a"):
        c.check(not (np.isfinite(K).all() and np.isfinite(F).all()), "missing values are passed over in silence")
    if kind == "no values":
        c.check(False, "an empty trajectory is accepted")


# ------------------------------------------------------------------- wrong calls
WRONG = ["no time", "no dt", "no list", "empty list", "no x", "no v", "no a", "unknown observable", "basis without methods", "basis without fit", "unknown method", "method None", "noise before kernel", "noise before force", "midpoint noise", "midpoint correlations", "correlations before force", "kernel before correlations", "force before estimation", "pmf before estimation", "kernel evaluation before estimation", "wrong shape of kernel coefficients", "unknown purpose", "unknown flux method", "unknown evolution method", "midpoint evolution", "midpoint flux", "midpoint integration", "rank zero", "short rect", "short midpoint", "short richardson", "short trapz", "unknown bins", "long noise"]


def wrong(c):
    v = vb()
    import xarray as xr
    import VolterraBasis.gle_integrate as gi

    what = c.choose("wrong", WRONG)
    model = c.choose("model", MODELS)
    listed = c.choose("given as", ["dataset", "list"])
    d = c.choose("dimension", [1, 2])
    c.skip_if(what == "no a" and model not in NEEDS_A)
    c.skip_if(what in ("unknown evolution method", "midpoint evolution") and model != "Pos_gle_overdamped")
    c.skip_if(what == "wrong shape of kernel coefficients" and model == "Pos_gle_hybrid")
    c.skip_if(what == "rank zero" and model != "Pos_gle")
    c.skip_if(what.startswith("short") and d > 1)
    ds = make_xva(30, seed=5, d=d)
    if what == "no time":
        ds = ds.rename({"time": "t"})
    elif what == "no dt":
        ds = ds.assign_attrs()
        ds.attrs = {}
    elif what in ("no x", "no v", "no a"):
        ds = ds.drop_vars(what[-1])
    elif what == "rank zero":
        ds["v"] = ds["v"] * 0
    g = Guard()
    arg = g(ds if listed == "dataset" else [make_xva(28, seed=2, d=d), ds] if what not in ("rank zero",) else [ds], "trajectories")
    if what == "no list":
        arg = 5
    elif what == "empty list":
        arg = []
    basis = bf().LinearFeatures()
    kw = {}
    if what == "unknown observable":
        kw["L_obs"] = "charge"
    elif what == "basis without methods":
        basis = object()
    elif what == "basis without fit":
        class B:
            def basis(self, X):
                return X

            def deriv(self, X):
                return X

        basis = B()
    elif what == "rank zero":
        basis = bf().PolynomialFeatures(deg=2, remove_const=False)
    T = {"short rect": 1, "short midpoint": 1, "short richardson": 3, "short trapz": 1}.get(what, 8)
    raised = None
    with quiet():
        try:
            est = estimator(model, basis, arg, T, DT, **kw)
            m = est.model
            X = np.zeros((3, d))
            if what == "force before estimation":
                m.force_eval(X)
            elif what == "pmf before estimation":
                m.pmf_eval(X)
            elif what == "kernel evaluation before estimation":
                m.kernel_eval(X)
            elif what == "correlations before force":
                est.compute_corrs()
            elif what == "kernel before correlations":
                est.compute_kernel("rect")
            elif what == "noise before force":
                m.compute_noise(ds)
            elif what == "unknown purpose":
                m.basis_vector(ds, compute_for="tea")
            elif what == "unknown bins":
                v.compute_1d_fe([ds], bins=3.5)
            elif what == "long noise":
                K = np.exp(-np.arange(5.0))[:, None, None] * np.eye(1)
                gi.KarhunenLoeveNoiseGenerator(K, DT).generate(size=6)
            est.compute_mean_force()
            est.compute_corrs()
            if what == "noise before kernel":
                m.compute_noise(ds)
            if what == "unknown method":
                est.compute_kernel("simpson")
            if what == "method None":
                est.compute_kernel(None)
            est.compute_kernel({"short midpoint": "midpoint", "short richardson": "midpoint_w_richardson", "short trapz": "trapz"}.get(what, "midpoint" if what.startswith("midpoint") else "rect"))
            if what == "midpoint noise":
                m.compute_noise(ds)
            elif what == "midpoint correlations":
                est.compute_projected_corrs()
            elif what == "wrong shape of kernel coefficients":
                m.kernel_eval(X, coeffs_ker=np.ones((4, m.kernel.shape[1] + 1, m.kernel.shape[2])))
            elif what in ("unknown flux method", "midpoint flux"):
                cf = np.ones((2, m.force_coeff.shape[0], 6))
                ck = np.ones((2, m.kernel.shape[1], 6))
                m.flux_from_volterra(cf, ck, method="rect" if what == "midpoint flux" else "guess")
            elif what in ("unknown evolution method", "midpoint evolution"):
                m.force_coeff = xr.DataArray(np.eye(m.force_coeff.shape[0]), dims=("dim_basis", "dim_x"))
                nk = m.kernel.shape[1]
                m.kernel = xr.DataArray(np.ones((4, nk, nk)), dims=("time_kernel", "dim_basis", "dim_x"))
                m.evolve_volterra(np.eye(nk), 6, method="guess" if what.startswith("unknown") else "rect")
            elif what == "midpoint integration":
                est.compute_effective_mass()
                gi.Integrator_gle(m, coeffs_noise_kernel=np.eye(m.kernel.shape[1]), verbose=False)
        except Exception as e:
            raised = e
    c.op()
    c.observe(type(raised).__name__)
    c.check(raised is not None, "wrong call is refused", what)
    g.check(c)


def harnesses(tier):
    q = tier == "quick"
    return {
        "estimation": (estimation, {"quick": q, "methods": ["trapz"] if q else ["rect", "trapz", "midpoint", "second_kind_trapz"]}, 3),
        "large estimation": (estimation, {"quick": True, "methods": ["rect"], "bases": ["linear", "fourier1"], "big": 1300}, 3),
        "functions": (functions, {}, 2),
        "degenerate": (degenerate, {"values": [5] if q else [1, 2, 3, 5, 8], "bases": ["linear", "poly1", "bspline", "combined"] if q else list(basis_specs()), "dims": [1] if q else [1, 2]}, 3),
        "wrong calls": (wrong, {}, 2),
    }
