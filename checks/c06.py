"""Spreading the trajectories over several jobs gives the results of the serial estimator,
whatever the order in which the jobs run and end.

The jobs are run by a joblib backend of our own: it holds every submitted task back and
releases them in an order that the explorer decides, either on the shared objects (as
threads do) or on pickled copies (as worker processes do).  A second harness interleaves
two jobs line by line with real threads under a baton, with a bounded number of
preemptions."""
import contextlib
import itertools
import os
import sys
import threading

import numpy as np

from .common import MODELS, vb, bf, BasisSpec, make_xva, basis_specs, estimator, admissible, snapshot, same_snapshot

BOUNDS = "1 to 4 trajectories and 2 to 4 jobs, every order of execution of the tasks, shared and pickled; two concurrent tasks with every schedule of at most 1 (thorough: 2) preemptions at the lines of the package; 7 to 30 trajectories on 2 to 64 jobs; every history of 3 (thorough: 4) calls out of 8 on one estimator"
ASSUMPTIONS = ["joblib dispatches to the active backend (parallel_config); real threads and forked processes are run once each, outside the controlled scheduler"]

STEPS = ["mean force", "gram force", "effective mass", "pos effective mass", "basis mean", "corrs", "kernel", "gram kernel", "projected"]


def make_backend(order, mode):
    from joblib._parallel_backends import ParallelBackendBase
    import cloudpickle
    import pickle

    class Job:
        def __init__(self, backend, func, callback, k):
            self.b, self.func, self.callback, self.k = backend, func, callback, k
            self.done, self.out, self.err = False, None, None

        def run(self):
            try:
                if mode == "pickled":
                    f = pickle.loads(cloudpickle.dumps(self.func))
                    self.out = pickle.loads(pickle.dumps(f()))
                else:
                    self.out = self.func()
            except BaseException as e:  # handed to the caller, as a pool does
                self.err = e
            self.done = True
            if self.callback is not None:
                self.callback(self)

    class Backend(ParallelBackendBase):
        supports_sharedmem = mode == "shared"
        uses_threads = mode == "shared"
        supports_retrieve_callback = True
        supports_timeout = False
        default_n_jobs = 2

        def __init__(self, *a, **k):
            super().__init__(*a, **k)
            self.pending, self.count, self.trace = [], 0, []

        def effective_n_jobs(self, n_jobs):
            return n_jobs if n_jobs and n_jobs > 0 else 2

        def submit(self, func, callback=None):
            j = Job(self, func, callback, self.count)
            self.count += 1
            self.pending.append(j)
            return j

        apply_async = submit

        def start_call(self):
            self.pending, self.count = [], 0

        def step(self):
            # among the tasks in flight, the one that comes first in the chosen order
            j = min(self.pending, key=lambda j: order[j.k % len(order)])
            self.pending.remove(j)
            self.trace.append(j.k)
            j.run()

        def retrieve_result_callback(self, job):
            if job.err is not None:
                raise job.err
            return job.out

        @contextlib.contextmanager
        def retrieval_context(self):
            while self.pending:
                self.step()
            yield

    return Backend(nesting_level=0)


def results(est, upto=None, kernel="rect", corr_kw=None):
    out = {}
    est.compute_mean_force()
    out["mean force"] = [est.model.force_coeff.values, est.model.gram_force.values]
    est.compute_gram_force()
    out["gram force"] = [est.model.gram_force.values]
    est.compute_effective_mass()
    out["effective mass"] = [est.model.eff_mass.values]
    out["basis mean"] = [est.compute_basis_mean().values]
    est.compute_corrs(**(corr_kw or {}))
    out["corrs"] = [est.bkbkcorrw.values, est.bkdxcorrw.values, est.dotbkdxcorrw.values, np.asarray(est.dotbkbkcorrw)]
    est.compute_kernel(method=kernel)
    out["kernel"] = [est.model.kernel.values]
    est.compute_gram_kernel()
    out["gram kernel"] = [est.model.gram_kernel.values]
    out["basis mean of the kernel"] = [est.compute_basis_mean(basis_type="kernel").values]
    if type(est.model).__name__ in ("Pos_gle_no_vel_basis", "Pos_gle_overdamped"):
        est.compute_pos_effective_mass()
        out["pos effective mass"] = [est.model.inv_mass_coeff.values]
    t, pc = est.compute_projected_corrs()
    out["projected"] = [np.asarray(t), np.asarray(pc)]
    return out


def same(c, got, want, what):
    c.check(set(got) == set(want), "steps")
    for k in want:
        for i, (g, w) in enumerate(zip(got[k], want[k])):
            c.close(g, w, what + ": " + k, rtol=1e-9, atol=1e-12)


def orders(c):
    import joblib

    lens = c.choose("trajectories", [("2 equal", (12, 12)), ("3", (20, 9, 14)), ("4", (11, 16, 9, 13)), ("1", (15,))])
    n = len(lens)
    jobs = c.choose("n_jobs", [2, 3, 8])
    mode = c.choose("objects", ["shared", "pickled"])
    model = c.choose("model", c.params["models"])
    kw = c.choose("correlation", [("fft", {}), ("direct", {"method": "direct"}), ("vectorized", {"vectorize": True}), ("first order", {"second_order_method": False})])
    order = c.choose("order", list(itertools.permutations(range(n))))
    c.skip_if(kw and order not in (tuple(range(n)), tuple(range(n))[::-1]))
    spec = basis_specs()["poly3" if model in ("Pos_gle", "Pos_gle_overdamped") else "linear"]
    T = 5
    base = [make_xva(m, seed=2 * i + 1) for i, m in enumerate(lens)]
    want = results(estimator(model, spec.make(True), base, T), corr_kw=kw)
    before = [snapshot(b) for b in base]
    be = make_backend(order, mode)
    with joblib.parallel_config(backend=be, n_jobs=jobs):
        got = results(estimator(model, spec.make(True), base, T, n_jobs=jobs), corr_kw=kw)
    c.op(len(be.trace))
    c.check(n == 1 or len(be.trace) >= n, "the tasks were not given to the backend")
    c.observe(str(be.trace), got["kernel"][0])
    same(c, got, want, "parallel differs from serial")
    for b, s in zip(base, before):
        c.check(same_snapshot(snapshot(b), s), "trajectory modified")


class Baton:
    """Two real threads, one at a time; a switch happens only where the schedule says."""

    def __init__(self, n, switches):
        self.cv = threading.Condition()
        self.n, self.turn, self.alive = n, 0, set(range(n))
        self.switches, self.points = list(switches), 0

    def point(self, me):
        with self.cv:
            self.points += 1
            if self.switches and self.points == self.switches[0] and len(self.alive) > 1:
                self.switches.pop(0)
                self.turn = min(k for k in self.alive if k != me)
                self.cv.notify_all()
            while self.turn != me:
                self.cv.wait()

    def enter(self, me):
        with self.cv:
            while self.turn != me:
                self.cv.wait()

    def leave(self, me):
        with self.cv:
            self.alive.discard(me)
            if self.alive:
                self.turn = min(self.alive)
            self.cv.notify_all()


def threads_backend(switches, stats):
    from joblib._parallel_backends import ParallelBackendBase

    root = os.path.realpath(os.path.join(os.path.dirname(vb().__file__))) + os.sep

    inside = {}

    class Job:
        def __init__(self, b, func, callback):
            self.b, self.func, self.callback, self.done = b, func, callback, False

    class Backend(ParallelBackendBase):
        supports_sharedmem = uses_threads = True
        supports_retrieve_callback = True
        supports_timeout = False

        def effective_n_jobs(self, n_jobs):
            return 4

        def start_call(self):
            self.jobs = []

        def submit(self, func, callback=None):
            j = Job(self, func, callback)
            self.jobs.append(j)
            return j

        apply_async = submit

        def retrieve_result_callback(self, job):
            if job.err is not None:
                raise job.err
            return job.out

        @contextlib.contextmanager
        def retrieval_context(self):
            while any(not j.done for j in self.jobs):
                self.run_all()
            yield

        def run_all(self):
            todo = [j for j in self.jobs if not j.done]
            baton = Baton(len(todo), switches)

            def body(k, j):
                def tracer(frame, event, arg):
                    name = frame.f_code.co_filename
                    if name not in inside:
                        inside[name] = os.path.realpath(name).startswith(root)
                    if not inside[name]:
                        return None
                    if event in ("line", "return"):
                        baton.point(k)
                    return tracer

                baton.enter(k)
                sys.settrace(tracer)
                try:
                    j.out, j.err = j.func(), None
                except BaseException as e:
                    j.out, j.err = None, e
                finally:
                    sys.settrace(None)
                    j.done = True
                    baton.leave(k)

            ths = [threading.Thread(target=body, args=(k, j)) for k, j in enumerate(todo)]
            for t in ths:
                t.start()
            for t in ths:
                t.join()
            stats.append(baton.points)
            for j in todo:
                if j.callback is not None:
                    j.callback(j)

    return Backend(nesting_level=0)


def one_step(est, step):
    if step == "mean force":
        est.compute_mean_force()
        return [est.model.force_coeff.values, est.model.gram_force.values]
    if step == "corrs":
        est.compute_corrs()
        return [est.bkbkcorrw.values, est.bkdxcorrw.values, est.dotbkdxcorrw.values, est.dotbkbkcorrw.values]
    if step == "projected":
        t, pc = est.compute_projected_corrs()
        return [np.asarray(t), np.asarray(pc)]
    if step == "gram kernel":
        est.compute_gram_kernel()
        est.compute_pos_effective_mass()
        return [est.model.gram_kernel.values, est.model.inv_mass_coeff.values]
    est.compute_effective_mass()
    return [est.model.eff_mass.values, est.compute_basis_mean().values]


def fem():
    import skfem as S

    m = S.MeshTri()
    B = S.CellBasis(type(m)(m.p * 8.0 - 4.0, m.t), S.ElementTriP1())
    return BasisSpec("fem", lambda rm: bf().FEMScalarFeatures(B), None, False, (2,))


def interleave(c):
    import joblib

    model, bname = c.choose("model and basis", c.params["pairs"])
    step = c.choose("step", ["mean force", "corrs", "projected", "gram kernel", "effective mass"])
    c.skip_if(step == "gram kernel" and model not in ("Pos_gle_no_vel_basis", "Pos_gle_overdamped"))
    lens = c.choose("lengths", c.params["lengths"])
    c.skip_if(lens != c.params["lengths"][-1] and (model, bname) not in c.params["pairs"][: c.params["first"]])
    bound = c.params["preemptions"]
    block = c.choose("block of first preemptions", range(8))  # only divides the work
    spec = fem() if bname == "fem" else basis_specs()[bname]
    d = spec.dims[0]
    base = [make_xva(m + 20 * (d - 1), seed=2 * i + 1, d=d) for i, m in enumerate(lens)]

    def fresh(n_jobs):
        est = estimator(model, spec.make(True), base, 4, n_jobs=1)
        if step != "effective mass":
            est.compute_mean_force()
        if step == "projected":
            est.compute_corrs()
            est.compute_kernel(method="rect")
        if n_jobs > 1:
            e2 = estimator(model, spec.make(True), base, 4, n_jobs=n_jobs)
            e2.model = est.model
            return e2
        return est

    want = one_step(fresh(1), step)
    stats = []
    with joblib.parallel_config(backend=threads_backend([], stats), n_jobs=2):
        got = one_step(fresh(2), step)
    c.check(stats and stats[0] > 2, "the tasks were not given to the backend")
    total = stats[0]
    switches = []
    last = 0
    for p in range(bound):
        opts = ["none"] + list(range(last + 1, total + 1))
        if p == 0:
            opts = [o for o in opts if (0 if o == "none" else o) % 8 == block]
        s = c.choose("preemption %d" % (p + 1), opts)
        if s == "none":
            break
        switches.append(s)
        last = s
    if switches:
        with joblib.parallel_config(backend=threads_backend(switches, stats), n_jobs=2):
            got = one_step(fresh(2), step)
        c.op(stats[-1])
    c.observe(*got)
    for i, (g, w) in enumerate(zip(got, want)):
        c.close(g, w, "interleaved jobs differ from serial: " + step, rtol=1e-9, atol=1e-12)


def many(c):
    """More trajectories than jobs, by far."""
    import joblib

    n = c.choose("trajectories", [7, 12, 30])
    jobs = c.choose("n_jobs", [2, 5, 16, 64])
    mode = c.choose("objects", ["shared", "pickled"])
    model = c.choose("model", c.params["models"])
    spec = basis_specs()["poly3" if model in ("Pos_gle", "Pos_gle_overdamped") else "linear"]
    T = 5
    base = [make_xva(11 + (5 * i) % 9, seed=2 * i + 1) for i in range(n)]
    want = results(estimator(model, spec.make(True), base, T))
    before = [snapshot(b) for b in base]
    # first, last, rotated by a third, odd ones first
    order = c.choose("order", [tuple(range(n)), tuple(range(n))[::-1], tuple((i + n // 3) % n for i in range(n)), tuple((i * 7) % n if n % 7 else (i * 5) % n for i in range(n))])
    be = make_backend(order, mode)
    with joblib.parallel_config(backend=be, n_jobs=jobs):
        got = results(estimator(model, spec.make(True), base, T, n_jobs=jobs))
    c.op(len(be.trace))
    c.check(len(be.trace) >= n, "the tasks were not given to the backend")
    c.observe(str(be.trace), got["kernel"][0])
    same(c, got, want, "parallel differs from serial")
    for b, s in zip(base, before):
        c.check(same_snapshot(snapshot(b), s), "trajectory modified")


def real(c):
    """Free running threads and forked processes."""
    import joblib

    backend = c.choose("backend", ["threading", "multiprocessing"])
    jobs = c.choose("n_jobs", [2, 3])
    model = c.choose("model", ["Pos_gle", "Pos_gle_overdamped"])
    spec = basis_specs()["poly3"]
    base = [make_xva(m, seed=2 * i + 1) for i, m in enumerate((20, 9, 14, 31))]
    want = results(estimator(model, spec.make(True), base, 5))
    try:
        with joblib.parallel_config(backend=backend, n_jobs=jobs):
            got = results(estimator(model, spec.make(True), base, 5, n_jobs=jobs))
    except ValueError as e:
        c.skip_if("does not support return_as" in str(e))  # a limit of that joblib backend
        raise
    c.observe(got["kernel"][0])
    same(c, got, want, "parallel differs from serial")


def histories(c):
    """Several computations in a row on the same estimator: every one of them works with what is
    in the model by then, as the serial one does."""
    import joblib

    model = c.choose("model", c.params["models"])
    jobs = c.choose("n_jobs", [2, 3])
    mode = c.choose("objects", ["shared", "pickled"])
    calls = ["mean force", "zero force", "half the force", "corrs", "corrs, first order", "gram kernel", "basis mean", "other trajectories"]
    spec = basis_specs()["poly3" if model in ("Pos_gle", "Pos_gle_overdamped") else "linear"]
    T = 4
    lens = (12, 9)
    base = [make_xva(m, seed=2 * i + 1) for i, m in enumerate(lens)]
    ests = [estimator(model, spec.make(True), base, T), estimator(model, spec.make(True), base, T, n_jobs=jobs)]

    def do(e, call):
        if call == "mean force":
            e.compute_mean_force()
            return [e.model.force_coeff.values, e.model.gram_force.values]
        if call == "zero force":
            e.model.force_coeff = 0.0 * e.model.force_coeff
            return []
        if call == "half the force":
            e.model.force_coeff = 0.5 * e.model.force_coeff
            return []
        if call.startswith("corrs"):
            e.compute_corrs(second_order_method=call == "corrs")
            return [e.bkbkcorrw.values, e.bkdxcorrw.values, e.dotbkdxcorrw.values]
        if call == "gram kernel":
            e.compute_gram_kernel()
            return [e.model.gram_kernel.values]
        if call == "basis mean":
            return [e.compute_basis_mean().values]
        e.xva_list = [2.0 * x for x in e.xva_list[::-1]]
        e.weights = e.weights[::-1]
        return []

    do(ests[0], "mean force")
    with joblib.parallel_config(backend=make_backend((1, 0), mode), n_jobs=jobs):  # never the real pool: the explorer forks
        do(ests[1], "mean force")
    for i in range(c.params["depth"]):
        call = c.choose("call %d" % (i + 1), calls)
        want = do(ests[0], call)
        with joblib.parallel_config(backend=make_backend((1, 0), mode), n_jobs=jobs):
            got = do(ests[1], call)
        c.op()
        c.observe(call, *got)
        for g, w in zip(got, want):
            c.close(g, w, "parallel differs from serial after earlier calls: " + call, rtol=1e-9, atol=1e-12)


PAIRS = [("Pos_gle", "bspline"), ("Pos_gle_overdamped", "linear"), ("Pos_gle_const_kernel", "poly3"), ("Pos_gle_no_vel_basis", "fourier1"), ("Pos_gle_hybrid", "poly3"), ("Pos_gle_with_friction", "linear_c"), ("Pos_gle_overdamped", "bspline"), ("Pos_gle_no_vel_basis", "tensor"), ("Pos_gle_overdamped", "combined"), ("Pos_gle_const_kernel", "fem")]


def harnesses(tier):
    q = tier == "quick"
    return {
        "orders": (orders, {"models": ["Pos_gle", "Pos_gle_const_kernel", "Pos_gle_overdamped"] if q else MODELS}, 4),
        "interleavings": (interleave, {"pairs": PAIRS, "lengths": [(12, 9), (10, 10)], "preemptions": 1, "first": 2 if q else 9}, 4),
        **({} if q else {"two preemptions": (interleave, {"pairs": [(m, "bspline" if m == "Pos_gle" else "linear") for m in MODELS], "lengths": [(12, 9)], "preemptions": 2, "first": 9}, 4)}),
        "real": (real, {}, 1),
        "histories": (histories, {"models": ["Pos_gle", "Pos_gle_overdamped"] if q else MODELS, "depth": 3 if q else 4}, 4),
        "many": (many, {"models": ["Pos_gle", "Pos_gle_hybrid", "Pos_gle_overdamped"] if q else MODELS}, 3),
    }
