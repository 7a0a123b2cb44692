"""Writes properties.jsonl and MANIFEST.json from the list below (checks that exist)."""
import json
import os

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PKG = "VolterraBasis/"

# id, title, statement, over, quantifier, why tests cannot, files, mechanisms
P = []


def prop(id, title, statement, over, text, why, files, mech, technique=None, note=None):
    P.append(dict(id=id, title=title, statement=" ".join(statement.split()), over=over, text=text, why=why, files=files, mech=mech, technique=technique, note=note))


prop("C01", "Loading a trajectory keeps positions, times and the time step",
     """xframe returns a dataset whose positions, and velocities and accelerations when given, are those passed in (one-dimensional input becomes one column),
     indexed by the given times, with the time step in its attributes. When times are fixed, they are equally spaced at the rounded, or the given, time step and start at zero; otherwise they are returned as given.""",
     ["inputs", "configurations"], "every container type and shape, with and without v and a, every time-fixing option",
     "The tests load two fixed arrays with default options.", ["__init__.py"], [("xframe", "__init__.py:xframe")])
prop("C02", "Velocities and accelerations are the stated finite differences",
     """compute_va, compute_va_gjf, compute_a and compute_a_from_vel return, at every inner time, exactly their documented finite differences of the positions (or velocities) of the same time,
     in every dimension, with the end points dropped and times, attributes and positions kept. With correct_jumps, a step whose size reaches the threshold is shortened by one period, so that a wrapped trajectory gives the velocities of the unwrapped one. concat_underdamped stacks positions and velocities into the position, and velocities and accelerations into the velocity, of the phase-space dataset.""",
     ["inputs", "histories"], "every trajectory length and dimension, every position of an impulse, every sequence of steps around a periodic jump",
     "One trajectory, values never compared with a formula, jumps never exercised in both directions.", ["__init__.py"], [("compute_va, compute_va_gjf, compute_a, compute_a_from_vel, concat_underdamped", "__init__.py")])
prop("C03", "The free energy profile counts every sample exactly once",
     """The histogram behind compute_1d_fe counts every sample of every trajectory in exactly one bin, whatever the order of trajectories and however the samples are cut into trajectories.
     The returned profile is minus the logarithm of the normalised histogram, shifted to a zero minimum, at the centres of the occupied bins; the returned force is proportional to minus its gradient and kT, and the accelerations and squared velocities are the averages over the samples of each bin.""",
     ["inputs", "configurations"], "every placement of samples on bins and bin edges, every split into trajectories",
     "The function is called once in the tests, without values.", ["__init__.py"], [("compute_1d_fe", "__init__.py:compute_1d_fe")])
prop("C04", "Correlation functions are averages over all pairs of times",
     """For series a and b of length N the correlation functions return, at lag n, the sum of a(t) b(t+n) over the N-n available t divided by N-n, for every lag below the truncation (or N).
     The FFT and direct implementations, and the one-dimensional and broadcast ones, agree, whatever the length, and with one argument return the correlations of the series with themselves.""",
     ["inputs", "configurations"], "every length, every pair of unit impulses (the map is bilinear), every truncation",
     "Compared once on one random series.", ["correlation.py"], [("correlation_1D, correlation_ND, correlation_direct_1D, correlation_direct_ND", "correlation.py")])
prop("C05", "Several trajectories are averaged with their lengths as weights",
     """Every estimate (gram matrix, mean force, correlation functions, effective mass, mean of the basis, projected correlations) from several trajectories is the average of the single-trajectory
     averages weighted by trajectory length, whatever their order and number. Static averages therefore do not change when the same samples are cut into pieces.""",
     ["inputs", "histories"], "every order of up to 4 trajectories of different lengths, every cut of a trajectory, all models",
     "Tests use two copies of a trajectory, for which any weights give the same.", ["gle_estimation.py", "basis/_data_describe.py"], [("weighted loop over trajectories", "gle_estimation.py:_loop_over_trajs_serial"), ("pooled description of the data", "basis/_data_describe.py:sum_describe")])
prop("C06", "Parallel jobs give the results of the serial estimator under every schedule",
     """An estimator with n_jobs larger than one returns the results of the serial estimator for the mean force, gram matrices, masses, correlation functions, kernels and projected correlations,
     whatever the order in which the jobs run, end or are interleaved, and whether they share memory or work on copies. Parallel evaluation leaves the trajectories as they were.""",
     ["schedules", "configurations"], "every order of execution of the tasks, every interleaving of two tasks with a bounded number of preemptions",
     "Tests run n_jobs=4 once with whatever schedule the machine produces.", ["gle_estimation.py"], [("parallel loop over trajectories", "gle_estimation.py:_loop_over_trajs_parallel")])
prop("C07", "Out-of-core trajectories give the results of in-memory ones",
     """An estimator fed with dask trajectories, or with a mix of dask and in-memory ones, gives the same mean force, correlation functions, kernel, effective mass, projected correlations and noise as with the same data in memory,
     for every chunking along time.""",
     ["inputs", "configurations"], "every chunking of a trajectory, all models, both correlation methods",
     "Tests use a few chunk sizes and check that nothing raises.", ["gle_estimation.py", "models.py", "__init__.py"], [("parallelised apply_ufunc", "models.py:basis_vector"), ("weighted loop", "gle_estimation.py")])
prop("C08", "The mean force is the orthogonal projection of the observable on the basis",
     """After compute_mean_force the force coefficients minimise the mean squared difference between the chosen observable and the force: what is left over is orthogonal, over all samples, to every function of the force basis.
     An observable inside the span of the basis is reproduced exactly, and set_zero_force gives a zero force of the right shape.""",
     ["inputs", "configurations"], "every model, basis, dimension, observable; every basis function as the observable",
     "Tests only check that coefficients have the right shape.", ["gle_estimation.py", "models.py"], [("projection", "gle_estimation.py:_projection_on_basis, compute_mean_force"), ("basis of the force", "models.py:basis_vector")])
prop("C09", "Effective masses and gram matrices follow their definitions",
     """The effective mass is the inverse of the mean of the outer product of velocities, over all trajectories; the gram matrices are the means of products of basis functions (of the force basis; of the kernel basis, projected when the model projects);
     the position dependent inverse mass is the projection of the squared velocity on the basis.""",
     ["inputs", "configurations"], "every model, basis, dimension, order of trajectories, every small set of unit velocities",
     "Tests check that a value is stored.", ["gle_estimation.py"], [("equipartition", "gle_estimation.py:compute_effective_mass, compute_pos_effective_mass"), ("gram", "gle_estimation.py:compute_gram_force, compute_gram_kernel")])
prop("C10", "Correlation matrices are those of the model's basis, however computed",
     """compute_corrs returns, for every lag below the truncation, the correlations of the kernel basis and of its time derivative with the kernel basis and with the part of the observable that the force leaves over, the same for every method (fft or direct, vectorised or not).
     When the model projects onto the range of the basis, the kept directions are orthonormal, are those whose singular value exceeds the tolerance, contain the whole range of the correlations, and all matrices are the projected ones.""",
     ["inputs", "configurations"], "every model, basis, method, lag and impulse; every rank tolerance between two singular values",
     "Tests compare shapes for one basis.", ["gle_estimation.py", "models.py", "correlation.py"], [("correlations", "gle_estimation.py:_correlation_ufunc, compute_corrs"), ("range projection", "models.py:_set_range_projection")])
prop("C11", "The kernel solves the discretised Volterra equation of its method",
     """compute_kernel returns values that satisfy, at every time step, the discretised first or second kind Volterra equation of the chosen method (rectangular, midpoint, midpoint with Richardson extrapolation, trapezoidal with smoothing, second kind rectangular and trapezoidal) for the computed correlation matrices,
     for any number of basis functions and observables. Methods that need an initial value start from the given one, or from the one computed from the derivative correlations, and the kernel carries its times.""",
     ["inputs", "configurations"], "every method, size and unit impulse of the right hand side; every model and basis end to end",
     "Tests check shapes of the result for one random trajectory.", ["fkernel.f90", "gle_estimation.py"], [("inversions", "fkernel.f90:kernel_first_kind_*, kernel_second_kind_*"), ("choice of method", "gle_estimation.py:compute_kernel")])
prop("C12", "Truncation keeps a prefix and never looks ahead",
     """Correlation functions and kernel have one value per time step up to the truncation time, or up to the shortest trajectory if that is shorter, with the matching time axis.
     A longer truncation only appends values: what was computed for earlier times does not change, and no kernel value depends on correlations later than the equation that determines it.""",
     ["inputs", "configurations"], "every truncation time, every pair of truncations, every later perturbation of the correlations",
     "One truncation time is tested.", ["gle_estimation.py", "fkernel.f90"], [("truncation index", "gle_estimation.py:_compute_trunc_ind"), ("time axis of the kernel", "gle_estimation.py:compute_kernel"), ("forward substitution", "fkernel.f90")])
prop("C13", "Kernels converge to the true kernel at the order of the method",
     """For correlation functions generated by a known kernel, the kernels returned by compute_kernel tend to it when the time step tends to zero: at first order for the rectangular methods, at second order for the midpoint (after its first value), trapezoidal and second kind trapezoidal methods, and faster still with Richardson extrapolation.""",
     ["inputs", "configurations"], "every combination of a family of exactly solvable equations, every method, a ladder of time steps",
     "No test compares a kernel with a known one.", ["fkernel.f90", "gle_estimation.py"], [("inversions", "fkernel.f90"), ("smoothing, extrapolation", "gle_estimation.py:compute_kernel")])
prop("C14", "compute_noise splits the observable into force, memory and noise",
     """The noise, force and memory returned by compute_noise add up to the observable at every time of the chosen window; the force is the projected mean force and the memory is minus the convolution of the kernel, or its first trunc_kernel values, with the basis along that window, in the quadrature of the kernel's method.
     Kernels that live on another time grid are refused with an error that names the method.""",
     ["inputs", "configurations"], "every unit impulse of kernel and trajectory, every window and kernel truncation, every model and basis",
     "Tests check the shape of the noise of one trajectory.", ["models.py", "fkernel.f90"], [("noise", "models.py:compute_noise"), ("convolution", "fkernel.f90:memory_rect, memory_trapz")])
prop("C15", "Projected correlations follow the projected dynamics",
     """compute_projected_corrs returns, at time n, the correlation between the left operator (the residual force, a column, a function of the trajectory or an array) and the noise that n steps of the projected dynamics produce from the residual force,
     averaged over all available start times and over trajectories, with its time axis.""",
     ["inputs", "configurations"], "every impulse of kernel, residual and operator; every model, basis and kind of operator",
     "Tests check that the call works for one model.", ["models.py", "fkernel.f90", "gle_estimation.py"], [("projected dynamics", "fkernel.f90:corrs_rect, corrs_trapz"), ("operators", "models.py:compute_corrs_w_noise")])
prop("C16", "Estimates depend on the span of the basis only",
     """Bases that span the same functions (monomials, Legendre, Chebyshev, other orthogonal polynomials and splines without inner knots; a basis and its linear transforms) give the same force, memory kernel and noise as functions of position, although the coefficients differ.
     Removing the constant from the basis or projecting it out gives the same kernel and noise.""",
     ["inputs", "configurations"], "every pair of bases of the same span, every model and method",
     "No test compares two bases.", ["models.py", "basis/_basis_features.py", "basis/_local_features.py", "gle_estimation.py"], [("evaluation", "models.py:force_eval, kernel_eval, compute_noise"), ("removal of the constant", "models.py, basis")])
prop("C17", "Basis functions, their derivatives and antiderivatives are consistent",
     """For every basis the values are those of the stated functions at the given positions; deriv and hessian are their exact first and second derivatives in every dimension (without the constant when it is removed), and the antiderivative differentiates back to the values.
     Splines and smooth indicators sum to one inside their range, periodic bases are periodic, combined bases concatenate and tensorial bases multiply their parts.""",
     ["inputs", "configurations"], "every basis and its parameters, every point of grids that include knots and edges, dimensions 1 to 3",
     "Tests check shapes of the outputs.", ["basis/_basis_features.py", "basis/_local_features.py", "basis/_multidim_basis.py"], [("global bases", "basis/_basis_features.py"), ("local bases", "basis/_local_features.py"), ("combination", "basis/_multidim_basis.py")])
prop("C18", "Finite element bases and meshes are consistent",
     """Every point of a mesh, vertices, edges and the ends of the domain included, is found in an element that contains it; finite element functions take their nodal values, sum to one, reproduce linear functions exactly, and their gradients are exact, in 1D, 2D and 3D.
     Estimators on a finite element basis give the projection and the correlation matrices of those functions; meshes built from data cover all of them, with the requested ends and sizes.""",
     ["inputs", "configurations"], "every element, every node and grid point of small meshes in 1 to 3 dimensions",
     "Tests evaluate one mesh on one trajectory and check shapes.", ["basis/_fem_features.py", "basis/_mesh_utils.py"], [("element search and basis", "basis/_fem_features.py"), ("meshes", "basis/_mesh_utils.py")])
prop("C19", "Evaluation functions return the function the coefficients describe",
     """force_eval, pmf_eval, kernel_eval, friction_force_eval and, in one dimension and for the models whose kernel and force bases agree, inv_mass_eval return, at any points given as an array or a dataset, the combination of basis functions (antiderivatives, derivatives) with the stored, or given, coefficients.
     The gradient of the potential of mean force is minus the force times the effective mass over kT, with a zero minimum (one common shift, that keeps the differences between observables) unless asked otherwise, and evaluation point by point equals evaluation of all points at once.""",
     ["inputs", "configurations"], "every model, basis, dimension and form of the input; stored and given coefficients",
     "Tests check shapes.", ["models.py"], [("evaluation", "models.py:force_eval, pmf_eval, kernel_eval, friction_force_eval, inv_mass_eval")])
prop("C20", "A saved model is restored completely",
     """save_model followed by load_model, directly or through a netCDF file, gives a model with the same coefficients, kernel, gram matrices, masses, projection, method and parameters, whose evaluations and noise are identical, at every stage of the estimation.
     With saveall, the correlation functions and the kernel are written under the chosen prefix, and only there.""",
     ["histories", "configurations"], "every model, every stage of the estimation at which a model can be saved",
     "One model is saved and loaded at one stage.", ["models.py", "gle_estimation.py"], [("save and load", "models.py:save_model, load_model"), ("files", "gle_estimation.py:compute_corrs, compute_kernel")])
prop("C21", "Results do not depend on the history of calls",
     """Whatever sequence of estimator calls was made before, successful or refused, every result equals that of a fresh estimator given only the calls it needs.
     A call whose prerequisites are missing raises an exception that says what is missing and leaves the estimator as it was, so that the missing step can be done and the call repeated.""",
     ["histories"], "every sequence of API calls up to a fixed depth, on every model",
     "Tests make the calls once in the recommended order.", ["gle_estimation.py", "models.py"], [("state of the estimator and model", "gle_estimation.py, models.py")])
prop("C22", "Results are covariant under changes of units and origin",
     """Changing the unit of length, the unit of time or the origin of time (and of positions, for bases that contain it) of the trajectories changes every result only by the corresponding factor: forces, kernels, masses, correlations, noises.
     Mirror images and permutations of components give mirrored and permuted results.""",
     ["inputs"], "every combination of unit changes, every model and method",
     "No test runs the same data in two units.", ["gle_estimation.py", "models.py", "fkernel.f90", "__init__.py"], [("time step", "gle_estimation.py:compute_kernel"), ("convolutions", "models.py:compute_noise")])
prop("C23", "Evolution of the Volterra equation and its flux decomposition",
     """evolve_volterra returns the solution of the discretised integro-differential equation of the stored force and kernel from the given initial value, for the rectangular and trapezoidal rules (stabilised: every row stays a probability vector), with the memory limited to the given number of kernel values; it converges to the exact solution when the time step tends to zero and without memory it is the Euler solution.
     flux_from_volterra decomposes the time derivative into the force term and the convolution term of the same kernel.""",
     ["inputs", "configurations"], "every unit impulse of kernel and force, every length of memory and of evolution",
     "Tests check that the call works.", ["models.py", "fkernel.f90", "gfpe_instance.py"], [("evolution", "fkernel.f90:solve_ide_*"), ("flux", "models.py:flux_from_volterra")])
prop("C24", "The integrator solves the noise-free GLE",
     """Without noise, the integrator returns the trajectory of the generalised Langevin equation with the model's force and kernel: without memory it is the fourth order Runge-Kutta trajectory, with memory the convolution with the past trajectory enters as the trapezoidal rule.
     Initial conditions are taken from times of the trajectories that have enough history, for every answer of the random generator.""",
     ["inputs", "configurations", "histories"], "every kernel length and unit kernel, every start index the generator can return",
     "Tests check that the integrator returns something.", ["gle_integrate.py"], [("integrators", "gle_integrate.py")])
prop("C25", "Generated noise has the requested covariance",
     """Noise generators are linear in the white noise they draw; the response to unit impulses of the white noise gives the covariance of the generated noise: it equals the requested correlation (exactly for the exact generators) and is the same at all times.""",
     ["inputs", "configurations"], "every unit impulse of the white noise",
     "Tests check shapes of one sample.", ["gle_integrate.py"], [("generators", "gle_integrate.py")])
prop("C26", "Kernel fits recover kernels of the fitted form",
     """The memory fits recover the parameters of kernels that have exactly the fitted form (exponentials, hyperbolic secants, gaussians, Prony series of decaying, oscillating or alternating terms), every component on its own, and the fitted function evaluates to the same kernel at any time.""",
     ["inputs"], "every member of a grid of kernels of the fitted form",
     "Tests fit one kernel and check shapes.", ["fit_memory.py", "fit_prony.py"], [("fits", "fit_memory.py"), ("Prony series", "fit_prony.py")])
prop("C27", "Laplace transform and inversion check agree with the kernel",
     """laplace_transform_kernel returns the integral of the kernel times exp(-st) over the kernel's times by Simpson's rule for the requested values of s.
     check_volterra_inversion returns minus the trapezoidal convolution of correlation matrix and kernel on the time grid of the kernel, which for an exact kernel reproduces the correlation of the observable, or its absolute difference to it.""",
     ["inputs", "configurations"], "every unit impulse of the kernel, every method, every range of s",
     "Tests check shapes.", ["models.py", "gle_estimation.py"], [("Laplace transform", "models.py:laplace_transform_kernel"), ("check", "gle_estimation.py:check_volterra_inversion")])
prop("C28", "User data are never modified and bad input ends in an exception",
     """No estimator, model, basis or analysis call changes the trajectories, coefficients, points or arrays handed in (to_gfpe, which documents it, excepted).
     Wrong calls (missing columns or steps, too short correlations, unknown methods, kernels on another time grid) raise a Python exception; degenerate data (nothing moves, missing values, singular correlations) raise one or give non-finite results, and never end the process or read outside of an array.""",
     ["inputs", "histories"], "every public call on every model with every degenerate input",
     "Tests only feed regular data and do not look at the input afterwards.", ["__init__.py", "gle_estimation.py", "models.py", "fkernel.f90", "basis"], [("checks of the input", "gle_estimation.py:_do_check, _do_check_obs"), ("inverse", "fkernel.f90:inv")])


def main():
    have = {f[:-3].upper() for f in os.listdir(os.path.join(V, "checks")) if f.startswith("c") and f[1:3].isdigit()}
    props, checks = [], []
    for p in P:
        if p["id"] not in have:
            continue
        assert len(p["title"]) <= 80, p["id"]
        assert p["statement"].count(". ") <= 2, p["id"]
        fs = [f if f.startswith("doc") else PKG + f for f in p["files"]]
        props.append({"id": p["id"], "title": p["title"], "statement": p["statement"], "quantifier": {"over": p["over"], "text": p["text"]}, "why_tests_cant": p["why"], "anchors": {"files": fs, "mechanism": [{"name": a, "where": PKG + b} for a, b in p["mech"]]}})
        checks.append({
            "property": p["id"],
            "quick_cmd": "./run.sh %s --tier quick" % p["id"],
            "thorough_cmd": "./run.sh %s --tier thorough" % p["id"],
            "evidence_file": "evidence/%s.json" % p["id"],
            "technique": p["technique"] or "bounded exhaustive (stateless) model checking of the real code against an executable reference model",
            "level": "model_checking",
            "level_note": p["note"] or "Every execution of the choice tree stated in the evidence is run on the real code and compared with an independent reference; nothing is claimed outside the bounds. Trusts numpy, scipy, xarray and the reference model in checks/.",
        })
    with open(os.path.join(V, "properties.jsonl"), "w") as f:
        for p in props:
            f.write(json.dumps(p) + "\n")
    with open(os.path.join(V, "MANIFEST.json"), "w") as f:
        json.dump({"version": 1, "setup_cmd": "./setup.sh", "checks": checks, "not_applicable": []}, f, indent=1)
        f.write("\n")


main()
