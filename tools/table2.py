prop(
    "C23", "Generated noises have the requested covariance",
    "The noise generators turn the numbers drawn from the given source linearly into noise whose covariance is the requested one: for KarhunenLoeveNoiseGenerator the given covariance matrix exactly (its helper builds the Toeplitz matrix of a correlation, with its backward part if given), for the coloured noise of the integrators the diagonal components of the kernel at the difference of the times, from the first frame and however few are asked, the components being independent. The number of frames is the one asked for, asking a Karhunen-Loeve noise longer than its covariance is refused, and the arguments are not modified.",
    ["inputs", "configurations"], "positive definite correlations made of damped, possibly oscillating exponentials or Gaussians, general and singular covariance matrices, 1 to 3 components, every length, time step and number of frames",
    "No test draws a noise; a test of samples could only see gross errors of the covariance.", [("ColoredNoiseGenerator, KarhunenLoeveNoiseGenerator", GI)],
    "the linear filter is read off column by column with a deterministic source of unit impulses, and its exact covariance compared with the requested one", ["KarhunenLoeveNoiseGenerator.generate", "ColoredNoiseGenerator.generate"])
prop(
    "C25", "The integrators integrate the generalised Langevin equation of the model",
    "Integrator_gle and Integrator_gle_const_kernel return positions and velocities frame after frame, the first ones being those given, such that each step is a fourth order Runge-Kutta step of dv/dt = force(x) - memory + noise with the trapezoidal memory of the (truncated, projected) kernel interpolated over the step: for linear forces and exponential kernels they converge with second order to the exact solution, and a trajectory continued from its own first frames is the same. The random force has the covariance given by the kernel and the noise coefficients; initial_conditions draws consecutive frames of one of the trajectories; nothing given is modified.",
    ["inputs", "configurations", "histories"], "every basis, force, kernel of at least three frames, dimension 1 to 3, time step, number of steps, initial history, truncation and noise",
    "No test runs the integrator.", [("Integrator_gle.run", GI), ("Integrator_gle_const_kernel", GI), ("initial_conditions", GI)],
    "the scheme written step by step with numpy, the exponential of the equivalent linear system, impulse responses to the noise source", ["Integrator_gle.run", "initial_conditions"])
prop(
    "C26", "A Prony series reproduces a sum of exponentials",
    "Given samples of a sum of decaying real, oscillating or alternating exponentials, prony_fit_times_serie returns the initial value and a real generator whose series, evaluated by prony_series_eval, equals that sum at the samples, beyond them and (without alternating terms) between them; growing terms are removed unless asked otherwise. prony_inspect_data returns the data filtered by the best approximation of their Hankel matrix of the requested rank or threshold, and the kernel versions treat each component of a kernel on its own.",
    ["inputs", "configurations"], "1 to 3 real, oscillating or alternating terms, lengths, time steps and scales, filter options, noisy data for the removal of growing terms, kernels of 1 to 3 functions and observables",
    "No test fits a Prony series.", [("prony_fit_times_serie, prony_fit_kernel, prony_series_eval, prony_inspect_data", FP)],
    "the sum of exponentials the data were made with; singular value decomposition for the filter", ["prony_fit_times_serie", "prony_series_eval", "prony_fit_kernel", "prony_series_kernel_eval", "prony_inspect_data"])
prop(
    "C27", "Parametric fits of the memory give back the function behind the data",
    "memory_fit and memory_fit_kernel applied to data that follow one of the offered functions (exponential, normalised and double exponential, powers of the hyperbolic secant, Gaussian) return this function, under every name of it, component by component for a kernel; on noisy data the fit is at least as good in least squares as the function behind the data. memory_fit_eval and memory_kernel_eval return the named function with the given parameters at any times, and unknown types are refused. The long time limit of the integral of a memory is the least squares fit of a + b/t over the second half of the times, and the friction is the integral of each component.",
    ["inputs", "configurations"], "every offered function and its aliases, parameters resolved by the sampling, time steps, lengths and scales, kernels of several components, plain and named arrays",
    "No test fits a memory.", [("memory_fit, memory_fit_eval, memory_fit_kernel, memory_kernel_eval", FM)],
    "the closed formula the data were made with", ["memory_fit", "memory_fit_eval", "memory_fit_kernel", "memory_kernel_eval"])
prop(
    "C24", "No call ends the interpreter or reads outside of its arrays",
    "Whatever the lengths and the values of what the user gives, the calls of the package that reach the Fortran routines (inversion of the Volterra equation with every method, evolution, fluxes, noise and correlations with it, whole estimations) either return arrays or raise an exception: they never end the interpreter, never read or write outside of the arrays they were given, and never return memory that has not been set.",
    ["inputs", "configurations"], "trajectories, correlations and kernels of every length from one frame on and every combination of them, any memory layout, regular, singular, zero or NaN values, constant and two-valued data, every method",
    "The tests that run call none of these routines, and a read outside of an array usually goes unnoticed.", [("memory_rect, memory_trapz, corrs_rect, corrs_trapz, solve_*", FK), ("Estimator_gle.compute_kernel", ES), ("ModelBase.compute_noise, flux_from_volterra, evolve_volterra", MO)],
    "the same calls with the routines compiled with bounds checks, unset variables set to NaN and the address sanitizer, every case in a process of its own: normal return or a Python exception; finite results for finite regular input",
    ["Estimator_gle.compute_kernel", "Pos_gle.compute_noise", "Pos_gle.compute_corrs_w_noise", "Pos_gle_overdamped.evolve_volterra", "ModelBase.flux_from_volterra"])
prop(
    "C28", "Results depend on the data and options, not on earlier calls",
    "What an estimator and its model hold after any sequence of calls (mean or zero force, correlations with their options, kernels, Gram matrices, masses, evaluations, noises, saves, a second estimator on the same trajectories) is what a new estimator obtains that is asked for this result alone: the last call of a kind decides, a repeated call gives the same result, calls that evaluate change nothing, and the trajectories given are never modified.",
    ["histories", "configurations"], "every model and basis, one or several trajectories, random sequences of 3 to 13 calls with their options",
    "The space of call sequences cannot be enumerated by tests, and no test that runs calls an estimator.", [("Estimator_gle", ES), ("ModelBase", MO)],
    "a new estimator on a fresh copy of the data to which only the calls that lead to the result are applied; a copy of the trajectories", ["Estimator_gle (all methods)", "ModelBase (all methods)"])
prop(
    "C29", "What cannot be computed is refused, and a refusal changes nothing",
    "Requests that have no answer raise an exception instead of returning numbers: trajectories without time, time step, a needed variable or the observable in any of them, objects that are not bases or bases of another dimension, calls before the results they need, unknown methods, goals and types, arguments of the wrong shape, kernels computed with a method that the request cannot use, too few frames, unsupported operations of the bases and tools. After a refused call everything that was stored before is still there, unchanged and usable.",
    ["inputs", "configurations", "histories"], "every model and basis, one or several trajectories with the defect in any of them, every call before each of its prerequisites, every method name, wrong shapes along every axis",
    "No test that runs expects a refusal, nor looks at the state after one.", [("Estimator_gle.__init__, _check_model, compute_kernel", ES), ("ModelBase.compute_noise, kernel_eval, inv_mass_eval, flux_from_volterra", MO), ("bases", BF), ("memory_fit", FM)],
    "an exception (of the class the code announces, where it announces one) and comparison of the state with a copy made before", ["Estimator_gle", "ModelBase", "bases, fits, noise generators"])
prop(
    "C30", "Mesh helpers place points as requested and meshes cover the data",
    "uniform_line, non_uniform_line and data_driven_line return the requested number of increasing points between the requested ends with equal or geometrically growing spacing, for every ratio; centroid_driven_line returns ordered centres, each the average of the data closest to it; centroid_driven_mesh returns non overlapping triangles that cover every data point, with such centres as vertices and the boundary given, the hull of the data or this hull without edges shorter than asked; get_intersect gives the common point of two lines and reports parallel ones as infinitely far.",
    ["inputs"], "1 to 30 elements, ends, widths and ratios (one included), data of several shapes, scales, sizes and numbers of bins in one and two dimensions, own boundaries, simplified hulls",
    "One test calls each helper with one data set and only looks at the shape of what is returned.", [("uniform_line, non_uniform_line, data_driven_line, centroid_driven_line, centroid_driven_mesh", MU)],
    "closed formulas, geometric invariants (orientation and area of the triangles against the hull, point location)", ["uniform_line", "non_uniform_line", "data_driven_line", "centroid_driven_line", "centroid_driven_mesh", "get_intersect"])
prop(
    "C31", "The regressors and their time derivative belong to one another",
    "For every model and basis, the regressors of the memory evaluated along a trajectory have as time derivative the third quantity that basis_vector returns (position, velocity and acceleration related by the chain rule, with the second derivatives of the basis where the velocity enters); the regressors asked for force, kernel and correlations are consistent with one another and with the announced numbers of functions, each frame depends on its own data only, and the trajectory is not modified.",
    ["inputs", "configurations"], "every model and basis in 1 to 3 dimensions, random smooth paths, whole and partial, in memory or lazy trajectories",
    "No test looks at the values of the regressors.", [("basis_vector of every model", MO), ("hessian, deriv of every basis", BF), ("hessian, deriv", LF), ("hessian, deriv", MD)],
    "numerical differentiation of the returned regressors along the path; contraction of the kernel basis with the velocity", ["Pos_gle.basis_vector", "Pos_gle_with_friction.basis_vector", "Pos_gle_no_vel_basis.basis_vector", "Pos_gle_const_kernel.basis_vector", "Pos_gle_hybrid.basis_vector", "Pos_gle_overdamped.basis_vector"])
prop(
    "C32", "Left-out options take their documented values; verbosity changes nothing",
    "For the frames, the derivatives of the trajectories, the correlations, the free energies, the bases, the estimators, the models and the fits, a call that leaves options out gives the result of the call that spells them out at their documented values, whichever of them are spelled out; equivalent forms of the same request (another name of a method, a trajectory or the list of it, points as list, array or frame) give the same result; options about output or effort (verbose, n_jobs, saveall, prefix) change no result, and nothing is written without saveall.",
    ["inputs", "configurations"], "every public call with options, random subsets of the options, every model and basis, data that make the value of the option matter (jumps near the threshold, offset times, non-integer truncations)",
    "The tests call each function with one set of options and never look at the values.", [("xframe, compute_va, compute_va_gjf, compute_1d_fe", IN), ("Estimator_gle (all methods)", ES), ("ModelBase (all methods)", MO), ("bases", BF), ("memory_fit", FM)],
    "the same call with the options spelled out at their documented values", ["every public call with options"])
prop(
    "C33", "Results depend on the numbers, not on how they are stored",
    "Trajectories, times, data to fit, correlations, points and coefficients may be stored as integers, in Fortran order, as strided, reversed or read-only views, as columns of a wider table or in the other byte order: the bases, the derivatives and free energies of trajectories, the correlation functions, the estimators with everything they compute, the models and integrators, the fits, the noises and the meshes give the results they give for the same numbers in contiguous double precision arrays.",
    ["inputs", "configurations"], "every basis and its derivatives, every helper for trajectories, correlations, fits, noises and meshes, every model, kernel method and way to compute correlations; integer-valued data for integer storage, any data otherwise",
    "The tests use contiguous double precision arrays only and never look at the values.", [("xframe, compute_va", IN), ("basis, deriv, hessian", BF), ("Estimator_gle", ES), ("ModelBase", MO), ("centroid_driven_mesh", MU)],
    "the same call with the same numbers in contiguous double precision arrays", ["bases", "xframe, compute_va, compute_va_gjf, compute_a, concat_underdamped, compute_1d_fe", "correlation_fft, correlation_direct", "Estimator_gle", "ModelBase", "Integrator_gle", "fits, noises, meshes"])
