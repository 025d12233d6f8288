"""Table of the properties; `python3 tools/table.py` writes properties.jsonl and MANIFEST.json."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []
BF = "VolterraBasis/basis/_basis_features.py"
LF = "VolterraBasis/basis/_local_features.py"
FE = "VolterraBasis/basis/_fem_features.py"
MD = "VolterraBasis/basis/_multidim_basis.py"
DD = "VolterraBasis/basis/_data_describe.py"
MU = "VolterraBasis/basis/_mesh_utils.py"
IN = "VolterraBasis/__init__.py"
CO = "VolterraBasis/correlation.py"
ES = "VolterraBasis/gle_estimation.py"
MO = "VolterraBasis/models.py"
FK = "VolterraBasis/fkernel.f90"
GI = "VolterraBasis/gle_integrate.py"
FM = "VolterraBasis/fit_memory.py"
FP = "VolterraBasis/fit_prony.py"

NODATA = "The repository's tests of this part need a trajectory file that is not in the repository, so none of them runs; even with it they only look at shapes on one data set."
SHAPES = "The tests that run look at the shape of the returned arrays only, for one parameter set per class; wrong values pass."


def prop(pid, title, statement, over, quant, why, mech, oracle, observe=()):
    assert len(title) <= 80, (pid, len(title))
    P.append((pid, title, statement, over, quant, why, mech, oracle, list(observe)))


prop(
    "C01", "Derivatives of a basis are the derivatives of the functions it returns",
    "For every basis class that offers them, deriv() is the gradient and hessian() the matrix of second derivatives of the functions returned by basis(), at every point inside the fitted range where they are differentiable, each component at its place along the derivative axes. This holds for every parameter of the basis, every requested derivative order, every dimension, periodic or not, with or without the constant removed, and for tensor products and combinations of bases.",
    ["inputs", "configurations"], "every basis family and parameter set, every fitted range, dimension 1 to 3, orders 1 to 4, every evaluation point away from knots, const_removed on or off",
    SHAPES,
    [("deriv and hessian of each global basis", BF), ("deriv and hessian of splines and smooth indicators", LF), ("deriv and hessian of tensor products", MD)],
    "fourth-order finite differences of basis() (or of the derivative one order lower)", ["basis.deriv", "basis.hessian"])
prop(
    "C02", "antiderivative() of a basis is a primitive of the functions it returns",
    "For every basis class that offers it, antiderivative() returns, for each function of basis() and in the same layout, a primitive of that function along its coordinate, and antiderivative of order n is a primitive of that of order n-1. The difference between two points is the integral of the function between them, anywhere in the fitted range.",
    ["inputs", "configurations"], "every basis family with a primitive, every parameter set, order 1 to 3, dimension 1 to 3, every pair of points of the range",
    SHAPES, [("antiderivative of each global basis", BF), ("antiderivative of B-splines", LF)],
    "finite differences of antiderivative() and Gauss quadrature of basis()", ["basis.antiderivative"])
prop(
    "C03", "basis() evaluates the documented functions, point by point, in its layout",
    "basis(X) returns one row per point and the documented functions (centred or plain linear, the chosen polynomial family, sines and cosines of the given frequency, B-splines on the fitted knots, smoothed indicators, given spline, the splines continued outside of the knots by their end pieces) in the documented order, function by function and coordinate by coordinate, without the constant when it is removed. Each row depends only on its own point, the arguments are not modified, n_output_features_ is the number of columns, and a basis fitted from a description of the data or from the data is the same, whatever it was fitted on before; describing trajectories one by one and merging gives the pooled number of samples, minimum, maximum and mean.",
    ["inputs", "configurations"], "every basis family and parameter set, dimension 1 to 3, every set of points including range ends, knots and boundaries; every split of the data",
    SHAPES, [("basis and fit of each global basis", BF), ("basis and fit of local bases", LF), ("quick_describe, minimal_describe, sum_describe", DD)],
    "closed formulas: scipy.special polynomials, trigonometric formulas, Cox-de Boor recursion, numpy statistics", ["basis.basis", "basis.fit", "basis.describe"])
prop(
    "C04", "Local bases are partitions of unity with the documented support",
    "B-splines and smooth indicators are non negative, sum to one everywhere in the range (the removed constant aside), overlap only with their neighbours (at most degree+1 splines, at most two indicators at a point) and are linearly independent for splines. Each smooth indicator is one inside its state and zero outside, the transitions being as smooth as the boundary function; periodic bases take the same value and slope at both ends of the period.",
    ["inputs", "configurations"], "every degree, number of knots, list of boundaries in any order, boundary function, periodic or not, every point of the range including knots and boundaries",
    SHAPES, [("knots and evaluation of B-splines", LF), ("smoothed boundaries of the indicators", LF)],
    "algebraic invariants over generated bases and points", ["basis.basis", "basis.deriv"])
prop(
    "C05", "Tensor and combined bases are the products and unions of their members",
    "TensorialBasis2D returns all the products of a function of the first basis at the first coordinate and a function of the second at the second coordinate, each basis fitted on its own coordinate, and its index helpers are inverse of each other, match the columns and refuse indices out of range; with one basis given it is used for both coordinates. FeaturesCombiner returns the functions, derivatives, Hessians and primitives of its members side by side in order, and removing or restoring the constant on it acts on its members; combinations can be nested.",
    ["inputs", "configurations"], "every pair of one dimensional bases, every list of 1 to 5 bases, every range and point, constant removed or not (in at most one member of a combination)",
    SHAPES, [("TensorialBasis2D", MD), ("FeaturesCombiner", BF)],
    "the members fitted separately and multiplied or concatenated with numpy", ["TensorialBasis2D", "FeaturesCombiner"])
prop(
    "C06", "Finite element bases are the shape functions of the element of each point",
    "For any line, triangle or tetrahedron mesh, whatever the numbering of its vertices and elements, the element found for a point of the mesh contains it, and the finite element basis at that point is that of the element: it reproduces any polynomial of its degree from its nodal values, sums to one, is one at its node and zero at the others, and vanishes outside of the elements of its node. Its derivative is the gradient of these functions, component by component; the trajectory given is not modified.",
    ["inputs", "configurations"], "every mesh in 1 to 3 dimensions in any vertex and element order, linear and quadratic elements, every set of points inside the mesh, on vertices and ends",
    "No test evaluates a finite element basis on points: only shapes for one mesh.", [("ElementFinder", FE), ("FEMScalarFeatures", FE)],
    "barycentric coordinates and exact reproduction of random polynomials and gradients", ["FEMScalarFeatures.basis", "FEMScalarFeatures.deriv", "ElementFinder"])
prop(
    "C07", "Trajectory preparation keeps frames aligned and differentiates as documented",
    "xframe, compute_va, compute_va_gjf, compute_a, compute_a_from_vel and concat_underdamped return, at each kept frame, the position (and given velocity) of that frame and velocities and accelerations equal to the documented finite differences of the positions at that frame, dropping only the first and last frames, with the time step recorded. Jumps of the period are removed when asked, so that the result is that of the unwrapped path; rounding of noisy times gives back the regular times; inputs are not modified, and dask and numpy inputs agree.",
    ["inputs", "configurations"], "every trajectory length and dimension, time origin and step, jump size and threshold, weight of the finite difference, numpy or dask arrays",
    NODATA, [("xframe, compute_va, compute_va_gjf, compute_a, compute_a_from_vel, concat_underdamped", IN)],
    "finite difference formulas written with numpy on the unwrapped path", ["xframe", "compute_va", "compute_a", "compute_va_gjf"])
prop(
    "C08", "compute_1d_fe gives the histogram and conditional averages of the pooled data",
    "compute_1d_fe bins the pooled samples of all the trajectories, whatever their number and lengths: centres and normalised histogram, minus the logarithm of the density with its minimum at zero for the free energy, mean acceleration and mean square velocity per visited bin, the force (minus the slope of the free energy times kT over the mean square velocity) and the total force derived from the mass. No sample is lost or counted in another bin, except possibly the left most one.",
    ["inputs", "configurations"], "every list of one dimensional trajectories, integer or automatic number of bins, kT",
    NODATA, [("compute_1d_fe", IN)], "numpy binning and averages of the concatenated samples", ["compute_1d_fe"])
prop(
    "C09", "Correlation functions equal their defining averages",
    "The correlation at lag n of two series of the same length is the average over the available starting times t of a(t) b(t+n), for every lag below the truncation, by FFT or directly, for one or for several series (all pairs, in the documented layout), auto or cross correlation. No wrap around, and inputs are not modified.",
    ["inputs", "configurations"], "every length (powers of two and neighbours), truncation, number of series, kind of data",
    "No test computes a correlation function.", [("correlation_1D, correlation_ND and direct versions", CO)],
    "the defining double sum", ["correlation_1D", "correlation_ND", "correlation_direct_1D", "correlation_direct_ND"])
prop(
    "C10", "Mean force, Gram matrices, means and masses are pooled averages of the data",
    "For every model, basis and set of trajectories, the mean force coefficients are the least squares projection of the observable on the basis over all the samples of all the trajectories together (each sample has the same weight, whatever the trajectory it is in), and the Gram matrices, means of the basis and constant and position dependent effective masses are the corresponding pooled averages. Numpy or dask data, and any number of jobs, give the same values.",
    ["inputs", "configurations"], "every model class, basis, number and lengths of trajectories, observable, serial or parallel, numpy or dask (conditioning of the Gram matrix below 1e8)",
    NODATA, [("loop over the trajectories with weights", ES), ("compute_mean_force, compute_gram_force, compute_gram_kernel, compute_basis_mean, compute_effective_mass, compute_pos_effective_mass", ES), ("basis_vector of each model", MO)],
    "numpy least squares and averages on the concatenated samples", ["Estimator_gle.compute_mean_force", "Estimator_gle.compute_gram_kernel", "Estimator_gle.compute_pos_effective_mass"])
prop(
    "C11", "The estimator's correlation functions are those of the data",
    "compute_corrs gives, at each lag up to the truncation, the averages pooled over all the pairs of frames of all the trajectories of the memory basis, its time derivative and the observable minus the mean force, in the documented layout, whatever the options (FFT or direct, vectorised, large, second order or not, numpy or dask, number of jobs). When the basis is projected on its range, the projection has orthonormal rows, keeps the whole range and the correlations are those of the projected basis.",
    ["inputs", "configurations"], "every model class, basis, number and lengths of trajectories, truncation, every option of compute_corrs, serial or parallel",
    NODATA, [("compute_corrs and its correlation loop", ES), ("range projection and basis_vector", MO), ("correlation_ND and direct version", CO)],
    "numpy averages over pairs of frames, written from the definition", ["Estimator_gle.compute_corrs"])
prop(
    "C12", "The memory kernel solves the discretised Volterra equation of its method",
    "For all correlation functions (matrix valued, any number of basis functions and observables, not symmetric), the kernel returned by compute_kernel satisfies, at every time it is defined on, the discretised Volterra equation (first or second kind) of the requested method (rectangular, midpoint, midpoint with Richardson extrapolation, trapezoidal, second kind rectangular and trapezoidal), with the given initial value used where there is one. The correlations are left untouched, the inversion is reproducible, and check_volterra_inversion returns the residual of the equation. The compiled Simpson solvers of both kinds solve the equation with their documented quadrature.",
    ["inputs", "configurations"], "every set of correlation functions with well conditioned leading matrix, dimensions 1 to 4 by 1 to 3, 4 to 40 lags, every method (the Simpson solvers called directly), given or computed from data by every model",
    NODATA, [("kernel_first_kind_*, kernel_second_kind_*", FK), ("compute_kernel, check_volterra_inversion", ES)],
    "residual of the equation at each frame, written with numpy", ["Estimator_gle.compute_kernel", "Estimator_gle.check_volterra_inversion"])
prop(
    "C13", "A known memory kernel is recovered, with the documented order of convergence",
    "From correlation functions that exactly satisfy the Volterra equation of a known kernel, every inversion method gives back this kernel at all times with an error of its order in the time step: first order for the rectangular rules, second order for trapezoidal and midpoint, smaller still with the Richardson extrapolation.",
    ["inputs", "configurations"], "kernels and correlations that are sums of damped, possibly oscillating exponentials, 1 to 3 basis functions, 1 to 2 observables, every method, three time steps",
    NODATA, [("inversion routines", FK), ("compute_kernel", ES)],
    "the analytic kernel, for which all correlations are known in closed form", ["Estimator_gle.compute_kernel"])
prop(
    "C14", "Force and memory do not depend on how the same problem is presented",
    "The force and memory kernel, as functions evaluated at points, are unchanged when the trajectories are reordered, all repeated or made lazy, or when another polynomial family spanning the same space is used; they are transformed accordingly when the unit of time or of length, the origin or the sign of the coordinate changes or when the observables are linearly combined, and the force is unchanged when a trajectory is cut in two.",
    ["inputs", "configurations"], "every model, basis, trajectories, method and presentation, units from 1e-3 to 3e4 times larger, conditioning (apart from the units) below 1e6",
    NODATA, [("whole estimation chain", ES), ("basis_vector and evaluations", MO), ("inversion routines", FK)],
    "metamorphic relations between two runs", ["Estimator_gle", "force_eval", "kernel_eval"])
prop(
    "C15", "Observable = mean force + memory + noise at every frame",
    "compute_noise returns, frame by frame, the time, noise, observable, force and memory of any part of a trajectory, such that the force is the expansion on the basis at that frame, the memory is the discretised convolution (rule of the method of the kernel) of the truncated kernel with the past of the basis since the starting frame, and the noise is the observable minus both. A frame does not depend on later ones.",
    ["inputs", "configurations"], "every model, basis, kernel (own or given, truncated or not), method, start and end point, trajectory",
    NODATA, [("compute_noise", MO), ("memory_rect, memory_trapz", FK)],
    "convolution sums written with numpy; prefix runs", ["compute_noise"])
prop(
    "C16", "Correlations with the projected noise follow their definition",
    "compute_projected_corrs and compute_corrs_w_noise return, for each lag, the average over starting frames, pooled over the trajectories, of the left observable (the noise, a named observable, a function of the trajectory or an array) times the noise propagated from that starting frame, i.e. the observable minus the force minus the memory accumulated since that frame.",
    ["inputs", "configurations"], "every model, basis, kernel and method, kind of left observable, number and lengths of trajectories",
    NODATA, [("compute_projected_corrs", ES), ("compute_corrs_w_noise", MO), ("corrs_rect, corrs_trapz", FK)],
    "the definition, written with numpy", ["compute_projected_corrs", "compute_corrs_w_noise"])
prop(
    "C17", "Force, kernel, friction and mass evaluations are expansions on the basis",
    "force_eval, friction_force_eval, kernel_eval, get_const_kernel_part and inv_mass_eval return at every point given (array, list or dataset, any number of points, dimension 1 to 3) the sum of the coefficients times the basis functions (or derivatives, for the kernel of models with velocity basis) at that point, with the coefficients of the model or those given as plain or named arrays. Evaluating does not change the model.",
    ["inputs", "configurations"], "every model, basis, set of points and its representation, own or given coefficients",
    NODATA, [("force_eval, kernel_eval, inv_mass_eval, friction_force_eval", MO)],
    "explicit expansion with numpy", ["force_eval", "kernel_eval", "inv_mass_eval", "friction_force_eval"])
prop(
    "C18", "The free energy is the integral of the mean force",
    "In one dimension, the free energy returned by pmf_eval differs between any two points by minus the integral of the mean force between them, scaled with the effective mass and kT as documented, and is zero at its minimum when asked; its slope is minus the evaluated force. The numerical version pmf_num_int_eval converges to the integral of the force corrected by the position dependent mass (kT = 1).",
    ["inputs", "configurations"], "every one dimensional model, basis with a primitive, mass, kT, own or given coefficients, any list of points",
    NODATA, [("pmf_eval, pmf_num_int_eval", MO), ("antiderivative of the bases", BF)],
    "Gauss quadrature of the force between break points", ["pmf_eval", "pmf_num_int_eval"])
prop(
    "C19", "A saved model gives back the same model",
    "For every model and every subset of what has been computed (force, kernel, masses, Gram matrices, range projection), save_model followed by load_model, in memory or through a netCDF file, gives a model with the same stored quantities, attributes and evaluations; saving and loading leave the model and the dataset untouched. The files written by an estimator that saves everything bear the requested prefix and names and contain the correlations and the kernel it holds.",
    ["inputs", "configurations", "histories"], "every model, basis, method and history of computations before saving; options of the estimator",
    NODATA, [("save_model, load_model", MO), ("savings of the estimator", ES)],
    "round trip: equality of every quantity and evaluation before and after", ["save_model", "load_model", "files on disk"])
prop(
    "C20", "evolve_volterra integrates the Volterra equation of the model",
    "For any force, kernel, initial value, number of steps and truncation, evolve_volterra returns the initial value followed by the solution of the discretised equation dG/dt = G f - integral of G(t-s) K(s) of the requested method, and for exponential kernels this converges to the exact solution as the time step decreases. Only the frames of the kernel before the requested truncation matter, results at early times do not depend on the length of the run, the solution is linear in the initial value, and the stabilised method keeps it non negative and normalised.",
    ["inputs", "configurations"], "every force and kernel, 1 to 4 functions, every method, number of steps and truncation",
    NODATA, [("evolve_volterra", MO), ("solve_ide_rect, solve_ide_trapz, solve_ide_trapz_stab", FK)],
    "the scheme written with numpy, and the matrix exponential of the equivalent local system", ["evolve_volterra"])
prop(
    "C21", "Fluxes and Laplace transforms of the kernel are the stated integrals",
    "flux_from_volterra returns, at each time, the product of the correlation with the force coefficients and minus the convolution of the correlation with the (truncated) kernel under the requested quadrature rule, for own or given coefficients and correlations. laplace_transform_kernel returns the Laplace transform of the kernel at each returned value of the Laplace variable.",
    ["inputs", "configurations"], "every correlation, force and kernel, quadrature rule, truncation, array representation; sums of exponentials for the Laplace transform",
    NODATA, [("flux_from_volterra, laplace_transform_kernel", MO)],
    "quadrature written with numpy; closed form of the transform", ["flux_from_volterra", "laplace_transform_kernel"])
prop(
    "C22", "The generalised Fokker-Planck setting conserves probability",
    "to_gfpe makes the time derivative of the basis along each trajectory the observable, under the given name. The model estimated on a basis whose functions sum to one then has a force and a memory kernel whose rows sum to zero at every time, and evolve_volterra keeps the sum of the components of any initial value constant; the force is the least squares rate matrix.",
    ["inputs", "configurations"], "every partition of unity basis, trajectories, inversion method, initial value",
    NODATA, [("to_gfpe", ES), ("Pos_gle_overdamped, evolve_volterra", MO)],
    "conservation invariants and least squares with numpy", ["to_gfpe", "evolve_volterra"])

exec(open(os.path.join(HERE, "tools", "table2.py")).read())

NA = []


def main():
    with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
        for pid, title, statement, over, quant, why, mech, oracle, observe in P:
            files = sorted({m[1] for m in mech})
            rec = {"id": pid, "title": title, "statement": statement, "quantifier": {"over": over, "text": quant}, "why_tests_cant": why, "anchors": {"files": files, "mechanism": [{"name": a, "where": b} for a, b in mech], "observe_at": observe, "hook_needed": None}}
            f.write(json.dumps(rec) + "\n")
    checks = []
    for pid, title, statement, over, quant, why, mech, oracle, observe in P:
        checks.append({
            "property": pid,
            "quick_cmd": "bash run.sh %s" % pid,
            "thorough_cmd": "bash run.sh %s --tier thorough" % pid,
            "evidence_file": "evidence/%s.json" % pid,
            "technique": "property-based testing (Hypothesis, sharded, shrinking); oracle: " + oracle,
            "level": "exploration",
            "level_note": "Holds on every generated case of the run, within tolerances that grow with the conditioning of the case; the generator covers: " + quant + ". Trusts numpy, scipy, xarray and the oracle code in vbpbt. No claim about inputs that are not generated.",
        })
    man = {"version": 1, "setup_cmd": "bash run.sh SETUP", "checks": checks, "not_applicable": NA, "notes": "No hooks. The native module is rebuilt by the check from /repo's source whenever the in-place one is not stamped with that source. A failing case is shrunk and written to replays/; `bash run.sh <ID> --replay <file>` replays it. tools/table.py writes this file and properties.jsonl."}
    with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
        json.dump(man, f, indent=1)
        f.write("\n")


if __name__ == "__main__":
    main()
