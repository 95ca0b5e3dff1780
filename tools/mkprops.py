#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the text is easy to edit)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, observe, state=()):
    assert len(title) <= 80, title
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=files, state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
                     mechanism=[dict(name=a, where=b) for a, b in mech], observe_at=observe, hook_needed=None)))

SIX = "the suite compares six fixed molecules (H2O, Cs, K, KCs, Tl, ThO) with stored matrices to 1e-10"

p("C01", "Local (type-1) pseudopotential integrals equal their defining integral",
  "For every pair of contracted Gaussian shells and every radially local potential sum_k d_k r^(n_k-2) exp(-zeta_k r^2), n in {0,1,2}, each returned matrix element equals <A|U(|r-C|)|B> evaluated from the definition, to the accuracy of double-precision quadrature. It holds for any angular momenta up to the documented maximum, any number of primitives, and any relative position of the three centres (coincident, nearly coincident, collinear, distant).",
  ["inputs"], "all shell pairs L<=10, exponents 0.005..3000, contraction lengths, potentials with any mix of powers, and all coincidence patterns of A, B, C",
  SIX + "; few angular momenta, all with the same handful of centres and exponents",
  ["libgrpp/type1_integrals.c", "libgrpp/type1_mcmurchie_davidson.c", "libgrpp/specfunc_gfun.c", "libgrpp/specfunc_boys.c", "libgrpp/specfunc_dawson.c", "libgrpp/radial_type1_integral.c"],
  [("McMurchie-Davidson evaluation per primitive", "type1_mcmurchie_davidson.c evaluate_radially_local_potential_integral_primitive_gaussians"), ("Boys / G function tables and recursions", "specfunc_boys.c, specfunc_gfun.c, specfunc_dawson.c"), ("screening of negligible primitives", "type1_integrals.c")],
  ["libgrpp_type1_integrals"])
p("C02", "Semilocal (type-2) integrals equal their defining integral",
  "For every pair of shells and every potential with projector l, each returned element equals sum_m <A|Y_lm> U_l(r) <Y_lm|B> around the potential centre evaluated from the definition, within the accuracy of the library's radial quadrature at default tolerances. It holds for every combination of angular momenta, contraction lengths, radial powers n=0,1,2 and every coincidence pattern of the three centres.",
  ["inputs"], "all shell pairs, projectors l=0..10, powers, exponents and geometries (bounded in generated size by L_A+L_B+2l because the cost of the library grows steeply)",
  SIX + "; projectors, powers and centre patterns outside those six inputs are never evaluated",
  ["libgrpp/type2_integrals.c", "libgrpp/radial_type2_integral.c", "libgrpp/angular_integrals.c", "libgrpp/spherical_harmonics.c", "libgrpp/specfunc_bessel_table.c", "libgrpp/specfunc_scaled_mod_sph_bessel.c", "libgrpp/screening.c"],
  [("radial integral on an adaptive logarithmic grid with screening", "radial_type2_integral.c"), ("angular type-2 integrals via real spherical harmonics expansion", "angular_integrals.c"), ("tabulated modified spherical Bessel functions", "specfunc_bessel_table.c"), ("special case: all centres coincide", "type2_integrals.c")],
  ["libgrpp_type2_integrals"])
p("C03", "Semilocal spin-orbit integrals equal their defining integral",
  "For every pair of shells and every projector l>=1 the three returned matrices equal -<A|P_l U_l(r) ((r-C) x grad)_k|B>, k=x,y,z, evaluated from the definition, within the accuracy the default tolerances give. It holds for every angular momentum, contraction length, radial power and centre coincidence pattern, including all centres coinciding.",
  ["inputs"], "all shell pairs, projectors l>=1, powers, exponents and geometries, same size bound as C02",
  SIX + "; only KCs/Tl/ThO style inputs reach this code, all with l<=4 and few shells",
  ["libgrpp/spin_orbit_integrals.c", "libgrpp/lmatrix.c", "libgrpp/angular_integrals.c", "libgrpp/radial_type2_integral.c"],
  [("angular momentum matrices in the real spherical basis", "lmatrix.c"), ("summation over angular and radial tables", "spin_orbit_integrals.c")],
  ["libgrpp_spin_orbit_integrals"])
p("C04", "Outercore (non-local GRPP) integrals equal their defining operator",
  "For every list of outercore shells with radial functions R_nlj and potentials U_nlj (any number of shells, any l, both j=l+-1/2, any order), the averaged and the three spin-orbit matrices equal the matrix elements of the non-local operator sum |nlj>(U_nlj+U_n'lj)/2-type projector terms as defined by the generalised-pseudopotential formula evaluated numerically. Shells of different l or j never couple, and a single outercore shell or an empty list is handled.",
  ["inputs"], "lists of 0..6 outercore shells, L up to 4, contracted radial functions, all powers, all geometries, basis shells up to L=10",
  SIX + "; at most a few outercore shells in one fixed order",
  ["libgrpp/outercore_integrals.c", "libgrpp/overlap.c", "libgrpp/type1_integrals.c", "libgrpp/lmatrix.c", "libgrpp/norm_gaussian.c"],
  [("projection of shells on outercore spinors, normalised in place on copies", "outercore_integrals.c"), ("pair matrix elements of U between outercore shells", "outercore_integrals.c")],
  ["libgrpp_outercore_potential_integrals"])
p("C05", "Full GRPP integrals are the sum of the parts the object was built from",
  "For every pseudopotential object, whatever its construction history (order and number of semilocal-averaged, spin-orbit, outercore and local parts, replaced local part, missing parts, up to the 100 components per kind the object can hold), the full-GRPP matrices equal the sum of the separately evaluated local, semilocal, spin-orbit (scaled by 2/(2l+1)) and outercore integrals, with output buffers fully overwritten. Adding a component never disturbs another.",
  ["histories", "inputs"], "construction sequences of add/set operations with generated components, evaluated for generated shell pairs",
  "every test builds one object per element in one fixed order through the driver; construction orders, missing parts and replaced parts are never exercised",
  ["libgrpp/full_grpp_integrals.c", "libgrpp/grpp.c"],
  [("component lists and ownership", "grpp.c"), ("accumulation of contributions", "full_grpp_integrals.c")],
  ["libgrpp_full_grpp_integrals", "libgrpp_grpp_add_*", "libgrpp_grpp_set_local_potential"])
p("C06", "Analytic GRPP gradients equal the derivative of the integrals",
  "For every operator (local, semilocal, spin-orbit, outercore, full) and every nuclear coordinate, the returned gradient matrices equal the derivative of the corresponding integrals with respect to that coordinate when every centre located at the given point moves with it, for any shells, potentials and coincidence pattern of point, A, B and C. Moving a point where nothing is located gives exactly zero, and the derivatives over all distinct centres sum to zero.",
  ["inputs"], "all operators x shells x potentials x {point on A only, B only, C only, several coinciding centres, none}",
  "gradients are tested only against stored matrices of a few molecules with basis functions up to d/f at their own nuclei",
  ["libgrpp/grpp_integrals_gradient.c", "libgrpp/diff_gaussian.c"],
  [("differentiation of Gaussians into L+1 and L-1 shells", "diff_gaussian.c"), ("translational invariance for the potential centre", "grpp_integrals_gradient.c")],
  ["libgrpp_type1_integrals_gradient", "libgrpp_type2_integrals_gradient", "libgrpp_spin_orbit_integrals_gradient", "libgrpp_outercore_potential_integrals_gradient", "libgrpp_full_grpp_integrals_gradient"])
p("C07", "Overlap integrals and their gradients equal the defining integral",
  "For every pair of contracted shells the overlap matrix equals the integral of the product of the two functions, a normalised primitive has unit self-overlap for its axial components, and the gradient with respect to any point equals the derivative of the overlap when the shells located there move. It holds for all angular momenta up to the documented maximum, all exponent ratios and distances.",
  ["inputs"], "shell pairs L<=10, exponents over six decades, distances from 0 to far apart, points on A, B, both or none",
  SIX + "; overlap gradients are compared for a couple of molecules only",
  ["libgrpp/overlap.c", "libgrpp/overlap_gradient.c", "libgrpp/diff_gaussian.c", "libgrpp/norm_gaussian.c"],
  [("Obara-Saika recursion", "overlap.c"), ("screening by exponent distance", "overlap.c")],
  ["libgrpp_overlap_integrals", "libgrpp_overlap_integrals_gradient"])
p("C08", "Kinetic-energy and momentum integrals equal the defining integral",
  "For every pair of shells the kinetic matrix equals <A|-nabla^2/2|B> and the momentum matrices equal the imaginary part of <A|-i d/dk|B> for k=x,y,z. It holds for all angular momenta up to the documented maximum, all contraction lengths and geometries, and every element of the output buffers is assigned.",
  ["inputs"], "shell pairs L<=10, exponents over six decades, all geometries",
  SIX + "; momentum integrals only for low angular momenta",
  ["libgrpp/kinetic.c", "libgrpp/momentum.c"],
  [("Obara-Saika recursions", "kinetic.c, momentum.c")],
  ["libgrpp_kinetic_energy_integrals", "libgrpp_momentum_integrals"])
p("C09", "Nuclear-attraction integrals are right for every nuclear charge model",
  "For every pair of shells, charge and nuclear model (point, charged ball, Gaussian, Fermi, Fermi bubble, point with numerical quadrature) the integrals equal <A|V_model(|r-C|)|B> with the model's electrostatic potential, whichever entry point (the generic routine or the model-specific one) is called. Zero charge gives zero and the result is linear in the charge.",
  ["inputs"], "models x realistic and extreme nuclear parameters x charges x shells x geometries",
  "stored matrices of Tl with three sets of parameters; the finite-nucleus tests do not even pass reliably, and only one path per model is exercised",
  ["libgrpp/nuclear_attraction.c", "libgrpp/nuclear_models.c", "libgrpp/radial_type1_integral.c", "libgrpp/specfunc_boys.c"],
  [("analytic point-nucleus path", "nuclear_attraction.c"), ("numerical radial quadrature for finite models", "radial_type1_integral.c"), ("parameter packing of wrappers", "nuclear_attraction.c")],
  ["libgrpp_nuclear_attraction_integrals", "libgrpp_nuclear_attraction_integrals_point_charge", "libgrpp_nuclear_attraction_integrals_charged_ball", "libgrpp_nuclear_attraction_integrals_gaussian_model", "libgrpp_nuclear_attraction_integrals_fermi_model", "libgrpp_nuclear_attraction_integrals_fermi_bubble_model"])
p("C10", "Nuclear charge models: densities, potentials and radii are consistent",
  "For every model and parameter set the charge density integrates to the charge, the potential is the electrostatic potential of exactly that density (attractive, continuous at the nuclear boundary, -Z/r far away, bounded near the origin for finite nuclei), and the reported rms radius is that of the density. Estimated nuclear parameters reproduce the documented empirical formulas for every mass number.",
  ["inputs"], "models x parameters (charge 1..130, radii, skin thickness, bubble parameter) x radius r>0 from deep inside to far outside x mass numbers",
  "no test calls these functions directly; they are reached for one nucleus only",
  ["libgrpp/nuclear_models.c", "libgrpp/specfunc_fermi_sk.c"],
  [("closed-form potentials with series S_k", "nuclear_models.c, specfunc_fermi_sk.c")],
  ["libgrpp_charge_density_*", "libgrpp_coulomb_potential_*", "libgrpp_rms_radius_*", "libgrpp_estimate_nuclear_rms_radius_*", "libgrpp_estimate_fermi_model_parameters"])
p("C11", "Matrices are Hermitian: swapping bra and ket transposes them",
  "Exchanging the two shells transposes the matrix of every scalar operator (local, semilocal, averaged outercore, overlap, kinetic, nuclear attraction) and transposes it with a change of sign for spin-orbit and momentum matrices; the same holds for every gradient. In particular the matrix of a shell with itself is symmetric or antisymmetric.",
  ["inputs"], "all operators and gradients x shell pairs x geometries",
  "the driver stores only the lower triangle, so the swapped order is never computed by the tests",
  ["libgrpp/type1_integrals.c", "libgrpp/type2_integrals.c", "libgrpp/spin_orbit_integrals.c", "libgrpp/outercore_integrals.c", "libgrpp/overlap.c", "libgrpp/kinetic.c", "libgrpp/momentum.c", "libgrpp/nuclear_attraction.c", "libgrpp/grpp_integrals_gradient.c"],
  [("bra and ket are treated by different loops and screening tests", "each *_integrals.c")],
  ["every integral routine"])
p("C12", "Integrals are covariant under rigid motions of the whole system",
  "Translating all centres together changes no integral or gradient; rotating or reflecting all centres transforms the matrices exactly as the Cartesian functions (and, for vector operators, the axial or polar vector components) transform. It holds for any translation, any rotation and every axis permutation or reflection.",
  ["inputs"], "operators x shells x geometries x random rigid motions",
  "every tested molecule is computed in a single orientation and position",
  ["libgrpp/angular_integrals.c", "libgrpp/spherical_harmonics.c", "libgrpp/type1_mcmurchie_davidson.c", "libgrpp/lmatrix.c", "libgrpp/overlap.c"],
  [("only relative coordinates enter", "each *_integrals.c"), ("angular integrals over real spherical harmonics", "angular_integrals.c")],
  ["every integral routine"])
p("C13", "Integrals are linear in contraction coefficients and potential expansions",
  "Splitting a contraction or a potential expansion into pieces and adding the results, permuting primitives or potential terms, repeating exponents, multiplying coefficients by a factor, or adding zero-coefficient terms gives the same integrals up to rounding (outercore spinor radial functions enter quadratically). The number of primitives and expansion terms is limited only by memory.",
  ["inputs"], "operators x shells with 1..40 primitives x potentials with 1..40 terms x ways of splitting and permuting",
  "every test uses the contraction exactly as stored in the basis file",
  ["libgrpp/shell.c", "libgrpp/potential.c", "libgrpp/type1_integrals.c", "libgrpp/radial_type2_integral.c", "libgrpp/overlap.c"],
  [("loops over primitives with per-primitive screening", "*_integrals.c")],
  ["every integral routine"])
p("C14", "Cartesian ordering settings only permute the results",
  "Whatever ordering of Cartesian functions is selected (built-in orderings or a user generator producing any permutation), every integral and gradient matrix is the default-order matrix with rows and columns permuted accordingly, and shells carry the ordering in force when they were created. Returning to the default parameters restores the original results exactly.",
  ["inputs", "configurations"], "orderings (DIRAC, TURBOMOLE, random user permutations) x operators x shells, including mixing shells made under different orderings",
  "tests use one ordering",
  ["libgrpp/shell.c", "libgrpp/parameters.c", "libgrpp/diff_gaussian.c", "libgrpp/grpp_integrals_gradient.c", "libgrpp/overlap_gradient.c"],
  [("cartesian generator selected globally, list stored in the shell", "parameters.c, shell.c"), ("gradients look up indices of L+-1 functions", "utils/diff_gaussian.c")],
  ["libgrpp_set_cartesian_order", "libgrpp_set_cartesian_generator", "shell cart_list"])
p("C15", "Results depend only on the arguments, not on earlier calls or memory contents",
  "Every integral is a pure function of its arguments and the parameter settings: the same call returns bitwise identical numbers whatever calls (other integrals, other sizes, object creation and deletion, repeated init/finalize cycles) came before and whatever the heap and output buffers contained. Output buffers are completely overwritten.",
  ["histories", "inputs"], "random call sequences interleaving operators, sizes and initialisation cycles, with varied heap contents",
  "the driver performs one fixed sequence of calls per run, in a fresh process",
  ["libgrpp/init_finalize.c", "libgrpp/angular_integrals.c", "libgrpp/spherical_harmonics.c", "libgrpp/lmatrix.c", "libgrpp/radial_type2_integral.c", "libgrpp/specfunc_bessel_table.c"],
  [("static tables created by init and released by finalize", "init_finalize.c"), ("work arrays allocated per call", "*_integrals.c")],
  ["every public routine"])
p("C16", "Calls write only their output buffers and never modify their inputs",
  "No integral or gradient routine changes the shells, potentials, pseudopotential objects, coordinate arrays or parameter arrays passed to it, or writes outside size_A x size_B elements of each output buffer. Objects can be shared between calls and threads and stay usable and unchanged, including after gradients and outercore integrals.",
  ["inputs", "histories"], "all routines x generated objects placed in write-protected memory, output buffers with guard zones",
  "tests only look at results; a temporarily modified input is invisible to them",
  ["libgrpp/outercore_integrals.c", "libgrpp/overlap_gradient.c", "libgrpp/diff_gaussian.c", "libgrpp/shell.c", "libgrpp/grpp_integrals_gradient.c"],
  [("work on private copies of shells", "outercore_integrals.c, overlap_gradient.c")],
  ["every integral routine"])
p("C17", "Integrals may be evaluated concurrently from many threads",
  "After initialisation, any mixture of integral and gradient evaluations running concurrently in several threads, sharing shells and pseudopotential objects, returns exactly the numbers a serial evaluation returns. There are no data races between concurrent evaluations.",
  ["schedules", "inputs"], "mixtures of operations on 2..8 threads over shared objects, repeated under a race detector and under stress",
  "the suite runs with OMP_NUM_THREADS=1",
  ["libgrpp/angular_integrals.c", "libgrpp/spherical_harmonics.c", "libgrpp/lmatrix.c", "libgrpp/outercore_integrals.c", "libgrpp/init_finalize.c", "libgrpp/specfunc_bessel_table.c"],
  [("read-only tables after init, no shared scratch", "spherical_harmonics.c, specfunc_bessel_table.c")],
  ["every integral routine under OpenMP/pthreads"])
p("C18", "No memory or undefined-behaviour errors over the documented domain",
  "For all inputs within the documented limits (angular momenta up to 10 for basis functions and for projectors, any number of primitives, any geometry, empty or minimal pseudopotentials) every public routine runs to completion without out-of-bounds or uninitialised access, undefined arithmetic, failed assertion, and without leaking memory; returned values are finite. Gradients, which need one more unit of angular momentum, are included.",
  ["inputs", "histories"], "generated call sequences under address/undefined-behaviour sanitizers and leak accounting, sizes up to the limits",
  "the suite runs unsanitised on low angular momenta, where an overflow of a stack array or an off-by-one goes unnoticed",
  ["libgrpp/overlap.c", "libgrpp/kinetic.c", "libgrpp/momentum.c", "libgrpp/type1_mcmurchie_davidson.c", "libgrpp/type2_integrals.c", "libgrpp/spin_orbit_integrals.c", "libgrpp/outercore_integrals.c", "libgrpp/utils.c", "libgrpp/grpp.c"],
  [("fixed-size stack arrays and table limits", "kinetic.c, momentum.c, overlap.c, specfunc_*.c"), ("explicit ownership and delete routines", "grpp.c, potential.c, shell.c")],
  ["every public routine"])
p("C19", "The Fortran interface gives the same results as the C interface",
  "Every routine of the Fortran interface, called with the documented argument list by reference, produces bitwise the same results as its C counterpart for the same arguments, including object creation, gradients, nuclear models and parameter settings, and honours all arguments in the right order.",
  ["inputs"], "all Fortran entry points x generated arguments",
  "the Fortran driver covers a subset of entry points with fixed molecules",
  ["libgrpp/fortran.c"],
  [("thin by-reference wrappers", "fortran.c")],
  ["*_ symbols"])
p("C20", "Objects own copies of their data and behave as values",
  "Shells and potentials copy the arrays they are made from, report the right size and Cartesian functions, evaluate to the mathematical function they represent, and deep copies are equal and independent. Removing negligible terms never changes what an object represents by more than the removed terms, and multiplying by normalisation factors multiplies each coefficient by the documented primitive norm.",
  ["histories", "inputs"], "object operation sequences (create, copy, modify source arrays, shrink, multiply by norms, delete) against a model",
  "no unit test of objects; drivers create each object once",
  ["libgrpp/shell.c", "libgrpp/potential.c", "libgrpp/grpp.c", "libgrpp/norm_gaussian.c"],
  [("deep copies in constructors", "shell.c, potential.c"), ("dropping of tiny coefficients", "potential.c, shell.c")],
  ["libgrpp_new_shell", "libgrpp_shell_deep_copy", "libgrpp_shell_shrink", "libgrpp_shell_mult_normcoef", "libgrpp_new_potential", "libgrpp_shrink_potential", "libgrpp_potential_value"])
p("C21", "Both drivers turn input files into the library's matrices",
  "For every valid set of molecule, basis and pseudopotential files, each driver program writes the matrices that direct library calls give for those shells and potentials (all requested operators and gradients), the C and Fortran drivers agree, and the output does not depend on the number of threads. Atoms without a pseudopotential, without outercore shells or with repeated elements are handled.",
  ["inputs", "configurations"], "generated molecules, basis sets and pseudopotentials x operators x thread counts",
  "six fixed input sets with one thread",
  ["test_libgrpp_c/main.c", "test_libgrpp_f90/evalints.f90", "libgrpp/full_grpp_integrals.c", "libgrpp/nuclear_attraction.c"],
  [("input parsing, shell list construction, OpenMP loops", "test_libgrpp_c/*.c")],
  ["libgrpp_c_*.txt", "libgrpp_f90_*.txt"])
p("C22", "Different operators satisfy their exact mathematical identities",
  "Identities connecting separately computed quantities hold: with all centres coinciding the semilocal integrals summed over l reproduce the local integrals; a Coulomb-like local potential reproduces point-nucleus attraction; local integrals of a constant potential are overlaps; momentum integrals are overlap gradients; kinetic integrals follow from overlaps of shifted shells; projecting with a complete set of l at arbitrary geometry converges to the local operator. They hold for arbitrary shells.",
  ["inputs"], "identities x shells x potentials x geometries",
  "each operator is compared separately with stored numbers; consistency between them outside these inputs is not examined",
  ["libgrpp/type1_integrals.c", "libgrpp/type2_integrals.c", "libgrpp/nuclear_attraction.c", "libgrpp/overlap_gradient.c", "libgrpp/kinetic.c", "libgrpp/momentum.c"],
  [("independent code paths for related quantities", "see files")],
  ["public integral routines"])
p("C23", "Accuracy settings bound the error they control and are reset completely",
  "Changing the radial, angular-screening and modified-Bessel tolerances changes integrals only by errors of the order of the tolerance times the prefactors of the functions involved: the default and tighter settings reproduce the exact integrals and looser ones stay within a bound proportional to the setting. Integrals evaluated analytically do not depend on the settings at all, settings do not leak between kinds, and restoring default parameters restores the default results bitwise.",
  ["configurations", "histories"], "tolerance settings (1e-6..1e-20) x operators x shells x sequences of set/reset",
  "tests run with the default settings only",
  ["libgrpp/parameters.c", "libgrpp/radial_type2_integral.c", "libgrpp/screening.c", "libgrpp/type1_integrals.c"],
  [("global parameter structure read by screening and quadrature", "parameters.c")],
  ["libgrpp_set_radial_tolerance", "libgrpp_set_angular_screening_tolerance", "libgrpp_set_modified_bessel_tolerance", "libgrpp_set_default_parameters"],
  [("libgrpp_params", "global tolerances and cartesian generator", "parameters.c")])
p("C24", "The matrix comparison program accepts exactly the matrices that agree",
  "For every two matrix files, libgrpp_compare_matrices.x exits with 0 exactly when both can be read, have the same dimension and no two corresponding elements (absent ones being zero, in any order of lines) differ by more than the threshold (1e-10 or the one given); it exits nonzero on missing or empty files and on elements out of range.",
  ["inputs"], "pairs of matrix files x thresholds x defects of the files",
  "the program is the oracle of the test suite and is never shown matrices that differ",
  ["test/compare_matrices.c"],
  [("reading sparse matrix files, element-wise comparison", "test/compare_matrices.c")],
  ["exit status"])
out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for x in P: f.write(json.dumps(x) + "\n")
