"""The properties: writes properties.jsonl and MANIFEST.json (python3 lib/plist.py)."""
import json, os

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []


def prop(id, title, statement, over, qtext, why, files, mech, tech, note, observe=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, qtext=qtext, why=why, files=files, mech=mech, tech=tech, note=note, observe=observe))


prop("C01", "Wide products, rotations and bit-reversal permutations are exact",
     "The 128-bit product of any two 64-bit words is returned exactly as its two halves, and the mixing function is the exclusive or of these halves. Rotating any unsigned word by any amount up to its width moves every bit cyclically, so that a history of rotations composes. Bit-reversal reordering permutes exactly the first 2^m elements of a container by reversing the m bits of their index, and leaves the others in place.",
     ["inputs", "histories"], "every pair of 64-bit words, every word width and rotation amount, every history of rotations, every m and container length",
     "There are no tests of these functions except through the generators built on them; 2^128 operand pairs with carry patterns that random samples seldom meet.",
     ["src/core/bit_op.h"], [("128-bit multiplication with carry", "mul_uint128"), ("MUM mixing", "mix_mum"), ("rotation", "bit_rotate"), ("bit-reversal swap", "swap_bit_reverse")],
     "TLA+ word machine (Bits.tla); the half-word multiplication is model checked for all operands at 6-bit words; TLC-generated carry-boundary operands and random histories replayed and the recorded traces validated by TLC",
     "exhaustive only for the small-word model; the implementation is bound by 64-bit boundary enumeration and sampling")

prop("C02", "Integer roots, logarithms, powers and combinatorial numbers are exact",
     "For every unsigned value of every width the integer square and cube roots are the exact floors of the roots, the integer logarithm is the index of the highest set bit, and padding gives the least power of two not below the argument when it fits. Integer powers, factorials, double factorials, falling and rising factorials, binomial coefficients and Catalan numbers equal their mathematical values whenever the value (for binomials: the value times the argument) fits the result type. Powers satisfy x^(m+n) = x^m x^n for negative exponents as well.",
     ["inputs"], "every unsigned argument of every integer width including the extremes; all exponents",
     "The tests sample few arguments and none at the ends of the types; off-by-one errors of a binary search appear only next to perfect powers.",
     ["src/core/real_analysis.h"], [("binary search roots", "isqrt, icbrt"), ("bit scans", "ilog2, pad2"), ("repeated squaring", "pow, ipow"), ("combinatorics", "fact, double_fact, falling_fact, rising_fact, binomial_coeff, catalan")],
     "TLA+ characterisation of each function by its defining inequality or recurrence (Ints.tla), the binary search modelled as a step machine checked for all small words; every neighbourhood of perfect powers and type extremes replayed, traces validated by TLC with exact integers",
     "exhaustive for 8/16-bit words (thorough: all 16-bit), boundary and sampled for 32/64-bit")

prop("C03", "Pseudorandom generators follow their recurrences and replay from a seed",
     "Every generator produces exactly the sequence its published recurrence defines from the given seed or state; equal seeds give equal streams and re-seeding restarts the stream. Drawing, discarding, seeding and saving or restoring the state may be interleaved arbitrarily: discarding n values equals drawing n values, and the k-th value depends only on the state last set and the number of values consumed since.",
     ["inputs", "histories"], "all seeds and parameters, all interleavings of draw, discard, seed, set/get state",
     "Tests check statistical shape of one stream; a wrong constant, a shift changed by one or a state word that is not saved leaves the stream looking random.",
     ["src/pseudorandom/prng.h", "src/pseudorandom/pseudorandom.h"], [("generator object and operations", "PRNG"), ("recurrences", "randgen_congruential, randgen_xoshiro, randgen_splitmix64, randgen_wyrand, randgen_middlesquare")],
     "TLA+ machine with the generator state as 64-bit words and each recurrence as an action (Prng.tla); TLC model checks discard/draw/seed laws and generates operation histories, which are replayed; every drawn value in the traces is validated by TLC",
     "recurrences are exact; seeds and histories are sampled / bounded")

prop("C04", "Sampling follows the requested law; shuffles permute; rejection respects bounds",
     "Each sampler is the documented transformation of the uniform numbers it consumes: uniform samples lie in the interval and scale linearly, exponential, Cauchy, Pareto, Rayleigh samples are the inverse distribution function of the uniform deviate, coin and dice stay in range. Shuffling returns a permutation of the input, quasi-random points are the fractional parts of the documented recurrence, and Monte Carlo integration returns the measure of the region times the mean of the integrand over exactly the points drawn.",
     ["inputs", "histories"], "all generator states, parameters, data and sample counts",
     "Tests only compare sample averages with loose tolerances.",
     ["src/pseudorandom/sampling.h", "src/pseudorandom/quasirandom.h", "src/pseudorandom/montecarlo.h", "src/pseudorandom/pseudorandom.h"], [("uniform deviate and inverse transforms", "rand_uniform, rand_exponential, ..."), ("shuffle", "shuffle_tlc"), ("quasi-random recurrence", "qrand_weyl"), ("Monte Carlo estimators", "integral_crude, integral_hom, ...")],
     "TLA+ machine holding the generator state; each sampling action consumes a specified number of draws and must return the specified function of them; traces recorded from the real code validated by TLC",
     "values checked within rounding of enclosures of the transcendental functions")

prop("C05", "Dataset reductions equal their mathematical definitions",
     "Sums, products, sums of squares, products and quotients, means of every kind and extrema equal the exact mathematical value on the stored numbers up to accumulated rounding, for any length including one, and do not modify their input; mapping and concatenating data sets act element by element. Compensated summation is accurate to the last place of the sum in every order of the data, pairwise summation to an error that grows only logarithmically with the length. Results do not depend on the container type.",
     ["inputs"], "all data sets of any length and magnitude, all containers",
     "Tests use a handful of small data sets; remainder elements of blocked or recursive loops are not reached.",
     ["src/core/dataset.h"], [("reductions", "sum, sum_compensated, sum_pairwise, product, sum_squares, product_sum, ..."), ("means", "arithmetic_mean, harmonic_mean, geometric_mean, weighted_mean, quadratic_mean"), ("extrema", "max, min, range")],
     "TLA+ exact-rational definitions of every reduction (Dataset.tla); laws model checked on small data; data sets of all lengths replayed and traces validated by TLC against the exact value with condition-aware bounds",
     "rounding bounds proportional to the sum of magnitudes")

prop("C06", "Vectors obey vector algebra in fixed and dynamic form",
     "Addition, subtraction, scaling, dot, cross and Hermitian products, linear combinations, normalisation, element access, resizing, comparison and iteration act element-wise exactly as the mathematics says, identically for fixed-size and run-time-size vectors. A vector behaves as a sequence of values under any history of in-place and copying operations; operands other than the target never change. Operations on vectors of different sizes are refused with an error and an invalid result.",
     ["inputs", "histories"], "all dimensions, values and histories of operations",
     "The vector tests cover a few fixed dimensions and no histories.",
     ["src/algebra/vec.h", "src/algebra/algebra.h"], [("vector types", "vec<Type, N>, vec<Type, 0>"), ("vector algebra", "algebra::vec_sum, vec_diff, vec_scalmul, dot, norm, normalize, vec_lincomb")],
     "TLA+ register machine over sequences of rationals (Vect.tla); TLC simulation generates operation histories, replayed on both vector kinds; traces validated by TLC",
     "histories and dimensions bounded")

prop("C07", "Matrices obey matrix algebra in every shape and storage layout",
     "A matrix is the mathematical table of its entries: element (i, j) written is the element read, in fixed and run-time sizes, for both storage orders and for non-square shapes, and resizing preserves the common entries. Sums, scalings, products, transposes, Hermitian conjugates, matrix-vector products, swaps and combinations of rows or columns, traces and predicates equal their definitions under any history of operations, and operands other than the target never change. Incompatible shapes are refused with an error.",
     ["inputs", "histories", "configurations"], "all shapes, entries, histories of operations, and both storage layouts",
     "Tests use small square fixed matrices in the default layout.",
     ["src/algebra/mat.h", "src/algebra/algebra.h"], [("storage and addressing", "mat::operator(), mat::at, get, iterators"), ("algebra", "mat_mul, mat_sum, transpose, hermitian, mat_swap_rows, mat_transform, ..."), ("predicates", "is_square, is_diagonal, is_symmetric, is_lower_triangular, ...")],
     "TLA+ register machine over rational matrices (Matr.tla); TLC simulation generates histories over fixed and dynamic registers; replayed in row-first and column-first builds under AddressSanitizer; traces validated by TLC",
     "dimensions up to 6")

prop("C08", "Linear systems, factorisations, determinants and inverses are consistent",
     "For every well-conditioned system the solution satisfies A x = b, the factors of LU and Cholesky are triangular with L U = A and L L^T = A, the determinant equals the exact determinant, and the inverse multiplied by the matrix is the identity, in place or copying, for fixed and run-time sizes. Singular or non-square input is reported as an error rather than answered. Eigenvalue iterations return pairs with A v = lambda v.",
     ["inputs", "configurations"], "all nonsingular matrices including those needing pivoting, all right-hand sides",
     "Tests use a few well-behaved matrices; no zero pivots, no permutation cases.",
     ["src/algebra/algebra.h"], [("factorisations", "decompose_lu, decompose_lu_inplace, decompose_cholesky"), ("solvers", "solve_lu, solve_cholesky, solve_triangular*, solve"), ("inverse and determinant", "inverse, invert, det"), ("eigen", "rayleigh_quotient, eigenvalue_power, eigenpair_*")],
     "TLA+ exact rational Gaussian elimination (LinSys.tla) as oracle; residual and exact-solution checks with condition-aware bounds; exhaustive small-integer matrices generated by TLC; traces validated by TLC",
     "bounds scale with the exact condition number")

prop("C09", "Geometric transformations are the matrices of the maps they name",
     "Translation, rotation about an axis, projection and viewing matrices and inversion in a sphere map every point as the geometric definition says: rotations are orthogonal with determinant one, turn counter-clockwise by the given angle, fix their axis and compose additively; translations add; perspective and orthographic projections map the view volume onto the unit cube. Identity, diagonal, Hilbert and symplectic constructors yield exactly these matrices in every supported size.",
     ["inputs"], "all angles, axes, vectors, scales and matrix sizes",
     "Only a few rotations of the plane are tested.",
     ["src/algebra/transform.h"], [("constructors", "identity, diagonal, translation, rotation_2d, rotation_3d*, perspective, ortho, look_at, symplectic, hilbert, sphere_inversion")],
     "TLA+ definitions of each map with rational points of the circle and enclosures of sine and cosine (Geom.tla); replayed and validated by TLC",
     "angles sampled and enumerated")

prop("C10", "Norms and distances are metrics with their defining values",
     "Each norm and distance equals its definition (sum, Euclidean, p-th power, maximum, Minkowski, Hermitian, Canberra, discrete, cosine, Hamming) for every pair of vectors of every dimension. Distances are symmetric, non-negative, zero on equal arguments (and, except for the cosine distance, only there) and satisfy the triangle inequality up to rounding; size mismatch is refused.",
     ["inputs"], "all vectors and triples of vectors, all dimensions",
     "A dozen sampled pairs; no metric laws over triples.",
     ["src/algebra/distance.h", "src/algebra/algebra.h"], [("norms", "l1_norm, l2_norm, lp_norm, linf_norm"), ("distances", "euclidean_distance, manhattan_distance, chebyshev_distance, minkowski_distance, canberra_distance, hamming_distance, ...")],
     "TLA+ exact definitions and metric laws (Dist.tla); laws model checked on a small grid; replayed triples validated by TLC",
     "roots through rational enclosures")

prop("C11", "Complex arithmetic and complex functions obey the field and their identities",
     "Complex sums, products, quotients, inverses, conjugates, moduli and arguments are those of the field of complex numbers for every pair of operands and any history of compound assignments, mixed with real operands on either side. The complex functions satisfy their defining identities: square roots square back to the argument and lie in the right half-plane, exponential and logarithm invert one another, sine and cosine satisfy their series. Division by zero is reported.",
     ["inputs", "histories"], "all operands in all quadrants and on the axes, all histories",
     "Few sampled points in one quadrant.",
     ["src/complex/complex.h", "src/complex/complex_analysis.h"], [("field operations", "complex::operator*, operator/, inverse, conjugate, norm, arg"), ("functions", "sqrt, exp, ln, sin, cos, square, cube, powf, asin, acos, atan")],
     "TLA+ complex register machine on exact rationals (Cplx.tla) with enclosures for the functions; TLC-generated histories replayed and validated",
     "bounded histories")

prop("C12", "Quaternions, phasors and ratios obey their algebras",
     "Quaternion products follow Hamilton's rules, norms multiply, inverses invert, and rotating a vector agrees with the rotation matrix of the same axis and angle. Phasors represent the same complex number as their Cartesian form through every sum, product and quotient. Ratios are the rational numbers of their numerator and denominator.",
     ["inputs", "histories"], "all operands and histories",
     "No test covers quaternions' products or ratios beyond a sample.",
     ["src/complex/quat.h", "src/complex/phasor.h", "src/core/ratio.h"], [("Hamilton product", "quat::operator*"), ("rotation", "quat::rotate"), ("phasor arithmetic", "phasor::operator+"), ("ratio arithmetic", "ratio")],
     "TLA+ exact quaternion, phasor and ratio machines (Quat.tla); exhaustive basis products by TLC, random histories replayed, validated by TLC",
     "bounded histories")

prop("C13", "Polynomials form a ring with Euclidean division, calculus and roots",
     "Sums, differences, products, scalings, shifts of degree, evaluation, quotient and remainder, derivative and integral of polynomials equal those of the polynomial ring for every pair of operands, including the zero polynomial and operands of different length; p = q d + r with deg r < deg d. Derivative inverts integration, the order is the highest non-zero coefficient, trimming keeps the value. Polynomials built from roots vanish exactly there, and solved quadratics, cubics and root lists satisfy the equation.",
     ["inputs", "histories"], "all polynomials of any degree including zero, constants and leading zeros",
     "Tests sample a handful of fixed polynomials.",
     ["src/polynomial/polynomial.h", "src/calculus/deriv.h", "src/calculus/integral.h", "src/interpolation/polynomial.h"], [("ring operations", "polynomial::operator+ - * / eval trim find_order"), ("calculus", "deriv(polynomial), integral(polynomial)"), ("construction", "from_roots, interpolate")],
     "TLA+ polynomial ring over exact rationals (Poly.tla): ring and division laws model checked over small coefficient sets; TLC-generated operand pairs and histories replayed and validated by TLC",
     "small-integer operands are compared exactly")

prop("C14", "Orthogonal polynomials and Gauss rules have their defining exactness",
     "Legendre, Laguerre, Hermite and Chebyshev polynomials of every order have exactly the coefficients of their three-term recurrences. Gauss-Legendre, Laguerre and Hermite rules of every offered order integrate all polynomials up to degree 2n-1 to the exact moment, their nodes are the roots of the corresponding polynomial and weights are positive, symmetric where the weight function is.",
     ["inputs"], "all orders, all monomials up to the degree of exactness",
     "Tests check one or two integrals per rule; a wrong digit of one node in one table is not seen.",
     ["src/polynomial/orthogonal.h", "src/calculus/gauss.h", "src/calculus/integral.h"], [("recurrences", "legendre_polynomial, laguerre_polynomial, hermite_polynomial, chebyshev1_polynomial, chebyshev2_polynomial, general_laguerre_polynomial"), ("roots and weights", "legendre_roots, legendre_weights, laguerre_weights, hermite_weights"), ("tables", "tables::legendre_*, integral_legendre, integral_laguerre, integral_hermite")],
     "TLA+ recurrences on exact rationals (Ortho.tla); TLC computes exact coefficients and moments; tables and computed rules are replayed for all monomials, validated by TLC",
     "orders up to those offered / 20")

prop("C15", "The fast Fourier transform equals the discrete Fourier transform",
     "For every sequence of power-of-two length the transform equals the defining sum, the inverse transform restores the input, and the transform is linear with Parseval's identity. Other lengths are refused with an error.",
     ["inputs"], "all power-of-two lengths, all complex sequences",
     "Tests compare one signal.",
     ["src/signal/fft.h", "src/core/bit_op.h"], [("transform", "fft, ifft, fft_inplace")],
     "TLA+ discrete Fourier transform over the ring of cyclotomic integers for unit impulses and enclosures of the roots of unity for general data (Dft.tla); the butterfly network is model checked exactly in Z[w]; inputs replayed and validated by TLC",
     "lengths up to 64 (quick 16)")

prop("C16", "First- and second-order automatic differentiation obeys the chain rule",
     "Evaluating any expression built from the arithmetic operators (including compound assignment and mixed real operands) and the elementary functions on dual numbers yields the value together with its exact first (and second) derivative up to rounding. The real part never depends on the derivative parts.",
     ["inputs", "programs"], "all expressions over the supported operators and functions, all points of their domains",
     "Tests differentiate a few fixed functions at a few points with the non-compound operators.",
     ["src/autodiff/dual.h", "src/autodiff/dual_functions.h", "src/autodiff/dual2.h", "src/autodiff/dual2_functions.h"], [("dual arithmetic", "dual, dual2 operators"), ("lifted functions", "dual_functions.h, dual2_functions.h")],
     "TLA+ jet algebra on exact rationals: a program of dual operations is a behaviour of a register machine (Jets.tla), ring laws model checked; TLC-generated straight-line programs replayed and validated; functions checked against jets built from enclosures",
     "program length bounded")

prop("C17", "Gradients, Jacobians and field operators are exact derivatives",
     "For every polynomial or elementary expression of several variables the computed gradient, divergence, curl, Jacobian, Laplacian, directional derivative (along v, as a vector), Poisson bracket with a Hamiltonian and Taylor expansions equal the exact derivatives of that expression, for fixed and run-time dimension, at every point of the domain.",
     ["inputs", "programs"], "all differentiable expressions, dimensions and points",
     "A couple of functions at fixed points.",
     ["src/autodiff/multidual.h", "src/autodiff/multidual_functions.h", "src/autodiff/autodiff.h", "src/calculus/taylor.h"], [("multidual arithmetic", "multidual operators"), ("operators", "gradient, divergence, jacobian, curl, laplacian, directional_derivative, sturm_liouville"), ("Taylor", "taylor::expand_linear, expand_quadratic")],
     "TLA+ jets of several variables (Field.tla over Jet.tla): an expression is a program, run by the specification on interval jets; against exact polynomial calculus model checked; random programs executed by the real code, results validated by TLC",
     "polynomial fields of bounded degree, plus function lifts by enclosures")

prop("C18", "Numerical derivatives have their stated order of accuracy",
     "Central, forward, backward and Ridders differences of first and second order evaluate the function only at the documented nodes around the point and return the documented combination, so they are exact (up to rounding) on polynomials of the degree their order promises, and leave the documented error term on the next degree.",
     ["inputs"], "all functions, points and step sizes",
     "Tests check smooth functions with one step size and loose tolerance.",
     ["src/calculus/deriv.h"], [("difference formulas", "deriv_central, deriv_forward, deriv_backward, deriv_ridders2, deriv2")],
     "TLA+ difference operators on exact rational polynomials (Diff.tla), exactness degree model checked; evaluation points logged from the real code, results validated by TLC",
     "polynomials of degree at most 6")

prop("C19", "Quadrature rules integrate what their order promises",
     "Midpoint, trapezoid, Simpson, Romberg, Gauss and infinite-interval rules return the integral of every polynomial up to their degree of exactness over every interval and step count, are linear and oriented (exchanging the ends changes the sign), and evaluate the integrand only inside the closed interval.",
     ["inputs"], "all intervals including reversed and degenerate ones, all step counts odd or even, all integrands",
     "Default step counts on smooth functions over few intervals.",
     ["src/calculus/integral.h", "src/calculus/gauss.h"], [("rules", "integral_midpoint, integral_trapezoid, integral_simpson, integral_romberg, integral_romberg_tol, integral_gauss, integral_legendre, integral_inf_riemann")],
     "TLA+ quadrature operators over exact rational polynomials (Quad.tla): degrees of exactness model checked on the specification; real results and logged evaluation points validated by TLC",
     "polynomial integrands")

prop("C20", "ODE steppers have their order and solutions follow the time grid",
     "Each one-step and multi-step method reproduces its Butcher tableau or Adams coefficients exactly, so it is exact on problems whose solution is a polynomial of its order. A solved trajectory starts at the initial state, contains consecutive times separated by the step, and ends at the final time, for every interval and step size, with as many states as times; a reversed interval or a step that is not positive is refused.",
     ["inputs", "histories"], "all right-hand sides, states, intervals and step sizes",
     "Tests integrate one oscillator with loose tolerance.",
     ["src/calculus/ode.h"], [("steppers", "ode::step_euler, step_midpoint, step_heun, step_rk2, step_rk4, step_k38, step_adams2, step_adams3"), ("drivers", "ode::solve_fixstep, solve_euler, solve_midpoint, solve_heun, solve_rk2, solve_rk4, solve_k38")],
     "TLA+ machine: each step is an action with the rational tableau (Ode.tla), consistency (order) conditions of the tableaux model checked; polynomial right-hand sides replayed, every stage evaluation and grid point validated by TLC",
     "polynomial right-hand sides of bounded degree")

prop("C21", "Root finders return roots, inside the bracket, or report failure",
     "When a root finder returns a value without raising an error the function changes sign or vanishes there within the requested tolerance: bracketing methods return a point of the initial bracket within tolerance of a sign change and never evaluate outside it, and Newton-like methods return a point with residual below tolerance. When the bracket is invalid or convergence fails an error is reported. Starting close to a simple root, or with enough iterations to halve the bracket down to the tolerance, they succeed; they always terminate. A sweep of an interval reports one root for every change of sign or zero between or at its grid points, whatever the scale of the function.",
     ["inputs", "histories"], "all functions, brackets, starting points and tolerances",
     "A few smooth functions with good starting points.",
     ["src/optimization/roots.h", "src/optimization/multi_roots.h"], [("bracketing", "root_bisect, root_itp"), ("open methods", "root_newton, root_halley, root_steffensen, root_chebyshev, root_ostrowski, root_jarrat"), ("sweeps", "roots, find_root_intervals"), ("several variables", "multiroot_newton")],
     "TLA+ bracket machine (Roots.tla): invariants (sign change kept, width halves) model checked over all sign patterns; evaluation points and values logged from the real code for polynomials with known rational roots; traces validated by TLC",
     "polynomial targets")

prop("C22", "Minimisers and maximisers return extrema of the function they are given",
     "Golden-section search returns, for every unimodal function and bracket, a point of the bracket within tolerance of the extremum of the kind asked for (at an end for monotone functions) and never evaluates outside the bracket. Newton and bisection on the derivative return a point where the derivative vanishes or changes sign within tolerance and whose second derivative does not have the wrong sign; gradient methods return a point where the norm of the gradient is within the tolerance given, having moved in the right direction. Whatever is not found, including extrema of the other kind, reversed brackets and divergence, is reported and NaN returned. Minimising f and maximising -f give the same point.",
     ["inputs", "histories"], "all unimodal functions, brackets and starting points",
     "Few functions; maximisers barely tested.",
     ["src/optimization/extrema.h", "src/optimization/multi_extrema.h"], [("one variable", "maximize_goldensection, minimize_goldensection, maximize_newton, minimize_newton, maximize_bisection, minimize_bisection"), ("several variables", "multi_minimize_grad, multi_maximize_grad, multi_minimize_lingrad, multi_maximize_lingrad, multi_minimize, multi_maximize")],
     "TLA+ golden-section machine (Extrema.tla) with the bracket invariant model checked on all unimodal tables; polynomials with known extrema replayed, evaluation points and results validated by TLC",
     "polynomial targets")

prop("C23", "Interpolants pass through their data and have their smoothness",
     "Linear interpolation, its inverse and remapping, smooth steps and Bezier curves equal their defining formulas, return the end values at the ends and stay between (in the convex hull of) what they interpolate. Normalised and spherical interpolation follow the direction and the great arc. Interpolating polynomials pass through every point, whatever the order of the nodes, with degree below the number of points, and grid and Chebyshev interpolation sample the nodes they name. Natural splines pass through every node, for any increasing nodes, with continuous first and second derivatives and no second derivative at the ends; evaluation and derivative use the piece that contains the point. Too few points, repeated nodes and parameters out of range are refused.",
     ["inputs"], "all node sets, values and evaluation points",
     "One or two node sets.",
     ["src/interpolation/splines.h", "src/interpolation/polynomial.h"], [("elementary", "lerp, invlerp, remap, nlerp, slerp, smoothstep, smootherstep"), ("splines", "cubic_splines, spline"), ("polynomial", "lagrange_polynomial, chebyshev_nodes, interpolate_grid"), ("Bezier", "quadratic_bezier, cubic_bezier, bezier")],
     "TLA+ exact rational interpolants: the natural spline is the exact solution of its tridiagonal system (Interp.tla); node sets replayed and validated by TLC",
     "node counts bounded")

prop("C24", "A histogram counts every datum once and keeps exact running statistics",
     "Inserting any sequence of data puts each datum inside the range into exactly the bin whose half-open interval contains it (the last bin closed) and nothing outside it; the bin counts add up to the number of accepted data. A datum outside the range, or not a number, changes nothing, and ranges of any scale are handled. Running count, mean, sum of squares, variance, minimum and maximum equal those of the data accepted, for every insertion order, and a histogram built from a data set contains all of it, with as many bins as asked for or the square root of its size.",
     ["inputs", "histories"], "all ranges, bin counts and insertion sequences including bin edges",
     "One histogram of a few data.",
     ["src/statistics/histogram.h"], [("insertion and index", "histogram::insert, index, bin_count"), ("running statistics", "histogram::mean, average, variance, stdev, max, min, number")],
     "TLA+ machine whose state is the multiset of data (Hist.tla); insertion histories enumerated by TLC with data on bin edges; every observation validated by TLC",
     "bounded histories")

prop("C25", "Statistics and regressions equal their estimators",
     "Variance, standard deviation, covariance, correlation, autocorrelation, skewness, kurtosis, quartile or norm based statistics and error propagation equal their defining formulas on every data set. Least-squares lines minimise the (weighted) sum of squared residuals, reported uncertainties, chi-square, degrees of freedom and probabilities follow the textbook formulas, and perfectly linear data is recovered exactly.",
     ["inputs"], "all data sets, weights and uncertainties",
     "One data set per function with recorded outputs.",
     ["src/statistics/statistics.h", "src/statistics/regression.h", "src/statistics/errorprop.h"], [("moments", "variance, covariance, correlation_coefficient, autocorrelation, skewness, kurtosis"), ("regression", "ols_linear*, wls_linear*, linear_model"), ("propagation", "covar_mat, error_propagation")],
     "TLA+ exact-rational estimators (Stat.tla), optimality of the normal equations model checked on a grid; data sets replayed and validated by TLC",
     "condition-aware bounds")

prop("C26", "Probability distributions are normalised densities with the right support",
     "Every density or mass function equals its definition at every point of its support, is zero outside it, never negative, and sums or integrates to one; likelihoods are products of densities and log-likelihoods their logarithms.",
     ["inputs"], "all parameters and points",
     "Sampled values of some distributions.",
     ["src/statistics/distributions.h"], [("densities", "distribution::gaussian, poisson, binomial, exponential, cauchy, ..."), ("likelihood", "distribution::likelihood, log_likelihood")],
     "TLA+ definitions with rational enclosures (Distr.tla), discrete masses exactly rational where parameters are; replayed and validated by TLC",
     "enclosure width plus library accuracy")

prop("C27", "Invalid arguments are always signalled, in the configured way",
     "Every call with an argument outside the domain, with mismatched sizes, or asking for an impossible operation is signalled exactly as configured: by the error number and a NaN (or the documented invalid) result, by an exception carrying the kind, function and line, or by both; and a valid call signals nothing. After an error was signalled, later valid calls behave as if it had not happened.",
     ["inputs", "configurations", "histories"], "all checked functions, invalid arguments and the three error-handling configurations",
     "Tests run in one configuration and look at values of valid calls.",
     ["src/core/error.h", "src/core/real_analysis.h", "src/algebra/algebra.h"], [("error macro", "TH_MATH_ERROR, throw_math_exception"), ("kinds", "MATH_ERRCODE, math_exception")],
     "TLA+ machine with the error register as state and the domain predicate of every operation (Errors.tla); TLC generates interleavings of valid and invalid calls, replayed in three builds, validated by TLC",
     "bounded histories, finite set of operations")

prop("C28", "Parallel element-wise evaluation equals the sequential one",
     "For every container length, function and number of threads, the parallel versions of element-wise functions return exactly the elements a sequential loop returns, in the same order, each element evaluated exactly once.",
     ["schedules", "inputs"], "all thread counts, schedules and lengths",
     "Not tested.",
     ["src/algebra/parallel.h"], [("parallel map", "parallel::map and the element-wise functions")],
     "TLA+ model of workers taking elements in any order, over all interleavings (Par.tla, ParModel.tla); the real code run with 1..8 threads on an OpenMP run-time of the harness that ThreadSanitizer sees through, with permuted thread orders and with libgomp; begin, end and return events validated by TLC",
     "schedules of the real code are sampled, of the model exhaustive")

prop("C29", "Elementary real functions approximate the functions they name",
     "Square, cubic and n-th roots, exponentials, logarithms, powers, trigonometric, hyperbolic functions and their inverses, rounding and comparison functions agree with the mathematical function to the library's accuracy over their whole domain, with and without the processor-specific implementations. The identities of argument reduction (parity, periodicity, quadrant of the two-argument arctangent, reciprocal) hold everywhere.",
     ["inputs", "configurations"], "all arguments over the domain, both builds",
     "Tests sample limited intervals of one build.",
     ["src/core/real_analysis.h", "src/core/constants.h"], [("functions", "sqrt, cbrt, root, exp, ln, log2, log10, sin, cos, tan, atan, atan2, asin, acos, sinh, ..."), ("rounding", "floor, fract, abs, sgn, clamp, max, min")],
     "TLA+ rational enclosures of every function with model-checked enclosure laws (Encl.tla, Elem.tla); arguments over the whole range replayed in both builds, validated by TLC",
     "accuracy bounds per function recorded in Elem.tla")

prop("C30", "Special functions satisfy their functional equations and known values",
     "Gamma, log-gamma, beta and related functions agree with factorials at the integers, satisfy the recurrence and reflection formulas over their domain, and agree with enclosures of the true value to the library's accuracy; poles are reported.",
     ["inputs"], "all arguments over the domain",
     "Sampled values over one interval.",
     ["src/core/special.h"], [("gamma family", "special::gamma, lngamma, half_gamma, pi, beta")],
     "TLA+ functional equations on logged values and exact factorials, half-integer values and Stirling enclosures (Special.tla); validated by TLC",
     "accuracy bounds recorded in Special.tla")


prop("C31", "Text written and read represents the values faithfully",
     "Converting vectors, matrices, polynomials, complex and dual numbers, quaternions, phasors, ratios, histograms, fits, ODE solutions and errors to a string, or writing or printing them to a stream, shows every component in order, with its sign and the requested separators, to six significant digits; and reading a data set line by line returns the values of exactly the lines before the terminator (or the end of the input), in order, skipping blank and unreadable lines, always terminates, and leaves the following lines for the next read.",
     ["inputs", "histories"], "all values, formats, and all sequences of lines and reads",
     "Printing and reading are not tested at all; reading is a stream protocol whose failures need particular inputs (no terminator, missing last newline).",
     ["src/utility.h", "src/algebra/vec.h", "src/algebra/mat.h", "src/polynomial/polynomial.h", "src/complex/complex.h", "src/statistics/histogram.h", "src/calculus/ode.h"], [("writing", "to_string, operator<<, operator std::string, print, println, fprint, fprintln"), ("reading", "readln")],
     "TLA+ machine of the line stream and of decimal notation (Text.tla), model-checked for termination and agreement on all small inputs (TextModel.tla); random inputs, reads and values replayed against the real code, texts validated by TLC",
     "inputs of the real code sampled; the stream model is exhaustive up to 4 lines")


def main():
    with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
        for p in P:
            a = {"files": p["files"], "mechanism": [{"name": n, "where": w} for n, w in p["mech"]]}
            if p["observe"]:
                a["observe_at"] = p["observe"]
            f.write(json.dumps({"id": p["id"], "title": p["title"], "statement": p["statement"],
                                "quantifier": {"over": p["over"], "text": p["qtext"]}, "why_tests_cant": p["why"], "anchors": a}) + "\n")
    checks, na = [], []
    for p in P:
        if os.path.exists(os.path.join(ROOT, "lib", "props", p["id"] + ".py")):
            checks.append({"property": p["id"], "quick_cmd": "./check %s quick" % p["id"], "thorough_cmd": "./check %s thorough" % p["id"],
                           "technique": p["tech"], "level": "model_checking", "level_note": p["note"]})
        else:
            na.append({"property": p["id"], "reason": "machinery not built yet"})
    m = {"version": 1, "setup_cmd": "./setup.sh", "checks": checks, "not_applicable": na,
         "notes": "TLA+ specifications in spec/, checked and traces validated with TLC; see DESIGN.md"}
    with open(os.path.join(ROOT, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1)
        f.write("\n")


if __name__ == "__main__":
    main()
