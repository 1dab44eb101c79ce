REAL = "exact real arithmetic stands in for IEEE rounding"
PROPS = [
dict(id="P01", title="Automatic differentiation returns the exact derivative of the computed function",
 statement="For every argument, the derivative parts produced by dual, second-order dual and multivariate dual numbers through arithmetic, compound assignment and elementary functions equal the analytical derivatives of the value they compute. The gradient, Jacobian, divergence, curl, Laplacian and directional derivative built on them equal the corresponding derivatives of the function that was passed.",
 text="all real arguments and seeds for which no error is reported; all smooth functions built from the supported operations",
 why="The unit tests evaluate a few operations at a few points; an operator whose derivative part is wrong only for one operand order, sign or nonzero seed survives them.",
 files=["src/autodiff/dual.h", "src/autodiff/dual2.h", "src/autodiff/multidual.h", "src/autodiff/dual_functions.h", "src/autodiff/dual2_functions.h", "src/autodiff/multidual_functions.h", "src/autodiff/autodiff.h"],
 mechanism=[("dual number operators and functions", "src/autodiff"), ("differential operators", "src/autodiff/autodiff.h")],
 probes=[dict(file="P01_autodiff.cpp")], bounds="every operator and elementary function of the three number types, all reals; multivariate numbers with 2 and 3 components; " + REAL),
dict(id="P04", title="Vector and matrix operations compute their mathematical definition",
 statement="Sums, differences, products, scalings, linear combinations, transposition, traces, inner and cross products, element access and iteration on vectors and matrices return, element by element, the mathematical definition for every operand, identically for statically and dynamically sized containers and for both storage orders. Compound assignment agrees with the corresponding operator, also when an operand is the destination itself.",
 text="all element values (real and complex), both container kinds, both storage layouts, square and rectangular shapes",
 over=["inputs", "configurations"],
 why="The tests multiply a few random square matrices; a wrong index on a rectangular shape, an aliased in-place operation or a layout-dependent access is never exercised.",
 files=["src/algebra/algebra.h", "src/algebra/vec.h", "src/algebra/mat.h"],
 mechanism=[("element-wise and product algorithms", "src/algebra/algebra.h"), ("container operators and accessors", "src/algebra/vec.h, src/algebra/mat.h")],
 probes=[dict(file="P04_algebra.cpp"), dict(file="P04_algebra.cpp", defs=["-DTHEORETICA_ROW_FIRST"], name="row_first")],
 bounds="all element values; sizes 0 to 4, square and rectangular; both storage orders; " + REAL),
dict(id="P05", title="Linear solvers and decompositions satisfy their defining equation",
 statement="Whenever no error is reported, factors multiply back to the decomposed matrix and have the promised triangular shape, solutions satisfy the linear system, the inverse times the matrix is the identity and the determinant equals its definition. A null pivot or a matrix outside the method's domain is reported instead of producing a number.",
 text="all square matrices and right-hand sides, statically and dynamically sized, real and complex",
 why="The tests use random well conditioned matrices where no pivot vanishes, so reporting and element-dependent branches are not reached.",
 files=["src/algebra/algebra.h"], mechanism=[("LU, Cholesky, triangular solvers, inverse, determinant", "src/algebra/algebra.h")],
 probes=[dict(file="P05_solvers.cpp")], bounds="all element values; sizes 1 to 3 (4 in the thorough tier where decidable); " + REAL),
dict(id="P07", title="Incompatible shapes are reported and yield NaN, never an invalid access",
 statement="Every vector and matrix operation called with operands or destinations of incompatible sizes reports an invalid argument and returns a result filled with NaN (on the diagonal, for matrices). No operation reads or writes outside its operands, whatever their sizes, including empty ones.",
 text="all operand values and all combinations of compatible, incompatible and empty sizes",
 why="The tests only pass operands of matching sizes.",
 files=["src/algebra/algebra.h", "src/algebra/vec.h", "src/algebra/mat.h", "src/algebra/distance.h"], mechanism=[("size checks and error values", "src/algebra/algebra.h")],
 probes=[dict(file="P07_shapes.cpp")], bounds="sizes 0 to 4 in every incompatible combination of the public operations, all element values"),
dict(id="P21", title="Transformation matrices implement the transformation they are named after",
 statement="Rotation matrices are orthogonal with unit determinant, rotate by the given angle in the right-handed sense and leave their axis fixed; translations, projections, look-at, identity, diagonal, symplectic and Hilbert matrices have exactly the entries of their definition. Statically and dynamically sized results agree, larger results are padded with the identity, and unsuitable sizes are reported.",
 text="all angles, axes, vectors, projection parameters and result sizes",
 why="No unit test covers the transformation matrices; sign and index errors are invisible at the angles one would sample.",
 files=["src/algebra/transform.h"], mechanism=[("transformation builders", "src/algebra/transform.h")],
 probes=[dict(file="P21_transforms.cpp")], bounds="all parameter values; result sizes 2 to 4; sine and cosine are uninterpreted apart from sin^2+cos^2=1; " + REAL),
dict(id="P03", title="Complex, quaternion and phasor arithmetic obeys the algebra of its numbers",
 statement="For every operand, operators, compound assignments, conjugates, inverses, moduli and powers of complex numbers, quaternions and phasors return the value defined by the algebra of those numbers, in every operand order and with mixed real operands. The complex elementary functions satisfy their defining identities (square root squared, sine of arc sine, exponential of logarithm) on the principal branch, and inverting or dividing by zero is reported.",
 text="all finite real and imaginary parts; both operand orders; aliased operands",
 why="The tests compare a few random operands; branch selection, sign handling on the axes, mixed-operand overloads and unused overloads are not instantiated at all.",
 files=["src/complex/complex.h", "src/complex/complex_analysis.h", "src/complex/quat.h", "src/complex/phasor.h"],
 mechanism=[("complex number type", "src/complex/complex.h"), ("complex functions", "src/complex/complex_analysis.h"), ("quaternions and phasors", "src/complex/quat.h, src/complex/phasor.h")],
 probes=[dict(file="P03_complex.cpp")], bounds="all real components; real elementary functions are uninterpreted up to their declared axioms; " + REAL),
dict(id="P27", title="Norms and distances equal their definitions for every kind of vector",
 statement="Every norm and distance (p-norms, Euclidean, Manhattan, Minkowski, Chebyshev, discrete, Canberra, cosine, Hamming) returns the mathematical definition for all operands, real or complex, statically or dynamically sized, and the metric variants are symmetric and null on equal arguments. Operands of different sizes are reported.",
 text="all element values, both container kinds",
 why="The tests check a handful of random vectors for a subset of the distances only.",
 files=["src/algebra/distance.h"], mechanism=[("norms and distances", "src/algebra/distance.h")],
 probes=[dict(file="P27_distance.cpp")], bounds="all element values; sizes 1 to 4; square root, power and logarithm uninterpreted up to their axioms; " + REAL),
dict(id="P28", title="Elementary and special functions are accurate over whole intervals",
 statement="For every argument of an interval, not just sampled ones, the library's exponential, expm1, logarithms, square, cubic and n-th roots, sine, cosine, tangent, inverse trigonometric, hyperbolic and inverse hyperbolic functions, real powers, Gamma, log-Gamma, Beta and Pi functions differ from the mathematical function by no more than a fixed tolerance (1e-12 for exponentials, sine and cosine, 1e-11 for the tangent and hyperbolic functions, 2e-8 for arctangents, 1e-8 for roots and Gamma, 1e-7 for logarithms), on each side of every argument reduction. The bound is on the truncation error of the portable implementation in real arithmetic; rounding is not included.",
 text="all real arguments of each listed interval, including the seams between argument reductions",
 why="The tests sample a few thousand arguments; an error confined to a short stretch near a seam, or on a reduction the samples miss, passes them.",
 files=["src/core/real_analysis.h", "src/core/special.h"], mechanism=[("series, polynomial and Newton approximations", "src/core/real_analysis.h"), ("Lanczos approximation", "src/core/special.h")],
 probes=[dict(file="P28_accuracy.cpp")], bounds="each listed interval completely, by interval Taylor enclosures; " + REAL),
dict(id="P29", title="Numerical methods reach the answer on whole families of problems",
 statement="On parametrised families of problems with a known solution, for every value of the parameter in an interval (up to isolated points where two iterates coincide), the numerical methods return the solution within their tolerance: root finders (Newton, Halley, Chebyshev, Steffensen, Ostrowski, Jarrat, bisection, ITP), minimisers and maximisers in one and several variables, multivariate Newton, composite, Romberg, Gauss and infinite quadratures, finite-difference derivatives, one-step differential equation solvers, power, inverse and Rayleigh eigenvalue iterations, polynomial interpolation, natural splines and chi-squared p-values. Rounding is not included.",
 text="every parameter in the listed intervals: square and cubic roots, logarithms, quadratic bowls, exponentials, oscillators, trigonometric integrands and symmetric matrices",
 why="Each test runs a method on a few problems; a defect in an update, a stopping test or a node that only shows for other parameters passes them.",
 files=["src/optimization/roots.h", "src/optimization/extrema.h", "src/optimization/multi_extrema.h", "src/optimization/multi_roots.h", "src/calculus/integral.h", "src/calculus/deriv.h", "src/calculus/ode.h", "src/algebra/algebra.h", "src/interpolation/polynomial.h", "src/interpolation/splines.h", "src/statistics/statistics.h"], mechanism=[("iterations and stopping tests", "src/optimization/roots.h"), ("quadratures", "src/calculus/integral.h"), ("time stepping", "src/calculus/ode.h")],
 probes=[dict(file="P29_convergence.cpp")], bounds="each listed parameter interval completely but for isolated coincidences (total width < 1e-6 of the interval), by interval Taylor enclosures; " + REAL),
dict(id="P09", title="Arguments outside a function's domain are reported and yield NaN",
 statement="Every elementary and special function called outside its domain (logarithms and even roots of negative numbers, inverse trigonometric functions beyond their range, division and remainder by zero, negative factorials and the like) reports the error and returns NaN. Inside the domain no error is reported.",
 text="all real and integer arguments, on both sides of each domain boundary",
 why="The tests check at most one out-of-domain argument per function; a shifted boundary or a forgotten return after reporting is invisible to them.",
 files=["src/core/real_analysis.h", "src/core/special.h", "src/core/error.h"], mechanism=[("domain checks of the elementary functions", "src/core/real_analysis.h"), ("error reporting", "src/core/error.h")],
 probes=[dict(file="P09_domain.cpp")], bounds="all arguments of each listed function, default error mode; " + REAL),
dict(id="P14", title="Polynomial algebra, calculus and orthogonal families are exact",
 statement="Sums, products, Euclidean division, evaluation, comparison, trimming, derivatives, integrals, construction from roots and quadratic roots of polynomials satisfy the identities of polynomial algebra for every coefficient, including empty and zero-padded polynomials. The Legendre, Laguerre, Hermite, Chebyshev and associated Legendre families satisfy their differential equation and normalisation, and their quadrature weights follow the formula of the roots.",
 text="all coefficients, arguments, and combinations of lengths of the operands",
 why="The tests evaluate a few fixed polynomials; unequal lengths, padded or empty operands, aliasing and higher members of the orthogonal families are not sampled.",
 files=["src/polynomial/polynomial.h", "src/polynomial/orthogonal.h", "src/calculus/deriv.h", "src/calculus/integral.h", "src/calculus/taylor.h"], mechanism=[("polynomial type", "src/polynomial/polynomial.h"), ("orthogonal families", "src/polynomial/orthogonal.h")],
 probes=[dict(file="P14_polynomial.cpp")], bounds="all coefficient values; lengths 0 to 8; orthogonal families up to degree 7; division with constant leading coefficients; " + REAL),
dict(id="P26", title="Core real and integer functions equal their mathematical definition",
 statement="The elementary functions satisfy their defining identities (inverse pairs, addition to hyperbolic and reciprocal functions, quadrant handling, integer powers and roots, combinatorics, angle conversion) for every argument, in both the portable and the x86 configuration. The bit operations return exactly the documented bits for every word.",
 text="all real arguments within the domain, all 32 and 64-bit words, both processor configurations", over=["inputs", "configurations"],
 why="The tests compare values at sampled points in the default configuration only.",
 files=["src/core/real_analysis.h", "src/core/bit_op.h", "src/core/special.h", "src/core/ratio.h"], mechanism=[("elementary functions", "src/core/real_analysis.h"), ("bit operations", "src/core/bit_op.h")],
 probes=[dict(file="P26_core.cpp")], bounds="all arguments; the accuracy of the series and hardware approximations themselves is outside (see not applicable); integer powers up to 8; " + REAL),
dict(id="P10", title="Root and extremum finders iterate their method and report failure",
 statement="Each root finder applies the step of its method to the function it was given, returns an exact root unchanged, stops after its iteration limit and reports non-convergence, invalid brackets or vanishing derivatives with NaN instead of returning a number. Bracketing methods return a point of the bracket where the sign changes, interval searches find every sign change exactly once, and extremum finders return stationary points of the requested curvature.",
 text="all functions, derivatives, brackets, guesses, tolerances and iteration limits",
 why="The tests solve a few well behaved equations; wrong steps still converge there, and failures, edge roots and reversed intervals are not reached.",
 files=["src/optimization/roots.h", "src/optimization/extrema.h", "src/optimization/multi_extrema.h", "src/optimization/multi_roots.h"],
 mechanism=[("root finding", "src/optimization/roots.h"), ("extrema", "src/optimization/extrema.h, src/optimization/multi_extrema.h"), ("systems of equations", "src/optimization/multi_roots.h")],
 probes=[dict(file="P10_optimization.cpp")], bounds="uninterpreted functions over the first iterations (limits 0 to 4); linear and quadratic functions of any coefficients; two variables; " + REAL),
dict(id="P12", title="Derivative and quadrature formulas are exact to the order they promise",
 statement="Finite differences, Richardson extrapolation and composite quadrature evaluate an arbitrary function exactly at the nodes, and with the weights, of their formula, and are exact on polynomials up to the degree of the method for every interval, step and number of steps. Swapping the extremes changes the sign, and a null number of steps or iterations is reported.",
 text="all functions, polynomials, extremes, steps and numbers of steps",
 why="The tests integrate a few smooth functions with many steps within a loose tolerance, so a lower order or a missing end point goes unnoticed.",
 files=["src/calculus/deriv.h", "src/calculus/integral.h", "src/calculus/gauss.h"], mechanism=[("finite differences", "src/calculus/deriv.h"), ("quadrature", "src/calculus/integral.h")],
 probes=[dict(file="P12_calculus.cpp")], bounds="all extremes, steps and coefficients; 1 to 6 steps; Romberg up to 4 levels; the node tables themselves are decided by P22; " + REAL),
dict(id="P13", title="ODE steppers have their stages and order, solvers cover the whole interval",
 statement="For an arbitrary system every Runge-Kutta and multistep method evaluates its stages at the times and states of its tableau and combines them with its weights, integrates polynomials in time and the linear equation exactly up to its order, identically for static, dynamic and scalar states. Solvers start from the initial condition, iterate their own stepper, land on the end of the interval with a shortened last step, and report reversed intervals and non-positive steps.",
 text="all right-hand sides, states, times and step sizes",
 why="The tests integrate one harmonic oscillator within a loose tolerance; autonomous systems hide wrong stage times, and a wrong coefficient only lowers the order.",
 files=["src/calculus/ode.h"], mechanism=[("steppers and solvers", "src/calculus/ode.h")],
 probes=[dict(file="P13_ode.cpp")], bounds="uninterpreted right-hand sides; states of 1 and 2 components; up to 6 steps; " + REAL),
dict(id="P15", title="Interpolants pass through their data and reproduce their defining form",
 statement="Interpolating polynomials and natural cubic splines pass through every given point, splines with continuous slope and curvature and null curvature at the ends, and Chebyshev grids reproduce the function at their nodes. Linear, spherical, Bezier and smooth-step interpolation equal their closed form for every parameter, and repeated nodes, too few points and out-of-range parameters are reported.",
 text="all points, nodes and parameters",
 why="The tests evaluate a few fixed curves; unequal spacing, end pieces and degenerate points are not sampled.",
 files=["src/interpolation/polynomial.h", "src/interpolation/splines.h"], mechanism=[("polynomial interpolation", "src/interpolation/polynomial.h"), ("splines and curves", "src/interpolation/splines.h")],
 probes=[dict(file="P15_interpolation.cpp")], bounds="all values; 2 to 4 points; curves of 2 to 4 control points; sine and cosine uninterpreted up to their axioms; " + REAL),
dict(id="P16", title="Generators produce the reference sequence of their algorithm from any seed",
 statement="For every state, SplitMix64, Xoshiro256++, Wyrand, middle-square and the linear congruential generator return the output and the next state of their reference definition, with all bits exact. Generator objects depend only on their own seed and state, seeding or re-seeding gives the same sequence as construction, invalid parameters and state sizes are reported, and shuffling permutes the elements.",
 text="all states, seeds, parameters and datasets", over=["inputs", "histories"],
 why="The tests check moments of a few sequences; a wrong rotation, constant or shared state passes every statistical test.",
 files=["src/pseudorandom/pseudorandom.h", "src/pseudorandom/prng.h"], mechanism=[("generator recurrences", "src/pseudorandom/pseudorandom.h"), ("generator objects", "src/pseudorandom/prng.h")],
 probes=[dict(file="P16_prng.cpp")], bounds="all 64-bit states; shuffles of up to 3 elements"),
dict(id="P17", title="Samplers and Monte Carlo estimators implement their transform exactly",
 statement="Every sampler maps the draws of its generator through the transform of its distribution, stays inside the support, depends on no hidden state and reports parameter vectors of the wrong size. Monte Carlo and quasi Monte Carlo estimators, rejection and Metropolis sampling evaluate the function on exactly their sample points and combine the values with the right normalisation.",
 text="all generator outputs, parameters, functions and domains", over=["inputs", "histories"],
 why="The tests compare sample moments and integrals within a few per cent, which hides wrong transforms, off-by-one draws and shared state.",
 files=["src/pseudorandom/sampling.h", "src/pseudorandom/montecarlo.h", "src/pseudorandom/quasirandom.h"], mechanism=[("samplers", "src/pseudorandom/sampling.h"), ("Monte Carlo estimators", "src/pseudorandom/montecarlo.h")],
 probes=[dict(file="P17_sampling.cpp")], bounds="arbitrary draws; up to 3 samples per estimate; logarithm, sine and cosine uninterpreted up to their axioms; " + REAL),
dict(id="P18", title="Statistics, regression and histograms equal their defining formulas",
 statement="Sums, means, moments, covariances, correlations, chi-squared, weighted and error-in-both-axes regressions, propagated errors and running histogram statistics equal their defining formula for every dataset, and the fitted coefficients solve the normal equations. Degenerate, empty and mismatched datasets are reported with NaN results, and every histogram value is counted exactly once in its bin or ignored outside the range.",
 text="all datasets, weights, errors and functions",
 why="The tests use a few fixed datasets where population and sample formulas or small terms are indistinguishable, and never degenerate ones.",
 files=["src/core/dataset.h", "src/statistics/statistics.h", "src/statistics/regression.h", "src/statistics/histogram.h", "src/statistics/errorprop.h"], mechanism=[("dataset sums and means", "src/core/dataset.h"), ("statistics", "src/statistics/statistics.h"), ("regression", "src/statistics/regression.h"), ("histograms", "src/statistics/histogram.h")],
 probes=[dict(file="P18_statistics.cpp")], bounds="all values; datasets of 0 to 4 points; histograms of 1 to 4 bins; the incomplete gamma integral of p-values is opaque; " + REAL),
dict(id="P19", title="Probability distributions equal their density on the whole real line",
 statement="Every probability density and mass function returns the value of its formula on its support, with the right normalisation for every parameter, and null outside the support. The overloads with a vector of parameters agree with the others and report vectors of the wrong size, and likelihoods multiply the density of every value exactly once.",
 text="all arguments and parameters of each distribution",
 why="The unit tests do not cover the distributions, and the samplers only exercise a few of them indirectly.",
 files=["src/statistics/distributions.h"], mechanism=[("densities and wrappers", "src/statistics/distributions.h")],
 probes=[dict(file="P19_distributions.cpp")], bounds="all real arguments and parameters; integer parameters up to 5 (23 for factorials); exponential, logarithm, power and gamma functions uninterpreted up to their axioms; " + REAL),
dict(id="P20", title="The fast Fourier transform equals the discrete transform and its inverse",
 statement="For every complex input whose size is a power of two the fast transform returns the discrete Fourier transform, the inverse transform returns the normalised conjugate one, and each undoes the other, for statically and dynamically sized vectors. Any other size is reported and yields NaN, and bit reversal is a permutation that never leaves the vector.",
 text="all complex input vectors of every size, both directions",
 why="The unit tests do not cover the transform; a wrong twiddle factor or butterfly index appears only on generic inputs of larger sizes.",
 files=["src/signal/fft.h", "src/core/bit_op.h"], mechanism=[("radix-2 transform", "src/signal/fft.h"), ("bit reversal", "src/core/bit_op.h")],
 probes=[dict(file="P20_fft.cpp")], bounds="all element values; sizes 0 to 8 and 16; sine and cosine of rational multiples of pi are exact; " + REAL),
dict(id="P22", title="Constants and quadrature tables equal their definition in every precision",
 statement="Every mathematical constant has the correctly rounded value of its definition in single, double and extended precision, and every tabulated Gauss node and weight equals the root and weight of its polynomial to double precision. Every THEORETICA_ configuration macro sets exactly the default it documents, and all defaults are usable.",
 text="all constants, tables and configuration macros in all precisions", over=["inputs"],
 why="The tests compare results within 1e-8, so a constant wrong in the tenth digit or a macro wired to the wrong default is invisible.",
 files=["src/core/constants.h", "src/calculus/gauss.h"], mechanism=[("constants and configuration", "src/core/constants.h"), ("quadrature tables", "src/calculus/gauss.h")],
 probes=[], rules=[dict(module="rules_const", func="constants")], technique="constant evaluation: initialisers of the compiler's IR against 60-digit definitions",
 bounds="1 unit in the last place (2 in extended precision and for the tables)"),
dict(id="P23", title="Every header works alone, in every configuration and any number of units",
 statement="Each header of the library compiles when included on its own, with every documented configuration macro (precision, error mode, printing, namespace alias, x86, storage order, OpenMP), and every operation instantiates in each of them. No header defines a strong symbol, so any number of translation units may include the library.",
 text="all headers, configurations, compilers and language standards", over=["inputs"],
 why="The tests build one configuration through the umbrella header; a missing include or an operation that only compiles in double precision with errno is never seen.",
 files=["src/theoretica.h", "src/core/error.h", "src/core/constants.h", "src/utility.h"], mechanism=[("umbrella and configuration", "src/theoretica.h"), ("error macros", "src/core/error.h")],
 probes=[], rules=[dict(module="rules_headers", func="headers"), dict(module="rules_headers", func="instantiate")], technique="type checking of every header and instantiation in every configuration; linkage of the emitted IR",
 bounds="clang 18 and g++ 13, C++14 and C++17; instantiations are those named by the probes"),
dict(id="P11", title="No function keeps hidden state",
 statement="The result of every function of the library depends only on its arguments, and on the generator or buffer passed to it; no call changes the result of a later call through a variable of the library, the clock or the environment. Lookup tables are never written, and no local value of the first call is kept for later ones.",
 text="all call histories and interleavings of threads", over=["inputs", "histories", "schedules"],
 why="A test calls each function in one order in one thread; a value kept from an earlier call or a table overwritten in passing only shows in another history.",
 files=["src/pseudorandom", "src/calculus/gauss.h", "src/core/real_analysis.h", "src/algebra/algebra.h"], mechanism=[("generator state is an argument", "src/pseudorandom/prng.h"), ("tables", "src/calculus/gauss.h")],
 probes=[], rules=[dict(module="rules_state", func="hidden")], technique="effect analysis over the compiler's IR: no store reaches a variable of static storage of the library except its own one-time initialisation from constants, no impure environment call; AST query for static locals initialised from arguments",
 bounds="functions instantiated by the probes (865); the AST query covers all code"),
dict(id="P24", title="Parallel element-wise evaluation equals the serial one, free of races",
 statement="The parallel operations return, at each index, the function of the element at that index, leave their input unchanged and preserve the size. With OpenMP enabled every pair of iterations touches disjoint elements and all other shared data is only read, so the result is the same for every number of threads and every schedule.",
 text="all vectors of the analysed sizes and all schedules", over=["inputs", "schedules"],
 why="A test observes one schedule of one vector; an index that crosses iterations, or a shared temporary, gives the right answer on most runs.",
 files=["src/algebra/parallel.h"], mechanism=[("parallel maps", "src/algebra/parallel.h"), ("work sharing", "#pragma omp parallel for")],
 probes=[dict(file="P24_parallel.cpp")], rules=[dict(module="rules_omp", func="races")], technique="value graph against the element-wise specification; race freedom by affine access analysis of the outlined OpenMP regions in the compiler's IR",
 bounds="sizes 0 to 5 for values; all sizes for races"),
dict(id="P25", title="Errors are reported identically in every error mode",
 statement="Whenever an operation fails it reports the documented error kind: errno is set in the default mode, an exception carrying the code is thrown in the exception modes, both in the combined mode, and a NaN or documented null value is returned where the function returns. The same failures are reported in every mode, each with its own code, and none is lost because of the mode chosen.",
 text="all error codes, all failing operations, all error modes", over=["inputs"],
 why="The tests run one error mode; a code mapped to the wrong errno value or a report that vanishes in exception mode is never seen.",
 files=["src/core/error.h", "src/core/real_analysis.h"], mechanism=[("error macros", "src/core/error.h"), ("th_errcode", "src/core/error.h")],
 probes=[dict(file="P25_errors.cpp")], rules=[dict(module="rules_errors", func="modes")], technique="value graph of the error mapping; call-site comparison of the reporting sites of every function between the error modes in the compiler's IR",
 bounds="all error codes; report sites of the 631 functions instantiated by the probes"),
]
NA = [
dict(id="P30", title="Rounding does not spoil the accuracy of the elementary functions",
 statement="Square roots, logarithms, exponentials, trigonometric and gamma functions return, in floating-point arithmetic, a value within a few units in the last place of the exact one over their whole domain, hardware instructions included.",
 text="all floating-point arguments", why="A test samples a few thousand arguments of a 64-bit domain.",
 files=["src/core/real_analysis.h", "src/core/special.h"], mechanism=[("series and hardware approximations", "src/core/real_analysis.h")],
 reason="The value graph idealises rounding away, and the x87 instructions are taken at their architectural meaning: an error domain tight enough for units in the last place is out of reach for it. P28 bounds the truncation error of the portable implementations over intervals, P26 decides the identities and argument reductions."),
dict(id="P31", title="Generators and samplers are statistically sound",
 statement="Generated numbers are uniformly distributed, uncorrelated and of full period; sampled values follow the requested distribution.",
 text="all seeds and sequence lengths", why="A finite sample only rejects gross defects.",
 files=["src/pseudorandom"], mechanism=[("generators", "src/pseudorandom/pseudorandom.h")],
 reason="A statement about the distribution of long sequences, a runtime quantity no static argument over the source bounds. P16 and P17 decide that the code is the reference algorithm and the exact transform, from which the quality is known."),
dict(id="P32", title="Iterative methods converge for every well-posed problem",
 statement="Root finders, minimisers, eigenvalue iterations and adaptive quadratures converge for every well-posed problem within the iteration limit, to the tolerance asked for.",
 text="all functions, matrices and starting points", why="A test tries a few well-behaved functions.",
 files=["src/optimization", "src/calculus/integral.h", "src/algebra/algebra.h"], mechanism=[("iteration limits", "src/core/constants.h")],
 reason="Convergence depends on the contraction of an arbitrary user function along an unbounded iteration. P10 and P12 decide that each iteration is the textbook one, that the stopping test is the documented one and that exhaustion is reported; P29 decides convergence on families of problems with a known solution."),
dict(id="P33", title="Printed numbers and containers read back as the printed value",
 statement="Text produced by stream operators and to_string identifies the printed object.",
 text="all objects", why="Only a few objects are printed by the examples.",
 files=["src/utility.h", "src/algebra/vec.h"], mechanism=[("stream operators", "src/algebra/vec.h")],
 reason="The text is formed by iostream formatting inside the standard library's compiled code, outside the source that is analysed."),
]
