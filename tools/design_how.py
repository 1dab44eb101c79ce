HOW = {
"P01": "Derivative components of dual, dual2 and multidual operators and functions against the chain rule written out; the operators gradient, divergence, curl, jacobian, laplacian against the partial derivatives of functions with symbolic coefficients. 5 s.",
"P03": "Components of each product, quotient, power and elementary function against the algebra (Hamilton's product, polar form), with branch cuts by gate splitting. 5 s.",
"P04": "Element-wise expected values for every vec/mat/algebra operation, fixed and dynamic sizes, square and rectangular, aliasing in-place variants, complex elements (conjugation), both storage orders. 20 s.",
"P05": "Multiply back: L·U = A, A·x = b, A·A⁻¹ = I, L·Lᴴ = A as polynomial identities under the pivot gates; singular cases must be reported. 25 s.",
"P07": "Every operation on every incompatible shape: errno and NaN results are required; bounds obligations on every access. 5 s.",
"P09": "Gate regions outside the domain: NaN and the errno of the error kind; inside: no report. 3 s.",
"P10": "First iterations with an uninterpreted function equal the textbook iteration; exact on linear and quadratic functions; wrong brackets, exhausted iterations and empty intervals are reported. 4 s.",
"P11": "`rules_state`. 9 s.",
"P12": "Quadrature and derivative formulas with an uninterpreted integrand equal the weighted sum of the definition, and are exact on polynomials of the promised degree with symbolic coefficients. 60 s (Romberg).",
"P13": "Stages with an uninterpreted right-hand side; order conditions through exactness on polynomials and the truncated exponential; number of steps and final partial step of the solvers. 2 s.",
"P14": "Coefficients of results against convolution, the division identity q·d + r = p, recurrences of orthogonal families, Horner evaluation. 12 s.",
"P15": "Interpolant at its nodes, Lagrange identity, spline continuity C⁰, C¹, C² between pieces, boundary conditions. 15 s.",
"P16": "64-bit word-level value numbering against the reference formulas of the generators; shuffle as a permutation of its input. 3 s.",
"P17": "Samplers with opaque draws against the inverse transform, polar and Box-Muller formulas; estimators against the weighted mean; number of draws. 8 s.",
"P18": "Formulas over symbolic datasets; least squares through the normal equations; histogram bins by gate splitting. 7 s.",
"P19": "Density formula with opaque exp, ln and gamma; zero outside the support by gates; parameter errors. 3 s.",
"P20": "The network of butterflies equals the DFT matrix with roots of unity represented exactly in the field; inverse and Parseval. 3 s.",
"P21": "Matrix entries against the definition, orthogonality with sin²+cos²=1, action on points. 3 s.",
"P22": "`rules_const`. 2 s.",
"P23": "`rules_headers`. 55 s.",
"P24": "Element-wise value graphs plus `rules_omp`. 4 s.",
"P25": "Error mapping value graphs in the three modes plus `rules_errors`. 8 s.",
"P26": "Definitions of rounding, sign, clamping, integer powers, roots, factorials, bit operations; identities of elementary functions down to one primitive; portable and x86 variants. 6 s.",
"P27": "Norms and distances on symbolic vectors, absolute values by gates; complex variants. 3 s.",
"P28": "Interval abstract interpretation (engine/bounds.py): the value graph of the library function, over a box of the argument, is evaluated with interval Taylor coefficients (order 8, at the centre of the cell and over the cell, outward rounding) and compared with the same enclosure of the true function (REF_f); cells are bisected, and cells on a seam get one copy per outcome of the open branch or truncation. Proved: |difference| <= tolerance on every cell. Refuted: the enclosure at a point lies outside. 15 s.",
"P29": "Interval abstract interpretation as P28, of a whole method on a family of problems: the iteration is unrolled in the value graph (the stopping test of each pass is a branch on the parameter), evaluated lazily with interval Taylor coefficients over cells of the parameter, and compared with the closed-form solution. Branches that stay open on a cell are bisected; where two iterates coincide (gaps=1) isolated cells below 1e-9 of the interval are left out and counted in the evidence. 35 s.",
}
