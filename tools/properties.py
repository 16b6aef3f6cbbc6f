WHY = "The tests sample a few short arrays per type, nearly all contiguous; this quantifies over every value, every length and every layout."
G = "tools/cxxgen"

ALLF = ["src", "tools/cxxgen"]
T_ACC = ("contract-based deductive verification of the extracted loop functions against accuracy contracts (|result - f(x)| <= tolerance) for all arguments of the domain: "
         "symbolic execution over Taylor models with rigorous remainder and rounding bounds")
T_MEM = ("contract-based deductive verification of every registered loop of every module (clang-extracted LLVM IR, inductive invariants, z3) against its memory contract: "
         "bounds, frame, initialisation, allocation, division, conversion and termination obligations; rejected obligations are replayed on the compiled loop")
prop('C01', "no ufunc or gufunc reads or writes memory it does not own, traps or hangs",
     "For every function, element type, array length (0 included), stride (negative and zero included), batch shape and array contents, the inner loop reads only elements of its inputs, writes only elements of its outputs, reads no uninitialised memory and frees exactly what it allocates. "
     "It never divides an integer by zero, never converts a floating point number that is NaN or out of range to an integer, never overflows a length, index or address computation, and always terminates after processing every batch element (or setting an exception).",
     "every loop of every function: all values, lengths, strides (the C-contiguous ones only for sosfilter_ic_contig, as documented) and batch sizes",
     "A stray read or write only shows for particular lengths, strides and values, and usually goes unnoticed when it happens; tests use a handful of short contiguous arrays.",
     ["src/util/strided.hpp", "tools/cxxgen"], [("all 544 registered loops", "src/*"), ("loop generators", "tools/cxxgen")], technique=T_MEM)

prop('C04', "a core dimension that is too small raises ValueError, and nothing else does",
     "`argmin`, `argmax`, `min_argmin`, `max_argmax`, `minmax`, `argminmax`, `mad`, `rmad`, `gini`, `meanvar`, `rms` and `wjaccard` raise ValueError for arrays of length 0, and `pearson_corr` for length below 2; for every other length they do not raise. "
     "`peaktopeak`, `gmean`, `gmeanw`, `hmean`, `hmeanw`, `pmean` and `pmeanw` set an exception exactly when the core dimension is empty and there is something to compute.",
     "every combination of core dimension sizes, for each of the 20 functions and all their element types",
     "The tests try the empty array for a few functions; the minimum accepted here is also what the loops rely on not to read outside their input.",
     ["src/minmax/minmax_gufunc.h", "src/mad/mad_gufunc.h", "src/corr/corr_gufunc.h", "src/means/means_gufunc.c.src"],
     [("process_core_dims functions", "src/*/define_cxxgen_extmods.py"), ("in-loop checks", "src/means/means_gufunc.c.src, src/peaktopeak/peaktopeak_gufunc.c.src")],
     technique="contract-based deductive verification of the process_core_dims functions and of the in-loop length checks (clang-extracted LLVM IR, z3), with a lemma tying the accepted minimum to the loops' preconditions; confirmed on the compiled module")

prop('C05', "object-array loops own their references and stop at an exception",
     "Every loop over Python objects releases every reference it acquires, stores only owned references in its outputs and releases the ones it replaces, and never uses NULL as an object other than as an uninitialised element. "
     "When an operation or comparison of elements raises, the loop calls Python no further and returns with the exception set.",
     "every object array, length, stride and batch size, and every outcome (value or exception) of every element operation",
     "Reference leaks and a missed exception do not change the result of a test; they need a raising element at a particular position to show.",
     ["src/minmax/minmax_gufunc.h", "src/first/first_gufunc.h", "src/cross/cross_gufunc.h", "src/peaktopeak/peaktopeak_gufunc.c.src"],
     [("object loops", "src/first, src/minmax, src/peaktopeak, src/searchsorted, src/ordered, src/all_same, src/cross")])

prop('C06', "first/argfirst: earliest element satisfying the comparison",
     "`argfirst(x, op, target)` is the smallest index i for which `x[i] op target` holds (op one of <, <=, ==, !=, >, >=) and -1 when there is none. "
     "`first(x, op, target, otherwise)` is the value at that index, and `otherwise` when there is none, for every supported element type including objects.",
     "every array, length (0 included), stride, batch shape, op code and target, for each of the 12 element types", WHY,
     ["src/first/first_gufunc.h"], [("first, argfirst loops", "src/first/first_gufunc.h:first_core, argfirst_core")])

prop('C07', "min/max family: value, first position and NaN behaviour",
     "`argmin`, `argmax`, `min_argmin`, `max_argmax`, `minmax` and `argminmax` return, for every non-empty array, the minimum or maximum element and the smallest index where it is attained, "
     "and the value and index outputs agree. Float arrays are scanned with IEEE comparisons: a later NaN is never taken, and an array that starts with NaN gives NaN at index 0; object arrays are compared with Python's < and >.",
     "every non-empty array, stride and batch shape, for each of the 14 element types of the six functions", WHY,
     ["src/minmax/minmax_gufunc.h"], [("six scan loops", "src/minmax/minmax_gufunc.h")])

prop('C08', "peaktopeak is max - min, exact for every integer type",
     "`peaktopeak(x)` is max(x) - min(x) for every non-empty array. For a signed integer type the result is returned in the unsigned type of the same width and is the exact mathematical difference, so it never overflows.",
     "every non-empty array, stride and batch shape, each of the 12 element types", WHY,
     ["src/peaktopeak/peaktopeak_gufunc.c.src"], [("peaktopeak loops", "src/peaktopeak/peaktopeak_gufunc.c.src")])

prop('C09', "searchsorted returns the correct insertion point",
     "For an array sorted in nondecreasing order, `searchsortedl` returns the number of elements strictly less than the value and `searchsortedr` the number of elements less than or equal to it, "
     "so inserting there keeps the array sorted; the result lies between 0 and the length for every input.",
     "every sorted array of any length and stride, every value, each of the 13 element types", WHY,
     ["src/searchsorted/searchsorted_gufunc.c.src"], [("bisection loops", "src/searchsorted/searchsorted_gufunc.c.src")])

prop('C10', "ordered and all_same decide their predicate on every array",
     "`ordered(x, op)` is true exactly when every pair of consecutive elements of x satisfies the comparison (<, <=, >, >=) that op names, and `all_same(x)` is true exactly when all the elements of x are equal to each other. "
     "Arrays with fewer than two elements give true, and a NaN compares as IEEE 754 says (an operation code out of range means >= for `ordered`).",
     "every array, length, stride, batch shape and op code, each of the 12 element types", WHY,
     ["src/ordered/ordered_gufunc.h", "src/all_same/all_same_gufunc.h"],
     [("ordered loops", "src/ordered/ordered_gufunc.h"), ("all_same loops", "src/all_same/all_same_gufunc.h")])

prop('C11', "percentileofscore follows the definition of its kind",
     "`percentileofscore(x, score, kind)` is 100 times the fraction of elements of x that are less than score (kind STRICT), less than or equal to score (WEAK), the average of those two (MEAN), "
     "or for RANK that average plus half an element when the score occurs in x. An empty array, or a kind that is not one of the four, gives NaN.",
     "every array, length, stride, score and kind, each of the 10 element types", WHY,
     ["src/percentileofscore/percentileofscore_gufunc.h"], [("percentileofscore loops", "src/percentileofscore/percentileofscore_gufunc.h")])

prop('C12', "bincount counts and sums exactly the in-range values",
     "Without weights, output bin k (0 <= k < m) is increased by the number of elements of x equal to k; with weights it is increased by the corresponding weights, added in array order. Values of x that are negative or not below m are ignored, and nothing is ever written outside the output.",
     "every index array, weight array, number of bins, stride and batch shape, each of the 8 + 96 type combinations", WHY,
     ["src/bincount/bincount_gufunc.h"], [("bincount loops", "src/bincount/bincount_gufunc.h")])

prop('C13', "convert_to_base and one_hot produce the right digits",
     "`convert_to_base(k, base)` writes the digits of k, least significant first: digit i is the remainder of k // base**i on division by base (truncating division for negative numbers), so the digits and the last quotient reconstruct k; a base of 0 gives zeros and no input crashes. "
     "`one_hot(k, n)` is all zeros except for a one at index k when 0 <= k < n.",
     "every k, base, number of digits and stride, each of the 8 integer types", WHY,
     ["src/convert_to_base/convert_to_base_gufunc.h", "src/one_hot/one_hot_gufunc.h"],
     [("digit loop", "src/convert_to_base/convert_to_base_gufunc.h"), ("one_hot loop", "src/one_hot/one_hot_gufunc.h")])

prop('C14', "next/nextn step to the adjacent floating point values",
     "`next_greater(x)` and `next_less(x)` give the floating point number adjacent to x towards plus and minus infinity. "
     "`nextn_greater(x, n)` and `nextn_less(x, n)` give the next n such numbers in order, each one being the neighbour of the one before it.",
     "every x (NaN, infinities, subnormals and zeros included), n and stride, each of 3 float types", WHY,
     ["src/next/next.h", "src/nextn/nextn_gufunc.h"], [("next", "src/next/next.h"), ("nextn", "src/nextn/nextn_gufunc.h")])

prop('C15', "backlash, backlash_sum and hysteresis_relay follow their recurrences",
     "`backlash(x, deadband, initial)` follows the play operator: each output is the previous one moved just far enough to lie within half a deadband of the input. "
     "`backlash_sum` is the weighted sum of m such operators and returns their final states as well; `hysteresis_relay` switches to its low value below the low threshold, to its high value above the high threshold and otherwise keeps its previous output, starting from the initial value.",
     "every signal, length, number of operators, parameters and strides, each of 3 float types", WHY,
     ["src/backlash/backlash_gufunc.h", "src/hysteresis_relay/hysteresis_relay_gufunc.h"],
     [("backlash recurrences", "src/backlash/backlash_gufunc.h"), ("relay recurrence", "src/hysteresis_relay/hysteresis_relay_gufunc.h")])

prop('C16', "fillnan1d and linear_interp1d interpolate linearly between neighbours",
     "`fillnan1d(x)` keeps every element that is not NaN, replaces a run of NaN between two values by the points of the straight line through them, a leading or trailing run by the nearest value, and gives all NaN for an all-NaN array. "
     "`linear_interp1d(x, xp, fp)` for strictly increasing xp is fp[k] when x == xp[k], lies on the line through the two neighbouring samples when xp[k] < x < xp[k+1], and is NaN when x is NaN, outside xp, or xp is empty.",
     "every array, length, stride and broadcast, each of the registered float types", WHY,
     ["src/fillnan1d/fillnan1d_gufunc.h", "src/linear_interp1d/linear_interp1d_gufunc.c.src"],
     [("fillnan1d loop", "src/fillnan1d/fillnan1d_gufunc.h"), ("linear_interp1d loop and bisection", "src/linear_interp1d/linear_interp1d_gufunc.c.src")])

prop('C17', "unwrap removes the jumps by whole periods",
     "`unwrap(x, period)` starts with x[0], and each later element differs from its input by a whole number of periods chosen so that consecutive outputs differ by at most half a period. "
     "The output has the documented value for every array, period and layout, and is NaN where a NaN or infinity in x makes the offset undefined.",
     "every array, length, stride and period, each of 3 float types", WHY,
     ["src/unwrap/unwrap_gufunc.h"], [("unwrap loop", "src/unwrap/unwrap_gufunc.h")])

prop('C18', "softmax and multivariate_logbeta equal their definitions at any length",
     "`softmax(x)` is exp(x - max(x)) divided by the sum of those exponentials; an array with a single +inf gives 1 there and 0 elsewhere, and one with a NaN, several +inf or nothing but -inf gives NaN. "
     "`multivariate_logbeta(x)` is the sum of lgamma(x[i]) minus lgamma of the sum of x, and NaN for an empty array.",
     "every array, length and stride, each of 3 float types", WHY,
     ["src/softmax/softmax_gufunc.h", "src/multivariate_logbeta/multivariate_logbeta_gufunc.h"],
     [("softmax loop", "src/softmax/softmax_gufunc.h"), ("multivariate_logbeta loop", "src/multivariate_logbeta/multivariate_logbeta_gufunc.h")])

prop('C19', "kbnsum is the compensated sum in array order",
     "`kbnsum(x)` is the Kahan-Babuska-Neumaier compensated sum of the elements of x taken in order: the running sum and the running compensation are updated once per element, and the compensation is added at the end. "
     "An empty array gives 0; a NaN in x, or infinities of both signs, gives NaN; infinities of one sign give that infinity.",
     "every array, length and stride, each of 3 float types", WHY,
     ["src/kbnsum/kbnsum_gufunc.h"], [("kbnsum loop", "src/kbnsum/kbnsum_gufunc.h")])

prop('C20', "gmean, hmean and pmean (plain and weighted) equal their definitions",
     "`gmean`, `hmean` and `pmean` of non-negative x are the geometric, harmonic and power mean of its elements; `gmeanw`, `hmeanw` and `pmeanw` are the same means with weights, every element and weight entering exactly once. "
     "`pmean` with p = 0, -1, inf, -inf is the geometric mean, the harmonic mean, the maximum and the minimum; a zero in x makes the means with p <= 0 zero, a negative (-inf included) or NaN element makes the geometric and the general power mean NaN, and an empty x is an error.",
     "every array, length, stride, weight array and exponent, each of 3 float types", WHY,
     ["src/means/means_gufunc.c.src"], [("means loops", "src/means/means_gufunc.c.src")])

prop('C21', "meanvar, pearson_corr, rms, vnorm and wjaccard equal their formulas",
     "`meanvar(x, ddof)` is the mean of x and its variance with divisor n - ddof; `pearson_corr(x, y)` is the correlation coefficient (NaN when x or y is constant); `rms(x)` is the square root of the mean of |x|**2; `wjaccard(x, y)` is the sum of the elementwise minima over the sum of the elementwise maxima. "
     "`vnorm(x, p)` is the p-norm of |x| for p > 0 (the maximum for p = inf) and NaN for p <= 0; a NaN in x gives NaN. "
     "Every element enters exactly once, and integer input is converted to floating point first.",
     "every array, length, stride and batch shape, each of the registered element types", WHY,
     ["src/meanvar/meanvar_gufunc.h", "src/corr/corr_gufunc.h", "src/vnorm/vnorm_gufunc.h", "src/wjaccard/wjaccard_gufunc.h"],
     [("meanvar loops", "src/meanvar/meanvar_gufunc.h"), ("pearson_corr loops", "src/corr/corr_gufunc.h"), ("vnorm, rms loops", "src/vnorm/vnorm_gufunc.h"),
      ("wjaccard loops", "src/wjaccard/wjaccard_gufunc.h")])

prop('C22', "cross2, cross3, vdot and tri_area equal their vector formulas",
     "`cross2` and `cross3` are the two- and three-dimensional cross products, `vdot(x, y)` is the sum of x[i]*y[i] over all i, and `tri_area`/`tri_area_indexed` is the area of the triangle with the three given (or indexed) vertices in any dimension, never NaN for a degenerate triangle with finite sides.",
     "every vector, dimension, stride and batch shape, each of the registered element types (objects included)", WHY,
     ["src/cross/cross_gufunc.h", "src/vnorm/vnorm_gufunc.h", "src/tri_area/tri_area_gufunc.h"],
     [("cross loops", "src/cross/cross_gufunc.h"), ("vdot", "src/vnorm/vnorm_gufunc.h"), ("tri_area", "src/tri_area/tri_area_gufunc.h")])

prop('C23', "mad, rmad and gini equal the mean absolute difference definitions",
     "`mad(x, unbiased)` is the sum of |x[i] - x[j]| over all pairs divided by n**2, or by n*(n - 1) when unbiased; it is computed from the sorted elements as twice the sum over i of i*s[i] minus the sum of the elements before it. "
     "`gini(x, unbiased)` is that sum over the pairs i < j divided by n (or n - 1) times the sum of x, NaN for 0/0 and inf for a nonzero difference over a zero sum, and `rmad` is twice `gini`.",
     "every non-empty array, length (including lengths whose square exceeds 64 bits), stride and batch shape, each of 3 float types", WHY,
     ["src/mad/mad_gufunc.h"], [("mad, rmad, gini loops", "src/mad/mad_gufunc.h")],
     note=NOTE + " std::sort and std::vector are assumed to satisfy their contracts.")

prop('C24', "sosfilter runs the cascade of second order sections on every sample",
     "`sosfilter(sos, x)` passes each sample through the m second order sections in order (transposed direct form II), starting from zero state; `sosfilter_ic` and `sosfilter_ic_contig` start from `zi` and also return the final state of every section. "
     "The contiguous fast path and the strided path compute the same values; with no sections the output is the input.",
     "every sos array, signal, initial state, number of sections, length and stride (C-contiguous arrays for sosfilter_ic_contig, as documented), each of 3 float types", WHY,
     ["src/sosfilter/sosfilter_gufunc.h"], [("filter loops and the contiguous fast path", "src/sosfilter/sosfilter_gufunc.h")])

prop('C25', "piecewise functions take the documented branch at every argument",
     "`step`, `linearstep`, `smoothstep3`, `smoothstep5`, `invsmoothstep3`, `deadzone`, `trapezoid_pulse`, `hyperbolic_ramp`, `exponential_ramp`, `nan_to_num`, `issnan` and the four semivariogram functions return the value their documentation gives for the interval the argument lies in. "
     "Boundary points, NaN, infinities and degenerate intervals (equal edges) give the value of the definition.",
     "every combination of arguments (NaN and infinities included), every stride, each of 3 float types", WHY,
     ["src/step/step.h", "src/deadzone/deadzone.h", "src/trapezoid_pulse/trapezoid_pulse.h", "src/ramp/ramp.h", "src/semivar/semivar.h", "src/nan_to_num/nan_to_num.h"],
     [("scalar kernels", "src/step/step.h, src/deadzone/deadzone.h, src/trapezoid_pulse/trapezoid_pulse.h, src/ramp/ramp.h, src/semivar/semivar.h")])

prop('C26', "abs_squared, abssq, hypot3, logistic and transform kernels",
     "`abs_squared` and `abssq` are re*re + im*im (x*x for real x), `hypot3` is the Euclidean norm of three numbers scaled so that it neither overflows nor underflows needlessly, and inf when an argument is infinite. "
     "`logistic`, `logistic_deriv`, `log_logistic`, `swish`, `pow1pm1`, `yeo_johnson` and `inv_yeo_johnson` equal their defining formulas in terms of exp, log1p, expm1 and pow on every branch.",
     "every argument combination, every stride, each of the registered float and complex types", WHY,
     ["src/abs_squared/abs_squared.h", "src/abssq/abssq_ufunc.cpp", "src/hypot3/hypot3.h", "src/logistic/logistic.h", "src/pow1pm1/pow1pm1.h", "src/yeo_johnson/yeo_johnson.h"],
     [("scalar kernels", "src/hypot3/hypot3.h, src/logistic/logistic.h, src/yeo_johnson/yeo_johnson.h, src/pow1pm1/pow1pm1.h")])

T_GD = ("contract-based deductive verification of the loop behind gendot (clang-extracted LLVM IR of the included source; the functions it calls through pointers appear as contracts with uninterpreted functions; z3), "
        "plus a bounded enumeration of the loop tables built for all pairs of the installed ufuncs, also under AddressSanitizer, not counted as proved")
prop('C27', "gendot computes sumfunc over prodfunc for every pair of ufuncs",
     "For every element-wise `prodfunc`, every `sumfunc` (element-wise, or a gufunc with signature (n)->()), every length, stride and batch shape, the gufunc made by `gendot` returns sumfunc(...sumfunc(p0, p1)..., p_last), or sumfunc applied to the vector p, where p_k = prodfunc(x_k, y_k), and reads and writes no other memory. "
     "For empty vectors it returns the identity of `sumfunc`, or raises ValueError when there is none. "
     "It offers exactly the types for which a non-object loop of `prodfunc` yields what a loop of `sumfunc` takes (and, for an element-wise one, also returns), and rejects other arguments with ValueError.",
     "all functions prodfunc and sumfunc (uninterpreted), operand sizes 1, 2, 4, 8, 16 bytes, all lengths, strides and batch shapes; the table of loops: all pairs of the installed ufuncs (bounded)",
     "The tests compose three or four pairs of ufuncs on short contiguous arrays of one or two types.",
     ["src/gendot/gendotmodule.c", "ufunclab/_gendot_wrap.py"], [("gendot_loop, reduce", "src/gendot/gendotmodule.c"), ("gendot", "ufunclab/_gendot_wrap.py")], technique=T_GD,
     note="Proved: the loop. Bounded: the table of types, functions and identities (built in C and Python), over the ufuncs of the installed NumPy and three of ufunclab's gufuncs. Assumed: called loops behave as ufunc loops.")

T_PY = ("contract-based deductive verification of the Python wrappers: the source in /repo is parsed on every run and executed symbolically (all paths, unbounded shapes) against contracts of the NumPy and gufunc calls it makes, "
        "every obligation discharged by z3; rejected obligations are replayed on the real functions")
prop('C28', "the Python wrappers pick the right axis, shape, type and output",
     "`bincount`, `one_hot`, `convert_to_base`, `nextn_greater` and `nextn_less` apply their gufunc along the requested axis: the result has the broadcast shape of the other axes with the output axis where `axis` (negative values included) says, in the documented type, and the default sizes cover the data. "
     "With `out` the result is that same array: `bincount` and `one_hot` results never depend on what `out`, freshly allocated or not, held before, whatever its byte order, alignment or type. "
     "Invalid sizes, axes, shapes of `out` and values raise ValueError (or a subclass of it) rather than produce a wrong result.",
     "every shape and number of dimensions, every axis, with and without out and weights, every combination of input and output types",
     "The tests call each wrapper with a few shapes, nearly always the default axis and a fresh native output array.",
     ["ufunclab/_wrapped.py"], [("bincount, one_hot, convert_to_base, nextn_greater, nextn_less", "ufunclab/_wrapped.py")], technique=T_PY,
     note="Assumed: the contracts of NumPy's functions and of the gufunc machinery (shape broadcasting, casting, axes); the gufunc loops themselves are C12-C14.")

prop('C29', "special functions stay within a stated error of the exact function",
     "For every argument of the stated range the double precision result is within the stated error of the exact function: `debye1` for |x| <= 2**1020 and `loggamma1p` for -1 + 2**-50 <= x <= 2**60 (4.5e-14), `normal.erfcx` from -26.62 to 2**60 (1.7e-14), `expint1` from 2**-64 to 700 and `logexpint1` from 2**-64 to 2**60 (2.3e-14), `normal.cdf` and `sf` for |x| <= 12, `logcdf` from -100 to 12 and `logsf` from -12 to 100 (5.6e-15), `logfactorial` from 126 up, `logistic`, `logistic_deriv` and `log_logistic` for |x| <= 80 (2.7e-15). "
     "In single precision the error is within 6e-6 (`debye1` and `loggamma1p` 5e-7), in long double within 2.2e-16 for `expint1` and `logexpint1`, 2.2e-17 for `erfcx` and 2.8e-18 for the others; `debye1` of NaN, inf, -inf and 0 is NaN, 0, inf and 1. "
     "Errors are relative, times 1 + x**2 for `cdf`, `sf`, `erfcx` of negative x and the upper tails of `logcdf` and `logsf` (as in rounding x*x); `logexpint1`, and `loggamma1p` outside (-0.25, 0.9), have an absolute bound where the value is below 1.",
     "every argument of the ranges in every registered real type", "The approximations are piecewise, with hundreds of pieces and thousands of coefficients; a test samples a few points of a few pieces, so that a wrong digit, piece boundary or number of terms goes unseen.",
     ["src/debye1/debye1_generated.c", "src/normal/erfcx_funcs.cxx", "src/normal/normal.h", "src/expint1/expint1.h", "src/loggamma1p/loggamma1p.c", "src/logfactorial/logfactorial.c"],
     [("debye1", "src/debye1/debye1_generated.c"), ("erfcx, erfcx_y100", "src/normal/erfcx_funcs.cxx"), ("expint1, logexpint1", "src/expint1/expint1.h"),
      ("loggamma1p, lanczos_sum", "src/loggamma1p/loggamma1p.c"), ("normal_cdf, normal_logcdf", "src/normal/normal.h")],
     note="Taylor models of the extracted code with the rounding error of every operation; assumes the C library's exp, log, log1p within 2 ulp and erfc within 6 ulp, IEEE rounding, and mpmath's values at single points; NaN, infinities and signed zeros are C30's.",
     technique=T_ACC)


prop('C30', "special functions take the documented value and branch at every argument",
     "At every argument, NaN, infinities, both zeros, branch points and points outside the domain included, `logfactorial`, `expint1`, `logexpint1`, `normal.cdf`, `sf`, `logcdf`, `logsf`, `erfcx`, `loggamma1p` and the two complex `log1p` variants compute the formula documented for that argument in the precision of the type. "
     "`logfactorial(k)` is log(k!) correctly rounded for k < 126 and the Stirling series beyond; E1 is its series up to 1 and its continued fraction above (its logarithm the asymptotic series above 500); sf(x) = cdf(-x), logsf(x) = logcdf(-x), erfcx(-x) = 2*exp(x*x) - erfcx(x). "
     "Arguments outside the domain give NaN (expint1 and logexpint1 of 0 are inf, loggamma1p is NaN from -1 down), and NaN gives NaN.",
     "every argument of every registered real, complex and integer type, every stride and batch length", WHY,
     ["src/logfactorial/logfactorial.c", "src/expint1/expint1.h", "src/normal/normal.h", "src/normal/erfcx_funcs.cxx", "src/loggamma1p/loggamma1p.c", "src/log1p/log1p_ufunc.c"],
     [("logfactorial, logfact[]", "src/logfactorial/logfactorial.c"), ("expint1, logexpint1", "src/expint1/expint1.h"), ("normal_cdf, normal_logcdf", "src/normal/normal.h"),
      ("erfcx", "src/normal/erfcx_funcs.cxx"), ("log1p_theorem4, log1p_doubledouble", "src/log1p/log1p_ufunc.c")],
     note="Float arithmetic is IEEE-like with rounding abstracted; libm functions are uninterpreted; the polynomial pieces behind erfcx are taken as a function of their argument here (their accuracy is not this property's claim).")
