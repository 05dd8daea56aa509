HOW = dict(
C01="`spot_init` is run on fully symbolic q, level, flags and 64-bit capacity, with an allocator that fails or not, or none configured. The oracle is the statement: the set of accepted parameters, the order of the error codes, and the state after success. IEEE arithmetic is exact. Tests sample four parameter sets.",
C02="The engine's own obligations (bounds, null, freed, uninitialised, overflow, shift, conversion, array index) are checked on every path of: whole lives (init, fit, steps, queries, free) with arbitrary doubles; both estimators on arbitrary stores with an arbitrary root finder; the streaming quantile on arbitrary data; the root finder on arbitrary function values; xlog/xexp/xmin on every double. Every other property's run carries the same obligations, so safety is also checked along all their paths.",
C03="Histories of symbolic pushes through the ring buffer, the tail and `spot_step` are compared with a list kept by the harness: contents, order of replacement and size after each operation.",
C04="One push from an arbitrary store whose statistics are consistent (an inductive step, all ring positions), and whole histories from a fresh store: minimum, maximum, sum and sum of squares, mean and variance must be those of the contents. Real arithmetic; the native replay uses a relative tolerance.",
C05="One `spot_step` from an arbitrary detector state. Classification is decided in fp mode with exact comparisons; the update (counters, stored distance, refit, threshold equal to the detector's own quantile) in real mode with arbitrary estimators.",
C06="From an arbitrary state, a rejected step (NaN, or an anomaly when discarding) must leave every field and stored value bit-identical, and a second arbitrary step must behave as without the first. Both encodings.",
C07="`spot_fit` on a fresh detector with an arbitrary quantile estimate (and, separately, the real one) and arbitrary estimators: recorded size, threshold, stored and counted excesses, parameters, anomaly threshold and return code against the statement.",
C08="Two detectors in mirrored arbitrary states get x and -x: codes, counters, contents and parameters equal, thresholds opposite; same for queries and initialisation. fp mode keeps negation exact, so equality is bit-for-bit.",
C09="`p2_quantile` is compared with a reference P2 written in the harness from the paper (four variants of the tie and extreme rules are accepted, as the statement allows), as polynomial identities/inequalities over all data orders; range and small-size facts separately. The published rule for counting new extremes is checked too and is a listed finding.",
C10="For each binary exponent the mantissa is symbolic and the returned rational function is compared with a rigorous enclosure of the logarithm (atanh series with remainder); special values in fp mode.",
C11="As C10 for the exponential, one case per multiple of ln 2 of the reduction, both signs; huge arguments and special values in fp mode; the power as the composition.",
C12="Quantile and probability formulas as identities over an arbitrary detector state with log and exp uninterpreted (laws: exp(log x) = x, log of products and powers); inverse and monotonicity as consequences.",
C13="`log_likelihood` on arbitrary stores (every ring position, wrapped or not) against the formula over the stored excesses, log uninterpreted; parameters whose support misses a stored excess must not give a finite likelihood.",
C14="The moment estimator as rational identities. For the Grimshaw estimator the root finder is replaced by an arbitrary one that records its interval and evaluates the function passed: interval ends, function values, conversion of roots, choice of the best candidate and the reported likelihood are compared with the statement.",
C15="`tail_fit` with two arbitrary estimators (values and NaN pattern symbolic): selection, consistency of the pair and returned likelihood.",
C16="`brent` on an uninterpreted function: every sequence of function values. All evaluations inside the interval; a reported root is an exact zero or has a sign change within the tolerance; same signs fail (also with exact IEEE arithmetic, where products and sums of the end values may underflow); the iteration limit reports failure.",
C17="A recording allocator: every sequence of init/fit/step/query/free with failing or missing allocators; number, size and matching of requests and releases.",
C18="Symbolic buffer sizes and error codes, buffer filled with a marker: bytes written, terminator, text, padding; nothing outside. One finding is listed (the NaN-data error has no message, and the stable tests require it to stay so).",
C19="Two detectors in arbitrary states: operations on one leave the other bit-identical and do not change its later results; queries leave the detector bit-identical and repeat.",
C20="The extension module is compiled from its own source against the real CPython headers and executed on a model of the interpreter (objects with reference counts, pending exception, failing allocations), driven only through the slots and methods it registers. Obligations: result xor exception, no leaked or over-released reference, no use after release, values passed unchanged, defaults, memory safety.",
C21="Sequences of installations of null or replacement functions; replacements that meet the standard definition must be called with the right arguments, and the results must stay within the accuracy bounds of C10 and C11.",
)
COST = dict(C01="3 s", C02="80 s", C03="20 s", C04="60 s", C05="70 s", C06="80 s", C07="50 s", C08="45 s", C09="110 s", C10="5 s", C11="60 s", C12="5 s", C13="20 s", C14="50 s", C15="3 s", C16="105 s", C17="8 s", C18="10 s", C19="80 s", C20="35 s", C21="25 s")
