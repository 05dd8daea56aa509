import json
P=[]
def p(id,title,statement,over,text,why,files,mech,observe,state=()):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=observe,
                   state=[dict(name=a,meaning=b,where=c) for a,b,c in state],hook_needed=None)))
p("C01","Initialisation accepts exactly the valid parameters",
 "Initialising a detector succeeds if and only if 0 <= level < 1, 0 < q < 1 - level and storage for the (non-zero) number of excesses can be allocated; otherwise it returns the negative error code of the first rule broken, in the order level, q, memory. NaN parameters and capacities whose byte size does not fit a machine word are refused. After success the detector holds exactly the given parameters (flags normalised to 0/1), has seen no data, has an empty tail and both thresholds are NaN.",
 ["inputs","configurations"],"every double q and level (NaN, infinities, signed zeros, subnormals), every int flag, every capacity, allocation succeeding or failing",
 "the unit tests try a handful of valid and invalid (q, level) pairs; the accepted region is defined by floating-point comparisons whose corners (NaN, 1-level rounding, 0, capacity wrap) are never sampled",
 ["src/spot.c","src/tail.c","src/peaks.c","src/ubend.c"],[("spot_init","src/spot.c"),("tail_init/peaks_init/ubend_init","src/tail.c, src/peaks.c, src/ubend.c")],["return code of spot_init","fields of struct Spot"])
p("C02","No invalid memory access or undefined behaviour on any use",
 "Whatever finite, infinite or NaN doubles are passed as training data, stream values, probabilities or levels, initialising, fitting, stepping, querying and freeing a detector only touches memory that belongs to it or to the caller's buffers. No operation reads uninitialised memory, writes past the configured number of excesses, dereferences a null pointer, overflows a signed integer or converts an out-of-range double to an integer.",
 ["inputs","histories","configurations"],"API histories initialise-fit-step*-query*-free with arbitrary data (including NaN and infinities), data sizes 0..7 and capacities 1..4, every branch outcome",
 "tests run ordinary data without sanitizers; the accesses depend on wrap-around positions and on comparisons with NaN/ties that random Gaussian data never produces",
 ["src/spot.c","src/tail.c","src/peaks.c","src/ubend.c","src/p2.c","src/estimator.c","src/brent.c","src/xmath.c"],[("ring cursor arithmetic","src/ubend.c"),("marker search","src/p2.c"),("exponent extraction and scaling","src/xmath.c")],["every load, store, shift and conversion executed"])
p("C03","The tail keeps exactly the most recent excesses",
 "After any sequence of excesses, a detector configured for m excesses stores exactly the last m of them (all of them while fewer have been seen), with their exact values, each new one replacing the oldest. The reported tail size is the number stored and never exceeds m.",
 ["histories","inputs","configurations"],"all sequences of excesses (symbolic values) from a fresh tail and one push from any reachable fill state, capacities 1..5",
 "tests push one fixed sequence into one small container; wrap-around happens at specific positions that depend on capacity and history length",
 ["src/ubend.c","src/peaks.c","src/tail.c","src/spot.c"],[("ubend_push/ubend_size","src/ubend.c"),("peaks_push","src/peaks.c")],["stored values","tail size"],[("cursor, filled","ring position","struct Ubend")])
p("C04","Tail statistics describe exactly the stored excesses",
 "At every moment, the minimum, maximum, sum and sum of squares kept for the tail are those of the excesses currently stored, whatever has been evicted; hence the reported mean and variance are the mean and (population) variance of the stored excesses. Minimum and maximum are exact; sums hold up to floating-point rounding.",
 ["histories","inputs","configurations"],"all sequences of pushes of arbitrary finite values from a fresh tail, and one push from any consistent state, capacities 1..4",
 "the statistics are maintained incrementally and recomputed only when an extreme value is evicted; tests check one short history and never the second moment after such an eviction",
 ["src/peaks.c","src/ubend.c"],[("peaks_push, peaks_update_stats","src/peaks.c"),("peaks_mean, peaks_var","src/peaks.c")],["mean","variance","minimum","maximum"],[("e, e2, min, max","running statistics","struct Peaks")])
p("C05","Each stream value is classified and absorbed as specified",
 "For an upper-tail detector, a value is reported as an anomaly exactly when anomaly discarding is on and it is strictly beyond the current anomaly threshold; otherwise it is an excess exactly when it is at or beyond the excess threshold, and normal otherwise (mirrored for a lower-tail detector). A normal value only increments the count of seen data; an excess increments both counts, stores its distance to the excess threshold, refits the tail and sets the anomaly threshold to the detector's own quantile at its configured probability in the new state. The excess threshold never changes while stepping.",
 ["inputs","histories"],"every double value, every threshold pair and counter state, both tails, discarding on and off",
 "tests feed Gaussian streams and count classes; they never hit a value equal to a threshold, and do not check the state update exactly",
 ["src/spot.c","src/tail.c"],[("spot_step","src/spot.c"),("spot_quantile","src/spot.c")],["return code of spot_step","counters, thresholds"],[("n, Nt, excess_threshold, anomaly_threshold","model state","struct Spot")])
p("C06","NaN inputs and discarded anomalies leave the model untouched",
 "Stepping with a NaN returns the dedicated negative error code, and stepping with a value flagged as an anomaly returns the anomaly code; in both cases every observable part of the detector (counters, thresholds, tail parameters, statistics and stored excesses) is bit-for-bit what it was before, so the verdicts on all later values are unaffected.",
 ["inputs","histories"],"every NaN, every double beyond the threshold, arbitrary prior state, both tails",
 "tests check return codes, not that the whole state is unchanged for every rejected value",
 ["src/spot.c"],[("early returns of spot_step","src/spot.c")],["all fields of struct Spot and the stored excesses"])
p("C07","Fitting establishes the model from the training data",
 "Fitting a fresh detector records the number of training values, sets the excess threshold to the streaming quantile estimate of the data at the configured level (at 1 - level for a lower tail), stores the distance to that threshold of exactly the values strictly beyond it, in order (most recent kept when there are more than the capacity), and counts them. It then fits the tail and sets the anomaly threshold to the detector's own quantile at its configured probability. It returns the dedicated negative error code when the excess threshold, or else the anomaly threshold, is not a number, and 0 otherwise.",
 ["inputs","configurations"],"all training sets of size 0..8 of arbitrary reals, all levels and probabilities, both tails, capacities 1..4, any tail-fit outcome",
 "tests fit a few large Gaussian samples and look at coarse properties of the result",
 ["src/spot.c","src/p2.c","src/tail.c"],[("spot_fit","src/spot.c")],["return code of spot_fit","thresholds, counters, stored excesses"])
p("C08","Lower-tail and upper-tail detection mirror each other",
 "A lower-tail detector fed a stream x behaves exactly as an upper-tail detector in the mirrored state fed -x: same classifications, same counters, same stored excesses and tail parameters, opposite thresholds. Quantiles of the two are opposite and the probability of z in one equals the probability of -z in the other.",
 ["inputs","histories","configurations"],"arbitrary mirrored model states, every value, every queried quantile and probability",
 "a relational property over pairs of runs; tests only run the two directions separately on different data",
 ["src/spot.c","src/tail.c"],[("sign factor applied to distances","src/spot.c")],["results of spot_step, spot_quantile, spot_probability"])
p("C09","The streaming quantile estimate follows the P2 algorithm",
 "For at least five values the quantile estimate equals the one of the P2 algorithm (Jain and Chlamtac): five sorted initial markers, ideal marker positions advanced by 0, p/2, p, (1+p)/2 and 1 per counted value, parabolic adjustment by one position with linear fallback when the result would leave its neighbours. It always lies between the smallest and largest value seen and does not depend on the order of the first five values. (In this implementation a new strict extreme moves the end marker but is not counted; fewer than five values give 0.)",
 ["inputs","histories"],"every probability p in (0,1) and every data sequence of 5..9 reals (ties included for range and order claims)",
 "tests compare the estimate with the empirical quantile of random samples within a loose tolerance, which many wrong variants satisfy",
 ["src/p2.c"],[("marker update, parabolic and linear formulas","src/p2.c"),("sort5","src/p2.c")],["return value of p2_quantile"])
p("C10","The built-in logarithm is accurate for every double",
 "For every positive finite double the library's logarithm differs from the natural logarithm by at most 1e-10 relative plus 1e-13 absolute error. It is NaN for negative numbers and NaN, minus infinity at zero and plus infinity at plus infinity.",
 ["inputs"],"all 2098 binades of positive doubles (subnormals included), every mantissa, and every special value",
 "tests sample points; accuracy must hold on every binade, including the two treated specially and subnormals",
 ["src/xmath.c"],[("xlog, continued fraction, exponent extraction","src/xmath.c")],["return value of xlog"])
p("C11","The built-in exponential and power are accurate for every double",
 "For every |x| <= 700 the library's exponential has relative error at most 1e-12; beyond, it overflows to plus infinity (or a value above 1e304) and underflows towards zero (below 1e-304), is NaN only for NaN and is +inf / 0 at +/- infinity. The power of a positive base equals the exponential of the exponent times the logarithm of the base, so its relative error is bounded by those of the two.",
 ["inputs"],"every double x (case split on the 1025 scaling steps, both signs, huge arguments and infinities)",
 "tests sample points in a moderate range; wrong scaling at particular integer steps or for huge arguments goes unseen",
 ["src/xmath.c"],[("xexp, argument reduction and scaling","src/xmath.c"),("xpow","src/xmath.c")],["return values of xexp, xpow"])
p("C12","Quantiles and probabilities follow the fitted Pareto tail",
 "With excess threshold t, Nt excesses among n values and tail parameters gamma and sigma, the quantile at probability q is t + (sigma/gamma)((q n/Nt)^(-gamma) - 1) (t - sigma log(q n/Nt) when gamma is 0) and the probability of exceeding z is (Nt/n)(1 + gamma (z-t)/sigma)^(-1/gamma) ((Nt/n) exp(-(z-t)/sigma) when gamma is 0), with distances mirrored for a lower tail. In particular the two are inverse of each other, the quantile at q = Nt/n is the excess threshold, and a smaller q never gives a less extreme quantile.",
 ["inputs","histories"],"every gamma, every sigma > 0, every 0 < q <= Nt/n, every z in the support, both tails (log and exp as exact functions)",
 "tests check a few parameter sets with tolerances and never the inverse or monotonicity laws",
 ["src/spot.c","src/tail.c"],[("tail_quantile, tail_probability","src/tail.c"),("spot_quantile, spot_probability","src/spot.c")],["return values of spot_quantile, spot_probability"])
p("C13","The log-likelihood is that of the Pareto model on the stored excesses",
 "For every gamma and positive sigma the log-likelihood reported for the tail is -k log(sigma) - (1 + 1/gamma) * sum of log(1 + gamma*y/sigma) over the k stored excesses y, and -k log(sigma) - (sum of y)/sigma when gamma is 0. Every stored excess counts exactly once, whether or not the store has wrapped around.",
 ["inputs","histories"],"every gamma, sigma > 0 and stored content of 1..4 excesses, store partially filled, exactly full or wrapped",
 "tests compare one sample with a reference value; they do not cover wrapped stores or both parameter branches for all contents",
 ["src/peaks.c"],[("log_likelihood","src/peaks.c")],["return value of log_likelihood"])
p("C14","Parameter estimators return what their formulas prescribe",
 "The moment estimator gives gamma = (1 - E^2/V)/2 and sigma = E(1 + E^2/V)/2 from the mean E and variance V of the stored excesses. The maximum-likelihood (Grimshaw) estimator looks for roots of (mean of 1/(1+x y)) (1 + mean of log(1+x y)) - 1 on the two sides of zero (inside ]-1/max, 0[ and ]0, 2(mean-min)/min^2]), turns each root x into gamma = mean of log(1+x y), sigma = gamma/x, and returns the candidate of highest likelihood among those and (0, mean). Both report the log-likelihood of the parameters they return.",
 ["inputs","histories"],"every stored content of 1..3 positive excesses and every root-finder outcome (found or not, any root)",
 "tests check that estimates are close to known parameters on large samples, which tolerates dropped roots, wrong brackets and mismatched outputs",
 ["src/estimator.c","src/peaks.c"],[("mom_estimator, grimshaw_estimator","src/estimator.c")],["gamma, sigma and likelihood returned"])
p("C15","The tail fit keeps the candidate of highest likelihood",
 "Fitting the tail sets its parameters to those of the estimator with the highest log-likelihood, consistently (both parameters from the same estimator), and returns that likelihood. An estimator whose likelihood is NaN never displaces one whose likelihood is a number.",
 ["inputs","histories"],"every combination of estimator results (numbers, infinities, NaN)",
 "which estimator wins depends on the data; tests see one winner per sample and never a NaN candidate",
 ["src/tail.c"],[("tail_fit","src/tail.c")],["gamma, sigma and return value of tail_fit"])
p("C16","The root finder only reports bracketed roots",
 "For a function with real (non-NaN) values: when it has strictly the same sign at both ends of the interval the root finder reports failure. Otherwise it only evaluates the function inside the interval and, when it reports success, the returned point lies in the interval and either is an exact zero or lies within the convergence tolerance of a point where the function has the opposite sign. It always stops after a bounded number of evaluations and reports failure when it did not converge.",
 ["inputs","programs"],"every interval, every tolerance >= 0 and an arbitrary finite-valued function (uninterpreted), up to a bounded number of evaluations",
 "tests find roots of three textbook functions; the guarantee is about every function, including adversarial ones that defeat interpolation",
 ["src/brent.c"],[("bracket maintenance and acceptance test","src/brent.c")],["return value, success flag, evaluation points"])
p("C17","Memory is obtained and released only through the user's allocator",
 "Initialising a detector makes exactly one request to the allocator last configured, for enough bytes to hold the configured number of excesses; no other operation allocates, and freeing the detector returns exactly that block once to the configured deallocator. When the allocator fails or none is configured, initialisation reports the memory error, nothing is leaked, and freeing the detector afterwards is harmless.",
 ["histories","fault_sequences","configurations"],"every allocation outcome, allocator configured or not or replaced, histories of fit/step/query between initialisation and release, two detectors interleaved",
 "tests run with an allocator that always succeeds and do not account for blocks",
 ["src/allocator.c","src/ubend.c","src/spot.c"],[("xmalloc/xfree and their globals","src/allocator.c"),("ubend_init/ubend_free","src/ubend.c")],["calls received by the user's allocator"])
p("C18","Text queries fill the caller's buffer safely and completely",
 "Asking for the version, the licence or the message of an error code writes only inside the given buffer of the given size (nothing when the size is 0 or the buffer is null), always terminates the text, and yields the right text truncated to what fits, padding the rest with zeros. Each defined error code yields its own non-empty message and unknown codes leave the buffer untouched.",
 ["inputs","configurations"],"every buffer size 0..130, every error code value (all 32-bit integers)",
 "tests use one comfortable buffer size and a few codes; off-by-one errors only show at the exact text length or at size 0 and 1",
 ["src/spot.c"],[("bounded copy and error table","src/spot.c")],["contents of the caller's buffer"])
p("C19","Detectors are independent and queries do not disturb them",
 "The behaviour of a detector depends only on its own parameters and data: using other detectors in between, in any order, changes none of its results. Quantile and probability queries (and size, mean, variance and likelihood queries) leave the detector bit-for-bit unchanged, and repeating a query gives the same answer.",
 ["histories","schedules"],"every interleaving of operations on two detectors within the bound, arbitrary values, arbitrary states for the queries",
 "hidden shared or cached state shows only in interleavings of several detectors, which tests do not run",
 ["src/spot.c","src/tail.c","src/peaks.c","src/ubend.c","src/xmath.c"],[("all state lives in the caller's structure","src/*.c")],["all observable state and results"])
p("C20","The Python binding is faithful and fails cleanly",
 "Every method of the Python class either returns a valid result with no exception pending or returns an error with an exception set; no input object (wrong types, tuples, empty sequences, failing conversions, allocation failures) makes it crash, leak a reference or touch memory out of bounds. Values are passed unchanged to and from the detector: constructor arguments and defaults (upper tail, discarding on, level 0.98, 500 excesses), training data in order, step codes, quantiles, probabilities and stored excesses.",
 ["inputs","fault_sequences","histories"],"every outcome of each interpreter call (conversion failing at any element, allocation failure), sequences of length 0..3, arbitrary doubles",
 "the Python tests run on well-formed numpy arrays only",
 ["python/libspotmodule.c"],[("argument conversion and error propagation","python/libspotmodule.c")],["returned objects, pending exception, reference counts"])
p("C21","User-supplied scaling primitives are honoured",
 "When the user installs replacement exponent-splitting and scaling functions, all later logarithms, exponentials and powers use them with correct arguments, and results are the same as with the built-in ones for any replacement meeting their standard definition. Installing a null function leaves the corresponding current one in place.",
 ["configurations","inputs","histories"],"every pair of null / non-null replacements, any behaviour of the replacement meeting the contract, every argument binade",
 "tests call the setter once with the C library functions and cannot tell which implementation was used",
 ["src/xmath.c","src/spot.c"],[("function pointers with musl defaults","src/xmath.c")],["calls received by the replacement functions","values of xlog, xexp"])
p("C22","The JavaScript binding releases and reports like the C library",
 "Constructing, fitting, stepping and disposing of the JavaScript detector object never leaks or double-frees the underlying memory, and a failing call throws instead of leaving a half-initialised object to be released later.",
 ["inputs","fault_sequences","histories"],"every construction and call outcome of the WebAssembly module",
 "the TypeScript tests need a WebAssembly toolchain and only exercise successful calls",
 ["wasm/index.ts","wasm/main.c"],[("constructor, finalizer and heap marshalling","wasm/index.ts")],["thrown errors, calls into the WebAssembly module"])
with open("/verif/properties.jsonl","w") as f:
    for x in P: f.write(json.dumps(x)+"\n")
for x in P: assert len(x["title"])<=80,(x["id"],len(x["title"]))
