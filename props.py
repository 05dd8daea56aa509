"""The checks: for every property, the symbolic-execution jobs that decide it (quick and thorough tiers)."""
from vlib import Job

EST = ("mom_estimator", "grimshaw_estimator")
MATH = ("xlog", "xexp")
A_REAL = "real mode: doubles are exact reals (IEEE rounding and overflow not modelled), NaN and infinities tracked as special values"
A_EST = "the two estimators are replaced by arbitrary functions of the tail contents (their own behaviour: C13, C14)"
A_MATH = "log and exp are uninterpreted functions (their accuracy: C10, C11); counterexamples are replayed with the library's own"


def big_positions(c, few=False):
    """ring positions of a large store: about to fill, just full, and full with the smallest / the largest / the last value next to go"""
    lo = next(i for i in range(c) if (i * 7 + 3) % c == 0)
    hi = next(i for i in range(c) if (i * 7 + 3) % c == c - 1)
    return sorted({c - 1, c, c + lo, c + hi, 2 * c - 1}) if c < 100 or not few else [2 * c - 1]


BIG = "; stores of capacity 8, 17, 40 and 260 with fixed contents"
BIGC = (8, 17, 40)
HUGE = BIGC + (260,)


def C01(tier):
    J = []
    for fail in (0, 1):
        for conf in (0, 1):
            J.append(Job(f"init fail={fail} configured={conf}", "init.c", "h_init", mode="fp", fp_exact=True, choose=dict(malloc_fails=fail, allocator_set=conf),
                         covers=["bad level", "bad q"] + (["accepted"] if conf and not fail else ["bad memory"]), q_ms=60000,
                         bounds="none on the inputs: every double q and level, every int flag, every 64-bit capacity; one call"))
    return dict(jobs=J, assumptions=["IEEE-754 binary64 semantics exact", "the allocator returns either null or a usable block"])


def C02(tier):
    J = []
    q = tier == "quick"
    def add(name, entry, covers, **kw):
        J.append(Job(name, "safe.c", entry, mode="fp", covers=covers, validate="run", **kw))
    BR = ("brent",)
    any_ = "every double, infinities and NaN included"
    for low in (0, 1):
        for disc in (0, 1):
            ch = dict(low=low, discard=disc)
            for n, c, st in ((0, 1, 2), (1, 1, 1), (2, 1, 1), (2, 2, 1)) if q else ((0, 1, 3), (1, 1, 2), (2, 1, 2), (2, 2, 2), (3, 2, 1), (3, 1, 1)):
                add(f"life n={n} cap={c} steps={st} low={low} discard={disc}", "h_life", ["refused", "freed", "fitted"], stubs=("tail_fit", "p2_quantile"), mathstubs=MATH, params=dict(n=n, cap=c, steps=st), choose=ch,
                    bounds="init, fit of up to %d values, up to %d steps, queries, free; %s" % (2 if q else 3, 2 if q else 3, any_))
            add(f"unfitted low={low} discard={disc}", "h_life", ["refused", "freed"], stubs=("tail_fit",), mathstubs=MATH, params=dict(n=0, cap=1, steps=2, fit=0, query_first=1), choose=ch, bounds="stepping and querying a detector that was never fitted")
    for c in (1, 2) if q else (1, 2, 3):
        for p in range(2 * c):
            add(f"estimators cap={c} pushed={p}", "h_estimate", ["estimated"], stubs=BR, mathstubs=MATH, params=dict(cap=c), choose=dict(pushed=p), bounds="both estimators on any store of capacity up to %d, any outcome of the root finder" % (2 if q else 3))
    for n in range(0, 7):
        for k in range(4) if n < 6 else (1,) if q else (1, 2, 3):
            add(f"quantile n={n} p={k}", "h_p2_safe", ["estimated"], params=dict(n=n), choose=dict(n=n, p=k), bounds="streaming quantile of up to 6 values, p in {0, 0.5, 0.98, 1}")
    for n in (6, 7, 8) if q else (6, 7, 8, 9, 10):
        for w in range(1, 5):
            for k in range(4) if n < 8 else (1, 2, 3):
                add(f"quantile n={n} first={w} p={k}", "h_p2_safe", ["estimated"], params=dict(n=n, first=w), choose=dict(n=n, p=k), bounds="streaming quantile of up to %d values, the first five 0..4, equal, partly NaN or partly infinite" % (8 if q else 10))
            if n < (7 if q else 8): add(f"quantile n={n} first={w} any p", "h_p2_safe", ["estimated"], params=dict(n=n, first=w, any_p=1), choose=dict(n=n), bounds="streaming quantile of up to %d values, the first five 0..4, equal, partly NaN or partly infinite, every p" % (6 if q else 7))
    for n in (12, 20, 40):
        for low in (0, 1):
            add(f"life n={n} cap={n // 2} low={low}", "h_life", ["freed", "fitted"], stubs=("tail_fit", "p2_quantile"), mathstubs=MATH, params=dict(n=n, cap=n // 2, steps=1, sparse=n - 1), choose=dict(low=low, discard=1),
                bounds="long lives: fit of 12, 20 or 40 values of which one is arbitrary, one step")
        for w in (1, 4):
            add(f"quantile n={n} first={w}", "h_p2_safe", ["estimated"], params=dict(n=n, first=w, sparse=9 if n == 12 else n - 2), choose=dict(n=n, p=1), limit=300, bounds="streaming quantile of 12, 20 or 40 values of which one is arbitrary")
    for n in (100, 260):
        add(f"life n={n}", "h_life", ["freed", "fitted"], stubs=("tail_fit", "p2_quantile"), mathstubs=MATH, params=dict(n=n, cap=n // 20, steps=1, sparse=n - 1), choose=dict(discard=1),
            bounds="long lives: fit of 100 or 260 values of which one is arbitrary, one step")
    for c in (8, 17):
        add(f"estimators cap={c}", "h_estimate", ["estimated"], stubs=BR, mathstubs=MATH, params=dict(cap=c, sparse=1), choose=dict(pushed=[c - 1, c + 1]), bounds="both estimators on stores of capacity 8 and 17 with two arbitrary values")
    J.append(Job("request size", "alloc.c", "h_size", mode="fp", covers=["sized"], bounds="request size: every 64-bit capacity"))
    add("root finder", "h_brent_safe", ["found", "not found"], params=dict(evals=2 if q else 3), bounds="any interval, tolerance and function values, up to %d evaluations" % (2 if q else 3))
    for k in range(3):
        add(f"mathematics {k}", "h_math_safe", [], fp_exact=True, choose=dict(function=k), bounds="logarithm, exponential and minimum of every double")
    return dict(jobs=J, assumptions=["results of floating-point operations are arbitrary doubles in the longer histories (sound over-approximation: branches are explored both ways)", "life: the result of the tail fit is arbitrary; estimators: the root finder is arbitrary; each is explored on its own"])


def C03(tier):
    J = []
    q = tier == "quick"
    for c in range(1, 6 if q else 8):
        J.append(Job(f"ring cap={c}", "tail.c", "h_ring", mode="fp", params=dict(cap=c, n=2 * c + 3), covers=["done"],
                     bounds="every history of 2*capacity+3 pushes of arbitrary doubles, capacity <= %d" % (5 if q else 7)))
    for c in (8, 17, 33, 65):
        J.append(Job(f"ring cap={c}", "tail.c", "h_ring", mode="fp", params=dict(cap=c, n=2 * c + 3), covers=["done"], bounds="the same for capacities 8, 17, 33, 65, 257"))
    J.append(Job("ring cap=257", "tail.c", "h_ring", mode="fp", params=dict(cap=257, n=520, all=0), covers=["done"], bounds="the same for capacities 8, 17, 33, 65, 257"))
    J.append(Job("ring far", "tail.c", "h_ring_far", mode="fp", covers=["far"], validate="run", bounds="two pushes at five ring positions of stores of 127 to 2^24+1 values"))
    for c, n in ((1, 5), (2, 5), (3, 5)) if q else ((1, 7), (2, 7), (3, 7), (4, 7), (5, 7)):
        J.append(Job(f"tail cap={c} n={n}", "tail.c", "h_tail", mode="real", params=dict(cap=c, n=n), covers=["done"],
                     bounds="every history of %d excesses through tail_push" % n))
    for c, n in ((1, 3), (2, 3)) if q else ((1, 5), (2, 5), (3, 5)):
        for low in (0, 1):
            J.append(Job(f"spot cap={c} n={n} low={low}", "tail.c", "h_spot", mode="fp", stubs=EST + ("spot_quantile",), params=dict(cap=c, n=n, low=low), covers=["done"], validate="run",
                         bounds="every stream of %d finite values through spot_step" % n))
    return dict(jobs=J, assumptions=[A_REAL + " (h_tail)", A_EST])


def C04(tier):
    caps = (1, 2, 3) if tier == "quick" else (1, 2, 3, 4)
    hist = ((1, 4), (2, 4), (3, 4)) if tier == "quick" else ((1, 6), (2, 6), (3, 6), (4, 6))
    J = []
    for c in caps:
        for pushed in range(2 * c):
            J.append(Job(f"push cap={c} pushed={pushed}", "peaks.c", "h_push", params=dict(cap=c), choose=dict(pushed=pushed),
                         covers=["pushed"] + (["evicting"] if pushed >= c else []), bounds="one push from any consistent state, capacity <= %d" % max(caps)))
    for c in (130, 260):
        for pushed in big_positions(c):
            J.append(Job(f"push cap={c} pushed={pushed}", "peaks.c", "h_push", params=dict(cap=c, sparse=2), choose=dict(pushed=pushed, erased_before=0), covers=["pushed"] + (["evicting"] if pushed >= c else []),
                         bounds="one push of an arbitrary value onto stores of capacity 130 and 260 with fixed contents"))
    for c in (8, 17) if tier == "quick" else BIGC:
        for pushed in big_positions(c):
            J.append(Job(f"push cap={c} pushed={pushed}", "peaks.c", "h_push", params=dict(cap=c, sparse=1), choose=dict(pushed=pushed), covers=["pushed"] + (["evicting"] if pushed >= c else []),
                         bounds="one push onto stores of capacity 8 and 17 (thorough: 40) of which two values are arbitrary"))
    for c, n in hist:
        J.append(Job(f"history cap={c} n={n}", "peaks.c", "h_history", params=dict(cap=c, n=n), covers=["history"],
                     bounds="all histories of %d pushes from a fresh store" % n))
    for c in (1, 2) if tier == "quick" else (1, 2, 3):
        for h in range(4) if c == 1 else (1, 3) if tier == "quick" else range(4):
            J.append(Job(f"drift cap={c} huge={h}", "peaks.c", "h_drift", mode="fp", fp_exact=True, params=dict(cap=c), choose=dict(huge=h), covers=["evicted"], q_ms=60000,
                         bounds="IEEE arithmetic exact: a history of capacity+1 or capacity+2 pushes of which one is 1e9, 1e17, 1e100 or 1e200, the last one any multiple of 1/16 in [0.5, 4.5["))
    return dict(jobs=J, assumptions=[A_REAL + " (h_push, h_history)", "values within +-1e6 (h_push, h_history)"])


def C05(tier):
    caps = (1, 2) if tier == "quick" else (1, 2, 3, 4)
    J = []
    for c in caps:
        for low in (0, 1):
            for disc in (0, 1):
                ch = dict(low=low, discard=disc)
                cov = ["normal", "excess"] + (["anomaly"] if disc else [])
                J.append(Job(f"update cap={c} low={low} discard={disc}", "step.c", "h_step", mode="real", stubs=EST, mathstubs=MATH, params=dict(cap=c), choose=ch,
                             covers=cov, bounds="one step from an arbitrary state, capacity <= %d" % max(caps), validate="run"))
                J.append(Job(f"class cap={c} low={low} discard={disc}", "step.c", "h_class", mode="fp", stubs=EST, mathstubs=MATH, params=dict(cap=c), choose=ch,
                             covers=cov, bounds="one step, IEEE binary64 comparisons and subtractions exact", validate="run"))
    for c in HUGE:
        for low in (0, 1):
            for e, m in (("h_step", "real"), ("h_class", "fp")):
                J.append(Job(f"{e} cap={c} low={low}", "step.c", e, mode=m, stubs=EST, mathstubs=MATH, params=dict(cap=c, sparse=2), choose=dict(low=low, discard=1, pushed=big_positions(c)),
                             covers=["normal", "excess", "anomaly"], bounds="one step" + BIG, validate="run"))
    return dict(jobs=J, assumptions=[A_REAL, A_EST, A_MATH])


def C06(tier):
    caps = (1, 2) if tier == "quick" else (1, 2, 3)
    J = []
    for c in caps:
        for low in (0, 1):
            for kind in (0, 1):
                for mode in ("real", "fp"):
                    J.append(Job(f"reject {mode} cap={c} low={low} kind={kind}", "step.c", "h_reject", mode=mode, stubs=EST, mathstubs=MATH, params=dict(cap=c),
                                 choose=dict(low=low, kind=kind), covers=["anomaly" if kind else "nan"], validate="run",
                                 bounds="one rejected step then one arbitrary step, arbitrary state, capacity <= %d" % max(caps)))
    for c in HUGE:
        for kind in (0, 1):
            for mode in ("real", "fp") if c < 100 else ("real",):
                J.append(Job(f"reject {mode} cap={c} kind={kind}", "step.c", "h_reject", mode=mode, stubs=EST, mathstubs=MATH, params=dict(cap=c, sparse=2), choose=dict(kind=kind, pushed=big_positions(c, True)),
                             covers=["anomaly" if kind else "nan"], validate="run", bounds="one rejected step then one arbitrary step" + BIG))
    return dict(jobs=J, assumptions=[A_REAL, A_EST, A_MATH])


def C07(tier):
    J = []
    q = tier == "quick"
    shapes = [(0, 1), (1, 1), (2, 1), (2, 2), (3, 1), (3, 2), (4, 2)] if q else [(0, 1), (1, 1), (2, 1), (2, 2), (3, 1), (3, 2), (3, 3), (4, 1), (4, 2), (4, 3), (5, 2), (5, 3)]
    for n, c in shapes:
        for low in (0, 1):
            for disc in ((0, 1) if n <= 2 else (1,)):
                J.append(Job(f"fit n={n} cap={c} low={low} discard={disc}", "fit.c", "h_fit", stubs=EST + ("p2_quantile",), mathstubs=MATH, params=dict(cap=c, n=n, nans=1 if n <= 2 else 0, inf=1 if 0 < n <= 2 else 0),
                             choose=dict(low=low, discard=disc), covers=["et nan"] + (["fitted"] if n else ["z nan"]), validate="run", eparams=dict(no_ackermann=True),
                             bounds="every training set of %d values (one may be NaN up to size 2), every level, q and quantile estimate (up to size 2: infinite on the far side too)" % max(s[0] for s in shapes)))
    for n in (1, 4, 5, 6) if q else (1, 2, 3, 4, 5, 6, 7):
        for low in (0, 1):
            J.append(Job(f"fit_p2 n={n} low={low}", "fit.c", "h_fit_p2", stubs=EST, mathstubs=MATH, params=dict(cap=2, n=n), choose=dict(low=low),
                         covers=["fitted"], validate="run", eparams=dict(no_ackermann=True), bounds="with the real quantile estimate at level 0.75, sorted first five values"))
    for n, cs in ((12, (3, 12)), (20, (7,)), (40, (5, 30))):
        for low in (0, 1):
            for c in cs:
                if n < 40 or not q: J.append(Job(f"fit n={n} cap={c} low={low}", "fit.c", "h_fit", stubs=EST + ("p2_quantile",), mathstubs=MATH, params=dict(cap=c, n=n, sparse=n - 1), choose=dict(low=low, discard=1), covers=["et nan", "fitted", "z nan"],
                             validate="run", eparams=dict(no_ackermann=True), bounds="training sets of 12 and 20 (thorough: 40) values of which one is arbitrary"))
                J.append(Job(f"fit_p2 n={n} cap={c} low={low}", "fit.c", "h_fit_p2", stubs=EST, mathstubs=MATH, params=dict(cap=c, n=n, sparse=n - 1), choose=dict(low=low), covers=["fitted"],
                             validate="run", eparams=dict(no_ackermann=True, exact=True), bounds="training sets of 12, 20 and 40 values of which one is arbitrary, with the real quantile estimate"))
    for n in (100, 150, 260):
        for c in (n // 20, n):
            J.append(Job(f"fit n={n} cap={c}", "fit.c", "h_fit", stubs=EST + ("p2_quantile",), mathstubs=MATH, params=dict(cap=c, n=n, sparse=n - 1, et=1), choose=dict(discard=1), covers=["et nan", "fitted"],
                         validate="run", eparams=dict(no_ackermann=True), bounds="training sets of 100, 150 and 260 values of which one is arbitrary, fixed quantile estimate"))
        for c in (1, 3):
            J.append(Job(f"fit n={n} cap={c} all", "fit.c", "h_fit", stubs=EST + ("p2_quantile",), mathstubs=MATH, params=dict(cap=c, n=n, sparse=n - 1, et=2), choose=dict(discard=1), covers=["et nan", "fitted"],
                         validate="run", eparams=dict(no_ackermann=True), bounds="training sets of 100, 150 and 260 values of which one is arbitrary, nearly all beyond the quantile estimate, capacity 1 or 3"))
        J.append(Job(f"fit_p2 n={n}", "fit.c", "h_fit_p2", stubs=EST, mathstubs=MATH, params=dict(cap=n // 20, n=n, sparse=n - 1), choose=dict(low=0), covers=["fitted"],
                     validate="run", eparams=dict(no_ackermann=True, exact=True), bounds="training sets of 100, 150 and 260 values of which one is arbitrary, with the real quantile estimate"))
    return dict(jobs=J, assumptions=[A_REAL, A_EST, A_MATH, "h_fit: the quantile estimate is an arbitrary value (its own behaviour: C09)"])


def C08(tier):
    J = []
    q = tier == "quick"
    for c in (1, 2) if q else (1, 2, 3):
        for disc in (0, 1):
            for m in ("real", "fp"):
                J.append(Job(f"step {m} cap={c} discard={disc}", "pair.c", "h_mirror_step", mode=m, stubs=EST, mathstubs=MATH, params=dict(cap=c, steps=1), choose=dict(discard=disc),
                             covers=["normal", "excess"] + (["anomaly"] if disc else []), validate="run", bounds="one step of two detectors in mirrored arbitrary states, capacity <= %d" % (2 if q else 3)))
    for c in HUGE:
        for m in ("real", "fp") if c < 100 else ("real",):
            J.append(Job(f"step {m} cap={c}", "pair.c", "h_mirror_step", mode=m, stubs=EST, mathstubs=MATH, params=dict(cap=c, steps=1, sparse=2), choose=dict(discard=1, pushed=big_positions(c, True)),
                         covers=["normal", "excess", "anomaly"], validate="run", bounds="one step of two detectors" + BIG))
    J.append(Job("two steps cap=1", "pair.c", "h_mirror_step", mode="fp", stubs=EST, mathstubs=MATH, params=dict(cap=1, steps=2), choose=dict(discard=1, pushed=[0]), covers=["normal", "excess", "anomaly"],
                 validate="run", bounds="two steps from mirrored fresh stores"))
    for m in ("real", "fp"):
        J.append(Job(f"query {m}", "pair.c", "h_mirror_query", mode=m, mathstubs=MATH, covers=["quantile", "probability"], validate="run", bounds="one query, arbitrary state and argument"))
    J.append(Job("init", "pair.c", "h_mirror_init", mode="fp", covers=["init"], bounds="every parameter"))
    return dict(jobs=J, assumptions=[A_REAL, A_EST, A_MATH])


def C09(tier):
    J = []
    q = tier == "quick"
    def p2(n, srt, tag, bounds, ps=(0,)):
        for p in ps:
            for hi in (0, 1) if p == 0 and (n > 6 or not srt) else (1 if p >= 50 else 0,):
                for k in (range(6) if srt and n > 6 else range(5) if not srt else (0,)):
                    J.append(Job(f"p2 {tag} n={n} p={p} p_high={hi} part={k}", "p2.c", "h_p2", params=dict(n=n, sorted=srt, p=p), choose=dict(p_high=hi, cell=k, first=k), covers=["estimated"],
                                 bounds=bounds, limit=850 if q else 10000))
    p2(8 if q else 10, 2, "increasing", "%d values, first five increasing, p = %s" % ((8, "50%, 98%") if q else (10, "2%, 50%, 98%")), ps=(50, 98) if q else (2, 50, 98))
    for n in (7, 6, 5) if q else (9, 8, 7, 6, 5):
        p2(n, 2, "increasing", "%d values, first five increasing, every p in (0,1)" % n)
    for n in (6, 5) if q else (7, 6, 5):
        p2(n, 0, "any order", "%d values in any order, ties included, every p" % n)
    for n in (7, 6) if q else (8, 7, 6):
        p2(n, 1, "ties", "%d values, first five non-decreasing, ties included" % n)
    for n in (7, 6, 5) if q else (8, 7, 6, 5):
        for k in range(n):
            J.append(Job(f"range n={n} argmin={k}", "p2.c", "h_range", params=dict(n=n, sorted=1), choose=dict(argmin=k), covers=["estimated"] if k in (0, 5, 6, 7) else [], bounds="%d values, first five non-decreasing" % n))
    for n, sp in ((12, 5), (20, 9), (40, 19)):
        for p in (2, 25, 50, 98):
            J.append(Job(f"p2 long n={n} p={p}", "p2.c", "h_p2", params=dict(n=n, sparse=sp, sorted=0, p=p), choose=dict(p_high=1 if p >= 50 else 0), covers=["estimated"], eparams=dict(exact=True), limit=300 if q else 3000,
                         bounds="12, 20 and 40 values of which two are arbitrary, p = 2%, 25%, 50%, 98%"))
    for n in (100, 150, 260):
        for p in (2, 50, 98):
            J.append(Job(f"p2 long n={n} p={p}", "p2.c", "h_p2", params=dict(n=n, sparse=n - 2, sorted=0, p=p), choose=dict(p_high=1 if p >= 50 else 0), covers=["estimated"], eparams=dict(exact=True), limit=300 if q else 3000,
                         bounds="100, 150 and 260 values of which one is arbitrary, p = 2%, 50%, 98%"))
    J.append(Job("published", "p2.c", "h_published", params=dict(n=8), covers=["estimated"], bounds="first five 0..4, p = 1/2, three more values"))
    J.append(Job("small", "p2.c", "h_small", covers=["small"], bounds="0 to 4 values"))
    return dict(jobs=J, assumptions=[A_REAL])


A_ROUND = "the rounding of each operation is not modelled (the tolerances are far above it; path witnesses are also evaluated natively)"


def ranges(a, b, n):
    return [(i, min(i + n - 1, b)) for i in range(a, b + 1, n)]


def C10(tier):
    J = [Job(f"log exponents {a}..{b}", "xm.c", "h_log", params=dict(lo=a, hi=b), covers=["log"], q_ms=30000, bounds="every mantissa, every binary exponent from -1074 to 1023") for a, b in ranges(-1074, 1023, 132)]
    J.append(Job("log special values", "xm.c", "h_log_special", mode="fp", covers=["nan", "negative", "zero", "infinity"], validate="run", bounds="every negative, null, infinite or NaN double"))
    return dict(jobs=J, assumptions=[A_ROUND, "ln 2 and ln m enclosed by their atanh series with rigorous remainder"])


def C11(tier):
    J = [Job(f"exp multiples {a}..{b}", "xm.c", "h_exp", params=dict(lo=a, hi=b), covers=["exp"], q_ms=30000, bounds="every x in [-700,700]") for a, b in ranges(-1010, 1009, 127)]
    for neg in (0, 1):
        J.append(Job(f"exp far negative={neg}", "xm.c", "h_exp_far", choose=dict(negative=neg), covers=["far"], validate="run", bounds="700 < |x| < 1028 ln 2"))
        J.append(Job(f"exp huge negative={neg}", "xm.c", "h_exp_huge", mode="fp", choose=dict(negative=neg), covers=["huge"], validate="run", bounds="every |x| > 711"))
    J.append(Job("exp special values", "xm.c", "h_exp_special", mode="fp", covers=["special"], validate="run"))
    for m in ("real", "fp"):
        J.append(Job(f"power {m}", "xm.c", "h_pow", mode=m, mathstubs=MATH, covers=["pow"], validate="run", bounds="every positive base and exponent"))
    return dict(jobs=J, assumptions=[A_ROUND, "exp enclosed by its Taylor polynomial with rigorous remainder"])


def C12(tier):
    J = []
    for low in (0, 1):
        for gz in (0, 1):
            for e in ("quantile", "probability", "inverse"):
                J.append(Job(f"{e} low={low} gamma_zero={gz}", "tail.c", "h_" + e, mathstubs=MATH, choose=dict(low=low, gamma_zero=gz), covers=[e], validate="run",
                             bounds="every state and argument as exact reals; gamma %s" % ("= 0" if gz else "!= 0")))
        for g in (-1, 0, 1):
            J.append(Job(f"monotone low={low} gamma_sign={g}", "tail.c", "h_monotone", mathstubs=MATH, choose=dict(low=low, gamma_sign=g), covers=["monotone"], validate="run",
                         eparams=dict(mono=True), q_ms=30000, bounds="every state and pair of probabilities as exact reals"))
    return dict(jobs=J, assumptions=[A_REAL, A_MATH + "; used facts: log and exp are inverse, increasing, exp > 0, log 1 = 0, exp 0 = 1", "counts at least 1, sigma > 0, arguments in the support"])


def C13(tier):
    J = []
    for c in (1, 2, 3) if tier == "quick" else (1, 2, 3, 4, 5):
        for gz in (0, 1):
            J.append(Job(f"likelihood cap={c} gamma_zero={gz}", "tail.c", "h_loglik", mathstubs=MATH, params=dict(cap=c), choose=dict(gamma_zero=gz), validate="run",
                         covers=["exponential" if gz else "pareto"], bounds="store of capacity <= %d in any fill state, every content, gamma and sigma > 0" % (3 if tier == "quick" else 5)))
        J.append(Job(f"support cap={c}", "tail.c", "h_support", mathstubs=MATH, params=dict(cap=c), validate="run", covers=["outside"], bounds="one stored excess outside the support"))
    for c in BIGC:
        for gz in (0, 1):
            J.append(Job(f"likelihood cap={c} gamma_zero={gz}", "tail.c", "h_loglik", mathstubs=MATH, params=dict(cap=c), choose=dict(gamma_zero=gz, pushed=[c - 1, c, c + 1]), validate="run",
                         covers=["exponential" if gz else "pareto"], bounds="stores of capacity 8, 17 and 40, nearly full, full, wrapped; every content"))
    for c in (130, 260):
        for gz in (0, 1):
            J.append(Job(f"likelihood cap={c} gamma_zero={gz}", "tail.c", "h_loglik", mathstubs=MATH, params=dict(cap=c, sparse=1), choose=dict(gamma_zero=gz, pushed=[c - 1, c + 1]), validate="run",
                         covers=["exponential" if gz else "pareto"], bounds="stores of capacity 130 and 260, two values arbitrary, gamma and sigma fixed"))
    for c in (8, 17):
        J.append(Job(f"support cap={c}", "tail.c", "h_support", mathstubs=MATH, params=dict(cap=c), validate="run", covers=["outside"], bounds="one stored excess outside the support"))
    return dict(jobs=J, assumptions=[A_REAL, A_MATH])


def C14(tier):
    J = []
    q = tier == "quick"
    for c, fx in ((2, 0), (3, 1)) if q else ((2, 0), (3, 0), (3, 1), (4, 1), (5, 1)):
        J.append(Job(f"moments cap={c} fixed={fx}", "est.c", "h_mom", mathstubs=MATH, params=dict(cap=c, fixed=fx), covers=["moments"], validate="run", limit=600 if q else 6000,
                     bounds="any store of capacity %d whose values are not all equal%s" % (c, ", one value symbolic" if fx else "")))
    for c in BIGC:
        J.append(Job(f"moments cap={c}", "est.c", "h_mom", mathstubs=MATH, params=dict(cap=c, fixed=1), choose=dict(pushed=[c - 1, c + 1]), covers=["moments"], validate="run", bounds="stores of capacity 8, 17 and 40, one value arbitrary"))
    for c in (8,) if q else (8, 17):
        for pushed in (c - 1, c + 1):
            J.append(Job(f"grimshaw cap={c} pushed={pushed}", "est.c", "h_grimshaw", stubs=("brent",), mathstubs=MATH, params=dict(cap=c, formula=1, fixed=1), choose=dict(left_found=1, right_found=1, pushed=pushed), covers=["grimshaw"], validate="run",
                         bounds="a store of capacity 8 (thorough: 17), one value arbitrary, both searches successful"))
    for c in (2, 3) if q else (2, 3, 4):
        for l in (0, 1):
            for r in (0, 1):
                J.append(Job(f"grimshaw cap={c} left={l} right={r}", "est.c", "h_grimshaw", stubs=("brent",), mathstubs=MATH, params=dict(cap=c, formula=1 if l and r else 0), choose=dict(left_found=l, right_found=r),
                             covers=["grimshaw"], validate="run", bounds="any store of capacity <= %d, any outcome of the two searches" % (3 if q else 4)))
    return dict(jobs=J, assumptions=[A_REAL, A_MATH, "the root finder is replaced by one that may succeed or fail and returns any point of its interval (its own behaviour: C16)"])


def C15(tier):
    J = [Job(f"best {m}", "best.c", "h_best", mode=m, fp_exact=m == "fp", stubs=EST, covers=["first", "second", "tie", "none"], bounds="every pair of estimator results, numbers, NaN and infinities; one refit") for m in ("fp", "real")]
    return dict(jobs=J, assumptions=[A_EST])


def C16(tier):
    J = []
    q = tier == "quick"
    for nw in (1, 0):
        J.append(Job(f"same sign narrow={nw}", "brent.c", "h_same_sign", mode="fp", fp_exact=True, choose=dict(narrow=nw), covers=["same sign"], bounds="every pair of doubles of the same sign at the ends, infinities included"))
    for n in (2, 3) if q else (2, 3, 4):
        for rev in (0, 1):
            for neg in (0, 1):
                for lg in (0, 1):
                    J.append(Job(f"brent evals={n} reversed={rev} neg={neg} larger={lg}", "brent.c", "h_brent", params=dict(evals=n), choose=dict(reversed=rev, first_negative=neg, larger=lg),
                                 covers=["found", "bracket"], validate="run", q_ms=20000,
                                 bounds="every function, interval and positive tolerance; searches that stop within %d evaluations (and the position of the next one)" % n, limit=800 if q else 9000))
    for h in range(4):
        for e in range(3):
            J.append(Job(f"deep heights={h} ends={e}", "brent.c", "h_deep", choose=dict(heights=h, ends=e), covers=["deep"], bounds="complete searches on step functions whose jump lies anywhere in one of four cells of width 1e-6"))
    J.append(Job("limit", "brent.c", "h_limit", covers=["exhausted"], bounds="step functions that need more bisections than the iteration limit"))
    return dict(jobs=J, assumptions=[A_REAL, "the function has ordinary (not NaN) values"])


def C17(tier):
    J = []
    q = tier == "quick"
    for conf in (0, 1, 2):
        for fails in (0, 1):
            for sw in (0, 1):
                ok = conf and not fails
                J.append(Job(f"one configured={conf} fails={fails} switch={sw}", "alloc.c", "h_one", mode="fp", stubs=EST + ("spot_quantile", "p2_quantile"), mathstubs=MATH, params=dict(ops=1 if q else 2),
                             choose=dict(configured=conf, fails=fails, switch=sw, cap=[1, 2, 3, 4] if q else [1, 2]), covers=["released" if ok else "failure"], validate="run",
                             bounds="initialise, %d arbitrary operation(s), release; capacity <= 4" % (1 if q else 2)))
    J.append(Job("refused", "alloc.c", "h_refused", mode="fp", covers=["refused"], bounds="refused parameters"))
    J.append(Job("two", "alloc.c", "h_two", mode="fp", stubs=EST + ("spot_quantile",), mathstubs=MATH, covers=["both released"], validate="run", bounds="two detectors, either order of release"))
    J.append(Job("request size", "alloc.c", "h_size", mode="fp", covers=["sized"], bounds="request size: every 64-bit capacity (refused request), capacities 200, 1025, 5000 and 70000 granted"))
    return dict(jobs=J, assumptions=[A_EST, "real arithmetic abstracted: only comparisons matter"])


def C18(tier):
    J = []
    q = tier == "quick"
    mx = 130 if q else 220
    for w in (0, 1):
        J.append(Job(f"version/licence which={w}", "text.c", "h_version", mode="fp", params=dict(max=mx), choose=dict(which=w), covers=["copied"], bounds="symbolic buffer size 0..%d" % mx))
    for code in range(1000, 1005):
        J.append(Job(f"error code={code}", "text.c", "h_error", mode="fp", params=dict(max=mx), choose=dict(code=code), covers=["copied"], bounds="symbolic buffer size 0..%d, the five codes with a message" % mx))
    J.append(Job("messages", "text.c", "h_message", mode="fp", covers=["message"], bounds="the six defined codes"))
    J.append(Job("unknown code", "text.c", "h_unknown", mode="fp", covers=["unknown"], bounds="every other 32-bit code"))
    J.append(Job("null buffer", "text.c", "h_null", mode="fp", covers=["null"], bounds="every size and code"))
    J.append(Job("codes", "text.c", "h_codes", mode="fp", covers=["codes"]))
    return dict(jobs=J, assumptions=["version and licence strings as defined at compilation"])


def C19(tier):
    J = []
    q = tier == "quick"
    for w in range(8):
        for m in ("fp",):
            J.append(Job(f"pure {m} query={w}", "pair.c", "h_pure", mode=m, stubs=EST, mathstubs=MATH, params=dict(cap=2 if q else 3), choose=dict(what=w), covers=["pure"], validate="run",
                         bounds="one query repeated, another detector queried or stepped in between, arbitrary states"))
    for first in (0, 1):
        for la in (0, 1):
            for pa in (0, 1):
                for op in (0, 1, 2):
                    J.append(Job(f"independent first={first} low={la} pushed={pa} op={op}", "pair.c", "h_independent", mode="fp", stubs=("tail_fit",), mathstubs=MATH, params=dict(cap=1, n=2),
                                 choose=dict(alone_first=first, low_a=la, low_b=[1 - la] if q else [0, 1], op=op, pushed_a=pa, pushed_b=[1] if q else [0, 1], bop=[0] if q else [0, 1]),
                                 covers=["independent"], validate="run", bounds="two operations of one detector interleaved with two steps (thorough: steps or queries) of another, arbitrary states, capacity 1"))
            J.append(Job(f"independent fit first={first} low={la}", "pair.c", "h_independent", mode="fp", stubs=EST, mathstubs=MATH, params=dict(cap=1, n=1),
                         choose=dict(alone_first=first, low_a=la), covers=["independent"], validate="run", bounds="one step of one detector after one step or query of another, with the real tail fit"))
    return dict(jobs=J, assumptions=[A_REAL, A_EST, A_MATH])


def py_prepare(work):
    """a scratch copy of the extension module next to a dist/spot.h that leads to the current headers"""
    import os, shutil, sysconfig, glob
    from vlib import REPO
    os.makedirs(work + "/python")
    os.makedirs(work + "/dist")
    shutil.copy(REPO + "/python/libspotmodule.c", work + "/python/libspotmodule.c")
    with open(work + "/dist/spot.h", "w") as f:
        f.write('#include "%s/include/spot.h"\n' % REPO)
    inc = [p for p in [sysconfig.get_paths()["include"]] + sorted(glob.glob("/usr/include/python3*")) if os.path.exists(p + "/Python.h")]
    return ["-DPy_LIMITED_API=0x03060000", '-DPYMOD="%s/python/libspotmodule.c"' % work, "-I" + inc[0]]


def C20(tier):
    J = []
    q = tier == "quick"
    api = ("spot_fit", "spot_step", "spot_quantile", "spot_probability")
    def add(name, entry, covers, stubs=(), bounds="", big=0, **kw):
        J.append(Job(name, "py_big.c" if big else "py.c", entry, mode="fp", stubs=stubs, covers=covers, validate="run", bounds=bounds, **kw))
    add("module", "h_module", ["module"])
    for o in range(16):
        add(f"constructor omitted={o}", "h_init", ["refused", "created"], choose=dict(omitted=o), fp_exact=True, bounds="every q, level and flag, sizes 0 to 3, five sizes from 2^31 to 2^64-1, or omitted, any subset of the optional arguments, allocation failing or not")
    add("constructor valid", "h_valid", ["valid"], bounds="every valid q and level", fp_exact=True)
    add("constructor types", "h_parse", ["wrong type"], bounds="any one argument of the wrong type")
    add("constructor again", "h_again", ["again"], EST + ("spot_quantile",), bounds="one or two further constructions, each valid, invalid or out of memory")
    add("not constructed", "h_raw", ["not constructed"], EST + ("spot_quantile", "spot_probability"), bounds="every method on an object whose constructor never ran")
    add("fit mutating", "h_mutating", ["mutated"], api, params=dict(n=3 if q else 5), bounds="lists of up to 3 (thorough: 5) values of which one empties the list while it is converted")
    for k in range(5):
        add(f"fit container={k}", "h_fit", ["exception"] + (["fitted", "result"] if k < 3 else []), api, choose=dict(container=k), params=dict(n=2 if q else 4),
            bounds="list, tuple, other iterable, raising iterable or non-iterable of up to %d floats, ints (small or beyond 64 bits), convertible or other objects; allocations failing" % (2 if q else 4))
    for n in (9, 17, 33, 65):
        for k in range(3):
            add(f"fit long n={n} container={k}", "h_fit", ["exception", "fitted"], api, choose=dict(container=k, n=n, api_fail=[0], code=[0]), params=dict(n=n, big=1), big=1, bounds="lists, tuples, iterables of 9, 17, 33, 65 elements, one of them arbitrary, the others fixed floats")
    for w in range(2):
        for c in (9, 17, 33):
            add(f"read method={w} cap={c}", "h_read", ["result"], choose=dict(method=w, pushed=[c - 1, c, c + 1], api_fail=[0]), params=dict(cap=c), big=1, bounds="stores of 9, 17, 33 excesses, nearly full, full, wrapped")
    add("calls", "h_call", ["step", "quantile", "probability", "exception", "result"], api, bounds="every argument, result and step code")
    for w in range(3):
        add(f"read method={w}", "h_read", ["result", "exception"], choose=dict(method=w), params=dict(cap=2 if q else 3), bounds="any fill state of a store of capacity %d, every allocation failing" % (2 if q else 3))
    add("attributes", "h_members", ["members"])
    return dict(jobs=J, prepare=py_prepare, assumptions=["CPython is represented by a model of the API functions used: reference counts, pending exception, failing allocations", "the detector's own operations are arbitrary (other properties)"])


def C21(tier):
    J = []
    q = tier == "quick"
    b = "two installations of null or either of two replacements" if q else "three installations of null or either of two replacements"
    for st, lo, hi in ((1, -3, 3), (300, -3, 3), (511, -2, 2)) if q else ((1, -12, 12), (37, -28, 27), (511, -2, 2)):
        J.append(Job(f"log stride={st}", "utils.c", "h_log", params=dict(lo=lo, hi=hi, stride=st, sets=2), covers=["log"], bounds=b + "; every mantissa for sampled exponents"))
    for st, lo, hi in ((1, -3, 3), (330, -3, 3)) if q else ((1, -12, 12), (33, -30, 30)):
        J.append(Job(f"exp stride={st}", "utils.c", "h_exp", params=dict(lo=lo, hi=hi, stride=st, sets=2), covers=["exp"], bounds=b + "; every reduced argument for sampled multiples of ln 2"))
    J.append(Job("log history", "utils.c", "h_log", params=dict(lo=-2, hi=5, sets=3 if q else 4), choose=dict(exponent=[5]), covers=["log"], bounds="three (thorough: four) installations"))
    J.append(Job("exp history", "utils.c", "h_exp", params=dict(lo=-2, hi=3, sets=3 if q else 4), choose=dict(multiple=[3]), covers=["exp"], bounds="three (thorough: four) installations"))
    J.append(Job("pow", "utils.c", "h_pow", choose=dict(exponent=[2] if q else [2, 3, 4, 5]), covers=["pow"], validate="run", bounds="bases in [4,64[, exponent 3"))
    return dict(jobs=J, assumptions=[A_ROUND])


NOTE = {}
NA = {"C22": "the JavaScript binding needs emscripten/wasm to compile and a symbolic engine for JavaScript glue; neither exists in this sandbox"}
