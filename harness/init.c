/* C01: spot_init */
#include "common.h"

static int calls, fail;
static unsigned long asked;
static void *m(unsigned long n) { calls++; asked = n; return fail ? 0 : V_malloc(64); }
static void f(void *p) { V_free(p); }

void h_init(void) {
    struct Spot s;
    double q = V_double("q"), level = V_double("level");
    int low = V_int("low"), disc = V_int("discard");
    unsigned long cap = V_ulong("capacity");
    fail = V_choose(0, 1, "malloc_fails");
    int conf = V_choose(0, 1, "allocator_set");
    if (conf) set_allocators(m, f);
    int r = spot_init(&s, q, low, disc, level, cap);
    int fits = cap <= ~0UL / sizeof(double);
    if (!(level >= 0.0 && level < 1.0)) {
        V_check(r == -ERR_LEVEL_OUT_OF_BOUNDS, "a level outside [0,1) is refused with the level error");
        V_check(calls == 0, "nothing allocated when the parameters are refused");
        V_cover("bad level");
        return;
    }
    if (q > 0.0 && (q < 1.0 - level) != (q + level < 1.0)) { /* q is 1 - level up to rounding: either answer will do */
        V_check(r == 0 || r == -ERR_Q_OUT_OF_BOUNDS || r == -ERR_MEMORY_ALLOCATION_FAILED, "accepted or refused");
        V_cover("boundary");
        return;
    }
    if (!(q > 0.0 && q < 1.0 - level)) {
        V_check(r == -ERR_Q_OUT_OF_BOUNDS, "a q outside (0,1-level) is refused with the q error");
        V_check(calls == 0, "nothing allocated when the parameters are refused");
        V_cover("bad q");
        return;
    }
    if (cap == 0 || !fits || !conf || fail) {
        V_check(r == -ERR_MEMORY_ALLOCATION_FAILED, "a store that cannot be allocated is refused with the memory error");
        V_cover("bad memory");
        return;
    }
    V_cover("accepted");
    V_check(r == 0, "valid parameters are accepted");
    V_check(calls == 1, "one allocation");
    V_check(asked >= cap, "room for every excess");
    V_check(asked / sizeof(double) >= cap, "room for every excess (bytes)");
    V_check(V_same(s.q, q), "q kept");
    V_check(V_same(s.level, level), "level kept");
    V_check(s.low == (low != 0), "tail direction kept");
    V_check(s.discard_anomalies == (disc != 0), "discard flag kept");
    V_check(s.__up_down == (low ? -1.0 : 1.0), "direction factor");
    V_check(s.n == 0 && s.Nt == 0, "no data seen yet");
    V_check(s.anomaly_threshold != s.anomaly_threshold && s.excess_threshold != s.excess_threshold, "thresholds not set yet");
    V_check(s.tail.gamma != s.tail.gamma && s.tail.sigma != s.tail.sigma, "tail not fitted yet");
    V_check(peaks_size(&s.tail.peaks) == 0, "empty tail");
    V_check(s.tail.peaks.e == 0.0 && s.tail.peaks.e2 == 0.0, "no statistics yet");
    V_check(s.tail.peaks.container.capacity == cap, "capacity kept");
    /* nothing else than the parameters: a first excess is the only one stored */
    tail_push(&s.tail, 2.5);
    V_check(peaks_size(&s.tail.peaks) == 1 && s.tail.peaks.container.data[0] == 2.5 && s.tail.peaks.min == 2.5 && s.tail.peaks.max == 2.5 && s.tail.peaks.e == 2.5,
            "the first excess is the only one");
}
