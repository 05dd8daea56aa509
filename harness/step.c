/* C05, C06: one step of the detector from an arbitrary state */
#include "model.h"

/* h_step: classification and state update; real mode (update formulas) and fp mode (bit-exact classification) */
static void do_step(int numeric) {
    struct Spot s, o;
    double d[MAXC];
    unsigned long cap = (unsigned long)V_param("cap", 2);
    int pushed = V_choose(0, 2 * (int)cap - 1, "pushed");
    int low = V_choose(0, 1, "low"), discard = V_choose(0, 1, "discard");
    arb_spot(&s, cap, pushed, low, discard);
    double t = s.excess_threshold, z = s.anomaly_threshold;
    V_assume(t == t && t < V_INF && t > -V_INF);
    double x = V_double("x");
    V_assume(x == x);
    if (numeric) {
        nan_par = V_choose(0, 1, "fit_nan"); /* the refit may yield no number */
        V_assume(s.tail.sigma > 0);
        V_assume(s.q > 0);
    }
    save(&s, &o, d);
    int beyond_z = low ? x < z : x > z;
    int beyond_t = low ? x <= t : x >= t;
    int r = spot_step(&s, x);
    if (discard && beyond_z) {
        V_check(r == ANOMALY, "a value beyond the anomaly threshold is an anomaly");
        V_cover("anomaly");
        check_unchanged(&s, &o, d, 1);
        return;
    }
    V_check(s.n == o.n + 1, "an accepted value is counted once");
    V_check(V_same(s.excess_threshold, o.excess_threshold), "the excess threshold never changes");
    V_check(V_same(s.q, o.q) && V_same(s.level, o.level) && s.low == o.low && s.discard_anomalies == o.discard_anomalies && V_same(s.__up_down, o.__up_down),
            "the parameters never change");
    if (!beyond_t) {
        V_check(r == NORMAL, "a value below the excess threshold is normal");
        V_cover("normal");
        o.n = s.n;
        check_unchanged(&s, &o, d, 1);
        return;
    }
    V_check(r == EXCESS, "a value at or beyond the excess threshold is an excess");
    V_cover("excess");
    V_check(s.Nt == o.Nt + 1, "an excess is counted once");
    unsigned long at = (unsigned long)pushed % cap;
    double ex = low ? t - x : x - t;
    V_check(V_same(s.tail.peaks.container.data[at], ex), "an excess is stored as its distance to the threshold");
    V_check(peaks_size(&s.tail.peaks) == ((unsigned long)pushed < cap ? (unsigned long)pushed + 1 : cap), "one more excess is stored, up to the capacity");
    for (unsigned long i = 0; i < cap && i < MAXC; i++)
        if (i != at && i < peaks_size(&o.tail.peaks)) V_check(V_same(s.tail.peaks.container.data[i], d[i]), "other stored excesses are kept");
    if (!numeric) return;
    /* the tail has been refitted on the new contents: the better of the two estimators */
    double g1, s1, g2, s2;
    double l1 = stub__mom_estimator(&s.tail.peaks, &g1, &s1), l2 = stub__grimshaw_estimator(&s.tail.peaks, &g2, &s2);
    if (l1 > l2) {
        V_check_close(s.tail.gamma, g1, 1e-9, 1e-12, "tail refitted after an excess (gamma)");
        V_check_close(s.tail.sigma, s1, 1e-9, 1e-12, "tail refitted after an excess (sigma)");
    } else if (l2 > l1) {
        V_check_close(s.tail.gamma, g2, 1e-9, 1e-12, "tail refitted after an excess (gamma)");
        V_check_close(s.tail.sigma, s2, 1e-9, 1e-12, "tail refitted after an excess (sigma)");
    }
    V_check_close(s.anomaly_threshold, spot_quantile(&s, s.q), 1e-9, 1e-12, "anomaly threshold is the quantile at q of the new state");
}
void h_step(void) { do_step(1); }
void h_class(void) { do_step(0); }

/* C06 */
void h_reject(void) {
    struct Spot s, o;
    double d[MAXC];
    unsigned long cap = (unsigned long)V_param("cap", 2);
    int pushed = V_choose(0, 2 * (int)cap - 1, "pushed");
    int low = V_choose(0, 1, "low"), kind = V_choose(0, 1, "kind");
    int discard = kind ? 1 : V_choose(0, 1, "discard");
    arb_spot(&s, cap, pushed, low, discard);
    double x;
    if (kind) {
        x = V_double("x");
        V_assume(low ? x < s.anomaly_threshold : x > s.anomaly_threshold);
    } else {
        x = V_NAN;
    }
    if (V_choose(0, 1, "threshold_is_nan")) { V_assume(!kind); s.anomaly_threshold = V_NAN; s.excess_threshold = V_NAN; }
    save(&s, &o, d);
    int before = est_calls;
    int r = spot_step(&s, x);
    if (kind) {
        V_check(r == ANOMALY, "value beyond the anomaly threshold is reported as an anomaly");
        V_cover("anomaly");
    } else {
        V_check(r == -ERR_DATA_IS_NAN, "NaN is reported with its error code");
        V_cover("nan");
    }
    check_unchanged(&s, &o, d, 1);
    /* a later value is treated as if the rejected one had not been there */
    struct Spot c = o;
    double y = V_double("y");
    V_assume(y == y);
    c.tail.peaks.container.data = V_malloc(cap * sizeof(double));
    for (unsigned long i = 0; i < peaks_size(&o.tail.peaks); i++) c.tail.peaks.container.data[i] = d[i];
    int r1 = spot_step(&s, y), r2 = spot_step(&c, y);
    V_check(r1 == r2, "later verdicts are unaffected");
    V_check(s.n == c.n && s.Nt == c.Nt, "later counts are unaffected");
    V_check_close(s.anomaly_threshold, c.anomaly_threshold, 1e-12, 0, "later thresholds are unaffected");
}
