/* C07: spot_fit on a fresh detector */
#include "model.h"
#define MAXD 300
static double ET, P_ARG, D_SEEN[MAXD];
static unsigned long N_SEEN;
static int P_CALLS;
double stub__p2_quantile(double p, double const *d, unsigned long n) {
    P_CALLS++;
    P_ARG = p;
    N_SEEN = n;
    for (unsigned long i = 0; i < n && i < MAXD; i++) D_SEEN[i] = d[i];
    return ET;
}
static void check_fit(struct Spot *s, int r, double const *x, int n, double et, int low, unsigned long cap) {
    if (et != et) {
        V_check(r == -ERR_EXCESS_THRESHOLD_IS_NAN, "an undefined excess threshold is reported");
        V_cover("et nan");
        return;
    }
    V_check(s->n == (unsigned long)n, "the number of training values is recorded");
    V_check(V_same(s->excess_threshold, et), "the excess threshold is the quantile estimate");
    double kept[MAXD];
    int k = 0;
    for (int i = 0; i < n; i++)
        if (low ? x[i] < et : x[i] > et) kept[k++] = low ? et - x[i] : x[i] - et;
    V_check(s->Nt == (unsigned long)k, "exactly the values strictly beyond the threshold are counted");
    unsigned long sz = (unsigned long)k < cap ? (unsigned long)k : cap;
    V_check(peaks_size(&s->tail.peaks) == sz, "exactly the values strictly beyond the threshold are stored");
    for (unsigned long m = 0; m < sz; m++)
        V_check(V_same(s->tail.peaks.container.data[((unsigned long)k - 1 - m) % cap], kept[k - 1 - (int)m]), "stored excesses are the most recent distances to the threshold");
    double g1, s1, g2, s2;
    double l1 = stub__mom_estimator(&s->tail.peaks, &g1, &s1), l2 = stub__grimshaw_estimator(&s->tail.peaks, &g2, &s2);
    if (l2 != l2 || l1 > l2) V_check(V_same(s->tail.gamma, g1) && V_same(s->tail.sigma, s1), "the tail is fitted on the stored excesses");
    if (l1 != l1 || l2 > l1) V_check(V_same(s->tail.gamma, g2) && V_same(s->tail.sigma, s2), "the tail is fitted on the stored excesses");
    double z = spot_quantile(s, s->q);
    V_check_close(s->anomaly_threshold, z, 1e-9, 1e-12, "the anomaly threshold is the quantile at the configured probability");
    if (z != z) { V_check(r == -ERR_ANOMALY_THRESHOLD_IS_NAN, "an undefined anomaly threshold is reported"); V_cover("z nan"); }
    else { V_check(r == 0, "success is reported"); V_cover("fitted"); }
}
/* the quantile estimate is an arbitrary number (or NaN) */
void h_fit(void) {
    use_heap();
    struct Spot s;
    double x[MAXD];
    unsigned long cap = (unsigned long)V_param("cap", 2);
    int n = V_param("n", 3), low = V_choose(0, 1, "low"), disc = V_choose(0, 1, "discard"), nanat = V_choose(-1, V_param("nans", 0) ? n - 1 : -1, "nan_at");
    double q = V_double("q"), level = V_double("level");
    V_assume(spot_init(&s, q, low, disc, level, cap) == 0);
    for (int i = 0; i < n; i++) x[i] = i == nanat ? V_NAN : V_param("sparse", 0) && (i % V_param("sparse", 1) || i == 0) ? 0.25 * (double)((i * 7 + 3) % n) : V_double("data");
    int etk = V_choose(0, V_param("inf", 0) ? 2 : 1, "et_kind"); /* infinite: no value lies beyond */
    ET = etk == 1 ? V_NAN : etk == 2 ? (low ? -V_INF : V_INF) : V_param("et", 0) == 1 ? 0.1 * (double)n : V_param("et", 0) == 2 ? (low ? 1e6 : -1.0) : V_double("et");
    nan_gri = V_choose(0, 1, "gri_nan");
    nan_mom = nan_gri ? 0 : V_choose(0, 1, "mom_nan");
    int r = spot_fit(&s, x, (unsigned long)n);
    V_check(P_CALLS >= 1, "the excess threshold comes from the quantile estimate");
    V_check_close(P_ARG, low ? 1.0 - level : level, 1e-12, 0, "the quantile is estimated at the configured level");
    V_check(N_SEEN == (unsigned long)n, "the quantile is estimated on all the data");
    for (int i = 0; i < n; i++) V_check(V_same(D_SEEN[i], x[i]), "the quantile is estimated on the data given");
    V_check(V_same(s.q, q) && V_same(s.level, level) && s.low == low && s.discard_anomalies == disc, "the parameters are kept");
    check_fit(&s, r, x, n, ET, low, cap);
    spot_free(&s);
}
/* with the real estimate */
void h_fit_p2(void) {
    use_heap();
    struct Spot s;
    double x[MAXD];
    unsigned long cap = (unsigned long)V_param("cap", 2);
    int n = V_param("n", 5), low = V_choose(0, 1, "low");
    double level = 0.75, q = V_double("q");
    V_assume(spot_init(&s, q, low, 1, level, cap) == 0);
    for (int i = 0; i < n; i++) x[i] = V_param("sparse", 0) && (i % V_param("sparse", 1) || i == 0) ? 0.25 * (double)((i * 7 + 3) % n) : V_double("data");
    int srt = n < 5 ? n : 5; /* order of the first five does not matter for the estimate (C09); keep one order */
    if (!V_param("sparse", 0)) for (int i = 0; i + 1 < srt; i++) V_assume(x[i] < x[i + 1]);
    int r = spot_fit(&s, x, (unsigned long)n);
    check_fit(&s, r, x, n, p2_quantile(low ? 1.0 - level : level, x, (unsigned long)n), low, cap);
    spot_free(&s);
}
