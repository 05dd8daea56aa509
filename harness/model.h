/* construction of an arbitrary detector state, and stand-ins for the two estimators */
#ifndef MODEL_H
#define MODEL_H
#include "common.h"
#define MAXC 300

/* The estimators are replaced by arbitrary functions of the tail contents: whatever they compute, the caller's logic
 * must treat it the same way.  (Their own behaviour is the subject of C13, C14.) */
static double peaks_arg(struct Peaks const *p, unsigned long i) { return i < peaks_size(p) ? p->container.data[i] : -1.0; }
static double est(const char *n, struct Peaks const *p) {
    return V_uf(n, 9, p->e, p->e2, p->min, p->max, (double)peaks_size(p), peaks_arg(p, 0), peaks_arg(p, 1), peaks_arg(p, 2), peaks_arg(p, 3));
}
static int nan_mom, nan_gri, nan_par, est_calls;
double stub__mom_estimator(struct Peaks const *p, double *g, double *s) {
    est_calls++;
    *g = nan_par ? V_NAN : est("mom_gamma", p);
    *s = est("mom_sigma", p);
    return nan_mom ? V_NAN : est("mom_llh", p);
}
double stub__grimshaw_estimator(struct Peaks const *p, double *g, double *s) {
    est_calls++;
    *g = nan_par ? V_NAN : est("gri_gamma", p);
    *s = est("gri_sigma", p);
    return nan_gri ? V_NAN : est("gri_llh", p);
}

double stub__spot_quantile(struct Spot const *s, double q) { return V_double("threshold"); }

double stub__tail_fit(struct Tail *t) {
    t->gamma = est("fit_gamma", &t->peaks);
    t->sigma = est("fit_sigma", &t->peaks);
    return est("fit_llh", &t->peaks);
}

/* contents of large stores: two arbitrary values (the oldest, which is the next to go, and one in the middle), the others
 * fixed, distinct and not sorted; with sparse = 2 all are fixed */
static double content(unsigned long i, unsigned long k, unsigned long oldest) {
    if (!V_param("sparse", 0) || (V_param("sparse", 0) == 1 && (i == oldest || i == k / 2))) return V_double("stored");
    return 1.0 + 0.5 * (double)((i * 7 + 3) % k) + 0.001 * (double)i;
}

/* arbitrary well-formed detector state: counters, thresholds, parameters and contents symbolic; ring position split */
static void arb_spot(struct Spot *s, unsigned long cap, int pushed, int low, int discard) {
    use_heap();
    V_assume(spot_init(s, 1e-3, low, discard, 0.9, cap) == 0); /* then every part is replaced by an arbitrary value */
    s->low = low;
    s->discard_anomalies = discard;
    s->__up_down = low ? -1.0 : 1.0;
    s->q = V_double("q");
    s->level = V_double("level");
    s->anomaly_threshold = V_double("anomaly_threshold");
    s->excess_threshold = V_double("excess_threshold");
    s->n = V_count("n");
    s->Nt = V_count("Nt");
    V_assume(s->n >= 1);
    V_assume(s->Nt <= s->n);
    s->tail.gamma = V_double("gamma");
    s->tail.sigma = V_double("sigma");
    struct Peaks *p = &s->tail.peaks;
    unsigned long k = (unsigned long)pushed < cap ? (unsigned long)pushed : cap;
    p->container.capacity = cap;
    p->container.cursor = (unsigned long)pushed % cap;
    p->container.filled = (unsigned long)pushed >= cap;
    p->container.last_erased_data = V_NAN;
    for (unsigned long i = 0; i < k; i++) p->container.data[i] = content(i, k, p->container.cursor);
    p->e = V_double("e");
    p->e2 = V_double("e2");
    p->min = k ? V_double("min") : V_NAN;
    p->max = k ? V_double("max") : V_NAN;
    if (V_param("sparse", 0) == 2 && k) {
        p->min = p->max = p->container.data[0];
        for (unsigned long i = 1; i < k; i++) {
            if (p->container.data[i] < p->min) p->min = p->container.data[i];
            if (p->container.data[i] > p->max) p->max = p->container.data[i];
        }
    }
}

static void save(struct Spot const *s, struct Spot *c, double *d) {
    *c = *s;
    unsigned long k = peaks_size(&s->tail.peaks);
    for (unsigned long i = 0; i < k && i < MAXC; i++) d[i] = s->tail.peaks.container.data[i];
}
#define SAMEF(f, what) V_check(V_same((double)(a->f), (double)(b->f)), what)
/* every observable part identical */
static void check_unchanged(struct Spot const *a, struct Spot const *b, double const *d, int ntcheck) {
    V_check(V_same(a->q, b->q) && V_same(a->level, b->level) && a->low == b->low && a->discard_anomalies == b->discard_anomalies &&
            V_same(a->__up_down, b->__up_down), "parameters unchanged");
    V_check(a->n == b->n, "count of data unchanged");
    V_check(a->Nt == b->Nt, "count of excesses unchanged");
    V_check(V_same(a->anomaly_threshold, b->anomaly_threshold), "anomaly threshold unchanged");
    V_check(V_same(a->excess_threshold, b->excess_threshold), "excess threshold unchanged");
    V_check(V_same(a->tail.gamma, b->tail.gamma) && V_same(a->tail.sigma, b->tail.sigma), "tail parameters unchanged");
    struct Peaks const *p = &a->tail.peaks, *r = &b->tail.peaks;
    V_check(V_same(p->e, r->e) && V_same(p->e2, r->e2) && V_same(p->min, r->min) && V_same(p->max, r->max), "tail statistics unchanged");
    V_check(p->container.cursor == r->container.cursor && p->container.filled == r->container.filled && p->container.capacity == r->container.capacity &&
            p->container.data == r->container.data && V_same(p->container.last_erased_data, r->container.last_erased_data), "tail store unchanged");
    unsigned long k = peaks_size(p);
    for (unsigned long i = 0; i < k && i < MAXC; i++) V_check(V_same(p->container.data[i], d[i]), "stored excesses unchanged");
}
#endif
