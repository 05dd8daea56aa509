/* C08 (mirror), C19 (independence, purity) */
#include "model.h"
static void mirror(struct Spot *b, struct Spot const *a, unsigned long cap) {
    *b = *a;
    b->low = !a->low;
    b->__up_down = -a->__up_down;
    b->excess_threshold = -a->excess_threshold;
    b->anomaly_threshold = -a->anomaly_threshold;
    b->tail.peaks.container.data = V_malloc(cap * sizeof(double));
    for (unsigned long i = 0; i < peaks_size(&a->tail.peaks); i++) b->tail.peaks.container.data[i] = a->tail.peaks.container.data[i];
}
static void check_mirror(struct Spot const *a, struct Spot const *b) {
    V_check(a->n == b->n && a->Nt == b->Nt, "same counters");
    V_check_close(a->excess_threshold, -b->excess_threshold, 1e-12, 0, "opposite excess thresholds");
    V_check_close(a->anomaly_threshold, -b->anomaly_threshold, 1e-9, 1e-9, "opposite anomaly thresholds");
    V_check_close(a->tail.gamma, b->tail.gamma, 1e-9, 1e-9, "same tail parameters");
    V_check_close(a->tail.sigma, b->tail.sigma, 1e-9, 1e-9, "same tail parameters");
    V_check(peaks_size(&a->tail.peaks) == peaks_size(&b->tail.peaks), "same number of stored excesses");
    for (unsigned long i = 0; i < peaks_size(&a->tail.peaks) && i < peaks_size(&b->tail.peaks); i++)
        V_check(V_same(a->tail.peaks.container.data[i], b->tail.peaks.container.data[i]), "same stored excesses");
}
void h_mirror_step(void) {
    struct Spot a, b;
    unsigned long cap = (unsigned long)V_param("cap", 2);
    int pushed = V_choose(0, 2 * (int)cap - 1, "pushed"), steps = V_param("steps", 1);
    arb_spot(&a, cap, pushed, 0, V_choose(0, 1, "discard"));
    V_assume(a.excess_threshold > -V_INF && a.excess_threshold < V_INF);
    mirror(&b, &a, cap);
    for (int i = 0; i < steps; i++) {
        double x = V_double("x");
        int ra = spot_step(&a, x), rb = spot_step(&b, -x);
        V_check(ra == rb, "same classification");
        V_cover(ra == ANOMALY ? "anomaly" : ra == EXCESS ? "excess" : ra == NORMAL ? "normal" : "other");
        check_mirror(&a, &b);
    }
}
void h_mirror_query(void) {
    struct Spot a, b;
    arb_spot(&a, 1, 0, 0, 1);
    V_assume(a.excess_threshold > -V_INF && a.excess_threshold < V_INF);
    mirror(&b, &a, 1);
    double q = V_double("p"), z = V_double("z");
    if (V_choose(0, 1, "what")) {
        V_assume(z > -V_INF && z < V_INF);
        V_check_close(spot_probability(&a, z), spot_probability(&b, -z), 1e-9, 1e-12, "probability of z equals the mirrored probability of -z");
        V_cover("probability");
    } else {
        V_check_close(spot_quantile(&a, q), -spot_quantile(&b, q), 1e-9, 1e-12, "quantiles are opposite");
        V_cover("quantile");
    }
}
/* initialisation: the two directions only differ by the direction */
void h_mirror_init(void) {
    struct Spot a, b;
    use_heap();
    double q = V_double("q"), level = V_double("level");
    int disc = V_int("discard");
    unsigned long cap = (unsigned long)V_choose(1, 3, "cap");
    int ra = spot_init(&a, q, 0, disc, level, cap), rb = spot_init(&b, q, 1, disc, level, cap);
    V_check(ra == rb, "same outcome of the initialisation");
    if (ra) return;
    V_check(V_same(a.q, b.q) && V_same(a.level, b.level) && a.discard_anomalies == b.discard_anomalies && a.n == b.n && a.Nt == b.Nt, "same parameters");
    V_check(a.low == !b.low && a.__up_down == -b.__up_down, "opposite directions");
    V_cover("init");
}
/* ---------------------------------------------------------------- C19 */
static double gquery(struct Spot *s, int what, double arg) {
    switch (what) {
    case 0: return spot_quantile(s, arg);
    case 1: return spot_probability(s, arg);
    case 2: return (double)peaks_size(&s->tail.peaks);
    case 3: return peaks_mean(&s->tail.peaks);
    case 4: return peaks_var(&s->tail.peaks);
    case 5: return tail_quantile(&s->tail, arg, s->q);
    case 6: return tail_probability(&s->tail, arg, s->q);
    default: return log_likelihood(&s->tail.peaks, s->tail.gamma, s->tail.sigma);
    }
}
/* queries do not modify the detector and are repeatable, whatever other detector is queried or stepped in between */
void h_pure(void) {
    struct Spot s, o, b, c;
    double d[MAXC];
    unsigned long cap = (unsigned long)V_param("cap", 2);
    int pushed = V_choose(0, 2 * (int)cap - 1, "pushed"), what = V_choose(0, 7, "what"), other = V_choose(0, 4, "between");
    if (what == 7) V_assume(pushed > 0);
    arb_spot(&s, cap, pushed, V_choose(0, 1, "low"), 1);
    arb_spot(&b, 1, 1, 0, 0);
    double arg = V_double("arg");
    V_assume(s.tail.sigma > 0);
    save(&s, &o, d);
    double r1 = gquery(&s, what, arg);
    check_unchanged(&s, &o, d, 1);
    if (other == 1) gquery(&b, what, V_double("arg2"));
    if (other == 2) spot_step(&b, V_double("x2"));
    if (other == 4) { /* two other detectors: one to dislodge what the first query left behind, one to leave something else */
        arb_spot(&c, 1, 1, 1, 0);
        V_assume(b.Nt != s.Nt);
        gquery(&c, what, V_double("arg4"));
        gquery(&b, what, V_double("arg2"));
    }
    if (other == 3) gquery(&s, (what + 1) % 7, V_double("arg3"));
    double r2 = gquery(&s, what, arg);
    check_unchanged(&s, &o, d, 1);
    V_check(V_same(r1, r2), "a repeated query gives the same answer");
    V_cover("pure");
}
static double run_op(struct Spot *s, int op, double x) {
    if (op == 0) return (double)spot_step(s, x);
    if (op == 1) return spot_quantile(s, x);
    return spot_probability(s, x);
}
static void copy_spot(struct Spot *c, struct Spot const *s, unsigned long cap) {
    *c = *s;
    c->tail.peaks.container.data = V_malloc(cap * sizeof(double));
    for (unsigned long i = 0; i < peaks_size(&s->tail.peaks); i++) c->tail.peaks.container.data[i] = s->tail.peaks.container.data[i];
}
/* the results of a detector's operations do not depend on what is done to another one in between */
void h_independent(void) {
    struct Spot a, a2, b;
    unsigned long cap = (unsigned long)V_param("cap", 1);
    int n = V_param("n", 2), first = V_choose(0, 1, "alone_first");
    arb_spot(&a, cap, V_choose(0, 2 * (int)cap - 1, "pushed_a"), V_choose(0, 1, "low_a"), 1);
    arb_spot(&b, cap, V_choose(0, 2 * (int)cap - 1, "pushed_b"), V_choose(0, 1, "low_b"), 0);
    V_assume(a.tail.sigma > 0);
    V_assume(b.tail.sigma > 0);
    copy_spot(&a2, &a, cap);
    double x[4], r[4];
    int op[4], bop[4];
    for (int i = 0; i < n; i++) {
        op[i] = i == 0 ? 0 : V_choose(0, 2, "op");
        bop[i] = V_choose(0, 1, "bop");
        x[i] = V_double("x");
    }
    if (first) for (int i = 0; i < n; i++) r[i] = run_op(&a2, op[i], x[i]);
    for (int i = 0; i < n; i++) {
        run_op(&b, bop[i], V_double("y"));
        double v = run_op(&a, op[i], x[i]);
        if (first) V_check(V_same(v, r[i]), "results do not depend on the other detector");
        else r[i] = v;
    }
    if (!first) for (int i = 0; i < n; i++) V_check(V_same(run_op(&a2, op[i], x[i]), r[i]), "results do not depend on the other detector");
    V_check(a.n == a2.n && a.Nt == a2.Nt, "counters do not depend on the other detector");
    V_check(V_same(a.anomaly_threshold, a2.anomaly_threshold) && V_same(a.excess_threshold, a2.excess_threshold), "thresholds do not depend on the other detector");
    V_check(V_same(a.tail.gamma, a2.tail.gamma) && V_same(a.tail.sigma, a2.tail.sigma), "tail parameters do not depend on the other detector");
    for (unsigned long i = 0; i < peaks_size(&a.tail.peaks); i++)
        V_check(V_same(a.tail.peaks.container.data[i], a2.tail.peaks.container.data[i]), "stored excesses do not depend on the other detector");
    V_cover("independent");
}
