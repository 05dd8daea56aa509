/* C03 (store), C12 (quantile / probability), C13 (log-likelihood) */
#include "model.h"
#define MAXH 640
#define MAXK 300

/* ---------------------------------------------------------------- C03 */
void h_ring(void) { /* the ring itself: any doubles */
    use_heap();
    struct Ubend u;
    unsigned long cap = (unsigned long)V_param("cap", 3);
    int n = V_param("n", 8);
    double x[MAXH];
    int all = V_param("all", 1); /* contents compared after every push, or around the wrap-arounds and at the end */
    V_assume(ubend_init(&u, cap) == 0);
    V_check(ubend_size(&u) == 0, "a fresh store is empty");
    for (int i = 0; i < n; i++) {
        x[i] = V_double("x");
        ubend_push(&u, x[i]);
        unsigned long k = (unsigned long)i + 1 < cap ? (unsigned long)i + 1 : cap;
        V_check(ubend_size(&u) == k, "the tail size is the number of stored excesses");
        if (!all && i < n - 1 && ((unsigned long)i + 1) % cap > 1) continue;
        for (unsigned long m = 0; m < k; m++) /* the m-th most recent value */
            V_check(V_same(u.data[((unsigned long)i - m) % cap], x[i - (int)m]), "the store holds exactly the most recent excesses");
    }
    V_cover("done");
    ubend_free(&u);
    V_check(V_live() == 0, "the store is released");
}
/* very large stores: two pushes from a given ring position, a few cells watched */
void h_ring_far(void) {
    static const unsigned long caps[] = {127, 128, 129, 255, 256, 257, 32767, 32768, 32769, 65535, 65536, 65537, 1UL << 20, (1UL << 24) + 1};
    use_heap();
    struct Ubend u;
    unsigned long cap = caps[V_choose(0, 13, "size")];
    V_assume(ubend_init(&u, cap) == 0);
    V_check(u.capacity == cap && ubend_size(&u) == 0, "a fresh store is empty");
    unsigned long at[5] = {0, 1, cap / 2, cap - 2, cap - 1};
    int full = V_choose(0, 1, "full"), pos = V_choose(0, 4, "position");
    u.cursor = at[pos];
    u.filled = full;
    double v[5], x[2] = {V_double("x"), V_double("x")};
    unsigned long next = u.cursor == cap - 1 ? 0 : u.cursor + 1;
    for (int i = 0; i < 5; i++) {
        v[i] = V_double("v");
        if (full || at[i] < u.cursor) u.data[at[i]] = v[i];
    }
    if (full) { double o = V_double("o"); if (next != 0 && pos != 0 && pos != 3) u.data[next] = o; }
    unsigned long c = u.cursor, size = full ? cap : c;
    V_check(ubend_size(&u) == size, "the tail size is the number of stored excesses");
    ubend_push(&u, x[0]);
    if (size < cap) size++;
    V_check(ubend_size(&u) == size, "the tail size is the number of stored excesses");
    ubend_push(&u, x[1]);
    if (size < cap) size++;
    V_check(ubend_size(&u) == size, "the tail size is the number of stored excesses");
    V_check(V_same(u.data[c], x[0]) && V_same(u.data[next], x[1]), "each excess replaces the oldest");
    for (int i = 0; i < 5; i++)
        if (at[i] != c && at[i] != next && (full || at[i] < c)) V_check(V_same(u.data[at[i]], v[i]), "the other stored excesses are kept");
    V_check(u.cursor == (next == cap - 1 ? 0 : next + 1), "the next excess replaces the oldest");
    V_cover("far");
    ubend_free(&u);
}
void h_tail(void) { /* through the tail: values and statistics together */
    use_heap();
    struct Tail t;
    unsigned long cap = (unsigned long)V_param("cap", 2);
    int n = V_param("n", 4);
    double x[MAXH];
    V_assume(tail_init(&t, cap) == 0);
    V_check(peaks_size(&t.peaks) == 0, "a fresh tail is empty");
    for (int i = 0; i < n; i++) {
        x[i] = V_double("x");
        V_assume(x[i] > -V_INF && x[i] < V_INF);
        tail_push(&t, x[i]);
        unsigned long k = (unsigned long)i + 1 < cap ? (unsigned long)i + 1 : cap;
        V_check(peaks_size(&t.peaks) == k, "the tail size is the number of stored excesses");
        for (unsigned long m = 0; m < k; m++)
            V_check(V_same(t.peaks.container.data[((unsigned long)i - m) % cap], x[i - (int)m]), "the store holds exactly the most recent excesses");
    }
    V_cover("done");
    tail_free(&t);
}
/* through the detector: only excesses enter, as distances, in order */
void h_spot(void) {
    use_heap();
    struct Spot s;
    unsigned long cap = (unsigned long)V_param("cap", 2);
    int n = V_param("n", 4), low = V_param("low", 0);
    V_assume(spot_init(&s, 1e-3, low, 0, 0.9, cap) == 0);
    double t = V_double("t"), x[MAXH], kept[MAXH];
    V_assume(t > -V_INF && t < V_INF);
    s.excess_threshold = t;
    int k = 0;
    for (int i = 0; i < n; i++) {
        x[i] = V_double("x");
        V_assume(x[i] > -V_INF && x[i] < V_INF);
        int isex = V_choose(0, 1, "excess");
        V_assume(isex == (low ? x[i] <= t : x[i] >= t));
        spot_step(&s, x[i]);
        if (isex) kept[k++] = low ? t - x[i] : x[i] - t;
        unsigned long sz = (unsigned long)k < cap ? (unsigned long)k : cap;
        V_check(peaks_size(&s.tail.peaks) == sz, "the tail size is the number of stored excesses");
        for (unsigned long m = 0; m < sz; m++)
            V_check(V_same(s.tail.peaks.container.data[((unsigned long)k - 1 - m) % cap], kept[k - 1 - (int)m]), "the store holds exactly the most recent excesses");
    }
    V_cover("done");
    spot_free(&s);
}

/* ---------------------------------------------------------------- C12 */
static void gpd_state(struct Spot *s, int low, int gzero) {
    arb_spot(s, 1, 0, low, 1);
    V_assume(s->Nt >= 1);
    if (gzero) s->tail.gamma = 0.0;
    else V_assume(s->tail.gamma != 0.0);
    V_assume(s->tail.sigma > 0);
}
void h_quantile(void) {
    struct Spot s;
    int low = V_choose(0, 1, "low"), gz = V_choose(0, 1, "gamma_zero");
    gpd_state(&s, low, gz);
    double q = V_double("p");
    double rate = (double)s.Nt / (double)s.n;
    V_assume(q > 0 && (V_choose(0, 1, "central") ? q > rate : q <= rate)); /* beyond the excess threshold, or before it */
    double g = s.tail.gamma, sg = s.tail.sigma;
    double d = gz ? -sg * stub__xlog(q / rate) : sg / g * (stub__xexp(-g * stub__xlog(q / rate)) - 1.0);
    double want = low ? s.excess_threshold - d : s.excess_threshold + d;
    V_check_close(spot_quantile(&s, q), want, 1e-6, 1e-7, "quantile follows the fitted tail");
    V_check_close(spot_quantile(&s, rate), s.excess_threshold, 1e-6, 1e-7, "quantile at the excess rate is the excess threshold");
    V_cover("quantile");
}
void h_probability(void) {
    struct Spot s;
    int low = V_choose(0, 1, "low"), gz = V_choose(0, 1, "gamma_zero");
    gpd_state(&s, low, gz);
    double z = V_double("z");
    double rate = (double)s.Nt / (double)s.n;
    double g = s.tail.gamma, sg = s.tail.sigma;
    double d = low ? s.excess_threshold - z : z - s.excess_threshold;
    V_assume(V_choose(0, 1, "central") ? d < 0 : d >= 0);
    V_assume(1.0 + g * d / sg > 0);
    double want = gz ? rate * stub__xexp(-d / sg) : rate * stub__xexp(-1.0 / g * stub__xlog(1.0 + g * d / sg));
    V_check_close(spot_probability(&s, z), want, 1e-6, 1e-9, "probability follows the fitted tail");
    V_check_close(spot_probability(&s, s.excess_threshold), rate, 1e-6, 1e-9, "probability at the excess threshold is the excess rate");
    V_cover("probability");
}
void h_inverse(void) {
    struct Spot s;
    int low = V_choose(0, 1, "low"), gz = V_choose(0, 1, "gamma_zero");
    gpd_state(&s, low, gz);
    double q = V_double("p");
    double rate = (double)s.Nt / (double)s.n;
    V_assume(q > 0 && q <= rate);
    if (!V_symbolic()) V_assume(v_abs(s.tail.gamma) < 3 && (gz || v_abs(s.tail.gamma) > 1e-3) && q > 1e-6 && s.tail.sigma > 1e-3 && s.tail.sigma < 1e3 && v_abs(s.excess_threshold) < 1e3);
    V_check_close(spot_probability(&s, spot_quantile(&s, q)), q, 1e-5, 1e-7, "probability of the quantile gives the probability back");
    V_cover("inverse");
}
void h_monotone(void) {
    struct Spot s;
    int low = V_choose(0, 1, "low"), sign = V_choose(-1, 1, "gamma_sign");
    gpd_state(&s, low, sign == 0);
    if (sign) V_assume(sign > 0 ? s.tail.gamma > 0 : s.tail.gamma < 0);
    double q1 = V_double("p1"), q2 = V_double("p2");
    double rate = (double)s.Nt / (double)s.n;
    V_assume(q1 > 0 && q1 < q2 && q2 <= rate);
    if (!V_symbolic()) V_assume(q1 < 0.9 * q2 && v_abs(s.tail.gamma) < 3 && (sign == 0 || v_abs(s.tail.gamma) > 1e-3) && s.tail.sigma > 1e-3 && v_abs(s.excess_threshold) < 1e3);
    double a = spot_quantile(&s, q1), b = spot_quantile(&s, q2);
    V_check(low ? a <= b : a >= b, "a smaller probability gives a more extreme quantile");
    V_check(low ? b <= s.excess_threshold : b >= s.excess_threshold, "quantiles lie beyond the excess threshold");
    V_cover("monotone");
}

/* ---------------------------------------------------------------- C13 */
void h_loglik(void) {
    use_heap();
    struct Peaks p;
    unsigned long cap = (unsigned long)V_param("cap", 2);
    int pushed = V_choose(0, 2 * (int)cap - 1, "pushed"), gz = V_choose(0, 1, "gamma_zero");
    V_assume(pushed > 0);
    unsigned long k = (unsigned long)pushed < cap ? (unsigned long)pushed : cap;
    V_assume(peaks_init(&p, cap) == 0);
    double sum = 0, y[MAXK];
    for (unsigned long i = 0; i < k; i++) {
        y[i] = V_param("sparse", 0) && i != k / 2 && i != k - 1 ? 0.5 + (double)((i * 7 + 3) % k) : V_double("y");
        V_assume(y[i] > 0);
        p.container.data[i] = y[i];
        sum += y[i];
    }
    p.container.cursor = (unsigned long)pushed % cap;
    p.container.filled = (unsigned long)pushed >= cap;
    p.e = sum;
    p.e2 = V_double("e2");
    p.min = V_double("min"); /* any bounds of the contents (inside the support) */
    p.max = V_double("max");
    V_assume(p.min > 0);
    for (unsigned long i = 0; i < k; i++) { V_assume(p.min <= y[i]); V_assume(p.max >= y[i]); }
    double g = gz ? 0.0 : V_param("sparse", 0) ? 0.25 : V_double("gamma"), sg = V_param("sparse", 0) ? 2.0 : V_double("sigma");
    V_assume(sg > 0);
    if (!gz) { V_assume(g != 0); V_assume(1.0 + g * p.max / sg > 0); }
    double want = -(double)k * stub__xlog(sg);
    if (gz) want -= sum / sg;
    else for (unsigned long i = 0; i < k; i++) {
        V_assume(1.0 + g * y[i] / sg > 0);
        want -= (1.0 + 1.0 / g) * stub__xlog(1.0 + g * y[i] / sg);
    }
    double at = 1e-6; /* natively: what the rounding of any reasonable evaluation order can amount to */
    if (!V_symbolic()) {
        at = 1e-11 * ((double)k * v_abs(stub__xlog(sg)) + (gz ? sum / sg : 1.0)) + 1e-11;
        if (!gz) for (unsigned long i = 0; i < k; i++) {
            double w = g * y[i] / sg;
            at += v_abs(1.0 + 1.0 / g) * (1e-11 * v_abs(stub__xlog(1.0 + w)) + 1e-14 * (1.0 + v_abs(w)) / (1.0 + w));
        }
    }
    V_check_close(log_likelihood(&p, g, sg), want, 1e-11, at, "log-likelihood of the stored excesses");
    V_cover(gz ? "exponential" : "pareto");
    peaks_free(&p);
}
/* parameters outside the support: never a usable likelihood */
void h_support(void) {
    use_heap();
    struct Peaks p;
    unsigned long cap = (unsigned long)V_param("cap", 2);
    int bad = V_choose(0, (int)cap - 1, "bad");
    V_assume(peaks_init(&p, cap) == 0);
    double g = V_double("gamma"), sg = V_double("sigma"), sum = 0;
    V_assume(sg > 0 && g < 0);
    for (unsigned long i = 0; i < cap; i++) {
        double y = V_double("y");
        V_assume(y > 0);
        if ((int)i == bad) V_assume(1.0 + g * y / sg < 0);
        else V_assume(1.0 + g * y / sg > 0);
        p.container.data[i] = y;
        sum += y;
        if ((int)i == bad) p.max = y;
    }
    p.min = V_double("min");
    V_assume(p.min > 0);
    for (unsigned long i = 0; i < cap; i++) V_assume(p.min <= p.container.data[i]);
    p.container.cursor = 0;
    p.container.filled = 1;
    p.e = sum;
    double l = log_likelihood(&p, g, sg);
    V_check(l != l, "no likelihood for parameters that exclude a stored excess");
    V_cover("outside");
    peaks_free(&p);
}
