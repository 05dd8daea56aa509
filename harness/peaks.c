/* C03 / C04: the bounded store of excesses and its running statistics */
#include "common.h"
#define MAXC 300

/* statistics of the k values v[0..k) */
static void check_stats(struct Peaks const *p, double const *v, unsigned long k, unsigned long at) {
    double sum = 0.0, sq = 0.0;
    for (unsigned long i = 0; i < k; i++) { sum += v[i]; sq += v[i] * v[i]; }
    V_check(peaks_size(p) == k, "size equals the number of stored excesses");
    V_check_close(p->e, sum, 1e-9, 1e-9, "running sum equals the sum of the stored excesses");
    V_check_close(p->e2, sq, 1e-9, 1e-9, "running sum of squares equals that of the stored excesses");
    if (V_param("sparse", 0) == 2) { /* one arbitrary value among fixed ones, at position at */
        double mn = v[at ? 0 : 1], mx = mn;
        for (unsigned long i = 0; i < k; i++) if (i != at) { if (v[i] < mn) mn = v[i]; if (v[i] > mx) mx = v[i]; }
        V_check(V_same(p->min, v[at] < mn ? v[at] : mn), "minimum is the smallest stored excess");
        V_check(V_same(p->max, v[at] > mx ? v[at] : mx), "maximum is the largest stored excess");
        V_check_close(peaks_mean(p), sum / (double)k, 1e-9, 1e-9, "mean equals the mean of the stored excesses");
        double m = sum / (double)k;
        V_check_close(peaks_var(p), sq / (double)k - m * m, 1e-9, 1e-7, "variance equals the variance of the stored excesses");
        return;
    }
    /* min and max: bounds attained by a stored element */
    int hit_min = 0, hit_max = 0;
    for (unsigned long i = 0; i < k; i++) {
        V_check(p->min <= v[i], "minimum is a lower bound of the stored excesses");
        V_check(p->max >= v[i], "maximum is an upper bound of the stored excesses");
    }
    for (unsigned long i = 0; i < k; i++) { if (!hit_min && p->min == v[i]) hit_min = 1; }
    for (unsigned long i = 0; i < k; i++) { if (!hit_max && p->max == v[i]) hit_max = 1; }
    V_check(hit_min, "minimum is one of the stored excesses");
    V_check(hit_max, "maximum is one of the stored excesses");
    V_check_close(peaks_mean(p), sum / (double)k, 1e-9, 1e-9, "mean equals the mean of the stored excesses");
    double m = sum / (double)k;
    V_check_close(peaks_var(p), sq / (double)k - m * m, 1e-9, 1e-7, "variance equals the variance of the stored excesses");
}

/* one push from an arbitrary reachable state: ring position and fill are case-split, contents symbolic */
void h_push(void) {
    use_heap();
    struct Peaks p;
    int sparse = V_param("sparse", 0);
    unsigned long cap = (unsigned long)V_param("cap", 3);
    int pos = V_choose(0, 2 * (int)cap - 1, "pushed"); /* values pushed so far; >= cap means filled */
    V_assume(peaks_init(&p, cap) == 0);
    double v[MAXC], w[MAXC];
    unsigned long k = pos < (int)cap ? (unsigned long)pos : cap;
    double sum = 0.0, sq = 0.0;
    for (unsigned long i = 0; i < k; i++) {
        /* large stores: the oldest value and one in the middle are arbitrary, the others fixed, distinct, not sorted */
        if (!sparse || (sparse == 1 && (i == (unsigned long)pos % cap || i == k / 2))) v[i] = v_bounded("stored", -1e6, 1e6);
        else v[i] = 1.0 + 0.5 * (double)((i * 7 + 3) % k) + 0.001 * (double)i;
        sum += v[i];
        sq += v[i] * v[i];
        p.container.data[i] = v[i];
    }
    p.container.cursor = (unsigned long)pos % cap;
    p.container.filled = pos >= (int)cap;
    p.e = sum;
    p.e2 = sq;
    if (k > 0 && sparse) {
        p.min = p.max = v[0];
        for (unsigned long i = 1; i < k; i++) { if (v[i] < p.min) p.min = v[i]; if (v[i] > p.max) p.max = v[i]; }
    } else if (k > 0) {
        int a = V_choose(0, (int)k - 1, "argmin"), b = V_choose(0, (int)k - 1, "argmax");
        for (unsigned long i = 0; i < k; i++) { V_assume(v[a] <= v[i]); V_assume(v[b] >= v[i]); }
        p.min = v[a];
        p.max = v[b];
    }
    if (p.container.filled) p.container.last_erased_data = V_choose(0, 1, "erased_before") ? v_bounded("last_erased", -1e6, 1e6) : V_NAN;
    double x = v_bounded("x", -1e6, 1e6);
    for (unsigned long i = 0; i < k; i++) w[i] = v[i];
    unsigned long at = (unsigned long)pos % cap;
    w[at] = x;
    unsigned long nk = k < cap ? k + 1 : cap;
    peaks_push(&p, x);
    for (unsigned long i = 0; i < nk; i++)
        V_check(V_same(p.container.data[i], w[i]), "exactly the oldest excess is replaced");
    check_stats(&p, w, nk, at);
    V_cover("pushed");
    if (pos >= (int)cap) V_cover("evicting");
    V_out("e", p.e);
    V_out("e2", p.e2);
    V_out("min", p.min);
    peaks_free(&p);
}

/* whole histories from a fresh object */
void h_history(void) {
    use_heap();
    struct Peaks p;
    unsigned long cap = (unsigned long)V_param("cap", 2);
    int n = V_param("n", 5);
    V_assume(peaks_init(&p, cap) == 0);
    V_check(peaks_size(&p) == 0, "a fresh store is empty");
    double ring[MAXC];
    double x[16];
    for (int i = 0; i < n; i++) {
        x[i] = v_bounded("x", -1e6, 1e6);
        peaks_push(&p, x[i]);
        ring[(unsigned long)i % cap] = x[i];
        unsigned long k = (unsigned long)i + 1 < cap ? (unsigned long)i + 1 : cap;
        for (unsigned long m = 0; m < k; m++)
            V_check(V_same(p.container.data[m], ring[m]), "the store holds exactly the most recent excesses");
        check_stats(&p, ring, k, 0);
    }
    V_cover("history");
    V_out("e", p.e);
    V_out("max", p.max);
    peaks_free(&p);
}

/* IEEE arithmetic: a value many orders of magnitude larger than the others leaves nothing behind once it is evicted */
void h_drift(void) {
    use_heap();
    struct Peaks p;
    unsigned long cap = (unsigned long)V_param("cap", 2);
    static const double huge[] = {1e9, 1e17, 1e100, 1e200};
    double h = huge[V_choose(0, 3, "huge")];
    int at = V_choose(0, 1, "at"); /* the huge value is the first one or the second one */
    V_assume(peaks_init(&p, cap) == 0);
    double x[4 * 4], sum = 0, sq = 0;
    int n = (int)cap + 1 + at;
    for (int i = 0; i < n; i++) {
        x[i] = i == at ? h : i == n - 1 ? 0.5 + (double)(unsigned char)(V_int("x") & 63) * 0.0625 : 0.75 + 0.5 * i;
        peaks_push(&p, x[i]);
    }
    for (int i = n - (int)cap; i + 1 < n; i++) { sum += x[i]; sq += x[i] * x[i]; }
    V_check(p.e > sum + 0.49 && p.e < sum + 4.5, "an evicted value leaves nothing behind in the running sum");
    V_check(p.e2 > sq + 0.2 && p.e2 < sq + 20, "an evicted value leaves nothing behind in the running sum of squares");
    V_check(p.max <= 5, "an evicted value leaves nothing behind in the maximum");
    V_cover("evicted");
    peaks_free(&p);
}
