/* C09: the streaming quantile estimate against an independent statement of the P2 algorithm */
#include "common.h"
#include "p2.h"
#define MAXD 300

/* Jain & Chlamtac.  count_extremes: a value below the first / above the last marker is counted as in the paper.
 * upper: a value equal to a marker belongs to the cell above it (paper) or below it. */
static double ref_p2(double p, double const *x, int n, int count_extremes, int upper) {
    double q[5], pos[5] = {0, 1, 2, 3, 4}, want[5] = {0, 2 * p, 4 * p, 2 + 2 * p, 4}, inc[5] = {0, p / 2, p, (1 + p) / 2, 1};
    for (int i = 0; i < 5; i++) { /* insertion sort */
        int j = i;
        for (; j > 0 && q[j - 1] > x[i]; j--) q[j] = q[j - 1];
        q[j] = x[i];
    }
    for (int j = 5; j < n; j++) {
        int cell, extreme = 0;
        if (x[j] < q[0]) { q[0] = x[j]; cell = 0; extreme = 1; }
        else if (x[j] > q[4]) { q[4] = x[j]; cell = 3; extreme = 1; }
        else {
            cell = 0;
            while (cell < 3 && (upper ? x[j] >= q[cell + 1] : x[j] > q[cell + 1])) cell++;
        }
        if (extreme && !count_extremes) continue;
        for (int i = cell + 1; i < 5; i++) pos[i] += 1;
        for (int i = 0; i < 5; i++) want[i] += inc[i];
        for (int i = 1; i < 4; i++) {
            double d = want[i] - pos[i];
            int s = 0;
            if (d >= 1 && pos[i + 1] - pos[i] > 1) s = 1;
            else if (d <= -1 && pos[i - 1] - pos[i] < -1) s = -1;
            if (!s) continue;
            double hi = (q[i + 1] - q[i]) / (pos[i + 1] - pos[i]), lo = (q[i] - q[i - 1]) / (pos[i] - pos[i - 1]);
            double c = q[i] + s / (pos[i + 1] - pos[i - 1]) * ((pos[i] - pos[i - 1] + s) * hi + (pos[i + 1] - pos[i] - s) * lo);
            if (!(q[i - 1] < c && c < q[i + 1])) c = q[i] + s * (q[i + s] - q[i]) / (pos[i + s] - pos[i]);
            q[i] = c;
            pos[i] += s;
        }
    }
    return q[2];
}
static int near(double a, double b) { if (V_symbolic()) return V_same(a, b); double d = v_abs(a - b); return d <= 1e-9 * (v_abs(a) + v_abs(b)) + 1e-12; }
static double prob(void) {
    int k = V_param("p", 0);
    double p = k ? (double)k / 100.0 : V_double("p");
    V_assume(p > 0);
    V_assume(p < 1);
    return p;
}
static void data(double *x, int n, int sorted) {
    int sp = V_param("sparse", 0); /* long data sets: only every sp-th value is arbitrary, the others are fixed and not sorted */
    for (int i = 0; i < n; i++) x[i] = sp && (i % sp || i == 0) ? 0.25 * (double)((i * 7 + 3) % n) : V_double("x");
    if (sorted) for (int i = 0; i < 4; i++) V_assume(sorted == 2 ? x[i] < x[i + 1] : x[i] <= x[i + 1]);
    if (!V_symbolic()) for (int i = 0; i < n; i++) V_assume(v_abs(x[i]) < 1e6);
}
void h_p2(void) {
    double x[MAXD];
    int n = V_param("n", 6);
    double p = prob();
    int sorted = V_param("sorted", 2);
    data(x, n, sorted);
    /* case splits that only serve to distribute the work */
    if (n > 6 || sorted == 0) { if (V_choose(0, 1, "p_high")) V_assume(p >= 0.5); else V_assume(p < 0.5); }
    if (sorted && n > 6) {
        int c = V_choose(0, 5, "cell");
        if (c > 0) V_assume(x[5] >= x[c - 1]);
        if (c < 5) V_assume(x[5] < x[c]);
    }
    if (!sorted && !V_param("sparse", 0)) {
        int a = V_choose(0, 4, "first");
        for (int i = 0; i < 5; i++) if (i != a) V_assume(i < a ? x[a] < x[i] : x[a] <= x[i]);
    }
    double r = p2_quantile(p, x, (unsigned long)n);
    V_cover("estimated");
    V_out("r", r);
    int ok = near(r, ref_p2(p, x, n, 0, 0)) || near(r, ref_p2(p, x, n, 0, 1)) || near(r, ref_p2(p, x, n, 1, 1)) || near(r, ref_p2(p, x, n, 1, 0));
    V_check(ok, "the estimate is the one of the P2 algorithm");
}
void h_published(void) {
    double x[MAXD];
    int n = V_param("n", 6);
    double p = 0.5;
    for (int i = 0; i < n; i++) x[i] = i < 5 ? i : V_double("x");
    for (int i = 0; i < n; i++) for (int j = 0; j < i; j++) V_assume(x[i] != x[j]);
    double r = p2_quantile(p, x, (unsigned long)n);
    V_cover("estimated");
    if (near(r, ref_p2(p, x, n, 1, 1))) return;
    V_check(near(r, ref_p2(p, x, n, 1, 0)), "new extremes are counted as in the published algorithm");
}
/* never outside the data, ties included */
void h_range(void) {
    double x[MAXD];
    int n = V_param("n", 6);
    double p = prob();
    data(x, n, V_param("sorted", 1));
    int a = V_choose(0, n - 1, "argmin"), b = V_choose(0, n - 1, "argmax");
    for (int i = 0; i < n; i++) { V_assume(i < a ? x[a] < x[i] : x[a] <= x[i]); V_assume(i < b ? x[b] > x[i] : x[b] >= x[i]); }
    double r = p2_quantile(p, x, (unsigned long)n), eps = V_symbolic() ? 0.0 : 1e-9 * (1 + v_abs(x[a]) + v_abs(x[b]));
    V_check(r >= x[a] - eps, "the estimate is not below the data");
    V_check(r <= x[b] + eps, "the estimate is not above the data");
    V_cover("estimated");
}
void h_small(void) {
    double x[MAXD];
    int n = V_choose(0, 4, "n");
    double p = V_double("p");
    for (int i = 0; i < n; i++) x[i] = V_double("x");
    V_check(p2_quantile(p, x, (unsigned long)n) == 0.0, "fewer than five values give 0");
    V_cover("small");
}
