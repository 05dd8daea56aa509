/* C02: no invalid access and no undefined behaviour, whatever the values.  The engine itself reports out-of-bounds, null,
 * freed or uninitialised accesses, signed overflow, bad shifts and conversions on every path; these harnesses only drive the
 * library with arbitrary doubles (infinities and NaN included). */
#include "model.h"
#include "brent.h"
#include "p2.h"
#include "xmath.h"
/* in long data sets only every sparse-th value is arbitrary, the others are fixed and not sorted */
#define SPARSE(i, n) (V_param("sparse", 0) && ((i) % V_param("sparse", 1) || (i) == 0))
#define FIXED(i, n) (0.25 * (double)(((i) * 7 + 3) % (n)))

/* the root finder: evaluates the function at arbitrary points and reports an arbitrary outcome (its own safety: h_brent_safe) */
double stub__brent(int *found, double a, double b, double (*f)(double, void *), void *extra, double tol) {
    (void)f(V_double("x1"), extra);
    *found = V_choose(0, 1, "found");
    return V_double("root");
}
double stub__p2_quantile(double p, double const *d, unsigned long n) {
    for (unsigned long i = 0; i < n; i++) (void)d[i];
    return V_param("sparse", 0) ? 0.1 * (double)n : V_double("estimate");
}
static void queries(struct Spot *s) {
    double a = spot_quantile(s, V_double("query_q")), b = spot_probability(s, V_double("query_z"));
    V_out("a", a);
    V_out("b", b);
}
/* a whole life: init, fit, steps, queries, free */
void h_life(void) {
    use_heap();
    struct Spot s;
    unsigned long cap = (unsigned long)V_param("cap", 2);
    int n = V_param("n", 2), steps = V_param("steps", 2), low = V_choose(0, 1, "low"), disc = V_choose(0, 1, "discard");
    double q = V_double("q"), level = V_double("level");
    if (spot_init(&s, q, low, disc, level, cap) < 0) { V_cover("refused"); return; }
    double *x = V_malloc((unsigned long)(n + 1) * sizeof(double));
    for (int i = 0; i < n; i++) x[i] = SPARSE(i, n) ? FIXED(i, n) : V_double("data");
    if (V_param("query_first", 0)) queries(&s);
    int r = V_param("fit", 1) ? spot_fit(&s, x, (unsigned long)n) : 0;
    V_free(x);
    V_check(r == 0 || r == -ERR_EXCESS_THRESHOLD_IS_NAN || r == -ERR_ANOMALY_THRESHOLD_IS_NAN, "fit returns a defined code");
    if (r == 0) V_cover("fitted"); else V_cover("not fitted");
    for (int i = 0; i < steps; i++) {
        r = spot_step(&s, V_double("x"));
        V_check(r == NORMAL || r == EXCESS || r == ANOMALY || r == -ERR_DATA_IS_NAN, "step returns a defined code");
        if (r == EXCESS) V_cover("excess");
    }
    queries(&s);
    V_check(peaks_size(&s.tail.peaks) <= cap, "no more excesses than configured");
    spot_free(&s);
    V_check(V_live() == 0, "everything is released");
    V_cover("freed");
}
/* one excess from any state, with the real estimators */
void h_state(void) {
    use_heap();
    struct Spot s;
    unsigned long cap = (unsigned long)V_param("cap", 2);
    int pushed = V_choose(0, 2 * (int)cap - 1, "pushed");
    arb_spot(&s, cap, pushed, V_choose(0, 1, "low"), V_choose(0, 1, "discard"));
    int r = spot_step(&s, V_double("x"));
    if (r == EXCESS) V_cover("excess");
    V_cover("stepped");
    spot_free(&s);
}
void h_estimate(void) {
    use_heap();
    struct Spot s;
    unsigned long cap = (unsigned long)V_param("cap", 2);
    int pushed = V_choose(0, 2 * (int)cap - 1, "pushed");
    arb_spot(&s, cap, pushed, 0, 1);
    double l = tail_fit(&s.tail);
    V_out("l", l);
    V_out("g", s.tail.gamma); /* both outputs are assigned */
    V_out("s", s.tail.sigma);
    V_cover("estimated");
}
void h_p2_safe(void) {
    int n = V_choose(0, V_param("n", 6), "n");
    static const double ps[] = {0.0, 0.5, 0.98, 1.0};
    double p = V_param("any_p", 0) ? V_double("p") : ps[V_choose(0, 3, "p")];
    double *x = V_malloc((unsigned long)(n ? n : 1) * sizeof(double));
    static const double first[4][5] = {{0, 1, 2, 3, 4}, {1, 1, 1, 1, 1}, {1, V_NAN, 2, V_NAN, 3}, {-V_INF, 0, V_INF, -V_INF, V_INF}};
    int w = V_param("first", 0);
    for (int i = 0; i < n; i++) x[i] = w && i < 5 ? first[w - 1][i] : SPARSE(i, n) ? FIXED(i, n) : V_double("x");
    double r = p2_quantile(p, x, (unsigned long)n);
    V_out("r", r);
    V_free(x);
    V_cover("estimated");
}
static int evals, token;
static double f(double x, void *e) {
    V_check(e == (void *)&token, "the context");
    V_out("x", x);
    V_assume(evals < V_param("evals", 4));
    evals++;
    return V_double("f");
}
void h_brent_safe(void) {
    int found = 0;
    double r = brent(&found, V_double("a"), V_double("b"), f, &token, V_double("tol"));
    V_out("r", r);
    V_check(found == 0 || found == 1, "an outcome is reported");
    V_cover(found ? "found" : "not found");
}
void h_math_safe(void) {
    double x = V_double("x");
    switch (V_choose(0, 2, "function")) {
    case 0: V_out("r", xlog(x)); V_cover("log"); break;
    case 1: V_out("r", xexp(x)); V_cover("exp"); break;
    default: V_out("r", xmin(x, V_double("y"))); V_cover("min");
    }
}
