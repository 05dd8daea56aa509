/* C16: the root finder on an arbitrary function */
#include "common.h"
#include "brent.h"
#define MAXE 12

static double px[MAXE], pf[MAXE], lo, hi;
static int evals, maxe;
static char token;
static double slack(double x) { return V_symbolic() ? 0.0 : 1e-12 * (v_abs(x) + v_abs(lo) + v_abs(hi)) + 1e-300; }

static double f(double x, void *extra) {
    V_check(extra == (void *)&token, "the caller's context is passed to the function");
    V_check((x >= lo - slack(x)) & (x <= hi + slack(x)), "the function is evaluated inside the interval only");
    V_assume(evals < maxe); /* deeper histories are outside the bound */
    double y = V_uf("f", 1, x);
    px[evals] = x;
    pf[evals] = y;
    evals++;
    return y;
}

static double tolerance(double r, double tol) { return 4.0 * BRENT_DEFAULT_EPSILON * v_abs(r) + tol; }

void h_brent(void) {
    double x1 = V_double("x1"), x2 = V_double("x2"), tol = V_double("tol");
    int rev = V_choose(0, 1, "reversed");
    V_assume(tol > 0.0);
    if (rev) V_assume(x1 > x2); else V_assume(x1 < x2);
    if (!V_symbolic()) { V_assume(v_abs(x1) < 1e9); V_assume(v_abs(x2) < 1e9); V_assume(v_abs(x1) > 1e-9 || v_abs(x2) > 1e-9); V_assume(tol > 1e-12); }
    int neg = V_choose(0, 1, "first_negative"), side = V_choose(0, 1, "larger"); /* distributes the work */
    double g1 = V_uf("f", 1, x1), g2 = V_uf("f", 1, x2);
    if (neg) V_assume(g1 <= 0); else V_assume(g1 > 0);
    if (side) V_assume(neg ? -g1 < v_abs(g2) : g1 < v_abs(g2)); else V_assume(neg ? -g1 >= v_abs(g2) : g1 >= v_abs(g2));
    lo = rev ? x2 : x1;
    hi = rev ? x1 : x2;
    maxe = V_param("evals", 3);
    evals = 0;
    int found = -7;
    double r = brent(&found, x1, x2, f, &token, tol);
    V_out("r", r);
    V_check(evals >= 2, "both ends are evaluated");
    V_check(found == 0 || found == 1, "success or failure is reported");
    double f1 = V_uf("f", 1, x1), f2 = V_uf("f", 1, x2);
    if (((f1 > 0) & (f2 > 0)) | ((f1 < 0) & (f2 < 0))) {
        V_check(found == 0, "failure when both ends have the same sign");
        V_cover("same sign");
        return;
    }
    V_check(found == 1, "a converged search is reported as a success");
    V_cover("found");
    V_check((r >= lo - slack(r)) & (r <= hi + slack(r)), "the root lies in the interval");
    double fr = V_uf("f", 1, r);
    if (fr == 0.0) { V_cover("zero"); return; }
    V_cover("bracket");
    int ok = 0;
    double t = tolerance(r, tol) + slack(r);
    for (int i = 0; i < evals; i++)
        ok |= (((pf[i] >= 0) & (fr < 0)) | ((pf[i] <= 0) & (fr > 0))) & (px[i] - r <= t) & (r - px[i] <= t);
    V_check(ok, "a sign change lies within the tolerance of the root");
}

/* a step function on a huge interval needs more bisections than the iteration limit */
static double step_at;
static int count;
static double fstep(double x, void *extra) {
    count++;
    V_check(count <= 1000, "the number of evaluations is bounded");
    return x < step_at ? -1.0 : 1.0;
}
void h_limit(void) {
    step_at = V_double("step");
    V_assume(step_at > 0.0);
    V_assume(step_at < 1.0);
    double big = 0x1p1000;
    int found = -7;
    brent(&found, V_choose(0, 1, "zero") ? 0.0 : -big, big, fstep, 0, 1e-12);
    V_check(found == 0, "failure when the search did not converge");
    V_cover("exhausted");
}

/* many iterations: a step function whose jump lies anywhere in a small cell */
static double low_v, high_v, dx[256], df[256];
static double fdeep(double x, void *extra) {
    V_check(count < 250, "the number of evaluations is bounded");
    V_check((x >= lo - slack(x)) & (x <= hi + slack(x)), "the function is evaluated inside the interval only");
    double y = x < step_at ? low_v : high_v;
    dx[count] = x;
    df[count++] = y;
    return y;
}
void h_deep(void) {
    static const double lv[] = {-1.0, -3.0, -0.1, 2.0}, hv[] = {1.0, 0.5, 7.0, -0.25}, ends[][2] = {{0.0, 1.0}, {-3.0, 5.0}, {1.0, -0.5}};
    static const double cell[] = {0.0, 0.333333, 0.7071067, 0.99999};
    int k = V_choose(0, 3, "cell"), h = V_choose(0, 3, "heights"), e = V_choose(0, 2, "ends");
    low_v = lv[h];
    high_v = hv[h];
    step_at = V_double("step");
    V_assume(step_at > cell[k]);
    V_assume(step_at < cell[k] + 1e-6);
    double x1 = ends[e][0], x2 = ends[e][1], tol = 1e-6;
    lo = x1 < x2 ? x1 : x2;
    hi = x1 < x2 ? x2 : x1;
    count = 0;
    int found = -7;
    double r = brent(&found, x1, x2, fdeep, 0, tol);
    V_check(found == 1, "a converged search is reported as a success");
    double fr = r < step_at ? low_v : high_v, t = tolerance(r, tol) + slack(r);
    int ok = 0;
    for (int i = 0; i < count; i++)
        ok |= ((df[i] > 0) != (fr > 0)) & (dx[i] - r <= t) & (r - dx[i] <= t);
    V_check(ok, "a sign change lies within the tolerance of the root");
    V_cover("deep");
}

/* the end values as machine numbers: tiny or huge values of the same sign are still of the same sign */
static double end1, end2;
static double fends(double x, void *extra) {
    V_check(count < 2, "no search without a bracket");
    return count++ ? end2 : end1;
}
void h_same_sign(void) {
    end1 = V_double("f1");
    end2 = V_double("f2");
    V_assume(((end1 > 0.0) & (end2 > 0.0)) | ((end1 < 0.0) & (end2 < 0.0)));
    int found = -7;
    count = 0;
    int narrow = V_choose(0, 1, "narrow"); /* an interval already within the tolerance, or a wide one */
    brent(&found, narrow ? 0.5 + 1e-9 : V_choose(0, 1, "reversed") ? 1.0 : -1.0, 0.5, fends, 0, narrow ? 1e-6 : 1e-8);
    V_check(found == 0, "failure when both ends have the same sign");
    V_cover("same sign");
}
