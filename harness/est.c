/* C14: the two parameter estimators */
#include "common.h"
#include "estimator.h"
#include "brent.h"
#define MAXC 72

static struct Peaks *cur;
static double ys[MAXC];
static int K;

static void store(struct Peaks *p) {
    unsigned long cap = (unsigned long)V_param("cap", 2);
    int pushed = V_choose(1, 2 * (int)cap - 1, "pushed");
    K = pushed < (int)cap ? pushed : (int)cap;
    V_assume(peaks_init(p, cap) == 0);
    double e = 0, e2 = 0;
    for (int i = 0; i < K; i++) {
        ys[i] = i && V_param("fixed", 0) ? 0.75 * i * i : V_double("y");
        V_assume(ys[i] > 0);
        if (!V_symbolic()) { V_assume(ys[i] > 1e-3); V_assume(ys[i] < 1e8); }
        p->container.data[i] = ys[i];
        e += ys[i];
        e2 += ys[i] * ys[i];
    }
    p->container.cursor = (unsigned long)pushed % cap;
    p->container.filled = (unsigned long)pushed >= cap;
    p->e = e;
    p->e2 = e2;
    /* which of the values are the extremes (the store's own bookkeeping: C04) */
    int a = V_choose(0, K - 1, "argmin"), b = V_choose(0, K - 1, "argmax");
    for (int i = 0; i < K; i++) { V_assume(ys[a] <= ys[i]); V_assume(ys[i] <= ys[b]); }
    p->min = ys[a];
    p->max = ys[b];
    cur = p;
}
static double mean(void) { double m = 0; for (int i = 0; i < K; i++) m += ys[i]; return m / K; }

void h_mom(void) {
    use_heap();
    struct Peaks p;
    store(&p);
    double e = mean(), v = 0;
    for (int i = 0; i < K; i++) v += ys[i] * ys[i];
    v = v / K - e * e;
    V_assume(v > (V_symbolic() ? 0.0 : 1e-6 * e * e)); /* not all equal */
    double g = -77, s = -77, r = e * e / v;
    double l = mom_estimator(&p, &g, &s);
    V_check_close(g, 0.5 * (1 - r), 1e-6, 1e-9, "gamma of the moment estimator");
    V_check_close(s, 0.5 * e * (1 + r), 1e-6, 1e-9, "sigma of the moment estimator");
    V_check(V_same(l, log_likelihood(&p, g, s)), "the likelihood reported is the one of the parameters returned");
    V_cover("moments");
    peaks_free(&p);
}

/* ---- Grimshaw: the root finder is replaced by one that inspects its arguments and returns any point of the interval */
static int nleft, nright, gotl, gotr;
static double rootl, rootr;
static double w_formula(double x) {
    double u = 0, v = 0;
    for (int i = 0; i < K; i++) { u += 1 / (1 + x * ys[i]); v += stub__xlog(1 + x * ys[i]); }
    return (u / K) * (1 + v / K) - 1;
}
double stub__brent(int *found, double a, double b, real_function f, void *extra, double tol) {
    double lo = a < b ? a : b, hi = a < b ? b : a;
    double m = mean(), mn = cur->min, mx = cur->max;
    V_check(tol > 0 && tol < 1e-3, "the root is searched with a small tolerance");
    int left = hi <= 0;
    double t;
    if (left) {
        V_check(lo > -1 / mx && hi < 0, "the left interval lies inside ]-1/max, 0[");
        V_check(lo <= -1 / mx + 1e-6 && hi >= -1e-6, "the left interval reaches its theoretical ends");
        t = V_double("left_point");
        nleft++;
    } else {
        V_check(lo > 0, "the right interval lies in the positives");
        double end = 2 * (m - mn) / (mn * mn);
        V_check_close(hi, end, 1e-6, 1e-9, "the right interval ends at 2(mean-min)/min^2");
        V_check(lo <= 1e-6, "the right interval starts near 0");
        t = V_double("right_point");
        nright++;
    }
    V_assume(t >= lo);
    V_assume(t <= hi);
    if (V_param("formula", 0)) V_check_close(f(t, extra), w_formula(t), 1e-6, 1e-6, "the function whose root is searched");
    /* any outcome of the search */
    int ok = left ? gotl : gotr;
    *found = ok;
    if (left) rootl = t; else rootr = t;
    return ok ? t : V_double("not_found");
}
static double gam(double x) { double v = 0; for (int i = 0; i < K; i++) v += stub__xlog(1 + x * ys[i]); return v / K; }
static int near(double a, double b) { if (V_symbolic()) return V_same(a, b); return v_abs(a - b) <= 1e-6 * (v_abs(a) + v_abs(b)) + 1e-9; }
void h_grimshaw(void) {
    use_heap();
    struct Peaks p;
    store(&p);
    double mn = p.min, mx = p.max, m = mean();
    V_assume(2 * (m - mn) > 1e-6 * mn * mn); /* not all equal: a proper interval on the right */
    V_assume(mx < 1e9);
    nleft = nright = 0;
    gotl = V_choose(0, 1, "left_found");
    gotr = V_choose(0, 1, "right_found");
    double g = -77, s = -77;
    double l = grimshaw_estimator(&p, &g, &s);
    V_check(nleft == 1 && nright == 1, "one search on each side of zero");
    V_check(V_same(l, log_likelihood(&p, g, s)), "the likelihood reported is the one of the parameters returned");
    double best = log_likelihood(&p, 0.0, m), gl = 0, gr = 0, ll = 0, lr = 0;
    int which = near(g, 0.0) & near(s, m) & near(l, best);
    V_check(l >= best - (V_symbolic() ? 0 : 1e-6), "at least as likely as the exponential candidate");
    if (gotl) {
        gl = gam(rootl);
        ll = log_likelihood(&p, gl, gl / rootl);
        which |= near(g, gl) & near(s, gl / rootl);
        V_check(!(l < ll - (V_symbolic() ? 0 : 1e-6)), "at least as likely as the candidate of the left root");
    }
    if (gotr) {
        gr = gam(rootr);
        lr = log_likelihood(&p, gr, gr / rootr);
        which |= near(g, gr) & near(s, gr / rootr);
        V_check(!(l < lr - (V_symbolic() ? 0 : 1e-6)), "at least as likely as the candidate of the right root");
    }
    V_check(which, "the result is one of the candidates");
    V_cover("grimshaw");
    peaks_free(&p);
}
