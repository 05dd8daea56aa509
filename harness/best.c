/* C15: tail_fit keeps the best candidate */
#include "common.h"
static double pick(int c, const char *n) { return c == 0 ? V_double(n) : c == 1 ? V_NAN : c == 2 ? V_INF : -V_INF; }
static double L1, L2, G1, G2, S1, S2;
double stub__mom_estimator(struct Peaks const *p, double *g, double *s) { *g = G1; *s = S1; return L1; }
double stub__grimshaw_estimator(struct Peaks const *p, double *g, double *s) { *g = G2; *s = S2; return L2; }
void h_best(void) {
    use_heap();
    struct Tail t;
    V_assume(tail_init(&t, 2) == 0);
    tail_push(&t, 1.0);
    L1 = pick(V_choose(0, 3, "mom"), "l1");
    L2 = pick(V_choose(0, 3, "gri"), "l2");
    G1 = V_double("g1"); G2 = V_double("g2"); S1 = V_double("s1"); S2 = V_double("s2");
    V_assume(G1 != G2);
    V_assume(S1 != S2);
    int again = V_choose(0, 1, "refit");
    if (again) { t.gamma = V_double("old_g"); t.sigma = V_double("old_s"); }
    double r = tail_fit(&t);
    int one = V_same(t.gamma, G1) && V_same(t.sigma, S1), two = V_same(t.gamma, G2) && V_same(t.sigma, S2);
    V_check(one || two, "both parameters come from the same estimator");
    if (L1 != L1 && L2 != L2) { V_check(r != r, "no likelihood when no estimator has one"); V_cover("none"); return; }
    if (L1 != L1 || L2 > L1) {
        V_check(two, "the estimator of highest likelihood is kept");
        V_check(V_same(r, L2), "the highest likelihood is returned");
        V_cover("second");
    } else if (L2 != L2 || L1 > L2) {
        V_check(one, "the estimator of highest likelihood is kept");
        V_check(V_same(r, L1), "the highest likelihood is returned");
        V_cover("first");
    } else {
        V_check(V_same(r, L1), "the highest likelihood is returned");
        V_cover("tie");
    }
}
