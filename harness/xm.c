/* C10, C11: accuracy of the built-in logarithm and exponential, and their special values */
#include "common.h"
#include "xmath.h"

void h_log(void) {
    int lo = V_param("lo", -10), hi = V_param("hi", 10), e = V_choose(lo, hi, "exponent");
    double x = V_binade(e, "x");
    if (!V_symbolic()) V_assume(x > 0 && x < V_INF);
    double r = xlog(x);
    V_out("r", r);
    V_check_ln(r, x, 1e-10, 1e-13, "the logarithm is accurate");
    V_cover("log");
}
void h_log_special(void) {
    double x = V_double("x");
    V_assume(!(x > 0 && x < V_INF)); /* ordinary arguments: h_log */
    double r = xlog(x);
    if (x != x) { V_check(r != r, "the logarithm of NaN is NaN"); V_cover("nan"); }
    else if (x < 0) { V_check(r != r, "the logarithm of a negative number is NaN"); V_cover("negative"); }
    else if (x == 0) { V_check(r == -V_INF, "the logarithm of zero is minus infinity"); V_cover("zero"); }
    else if (x == V_INF) { V_check(r == V_INF, "the logarithm of infinity is infinity"); V_cover("infinity"); }
}
void h_exp(void) {
    int lo = V_param("lo", -10), hi = V_param("hi", 10), k = V_choose(lo, hi, "multiple");
    double x = V_reduced(k, "x");
    V_assume(x <= 700.0);
    V_assume(x >= -700.0);
    double r = xexp(x);
    V_out("r", r);
    V_check_exp(r, x, 1e-12, "the exponential is accurate");
    V_cover("exp");
}
void h_exp_far(void) {
    int k = V_choose(V_param("lo", 1009), V_param("hi", 1027), "multiple"), neg = V_choose(0, 1, "negative");
    double x = V_reduced(neg ? -k - 1 : k, "x");
    V_assume(neg ? x < -700.0 : x > 700.0);
    double r = xexp(x);
    if (neg) V_check(r >= 0 && r < 1e-304, "the exponential of a very negative number is nearly zero");
    else V_check(r > 1e304, "the exponential of a large number is huge or infinite");
    V_cover("far");
}
void h_exp_huge(void) {
    int neg = V_choose(0, 1, "negative");
    double x = V_double("x");
    V_assume(neg ? x < -711.0 : x > 711.0);
    double r = xexp(x);
    if (neg) V_check(r >= 0 && r < 1e-304, "the exponential of a very negative number is nearly zero");
    else V_check(r > 1e304, "the exponential of a large number is huge or infinite");
    V_cover("huge");
}
void h_exp_special(void) {
    static const double v[] = {V_NAN, V_INF, -V_INF, 0.0, -0.0};
    int i = V_choose(0, 4, "which");
    double r = xexp(v[i]);
    if (i == 0) V_check(r != r, "the exponential of NaN is NaN");
    if (i == 1) V_check(r == V_INF, "the exponential of infinity is infinity");
    if (i == 2) V_check(r == 0.0, "the exponential of minus infinity is zero");
    if (i >= 3) V_check(r == 1.0, "the exponential of zero is one");
    V_cover("special");
}
void h_pow(void) {
    double a = V_double("a"), x = V_double("x");
    V_assume(a > 0);
    if (!V_symbolic()) { V_assume(a < 1e300 && a > 1e-300 && v_abs(x) < 1e6); V_assume(v_abs(x * xlog(a)) < 700); }
    double r = xpow(a, x), w = stub__xexp(x * stub__xlog(a));
    V_check_close(r, w, 1e-9, 0, "the power is the exponential of the exponent times the logarithm");
    V_cover("pow");
}
