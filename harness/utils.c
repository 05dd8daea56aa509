/* C21: replacement exponent-splitting and scaling functions */
#include "common.h"
#include "xmath.h"
#ifndef NULL
#define NULL ((void *)0)
#endif

static int callsA_l, callsA_f, callsB_l, callsB_f;
static int exponent; /* the argument of the logarithm is in [2^exponent, 2^(exponent+1)[ */
static double arg;

static double pow2(int n) { double r = 1; for (; n > 0; n--) r *= 2; for (; n < 0; n++) r *= 0.5; return r; }
/* x * 2^n, in two factors so that no intermediate overflows */
static double scaled(double x, int n) {
    V_check(n > -3000 && n < 3000, "the scaling exponent is sensible");
    int h = n / 2;
    return x * pow2(h) * pow2(n - h);
}
static double split(double x, int *e) {
    V_check(V_same(x, arg), "the exponent is taken from the argument of the logarithm");
    *e = exponent + 1;
    return scaled(x, -(exponent + 1));
}
static double ldexpA(double x, int n) { callsA_l++; return scaled(x, n); }
static double ldexpB(double x, int n) { callsB_l++; return scaled(x, n); }
static double frexpA(double x, int *e) { callsA_f++; return split(x, e); }
static double frexpB(double x, int *e) { callsB_f++; return split(x, e); }
static const ldexp_fn LF[] = {NULL, ldexpA, ldexpB};
static const frexp_fn FF[] = {NULL, frexpA, frexpB};

static int curl, curf;
static void install(void) {
    curl = curf = 0;
    int n = V_param("sets", 2);
    for (int i = 0; i < n; i++) {
        int l = V_choose(0, 2, "ldexp"), f = V_choose(0, 2, "frexp");
        set_float_utils(LF[l], FF[f]);
        if (l) curl = l;
        if (f) curf = f;
    }
    callsA_l = callsA_f = callsB_l = callsB_f = 0;
}
void h_log(void) {
    exponent = V_choose(V_param("lo", -3), V_param("hi", 3), "exponent") * V_param("stride", 1);
    double x = arg = V_binade(exponent, "x");
    double before = xlog(x);
    install();
    double r = xlog(x);
    V_check_close(r, before, 1e-12, 1e-15, "same logarithm with the replacement functions");
    V_check((callsA_f > 0) == (curf == 1) && (callsB_f > 0) == (curf == 2), "the logarithm uses the exponent splitting last installed");
    V_check(callsA_l == 0 || curl == 1, "no stale scaling function");
    V_check(callsB_l == 0 || curl == 2, "no stale scaling function");
    V_cover("log");
}
void h_exp(void) {
    int k = V_choose(V_param("lo", 1), V_param("hi", 6), "multiple") * V_param("stride", 1);
    double x = V_reduced(k, "x");
    V_assume(x <= 700.0 && x >= -700.0);
    double before = xexp(x);
    install();
    double r = xexp(x);
    V_check_close(r, before, 1e-12, 0, "same exponential with the replacement functions");
    if (x > 1.0 || x < -1.0) V_check((callsA_l > 0) == (curl == 1) && (callsB_l > 0) == (curl == 2), "the exponential uses the scaling function last installed");
    V_cover("exp");
}
/* the power goes through both */
void h_pow(void) {
    exponent = V_choose(2, 5, "exponent");
    double a = arg = V_binade(exponent, "x");
    if (!V_symbolic()) V_assume(a > 0 && a < 1e9);
    curl = curf = 0;
    int l = V_choose(0, 2, "ldexp"), f = V_choose(0, 2, "frexp");
    set_float_utils(LF[l], FF[f]);
    callsA_l = callsA_f = callsB_l = callsB_f = 0;
    xpow(a, 3.0);
    V_check((callsA_f > 0) == (f == 1) && (callsB_f > 0) == (f == 2), "the power uses the exponent splitting last installed");
    V_check((callsA_l > 0) == (l == 1) && (callsB_l > 0) == (l == 2), "the power uses the scaling function last installed");
    V_cover("pow");
}
