#ifndef COMMON_H
#define COMMON_H
#include "v.h"
#include "spot.h"

/* ---- reference mathematics used in place of the library's log/exp where only the surrounding formula is in question */
double stub__xlog(double x) { return V_log(x); }
double stub__xexp(double x) { return V_exp(x); }

static inline void use_heap(void) { set_allocators(V_malloc, V_free); }
static inline double v_abs(double x) { return x < 0 ? -x : x; }

/* a double of ordinary magnitude */
static inline double v_bounded(const char *name, double lo, double hi) {
    double x = V_double(name);
    V_assume(x >= lo);
    V_assume(x <= hi);
    return x;
}
#endif
