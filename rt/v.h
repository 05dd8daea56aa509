/* Harness interface.  In the symbolic executor every V_* call is an intrinsic; in a native build (replay of a
 * counterexample or of a path witness against the really compiled code) rt/native.c implements them. */
#ifndef V_H
#define V_H
#include "spot.h"

double V_double(const char *name);                        /* arbitrary double (real mode: arbitrary finite real) */
double V_binade(int e, const char *name);                 /* arbitrary 2^e*m, 1<=m<2 (real mode) */
double V_reduced(int k, const char *name);                /* k*ln2 + v, 0<=v<ln2; k<0: the opposite of (-k-1)*ln2 + v */
void V_check_ln(double r, double x, double rtol, double atol, const char *label);  /* r is ln(x) within the tolerance */
void V_check_exp(double r, double x, double rtol, const char *label);              /* r is exp(x) within the tolerance */
int V_int(const char *name);                              /* arbitrary int */
unsigned long V_ulong(const char *name);                  /* arbitrary unsigned long */
unsigned long V_count(const char *name);                  /* arbitrary counter in [0,2^52) */
int V_choose(int lo, int hi, const char *name);           /* case split, every value explored */
int V_param(const char *name, int dflt);                  /* shape parameter fixed by the job */
double V_uf(const char *name, int n, ...);                /* value of an arbitrary function of n doubles */
double V_log(double x);                                   /* natural logarithm (symbolic: uninterpreted) */
double V_exp(double x);                                   /* exponential (symbolic: uninterpreted, > 0) */
void V_assume(int cond);
void V_check(int cond, const char *label);
void V_check_close(double a, double b, double rtol, double atol, const char *label);
void V_cover(const char *label);
void V_out(const char *name, double v);
int V_symbolic(void);
int V_same(double a, double b);                           /* identical value (NaN same as NaN) */
void *V_malloc(unsigned long n);
void V_free(void *p);
int V_live(void);                                         /* number of live heap blocks */
unsigned long V_objsize(const void *p);
unsigned long V_concrete(unsigned long v);                /* case split on a symbolic integer */
void V_stop(void);
void V_note(const char *s);

#define V_NAN (0.0 / 0.0)
#define V_INF (1.0 / 0.0)
#endif
