/* Native implementation of the harness interface: feeds the values chosen by the solver to the really compiled code. */
#include <math.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>

struct ent { char kind; double d; unsigned long l; };
static struct ent *Q, *U;
static int nq, nu, iq, iu, failed, diverged;
static unsigned seed;

static void load(void) {
    static int done;
    if (done) return;
    done = 1;
    const char *f = getenv("V_INPUTS");
    FILE *fp = f ? fopen(f, "r") : 0;
    Q = malloc(sizeof *Q * 100000);
    U = malloc(sizeof *U * 100000);
    char line[512], kind, name[256], val[128];
    while (fp && fgets(line, sizeof line, fp)) {
        if (sscanf(line, "%c %255s %127s", &kind, name, val) != 3) continue;
        struct ent e = {kind, 0, 0};
        if (kind == 'd' || kind == 'u') e.d = strtod(val, 0);
        else e.l = strtoul(val, 0, 10);
        if (kind == 'i' && val[0] == '-') e.l = (unsigned long)strtol(val, 0, 10);
        if (kind == 'u') U[nu++] = e; else Q[nq++] = e;
    }
    if (fp) fclose(fp);
}
static struct ent next(char kind) {
    load();
    struct ent z = {kind, 0.5, 1};
    if (iq >= nq || Q[iq].kind != kind) { diverged = 1; if (iq < nq) iq++; return z; }
    return Q[iq++];
}
double V_double(const char *n) { return next('d').d; }
double V_binade(int e, const char *n) { return next('d').d; }
double V_reduced(int e, const char *n) { return next('d').d; }
int V_int(const char *n) { return (int)next('i').l; }
unsigned long V_ulong(const char *n) { return next('l').l; }
unsigned long V_count(const char *n) { return next('l').l; }
int V_choose(int lo, int hi, const char *n) { int v = (int)next('i').l; return v < lo ? lo : v > hi ? hi : v; }
int V_param(const char *n, int d) { return (int)next('i').l; }
static double hashv(const char *name, int n, const double *a) {
    unsigned long h = 1469598103934665603UL;
    for (; *name; name++) h = (h ^ (unsigned char)*name) * 1099511628211UL;
    for (int i = 0; i < n; i++) { unsigned long b; memcpy(&b, a + i, 8); h = (h ^ b) * 1099511628211UL; h ^= h >> 29; }
    h *= 0x9E3779B97F4A7C15UL; h ^= h >> 32;
    return (double)(h >> 11) / 9007199254740992.0 * 4 - 2;
}
/* functional consistency: the same (name,args) always yields the same value */
static struct { const char *name; int n; double a[40]; double v; } T[20000];
static int nt;
double V_uf(const char *name, int n, ...) {
    double a[40];
    va_list ap;
    va_start(ap, n);
    for (int i = 0; i < n && i < 40; i++) a[i] = va_arg(ap, double);
    va_end(ap);
    load();
    int seq = iu < nu ? iu++ : -1;
    for (int i = 0; i < nt; i++)
        if (T[i].n == n && !strcmp(T[i].name, name) && !memcmp(T[i].a, a, sizeof(double) * n)) return T[i].v;
    double v = seq >= 0 ? U[seq].d : hashv(name, n, a);
    if (nt < 20000) { T[nt].name = name; T[nt].n = n; memcpy(T[nt].a, a, sizeof(double) * n); T[nt].v = v; nt++; }
    return v;
}
double V_log(double x) { return log(x); }
double V_exp(double x) { return exp(x); }
static void fin(int rc) {
    if (diverged) printf("DIVERGED\n");
    fflush(stdout);
    exit(rc);
}
void V_assume(int c) { if (!c) { printf("ASSUME-FAILED\n"); fin(failed ? 1 : 5); } }
void V_stop(void) { fin(failed ? 1 : 5); }
void V_check(int c, const char *l) { if (!c) { printf("CHECK-FAILED %s\n", l); fflush(stdout); failed = 1; fin(1); } }
void V_check_close(double a, double b, double rt, double at, const char *l) {
    if ((a != a && b != b) || a == b) return;
    if (isfinite(a) && isfinite(b) && fabs(a - b) <= rt * (fabs(a) + fabs(b)) + at) return;
    printf("CHECK-FAILED %s (%.17g vs %.17g)\n", l, a, b);
    fflush(stdout);
    failed = 1;
    fin(1);
}
static void outside(const char *l, double r, double x) {
    printf("CHECK-FAILED %s (%.17g for %.17g)\n", l, r, x);
    fflush(stdout);
    failed = 1;
    fin(1);
}
void V_check_ln(double r, double x, double rt, double at, const char *l) {
    long double w = logl((long double)x);
    if (!(isfinite(r) && fabsl(r - w) <= rt * fabsl(w) + at)) outside(l, r, x);
}
void V_check_exp(double r, double x, double rt, const char *l) {
    long double w = expl((long double)x);
    if (!(isfinite(r) && fabsl(r - w) <= rt * w)) outside(l, r, x);
}
void V_cover(const char *l) { printf("COVER %s\n", l); }
void V_out(const char *n, double v) { printf("OUT %s %.17g\n", n, v); }
int V_symbolic(void) { return 0; }
int V_same(double a, double b) { return (a != a && b != b) || a == b; }
static int live;
static struct { void *p; unsigned long n; } B[100000];
static int nb;
void *V_malloc(unsigned long n) {
    void *p = n > (1UL << 32) ? 0 : malloc(n);
    if (p) { live++; B[nb].p = p; B[nb].n = n; nb++; }
    return p;
}
void V_free(void *p) { if (p) live--; free(p); }
int V_live(void) { return live; }
unsigned long V_objsize(const void *p) { for (int i = nb - 1; i >= 0; i--) if (B[i].p == p) return B[i].n; return 0; }
unsigned long V_concrete(unsigned long v) { return v; }
void V_note(const char *s) { }
void V_ENTRY(void);
int main(void) { V_ENTRY(); printf("DONE\n"); fin(failed); }
