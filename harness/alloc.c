/* C17: the user's allocator */
#include "model.h"
struct alloc { int nalloc, nfree; unsigned long asked; void *block, *freed; };
static struct alloc A[3];
static int fail;
static void *do_m(struct alloc *a, unsigned long n) { a->nalloc++; a->asked = n; a->block = fail ? 0 : V_malloc(n); return a->block; }
static void do_f(struct alloc *a, void *p) { if (p) { a->nfree++; a->freed = p; } V_free(p); }
static void *m0(unsigned long n) { return do_m(&A[0], n); }
static void *m1(unsigned long n) { return do_m(&A[1], n); }
static void f0(void *p) { do_f(&A[0], p); }
static void f1(void *p) { do_f(&A[1], p); }
static void use(int k) { if (k == 0) set_allocators(m0, f0); else set_allocators(m1, f1); }

double stub__p2_quantile(double p, double const *d, unsigned long n) { return V_double("et"); }
static void some_ops(struct Spot *s, int ops) {
    double data[8];
    for (int o = 0; o < ops; o++) {
        int before = A[0].nalloc + A[1].nalloc, fb = A[0].nfree + A[1].nfree;
        switch (V_choose(0, 4, "op")) {
        case 0: spot_step(s, V_double("x")); break;
        case 1: {
            int n = V_choose(0, 2, "size");
            for (int i = 0; i < n; i++) data[i] = V_double("d");
            spot_fit(s, data, (unsigned long)n);
            break;
        }
        case 2: spot_quantile(s, V_double("q")); break;
        case 3: spot_probability(s, V_double("z")); break;
        case 4: { char b[8]; libspot_version(b, 8); libspot_error(ERR_DATA_IS_NAN, b, 8); tail_fit(&s->tail); break; }
        }
        V_check(A[0].nalloc + A[1].nalloc == before, "only initialisation allocates");
        V_check(A[0].nfree + A[1].nfree == fb, "only releasing frees");
    }
}

/* one detector: configured / failing / not configured allocator, allocator replaced in between */
void h_one(void) {
    struct Spot s;
    int cap = V_choose(1, 4, "cap"), conf = V_choose(0, 2, "configured"), ops = V_param("ops", 1);
    fail = V_choose(0, 1, "fails");
    int sw = V_choose(0, 1, "switch");
    if (conf == 1) use(0);
    if (conf == 2) { use(1); use(0); } /* the last one counts */
    int r = spot_init(&s, 1e-3, V_choose(0, 1, "low"), V_choose(0, 1, "discard"), 0.9, (unsigned long)cap);
    V_check(A[1].nalloc == 0, "only the configured allocator is used");
    if (!conf || fail) {
        V_check(r == -ERR_MEMORY_ALLOCATION_FAILED, "allocation failure is reported");
        V_check(V_live() == 0, "nothing leaked on failure");
        if (sw) use(1);
        spot_free(&s);
        V_check(A[0].nfree == 0 && A[1].nfree == 0 && V_live() == 0, "freeing after a failure is harmless");
        V_cover("failure");
        return;
    }
    V_check(r == 0, "initialisation succeeds");
    V_check(A[0].nalloc == 1 && V_live() == 1, "exactly one allocation");
    V_check(A[0].asked >= (unsigned long)cap * sizeof(double), "enough bytes for the configured number of excesses");
    s.excess_threshold = V_double("t");
    s.anomaly_threshold = V_double("z");
    if (sw) use(1);
    some_ops(&s, ops);
    spot_free(&s);
    struct alloc *fr = sw ? &A[1] : &A[0], *ot = sw ? &A[0] : &A[1];
    V_check(fr->nfree == 1 && ot->nfree == 0, "the block is returned once to the configured deallocator");
    V_check(fr->freed == A[0].block, "the block returned is the one obtained");
    V_check(V_live() == 0, "nothing leaked");
    V_cover("released");
}
/* refused parameters: nothing is requested */
void h_refused(void) {
    struct Spot s;
    use(0);
    int which = V_choose(0, 3, "which");
    double q = which == 0 ? 0.0 : which == 1 ? V_NAN : 0.01, level = which == 2 ? 1.0 : which == 3 ? V_NAN : 0.9;
    int r = spot_init(&s, q, 0, 1, level, 3);
    V_check(r < 0 && A[0].nalloc == 0 && V_live() == 0, "refused parameters request no memory");
    V_cover("refused");
}
/* two detectors, every order of release */
void h_two(void) {
    struct Spot s[2];
    use(0);
    fail = 0;
    int c0 = V_choose(1, 3, "c0"), c1 = V_choose(1, 3, "c1");
    V_assume(spot_init(&s[0], 1e-3, 0, 1, 0.9, (unsigned long)c0) == 0);
    void *b0 = A[0].block;
    int f2 = V_choose(0, 1, "second_fails");
    fail = f2;
    int r = spot_init(&s[1], 1e-3, 1, 0, 0.9, (unsigned long)c1);
    void *b1 = A[0].block;
    V_check((r < 0) == f2, "the second initialisation reports its own outcome");
    for (int i = 0; i < 2; i++) { s[i].excess_threshold = V_double("t"); s[i].anomaly_threshold = V_double("z"); }
    int o = V_choose(0, 1, "order");
    if (!f2) spot_step(&s[!o], V_double("x"));
    spot_free(&s[o]);
    V_check(V_live() == (o == 1 && f2 ? 1 : f2 ? 0 : 1), "only the released detector's block is returned");
    if (!(o == 1 && f2)) V_check(A[0].freed == (o ? b1 : b0), "the block returned is the detector's own");
    if (o == 1 && f2) spot_step(&s[0], V_double("x"));
    spot_free(&s[!o]);
    V_check(V_live() == 0 && A[0].nfree == (f2 ? 1 : 2), "every block is returned once");
    V_cover("both released");
}
/* the size of the request, for every capacity (the request is recorded and refused), then a few large ones granted */
void h_size(void) {
    struct Spot s;
    use(0);
    int large = V_choose(0, 4, "large");
    static const unsigned long caps[] = {0, 200, 1025, 5000, 70000};
    fail = large == 0;
    unsigned long cap = large ? caps[large] : V_ulong("capacity");
    int r = spot_init(&s, 1e-3, V_choose(0, 1, "low"), 1, 0.9, cap);
    if (large) V_check(r == 0 && A[0].nalloc == 1, "exactly one allocation");
    else V_check(r < 0, "allocation failure is reported");
    if (A[0].nalloc) V_check(A[0].asked / sizeof(double) >= cap, "enough bytes for the configured number of excesses");
    else V_check(cap == 0 || cap > ~0UL / sizeof(double), "a capacity that fits in memory is requested");
    spot_free(&s);
    V_check(V_live() == 0 && A[0].nfree == (large != 0), "nothing leaked");
    V_cover("sized");
}
