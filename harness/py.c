/* C20: the Python extension module, compiled from its own source against the real CPython headers and run on a small
 * model of the interpreter: objects with reference counts, a pending-exception flag, and a schedule of failing
 * allocations.  The module is driven only through what it registers with the interpreter. */
#include <stdlib.h>
#include <stdarg.h>
#include <string.h>
#include <stddef.h>
#include <limits.h>
#include "v.h"
static int mem_fail; /* the mem_fail-th call to malloc returns null (0: never) */
static int asked_much;
static void *m_malloc(size_t n) {
    if (mem_fail && --mem_fail == 0) return 0;
    if (n > (1ul << 26)) { asked_much = 1; return 0; } /* the machine of the model is small */
    return V_malloc(n);
}
static void m_free(void *p) { V_free(p); }
static void *m_calloc(size_t n, size_t k) { void *p = m_malloc(n * k); if (p) memset(p, 0, n * k); return p; }
static void *m_realloc(void *p, size_t n) {
    void *q = m_malloc(n);
    if (!q) return 0;
    if (p) { unsigned long k = V_objsize(p); memcpy(q, p, k < n ? k : n); m_free(p); }
    return q;
}
#define malloc m_malloc
#define realloc m_realloc
#define calloc m_calloc
#define free m_free
#include PYMOD
#undef malloc
#undef realloc
#undef calloc
#undef free

/* ------------------------------------------------------------------ the interpreter */
/* FLOATLIKE: not a float but convertible (an object with __float__); BIGINT: an int beyond 64 bits; RAISING: an iterable that raises before its end;
 * EVIL: convertible, and its conversion empties the container it came from */
enum { FREE, FLOAT, INT, LIST, TUPLE, ITERABLE, ITERATOR, DICT, BYTES, STR_K, BAD, TYPE, MODULE, EXC, FLOATLIKE, BIGINT, RAISING, EVIL };
#ifdef Py_LIMITED_API
struct _typeobject { PyObject ob; unsigned long flags; };
PyTypeObject PyFloat_Type, PyLong_Type = {.flags = Py_TPFLAGS_LONG_SUBCLASS}, PyBool_Type, PyList_Type = {.flags = Py_TPFLAGS_LIST_SUBCLASS}, PyTuple_Type = {.flags = Py_TPFLAGS_TUPLE_SUBCLASS},
             PyDict_Type = {.flags = Py_TPFLAGS_DICT_SUBCLASS}, PyUnicode_Type = {.flags = Py_TPFLAGS_UNICODE_SUBCLASS}, PyBytes_Type = {.flags = Py_TPFLAGS_BYTES_SUBCLASS}, PyByteArray_Type, other_type;
static PyTypeObject *type_of(int k) {
    return k == FLOAT ? &PyFloat_Type : k == INT || k == BIGINT ? &PyLong_Type : k == LIST ? &PyList_Type : k == TUPLE ? &PyTuple_Type : k == DICT ? &PyDict_Type : k == BYTES ? &PyByteArray_Type : k == STR_K ? &PyUnicode_Type : &other_type;
}
unsigned long PyType_GetFlags(PyTypeObject *t) { return t->flags; }
int PyType_IsSubtype(PyTypeObject *a, PyTypeObject *b) { return a == b; }
#endif
#ifndef MAXN
#define MAXN 12
#define POOL 48
#endif
struct mobj { PyObject ob; int kind; double d; long i; int n; PyObject *item[MAXN]; const char *key[MAXN]; double num[MAXN]; void *ptr; };
static struct mobj pool[POOL];
static int live, err, api_fail, used;
static struct mobj type_obj, module_obj, exc_obj;
PyObject *PyExc_RuntimeError = (PyObject *)&exc_obj, *PyExc_TypeError = (PyObject *)&exc_obj, *PyExc_ValueError = (PyObject *)&exc_obj, *PyExc_MemoryError = (PyObject *)&exc_obj,
         *PyExc_SystemError = (PyObject *)&exc_obj, *PyExc_OverflowError = (PyObject *)&exc_obj, *PyExc_Exception = (PyObject *)&exc_obj, *PyExc_IndexError = (PyObject *)&exc_obj, *PyExc_AttributeError = (PyObject *)&exc_obj;
struct _object _Py_NoneStruct = {{_Py_IMMORTAL_REFCNT}, 0};
#define M(o) ((struct mobj *)(o))

static PyObject *mk(int kind) {
    if (api_fail && --api_fail == 0) { err = 1; return 0; }
    struct mobj *m = &pool[used++];
    V_check(used < POOL, "model: object pool");
    m->ob.ob_refcnt = 1;
    m->ob.ob_type = type_of(kind);
    m->kind = kind;
    m->n = 0;
    live++;
    return (PyObject *)m;
}
static void alive(PyObject *o) {
    V_check(o != 0, "no null object is used");
    if (o != &_Py_NoneStruct) V_check(M(o)->kind != FREE && o->ob_refcnt > 0, "no object is used after it was released");
}
void _Py_Dealloc(PyObject *o) {
    if (M(o)->kind == TYPE || M(o)->kind == MODULE || M(o)->kind == EXC) { V_check(0, "a borrowed object is never released"); return; }
    V_check(M(o)->kind != FREE, "no object is released twice");
    for (int i = 0; i < M(o)->n; i++) { PyObject *c = M(o)->item[i]; if (c) { alive(c); if (c != &_Py_NoneStruct && --c->ob_refcnt == 0) _Py_Dealloc(c); } }
    M(o)->kind = FREE;
    live--;
}
PyObject *PyErr_Occurred(void) { return err ? (PyObject *)&exc_obj : 0; }
void PyErr_SetString(PyObject *e, const char *s) { V_check(s != 0, "an exception has a message"); (void)strlen(s); err = 1; }
void PyErr_SetNone(PyObject *e) { err = 1; }
PyObject *PyErr_Format(PyObject *e, const char *s, ...) { err = 1; return 0; }
void PyErr_Clear(void) { err = 0; }
PyObject *PyErr_NoMemory(void) { err = 1; return 0; }
PyObject *PyFloat_FromDouble(double d) { PyObject *o = mk(FLOAT); if (o) M(o)->d = d; return o; }
PyObject *PyLong_FromLong(long i) { PyObject *o = mk(INT); if (o) M(o)->i = i; return o; }
double PyFloat_AsDouble(PyObject *o) {
    alive(o);
    if (M(o)->kind == FLOAT) return M(o)->d;
    if (M(o)->kind == INT) return (double)M(o)->i;
    if (M(o)->kind == FLOATLIKE || M(o)->kind == BIGINT) return M(o)->d;
    if (M(o)->kind == EVIL) {
        struct mobj *c = M(o)->ptr;
        double d = M(o)->d;
        int n = c->n;
        c->n = 0;
        for (int i = 0; i < n; i++) { PyObject *e = c->item[i]; if (--e->ob_refcnt == 0) _Py_Dealloc(e); }
        return d;
    }
    err = 1;
    return -1.0;
}
long PyLong_AsLong(PyObject *o) { alive(o); if (M(o)->kind == INT) return M(o)->i; err = 1; return -1; }
long long PyLong_AsLongLong(PyObject *o) { return PyLong_AsLong(o); }
Py_ssize_t PyLong_AsSsize_t(PyObject *o) { return PyLong_AsLong(o); }
unsigned long PyLong_AsUnsignedLong(PyObject *o) { alive(o); if (M(o)->kind == INT && M(o)->i >= 0) return (unsigned long)M(o)->i; err = 1; return (unsigned long)-1; }
size_t PyLong_AsSize_t(PyObject *o) { return PyLong_AsUnsignedLong(o); }
double PyLong_AsDouble(PyObject *o) { alive(o); if (M(o)->kind == INT || M(o)->kind == BIGINT) return PyFloat_AsDouble(o); err = 1; return -1.0; }
int PyNumber_Check(PyObject *o) { alive(o); int k = M(o)->kind; return k == FLOAT || k == INT || k == BIGINT || k == FLOATLIKE || k == EVIL; }
int PyIter_Check(PyObject *o) { alive(o); return M(o)->kind == ITERATOR; }
int PyCallable_Check(PyObject *o) { return 0; }
int PyObject_IsTrue(PyObject *o) { alive(o); if (M(o)->kind == FLOAT) return M(o)->d != 0; if (M(o)->kind == INT) return M(o)->i != 0; return 1; }
void PyErr_SetObject(PyObject *e, PyObject *v) { err = 1; }
int PyErr_BadArgument(void) { err = 1; return 0; }
static int seq(PyObject *o) { return M(o)->kind == LIST || M(o)->kind == TUPLE; }
Py_ssize_t PyList_Size(PyObject *o) { alive(o); if (M(o)->kind != LIST) { err = 1; return -1; } return M(o)->n; }
PyObject *PyList_GetItem(PyObject *o, Py_ssize_t i) { alive(o); if (M(o)->kind != LIST || i < 0 || i >= M(o)->n) { err = 1; return 0; } return M(o)->item[i]; }
Py_ssize_t PyTuple_Size(PyObject *o) { alive(o); if (M(o)->kind != TUPLE) { err = 1; return -1; } return M(o)->n; }
PyObject *PyTuple_GetItem(PyObject *o, Py_ssize_t i) { alive(o); if (M(o)->kind != TUPLE || i < 0 || i >= M(o)->n) { err = 1; return 0; } return M(o)->item[i]; }
Py_ssize_t PySequence_Size(PyObject *o) { alive(o); if (!seq(o)) { err = 1; return -1; } return M(o)->n; }
Py_ssize_t PyObject_Size(PyObject *o) { return PySequence_Size(o); }
int PySequence_Check(PyObject *o) { alive(o); return seq(o); }
PyObject *PySequence_GetItem(PyObject *o, Py_ssize_t i) { alive(o); if (!seq(o) || i < 0 || i >= M(o)->n) { err = 1; return 0; } Py_INCREF(M(o)->item[i]); return M(o)->item[i]; }
static PyObject *copy_seq(PyObject *o, int kind) {
    alive(o);
    if (!seq(o) && M(o)->kind != ITERABLE && !(kind == ITERATOR && M(o)->kind == RAISING)) { err = 1; return 0; }
    PyObject *l = mk(kind);
    if (!l) return 0;
    M(l)->n = M(o)->n;
    for (int i = 0; i < M(o)->n; i++) { M(l)->item[i] = M(o)->item[i]; Py_INCREF(M(o)->item[i]); }
    return l;
}
PyObject *PySequence_List(PyObject *o) { return copy_seq(o, LIST); }
PyObject *PySequence_Tuple(PyObject *o) { return copy_seq(o, TUPLE); }
PyObject *PySequence_Fast(PyObject *o, const char *m) { alive(o); if (seq(o)) { Py_INCREF(o); return o; } return copy_seq(o, LIST); }
PyObject *PyObject_GetIter(PyObject *o) { PyObject *r = copy_seq(o, ITERATOR); if (r) { M(r)->i = 0; M(r)->d = M(o)->kind == RAISING; } return r; }
PyObject *PyIter_Next(PyObject *o) { alive(o); if (M(o)->i >= M(o)->n) { if (M(o)->d != 0) err = 1; return 0; } PyObject *r = M(o)->item[M(o)->i++]; Py_INCREF(r); return r; }
PyObject *PyNumber_Float(PyObject *o) { double d = PyFloat_AsDouble(o); if (err) return 0; return PyFloat_FromDouble(d); }
PyObject *PyList_New(Py_ssize_t n) {
    if (n < 0) { err = 1; return 0; }
    PyObject *o = mk(LIST);
    if (!o) return 0;
    V_check(n <= MAXN, "model: list size");
    M(o)->n = (int)n;
    for (int i = 0; i < n; i++) M(o)->item[i] = 0;
    return o;
}
int PyList_SetItem(PyObject *l, Py_ssize_t i, PyObject *v) {
    alive(l);
    if (M(l)->kind != LIST || i < 0 || i >= M(l)->n) { Py_XDECREF(v); err = 1; return -1; }
    PyObject *old = M(l)->item[i];
    M(l)->item[i] = v;
    Py_XDECREF(old);
    return 0;
}
int PyList_Append(PyObject *l, PyObject *v) { alive(l); alive(v); V_check(M(l)->n < MAXN, "model: list size"); M(l)->item[M(l)->n++] = v; Py_INCREF(v); return 0; }
PyObject *PyByteArray_FromStringAndSize(const char *b, Py_ssize_t n) { PyObject *o = mk(BYTES); if (o) { M(o)->ptr = (void *)b; M(o)->i = n; } return o; }
PyObject *PyBytes_FromStringAndSize(const char *b, Py_ssize_t n) { return PyByteArray_FromStringAndSize(b, n); }
void *PyMem_Malloc(size_t n) { return m_malloc(n ? n : 1); }
void *PyMem_RawMalloc(size_t n) { return m_malloc(n ? n : 1); }
void *PyMem_Realloc(void *p, size_t n) { return m_realloc(p, n ? n : 1); }
void *PyObject_Malloc(size_t n) { return m_malloc(n ? n : 1); }
void PyObject_Free(void *p) { V_free(p); }
PyObject *PyTuple_New(Py_ssize_t n) { PyObject *PyList_New(Py_ssize_t); PyObject *o = PyList_New(n); if (o) { M(o)->kind = TUPLE; M(o)->ob.ob_type = type_of(TUPLE); } return o; }
PyObject *PyLong_FromDouble(double d) { if (d != d || d > 1e18 || d < -1e18) { err = 1; return 0; } PyObject *PyLong_FromLong(long); return PyLong_FromLong((long)d); }
PyObject *PyLong_FromLongLong(long long i) { PyObject *PyLong_FromLong(long); return PyLong_FromLong(i); }
PyObject *PyLong_FromUnsignedLongLong(unsigned long long i) { PyObject *PyLong_FromLong(long); return PyLong_FromLong((long)i); }
PyObject *PyBool_FromLong(long i) { PyObject *PyLong_FromLong(long); return PyLong_FromLong(i != 0); }
PyObject *PyUnicode_FromString(const char *s) { PyObject *o = mk(STR_K); if (o) M(o)->ptr = (void *)s; return o; }
void *PyMem_Calloc(size_t n, size_t k) { return m_calloc(n ? n : 1, k ? k : 1); }
PyObject *PyLong_FromUnsignedLong(unsigned long i) { return PyLong_FromLong((long)i); }
PyObject *PyLong_FromSize_t(size_t i) { return PyLong_FromLong((long)i); }
PyObject *PyLong_FromSsize_t(Py_ssize_t i) { return PyLong_FromLong(i); }
void Py_IncRef(PyObject *o) { Py_XINCREF(o); }
void Py_DecRef(PyObject *o) { Py_XDECREF(o); }
int PyErr_ExceptionMatches(PyObject *e) { return err; }
void PyMem_Free(void *p) { V_free(p); }
void PyMem_RawFree(void *p) { V_free(p); }
PyObject *PyDict_New(void) { return mk(DICT); }
int PyDict_SetItemString(PyObject *d, const char *k, PyObject *v) {
    alive(d);
    alive(v);
    int n = M(d)->n;
    M(d)->key[n] = k;
    M(d)->item[n] = v;
    M(d)->num[n] = M(v)->kind == FLOAT ? M(v)->d : (double)M(v)->i;
    Py_INCREF(v);
    M(d)->n = n + 1;
    return 0;
}
/* only dictionaries with string keys: "{sXsX...}" */
PyObject *Py_BuildValue(const char *f, ...) {
    va_list ap;
    va_start(ap, f);
    if (f[0] != '{') { /* a single value */
        PyObject *r = 0;
        V_check(f[0] && !f[1], "model: one value or a dictionary");
        char c = f[0];
        if (c == 'd') r = PyFloat_FromDouble(va_arg(ap, double));
        else if (c == 'i') r = PyLong_FromLong(va_arg(ap, int));
        else if (c == 'k' || c == 'K') r = PyLong_FromUnsignedLong(va_arg(ap, unsigned long));
        else if (c == 'l' || c == 'L' || c == 'n') r = PyLong_FromLong(va_arg(ap, long));
        else if (c == 'N' || c == 'O') { r = va_arg(ap, PyObject *); if (!r) err = 1; else if (c == 'O') Py_INCREF(r); }
        else V_check(0, "model: format unit");
        va_end(ap);
        return r;
    }
    PyObject *d = mk(DICT);
    int n = 0, bad = !d;
    const char *k = 0;
    for (f++; *f && *f != '}';) {
        V_check(*f == 's', "model: string keys only");
        k = va_arg(ap, const char *);
        f++;
        double num = 0;
        PyObject *o = 0;
        char c = *f++;
        if (c == 'd') num = va_arg(ap, double);
        else if (c == 'i') num = (double)va_arg(ap, int);
        else if (c == 'I') num = (double)va_arg(ap, unsigned);
        else if (c == 'k' || c == 'K') num = (double)va_arg(ap, unsigned long);
        else if (c == 'l' || c == 'L' || c == 'n') num = (double)va_arg(ap, long);
        else if (c == 'N' || c == 'O') {
            o = va_arg(ap, PyObject *);
            if (!o) { err = 1; bad = 1; }
            else { alive(o); if (c == 'O') Py_INCREF(o); if (bad) Py_DECREF(o); }
        } else V_check(0, "model: format unit");
        if (!bad) { M(d)->key[n] = k; M(d)->num[n] = num; M(d)->item[n] = o; M(d)->n = ++n; }
    }
    va_end(ap);
    if (bad) { if (d) { M(d)->kind = DICT; Py_DECREF(d); } return 0; }
    return d;
}
/* constructor arguments */
static int given[5], parse_fails;
static double a_q, a_level;
static int a_low, a_discard;
static unsigned long a_max;
static int same(const char *a, const char *b) { while (*a && *a == *b) { a++; b++; } return *a == *b; }
static int which(const char *n) { return same(n, "q") ? 0 : same(n, "low") ? 1 : same(n, "discard_anomalies") ? 2 : same(n, "level") ? 3 : same(n, "max_excess") ? 4 : -1; }
int PyArg_ParseTupleAndKeywords(PyObject *a, PyObject *kw, const char *f, char **names, ...) {
    va_list ap;
    va_start(ap, names);
    int i = 0, opt = 0;
    for (; *f; f++) {
        if (*f == '|') { opt = 1; continue; }
        if (*f == '$') continue;
        if (*f == ':' || *f == ';') break;
        void *p = va_arg(ap, void *);
        int w = names[i] ? which(names[i]) : -1;
        V_check(w >= 0, "the documented argument names");
        i++;
        if (parse_fails == i) { err = 1; va_end(ap); return 0; }
        if (!given[w]) {
            V_check(opt || w == 0, "only q is mandatory");
            if (!opt) { err = 1; va_end(ap); return 0; }
            continue;
        }
        double dv = w == 0 ? a_q : a_level;
        int isd = w == 0 || w == 3, flag = w == 1 ? a_low : a_discard;
        char c = *f;
        if (c == 'd' || c == 'f') {
            double v = isd ? dv : w == 4 ? (double)a_max : (double)flag;
            if (c == 'd') *(double *)p = v; else *(float *)p = (float)v;
        } else if (c == 'p') *(int *)p = isd ? dv != 0 : w == 4 ? a_max != 0 : flag != 0;
        else if (isd) { err = 1; va_end(ap); return 0; } /* a float is no int */
        else if (c == 'k' || c == 'K') *(unsigned long *)p = w == 4 ? a_max : (unsigned long)(long)flag;
        else if (c == 'I') *(unsigned *)p = w == 4 ? (unsigned)a_max : (unsigned)flag; /* no overflow check, as documented */
        else if (c == 'l' || c == 'L' || c == 'n') {
            if (w == 4 && a_max > (unsigned long)LONG_MAX) { err = 1; va_end(ap); return 0; }
            *(long *)p = w == 4 ? (long)a_max : (long)flag;
        } else if (c == 'i') {
            if (w == 4 && a_max > INT_MAX) { err = 1; va_end(ap); return 0; }
            *(int *)p = w == 4 ? (int)a_max : flag;
        } else V_check(0, "model: format unit");
    }
    V_check(i == 5, "five arguments");
    va_end(ap);
    return 1;
}
/* types and modules */
static PyType_Spec *spec;
static int c_normal = -1, c_excess = -1, c_anomaly = -1, c_version, c_spot;
static void tp_free(void *o) { V_free(o); }
PyObject *PyType_FromSpec(PyType_Spec *s) { spec = s; type_obj.kind = TYPE; type_obj.ob.ob_refcnt = 1; return (PyObject *)&type_obj; }
int PyType_Ready(PyTypeObject *t) { return 0; }
static void *slot(int id) { void *r = 0; for (PyType_Slot *s = spec->slots; s->slot; s++) if (s->slot == id) r = s->pfunc; return r; }
void *PyType_GetSlot(PyTypeObject *t, int id) { V_check((void *)t == (void *)&type_obj, "the type of the object"); return id == Py_tp_free ? (void *)tp_free : slot(id); }
PyObject *PyModule_Create2(PyModuleDef *d, int v) { module_obj.kind = MODULE; module_obj.ob.ob_refcnt = 1; return (PyObject *)&module_obj; }
int PyModule_AddStringConstant(PyObject *m, const char *n, const char *v) { if (same(n, "__version__") && same(v, VERSION)) c_version = 1; return 0; }
int PyModule_AddIntConstant(PyObject *m, const char *n, long v) { if (same(n, "NORMAL")) c_normal = (int)v; if (same(n, "EXCESS")) c_excess = (int)v; if (same(n, "ANOMALY")) c_anomaly = (int)v; return 0; }
int PyModule_AddObject(PyObject *m, const char *n, PyObject *o) { if (same(n, "Spot") && o == (PyObject *)&type_obj) c_spot = 1; return 0; }
int PyModule_AddType(PyObject *m, PyTypeObject *t) { if ((PyObject *)t == (PyObject *)&type_obj) { c_spot = 1; Py_INCREF(t); } return 0; }
int PyModule_AddObjectRef(PyObject *m, const char *n, PyObject *o) { Py_INCREF(o); return PyModule_AddObject(m, n, o); }

/* ------------------------------------------------------------------ driving the module */
static PyCFunction method(const char *n) {
    for (PyMethodDef *m = slot(Py_tp_methods); m->ml_name; m++) if (same(m->ml_name, n)) return m->ml_meth;
    V_check(0, "the documented methods exist");
    return 0;
}
static PyMemberDef *member(const char *n) {
    PyMemberDef *m = slot(Py_tp_members);
    if (m) for (; m->name; m++) if (same(m->name, n)) return m;
    return 0;
}
static PyObject *self;
static struct Spot *sp(void) { PyMemberDef *m = member("q"); return (struct Spot *)((char *)self + (m ? (unsigned long)m->offset - offsetof(struct Spot, q) : (unsigned long)spec->basicsize - sizeof(struct Spot))); }
/* attribute of the object: a described member or a computed one */
static double attr(const char *n) {
    PyMemberDef *m = member(n);
    if (m) {
        void *p = (char *)self + m->offset;
        V_check(m->flags & READONLY, "attributes are read-only");
        switch (m->type) {
        case T_DOUBLE: return *(double *)p;
        case T_FLOAT: return *(float *)p;
        case T_INT: return *(int *)p;
        case T_UINT: return *(unsigned *)p;
        case T_BOOL: return *(char *)p;
        case T_LONG: case T_LONGLONG: case T_PYSSIZET: return (double)*(long *)p;
        case T_ULONG: case T_ULONGLONG: return (double)*(unsigned long *)p;
        default: V_check(0, "model: type of member");
        }
    }
    PyGetSetDef *g = slot(Py_tp_getset);
    if (g) for (; g->name; g++) if (same(g->name, n)) {
        V_check(g->set == 0, "attributes are read-only");
        PyObject *r = g->get(self, g->closure);
        V_check(r && !err, "attributes can be read");
        double v = M(r)->kind == FLOAT ? M(r)->d : (double)M(r)->i;
        Py_DECREF(r);
        return v;
    }
    V_check(0, "the documented attributes exist");
    return 0;
}
static void start(void) {
    PyObject *m = PyInit_libspot();
    V_check(m != 0 && !err, "the module loads");
    self = V_malloc((unsigned long)spec->basicsize);
    memset(self, 0, (unsigned long)spec->basicsize);
    self->ob_refcnt = 1;
    self->ob_type = (PyTypeObject *)&type_obj;
    Py_INCREF(&type_obj);
}
static int init(void) { err = 0; return ((initproc)slot(Py_tp_init))(self, 0, 0); }
static void init_default(unsigned long cap) {
    given[0] = given[4] = 1;
    given[1] = given[2] = given[3] = 0;
    a_q = 1e-3;
    a_max = cap;
    V_check(init() == 0 && !err, "the constructor accepts valid arguments");
}
static void finish(PyObject *r, int before) {
    V_check((r == 0) == (err != 0), "a result without exception or an exception without result");
    if (r) {
        alive(r);
        Py_DECREF(r);
        V_cover("result");
    } else V_cover("exception");
    V_check(live == before, "no reference is leaked");
    for (int i = 0; i < used; i++) if (pool[i].kind != FREE) V_check(pool[i].ob.ob_refcnt == 1, "arguments keep their reference count");
}
static void over(void) {
    int refs = (int)type_obj.ob.ob_refcnt;
    err = 0;
    ((destructor)slot(Py_tp_dealloc))(self);
    V_check(V_live() == 0, "everything is released with the object");
    V_check(type_obj.ob.ob_refcnt == refs - 1, "the object gives its reference to its type back");
}

void h_module(void) {
    start();
    V_check(c_normal == 0 && c_excess == 1 && c_anomaly == 2, "module constants");
    V_check(c_version && c_spot, "version and class are exported");
    V_check(type_obj.ob.ob_refcnt >= 2, "the module owns a reference to the class");
    init_default(3);
    over();
    V_cover("module");
}
void h_init(void) {
    start();
    int omit = V_choose(0, 15, "omitted");
    given[0] = 1;
    for (int i = 0; i < 4; i++) given[i + 1] = !(omit >> i & 1);
    a_q = V_double("q");
    a_level = V_double("level");
    a_low = V_int("low");
    a_discard = V_int("discard");
    static const unsigned long sizes[] = {0, 1, 2, 3, 1ul << 31, (1ul << 32) + 2, (1ul << 40) + 1, (1ul << 61) + 2, ~0ul}; /* the last ones: more than the machine has */
    a_max = sizes[V_choose(0, given[4] ? 8 : 0, "max_excess")];
    asked_much = 0;
    mem_fail = V_choose(0, 1, "mem_fail");
    int failing = mem_fail, r = init();
    V_check((r < 0) == (err != 0), "a failed construction raises an exception");
    V_check(r >= 0 || r == -1 || r <= -1000, "failure code");
    double lv = given[3] ? a_level : 0.98;
    unsigned long mx = given[4] ? a_max : 500;
    int low = given[1] ? a_low != 0 : 0, dis = given[2] ? a_discard != 0 : 1;
    if (r >= 0) {
        struct Spot *s = sp();
        V_check(V_same(s->q, a_q) && V_same(s->level, lv), "q and level reach the detector");
        V_check(s->low == low && s->discard_anomalies == dis, "flags reach the detector");
        V_check(s->tail.peaks.container.capacity == mx, "the number of excesses reaches the detector");
        V_cover("created");
    } else {
        V_check(failing || !(lv >= 0 && lv < 1) || !(a_q > 0 && a_q < 1 - lv) || mx == 0 || mx > (1ul << 23) || a_q > (1 - lv) - 1e-9, "valid arguments are accepted");
        V_cover("refused");
    }
    mem_fail = 0;
    over();
}
void h_valid(void) {
    start();
    given[0] = given[3] = given[4] = 1;
    given[1] = given[2] = 0;
    a_q = V_double("q");
    a_level = V_double("level");
    a_max = 2;
    V_assume(a_level >= 0 && a_level < 1);
    V_assume(a_q > 0 && a_q < 1. - a_level);
    V_check(init() == 0 && !err, "valid arguments are accepted");
    V_cover("valid");
    over();
}
void h_parse(void) {
    start();
    given[0] = given[1] = given[2] = given[3] = given[4] = 1;
    a_q = 1e-3;
    a_level = 0.9;
    a_max = 2;
    parse_fails = V_choose(1, 5, "bad_argument");
    int r = init();
    V_check(r < 0 && err, "an argument of the wrong type raises an exception");
    V_cover("wrong type");
    over();
}
/* initialised again: the first storage is released, a failure leaves the object usable or unusable but never broken */
double stub__mom_estimator(struct Peaks const *p, double *g, double *s) { *g = V_double("g"); *s = V_double("s"); return V_double("l"); }
double stub__grimshaw_estimator(struct Peaks const *p, double *g, double *s) { *g = V_double("g"); *s = V_double("s"); return V_double("l"); }
static PyObject *num(double d) { int f = api_fail; api_fail = 0; PyObject *o = PyFloat_FromDouble(d); api_fail = f; return o; }
void h_again(void) {
    start();
    init_default(2);
    int n = V_choose(1, 2, "inits");
    api_fail = 0;
    for (int i = 0; i < n; i++) {
        int ok = V_choose(0, 2, "outcome"); /* valid, bad q, allocation failure */
        a_q = ok == 1 ? 7.0 : 1e-4;
        a_max = 1;
        mem_fail = ok == 2;
        int r = init();
        mem_fail = 0;
        V_check((r == 0) == (ok == 0) && (r < 0) == (err != 0), "repeated construction");
    }
    err = 0;
    struct Spot *s = sp();
    PyObject *x = num(V_double("x"));
    int before = live;
    finish(method("step")(self, x), before);
    err = 0;
    finish(method("excesses")(self, 0), before);
    V_cover("again");
    over();
}
/* an object whose constructor never ran */
void h_raw(void) {
    static const char *const names[] = {"fit", "step", "quantile", "probability", "raw", "excesses", "as_dict"};
    start();
    int w = V_choose(0, 6, "method");
    PyObject *x = num(V_double("x")), *arg = x;
    if (w == 0) { arg = mk(LIST); M(arg)->n = 1; M(arg)->item[0] = x; }
    int before = live;
    finish(method(names[w])(self, arg), before);
    V_cover("not constructed");
    over();
}
/* the detector's operations themselves are the subject of the other properties */
static int code, calls, size_seen;
static double seen[MAXN], answer, argument;
static struct Spot const *target;
int stub__spot_fit(struct Spot *s, double const *d, unsigned long n) { calls++; target = s; size_seen = (int)n; for (unsigned long i = 0; i < n; i++) seen[i] = d[i]; return code; }
int stub__spot_step(struct Spot *s, double x) { calls++; target = s; argument = x; return code; }
double stub__spot_quantile(struct Spot const *s, double x) { calls++; target = s; argument = x; return answer; }
double stub__spot_probability(struct Spot const *s, double x) { calls++; target = s; argument = x; return answer; }
static PyObject *element(const char *what, double *v) {
    int f = api_fail;
    api_fail = 0;
    PyObject *o;
    int k = what ? V_choose(0, 4, what) : 0;
    if (k == 0) { o = mk(FLOAT); M(o)->d = *v = what ? V_double("v") : 0.5 * (double)used; }
    else if (k == 1) { o = mk(INT); M(o)->i = 3; *v = 3.0; }
    else if (k == 2) { o = mk(BAD); *v = 0; }
    else if (k == 3) { o = mk(FLOATLIKE); M(o)->d = *v = V_double("v"); }
    else { o = mk(BIGINT); M(o)->d = *v = 1e30; }
    api_fail = f;
    return o;
}
void h_fit(void) {
    static const int kinds[] = {LIST, TUPLE, ITERABLE, BAD, RAISING};
    start();
    init_default(2);
    int big = V_param("big", 0); /* a long container: one element of any kind, the others fixed floats */
    int n = V_choose(0, V_param("n", 3), "n"), odd = big ? (n - 1) * V_choose(0, 2, "odd") / 2 : 0, kind = V_choose(0, 4, "container"), bad = kind >= 3;
    PyObject *arg = mk(kinds[kind]);
    double v[MAXN];
    M(arg)->n = n;
    for (int i = 0; i < n; i++) { M(arg)->item[i] = element(!big || i == odd ? "element" : 0, &v[i]); bad |= M(M(arg)->item[i])->kind == BAD; }
    static const int codes[] = {0, -1003, -1004};
    code = codes[V_choose(0, 2, "code")];
    calls = 0;
    mem_fail = V_choose(0, 1, "mem_fail");
    api_fail = V_choose(0, 2, "api_fail");
    int failing = mem_fail || api_fail, before = live, heap = V_live();
    PyObject *r = method("fit")(self, arg);
    api_fail = mem_fail = 0;
    V_check(V_live() == heap, "no buffer is leaked");
    if (calls) {
        V_check(calls == 1 && target == sp(), "the detector of the object is fitted, once");
        V_check(!bad, "unusable data do not reach the detector");
        V_check(size_seen == n, "all the values reach the detector");
        for (int i = 0; i < n; i++) V_check(V_same(seen[i], v[i]), "the values reach the detector in order");
        V_check((r == 0) == (code < 0), "an error of the detector raises an exception");
        V_cover("fitted");
    } else V_check(r == 0 && (bad || failing), "data are refused for a reason");
    if (r) V_check(r == &_Py_NoneStruct, "fit returns None");
    finish(r, before);
    over();
}
/* converting the first element empties the list given */
void h_mutating(void) {
    start();
    init_default(2);
    int n = V_choose(1, V_param("n", 3), "n"), at = V_choose(0, n - 1, "at");
    PyObject *arg = mk(LIST);
    M(arg)->n = n;
    for (int i = 0; i < n; i++) {
        PyObject *o = mk(i == at ? EVIL : FLOAT);
        M(o)->d = V_double("v");
        M(o)->ptr = arg;
        M(arg)->item[i] = o;
    }
    int heap = V_live();
    PyObject *r = method("fit")(self, arg);
    V_check((r == 0) == (err != 0), "a result without exception or an exception without result");
    V_check(V_live() == heap, "no buffer is leaked");
    V_check(live == 1 && M(arg)->ob.ob_refcnt == 1, "no reference is leaked");
    V_cover("mutated");
    over();
}
void h_call(void) {
    static const char *const names[] = {"step", "quantile", "probability"};
    static const int codes[] = {0, 1, 2, -1005};
    start();
    init_default(2);
    int w = V_choose(0, 2, "method");
    double v;
    PyObject *arg = element("argument", &v);
    int bad = M(arg)->kind == BAD;
    code = codes[w == 0 ? V_choose(0, 3, "code") : 0];
    answer = V_double("answer");
    calls = 0;
    api_fail = V_choose(0, 1, "api_fail");
    int failing = api_fail, before = live;
    PyObject *r = method(names[w])(self, arg);
    api_fail = 0;
    V_check(calls == !bad, "the detector is called once, with usable arguments only");
    if (calls) {
        V_check(target == sp() && V_same(argument, v), "the argument reaches the detector unchanged");
        V_check((r == 0) == failing, "a result unless the allocation fails");
        if (r && w == 0) V_check(M(r)->kind == INT && M(r)->i == code, "the code of the step is returned");
        if (r && w) V_check(M(r)->kind == FLOAT && V_same(M(r)->d, answer), "the value of the detector is returned");
        V_cover(names[w]);
    }
    finish(r, before);
    over();
}
static double entry(PyObject *d, const char *k) {
    V_check(d && M(d)->kind == DICT, "a dictionary");
    for (int i = 0; i < M(d)->n; i++) if (same(M(d)->key[i], k)) return M(d)->num[i];
    V_check(0, "all the fields are in the dictionary");
    return 0;
}
static PyObject *sub(PyObject *d, const char *k) {
    V_check(d && M(d)->kind == DICT, "a dictionary");
    for (int i = 0; i < M(d)->n; i++) if (same(M(d)->key[i], k)) return M(d)->item[i];
    V_check(0, "all the fields are in the dictionary");
    return 0;
}
static unsigned long fill(unsigned long cap, double *v) {
    struct Spot *s = sp();
    int pushed = V_choose(0, 2 * (int)cap - 1, "pushed");
    unsigned long k = (unsigned long)pushed < cap ? (unsigned long)pushed : cap;
    s->tail.peaks.container.cursor = (unsigned long)pushed % cap;
    s->tail.peaks.container.filled = (unsigned long)pushed >= cap;
    for (unsigned long i = 0; i < k; i++) s->tail.peaks.container.data[i] = v[i] = V_double("stored");
    s->q = V_double("q"); s->level = V_double("level"); s->anomaly_threshold = V_double("z"); s->excess_threshold = V_double("t");
    s->n = (1ul << 40) + 41; s->Nt = (1ul << 33) + 17; s->tail.peaks.container.last_erased_data = V_double("erased"); s->tail.gamma = V_double("gamma"); s->tail.sigma = V_double("sigma");
    s->tail.peaks.e = V_double("e"); s->tail.peaks.e2 = V_double("e2"); s->tail.peaks.min = V_double("min"); s->tail.peaks.max = V_double("max");
    return k;
}
static void check_list(PyObject *l, double const *v, unsigned long k) {
    V_check(l && M(l)->kind == LIST && M(l)->n == (int)k, "as many values as stored excesses");
    for (unsigned long i = 0; i < k; i++) { alive(M(l)->item[i]); V_check(M(M(l)->item[i])->kind == FLOAT && V_same(M(M(l)->item[i])->d, v[i]), "the stored excesses are returned"); }
}
void h_read(void) {
    static const char *const names[] = {"excesses", "as_dict", "raw"};
    start();
    unsigned long cap = (unsigned long)V_param("cap", 2);
    init_default(cap);
    double v[MAXN];
    unsigned long k = fill(cap, v);
    int w = V_choose(0, 2, "method");
    api_fail = V_choose(0, 8, "api_fail");
    int before = live, failing = api_fail;
    PyObject *r = method(names[w])(self, 0);
    V_check(r || failing, "a result unless an allocation fails");
    api_fail = 0;
    if (r) {
        struct Spot *s = sp();
        if (w == 0) check_list(r, v, k);
        if (w == 1) {
            V_check(V_same(entry(r, "q"), s->q) && V_same(entry(r, "level"), s->level) && entry(r, "low") == s->low && entry(r, "discard_anomalies") == s->discard_anomalies &&
                    V_same(entry(r, "anomaly_threshold"), s->anomaly_threshold) && V_same(entry(r, "excess_threshold"), s->excess_threshold) && entry(r, "Nt") == (double)s->Nt && entry(r, "n") == (double)s->n, "fields of the detector");
            PyObject *t = sub(r, "tail"), *p = sub(t, "peaks"), *c = sub(p, "container");
            V_check(V_same(entry(t, "gamma"), s->tail.gamma) && V_same(entry(t, "sigma"), s->tail.sigma), "fields of the tail");
            V_check(V_same(entry(p, "e"), s->tail.peaks.e) && V_same(entry(p, "e2"), s->tail.peaks.e2) && V_same(entry(p, "min"), s->tail.peaks.min) && V_same(entry(p, "max"), s->tail.peaks.max), "fields of the peaks");
            V_check(entry(c, "cursor") == s->tail.peaks.container.cursor && entry(c, "capacity") == cap && V_same(entry(c, "last_erased_data"), s->tail.peaks.container.last_erased_data) && (entry(c, "filled") != 0) == (s->tail.peaks.container.filled != 0), "fields of the container");
            check_list(sub(c, "data"), v, k);
        }
        if (w == 2) V_check(M(r)->ptr == (void *)sp() && M(r)->i == sizeof(struct Spot), "the bytes of the structure");
        V_cover(names[w]);
    }
    finish(r, before);
    over();
}
void h_members(void) {
    start();
    init_default(2);
    double v[MAXN];
    fill(2, v);
    struct Spot *s = sp();
    static const char *const names[] = {"q", "level", "anomaly_threshold", "excess_threshold", "gamma", "sigma"};
    const double want[] = {s->q, s->level, s->anomaly_threshold, s->excess_threshold, s->tail.gamma, s->tail.sigma};
    for (int i = 0; i < 6; i++) V_check(V_same(attr(names[i]), want[i]), "attributes show the fields of the detector");
    V_check(attr("n") == (double)s->n && attr("Nt") == (double)s->Nt, "attributes show the fields of the detector");
    V_cover("members");
    over();
}
