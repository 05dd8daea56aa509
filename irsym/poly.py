"""Multivariate polynomials / rational functions over the rationals: the term algebra in which the executor
represents doubles in 'real' mode.  Denominators are kept as factor lists known (from the path condition) to be > 0,
so every comparison becomes a polynomial sign condition that z3 decides."""
from fractions import Fraction as F


class Poly:
    __slots__ = ("d", "_h", "_z", "_v")

    def __init__(s, d):
        s.d, s._h, s._z, s._v = d, None, None, None

    def __hash__(s):
        if s._h is None:
            s._h = hash(frozenset(s.d.items()))
        return s._h

    def __eq__(s, o):
        return s.d == o.d

    def const(s):
        if not s.d:
            return F(0)
        if len(s.d) == 1 and () in s.d:
            return s.d[()]
        return None

    def vars(s):
        if s._v is None:
            s._v = frozenset(a for m in s.d for a in m)
        return s._v

    def deg(s):
        return max((len(m) for m in s.d), default=0)

    def nterms(s):
        return len(s.d)


def pconst(c):
    c = F(c)
    return Poly({(): c} if c else {})


def pvar(i):
    return Poly({(i,): F(1)})


ONE, ZERO = pconst(1), pconst(0)


def padd(a, b):
    if len(a.d) < len(b.d):
        a, b = b, a
    d = dict(a.d)
    for m, c in b.d.items():
        n = d.get(m, 0) + c
        if n:
            d[m] = n
        else:
            d.pop(m, None)
    return Poly(d)


def pscale(a, c):
    if c == 1:
        return a
    if not c:
        return ZERO
    return Poly({m: k * c for m, k in a.d.items()})


def psub(a, b):
    return padd(a, pscale(b, F(-1)))


def pmul(a, b):
    ca, cb = a.const(), b.const()
    if ca is not None:
        return pscale(b, ca)
    if cb is not None:
        return pscale(a, cb)
    d = {}
    for m, c in a.d.items():
        for n, k in b.d.items():
            mm = tuple(sorted(m + n)) if m and n else (m or n)
            v = d.get(mm, 0) + c * k
            if v:
                d[mm] = v
            else:
                del d[mm]
    return Poly(d)


def ppow(a, e):
    r = ONE
    for _ in range(e):
        r = pmul(r, a)
    return r


def _mono_div(m, n):
    """monomial m / n, or None"""
    out, i, j = [], 0, 0
    while j < len(n):
        while i < len(m) and m[i] < n[j]:
            out.append(m[i])
            i += 1
        if i >= len(m) or m[i] != n[j]:
            return None
        i += 1
        j += 1
    return tuple(out) + m[i:]


def _lexkey(m):
    # a monomial order: total degree, then a fixed tie-break that is multiplicative (exponent vectors)
    return (len(m), m)


def pdivexact(a, b):
    """a / b when b divides a exactly, else None."""
    if not a.d:
        return a
    cb = b.const()
    if cb is not None:
        return pscale(a, 1 / cb)
    if len(b.d) == 1:
        (n, k), = b.d.items()
        d = {}
        for m, c in a.d.items():
            q = _mono_div(m, n)
            if q is None:
                return None
            d[q] = c / k
        return Poly(d)
    if not b.vars() <= a.vars() or b.deg() > a.deg() or len(a.d) > 400:
        return None
    # graded order with exponent-vector tie break
    vs = sorted(a.vars())
    idx = {v: i for i, v in enumerate(vs)}

    def key(m):
        e = [0] * len(vs)
        for x in m:
            e[idx[x]] += 1
        return (len(m), tuple(e))
    lb = max(b.d, key=key)
    cb = b.d[lb]
    rem, quo = dict(a.d), {}
    for _ in range(2000):
        if not rem:
            return Poly(quo)
        lm = max(rem, key=key)
        q = _mono_div(lm, lb)
        if q is None:
            return None
        c = rem[lm] / cb
        quo[q] = c
        for m, k in b.d.items():
            mm = tuple(sorted(m + q))
            v = rem.get(mm, 0) - c * k
            if v:
                rem[mm] = v
            else:
                rem.pop(mm, None)
    return None


def primitive(p):
    """p = c * q with q having leading (smallest key) coefficient 1; returns (c, q)."""
    m = min(p.d, key=lambda m: (len(m), m))
    c = p.d[m]
    return c, pscale(p, 1 / c)


class RF:
    """num / prod(f^e), every f > 0 on the current path."""
    __slots__ = ("num", "den")

    def __init__(s, num, den=()):
        s.num, s.den = num, den

    def key(s):
        return (s.num, frozenset(s.den))

    def const(s):
        return s.num.const() if not s.den else (F(0) if not s.num.d else None)

    def vars(s):
        r = s.num.vars()
        for f, _ in s.den:
            r = r | f.vars()
        return r


def rconst(c):
    return RF(pconst(c))


def denpoly(den):
    r = ONE
    for f, e in den:
        r = pmul(r, ppow(f, e))
    return r


def simplify(num, den):
    """den: dict factor->exp"""
    if not num.d:
        return RF(ZERO)
    out = {}
    for f, e in den.items():
        while e > 0:
            q = pdivexact(num, f)
            if q is None:
                break
            num, e = q, e - 1
        if e:
            out[f] = e
    return RF(num, tuple(sorted(out.items(), key=lambda fe: hash(fe[0]))))


def radd(a, b):
    if a.den == b.den:
        if not a.den:
            return RF(padd(a.num, b.num))
        return simplify(padd(a.num, b.num), dict(a.den))
    da, db = dict(a.den), dict(b.den)
    l = dict(da)
    for f, e in db.items():
        l[f] = max(l.get(f, 0), e)
    na, nb = a.num, b.num
    for f, e in l.items():
        na = pmul(na, ppow(f, e - da.get(f, 0)))
        nb = pmul(nb, ppow(f, e - db.get(f, 0)))
    return simplify(padd(na, nb), l)


def rneg(a):
    return RF(pscale(a.num, F(-1)), a.den)


def rsub(a, b):
    return radd(a, rneg(b))


def rmul(a, b):
    d = dict(a.den)
    for f, e in b.den:
        d[f] = d.get(f, 0) + e
    # cancel before multiplying
    na, nb = a.num, b.num
    for f in list(d):
        while d[f] > 0:
            q = pdivexact(na, f)
            if q is not None:
                na = q
            else:
                q = pdivexact(nb, f)
                if q is None:
                    break
                nb = q
            d[f] -= 1
        if not d[f]:
            del d[f]
    return RF(pmul(na, nb), tuple(sorted(d.items(), key=lambda fe: hash(fe[0]))))


def rinv(a, sgn):
    """1/a where sign(a) == sgn (+1/-1) is known; a.num becomes a positive factor."""
    num = pscale(a.num, F(sgn))
    c, q = primitive(num)
    if c < 0:
        c, q = -c, pscale(q, F(-1))
    den = {}
    if q.const() is None:
        den[q] = 1
    else:
        c *= q.const()
    n = pscale(denpoly(a.den), F(sgn) / c)
    return simplify(n, den)
