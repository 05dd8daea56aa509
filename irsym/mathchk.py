"""Accuracy of a computed logarithm / exponential: the executor's result is a rational function of one variable; the true
function is enclosed by a polynomial or rational function with a rigorous remainder, and the solver decides whether
any point of the path's range leaves the tolerance."""
from fractions import Fraction as F
import z3
from . import poly as P
from .poly import RF
from .parse import Unsupported

# ---- univariate polynomials as coefficient lists (lowest degree first)


def mul(a, b):
    r = [F(0)] * (len(a) + len(b) - 1)
    for i, x in enumerate(a):
        if x:
            for j, y in enumerate(b):
                r[i + j] += x * y
    return r


def add(a, b, k=1):
    n = max(len(a), len(b))
    return [(a[i] if i < len(a) else 0) + k * (b[i] if i < len(b) else 0) for i in range(n)]


def scale(a, c):
    return [x * c for x in a]


def ev(a, x):
    r = F(0)
    for c in reversed(a):
        r = r * x + c
    return r


def upoly(p, atom):
    out = {}
    for m, c in p.d.items():
        if any(a != atom for a in m):
            raise Unsupported("accuracy check of a value of several variables")
        out[len(m)] = c
    return [F(out.get(i, 0)) for i in range(max(out, default=0) + 1)]


def urat(r, atom):
    return upoly(r.num, atom), upoly(P.denpoly(r.den), atom)


# ---- enclosures
def atanh_series(z, n):
    """(partial sum, remainder bound) of 2*atanh(z) for |z| < 1/2"""
    t, s, z2 = z, F(0), z * z
    for k in range(n):
        s += t / (2 * k + 1)
        t *= z2
    return 2 * s, 2 * abs(t) / (2 * n + 1) / (1 - z2)


LN2 = atanh_series(F(1, 3), 60)  # ln 2 with a remainder below 1e-57


def exp_rat(c):
    """(value, relative error bound) of exp(c) for rational c, |c| < 2000"""
    k = round(float(c))
    # exp(1) by its series
    def series(x, n):
        t, s = F(1), F(0)
        for i in range(n):
            s += t
            t = t * x / (i + 1)
        return s
    e1 = series(F(1), 60)
    lim = 10 ** 60
    fr = F(round((c - k) * lim), lim)
    v = series(fr, 45)
    p = F(1)
    b, n = e1, abs(k)
    while n:
        if n & 1:
            p = p * b
            p = trim(p)
        b = trim(b * b)
        n >>= 1
    v = v * (p if k >= 0 else 1 / p)
    return trim(v), F(1, 10 ** 40)


def trim(x):
    """keep 180 significant bits"""
    n = x.numerator.bit_length() - x.denominator.bit_length()
    s = 180 - n
    return F(round(x * F(2) ** s)) / F(2) ** s


NT = 13
_RHO = None


def ln_approx():
    """ln(m) on [1/2,2]: rational function num/den with absolute error below tau"""
    global _RHO
    if _RHO is None:
        n, d = [F(-1), F(1)], [F(1), F(1)]
        D = [F(1)]
        for _ in range(2 * NT + 1):
            D = mul(D, d)
        dp = [[F(1)]]
        for _ in range(2 * NT + 1):
            dp.append(mul(dp[-1], d))
        num, npow = [F(0)], n
        for k in range(NT + 1):
            num = add(num, mul(npow, dp[2 * NT + 1 - (2 * k + 1)]), F(2, 2 * k + 1))
            npow = mul(mul(npow, n), n)
        tau = 2 * F(1, 3) ** (2 * NT + 3) / (2 * NT + 3) / (1 - F(1, 9))
        _RHO = (num, D, tau)
    return _RHO


def exp_approx():
    """exp(v) on [0, 0.75]: polynomial with relative error below tau"""
    c, t = [], F(1)
    for i in range(20):
        c.append(t)
        t = t / (i + 1)
    return c, F(3, 4) ** 20 * t * 2


def toz(s, st, coeffs, atom, op):
    """condition  sum coeffs * atom^i  op 0"""
    return s.pcon(P.Poly({(atom,) * i: c for i, c in enumerate(coeffs) if c}), op)


def excludes(s, st, atom, conds):
    """is none of the conditions satisfiable within the path's range of the atom?  -> (verdict, satisfiable condition)"""
    res = "unsat"
    for c in conds:
        if isinstance(c, bool):
            if c:
                return "sat", None
            continue
        v, _ = s.solve(s.slice(st.pc, c) + [c], ms=4 * s.q_ms)
        if v == "sat":
            return v, c
        if v != "unsat":
            res = v
    return res, None


def fail(s, st, v, c, label):
    if v == "sat":
        s.report(st, "check", label, [c] if c is not None else [])
    else:
        s.incon.append("check undecided: " + label)


def check_ln(s, st, r, x, rtol, atol, label):
    """|r - ln x| <= rtol*|ln x| + atol for every value on this path; x = 2^j * m, 1 <= m < 2"""
    s.stat["checks"] += 1
    if isinstance(r, float):
        return fail(s, st, "sat", None, label)
    if not isinstance(x, RF) or x.den or len(x.num.d) != 1:
        raise Unsupported("argument of V_check_ln")
    (mono, c), = x.num.d.items()
    if len(mono) != 1 or st.defs.get(mono[0]) != "mant" or c <= 0:
        raise Unsupported("argument of V_check_ln")
    atom = mono[0]
    j = c.numerator.bit_length() - c.denominator.bit_length()
    if F(2) ** j != c:
        raise Unsupported("argument of V_check_ln")
    rtol, atol = F(rtol), F(atol)
    n, d = urat(r, atom)
    lnc, lne = j * LN2[0], abs(j) * LN2[1]
    # lemma on the mantissa, shared by all binades: |r(m) - r(1) - ln m| <= delta
    r1 = ev(n, F(1)) / ev(d, F(1))
    n1 = add(n, d, -r1)
    tn, td, tau = ln_approx()
    key = ("ln", tuple(scale(n1, 1 / d[-1])), tuple(scale(d, 1 / d[-1])))
    delta = F(2, 10 ** 14)
    ok = s.mathlemma.get(key)
    if ok is None:
        diff = add(mul(n1, td), mul(tn, d), -1)
        dd = mul(d, td)
        conds = [toz(s, st, add(diff, dd, -(delta - tau)), atom, ">"), toz(s, st, add(diff, dd, delta - tau), atom, "<")]
        v, _ = excludes(s, st, atom, conds)
        ok = s.mathlemma[key] = v == "unsat"
    minl = (j if j >= 0 else -j - 1) * LN2[0]
    if ok and abs(r1 - lnc) + lne + delta <= atol + rtol * minl:
        s.stat["discharged"] += 1
        return
    # direct query: with L = ln m + ln c  (|L| = sg*L)
    sg = 1 if j >= 0 else -1
    Ln = add(tn, td, lnc)
    diff = add(mul(n, td), mul(Ln, d), -1)
    tol = add(scale(mul(Ln, d), sg * rtol), mul(d, td), atol - (tau + lne) * 2)
    v, c = excludes(s, st, atom, [toz(s, st, add(diff, tol, -1), atom, ">"), toz(s, st, add(diff, tol, 1), atom, "<")])
    if v == "unsat":
        s.stat["discharged"] += 1
        return
    fail(s, st, v, c, label)


def check_exp(s, st, r, x, rtol, label):
    """|r - exp(x)| <= rtol*exp(x) for every value on this path; x = c +- v, v in [0, 0.75]"""
    s.stat["checks"] += 1
    if isinstance(r, float):
        return fail(s, st, "sat", None, label)
    if not isinstance(x, RF) or x.den or len(x.vars()) != 1:
        raise Unsupported("argument of V_check_exp")
    atom, = x.vars()
    c, k = x.num.d.get((), F(0)), x.num.d.get((atom,))
    if st.defs.get(atom) != "red" or k not in (1, -1):
        raise Unsupported("argument of V_check_exp")
    n, d = urat(r, atom)
    ec, ee = exp_rat(c)
    t, tau = exp_approx()
    slack = F(rtol) - 2 * (ee + tau)
    # r/exp(c) =: y;  k=1: |y - T| <= slack*T ; k=-1: |y*T - 1| <= slack
    n = scale(n, 1 / ec)
    if k == 1:
        a, b = n, mul(t, d)
    else:
        a, b = mul(n, t), d
    # cached: same quotient up to a factor within the slack
    lead = n[0] / d[0] if d[0] else None
    key = None
    if lead:
        key = ("exp", k, tuple(scale(n, 1 / n[0])), tuple(scale(d, 1 / d[0])))
        half = F(2, 10 ** 13)
        ok = s.mathlemma.get(key)
        if ok is None:
            a0, b0 = scale(a, 1 / n[0]), scale(b, 1 / d[0])
            sgn = 1 if d[0] > 0 else -1
            conds = [toz(s, st, scale(add(a0, b0, -(1 + half)), sgn * sgn), atom, ">"), toz(s, st, add(a0, b0, -(1 - half)), atom, "<")]
            v, _ = excludes(s, st, atom, conds)
            ok = s.mathlemma[key] = v == "unsat"
        if ok and abs(lead - 1) * (1 + half) + half <= slack:
            s.stat["discharged"] += 1
            return
    v, cc = excludes(s, st, atom, [toz(s, st, add(a, b, -(1 + slack)), atom, ">"), toz(s, st, add(a, b, -(1 - slack)), atom, "<")])
    if v == "unsat":
        s.stat["discharged"] += 1
        return
    fail(s, st, v, cc, label)
