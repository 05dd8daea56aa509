"""irsym: path-wise symbolic executor over LLVM IR, deciding harness assertions with z3.

Doubles are interpreted in one of two domains:
  real : exact rational functions over symbolic reals (IEEE rounding/overflow not modelled; concrete doubles stay
         IEEE doubles, and NaN / +-inf are tracked as concrete special values),
  fp   : IEEE-754 binary64 in z3's floating-point theory (optionally * and / uninterpreted).
Integers are machine words (python ints when concrete, z3 bit-vectors when symbolic); memory is a set of objects with
bounds, lifetime and initialisation checks on every access."""
import math, struct, time, re, sys
from collections import deque
from fractions import Fraction as F
import z3
from . import poly as P
from .poly import RF, Poly
from .parse import Unsupported

sys.setrecursionlimit(10000)


class PathEnd(Exception):
    pass


class Undef:
    def __repr__(s):
        return "undef"


UNDEF = Undef()


class Ptr:
    __slots__ = ("o", "off")

    def __init__(s, o, off):
        s.o, s.off = o, off

    def __repr__(s):
        return f"&{s.o}+{s.off}"

    def __eq__(s, x):
        return isinstance(x, Ptr) and s.o == x.o and s.off == x.off

    def __hash__(s):
        return hash((s.o, s.off))


class FPtr:
    __slots__ = ("name",)

    def __init__(s, name):
        s.name = name

    def __eq__(s, x):
        return isinstance(x, FPtr) and s.name == x.name

    def __hash__(s):
        return hash(s.name)

    def __repr__(s):
        return "@" + s.name


class SInt:
    """symbolic non-wrapping machine integer in real mode (value = polynomial, assumed within the word)."""
    __slots__ = ("w", "rf")

    def __init__(s, w, rf):
        s.w, s.rf = w, rf


class Split:
    """bits of a double whose sign+exponent word is known and whose mantissa is symbolic: hi = 12 top bits,
    m = RF with value in [1,2) such that a normal double with these bits has value +-2^(e-1023)*m."""
    __slots__ = ("hi", "m")

    def __init__(s, hi, m):
        s.hi, s.m = hi, m


class Con:
    __slots__ = ("e", "v")

    def __init__(s, e, v=None):
        s.e = e
        s.v = v if v is not None else zvars(e)


_zv = {}


def zvars(e):
    r = _zv.get(id(e))
    if r is not None:
        return r[1]
    out, seen, st = set(), set(), [e]
    while st:
        x = st.pop()
        i = x.get_id()
        if i in seen:
            continue
        seen.add(i)
        if z3.is_const(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
            out.add(x.decl().name())
        elif z3.is_app(x):
            if x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                out.add("!" + x.decl().name())
            st.extend(x.children())
    r = frozenset(out)
    _zv[id(e)] = (e, r)
    return r


class Obj:
    __slots__ = ("size", "cells", "kind", "alive", "name", "ro", "own")

    def __init__(s, size, kind, name, ro=False):
        s.size, s.kind, s.name, s.ro = size, kind, name, ro
        s.cells, s.alive, s.own = {}, True, None

    def copy(s, own):
        o = Obj(s.size, s.kind, s.name, s.ro)
        o.cells, o.alive, o.own = dict(s.cells), s.alive, own
        return o


class Frame:
    __slots__ = ("f", "blk", "i", "regs", "prev", "allocas", "res", "bl", "va")

    def __init__(s, f):
        s.f, s.blk, s.i, s.regs, s.prev, s.allocas, s.res = f, f.entry, 0, {}, None, [], None
        s.bl = f.blocks[f.entry]
        s.va = ()

    def copy(s):
        n = Frame.__new__(Frame)
        n.f, n.blk, n.i, n.prev, n.res, n.bl, n.va = s.f, s.blk, s.i, s.prev, s.res, s.bl, s.va
        n.regs, n.allocas = dict(s.regs), list(s.allocas)
        return n


class State:
    def __init__(s):
        s.frames, s.mem, s.pc, s.inputs, s.outs = [], {}, [], [], []
        s.forced, s.taken, s.instpc = deque(), [], 0
        s.ufs, s.covers, s.nobj, s.nfresh, s.steps, s.tok = {}, set(), 0, 0, 0, object()
        s.unknown = False
        s.trace = []
        s.events = []
        s.defs = {}

    def clone(s):
        n = State.__new__(State)
        n.frames = [f.copy() for f in s.frames]
        n.mem = dict(s.mem)
        n.pc = s.pc[:s.instpc]
        n.inputs, n.outs = list(s.inputs), list(s.outs)
        n.forced, n.taken, n.instpc = deque(), [], s.instpc
        n.ufs = {k: list(v) for k, v in s.ufs.items()}
        n.covers, n.nobj, n.nfresh, n.steps = set(s.covers), s.nobj, s.nfresh, s.steps
        n.tok = object()
        s.tok = object()
        n.unknown = s.unknown
        n.trace = list(s.trace)
        n.events = list(s.events)
        n.defs = dict(s.defs)
        return n


def isz(x):
    return isinstance(x, z3.ExprRef)


def to_signed(v, w):
    return v - (1 << w) if v >> (w - 1) & 1 else v


NAN = float("nan")
INF = float("inf")


class Violation:
    def __init__(s, kind, label, inputs, path, note=""):
        s.kind, s.label, s.inputs, s.path, s.note = kind, label, inputs, path, note


class Engine:
    def __init__(s, M, mode="real", stubs=(), params=None, max_paths=200000, max_steps=400000, q_ms=10000,
                 fp_exact=False, deadline=None, allow_uninit=False, abstract_terms=0, ub=True):
        s.M, s.mode, s.params = M, mode, params or {}
        s.stubs = {x: "stub__" + x for x in stubs}
        for x, y in s.stubs.items():
            if y not in M.funcs:
                raise Unsupported("missing stub " + y)
        s.max_paths, s.max_steps, s.q_ms, s.deadline = max_paths, max_steps, q_ms, deadline
        s.fp_exact = fp_exact
        s.ub = ub
        s.work = []
        s.viol, s.incon, s.covers = [], [], {}
        s.stat = dict(paths=0, steps=0, queries=0, sat=0, unsat=0, unknown=0, solver_s=0.0, checks=0, discharged=0,
                      by_norm=0, pruned=0)
        s.funcs_seen = set()
        s.witnesses = []
        s.want_witness = 12
        s.cache = {}
        s.atoms = []  # atom id -> z3 Real
        s.fpfun = {}
        s.fpmemo = {}
        s.pcache, s.ncache, s.zero0 = {}, {}, z3.RealVal(0)
        s.seen_labels = {}
        s.max_viol_per_label = 3
        s.extern = dict(EXTERN)
        s.concretize_max = 300
        s.max_alloc = 1 << 20
        s.big_alloc_ok = True
        s.shared, s.mathlemma = {}, {}
        s.atomise, s.adef, s.lazy = 0, {}, {}

    # ------------------------------------------------------------ reals
    def atom(s, name):
        i = len(s.atoms)
        s.atoms.append(z3.Real(f"{name}"))
        return i

    def pz(s, p):
        if p._z is None:
            ts = []
            for m, c in p.d.items():
                t = None
                for a in m:
                    t = s.atoms[a] if t is None else t * s.atoms[a]
                q = z3.Q(c.numerator, c.denominator)
                ts.append(q if t is None else (t if c == 1 else q * t))
            p._z = z3.Sum(ts) if len(ts) > 1 else (ts[0] if ts else z3.RealVal(0))
        return p._z

    def pcon(s, p, op):
        """condition  p op 0 as bool or z3 Bool"""
        c = p.const()
        if c is not None:
            return {"<": c < 0, "<=": c <= 0, "==": c == 0, "!=": c != 0, ">": c > 0, ">=": c >= 0}[op]
        # normalise scale so that equal conditions share one z3 term
        k, q = P.primitive(p)
        if k < 0:
            op = {"<": ">", "<=": ">=", ">": "<", ">=": "<=", "==": "==", "!=": "!="}[op]
        key = (q, op)
        r = s.pcache.get(key)
        if r is None:
            z, o = s.pz(q), s.zero0
            r = {"<": z.__lt__, "<=": z.__le__, "==": z.__eq__, "!=": z.__ne__, ">": z.__gt__, ">=": z.__ge__}[op](o)
            s.pcache[key] = r
        return r

    def znot(s, b):
        r = s.ncache.get(id(b))
        if r is None:
            r = s.ncache[id(b)] = (z3.Not(b), b)
        return r[0]

    # ------------------------------------------------------------ solver
    def slice(s, pc, e):
        vs = set(zvars(e))
        rest = [c for c in pc if isz(c)]
        used = []
        ch = True
        while ch:
            ch = False
            nr = []
            for c in rest:
                cv = zvars(c)
                if cv & vs:
                    used.append(c)
                    if not cv <= vs:
                        vs |= cv
                        ch = True
                else:
                    nr.append(c)
            if len(nr) == len(rest):
                break
            rest = nr
            ch = True
        return used

    def solve(s, cons, ms=None, model=False):
        """-> (verdict, model)"""
        key = None
        if not model:
            key = frozenset(c.get_id() for c in cons)
            if key in s.cache:
                return s.cache[key][0], None
        ms = ms or s.q_ms
        s.stat["queries"] += 1
        t0 = time.time()
        r, m = z3.unknown, None
        try:
            if s.mode == "real":
                lin = all(s.linear(c) for c in cons)
                if lin:
                    sol = z3.SolverFor("QF_LRA")
                    sol.set("timeout", ms)
                    sol.add(*cons)
                    r = sol.check()
                else:
                    for attempt in (0, 1):
                        if attempt == 0:
                            sol = z3.Tactic("qfnra-nlsat").solver() if not any(s.hasuf(c) for c in cons) else z3.Solver()
                        else:
                            sol = z3.Solver()
                        sol.set("timeout", ms)
                        sol.add(*cons)
                        r = sol.check()
                        if r != z3.unknown:
                            break
            else:
                # a short attempt; then the doubles restricted to powers of two (a cheap way to a model when products of machine
                # numbers are hard); then the full query with the full limit
                for lim, pin in ((min(ms, 4000), False), (8000, True), (ms, False)):
                    if pin:
                        pins = s.pow2(cons)
                        if not pins or ms <= 4000:
                            continue
                    elif lim == ms and r != z3.unknown:
                        break
                    sol = z3.Solver()
                    sol.set("timeout", lim)
                    sol.add(*cons)
                    if pin:
                        sol.add(*pins)
                    r = sol.check()
                    if r == z3.sat or (r == z3.unsat and not pin):
                        break
                    r = z3.unknown
                    if not pin and lim == ms:
                        break
            if r == z3.sat and model:
                m = sol.model()
        except z3.Z3Exception as ex:
            r = z3.unknown
        s.stat["solver_s"] += time.time() - t0
        v = "sat" if r == z3.sat else "unsat" if r == z3.unsat else "unknown"
        s.stat[v] += 1
        if key is not None:
            s.cache[key] = (v, list(cons))
        return v, m

    def hasuf(s, c):
        return False

    _lin = {}

    def linear(s, c):
        k = c.get_id()
        r = s._lin.get(k)
        if r is not None and r[0].eq(c):
            return r[1]
        ok = True
        st = [c]
        while st and ok:
            x = st.pop()
            if z3.is_mul(x):
                if sum(1 for y in x.children() if not z3.is_rational_value(y)) > 1:
                    ok = False
            elif z3.is_div(x) or (z3.is_app(x) and x.decl().kind() == z3.Z3_OP_POWER):
                ok = False
            if z3.is_app(x) and x.decl().kind() == z3.Z3_OP_ITE and z3.is_real(x):
                pass
            st.extend(x.children())
        s._lin[k] = (c, ok)
        return ok

    def feasible(s, st, e):
        if isinstance(e, bool):
            return e
        used = s.slice(st.pc, e)
        v, _ = s.solve(used + [e], ms=min(s.q_ms, 3000))
        if v == "unknown":
            st.unknown = True
        return v != "unsat"

    def assume(s, st, e):
        if isinstance(e, bool):
            if not e:
                raise PathEnd("assume false")
            return
        st.pc.append(e)

    def decide(s, st, alts):
        """alts: list of (tag, cond).  Returns the tag taken on this path; queues the other feasible ones."""
        if st.forced:
            tag = st.forced.popleft()
            st.taken.append(tag)
            for t, c in alts:
                if t == tag:
                    s.assume(st, c)
                    return tag
            raise Unsupported("forced decision vanished")
        live = [(t, c) for t, c in alts if not (isinstance(c, bool) and not c)]
        feas = []
        for i, (t, c) in enumerate(live):
            if isinstance(c, bool):
                feas.append((t, c))
                if c:
                    break
                continue
            if i == len(live) - 1 and not feas:
                feas.append((t, c))  # last alternative of an exhaustive list
                break
            if s.feasible(st, c):
                feas.append((t, c))
        if not feas:
            raise PathEnd("dead")
        for t, c in feas[1:]:
            n = st.clone()
            n.forced = deque(st.taken + [t])
            s.work.append(n)
        t, c = feas[0]
        st.taken.append(t)
        if len(feas) > 1:
            s.assume(st, c)
        elif not isinstance(c, bool) and st.unknown:
            s.assume(st, c)
        return t

    def truth(s, st, b):
        if isinstance(b, bool):
            return b
        if b is UNDEF:
            s.report(st, "uninit", "branch on an uninitialised value")
            raise PathEnd("uninit")
        if isinstance(b, int):
            return bool(b)
        b = z3.simplify(b) if s.mode != "real" else b
        if z3.is_true(b):
            return True
        if z3.is_false(b):
            return False
        return s.decide(st, [(True, b), (False, s.znot(b))])

    # ------------------------------------------------------------ models / reports
    def pow2(s, cons):
        """the floating-point unknowns of cons, each restricted to a power of two, zero or an infinity"""
        seen, out, todo = set(), [], list(cons)
        while todo:
            e = todo.pop()
            if e.get_id() in seen:
                continue
            seen.add(e.get_id())
            if z3.is_const(e) and e.decl().kind() == z3.Z3_OP_UNINTERPRETED and z3.is_fp(e):
                b = z3.fpToIEEEBV(e)
                out.append(z3.Extract(e.sbits() - 2, 0, b) == 0)
            todo.extend(e.children())
        return out

    def getmodel(s, st, extra=()):
        cons = s.withdefs([c for c in st.pc if isz(c)] + list(extra))
        return s.solve(cons, ms=max(s.q_ms, 20000), model=True)

    def model_inputs(s, st, m):
        out = []
        for kind, name, v in st.inputs:
            out.append((kind, name, s.mval(m, kind, v)))
        return out

    def zfrac(s, v):
        if z3.is_rational_value(v):
            return F(v.numerator_as_long(), v.denominator_as_long())
        if z3.is_algebraic_value(v):
            a = v.approx(40)
            return F(a.numerator_as_long(), a.denominator_as_long())
        raise Unsupported("model value " + str(v))

    def peval(s, m, p):
        r = F(0)
        for mono, c in p.d.items():
            t = c
            for a in mono:
                t *= s.zfrac(m.eval(s.atoms[a], model_completion=True))
            r += t
        return r

    def mval(s, m, kind, v):
        if isinstance(v, (bool, int, float)):
            return v
        if isinstance(v, SInt):
            v = v.rf
            x = s.peval(m, v.num)
            for f, e in v.den:
                x /= s.peval(m, f) ** e
            return int(round(x))
        if isinstance(v, RF):
            x = s.peval(m, v.num)
            for f, e in v.den:
                d = s.peval(m, f)
                if d == 0:
                    return NAN
                x /= d ** e
            try:
                return x.numerator / x.denominator
            except OverflowError:
                return INF if x > 0 else -INF
        if isz(v):
            r = m.eval(v, model_completion=True)
            if z3.is_fp(v):
                return fpval(r)
            if z3.is_bool(v):
                return z3.is_true(r)
            return r.as_long()
        return 0

    def report(s, st, kind, label, extra=(), note=""):
        key = (kind, label)
        n = s.seen_labels.get(key, 0)
        s.seen_labels[key] = n + 1
        if n >= s.max_viol_per_label:
            return
        v, m = s.getmodel(st, extra)
        if v == "sat":
            s.viol.append(Violation(kind, label, s.model_inputs(st, m), list(st.trace), note))
        elif v == "unknown":
            s.incon.append(f"{kind}: {label} (solver unknown on counterexample query)")
            s.seen_labels[key] = n
        else:
            s.seen_labels[key] = n
        return v

    # ------------------------------------------------------------ memory
    def new_obj(s, st, size, kind, name, ro=False):
        st.nobj += 1
        i = st.nobj
        o = Obj(size, kind, name, ro)
        o.own = st.tok
        st.mem[i] = o
        return i

    def wobj(s, st, i):
        o = st.mem[i]
        if o.own is not st.tok:
            o = o.copy(st.tok)
            st.mem[i] = o
        return o

    def access(s, st, p, size, what):
        if p is UNDEF:
            s.report(st, "uninit", f"{what} through an uninitialised pointer")
            raise PathEnd("uninit ptr")
        if isinstance(p, int):
            s.report(st, "null", f"{what} through a null or invalid pointer")
            raise PathEnd("null")
        if not isinstance(p, Ptr):
            raise Unsupported(f"{what} through {p!r}")
        o = st.mem.get(p.o)
        if o is None or not o.alive:
            s.report(st, "uaf", f"{what} after the object's lifetime ended")
            raise PathEnd("uaf")
        off = p.off
        if not isinstance(off, int):
            off = s.concretize(st, off, 64, True)
        if off < 0 or off + size > o.size:
            s.report(st, "oob", f"out-of-bounds {what} ({o.kind})",
                     note=f"{o.name} size {o.size} offset {off} width {size}")
            raise PathEnd("oob")
        return o, off

    def load(s, st, p, t):
        size = s.M.size(t)
        o, off = s.access(st, p, size, "read")
        c = o.cells.get(off)
        if c is not None and c[0] == size:
            return s.conv(st, c[1], c[2], t)
        if c is None and not any((off + k) in o.cells for k in range(size)) and not s._covered(o, off):
            return UNDEF
        bs = bytearray()
        for k in range(size):
            b = s.byte(o, off + k)
            if b is None:
                return UNDEF
            bs.append(b)
        iv = int.from_bytes(bs, "little")
        return s.conv(st, iv, "i%d" % (8 * size), t)

    def _covered(s, o, off):
        for b in range(1, 16):
            c = o.cells.get(off - b)
            if c is not None:
                return c[0] > b
        return False

    def byte(s, o, off):
        for b in range(0, 16):
            c = o.cells.get(off - b)
            if c is not None:
                if c[0] <= b:
                    return None
                v = c[1]
                if v is UNDEF:
                    return None
                if isinstance(v, bool):
                    v = int(v)
                if isinstance(v, float):
                    v = struct.unpack("<Q", struct.pack("<d", v))[0]
                if not isinstance(v, int):
                    raise Unsupported("partial read of a symbolic cell")
                return (v >> (8 * b)) & 255
        return None

    def store(s, st, p, t, v, size=None):
        size = size or s.M.size(t)
        o, off = s.access(st, p, size, "write")
        if o.ro:
            s.report(st, "oob", "write to constant data")
            raise PathEnd("ro")
        o = s.wobj(st, p.o)
        s.put(o, off, size, v, tyname(t))

    def put(s, o, off, size, v, tn):
        cells = o.cells
        if off in cells and cells[off][0] == size:
            cells[off] = (size, v, tn)
            return
        # split overlapping cells
        for k in range(off - 15, off + size):
            c = cells.get(k)
            if c is None:
                continue
            if k + c[0] <= off:
                continue
            old = [(k + b, s.byte_or(o, k + b)) for b in range(c[0])]
            del cells[k]
            for ko, bv in old:
                if not (off <= ko < off + size) and bv is not None:
                    cells[ko] = (1, bv, "i8")
        cells[off] = (size, v, tn)

    def byte_or(s, o, off):
        try:
            return s.byte(o, off)
        except Unsupported:
            return UNDEF

    def conv(s, st, v, tn, t):
        if v is UNDEF or isinstance(v, Undef):
            return UNDEF
        k = t.k
        if k == "double":
            if tn == "double":
                return v
            return s.bits2d(st, v)
        if k == "ptr":
            return v
        if k == "int":
            if tn == "double":
                v = s.d2bits(st, v)
            if t.w == 1:
                return bool(v & 1) if isinstance(v, int) else v
            if isinstance(v, bool):
                v = int(v)
            if isinstance(v, int):
                return v & ((1 << t.w) - 1)
            if isz(v) and z3.is_bool(v):
                return z3.If(v, z3.BitVecVal(1, t.w), z3.BitVecVal(0, t.w))
            if isz(v) and z3.is_bv(v) and v.size() > t.w:
                return z3.Extract(t.w - 1, 0, v)
            return v
        if k == "float":
            if tn == "float":
                return v
        raise Unsupported(f"load {k} from {tn}")

    def memcpy(s, st, d, sp, n):
        if not isinstance(n, int):
            n = s.concretize(st, n, 64, False)
        if n == 0:
            return
        so, soff = s.access(st, sp, n, "read")
        do, doff = s.access(st, d, n, "write")
        src = {k: c for k, c in so.cells.items() if soff <= k and k + c[0] <= soff + n}
        # partially covered source cells (never for whole-struct copies)
        for k, c in so.cells.items():
            if k < soff + n and k + c[0] > soff and k not in src:
                for b in range(c[0]):
                    if soff <= k + b < soff + n:
                        src[k + b] = (1, s.byte(so, k + b), "i8")
        do = s.wobj(st, d.o)
        for k in list(do.cells):
            c = do.cells[k]
            if k < doff + n and k + c[0] > doff:
                if k >= doff and k + c[0] <= doff + n:
                    del do.cells[k]
                else:
                    old = [(k + b, s.byte_or(do, k + b)) for b in range(c[0])]
                    del do.cells[k]
                    for ko, bv in old:
                        if not (doff <= ko < doff + n):
                            do.cells[ko] = (1, bv, "i8")
        for k, c in src.items():
            do.cells[doff + k - soff] = c

    # ------------------------------------------------------------ bits
    def d2bits(s, st, v):
        if isinstance(v, float):
            return struct.unpack("<Q", struct.pack("<d", v))[0]
        if isinstance(v, RF):
            r = s.binade(st, v)
            if r is None:
                raise Unsupported("bits of a symbolic real")
            return r
        if isz(v):
            st.nfresh += 1
            b = z3.BitVec(f"bits!{st.nfresh}", 64)
            st.pc.append(z3.fpBVToFP(b, z3.Float64()) == v)
            return b
        raise Unsupported("bits")

    def binade(s, st, v):
        """v = c*atom with atom in [1,2) and c=+-2^j -> Split"""
        if v.den or len(v.num.d) != 1:
            return None
        (m, c), = v.num.d.items()
        if len(m) != 1 or m[0] not in st.defs or st.defs[m[0]] != "mant":
            return None
        a = abs(c)
        j = a.numerator.bit_length() - 1 if a.denominator == 1 else -(a.denominator.bit_length() - 1)
        if F(2) ** j != a:
            return None
        mant = RF(P.pvar(m[0]))
        sg = 0x800 if c < 0 else 0
        if j > 1023:
            raise Unsupported("binade overflow")
        if j < -1022:
            return Split(sg, None)  # subnormal: only the exponent field (0) is meaningful
        return Split(sg | (j + 1023), mant)

    def bits2d(s, st, v):
        if isinstance(v, int):
            return struct.unpack("<d", struct.pack("<Q", v & (2**64 - 1)))[0]
        if isinstance(v, Split):
            e = v.hi & 0x7ff
            if v.m is None or e == 0 or e == 0x7ff:
                raise Unsupported("split bits to double")
            c = F(2) ** (e - 1023) * (-1 if v.hi & 0x800 else 1)
            return P.rmul(P.rconst(c), v.m)
        if isz(v):
            if s.mode == "fp":
                return z3.fpBVToFP(v, z3.Float64())
        raise Unsupported("int bits to double")

    # ------------------------------------------------------------ doubles
    def rf(s, v):
        return v if isinstance(v, RF) else P.rconst(F(v))

    def norm(s, r):
        c = r.const()
        if c is not None:
            try:
                f = c.numerator / c.denominator
                if math.isfinite(f) and F(f) == c:
                    return f
            except OverflowError:
                pass
        return r

    def sign(s, st, r):
        """decide the sign of RF r on this path"""
        n = r.num
        c = n.const()
        if c is not None:
            return (c > 0) - (c < 0)
        return s.decide(st, [(1, s.pcon(n, ">")), (-1, s.pcon(n, "<")), (0, s.pcon(n, "=="))])

    def fbin(s, st, op, a, b):
        if a is UNDEF or b is UNDEF:
            s.report(st, "uninit", "arithmetic on an uninitialised value")
            raise PathEnd("uninit")
        if isinstance(a, float) and isinstance(b, float):
            if s.mode == "real" and s.params.get("exact") and math.isfinite(a) and math.isfinite(b) and not (op == "fdiv" and b == 0):
                return s.rbin(st, op, a, b)  # constants too are exact reals
            return cfbin(op, a, b)
        if s.mode == "real":
            return s.rbin(st, op, a, b)
        return s.zbin(st, op, a, b)

    def rbin(s, st, op, a, b):
        fa, fb = isinstance(a, float), isinstance(b, float)
        if (fa and a != a) or (fb and b != b):
            return NAN
        ia, ib = fa and math.isinf(a), fb and math.isinf(b)
        if op == "fsub":
            if ib:
                return -b
            if ia:
                return a
            return s.norm(P.rsub(s.rf(a), s.rf(b)))
        if op == "fadd":
            if ia:
                return a
            if ib:
                return b
            return s.norm(P.radd(s.rf(a), s.rf(b)))
        if op == "fmul":
            if ia or ib:
                i, o = (a, b) if ia else (b, a)
                g = s.sign(st, o)
                return NAN if g == 0 else i * g
            if fa and a == 0 or fb and b == 0:
                return 0.0
            r = s.norm(P.rmul(s.rf(a), s.rf(b)))
            return s.name_term(st, r, False) if s.atomise else r
        if op == "fdiv":
            if ib:
                return 0.0
            if ia:
                g = s.sign(st, b)
                return a if g >= 0 else -a
            rb = s.rf(b)
            g = s.sign(st, rb)
            if g == 0:
                ra = s.rf(a)
                ga = s.sign(st, ra)
                sb = math.copysign(1.0, b) if fb else 1.0
                return NAN if ga == 0 else ga * sb * INF
            r = s.norm(P.rmul(s.rf(a), P.rinv(rb, g)))
            return s.name_term(st, r, True) if s.atomise else r
        raise Unsupported(op)

    def name_term(s, st, r, div):
        """name a nonlinear term by a fresh variable.  Its definition joins the path condition when it is short;
        otherwise it is added to a query only when the query is satisfiable without it."""
        if not isinstance(r, RF):
            return r
        size = len(r.num.d) + sum(len(f.d) * e for f, e in r.den)
        if not r.den and r.num.deg() <= 1:
            return r
        if not div and size <= s.atomise:
            return r
        key = (r.num, tuple(r.den))
        i = s.adef.get(key)
        if i is None:
            i = s.adef[key] = s.atom(f"t!{len(s.atoms)}")
            d = P.pvar(i)
            for f, e in r.den:
                d = P.pmul(d, P.ppow(f, e))
            c = s.pcon(P.psub(d, r.num), "==")
            s.lazy[i] = (c, size <= s.atomise, s.atoms[i])
        c, short, _ = s.lazy[i]
        if short and ("atom", i) not in st.defs:
            st.defs[("atom", i)] = 1
            st.pc.append(c)
        return RF(P.pvar(i))

    def withdefs(s, cons):
        """cons together with the postponed definitions of the variables they mention"""
        if not s.lazy:
            return cons
        byname = {str(z): c for c, short, z in s.lazy.values() if not short}
        vs, out, todo = set(), list(cons), list(cons)
        while todo:
            c = todo.pop()
            for v in zvars(c):
                n = str(v)
                if n in byname and n not in vs:
                    vs.add(n)
                    out.append(byname[n])
                    todo.append(byname[n])
        return out

    def zf(s, v):
        if isinstance(v, float):
            return z3.FPVal(v, z3.Float64()) if v == v else z3.fpNaN(z3.Float64())
        return v

    def zbin(s, st, op, a, b):
        RNE = z3.RNE()
        if op == "fmul":
            for x, y in ((a, b), (b, a)):
                if isinstance(x, float):
                    if x == 1.0:
                        return y
                    if x == -1.0:
                        return s.zneg(y)
                    if x != x:
                        return NAN
        if op == "fdiv" and isinstance(b, float):
            if b == 1.0:
                return a
            if b == -1.0:
                return s.zneg(s.zf(a))
        za, zb = s.zf(a), s.zf(b)
        if s.fp_exact:
            return {"fadd": z3.fpAdd, "fsub": z3.fpSub, "fmul": z3.fpMul, "fdiv": z3.fpDiv}[op](RNE, za, zb)
        # abstraction: one fresh double per syntactically distinct operation, constrained by sign/NaN facts.
        # Signs are pulled out first (exact in IEEE arithmetic up to the sign of a zero).
        za, na = s.strip(za)
        zb, nb = s.strip(zb)
        if op == "fsub":
            op, nb = "fadd", not nb
        if op == "fadd":
            if za.get_id() > zb.get_id():
                za, zb, na, nb = zb, za, nb, na
            r = s.abstract(st, "fadd" if na == nb else "fsub", [za, zb])
            return s.zneg(r) if na else r
        if op == "fmul" and za.get_id() > zb.get_id():
            za, zb = zb, za
        r = s.abstract(st, op, [za, zb])
        return s.zneg(r) if na != nb else r

    def strip(s, z):
        n = False
        while z3.is_app(z) and z.decl().kind() == z3.Z3_OP_FPA_NEG:
            z, n = z.arg(0), not n
        if z3.is_fp_value(z) and not z.isNaN() and z.isNegative():
            z, n = s.zf(-fpval(z)), not n
        return z, n

    def zneg(s, z):
        if z3.is_app(z) and z.decl().kind() == z3.Z3_OP_FPA_NEG:
            return z.arg(0)
        return z3.fpNeg(z)

    def abstract(s, st, op, args):
        """a double that stands for op(args): functional in its (syntactic) arguments"""
        key = (op,) + tuple(x.get_id() for x in args)
        r = s.fpmemo.get(key)
        if r is None:
            d = z3.FP(f"{op}_{len(s.fpmemo)}", z3.Float64())
            ax = []
            if op == "fsub":
                x, y = args
                z = z3.FPVal(0.0, z3.Float64())
                nn = z3.Or(z3.fpIsNaN(x), z3.fpIsNaN(y), z3.And(z3.fpIsInf(x), z3.fpIsInf(y), z3.fpEQ(x, y)))
                ax = [z3.fpIsNaN(d) == nn, z3.Implies(z3.Not(nn), z3.And(z3.fpGT(d, z) == z3.fpGT(x, y),
                                                                         z3.fpLT(d, z) == z3.fpLT(x, y)))]
            if op == "fdiv" and z3.is_fp_value(args[1]):
                # division by a positive constant: monotone, so bounds of the quotient follow from bounds of the dividend
                c = fpval(args[1])
                if 0 < c < math.inf:
                    x, K = args[0], lambda v: z3.FPVal(v, z3.Float64())
                    ax = [z3.Implies(z3.fpIsNaN(x), z3.fpIsNaN(d)), z3.Implies(z3.Not(z3.fpIsNaN(x)), z3.Not(z3.fpIsNaN(d))),
                          z3.Implies(z3.fpGEQ(x, K(0.0)), z3.fpGEQ(d, K(0.0))), z3.Implies(z3.fpLEQ(x, K(0.0)), z3.fpLEQ(d, K(0.0)))]
                    for k in (1.0, 2048.0, 2.0 ** 31, 2.0 ** 32, 2.0 ** 63, 2.0 ** 64):
                        b = k * c * (1 - 2.0 ** -50)
                        if 0 < b < math.inf:
                            ax += [z3.Implies(z3.fpLT(x, K(b)), z3.fpLT(d, K(k))), z3.Implies(z3.fpGT(x, K(-b)), z3.fpGT(d, K(-k)))]
            r = s.fpmemo[key] = (d, ax, args)
        if r[1] and key not in st.defs:
            st.defs[key] = 1
            st.pc.extend(r[1])
        return r[0]

    def fneg(s, st, a):
        if a is UNDEF:
            s.report(st, "uninit", "arithmetic on an uninitialised value")
            raise PathEnd("uninit")
        if isinstance(a, float):
            return -a
        if isinstance(a, RF):
            return P.rneg(a)
        return s.zneg(a)

    def fcmp(s, st, p, a, b):
        if a is UNDEF or b is UNDEF:
            s.report(st, "uninit", "comparison with an uninitialised value")
            raise PathEnd("uninit")
        if p == "true":
            return True
        if p == "false":
            return False
        un = p[0] == "u"
        op = {"eq": "==", "ne": "!=", "lt": "<", "le": "<=", "gt": ">", "ge": ">=", "rd": "ord", "no": "uno"}[p[1:]]
        if p == "ord" or p == "uno":
            if s.mode == "real" or (isinstance(a, float) and isinstance(b, float)):
                nan = (isinstance(a, float) and a != a) or (isinstance(b, float) and b != b)
                return nan if p == "uno" else not nan
            nan = z3.Or(z3.fpIsNaN(s.zf(a)), z3.fpIsNaN(s.zf(b)))
            return nan if p == "uno" else z3.Not(nan)
        if isinstance(a, float) and isinstance(b, float):
            if a != a or b != b:
                return un
            return {"==": a == b, "!=": a != b, "<": a < b, "<=": a <= b, ">": a > b, ">=": a >= b}[op]
        if s.mode == "real":
            for x in (a, b):
                if isinstance(x, float) and x != x:
                    return un
            if isinstance(a, float) and math.isinf(a):
                return {"==": False, "!=": True, "<": a < 0, "<=": a < 0, ">": a > 0, ">=": a > 0}[op]
            if isinstance(b, float) and math.isinf(b):
                return {"==": False, "!=": True, "<": b > 0, "<=": b > 0, ">": b < 0, ">=": b < 0}[op]
            d = P.rsub(s.rf(a), s.rf(b))
            return s.pcon(d.num, op)
        za, zb = s.zf(a), s.zf(b)
        if za.eq(zb):
            nn = z3.Not(z3.fpIsNaN(za))
            base = nn if op in ("==", "<=", ">=") else (False if op != "!=" else False)
            if op == "!=":
                return z3.fpIsNaN(za) if un else False
            if op in ("<", ">"):
                return z3.fpIsNaN(za) if un else False
            return True if un else base
        e = {"==": z3.fpEQ, "!=": lambda x, y: z3.Not(z3.fpEQ(x, y)), "<": z3.fpLT, "<=": z3.fpLEQ, ">": z3.fpGT,
             ">=": z3.fpGEQ}[op](za, zb)
        anyn = z3.Or(z3.fpIsNaN(za), z3.fpIsNaN(zb))
        if op == "!=":
            return e if un else z3.And(e, z3.Not(anyn))
        return z3.Or(e, anyn) if un else e

    # ------------------------------------------------------------ ints
    def bv(s, v, w):
        if isinstance(v, bool):
            v = int(v)
        if isinstance(v, int):
            return z3.BitVecVal(v, w)
        if isz(v) and z3.is_bool(v):
            return z3.If(v, z3.BitVecVal(1, w), z3.BitVecVal(0, w))
        if isz(v):
            return v
        raise Unsupported(f"bit-vector of {v!r}")

    def concretize(s, st, v, w, signed):
        if isinstance(v, int):
            return v
        if isinstance(v, SInt):
            raise Unsupported("concretize symbolic real-mode integer")
        if v is UNDEF:
            s.report(st, "uninit", "use of an uninitialised value")
            raise PathEnd("uninit")
        if st.forced:
            c = st.forced.popleft()
            st.taken.append(c)
            s.assume(st, v == c)
            return to_signed(c, w) if signed else c
        vals, cons = [], list(c for c in st.pc if isz(c))
        while True:
            r, m = s.solve(cons, model=True)
            if r != "sat":
                if r == "unknown":
                    s.incon.append("concretisation: solver unknown")
                break
            c = m.eval(v, model_completion=True).as_long()
            vals.append(c)
            cons.append(v != c)
            if len(vals) > s.concretize_max:
                raise Unsupported("too many values for a symbolic index")
        if not vals:
            raise PathEnd("dead")
        for c in vals[1:]:
            n = st.clone()
            n.forced = deque(st.taken + [c])
            s.work.append(n)
        st.taken.append(vals[0])
        s.assume(st, v == vals[0])
        return to_signed(vals[0], w) if signed else vals[0]

    def ibin(s, st, op, t, a, b, flags):
        w = t.w
        if a is UNDEF or b is UNDEF:
            s.report(st, "uninit", "arithmetic on an uninitialised value")
            raise PathEnd("uninit")
        mask = (1 << w) - 1
        if isinstance(a, Split) or isinstance(b, Split):
            return s.split_op(op, a, b)
        if isinstance(a, SInt) or isinstance(b, SInt):
            ra = a.rf if isinstance(a, SInt) else P.rconst(to_signed(a, w))
            rb = b.rf if isinstance(b, SInt) else P.rconst(to_signed(b, w))
            if op == "add":
                return SInt(w, P.radd(ra, rb))
            if op == "sub":
                return SInt(w, P.rsub(ra, rb))
            if op == "mul":
                return SInt(w, P.rmul(ra, rb))
            if isinstance(b, int) and not isinstance(b, bool):
                # division by a constant: a = q*c + r with 0 <= r <= c-1 (integrality of q not modelled: over-approximation)
                c, rem = None, False
                if op in ("udiv", "urem") and 0 < b:
                    c, rem = b, op == "urem"
                elif op in ("sdiv", "srem") and 0 < to_signed(b, w):
                    c, rem = b, op == "srem"
                elif op == "lshr" and b < w:
                    c = 1 << b
                elif op == "and" and b & (b + 1) == 0:
                    c, rem = b + 1, True
                if op == "shl" and b < w:
                    return SInt(w, P.rmul(ra, P.rconst(1 << b)))
                if c is not None:
                    r = s.fresh_real(st, "rem")
                    st.pc.append(s.pcon(r.num, ">="))
                    st.pc.append(s.pcon(P.rsub(r, P.rconst(c - 1)).num, "<="))
                    return SInt(w, r if rem else P.rmul(P.rsub(ra, r), P.rconst(F(1, c))))
            raise Unsupported("symbolic integer " + op)
        if isinstance(a, (int, bool)) and isinstance(b, (int, bool)):
            a, b = int(a), int(b)
            sa, sb = to_signed(a, w), to_signed(b, w)
            if w == 1:
                r = {"and": a & b, "or": a | b, "xor": a ^ b, "add": a ^ b}.get(op)
                if r is None:
                    raise Unsupported("i1 " + op)
                return bool(r)
            if op in ("add", "sub", "mul"):
                r = {"add": a + b, "sub": a - b, "mul": a * b}[op]
                if s.ub and "nsw" in flags:
                    rs = {"add": sa + sb, "sub": sa - sb, "mul": sa * sb}[op]
                    if not -(1 << (w - 1)) <= rs < (1 << (w - 1)):
                        s.report(st, "ub", "signed integer overflow")
                return r & mask
            if op in ("udiv", "urem", "sdiv", "srem"):
                if b == 0:
                    s.report(st, "ub", "integer division by zero")
                    raise PathEnd("div0")
                if op == "udiv":
                    return a // b
                if op == "urem":
                    return a % b
                q = abs(sa) // abs(sb) * (1 if (sa < 0) == (sb < 0) else -1)
                return (q if op == "sdiv" else sa - q * sb) & mask
            if op in ("shl", "lshr", "ashr"):
                if b >= w:
                    s.report(st, "ub", "shift amount out of range")
                    raise PathEnd("shift")
                return {"shl": a << b, "lshr": a >> b, "ashr": sa >> b}[op] & mask
            return {"and": a & b, "or": a | b, "xor": a ^ b}[op]
        if w == 1:
            za = a if isz(a) else z3.BoolVal(bool(a))
            zb = b if isz(b) else z3.BoolVal(bool(b))
            return {"and": z3.And, "or": z3.Or, "xor": z3.Xor}[op](za, zb)
        if op in ("and", "or", "xor"):
            ba, bb = s.asbool(a), s.asbool(b)
            if ba is not None and bb is not None:
                r = {"and": z3.And, "or": z3.Or, "xor": z3.Xor}[op](ba, bb)
                return z3.If(r, z3.BitVecVal(1, w), z3.BitVecVal(0, w))
        za, zb = s.bv(a, w), s.bv(b, w)
        if s.ub and "nsw" in flags and op in ("add", "sub", "mul"):
            ok = {"add": lambda: z3.And(z3.BVAddNoOverflow(za, zb, True), z3.BVAddNoUnderflow(za, zb)),
                  "sub": lambda: z3.And(z3.BVSubNoOverflow(za, zb), z3.BVSubNoUnderflow(za, zb, True)),
                  "mul": lambda: z3.And(z3.BVMulNoOverflow(za, zb, True), z3.BVMulNoUnderflow(za, zb))}[op]()
            s.require(st, ok, "ub", "signed integer overflow")
        if op in ("udiv", "sdiv", "urem", "srem"):
            s.require(st, zb != 0, "ub", "integer division by zero")
        r = {"add": lambda: za + zb, "sub": lambda: za - zb, "mul": lambda: za * zb, "and": lambda: za & zb,
             "or": lambda: za | zb, "xor": lambda: za ^ zb, "shl": lambda: za << zb, "lshr": lambda: z3.LShR(za, zb),
             "ashr": lambda: za >> zb, "udiv": lambda: z3.UDiv(za, zb), "urem": lambda: z3.URem(za, zb),
             "sdiv": lambda: za / zb, "srem": lambda: z3.SRem(za, zb)}[op]()
        return s.isimp(r)

    def asbool(s, v):
        """the condition c of an integer If(c, 1, 0)"""
        if isinstance(v, (bool, int)):
            return z3.BoolVal(bool(v)) if v in (0, 1) else None
        if isz(v) and z3.is_bv(v) and z3.is_app(v) and v.decl().kind() == z3.Z3_OP_ITE:
            x, y = v.arg(1), v.arg(2)
            if z3.is_bv_value(x) and z3.is_bv_value(y):
                x, y = x.as_long(), y.as_long()
                if (x, y) == (1, 0):
                    return v.arg(0)
                if (x, y) == (0, 1):
                    return s.znot(v.arg(0))
        return None

    def isimp(s, r):
        r = z3.simplify(r)
        if z3.is_bv_value(r):
            return r.as_long()
        return r

    def split_op(s, op, a, b):
        """operations on the bits of a double with known exponent and symbolic mantissa"""
        if isinstance(b, Split) and op in ("and", "or", "xor", "add"):
            a, b = b, a
        if isinstance(b, Split):
            raise Unsupported("split op")
        lo = (1 << 52) - 1
        if op == "lshr":
            if b >= 52:
                return a.hi >> (b - 52)
        elif op == "and":
            bl, bh = b & lo, b >> 52
            if bl == lo:
                return Split(a.hi & bh, a.m)
            if bl == 0:
                return (a.hi & bh) << 52
        elif op in ("or", "xor"):
            if b & lo == 0:
                return Split(a.hi | (b >> 52) if op == "or" else a.hi ^ (b >> 52), a.m)
        elif op in ("add", "sub"):
            if b & lo == 0:
                return Split((a.hi + (b >> 52) if op == "add" else a.hi - (b >> 52)) & 0xfff, a.m)
        elif op == "shl" and b == 1:
            raise Unsupported("split shl")
        raise Unsupported("bit operation on symbolic mantissa: " + op)

    def require(s, st, ok, kind, label):
        """undefined-behaviour side condition"""
        if isinstance(ok, bool):
            if not ok:
                s.report(st, kind, label)
                raise PathEnd(kind)
            return
        ok = z3.simplify(ok)
        if z3.is_true(ok):
            return
        bad = z3.Not(ok)
        v, _ = s.solve(s.slice(st.pc, bad) + [bad])
        if v == "sat" and s.lazy:
            v, _ = s.solve(s.withdefs(s.slice(st.pc, bad) + [bad]))
        if v == "unsat":
            return
        s.report(st, kind, label, [bad])
        s.assume(st, ok)

    def icmp(s, st, p, t, a, b):
        if a is UNDEF or b is UNDEF:
            s.report(st, "uninit", "comparison with an uninitialised value")
            raise PathEnd("uninit")
        if t.k == "ptr":
            if isinstance(a, (Ptr, FPtr)) and isinstance(b, (Ptr, FPtr)):
                eq = a == b
                if p == "eq":
                    return eq
                if p == "ne":
                    return not eq
                if isinstance(a, Ptr) and isinstance(b, Ptr) and a.o == b.o:
                    x, y = a.off, b.off
                    return {"ult": x < y, "ule": x <= y, "ugt": x > y, "uge": x >= y}[p]
                raise Unsupported("pointer order")
            if isinstance(a, int) and isinstance(b, int):
                return {"eq": a == b, "ne": a != b}[p]
            if (isinstance(a, int) and a == 0) or (isinstance(b, int) and b == 0):
                return p in ("ne", "ugt", "uge")
            return p == "ne"
        w = t.w
        if isinstance(a, Split) or isinstance(b, Split):
            raise Unsupported("compare split")
        if isinstance(a, SInt) or isinstance(b, SInt):
            sg = p in ("slt", "sle", "sgt", "sge")
            ra = a.rf if isinstance(a, SInt) else P.rconst(to_signed(a, w) if sg else a)
            rb = b.rf if isinstance(b, SInt) else P.rconst(to_signed(b, w) if sg else b)
            op = {"eq": "==", "ne": "!=", "ult": "<", "slt": "<", "ule": "<=", "sle": "<=", "ugt": ">", "sgt": ">",
                  "uge": ">=", "sge": ">="}[p]
            return s.pcon(P.rsub(ra, rb).num, op)
        if isinstance(a, (Ptr, FPtr)) or isinstance(b, (Ptr, FPtr)):
            return s.icmp(st, p, __import__("irsym.parse", fromlist=["PTR"]).PTR, a, b)
        if isinstance(a, (int, bool)) and isinstance(b, (int, bool)):
            a, b = int(a), int(b)
            if p[0] == "s":
                a, b = to_signed(a, w), to_signed(b, w)
            return {"eq": a == b, "ne": a != b, "lt": a < b, "le": a <= b, "gt": a > b, "ge": a >= b}[
                p if p in ("eq", "ne") else p[1:]]
        if p in ("eq", "ne") and b in (0, 1) if isinstance(b, int) else False:
            c = s.asbool(a)
            if c is not None:
                return c if (p == "eq") == (b == 1) else s.znot(c)
        za, zb = s.bv(a, w), s.bv(b, w)
        r = {"eq": lambda: za == zb, "ne": lambda: za != zb, "ult": lambda: z3.ULT(za, zb),
             "ule": lambda: z3.ULE(za, zb), "ugt": lambda: z3.UGT(za, zb), "uge": lambda: z3.UGE(za, zb),
             "slt": lambda: za < zb, "sle": lambda: za <= zb, "sgt": lambda: za > zb, "sge": lambda: za >= zb}[p]()
        r = z3.simplify(r)
        if z3.is_true(r):
            return True
        if z3.is_false(r):
            return False
        return r

    def unsig(s, st, v):
        """a narrow symbolic integer (result of a truncation, kept as a signed value) read as unsigned"""
        if v.w < 64 and s.truth(st, s.pcon(v.rf.num, "<")):
            return P.radd(v.rf, P.rconst(1 << v.w))
        return v.rf

    def cast(s, st, op, t, v, t2):
        if v is UNDEF:
            return UNDEF
        if op in ("zext", "sext", "trunc"):
            w, w2 = t.w, t2.w
            if isinstance(v, bool):
                if op == "sext":
                    return ((1 << w2) - 1) if v else 0
                return int(v)
            if isz(v) and z3.is_bool(v):
                one = (1 << w2) - 1 if op == "sext" else 1
                return z3.If(v, z3.BitVecVal(one, w2), z3.BitVecVal(0, w2))
            if isinstance(v, int):
                if op == "sext":
                    return to_signed(v, w) & ((1 << w2) - 1)
                if w2 == 1:
                    return bool(v & 1)
                return v & ((1 << w2) - 1)
            if isinstance(v, SInt):
                if op == "trunc" and w2 >= 8:
                    # value modulo 2^w2, read as signed; explored up to the first wrap
                    half, full = 1 << (w2 - 1), 1 << w2
                    if s.truth(st, s.pcon(P.rsub(v.rf, P.rconst(half)).num, "<")):
                        return SInt(w2, v.rf)
                    if s.truth(st, s.pcon(P.rsub(v.rf, P.rconst(full + half)).num, "<")):
                        return SInt(w2, P.rsub(v.rf, P.rconst(full)))
                    raise PathEnd("count beyond the first wrap")
                if op == "trunc":
                    raise Unsupported("trunc of a symbolic integer")
                if op == "zext":
                    return SInt(w2, s.unsig(st, v))
                return SInt(w2, v.rf)
            if isinstance(v, (Ptr, FPtr)):
                return v
            if isinstance(v, Split):
                raise Unsupported("cast split")
            if op == "trunc" and w2 == 1:
                return z3.simplify(z3.Extract(0, 0, v) == 1)
            r = {"zext": lambda: z3.ZeroExt(w2 - w, v), "sext": lambda: z3.SignExt(w2 - w, v),
                 "trunc": lambda: z3.Extract(w2 - 1, 0, v)}[op]()
            return s.isimp(r)
        if op in ("uitofp", "sitofp"):
            if isinstance(v, (int, bool)):
                v = int(v)
                return float(to_signed(v, t.w) if op == "sitofp" and t.w > 1 else v)
            if isinstance(v, SInt):
                return s.norm(s.unsig(st, v) if op == "uitofp" else v.rf)
            if isz(v) and z3.is_bool(v):
                return 1.0 if s.truth(st, v) else 0.0
            if s.mode == "real":
                raise Unsupported("bit-vector to real")
            if not s.fp_exact:
                return s.abstract(st, op + str(t.w), [v])
            return (z3.fpSignedToFP if op == "sitofp" else z3.fpUnsignedToFP)(z3.RNE(), v, z3.Float64())
        if op in ("fptoui", "fptosi"):
            w = t2.w
            lo, hi = (0, 1 << w) if op == "fptoui" else (-(1 << (w - 1)), 1 << (w - 1))
            if isinstance(v, float):
                if v != v or math.isinf(v) or not (lo - 1 < v < hi):
                    s.report(st, "ub", "float to integer conversion out of range")
                    return 0
                return int(v) & ((1 << w) - 1)
            if isinstance(v, RF):
                ok1 = s.pcon(P.rsub(v, P.rconst(hi)).num, "<")
                ok2 = s.pcon(P.rsub(v, P.rconst(lo - 1)).num, ">")
                for ok in (ok1, ok2):
                    if isz(ok):
                        s.require(st, ok, "ub", "float to integer conversion out of range")
                    elif not ok:
                        s.report(st, "ub", "float to integer conversion out of range")
                        raise PathEnd("ub")
                return s.rtrunc(st, v) & ((1 << w) - 1)
            ok = z3.And(z3.fpLT(v, z3.FPVal(float(hi), z3.Float64())), z3.fpGT(v, z3.FPVal(float(lo - 1), z3.Float64())))
            s.require(st, ok, "ub", "float to integer conversion out of range")
            return (z3.fpToSBV if op == "fptosi" else z3.fpToUBV)(z3.RTZ(), v, z3.BitVecSort(w))
        if op == "bitcast":
            return s.conv(st, v, tyname(t), t2)
        if op in ("ptrtoint", "inttoptr"):
            return v
        if op == "fptrunc":
            if isinstance(v, float):
                return struct.unpack("<f", struct.pack("<f", v))[0] if math.isfinite(v) and abs(v) < 3.4e38 else v
            if isinstance(v, RF):
                return s.uf(st, "fptrunc", [v])
            return z3.fpFPToFP(z3.RNE(), v, z3.Float32())
        if op == "fpext":
            if isinstance(v, (float, RF)):
                return v
            return z3.fpFPToFP(z3.RNE(), v, z3.Float64())
        raise Unsupported("cast " + op)

    def rtrunc(s, st, v):
        """truncate RF to integer (concretised by forking)"""
        if st.forced:
            c = st.forced.popleft()
        else:
            vals, cons = [], [x for x in st.pc if isz(x)]
            while True:
                r, m = s.solve(cons, model=True)
                if r != "sat":
                    if r == "unknown":
                        s.incon.append("trunc: solver unknown")
                    break
                x = s.peval(m, v.num)
                for f, e in v.den:
                    x /= s.peval(m, f) ** e
                c = int(x)
                if c in vals:
                    break
                vals.append(c)
                inn = z3.And(*[z for z in s.truncrange(v, c) if isz(z)])
                cons.append(z3.Not(inn))
                if len(vals) > s.concretize_max:
                    raise Unsupported("too many integer values for a symbolic double")
            if not vals:
                raise PathEnd("dead")
            for c in vals[1:]:
                n = st.clone()
                n.forced = deque(st.taken + [c])
                s.work.append(n)
            c = vals[0]
        st.taken.append(c)
        for z in s.truncrange(v, c):
            s.assume(st, z)
        return c

    def truncrange(s, v, c):
        if c > 0:
            a, b, o1, o2 = c, c + 1, ">=", "<"
        elif c < 0:
            a, b, o1, o2 = c - 1, c, ">", "<="
        else:
            a, b, o1, o2 = -1, 1, ">", "<"
        return [s.pcon(P.rsub(v, P.rconst(a)).num, o1), s.pcon(P.rsub(v, P.rconst(b)).num, o2)]

    # ------------------------------------------------------------ uninterpreted functions
    def uf(s, st, name, args, pos=False):
        if s.mode == "fp":
            return s.abstract(st, "uf_" + name, [s.zf(a) for a in args])
        apps = st.ufs.get(name, [])
        ks = []
        for a in args:
            if isinstance(a, float) and not math.isfinite(a):
                ks.append(repr(a))
            else:
                ks.append(s.rf(a))
        for k2, at in apps:
            if len(k2) == len(ks) and all(
                    (x == y) if isinstance(x, str) or isinstance(y, str) else not P.rsub(x, y).num.d
                    for x, y in zip(ks, k2)):
                return RF(P.pvar(at))
        i = s.atom(f"{name}!{len(s.atoms)}")
        st.ufs.setdefault(name, []).append((ks, i))
        r = RF(P.pvar(i))
        if pos:
            st.pc.append(s.atoms[i] > 0)
        # functional consistency with earlier applications (Ackermann), linear arguments only
        for k2, at in apps:
            if len(k2) != len(ks):
                continue
            eqs, skip = [], False
            for x, y in zip(ks, k2):
                if isinstance(x, str) or isinstance(y, str):
                    if x != y:
                        skip = True
                    continue
                d = P.rsub(x, y).num
                c = s.pcon(d, "==")
                if c is False:
                    skip = True
                elif c is not True:
                    if d.deg() > 1 and not s.params.get("ackermann"):
                        skip = True
                    eqs.append(c)
            if skip:
                continue
            if s.params.get("no_ackermann"):
                continue
            st.pc.append(z3.Implies(z3.And(*eqs) if eqs else z3.BoolVal(True), s.atoms[at] == s.atoms[i]))
        return r

    # ------------------------------------------------------------ run
    def init_state(s):
        st = State()
        s.gaddr = {}
        M = s.M
        for name, (t, init, const) in M.globals.items():
            if init is None:
                sz = 8 if t.k == "struct" and t.fields is None else max(1, M.size(t))
                s.gaddr[name] = s.new_obj(st, sz, "external " + name, name)
                continue
            s.gaddr[name] = s.new_obj(st, max(1, M.size(t)), "global " + name, name)
        for name, (t, init, const) in M.globals.items():
            if init is None:
                continue
            o = st.mem[s.gaddr[name]]
            s.ginit(st, o, 0, t, init)
            o.ro = const
        return st

    def ginit(s, st, o, off, t, v):
        M = s.M
        if v[0] == "z":
            s.zero(o, off, t)
        elif v[0] == "str":
            for k, b in enumerate(v[1]):
                o.cells[off + k] = (1, b, "i8")
        elif v[0] == "agg":
            if t.k == "array":
                es = M.size(t.elem)
                for k, (et, x) in enumerate(v[1]):
                    s.ginit(st, o, off + k * es, et, x)
            else:
                offs, _ = M.layout(t)
                for fo, (et, x) in zip(offs, v[1]):
                    s.ginit(st, o, off + fo, et, x)
        elif v[0] == "u":
            pass
        else:
            o.cells[off] = (M.size(t), s.opval(st, None, v, t), tyname(t))

    def zero(s, o, off, t):
        M = s.M
        if t.k == "array":
            es = M.size(t.elem)
            for k in range(t.n):
                s.zero(o, off + k * es, t.elem)
        elif t.k == "struct":
            offs, _ = M.layout(t)
            for fo, ft in zip(offs, t.fields):
                s.zero(o, off + fo, ft)
        else:
            o.cells[off] = (M.size(t), 0.0 if t.k in ("double", "float") else 0, tyname(t))

    def opval(s, st, fr, v, t=None):
        k = v[0]
        if k == "r":
            return fr.regs[v[1]]
        if k == "c":
            return v[1]
        if k == "g":
            n = v[1]
            if n in s.gaddr:
                return Ptr(s.gaddr[n], 0)
            return FPtr(n)
        if k == "u":
            return UNDEF
        if k == "z":
            return 0.0 if t is not None and t.k == "double" else 0
        if k == "ce":
            _, op, bt, base, idx = v
            return s.gep(st, bt, s.opval(st, fr, base), [(None, s.opval(st, fr, i)) for i in idx])
        raise Unsupported("operand kind " + k)

    def gep(s, st, bt, base, idx, inb=False, used=False):
        M = s.M
        if base is UNDEF:
            return UNDEF
        off, t = 0, bt
        for n, (it, iv) in enumerate(idx):
            if iv is UNDEF:
                s.report(st, "uninit", "address computed from an uninitialised value")
                raise PathEnd("uninit")
            w = it.w if it is not None else 64
            if n == 0:
                sz = M.size(t)
            elif t.k == "array":
                dim, t = t.n, t.elem
                sz = M.size(t)
                if inb and dim > 1 and isinstance(iv, int):
                    # a declared array inside a larger object (flat memory alone would not show it)
                    k = to_signed(iv, w)
                    if k < 0 or k > dim or (used and k == dim):
                        s.report(st, "oob", "array index outside the array")
            else:
                offs, _ = M.layout(t)
                off += offs[iv]
                t = t.fields[iv]
                continue
            if not isinstance(iv, int):
                iv = s.concretize(st, iv, w, True)
            else:
                iv = to_signed(iv, w) if it is not None else iv
            off += iv * sz
        if isinstance(base, Ptr):
            return Ptr(base.o, base.off + off)
        if isinstance(base, int):
            if off == 0:
                return base
            return base + off
        raise Unsupported("gep on function pointer")

    def call(s, st, fname, args, res, rt, va=()):
        fname = s.stubs.get(fname, fname)
        f = s.M.funcs.get(fname)
        if f is None:
            raise Unsupported("call to undefined function " + fname)
        s.funcs_seen.add(fname)
        if len(st.frames) > 400:
            raise Unsupported("recursion too deep")
        fr = Frame(f)
        fr.res = res
        for (t, n), v in zip(f.params, args):
            fr.regs[n] = v
        fr.va = args[len(f.params):]
        st.frames.append(fr)

    def explore(s, entry, args=()):
        st = s.init_state()
        s.call(st, entry, list(args), None, None)
        s.work.append(st)
        while s.work:
            st = s.work.pop()
            if s.stat["paths"] >= s.max_paths:
                s.incon.append("path budget exhausted")
                break
            if s.deadline and time.time() > s.deadline:
                s.incon.append("time budget exhausted")
                break
            try:
                s.run(st)
                s.stat["paths"] += 1
                for c in st.covers:
                    s.covers[c] = s.covers.get(c, 0) + 1
                if len(s.witnesses) < s.want_witness:
                    v, m = s.getmodel(st)
                    if v == "sat":
                        s.witnesses.append((s.model_inputs(st, m), [(n, s.mval(m, "d", x)) for n, x in st.outs],
                                            sorted(st.covers)))
                    elif v == "unknown":
                        pass
            except PathEnd:
                s.stat["pruned"] += 1
            except Unsupported as e:
                fr = st.frames[-1] if st.frames else None
                where = ""
                if fr:
                    ins = fr.bl[fr.i] if fr.i < len(fr.bl) else ("?",)
                    where = f" at {fr.f.name}: {str(ins[-1])[:90]}"
                s.incon.append("unsupported: " + str(e) + where)
                if len(s.incon) > 20:
                    break
            s.stat["steps"] += st.steps
        return s

    def run(s, st):
        H = s.HANDLERS
        start = st.steps
        while st.frames:
            fr = st.frames[-1]
            ins = fr.bl[fr.i]
            st.taken = []
            st.instpc = len(st.pc)
            st.steps += 1
            if st.steps - start > s.max_steps:
                raise Unsupported("step budget exhausted on a path")
            if st.steps & 255 == 0 and s.deadline and time.time() > s.deadline:
                raise Unsupported("time budget exhausted")
            H[ins[0]](s, st, fr, ins)

    # handlers -------------------------------------------------
    def h_alloca(s, st, fr, ins):
        _, res, t, n, _ = ins
        k = s.opval(st, fr, n)
        if not isinstance(k, int):
            k = s.concretize(st, k, 64, False)
        o = s.new_obj(st, s.M.size(t) * k, "stack", fr.f.name)
        fr.allocas.append(o)
        fr.regs[res] = Ptr(o, 0)
        fr.i += 1

    def h_load(s, st, fr, ins):
        _, res, t, p, _ = ins
        fr.regs[res] = s.load(st, s.opval(st, fr, p), t)
        fr.i += 1

    def h_store(s, st, fr, ins):
        _, _, t, v, p, _ = ins
        s.store(st, s.opval(st, fr, p), t, s.opval(st, fr, v, t))
        fr.i += 1

    def h_gep(s, st, fr, ins):
        _, res, bt, base, idx, inb, _ = ins
        fr.regs[res] = s.gep(st, bt, s.opval(st, fr, base), [(t, s.opval(st, fr, v)) for t, v in idx], inb, len(fr.bl) > fr.i + 1 and s.derefs(fr.bl[fr.i + 1], res))
        fr.i += 1

    @staticmethod
    def derefs(ins, res):
        if ins[0] == "load":
            p = ins[3]
        elif ins[0] == "store":
            p = ins[4]
        else:
            return False
        return p == res or (isinstance(p, tuple) and p[-1] == res)

    def h_ibin(s, st, fr, ins):
        _, res, op, t, a, b, fl, _ = ins
        fr.regs[res] = s.ibin(st, op, t, s.opval(st, fr, a), s.opval(st, fr, b), fl)
        fr.i += 1

    def h_fbin(s, st, fr, ins):
        _, res, op, t, a, b, _ = ins
        if t.k == "float" and s.mode == "fp":
            raise Unsupported("float arithmetic")
        fr.regs[res] = s.fbin(st, op, s.opval(st, fr, a, t), s.opval(st, fr, b, t))
        fr.i += 1

    def h_fneg(s, st, fr, ins):
        _, res, t, a, _ = ins
        fr.regs[res] = s.fneg(st, s.opval(st, fr, a, t))
        fr.i += 1

    def h_icmp(s, st, fr, ins):
        _, res, p, t, a, b, _ = ins
        fr.regs[res] = s.icmp(st, p, t, s.opval(st, fr, a), s.opval(st, fr, b))
        fr.i += 1

    def h_fcmp(s, st, fr, ins):
        _, res, p, t, a, b, _ = ins
        fr.regs[res] = s.fcmp(st, p, s.opval(st, fr, a, t), s.opval(st, fr, b, t))
        fr.i += 1

    def h_cast(s, st, fr, ins):
        _, res, op, t, v, t2, _ = ins
        fr.regs[res] = s.cast(st, op, t, s.opval(st, fr, v, t), t2)
        fr.i += 1

    def h_select(s, st, fr, ins):
        _, res, c, t, a, b, _ = ins
        r = s.truth(st, s.opval(st, fr, c))
        fr.regs[res] = s.opval(st, fr, a if r else b, t)
        fr.i += 1

    def h_freeze(s, st, fr, ins):
        _, res, t, a, _ = ins
        fr.regs[res] = s.opval(st, fr, a, t)
        fr.i += 1

    def goto(s, st, fr, lab):
        fr.prev, fr.blk = fr.blk, lab
        bl = fr.f.blocks[lab]
        fr.bl = bl
        i, new = 0, []
        while bl[i][0] == "phi":
            _, res, t, inc, _ = bl[i]
            new.append((res, s.opval(st, fr, inc[fr.prev], t)))
            i += 1
        for r, v in new:
            fr.regs[r] = v
        fr.i = i

    def h_jmp(s, st, fr, ins):
        s.goto(st, fr, ins[2])

    def h_br(s, st, fr, ins):
        _, _, c, a, b, _ = ins
        r = s.truth(st, s.opval(st, fr, c))
        s.goto(st, fr, a if r else b)

    def h_switch(s, st, fr, ins):
        _, _, t, v, d, cases, _ = ins
        x = s.opval(st, fr, v)
        if x is UNDEF:
            s.report(st, "uninit", "branch on an uninitialised value")
            raise PathEnd("uninit")
        if isinstance(x, int):
            for cv, lab in cases:
                if cv == x:
                    return s.goto(st, fr, lab)
            return s.goto(st, fr, d)
        if isinstance(x, SInt):
            raise Unsupported("switch on symbolic integer")
        alts = [(lab + "#" + str(cv), x == cv) for cv, lab in cases]
        alts.append((d + "#d", z3.And(*[x != cv for cv, _ in cases]) if cases else True))
        tag = s.decide(st, alts)
        s.goto(st, fr, tag.rsplit("#", 1)[0])

    def h_ret(s, st, fr, ins):
        v = s.opval(st, fr, ins[2][1], ins[2][0]) if ins[2] else None
        for o in fr.allocas:
            ob = s.wobj(st, o)
            ob.alive = False
        st.frames.pop()
        if st.frames:
            c = st.frames[-1]
            if fr.res is not None:
                c.regs[fr.res] = v
            c.i += 1
        else:
            st.ret = v

    def h_unreachable(s, st, fr, ins):
        raise PathEnd("unreachable")

    def h_unsupported(s, st, fr, ins):
        raise Unsupported("instruction " + ins[2])

    def h_call(s, st, fr, ins):
        _, res, rt, callee, args, _ = ins
        c = s.opval(st, fr, callee)
        if isinstance(c, int):
            s.report(st, "null", "call through a null function pointer")
            raise PathEnd("null call")
        if c is UNDEF:
            s.report(st, "uninit", "call through an uninitialised function pointer")
            raise PathEnd("uninit call")
        if not isinstance(c, FPtr):
            raise Unsupported(f"call through {c!r}")
        av = [s.opval(st, fr, v, t) for t, v in args]
        name = c.name
        if name.startswith("llvm."):
            s.intrinsic(st, fr, name, av)
            fr.i += 1
            return
        if name.startswith("V_"):
            h = getattr(s, "v_" + name[2:], None)
            if h is None:
                raise Unsupported("intrinsic " + name)
            r = h(st, av)
            if res is not None:
                fr.regs[res] = r
            fr.i += 1
            return
        if name in s.extern and s.stubs.get(name) is None and name not in s.M.funcs:
            r = s.extern[name](s, st, av)
            if res is not None:
                fr.regs[res] = r
            fr.i += 1
            return
        s.call(st, name, av, res, rt)
        nf = st.frames[-1]
        if nf.f.vararg:
            nf.va = [(t, v) for (t, _), v in zip(args, av)][len(nf.f.params):]

    def va_start(s, st, fr, p):
        """x86-64 va_list with exhausted register areas: every argument is taken from the overflow area, 8 bytes each"""
        i = s.new_obj(st, 8 * len(fr.va), "stack", "varargs")
        fr.allocas.append(i)
        o = s.wobj(st, i)
        for k, (t, v) in enumerate(fr.va):
            s.put(o, 8 * k, s.M.size(t), v, tyname(t))
        lo, off = s.access(st, p, 24, "write")
        lo = s.wobj(st, p.o)
        s.put(lo, off, 4, 48, "i32")
        s.put(lo, off + 4, 4, 176, "i32")
        s.put(lo, off + 8, 8, Ptr(i, 0), "ptr")
        s.put(lo, off + 16, 8, 0, "ptr")

    def intrinsic(s, st, fr, name, a):
        if name.startswith("llvm.va_start"):
            s.va_start(st, fr, a[0])
            return
        if name.startswith("llvm.va_end"):
            return
        if name.startswith("llvm.memcpy") or name.startswith("llvm.memmove"):
            s.memcpy(st, a[0], a[1], a[2])
        elif name.startswith("llvm.memset"):
            n = a[2] if isinstance(a[2], int) else s.concretize(st, a[2], 64, False)
            if n:
                o, off = s.access(st, a[0], n, "write")
                o = s.wobj(st, a[0].o)
                for k in range(n):
                    s.put(o, off + k, 1, a[1], "i8")
        elif name.startswith("llvm.lifetime") or name.startswith("llvm.dbg") or name.startswith("llvm.assume"):
            pass
        elif name.startswith("llvm.fabs"):
            v = a[0]
            neg = s.truth(st, s.fcmp(st, "olt", v, 0.0))
            fr_res = fr.bl[fr.i][1]
            fr.regs[fr_res] = s.fneg(st, v) if neg else v
        elif name.startswith("llvm.fmuladd") or name.startswith("llvm.fma"):
            fr.regs[fr.bl[fr.i][1]] = s.fbin(st, "fadd", s.fbin(st, "fmul", a[0], a[1]), a[2])
        elif name.startswith("llvm.is.fpclass"):
            v, k = a[0], a[1]
            res = fr.bl[fr.i][1]
            if v is UNDEF:
                s.report(st, "uninit", "use of an uninitialised value")
                raise PathEnd("uninit")
            r = False
            if isinstance(v, float):
                r = bool((k & 3 and v != v) or (k & 0x204 and math.isinf(v) and (k & (0x200 if v > 0 else 4)))
                         or (k & 0x60 and v == 0) or (k & 0x198 and v == v and math.isfinite(v) and v != 0))
            elif s.mode == "real":
                r = True if k & 0x1f8 == 0x1f8 else s.pcon(v.num, "==") if k & 0x60 == 0x60 else False
            else:
                al = []
                if k & 3:
                    al.append(z3.fpIsNaN(v))
                if k & 0x204 == 0x204:
                    al.append(z3.fpIsInf(v))
                elif k & 0x200:
                    al.append(z3.And(z3.fpIsInf(v), z3.fpIsPositive(v)))
                elif k & 4:
                    al.append(z3.And(z3.fpIsInf(v), z3.fpIsNegative(v)))
                if k & 0x60:
                    al.append(z3.fpIsZero(v))
                if k & 0x198:
                    al.append(z3.Or(z3.fpIsNormal(v), z3.fpIsSubnormal(v)))
                r = z3.Or(*al) if al else False
            fr.regs[res] = r
        elif name.startswith("llvm.copysign"):
            res = fr.bl[fr.i][1]
            n1 = s.truth(st, s.fcmp(st, "olt", a[0], 0.0))
            n2 = s.truth(st, s.fcmp(st, "olt", a[1], 0.0))
            fr.regs[res] = s.fneg(st, a[0]) if n1 != n2 else a[0]
        elif name.startswith("llvm.minnum") or name.startswith("llvm.maxnum"):
            res = fr.bl[fr.i][1]
            if s.truth(st, s.fcmp(st, "uno", a[0], a[0])):
                fr.regs[res] = a[1]
            elif s.truth(st, s.fcmp(st, "uno", a[1], a[1])):
                fr.regs[res] = a[0]
            else:
                c = s.truth(st, s.fcmp(st, "olt", a[0], a[1]))
                fr.regs[res] = a[0] if c == ("min" in name) else a[1]
        elif name.startswith("llvm.trap"):
            raise PathEnd("trap")
        else:
            raise Unsupported("intrinsic " + name)

    def cstring(s, st, p):
        o = st.mem[p.o]
        out = bytearray()
        k = p.off
        while True:
            b = s.byte(o, k)
            if not b:
                return out.decode("latin1")
            out.append(b)
            k += 1

    # harness intrinsics -----------------------------------------
    def fresh_real(s, st, name):
        i = s.atom(f"{name}!{len(s.atoms)}")
        return RF(P.pvar(i))

    def v_double(s, st, a):
        name = s.cstring(st, a[0])
        if s.mode == "real":
            v = s.fresh_real(st, name)
        else:
            st.nfresh += 1
            v = z3.FP(f"{name}!{st.nfresh}", z3.Float64())
        st.inputs.append(("d", name, v))
        return v

    def v_uf(s, st, a):
        """arbitrary (uninterpreted) function value: (name, nargs, ...)"""
        name = s.cstring(st, a[0])
        n = a[1]
        v = s.uf(st, name, a[2:2 + n])
        st.inputs.append(("u", name, v))
        return v

    def v_log(s, st, a):
        x = a[0]
        if isinstance(x, float):
            if x == 1.0:
                return 0.0
            if x == 0.0:
                return -INF
            if x != x or x < 0:
                return NAN
            if x == INF:
                return INF
        if s.mode == "real":
            s_ = s.sign(st, s.rf(x))
            if s_ < 0:
                return NAN
            if s_ == 0:
                return -INF
            inv = s.inverse_of(st, "exp", x)
            if inv is not None:
                return inv
        n = len(st.ufs.get("log", ()))
        r = s.uf(st, "log", [x])
        s.mono(st, "log", n)
        return r

    def inverse_of(s, st, name, x):
        """x is exactly an earlier application name(y): return y"""
        if isinstance(x, RF) and not x.den and len(x.num.d) == 1:
            (m, c), = x.num.d.items()
            if c == 1 and len(m) == 1:
                for ks, at in st.ufs.get(name, ()):
                    if at == m[0] and not isinstance(ks[0], str):
                        return s.norm(ks[0])
        return None

    def mono(s, st, name, n):
        """order axioms relating the newest application of log/exp to the earlier ones and to its fixed points"""
        apps = st.ufs.get(name, ())
        if s.mode != "real" or not s.params.get("mono") or len(apps) == n:
            return
        (k,), at = apps[-1]
        if isinstance(k, str):
            return
        v = s.atoms[at]
        pivot, val = (1, 0) if name == "log" else (0, 1)
        g = s.pcon(P.rsub(k, P.rconst(pivot)).num, ">")
        e = s.pcon(P.rsub(k, P.rconst(pivot)).num, "==")
        st.pc.append((v > val) == g)
        st.pc.append((v == val) == e)
        for (k2,), a2 in apps[:-1]:
            if isinstance(k2, str):
                continue
            d = P.rsub(k, k2).num
            st.pc.append((v > s.atoms[a2]) == s.pcon(d, ">"))
            st.pc.append((v == s.atoms[a2]) == s.pcon(d, "=="))

    def v_exp(s, st, a):
        x = a[0]
        if isinstance(x, float):
            if x == 0.0:
                return 1.0
            if x == -INF:
                return 0.0
            if x == INF:
                return INF
            if x != x:
                return NAN
        if s.mode == "real":
            inv = s.inverse_of(st, "log", x)
            if inv is not None:
                return inv
        n = len(st.ufs.get("exp", ()))
        r = s.uf(st, "exp", [x], pos=s.mode == "real")
        s.mono(st, "exp", n)
        return r

    def shared_atom(s, st, name):
        """the n-th variable of that name on a path is the same variable on every path (queries are then shared)"""
        k = ("shared", name)
        st.defs[k] = n = st.defs.get(k, 0) + 1
        i = s.shared.get((name, n))
        if i is None:
            i = s.shared[(name, n)] = s.atom(f"{name}!s{n}")
        return i

    def v_reduced(s, st, a):
        """arbitrary double k*L + v, 0 <= v < L, L the double nearest to ln 2 (k < 0: the opposite)"""
        k = to_signed(a[0], 32)
        name = s.cstring(st, a[1])
        L = F(float.fromhex("0x1.62e42fefa39efp-1"))
        i = s.shared_atom(st, name)
        st.defs[i] = "red"
        st.pc.append(s.pcon(P.pvar(i), ">="))
        st.pc.append(s.pcon(P.psub(P.pvar(i), P.pconst(L)), "<"))
        n = k if k >= 0 else -k - 1
        v = P.radd(P.rconst(n * L), RF(P.pvar(i)))
        if k < 0:
            v = P.rneg(v)
        st.inputs.append(("d", name, v))
        return v

    def v_check_ln(s, st, a):
        from . import mathchk
        mathchk.check_ln(s, st, a[0], a[1], a[2], a[3], s.cstring(st, a[4]))

    def v_check_exp(s, st, a):
        from . import mathchk
        mathchk.check_exp(s, st, a[0], a[1], a[2], s.cstring(st, a[3]))

    def v_binade(s, st, a):
        """arbitrary positive double with the given binary exponent: 2^e * m, m in [1,2) (real mode)"""
        e = to_signed(a[0], 32)
        name = s.cstring(st, a[1])
        if s.mode != "real":
            raise Unsupported("V_binade in fp mode")
        i = s.shared_atom(st, name)
        st.defs[i] = "mant"
        st.pc.append(s.pcon(P.psub(P.pvar(i), P.ONE), ">="))
        st.pc.append(s.pcon(P.psub(P.pvar(i), P.pconst(2)), "<"))
        v = P.rmul(P.rconst(F(2) ** e), RF(P.pvar(i)))
        st.inputs.append(("d", name, v))
        return v

    def v_int(s, st, a):
        name = s.cstring(st, a[0])
        st.nfresh += 1
        v = z3.BitVec(f"{name}!{st.nfresh}", 32)
        st.inputs.append(("i", name, v))
        return v

    def v_ulong(s, st, a):
        name = s.cstring(st, a[0])
        st.nfresh += 1
        v = z3.BitVec(f"{name}!{st.nfresh}", 64)
        st.inputs.append(("l", name, v))
        return v

    def v_count(s, st, a):
        """a symbolic counter (non-negative integer below 2^52, never wrapping within the harness)"""
        name = s.cstring(st, a[0])
        if s.mode == "real":
            r = s.fresh_real(st, name)
            st.pc.append(s.pcon(r.num, ">="))
            v = SInt(64, r)
        else:
            st.nfresh += 1
            v = z3.BitVec(f"{name}!{st.nfresh}", 64)
            st.pc.append(z3.ULT(v, z3.BitVecVal(1 << 52, 64)))
        st.inputs.append(("l", name, v))
        return v

    def v_choose(s, st, a):
        lo, hi = to_signed(a[0], 32), to_signed(a[1], 32)
        name = s.cstring(st, a[2])
        fix = s.params.get("choose", {}).get(name)
        if fix is not None:
            if not isinstance(fix, (list, tuple)):
                fix = [fix]
            fix = [x for x in fix if lo <= x <= hi]
            if not fix:
                raise PathEnd("choice outside job")
            v = s.decide(st, [(k, True if len(fix) == 1 else z3.BoolVal(True)) for k in fix]) if len(fix) == 1 else \
                s.choose(st, fix)
        else:
            v = s.choose(st, list(range(lo, hi + 1)))
        st.inputs.append(("i", name, v))
        return v & 0xffffffff

    def choose(s, st, vals):
        if st.forced:
            t = st.forced.popleft()
            st.taken.append(t)
            return t
        for k in vals[1:]:
            n = st.clone()
            n.forced = deque(st.taken + [k])
            s.work.append(n)
        st.taken.append(vals[0])
        return vals[0]

    def v_param(s, st, a):
        name = s.cstring(st, a[0])
        v = s.params.get("p", {}).get(name)
        if v is None:
            v = to_signed(a[1], 32)
        st.inputs.append(("i", name, v))
        return v & 0xffffffff

    def boolof(s, v):
        if isinstance(v, bool):
            return v
        if isinstance(v, int):
            return v != 0
        if v is UNDEF:
            return UNDEF
        if z3.is_bool(v):
            return v
        r = z3.simplify(v != 0)
        if z3.is_true(r):
            return True
        if z3.is_false(r):
            return False
        return r

    def v_assume(s, st, a):
        b = s.boolof(a[0])
        if isinstance(b, bool):
            if not b:
                raise PathEnd("assume")
            return
        if not s.feasible(st, b):
            raise PathEnd("assume")
        s.assume(st, b)

    def v_check(s, st, a):
        label = s.cstring(st, a[1])
        s.stat["checks"] += 1
        b = s.boolof(a[0])
        if b is UNDEF:
            s.report(st, "uninit", "check on uninitialised value: " + label)
            return
        if b is True:
            s.stat["by_norm"] += 1
            s.stat["discharged"] += 1
            return
        if b is False:
            if label.startswith("model:"):
                raise Unsupported(label)
            if s.report(st, "check", label) == "unsat":  # the path itself is infeasible
                s.stat["discharged"] += 1
            raise PathEnd("violated")
        if label.startswith("model:"):
            raise Unsupported(label)
        bad = z3.Not(b)
        s.check_query(st, bad, label)
        s.assume(st, b)
        if not s.feasible(st, b):
            raise PathEnd("violated everywhere")

    def check_query(s, st, bad, label):
        v, _ = s.solve(s.slice(st.pc, bad) + [bad])
        if v == "unsat":
            s.stat["discharged"] += 1
            return True
        if v == "sat":
            if s.report(st, "check", label, [bad]) == "unsat":  # on the full path condition
                s.stat["discharged"] += 1
                return True
            return False
        # unknown: second chance with a longer limit on the full path condition
        v, _ = s.solve(s.withdefs([c for c in st.pc if isz(c)] + [bad]), ms=4 * s.q_ms)
        if v == "unsat":
            s.stat["discharged"] += 1
            return True
        if v == "sat":
            s.report(st, "check", label, [bad])
            return False
        s.incon.append("check undecided: " + label)
        return False

    def v_check_close(s, st, a):
        """|x-y| <= rtol*max(|x|,|y|) + atol; special values must agree"""
        x, y, rt, at = a[0], a[1], a[2], a[3]
        label = s.cstring(st, a[4])
        s.stat["checks"] += 1
        if x is UNDEF or y is UNDEF:
            s.report(st, "uninit", "check on uninitialised value: " + label)
            return
        if isinstance(x, float) and isinstance(y, float):
            ok = (x != x and y != y) or x == y or (
                math.isfinite(x) and math.isfinite(y) and abs(x - y) <= rt * max(abs(x), abs(y)) + at)
            if ok:
                s.stat["by_norm"] += 1
                s.stat["discharged"] += 1
            else:
                if s.report(st, "check", label) == "unsat":  # the path itself is infeasible
                    s.stat["discharged"] += 1
                raise PathEnd("violated")
            return
        if s.mode == "real":
            if (isinstance(x, float) and not math.isfinite(x)) or (isinstance(y, float) and not math.isfinite(y)):
                if s.report(st, "check", label) == "unsat":  # the path itself is infeasible
                    s.stat["discharged"] += 1
                raise PathEnd("violated")
            rx, ry = s.rf(x), s.rf(y)
            d = P.rsub(rx, ry)
            if not d.num.d:
                s.stat["by_norm"] += 1
                s.stat["discharged"] += 1
                return
            # |d| > rt*|x| + rt*|y| + at  (stronger disagreement than max: used only to ask for a violation)
            D = P.denpoly(d.den)
            zd = s.pz(d.num)
            sc = P.radd(rx, RF(P.ZERO))
            lhs = z3.If(zd >= 0, zd, -zd)
            # bring |x|,|y| to the same denominator
            nx, ny = s.over(rx, d.den), s.over(ry, d.den)
            if nx is None or ny is None:
                tolr = s.pz(P.pscale(D, F(at))) if at else z3.RealVal(0)
                bad = lhs > tolr
            else:
                zx, zy = s.pz(nx), s.pz(ny)
                mx = z3.If(zx >= 0, zx, -zx)
                my = z3.If(zy >= 0, zy, -zy)
                bad = lhs > z3.Q(F(rt).numerator, F(rt).denominator) * (mx + my) + s.pz(P.pscale(D, F(at)))
            # first the cheap, stronger claim: exact equality on the path
            v, _ = s.solve(s.slice(st.pc, zd != 0) + [zd != 0], ms=min(3000, s.q_ms))
            if v == "unsat":
                s.stat["discharged"] += 1
                return
            s.check_query(st, bad, label)
            return
        zx, zy = s.zf(x), s.zf(y)
        if zx.eq(zy):
            s.stat["by_norm"] += 1
            s.stat["discharged"] += 1
            return
        bad = z3.Not(z3.Or(zx == zy, z3.fpEQ(zx, zy)))
        s.check_query(st, bad, label)

    def over(s, r, den):
        dd = dict(den)
        n = r.num
        for f, e in r.den:
            if dd.get(f, 0) < e:
                return None
        for f, e in dd.items():
            n = P.pmul(n, P.ppow(f, e - dict(r.den).get(f, 0)))
        return n

    def v_cover(s, st, a):
        st.covers.add(s.cstring(st, a[0]))

    def v_out(s, st, a):
        st.outs.append((s.cstring(st, a[0]), a[1]))

    def v_symbolic(s, st, a):
        return 1

    def v_malloc(s, st, a):
        n = a[0]
        if not isinstance(n, int):
            n = s.concretize(st, n, 64, False)
        o = s.new_obj(st, n, "heap", f"malloc({n})")
        return Ptr(o, 0)

    def v_free(s, st, a):
        p = a[0]
        if isinstance(p, int) and p == 0:
            return
        if p is UNDEF:
            s.report(st, "uninit", "free of an uninitialised pointer")
            raise PathEnd("x")
        if not isinstance(p, Ptr) or p.o not in st.mem or not st.mem[p.o].kind == "heap" or p.off != 0:
            s.report(st, "badfree", "free of a pointer that was not allocated")
            raise PathEnd("badfree")
        o = s.wobj(st, p.o)
        if not o.alive:
            s.report(st, "badfree", "double free")
            raise PathEnd("double free")
        o.alive = False

    def v_live(s, st, a):
        return sum(1 for o in st.mem.values() if o.kind == "heap" and o.alive)

    def v_is_live(s, st, a):
        p = a[0]
        return int(isinstance(p, Ptr) and p.o in st.mem and st.mem[p.o].alive)

    def v_objsize(s, st, a):
        p = a[0]
        return st.mem[p.o].size if isinstance(p, Ptr) else 0

    def v_isundef(s, st, a):
        return 0

    def v_same(s, st, a):
        """exact identity of two doubles (same bits; NaN equals NaN)"""
        x, y = a[0], a[1]
        if x is UNDEF or y is UNDEF:
            return int(x is y)
        if isinstance(x, float) and isinstance(y, float):
            return int(x == y or (x != x and y != y))
        if s.mode == "real":
            if (isinstance(x, float) and not math.isfinite(x)) or (isinstance(y, float) and not math.isfinite(y)):
                return 0
            return s.b2i(s.pcon(P.rsub(s.rf(x), s.rf(y)).num, "=="))
        zx, zy = s.zf(x), s.zf(y)
        if zx.eq(zy):
            return 1
        return s.b2i(z3.Or(zx == zy, z3.fpEQ(zx, zy)))

    def b2i(s, b):
        if isinstance(b, bool):
            return int(b)
        return z3.If(b, z3.BitVecVal(1, 32), z3.BitVecVal(0, 32))

    def v_concrete(s, st, a):
        """case split on the value of a symbolic integer, every feasible value explored"""
        return a[0] if isinstance(a[0], int) else s.concretize(st, a[0], 64, False)

    def v_stop(s, st, a):
        raise PathEnd("stop")

    def v_note(s, st, a):
        st.trace.append(s.cstring(st, a[0]))


Engine.HANDLERS = {k[2:]: v for k, v in Engine.__dict__.items() if k.startswith("h_")}


def _x_memcpy(s, st, a):
    s.memcpy(st, a[0], a[1], a[2])
    return a[0]


def _x_memset(s, st, a):
    n = a[2] if isinstance(a[2], int) else s.concretize(st, a[2], 64, False)
    if n:
        o, off = s.access(st, a[0], n, "write")
        o = s.wobj(st, a[0].o)
        for k in range(n):
            s.put(o, off + k, 1, a[1] & 255 if isinstance(a[1], int) else a[1], "i8")
    return a[0]


def _x_fabs(s, st, a):
    return s.fneg(st, a[0]) if s.truth(st, s.fcmp(st, "olt", a[0], 0.0)) else a[0]


def _x_strlen(s, st, a):
    return len(s.cstring(st, a[0]))


EXTERN = dict(memcpy=_x_memcpy, memmove=_x_memcpy, memset=_x_memset, fabs=_x_fabs, strlen=_x_strlen)


def tyname(t):
    if t.k == "int":
        return "i%d" % t.w
    return t.k


def cfbin(op, a, b):
    if op == "fadd":
        return a + b
    if op == "fsub":
        return a - b
    if op == "fmul":
        return a * b
    if op == "fdiv":
        if b == 0.0:
            if a == 0.0 or a != a:
                return NAN
            return math.copysign(INF, a) * math.copysign(1.0, b)
        return a / b
    raise Unsupported(op)


def fpval(r):
    if z3.is_fp_value(r):
        if r.isNaN():
            return NAN
        if r.isInf():
            return -INF if r.isNegative() else INF
        if r.isZero():
            return -0.0 if r.isNegative() else 0.0
        b = z3.simplify(z3.fpToIEEEBV(r))
        return struct.unpack("<d", struct.pack("<Q", b.as_long()))[0]
    r = z3.simplify(r)
    if z3.is_fp_value(r):
        return fpval(r)
    return 0.0
