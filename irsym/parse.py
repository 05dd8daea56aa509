"""Parser for the textual LLVM IR (clang 18, opaque pointers) that the checks regenerate from /repo
on every run.  Only the constructs clang -O0 + mem2reg emits for plain C are supported; anything else
raises Unsupported, which makes a check inconclusive (never a silent pass)."""
import re, struct


class Unsupported(Exception):
    pass


# ---------------------------------------------------------------- types
class T:
    __slots__ = ("k", "w", "elem", "n", "name", "fields", "packed")

    def __init__(s, k, w=0, elem=None, n=0, name=None, fields=None, packed=False):
        s.k, s.w, s.elem, s.n, s.name, s.fields, s.packed = k, w, elem, n, name, fields, packed

    def __repr__(s):
        return f"T({s.k},{s.w},{s.name})"


VOID, PTR, DBL, FLT, LABEL, META = T("void"), T("ptr"), T("double"), T("float"), T("label"), T("metadata")
X86FP = T("x86_fp80")
INTS = {}


def INT(w):
    if w not in INTS:
        INTS[w] = T("int", w)
    return INTS[w]


TOK = re.compile(
    r'\s*(;.*$|c"(?:[^"\\]|\\.)*"|"(?:[^"\\]|\\.)*"|[%@](?:"[^"]*"|[-\w.$]+)|![-\w.$]*|#\d+|\.\.\.|'
    r'-?\d+\.\d+e[+-]?\d+|-?0x[KMLHR]?[0-9A-Fa-f]+|-?\d+|[A-Za-z_][\w.]*|[\[\](){}<>,=*|:])')


def tokenize(s):
    out, i, n = [], 0, len(s)
    while i < n:
        m = TOK.match(s, i)
        if not m:
            if s[i:].strip() == "":
                break
            raise Unsupported("lex: " + s[i:i + 60])
        t = m.group(1)
        i = m.end()
        if t.startswith(";"):
            break
        out.append(t)
    return out


class Toks:
    def __init__(s, toks):
        s.t, s.i = toks, 0

    def peek(s, k=0):
        return s.t[s.i + k] if s.i + k < len(s.t) else None

    def next(s):
        v = s.t[s.i]
        s.i += 1
        return v

    def accept(s, v):
        if s.peek() == v:
            s.i += 1
            return True
        return False

    def expect(s, v):
        g = s.next()
        if g != v:
            raise Unsupported(f"expected {v} got {g} in {' '.join(s.t)}")


ATTRS = {"noundef", "nonnull", "noalias", "nocapture", "readonly", "writeonly", "signext", "zeroext", "immarg",
         "returned", "inreg", "nofree", "readnone", "dso_local", "local_unnamed_addr", "unnamed_addr", "internal",
         "private", "external", "common", "weak", "hidden", "default", "protected", "linkonce_odr", "tail", "musttail",
         "notail", "fastcc", "ccc", "nnan", "ninf", "nsz", "arcp", "contract", "afn", "reassoc", "fast",
         "available_externally", "linkonce", "weak_odr", "noinline", "nounwind", "noreturn", "extern_weak", "nneg",
         "disjoint", "samesign"}


class Module:
    def __init__(s):
        s.structs, s.globals, s.funcs, s.decls = {}, {}, {}, {}

    # -------- types
    def ty(s, tk):
        t = tk.next()
        if t == "ptr":
            r = PTR
        elif t == "double":
            r = DBL
        elif t == "float":
            r = FLT
        elif t == "void":
            r = VOID
        elif t == "label":
            r = LABEL
        elif t == "metadata":
            r = META
        elif t == "x86_fp80":
            r = X86FP
        elif re.fullmatch(r"i\d+", t):
            r = INT(int(t[1:]))
        elif t == "[":
            n = int(tk.next())
            tk.expect("x")
            e = s.ty(tk)
            tk.expect("]")
            r = T("array", elem=e, n=n)
        elif t == "{":
            r = s._body(tk, "}")
        elif t == "<":
            if tk.peek() == "{":
                tk.next()
                r = s._body(tk, "}")
                r.packed = True
                tk.expect(">")
            else:
                raise Unsupported("vector type")
        elif t.startswith("%"):
            r = s.structs.setdefault(t, T("struct", name=t))
        else:
            raise Unsupported("type " + t)
        # function type "ret (args...)" : only used in calls through varargs signatures
        return r

    def _body(s, tk, close):
        fields = []
        if not tk.accept(close):
            while True:
                fields.append(s.ty(tk))
                if tk.accept(close):
                    break
                tk.expect(",")
        return T("struct", fields=fields)

    def align(s, t):
        if t.k == "int":
            b = max(1, (t.w + 7) // 8)
            return min(16, 1 << (b - 1).bit_length())
        if t.k in ("ptr", "double"):
            return 8
        if t.k == "float":
            return 4
        if t.k == "x86_fp80":
            return 16
        if t.k == "array":
            return s.align(t.elem)
        if t.k == "struct":
            if t.packed:
                return 1
            return max([1] + [s.align(f) for f in s.sfields(t)])
        raise Unsupported("align " + t.k)

    def sfields(s, t):
        if t.fields is None:
            raise Unsupported("opaque struct " + str(t.name))
        return t.fields

    def size(s, t):
        if t.k == "int":
            b = max(1, (t.w + 7) // 8)
            return 1 << (b - 1).bit_length()
        if t.k in ("ptr", "double"):
            return 8
        if t.k == "float":
            return 4
        if t.k == "x86_fp80":
            return 16
        if t.k == "array":
            return t.n * s.size(t.elem)
        if t.k == "struct":
            offs, sz = s.layout(t)
            return sz
        raise Unsupported("sizeof " + t.k)

    def layout(s, t):
        r = s._lay.get(id(t))
        if r is None:
            r = (t, s.layout0(t))
            s._lay[id(t)] = r
        return r[1]

    _lay = {}

    def layout0(s, t):
        off, offs, al = 0, [], 1
        for f in s.sfields(t):
            a = 1 if t.packed else s.align(f)
            al = max(al, a)
            off = (off + a - 1) // a * a
            offs.append(off)
            off += s.size(f)
        return offs, (off + al - 1) // al * al

    # -------- values.  Operand encodings:
    # ('r',name) register, ('c',python value) constant (int / float), ('g',name,offset) global address,
    # ('u',) undef, ('z',) zeroinitializer, ('agg',[...]), ('str',bytes), ('ce',op,...)
    def val(s, tk, t):
        v = tk.next()
        if v[0] == "%":
            return ("r", v)
        if v[0] == "@":
            return ("g", v[1:].strip('"'), 0)
        if v in ("null", "none"):
            return ("c", 0)
        if v in ("undef", "poison"):
            return ("u",)
        if v == "zeroinitializer":
            return ("z",)
        if v == "true":
            return ("c", True)
        if v == "false":
            return ("c", False)
        if t.k in ("double", "float"):
            return ("c", fpconst(v))
        if t.k == "int" and re.fullmatch(r"-?\d+", v):
            i = int(v)
            return ("c", bool(i & 1)) if t.w == 1 else ("c", i & ((1 << t.w) - 1))
        if v.startswith('c"'):
            return ("str", cstr(v[2:-1]))
        if v == "[" or v == "{":
            close = "]" if v == "[" else "}"
            vals = []
            if not tk.accept(close):
                while True:
                    et = s.ty(tk)
                    vals.append((et, s.val(tk, et)))
                    if tk.accept(close):
                        break
                    tk.expect(",")
            return ("agg", vals)
        if v == "<" and tk.peek() == "{":
            r = s.val(tk, t)
            tk.expect(">")
            return r
        if v == "getelementptr":
            while tk.peek() in ("inbounds", "nuw", "nusw"):
                tk.next()
            tk.expect("(")
            bt = s.ty(tk)
            tk.expect(",")
            s.ty(tk)
            base = s.val(tk, PTR)
            idx = []
            while tk.accept(","):
                it = s.ty(tk)
                idx.append(s.val(tk, it))
            tk.expect(")")
            return ("ce", "gep", bt, base, idx)
        if v in ("inttoptr", "ptrtoint", "bitcast"):
            tk.expect("(")
            ft = s.ty(tk)
            x = s.val(tk, ft)
            tk.expect("to")
            s.ty(tk)
            tk.expect(")")
            return x
        raise Unsupported("operand " + v + " in " + " ".join(tk.t)[:120])

    def skip_attrs(s, tk):
        while True:
            p = tk.peek()
            if p is None:
                return
            if p in ATTRS:
                tk.next()
            elif p in ("align", "addrspace", "thread_local"):
                tk.next()
                if tk.peek() == "(":
                    while tk.next() != ")":
                        pass
                elif p == "align":
                    tk.next()
            elif p in ("dereferenceable", "dereferenceable_or_null", "byval", "sret", "memory", "captures", "range",
                       "allocsize", "nofpclass"):
                tk.next()
                if tk.peek() == "(":
                    d = 0
                    while True:
                        x = tk.next()
                        d += (x == "(") - (x == ")")
                        if d == 0:
                            break
            else:
                return


def fpconst(v):
    if v.startswith("0x"):
        h = v[2:]
        if h[0] in "KMLHR":
            raise Unsupported("fp const " + v)
        return struct.unpack(">d", bytes.fromhex(h.zfill(16)))[0]
    return float(v)


def cstr(x):
    out, i = bytearray(), 0
    while i < len(x):
        if x[i] == "\\":
            if x[i + 1] == "\\":
                out.append(92)
                i += 2
            else:
                out.append(int(x[i + 1:i + 3], 16))
                i += 3
        else:
            out.append(ord(x[i]))
            i += 1
    return bytes(out)


class Func:
    def __init__(s, name, ret, params, vararg):
        s.name, s.ret, s.params, s.vararg = name, ret, params, vararg
        s.blocks, s.entry = {}, None
        s.ninstr = 0


CASTS = {"zext", "sext", "trunc", "fptoui", "fptosi", "uitofp", "sitofp", "fptrunc", "fpext", "ptrtoint", "inttoptr",
         "bitcast"}
IBIN = {"add", "sub", "mul", "udiv", "sdiv", "urem", "srem", "shl", "lshr", "ashr", "and", "or", "xor"}
FBIN = {"fadd", "fsub", "fmul", "fdiv", "frem"}


def parse(text):
    M = Module()
    lines = text.split("\n")
    # struct definitions first
    for ln in lines:
        m = re.match(r"^(%[-\w.\"$]+) = type (.*)$", ln)
        if m:
            t = M.structs.setdefault(m.group(1), T("struct", name=m.group(1)))
            if m.group(2).startswith("opaque"):
                continue
            b = M.ty(Toks(tokenize(m.group(2))))
            t.fields, t.packed = b.fields, b.packed
    i, n = 0, len(lines)
    while i < n:
        ln = lines[i]
        if ln.startswith("@"):
            _global(M, ln)
        elif ln.startswith("define "):
            i = _define(M, lines, i)
        elif ln.startswith("declare "):
            m = re.search(r"@(\"[^\"]+\"|[-\w.$]+)\(", ln)
            M.decls[m.group(1).strip('"')] = ln
        i += 1
    return M


def _global(M, ln):
    tk = Toks(tokenize(ln))
    name = tk.next()[1:].strip('"')
    tk.expect("=")
    ext, const = False, False
    while True:
        p = tk.peek()
        if p in ("external", "extern_weak"):
            ext = True
            tk.next()
        elif p in ATTRS:
            tk.next()
        elif p in ("global", "constant"):
            const = tk.next() == "constant"
            break
        elif p == "thread_local":
            tk.next()
            if tk.accept("("):
                tk.next()
                tk.expect(")")
        else:
            raise Unsupported("global " + ln[:100])
    t = M.ty(tk)
    init = None if ext else M.val(tk, t)
    M.globals[name] = (t, init, const)


def _define(M, lines, i):
    hdr = lines[i]
    tk = Toks(tokenize(hdr))
    tk.expect("define")
    M.skip_attrs(tk)
    ret = M.ty(tk)
    M.skip_attrs(tk)
    name = tk.next()[1:].strip('"')
    tk.expect("(")
    params, vararg = [], False
    k = 0
    if not tk.accept(")"):
        while True:
            if tk.accept("..."):
                vararg = True
            else:
                t = M.ty(tk)
                M.skip_attrs(tk)
                if tk.peek() and tk.peek()[0] == "%":
                    params.append((t, tk.next()))
                else:
                    params.append((t, "%" + str(k)))
                k += 1
            if tk.accept(")"):
                break
            tk.expect(",")
    f = Func(name, ret, params, vararg)
    cur = "%" + str(len(params))
    first = True
    i += 1
    body = []
    while lines[i] != "}":
        ln = lines[i]
        m = re.match(r'^("[^"]+"|[-\w.$]+):', ln)
        if m:
            lab = "%" + m.group(1)
            if first and not body:
                cur = lab
            else:
                f.blocks[cur] = body
            if f.entry is None and not body and cur == lab:
                pass
            if first:
                if body:
                    f.entry = f.entry or list(f.blocks)[0]
                first = False
            cur, body = lab, []
            if f.entry is None:
                f.entry = cur if not f.blocks else list(f.blocks)[0]
        elif ln.strip() and not ln.strip().startswith(";"):
            # switch spans lines
            s = ln
            if s.strip().startswith("switch") and "]" not in s:
                while "]" not in lines[i]:
                    i += 1
                    s += " " + lines[i].strip()
            first_body = body
            ins = _instr(M, s.strip())
            if ins is not None:
                body.append(ins)
        i += 1
    f.blocks[cur] = body
    if f.entry is None:
        f.entry = list(f.blocks)[0]
    f.ninstr = sum(len(b) for b in f.blocks.values())
    M.funcs[name] = f
    return i


def _instr(M, s):
    # strip metadata attachments
    s = re.sub(r",\s*![\w.]+ ![\w.]+", "", s)
    tk = Toks(tokenize(s))
    res = None
    if tk.peek(1) == "=":
        res = tk.next()
        tk.next()
    op = tk.next()
    while op in ("tail", "musttail", "notail"):
        op = tk.next()
    if op == "alloca":
        t = M.ty(tk)
        n = ("c", 1)
        while tk.accept(","):
            if tk.peek() == "align":
                tk.next()
                tk.next()
            else:
                it = M.ty(tk)
                n = M.val(tk, it)
        return ("alloca", res, t, n, s)
    if op == "load":
        tk.accept("volatile")
        t = M.ty(tk)
        tk.expect(",")
        M.ty(tk)
        return ("load", res, t, M.val(tk, PTR), s)
    if op == "store":
        tk.accept("volatile")
        t = M.ty(tk)
        v = M.val(tk, t)
        tk.expect(",")
        M.ty(tk)
        return ("store", None, t, v, M.val(tk, PTR), s)
    if op == "getelementptr":
        inb = False
        while tk.peek() in ("inbounds", "nuw", "nusw"):
            inb = inb or tk.peek() == "inbounds"
            tk.next()
        bt = M.ty(tk)
        tk.expect(",")
        M.ty(tk)
        base = M.val(tk, PTR)
        idx = []
        while tk.accept(","):
            it = M.ty(tk)
            idx.append((it, M.val(tk, it)))
        return ("gep", res, bt, base, idx, inb, s)
    if op in IBIN:
        flags = set()
        while tk.peek() in ("nsw", "nuw", "exact", "disjoint"):
            flags.add(tk.next())
        t = M.ty(tk)
        a = M.val(tk, t)
        tk.expect(",")
        return ("ibin", res, op, t, a, M.val(tk, t), flags, s)
    if op in FBIN:
        M.skip_attrs(tk)
        t = M.ty(tk)
        a = M.val(tk, t)
        tk.expect(",")
        return ("fbin", res, op, t, a, M.val(tk, t), s)
    if op == "fneg":
        M.skip_attrs(tk)
        t = M.ty(tk)
        return ("fneg", res, t, M.val(tk, t), s)
    if op == "icmp":
        M.skip_attrs(tk)
        p = tk.next()
        t = M.ty(tk)
        a = M.val(tk, t)
        tk.expect(",")
        return ("icmp", res, p, t, a, M.val(tk, t), s)
    if op == "fcmp":
        M.skip_attrs(tk)
        p = tk.next()
        t = M.ty(tk)
        a = M.val(tk, t)
        tk.expect(",")
        return ("fcmp", res, p, t, a, M.val(tk, t), s)
    if op in CASTS:
        M.skip_attrs(tk)
        while tk.peek() in ("nuw", "nsw"):
            tk.next()
        t = M.ty(tk)
        v = M.val(tk, t)
        tk.expect("to")
        return ("cast", res, op, t, v, M.ty(tk), s)
    if op == "phi":
        M.skip_attrs(tk)
        t = M.ty(tk)
        inc = {}
        while True:
            tk.expect("[")
            v = M.val(tk, t)
            tk.expect(",")
            lab = tk.next()
            tk.expect("]")
            inc[lab] = v
            if not tk.accept(","):
                break
        return ("phi", res, t, inc, s)
    if op == "select":
        M.skip_attrs(tk)
        ct = M.ty(tk)
        c = M.val(tk, ct)
        tk.expect(",")
        t = M.ty(tk)
        a = M.val(tk, t)
        tk.expect(",")
        t2 = M.ty(tk)
        return ("select", res, c, t, a, M.val(tk, t2), s)
    if op == "br":
        if tk.peek() == "label":
            tk.next()
            return ("jmp", None, tk.next(), s)
        t = M.ty(tk)
        c = M.val(tk, t)
        tk.expect(",")
        tk.expect("label")
        a = tk.next()
        tk.expect(",")
        tk.expect("label")
        return ("br", None, c, a, tk.next(), s)
    if op == "switch":
        t = M.ty(tk)
        v = M.val(tk, t)
        tk.expect(",")
        tk.expect("label")
        d = tk.next()
        tk.expect("[")
        cases = []
        while not tk.accept("]"):
            ct = M.ty(tk)
            cv = M.val(tk, ct)
            tk.expect(",")
            tk.expect("label")
            cases.append((cv[1], tk.next()))
        return ("switch", None, t, v, d, cases, s)
    if op == "ret":
        t = M.ty(tk)
        return ("ret", None, None if t.k == "void" else (t, M.val(tk, t)), s)
    if op == "unreachable":
        return ("unreachable", None, s)
    if op == "call":
        M.skip_attrs(tk)
        rt = M.ty(tk)
        if tk.peek() == "(":  # function type
            d = 0
            while True:
                x = tk.next()
                d += (x == "(") - (x == ")")
                if d == 0:
                    break
        callee = M.val(tk, PTR)
        tk.expect("(")
        args = []
        if not tk.accept(")"):
            while True:
                t = M.ty(tk)
                M.skip_attrs(tk)
                if t.k == "metadata":
                    tk.next()
                    while tk.peek() not in (",", ")"):
                        tk.next()
                else:
                    args.append((t, M.val(tk, t)))
                if tk.accept(")"):
                    break
                tk.expect(",")
        return ("call", res, rt, callee, args, s)
    if op == "freeze":
        t = M.ty(tk)
        return ("freeze", res, t, M.val(tk, t), s)
    if op in ("extractvalue", "insertvalue", "fence", "atomicrmw", "cmpxchg", "va_arg", "invoke", "indirectbr"):
        return ("unsupported", res, op, s)
    raise Unsupported("instruction " + s[:100])
