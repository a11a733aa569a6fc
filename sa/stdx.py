"""Models of the standard library (and chrono/base64) functions the two crates use."""
from ev import (ALL, Buf, Ch, Clo, Comb, Con, DIGITS, FnV, Iter, Lin, ListV, NONE, PanicE, Place, Pos, S, SetV, Sym, Top, Tup, UNIT,
                Undecided, V, err, explore, is_ok, lit, mask_of, nom_err, ok, show_path, some)
from model import BOX, LIST_ADTS, OPTION, RESULT, is_strlike, last, list_elem, norm, strip, subst

INT = {"u8": (0, 255), "u16": (0, 65535), "u32": (0, 2**32 - 1), "u64": (0, 2**64 - 1), "usize": (0, 2**64 - 1), "u128": (0, 2**128 - 1),
       "i8": (-128, 127), "i16": (-2**15, 2**15 - 1), "i32": (-2**31, 2**31 - 1), "i64": (-2**63, 2**63 - 1), "isize": (-2**63, 2**63 - 1)}


def is_int(v):
    return isinstance(v, int) and not isinstance(v, bool)


def sparts(run, v):
    """The byte-string parts of a value that is (or dereferences to) a string."""
    v = run.d(v)
    if isinstance(v, (S, Buf)):
        return S(v.parts)
    if isinstance(v, ListV) and all(i[0] == "one" and is_int(run.d(i[1])) for i in v.items):
        return lit(bytes(run.d(i[1]) & 255 for i in v.items))
    if isinstance(v, Con) and len(v.f) == 1:
        return sparts(run, list(v.f.values())[0])
    if isinstance(v, Sym) and v.ty[0] == "adt" and v.ty[1] in run.m.adts and not run.m.adts[v.ty[1]]["enum"]:
        fs = run.m.fields(v.ty)
        if len(fs) == 1:
            return sparts(run, run.field(v, fs[0][0]))
    raise Undecided("not a string: %r" % (v,))


# ---------------------------------------------------------------- comparison
def lang(run, p):
    """(mask, min length) of a symbolic part."""
    if p[0] in ("num",):
        return DIGITS, 1
    f = run.opts.get("lang")
    if f is not None:
        return f(run, p)
    return ALL, 0


def s_eq(run, a, b):
    ca, cb = a.conc(), b.conc()
    if ca is not None and cb is not None:
        return ca == cb
    if a.parts == b.parts:
        return True
    # one concrete: definite mismatch on a literal prefix/suffix, otherwise: free text is assumed to differ
    c = ca if ca is not None else cb
    s = b if ca is not None else a
    if c is not None:
        if c == b"":
            return is_empty(run, s)
        f = s.parts[0]
        if f[0] == "lit" and not c.startswith(f[1]):
            return False
        l = s.parts[-1]
        if l[0] == "lit" and not c.endswith(l[1]):
            return False
        if run.opts.get("no_assume_differs") or any(p[0] == "raw" and any(str(x).startswith("#trim") for x in p[1]) for p in s.parts):
            return run.choose(("streq", s.parts, c), [False, True])
        run.note("free-form text assumed to differ from the keyword %r" % c.decode("latin1"))
        return False
    raise Undecided("comparison of symbolic strings")


def eq(run, a, b):
    a, b = run.d(a), run.d(b)
    D = blknum(run, a, b)
    if D:
        return D.eq(run, a, b)
    if isinstance(a, (int, bool)) and isinstance(b, (int, bool)):
        return a == b
    if isinstance(a, Ch) and isinstance(b, Ch):
        return a.c == b.c
    if isinstance(a, Pos) or isinstance(b, Pos):
        o = b if isinstance(a, Pos) else a
        if is_int(o) and o < (a if isinstance(a, Pos) else b).mn:
            return False
        raise Undecided("comparison of an unknown positive number")
    for x, y in ((a, b), (b, a)):
        if isinstance(x, ByteOf) and is_int(y):
            if not x.mask >> y & 1:
                return False
            raise Undecided("a byte of a value compared with %r" % y)
    if isinstance(a, (S, Buf)) or isinstance(b, (S, Buf)):
        return s_eq(run, sparts(run, a), sparts(run, b))
    if isinstance(a, Tup) and isinstance(b, Tup):
        return all(eq(run, x, y) for x, y in zip(a.items, b.items))
    for x, y in ((a, b), (b, a)):
        if isinstance(x, Lin) and is_int(y) and len(x.terms) == 1 and list(x.terms)[0][1] == 1:
            return run.choose(("inteq", list(x.terms)[0][0], y - x.c), [False, True])
        if isinstance(x, Sym) and x.ty == ("prim", "bool") and isinstance(y, bool):
            return run.truth(x) == y
        if isinstance(x, Sym) and isinstance(y, Ch):
            if sym_char(run, x) and y.c < 256:
                if not sym_char_test(run, x, 1 << y.c):
                    return False
                run.assume.setdefault(("inteq", x.path, y.c), True)
                return True
            return run.choose(("inteq", x.path, y.c), [False, True])
        if isinstance(x, Sym) and is_int(y):
            if x.path[:2] == ("$any", "len") and y == 0:
                return any_empty(run, x)
            if "#len" in x.path[-1:] and y == 1:
                return run.len_one(x.path[:-1])
            if "#len" in x.path[-1:] and y == 0:
                return run.sym_list_empty(x.path[:-1])
            if sym_char(run, x):
                x = Sym(x.path[:-1] if x.path[-1:] == ("as u8",) else x.path, ("prim", "char"))
                if 0 <= y < 256 and not sym_char_test(run, x, 1 << y):
                    return False
                run.assume.setdefault(("inteq", x.path, y), True)
                return True
            return run.choose(("inteq", x.path, y), [False, True])
    if isinstance(a, Sym) and isinstance(b, Sym):
        if a.path == b.path:
            return True
        vs = run.m.variants(a.ty)
        if vs and run.variant(a) != run.variant(b):
            return False
        raise Undecided("comparison of %r and %r" % (a, b))
    if isinstance(a, (Con, Sym)) and isinstance(b, (Con, Sym)):
        va, vb = run.variant(a), run.variant(b)
        if va is not None and vb is not None and va != vb and (isinstance(a, Sym) or isinstance(b, Sym) or a.adt == b.adt):
            return False
        fs = a.f if isinstance(a, Con) else b.f
        return all(eq(run, run.field(a, n, va), run.field(b, n, vb)) for n in fs)
    if isinstance(a, ListV) and isinstance(b, ListV) and all(i[0] == "one" for i in a.items + b.items):
        return len(a.items) == len(b.items) and all(eq(run, x[1], y[1]) for x, y in zip(a.items, b.items))
    raise Undecided("comparison of %r and %r" % (a, b))


def num(run, v):
    v = run.d(v)
    if isinstance(v, Ch):
        return v.c
    if isinstance(v, bool):
        return int(v)
    return v


def sym_char(run, v):
    """Is v a symbolic ASCII character (or its byte)?"""
    return run.opts.get("charlang") is not None and (v.ty == ("prim", "char") or v.path[-1:] == ("as u8",))


def sym_char_test(run, v, am):
    """v in am?  (case split, consistent with earlier answers)"""
    path = v.path[:-1] if v.path[-1:] == ("as u8",) else v.path
    cm = run.opts["charlang"](run, Sym(path, ("prim", "char")))
    for k, x in run.assume.items():
        if k and k[0] == "inteq" and k[1] == path and k[2] < 256:
            cm &= (1 << k[2]) if x else ~(1 << k[2])
        elif k and k[0] == "charin" and k[1] == path:
            cm &= k[2] if x else ~k[2]
    if not cm & ~am:
        return True
    if not cm & am:
        return False
    return run.choose(("charin", path, am), [True, False])


def blknum(run, a, b):
    D = run.opts.get("blk")
    if D is None:
        return None
    ok_ = lambda v: is_int(v) or isinstance(v, (Sym, Lin))
    return D if ok_(a) and ok_(b) and not (is_int(a) and is_int(b)) else None


def any_empty(run, a):
    return run.choose(("$any", "empty", a.path[2]), [False, True])


def cmp(run, op, a, b):
    a, b = num(run, a), num(run, b)
    D = blknum(run, a, b)
    if D:
        return D.cmp(run, op, a, b)
    if isinstance(a, XLen) and is_int(b):
        k = {"Lt": b, "Le": b + 1, "Gt": b + 1, "Ge": b}[op]
        r = run.choose(("xlen", a.part[1], k), [False, True])     # len >= k
        return r if op in ("Gt", "Ge") else not r
    if isinstance(b, XLen) and is_int(a):
        return cmp(run, {"Lt": "Gt", "Le": "Ge", "Gt": "Lt", "Ge": "Le"}[op], b, a)
    if isinstance(a, Con) and str(a.adt).startswith("log::") or isinstance(b, Con) and str(b.adt).startswith("log::"):
        return run.choose(("log", op), [False, True])
    if isinstance(a, Ch):
        a = a.c
    if isinstance(b, Ch):
        b = b.c
    if isinstance(a, Sym) and is_int(b) and sym_char(run, a):
        return sym_char_test(run, a, mask_of(x for x in range(256) if {"Lt": x < b, "Le": x <= b, "Gt": x > b, "Ge": x >= b}[op]))
    if isinstance(b, Sym) and is_int(a) and sym_char(run, b):
        return sym_char_test(run, b, mask_of(x for x in range(256) if {"Lt": a < x, "Le": a <= x, "Gt": a > x, "Ge": a >= x}[op]))
    if is_int(a) and is_int(b):
        return {"Lt": a < b, "Le": a <= b, "Gt": a > b, "Ge": a >= b}[op]
    if isinstance(a, Pos) and is_int(b):
        if op == "Gt" and b < a.mn:
            return True
        if op == "Ge" and b <= a.mn:
            return True
        if op == "Lt" and b <= a.mn:
            return False
        if op == "Le" and b < a.mn:
            return False
    if isinstance(b, Pos) and is_int(a):
        return cmp(run, {"Lt": "Gt", "Le": "Ge", "Gt": "Lt", "Ge": "Le"}[op], b, a)
    if isinstance(a, Sym) and a.path[:2] == ("$any", "len") and is_int(b):
        # how much input has arrived: zero or more
        if (op, b) in (("Gt", 0), ("Ge", 1)):
            return not any_empty(run, a)
        if (op, b) in (("Lt", 1), ("Le", 0)):
            return any_empty(run, a)
    if isinstance(b, Sym) and b.path[:2] == ("$any", "len") and (is_int(a) or not isinstance(a, Sym) or a.path[:2] != ("$any", "len")):
        return cmp(run, {"Lt": "Gt", "Le": "Ge", "Gt": "Lt", "Ge": "Le"}[op], b, a)
    if isinstance(a, Sym) and a.path[-1:] == ("#len",) and is_int(b):
        # length of a symbolic list
        base = a.path[:-1]
        if (op, b) in (("Gt", 0), ("Ge", 1)):
            return not run.sym_list_empty(base)
        if (op, b) in (("Lt", 1), ("Le", 0)):
            return run.sym_list_empty(base)
        if (op, b) in (("Gt", 1), ("Ge", 2)):
            return not (run.sym_list_empty(base) or run.len_one(base))
        if (op, b) in (("Lt", 2), ("Le", 1)):
            return run.sym_list_empty(base) or run.len_one(base)
    if isinstance(b, Sym) and b.path[-1:] == ("#len",) and is_int(a):
        return cmp(run, {"Lt": "Gt", "Le": "Ge", "Gt": "Lt", "Ge": "Le"}[op], b, a)
    bf = run.opts.get("bounds")
    if bf is not None and isinstance(a, (Sym, Lin)) + isinstance(b, (Sym, Lin)):
        x, y = bf(run, a), bf(run, b)
        if x is not None and y is not None:
            if op in ("Lt", "Ge"):
                r = True if x[1] < y[0] else False if x[0] >= y[1] else None
            else:
                r = True if x[1] <= y[0] else False if x[0] > y[1] else None
            if r is not None:
                return r if op in ("Lt", "Le") else not r
    if isinstance(a, Sym) or isinstance(b, Sym):
        def kk(x):
            return x.path if isinstance(x, Sym) else x
        if not isinstance(a, Top) and not isinstance(b, Top) and not isinstance(a, (S, Con)) and not isinstance(b, (S, Con)):
            neg = op in ("Gt", "Ge")
            # a>b == not a<=b ; a>=b == not a<b
            o2 = {"Gt": "Le", "Ge": "Lt"}.get(op, op)
            r = run.choose(("cmp", o2, kk(a), kk(b)), [True, False])
            return (not r) if neg else r
    raise Undecided("%r %s %r" % (a, op, b))


def rng(t):
    if t[0] == "prim":
        return INT.get(t[1])
    return None


def binop(run, op, a, b, ty, e=None):
    if op == "Eq":
        return eq(run, a, b)
    if op == "Ne":
        return not eq(run, a, b)
    if op in ("Lt", "Le", "Gt", "Ge"):
        return cmp(run, op, a, b)
    a, b = run.d(a), run.d(b)
    if op in ("BitAnd", "BitOr", "BitXor") and isinstance(a, bool) and isinstance(b, bool):
        return {"BitAnd": a and b, "BitOr": a or b, "BitXor": a != b}[op]
    if op in ("BitAnd", "BitOr") and (isinstance(a, (bool, Sym)) and isinstance(b, (bool, Sym))):
        x, y = run.truth(a), run.truth(b)
        return (x and y) if op == "BitAnd" else (x or y)
    if is_int(a) and is_int(b):
        if op in ("Div", "Rem") and b == 0:
            raise PanicE("division by zero", e and e.get("sp"))
        v = {"Add": lambda: a + b, "Sub": lambda: a - b, "Mul": lambda: a * b, "Div": lambda: abs(a) // abs(b) * (1 if (a < 0) == (b < 0) else -1),
             "Rem": lambda: abs(a) % abs(b) * (1 if a >= 0 else -1), "BitAnd": lambda: a & b, "BitOr": lambda: a | b, "BitXor": lambda: a ^ b,
             "Shl": lambda: a << b, "Shr": lambda: a >> b}[op]()
        r = rng(strip(ty))
        if r and not r[0] <= v <= r[1]:
            raise PanicE("arithmetic overflow: %s %s %s" % (a, op, b), e and e.get("sp"))
        return v
    D = blknum(run, a, b)
    if D:
        r = D.arith(run, op, a, b, ty, e)
        if r is not None:
            return r
    h = run.opts.get("arith")
    if h is not None:
        r = h(run, op, a, b, ty, e)
        if r is not None:
            return r
    if isinstance(a, Pos) and is_int(b) and op == "Sub" and b == 1 and run.opts.get("budget"):
        return Pos()
    if isinstance(a, Pos) and is_int(b) and op == "Add":
        return Pos()
    if op in ("Add", "Sub", "Mul") and all(is_int(x) or isinstance(x, (Sym, Lin)) for x in (a, b)):
        la, lb = lin(a), lin(b)
        if op == "Mul":
            if is_int(a) or is_int(b):
                k, l = (a, lb) if is_int(a) else (b, la)
                return Lin({p: c * k for p, c in l.terms}, l.c * k)
        else:
            sg = 1 if op == "Add" else -1
            t = dict(la.terms)
            for p, c in lb.terms:
                t[p] = t.get(p, 0) + sg * c
            return Lin(t, la.c + sg * lb.c)
    if isinstance(a, SLen) and op == "Sub" and b == 1 and a.off == 0:
        return SLen(a.parts, -1)
    if op == "Rem" and isinstance(a, Lin) and is_int(b) and b and not a.c % b and all(not k % b for p, k in a.terms):
        return 0
    return Top("%r %s %r" % (a, op, b))


def lin(v):
    if isinstance(v, Lin):
        return v
    if is_int(v):
        return Lin({}, v)
    return Lin({v.path: 1}, 0)


def cast(run, v, ty):
    v = run.d(v)
    if run.opts.get("blk") and isinstance(v, (Sym, Lin)):
        r = run.opts["blk"].cast(run, v, ty)
        if r is not None:
            return r
    if isinstance(v, Ch):
        v = v.c
    if isinstance(v, bool):
        v = int(v)
    if is_int(v):
        if ty == ("prim", "char"):
            return Ch(v)
        r = rng(ty)
        if r:
            n = r[1] - r[0] + 1
            return (v - r[0]) % n + r[0]
        return v
    if isinstance(v, Sym) and rng(ty) and (v.ty[0] == "prim" or v.path[-1:] == ("#len",)):
        rv = rng(v.ty)
        rt = rng(ty)
        if rv and rt and rv[0] >= rt[0] and rv[1] <= rt[1]:
            return v
        return Sym(v.path + ("as " + ty[1],), ty)
    if isinstance(v, Lin):
        return v if not run.opts.get("strict_cast") else Top("cast")
    if isinstance(v, Con) and ty[0] == "prim":
        return Top("cast")
    if isinstance(v, (Pos, Top)):
        return v
    return v


def index(run, b, i):
    b, i = run.d(b), run.d(i)
    if isinstance(b, (S, Buf)):
        if isinstance(i, SLen) and i.off == -1 and i.parts == S(b.parts).parts:
            p = i.parts[-1]
            if p[0] == "lit":
                return p[1][-1]
            if p[0] in ("raw", "num", "esc"):
                m, mn = lang(run, p)
                if mn:
                    return ByteOf(m)
        if isinstance(i, Con) and i.vn == "RangeTo":
            e = run.d(i.f["end"])
            if isinstance(e, SLen) and e.parts == S(b.parts).parts:
                if e.off == 0:
                    return S(b.parts)
                p = e.parts[-1]
                if e.off == -1 and p[0] == "lit":
                    return S(e.parts[:-1] + (("lit", p[1][:-1]),))
    if isinstance(i, Con) and (i.vn.startswith("Range")):
        lo = num(run, i.f.get("start", 0))
        hi = i.f.get("end")
        if isinstance(b, (S, Buf)):
            s = S(b.parts)
            c = s.conc()
            hi = num(run, hi) if hi is not None else None
            if i.vn in ("RangeInclusive", "RangeToInclusive") and is_int(hi):
                hi += 1
            if c is not None and is_int(lo) and (hi is None or is_int(hi)):
                h = len(c) if hi is None else hi
                if lo > h or h > len(c):
                    raise PanicE("slice index out of range")
                return lit(c[lo:h])
            if run.opts.get("blk") and (is_int(lo) or isinstance(lo, (Sym, Lin))):
                return S(run.opts["blk"].slice(run, s.parts, lo, hi))
            if is_int(lo) and hi is None:
                return s_skip(run, s, lo)
        raise Undecided("range index of %r by %r" % (b, i))
    if isinstance(b, (S, Buf)):
        c = S(b.parts).conc()
        if c is not None and is_int(i):
            if i >= len(c):
                raise PanicE("index out of bounds")
            return c[i]
        if is_int(i) and S(b.parts).parts[:1] and S(b.parts).parts[0][0] == "lit" and i < len(S(b.parts).parts[0][1]):
            return S(b.parts).parts[0][1][i]
        if is_int(i) and run.opts.get("any") and S(b.parts).parts[:1] and S(b.parts).parts[0][0] == "raw":
            p = S(b.parts).parts[0]
            m, mn = lang(run, p)
            if i < mn or i == 0 and len(S(b.parts).parts) == 1 and not run.choose(p[1] + ("#empty",), [False, True]):
                q = p[1] + ("[%d]" % i,)
                run.__dict__.setdefault("anychars", {})[q] = m
                return Sym(q + ("as u8",), ("prim", "u8"))
            raise PanicE("index out of bounds")
    if isinstance(b, ListV) and is_int(i):
        if i < len(b.items) and all(x[0] == "one" for x in b.items[:i + 1]):
            return b.items[i][1]
        if all(x[0] == "one" for x in b.items):
            raise PanicE("index out of bounds")
    if isinstance(b, Sym) and i == 0:
        e = list_elem(b.ty)
        if e is not None:
            if run.sym_list_empty(b.path):
                raise PanicE("index out of bounds")
            return run.mk_sym(b.path + ("[first]",), e)
    if isinstance(b, (S, Buf)) and i == 0 and len(b.parts) == 1 and b.parts[0][0] == "raw" and isinstance(b.parts[0][2], tuple) and b.parts[0][2][:1] == ("char",):
        return Sym(b.parts[0][1], ("prim", "char"))
    if isinstance(b, (S, Buf)) and isinstance(i, Top):
        return Top("byte at " + i.why)
    raise Undecided("index %r[%r]" % (b, i))


def s_skip(run, s, n):
    parts = list(s.parts)
    while n > 0:
        if not parts:
            raise PanicE("slice index out of range")
        if parts[0][0] != "lit":
            raise Undecided("skip into symbolic text")
        k = min(n, len(parts[0][1]))
        parts[0] = ("lit", parts[0][1][k:])
        n -= k
        if not parts[0][1]:
            parts.pop(0)
    return S(parts)


# ---------------------------------------------------------------- lists
def unwrap_list(run, v):
    """The list inside newtypes such as VecN."""
    v = run.d(v)
    while True:
        if isinstance(v, Con) and len(v.f) == 1 and v.adt != OPTION:
            v = run.d(list(v.f.values())[0])
            continue
        if isinstance(v, Sym) and v.ty[0] == "adt" and v.ty[1] in run.m.adts and not run.m.adts[v.ty[1]]["enum"]:
            fs = run.m.fields(v.ty)
            if len(fs) == 1:
                v = run.field(v, fs[0][0])
                continue
        return v


def is_empty(run, v):
    v = run.d(v)
    if isinstance(v, (S, Buf)) and run.opts.get("blk"):
        return run.opts["blk"].eq(run, run.opts["blk"].plen(S(v.parts).parts), 0)
    if xf(v):
        return not run.choose(("xlen", xf(v)[1], 1), [False, True])
    if isinstance(v, (S, Buf)):
        s = S(v.parts)
        if not s.parts:
            return True
        r = True
        if run.opts.get("assume_nonempty"):
            return False
        for p in s.parts:
            if p[0] == "eof":
                return r
            if p[0] in ("frag", "rep"):
                continue
            if p[0] in ("lit", "num", "b64pad"):
                return False
            if p[0] == "follow":
                return False if not p[2] else run.choose(("followempty",), [False, True])
            if p[0] == "any":
                return run.choose(("$any", "empty", p[1]), [False, True])
            if p[0] == "tok":
                return False
            m, mn = lang(run, p)
            if mn > 0:
                return False
        # only possibly-empty parts
        for p in s.parts:
            if p[0] in ("raw", "esc"):
                if not run.choose(p[1] + ("#empty",), [True, False]):
                    return False
            elif p[0] == "frag":
                continue
            else:
                raise Undecided("emptiness of %r" % s)
        return True
    v = unwrap_list(run, v)
    if isinstance(v, (S, Buf)):
        return is_empty(run, v)
    if isinstance(v, ListV):
        if not v.items:
            return True
        if any(i[0] == "one" for i in v.items):
            return False
        raise Undecided("emptiness of %r" % v)
    if isinstance(v, Sym) and v.ty[0] == "part":
        return run.len_one(v.path)
    if isinstance(v, Sym) and list_elem(v.ty) is not None:
        return run.sym_list_empty(v.path)
    if isinstance(v, Iter):
        pass
    raise Undecided("is_empty of %r" % (v,))


class SLen(V):
    """Length of a symbolic byte string plus an offset."""

    def __init__(self, parts, off):
        self.parts, self.off = parts, off

    def __repr__(self):
        return "len(%r)%+d" % (S(self.parts), self.off)


class ByteOf(V):
    """Some byte of a set."""

    def __init__(self, mask):
        self.mask = mask

    def __repr__(self):
        return "byte"


class XLen(V):
    """Length of a transformed text (quoting analysis)."""
    def __init__(self, part):
        self.part = part


def xf(v):
    return v.parts[0] if isinstance(v, (S, Buf)) and len(v.parts) == 1 and v.parts[0][0] == "xf" else None


def length(run, v):
    v = run.d(v)
    if xf(v):
        return XLen(xf(v))
    if not isinstance(v, (S, Buf)):
        v = unwrap_list(run, v)
    if isinstance(v, (S, Buf)):
        s = S(v.parts)
        c = s.conc()
        if c is not None:
            return len(c)
        if run.opts.get("blk"):
            return run.opts["blk"].plen(s.parts)
        if len(s.parts) == 1 and s.parts[0][0] == "raw" and isinstance(s.parts[0][2], tuple) and s.parts[0][2][:1] == ("char",):
            return 1
        if len(s.parts) == 1 and s.parts[0][0] == "any":
            return Sym(("$any", "len", s.parts[0][1]), ("prim", "usize"))
        if len(s.parts) == 1 and s.parts[0][0] == "raw" and isinstance(s.parts[0][2], tuple) and s.parts[0][2][0] == "mask" and len(
                s.parts[0][2]) > 3 and s.parts[0][2][2] == s.parts[0][2][3]:
            return s.parts[0][2][2]
        if len(s.parts) == 1 and s.parts[0][0] in ("raw",):
            return Sym(s.parts[0][1] + ("#len",), ("prim", "usize"))
        return SLen(s.parts, 0)
    if isinstance(v, ListV):
        if all(i[0] == "one" for i in v.items):
            return len(v.items)
        if len(v.items) == 2 and v.items[0][0] == "one" and v.items[1][0] == "tail":
            if same_list_path(v):
                return Sym(v.items[1][1] + ("#len",), ("prim", "usize"))
        n = sum(1 for i in v.items if i[0] == "one")
        if n:
            return Pos(n)
        return Top("length of %r" % v)
    if isinstance(v, Sym):
        return Sym(v.path + ("#len",), ("prim", "usize"))
    raise Undecided("len of %r" % (v,))


def same_list_path(v):
    return True


def len_is_one(run, v):
    return run.truth(eq(run, length(run, v), 1))


def split_list(run, v):
    """(first, tail, last, init) of a non-empty list."""
    v = unwrap_list(run, v)
    if isinstance(v, ListV):
        its = v.items
        first = its[0][1] if its[0][0] == "one" else None
        lst = its[-1][1] if its[-1][0] == "one" else None
        return first, ListV(its[1:]), lst, ListV(its[:-1])
    e = list_elem(v.ty)
    if e is None:
        raise Undecided("split of %r" % (v,))
    return (run.mk_sym(v.path + ("[first]",), e), Sym(v.path, ("part", "rest", e)),
            run.mk_sym(v.path + ("[last]",), e), Sym(v.path, ("part", "init", e)))


# ---------------------------------------------------------------- text
def display(run, v, out, spec=None):
    """Appends the Display rendering of v to the part list `out`."""
    v = run.d(v)
    if isinstance(v, (S, Buf)):
        out.extend(S(v.parts).parts)
        return
    if isinstance(v, bool):
        out.append(("lit", b"true" if v else b"false"))
        return
    if is_int(v):
        out.append(("lit", str(v).encode()))
        return
    if isinstance(v, Ch):
        out.append(("lit", chr(v.c).encode()))
        return
    if isinstance(v, Sym):
        t = v.ty
        if t[0] == "prim" and t[1] in INT or (t[0] == "adt" and t[1] == "core::num::nonzero::NonZero"):
            out.append(("num", v.path, t[1] if t[0] == "prim" else "nz" + t[2][0][1]))
            return
        if t == ("prim", "char"):
            out.append(("raw", v.path, ("char", char_mask(run, v))))
            return
        if t == ("prim", "bool"):
            return display(run, run.truth(v), out)
        fn, mm = run.m.find_impl_fn("Display", "fmt", t)
        if fn is not None:
            if run.opts.get("tok_display", True):
                out.append(("tok", v.path, t, fn["key"]))
                return
            f = Fmt(run)
            r = run.call_local(fn, [v, f], mm)
            out.extend(f.buf.parts)
            return
    if isinstance(v, Con):
        if v.adt == "strftime":
            out.extend(v.f["parts"].parts)
            return
        fn, mm = run.m.find_impl_fn("Display", "fmt", v.ty or ("adt", v.adt, ()))
        if fn is not None:
            f = Fmt(run)
            run.call_local(fn, [v, f], mm)
            out.extend(f.buf.parts)
            return
    if run.opts.get("display_any"):
        out.append(("opaque", repr(v)))
        return
    raise Undecided("Display of %r" % (v,))


def char_mask(run, v):
    """Possible values of a symbolic char: what its type's constructor accepts, minus what this path excludes."""
    f = run.opts.get("charlang")
    m = f(run, v) if f else ALL
    for k, x in run.assume.items():
        if k and k[0] == "inteq" and k[1] == v.path and x is False and k[2] < 256:
            m &= ~(1 << k[2])
        elif k and k[0] == "charin" and k[1] == v.path:
            m &= k[2] if x else ~k[2]
    return m


class Fmt(V):
    def __init__(self, run):
        self.buf = run.new_buf()
        self.events = []


class Args(V):
    def __init__(self, s):
        self.s = s


class ArgV(V):
    def __init__(self, kind, v):
        self.kind, self.v = kind, v


def fmt_template(run, tpl, args):
    out = []
    i = 0
    n = 0
    b = tpl
    while i < len(b):
        c = b[i]
        if c == 0:
            break
        if c < 0x80:
            out.append(("lit", b[i + 1:i + 1 + c]))
            i += 1 + c
        elif c == 0x80:
            l = b[i + 1] | b[i + 2] << 8
            out.append(("lit", b[i + 3:i + 3 + l]))
            i += 3 + l
        elif c >= 0xC0:
            opts = c & 0x3F
            i += 1
            flags = width = prec = None
            if opts & 1:
                flags = b[i:i + 4]
                i += 4
            if opts & 2:
                width = b[i:i + 2]
                i += 2
            if opts & 4:
                prec = b[i:i + 2]
                i += 2
            if opts & 8:
                n = b[i] | b[i + 1] << 8
                i += 2
            a = args[n]
            n += 1
            if a.kind == "display" and not (opts & 6):
                display(run, a.v, out)
            elif a.kind == "display":
                v = run.d(a.v)
                w = (width[0] | width[1] << 8) if width else 0
                fl = int.from_bytes(flags, "little") if flags else 0
                if is_int(v):
                    zero = bool(fl & (1 << 24))
                    out.append(("lit", str(v).rjust(w, "0" if zero else " ").encode()))
                elif isinstance(v, Sym):
                    out.append(("padnum", v.path, w, fl))
                else:
                    raise Undecided("padded format")
            else:
                out.append(("opaque", a.kind, repr(run.d(a.v))))
        else:
            raise Undecided("format template byte %#x" % c)
    return S(out)


STRFTIME = {"d": ("day", 2), "m": ("month", 2), "Y": ("year", 4), "H": ("hour", 2), "M": ("minute", 2), "S": ("second", 2), "y": ("yy", 2)}
MONTHS = [b"Jan", b"Feb", b"Mar", b"Apr", b"May", b"Jun", b"Jul", b"Aug", b"Sep", b"Oct", b"Nov", b"Dec"]


def strftime(run, v, fmt):
    v = run.d(v)
    if not isinstance(v, Sym):
        raise Undecided("date format of %r" % (v,))
    out = []
    i = 0
    f = fmt.decode()
    while i < len(f):
        if f[i] != "%":
            out.append(("lit", f[i].encode()))
            i += 1
            continue
        c = f[i + 1]
        i += 2
        if c in STRFTIME:
            n, w = STRFTIME[c]
            out.append(("fixnum", v.path + (n,), w))
        elif c == "e":
            two = run.choose(v.path + ("day", "#two"), [True, False])
            if two:
                out.append(("fixnum", v.path + ("day",), 2))
            else:
                out.append(("lit", b" "))
                out.append(("fixnum", v.path + ("day",), 1))
        elif c == "b":
            mth = run.choose(v.path + ("month",), list(range(1, 13)))
            out.append(("lit", MONTHS[mth - 1]))
        elif c == "z":
            sg = run.choose(v.path + ("offset", "sign"), ["+", "-"])
            out.append(("lit", sg.encode()))
            out.append(("fixnum", v.path + ("offset", "hh"), 2))
            out.append(("fixnum", v.path + ("offset", "mm"), 2))
        elif c == "%":
            out.append(("lit", b"%"))
        else:
            raise Undecided("date format %%%s" % c)
    return S(out)


def lower_parts(run, s, up=False):
    out = []
    for p in s.parts:
        if p[0] == "lit":
            out.append(("lit", p[1].upper() if up else p[1].lower()))
        elif p[0] == "num":
            out.append(p)
        elif p[0] in ("raw",):
            out.append(("raw", p[1] + ("#upper" if up else "#lower",), p[2]))
        else:
            raise Undecided("case conversion of %r" % s)
    return S(out)


def pred_mask(run, f):
    """Evaluates a byte predicate on all 256 byte values."""
    f = run.d(f)
    if isinstance(f, (S, Buf)):
        c = S(f.parts).conc()
        if c is None:
            raise Undecided("symbolic character set")
        return mask_of(c)
    if isinstance(f, Ch):
        return 1 << f.c if f.c < 256 else 0
    key = None
    if isinstance(f, FnV):
        key = (f.r or f.f)["key"]
    elif isinstance(f, Clo) and not f.env:
        key = f.key
    cache = run.m.__dict__.setdefault("_masks", {})
    if key and key in cache:
        return cache[key]
    m = 0
    for b in range(256):
        v = run.truth(run.apply(f, [b]))
        if v:
            m |= 1 << b
    if key:
        cache[key] = m
    return m


def ascii_name_mask(name):
    n = name
    if n == "is_ascii_digit":
        return DIGITS
    if n == "is_ascii_alphabetic":
        return mask_of(range(65, 91)) | mask_of(range(97, 123))
    if n == "is_ascii_alphanumeric":
        return mask_of(range(65, 91)) | mask_of(range(97, 123)) | DIGITS
    if n == "is_ascii_uppercase":
        return mask_of(range(65, 91))
    if n == "is_ascii_lowercase":
        return mask_of(range(97, 123))
    if n == "is_ascii":
        return mask_of(range(128))
    if n == "is_ascii_control":
        return mask_of(range(32)) | 1 << 127
    if n == "is_ascii_graphic":
        return mask_of(range(33, 127))
    if n == "is_ascii_punctuation":
        return mask_of(range(33, 127)) & ~(mask_of(range(65, 91)) | mask_of(range(97, 123)) | DIGITS)
    if n == "is_ascii_whitespace":
        return mask_of(b" \t\n\x0c\r")
    if n == "is_ascii_hexdigit":
        return DIGITS | mask_of(b"abcdefABCDEF")
    return None


TABLE = {}


def reg(*names):
    def deco(f):
        for n in names:
            TABLE[n] = f
        return f
    return deco


class C:
    """Call information handed to a model."""

    def __init__(self, run, f, r, fa, ra, args, sp, nm):
        self.run, self.f, self.r, self.fa, self.ra, self.args, self.sp, self.nm = run, f, r, fa, ra, args, sp, nm
        self.cur = run.cur_call

    def __getitem__(self, i):
        return self.run.d(self.args[i])

    def ret(self):
        cc = self.cur
        if not isinstance(cc, tuple):
            t = getattr(cc, "out", None)
            if t is None:
                raise Undecided("type of a call through a function value")
            return t
        fr, e = cc
        return fr.T(e["t"])


def call(run, f, r, fa, ra, args, sp):
    nm = norm(f)
    full = f["name"]
    h = run.opts.get("extern")
    if h is not None:
        v = h(run, f, args)
        if v is not None:
            return v
    c = C(run, f, r, fa, ra, args, sp, nm)
    if full.startswith("nom::") or full.startswith("abnf_core::"):
        import nomx
        return nomx.make(c, full)
    m = TABLE.get(nm) or TABLE.get(full)
    if m is None and r is not None:
        m = TABLE.get(norm(r))
    if m is None:
        it = nm.split("::")[-1]
        am = ascii_name_mask(it)
        if am is not None:
            v = run.d(args[0])
            v = v.c if isinstance(v, Ch) else v
            if is_int(v):
                return v < 256 and bool(am >> v & 1)
            if isinstance(v, Sym) and sym_char(run, v):
                return sym_char_test(run, v, am)
            if it == "is_ascii" and isinstance(v, (S, Buf)):
                cc = S(v.parts).conc()
                if cc is not None:
                    return all(x < 128 for x in cc)
        m = SUFFIX.get(it)
    if m is None:
        raise Undecided("no model for %s" % full, sp)
    return m(c)


SUFFIX = {}


def regs(*names):
    def deco(f):
        for n in names:
            SUFFIX[n] = f
        return f
    return deco


# identity-like conversions
@reg("AsRef::as_ref", "Deref::deref", "DerefMut::deref_mut", "Borrow::borrow", "ToOwned::to_owned", "Clone::clone", "Box::new",
     "str::as_bytes", "String::as_bytes", "String::as_str", "String::into_bytes", "Vec::as_slice", "[T]::to_vec", "hint::must_use",
     "IntoBoundedStatic::into_static", "ToBoundedStatic::to_static", "Cow::into_owned", "Cow::to_mut", "str::to_string", "String::into_boxed_str",
     "Option::as_ref", "Option::as_mut", "Option::as_deref", "Option::cloned", "Option::copied", "str::as_str", "Vec::into_boxed_slice", "str::to_owned", "RangeInclusive::clone", "convert::identity", "Box::into_inner", "Iterator::copied", "Iterator::cloned", "Option::as_deref_mut", "Vec::as_mut_slice", "String::as_mut_str", "BorrowMut::borrow_mut", "AsMut::as_mut")
def m_id(c):
    v = c.args[0]
    if c.nm == "Clone::clone" or c.nm == "Option::cloned" or c.nm == "Option::copied":
        v = c[0]
        return clone(v)
    if c.nm in ("AsRef::as_ref", "Deref::deref", "Borrow::borrow"):
        v = c[0]
        # AsRef on a newtype of this workspace that has no visible impl
        return v
    return v


def clone(v):
    if isinstance(v, Con):
        return Con(v.adt, v.vn, {k: clone(x) for k, x in v.f.items()}, v.ty)
    if isinstance(v, ListV):
        return type(v)(v.items)
    if isinstance(v, Buf):
        return Buf(v.parts)
    if isinstance(v, Place):
        return clone(v.get())
    return v


@reg("From::from", "Into::into")
def m_from(c):
    run = c.run
    if c.nm == "Into::into":
        src, dst = c.fa[0], c.fa[1]
    else:
        dst, src = c.fa[0], c.fa[1]
    for s in (src, strip(src)):
        fn, mm = run.m.find_impl_fn("From", "from", dst, (s,))
        if fn is not None:
            return run.call_local(fn, [c.args[0]], mm)
    v = c[0]
    d = strip(dst)
    if d[0] == "adt" and d[1] == OPTION and not (isinstance(v, Con) and v.adt == OPTION) and not (isinstance(v, Sym) and v.ty[0] == "adt" and v.ty[1] == OPTION):
        return some(v)
    if d[0] == "adt" and d[1] in run.m.adts and strip(src) != d:
        t = run.type_of(v)
        if t is not None and t[0] == "adt" and t[1] == d[1]:
            return v
        raise Undecided("From<%r> for %r" % (src, dst))
    if d == ("prim", "char") and is_int(v):
        return Ch(v)
    if d[0] == "prim" and isinstance(v, Ch):
        return v.c
    if isinstance(v, Ch) and d[0] == "adt" and d[1].endswith("String"):
        return lit(chr(v.c).encode())
    return v


@reg("TryFrom::try_from", "TryInto::try_into")
def m_tryfrom(c):
    run = c.run
    if c.nm == "TryInto::try_into":
        src, dst = c.fa[0], c.fa[1]
    else:
        dst, src = c.fa[0], c.fa[1]
    for s in (src, strip(src)):
        fn, mm = run.m.find_impl_fn("TryFrom", "try_from", dst, (s,))
        if fn is not None:
            return run.call_local(fn, [c.args[0]], mm)
    for s in (src, strip(src)):
        fn, mm = run.m.find_impl_fn("From", "from", dst, (s,))
        if fn is not None:
            return ok(run.call_local(fn, [c.args[0]], mm))
    v = c[0]
    d = strip(dst)
    nz = d[0] == "adt" and d[1] == "core::num::nonzero::NonZero"
    pt = strip(d[2][0]) if nz else d
    r = rng(pt)
    if r:
        if is_int(v):
            if r[0] <= v <= r[1] and not (nz and v == 0):
                return ok(v)
            return err(Top("conversion"))
        if isinstance(v, Sym):
            t = v.ty
            snz = t[0] == "adt" and t[1] == "core::num::nonzero::NonZero"
            rs = rng(strip(t[2][0]) if snz else t)
            exact = rs and r[0] <= rs[0] and rs[1] <= r[1]
            if exact and (not nz or snz or v.path in run.nz):
                return ok(v)
            if run.choose(("fits", v.path, str(d)), [True, False]):
                return ok(Sym(v.path, v.ty))
            return err(Top("conversion"))
        return Top("numeric conversion")
    if d == ("prim", "char"):
        if is_int(v):
            return ok(Ch(v))
    if src == dst:
        return ok(v)
    raise Undecided("TryFrom<%r> for %r" % (src, dst))


@reg("Default::default")
def m_default(c):
    return default(c.run, c.ret())


def default(run, t):
    t = strip(t)
    if is_strlike(t):
        return run.new_buf()
    if t[0] == "prim":
        return False if t[1] == "bool" else 0
    if t[0] == "adt":
        if t[1] in LIST_ADTS:
            return run.new_list()
        if t[1] == OPTION:
            return Con(OPTION, "None", {})
        fn, mm = run.m.find_impl_fn("Default", "default", t)
        if fn is not None and fn.get("body"):
            return run.call_local(fn, [], mm)
        if t[1] in run.m.adts:
            a = run.m.adts[t[1]]
            if not a["enum"]:
                return Con(t[1], a["vs"][0]["n"], {n: default(run, ft) for n, ft in run.m.fields(t)}, t)
    if t[0] == "tuple":
        return Tup([default(run, x) for x in t[1]])
    raise Undecided("default of %r" % (t,))


# fmt / io
@reg("Argument::new_display")
def m_argd(c):
    return ArgV("display", c[0])


@reg("Argument::new_debug")
def m_argdbg(c):
    return ArgV("debug", c[0])


@reg("Argument::new_lower_hex", "Argument::new_upper_hex")
def m_arghex(c):
    return ArgV("hex", c[0])


@reg("Arguments::new")
def m_args(c):
    tpl = sparts(c.run, c.args[0]).conc()
    a = c[1]
    items = [c.run.d(i[1]) for i in a.items] if isinstance(a, ListV) else []
    return Args(fmt_template(c.run, tpl, items))


@reg("Arguments::from_str", "Arguments::new_const")
def m_args_str(c):
    return Args(sparts(c.run, c.args[0]))


@reg("fmt::format")
def m_format(c):
    return c[0].s


@reg("ToString::to_string")
def m_to_string(c):
    out = []
    display(c.run, c.args[0], out)
    return S(out)


def write_to(run, sink, s):
    sink0 = sink
    sink = run.d(sink)
    if isinstance(sink, Fmt):
        sink.buf.parts.extend(s.parts)
        return ok(UNIT)
    if isinstance(sink, Buf):
        sink.parts.extend(s.parts)
        return ok(UNIT)
    if isinstance(sink, Con):
        fn, mm = run.m.find_impl_fn("Write", "write", sink.ty or ("adt", sink.adt, ()))
        if fn is not None:
            r = run.d(run.call_local(fn, [sink0, s], mm))
            if is_ok(r):
                return ok(UNIT)
            return r
        fn, mm = run.m.find_impl_fn("Write", "write_str", sink.ty or ("adt", sink.adt, ()))
        if fn is not None:
            return run.call_local(fn, [sink0, s], mm)
    raise Undecided("write to %r" % (sink,))


@reg("Write::write_all", "Formatter::write_str", "Write::write_str", "String::push_str", "Formatter::pad")
def m_write_all(c):
    r = write_to(c.run, c.args[0], sparts(c.run, c.args[1]))
    return UNIT if c.nm == "String::push_str" else r


@reg("Write::write_char", "Formatter::write_char", "String::push")
def m_write_char(c):
    v = c[1]
    if isinstance(v, Ch):
        s = lit(chr(v.c).encode())
    else:
        s = S((("raw", v.path, ("char", char_mask(c.run, v))),))
    r = write_to(c.run, c.args[0], s)
    return UNIT if c.nm == "String::push" else r


@reg("Write::write_fmt", "Formatter::write_fmt")
def m_write_fmt(c):
    a = c[1]
    if not isinstance(a, Args):
        raise Undecided("write_fmt of %r" % (a,))
    return write_to(c.run, c.args[0], a.s)


@reg("Write::write")
def m_write(c):
    s = sparts(c.run, c.args[1])
    write_to(c.run, c.args[0], s)
    return ok(length(c.run, s))


@reg("Write::flush")
def m_flush(c):
    return ok(UNIT)


@reg("Display::fmt")
def m_display_fmt(c):
    out = []
    display(c.run, c.args[0], out)
    return write_to(c.run, c.args[1], S(out))


@reg("Debug::fmt")
def m_debug_fmt(c):
    f = c[1]
    f.events.append(("debug", c[0]))
    return ok(UNIT)


@reg("Formatter::debug_struct", "Formatter::debug_tuple", "Formatter::debug_list", "Formatter::debug_set", "Formatter::debug_map")
def m_dbg(c):
    f = c[0]
    return f


@reg("DebugStruct::field", "DebugTuple::field", "DebugStruct::finish", "DebugTuple::finish", "DebugStruct::finish_non_exhaustive",
     "DebugList::entries", "DebugList::entry", "DebugSet::entries", "DebugMap::entries", "DebugList::finish")
def m_dbgf(c):
    f = c[0]
    if "finish" in c.nm:
        return ok(UNIT)
    f.events.append(("debug", c[len(c.args) - 1]))
    return f


# strings
@reg("str::from_utf8", "String::from_utf8")
def m_from_utf8(c):
    s = sparts(c.run, c.args[0])
    cc = s.conc()
    if cc is not None:
        try:
            cc.decode("utf8")
            return ok(s)
        except UnicodeDecodeError:
            return err(Top("utf8"))
    if c.run.opts.get("utf8_fails"):
        # non-ASCII content may fail
        for p in s.parts:
            if p[0] in ("raw", "esc") and lang(c.run, p)[0] & ~mask_of(range(128)):
                if not c.run.choose(("utf8", p[1]), [True, False]):
                    return err(Top("utf8"))
    return ok(s)


@reg("str::from_utf8_unchecked")
def m_from_utf8u(c):
    return sparts(c.run, c.args[0])


@reg("String::from_utf8_lossy")
def m_lossy(c):
    return sparts(c.run, c.args[0])


@reg("str::is_empty", "String::is_empty", "[T]::is_empty", "Vec::is_empty", "VecDeque::is_empty", "HashSet::is_empty")
def m_is_empty(c):
    return is_empty(c.run, c.args[0])


@reg("str::len", "[T]::len", "Vec::len", "VecDeque::len", "String::len")
def m_len(c):
    return length(c.run, c.args[0])


@regs("to_ascii_lowercase", "to_lowercase", "to_ascii_uppercase", "to_uppercase")
def m_lower(c):
    up = "upper" in c.nm
    v = c[0]
    if is_int(v):
        return ord(chr(v).upper() if up else chr(v).lower()) if v < 128 else v
    if isinstance(v, Ch):
        return Ch(ord(chr(v.c).upper() if up else chr(v.c).lower())) if v.c < 128 else v
    return lower_parts(c.run, sparts(c.run, v), up)


@regs("eq_ignore_ascii_case")
def m_eqi(c):
    if is_int(c[0]) and is_int(c[1]):
        return bytes([c[0]]).lower() == bytes([c[1]]).lower()
    a, b = [expand_toks(c.run, sparts(c.run, x)) for x in c.args[:2]]
    return s_eq(c.run, lower_parts(c.run, a), lower_parts(c.run, b))


def expand_toks(run, s):
    """Message parts inside a text compared as a whole are replaced by what is written for them."""
    ex = run.opts.get("expand")
    while ex and any(p[0] == "tok" for p in s.parts):
        s = S([q for p in s.parts for q in (ex(run, p) if p[0] == "tok" else (p,))])
    return s


def pat_bytes(run, v):
    v = run.d(v)
    if isinstance(v, Ch):
        return chr(v.c).encode()
    if is_int(v):
        return bytes([v])
    if isinstance(v, (S, Buf)):
        return S(v.parts).conc()
    return None


@reg("str::starts_with", "[T]::starts_with", "str::ends_with", "[T]::ends_with")
def m_starts(c):
    s = sparts(c.run, c.args[0])
    p = pat_bytes(c.run, c.args[1])
    end = "ends" in c.nm
    if p is None:
        raise Undecided("starts_with pattern")
    cc = s.conc()
    if cc is not None:
        return cc.endswith(p) if end else cc.startswith(p)
    if not s.parts:
        return p == b""
    h = s.parts[-1 if end else 0]
    if h[0] == "lit":
        if len(h[1]) >= len(p):
            return h[1].endswith(p) if end else h[1].startswith(p)
        if not (p.endswith(h[1]) if end else p.startswith(h[1])):
            return False
    if h[0] == "eof":
        return False
    m, mn = lang(c.run, h) if h[0] in ("raw", "num", "esc") else (ALL, 0)
    if h[0] in ("raw", "num") and mn > 0 and p and not (m >> p[-1 if end else 0] & 1):
        return False
    if h[0] == "raw" and p and len(s.parts) == 1 and any(not (m >> x & 1) for x in p):
        return False
    return c.run.choose(("starts", end, s.parts, p), [False, True])


@reg("str::strip_prefix", "[T]::strip_prefix")
def m_strip_prefix(c):
    s = sparts(c.run, c.args[0])
    p = pat_bytes(c.run, c.args[1])
    if p is None:
        raise Undecided("strip_prefix pattern")
    cc = s.conc()
    if cc is not None:
        return some(lit(cc[len(p):])) if cc.startswith(p) else Con(OPTION, "None", {})
    h = s.parts[0]
    if h[0] == "lit":
        if len(h[1]) >= len(p):
            if h[1].startswith(p):
                return some(S((("lit", h[1][len(p):]),) + s.parts[1:]))
            return Con(OPTION, "None", {})
        if not p.startswith(h[1]):
            return Con(OPTION, "None", {})
    if h[0] == "raw":
        m, mn = lang(c.run, h)
        if mn > 0 and not (m >> p[0] & 1):
            return Con(OPTION, "None", {})
        c.run.note("free-form text assumed not to start with %r" % p.decode("latin1"))
        return Con(OPTION, "None", {})
    raise Undecided("strip_prefix of %r" % s)


@reg("str::split_once")
def m_split_once(c):
    s = sparts(c.run, c.args[0])
    p = pat_bytes(c.run, c.args[1])
    if p is None:
        raise Undecided("split_once pattern")
    pre = []
    for i, q in enumerate(s.parts):
        if q[0] == "lit":
            k = q[1].find(p)
            if k >= 0:
                return some(Tup([S(pre + [("lit", q[1][:k])]), S((("lit", q[1][k + len(p):]),) + s.parts[i + 1:])]))
        elif q[0] in ("raw", "esc"):
            m, mn = lang(c.run, q)
            if all(m >> x & 1 for x in p):
                if c.run.choose(("contains", q[1], p), [False, True]):
                    raise Undecided("separator inside free-form text")
        pre.append(q)
    return Con(OPTION, "None", {})


def run_choose_contains(run, p, x):
    if not x:
        return True
    return run.choose(("xcontains", p[1], x), [False, True])


@reg("str::contains", "[T]::contains", "Vec::contains")
def m_contains(c):
    v = c[0]
    if isinstance(v, ListV):
        if all(i[0] == "one" for i in v.items):
            return any(c.run.truth(eq(c.run, i[1], c.args[1])) for i in v.items)
        raise Undecided("contains")
    s = sparts(c.run, v)
    pv = c[1]
    p = pat_bytes(c.run, pv)
    if p is None and isinstance(pv, (Clo, FnV)):
        raise Undecided("contains predicate")
    if p is None and isinstance(pv, ListV):
        cs = [pat_bytes(c.run, i[1]) for i in pv.items]
        pats = cs
    else:
        pats = [p]
    cc = s.conc()
    if cc is not None:
        return any(x in cc for x in pats)
    if xf(s):
        return any([run_choose_contains(c.run, xf(s), x) for x in pats])
    for q in s.parts:
        if q[0] == "lit" and any(x in q[1] for x in pats):
            return True
    for q in s.parts:
        if q[0] != "lit":
            m, mn = lang(c.run, q)
            for x in pats:
                if all(m >> y & 1 for y in x):
                    if c.run.choose(("contains", q[1], x), [False, True]):
                        return True
    return False


@reg("str::replace")
def m_replace(c):
    s = sparts(c.run, c.args[0])
    a, b = pat_bytes(c.run, c.args[1]), pat_bytes(c.run, c.args[2])
    cc = s.conc()
    if cc is not None and a is not None and b is not None:
        return lit(cc.replace(a, b))
    if xf(s) and a and b is not None:
        return S((("xf", xf(s)[1] + ((a, b),)),))
    if c.run.opts.get("any") and a is not None and b is not None:
        m = 0
        for p in s.parts:
            m |= mask_of(p[1]) if p[0] == "lit" else lang(c.run, p)[0]
        c.run.anyc = c.run.__dict__.get("anyc", 0) + 1
        return S((("raw", ("$any", c.run.anyc), ("mask", m | mask_of(b), 0)),))
    raise Undecided("replace in symbolic text")


@reg("str::trim", "str::trim_end", "str::trim_start")
def m_trim(c):
    s = sparts(c.run, c.args[0])
    cc = s.conc()
    if cc is None:
        if len(s.parts) != 1 or s.parts[0][0] != "raw" or not (c.run.opts.get("lang") or c.run.opts.get("any")):
            raise Undecided("trim")
        p = s.parts[0]
        m, mn = lang(c.run, p)
        if not m & (mask_of(b"\t\n\x0b\x0c\r ") | (ALL >> 128) << 128):
            return s
        if not c.run.choose(("has", p[1], m & (mask_of(b"\t\n\x0b\x0c\r ") | (ALL >> 128) << 128)), [False, True]):
            return s
        return S((("raw", p[1] + ("#" + c.nm.split("::")[1],), ("mask", m, 0)),))
    return lit({"trim": cc.strip(), "trim_end": cc.rstrip(), "trim_start": cc.lstrip()}[c.nm.split("::")[1]])


@reg("str::parse", "FromStr::from_str", "u32::from_str", "u64::from_str")
def m_parse(c):
    run = c.run
    tgt = strip(c.fa[0]) if c.fa else None
    if tgt is None or tgt[0] == "param":
        t = c.ret()
        tgt = strip(t[2][0]) if t[0] == "adt" and t[1] == RESULT else None
    s = sparts(run, c.args[0])
    nz = tgt and tgt[0] == "adt" and tgt[1] == "core::num::nonzero::NonZero"
    pt = strip(tgt[2][0]) if nz else tgt
    r = rng(pt) if pt else None
    if r is None:
        if tgt:
            fn, mm = run.m.find_impl_fn("FromStr", "from_str", tgt)
            if fn is not None:
                return run.call_local(fn, [s], mm)
        raise Undecided("parse::<%r>" % (tgt,))
    cc = s.conc()
    if cc is not None:
        try:
            x = int(cc.decode())
            if not cc.lstrip(b"+-").isdigit() or (r[0] == 0 and cc.startswith(b"-")):
                return err(Top("parse"))
        except ValueError:
            return err(Top("parse"))
        if r[0] <= x <= r[1] and not (nz and x == 0):
            return ok(x)
        return err(Top("parse"))
    if len(s.parts) == 1 and s.parts[0][0] == "num":
        p = s.parts[0]
        st = p[2]
        snz = st.startswith("nz")
        sr = INT[st[2:] if snz else st]
        if sr[0] >= r[0] and sr[1] <= r[1]:
            v = Sym(p[1], tgt if nz else ("prim", pt[1]))
            if snz:
                run.nz.add(p[1])
            if nz and not snz:
                if not run.choose(("nonzero", p[1]), [True, False]):
                    return err(Top("zero"))
            return ok(v)
        # a length announced as usize and read as u32
        if p[1][-1:] == ("#len",):
            run.note("literal length assumed to fit %s" % pt[1])
            return ok(Sym(p[1], ("prim", pt[1])))
        if run.choose(("fits", p[1], pt[1]), [True, False]):
            return ok(Sym(p[1], ("prim", pt[1])))
        return err(Top("number does not fit"))
    if len(s.parts) == 1 and s.parts[0][0] == "fixnum":
        p = s.parts[0]
        if 10 ** p[2] - 1 <= r[1]:
            return ok(Sym(p[1], ("prim", pt[1])))
        return err(Top("does not fit"))
    if run.opts.get("any"):
        path = ("$any", "num") + tuple(map(str, s.parts))
        o = s.parts[0][2] if len(s.parts) == 1 and s.parts[0][0] == "raw" else None
        if o and o[0] == "mask" and len(o) > 3 and not o[1] & ~DIGITS and o[2] and o[3] is not None and 10 ** o[3] - 1 <= r[1] and not nz:
            run.__dict__.setdefault("symrng", {})[path] = (0, 10 ** o[3] - 1)
            return ok(Sym(path, pt))
        if run.choose(("parse", s.parts), [True, False]):
            if nz:
                run.nz.add(path)
            return ok(Sym(path, tgt if nz else pt))
        return err(Top("parse"))
    # mixed text: whatever it is, it is not the number alone
    return err(Top("not a number: %r" % s))


@reg("[T]::iter", "IntoIterator::into_iter", "str::bytes", "[T]::iter_mut", "Vec::iter", "VecDeque::iter", "str::chars", "Vec::drain", "VecDeque::drain", "HashSet::iter", "HashSet::drain")
def m_iter(c):
    it = c.nm.split("::")[-1]
    v = c[0]
    if it == "chars":
        s = sparts(c.run, v)
        cc = s.conc()
        if cc is None:
            return Iter([("chars", s)])
        return Iter([("one", Ch(ord(x))) for x in cc.decode("utf8")])
    if it == "drain":
        v = unwrap_list(c.run, v)
        if isinstance(v, Buf) and isinstance(c[1], Con) and c[1].vn == "RangeFull":
            b = Buf(v.parts)
            v.parts[:] = []
            return c.run.mk_iter(b)
        if isinstance(v, Buf) and isinstance(c[1], Con) and c[1].vn in ("Range", "RangeTo", "RangeFrom") and c.run.opts.get("blk"):
            D = c.run.opts["blk"]
            ps = S(v.parts).parts
            lo = num(c.run, c[1].f.get("start", 0))
            hi = num(c.run, c[1].f["end"]) if "end" in c[1].f else D.plen(ps)
            mid = D.slice(c.run, ps, lo, hi)
            rest = D.slice(c.run, ps, 0, lo) + D.slice(c.run, ps, hi, None)
            v.parts[:] = list(S(rest).parts)
            return Iter([("bytes", S(mid))])
        if isinstance(v, ListV) and isinstance(c[1], Con):
            h = c.run.opts.get("drain")
            if c[1].vn == "RangeFull":
                items = list(v.items)
                v.items[:] = []
                return Iter(items)
            if h:
                r = h(c.run, v, c[1])
                if r is not None:
                    return r
            hi = c[1].f.get("end")
            lo = c[1].f.get("start", 0)
            hi = c.run.d(hi) if hi is not None else len(v.items)
            if is_int(lo) and is_int(hi) and all(i[0] == "one" for i in v.items[:hi]):
                items = v.items[lo:hi]
                del v.items[lo:hi]
                return Iter(items)
        raise Undecided("drain")
    return c.run.mk_iter(v)


@reg("Iterator::next")
def m_next(c):
    v = c[0]
    if not isinstance(v, Iter):
        if isinstance(v, Con) and v.vn.startswith("Range"):
            it = c.run.mk_iter(v)
            c.args[0].set(it)
            v = it
        else:
            raise Undecided("next on %r" % (v,))
    x = c.run.iter_next(v)
    return Con(OPTION, "None", {}) if x is None else some(x)


@reg("Iterator::map")
def m_itmap(c):
    it = c.run.mk_iter(c.args[0])
    it.adapters.append(("map", c[1]))
    return it


@reg("Iterator::enumerate")
def m_enum(c):
    it = c.run.mk_iter(c.args[0])
    it.adapters.append(("enumerate",))
    return it


@reg("Iterator::by_ref", "Iterator::peekable", "Iterator::fuse")
def m_byref(c):
    return c.run.mk_iter(c.args[0])


@reg("Iterator::skip", "Iterator::take", "Iterator::rev")
def m_skip(c):
    it = c.run.mk_iter(c.args[0])
    op = c.nm.split("::")[1]
    if c.run.opts.get("blk") and len(it.items) == 1 and it.items[0][0] == "bytes" and op in ("take", "skip") and not it.adapters:
        D = c.run.opts["blk"]
        ps = it.items[0][1].parts
        n = num(c.run, c[1])
        t = D.plen(ps)
        n = t if D.lt(c.run, t, n) else n
        it.items = [("bytes", S(D.slice(c.run, ps, 0, n) if op == "take" else D.slice(c.run, ps, n, None)))]
        return it
    if len(it.items) == 1 and it.items[0][0] in ("bytes", "chars") and (op == "rev" or is_int(c[1])):
        if op == "rev" and any(a[0] == "enumerate" for a in it.adapters):
            raise Undecided("rev of enumerate")
        h = it.items[0]
        it.items[0] = ("some " + h[0], h[1], None if op == "rev" else ("#" + op, c[1]))     # only searched, see m_position
        return it
    if all(i[0] == "one" for i in it.items):
        if op == "rev":
            it.items.reverse()
            return it
        n = c[1]
        if is_int(n):
            it.items = it.items[n:] if op == "skip" else it.items[:n]
            return it
    if op == "skip" and is_int(c[1]) and c[1] == 1 and it.items and it.items[0][0] == "sym":
        h = it.items[0]
        if c.run.sym_list_empty(h[1]):
            it.items = []
        else:
            it.items[0] = ("rest", h[1], h[2])
        return it
    raise Undecided("iterator " + op)


@reg("Iterator::chain")
def m_chain(c):
    a, b = c.run.mk_iter(c.args[0]), c.run.mk_iter(c.args[1])
    if a.adapters or b.adapters:
        raise Undecided("chain of adapters")
    return Iter(a.items + b.items)


@reg("Iterator::position", "Iterator::any", "Iterator::all", "Iterator::find")
def m_position(c):
    run = c.run
    it = c[0]
    op = c.nm.split("::")[1]
    if it.items and it.items[0][0] in ("bytes", "chars", "some bytes", "some chars"):
        s = it.items[0][1]
        chars = it.items[0][0].endswith("chars")
        sub = it.items[0][2] if it.items[0][0].startswith("some") else None

        def mask_at(idx):
            msk = 0
            it.curidx = idx
            for b in range(256):
                if run.truth(run.apply(c[1], [run.adapt(it, Ch(b) if chars else b)])):
                    msk |= 1 << b
            if chars:
                # non-ASCII characters: judged by one representative
                hi = run.truth(run.apply(c[1], [run.adapt(it, Ch(0x20AC))]))
                msk = (msk & mask_of(range(128))) | (((ALL >> 128) << 128) if hi else 0)
            return msk
        first = None
        try:
            msk = mask_at(Top("index"))
        except Undecided:
            if not any(a[0] == "enumerate" for a in it.adapters) or sub:
                raise
            first = mask_at(0)
            msk = mask_at(Pos())
            if first == msk:
                first = None
        # `all` p  <=>  no byte with not p
        bad = msk if op != "all" else ALL & ~msk
        found = None
        if first is not None or sub:
            fb = (first if op != "all" else ALL & ~first) if first is not None else 0
            if len(s.parts) != 1 or s.parts[0][0] != "raw":
                raise Undecided("position-dependent search")
            p = s.parts[0]
            if sub:
                found = run.choose(("has", p[1] + (sub,), bad), [False, True])
            else:
                found = run.choose(("has", p[1] + (("#first",),), fb), [False, True]) or run.choose(("has", p[1] + (("#rest",),), bad), [False, True])
            s = S(())
        for p in s.parts:
            if p[0] == "lit":
                if mask_of(p[1]) & bad:
                    found = True
            else:
                import nomx
                if nomx.has_bytes(run, p, bad):
                    found = True
        if op == "any":
            return bool(found)
        if op == "all":
            return not found
        if found:
            return some(Top("position") if op == "position" else run.adapt(it, Top("byte found")))
        return Con(OPTION, "None", {})
    n = 0
    if not all(i[0] == "one" for i in it.items):
        raise Undecided(op + " over a symbolic list")
    while True:
        x = run.iter_next(it)
        if x is None:
            break
        t = run.truth(run.apply(c[1], [x]))
        if op == "all":
            if not t:
                return False
        elif t:
            return {"position": some(n), "any": True, "find": some(x)}[op]
        n += 1
    return {"position": Con(OPTION, "None", {}), "any": False, "all": True, "find": Con(OPTION, "None", {})}[op]


def drain_all(run, it):
    """Pulls every element through the adapters into a new list."""
    out = run.new_list()
    while True:
        x = run.iter_next(it)
        if x is None:
            return out
        out.items.append(("one", x))


@reg("Iterator::collect", "FromIterator::from_iter")
def m_collect(c):
    it = c.run.mk_iter(c.args[0])
    t = strip(c.ret())
    out = drain_all(c.run, it)
    if is_strlike(t):
        ps = []
        for i in out.items:
            if i[0] != "one":
                ps.append(("rep", i[1], sparts(c.run, i[2]).parts, "rest"))
                continue
            v = c.run.d(i[1])
            if is_int(v):
                ps.append(("lit", bytes([v])))
            elif isinstance(v, Ch):
                ps.append(("lit", chr(v.c).encode()))
            else:
                ps.extend(sparts(c.run, v).parts)
        return S(ps)
    if t[0] == "adt" and t[1] in (RESULT, OPTION):
        good = "Ok" if t[1] == RESULT else "Some"
        res = []
        for i in out.items:
            v = c.run.d(i[-1])
            if not isinstance(v, Con):
                raise Undecided("collect")
            if v.vn != good:
                return v
            res.append(i[:-1] + (v.f["0"],))
        inner = ListV(res)
        return ok(inner) if good == "Ok" else some(inner)
    return out


@reg("Iterator::for_each")
def m_foreach(c):
    it = c.run.mk_iter(c.args[0])
    while True:
        x = c.run.iter_next(it)
        if x is None:
            return UNIT
        c.run.apply(c[1], [x])


@reg("Iterator::try_for_each")
def m_tryforeach(c):
    it = c.run.mk_iter(c.args[0])
    while True:
        x = c.run.iter_next(it)
        if x is None:
            return ok(UNIT)
        r = c.run.d(c.run.apply(c[1], [x]))
        if not is_ok(r):
            return r


@reg("Iterator::fold", "Iterator::try_fold")
def m_fold(c):
    it = c.run.mk_iter(c.args[0])
    acc = c.args[1]
    while True:
        x = c.run.iter_next(it)
        if x is None:
            return acc
        acc = c.run.apply(c[2], [acc, x])


@reg("Iterator::count")
def m_count(c):
    it = c.run.mk_iter(c.args[0])
    if all(i[0] == "one" for i in it.items):
        return len(it.items)
    return Top("count")


@reg("[T]::join", "Vec::join", "Join::join")
def m_join(c):
    v = unwrap_list(c.run, c.args[0])
    sep = sparts(c.run, c.args[1])
    out = []
    if not isinstance(v, ListV):
        v = drain_all(c.run, c.run.mk_iter(v))
    for n, i in enumerate(v.items):
        if i[0] == "one":
            if n:
                out.extend(sep.parts)
            out.extend(sparts(c.run, i[1]).parts)
        else:
            if n == 0:
                raise Undecided("join")
            out.append(("rep", i[1], S(sep.parts + sparts(c.run, i[2]).parts).parts, "rest"))
    return S(out)


@reg("[T]::concat")
def m_concat(c):
    v = unwrap_list(c.run, c.args[0])
    if isinstance(v, ListV) and all(i[0] == "one" for i in v.items):
        ps = []
        for i in v.items:
            ps.extend(sparts(c.run, i[1]).parts)
        return S(ps)
    raise Undecided("concat")


# vectors
@reg("Vec::new", "Vec::with_capacity", "VecDeque::new", "String::new", "String::with_capacity", "HashSet::with_capacity", "HashSet::new", "VecDeque::with_capacity", "BTreeSet::new")
def m_vecnew(c):
    if is_strlike(c.ret()):
        return c.run.new_buf()
    return c.run.new_list()


@reg("Vec::push", "VecDeque::push_back", "HashSet::insert")
def m_push(c):
    v = c[0]
    if isinstance(v, Buf):
        x = c[1]
        if is_int(x):
            v.parts.append(("lit", bytes([x])))
            return UNIT
        raise Undecided("push of %r" % (x,))
    if isinstance(v, S):
        nb = c.run.new_buf(v.parts)
        c.args[0].set(nb)
        nb.parts.append(("lit", bytes([c[1]])))
        return UNIT
    if isinstance(v, ListV):
        v.items.append(("one", c.args[1] if not isinstance(c.args[1], Place) else c[1]))
        return UNIT
    raise Undecided("push to %r" % (v,))


@reg("Vec::extend_from_slice", "Extend::extend", "Vec::append", "VecDeque::extend", "VecDeque::append")
def m_extend(c):
    v = c[0]
    x = c[1]
    run = c.run
    if isinstance(v, Buf):
        v.parts.extend(sparts(run, x if not isinstance(x, Iter) else iter_bytes(run, x)).parts)
        if c.nm.endswith("append") and isinstance(x, Buf):
            x.parts[:] = []
        return UNIT
    if isinstance(v, ListV):
        y = x if isinstance(x, ListV) else None
        if y is not None:
            v.items.extend(list(y.items))
            if c.nm.endswith("append"):
                y.items[:] = []
            return UNIT
        h = run.opts.get("extend")
        if h:
            r = h(run, v, x)
            if r is not None:
                return r
        out = drain_all(run, run.mk_iter(x))
        v.items.extend(out.items)
        return UNIT
    raise Undecided("extend of %r" % (v,))


def iter_bytes(run, it):
    if it.items and it.items[0][0] == "bytes":
        return it.items[0][1]
    return lit(bytes(run.d(i[1]) for i in it.items))


@reg("Vec::clear", "VecDeque::clear", "String::clear", "HashSet::clear")
def m_clear(c):
    v = c[0]
    if isinstance(v, Buf):
        v.parts[:] = []
    elif isinstance(v, ListV):
        v.items[:] = []
    else:
        raise Undecided("clear of %r" % (v,))
    return UNIT


@reg("Vec::pop", "VecDeque::pop_front", "VecDeque::pop_back")
def m_pop(c):
    v = c[0]
    front = "front" in c.nm
    if isinstance(v, ListV):
        if not v.items:
            return Con(OPTION, "None", {})
        i = v.items[0 if front else -1]
        if i[0] == "one":
            v.items.pop(0 if front else -1)
            return some(i[1])
    if isinstance(v, Buf):
        cc = S(v.parts).conc()
        if cc is not None:
            if not cc:
                return Con(OPTION, "None", {})
            v.parts[:] = [("lit", cc[1:] if front else cc[:-1])]
            return some(cc[0] if front else cc[-1])
    raise Undecided("pop of %r" % (v,))


@reg("[T]::first", "[T]::last", "Vec::first", "Vec::last", "VecDeque::front", "VecDeque::back")
def m_first(c):
    v = c[0]
    isf = c.nm.split("::")[1] in ("first", "front")
    if isinstance(v, (S, Buf)):
        s = S(v.parts)
        cc = s.conc()
        if cc is not None:
            return some(cc[0 if isf else -1]) if cc else Con(OPTION, "None", {})
        p = s.parts[0 if isf else -1]
        if p[0] == "lit":
            return some(p[1][0 if isf else -1])
        if isf and p[0] == "eof":
            return Con(OPTION, "None", {})
        raise Undecided("first byte of %r" % s)
    v = unwrap_list(c.run, v)
    if is_empty(c.run, v):
        return Con(OPTION, "None", {})
    f, t, l, i = split_list(c.run, v)
    x = f if isf else l
    if x is None:
        raise Undecided("last of %r" % (v,))
    return some(x)


@reg("[T]::last_mut", "VecDeque::back_mut", "[T]::first_mut")
def m_last_mut(c):
    v = unwrap_list(c.run, c.args[0])
    if isinstance(v, ListV):
        if not v.items:
            return Con(OPTION, "None", {})
        k = 0 if "first" in c.nm else len(v.items) - 1
        if v.items[k][0] == "one":
            def set_(x, v=v, k=k):
                v.items[k] = ("one", x)
            return some(Place(lambda v=v, k=k: v.items[k][1], set_))
    raise Undecided("last_mut of %r" % (v,))


@reg("[T]::split_first", "[T]::split_last")
def m_split(c):
    v = unwrap_list(c.run, c.args[0])
    if is_empty(c.run, v):
        return Con(OPTION, "None", {})
    f, t, l, i = split_list(c.run, v)
    if "first" in c.nm:
        if f is None:
            raise Undecided("split_first")
        return some(Tup([f, t]))
    if l is None:
        raise Undecided("split_last")
    return some(Tup([l, i]))


@reg("[T]::get", "Vec::get")
def m_get(c):
    v = c[0]
    i = c[1]
    if isinstance(v, (S, Buf)):
        cc = S(v.parts).conc()
        if cc is not None and is_int(i):
            return some(cc[i]) if i < len(cc) else Con(OPTION, "None", {})
        s = S(v.parts)
        if is_int(i) and s.parts and s.parts[0][0] == "lit" and i < len(s.parts[0][1]):
            return some(s.parts[0][1][i])
        raise Undecided("get of %r" % (v,))
    v = unwrap_list(c.run, v)
    if isinstance(v, ListV) and is_int(i) and all(x[0] == "one" for x in v.items):
        return some(v.items[i][1]) if i < len(v.items) else Con(OPTION, "None", {})
    if isinstance(v, Sym) and i == 0:
        if is_empty(c.run, v):
            return Con(OPTION, "None", {})
        return some(split_list(c.run, v)[0])
    raise Undecided("get of %r" % (v,))


@reg("Index::index")
def m_index(c):
    return index(c.run, c.args[0], c.args[1])


@reg("[T]::split_at", "str::split_at")
def m_split_at(c):
    s = sparts(c.run, c.args[0])
    cc = s.conc()
    n = c[1]
    if cc is not None and is_int(n):
        if n > len(cc):
            raise PanicE("split_at out of range")
        return Tup([lit(cc[:n]), lit(cc[n:])])
    if is_int(n):
        rest = s_skip(c.run, s, n)
        return Tup([lit(s.parts[0][1][:n]), rest])
    if isinstance(n, Sym) and n.path[-1:] == ("#len",) and s.parts and s.parts[0][0] == "raw" and s.parts[0][1] == n.path[:-1]:
        return Tup([S(s.parts[:1]), S(s.parts[1:])])
    raise Undecided("split_at")


@reg("mem::take")
def m_take(c):
    pl = c.args[0]
    v = c.run.d(pl)
    if isinstance(v, Buf):
        n = c.run.new_buf(v.parts)
        v.parts[:] = []
        return n
    if isinstance(v, ListV):
        n = c.run.new_list(v.items)
        v.items[:] = []
        return n
    if isinstance(pl, Place):
        d = default(c.run, c.ret())
        pl.set(d)
        return v
    raise Undecided("mem::take")


@reg("mem::replace")
def m_replace_mem(c):
    pl = c.args[0]
    v = c.run.d(pl)
    if isinstance(pl, Place):
        pl.set(c[1])
        return v
    raise Undecided("mem::replace")


@reg("mem::swap")
def m_swap(c):
    a, b = c.args
    if isinstance(a, Place) and isinstance(b, Place):
        x, y = a.get(), b.get()
        a.set(y)
        b.set(x)
        return UNIT
    raise Undecided("mem::swap")


@reg("Option::take")
def m_opt_take(c):
    pl = c.args[0]
    v = c[0]
    pl.set(Con(OPTION, "None", {}))
    return v


@reg("Option::insert", "Option::replace")
def m_opt_insert(c):
    pl = c.args[0]
    nv = some(c.args[1])
    old = c[0]
    pl.set(nv)
    if "insert" in c.nm:
        def set_(x):
            nv.f["0"] = x
        return Place(lambda: nv.f["0"], set_)
    return old


# boxes from vec! macro
@reg("Box::new_uninit")
def m_new_uninit(c):
    return Con("uninit", "box", {})


@reg("intrinsics::write_box_via_move")
def m_wbvm(c):
    return c.args[1]


@reg("boxed::box_assume_init_into_vec_unsafe", "slice::into_vec", "[T]::into_vec")
def m_into_vec(c):
    v = c[0]
    if isinstance(v, (S, Buf)):
        return c.run.new_buf(v.parts)
    if isinstance(v, ListV):
        return c.run.new_list(v.items)
    raise Undecided("vec! of %r" % (v,))


@reg("vec::from_elem")
def m_from_elem(c):
    n = c[1]
    v = c[0]
    if is_int(n):
        if is_int(v) and is_strlike(c.ret()):
            return c.run.new_buf([("lit", bytes([v]) * n)])
        return c.run.new_list([("one", v)] * n)
    raise Undecided("vec![x; n]")


# Option / Result
def opt_variant(run, v):
    v = run.d(v)
    if isinstance(v, Con):
        return v.vn, v.f.get("0")
    if isinstance(v, Sym):
        vn = run.variant(v)
        if vn in ("Some", "Ok", "Err"):
            return vn, run.field(v, "0", vn)
        return vn, None
    raise Undecided("option value %r" % (v,))


@reg("Option::is_some", "Option::is_none", "Result::is_ok", "Result::is_err")
def m_iss(c):
    vn, _ = opt_variant(c.run, c.args[0])
    w = c.nm.split("_")[1]
    return vn.lower() == w


@reg("Option::unwrap", "Result::unwrap", "Option::expect", "Result::expect", "Result::unwrap_err", "Result::expect_err")
def m_unwrap(c):
    vn, x = opt_variant(c.run, c.args[0])
    good = ("Err",) if c.nm.endswith("_err") else ("Some", "Ok")
    if vn in good:
        return x
    raise PanicE("%s on %s" % (c.nm, vn), c.sp)


@reg("Option::unwrap_or", "Result::unwrap_or")
def m_unwrap_or(c):
    vn, x = opt_variant(c.run, c.args[0])
    return x if vn in ("Some", "Ok") else c.args[1]


@reg("Option::unwrap_or_default", "Result::unwrap_or_default")
def m_unwrap_or_default(c):
    vn, x = opt_variant(c.run, c.args[0])
    return x if vn in ("Some", "Ok") else default(c.run, c.ret())


@reg("Option::unwrap_or_else", "Result::unwrap_or_else")
def m_unwrap_or_else(c):
    vn, x = opt_variant(c.run, c.args[0])
    return x if vn in ("Some", "Ok") else c.run.apply(c.args[1], [] if vn == "None" else [x])


@reg("Option::map", "Result::map")
def m_map(c):
    vn, x = opt_variant(c.run, c.args[0])
    if vn in ("Some", "Ok"):
        return Con(OPTION if vn == "Some" else RESULT, vn, {"0": c.run.apply(c.args[1], [x])})
    return c[0]


@reg("Option::map_or", "Result::map_or")
def m_map_or(c):
    vn, x = opt_variant(c.run, c.args[0])
    if vn in ("Some", "Ok"):
        return c.run.apply(c.args[2], [x])
    return c.args[1]


@reg("Option::map_or_else", "Result::map_or_else")
def m_map_or_else(c):
    vn, x = opt_variant(c.run, c.args[0])
    if vn in ("Some", "Ok"):
        return c.run.apply(c.args[2], [x])
    return c.run.apply(c.args[1], [] if vn == "None" else [x])


@reg("Option::is_some_and", "Result::is_ok_and")
def m_is_some_and(c):
    vn, x = opt_variant(c.run, c.args[0])
    return c.run.truth(c.run.apply(c.args[1], [x])) if vn in ("Some", "Ok") else False


@reg("Option::is_none_or")
def m_is_none_or(c):
    vn, x = opt_variant(c.run, c.args[0])
    return c.run.truth(c.run.apply(c.args[1], [x])) if vn in ("Some", "Ok") else True


@reg("Option::filter")
def m_filter(c):
    vn, x = opt_variant(c.run, c.args[0])
    if vn == "Some" and c.run.truth(c.run.apply(c.args[1], [x])):
        return some(x)
    return Con(OPTION, "None", {})


@reg("Result::map_err")
def m_map_err(c):
    vn, x = opt_variant(c.run, c.args[0])
    if vn == "Err":
        return err(c.run.apply(c.args[1], [x]))
    return c[0]


@reg("Option::and_then", "Result::and_then")
def m_and_then(c):
    vn, x = opt_variant(c.run, c.args[0])
    if vn in ("Some", "Ok"):
        return c.run.apply(c.args[1], [x])
    return c[0]


@reg("Option::or_else", "Result::or_else")
def m_or_else(c):
    vn, x = opt_variant(c.run, c.args[0])
    if vn in ("Some", "Ok"):
        return c[0]
    return c.run.apply(c.args[1], [] if vn == "None" else [x])


@reg("Option::or", "Result::or")
def m_or(c):
    vn, x = opt_variant(c.run, c.args[0])
    return c[0] if vn in ("Some", "Ok") else c.args[1]


@reg("Option::and", "Result::and")
def m_and(c):
    vn, x = opt_variant(c.run, c.args[0])
    return c.args[1] if vn in ("Some", "Ok") else c[0]


@reg("Result::ok")
def m_ok(c):
    vn, x = opt_variant(c.run, c.args[0])
    return some(x) if vn == "Ok" else Con(OPTION, "None", {})


@reg("Result::err")
def m_err(c):
    vn, x = opt_variant(c.run, c.args[0])
    return some(x) if vn == "Err" else Con(OPTION, "None", {})


@reg("Option::ok_or", "Option::ok_or_else")
def m_ok_or(c):
    vn, x = opt_variant(c.run, c.args[0])
    if vn == "Some":
        return ok(x)
    return err(c.args[1] if c.nm.endswith("ok_or") else c.run.apply(c.args[1], []))


@reg("Option::zip")
def m_zip(c):
    a, x = opt_variant(c.run, c.args[0])
    b, y = opt_variant(c.run, c.args[1])
    return some(Tup([x, y])) if a == b == "Some" else Con(OPTION, "None", {})


@reg("bool::then_some", "bool::then")
def m_then(c):
    if c.run.truth(c.args[0]):
        return some(c.args[1] if c.nm.endswith("some") else c.run.apply(c.args[1], []))
    return Con(OPTION, "None", {})


@reg("Fn::call", "FnMut::call_mut", "FnOnce::call_once")
def m_call(c):
    return c.run.apply(c.args[0], list(c[1].items))


# numbers
@reg("NonZero::get")
def m_nzget(c):
    v = c[0]
    return v


@reg("NonZero::new")
def m_nznew(c):
    v = c[0]
    if is_int(v):
        return some(v) if v else Con(OPTION, "None", {})
    if isinstance(v, Sym):
        return some(v) if c.run.choose(("nonzero", v.path), [True, False]) else Con(OPTION, "None", {})
    return Top("NonZero::new")


def int_ty(c):
    n = c.nm.split("::")[0]
    if n in INT:
        return n
    if not isinstance(c.cur, tuple):
        raise Undecided("integer type of a call through a function value")
    t = c.cur[0].T(c.cur[1]["a"][0]["t"])
    t = strip(t)
    if t[0] == "prim":
        return t[1]
    if t[0] == "adt" and t[2]:
        return strip(t[2][0])[1]
    return "u64"


@regs("saturating_sub", "saturating_add", "checked_add", "checked_sub", "checked_mul", "wrapping_add", "wrapping_sub", "saturating_mul", "wrapping_mul", "checked_div", "overflowing_add", "checked_rem", "abs_diff", "div_ceil", "pow", "is_power_of_two", "abs", "unsigned_abs", "rem_euclid", "div_euclid")
def m_arith(c):
    op = c.nm.split("::")[-1]
    a = c[0]
    b = c[1] if len(c.args) > 1 else None
    ty = int_ty(c)
    if is_int(a) and (b is None or is_int(b)):
        r = INT[ty]
        kind, _, o = op.partition("_")
        if o in ("add", "sub", "mul"):
            v = {"add": a + b, "sub": a - b, "mul": a * b}[o]
            if kind == "saturating":
                return max(r[0], min(r[1], v))
            if kind == "wrapping":
                return (v - r[0]) % (r[1] - r[0] + 1) + r[0]
            if kind == "checked":
                return some(v) if r[0] <= v <= r[1] else Con(OPTION, "None", {})
        if op in ("abs", "unsigned_abs"):
            return abs(a)
        if op == "abs_diff":
            return abs(a - b)
    D = blknum(c.run, a, b)
    if D:
        r = D.arith(c.run, op, a, b, ("prim", ty))
        if r is not None:
            return r
    h = c.run.opts.get("arith")
    if h is not None:
        r = h(c.run, op, a, b, ("prim", ty), None)
        if r is not None:
            return r
    if isinstance(a, SLen) and op in ("saturating_sub", "wrapping_sub", "checked_sub") and b == 1 and a.off == 0:
        r = SLen(a.parts, -1)
        return some(r) if op == "checked_sub" else r
    if isinstance(a, Pos) and op == "saturating_sub" and c.run.opts.get("budget"):
        return Pos()
    if isinstance(a, Pos) and op == "checked_sub" and c.run.opts.get("budget"):
        return some(Pos())
    return Top(op)


@reg("Ord::max", "cmp::max", "Ord::min", "cmp::min")
def m_max(c):
    a, b = c[0], c[1]
    if is_int(a) and is_int(b):
        return max(a, b) if c.nm.endswith("max") else min(a, b)
    if isinstance(a, (Sym, int)) and isinstance(b, (Sym, int)) or blknum(c.run, a, b):
        le = cmp(c.run, "Le", a, b)
        return (b if le else a) if c.nm.endswith("max") else (a if le else b)
    return Top("min/max")


@reg("Ord::cmp", "PartialOrd::partial_cmp")
def m_cmp(c):
    a, b = num(c.run, c.args[0]), num(c.run, c.args[1])
    if is_int(a) and is_int(b):
        o = Con("core::cmp::Ordering", "Less" if a < b else "Greater" if a > b else "Equal", {})
        return o if c.nm.endswith("::cmp") else some(o)
    if isinstance(a, (Sym, int)) and isinstance(b, (Sym, int)):
        if cmp(c.run, "Lt", a, b):
            vn = "Less"
        elif cmp(c.run, "Le", a, b):
            vn = "Equal"
        else:
            vn = "Greater"
        o = Con("core::cmp::Ordering", vn, {})
        return o if c.nm.endswith("::cmp") else some(o)
    return Top("ordering")


@reg("PartialEq::eq", "PartialEq::ne")
def m_eq(c):
    r = eq(c.run, c.args[0], c.args[1])
    return r if c.nm.endswith("eq") else not r


@reg("PartialOrd::lt", "PartialOrd::le", "PartialOrd::gt", "PartialOrd::ge")
def m_ord(c):
    op = c.nm.split("::")[1].capitalize()
    return cmp(c.run, op, c.args[0], c.args[1])


@reg("Range::contains", "RangeInclusive::contains", "RangeFrom::contains", "RangeTo::contains")
def m_range_contains(c):
    r = c[0]
    v = c.args[1]
    if isinstance(r, Con):
        lo, hi = r.f.get("start"), r.f.get("end")
        okk = True
        if lo is not None:
            okk = okk and cmp(c.run, "Ge", v, lo)
        if okk and hi is not None:
            okk = cmp(c.run, "Le" if r.vn == "RangeInclusive" else "Lt", v, hi)
        return okk
    raise Undecided("range")


@reg("RangeInclusive::new")
def m_ri_new(c):
    return Con("core::ops::range::RangeInclusive", "RangeInclusive", {"start": c.args[0], "end": c.args[1]})


@reg("RangeInclusive::start", "RangeInclusive::end")
def m_ri(c):
    r = c[0]
    n = c.nm.split("::")[1]
    if isinstance(r, Sym):
        return Sym(r.path + (n,), strip(r.ty[2][0]))
    return r.f[n]


@reg("panicking::panic_default_msg", "panicking::unreachable_default_msg", "panicking::assert_failed", "panicking::panic_fmt", "panicking::panic", "panicking::unreachable_display", "panicking::panic_display")
def m_panic(c):
    raise PanicE(c.nm.split("::")[-1], c.sp)


@reg("__private_api::log", "__private_api::loc")
def m_log(c):
    return UNIT


@reg("log::max_level")
def m_maxlevel(c):
    return 0


@reg("__private_api::enabled")
def m_logenabled(c):
    return False


# base64
@reg("Engine::encode")
def m_b64enc(c):
    s = sparts(c.run, c.args[1])
    if len(s.parts) == 1 and s.parts[0][0] == "raw":
        p = s.parts[0]
        if is_empty(c.run, s):
            return lit(b"")
        pad = c.run.choose(p[1] + ("#pad",), [0, 1, 2])
        return S((("raw", p[1] + ("#b64",), ("b64",)), ("lit", b"=" * pad)))
    raise Undecided("base64 of %r" % s)


@reg("Engine::decode")
def m_b64dec(c):
    s = sparts(c.run, c.args[1])
    cc = s.conc()
    if cc is not None:
        import base64
        import re as _re
        if len(cc) % 4 or not _re.fullmatch(rb"[A-Za-z0-9+/]*={0,2}", cc):
            return err(Top("base64"))
        d = base64.b64decode(cc)
        return ok(lit(d)) if base64.b64encode(d) == cc else err(Top("base64"))
    if s.parts and s.parts[0][0] == "raw" and s.parts[0][1][-1:] == ("#b64",):
        p = s.parts[0]
        base = p[1][:-1]
        pad = c.run.assume.get(base + ("#pad",))
        if S(s.parts[1:]).conc() == b"=" * (pad or 0):
            return ok(S((("raw", base, None),)))
        return err(Top("base64 padding"))
    import rt
    for p in s.parts:
        if p[0] == "lit" and mask_of(p[1]) & ~(rt.B64 | 1 << 61):
            return err(Top("base64"))
        if p[0] in ("raw", "esc") and not lang(c.run, p)[0] & (rt.B64 | 1 << 61) and lang(c.run, p)[1]:
            return err(Top("base64"))
    import nomx
    if s.parts and s.parts[0][0] == "tok":
        s = nomx.front(c.run, s)
    if c.run.choose(("b64", s.parts), [False, True]):
        return ok(S((("raw", ("b64dec",), None),)))
    return err(Top("base64"))


# chrono
@reg("NaiveDate::format", "DateTime::format")
def m_format_date(c):
    f = sparts(c.run, c.args[1]).conc()
    return Con("strftime", "strftime", {"parts": strftime(c.run, c.args[0], f)})


def sub2(v, f):
    return v


@reg("NaiveDate::from_ymd_opt")
def m_ymd(c):
    return date_part(c, "date", dict(year=c[0], month=c[1], day=c[2]))


@reg("NaiveTime::from_hms_opt")
def m_hms(c):
    return date_part(c, "time", dict(hour=c[0], minute=c[1], second=c[2]))


def date_part(c, kind, fs):
    if c.run.opts.get("parse_any") and not c.run.choose(("valid", kind), [True, False]):
        return Con(OPTION, "None", {})
    return some(Con("chrono", kind, fs))


def chrono_part(run, v, *names):
    v = run.d(v)
    for n in names:
        if not isinstance(v, Con) or v.adt != "chrono" or n not in v.f:
            raise Undecided("no model for chrono value %r" % (v,))
        v = run.d(v.f[n])
    return v


def chrono_date(run, v):
    v = run.d(v)
    while isinstance(v, Con) and v.adt == "chrono" and v.vn in ("zoned", "datetime"):
        v = run.d(v.f["local" if v.vn == "zoned" else "date"])
    return v


@reg("Datelike::year", "Datelike::month", "Datelike::day")
def m_datelike(c):
    return chrono_part(c.run, chrono_date(c.run, c.args[0]), c.nm.split("::")[-1])


@reg("DateTime::timestamp_subsec_nanos", "Timelike::nanosecond")
def m_nanos(c):
    if isinstance(c[0], Con) and c[0].adt == "chrono":
        return c.run.d(c[0].f["nanos"]) if "nanos" in c[0].f else 0
    raise Undecided("no model for sub-second part")


@reg("DateTime::offset")
def m_offset(c):
    return chrono_part(c.run, c.args[0], "offset")


@reg("FixedOffset::local_minus_utc")
def m_lmu(c):
    o = c[0]
    if not (isinstance(o, Con) and o.adt == "chrono"):
        raise Undecided("offset of a symbolic date")
    v = c.run.d(o.f["secs"])
    if o.f["sign"] == "+":
        return v
    return binop(c.run, "Sub", 0, v, ("prim", "i32"))


@reg("NaiveDateTime::new")
def m_ndt(c):
    return Con("chrono", "datetime", {"date": c[0], "time": c[1]})


@reg("FixedOffset::east_opt", "FixedOffset::west_opt")
def m_off(c):
    if c.run.opts.get("parse_any") and not c.run.choose(("valid", "offset"), [True, False]):
        return Con(OPTION, "None", {})
    return some(Con("chrono", "offset", {"sign": "+" if "east" in c.nm else "-", "secs": c[0]}))


@reg("TimeZone::from_local_datetime")
def m_local(c):
    return Con("chrono::LocalResult", "Single", {"0": Con("chrono", "zoned", {"offset": c[0], "local": c[1]})})


@reg("LocalResult::single", "MappedLocalTime::single", "MappedLocalTime::earliest", "MappedLocalTime::latest", "LocalResult::earliest")
def m_single(c):
    return some(c[0].f["0"])


@reg("MappedLocalTime::unwrap", "LocalResult::unwrap")
def m_lunwrap(c):
    return c[0].f["0"]


def const(run, e, ty):
    n = e["n"]
    if n.endswith("STATIC_MAX_LEVEL"):
        return 0
    raise Undecided("constant %s" % n)


@reg("Any::type_id")
def m_typeid(c):
    raise Undecided("type_id")
