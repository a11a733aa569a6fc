"""Abstract interpreter over the type-checked program (THIR facts).

Values are concrete constants, symbolic inputs identified by an access path (`Sym`), byte strings made of literal
and symbolic parts (`S`), lists with a generic element (`ListV`), and parser values (`Comb`).  Control flow that
depends on a symbolic input is partitioned by the finitely many cases of its type (enum variant, present/absent,
empty/non-empty).  Loops over symbolic lists are analysed with one generic element (no unrolling).  There is no
solver; anything outside the domain raises `Undecided`.
"""
import os
import sys

from model import (BOX, LIST_ADTS, OPTION, RESULT, is_strlike, last, list_elem, norm, strip, subst)

sys.setrecursionlimit(20000)

ALL = (1 << 256) - 1
DEBUG = bool(os.environ.get("SA_DEBUG"))


def mask_of(bs):
    m = 0
    for b in bs:
        m |= 1 << b
    return m


DIGITS = mask_of(b"0123456789")


class Undecided(Exception):
    def __init__(self, why, sp=None):
        Exception.__init__(self, why)
        self.why = why
        self.sp = sp


class PanicE(Exception):
    def __init__(self, why, sp=None):
        Exception.__init__(self, why)
        self.why = why
        self.sp = sp


class BreakE(Exception):
    def __init__(self, label, v):
        self.label, self.v = label, v


class ContinueE(Exception):
    def __init__(self, label):
        self.label = label


class ReturnE(Exception):
    def __init__(self, v):
        self.v = v


class V:
    pass


class Tup(V):
    def __init__(self, items):
        self.items = list(items)

    def __repr__(self):
        return "(" + ", ".join(map(repr, self.items)) + ")"


UNIT = Tup([])


class Con(V):
    def __init__(self, adt, vn, f=None, ty=None):
        self.adt, self.vn, self.f, self.ty = adt, vn, f if f is not None else {}, ty

    def __repr__(self):
        return "%s::%s%s" % (self.adt.split("::")[-1], self.vn, self.f if self.f else "")


class Sym(V):
    def __init__(self, path, ty):
        self.path, self.ty = path, ty

    def __repr__(self):
        return "<" + show_path(self.path) + ">"


class Ch(V):
    def __init__(self, c):
        self.c = c

    def __repr__(self):
        return "%r" % chr(self.c)


class Clo(V):
    def __init__(self, key, env, tsub, crate):
        self.key, self.env, self.tsub, self.crate = key, env, tsub, crate

    def __repr__(self):
        return "closure " + self.key


class FnV(V):
    def __init__(self, f, r, args):
        self.f, self.r, self.args = f, r, args

    def __repr__(self):
        return "fn " + (self.r or self.f)["key"]


class Comb(V):
    def __init__(self, kind, args):
        self.kind, self.args = kind, args

    def __repr__(self):
        return "%s%r" % (self.kind, tuple(self.args))


class Top(V):
    def __init__(self, why="?"):
        self.why = why

    def __repr__(self):
        return "T(%s)" % self.why


class ErrTop(Top):
    """Error value a library parser builds through the program's own ParseError impl."""


class Pos(V):
    """Some integer >= mn (at least 1)."""

    def __init__(self, mn=1):
        self.mn = mn

    def __repr__(self):
        return "pos"


class Lin(V):
    """Linear form over symbolic numbers: ((path, coefficient), ..) plus a constant."""

    def __init__(self, terms, c):
        self.terms = tuple(sorted((k, v) for k, v in terms.items() if v))
        self.c = c

    def __repr__(self):
        return "+".join("%d*%s" % (v, show_path(k)) for k, v in self.terms) + ("+%d" % self.c if self.c else "")


class Place(V):
    def __init__(self, get, set_, key=None):
        self.get, self.set = get, set_


class S(V):
    """Immutable byte string as a sequence of parts."""

    def __init__(self, parts=()):
        out = []
        for p in parts:
            if p[0] == "lit":
                if not p[1]:
                    continue
                if out and out[-1][0] == "lit":
                    out[-1] = ("lit", out[-1][1] + p[1])
                    continue
            out.append(p)
        self.parts = tuple(out)

    def __repr__(self):
        return "S[" + " ".join(map(show_part, self.parts)) + "]"

    def conc(self):
        if not self.parts:
            return b""
        if len(self.parts) == 1 and self.parts[0][0] == "lit":
            return self.parts[0][1]
        return None


def lit(b):
    return S((("lit", bytes(b)),))


class Buf(V):
    """Mutable byte buffer."""

    def __init__(self, parts=()):
        self.parts = list(parts)

    def __repr__(self):
        return "Buf" + repr(S(self.parts))[1:]


class ListV(V):
    """Items: ('one', value) or ('tail', path, value): zero or more further elements of the symbolic list `path`."""

    def __init__(self, items=()):
        self.items = list(items)

    def __repr__(self):
        return "[" + ", ".join(repr(i[1]) if i[0] == "one" else "..%s:%r" % (show_path(i[1]), i[2]) for i in self.items) + "]"


class SetV(ListV):
    pass


def show_path(p):
    return ".".join(map(str, p))


def show_part(p):
    if p[0] == "lit":
        return repr(p[1])[1:]
    if p[0] == "tok":
        return "<%s:%s>" % (show_path(p[1]), p[2][1].split("::")[-1] if p[2][0] == "adt" else p[2][1])
    if p[0] == "rep":
        return "{%s}*" % " ".join(map(show_part, p[2]))
    if p[0] in ("raw", "num", "esc"):
        return "<%s %s>" % (p[0], show_path(p[1]))
    if p[0] == "follow":
        return "~"
    return "<%s>" % ",".join(map(str, p[:2]))


def ok(v):
    return Con(RESULT, "Ok", {"0": v})


def err(v):
    return Con(RESULT, "Err", {"0": v})


def some(v):
    return Con(OPTION, "Some", {"0": v})


NONE = Con(OPTION, "None", {})


def nom_err(kind, why=None):
    return err(Con("nom::internal::Err", kind, {"0": (ErrTop if kind != "Incomplete" else Top)(why or "error")}))


def is_ok(v):
    return isinstance(v, Con) and v.vn == "Ok"


class Iter(V):
    """Iterator over a list value.  `src` is a ListV (copied items) or a Sym list; see Run.iter_next."""

    def __init__(self, items, state="start", adapters=()):
        self.items = list(items)  # ('one', v) | ('tail', path, v) | ('sym', path, elemty) | ('init'|'rest', path, elemty)
        self.adapters = list(adapters)
        self.pending = None  # generic iteration in progress: (mark, path)
        self.first_done = {}
        self.idx = 0


class Run:
    """One path through the finite case split."""

    def __init__(self, m, decisions=(), assume=None, opts=None):
        self.m = m
        self.dec = list(decisions)
        self.pos = 0
        self.forks = []
        self.assume = dict(assume or {})
        self.notes = set()
        self.sinks = []
        self.frames = []
        self.cur_call = None
        self.nz = set()
        self.frames_sp = None
        self.opts = opts or {}
        self.open = set()
        self.depth = 0
        self.steps = 0

    # ----- case split -----
    def choose(self, key, options):
        if key in self.assume:
            return self.assume[key]
        if self.pos < len(self.dec):
            i = self.dec[self.pos]
        else:
            i = 0
            self.dec.append(0)
        self.forks.append((self.pos, len(options)))
        self.pos += 1
        v = options[i]
        self.assume[key] = v
        return v

    def note(self, s):
        self.notes.add(s)

    # ----- symbolic values -----
    def mk_sym(self, path, ty, owner=None):
        ty = strip(ty)
        if is_strlike(ty):
            return S((("raw", path, owner),))
        if ty == ("tuple", ()):
            return UNIT
        if ty[0] == "tuple":
            return Tup([self.mk_sym(path + (str(i),), t, owner) for i, t in enumerate(ty[1])])
        return Sym(path, ty)

    def variant(self, v):
        """Variant name of an enum value (case split for symbolic ones)."""
        if isinstance(v, Con):
            return v.vn
        if isinstance(v, Sym):
            vs = self.m.variants(v.ty)
            if vs is None:
                return None
            return self.choose(v.path, vs)
        raise Undecided("variant of %r" % (v,))

    def field(self, v, n, vn=None):
        v = self.d(v)
        if isinstance(v, Con):
            if n in v.f:
                return v.f[n]
            raise Undecided("field %s of %r" % (n, v))
        if isinstance(v, Tup):
            return v.items[int(n)]
        if isinstance(v, Sym):
            if v.ty[0] == "adt" and v.ty[1] == OPTION:
                return self.mk_sym(v.path + ("Some", n), v.ty[2][0])
            if v.ty[0] == "adt" and v.ty[1] in self.m.adts:
                a = self.m.adts[v.ty[1]]
                iv = self.opts.get("invariants")
                if iv is not None and not a["enum"] and ("inv", v.path) not in self.assume:
                    inv = iv(v.ty)
                    if inv is not None:
                        import rt
                        cs = [{rt.rebase(k, v.path): x for k, x in d.items()} for d in inv]
                        ok_ = [i for i, d in enumerate(cs) if all(self.assume.get(k, x) == x for k, x in d.items())]
                        if ok_:
                            i = self.choose(("inv", v.path), ok_)
                            for k, x in cs[i].items():
                                self.assume.setdefault(k, x)
                for fnm, fty in self.m.fields(v.ty, vn if a["enum"] else None):
                    if fnm == n:
                        p = v.path + ((vn, n) if a["enum"] else (n,))
                        if last(v.ty[1]) == "VecN":
                            self.nonempty_list(p, v.ty)
                        return self.mk_sym(p, fty, (v.ty[1], vn if a["enum"] else None, n))
            raise Undecided("field %s of %r: %r" % (n, v, v.ty))
        if isinstance(v, ErrTop):
            for i in self.m.by_trait.get("ParseError", []):
                for it in i["items"]:
                    if it["n"] == "from_error_kind" and it["key"] in self.m.fns:
                        return self.field(self.call_local(self.m.fns[it["key"]], [Top("input"), Top("nom error kind")], {}), n, vn)
        raise Undecided("field %s of %r" % (n, v))

    def nonempty_list(self, path, ty):
        """VecN<T, N> holds at least N elements."""
        n = 1
        for x in ty[2]:
            if x[0] == "const":
                try:
                    n = int(str(x[1]).split("_")[0].replace("usize", ""))
                except ValueError:
                    return
        if n >= 1:
            self.assume.setdefault(path + ("#empty",), False)
        if n >= 2:
            self.assume.setdefault(path + ("#one",), False)

    def len_one(self, path):
        if self.assume.get(path + ("#empty",)) is True:
            return False
        r = self.choose(path + ("#one",), [True, False])
        if r:
            self.assume[path + ("#empty",)] = False
        return r

    def d(self, v):
        while isinstance(v, Place):
            v = v.get()
        return v

    # ----- list emptiness -----
    def sym_list_empty(self, path):
        return self.choose(path + ("#empty",), [True, False])

    # ----- calls -----
    def fn(self, key):
        return self.m.fns.get(key)

    def call_local(self, fn, args, tsub):
        hook = self.opts.get("hook")
        if hook is not None:
            r = hook(self, fn, args, tsub)
            if r is not None:
                return r
        if not fn.get("body"):
            raise Undecided("no body: " + fn["key"])
        self.depth += 1
        if self.depth > 300:
            self.depth -= 1
            raise Undecided("call depth in " + fn["key"])
        fr = Frame(self, fn, tsub)
        self.frames.append(fr)
        try:
            for p, a in zip(fn["params"], args):
                if p.get("p") is not None:
                    if not fr.bind(p["p"], a):
                        raise Undecided("parameter pattern in " + fn["key"])
            try:
                return fr.ev(fn["body"])
            except ReturnE as e:
                return e.v
        finally:
            self.frames.pop()
            self.depth -= 1

    def apply(self, f, args):
        """Calls a callable value."""
        f = self.d(f)
        if isinstance(f, Clo):
            fn = self.m.fns[f.key]
            fr = Frame(self, fn, f.tsub)
            fr.env = dict(f.env)
            self.frames.append(fr)
            self.depth += 1
            if self.depth > 300:
                raise Undecided("call depth")
            try:
                ps = fn["params"]
                if len(ps) == len(args) + 1:
                    ps = ps[1:]
                for p, a in zip(ps, args):
                    if p.get("p") is not None:
                        if not fr.bind(p["p"], a):
                            raise Undecided("closure parameter pattern")
                try:
                    return fr.ev(fn["body"])
                except ReturnE as e:
                    return e.v
            finally:
                self.frames.pop()
                self.depth -= 1
        if isinstance(f, FnV):
            old = self.cur_call
            self.cur_call = f
            try:
                return self.call(f.f, f.r, f.args, args, None)
            finally:
                self.cur_call = old
        if isinstance(f, Comb):
            import nomx
            return nomx.run(self, f, args[0])
        raise Undecided("call of %r" % (f,))

    def call(self, f, r, targs, args, sp):
        """f: fn reference, r: resolved reference, targs: (f type args, r type args)."""
        fa, ra = targs
        if "ctor" in f:
            adt, vn = f["ctor"], f["variant"]
            return self.construct(adt, vn, {str(i): a for i, a in enumerate(args)})
        for ref, ta in ((r, ra), (f, fa)):
            if ref is None:
                continue
            if ref is f and f.get("trait"):
                continue
            fn = self.m.fns.get(ref["key"])
            if fn is not None and fn.get("body"):
                return self.call_local(fn, args, self.tsub_of(fn, ta))
        if f.get("trait"):
            # dynamic dispatch on the value
            sty = None
            if args:
                sty = self.type_of(args[0])
            for st in (sty, fa[0] if fa and fa[0][0] != "const" else None):
                if st is None:
                    continue
                fn, mm = self.m.find_impl_fn(f["trait"], f["item"], strip(st), fa[1:] if len(fa) > 1 and f["item"] in ("from", "try_from") else None)
                if fn is not None and fn.get("body"):
                    return self.call_local(fn, args, mm)
            # default method of a local trait
            fn = self.m.fns.get(f["key"])
            if fn is not None and fn.get("body"):
                return self.call_local(fn, args, {"Self": sty} if sty else {})
        import stdx
        return stdx.call(self, f, r, fa, ra, args, sp)

    def tsub_of(self, fn, targs):
        return dict(zip(fn.get("gen", []), targs or []))

    def construct(self, adt, vn, fs):
        if adt == "alloc::borrow::Cow":
            return self.d(fs["0"])
        return Con(adt, vn, fs)

    def type_of(self, v):
        v = self.d(v)
        if isinstance(v, Sym):
            return v.ty
        if isinstance(v, Con):
            return v.ty or ("adt", v.adt, ())
        if isinstance(v, Tup):
            ts = [self.type_of(x) for x in v.items]
            return ("tuple", tuple(t or ("other", "?") for t in ts))
        if isinstance(v, Clo):
            return ("closure", v.key)
        return None

    # ----- iteration -----
    def mk_iter(self, v):
        v = self.d(v)
        if isinstance(v, Iter):
            return v
        if isinstance(v, ListV):
            return Iter(v.items)
        if isinstance(v, (S, Buf)):
            c = S(v.parts).conc()
            if c is not None:
                return Iter([("one", b) for b in c])
            return Iter([("bytes", S(v.parts))])
        if isinstance(v, Sym):
            if v.ty[0] == "adt" and v.ty[1] in self.m.adts and not self.m.adts[v.ty[1]]["enum"]:
                # newtype over a list (VecN): IntoIterator
                a = self.m.adts[v.ty[1]]
                fs = self.m.fields(v.ty)
                if len(fs) == 1 and list_elem(fs[0][1]) is not None:
                    self.nonempty_list(v.path + (fs[0][0],), v.ty)
                    return Iter([("sym", v.path + (fs[0][0],), list_elem(fs[0][1]))])
            e = list_elem(v.ty)
            if e is not None:
                return Iter([("sym", v.path, e)])
            if v.ty[0] == "part":
                return Iter([(v.ty[1], v.path, v.ty[2])])
            if v.ty[0] == "adt" and v.ty[1] == OPTION:
                if self.variant(v) == "None":
                    return Iter([])
                return Iter([("one", self.field(v, "0", "Some"))])
        if isinstance(v, Con) and v.adt == OPTION:
            return Iter([("one", v.f["0"])] if v.vn == "Some" else [])
        if isinstance(v, Con) and v.vn in ("Range", "RangeInclusive") and isinstance(v.f.get("start"), int) and isinstance(v.f.get("end"), int):
            hi = v.f["end"] + (1 if v.vn == "RangeInclusive" else 0)
            if hi - v.f["start"] > 100000:
                raise Undecided("range too long")
            return Iter([("one", i) for i in range(v.f["start"], hi)])
        if isinstance(v, Con):
            fs = [x for x in v.f.values()]
            if len(fs) == 1:
                return self.mk_iter(fs[0])
        raise Undecided("iteration over %r" % (v,))

    def iter_next(self, it):
        """Some(v) or None; generic elements are visited once and what the visit emitted is folded."""
        x = self._iter_raw(it)
        if x is None:
            return None
        return self.adapt(it, x)

    def adapt(self, it, x):
        for a in it.adapters:
            if a[0] == "map":
                x = self.apply(a[1], [x])
            elif a[0] == "enumerate":
                x = Tup([it.curidx, x])
            elif a[0] == "filter_map":
                raise Undecided("filter_map")
        return x

    def _iter_raw(self, it):
        if it.pending is not None:
            mark, path, kind = it.pending
            it.pending = None
            self.fold(mark, path, kind)
            it.idx = None
        while it.items:
            h = it.items[0]
            if h[0] == "one":
                it.items.pop(0)
                it.curidx = it.idx if it.idx is not None else Top("index")
                if it.idx is not None:
                    it.idx += 1
                return h[1]
            if h[0] == "sym":
                it.items.pop(0)
                if self.sym_list_empty(h[1]):
                    continue
                it.items.insert(0, ("rest", h[1], h[2]))
                it.curidx = it.idx if it.idx is not None else Top("index")
                if it.idx is not None:
                    it.idx += 1
                return self.mk_sym(h[1] + ("[first]",), h[2])
            if h[0] in ("rest", "init"):
                it.items.pop(0)
                it.pending = (self.mark(), h[1], h[0])
                it.curidx = Pos() if it.idx is not None and it.idx > 0 else Top("index")
                return self.mk_sym(h[1] + ("[elem]",), h[2])
            if h[0] == "tail":
                it.items.pop(0)
                it.pending = (self.mark(), h[1], "rest")
                it.curidx = Pos() if it.idx is not None and it.idx > 0 else Top("index")
                return h[2]
            if h[0] == "bytes" and h[1].parts[:1] and h[1].parts[0][0] == "lit" or h[0] == "bytes" and not h[1].parts:
                it.items.pop(0)
                if not h[1].parts:
                    continue
                it.items[0:0] = [("one", b) for b in h[1].parts[0][1]] + ([("bytes", S(h[1].parts[1:]))] if h[1].parts[1:] else [])
                continue
            if h[0] == "bytes" and self.opts.get("byteloop") and len(h[1].parts) == 1 and h[1].parts[0][0] == "raw":
                p = h[1].parts[0]
                it.items.pop(0)
                if self.sym_list_empty(p[1]):
                    continue
                it.pending = (self.mark(), p[1], "rest")
                it.curidx = Top("index")
                return Sym(p[1] + ("[byte]",), ("prim", "u8"))
            raise Undecided("iteration over symbolic bytes")
        return None

    def mark(self):
        snap = []
        for s in self.sinks:
            snap.append((s, len(s.parts) if isinstance(s, Buf) else len(s.items)))
        cells = []
        for fr in self.frames:
            for k, c in fr.env.items():
                if isinstance(c[0], (bool, int)):
                    cells.append((c, c[0]))
        m = (snap, cells)
        self.open.add(id(m))
        return m

    def fold(self, m, path, kind):
        self.open.discard(id(m))
        snap, cells = m
        for s, n in snap:
            if isinstance(s, Buf):
                if len(s.parts) < n:
                    raise Undecided("buffer shrank in a loop")
                if len(s.parts) > n:
                    body = S(s.parts[n:]).parts
                    s.parts[n:] = [("rep", path, body, kind)]
            else:
                if len(s.items) < n:
                    raise Undecided("list shrank in a loop")
                if len(s.items) > n:
                    body = s.items[n:]
                    if len(body) != 1 or body[0][0] != "one":
                        raise Undecided("several pushes per iteration")
                    s.items[n:] = [("tail", path, body[0][1])]
        for c, old in cells:
            if c[0] is not old and not (type(c[0]) is type(old) and c[0] == old):
                c[0] = Top("changes per iteration")

    def new_buf(self, parts=()):
        b = Buf(parts)
        self.sinks.append(b)
        return b

    def new_list(self, items=()):
        b = ListV(items)
        self.sinks.append(b)
        return b

    # ----- truth -----
    def truth(self, v):
        v = self.d(v)
        if isinstance(v, bool):
            return v
        if isinstance(v, Sym) and v.ty == ("prim", "bool"):
            return self.choose(v.path, [True, False])
        raise Undecided("condition %r" % (v,))


class Frame:
    def __init__(self, run, fn, tsub):
        self.run, self.fn, self.tsub = run, fn, tsub or {}
        self.crate = fn["crate"]
        self.env = {}

    def T(self, i):
        return subst(self.run.m.T(self.crate, i), self.tsub)

    def targs(self, f):
        if f is None:
            return None
        return tuple(subst(self.run.m.targ(self.crate, x), self.tsub) for x in f.get("args", []))

    # ----- patterns -----
    def bind(self, p, v):
        run = self.run
        k = p["p"]
        if k == "wild":
            return True
        if k == "bind":
            if p.get("sub") is not None:
                if not self.bind(p["sub"], v):
                    return False
            self.env[p["v"]] = [v]
            return True
        if k == "deref":
            return self.bind(p.get("e") or p.get("sub"), v)
        v0 = v
        v = run.d(v)
        if k == "variant":
            if p["d"] == "alloc::borrow::Cow":
                if isinstance(v, (S, Buf)):
                    return self.bind(p["fs"][0][1], v) if p["vn"] == run.choose(("cow", id(v)), ["Borrowed", "Owned"]) else False
                raise Undecided("Cow pattern")
            if isinstance(v, Top) and p["d"].split("::")[-1] == "Needed":
                # how much input is lacking: known or not
                ns = run.__dict__.setdefault("needed", [])
                if not any(x is v for x in ns):
                    ns.append(v)
                if run.choose(("needed", [x is v for x in ns].index(True)), ["Size", "Unknown"]) != p["vn"]:
                    return False
                return all(self.bind(sp, Pos()) for n, sp in p["fs"])
            if isinstance(v, Top):
                raise Undecided("match on " + repr(v))
            vn = run.variant(v)
            if vn is None:
                raise Undecided("variant pattern on %r" % (v,))
            if vn != p["vn"]:
                return False
            for n, sp in p["fs"]:
                if not self.bind(sp, self.proj(v, n, vn)):
                    return False
            return True
        if k == "leaf":
            for n, sp in p["fs"]:
                if sp["p"] == "wild":
                    continue
                if not self.bind(sp, self.proj(v, n, None)):
                    return False
            return True
        if k == "const":
            c = self.const(p["c"], p.get("t"))
            import stdx
            return run.truth(stdx.eq(run, v, c))
        if k == "range":
            import stdx
            lo = self.const(p["lo"], p.get("t")) if p.get("lo") is not None else None
            hi = self.const(p["hi"], p.get("t")) if p.get("hi") is not None else None
            if lo is not None and not run.truth(stdx.cmp(run, "Ge", v, lo)):
                return False
            if hi is not None and not run.truth(stdx.cmp(run, "Le" if p.get("incl") else "Lt", v, hi)):
                return False
            return True
        if k == "or":
            for sp in p["ps"]:
                if self.bind(sp, v0):
                    return True
            return False
        if k == "slice":
            return self.bind_slice(p, v)
        raise Undecided("pattern " + k)

    def proj(self, v, n, vn):
        """Field as a place, so that by-reference bindings can be assigned through."""
        run = self.run
        if isinstance(v, Con):
            if n not in v.f:
                raise Undecided("field %s of %r" % (n, v))
            x = v.f[n]
            if isinstance(x, Place):
                return x
            if isinstance(x, (int, bool)) or (isinstance(x, Con)):
                def set_(nv, v=v, n=n):
                    v.f[n] = nv
                return Place(lambda v=v, n=n: v.f[n], set_)
            return x
        return run.field(v, n, vn)

    def const_bytes(self, ps):
        out = []
        for q in ps:
            if q["p"] != "const":
                return None
            c = self.const(q["c"], q.get("t"))
            if isinstance(c, bool) or not isinstance(c, int) or not 0 <= c < 256:
                return None
            out.append(c)
        return bytes(out)

    def bind_slice(self, p, v):
        run = self.run
        pre, mid, suf = p.get("pre", []), p.get("mid"), p.get("suf", [])
        if isinstance(v, (S, Buf)):
            c = S(v.parts).conc()
            if c is None:
                import stdx
                if not pre and not suf and mid is None:
                    return run.truth(stdx.is_empty(run, v))
                bs = self.const_bytes(pre) if mid is None and not suf else None
                if bs is not None:
                    return run.truth(stdx.eq(run, v, S((("lit", bs),))))
                raise Undecided("slice pattern on symbolic bytes")
            items = list(c)
            rest = lambda a, b: lit(c[a:b])
        elif isinstance(v, ListV):
            if any(i[0] != "one" for i in v.items):
                return self.bind_slice_sym(p, v)
            items = [i[1] for i in v.items]
            rest = lambda a, b: ListV(v.items[a:b])
        elif isinstance(v, Sym):
            return self.bind_slice_sym(p, v)
        else:
            raise Undecided("slice pattern on %r" % (v,))
        n = len(items)
        if mid is None:
            if n != len(pre) + len(suf):
                return False
        elif n < len(pre) + len(suf):
            return False
        for sp, x in zip(pre, items):
            if not self.bind(sp, x):
                return False
        for sp, x in zip(suf, items[n - len(suf):]):
            if not self.bind(sp, x):
                return False
        if mid is not None:
            return self.bind(mid, rest(len(pre), n - len(suf)))
        return True

    def bind_slice_sym(self, p, v):
        run = self.run
        import stdx
        pre, mid, suf = p.get("pre", []), p.get("mid"), p.get("suf", [])
        if stdx.is_empty(run, v) is True:
            return not pre and not suf and (mid is None or self.bind(mid, ListV([])))
        if not pre and not suf:
            return mid is not None and self.bind(mid, v)
        first, tail, last_, init = stdx.split_list(run, v)
        if len(pre) == 1 and not suf:
            if mid is None:
                if not stdx.len_is_one(run, v):
                    return False
                return self.bind(pre[0], first)
            return self.bind(pre[0], first) and self.bind(mid, tail)
        if len(suf) == 1 and not pre and mid is not None:
            return self.bind(suf[0], last_) and self.bind(mid, init)
        raise Undecided("slice pattern on a symbolic list")

    def const(self, c, t=None):
        if c is None:
            raise Undecided("constant")
        if isinstance(c, int):
            return c
        if "str" in c:
            return lit(bytes(c["str"]))
        if "bytes" in c:
            return lit(bytes(c["bytes"]))
        if "char" in c:
            return Ch(c["char"])
        if "bool" in c:
            return c["bool"]
        if "int" in c:
            return c["int"]
        raise Undecided("constant %r" % (c,))

    # ----- places -----
    def place(self, e):
        k = e["k"]
        run = self.run
        if k == "var":
            cell = self.env.get(e["v"])
            if cell is None:
                cell = self.env[e["v"]] = [Top("uninit")]
            if isinstance(cell[0], Place):
                return cell[0]

            def set_(v, cell=cell):
                cell[0] = v
            return Place(lambda cell=cell: cell[0], set_)
        if k == "deref":
            inner = e["e"]
            v = self.ev(inner)
            if isinstance(v, Place):
                return v
            return self.place(inner) if inner["k"] in ("var", "field", "deref") else Place(lambda: v, self._nostore)
        if k == "field":
            if e["e"]["k"] in ("var", "deref", "field", "index"):
                b = self.place(e["e"])
            else:
                bv = self.ev(e["e"])
                b = Place(lambda: bv, self._nostore)
            n = e["n"]

            def get(b=b, n=n):
                return run.field(run.d(b), n)

            def set_(v, b=b, n=n):
                o = run.d(b)
                if isinstance(o, Con):
                    o.f[n] = v
                elif isinstance(o, Tup):
                    o.items[int(n)] = v
                else:
                    raise Undecided("store to field of %r" % (o,))
            return Place(get, set_)
        if k == "index":
            bv, iv = self.ev(e["l"]), self.ev(e["i"])

            def get(bv=bv, iv=iv):
                import stdx
                return stdx.index(run, bv, iv)

            def set_(v, bv=bv, iv=iv):
                o, i = run.d(bv), run.d(iv)
                if isinstance(o, ListV) and isinstance(i, int) and i < len(o.items) and all(x[0] == "one" for x in o.items):
                    o.items[i] = ("one", v)
                else:
                    raise Undecided("indexed store")
            return Place(get, set_)
        v = self.ev(e)
        if isinstance(v, Place):
            return v
        box = [v]

        def set2(nv):
            box[0] = nv
        return Place(lambda: box[0], set2)

    def _nostore(self, v):
        raise Undecided("store through an immutable value")

    # ----- expressions -----
    def ev(self, e):
        run = self.run
        run.steps += 1
        if run.steps > run.opts.get("max_steps", 400000):
            raise Undecided("step limit")
        try:
            return getattr(self, "e_" + e["k"])(e)
        except Undecided as u:
            if u.sp is None:
                u.sp = e.get("sp") or None
                if u.sp is None and e["k"] in ("call", "match", "block", "if"):
                    u.sp = self.fn["sp"]
            raise
        except PanicE as u:
            if u.sp is None:
                u.sp = e.get("sp")
            raise

    def e_block(self, e):
        try:
            for st in e["st"]:
                if st["s"] == "expr":
                    self.ev(st["e"])
                else:
                    if st.get("e") is None:
                        self.decl(st["p"])
                        continue
                    v = self.ev(st["e"])
                    v = self.copyval(v)
                    if not self.bind(st["p"], v):
                        if st.get("else") is not None:
                            self.ev(dict(st["else"], k="block"))
                        raise Undecided("irrefutable let did not match")
            if e.get("e") is not None:
                return self.ev(e["e"])
            return UNIT
        except BreakE as b:
            if e.get("label") is not None and b.label == e["label"]:
                return b.v
            raise

    def decl(self, p):
        if p["p"] == "bind":
            self.env[p["v"]] = [Top("uninit")]

    def copyval(self, v):
        return v

    def e_if(self, e):
        if self.cond(e["c"]):
            return self.ev(e["th"])
        if e.get("el") is not None:
            return self.ev(e["el"])
        return UNIT

    def cond(self, c):
        if c["k"] == "let":
            v = self.ev(c["e"])
            return self.bind(c["p"], v)
        if c["k"] == "logic":
            if c["op"] == "And":
                return self.cond(c["l"]) and self.cond(c["r"])
            return self.cond(c["l"]) or self.cond(c["r"])
        return self.run.truth(self.ev(c))

    def e_let(self, e):
        return self.cond(e)

    def e_logic(self, e):
        return self.cond(e)

    def e_match(self, e):
        v = self.ev(e["e"])
        for arm in e["arms"]:
            if self.bind(arm["p"], v):
                if arm.get("g") is not None and not self.cond(arm["g"]):
                    continue
                return self.ev(arm["e"])
        raise Undecided("no arm matches %r" % (self.run.d(v),), e.get("sp"))

    def e_call(self, e):
        run = self.run
        if e.get("f") is None:
            f = self.ev(e["fun"])
            args = [self.ev(a) for a in e["a"]]
            return run.apply(f, args)
        f, r = e["f"], e.get("r")
        nm = None
        if f.get("trait") and f["item"] in ("branch", "from_residual"):
            nm = norm(f)
            if nm == "Try::branch":
                return self.try_branch(self.ev(e["a"][0]))
            if nm == "FromResidual::from_residual":
                return self.residual(self.ev(e["a"][0]), self.T(e["t"]))
        args = [self.ev(a) for a in e["a"]]
        self.ret_t = e["t"]
        run.cur_call = (self, e)
        return run.call(f, r, (self.targs(f), self.targs(r)), args, e.get("sp"))

    def try_branch(self, v):
        run = self.run
        v = run.d(v)
        CF = "core::ops::control_flow::ControlFlow"
        if isinstance(v, Sym):
            vn = run.variant(v)
            if vn in ("Ok", "Some"):
                return Con(CF, "Continue", {"0": run.field(v, "0", vn)})
            return Con(CF, "Break", {"0": v})
        if isinstance(v, Con):
            if v.vn in ("Ok", "Some"):
                return Con(CF, "Continue", {"0": v.f["0"]})
            if v.vn in ("Err", "None"):
                return Con(CF, "Break", {"0": v})
        raise Undecided("? on %r" % (v,))

    def residual(self, v, ty):
        run = self.run
        v = run.d(v)
        if isinstance(v, Con) and v.vn == "Err":
            # From conversion of the error
            x = run.d(v.f["0"])
            if ty[0] == "adt" and ty[1] == RESULT and isinstance(x, Con):
                et = strip(ty[2][1])
                if et[0] == "adt" and et[1] != x.adt:
                    fn, mm = run.m.find_impl_fn("From", "from", et, None)
                    for i in run.m.by_trait.get("From", []):
                        if i["T_self"][0] == "adt" and i["T_self"][1] == et[1] and i["T_targs"] and i["T_targs"][0][0] == "adt" and i["T_targs"][0][1] == x.adt:
                            for it in i["items"]:
                                if it["n"] == "from":
                                    return err(run.call_local(run.m.fns[it["key"]], [x], {}))
        return v

    def e_deref(self, e):
        v = self.ev(e["e"])
        return self.run.d(v)

    def e_bin(self, e):
        import stdx
        return stdx.binop(self.run, e["op"], self.ev(e["l"]), self.ev(e["r"]), self.T(e["l"]["t"]), e)

    def e_un(self, e):
        run = self.run
        v = run.d(self.ev(e["e"]))
        if e["op"] == "Not":
            if isinstance(v, bool) or (isinstance(v, Sym) and v.ty == ("prim", "bool")):
                return not run.truth(v)
        if e["op"] == "Neg" and isinstance(v, int):
            return -v
        raise Undecided("%s %r" % (e["op"], v))

    def e_cast(self, e):
        import stdx
        return stdx.cast(self.run, self.ev(e["e"]), self.T(e["t"]))

    def e_never(self, e):
        self.ev(e["e"])
        raise Undecided("never value")

    def e_coerce(self, e):
        return self.ev(e["e"])

    def e_loop(self, e):
        n = 0
        while True:
            n += 1
            if n > self.run.opts.get("max_loop", 60):
                u = Undecided("loop over an unbounded structure in " + self.fn["key"], self.fn["sp"])
                u.fatal = True
                raise u
            try:
                self.ev(e["e"])
            except BreakE as b:
                if b.label == e.get("label"):
                    return b.v
                raise
            except ContinueE as c:
                if c.label == e.get("label"):
                    continue
                raise

    def e_assign(self, e):
        v = self.ev(e["r"])
        if e["l"]["k"] == "var":
            # plain re-binding, unless the variable holds a reference being re-seated
            cell = self.env.setdefault(e["l"]["v"], [None])
            cell[0] = self.run.d(v) if isinstance(v, Place) and not e["l"].get("isref") else v
            return UNIT
        self.place(e["l"]).set(v if not isinstance(v, Place) else self.run.d(v))
        return UNIT

    def e_assignop(self, e):
        import stdx
        pl = self.place(e["l"])
        op = e["op"].replace("Assign", "")
        v = stdx.binop(self.run, op, pl.get(), self.ev(e["r"]), self.T(e["l"]["t"]), e)
        pl.set(v)
        return UNIT

    def e_field(self, e):
        return self.run.field(self.ev(e["e"]), e["n"])

    def e_index(self, e):
        import stdx
        return stdx.index(self.run, self.ev(e["l"]), self.ev(e["i"]))

    def e_var(self, e):
        c = self.env.get(e["v"])
        if c is None:
            raise Undecided("unbound variable %s" % e["v"])
        return c[0]

    def e_ref(self, e):
        if e["m"]:
            t = strip(self.T(e["e"]["t"]))
            if e["e"]["k"] in ("var", "field", "deref", "index"):
                return self.place(e["e"])
        return self.ev(e["e"])

    def e_rawref(self, e):
        raise Undecided("raw reference")

    def e_break(self, e):
        raise BreakE(e["label"], self.ev(e["e"]) if e.get("e") is not None else UNIT)

    def e_continue(self, e):
        raise ContinueE(e["label"])

    def e_return(self, e):
        raise ReturnE(self.ev(e["e"]) if e.get("e") is not None else UNIT)

    def e_repeat(self, e):
        v = self.run.d(self.ev(e["e"]))
        try:
            n = int(str(e["n"]).split("_")[0])
        except ValueError:
            raise Undecided("repeat count")
        if isinstance(v, int) and not isinstance(v, bool):
            return self.run.new_buf([("lit", bytes([v & 255]) * n)])
        return self.run.new_list([("one", v)] * n)

    def e_array(self, e):
        vs = [self.ev(a) for a in e["a"]]
        t = self.T(e["t"])
        if t[0] == "array" and strip(t[1]) == ("prim", "u8"):
            ds = [self.run.d(x) for x in vs]
            if all(isinstance(x, int) for x in ds):
                return lit(bytes(ds))
            import stdx
            ps = []
            for x in ds:
                if isinstance(x, int):
                    ps.append(("lit", bytes([x])))
                elif isinstance(x, Sym) and x.path[-1:] == ("as u8",):
                    base = Sym(x.path[:-1], ("prim", "char"))
                    ps.append(("raw", base.path, ("char", stdx.char_mask(self.run, base))))
                else:
                    raise Undecided("array of %r" % (x,))
            return S(ps)
        return self.run.new_list([("one", v) for v in vs])

    def e_tuple(self, e):
        return Tup([self.ev(a) for a in e["a"]])

    def e_adt(self, e):
        fs = {}
        if e.get("base") is not None:
            b = self.run.d(self.ev(e["base"]))
            if isinstance(b, Con):
                fs.update(b.f)
            else:
                raise Undecided("struct base")
        for n, x in e["fs"]:
            v = self.ev(x)
            if isinstance(v, Place) and self.T(x["t"])[0] != "ref":
                v = v.get()
            fs[n] = v
        c = self.run.construct(e["d"], e["vn"], fs)
        if isinstance(c, Con):
            c.ty = self.T(e["t"])
        return c

    def e_closure(self, e):
        return Clo(e["d"], self.env, self.tsub, self.crate)

    def e_lit(self, e):
        return self.const(e["c"], e.get("t"))

    def e_fn(self, e):
        v = FnV(e["f"], e.get("r"), (self.targs(e["f"]), self.targs(e.get("r"))))
        v.out = self.T(e["out"]) if e.get("out") is not None else None
        return v

    def e_zst(self, e):
        return UNIT

    def e_const(self, e):
        import stdx
        if e.get("val") is not None:
            t = self.T(e["t"])
            if t == ("prim", "bool"):
                return bool(e["val"])
            return e["val"]
        fn = self.run.m.fns.get(e["d"])
        if fn is not None and fn.get("body"):
            return self.run.call_local(fn, [], {})
        if e["d"].endswith("STANDARD") and "base64" in e["d"]:
            return Con("base64", "STANDARD", {})
        return stdx.const(self.run, e, self.T(e["t"]))

    def e_static(self, e):
        fn = self.run.m.fns.get(e.get("d"))
        if fn is not None and fn.get("body"):
            return self.run.call_local(fn, [], {})
        return Top("static")

    def e_constblock(self, e):
        return Top("const block")

    def e_constparam(self, e):
        v = self.tsub.get(e["n"])
        if v and v[0] == "const":
            try:
                return int(str(v[1]).split("_")[0].replace("usize", ""))
            except ValueError:
                pass
        return Top("const parameter")


def explore(m, body, assume=None, opts=None, limit=4000):
    """Runs `body(run)` for every case of the finite split; yields (run, outcome, value).

    outcome: 'ok' (value), 'panic' (PanicE) or 'undecided' (Undecided).
    """
    stack = [[]]
    n = 0
    while stack:
        dec = stack.pop()
        n += 1
        if n > limit:
            run = Run(m, [], assume, opts)
            yield run, "undecided", Undecided("too many cases")
            return
        run = Run(m, dec, assume, opts)
        try:
            v = body(run)
            res = ("ok", v)
        except PanicE as p:
            res = ("panic", p)
        except Undecided as u:
            if u.sp is None and run.frames_sp:
                u.sp = run.frames_sp
            if getattr(u, "fatal", False):
                yield run, "undecided", u
                return
            res = ("undecided", u)
        except RecursionError:
            res = ("undecided", Undecided("analysis recursion"))
        except (KeyError, TypeError, AttributeError, IndexError, ValueError, AssertionError, ReturnE, BreakE, ContinueE) as ex:
            if DEBUG:
                raise
            res = ("undecided", Undecided("internal: %s %s" % (type(ex).__name__, ex)))
        # schedule siblings of the decisions taken beyond the prefix
        for pos, k in run.forks[len(dec):]:
            for alt in range(1, k):
                stack.append(run.dec[:pos] + [alt])
        yield run, res[0], res[1]
