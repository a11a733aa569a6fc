"""Parsers on arbitrary input: every parser function is followed on unconstrained bytes."""
import nomx
import rt
import stdx
from ev import ALL, Con, Lin, PanicE, Pos, S, Sym, Top, Tup, Undecided, explore, nom_err, ok
from model import RESULT, is_strlike, last, strip


class AnyIn:
    def __init__(self, m, R=None):
        self.m = m
        self.R = R or rt.RT(m)
        self.functions = set()
        self.vmemo = {}
        self.busy = set()
        self.recursive = set()
        self.omemo = {}

    def is_parser(self, fn):
        """fn(&[u8], ..) -> IResult<&[u8], O>"""
        O = self.R.out_type(fn)
        if O is None or not fn.get("params"):
            return None
        t = self.m.T(fn["crate"], fn["params"][0]["t"])
        return O if is_strlike(strip(t)) else None

    def hook(self, root):
        def h(run, fn, args, tsub):
            self.functions.add(fn["key"])
            r = self.special(run, fn, args)
            if r is not None:
                return r
            if fn["key"] == root and not run.__dict__.get("entered"):
                run.entered = True
                return None
            O = self.is_parser(fn)
            if O is None:
                return None
            s = run.d(args[0])
            if not isinstance(s, S) or not nomx.is_any(s):
                return None
            if O[0] == "adt" and O[1] in self.m.adts:
                if s.parts[0][1] in run.__dict__.get("ended", ()):
                    nomx.any_event(run, s, "Incomplete")
                    return nomx.INC()
                n = nomx.any_next(run)
                o = run.choose(("any", "call", n), ["ok", "err"])
                if o == "err":
                    k = run.choose(("any", "callerr", n), ["Error", "Incomplete", "Failure"])
                    nomx.any_event(run, s, k)
                    return self.call_err(run, k, n)
                nomx.any_event(run, s, "ok")
                rest = S((("any", nomx.any_next(run)),))
                nomx.any_log(run, s, rest, nomx.any_raw(run, ALL, 0))
                run.__dict__.setdefault("anycalls", {})[s.parts[0][1]] = n
                v = run.mk_sym(("$any", n), O)
                if isinstance(v, Sym) and self.m.variants(O) is not None:
                    vs = self.variants_of(fn["key"])
                    if vs is not None and len(vs) < len(self.m.variants(O)):
                        run.choose(("$any", n), vs)
                return ok(Tup([rest, v]))
            return None
        return h

    def variants_of(self, key):
        """Variants a parser can produce (None: any)."""
        if key in self.busy:
            self.recursive.add(key)
            return None
        if key in self.vmemo:
            return self.vmemo[key]
        self.vmemo[key] = None
        self.busy.add(key)
        try:
            r = self.variants_in(key)
        finally:
            self.busy.discard(key)
        self.vmemo[key] = None if key in self.recursive else r
        return self.vmemo[key]

    def variants_in(self, key):
        out = set()
        for run, kind, v in self.outcomes(key):
            if kind == "undecided":
                return None
            if kind == "ok" and isinstance(v, Con) and v.vn == "Ok":
                x = run.d(run.d(v.f["0"]).items[1])
                if isinstance(x, Con):
                    out.add(x.vn)
                elif isinstance(x, Sym) and x.path in run.assume:
                    out.add(run.assume[x.path])
                else:
                    return None
        return sorted(out)

    def outcomes(self, key):
        if key not in self.omemo:
            self.omemo[key] = list(self.follow(key))
        return self.omemo[key]

    def arith(self, run, op, a, b, ty, e):
        if op not in ("Add", "Sub", "Mul"):
            return None
        r = stdx.rng(strip(ty))
        x, y = self.bounds(run, a), self.bounds(run, b)
        if r is None or x is None or y is None:
            return None
        if op == "Add":
            lo, hi = x[0] + y[0], x[1] + y[1]
        elif op == "Sub":
            lo, hi = x[0] - y[1], x[1] - y[0]
        else:
            c = [p * q for p in x for q in y]
            lo, hi = min(c), max(c)
        if lo < r[0] or hi > r[1]:
            raise PanicE("arithmetic overflow: %s of %s and %s in %s" % (op.lower(), list(x), list(y), ty[-1]), e and e.get("sp"))
        return None

    def bounds(self, run, v):
        if isinstance(v, bool):
            return None
        if isinstance(v, int):
            return (v, v)
        if isinstance(v, Sym):
            base = v.path
            while base and str(base[-1]).startswith("as "):
                base = base[:-1]
            mk = run.__dict__.get("anychars", {}).get(base)
            if mk:
                bs = [i for i in range(256) if mk >> i & 1]
                return (bs[0], bs[-1])
            sr = run.__dict__.setdefault("symrng", {})
            if base not in sr and stdx.rng(v.ty):
                sr[base] = stdx.rng(v.ty)
            return sr.get(base)
        if isinstance(v, Lin):
            lo = hi = v.c
            for p, c in v.terms:
                r = self.bounds(run, Sym(p, ("other", "?")))
                if r is None:
                    return None
                lo += min(c * r[0], c * r[1])
                hi += max(c * r[0], c * r[1])
            return (lo, hi)
        return None

    def call_err(self, run, kind, n):
        return nom_err(kind, "no match")

    def special(self, run, fn, args):
        return None

    def charlang(self, run, v):
        p = v.path
        mk = run.__dict__.get("anychars", {}).get(p)
        return mk if mk is not None else self.R.langs.char(run, v)

    def opts(self, root):
        return self.R.opts(hook=self.hook(root), charlang=self.charlang, any=True, parse_any=True, arith=self.arith, bounds=self.bounds)

    def follow(self, fnkey, limit=3000):
        """All outcomes of one parser on arbitrary input."""
        fn = self.m.fns[fnkey]

        def body(run):
            args = []
            for i, p in enumerate(fn["params"]):
                t = strip(self.m.T(fn["crate"], p["t"]))
                if is_strlike(t) and i == (1 if fn.get("impl") and len(fn["params"]) > 1 and not is_strlike(strip(self.m.T(fn["crate"], fn["params"][0]["t"]))) else 0):
                    args.append(S((("any", 0),)))
                elif t == ("prim", "usize"):
                    args.append(run.choose(("any", "budget", i), [Pos(), 0]))
                else:
                    args.append(run.mk_sym(("$arg", str(i)), t))
            return run.d(run.call_local(fn, args, {}))
        return explore(self.m, body, opts=self.opts(fnkey), limit=limit)
