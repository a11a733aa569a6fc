"""Exact linear arithmetic and byte blocks of symbolic length, for the message framing analysis.

Numbers are linear forms over a few symbols. A comparison is decided when the interval known for the (normalised) linear form
settles it; otherwise the run forks and the interval is narrowed on each side."""
from math import gcd

import stdx
from ev import Buf, Con, Iter, Lin, PanicE, S, Sym, Top, Undecided
from model import OPTION, strip

U64 = 2 ** 64 - 1
U32 = 2 ** 32 - 1


def lin(v):
    if isinstance(v, Lin):
        return v
    if isinstance(v, bool):
        raise Undecided("number expected")
    if isinstance(v, int):
        return Lin({}, v)
    if isinstance(v, Sym):
        return Lin({v.path: 1}, 0)
    raise Undecided("number expected, got %r" % (v,))


def isnum(v):
    return isinstance(v, (Lin, Sym)) or isinstance(v, int) and not isinstance(v, bool)


def simp(l):
    return l.c if not l.terms else l


def add(a, b, k=1):
    a, b = lin(a), lin(b)
    t = dict(a.terms)
    for p, c in b.terms:
        t[p] = t.get(p, 0) + k * c
    return simp(Lin(t, a.c + k * b.c))


def sub(a, b):
    return add(a, b, -1)


def mul(a, k):
    a = lin(a)
    return simp(Lin({p: c * k for p, c in a.terms}, a.c * k))


def same(a, b):
    d = lin(sub(a, b))
    return not d.terms and d.c == 0


def key(a):
    a = lin(a)
    return (a.terms, a.c)


class Dom:
    """bounds: symbol path -> (lo, hi)"""
    def __init__(self, bounds, keep=()):
        self.bounds = bounds
        self.keep = keep        # symbols that are never replaced by a settled value

    def iv(self, run):
        return run.__dict__.setdefault("lin_iv", {})

    def interval(self, run, t, depth=2):
        """Bounds of a linear form: from the symbols' bounds, from what is known of the form itself, and through known forms."""
        iv = self.iv(run)
        lo = hi = 0
        for p, c in t:
            b = self.bounds.get(p) or run.__dict__.get("fresh", {}).get(p) or (0, U64)
            k = iv.get(((p, 1),))
            if k:
                b = (max(b[0], k[0]), min(b[1], k[1]))
            lo += min(c * b[0], c * b[1])
            hi += max(c * b[0], c * b[1])
        if t in iv:
            lo, hi = max(lo, iv[t][0]), min(hi, iv[t][1])
        nt = tuple((p, -c) for p, c in t)
        if nt in iv:
            lo, hi = max(lo, -iv[nt][1]), min(hi, -iv[nt][0])
        if depth and len(t) <= 4 and lo != hi:
            syms = {p for p, _ in t}
            for q, (ql, qh) in list(iv.items()):
                if q == t or not any(p in syms for p, _ in q):
                    continue
                for k in (1, -1):
                    d = dict(t)
                    for p, c in q:
                        d[p] = d.get(p, 0) - k * c
                    rest = tuple(sorted((p, c) for p, c in d.items() if c))
                    if len(rest) > len(t) + (1 if depth > 1 else 0):
                        continue
                    rl, rh = self.interval(run, rest, depth - 1) if rest else (0, 0)
                    a, b = (ql, qh) if k == 1 else (-qh, -ql)
                    lo, hi = max(lo, a + rl), min(hi, b + rh)
        return lo, hi

    def norm(self, d):
        """d < 0  <=>  sign * g * t + c < 0"""
        g = 0
        for p, c in d.terms:
            g = gcd(g, c)
        s = 1 if d.terms[0][1] > 0 else -1
        return tuple((p, s * c // g) for p, c in d.terms), s, g

    def lt(self, run, a, b):
        d = lin(self.pin(run, sub(a, b)))
        if not d.terms:
            return d.c < 0
        t, s, g = self.norm(d)
        lo, hi = self.interval(run, t)
        if s > 0:       # g t + c < 0  <=> t <= (-c-1)//g
            k = (-d.c - 1) // g
            yes, no = (lo, min(hi, k)), (max(lo, k + 1), hi)
        else:           # -g t + c < 0 <=> t >= c//g + 1
            k = d.c // g + 1
            yes, no = (max(lo, k), hi), (lo, min(hi, k - 1))
        if yes[0] > yes[1]:
            return False
        if no[0] > no[1]:
            return True
        r = run.choose(("lin", t, "lt", s, k), [False, True])
        self.used(run, t)
        self.iv(run)[t] = yes if r else no
        return r

    def used(self, run, t):
        run.__dict__.setdefault("lin_used", set()).update(p for p, _ in t)

    def cmp(self, run, op, a, b):
        if op == "Lt":
            return self.lt(run, a, b)
        if op == "Ge":
            return not self.lt(run, a, b)
        if op == "Gt":
            return self.lt(run, b, a)
        return not self.lt(run, b, a)

    def eq(self, run, a, b):
        d = lin(sub(a, b))
        if not d.terms:
            return d.c == 0
        return not self.lt(run, a, b) and not self.lt(run, b, a)

    def assume_le(self, run, a, b):
        d = lin(sub(a, b))      # d <= 0
        if not d.terms:
            return
        t, s, g = self.norm(d)
        lo, hi = self.interval(run, t)
        self.iv(run)[t] = (lo, min(hi, (-d.c) // g)) if s > 0 else (max(lo, -((-d.c) // g)), hi)

    def fresh(self, run, why, rng):
        n = run.__dict__.setdefault("freshn", 0)
        run.freshn += 1
        p = ("?" + why, str(n))
        run.__dict__.setdefault("fresh", {})[p] = rng
        return Lin({p: 1}, 0)

    def arith(self, run, op, a, b, ty, e=None):
        """Plain operators (debug build: overflow panics) and the checked_/saturating_/wrapping_ family."""
        if not isnum(a) or not isnum(b):
            return None
        a, b = simp(lin(a)), simp(lin(b))
        kind, _, o = op.partition("_")
        if not o:
            kind, o = "", {"Add": "add", "Sub": "sub", "Mul": "mul"}.get(op)
        if o not in ("add", "sub", "mul"):
            return None
        r = stdx.rng(strip(ty)) or (0, U64)
        if o == "mul":
            if isinstance(a, int):
                v = mul(b, a)
            elif isinstance(b, int):
                v = mul(a, b)
            else:
                return None
        else:
            v = add(a, b) if o == "add" else sub(a, b)
        over = self.lt(run, r[1], v)
        under = not over and self.lt(run, v, r[0])
        if kind == "":
            if over or under:
                raise PanicE("arithmetic overflow: %r %s %r" % (a, op, b), e and e.get("sp"))
            return v
        if kind == "checked":
            return Con(OPTION, "None", {}) if over or under else stdx.some(v)
        if kind == "saturating":
            return r[1] if over else r[0] if under else v
        if kind == "wrapping":
            return self.fresh(run, "wrapped", r) if over or under else v
        return None

    def cast(self, run, v, ty):
        r = stdx.rng(ty)
        if r is None:
            return None
        if self.lt(run, r[1], v) or self.lt(run, v, r[0]):
            return self.fresh(run, "truncated", r)
        return simp(lin(v))

    def pin(self, run, v):
        """Replaces symbols whose value is settled."""
        l = lin(v)
        iv = self.iv(run)
        t = {}
        c = l.c
        for p, k in l.terms:
            b = iv.get(((p, 1),))
            if b and b[0] == b[1] and p not in self.keep:
                c += k * b[0]
            else:
                t[p] = k
        l = Lin(t, c)
        if len(l.terms) > 1:
            n, s, g = self.norm(l)
            b = iv.get(n)
            if b and b[0] == b[1]:
                return s * g * b[0] + l.c
        return simp(l)

    def same(self, run, a, b):
        d = lin(self.pin(run, sub(a, b)))
        if d.terms:
            t, s, g = self.norm(d)
            lo, hi = self.interval(run, t)
            return lo == hi and s * g * lo + d.c == 0
        return d.c == 0

    def pin_parts(self, run, parts):
        return tuple(p if p[0] != "blk" else ("blk", p[1], self.pin(run, p[2]), self.pin(run, p[3])) for p in parts)

    # ----- byte strings: parts ("lit", bytes) and ("blk", name, lo, hi)
    def plen(self, parts):
        n = 0
        for p in parts:
            if p[0] == "lit":
                n = add(n, len(p[1]))
            elif p[0] == "blk":
                n = add(n, sub(p[3], p[2]))
            else:
                raise Undecided("length of %r" % (p,))
        return n

    def slice(self, run, parts, lo, hi, check=True):
        total = self.plen(parts)
        if hi is None:
            hi = total
        if check and (self.lt(run, hi, lo) or self.lt(run, total, hi)):
            raise PanicE("slice index out of range")
        out = []
        pos = 0
        for p in parts:
            n = self.plen([p])
            end = add(pos, n)
            # overlap of [pos,end) with [lo,hi)
            if not self.lt(run, pos, hi):
                break
            if self.lt(run, lo, end):
                a = sub(lo, pos) if self.lt(run, pos, lo) else 0
                b = sub(hi, pos) if self.lt(run, hi, end) else n
                if p[0] == "lit":
                    if not isinstance(a, int) or not isinstance(b, int):
                        # settle the offsets by case
                        a = self.settle(run, a, len(p[1]))
                        b = self.settle(run, b, len(p[1]))
                    if p[1][a:b]:
                        out.append(("lit", p[1][a:b]))
                else:
                    if not same(a, b):
                        out.append(("blk", p[1], add(p[2], a), add(p[2], b)))
            pos = end
        return S(out).parts

    def settle(self, run, v, mx):
        if isinstance(v, int):
            return v
        for k in range(mx + 1):
            if self.eq(run, v, k):
                return k
        raise Undecided("offset")

    def norm_parts(self, parts):
        """Merges adjacent pieces of one block; drops empty ones."""
        out = []
        for p in S(parts).parts:
            if p[0] == "blk":
                if same(p[2], p[3]):
                    continue
                if out and out[-1][0] == "blk" and out[-1][1] == p[1] and same(out[-1][3], p[2]):
                    out[-1] = ("blk", p[1], out[-1][2], p[3])
                    continue
            out.append(p)
        return S(out).parts

    def parts_eq(self, a, b, run=None):
        if run is not None:
            a, b = self.pin_parts(run, a), self.pin_parts(run, b)
        a, b = self.norm_parts(a), self.norm_parts(b)
        if len(a) != len(b):
            return False
        for p, q in zip(a, b):
            if p[0] != q[0] or p[1] != q[1]:
                return False
            eq = same if run is None else (lambda x, y: self.same(run, x, y))
            if p[0] == "blk" and not (eq(p[2], q[2]) and eq(p[3], q[3])):
                return False
        return True


def dom(run):
    return run.opts.get("blk")


def feasible(D, run):
    """Is there a small solution of everything assumed on this path?"""
    iv = D.iv(run)
    fresh = run.__dict__.get("fresh", {})
    syms = sorted({p for t in iv for p, _ in t})
    if len(syms) > 6:
        return True
    cs = {0, 1, 2, 3, 4, 7, 8, 9, 20, U32 // 10, U32 // 10 + 1, U32 - 1, U32, U32 + 1}
    doms = []
    for p in syms:
        b = D.bounds.get(p) or fresh.get(p) or (0, U64)
        doms.append([c for c in sorted(cs) if b[0] <= c <= b[1]])
    cons = sorted(((max(syms.index(p) for p, _ in t), t, b) for t, b in iv.items()), key=lambda x: x[0])

    def go(i, env):
        if i == len(syms):
            return True
        for v in doms[i]:
            env[syms[i]] = v
            if all(lo <= sum(c * env[p] for p, c in t) <= hi for n, t, (lo, hi) in cons if n == i) and go(i + 1, env):
                return True
        return False
    return go(0, {})
