"""Quoting: the escaping and unescaping functions, as compositions of text replacements, decided as finite transducers.

Each path through such a function is a sequence of replacements together with conditions (does an intermediate text contain a
pattern, is it at least k bytes long). The paths are extracted from the source by the abstract interpreter; whether their
composition is the wanted mapping for every text is then a reachability question on a finite automaton."""
import ev
from ev import S, Undecided, explore

BS, DQ = 0x5c, 0x22


def paths(m, fn):
    """[(stages ((pattern, replacement), ..), conditions [(kind, stages, arg, truth)])]; raises Undecided."""
    out = []

    def body(run):
        r = run.d(run.call_local(fn, [S((("xf", ()),))], {}))
        r = S(r.parts) if isinstance(r, (S, ev.Buf)) else r
        if not isinstance(r, S) or len(r.parts) != 1 or r.parts[0][0] != "xf":
            raise Undecided("result is not a replacement of the argument: %r" % (r,))
        return r.parts[0][1]

    for run, k, v in explore(m, body):
        if k == "panic":
            out.append((None, [], v))
            continue
        if k != "ok":
            raise v
        cs = []
        for key, val in list(run.assume.items()):
            if isinstance(key, tuple) and key and key[0] in ("xcontains", "xlen"):
                cs.append((key[0], key[1], key[2], val))
            elif isinstance(key, tuple) and key and key[0] not in ("xcontains", "xlen"):
                raise Undecided("condition %r" % (key,))
        out.append((v, cs, None))
    return out


class Rep:
    """Leftmost non-overlapping replacement of a fixed pattern, reading one byte at a time: state = bytes held back."""
    def __init__(self, pat, rep):
        self.pat, self.rep = pat, rep
        self.init = b""

    def step(self, st, b):
        h = st + bytes([b])
        out = b""
        if h == self.pat:
            return b"", self.rep
        while not self.pat.startswith(h):
            out += h[:1]
            h = h[1:]
        return h, out

    def end(self, st):
        return st


class Has:
    def __init__(self, pat):
        self.pat = pat
        self.init = (b"", False)

    def step(self, st, b):
        h, f = st
        if f:
            return st
        h = h + bytes([b])
        if h == self.pat:
            return (b"", True)
        while not self.pat.startswith(h):
            h = h[1:]
        return (h, False)

    def val(self, st):
        return st[1]


class Len:
    def __init__(self, k):
        self.k = k
        self.init = 0

    def step(self, st, b):
        return min(self.k, st + 1)

    def val(self, st):
        return st >= self.k


class Hom:
    def __init__(self, tab):
        self.tab = tab
        self.init = None

    def step(self, st, b):
        return None, self.tab.get(b, bytes([b]))

    def end(self, st):
        return b""


class Pipe:
    """Stages with observers on the text before each stage (and after the last)."""
    def __init__(self, stages, conds):
        self.stages = stages
        self.obs = [[] for _ in range(len(stages) + 1)]     # (observer, wanted truth)
        for i, o, v in conds:
            self.obs[i].append((o, v))

    def init(self):
        return (tuple(s.init for s in self.stages), tuple(tuple(o.init for o, _ in os) for os in self.obs))

    def _feed(self, st, i, bs):
        """Feeds bytes into stage i; returns (state, output of the last stage)."""
        ss, os = list(st[0]), [list(x) for x in st[1]]
        cur = bs
        for j in range(i, len(self.stages) + 1):
            for b in cur:
                for n, (o, _) in enumerate(self.obs[j]):
                    os[j][n] = o.step(os[j][n], b)
            if j == len(self.stages):
                break
            nxt = b""
            for b in cur:
                ss[j], o = self.stages[j].step(ss[j], b)
                nxt += o
            cur = nxt
        return (tuple(ss), tuple(tuple(x) for x in os)), cur

    def step(self, st, b):
        return self._feed(st, 0, bytes([b]))

    def end(self, st):
        out = b""
        for j, s in enumerate(self.stages):
            rest = s.end(st[0][j])
            if rest:
                st, o = self._feed(st, j + 1, rest)
                out += o
        okk = all(o.val(st[1][j][n]) == want for j, os in enumerate(self.obs) for n, (o, want) in enumerate(os))
        return okk, out


def build(stages, conds):
    ss = [Rep(a, b) for a, b in stages]
    cs = []
    for kind, pre, arg, val in conds:
        i = len(pre)
        if pre != tuple(stages[:i]):
            raise Undecided("condition on a text off the path")
        cs.append((i, Has(arg) if kind == "xcontains" else Len(arg), val))
    return ss, cs


def differs(p, want, alphabet, limit=200000):
    """Shortest input on which the pipe (if its conditions hold) does not output want(input); None if there is none.

    want: Hom applied to each input byte. The difference of the two outputs is kept as a delay string."""
    start = (p.init(), b"", b"", False)         # state, expected but not yet output, output but not expected, bad
    seen = {start: None}
    q = [start]
    n = 0
    while q:
        nq = []
        for cfg in q:
            st, exp, got, bad = cfg
            okk, out = p.end(st)
            if okk and (bad or got + out != exp):
                w = b""
                while seen[cfg] is not None:
                    cfg, b = seen[cfg]
                    w = bytes([b]) + w
                return w
            for b in alphabet:
                st2, o = p.step(st, b)
                if bad:
                    c2 = (st2, b"", b"", True)
                else:
                    e2 = exp + want.step(None, b)[1]
                    g2 = got + o
                    k = 0
                    while k < len(e2) and k < len(g2) and e2[k] == g2[k]:
                        k += 1
                    e2, g2 = e2[k:], g2[k:]
                    if e2 and g2 or len(e2) > 40 or len(g2) > 40:
                        # different byte, or the outputs drift apart for good
                        c2 = (st2, b"", b"", True)
                    else:
                        c2 = (st2, e2, g2, False)
                if c2 not in seen:
                    n += 1
                    if n > limit:
                        raise Undecided("too many automaton states")
                    seen[c2] = (cfg, b)
                    nq.append(c2)
        q = nq
    return None


ESC = Hom({BS: b"\\\\", DQ: b"\\\""})
ID = Hom({})


def alphabet(*paths_):
    a = {BS, DQ, ord("x"), 0xc3}
    for ps in paths_:
        for st, cs, _ in ps:
            for x, y in st or ():
                a |= set(x)
            for c in cs:
                if c[0] == "xcontains":
                    a |= set(c[2])
    return sorted(a - {0, 10, 13})


def decide(ctx, m):
    def one(nm):
        ks = [k for k in m.fns if k.split("::")[-1] == nm]
        return m.fns[ks[0]] if len(ks) == 1 else None
    esc, une = one("escape_quoted"), one("unescape_quoted")
    if esc is None or une is None:
        ctx.note("quoting: the escaping and unescaping functions were not found")
        return
    try:
        pe = paths(m, esc)
    except Undecided as u:
        ctx.note("quoting: %s not decided: %s" % (esc["key"], u))
        pe = None
    try:
        pu = paths(m, une)
    except Undecided as u:
        ctx.note("quoting: %s not decided: %s" % (une["key"], u))
        pu = None
    sp = lambda f: "%s" % (f.get("sp") or f["key"])
    if pe:
        a = alphabet(pe)
        for st, cs, pan in pe:
            ctx.count("quoting_paths")
            if st is None:
                continue
            ss, oc = build(st, cs)
            w = differs(Pipe(ss, oc), ESC, a)
            if w is not None:
                ctx.violation("quoting: escape_quoted", sp(esc), "the escaping function does not put a backslash before exactly the "
                              "backslashes and double quotes, for example for the text %r" % w.decode("latin1"))
    if pu:
        a = alphabet(pu)
        for st, cs, pan in pu:
            ctx.count("quoting_paths")
            if st is None:
                continue
            ss, oc = build(st, cs)
            w = differs(Pipe([ESC] + ss, [(i + 1, o, v) for i, o, v in oc]), ID, a)
            if w is not None:
                ctx.violation("quoting: unescape_quoted", sp(une), "unescaping an escaped text does not give the text back, for example "
                              "for the text %r" % w.decode("latin1"))
