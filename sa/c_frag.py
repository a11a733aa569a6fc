"""Message framing: the splitter of the byte stream, compared state by state with what a line/literal splitter has to do.

The abstract state of the splitter object (its fields, with linear forms for positions and lengths and blocks of unknown bytes)
is explored together with a specification state from the initial state on. In every pair of states, for every single byte (all 256),
every pair of relevant bytes, and blocks of any length inside literals, the public functions are evaluated abstractly and
their results compared with the specification's."""
import blk
import model
import report
import stdx
from blk import add, lin, same, sub
from ev import Buf, Con, Lin, ListV, NONE, PanicE, Place, S, Sym, Top, Tup, Undecided, explore, lit
from model import OPTION, strip

DEBUG = False
FRAG = "imap_codec::fragmentizer::Fragmentizer"
E, ST, L, R, M, K = (Lin({(x,): 1}, 0) for x in ("E", "ST", "L", "R", "M", "K"))
BOUNDS = {("E",): (0, 2 ** 63), ("ST",): (0, 2 ** 63), ("L",): (0, blk.U32), ("R",): (0, blk.U32), ("M",): (0, blk.U32), ("K",): (0, blk.U32)}
D = blk.Dom(BOUNDS, keep=(("M",),))
REPS = sorted(set(b"\r\n{}+0159 aA-~\x00\xff"))


class Spec:
    """What the splitter has to do, over the same symbolic values."""
    def __init__(self, limited):
        self.limited = limited
        self.buf = ()
        self.queue = ()
        self.exceeded = self.poisoned = self.complete = False
        self.mode = ("line", "other", None)
        self.start = self.end = 0

    def freeze(self):
        return (self.limited, self.exceeded, self.poisoned, self.complete, self.mode[0], self.mode[1], blk.key(self.mode[2]) if self.mode[2] is not None else None,
                blk.key(self.start), blk.key(self.end))

    def copy(self):
        s = Spec(self.limited)
        s.__dict__.update(self.__dict__)
        return s

    def reset(self):
        self.exceeded = self.poisoned = self.complete = False
        self.buf = ()
        self.start = self.end = 0
        self.mode = ("line", "other", None)

    def consume(self, run, parts):
        n = D.plen(parts)
        self.end = add(self.end, n)
        if self.limited:
            rem = sub(M, D.plen(self.buf))
            if D.lt(run, rem, n):
                self.buf = S(self.buf + D.slice(run, parts, 0, rem)).parts
                self.exceeded = True
                return
        self.buf = S(self.buf + parts).parts

    def progress(self, run):
        if self.complete:
            self.reset()
        if self.mode[0] == "literal":
            rem = self.mode[1]
            n = D.plen(self.queue)
            if D.lt(run, n, rem):
                p, self.queue = self.queue, ()
                self.consume(run, p)
                self.mode = ("literal", sub(rem, n), None)
                return None
            p = D.slice(run, self.queue, 0, rem)
            self.queue = D.slice(run, self.queue, rem, None)
            self.consume(run, p)
            f = ("Literal", self.start, self.end)
            self.start = self.end
            self.mode = ("line", "other", None)
            return f
        st, ln = self.mode[1], self.mode[2]
        taken = b""
        frag = None
        q = S(self.queue).conc()
        if q is None:
            raise Undecided("unknown bytes in a line")
        for i, b in enumerate(q):
            taken += bytes([b])
            c = bytes([b])
            if c == b"\n":
                ann = None
                if st in ("close+", "closecr+"):
                    ann = ("NonSync", ln)
                elif st in ("close", "closecr"):
                    ann = ("Sync", ln)
                frag = (ann, "CrLf" if st.endswith("cr") or st.endswith("cr+") else "Lf")
                break
            if c == b"\r":
                st = {"close": "closecr", "close+": "closecr+"}.get(st, "cr")
            elif c == b"{":
                st = "open"
            elif c in (b"0", b"1", b"2", b"3", b"4", b"5", b"6", b"7", b"8", b"9") and st in ("open", "digit"):
                d = b - 48
                v = d if st == "open" else add(blk.mul(ln, 10), d)
                if D.lt(run, blk.U32, v):
                    st = "other"
                else:
                    st, ln = "digit", v
            elif c == b"+" and st == "digit":
                st = "plus"
            elif c == b"}" and st in ("digit", "plus"):
                st = "close" if st == "digit" else "close+"
            else:
                st = "other"
        if st in ("other", "open", "cr"):
            ln = None
        self.queue = lit(q[len(taken):]).parts
        self.consume(run, lit(taken).parts)
        if frag is None:
            self.mode = ("line", st, ln)
            return None
        ann, ending = frag
        f = ("Line", self.start, self.end, ann, ending)
        if ann:
            self.start = self.end
            self.mode = ("literal", ann[1], None)
        else:
            self.complete = True
            self.mode = ("line", "other", None)
        return f


# ---------------------------------------------------------------- states of the implementation
def freeze(run, v, ty=None):
    v = run.d(v)
    if isinstance(v, bool) or v is None:
        return v
    if isinstance(v, (int, Lin, Sym)):
        return ("num", ty[1] if ty and ty[0] == "prim" else "?", lin(D.pin(run, v)))
    if isinstance(v, Con):
        ts = {}
        try:
            t = v.ty or (ty if ty and ty[0] == "adt" and ty[1] == v.adt else ("adt", v.adt, ()))
            if v.adt == OPTION:
                ts = {"0": ty[2][0]} if ty and ty[0] == "adt" and ty[2] else {}
            elif v.adt in run.m.adts:
                ts = dict(run.m.fields(t, v.vn) if run.m.adts[v.adt]["enum"] else run.m.fields(t))
        except (KeyError, TypeError):
            pass
        return ("con", v.adt, v.vn, tuple((k, freeze(run, x, strip(ts[k]) if k in ts else None)) for k, x in sorted(v.f.items())))
    if isinstance(v, Tup):
        return ("tup", tuple(freeze(run, x) for x in v.items))
    if isinstance(v, (S, Buf)):
        return ("buf", D.norm_parts(D.pin_parts(run, v.parts)))
    if isinstance(v, ListV) and not v.items:
        return ("list",)
    raise Undecided("state %r" % (v,))


def thaw(run, z):
    if isinstance(z, bool) or z is None:
        return z
    if z[0] == "num":
        return blk.simp(z[2])
    if z[0] == "con":
        return Con(z[1], z[2], {k: thaw(run, x) for k, x in z[3]})
    if z[0] == "tup":
        return Tup([thaw(run, x) for x in z[1]])
    if z[0] == "list":
        return run.new_list()
    return run.new_buf(z[1])


def zkey(z):
    if isinstance(z, tuple) and z and z[0] == "num":
        return ("num", z[1], blk.key(z[2]))
    if isinstance(z, tuple) and z and z[0] == "buf":
        return ("buf", tuple((p if p[0] == "lit" else ("blk", p[1], blk.key(p[2]), blk.key(p[3]))) for p in z[1]))
    if isinstance(z, tuple):
        return tuple(zkey(x) for x in z)
    return z


def rename(z, spec):
    """The same state over the standard symbols; spec is changed along."""
    end, start = spec.end, spec.start
    um = [(end, E)] + ([] if same(end, start) else [(start, ST)])
    lm = []
    if spec.mode[0] == "line" and spec.mode[2] is not None:
        lm.append((spec.mode[2], L))
    if spec.mode[0] == "literal":
        lm.append((spec.mode[1], R))
    n = [0]

    def num(ty, v):
        if same(v, M):
            return M
        cands = um if ty == "usize" else lm if ty == "u32" else um + lm
        for a, b in cands:
            if same(v, a):
                return b
        if ty == "usize":
            d = sub(v, end)
            if isinstance(d, int) and abs(d) <= 3:
                return lin(add(E, d))
        if not lin(v).terms:
            return lin(v)
        n[0] += 1
        known = all(p[0] in ("E", "ST", "L", "R", "M", "K") for p, _ in lin(v).terms)
        return Lin({("#%s%d" % ("d" if known or any(p[0].startswith("?") for p, _ in lin(v).terms) else "i", n[0]),): 1}, 0)

    def go(z):
        if isinstance(z, tuple) and z and z[0] == "num":
            return ("num", z[1], num(z[1], z[2]))
        if isinstance(z, tuple) and z and z[0] == "buf":
            if D.parts_eq(z[1], spec.buf) and z[1]:
                return ("buf", newbuf)
            return z
        if isinstance(z, tuple):
            return tuple(go(x) for x in z)
        return z

    newbuf = (("blk", "$msg", 0, M if spec.exceeded else E),) if spec.buf else ()
    z2 = go(z)
    s2 = spec.copy()
    s2.end = E
    s2.start = E if same(end, start) else ST
    if spec.mode[0] == "line" and spec.mode[2] is not None:
        s2.mode = ("line", spec.mode[1], L)
    if spec.mode[0] == "literal":
        s2.mode = ("literal", R, None)
    s2.buf = newbuf
    return z2, s2


class Bad(Exception):
    def __init__(self, what, obs):
        self.what, self.obs = what, obs


def vnum(run, v):
    v = run.d(v)
    if not isinstance(v, (int, Lin, Sym)) or isinstance(v, bool):
        raise Undecided("number expected: %r" % (v,))
    return lin(v)


def tainted(v):
    return any(p[0].startswith("#i") for p, _ in lin(v).terms)


class Frag:
    def __init__(self, ctx, m, cfg):
        self.ctx, self.m, self.cfg = ctx, m, cfg
        self.fn = {}
        for k, f in m.fns.items():
            if f.get("impl") and k.startswith("imap_codec::fragmentizer::"):
                ip = m.impl_by_key.get(f["impl"], {})
                if not ip.get("trait") and f.get("body"):
                    t = strip(m.T(f["crate"], ip["self"])) if "self" in ip else None
                    if t is None or t[:2] == ("adt", FRAG):
                        self.fn.setdefault(k.split("::")[-1], f)
        self.found = {}
        self.evals = 0
        self.undecided = {}

    def call(self, run, name, *args):
        f = self.fn.get(name)
        if f is None:
            raise Undecided("no function " + name)
        return run.d(run.call_local(f, list(args), {}))

    def facts(self, run, sp):
        if not same(sp.start, sp.end):
            D.assume_le(run, sp.start, sp.end)
        if sp.limited and not sp.exceeded:
            D.assume_le(run, sp.end, M)
        if sp.limited and sp.exceeded:
            D.assume_le(run, add(M, 1), sp.end)

    def observe(self, run, o, sp, where):
        for nm, want in (("is_message_complete", sp.complete), ("is_message_poisoned", sp.poisoned), ("is_max_message_size_exceeded", sp.exceeded)):
            r = run.truth(self.call(run, nm, o))
            if r != want:
                raise Bad("%s() is %s instead of %s" % (nm, r, want), nm)
        b = self.call(run, "message_bytes", o)
        b = stdx.sparts(run, b).parts
        if not D.parts_eq(b, sp.buf, run):
            raise Bad("the bytes of the message are %r instead of %r" % (S(b), S(sp.buf)), "message_bytes")

    def compare(self, run, r, f):
        r = run.d(r)
        if not (isinstance(r, Con) and r.adt == OPTION):
            raise Undecided("result %r" % (r,))
        if r.vn == "None":
            if f is not None:
                raise Bad("no fragment instead of a %s" % f[0], "progress")
            return None
        v = run.d(r.f["0"])
        if f is None:
            raise Bad("a %s fragment is reported instead of none" % v.vn, "progress")
        if v.vn != f[0]:
            raise Bad("a %s fragment is reported instead of a %s" % (v.vn, f[0]), "progress")
        for nm, want in (("start", f[1]), ("end", f[2])):
            got = vnum(run, v.f[nm])
            if not D.same(run, got, want):
                if tainted(got):
                    raise Undecided("position")
                raise Bad("the %s of the fragment is %r instead of %r" % (nm, got, want), "progress")
        if f[0] == "Line":
            a = run.d(v.f["announcement"])
            if (a.vn == "Some") != (f[3] is not None):
                raise Bad("a line is taken %s" % ("to announce a literal although it does not" if f[3] is None else "not to announce a literal although it does"), "announcement")
            if f[3]:
                a = run.d(a.f["0"])
                md = run.d(a.f["mode"])
                if md.vn != f[3][0]:
                    raise Bad("the announced literal is taken as %s instead of %s" % (md.vn, f[3][0]), "announcement")
                ln = vnum(run, a.f["length"])
                if not D.same(run, ln, f[3][1]):
                    if tainted(ln):
                        raise Undecided("length")
                    raise Bad("the announced length is taken as %r instead of %r" % (ln, f[3][1]), "announcement")
            en = run.d(v.f["ending"])
            if en.vn != f[4]:
                raise Bad("the line ending is reported as %s instead of %s" % (en.vn, f[4]), "ending")
        return v

    def frag_bytes(self, run, o, v, f, sp):
        if v is None:
            return
        b = stdx.sparts(run, self.call(run, "fragment_bytes", o, v)).parts
        n = D.plen(sp.buf)
        cl = lambda x: n if D.lt(run, n, x) else x
        want = D.slice(run, sp.buf, cl(f[1]), cl(f[2]))
        if not D.parts_eq(b, want, run):
            raise Bad("the bytes of the fragment are %r instead of %r" % (S(b), S(want)), "fragment_bytes")

    def opts(self, extern=None):
        return {"blk": D, "extern": extern}

    def initial(self, limited):
        out = []

        def body(run):
            o = self.call(run, "new", M) if limited else self.call(run, "without_max_message_size")
            sp = Spec(limited)
            self.observe(run, o, sp, "new")
            return freeze(run, o), sp
        for run, k, v in explore(self.m, body, opts=self.opts()):
            self.evals += 1
            if k != "ok":
                raise v if isinstance(v, Undecided) else Undecided("initial state: %s" % v)
            out.append(v)
        return out

    def step(self, z, sp0, name, action):
        """Evaluates one action in one pair of states; yields the successor pairs."""
        res = []

        def body(run):
            sp = sp0.copy()
            self.facts(run, sp)
            o = thaw(run, z)
            try:
                action(run, o, sp)
            except Bad as b:
                bad = [p for p in run.__dict__.get("lin_used", ()) if p[0].startswith("#")]
                if bad or not blk.feasible(D, run):
                    raise Undecided("depends on an unknown number")
                return ("bad", b)
            sp.end, sp.start = D.pin(run, sp.end), D.pin(run, sp.start)
            sp.mode = tuple(D.pin(run, x) if isinstance(x, (Lin, Sym)) else x for x in sp.mode)
            sp.buf = D.norm_parts(D.pin_parts(run, sp.buf))
            return ("ok", freeze(run, o, ("adt", FRAG, ())), sp)
        for run, k, v in explore(self.m, body, opts=self.opts(), limit=400):
            self.evals += 1
            if k == "panic":
                if not any(p[0].startswith("#") for p in run.__dict__.get("lin_used", ())) and blk.feasible(D, run):
                    self.report("panic", "%s: panic (%s)" % (name, v), sp0)
                continue
            if k == "undecided":
                self.undecided[str(v)] = name
                continue
            if v[0] == "bad":
                self.report(v[1].obs, "%s: %s" % (name, v[1].what), sp0)
            else:
                res.append((v[1], v[2]))
        return res

    def report(self, obs, what, sp):
        st = "%s%s%s" % (sp.mode[0] if not sp.complete else "complete", "/" + str(sp.mode[1]) if sp.mode[0] == "line" else "",
                         ("/too long" if sp.exceeded else "") + ("/poisoned" if sp.poisoned else ""))
        self.found.setdefault(obs, []).append("in state %s: %s" % (st, what))

    def feed(self, parts, times=3):
        def act(run, o, sp):
            self.call(run, "enqueue_bytes", o, S(parts))
            sp.queue = S(sp.queue + tuple(parts)).parts
            for _ in range(times):
                f = sp.progress(run)
                v = self.compare(run, self.call(run, "progress", o), f)
                self.observe(run, o, sp, "progress")
                self.frag_bytes(run, o, v, f, sp)
                if f is None:
                    break
                if f[0] == "Line" and f[3] is None and not sp.queue:
                    break
        return act

    def skip(self, run, o, sp):
        self.call(run, "skip_message", o)
        sp.reset()
        self.observe(run, o, sp, "skip")

    def poison(self, run, o, sp):
        self.call(run, "poison_message", o)
        sp.poisoned = True
        self.observe(run, o, sp, "poison")

    def actions(self, sp, full):
        yield "progress without new bytes", self.feed(())
        yield "skip", self.skip
        yield "poison", self.poison
        if sp.mode[0] == "literal" and not sp.complete:
            def part(run, o, s):
                D.assume_le(run, add(K, 1), s.mode[1])
                self.feed((("blk", "$in", 0, K),))(run, o, s)
            yield "a part of the literal", part
            for b in (b"", b"\n", b"x", b"{"):
                yield "the rest of the literal and %r" % b.decode("latin1"), self.feed((("blk", "$in", 0, sp.mode[1]),) + ((("lit", b),) if b else ()))
            return
        for b in range(256) if full else REPS:
            yield "byte %r" % chr(b), self.feed((("lit", bytes([b])),))
        if full:
            for b in REPS:
                for c in REPS:
                    yield "bytes %r" % (chr(b) + chr(c)), self.feed((("lit", bytes([b, c])),))

    def explore(self, limited):
        todo = []
        seen = set()
        for z, sp in self.initial(limited):
            todo.append(rename(z, sp))
        n = 0
        while todo:
            z, sp = todo.pop(0)
            k = (zkey(z), sp.freeze())
            if k in seen:
                continue
            seen.add(k)
            n += 1
            if DEBUG:
                print(n, len(todo), sp.freeze(), str(zkey(z))[-400:], flush=True)
            if n > 400:
                self.ctx.note("framing: state limit reached")
                break
            # relevant bytes in every state; all bytes and pairs while nothing is flagged
            full = not sp.exceeded and not sp.poisoned and (limited or not self.ctx.quick)
            for name, a in self.actions(sp, full):
                for z2, s2 in self.step(z, sp, name, a):
                    if s2.queue:
                        continue
                    todo.append(rename(z2, s2))
        return n

    def decode(self):
        """The decoding function, with an arbitrary decoder."""
        f = self.fn.get("decode_message")
        if f is None:
            self.ctx.note("framing: no decode_message")
            return
        for ex in (False, True):
            for po in (False, True):
                for limited in (True,):
                    for z, sp in self.initial(limited):
                        self.decode_in(z, sp, ex, po)

    def decode_in(self, z, sp0, ex, po):
        def extern(run, fr, args):
            if fr.get("item") == "decode" or fr["name"].endswith("::decode"):
                run.decoded = stdx.sparts(run, args[1]).parts
                o = run.choose(("decoder",), ["rest", "all", "err"])
                run.dec_out = o
                if o == "err":
                    return Con("core::result::Result", "Err", {"0": Sym(("$error",), ("other", "error"))})
                rem = S(()) if o == "all" else S((("blk", "$rest", 0, lin(add(K, 1))),))
                return Con("core::result::Result", "Ok", {"0": Tup([rem, Sym(("$message",), ("other", "message"))])})
            return None

        def body(run):
            sp = sp0.copy()
            o = thaw(run, z)
            # a message with unknown content, as after reading one
            if po:
                self.call(run, "poison_message", o)
            self.call(run, "enqueue_bytes", o, lit(b"abcdefgh"))
            if ex:
                D.assume_le(run, M, 7)
            else:
                D.assume_le(run, 8, M)
            self.call(run, "progress", o)
            buf = stdx.sparts(run, self.call(run, "message_bytes", o)).parts
            r = run.d(run.call_local(self.fn["decode_message"], [o, Sym(("$codec",), ("param", "C"))], {}))
            dec = run.__dict__.get("dec_out")
            if ex or po:
                want = "MessageTooLong" if ex else "MessagePoisoned"
                e = run.d(r.f["0"]) if r.vn == "Err" else None
                if e is None or e.vn != want:
                    return "a %s message is not rejected with %s" % ("truncated" if ex else "poisoned", want)
                p = stdx.sparts(run, list(e.f.values())[0]).parts
                if not D.parts_eq(p, buf, run):
                    return "the rejected message is reported with other bytes"
                return None
            if dec is None:
                return "the decoder is not consulted"
            if not D.parts_eq(run.decoded, buf, run):
                return "the decoder is given %r instead of the bytes of the message" % S(run.decoded)
            if dec == "err":
                e = run.d(r.f["0"]) if r.vn == "Err" else None
                if e is None or e.vn != "DecodingFailure":
                    return "an error of the decoder is not passed on"
                x = run.d(e.f["0"])
                if not (isinstance(x, Sym) and x.path == ("$error",)):
                    return "another error than the decoder's is passed on"
            elif dec == "rest":
                e = run.d(r.f["0"]) if r.vn == "Err" else None
                if e is None or e.vn != "DecodingRemainder":
                    return "bytes left over by the decoder are not reported"
                if not D.parts_eq(stdx.sparts(run, e.f["remainder"]).parts, (("blk", "$rest", 0, lin(add(K, 1))),)):
                    return "the bytes left over are reported wrongly"
            else:
                x = run.d(r.f["0"])
                if r.vn != "Ok" or not (isinstance(x, Sym) and x.path == ("$message",)):
                    return "a completely decoded message is not returned"
            return None

        for run, k, v in explore(self.m, body, opts=self.opts(extern)):
            self.evals += 1
            self.ctx.count("decode_message_cases")
            if k == "panic":
                self.found.setdefault("decode_message", []).append("panic: %s" % v)
            elif k == "undecided":
                self.undecided[str(v)] = "decode_message"
            elif v:
                self.found.setdefault("decode_message", []).append(v)


FRAMING = ("progress", "announcement", "ending")
RULE_FRAMING = ("Abstract interpretation of the splitter's public functions, explored together with a specification automaton from the initial "
                "state: in every reachable pair of states, every single byte, every pair of relevant bytes, and blocks of any length inside "
                "literals must give the fragment the specification gives (kind, position, announced length and mode, line ending).")
RULE_STATE = ("As the framing analysis, for everything else that can be observed: completeness, poisoning and size-limit flags, the bytes of the "
              "message and of each fragment, panics, what skipping and poisoning do, and the outcome of decoding with an arbitrary decoder.")


def run_one(ctx, cfg, limited, framing):
    m = model.Model(cfg)
    F = Frag(ctx, m, cfg)
    ctx.floor("splitter functions", len([x for x in ("new", "progress", "enqueue_bytes", "message_bytes") if x in F.fn]), 1)
    try:
        n = F.explore(limited)
        ctx.count("state_pairs", n)
        if not framing:
            F.decode()
    except Undecided as u:
        F.undecided[str(u)] = "initial state"
    ctx.count("evaluations", F.evals)
    for u, nm in F.undecided.items():
        ctx.note("framing (%s): %s: %s" % (cfg, nm, u))
    for obs, ws in F.found.items():
        if (obs in FRAMING) != framing:
            continue
        f = F.fn.get("decode_message" if obs == "decode_message" else obs if obs in F.fn else "progress")
        ctx.violation("framing: " + obs, f.get("sp") or f["key"], ws[0], more=ws[1:5])


def framing(ctx):
    report.parallel(ctx, [(run_one, ("D", x, True)) for x in (True, False)])
    return RULE_FRAMING


def state(ctx):
    report.parallel(ctx, [(run_one, ("D", x, False)) for x in (True, False)])
    return RULE_STATE
