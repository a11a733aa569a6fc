"""P08/P09: truncated input is Incomplete, literal announcements are reported."""
import re

import anyin
import cg
import model
import nomx
import rt
from c_panic import roots_of
from ev import ALL, Con, S, Sym, Top, Tup, Undecided, explore, nom_err
from model import OPTION, last, strip

RULE8 = ("Every parser function reachable from a decode() entry point is followed on unconstrained input in which each primitive succeeds, does not match, or "
         "lacks input. A path on which input was lacking (Incomplete from a primitive or nested parser, the end of input seen by a non-streaming parser, or a "
         "branch taken because too few bytes had arrived) must end in Incomplete (or, exactly at the end of a literal announcement, in the literal report); "
         "decode() must report it as Incomplete. A function that parses the same input again after lacking input is decided on all its own accepted "
         "shapes, cut at every point.")
RULE9 = ("The parser of literal announcements is followed on unconstrained input: the literal report is made exactly on the paths where {number[+]} and a line ending "
         "were consumed and nothing has arrived after it, and carries that number and mode. On every path of every reachable parser, a report (or other "
         "failure) made by a nested parser is handed on unchanged, except for the tag, which must be the one parsed at the start of the command; decode() must "
         "turn it into LiteralFound with the same content.")
PE = "IMAPParseError"


class Flow(anyin.AnyIn):
    def __init__(self, m, R, inline=False):
        super().__init__(m, R)
        self.inline = inline
        self.depth = 0
        self.kmemo = {}
        self.kbusy = set()
        self.krec = set()
        self.pe = [k for k in m.adts if last(k) == PE]
        self.ek = [k for k in m.adts if last(k) == "IMAPErrorKind"]
        self.root_out = None

    def hook(self, root):
        h0 = super().hook(root)
        fn0 = self.m.fns[root]
        msg = self.root_msg(fn0)

        def h(run, fn, args, tsub):
            if fn["key"] != root or run.__dict__.get("entered"):
                O = self.is_parser(fn)
                if O is not None and (self.inline or msg is not None and O[0] == "adt" and O[1] == msg):
                    self.functions.add(fn["key"])
                    if self.inline:
                        d = run.__dict__.setdefault("inl", 0)
                        if d > 400:
                            raise Undecided("inlining limit")
                        run.inl = d + 1
                    return None
                run.callee = fn["key"]
            return h0(run, fn, args, tsub)
        return h

    def root_msg(self, fn):
        """Message type of a decode() entry point (its own parser is followed, not summarised)."""
        if self.is_parser(fn) or not fn.get("impl"):
            return None
        imp = self.m.impl_by_key.get(fn["impl"]) or {"items": []}
        for it in imp["items"]:
            if it.get("ty") is not None and it.get("n") == "Message":
                t = strip(self.m.T(imp["crate"], it["ty"]))
                return t[1] if t[0] == "adt" else None
        return None

    def kinds(self, key):
        """Error kinds a parser can return (over-approximated): Error, Incomplete, literal, other."""
        if key in self.kmemo:
            return self.kmemo[key]
        if key in self.kbusy:
            self.krec.add(key)
            return {"Error", "Incomplete", "literal", "other"}
        self.kbusy.add(key)
        ks = set()
        try:
            for run, kind, v in self.outcomes(key):
                if kind == "undecided":
                    ks = {"Error", "Incomplete", "literal", "other"}
                    break
                if kind == "ok":
                    f = self.final(run, v)
                    if f[0] == "Failure":
                        ks.add("literal" if isinstance(f[1], Con) and f[1].vn == "Literal" else "other")
                    elif f[0] in ("Error", "Incomplete"):
                        ks.add(f[0])
        finally:
            self.kbusy.discard(key)
        self.kmemo[key] = ks
        return ks

    def final(self, run, v):
        """(kind, error kind value) of a parser result."""
        v = run.d(v)
        if not isinstance(v, Con):
            return ("?", None)
        if v.vn == "Ok":
            return ("Ok", None)
        e = run.d(v.f["0"])
        if not isinstance(e, Con):
            return ("Error", None)
        k = None
        if e.vn == "Failure" or e.vn == "Error":
            p = run.d(e.f["0"])
            if isinstance(p, Con) and "kind" in p.f:
                k = run.d(p.f["kind"])
        return (e.vn, k)

    def call_err(self, run, kind, n):
        if kind != "Failure" or not self.pe or not self.ek:
            return nom_err(kind, "no match")
        ks = self.kinds(run.callee) if run.callee else set()
        opts = [x for x in ("other", "literal") if x in ks]
        if not opts:
            raise Dead()
        k = run.choose(("any", "fkind", n), opts)
        if k == "literal":
            kv = Con(self.ek[0], "Literal", {"tag": Con(OPTION, "None", {}), "length": Sym(("$len", n), ("prim", "u32")),
                                             "mode": Top(("$mode", n))})
        else:
            kv = Con(self.ek[0], "LiteralContainsNull", {})
        run.__dict__.setdefault("fails", []).append((n, k, kv))
        return Con(model.RESULT, "Err", {"0": Con("nom::internal::Err", "Failure",
                                                 {"0": Con(self.pe[0], last(self.pe[0]), {"input": Top("input"), "kind": kv})})})


class Dead(Undecided):
    """A choice that cannot happen."""

    def __init__(self):
        super().__init__("dead")


def short_cmp(run):
    """Branches taken because few bytes had arrived."""
    out = []
    for k, v in run.assume.items():
        if not isinstance(k, tuple):
            continue
        if k[:2] == ("$any", "empty") and v:
            out.append(("empty", k[2]))
        if k[0] == "cmp" and any(isinstance(x, tuple) and x[:2] == ("$any", "len") for x in k[2:4]):
            left = isinstance(k[2], tuple) and k[2][:2] == ("$any", "len")
            # stored as Lt/Le of (left, right)
            if v == left:
                out.append(("len", (k[2] if left else k[3])[2]))
        if k[0] == "inteq" and isinstance(k[1], tuple) and k[1][:2] == ("$any", "len"):
            out.append(("len", k[1][2]))
    return out


def chain(run, upto=None):
    log = run.__dict__.get("anylog", {})
    out, n = [], 0
    while n in log and n != upto:
        out += list(log[n][0])
        n = log[n][1]
    return out, n


def single(p):
    return p[0] == "raw" and p[2][0] == "mask" and len(p[2]) == 3 and p[2][2] == 1


def cuts(parts):
    """Every proper prefix of a shape."""
    parts = [("lit", bytes([p[2][1].bit_length() - 1])) if single(p) and bin(p[2][1]).count("1") == 1 else p for p in parts]
    for i, p in enumerate(parts):
        if single(p):
            yield list(parts[:i])
        elif p[0] == "lit":
            for j in range(len(p[1])):
                yield parts[:i] + ([("lit", p[1][:j])] if j else [])
        elif p[0] == "raw":
            yield list(parts[:i])
            m, lo = p[2][1], p[2][2]
            hi = p[2][3] if len(p[2]) > 3 else None
            if hi is None:
                yield list(parts[:i]) + [("raw", p[1] + ("cut",), ("mask", m, 1, None))]
            elif hi > 1:
                yield list(parts[:i]) + [("raw", p[1] + ("cut",), ("mask", m, 1, hi - 1))]
        else:
            return


def discharge(ctx, m, R, key):
    """A parser that starts over after lacking input: decided on its own accepted shapes, cut at every point."""
    fn = m.fns[key]
    F = Flow(m, R, inline=True)
    shapes = set()
    for run, kind, v in F.outcomes(key):
        if kind != "ok" or F.final(run, v)[0] != "Ok":
            continue
        # every position-0 chain of consumed text of this path
        parts, _ = chain(run)
        if parts and all(p[0] in ("lit", "raw") and (p[0] == "lit" or p[2][0] == "mask") for p in parts):
            shapes.add(tuple(parts))
        for alt_ in run.__dict__.get("anyalt", []):
            shapes.add(tuple(alt_))
    if not shapes:
        return None, "no accepted shape could be followed"
    n = 0
    und = None
    for sh in sorted(shapes, key=str):
        for cut in cuts(list(sh)):
            def body(run, cut=cut):
                return run.d(run.call_local(fn, [S(tuple(cut))], {}))
            for r, k, v in explore(m, body, opts=R.opts(hook=lambda run, f, a, t: R.common_hook(run, f, a), exact_starts=True)):
                n += 1
                if k != "ok":
                    und = "%s on %s" % (v, show(cut))
                    continue
                f = F.final(r, v)
                if f[0] == "Error":
                    return False, "input %s, the beginning of an accepted %s, is rejected instead of reported as incomplete" % (show(cut), last(key))
                if f[0] == "Ok":
                    und = "accepted at the cut " + show(cut)
    ctx.count("cuts", n)
    return (None, und) if und else (True, None)


def show(parts):
    return "".join(p[1].decode("latin1") if p[0] == "lit" else "<%s>" % nomx.show_mask(p[2][1])[:20] for p in parts) or "(empty)"


def prepare(cfg):
    m = model.Model(cfg)
    R = rt.RT(m)
    F = Flow(m, R)
    C = cg.CG(m)
    roots = roots_of(m, "Decoder")
    reach = C.reach(roots)
    ps = [k for k in reach if F.is_parser(m.fns[k]) or k in roots]
    return m, R, F, C, roots, ps


def end_name(run, F, v, isroot):
    if not isroot:
        return F.final(run, v)
    v = run.d(v)
    if not isinstance(v, Con):
        return ("?", None)
    if v.vn == "Ok":
        return ("Ok", None)
    e = run.d(v.f["0"])
    return (e.vn if isinstance(e, Con) else "?", e)


def rest_of(run, v):
    try:
        return run.d(run.d(run.d(v).f["0"]).items[0]).parts[0][1]
    except Exception:
        return None


def lacking_cfg(ctx, cfg):
    m, R, F, C, roots, ps = prepare(cfg)
    ctx.count("entry_points", len(roots))
    ctx.count("parser_functions", len(ps))
    n = lack = 0
    for k in sorted(ps):
        done = False
        for run, kind, v in F.outcomes(k):
            if kind == "undecided":
                if not isinstance(v, Dead):
                    ctx.note("%s/%s: %s (%s)" % (cfg, last(k), v, v.sp))
                continue
            if kind != "ok":
                continue
            n += 1
            ev = run.__dict__.get("anyev", [])
            bad = [i for i, (p, o) in enumerate(ev) if o in ("Incomplete", "short")]
            sc = short_cmp(run)
            if not bad and not sc:
                continue
            lack += 1
            end, err = end_name(run, F, v, k in roots)
            if end == "?":
                ctx.note("%s/%s: result not followed" % (cfg, last(k)))
                continue
            if end == "Incomplete":
                continue
            lit = isinstance(err, Con) and err.vn in ("Literal", "LiteralFound")
            if not bad and lit and all(x[0] == "empty" for x in sc):
                continue
            if end == "Ok" and k not in roots and rest_of(run, v) in run.__dict__.get("ended", ()):
                ctx.note("%s/%s: accepts at the end of the received input and leaves the decision to its callers" % (cfg, last(k)))
                continue
            i = bad[0] if bad else len(ev)
            what = ("lacks input" if bad and ev[i][1] == "Incomplete" else "reaches the end of the input in a non-streaming parser" if bad else
                    "takes a branch because few bytes have arrived")
            if bad and ev[i][1] == "Incomplete" and any(p <= ev[i][0] for p, o in ev[i + 1:]):
                if done:
                    continue
                done = True
                r, why = discharge(ctx, m, R, k)
                if r:
                    ctx.cov.setdefault("reparse_discharged", []).append(last(k))
                    continue
                if r is None:
                    ctx.note("%s/%s: parses again after lacking input; not decided (%s)" % (cfg, last(k), why))
                    continue
                ctx.violation("truncated input rejected: " + last(k), m.fns[k]["sp"], "%s: %s" % (k, why), config=cfg)
                continue
            ctx.violation("truncated input: %s" % last(k), m.fns[k]["sp"],
                          "%s %s but goes on to return %s instead of Incomplete" % (k, what, end), config=cfg,
                          path=[str(x) for x in ev], consumed=show(chain(run)[0]))
    ctx.count("paths", n)
    ctx.count("paths_lacking_input", lack)
    streaming(ctx, cfg, m, C, C.reach(roots), F)


def streaming(ctx, cfg, m, C, reach, F):
    """Call sites of library parsers: those that look at the end of the input (reported only if the path analysis did not enter them)."""
    sites = 0
    for k in reach:
        for key, node in C.sites[k]:
            f = node.get("f") or {}
            nm = f.get("name", "") or str(key)
            if not nm.startswith(("nom::", "abnf_core::")):
                continue
            sites += 1
            if re.search(r"::complete::|::(eof|rest|rest_len|all_consuming)$", nm) and k not in F.functions:
                ctx.note("%s: %s uses %s (%s), not entered by the analysis" % (cfg, k, nm, node.get("sp")))
            if re.search(r"::(eof|rest|rest_len|all_consuming)$", nm):
                ctx.violation("end of input inspected: %s in %s" % (last(nm), last(k)), node.get("sp"),
                              "%s uses %s, whose result depends on where the received bytes end" % (k, nm), config=cfg)
    ctx.count("library_parser_sites", sites)


def lacking(ctx):
    from report import parallel
    cfgs = ["E", "N"] if ctx.quick else ["D", "E", "N", "A"]
    parallel(ctx, [(lacking_cfg, (c,)) for c in cfgs])
    ctx.floor("decode entry points", ctx.cov.get("entry_points", 0), 5 * len(cfgs))
    ctx.floor("parser functions", ctx.cov.get("parser_functions", 0), 60 * len(cfgs))
    ctx.floor("paths lacking input", ctx.cov.get("paths_lacking_input", 0), 200 * len(cfgs))
    ctx.assumptions += ["The models of nom and abnf_core combinators in /verif/sa are right about when those report lacking input."]
    return RULE8


# ---------------------------------------------------------------- literal reports
def announce(parts):
    """{ digits [+] } line-ending -> (digits part, nonsync) or None"""
    flat = []
    for p in parts:
        if p[0] == "raw" and p[2][0] == "mask" and bin(p[2][1]).count("1") == 1 and p[2][2] == 1 and (len(p[2]) < 4 or p[2][3] in (1, None)):
            flat.append(("lit", bytes([p[2][1].bit_length() - 1])))
        else:
            flat.append(p)
    out, lit = [], b""
    for p in flat:
        if p[0] == "lit":
            lit += p[1]
        else:
            out += [lit, p]
            lit = b""
    out.append(lit)
    if len(out) == 3 and out[0].endswith(b"{") and out[1][0] == "raw" and out[1][2][1] == nomx.DIGITS:
        mt = re.fullmatch(rb"(\+?)\}\r?\n", out[2])
        if mt:
            return out[1], bool(mt.group(1))
    return None


def literal_cfg(ctx, cfg):
    m, R, F, C, roots, ps = prepare(cfg)
    if not F.pe or not F.ek:
        ctx.note("%s: the parse error types are not recognised; nothing decided" % cfg)
        return
    ctx.count("entry_points", len(roots))
    ctx.count("parser_functions", len(ps))
    n = fails = made = 0
    makers = {}
    for k in sorted(ps):
        isroot = k in roots
        for run, kind, v in F.outcomes(k):
            if kind == "undecided":
                if not isinstance(v, Dead):
                    ctx.note("%s/%s: %s (%s)" % (cfg, last(k), v, v.sp))
                continue
            if kind == "panic":
                ctx.note("%s/%s: panics, see the panic check: %s" % (cfg, last(k), v))
                continue
            if kind != "ok":
                continue
            n += 1
            end, e = end_name(run, F, v, isroot)
            inner = run.__dict__.get("fails", [])
            islit = isinstance(e, Con) and e.vn in ("Literal", "LiteralFound")
            if inner:
                fails += 1
                handed_on(ctx, cfg, m, F, k, run, inner, end, e, isroot)
            elif islit:
                made += 1
                maker(ctx, cfg, m, F, k, run, e, isroot, makers)
    for k in makers:
        for run, kind, v in F.outcomes(k):
            if kind == "ok" and not run.__dict__.get("fails", []):
                unreported(ctx, cfg, m, k, run, end_name(run, F, v, k in roots))
    ctx.count("paths", n)
    ctx.count("paths_handing_on_a_failure", fails)
    ctx.count("paths_reporting_a_literal", made)
    for k, seen in makers.items():
        for mode in (False, True):
            if mode not in seen:
                ctx.violation("announcement not reported: %s/%s" % (last(k), mode), m.fns[k]["sp"],
                              "%s never reports a %ssynchronizing literal at the end of its announcement" % (k, "non-" if mode else ""), config=cfg)


def unfold(run, x):
    x = run.d(x)
    if isinstance(x, Con):
        return Con(x.adt, x.vn, {a: unfold(run, b) for a, b in x.f.items()})
    return x


def handed_on(ctx, cfg, m, F, k, run, inner, end, e, isroot):
    n, kk, kv = inner[0]
    where = m.fns[k]["sp"]
    if len(inner) > 1 or (end == "Failure") != True and not isroot:
        ctx.violation("failure swallowed: " + last(k), where, "%s goes on after a nested parser failed for good and returns %s: a literal announcement would be missed"
                      % (k, end), config=cfg, path=[str(x) for x in run.__dict__.get("anyev", [])])
        return
    if isroot:
        if kk != "literal":
            if end != "Failed":
                ctx.violation("failure misreported: " + k, where, "%s reports %s for a malformed message" % (k, end), config=cfg)
            return
        names = {v for v in variant_names(m, e)}
        if "LiteralFound" not in names:
            if end != "Failed":
                ctx.violation("failure misreported: " + k, where, "%s reports %s for a message kind without literals" % (k, end), config=cfg)
            return
        if end != "LiteralFound":
            ctx.violation("literal report lost: " + k, where, "%s reports %s instead of LiteralFound at a literal announcement" % (k, end), config=cfg)
            return
        content(ctx, cfg, m, k, where, run, n, e, True)
        return
    if not isinstance(e, Con):
        ctx.violation("failure changed: " + last(k), where, "%s replaces the failure reported by a nested parser" % k, config=cfg)
        return
    if (e.vn == "Literal") != (kk == "literal"):
        ctx.violation("failure changed: " + last(k), where, "%s turns a nested %s into %s" % (k, "literal report" if kk == "literal" else "failure", e.vn), config=cfg)
        return
    if kk == "literal":
        content(ctx, cfg, m, k, where, run, n, e, False)


def variant_names(m, e):
    a = m.adts.get(e.adt) if isinstance(e, Con) else None
    return [v["n"] for v in a["vs"]] if a else []


def content(ctx, cfg, m, k, where, run, n, e, isroot):
    ln = run.d(e.f.get("length"))
    if not (isinstance(ln, Sym) and ln.path == ("$len", n)):
        ctx.violation("literal length changed: " + last(k), where, "%s reports the length %r instead of the announced one" % (k, ln), config=cfg)
    if "mode" in e.f:
        md = run.d(e.f["mode"])
        if not (isinstance(md, Top) and md.why == ("$mode", n)):
            ctx.violation("literal mode changed: " + last(k), where, "%s reports the mode %r instead of the announced one" % (k, md), config=cfg)
    if "tag" in e.f:
        t = run.d(e.f["tag"])
        if isinstance(t, Con) and t.vn == "Some":
            t = run.d(t.f["0"])
        if isinstance(t, Con) and t.vn == "None":
            if isroot:
                ctx.violation("literal tag lost: " + last(k), where, "%s reports a literal without its tag" % k, config=cfg)
            return
        # the tag parsed at the start of the input on this very path
        log = run.__dict__.get("anylog", {})
        first = {p[1] for p in log.get(0, ((), 0))[0] if p[0] == "raw"}
        if isinstance(t, Sym):
            okk = t.path in {("$any", run.__dict__.get("anycalls", {}).get(0))} | first
        else:
            okk = any(repr(x) in repr(parts_of(run, t)) for x in first)
        if not okk:
            ctx.violation("literal tag wrong: " + last(k), where, "%s reports a literal with a tag (%s) other than the one the command starts with" % (k, str(t)[:60]),
                          config=cfg)


def parts_of(run, v, d=0):
    v = run.d(v)
    if isinstance(v, S):
        return v.parts
    if isinstance(v, Sym):
        return v.path
    if isinstance(v, Con) and d < 6:
        return [parts_of(run, x, d + 1) for x in v.f.values()]
    return getattr(v, "parts", None)


def maker(ctx, cfg, m, F, k, run, e, isroot, makers):
    where = m.fns[k]["sp"]
    if isroot or e.vn == "LiteralFound":
        ctx.violation("literal report made up: " + k, where, "%s reports a literal that no parser announced" % k, config=cfg)
        return
    sc = short_cmp(run)
    parts, pos = chain(run)
    if not (len(sc) == 1 and sc[0][0] == "empty"):
        ctx.violation("literal report condition: " + last(k), where,
                      "%s reports a literal although its data has begun to arrive (not exactly at the end of the announcement)" % k, config=cfg,
                      path=[str(x) for x in run.assume.items()][-12:])
        return
    parts, pos = chain(run, sc[0][1])
    a = announce(parts)
    if a is None or pos != sc[0][1]:
        ctx.note("%s/%s: announcement not recognised in %s" % (cfg, last(k), show(parts)))
        makers.setdefault(k, set()).update((False, True))
        return
    makers.setdefault(k, set()).add(a[1])
    ln = run.d(e.f.get("length"))
    if not (isinstance(ln, Sym) and ln.path[:2] == ("$any", "num") and str(a[0]) in map(str, ln.path)):
        ctx.violation("literal length wrong: " + last(k), where, "%s reports the length %r instead of the announced number" % (k, ln), config=cfg)
    md = run.d(e.f.get("mode"))
    if isinstance(md, Con) and md.vn != ("NonSync" if a[1] else "Sync"):
        ctx.violation("literal mode wrong: " + last(k), where, "%s reports the mode %s after %s" % (k, md.vn, show(parts)), config=cfg)
    elif not isinstance(md, Con):
        ctx.note("%s/%s: mode not followed" % (cfg, last(k)))


def unreported(ctx, cfg, m, k, run, end):
    """A path of a reporting parser on which an announcement has been consumed, nothing need follow, and no literal is reported."""
    log = run.__dict__.get("anylog", {})
    acc, at = [], 0
    while at in log:
        acc += list(log[at][0])
        at = log[at][1]
        a = announce(acc)
        if a is None:
            continue
        if getattr(end[1], "vn", None) == "Literal":
            return
        ctx.count("paths_past_an_announcement")
        seen = run.assume.get(("$any", "empty", at))
        if seen is False:
            return
        if seen is None and any(("$any", "len", at) in (x for x in q if isinstance(x, tuple)) for q in run.assume if isinstance(q, tuple)):
            ctx.note("%s/%s: a path past the announcement compares the number of bytes that follow; not decided" % (cfg, last(k)))
            return
        ctx.violation("announcement passed over: " + last(k), m.fns[k]["sp"],
                      "%s, having read the announcement %s with nothing after it, ends in %s without reporting the literal" % (k, show(acc), end[0]),
                      config=cfg, path=[str(x) for x in run.assume.items()][-8:])
        return


def literals(ctx):
    from report import parallel
    cfgs = ["E", "N"] if ctx.quick else ["D", "E", "N", "A"]
    parallel(ctx, [(literal_cfg, (c,)) for c in cfgs])
    ctx.floor("decode entry points", ctx.cov.get("entry_points", 0), 5 * len(cfgs))
    ctx.floor("paths reporting a literal", ctx.cov.get("paths_reporting_a_literal", 0), 2 * len(cfgs))
    return RULE9
