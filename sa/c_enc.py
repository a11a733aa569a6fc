"""P10/P11: fragments of encoded messages; no line breaks from field values."""
import re

import anyin
import cg
import model
import rt
import stdx
from c_panic import roots_of
from ev import ALL, Buf, Con, ListV, PanicE, S, Sym, Top, Tup, Undecided, explore, mask_of
from model import last

RULE10 = ("Every encoder (the encode() entry points and each encoder they use) is evaluated on fully symbolic messages; the result is the list of fragments as "
          "symbolic text. Each literal fragment must directly follow a line fragment ending in {n} or {n+} and CRLF, n being the length of exactly the data of "
          "that literal fragment, with + exactly if its mode is non-synchronizing; a whole message must end in CRLF; iterating and dumping must give the same "
          "bytes in the same order.")
RULE11 = ("Every encoder is evaluated on fully symbolic messages; the result is a list of constant texts and field contents. Outside literal data, constant texts may "
          "contain CR and LF only as the CRLF of a literal announcement or at the end of the message, and each field content must come from a type whose "
          "constructors (analysed symbolically) let no CR or LF through, from a number, or from base64. For text types without validating constructor, every "
          "parser that builds them is followed on unconstrained input and must not let these bytes in either.")
BREAK = mask_of(b"\r\n")


class RTL(rt.RT):
    """Encoder templates with marks at the end of line fragments."""

    def flatten(self, run, items):
        out = []
        items = stdx.unwrap_list(run, items)
        for it in items.items:
            if it[0] != "one":
                raise Undecided("fragments in a loop")
            fr = run.d(it[1])
            if not isinstance(fr, Con):
                raise Undecided("fragment")
            data = run.d(fr.f["data"])
            parts = S(data.parts).parts
            if fr.vn == "Literal":
                mode = run.d(fr.f["mode"])
                out.append(("frag", "lit<", mode.path if isinstance(mode, Sym) else getattr(mode, "vn", None)))
                out.extend(parts)
                out.append(("frag", "lit>"))
            else:
                out.extend(parts)
                out.append(("frag", "line>"))
        return out


def all_templates(ctx, R, cfg):
    """(name, where, path, parts, is_root) of every encoder reachable from the encode() entry points."""
    seen, todo = set(), []
    for codec, ek, dk in rt.roots(R.m):
        if not ek:
            continue
        ctx.count("entry_points")
        try:
            mty, parts = R.root_parts(codec, ek)
        except PanicE as p:
            ctx.note("%s/%s: panics: %s" % (cfg, last(codec[1]), p))
            continue
        except Undecided as u:
            ctx.note("%s/%s: %s" % (cfg, last(codec[1]), u))
            continue
        yield last(codec[1]), R.m.fns[ek]["sp"], {}, parts, True
        todo.append((parts, True))
    while todo:
        parts, root = todo.pop()
        real = [q for q in parts if q[0] != "frag"]
        for p in parts:
            if p[0] == "rep":
                todo.append((p[2], False))
            if p[0] != "tok":
                continue
            r = root and len(real) == 1
            if (p[2], p[3], r) in seen:
                continue
            seen.add((p[2], p[3], r))
            ctx.count("encoders")
            for a, ps, _ in R.templates(p[2], p[3]):
                yield last(p[2][1]), R.m.fns[p[3]]["sp"], a, ps, r
                todo.append((ps, r))
            for a, u in R.tundec.get((p[2], p[3]), []):
                ctx.note("%s/encoder of %s: %s (%s)" % (cfg, last(p[2][1]), u, u.sp))


def show(parts):
    return "".join(p[1].decode("latin1") if p[0] == "lit" else "<%s>" % p[0] for p in parts if p[0] != "frag").replace("\r", "\\r").replace("\n", "\\n")[:160]


def merged(parts):
    """Parts with adjacent constant texts merged (empty line marks inside constant text kept)."""
    out = []
    for p in parts:
        if p[0] == "lit" and out and out[-1][0] == "lit":
            out[-1] = ("lit", out[-1][1] + p[1])
        elif p[0] == "lit" and not p[1]:
            continue
        else:
            out.append(p)
    return out


def case(a):
    return ", ".join("%s=%s" % (".".join(map(str, k)) if isinstance(k, tuple) else k, v) for k, v in list(a.items())[:6])


def frag_cfg(ctx, cfg):
    m = model.Model(cfg)
    R = RTL(m)
    n = lits = 0
    for name, where, a, parts, root in all_templates(ctx, R, cfg):
        n += 1
        ps = merged(parts)
        i = 0
        while i < len(ps):
            p = ps[i]
            if p[0] == "frag" and p[1] == "lit<":
                lits += 1
                j = next(k for k in range(i, len(ps)) if ps[k][0] == "frag" and ps[k][1] == "lit>")
                data = ps[i + 1:j]
                literal(ctx, cfg, name, where, a, ps, i, data, p[2])
                i = j
            elif p[0] == "lit" and announces(ps, i) and not (ps[i + 1:i + 2] == [("frag", "line>")] and ps[i + 2:i + 3] and ps[i + 2][:2] == ("frag", "lit<")):
                ctx.violation("announcement without literal: %s" % name, where,
                              "encoding %s (%s) announces a literal that is not followed by a literal fragment: %s" % (name, case(a), show(ps)), config=cfg)
            i += 1
        if root and [q for q in ps if q[0] != "frag"] and not (len([q for q in ps if q[0] != "frag"]) == 1 and [q for q in ps if q[0] != "frag"][0][0] == "tok"):
            q = [q for q in ps if q[0] != "frag"][-1]
            if q[0] == "tok":
                pass        # ends with a part decided on its own: its last text is looked at below
            if ends_crlf(R, q) is False:
                ctx.violation("message end: %s" % name, where, "an encoded %s (%s) does not end in CRLF but in %s" % (name, case(a), show([q]) or q[0]), config=cfg)
    ctx.count("templates", n)
    ctx.count("literal_fragments", lits)
    dump(ctx, cfg, m, R)


def announces(ps, i):
    """Does the constant text ps[i] contain the end of a literal announcement?"""
    if re.search(rb"\{\d+\+?\}\r\n", ps[i][1]):
        return True
    return i >= 2 and re.match(rb"\+?\}\r\n", ps[i][1]) and ps[i - 1][0] in ("num", "fixnum") and ps[i - 2][0] == "lit" and ps[i - 2][1].endswith(b"{")


def ends_crlf(R, q, depth=0):
    if q[0] == "lit":
        return q[1].endswith(b"\r\n")
    if q[0] == "tok" and depth < 5:
        for a, ps, _ in R.templates(q[2], q[3]):
            ps = [x for x in merged(ps) if x[0] != "frag"]
            if not ps or ends_crlf(R, ps[-1], depth + 1) is False:
                return False
        return True
    return False


def literal(ctx, cfg, name, where, a, ps, i, data, mode):
    def bad(what):
        ctx.violation("literal fragment: %s: %s" % (name, what), where, "encoding %s (%s): %s in %s" % (name, case(a), what, show(ps)), config=cfg)
    k = i - 1
    if k < 0 or ps[k] != ("frag", "line>"):
        return bad("a literal fragment does not directly follow a line fragment")
    empty = all(d[0] == "raw" and a.get(tuple(d[1]) + ("#empty",)) is True or d[0] == "lit" and not d[1] for d in data)
    const = k >= 1 and ps[k - 1][0] == "lit" and re.search(rb"\{(\d+)(\+?)\}\r\n$", ps[k - 1][1])
    if const and (empty or len(data) == 1 and data[0][0] == "lit"):
        if int(const.group(1)) != sum(len(d[1]) for d in data if d[0] == "lit"):
            return bad("the announced length is not the length of the literal data")
        mv = a.get(mode) if isinstance(mode, tuple) else mode
        if mv is not None and (mv == "NonSync") != bool(const.group(2)):
            bad("the announcement says %ssynchronizing, the fragment says %s" % ("non-" if const.group(2) else "", mv))
        return
    if not (k >= 3 and ps[k - 1][0] == "lit" and ps[k - 2][0] in ("num", "raw", "fixnum") and ps[k - 3][0] == "lit"):
        return bad("a literal fragment is not announced")
    mt = re.fullmatch(rb"(\+?)\}\r\n", ps[k - 1][1])
    if not mt or not ps[k - 3][1].endswith(b"{"):
        return bad("a literal fragment is not announced by {n} or {n+} and CRLF")
    mv = a.get(mode) if isinstance(mode, tuple) else mode
    if mv is None:
        ctx.note("%s/%s: mode of the literal fragment not decided" % (cfg, name))
    elif (mv == "NonSync") != bool(mt.group(1)):
        bad("the announcement says %ssynchronizing, the fragment says %s" % ("non-" if mt.group(1) else "", mv))
    ln = ps[k - 2]
    if len(data) == 1 and data[0][0] == "raw":
        if ln[0] != "num":
            return ctx.note("%s/%s: announced length not followed" % (cfg, name))
        if ln[1] != data[0][1] + ("#len",):
            bad("the announced length is not the length of the literal data (%s)" % (ln[1],))
    elif len(data) == 1 and data[0][0] == "lit":
        bad("the literal data is constant") if ln[0] == "num" else None
    else:
        ctx.note("%s/%s: literal data not followed" % (cfg, name))


def dump(ctx, cfg, m, R):
    """Iteration and dump() over line, literal, line with symbolic contents."""
    enc = [k for k in m.adts if k.endswith("encode::Encoded")]
    fr = [k for k in m.adts if k.endswith("encode::Fragment")]
    fn = {}
    for k, f in m.fns.items():
        i = m.impl_by_key.get(f.get("impl") or "", {})
        if i and i.get("T_self", (0, 0))[:2] == ("adt", enc[0] if enc else None):
            fn[last(k)] = f
    if not enc or not fr or not {"dump", "next"} <= set(fn):
        ctx.note("%s: Encoded not recognised; dump and iteration not decided" % cfg)
        return
    fld = [f["n"] for f in m.adts[enc[0]]["vs"][0]["fs"]]
    if len(fld) != 1:
        ctx.note("%s: Encoded has several fields; dump and iteration not decided" % cfg)
        return
    shapes = [["Line"], ["Line", "Literal", "Line"], ["Literal", "Line"], ["Line", "Literal", "Literal", "Line", "Line"], []]
    for sh in shapes:
        def items():
            out = []
            for n, v in enumerate(sh):
                f = {"data": Buf([("raw", ("$d", str(n)), ("mask", ALL, 0))])}
                if v == "Literal":
                    f["mode"] = Sym(("$m", str(n)), ("adt", [k for k in m.adts if last(k) == "LiteralMode"][0], ()))
                out.append(("one", Con(fr[0], v, f)))
            return ListV(out)

        def mk():
            return Con(enc[0], m.adts[enc[0]]["vs"][0]["n"], {fld[0]: items()})

        def body(run):
            return stdx.sparts(run, run.d(run.call_local(fn["dump"], [mk()], {})))
        want = tuple(("$d", str(n)) for n in range(len(sh)))
        for run, kind, v in explore(m, body, opts=R.opts()):
            ctx.count("dump_cases")
            if kind == "undecided":
                ctx.note("%s/dump: %s (%s)" % (cfg, v, v.sp))
            elif kind == "panic":
                ctx.violation("dump panics", fn["dump"]["sp"], "dump() of %s can panic: %s" % (sh, v.why), config=cfg)
            else:
                got = tuple(p[1] for p in v.parts if p[0] == "raw" and run.assume.get(p[1] + ("#empty",)) is not True)
                w = tuple(x for x in want if run.assume.get(x + ("#empty",)) is not True)
                if got != w or any(p[0] not in ("raw",) for p in v.parts if p[0] != "lit" or p[1]):
                    ctx.violation("dump order", fn["dump"]["sp"], "dump() of the fragments %s gives %s" % (sh, v), config=cfg)

        def body2(run):
            from ev import Place
            c = mk()
            pl = run.place(c) if hasattr(run, "place") else c
            out = []
            for _ in range(len(sh) + 1):
                out.append(run.d(run.call_local(fn["next"], [pl], {})))
            return out
        for run, kind, v in explore(m, body2, opts=R.opts()):
            ctx.count("iteration_cases")
            if kind == "undecided":
                ctx.note("%s/next: %s (%s)" % (cfg, v, v.sp))
                continue
            if kind == "panic":
                ctx.violation("iteration panics", fn["next"]["sp"], "iterating over %s can panic: %s" % (sh, v.why), config=cfg)
                continue
            got = []
            for x in v:
                if isinstance(x, Con) and x.vn == "Some":
                    f = run.d(x.f["0"])
                    md = run.d(f.f["mode"]) if "mode" in f.f else None
                    got.append((f.vn, tuple(p[1] for p in run.d(f.f["data"]).parts), md.path if isinstance(md, Sym) else md))
                else:
                    got.append(None)
            w = [(x, (("$d", str(n)),), ("$m", str(n)) if x == "Literal" else None) for n, x in enumerate(sh)] + [None]
            if got != w:
                ctx.violation("iteration order", fn["next"]["sp"], "iterating over the fragments %s gives %s" % (sh, got), config=cfg)


def fragments(ctx):
    from report import parallel
    cfgs = ["E", "N"] if ctx.quick else ["D", "E", "N", "A"]
    parallel(ctx, [(frag_cfg, (c,)) for c in cfgs])
    ctx.floor("encode entry points", ctx.cov.get("entry_points", 0), 5 * len(cfgs))
    ctx.floor("encoder templates", ctx.cov.get("templates", 0), 200 * len(cfgs))
    ctx.floor("literal fragments", ctx.cov.get("literal_fragments", 0), 2 * len(cfgs))
    return RULE10


# ---------------------------------------------------------------- line breaks
def owner_name(o):
    if isinstance(o, tuple) and o and isinstance(o[0], str) and "::" in o[0]:
        return last(o[0]) + ("::" + o[1] if o[1] else "")
    return str(o)[:40]


def inject_cfg(ctx, cfg):
    m = model.Model(cfg)
    R = RTL(m)
    n = fields = 0
    unv = set()
    for name, where, a, parts, root in all_templates(ctx, R, cfg):
        n += 1
        ps = merged(parts)
        inlit = False
        flat = []
        todo = list(ps)
        real = [q for q in ps if q[0] != "frag"]
        while todo:
            p = todo.pop(0)
            if p[0] == "rep":
                todo = list(p[2]) + todo
            elif p[0] == "frag":
                inlit = p[1] == "lit<" if p[1] != "line>" else inlit
            elif not inlit:
                flat.append(p)
        for p in flat:
            if p[0] == "lit":
                t = p[1]
                if root and real and p is real[-1] and t.endswith(b"\r\n"):
                    t = t[:-2]
                t = re.sub(rb"^\+?\}\r\n$|\{\d+\+?\}\r\n$", b"", t)
                if re.search(rb"[\r\n]", t):
                    ctx.violation("line break in constant text: %s" % name, where, "encoding %s (%s) writes %r" % (name, case(a), p[1]), config=cfg)
            elif p[0] in ("raw", "esc"):
                fields += 1
                o = p[2] if len(p) > 2 else None
                if o == ("b64",) or isinstance(o, tuple) and o and o[0] == "char" and not o[1] & BREAK:
                    continue
                if isinstance(o, tuple) and o and isinstance(o[0], str) and "::" in o[0]:
                    if last(o[0]) in rt.DOMAIN and not public(m, o):
                        unv.add(o[0])
                        continue
                    r = (ALL, 0) if last(o[0]) in rt.DOMAIN else R.langs.of(o)
                    if r is None:
                        ctx.note("%s: character class of %s not derived" % (cfg, owner_name(o)))
                        continue
                    if r[0] & BREAK:
                        ctx.violation("line break from %s" % owner_name(o), where,
                                      "encoding %s (%s) writes %s as it is, and nothing keeps CR or LF out of it" % (name, case(a), owner_name(o)), config=cfg)
                elif isinstance(o, tuple) and o and o[0] in ("mask", "char"):
                    if o[1] & BREAK:
                        ctx.violation("line break in %s" % name, where, "encoding %s (%s) writes unrestricted text" % (name, case(a)), config=cfg)
                else:
                    ctx.note("%s/%s: text %s not followed" % (cfg, name, p[1]))
    ctx.count("templates", n)
    ctx.count("field_contents", fields)
    decoded(ctx, cfg, m)


def public(m, o):
    a = m.adts.get(o[0])
    return a and any(f["n"] == o[2] and f["pub"] for v in a["vs"] for f in v["fs"])


def decoded(ctx, cfg, m):
    """Text types without validating constructor: what the parsers put into them."""
    R = rt.RT(m)
    A = anyin.AnyIn(m, R)
    roots = roots_of(m, "Decoder")
    reach = cg.CG(m).reach(roots)
    for k in sorted(reach):
        if not A.is_parser(m.fns[k]):
            continue
        for run, kind, v in A.outcomes(k):
            if kind == "ok":
                walk(ctx, cfg, m, R, k, run, v, 0)


def walk(ctx, cfg, m, R, k, run, v, d):
    v = run.d(v)
    if d > 8:
        return
    if isinstance(v, Con):
        if last(v.adt) in rt.DOMAIN and v.adt in m.adts:
            ctx.count("decoded_text")
            s = run.d(list(v.f.values())[0])
            if isinstance(s, (S, Buf)):
                for p in s.parts:
                    mk = mask_of(p[1]) if p[0] == "lit" else p[2][1] if p[0] == "raw" and isinstance(p[2], tuple) and p[2][0] in ("mask", "char") else None
                    if mk is None:
                        ctx.note("%s/%s: text of %s not followed" % (cfg, last(k), last(v.adt)))
                    elif mk & BREAK:
                        ctx.violation("line break decoded into %s" % last(v.adt), m.fns[k]["sp"],
                                      "%s accepts CR or LF in %s, which is then encoded as it is" % (k, last(v.adt)), config=cfg)
        for x in v.f.values():
            walk(ctx, cfg, m, R, k, run, x, d + 1)
    elif isinstance(v, Tup):
        for x in v.items:
            walk(ctx, cfg, m, R, k, run, x, d + 1)


def injection(ctx):
    from report import parallel
    cfgs = ["E", "N"] if ctx.quick else ["D", "E", "N", "A"]
    parallel(ctx, [(inject_cfg, (c,)) for c in cfgs])
    ctx.floor("encode entry points", ctx.cov.get("entry_points", 0), 5 * len(cfgs))
    ctx.floor("encoder templates", ctx.cov.get("templates", 0), 200 * len(cfgs))
    ctx.floor("field contents", ctx.cov.get("field_contents", 0), 8 * len(cfgs))
    ctx.assumptions += ["Constructors named `unvalidated` are called with valid data, as their documentation requires."]
    return RULE11
