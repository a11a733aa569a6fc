"""P01/P02: what the encoder writes is read back exactly."""
import re
import time

import c_quote
import facts
import model
import rt
from ev import ALL

CLIENT = ("CommandCodec", "AuthenticateDataCodec", "IdleDoneCodec")
SERVER = ("GreetingCodec", "ResponseCodec")
RULE = ("Abstract interpretation of the type-checked source: for each codec, encode() is evaluated on a fully symbolic message, giving a finite "
        "set of output templates per message type (one per case of the program's own branching); decode() is then evaluated on each template "
        "followed by arbitrary further bytes. Every case must return exactly the symbolic message and leave exactly the further bytes. Nested "
        "message parts are separate obligations (type, encoder, parser, what may follow), proved once and used coinductively.")


def culprit(desc):
    vs = [d for d in desc if re.match(r"^\$.*=[A-Za-z]\w*$", d) and not d.endswith(("=True", "=False"))]
    if not vs:
        return "any"
    p, v = vs[-1].rsplit("=", 1)
    segs = [s for s in p.split(".") if s and not s.isdigit() and s != "$"]
    return ".".join(segs[-2:] + [v])


def norm(why):
    why = re.sub(r" at [\w./-]+\.rs:\d+", "", why)
    why = re.sub(r"\$[\w.#\[\]]*", "$", why)
    return why


def run_cfg(ctx, cfg, which):
    m = model.Model(cfg)
    R = rt.RT(m)
    c_quote.decide(ctx, m)
    n = 0
    for codec, ek, dk in rt.roots(m):
        nm = codec[1].split("::")[-1]
        if nm not in which or not ek:
            continue
        n += 1
        t = time.time()
        try:
            fails, cases = R.root(codec, ek, dk, ("follow", ALL, True))
        except rt.Undecided as u:
            ctx.note("%s/%s: not decided: %s" % (cfg, nm, u))
            continue
        ctx.count("root_cases", cases)
        groups = {}
        for f in fails:
            if f[0] == "undecided":
                ctx.note("%s/%s: %s [%s]" % (cfg, nm, norm(f[1]), culprit(f[2])))
                continue
            groups.setdefault(culprit(f[2]), []).append(f)
        for cul, fs in groups.items():
            f = fs[0]
            where = re.search(r"([\w./-]+\.rs:\d+)", f[1])
            dfn = m.fns[dk]
            ctx.violation("%s: case %s" % (nm, cul), where.group(1) if where else "%s (decode) vs %s (encode)" % (dk, ek),
                          "%s: a message is not read back exactly: %s" % (nm, f[1]),
                          case=f[2], config=cfg, occurrences=len(fs))
        ctx.cov.setdefault("codec_seconds", {})["%s/%s" % (cfg, nm)] = round(time.time() - t, 1)
    ctx.count("codecs", n)
    ctx.count("obligations", R.stats["obligations"])
    ctx.count("encoder_templates", R.stats["templates"])
    ctx.count("cases", R.stats["cases"])
    ctx.count("functions_analysed", len(R.stats["functions"]))
    for k, fs in R.gaps.items():
        for f in fs[:3]:
            ctx.note("%s/%s read by %s: %s [%s]" % (cfg, k[0][1].split("::")[-1], k[2].split("::")[-1], norm(f[1]), culprit(f[2])))
    for k, u in R.tundec.items():
        ctx.note("%s/encoder of %s: %s" % (cfg, k[0][1].split("::")[-1], u[0][1]))
    ctx.cov["configs"] = [cfg]
    smp = ctx.cov.setdefault("samples", [])
    for k, v in list(R.memo.items())[:6]:
        smp.append("%s written by %s, read by %s: %s" % (k[0][1].split("::")[-1], k[1], k[2], "exact" if v[0] else "not exact alone; decided at its uses"))


def check(ctx, which):
    from report import parallel
    cfgs = ["E", "N"] if ctx.quick else ["D", "E", "N"]
    parallel(ctx, [(run_cfg, (c, [w])) for c in cfgs for w in which])
    ctx.floor("codecs with encode and decode", ctx.cov.get("codecs", 0), len(which) * len(cfgs))
    ctx.assumptions += [
        "Text values without a validating constructor are taken as documented (QuotedUtf8: no NUL/CR/LF and not pure ASCII; unknown response codes: no ']' CR LF).",
        "Values whose nesting exceeds the parser's recursion budget are outside the property.",
        "Sequence sets are compared up to normalisation only where the parser normalises.",
        "escape_quoted/unescape_quoted are treated as inverse here; decided separately (transducer analysis).",
    ]
    return RULE
