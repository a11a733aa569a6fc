"""P13: keywords are read in either case."""
import re
import time

import model
import rt
from c_rt import culprit, norm
import stdx
from ev import ALL
from stdx import S

RULE = ("The round-trip interpretation (see P01) is repeated with every constant letter an encoder writes (keywords, month names, NIL, INBOX ...) "
        "replaced by its other case: every decoder must still return exactly the symbolic message. The only constants left alone are the ones "
        "that are not protocol keywords.")


def flip(p, conv):
    """`conv` applied to every constant inside a template part."""
    if not isinstance(p, tuple) or not p:
        return p
    if p[0] == "lit":
        return ("lit", conv(p[1]))
    if p[0] == "rep":
        return tuple(flip(x, conv) if isinstance(x, tuple) and x and isinstance(x[0], str) else
                     tuple(flip(y, conv) for y in x) if isinstance(x, tuple) else x for x in p)
    return p


def mixed(b):
    return bytes(c ^ 0x20 if i % 2 and (65 <= c <= 90 or 97 <= c <= 122) else c for i, c in enumerate(b))


class Flip(rt.RT):
    conv = staticmethod(bytes.swapcase)

    def sink_parts(self, run, sink):
        sink = run.d(sink)
        if isinstance(sink, stdx.Fmt):
            return S(tuple(flip(p, self.conv) for p in sink.buf.parts)).parts
        return super().sink_parts(run, sink)

    def flatten(self, run, items):
        return [flip(p, self.conv) for p in super().flatten(run, items)]


class Mixed(Flip):
    conv = staticmethod(mixed)


def run_cfg(ctx, cfg, which, kind):
    m = model.Model(cfg)
    R = {"swapped": Flip, "mixed": Mixed}[kind](m)
    n = 0
    for codec, ek, dk in rt.roots(m):
        nm = codec[1].split("::")[-1]
        if nm not in which or not ek:
            continue
        n += 1
        t = time.time()
        try:
            fails, cases = R.root(codec, ek, dk, ("follow", ALL, True))
        except rt.Undecided as u:
            ctx.note("%s/%s/%s: not decided: %s" % (cfg, kind, nm, u))
            continue
        ctx.count("root_cases", cases)
        groups = {}
        for f in fails:
            if f[0] == "undecided":
                ctx.note("%s/%s/%s: %s [%s]" % (cfg, kind, nm, norm(f[1]), culprit(f[2])))
                continue
            groups.setdefault(culprit(f[2]), []).append(f)
        if groups:
            # a message that is not read back as written either is no matter of letter case
            P = rt.RT(m)
            P.budget = 200
            try:
                plain = P.root(codec, ek, dk, ("follow", ALL, True))[0]
            except rt.Undecided:
                plain = []
            for cul in {culprit(f[2]) for f in plain if f[0] != "undecided"}:
                if groups.pop(cul, None):
                    ctx.note("%s/%s/%s: not read back as written either (see P01/P02) [%s]" % (cfg, kind, nm, cul))
        for cul, fs in groups.items():
            f = fs[0]
            where = re.search(r"([\w./-]+\.rs:\d+)", f[1])
            ctx.violation("%s: case %s" % (nm, cul), where.group(1) if where else "%s (decode) vs %s (encode)" % (dk, ek),
                          "%s: with its keywords in another letter case a message is not read as the same message: %s" % (nm, f[1]),
                          case=f[2], config=cfg, letters=kind, occurrences=len(fs))
        ctx.cov.setdefault("codec_seconds", {})["%s/%s/%s" % (cfg, kind, nm)] = round(time.time() - t, 1)
    ctx.count("codecs", n)
    ctx.count("obligations", R.stats["obligations"])
    ctx.count("encoder_templates", R.stats["templates"])
    ctx.count("cases", R.stats["cases"])
    ctx.count("functions_analysed", len(R.stats["functions"]))
    for k, fs in R.gaps.items():
        for f in fs[:3]:
            ctx.note("%s/%s read by %s: %s [%s]" % (cfg, k[0][1].split("::")[-1], k[2].split("::")[-1], norm(f[1]), culprit(f[2])))
    for k, u in R.tundec.items():
        ctx.note("%s/encoder of %s: %s" % (cfg, k[0][1].split("::")[-1], u[0][1]))
    ctx.cov["configs"] = [cfg]


ALLC = ("GreetingCodec", "CommandCodec", "AuthenticateDataCodec", "ResponseCodec", "IdleDoneCodec")


def check(ctx):
    from report import parallel
    jobs = [("E", "swapped"), ("N", "mixed")] if ctx.quick else [(c, k) for c in ("D", "E", "N") for k in ("swapped", "mixed")]
    parallel(ctx, [(run_cfg, (c, [w], k)) for c, k in jobs for w in ALLC])
    ctx.floor("codecs with encode and decode", ctx.cov.get("codecs", 0), len(ALLC) * len(jobs))
    ctx.assumptions += ["The letters changed are the constant letters of the encoder's own output; text taken from the message keeps its case.",
                        "The assumptions of P01/P02 apply."]
    return RULE
