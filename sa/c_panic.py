"""P03/P04: no panic while decoding arbitrary bytes / encoding arbitrary messages."""
import re

import anyin
import cg
import model
import nomx
import rt
from ev import ALL, Ch, PanicE, S, Undecided, explore, mask_of
from model import last

RULE_D = ("Abstract interpretation of every parser function reachable (call graph of the type-checked program) from a decode() entry point, on "
          "unconstrained input: each primitive matcher succeeds with an arbitrary value of its character class and length, fails, or lacks input; "
          "nested parsers return any value of their result type (restricted to the variants they can produce). A path that reaches unwrap/expect on "
          "the failing variant, an explicit panic, an index out of bounds, a division by zero or an arithmetic result outside its type is reported.")
RULE_E = ("Abstract interpretation of encode() and of every encoder it uses (EncodeIntoContext/Display/AsRef) on fully symbolic values: every "
          "path through every encoder is followed; a path that can panic is reported.")


def roots_of(m, trait):
    return [k for k in m.fns if last((m.impl_by_key.get(m.fns[k].get("impl") or "", {}).get("trait") or "").split("<")[0]) == trait]


def line_discharges(m, R, fn, run):
    """Correlated choices: the same function on whole lines with symbolic content."""
    log = run.__dict__.get("anylog", {})
    pre, n = b"", 0
    while n in log and len(log[n][0]) == 1 and log[n][0][0][0] == "lit":
        pre += log[n][0][0][1]
        n = log[n][1]
    if not pre:
        return False
    good = 0
    for end in (b"\r\n", b"\n"):
        def body(run):
            txt = ("raw", ("$", "t"), ("mask", ALL & ~mask_of(b"\r\n"), 0))
            return run.d(run.call_local(fn, [S((("lit", pre), txt, ("lit", end), ("follow", ALL, True)))], {}))
        for r, k, v in explore(m, body, opts=R.opts(hook=lambda run, f, a, t: R.common_hook(run, f, a), exact_starts=True)):
            if k == "panic":
                return False
            good += k == "ok"
    return good >= 2


def decode_cfg(ctx, cfg):
    m = model.Model(cfg)
    R = rt.RT(m)
    A = anyin.AnyIn(m, R)
    C = cg.CG(m)
    roots = roots_of(m, "Decoder")
    reach = C.reach(roots)
    ps = [k for k in reach if A.is_parser(m.fns[k]) or k in roots]
    ctx.count("entry_points", len(roots))
    ctx.count("parser_functions", len(ps))
    ctx.count("functions_reachable", len(reach))
    n = 0
    for k in sorted(ps):
        for run, kind, v in A.outcomes(k):
            n += 1
            if kind == "panic":
                what = "%s: %s" % (v.why, v.sp)
                if line_discharges(m, R, m.fns[k], run):
                    ctx.cov.setdefault("discharged_by_line_analysis", []).append(last(k))
                    continue
                ctx.violation("panic while decoding: %s in %s" % (re.sub(r"\d+", "#", str(v.why)), last(k)), v.sp or m.fns[k]["sp"],
                              "the parser %s can panic: %s" % (k, v.why), config=cfg, path=[str(x) for x in list(run.assume.items())[-12:]])
            elif kind == "undecided":
                ctx.note("%s/%s: %s (%s)" % (cfg, last(k), v, v.sp))
    ctx.count("paths", n)
    sites = 0
    for k in reach:
        for key, node in C.sites[k]:
            if key and re.search(r"panicking|::unwrap$|::expect$|::index$|split_at", key):
                sites += 1
                if k not in A.functions and k not in ps:
                    ctx.note("%s: panic site in %s (%s) not entered by the analysis" % (cfg, k, node.get("sp")))
    ctx.count("panic_sites_in_reach", sites)
    ctx.count("functions_entered", len(A.functions))


def decode(ctx):
    from report import parallel
    cfgs = ["E", "N"] if ctx.quick else ["D", "E", "N", "A"]
    parallel(ctx, [(decode_cfg, (c,)) for c in cfgs])
    ctx.floor("decode entry points", ctx.cov.get("entry_points", 0), 5 * len(cfgs))
    ctx.floor("parser functions", ctx.cov.get("parser_functions", 0), 60 * len(cfgs))
    ctx.assumptions += ["The models of core, std, nom, chrono and base64 functions in /verif/sa are right about when those functions panic.",
                        "Stack and heap exhaustion are not panics; recursion depth is decided separately."]
    return RULE_D


def encode_cfg(ctx, cfg):
    m = model.Model(cfg)
    R = rt.RT(m)
    seen = set()
    todo = []
    for codec, ek, dk in rt.roots(m):
        if not ek:
            continue
        ctx.count("entry_points")
        try:
            mty, parts = R.root_parts(codec, ek)
        except PanicE as p:
            ctx.violation("panic while encoding: %s" % p.why, p.sp, "%s can panic: %s" % (ek, p.why), config=cfg)
            continue
        except Undecided as u:
            ctx.note("%s/%s: %s" % (cfg, ek, u))
            continue
        todo.append(parts)
    while todo:
        for p in todo.pop():
            if p[0] == "rep":
                todo.append(p[2])
            if p[0] != "tok" or (p[2], p[3]) in seen:
                continue
            seen.add((p[2], p[3]))
            for a, parts, _ in R.templates(p[2], p[3]):
                todo.append(parts)
            for a, u in R.tundec.get((p[2], p[3]), []):
                if isinstance(u, PanicE):
                    ctx.violation("panic while encoding: %s in %s" % (re.sub(r"\d+", "#", str(u.why)), last(p[2][1])), u.sp or m.fns[p[3]]["sp"],
                                  "the encoder of %s can panic: %s" % (p[2][1], u.why), config=cfg, path=[str(x) for x in a.items()])
                else:
                    ctx.note("%s/encoder of %s: %s (%s)" % (cfg, last(p[2][1]), u, u.sp))
    ctx.count("encoders", len(seen))
    ctx.count("paths", R.stats["templates"])
    ctx.count("functions_entered", len(R.stats["functions"]))


def encode(ctx):
    from report import parallel
    cfgs = ["E", "N"] if ctx.quick else ["D", "E", "N", "A"]
    parallel(ctx, [(encode_cfg, (c,)) for c in cfgs])
    ctx.floor("encode entry points", ctx.cov.get("entry_points", 0), 5 * len(cfgs))
    ctx.floor("encoders", ctx.cov.get("encoders", 0), 30 * len(cfgs))
    return RULE_E
