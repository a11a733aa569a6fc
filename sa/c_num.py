"""P20: numbers of received messages are decoded exactly or refused."""
import re

import c_stream
import nomx
from cg import CG, walk
from ev import Con, Lin, ListV, S, Sym, Top, Tup
from model import last
from stdx import rng

RULE = ("Every parser function reachable from a decode() entry point is followed on unconstrained input. On each accepting path, for every numeral it consumed and "
        "converted: the conversion succeeded (a path that goes on after a failed conversion has not consumed the numeral); the number appears in the result, "
        "decides the number of bytes taken, or has been compared; and wherever it appears it has not been narrowed, reduced, clamped or wrapped.")
LOSSY = re.compile(r"saturating|wrapping|overflowing| BitAnd | Rem | Shr | Div |min/max|clamp")


def leaves(run, v, d=0):
    if isinstance(v, (tuple, list)):
        for x in v:
            if not isinstance(x, (str, int, bytes)) and x is not None:
                yield from leaves(run, x, d + 1)
        return
    v = run.d(v)
    if isinstance(v, Con):
        if d < 14:
            for x in v.f.values():
                yield from leaves(run, x, d + 1)
    elif isinstance(v, (Tup, ListV)):
        for x in v.items:
            yield from leaves(run, x, d + 1)
    else:
        yield v


def base(p):
    n = 0
    while p and str(p[-1]).startswith("as "):
        p, n = p[:-1], n + 1
    return p, n


def numeral(part):
    return part[0] == "raw" and part[2][0] == "mask" and not part[2][1] & ~nomx.DIGITS and (len(part[2]) < 3 or part[2][2])


def most(part):
    hi = part[2][3] if len(part[2]) > 3 else None
    return 10 ** hi - 1 if hi is not None and hi < 40 else None


def narrowed(part, path, ty):
    """The numeral can exceed what the casts on the path leave of it."""
    b, n = base(path)
    if not n:
        return None
    mx = most(part)
    for c in path[len(b):]:
        r = rng(("prim", str(c)[3:]))
        if r and (mx is None or mx > r[1]):
            return str(c)[3:]
    return None


def check_cfg(ctx, cfg):
    m, R, F, C, roots, ps = c_stream.prepare(cfg)
    ctx.count("entry_points", len(roots))
    ctx.count("parser_functions", len(ps))
    byhand = False
    shown = set()
    for phase, k in [(0, k) for k in sorted(ps)] + [(1, k) for k in sorted(ps)]:
        where = m.fns[k]["sp"]
        for run, kind, v in F.outcomes(k):
            if kind == "undecided":
                byhand = byhand or "symbolic bytes" in str(v)
                if not isinstance(v, c_stream.Dead) and phase:
                    ctx.note("%s/%s: %s (%s)" % (cfg, last(k), v, v.sp))
                continue
            if kind != "ok":
                continue
            end = c_stream.end_name(run, F, v, k in roots)
            if end[0] != "Ok":
                continue
            ctx.count("accepting_paths", phase)
            parts, pos = c_stream.chain(run, c_stream.rest_of(run, v))
            vals = [(x, x.path) for x in leaves(run, v) if isinstance(x, Sym)]
            lins = [t for x in leaves(run, v) if isinstance(x, Lin) for t, _ in x.terms]
            tops = [x for x in leaves(run, v) if isinstance(x, Top)]
            takes = [run.d(x) for x in run.__dict__.get("takes", [])]

            def bad(key, what):
                ctx.violation("%s: %s" % (last(k), key), where, "%s %s" % (k, what), config=cfg,
                              path=["input: " + c_stream.show(parts)] + [str(x) for x in run.assume.items()][-6:])
            if phase == 0:
                for p in parts:
                    if numeral(p):
                        me = ("$any", "num", str(p))
                        if any(base(path)[0] == me for _, path in vals):
                            shown.add((c_stream.show(parts), c_stream.show([p])))
                continue
            nums = [p for p in parts if numeral(p)]
            for p in nums:
                me = ("$any", "num", str(p))
                tried = run.assume.get(("parse", (p,)))
                exact = any(base(path)[0] == me for _, path in vals) or any(base(t)[0] == me for t in lins) or any(base(x.path)[0] == me for x in takes if isinstance(x, Sym))
                fits = [(a, b) for a, b in run.assume.items() if isinstance(a, tuple) and a[0] == "fits" and base(a[1])[0] == me]
                if tried is None and not exact and me not in run.__dict__.get("symrng", {}):
                    continue            # not read as a number here
                ctx.count("numerals")
                if tried is False:
                    bad("out of range", "accepts the numeral %s after converting it has failed (out of range)" % c_stream.show([p]))
                    continue
                if any(b is False for _, b in fits):
                    bad("out of range", "accepts the numeral %s after finding that it does not fit %s" % (c_stream.show([p]), fits[0][0][2]))
                    continue
                for x, path in vals + [(x, x.path) for x in takes if isinstance(x, Sym)]:
                    if base(path)[0] == me:
                        ctx.count("obligations")
                        t = narrowed(p, path, x.ty)
                        seen = any(isinstance(a, tuple) and a[0] == "cmp" and any(isinstance(y, tuple) and base(y)[0] == me for y in a[1:]) for a in run.assume)
                        if t and seen:
                            ctx.note("%s/%s: %s cast to %s after a comparison" % (cfg, last(k), c_stream.show([p]), t))
                        elif t:
                            bad("narrowed", "cuts the number read from %s to %s" % (c_stream.show([p]), t))
                for t in lins:
                    if base(t)[0] == me and narrowed(p, t, None):
                        bad("narrowed", "cuts the number read from %s to %s" % (c_stream.show([p]), narrowed(p, t, None)))
                if not exact:
                    lossy = [x for x in tops if LOSSY.search(str(x.why))]
                    compared = [a for a in run.assume if isinstance(a, tuple) and a[0] in ("cmp", "inteq", "nonzero") and me in [base(y)[0] if isinstance(y, tuple) else y for y in a[1:]]]
                    if lossy:
                        bad("changed", "changes the number read from %s (%s)" % (c_stream.show([p]), lossy[0].why))
                    elif any(a[0] == "cmp" for a in compared) and (c_stream.show(parts), c_stream.show([p])) in shown:
                        bad("clamped", "replaces the number read from %s when it is beyond a limit" % c_stream.show([p]))
                    else:
                        ctx.note("%s/%s: the number read from %s does not appear in the result" % (cfg, last(k), c_stream.show([p])))
    if byhand:
        # digits summed by hand: the engine does not follow loops over unknown text; look for sums that cannot notice overflow
        g = CG(m)
        for k in g.reach(roots):
            f = m.fns[k]
            for c, n in g.sites[k]:
                if c and re.match(r"(wrapping|saturating|overflowing|unchecked)_(mul|shl|pow)$", last(c)):
                    ctx.violation("%s: %s" % (last(k), last(c)), n.get("sp") or f["sp"], "%s converts digits by hand with %s: a number out of range is accepted as another one" % (k, last(c)), config=cfg)

            def node(x, k=k, f=f):
                if x["k"] in ("bin", "assignop") and str(x.get("op")).startswith("Mul") and any(lit(x[y]) == 10 for y in ("l", "r")) and m.T(f["crate"], x["l"]["t"])[:1] == ("prim",):
                    ctx.violation("%s: sum" % last(k), x.get("sp") or f["sp"], "%s converts digits by hand without noticing overflow (release builds wrap)" % k, config=cfg)
                if x["k"] == "closure" and x.get("d") in m.fns:
                    walk(m.fns[x["d"]].get("body"), node)
            walk(f.get("body"), node)
    ctx.cov.setdefault("configs", []).append(cfg)


def lit(e):
    c = e.get("c") if isinstance(e, dict) and e.get("k") == "lit" else None
    return next((x for x in c.values() if isinstance(x, int)), None) if isinstance(c, dict) else c


def check(ctx):
    from report import parallel
    cfgs = ["E", "N"] if ctx.quick else ["D", "E", "N", "A"]
    parallel(ctx, [(check_cfg, (c,)) for c in cfgs])
    ctx.floor("decode entry points", ctx.cov.get("entry_points", 0), 5 * len(cfgs))
    ctx.floor("numerals", ctx.cov.get("numerals", 0), 30 * len(cfgs))
    ctx.assumptions += ["str::parse and TryFrom of the integer types return the exact value or an error.", "chrono's constructors refuse values out of range."]
    return RULE
