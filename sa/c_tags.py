"""P17: generated tags are valid and never repeat."""
import model
import rt
import stdx
from cg import CG, walk
from ev import ALL, Con, DIGITS, Lin, S, Sym, Top, Undecided, explore, mask_of
from model import last, strip

RULE = ("Abstract interpretation of TagGenerator: new() must store, unchanged, a number taken by one atomic fetch_add from a shared counter nothing else "
        "writes; generate() must yield a text from which that number and the generator's own counter can both be read back (each followed by a "
        "non-digit, fixed or leading text only before them), advance the counter by a fixed non-zero step, leave everything else alone; all its "
        "characters are tag characters. No other way to make or copy a generator exists.")

ALNUM = mask_of(b"ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789")
RAND = ("$random",)
LOSSY = (" BitAnd ", " Rem ", " Shr ", " Div ", " BitOr ")
GLOBAL = ("$static",)


def extern(run, f, args):
    it = f["name"].split("::")[-1]
    nm = f.get("key") or f["name"]
    if it == "fetch_add" and "atomic" in nm:
        k = run.d(args[1])
        run.__dict__.setdefault("fetches", []).append(k)
        return Sym(GLOBAL, ("prim", "usize"))
    if "atomic" in nm and it in ("load", "swap", "fetch_sub", "fetch_or", "fetch_max", "fetch_and", "fetch_xor"):
        run.__dict__.setdefault("other", []).append(it)
        return Sym(("$" + it,), ("prim", "usize"))
    if "atomic" in nm and it == "store":
        run.__dict__.setdefault("other", []).append(it)
        return stdx.UNIT
    if "atomic" in nm and it == "new":
        return Top("atomic")
    if it in ("sample_string",):
        return S((("raw", RAND, None),))
    if nm.startswith("rand") or f["name"].startswith("rand::"):
        return Top("random")
    if it == "wrapping_add":
        a, b = run.d(args[0]), run.d(args[1])
        if isinstance(a, Sym) and isinstance(b, int):
            return Lin({a.path: 1}, b)
    return None


def check_cfg(ctx, cfg):
    m = model.Model(cfg)
    g = CG(m)
    gens = [k for k in m.adts if last(k) == "TagGenerator"]
    if not gens:
        ctx.note("%s: no tag generator" % cfg)
        return
    ty = ("adt", gens[0], ())
    a = m.adts[gens[0]]
    ctx.count("generators")
    fields = m.fields(ty, None)
    makers, steps = [], []
    for k, f in m.fns.items():
        i = m.impl_by_key.get(f.get("impl") or "")
        mine = i is not None and i["T_self"][:2] == ty[:2]
        if mine and i.get("trait"):
            t = last(i["trait"].split("<")[0])
            if t in ("Clone", "Copy", "Deserialize", "Arbitrary", "Default") and last(k) not in ("clone_from",):
                ctx.count("traits")
                if t == "Default":
                    makers.append(k)
                else:
                    ctx.violation("TagGenerator: %s" % t, f["sp"], "a generator can be duplicated (%s): two generators with the same prefix and counter" % t, config=cfg)
            continue
        out = strip(m.T(f["crate"], f["out"])) if f.get("out") is not None else None
        if mine and out is not None and out[:2] == ty[:2]:
            makers.append(k)
        elif mine and out is not None and out[0] == "adt" and last(out[1]) == "Tag":
            steps.append(k)
        made = []
        walk(f.get("body"), lambda x: made.append(x) if x["k"] == "adt" and x.get("d") == gens[0] else None)
        if made and not mine:
            ctx.violation("TagGenerator made in %s" % k, made[0].get("sp") or f["sp"], "%s builds a generator without drawing a prefix" % k, config=cfg)
        for c, node in g.sites[k]:
            if c and "::atomic::" in c and last(c) in ("store", "swap", "fetch_sub", "fetch_and", "fetch_or", "fetch_xor", "fetch_nand", "fetch_min", "fetch_max", "get_mut"):
                ctx.violation("%s: %s" % (k, last(c)), node.get("sp") or f["sp"], "%s writes the shared counter by %s: a prefix can be handed out twice" % (k, last(c)), config=cfg)
    for f in a["vs"][0]["fs"]:
        if f["pub"]:
            ctx.violation("TagGenerator.%s is public" % f["n"], a.get("sp") or gens[0], "the field %s can be set from outside" % f["n"], config=cfg)
    prefix, counters = None, []
    for k in makers:
        f = m.fns[k]
        ctx.count("constructors")
        if f["params"]:
            ctx.note("%s/%s: constructor with arguments" % (cfg, last(k)))
            continue
        for run, kind, v in explore(m, lambda run: (run.call_local(f, [], {}), run)[0], opts={"extern": extern}):
            ctx.count("paths")
            if kind != "ok":
                ctx.note("%s/%s: %s" % (cfg, last(k), v))
                continue
            v = run.d(v)
            if not isinstance(v, Con):
                ctx.note("%s/%s: result %r" % (cfg, last(k), v))
                continue
            vals = {n: run.d(x) for n, x in v.f.items()}
            pf = [n for n, x in vals.items() if isinstance(x, Sym) and x.path == GLOBAL]
            steps_ = run.__dict__.get("fetches", [])
            if len(pf) != 1 or not steps_ or any(not isinstance(s, int) or s == 0 for s in steps_):
                if any(isinstance(x, Top) for x in vals.values()) and not run.__dict__.get("other"):
                    ctx.violation("%s: prefix" % k, f["sp"], "%s does not keep the drawn number unchanged (%s)" % (k, {n: repr(x) for n, x in vals.items()}), config=cfg)
                else:
                    ctx.violation("%s: prefix" % k, f["sp"], "%s does not draw its prefix by one atomic fetch_add of a non-zero amount (fields: %s)" % (k, {n: repr(x) for n, x in vals.items()}), config=cfg)
                continue
            prefix = pf[0]
            counters = [n for n in vals if n != prefix]
    ctx.count("generating_functions", len(steps))
    if prefix is None:
        return
    L = rt.Langs(m)
    tagty = None
    for k in steps:
        f = m.fns[k]

        def body(run):
            me = Con(gens[0], a["vs"][0]["n"], {n: run.mk_sym(("$", n), t) for n, t in fields}, ty)
            r = run.call_local(f, [me], {})
            return r, me
        opts = {"extern": extern, "lang": lambda run, p: (ALNUM, 1) if p[1] == RAND else (ALL, 0)}
        for run, kind, v in explore(m, body, opts=opts):
            ctx.count("paths")
            if kind == "panic":
                ctx.note("%s/%s may panic: %s" % (cfg, last(k), v.why))
                continue
            if kind != "ok":
                if str(v).startswith("Display of T(<$.") and any(o in str(v) for o in LOSSY):
                    ctx.violation("%s: text" % k, f["sp"], "%s prints %s: different numbers give the same tag" % (k, str(v)[len("Display of "):]), config=cfg)
                else:
                    ctx.note("%s/%s: %s" % (cfg, last(k), v))
                continue
            tag, me = v
            tag = run.d(tag)
            tagty = tag.adt
            try:
                parts = stdx.sparts(run, list(tag.f.values())[0]).parts
            except Undecided as u:
                ctx.note("%s/%s: text of the tag: %s" % (cfg, last(k), u))
                continue
            ctx.cov.setdefault("tag_texts", []).append("%s: %r" % (cfg, S(parts)))
            seen = []
            clear = True
            odd = [p for p in parts if p[0] not in ("num", "lit", "raw")]
            if odd:
                ctx.note("%s/%s: part %r of the tag" % (cfg, last(k), odd[0]))
                continue
            for n, p in enumerate(parts):
                if p[0] == "num":
                    nx = parts[n + 1] if n + 1 < len(parts) else None
                    if clear and (nx is None or nx[0] == "lit" and not (DIGITS >> nx[1][0] & 1)):
                        seen.append(p[1])
                    else:
                        clear = False
                elif p[0] == "raw":
                    clear = False
            need = [("$", prefix)] + [("$", n) for n in counters]
            used = [p[1] for p in parts if p[0] == "num"]
            for q in need:
                ctx.count("obligations")
                if q not in used:
                    ctx.violation("%s: %s" % (k, q[-1]), f["sp"], "the tag %r does not contain the %s: tags repeat" % (S(parts), q[-1]), config=cfg)
                elif q not in seen:
                    ctx.violation("%s: %s" % (k, q[-1]), f["sp"], "in the tag %r the end of the %s cannot be told: different numbers give the same tag" % (S(parts), q[-1]), config=cfg)
            after = {n: run.d(x) for n, x in me.f.items()}
            adv = 0
            for n, x in after.items():
                ctx.count("obligations")
                t = dict(x.terms) if isinstance(x, Lin) else None
                if n in counters and t is not None and t == {("$", n): 1}:
                    adv += x.c != 0
                elif isinstance(x, Sym) and x.path == ("$", n):
                    pass
                elif isinstance(x, Top) and any(o in str(x.why) for o in LOSSY):
                    ctx.violation("%s: %s after" % (k, n), f["sp"], "%s changes the %s to %s, which takes few values: tags repeat" % (k, n, x.why), config=cfg)
                    adv = None
                    break
                elif isinstance(x, Top):
                    ctx.note("%s/%s: %s becomes %r" % (cfg, last(k), n, x))
                    adv = None
                    break
                else:
                    ctx.violation("%s: %s after" % (k, n), f["sp"], "%s changes the %s to %r: a number can come again" % (k, n, x), config=cfg)
                    adv = None
                    break
            if adv == 0:
                ctx.violation("%s: counter" % k, f["sp"], "%s does not advance the counter: tags repeat" % k, config=cfg)
            cls = L.of((tagty, None, list(tag.f)[0]))
            if cls:
                for p in parts:
                    b = mask_of(p[1]) if p[0] == "lit" else DIGITS if p[0] == "num" else ALNUM if p[1] == RAND else ALL
                    ctx.count("obligations")
                    if b & ~cls[0]:
                        ctx.violation("%s: characters" % k, f["sp"], "the tag %r contains characters a tag may not contain" % S(parts), config=cfg)
    ctx.cov.setdefault("configs", []).append(cfg)


def check(ctx):
    for c in (["E", "R"] if ctx.quick else ["E", "N", "R"]):
        check_cfg(ctx, c)
    ctx.floor("generators", ctx.cov.get("generators", 0), 1)
    ctx.floor("generating functions", ctx.cov.get("generating_functions", 0), 1)
    ctx.assumptions += ["Fewer than 2^64 tags are drawn from a generator and fewer than 2^(word size) generators are made in a process.",
                        "rand's Alphanumeric yields letters and digits."]
    return RULE
