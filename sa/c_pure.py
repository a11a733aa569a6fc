"""P18: results depend on nothing but the arguments."""
import model
import rt
from cg import CG, walk
from model import last

RULE = ("Effect analysis of the type-checked source: every function of both crates (tag generator aside) is searched for references to statics with "
        "interior mutability, thread-local storage, unsafe blocks, calls of clock, environment, randomness, file, network, process and thread "
        "functions, formatting of addresses, and iteration in the order of a hash table that is not sorted afterwards; every field of every type "
        "for interior mutability.")

DENY = ("std::env", "std::fs", "std::net", "std::time", "std::thread", "std::process", "std::os", "std::io::stdio", "std::random", "core::random",
        "rand", "rand_core", "getrandom", "fastrand", "uuid")
CLOCK = {"now", "elapsed", "today"}
CELLS = ("core::cell::", "std::sync::", "core::sync::", "alloc::sync::Weak", "std::thread::", "std::sys::", "once_cell::", "lazy_static::", "parking_lot::")
HASHES = ("std::collections::hash::", "hashbrown::")
HASHITERS = {"Iter", "IterMut", "IntoIter", "Drain", "Keys", "Values", "ValuesMut", "IntoKeys", "IntoValues", "Difference", "Intersection", "Union",
             "SymmetricDifference", "ExtractIf"}
BLIND = {"all", "any", "count", "len", "sum", "product", "min", "max", "size_hint", "is_empty", "eq"}
UNORDERED = {"HashMap", "HashSet", "BTreeMap", "BTreeSet", "BinaryHeap"}


def heads(t):
    if isinstance(t, tuple):
        if len(t) > 1 and t[0] == "adt" and isinstance(t[1], str):
            yield t[1]
        for x in t:
            yield from heads(x)


def mutable(m, t, seen=None):
    """The type (transitively) contains a cell, lock or atomic."""
    seen = set() if seen is None else seen
    for h in heads(t):
        if last(h) in ("LazyLock", "LazyCell"):
            continue            # initialised once, by a closure that is itself searched
        if h.startswith(CELLS):
            return h
        if h in m.adts and h not in seen:
            seen.add(h)
            a = m.adts[h]
            for v in a["vs"]:
                for f in v["fs"]:
                    r = mutable(m, m.T(a["crate"], f["t"]), seen)
                    if r:
                        return r
    return None


def pointer(t):
    return t[0] == "fndef" or t[0] == "other" and isinstance(t[1], str) and t[1].startswith(("*const", "*mut", "fn(", "unsafe fn", "extern"))


def hash_order(ctx, m, f, sites, bad):
    """Consumers of an iteration over a hash table that see its order."""
    sorts = any(c and last(c).startswith("sort") or "BinaryHeap" in str(c) or "btree" in str(c) for c, _ in sites)

    def hashiter(e):
        if not isinstance(e, dict) or not isinstance(e.get("t"), int):
            return None
        return next((h for h in heads(m.T(f["crate"], e["t"])) if h.startswith(HASHES) and last(h) in HASHITERS), None)
    for c, x in sites:
        if x["k"] != "call" or not c:
            continue
        src = next((h for h in map(hashiter, x.get("a") or []) if h), None)
        if src is None or hashiter(x):
            continue
        ctx.count("hash_iterations")
        n = last(c)
        out = [last(h) for h in heads(m.T(f["crate"], x["t"]))] if isinstance(x.get("t"), int) else []
        if n in BLIND or n in ("collect", "from_iter") and out and out[0] in UNORDERED:
            continue
        if n == "extend" and any(last(h) in UNORDERED for h in heads(m.T(f["crate"], x["a"][0]["t"]))):
            continue
        if sorts:
            ctx.count("hash_iterations_sorted")
            continue
        bad("lets the order of a hash table decide a result (%s of %s)" % (n, src), x, "hash order")


def in_generator(m, k):
    while k:
        f = m.fns.get(k)
        i = m.impl_by_key.get((f or {}).get("impl") or "")
        if i is not None and i["T_self"][0] == "adt" and last(i["T_self"][1]) == "TagGenerator":
            return True
        k = k.rsplit("::", 1)[0] if "::{closure" in k.rsplit("::", 1)[-1] or k.endswith("}") and "::" in k else None
    return False


def check_cfg(ctx, cfg):
    m = model.Model(cfg)
    g = CG(m)
    roots = [x for _, ek, dk in rt.roots(m) for x in (ek, dk) if x]
    reach = g.reach(roots)

    def path(k):
        if k not in reach:
            return []
        p = []
        while k is not None:
            p.append(k)
            k = reach[k]
        return p[::-1][:12]
    for k, f in m.fns.items():
        if in_generator(m, k):
            continue
        ctx.count("functions")
        if k in reach:
            ctx.count("functions_in_codecs")
        where = f["sp"]

        def bad(what, node, key):
            ctx.violation("%s: %s" % (k, key), node.get("sp") or where, "%s %s" % (k, what), path=path(k), config=cfg)
        sites = g.sites[k]
        for c, node in sites:
            if not c or c in m.fns:
                continue
            ctx.count("external_calls")
            if c.startswith("std::hash::random::"):
                bad("hashes with a random key (%s)" % c, node, "random")
            elif c.startswith(tuple(d + "::" for d in DENY)) and not c.startswith("std::process::{impl") and last(c) not in ("from",):
                bad("calls %s" % c, node, "calls " + c)
            elif last(c) in CLOCK and not c.startswith(("imap_types", "imap_codec")) and ("chrono" in c or "time" in c):
                bad("reads the clock (%s)" % c, node, "calls " + c)
            elif last(c) == "new_pointer" or "::ptr::" in c and last(c) in ("addr", "expose_provenance", "addr_of"):
                bad("uses a memory address (%s)" % c, node, "address")
        hash_order(ctx, m, f, sites, bad)

        def node(x):
            if x["k"] == "static":
                ctx.count("statics")
                t = m.T(f["crate"], x["t"]) if isinstance(x.get("t"), int) else ("other",)
                h = mutable(m, t)
                if h:
                    bad("uses the static %s (%s)" % (x.get("d"), h), x, "static " + str(x.get("d")).split("::")[-1])
            elif x["k"] == "cast" and x.get("e") and not x.get("diff") and pointer(m.T(f["crate"], x["e"]["t"])):
                t = m.T(f["crate"], x["t"])
                if t[0] == "prim":
                    bad("turns an address into a number", x, "address")
            elif x["k"] == "bin" and x.get("op") == "Sub":
                for y in (x["l"], x["r"]):
                    if isinstance(y, dict) and y["k"] == "cast":
                        y["diff"] = True
            elif x["k"] == "block" and x.get("unsafe"):
                bad("contains an unsafe block", x, "unsafe")
        walk(f.get("body"), node)
        if f.get("unsafe"):
            ctx.violation("%s: unsafe" % k, where, "%s is an unsafe function" % k, config=cfg)
    for k, a in m.adts.items():
        if last(k) == "TagGenerator":
            continue
        ctx.count("types")
        for v in a["vs"]:
            for fl in v["fs"]:
                ctx.count("fields")
                h = next((x for x in heads(m.T(a["crate"], fl["t"])) if x.startswith(CELLS) or x == "alloc::rc::Rc"), None)
                if h:
                    ctx.violation("%s.%s: %s" % (k, fl["n"], last(h)), a.get("sp") or k, "the field %s of %s can change behind a shared reference (%s)" % (fl["n"], k, h), config=cfg)
    ctx.cov["configs"] = [cfg]




def check(ctx):
    from report import parallel
    cfgs = ["E", "N"] if ctx.quick else ["D", "E", "N", "R"]
    parallel(ctx, [(check_cfg, (c,)) for c in cfgs])
    ctx.floor("functions", ctx.cov.get("functions", 0), 1000 * len(cfgs))
    ctx.floor("functions of the codecs", ctx.cov.get("functions_in_codecs", 0), 300 * len(cfgs))
    ctx.assumptions += ["nom, chrono, base64, serde and the standard library functions called are pure apart from the listed ones.",
                        "Log messages are not results. A function that sorts after iterating over a hash table yields an order of its own."]
    return RULE
