"""P14: secrets stay out of what is printed (release builds)."""
import model
from cg import CG, walk
from model import last, strip

RULE = ("Information flow over the type-checked release build: (1) the printing functions of the secret wrapper reach no function that reads the wrapped value; "
        "(2) every place that holds a password, an initial response, authentication data or undecoded bytes has a type in which these are inside the wrapper "
        "(or inside a type whose printing functions read no field); (3) no printing function of any type reaches a function that unwraps a secret; "
        "(4) nothing unwrapped is formatted where it is unwrapped; (5) the wrapper has no other printing or dereferencing trait; "
        "(6) decoding errors hold nothing of the message but tag, length and mode.")
PRINT = {"Debug", "Display", "LowerHex", "UpperHex", "Binary", "Octal", "LowerExp", "UpperExp", "Pointer", "Write", "ToString"}
OPEN = PRINT - {"Debug"} | {"Deref", "DerefMut", "AsRef", "AsMut", "Borrow", "BorrowMut", "Error", "IntoIterator"}
HOLDERS = [("CommandBody", "Login", "password"), ("CommandBody", "Authenticate", "initial_response"), ("AuthenticateData", "Continue", None),
           ("DecodeMessageError", "DecodingRemainder", "remainder"), ("DecodeMessageError", "MessageTooLong", None), ("DecodeMessageError", "MessagePoisoned", None)]


def head(t):
    t = strip(t)
    return t[1] if t[0] == "adt" else None


class Leaks:
    def __init__(self, m):
        self.m = m
        self.g = CG(m)
        self.fmts = {}                  # adt -> [(trait, fn key, derived)]
        for i in m.impls:
            t = last((i.get("trait") or "").split("<")[0])
            if t in PRINT:
                for it in i["items"]:
                    if it["key"] in m.fns:
                        self.fmts.setdefault(head(i["T_self"]), []).append((t, it["key"], i.get("derived")))
        self.readers = {}               # adt -> {fn key: node}
        for k, f in m.fns.items():
            def node(x, k=k, f=f):
                if x["k"] == "field" and isinstance(x.get("e"), dict) and isinstance(x["e"].get("t"), int):
                    h = head(m.T(f["crate"], x["e"]["t"]))
                    if h in m.adts:
                        self.readers.setdefault(h, {}).setdefault(k, x)
            walk(f.get("body"), node)
            patterns(self, f.get("params"), k, f)
            patterns(self, f.get("body"), k, f)

    def silent(self, adt, trait="Debug"):
        """The printing functions of the type read no field of it."""
        fs = [x for x in self.fmts.get(adt, []) if x[0] in PRINT]
        if any(d for _, _, d in fs):
            return False
        for _, k, _ in fs:
            r = self.g.reach([k])
            if any(q in r for q in self.readers.get(adt, {})):
                return False
        return bool(fs) or adt in self.m.adts and not fs

    def covered(self, t, wraps, seen=()):
        t = strip(t)
        if t[0] == "adt":
            if t[1] in wraps:
                return True
            if t[1] in self.m.adts:
                if t[1] in seen:
                    return True
                if self.silent(t[1]) and self.fmts.get(t[1]):
                    return True
                vs = self.m.adts[t[1]]["vs"]
                return all(self.covered(x, wraps, seen + (t[1],)) for v in vs for _, x in self.m.fields(t, v["n"]))
            return all(self.covered(x, wraps, seen) for x in t[2])
        if t[0] in ("slice", "array", "ref"):
            return self.covered(t[1], wraps, seen)
        if t[0] == "tuple":
            return all(self.covered(x, wraps, seen) for x in t[1])
        return t[0] == "prim" and t[1] in ("bool", "()")


def patterns(L, q, k, f):
    """Patterns that take a value apart count as reading its fields."""
    st = [q]
    while st:
        x = st.pop()
        if isinstance(x, dict):
            if "p" in x and x.get("p") in ("variant", "leaf", "struct", "adt") and isinstance(x.get("t"), int):
                h = head(L.m.T(f["crate"], x["t"]))
                if h in L.m.adts:
                    L.readers.setdefault(h, {}).setdefault(k, x)
            st.extend(x.values())
        elif isinstance(x, list):
            st.extend(x)


def raw(m, t, seen=()):
    """The type can hold bytes or text of the message."""
    t = strip(t)
    if t[0] == "prim":
        return t[1] == "str"
    if t[0] in ("slice", "array"):
        return strip(t[1]) == ("prim", "u8") or raw(m, t[1], seen)
    if t[0] == "ref":
        return raw(m, t[1], seen)
    if t[0] == "tuple":
        return any(raw(m, x, seen) for x in t[1])
    if t[0] == "adt":
        if last(t[1]) == "Tag":
            return False
        if last(t[1]) in ("String", "Vec") and t[1].startswith("alloc::"):
            return last(t[1]) == "String" or any(strip(x) == ("prim", "u8") or raw(m, x, seen) for x in t[2])
        if t[1] in m.adts and t[1] not in seen:
            return any(raw(m, x, seen + (t[1],)) for v in m.adts[t[1]]["vs"] for _, x in m.fields(t, v["n"]))
        return any(raw(m, x, seen) for x in t[2])
    return False


def check_cfg(ctx, cfg):
    m = model.Model(cfg)
    L = Leaks(m)
    wraps = {k for k in m.adts if last(k) == "Secret"}
    ctx.count("wrappers", len(wraps))
    for w in wraps:
        for t, k, derived in L.fmts.get(w, []):
            ctx.count("printing_functions_of_the_wrapper")
            r = L.g.reach([k])
            hit = [q for q in r if q in L.readers.get(w, {})]
            if hit:
                p, q = [], hit[0]
                while q:
                    p.append(q)
                    q = r[q]
                ctx.violation("%s::%s reads the secret" % (last(w), t), m.fns[k]["sp"], "printing a %s (%s) reads the secret inside" % (last(w), t), path=p[::-1], config=cfg)
        for i in m.impls:
            if head(i["T_self"]) == w and last((i.get("trait") or "").split("<")[0]) in OPEN:
                ctx.violation("%s implements %s" % (last(w), last(i["trait"])), i["sp"], "%s implements %s: the secret is exposed without being declassified" % (last(w), i["trait"]), config=cfg)
        if not any(t == "Debug" for t, _, _ in L.fmts.get(w, [])):
            ctx.note("%s: %s has no Debug" % (cfg, w))
    for adt, vn, fn in HOLDERS:
        for k, a in m.adts.items():
            if last(k) != adt:
                continue
            v = next((v for v in a["vs"] if v["n"] == vn), None)
            fs = [f for f in v["fs"] if fn in (None, f["n"])] if v else []
            if not fs:
                ctx.note("%s: %s::%s.%s not found" % (cfg, adt, vn, fn))
                continue
            for f in fs:
                ctx.count("places_holding_secrets")
                t = m.T(a["crate"], f["t"])
                if not L.covered(t, wraps) and not (L.fmts.get(k) and L.silent(k)):
                    ctx.violation("%s::%s.%s" % (adt, vn, f["n"]), a.get("sp") or k, "%s::%s.%s holds its secret outside the redacting wrapper: it is printed" % (adt, vn, f["n"]), config=cfg)
    un = {}
    for w in wraps:
        for q, n in L.readers.get(w, {}).items():
            i = m.impl_by_key.get(m.fns[q].get("impl") or "")
            if i is not None and i.get("trait"):
                continue                # Clone, Eq, Hash, conversions, serde of the wrapper itself
            un[q] = n
    ctx.count("unwrapping_functions", len(un))
    for adt, fs in L.fmts.items():
        if adt in wraps:
            continue
        for t, k, derived in fs:
            ctx.count("printing_functions")
            r = L.g.reach([k])
            hit = [q for q in r if q in un]
            if hit:
                p, q = [], hit[0]
                while q:
                    p.append(q)
                    q = r[q]
                ctx.violation("%s of %s unwraps" % (t, adt), m.fns[k]["sp"], "printing %s (%s) unwraps a secret" % (adt, t), path=p[::-1], config=cfg)
    for k, sites in L.g.sites.items():
        opens = [n for c, n in sites if c in un]
        if not opens:
            continue
        ctx.count("unwrapping_call_sites", len(opens))
        ids = set(map(id, opens))
        bound = set()
        f = m.fns[k]

        def lets(x):
            if x["k"] == "block":
                for s in x.get("st") or []:
                    if s.get("s") == "let" and holds(s.get("e"), ids, bound):
                        names(s.get("p"), bound)
            if x["k"] == "match" and holds(x.get("e"), ids, bound):
                for a in x.get("arms") or []:
                    names(a.get("p") if isinstance(a, dict) else a, bound)
        for _ in range(3):
            walk(f.get("body"), lets)
        for c, n in sites:
            if c and "::fmt::rt::" in c and "new_" in last(c) and any(holds(x, ids, bound) for x in n.get("a") or []):
                ctx.violation("%s formats a secret" % k, n.get("sp") or f["sp"], "%s unwraps a secret and formats it" % k, config=cfg)
            elif c and last(c).split("<")[0] in ("panic_display", "panic_fmt", "_print", "_eprint") and any(holds(x, ids, bound) for x in n.get("a") or []):
                ctx.violation("%s formats a secret" % k, n.get("sp") or f["sp"], "%s unwraps a secret and prints it" % k, config=cfg)
    errs = [k for k in m.adts if last(k).endswith("DecodeError") and k.startswith("imap_codec::")]
    ctx.count("decoding_error_types", len(errs))
    for e in errs:
        for v in m.adts[e]["vs"]:
            for fl in v["fs"]:
                ctx.count("error_fields")
                t = m.T(m.adts[e]["crate"], fl["t"])
                if raw(m, t) and not L.covered(t, wraps):
                    ctx.violation("%s::%s.%s" % (last(e), v["n"], fl["n"]), m.adts[e].get("sp") or e, "the decoding error %s::%s carries raw input in %s" % (last(e), v["n"], fl["n"]), config=cfg)
    ctx.cov.setdefault("configs", []).append(cfg)


def holds(e, ids, bound):
    hit = []

    def node(x):
        if id(x) in ids or x["k"] == "var" and x.get("v") in bound:
            hit.append(x)
    walk(e, node)
    return bool(hit)


def names(p, bound):
    st = [p]
    while st:
        x = st.pop()
        if isinstance(x, dict):
            if x.get("p") == "bind" and "v" in x:
                bound.add(x["v"])
            st.extend(x.values())
        elif isinstance(x, list):
            st.extend(x)


def check(ctx):
    cfgs = ["R", "Q"] if ctx.quick else ["R", "Q", "S"]
    for c in cfgs:
        check_cfg(ctx, c)
    ctx.floor("wrappers", ctx.cov.get("wrappers", 0), 1)
    ctx.floor("places holding secrets", ctx.cov.get("places_holding_secrets", 0), len(HOLDERS) * len(cfgs))
    ctx.floor("printing functions", ctx.cov.get("printing_functions", 0), 50)
    ctx.assumptions += ["Formatting machinery of the standard library prints only what it is given.",
                        "In builds with debug assertions secrets are printed, by design; release builds are checked."]
    return RULE
