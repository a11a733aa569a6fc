"""P05: recursion of the decoders is bounded by a small constant."""
import anyin
import cg
import model
import nomx
import rt
from c_panic import roots_of
from ev import ALL, Con, Lin, Pos, S, Sym, Tup, Undecided, explore, nom_err, ok
from model import is_strlike, last, strip

LIMIT = 64
RULE = ("Call graph of the type-checked program from every decode() entry point; its strongly connected components are the only recursion. For each "
        "function of a component, abstract interpretation on arbitrary input with a symbolic budget parameter records every call back into the "
        "component and its budget argument relative to the caller's. Required: the argument never exceeds the caller's budget and is never a fresh "
        "constant, every cycle strictly decreases it, every cycle contains a function that makes no recursive call once the budget is zero, and "
        "each entry into the component passes a constant of at most %d." % LIMIT)


def sccs(nodes, out):
    idx, low, st, on, res, n = {}, {}, [], set(), [], [0]
    for root in nodes:
        if root in idx:
            continue
        work = [(root, iter(sorted(x for x in out[root] if x in nodes)))]
        idx[root] = low[root] = n[0]
        n[0] += 1
        st.append(root)
        on.add(root)
        while work:
            v, it = work[-1]
            for w in it:
                if w not in idx:
                    idx[w] = low[w] = n[0]
                    n[0] += 1
                    st.append(w)
                    on.add(w)
                    work.append((w, iter(sorted(x for x in out[w] if x in nodes))))
                    break
                if w in on:
                    low[v] = min(low[v], idx[w])
            else:
                work.pop()
                if work:
                    low[work[-1][0]] = min(low[work[-1][0]], low[v])
                if low[v] == idx[v]:
                    c = []
                    while True:
                        w = st.pop()
                        on.discard(w)
                        c.append(w)
                        if w == v:
                            break
                    if len(c) > 1 or v in out[v]:
                        res.append(c)
    return res


class Rec(anyin.AnyIn):
    """Follows one function; calls into `comp` are recorded, not entered."""

    def __init__(self, m, R):
        anyin.AnyIn.__init__(self, m, R)
        self.comp = set()
        self.calls = []

    def special(self, run, fn, args):
        if fn["key"] not in self.comp or not run.__dict__.get("entered") or self.is_parser(fn) is None:
            return None
        b = None
        have = False
        for i, p in enumerate(fn["params"]):
            if strip(self.m.T(fn["crate"], p["t"])) == ("prim", "usize") and i < len(args):
                have = True
                b = run.d(args[i])
                if isinstance(b, Sym) and b.path == ("$budget",):
                    b = Lin({("$budget",): 1}, 0)
        self.calls.append((fn["key"], have, b, run.frames_sp))
        O = self.is_parser(fn)
        n = nomx.any_next(run)
        if run.choose(("any", "call", n), ["ok", "err"]) == "err" or O is None:
            return nom_err("Error", "no match")
        return ok(Tup([S((("any", nomx.any_next(run)),)), run.mk_sym(("$any", n), O)]))

    def arith(self, run, op, a, b, ty, e):
        if isinstance(a, Sym) and a.path == ("$budget",):
            a = Lin({("$budget",): 1}, 0)
        if isinstance(a, Lin) and dict(a.terms) == {("$budget",): 1} and isinstance(b, int):
            if op in ("Sub", "saturating_sub", "wrapping_sub"):
                return Lin({("$budget",): 1}, a.c - b)
            if op in ("Add", "saturating_add", "wrapping_add"):
                return Lin({("$budget",): 1}, a.c + b)
            if op == "checked_sub":
                from ev import some
                if run.choose(("inteq", ("$budget",), 0), [False, True]):
                    return Con("core::option::Option", "None", {})
                return some(Lin({("$budget",): 1}, a.c - b))
        return anyin.AnyIn.arith(self, run, op, a, b, ty, e)

    def look(self, key, budget=None):
        """(calls, undecided) of one component function."""
        fn = self.m.fns[key]
        self.calls = []
        und = []

        def body(run):
            args = []
            for i, p in enumerate(fn["params"]):
                t = strip(self.m.T(fn["crate"], p["t"]))
                if t == ("prim", "usize"):
                    args.append(Sym(("$budget",), ("prim", "usize")) if budget is None else budget)
                elif is_strlike(t):
                    args.append(S((("any", 0),)))
                else:
                    args.append(run.mk_sym(("$arg", str(i)), t))
            return run.d(run.call_local(fn, args, {}))
        for run, kind, v in explore(self.m, body, opts=self.opts(key), limit=4000):
            if kind == "undecided":
                und.append(str(v))
        return list(self.calls), und


def check_cfg(ctx, cfg):
    m = model.Model(cfg)
    R = rt.RT(m)
    C = cg.CG(m)
    roots = roots_of(m, "Decoder")
    reach = set(C.reach(roots))
    ctx.count("functions_reachable", len(reach))
    ctx.count("entry_points", len(roots))
    A = Rec(m, R)
    for comp in sccs(reach, C.out):
        comp = set(comp)
        names = ", ".join(sorted(last(k) for k in comp))
        ctx.count("recursive_components")
        ctx.cov.setdefault("components", []).append(names)
        A.comp = comp
        edges, guard, bad, unknown = {}, set(), False, False
        comp = {k for k in comp}
        for k in sorted(comp):
            if A.is_parser(m.fns[k]) is None:
                continue        # a function that only builds a parser: followed where it is called
            calls, und = A.look(k)
            if und:
                ctx.note("%s/%s: %s" % (cfg, last(k), und[0]))
            static = {x for x in C.out[k] if x in comp and A.is_parser(m.fns[x]) is not None}
            seen = {c[0] for c in calls}
            if static - seen:
                unknown = True
                ctx.note("%s/%s: calls of %s not followed" % (cfg, last(k), sorted(map(last, static - seen))))
            if any(strip(m.T(m.fns[k]["crate"], p["t"])) == ("prim", "usize") for p in m.fns[k]["params"]):
                c0, u0 = A.look(k, 0)
                if not c0 and not u0:
                    guard.add(k)
            for callee, have, b, sp in calls:
                ctx.count("recursive_calls")
                own = any(strip(m.T(m.fns[k]["crate"], p["t"])) == ("prim", "usize") for p in m.fns[k]["params"])
                if not have:
                    w = 0
                elif isinstance(b, Lin) and dict(b.terms) == {("$budget",): 1}:
                    w = -b.c
                    if w < 0:
                        bad = True
                        ctx.violation("recursion %s: %s raises the budget of %s" % (names, last(k), last(callee)), sp or m.fns[k]["sp"],
                                      "%s calls %s with a larger budget than its own" % (k, callee), config=cfg)
                elif isinstance(b, int):
                    bad = True
                    ctx.violation("recursion %s: %s resets the budget of %s" % (names, last(k), last(callee)), sp or m.fns[k]["sp"],
                                  "%s calls %s with the constant budget %s: the nesting depth is not bounded" % (k, callee, b), config=cfg)
                    w = 0
                else:
                    unknown = True
                    ctx.note("%s/%s: budget of %s: %r" % (cfg, last(k), last(callee), b))
                    continue
                e = edges.setdefault(k, {})
                e[callee] = min(e.get(callee, 99), max(w, 0))
        if bad:
            continue
        # without the guards nothing may recurse (dynamic edges only when all of them are known)
        g = {k: set(edges.get(k, {})) for k in comp}
        rest = {k: {x for x in g[k] if x not in guard} for k in comp if k not in guard}
        c = sccs(set(rest), rest)
        if c:
            ctx.violation("recursion %s: no limit" % names, m.fns[sorted(c[0])[0]]["sp"],
                          "the cycle %s recurses without testing a budget" % sorted(map(last, c[0])), config=cfg)
            continue
        z = {k: {x for x, w in edges.get(k, {}).items() if w == 0} for k in comp}
        c = sccs(comp, z)
        if c:
            ctx.violation("recursion %s: budget not decreased" % names, m.fns[sorted(c[0])[0]]["sp"],
                          "the cycle %s never decreases the budget" % sorted(map(last, c[0])), config=cfg)
            continue
        # entries
        for k in sorted(reach - comp):
            if not any(x in comp for x in C.out[k]):
                continue
            if A.is_parser(m.fns[k]) is None and k not in roots:
                continue
            calls, und = A.look(k)
            for callee, have, b, sp in calls:
                ctx.count("entries")
                if isinstance(b, int) and b > LIMIT:
                    ctx.violation("recursion %s: entered with budget %d" % (names, b), sp or m.fns[k]["sp"],
                                  "%s allows %d levels of nesting" % (k, b), config=cfg)
                elif not isinstance(b, int):
                    ctx.note("%s/%s enters with %r" % (cfg, last(k), b))


def check(ctx):
    from report import parallel
    cfgs = ["E", "N"] if ctx.quick else ["D", "E", "N", "A"]
    parallel(ctx, [(check_cfg, (c,)) for c in cfgs])
    ctx.floor("decode entry points", ctx.cov.get("entry_points", 0), 5 * len(cfgs))
    ctx.floor("functions reachable from decode", ctx.cov.get("functions_reachable", 0), 100 * len(cfgs))
    ctx.assumptions += ["Recursion inside nom, chrono, base64 and the standard library does not depend on the nesting of the input."]
    return RULE
