"""Call graph over the type-checked facts."""
import collections

from model import last


def walk(e, f):
    """Calls f on every node (dict with 'k') of an expression tree, parents first."""
    st = [e]
    while st:
        x = st.pop()
        if isinstance(x, dict):
            if "k" in x:
                f(x)
            st.extend(reversed(list(x.values())))
        elif isinstance(x, list):
            st.extend(reversed(x))


class CG:
    def __init__(self, m):
        self.m = m
        self.out = {}
        self.sites = collections.defaultdict(list)      # caller -> [(callee key or external name, node)]
        self.timpl = collections.defaultdict(list)      # (trait last, item) -> local fns
        for i in m.impls:
            t = i.get("trait")
            if t:
                for it in i["items"]:
                    if it["key"] in m.fns:
                        self.timpl[(last(t.split("<")[0]), it["n"])].append((i, it["key"]))
        for k, f in m.fns.items():
            self.out[k] = self.edges(k, f)

    def edges(self, k, f):
        out = set()
        m = self.m

        def ref(node, x):
            r = node.get("r") or x
            key = r.get("key")
            if key in m.fns:
                out.add(key)
                self.sites[k].append((key, node))
                return
            if x.get("key") in m.fns:
                out.add(x["key"])
            self.sites[k].append((key or x.get("name"), node))
            tr = x.get("trait")
            if tr:
                # unresolved or externally implemented: any local implementation of the method whose self type matches
                t = last(tr.split("<")[0])
                args = [m.T(f["crate"], a) if isinstance(a, int) else None for a in (x.get("args") or [])]
                cands = list(self.timpl.get((t, x.get("item")), []))
                if t == "Into":
                    cands = [c for c in self.timpl.get(("From", "from"), []) if len(args) > 1 and same_head(c[0]["T_self"], args[1])]
                elif t == "TryInto":
                    cands = [c for c in self.timpl.get(("TryFrom", "try_from"), []) if len(args) > 1 and same_head(c[0]["T_self"], args[1])]
                elif t == "ToString":
                    cands = [c for c in self.timpl.get(("Display", "fmt"), []) if args and same_head(c[0]["T_self"], args[0])]
                elif args:
                    cands = [c for c in cands if same_head(c[0]["T_self"], args[0])]
                for i, kk in cands:
                    out.add(kk)
            elif "fmt::" in (x.get("key") or "") and x.get("args"):
                for a in x["args"]:
                    if isinstance(a, int):
                        t = m.T(f["crate"], a)
                        for tn in ("Display", "Debug", "UpperHex", "LowerHex"):
                            if ("new_" + tn.lower()) in x["key"]:
                                for i, kk in self.timpl.get((tn, "fmt"), []):
                                    if same_head(i["T_self"], t):
                                        out.add(kk)

        def node(x):
            if x["k"] in ("call", "fn") and isinstance(x.get("f"), dict) and "key" in x["f"]:
                ref(x, x["f"])
            elif x["k"] == "closure" and x.get("d") in m.fns:
                walk(m.fns[x["d"]].get("body"), node)       # closures belong to the function that creates them
        walk(f.get("body"), node)
        return out

    def reach(self, roots):
        seen = {}
        st = [(r, None) for r in roots if r in self.out]
        while st:
            k, p = st.pop()
            if k in seen:
                continue
            seen[k] = p
            st.extend((x, k) for x in self.out[k] if x not in seen)
        return seen


def same_head(a, b):
    from model import strip
    a, b = strip(a), strip(b)
    if a[0] == "param" or b[0] == "param":
        return True
    if a[0] == "adt" and b[0] == "adt":
        return a[1] == b[1]
    return a[0] == b[0] or "other" in (a[0], b[0])
