"""The type-checked program: facts of both crates in one configuration, with interned types and impl lookup."""
import json
import os
import re

import facts

STR_ADTS = ("alloc::string::String",)
BOX = ("alloc::boxed::Box", "alloc::borrow::Cow", "alloc::rc::Rc", "alloc::sync::Arc")
LIST_ADTS = ("alloc::vec::Vec", "alloc::collections::vec_deque::VecDeque")
OPTION = "core::option::Option"
RESULT = "core::result::Result"

U8 = ("prim", "u8")


def strip(t):
    """Removes references and owning pointers."""
    while True:
        if t[0] == "ref":
            t = t[1]
        elif t[0] == "adt" and t[1] in BOX and t[2]:
            t = t[2][0]
        else:
            return t


def is_strlike(t):
    t = strip(t)
    if t == ("prim", "str") or (t[0] == "adt" and t[1] in STR_ADTS):
        return True
    if t[0] in ("slice", "array") and strip(t[1]) == U8:
        return True
    if t[0] == "adt" and t[1] in LIST_ADTS and strip(t[2][0]) == U8:
        return True
    return False


def list_elem(t):
    t = strip(t)
    if t[0] in ("slice", "array"):
        return t[1]
    if t[0] == "adt" and t[1] in LIST_ADTS:
        return t[2][0]
    return None


class Model:
    def __init__(self, cfg):
        self.cfg = cfg
        d = facts.get(cfg)
        self.dir = d
        self.fns = {}
        self.adts = {}
        self.impls = []
        self.raw = {}
        for c in facts.CRATES:
            with open(os.path.join(d, c + ".json")) as f:
                j = json.load(f)
            self.raw[c] = j
        self._t = {}
        for c, j in self.raw.items():
            for fn in j["fns"]:
                fn["crate"] = c
                if fn["key"] in self.fns and self.fns[fn["key"]].get("body") and not fn.get("body"):
                    continue
                self.fns[fn["key"]] = fn
            for a in j["adts"]:
                a["crate"] = c
                self.adts[a["key"]] = a
            for i in j["impls"]:
                i["crate"] = c
                self.impls.append(i)
        self.impl_by_key = {i["key"]: i for i in self.impls}
        self.by_trait = {}
        for i in self.impls:
            if i.get("trait"):
                i["T_self"] = self.T(i["crate"], i["self"])
                i["T_targs"] = tuple(self.targ(i["crate"], x) for x in i.get("targs", [])[1:])
                self.by_trait.setdefault(last(i["trait"]), []).append(i)
            else:
                i["T_self"] = self.T(i["crate"], i["self"])

    def targ(self, crate, x):
        if isinstance(x, dict):
            return ("const", x.get("c"))
        return self.T(crate, x)

    def T(self, crate, i):
        k = (crate, i)
        r = self._t.get(k)
        if r is not None:
            return r
        j = self.raw[crate]["types"][i]
        self._t[k] = ("rec", i)
        kk = j["k"]
        if kk == "adt":
            r = ("adt", j["d"], tuple(self.targ(crate, x) for x in j["a"]))
        elif kk == "ref":
            r = ("ref", self.T(crate, j["e"]))
        elif kk == "slice":
            r = ("slice", self.T(crate, j["e"]))
        elif kk == "array":
            r = ("array", self.T(crate, j["e"]), j.get("len"))
        elif kk == "tuple":
            r = ("tuple", tuple(self.T(crate, x) for x in j["a"]))
        elif kk == "prim":
            r = ("prim", j["s"])
        elif kk == "param":
            r = ("param", j["n"])
        elif kk == "closure":
            r = ("closure", j["d"])
        elif kk == "fndef":
            r = ("fndef", j["f"]["key"])
        else:
            r = ("other", j["s"])
        self._t[k] = r
        return r

    def fields(self, ty, vn=None):
        """[(name, type)] of a local ADT variant, with generic arguments substituted."""
        a = self.adts[ty[1]]
        sub = dict(zip(a["gen"], [x for x in ty[2] if x[0] != "const"]))
        for v in a["vs"]:
            if vn is None or v["n"] == vn:
                return [(f["n"], subst(self.T(a["crate"], f["t"]), sub)) for f in v["fs"]]
        raise KeyError((ty, vn))

    def variants(self, ty):
        if ty[0] == "adt":
            if ty[1] == OPTION:
                return ["None", "Some"]
            if ty[1] == RESULT:
                return ["Ok", "Err"]
            a = self.adts.get(ty[1])
            if a and a["enum"]:
                return [v["n"] for v in a["vs"]]
        return None

    def find_impl_fn(self, trait, item, selfty, targs=None):
        """Local impl method for (trait, item) on selfty (structural unification on the self type)."""
        for i in self.by_trait.get(last(trait), []):
            m = {}
            if unify(i["T_self"], selfty, m) and (targs is None or all(unify(a, b, m) for a, b in zip(i["T_targs"], targs))):
                for it in i["items"]:
                    if it["n"] == item and it["key"] in self.fns:
                        return self.fns[it["key"]], m
        return None, None


def last(name):
    name = re.sub(r"<.*", "", name)
    return name.split("::")[-1]


def subst(t, sub):
    if not sub:
        return t
    k = t[0]
    if k in ("param", "const"):
        return sub.get(t[1], t)
    if k == "adt":
        return ("adt", t[1], tuple(subst(x, sub) for x in t[2]))
    if k in ("ref", "slice"):
        return (k, subst(t[1], sub))
    if k == "array":
        return (k, subst(t[1], sub), t[2])
    if k == "tuple":
        return (k, tuple(subst(x, sub) for x in t[1]))
    return t


def unify(p, t, m):
    """Pattern p (with params) against t."""
    if p[0] == "param":
        if p[1] in m:
            return m[p[1]] == t or t[0] == "param"
        m[p[1]] = t
        return True
    if t[0] == "param":
        return False
    if p[0] != t[0]:
        return False
    if p[0] == "adt":
        return p[1] == t[1] and len(p[2]) == len(t[2]) and all(unify(a, b, m) for a, b in zip(p[2], t[2]))
    if p[0] in ("ref", "slice"):
        return unify(p[1], t[1], m)
    if p[0] == "array":
        return unify(p[1], t[1], m)
    if p[0] == "tuple":
        return len(p[1]) == len(t[1]) and all(unify(a, b, m) for a, b in zip(p[1], t[1]))
    if p[0] == "const":
        if not str(p[1])[:1].isdigit():
            m.setdefault(p[1], t)
        return True
    return p == t


_norm_cache = {}


def norm(f):
    """Short stable name of a foreign callee: Trait::item, Type::method or module::function."""
    k = f["key"], f.get("trait")
    r = _norm_cache.get(k)
    if r is None:
        if f.get("trait"):
            r = last(f["trait"]) + "::" + f["item"]
        else:
            n = f["name"]
            n = re.sub(r"<impl ([^<>]*(?:<[^<>]*>)?[^<>]*)>", lambda m: m.group(1), n)
            p = None
            while p != n:
                p = n
                n = re.sub(r"::<[^<>]*>", "", n)
                n = re.sub(r"<[^<>]*>", "", n)
            r = "::".join(n.split("::")[-2:])
        _norm_cache[k] = r
    return r
