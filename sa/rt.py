"""Encoder/decoder agreement: every message the encoder can write is read back, exactly, by the decoder."""
import os
import sys
import time

import nomx
import stdx
from ev import (ALL, Buf, Ch, Con, DIGITS, Iter, Lin, ListV, PanicE, Pos, Run, S, Sym, Top, Tup, Undecided, explore, is_ok, lit, mask_of, ok,
                show_part, show_path)
from model import LIST_ADTS, OPTION, RESULT, is_strlike, last, list_elem, strip

B64 = mask_of(b"ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/")
ROOT = ("$",)
TRACE = bool(os.environ.get("SA_TRACE"))


HIGH = ALL & ~((1 << 128) - 1)
# Text types without a validating constructor: the values considered are the ones their documentation describes
# (bytes allowed, bytes of which at least one occurs).
DOMAIN = {"QuotedUtf8": (ALL & ~mask_of(b"\0\r\n"), HIGH),
          "CodeOther": (ALL & ~mask_of(b"]\r\n"), 0)}


def rebase(x, path):
    if isinstance(x, tuple):
        if x and x[0] == "$":
            return path + x[1:]
        return tuple(rebase(y, path) for y in x)
    return x


def rebase_parts(parts, path):
    return tuple(rebase(p, path) if p[0] not in ("lit",) else p for p in parts)


def byte_cmp(k, v):
    """Bytes for which the comparison assumption k has the outcome v."""
    a, b = k[-2], k[-1]
    f = {"Lt": lambda x, y: x < y, "Le": lambda x, y: x <= y, "Gt": lambda x, y: x > y, "Ge": lambda x, y: x >= y, "Eq": lambda x, y: x == y,
         "Ne": lambda x, y: x != y}["Eq" if k[0] == "inteq" else k[1]]
    return mask_of([x for x in range(256) if f(x if isinstance(a, tuple) else a, x if isinstance(b, tuple) else b) == v])


class Exhausted(Exception):
    """The time budget of a codec is used up."""


class Langs:
    """Character classes of the validated string types, derived from their own constructors."""

    def __init__(self, m):
        self.m = m
        self.cache = {}
        self.why = {}

    def __call__(self, run, p):
        owner = p[2] if len(p) > 2 else None
        path = p[1]
        if owner == ("b64",):
            return B64, 1
        if isinstance(owner, tuple) and owner and owner[0] == "char":
            return owner[1], 1
        if isinstance(owner, tuple) and owner and owner[0] == "mask":
            return owner[1], owner[2]
        if isinstance(owner, tuple) and last(owner[0]) in DOMAIN and owner[0].startswith("imap_types"):
            m, must = DOMAIN[last(owner[0])]
            if must:
                run.assume.setdefault(("has", path, must), True)
            return m, 1
        if owner is None or not isinstance(owner, tuple):
            m, mn = ALL, 0
        else:
            r = self.of(owner)
            if r is None:
                raise Undecided("unknown character class of %s" % (owner,))
            m, mn = r
        if any(str(x) in ("#lower", "#upper") for x in path[-1:]):
            m = nomx.fold_mask(m)
            path = path[:-1]
        if run.assume.get(path + ("#empty",)) is False:
            mn = max(mn, 1)
        elif run.assume.get(path + ("#empty",)) is True:
            return 0, 0
        # bytes excluded on this path by the program's own tests
        for k, v in run.assume.items():
            if not isinstance(k, tuple):
                continue
            if k and k[0] == "has" and k[1] == path and v is False:
                m &= ~k[2]
            if k and k[0] == "contains" and k[1] == path and v is False and len(k[2]) == 1:
                m &= ~(1 << k[2][0])
        return m, mn

    def char(self, run, v):
        """Characters a char-based newtype accepts, derived from its TryFrom<char>."""
        key = ("char", v.ty, v.path[-1])
        if key in self.cache:
            return self.cache[key]
        best = None
        for i in self.m.by_trait.get("TryFrom", []):
            if i["T_targs"] and i["T_targs"][0] == ("prim", "char") and i["T_self"][0] == "adt":
                for it in i["items"]:
                    if it["n"] == "try_from":
                        mk = 0
                        for b in range(128):
                            r = Run(self.m)
                            if is_ok(r.d(r.call_local(self.m.fns[it["key"]], [Ch(b)], {}))):
                                mk |= 1 << b
                        best = mk if best is None else best | mk
        self.cache[key] = best if best is not None else ALL
        return self.cache[key]

    def of(self, owner):
        if owner in self.cache:
            return self.cache[owner]
        self.cache[owner] = None
        r = self.derive(owner)
        self.cache[owner] = r
        return r

    def derive(self, owner):
        key, vn, field = owner
        a = self.m.adts.get(key)
        if a is None:
            return ALL, 0
        for v in a["vs"]:
            if vn is None or v["n"] == vn:
                for f in v["fs"]:
                    if f["n"] == field and f["pub"] and (a["enum"] or True):
                        return ALL, 0
        got = []
        for i in self.m.by_trait.get("TryFrom", []):
            t = i["T_self"]
            if t[0] == "adt" and t[1] == key and i["T_targs"] and is_strlike(i["T_targs"][0]):
                for it in i["items"]:
                    if it["n"] == "try_from":
                        r = self.accepts(self.m.fns[it["key"]])
                        if r is not None:
                            got.append((r, it["key"]))
        if not got:
            self.why[owner] = "no constructor from text"
            return None if any(i["T_self"][0] == "adt" and i["T_self"][1] == key for i in self.m.by_trait.get("TryFrom", [])) else (ALL, 0)
        m = 0
        mn = 99
        for (mm, n), k in got:
            m |= mm
            mn = min(mn, n)
        return m, mn

    def accepts(self, fn):
        """Language (over-approximation) of the strings a TryFrom accepts: union over its Ok paths."""
        m, mn = 0, 99
        path = ("$", "in")

        def body(run):
            return run.call_local(fn, [S((("raw", path, None),))], {})
        n = 0
        for run, kind, v in explore(self.m, body, opts={"lang": lambda r, p: Langs.__call__(self, r, p), "no_assume_differs": True, "byteloop": True}, limit=300):
            if kind == "undecided":
                return None
            if kind != "ok" or not is_ok(run.d(v)):
                continue
            n += 1
            if run.assume.get(path + ("#empty",)) is True:
                mn = 0
                continue
            pm = ALL
            first = rest = 0
            for k, x in run.assume.items():
                if k and k[0] in ("cmp", "inteq") and any(y == path + ("[byte]",) for y in k):
                    pm &= byte_cmp(k, x)
                if k and k[0] == "has" and k[1] == path + (("#first",),) and x is False:
                    first = k[2]
                if k and k[0] == "has" and k[1] == path + (("#rest",),) and x is False:
                    rest = k[2]
                if k and k[0] == "has" and k[1] == path and x is False:
                    pm &= ~k[2]
                if k and k[0] == "contains" and k[1] == path and x is False and len(k[2]) == 1:
                    pm &= ~(1 << k[2][0])
            m |= pm & ~(first & rest)
            if run.assume.get(path + ("#empty",)) is False:
                mn = min(mn, 1)
            else:
                mn = 0
        if n == 0:
            return 0, 1
        return m, mn


class RT:
    def __init__(self, m):
        self.m = m
        self.langs = Langs(m)
        self.tcache = {}
        self.fcache = {}
        self.acache = {}
        self.icache = {}
        self.memo = {}
        self.progress = []
        self.created = []
        self.stats = {"templates": 0, "obligations": 0, "cases": 0, "functions": set()}
        self.tundec = {}
        self.passing = {}
        self.budget = 480
        self.deadline = time.time() + 480
        self.sink_adt = self.find_sink()
        self.fails = {}
        self.gaps = {}

    def find_sink(self):
        """The encoder's output context: the local type that implements io::Write."""
        for i in self.m.by_trait.get("Write", []):
            if i["T_self"][0] == "adt" and i["T_self"][1].startswith("imap_codec"):
                return i["T_self"]
        return None

    # ---------------------------------------------------------------- encoder templates
    def is_sink(self, run, v):
        v = run.d(v)
        return (isinstance(v, Con) and self.sink_adt and v.adt == self.sink_adt[1]) or isinstance(v, stdx.Fmt)

    def enc_hook(self, root):
        state = {"root": True}

        def hook(run, fn, args, tsub):
            self.stats["functions"].add(fn["key"])
            r = self.common_hook(run, fn, args)
            if r is not None:
                return r
            if fn["key"] == root and run.__dict__.get("at_root", True):
                run.at_root = False
                return None
            if self.m.impl_by_key.get(fn.get("impl") or "", {}).get("trait") and len(args) == 2 and self.is_sink(run, args[1]):
                v = run.d(args[0])
                if isinstance(v, Sym) and v.ty[0] == "adt" and v.ty[1] in self.m.adts:
                    return stdx.write_to(run, args[1], S((("tok", v.path, v.ty, fn["key"]),)))
            return None
        return hook

    def common_hook(self, run, fn, args):
        nm = fn["key"].split("::")[-1]
        if nm == "escape_quoted" and args:
            s = stdx.sparts(run, args[0])
            if s.conc() is None:
                if len(s.parts) == 1 and s.parts[0][0] == "raw":
                    p = s.parts[0]
                    return S((("esc", p[1], p[2]),))
                raise Undecided("escape_quoted of %r" % s)
        if nm == "unescape_quoted" and args:
            s = stdx.sparts(run, args[0])
            if s.conc() is None:
                out = []
                for p in s.parts:
                    if p[0] == "esc":
                        out.append(("raw", p[1], p[2]))
                    elif p[0] == "raw" and not (self.langs(run, p)[0] & mask_of(b'\\')):
                        out.append(p)
                    else:
                        raise Undecided("unescape_quoted of %r" % s)
                return S(out)
        if nm == "normalize" and args:
            run.note("sequence sets are compared up to normalisation")
            return Tup([])
        return None

    def opts(self, **kw):
        o = {"lang": self.langs, "budget": True, "charlang": self.langs.char, "invariants": self.inv_of}
        o.update(kw)
        return o

    def templates(self, ty, fnkey):
        k = (ty, fnkey)
        if k in self.tcache:
            return self.tcache[k]
        fn = self.m.fns[fnkey]
        out = []
        und = []

        def body(run):
            is_fmt = last(fn["key"]) == "fmt"
            sink = stdx.Fmt(run) if is_fmt else stdx.default(run, self.sink_adt)
            r = run.d(run.call_local(fn, [run.mk_sym(ROOT, ty), sink], self.tsub(fn, ty)))
            if run.open:
                raise Undecided("loop left early")
            if not is_ok(r):
                raise Undecided("encoder returns %r" % (r,))
            return sink
        for run, kind, v in explore(self.m, body, opts=self.opts(hook=self.enc_hook(fnkey)), limit=6000):
            if kind == "ok":
                try:
                    parts = self.sink_parts(run, v)
                    out.append((dict(run.assume), rotate(S(parts).parts), frozenset(run.notes)))
                    continue
                except Undecided as u:
                    v = u
            und.append((dict(run.assume), v))
            if getattr(v, "fatal", False):
                out = []        # an unbounded walk: nothing said about this encoder
        self.tcache[k] = out
        self.stats["templates"] += len(out)
        if und:
            self.tundec[k] = und
        return out

    def inv_of(self, ty):
        if ty not in self.icache:
            self.icache[ty] = None
            self.icache[ty] = self.invariants(ty)
        return self.icache[ty]

    def invariants(self, ty):
        """Facts every value of a struct with private fields satisfies: the success cases of its checking constructor."""
        a = self.m.adts.get(ty[1]) if ty[0] == "adt" else None
        if a is None or a["enum"] or any(f["pub"] for f in a["vs"][0]["fs"]) or len(a["vs"][0]["fs"]) < 2:
            return None
        names = [f["n"] for f in a["vs"][0]["fs"]]
        for k, f in self.m.fns.items():
            i = self.m.impl_by_key.get(f.get("impl") or "")
            if not i or i.get("trait") or i["T_self"][:2] != ty[:2] or f.get("out") is None:
                continue
            o = self.m.T(f["crate"], f["out"])
            if o[0] != "adt" or o[1] != RESULT or o[2][0][:2] != ty[:2]:
                continue
            ps = [p["p"].get("n") for p in f["params"] if p.get("p")]
            if ps != names:
                continue
            ft = dict(self.m.fields(ty, None))
            res = []
            ts = {}
            for p, n in zip(f["params"], names):
                t = strip(self.m.T(f["crate"], p["t"]))
                if t[0] == "param":
                    ts[t[1]] = ft[n]

            def body(run):
                return run.call_local(f, [run.mk_sym(ROOT + (n,), ft[n]) for n in names], ts)
            for run, kind, v in explore(self.m, body, opts=self.opts()):
                if kind == "undecided":
                    return None
                if kind == "ok" and is_ok(run.d(v)):
                    res.append(dict(run.assume))
            return res or None
        return None

    def tsub(self, fn, ty):
        i = self.m.impl_by_key.get(fn.get("impl") or "")
        if i is None:
            return {}
        from model import unify
        mm = {}
        unify(i["T_self"], ty, mm)
        return mm

    def sink_parts(self, run, sink):
        sink = run.d(sink)
        if isinstance(sink, stdx.Fmt):
            return sink.buf.parts
        # flatten through the program's own accessor
        for f in self.m.fns.values():
            if f.get("impl") and last(f["key"]) == "into_items":
                i = self.m.impl_by_key.get(f["impl"])
                if i and i["T_self"] == self.sink_adt:
                    run.opts = dict(run.opts, assume_nonempty=True)
                    items = run.d(run.call_local(f, [sink], {}))
                    return self.flatten(run, items)
        raise Undecided("no accessor of the output fragments")

    def flatten(self, run, items):
        out = []
        items = stdx.unwrap_list(run, items)
        for it in items.items:
            if it[0] != "one":
                raise Undecided("fragments in a loop")
            fr = run.d(it[1])
            if not isinstance(fr, Con):
                raise Undecided("fragment")
            data = run.d(fr.f["data"])
            parts = S(data.parts).parts
            if fr.vn == "Literal":
                mode = run.d(fr.f["mode"])
                out.append(("frag", "lit<", mode.path if isinstance(mode, Sym) else getattr(mode, "vn", None)))
                out.extend(parts)
                out.append(("frag", "lit>"))
            else:
                out.extend(parts)
        return out

    # ---------------------------------------------------------------- expansion
    def consistent(self, run, assume, path):
        for k, v in assume.items():
            k2 = rebase(k, path)
            if k2 in run.assume and run.assume[k2] != v:
                return False
        return True

    def expand(self, run, p):
        _, path, ty, fnkey = p[:4]
        ts = self.templates(ty, fnkey)
        if (ty, fnkey) in self.tundec and not ts:
            raise Undecided("encoder of %s: %s" % (ty[1], self.tundec[(ty, fnkey)][0][1]))
        key = ("tok", path, fnkey)
        if key not in run.assume:
            out = run.__dict__.get("ruled_out", {}).get((path, fnkey), ())
            opts = [i for i, t in enumerate(ts) if i not in out and self.consistent(run, t[0], path)]
            if not opts:
                raise Undecided("no encoder case is consistent")
            run.choose(key, opts)
        t = ts[run.assume[key]]
        for k, v in t[0].items():
            run.assume.setdefault(rebase(k, path), v)
        run.notes |= t[2]
        return rebase_parts(t[1], path)

    def expanded(self, run, p):
        return ("tok", p[1], p[3]) in run.assume

    # ---------------------------------------------------------------- first sets
    def first(self, parts):
        """(mask of possible first bytes, may be empty)"""
        m = 0
        dummy = Run(self.m, opts=self.opts())
        for p in parts:
            if p[0] == "lit":
                return m | 1 << p[1][0], False
            if p[0] == "frag":
                continue
            if p[0] == "eof":
                return m, True
            if p[0] == "follow":
                return m | p[1], p[2]
            if p[0] == "cut":
                return m | p[2], False
            if p[0] in ("num", "fixnum"):
                return m | DIGITS, False
            if p[0] in ("raw", "esc"):
                mm, mn = self.langs(dummy, p)
                m |= mm | (1 << 92 if p[0] == "esc" else 0)
                if mn:
                    return m, False
                continue
            if p[0] == "rep":
                m |= self.first(p[2])[0]
                continue
            if p[0] == "tok":
                k = (p[2], p[3])
                if k not in self.fcache:
                    self.fcache[k] = (0, False)
                    a, e = 0, False
                    ts = self.templates(p[2], p[3])
                    if (p[2], p[3]) in self.tundec:
                        a, e = ALL, True
                    for t in ts:
                        x, y = self.first(t[1])
                        a |= x
                        e = e or y
                    self.fcache[k] = (a, e)
                a, e = self.fcache[k]
                m |= a
                if not e:
                    return m, False
                continue
            return ALL, False
        return m, True

    def alpha(self, parts):
        """Bytes that can occur in the text of the parts."""
        m = 0
        dummy = Run(self.m, opts=self.opts())
        for p in parts:
            if p[0] == "lit":
                m |= mask_of(p[1])
            elif p[0] in ("num", "fixnum"):
                m |= DIGITS
            elif p[0] in ("raw", "esc"):
                m |= self.langs(dummy, p)[0] | (1 << 92 if p[0] == "esc" else 0)
            elif p[0] == "rep":
                m |= self.alpha(p[2])
            elif p[0] == "tok":
                k = (p[2], p[3])
                if k not in self.acache:
                    self.acache[k] = 0
                    a = 0
                    ts = self.templates(p[2], p[3])
                    if (p[2], p[3]) in self.tundec:
                        a = ALL
                    for t in ts:
                        a |= self.alpha(t[1])
                    self.acache[k] = a
                m |= self.acache[k]
            elif p[0] != "frag":
                return ALL
        return m

    # ---------------------------------------------------------------- parsing
    def out_type(self, fn):
        """O of a parser fn(&[u8], ..) -> Result<(&[u8], O), _>."""
        if fn.get("out") is None:
            return None
        t = self.m.T(fn["crate"], fn["out"])
        if t[0] == "adt" and t[1] == RESULT and t[2] and t[2][0][0] == "tuple" and len(t[2][0][1]) == 2 and is_strlike(t[2][0][1][0]):
            return strip(t[2][0][1][1])
        return None

    def parse_hook(self, run, fn, args, tsub):
        self.stats["functions"].add(fn["key"])
        r = self.common_hook(run, fn, args)
        if r is not None:
            return r
        if last(fn["key"]) == "validate":
            v = run.d(args[0])
            if isinstance(v, Con) and v.adt == "chrono":
                # a pure function of the value; the decoded value is compared with the (valid) original below
                return ok(Tup([]))
        O = self.out_type(fn)
        if O is None or not args:
            return None
        for i, p in enumerate(fn["params"]):
            if i < len(args) and isinstance(run.d(args[i]), int) and self.m.T(fn["crate"], p["t"]) == ("prim", "usize"):
                args[i] = Pos()
        s = run.d(args[0])
        if not isinstance(s, S):
            return None
        parts = list(s.parts)
        while parts and parts[0][0] == "frag":
            parts.pop(0)
        if not parts or parts[0][0] != "tok":
            return None
        p = parts[0]
        if strip(p[2]) != O or self.expanded(run, p):
            return None
        if p[1] == ROOT and run.__dict__.get("at_root"):
            run.at_root = False
            return None
        try:
            fm, fe = self.first(parts[1:])
        except Undecided:
            return None
        key = (p[2], p[3], fn["key"], tuple(repr(run.d(a)) for a in args[1:]), fm, fe)
        if self.prove(key, args[1:]):
            return ok(Tup([S(parts[1:]), run.mk_sym(p[1], p[2])]))
        bad = self.bad_cases(key)
        if bad is not None:
            ts = self.templates(p[2], p[3])
            out = run.__dict__.setdefault("ruled_out", {}).setdefault((p[1], p[3]), set())
            live = [i for i, t in enumerate(ts) if i not in out and self.consistent(run, t[0], p[1])]
            opts = [i for i in live if i in bad]
            if len(opts) < len(live):
                opts.insert(0, "good")
            if not opts:
                return None
            c = run.choose(("tokcls", p[1], p[3], fn["key"]), opts)
            if c == "good":
                out |= bad
                return ok(Tup([S(parts[1:]), run.mk_sym(p[1], p[2])]))
            run.assume[("tok", p[1], p[3])] = c
        st = run.__dict__.setdefault("inline", [])
        if (p[2], fn["key"]) in st:
            run.note("nested %s assumed" % last(p[2][1]))
            return ok(Tup([S(parts[1:]), run.mk_sym(p[1], p[2])]))
        st.append((p[2], fn["key"]))
        return None

    def bad_cases(self, key):
        """Encoder cases of a failed obligation in which it fails (None: not attributable to cases)."""
        fails = self.memo[key][1] if key in self.memo else []
        bad = set()
        for f in fails:
            i = f[3].assume.get(("tok", ROOT, key[1]))
            if i is None and f[0] == "undecided":
                continue
            if i is None:
                return None
            bad.add(i)
        return bad or None

    def popts(self):
        return self.opts(hook=self.parse_hook, expand=self.expand, expanded=self.expanded, first=self.first, alpha=self.alpha)

    def prove(self, key, rest_args):
        if key in self.memo:
            return self.memo[key][0]
        if key in self.progress:
            return True
        self.progress.append(key)
        mark = len(self.created)
        ty, enc, fnkey, _, fm, fe = key
        fn = self.m.fns[fnkey]
        self.stats["obligations"] += 1
        follow = ("follow", fm, fe)
        fails = []
        passing = self.passing[key] = set()

        def body(run):
            run.at_root = True
            r = run.call_local(fn, [S((("tok", ROOT, ty, enc), follow))] + list(rest_args), {})
            return r
        for run, kind, v in explore(self.m, body, opts=self.popts(), limit=3000):
            self.stats["cases"] += 1
            if time.time() > self.deadline:
                raise Exhausted()
            f = self.judge(run, kind, v, S((follow,)), ROOT, ty)
            if f is None:
                passing.add(run.assume.get(("tok", ROOT, enc)))
            else:
                fails.append(f)
                if len(fails) >= 400:
                    break
        self.progress.pop()
        good = not fails
        if TRACE:
            sys.stderr.write("%*s%s %s ncases=%d fails=%d t=%.1f %s\n" % (len(self.progress), "", last(ty[1]), last(fnkey), self.stats["cases"], len(fails), time.time() % 1000, [f[:3] for f in fails[:1]]))
        if not good:
            for k in self.created[mark:]:
                self.memo.pop(k, None)
            del self.created[mark:]
        if fails and all(f[0] == "undecided" for f in fails):
            self.gaps[key] = fails
            good = True
        self.memo[key] = (good, fails)
        if good:
            self.created.append(key)
        return good

    def root_parts(self, codec, ek):
        """(message type, what encode() writes for a symbolic message)."""
        efn = self.m.fns[ek]
        imp = self.m.impl_by_key[efn["impl"]]
        mty = None
        for it in imp["items"]:
            if it.get("ty") is not None:
                mty = strip(self.m.T(imp["crate"], it["ty"]))
        if mty is None:
            raise Undecided("message type of %s" % codec[1])
        a = self.m.adts[codec[1]]
        cv = Con(codec[1], a["vs"][0]["n"], {}, codec)
        res = []

        def body(run):
            run.at_root = False
            run.opts = dict(run.opts, assume_nonempty=True)
            enc = run.d(run.call_local(efn, [cv, run.mk_sym(ROOT, mty)], {}))
            return self.flatten(run, enc)
        for run, kind, v in explore(self.m, body, opts=self.opts(hook=self.enc_hook(None))):
            if kind != "ok":
                raise v
            res.append(S(v).parts)
        if len(res) != 1:
            raise Undecided("encode() of %s has several shapes" % codec[1])
        return mty, res[0]

    def root(self, codec, ek, dk, rest=("eof",)):
        """Decides one codec: decode(encode(m)) == m with nothing left, for every m."""
        dfn = self.m.fns[dk]
        a = self.m.adts[codec[1]]
        cv = Con(codec[1], a["vs"][0]["n"], {}, codec)
        mty, parts = self.root_parts(codec, ek)

        def body(run):
            return run.call_local(dfn, [cv, S(parts + (rest,))], {})
        fails, n = [], 0
        self.deadline = time.time() + self.budget
        try:
            n = self.root_cases(body, rest, mty, fails)
        except Exhausted:
            del self.progress[:]
            fails += self.standalone()
            if not fails:
                raise Undecided("time budget exceeded")
        return fails, n

    def standalone(self):
        """When the time budget is used up before the failures of single parts are followed to the whole message: the parts
        without a sibling parser that could make up for it which fail on their own."""
        out = []
        for key, (good, fails) in self.memo.items():
            for f in fails:
                t = f[3].assume.get(("tok", ROOT, key[1]))
                if good or f[0] in ("undecided", "beyond") or t is None or self.recursive(key[0]) or last(key[0][1]) in ("Command", "Response", "Greeting"):
                    continue
                if t in self.passing.get(key, ()) or len(self.templates(key[0], key[1])) == 1:
                    out.append((f[0], "%s read by %s: %s" % (last(key[0][1]), last(key[2]), f[1]), [last(key[0][1])] + list(f[2]), f[3]))
        return out

    def recursive(self, ty):
        seen, todo, first = set(), [strip(ty)], True
        while todo:
            t = strip(todo.pop())
            if not first and t[:2] == strip(ty)[:2]:
                return True
            first = False
            todo += [x for y in t[1:] if isinstance(y, tuple) for x in ((y,) if y and isinstance(y[0], str) else y) if isinstance(x, tuple)]
            a = self.m.adts.get(t[1]) if t[0] == "adt" else None
            if a is not None and t not in seen:
                seen.add(t)
                for v in a["vs"]:
                    todo += [ft for _, ft in self.m.fields(t, v["n"])]
        return False

    def root_cases(self, body, rest, mty, fails):
        n = 0
        for run, kind, v in explore(self.m, body, opts=self.popts(), limit=20000):
            n += 1
            if time.time() > self.deadline:
                raise Exhausted()
            if TRACE:
                sys.stderr.write("root case %d %s %s %s\n" % (n, kind, str(v)[:80], describe(run)[:4]))
            f = self.judge(run, kind, v, S((rest,)), ROOT, mty)
            if f is not None:
                fails.append(f)
                if len(fails) >= 600:
                    break
        return n

    def judge(self, run, kind, v, rest, path, ty):
        """None if the outcome is an exact read-back, else (class, reason, assumptions)."""
        desc = describe(run)
        if kind == "undecided":
            if isinstance(v, nomx.Beyond):
                return ("beyond", str(v) + ((" at " + v.sp) if v.sp else ""), desc, run)
            if isinstance(v, nomx.Split):
                return ("mismatch", str(v) + ((" at " + v.sp) if v.sp else ""), desc, run)
            return ("undecided", str(v) + ((" at " + v.sp) if v.sp else ""), desc, run)
        if kind == "panic":
            return ("panic", str(v.why) + " at " + str(v.sp), desc, run)
        try:
            v = run.d(v)
            if not isinstance(v, Con):
                return ("undecided", "result %r" % (v,), desc, run)
            if v.vn != "Ok":
                e = run.d(v.f["0"])
                return ("mismatch", "not accepted: %s" % err_text(e), desc, run)
            t = run.d(v.f["0"])
            r, val = stdx.sparts(run, t.items[0]), run.d(t.items[1])
            if not nomx.norm_eq(run, r, rest):
                return ("mismatch", "not consumed exactly: left %r" % (S(r.parts[:5]),), desc, run)
            why = self.same(run, val, path, ty)
            if why is not None:
                return ("mismatch", "different value: " + why, desc, run)
        except Undecided as u:
            return ("undecided", str(u), desc, run)
        return None

    # ---------------------------------------------------------------- equality with the symbolic original
    def same(self, run, v, path, ty):
        v = run.d(v)
        ty = strip(ty)
        if isinstance(v, Sym):
            if v.path == path:
                return None
            return "%s instead of %s" % (show_path(v.path), show_path(path))
        if isinstance(v, (S, Buf)):
            s = S(v.parts)
            if is_strlike(ty):
                if len(s.parts) == 1 and s.parts[0][0] in ("raw",) and s.parts[0][1] == path:
                    return None
                if not s.parts and run.assume.get(path + ("#empty",)) is True:
                    return None
                if self.text_eq(run, s, path):
                    return None
            return "%r instead of %s" % (s, show_path(path))
        if isinstance(v, bool):
            return None if run.assume.get(path) is v else "%s instead of %s" % (v, show_path(path))
        if isinstance(v, int):
            if run.assume.get(path) == v and not isinstance(run.assume.get(path), bool) or run.assume.get(("inteq", path, v)) is True:
                return None
            return "%s instead of %s" % (v, show_path(path))
        if isinstance(v, Ch):
            if run.assume.get(("inteq", path, v.c)) is True:
                return None
            return "%r instead of %s" % (v, show_path(path))
        if isinstance(v, Tup):
            ts = ty[1] if ty[0] == "tuple" else [("other", "?")] * len(v.items)
            for i, x in enumerate(v.items):
                w = self.same(run, x, path + (str(i),), ts[i])
                if w:
                    return w
            return None
        if isinstance(v, Con):
            if v.adt == "chrono":
                return self.same_chrono(run, v, path)
            vs = self.m.variants(ty)
            if vs is not None:
                a = run.assume.get(path)
                if a is None:
                    return "undetermined variant of %s read as %s" % (show_path(path), v.vn)
                if a != v.vn:
                    return "%s instead of %s" % (v.vn, a)
            if ty[0] == "adt" and ty[1] == OPTION:
                if v.vn == "None":
                    return None
                return self.same(run, v.f["0"], path + ("Some", "0"), ty[2][0])
            if ty[0] != "adt" or ty[1] not in self.m.adts:
                return "unexpected %r for %s" % (v, show_path(path))
            if v.adt != ty[1]:
                return "%s instead of %s" % (v.adt, ty[1])
            for n, ft in self.m.fields(ty, v.vn if vs is not None else None):
                p2 = path + ((v.vn, n) if vs is not None else (n,))
                if n not in v.f:
                    return "field %s missing" % n
                w = self.same(run, v.f[n], p2, ft)
                if w:
                    return w
            return None
        if isinstance(v, ListV):
            return self.same_list(run, v, path, ty)
        return "unknown value %r" % (v,)

    def text_eq(self, run, s, path):
        return False

    def same_list(self, run, v, path, ty):
        e = list_elem(ty)
        if e is None:
            return "list for %r" % (ty,)
        it = v.items
        if not it:
            return None if run.assume.get(path + ("#empty",)) is True else "an empty list instead of %s" % show_path(path)
        if it[0][0] == "one":
            w = self.same(run, it[0][1], path + ("[first]",), e)
            if w:
                return w
            if len(it) == 1:
                return None if run.assume.get(path + ("#one",)) is True or run.assume.get(("rep", path, 0)) is False else "a one-element list instead of %s" % show_path(path)
            if len(it) == 2 and it[1][0] == "tail" and it[1][1] == path:
                return self.same(run, it[1][2], path + ("[elem]",), e)
            # unrolled elements
            if len(it) >= 2 and it[1][0] == "one":
                for x in it[1:]:
                    if x[0] == "one":
                        w = self.same(run, x[1], path + ("[elem]",), e)
                        if w:
                            return w
                    elif x[1] == path:
                        w = self.same(run, x[2], path + ("[elem]",), e)
                        if w:
                            return w
                return None
        return "list %r instead of %s" % (v, show_path(path))

    def same_chrono(self, run, v, path):
        if v.vn == "date":
            for n in ("year", "month", "day"):
                w = self.same_num(run, v.f[n], path + (n,))
                if w:
                    return w
            return None
        if v.vn == "zoned":
            loc = run.d(v.f["local"])
            w = self.same_chrono(run, run.d(loc.f["date"]), path)
            if w:
                return w
            t = run.d(loc.f["time"])
            for n in ("hour", "minute", "second"):
                w = self.same_num(run, t.f[n], path + (n,))
                if w:
                    return w
            o = run.d(v.f["offset"])
            if run.assume.get(path + ("offset", "sign")) != o.f["sign"]:
                return "time zone sign"
            x = run.d(o.f["secs"])
            if isinstance(x, Lin) and not x.c and dict(x.terms) == {path + ("offset", "hh"): 3600, path + ("offset", "mm"): 60}:
                return None
            return self.same_num(run, x, path + ("offset", "secs"))
        return "date value %r" % (v,)

    def same_num(self, run, v, path):
        v = run.d(v)
        if isinstance(v, Sym) and v.path == path:
            return None
        if isinstance(v, int) and run.assume.get(path) == v:
            return None
        return "%r instead of %s" % (v, show_path(path))


def roots(m):
    """(codec, encode fn, decode fn, message type) of every codec."""
    out = []
    enc = {}
    for i in m.by_trait.get("Encoder", []):
        for it in i["items"]:
            if it["n"] == "encode":
                enc[i["T_self"]] = it["key"]
    for i in m.by_trait.get("Decoder", []):
        for it in i["items"]:
            if it["n"] == "decode":
                out.append((i["T_self"], enc.get(i["T_self"]), it["key"]))
    return out


def err_text(e):
    if isinstance(e, Con):
        x = e.f.get("0")
        return e.vn + (": " + x.why if isinstance(x, Top) else "")
    return repr(e)


def describe(run):
    """The case: variants chosen, in short form."""
    out = []
    for k, v in run.assume.items():
        if k and k[0] == "$" and isinstance(v, str):
            out.append("%s=%s" % (show_path(k), v))
        elif k and k[-1] in ("#empty", "#one") and k[0] == "$":
            out.append("%s=%s" % (show_path(k), v))
        elif k and k[0] in ("inteq", "cmp", "starts", "fits", "has", "nonzero", "rep"):
            out.append("%s=%s" % (k[0] + ":" + ",".join(show_path(x) if isinstance(x, tuple) and all(isinstance(y, str) for y in x) else str(x)[:60] for x in k[1:]), v))
        elif k and k[0] == "$" and isinstance(v, bool):
            out.append("%s=%s" % (show_path(k), v))
    return out


def explode(parts):
    out = []
    for p in parts:
        if p[0] == "lit":
            out.extend(("lit", bytes([b])) for b in p[1])
        else:
            out.append(p)
    return out


def sub_elem(x, path, a, b):
    if isinstance(x, tuple):
        if x[:len(path) + 1] == path + (a,):
            return path + (b,) + x[len(path) + 1:]
        return tuple(sub_elem(y, path, a, b) if isinstance(y, tuple) else y for y in x)
    return x


def rotate(parts):
    """{E S}* E' (all but the last, then the last)  ==>  E' {S E}*"""
    out = list(parts)
    for n in range(50):
        for i, p in enumerate(out):
            if p[0] == "rep" and len(p) > 3 and p[3] == "init":
                body = explode(p[2])
                foll = explode(out[i + 1:])
                want = [sub_elem(x, p[1], "[elem]", "[last]") for x in body]
                j = 0
                while j < len(want) and j < len(foll) and want[j] == foll[j]:
                    j += 1
                if j == 0:
                    raise Undecided("separator layout")
                k = max([x for x, y in enumerate(body) if y[0] != "lit"], default=-1) + 1
                if 0 < k < j:
                    # {E S}* E' S T: the trailing S is what follows the list
                    j = k
                X, sep = body[:j], body[j:]
                first = [sub_elem(x, p[1], "[elem]", "[first]") for x in X]
                rest = S([x if x[0] == "lit" else x for x in foll[j:]]).parts
                out = list(S(tuple(out[:i]) + tuple(first) + (("rep", p[1], S(sep + X).parts, "rest"),) + rest).parts)
                break
        else:
            return tuple(out)
    raise Undecided("separator layout")
