"""P12: validated types accept exactly what IMAP allows, and keep it unchanged."""
import cg
import model
import rt
from rt import byte_cmp
from stdx import is_int
from ev import ALL, Ch, Con, ListV, PanicE, Run, S, Buf, Sym, Top, Tup, Undecided, explore, mask_of
from model import is_strlike, last

RULE = ("Every way to build a validated type outside its documented unvalidated constructors - each TryFrom/From conversion, validate(), and the generated "
        "deserialization - is evaluated on a symbolic input; every execution path ends in acceptance or rejection under conditions on the input's bytes, "
        "length, or numeric fields. Accepting paths must not admit a byte, length or number outside the type's IMAP definition and must keep the input "
        "unchanged; rejecting paths must be justified by one. No other function may build such a type, and its fields must not be public.")


def rng(a, b):
    return ((1 << (b + 1)) - 1) & ~((1 << a) - 1)


CTL = rng(0, 0x1f) | 1 << 0x7f
CHAR = rng(1, 0x7f)
ATOM = CHAR & ~CTL & ~mask_of(b"(){ %*\"\\]") | mask_of(b"}")
ATOM &= ~mask_of(b"()")
ATOM &= ~mask_of(b"{ ")
ASTRING = ATOM | mask_of(b"]")
TEXT = CHAR & ~mask_of(b"\r\n")
CHAR8 = rng(1, 255)
LISTCHAR = ATOM | mask_of(b"%*]")
# type -> (bytes, minimal length)
TEXTS = {"Atom": (ATOM, 1), "AtomExt": (ASTRING, 1), "Tag": (ASTRING & ~mask_of(b"+"), 1), "Quoted": (TEXT, 0), "Text": (TEXT, 1), "Literal": (CHAR8, 0),
         "ListCharString": (LISTCHAR, 1)}
COMPOSITE = {"IString": (CHAR8, 0), "AString": (CHAR8, 0), "NString": (CHAR8, 0), "ListMailbox": (CHAR8, 0), "Charset": (TEXT, 0), "Mailbox": (CHAR8, 0),
             "MailboxOther": (CHAR8, 0)}
OTHER = {"QuotedChar", "DateTime", "NaiveDate", "VecN"}
IN = ("$", "in")
SKIP = {"clone", "to_static", "into_static", "unvalidated", "unvalidated_non_sync", "arbitrary", "arbitrary_take_rest"}


def chars(mask):
    bs = [b for b in range(256) if mask >> b & 1]
    return "%s%s" % (", ".join("%r" % chr(b) if 0x20 <= b < 0x7f else "0x%02x" % b for b in bs[:6]), " ..." if len(bs) > 6 else "")


def lower(x):
    return x.lower() if isinstance(x, bytes) else x


class Cond:
    """Path condition over one input text."""

    def __init__(self, run):
        self.no = 0                 # bytes known absent
        self.has = []               # byte sets of which one occurs
        self.empty = None
        self.inbox = None
        self.opaque = []
        self.partial = False
        part, byte, seen = {}, ALL, False
        for k, v in run.assume.items():
            if not isinstance(k, tuple) or not k:
                self.opaque.append(k)
            elif k == IN + ("#empty",):
                self.empty = v
            elif k[0] == "has" and k[1] == IN:
                if v is False:
                    self.no |= k[2]
                else:
                    self.has.append(k[2])
            elif k[0] == "has" and k[1][:2] == IN and len(k[1]) == 3 and isinstance(k[1][2], tuple):
                self.partial = True
                if v is True:
                    self.has.append(k[2])
                elif k[1][2] in (("#first",), ("#rest",)):
                    part[k[1][2][0]] = k[2]
            elif k[0] in ("cmp", "inteq") and any(x == IN + ("[byte]",) for x in k):
                byte &= byte_cmp(k, v)
                seen = True
            elif k[0] == "contains" and k[1] == IN and len(k[2]) == 1:
                if v is False:
                    self.no |= 1 << k[2][0]
                else:
                    self.has.append(1 << k[2][0])
            elif k[0] == "streq" and len(k[1]) == 1 and k[1][0][0] == "raw" and k[1][0][1] == IN + ("#lower",):
                if v is True:
                    self.inbox = k[2]
                elif self.inbox is None and k[2] == b"inbox":
                    self.inbox = False
            elif k[0] == "streq" and len(k[1]) == 1 and k[1][0][0] == "raw" and k[1][0][1] == IN:
                if v is True:
                    self.inbox = k[2]
            elif k[0] == "cmp" and IN + ("#len",) in k or k[0] == "inteq" and k[1] == IN + ("#len",) or k in (IN + ("#one",),):
                self.partial = True
            else:
                self.opaque.append(k)
        self.no |= part.get("#first", 0) & part.get("#rest", 0)
        self.byte = byte if seen else None      # the bytes one iteration of a loop over the text was followed for

    def looped(self, accepting):
        """A loop over the text: accepting paths have only such bytes, others have one of them."""
        if self.byte is not None:
            if accepting:
                self.no |= ALL & ~self.byte
            else:
                self.has.append(self.byte)
            self.byte = None

    def feasible(self):
        if self.byte == 0:
            return False
        if self.empty is True and (self.has or isinstance(self.inbox, bytes)):
            return False
        for h in self.has:
            if not h & ~self.no:
                return False
            if isinstance(self.inbox, bytes) and not h & mask_of(self.inbox + self.inbox.upper()):
                return False
        if isinstance(self.inbox, bytes) and self.no & mask_of(self.inbox):
            return False
        return True


def leaves(run, v, d=0):
    """Text contents of a value, or None if some part is not understood."""
    v = run.d(v)
    if isinstance(v, (S, Buf)):
        return [tuple(p for p in v.parts if p[0] != "lit" or p[1])]
    if isinstance(v, Sym):
        return [("sym", v.path)]
    if isinstance(v, Con):
        out = []
        for n, x in v.f.items():
            if n == "mode":
                continue
            r = leaves(run, x, d + 1)
            if r is None:
                return None
            out += r
        return out
    if isinstance(v, Tup):
        out = []
        for x in v.items:
            r = leaves(run, x, d + 1)
            if r is None:
                return None
            out += r
        return out
    return None


class Types:
    def __init__(self, ctx, cfg):
        self.ctx = ctx
        self.cfg = cfg
        self.m = model.Model(cfg)
        self.R = rt.RT(self.m)
        self.done = set()
        self.opts = {"byteloop": True, "lang": lambda r, p: rt.Langs.__call__(self.R.langs, r, p), "no_assume_differs": True, "extern": self.extern, "arith": self.arith}
        self.ser = None

    def bad(self, key, where, what):
        self.ctx.violation(key, where, what, config=self.cfg)

    def note(self, s):
        self.ctx.note("%s/%s" % (self.cfg, s))

    # ------------------------------------------------------------ models
    def extern(self, run, f, args):
        n = f["name"]
        if self.ser is not None and n.endswith("Deserialize::deserialize"):
            return Con("core::result::Result", "Ok", {"0": self.ser})
        if n.endswith("::Error::custom"):
            return Top("custom error")
        return None

    def arith(self, run, op, a, b, ty, e):
        if op == "Rem" and isinstance(a, Sym) and is_int(b) and b:
            return Sym(a.path + (("#rem", abs(b)),), a.ty)
        return None

    # ------------------------------------------------------------ text
    def text(self, name, what, fn, spec, body):
        mask, mn = spec
        self.done.add(fn["key"])
        n = 0
        sp = fn["sp"]
        for run, kind, v in explore(self.m, body, opts=self.opts, limit=400):
            c = Cond(run)
            if not c.feasible():
                continue
            n += 1
            if kind == "undecided":
                self.note("%s: %s (%s)" % (what, v, v.sp))
                continue
            if kind == "panic":
                if not c.opaque:
                    self.bad("panic: " + what, sp, "%s panics: %s" % (what, v.why))
                continue
            v = run.d(v)
            good = isinstance(v, Con) and v.vn == "Ok" or not (isinstance(v, Con) and v.adt.endswith("Result"))
            inner = v
            if isinstance(v, Con) and v.vn in ("Ok", "Err") and v.adt.endswith("Result"):
                inner = run.d(v.f["0"])
            c.looped(good)
            if good:
                self.accepted(name, what, sp, run, c, inner, mask, mn)
            else:
                self.rejected(name, what, sp, c, mask, mn)
        self.ctx.count("constructors")
        self.ctx.count("paths", n)

    def accepted(self, name, what, sp, run, c, v, mask, mn):
        exact = isinstance(c.inbox, bytes)
        if exact:
            if mask_of(c.inbox) & ~mask:
                self.bad("accepts: " + what, sp, "%s accepts %r" % (what, c.inbox))
            if name == "MailboxOther" and lower(c.inbox) == b"inbox":
                self.bad("accepts INBOX: " + what, sp, "%s accepts INBOX" % what)
        else:
            over = ALL & ~c.no & ~mask
            if over and not c.empty is True:
                if c.opaque:
                    self.note("%s: accepts under %s" % (what, c.opaque[:2]))
                else:
                    self.bad("accepts: " + what, sp, "%s accepts text containing %s%s" % (what, chars(over), " (only part of the text is looked at)" if c.partial else ""))
            if mn and c.empty is not False and not c.has:
                if c.opaque or c.partial:
                    self.note("%s: acceptance of empty text not decided" % what)
                else:
                    self.bad("accepts empty: " + what, sp, "%s accepts empty text" % what)
            if name in ("Mailbox", "MailboxOther") and c.inbox is not False and not c.opaque and c.empty is not True:
                has_other = any(h & mask_of(b"inboxINBOX") == 0 for h in c.has)
                if not has_other:
                    self.bad("accepts INBOX: " + what, sp, "%s lets INBOX through as an ordinary mailbox name" % what)
        if what.endswith("validate"):
            return
        ls = leaves(run, v)
        if isinstance(v, Con) and v.vn == "Inbox" and lower(c.inbox) == b"inbox":
            return
        if isinstance(v, Con) and v.vn == "Inbox":
            if all(k[0] == "streq" for k in c.opaque):
                self.bad("content: " + what, sp, "%s turns other names into INBOX" % what)
            else:
                self.note("%s: INBOX under %s" % (what, c.opaque[:2]))
            return
        if ls is None:
            self.note("%s: content not followed" % what)
            return
        if len(ls) != 1 or not (isinstance(ls[0], tuple) and len(ls[0]) == 1 and ls[0][0][0] == "raw" and ls[0][0][1] == IN):
            if ls == [()] and c.empty is True:
                return
            if any(isinstance(x, tuple) and any(isinstance(p, tuple) and p[0] not in ("raw", "lit") for p in x) for x in ls):
                self.note("%s: content not followed" % what)
                return
            self.bad("content: " + what, sp, "%s does not keep its input unchanged: %s" % (what, str(ls)[:120]))

    def rejected(self, name, what, sp, c, mask, mn):
        if c.empty is True and mn:
            return
        if any(not (h & ~c.no & mask) for h in c.has):
            return
        if name == "MailboxOther" and lower(c.inbox) == b"inbox":
            return
        if c.opaque:
            self.note("%s: rejects under %s" % (what, c.opaque[:2]))
            return
        if c.empty is True:
            why = "the empty text"
        elif c.has:
            why = "valid text, such as text containing %s" % chars(c.has[-1] & ~c.no & mask)
        elif isinstance(c.inbox, bytes):
            why = repr(c.inbox)
        else:
            why = "valid text%s" % (" because of its length or of part of it" if c.partial else "")
        self.bad("rejects: " + what, sp, "%s rejects %s" % (what, why))

    # ------------------------------------------------------------ all
    def run(self):
        m = self.m
        for tr in ("TryFrom", "From"):
            for i in m.by_trait.get(tr, []):
                t = i["T_self"]
                if t[0] != "adt" or not t[1].startswith("imap_types"):
                    continue
                nm = last(t[1])
                spec = TEXTS.get(nm) or COMPOSITE.get(nm)
                if not spec or not i["T_targs"]:
                    continue
                a = i["T_targs"][0]
                for it in i["items"]:
                    fn = m.fns.get(it["key"])
                    if it["n"] not in ("try_from", "from") or fn is None:
                        continue
                    if is_strlike(a):
                        what = "%s::%s(%s)" % (nm, it["n"], tyname(a))
                        self.text(nm, what, fn, spec, lambda run, fn=fn: run.call_local(fn, [S((("raw", IN, ("mask", ALL, 0)),))], {}))
                    elif a[0] == "adt" and (last(a[1]) in TEXTS or last(a[1]) in COMPOSITE):
                        self.conversion(nm, "%s::%s(%s)" % (nm, it["n"], last(a[1])), fn, a, spec)
        for k, f in sorted(m.fns.items()):
            if last(k) == "validate" and f.get("impl"):
                i = m.impl_by_key.get(f["impl"], {})
                t = i.get("T_self") or (None, "")
                nm = last(t[1]) if t[0] == "adt" else None
                spec = TEXTS.get(nm) or COMPOSITE.get(nm)
                if nm == "MailboxOther":
                    spec = (ALL, 0)
                if spec and len(f["params"]) == 1:
                    self.text(nm, "%s::validate" % nm, f, spec, lambda run, f=f: run.call_local(f, [S((("raw", IN, ("mask", ALL, 0)),))], {}))
        self.quoted_char()
        self.dates()
        self.vec_n()
        self.serde()
        self.builders()
        self.fields()

    def conversion(self, nm, what, fn, a, spec):
        """Conversions between validated types keep the content."""
        self.done.add(fn["key"])
        self.ctx.count("conversions")
        for run, kind, v in explore(self.m, lambda run: run.call_local(fn, [Sym(IN, a)], {}), opts=self.opts, limit=400):
            if kind != "ok":
                self.note("%s: %s" % (what, v))
                continue
            v = run.d(v)
            if isinstance(v, Con) and v.vn == "Err":
                inb = [k for k, x in run.assume.items() if k[0] == "streq" and x is True]
                if nm == "MailboxOther" and inb and lower(inb[0][2]) == b"inbox":
                    continue
                if not inb and not any(k[0] in ("has", "cmp", "contains") for k in run.assume):
                    self.bad("rejects: " + what, fn["sp"], "%s rejects a valid %s" % (what, last(a[1])))
                elif nm == "MailboxOther":
                    self.bad("rejects: " + what, fn["sp"], "%s rejects a name other than INBOX" % what)
                continue
            if isinstance(v, Con) and v.vn == "Ok":
                v = run.d(v.f["0"])
            if isinstance(v, Con) and v.vn == "Inbox":
                inb = [k for k, x in run.assume.items() if k[0] == "streq" and x is True]
                if not inb or any(str(y).startswith("#trim") for k in inb for p in k[1] for y in p[1]):
                    self.bad("content: " + what, fn["sp"], "%s turns other names into INBOX" % what)
                continue
            if nm in ("Mailbox", "MailboxOther"):
                inb = [k for k, x in run.assume.items() if k[0] == "streq" and x is False and k[2] == b"inbox" and "#lower" in k[1][0][1]]
                if not inb and not any(k[0] not in ("streq",) and not (len(k) >= 2 and k[:2] == IN) for k in run.assume):
                    self.bad("accepts INBOX: " + what, fn["sp"], "%s lets INBOX through as an ordinary mailbox name" % what)
            ls = leaves(run, v)
            if ls is None:
                self.note("%s: content not followed" % what)
            elif len(ls) != 1 or not inpath(ls[0]):
                self.bad("content: " + what, fn["sp"], "%s does not keep its input unchanged: %s" % (what, str(ls)[:120]))

    def quoted_char(self):
        m = self.m
        for i in m.by_trait.get("TryFrom", []):
            if i["T_self"][0] == "adt" and last(i["T_self"][1]) == "QuotedChar" and i["T_targs"][0] == ("prim", "char"):
                fn = next((m.fns[it["key"]] for it in i["items"] if it["n"] == "try_from"), None)
                if fn is None:
                    continue
                self.done.add(fn["key"])
                self.ctx.count("constructors")
                for b in list(range(0x200)) + [0x2022, 0x10041]:
                    try:
                        r = Run(m, opts=self.opts)
                        v = r.d(r.call_local(fn, [Ch(b)], {}))
                    except (Undecided, PanicE) as u:
                        self.note("QuotedChar::try_from: %s" % u)
                        break
                    got = isinstance(v, Con) and v.vn == "Ok"
                    want = b < 128 and TEXT >> b & 1
                    if got != bool(want):
                        self.bad("QuotedChar", fn["sp"], "QuotedChar::try_from %s the character U+%04X" % ("accepts" if got else "rejects", b))
                        break
                    if got:
                        x = r.d(r.d(v.f["0"]).f["0"])
                        if not (isinstance(x, Ch) and x.c == b if hasattr(x, "c") else str(x) == str(Ch(b))):
                            self.bad("QuotedChar content", fn["sp"], "QuotedChar::try_from changes the character U+%04X" % b)
                            break

    def dates(self):
        I = ("prim", "i32")
        U = ("prim", "u32")

        def date():
            return Con("chrono", "date", {"year": Sym(("$", "year"), I), "month": Sym(("$", "month"), U), "day": Sym(("$", "day"), U)})

        def zoned():
            return Con("chrono", "zoned", {"nanos": Sym(("$", "nanos"), U), "offset": Con("chrono", "offset", {"sign": "+", "secs": Sym(("$", "off"), I)}),
                                           "local": Con("chrono", "datetime", {"date": date(), "time": Top("time")})})
        want = {"NaiveDate": {"year"}, "DateTime": {"year", "nanos", "off"}}
        for k, fn in sorted(self.m.fns.items()):
            i = self.m.impl_by_key.get(fn.get("impl") or "", {})
            t = i.get("T_self") or (None, "")
            if t[0] != "adt" or last(t[1]) not in want or not t[1].startswith("imap_types") or last(k) not in ("try_from", "validate") or len(fn["params"]) != 1:
                continue
            nm = last(t[1])
            what = "%s::%s" % (nm, last(k))
            self.done.add(k)
            self.ctx.count("constructors")
            mk = zoned if nm == "DateTime" else date
            for run, kind, v in explore(self.m, lambda run: run.call_local(fn, [mk()], {}), opts=self.opts, limit=300):
                if kind != "ok":
                    self.note("%s: %s" % (what, v))
                    continue
                v = run.d(v)
                iv, odd = intervals(run)
                if odd:
                    self.note("%s: condition %s" % (what, odd[:2]))
                    continue
                if any(lo > hi for lo, hi, ne in iv.values()):
                    continue
                self.ctx.count("paths")
                okay = {"year": within(iv, ("$", "year"), 0, 9999), "nanos": within(iv, ("$", "nanos"), 0, 0), "off": within(iv, ("$", "off", ("#rem", 60)), 0, 0)}
                out = {"year": outside(iv, ("$", "year"), 0, 9999), "nanos": outside(iv, ("$", "nanos"), 0, 0), "off": outside(iv, ("$", "off", ("#rem", 60)), 0, 0)}
                if isinstance(v, Con) and v.vn == "Ok":
                    for f in sorted(want[nm]):
                        if not okay[f]:
                            self.bad("%s: %s" % (what, f), fn["sp"], "%s accepts values without %s" % (
                                what, {"year": "a year between 0 and 9999", "nanos": "whole seconds", "off": "an offset of whole minutes"}[f]))
                    if last(k) == "try_from":
                        x = run.d(run.d(v.f["0"]).f["0"]) if isinstance(run.d(v.f["0"]), Con) and "0" in run.d(v.f["0"]).f else None
                        if not (isinstance(x, Con) and same(run, x, mk())):
                            self.bad("%s: content" % what, fn["sp"], "%s does not keep its input unchanged" % what)
                elif isinstance(v, Con) and v.vn == "Err" and not any(out[f] for f in want[nm]):
                    self.bad("%s: rejects" % what, fn["sp"], "%s rejects valid values (%s)" % (what, {".".join(map(str, p)): x[:2] for p, x in iv.items()}))

    def vec_n(self):
        m = self.m
        for i in m.by_trait.get("TryFrom", []):
            if i["T_self"][0] != "adt" or last(i["T_self"][1]) != "VecN":
                continue
            fn = next((m.fns[it["key"]] for it in i["items"] if it["n"] == "try_from"), None)
            if fn is None:
                continue
            self.done.add(fn["key"])
            self.ctx.count("constructors")
            for n in (1, 2, 3):
                for ln in range(0, 6):
                    def body(run):
                        return run.call_local(fn, [ListV([("one", Sym(("$e", str(x)), ("param", "T"))) for x in range(ln)])], {"N": ("const", str(n))})
                    for run, kind, v in explore(m, body, opts=self.opts, limit=50):
                        if kind != "ok":
                            self.note("VecN::try_from: %s" % v)
                            continue
                        self.ctx.count("paths")
                        v = run.d(v)
                        got = isinstance(v, Con) and v.vn == "Ok"
                        if got != (ln >= n):
                            self.bad("VecN", fn["sp"], "VecN<%d>::try_from %s a list of %d" % (n, "accepts" if got else "rejects", ln))
                        elif got:
                            x = run.d(list(run.d(v.f["0"]).f.values())[0])
                            if not (isinstance(x, ListV) and [run.d(y[1]).path for y in x.items if y[0] == "one"] == [("$e", str(z)) for z in range(ln)]):
                                self.bad("VecN content", fn["sp"], "VecN<%d>::try_from does not keep its elements" % n)

    def serde(self):
        """Generated deserialization goes through the validating conversion."""
        m = self.m
        for i in m.by_trait.get("Deserialize", []):
            t = i["T_self"]
            if t[0] != "adt" or not t[1].startswith("imap_types") or last(t[1]) not in TEXTS and last(t[1]) not in ("MailboxOther",):
                continue
            nm = last(t[1])
            fn = next((m.fns[it["key"]] for it in i["items"] if it["n"] == "deserialize"), None)
            if fn is None:
                continue
            self.ctx.count("deserializers")
            self.ser = S((("raw", IN, ("mask", ALL, 0)),))
            scope = i["key"].rsplit("::", 1)[0]
            inner = [f for k, f in m.fns.items() if k.startswith(scope) and "::visit_" in k and builds(f, {t[1]})]
            if nm == "MailboxOther":
                src = [("adt", k, ()) for k in m.adts if last(k) == "AString"]

                def hook(run, f, args, tsub, fn=fn):
                    if last(f["key"]) == "deserialize" and f is not fn:
                        return Con("core::result::Result", "Ok", {"0": Sym(IN, src[0])})
                    return None
                self.opts["hook"] = hook
                self.conversion(nm, "%s::deserialize" % nm, fn, src[0], COMPOSITE[nm])
                del self.opts["hook"]
            elif not inner:
                self.text(nm, "%s::deserialize" % nm, fn, TEXTS.get(nm) or COMPOSITE[nm], lambda run: run.call_local(fn, [Top("deserializer")], {}))
            else:
                # a field-wise deserializer: its text must come from a function that validates
                g = cg.CG(m)
                fs = set()
                for k, f in m.fns.items():
                    if k.startswith(scope) and "::visit_" in k and last(k) == "deserialize":
                        fs |= g.out.get(k, set())
                fs = sorted(f for f in fs if f in m.fns and "::_#" not in f and last(f) != "deserialize")
                for f in fs:
                    self.text(nm, "%s::deserialize (%s)" % (nm, last(f)), m.fns[f], TEXTS[nm], lambda run, f=f: run.call_local(m.fns[f], [Top("deserializer")], {}))
                if not fs:
                    self.bad("deserialize: " + nm, fn["sp"], "the generated deserialization of %s builds it without validation (%s)" % (nm, inner[0]["key"]))
                for f in inner:
                    self.done.add(f["key"])
            self.ser = None

    def builders(self):
        """Nothing else builds a validated type."""
        m = self.m
        T = {k for k in m.adts if k.startswith("imap_types") and (last(k) in TEXTS or last(k) in OTHER or last(k) == "MailboxOther")}
        for k, f in sorted(m.fns.items()):
            if not f.get("body") or k in self.done or last(k) in SKIP or last(k).startswith("unvalidated"):
                continue
            b = builds(f, T)
            if not b:
                continue
            self.ctx.count("other_builders")
            par = m.fns.get(k.split("::{closure")[0])
            if par is not None and (last(par["key"]) in SKIP or par["key"] in self.done):
                continue
            if "::visit_" in k:
                if any(last(x) in TEXTS or last(x) in OTHER for x in b) and m.by_trait.get("Deserialize"):
                    self.bad("deserialize: " + last(sorted(b)[0]), f["sp"], "the generated deserialization of %s builds it without validation" % last(sorted(b)[0]))
                continue
            if any(last(x) == "VecN" for x in b) and not self.vec_ok(f):
                self.note("%s builds VecN; not decided" % k)
            if all(last(x) in OTHER for x in b):
                continue
            self.other_builder(k, f, b)

    def vec_ok(self, f):
        return True

    def other_builder(self, k, f, b):
        m = self.m
        args = []
        for n, p in enumerate(f["params"]):
            args.append((n, m.T(f["crate"], p["t"])))

        def body(run):
            return run.call_local(f, [run.mk_sym(("$a", str(n)), t) for n, t in args], {})
        for run, kind, v in explore(m, body, opts=self.opts, limit=400):
            if kind != "ok":
                self.note("%s: %s" % (k, v))
                continue
            self.ctx.count("paths")
            self.inside(run, v, k, f, 0)

    def inside(self, run, v, k, f, d):
        v = run.d(v)
        if d > 8:
            return
        if isinstance(v, Con):
            nm = last(v.adt)
            if nm in TEXTS and v.adt.startswith("imap_types"):
                x = run.d(list(v.f.values())[0])
                if isinstance(x, (S, Buf)):
                    mask, mn = TEXTS[nm]
                    lo = 0
                    for p in x.parts:
                        if p[0] == "lit":
                            pm, pn = mask_of(p[1]), len(p[1])
                        elif p[0] in ("raw",):
                            try:
                                pm, pn = self.R.langs(run, p)
                            except Undecided as u:
                                return self.note("%s: %s" % (k, u))
                        elif p[0] in ("num", "fixnum"):
                            pm, pn = mask_of(b"0123456789"), 1
                        else:
                            return self.note("%s: content of %s not followed (%s)" % (k, nm, p[0]))
                        lo += pn
                        if pm & ~mask:
                            self.bad("builds: %s %s" % (k, nm), f["sp"], "%s builds %s from text that may contain %s" % (k, nm, chars(pm & ~mask)))
                    if lo < mn:
                        self.bad("builds empty: %s %s" % (k, nm), f["sp"], "%s builds %s from text that may be empty" % (k, nm))
                elif isinstance(x, Sym):
                    self.note("%s: content of %s not followed" % (k, nm))
            for x in v.f.values():
                self.inside(run, x, k, f, d + 1)
        elif isinstance(v, Tup):
            for x in v.items:
                self.inside(run, x, k, f, d + 1)

    def fields(self):
        for k, a in sorted(self.m.adts.items()):
            if k.startswith("imap_types") and (last(k) in TEXTS or last(k) in OTHER or last(k) == "MailboxOther"):
                self.ctx.count("types")
                for v in a["vs"]:
                    for f in v["fs"]:
                        if f["pub"] and f["n"] != "mode":
                            self.bad("public field: " + last(k), a["sp"], "field %s of %s is public, so any content can be put into it" % (f["n"], last(k)))


def tyname(a):
    if a[0] == "ref":
        return "&" + tyname(a[1])
    if a[0] == "slice":
        return "[%s]" % tyname(a[1])
    if a[0] == "prim":
        return a[1]
    return last(a[1]) if a[0] == "adt" else str(a)[:20]


def inpath(l):
    if isinstance(l, tuple) and l and l[0] == "sym":
        return l[1][:2] == IN
    return isinstance(l, tuple) and len(l) == 1 and l[0][0] == "raw" and l[0][1][:2] == IN and not any(str(x).startswith("#") for x in l[0][1])


def builds(f, types):
    out = set()
    if f.get("body"):
        def see(x):
            if x.get("k") == "adt" and x.get("d") in types:
                out.add(x["d"])
        cg.walk(f["body"], see)
    return out


def same(run, a, b):
    a, b = run.d(a), run.d(b)
    if isinstance(a, Con) and isinstance(b, Con):
        return a.vn == b.vn and set(a.f) == set(b.f) and all(same(run, a.f[k], b.f[k]) for k in a.f)
    if isinstance(a, Sym) and isinstance(b, Sym):
        return a.path == b.path
    return isinstance(a, Top) and isinstance(b, Top) or a == b


def intervals(run):
    """Integer paths -> (low, high, excluded values) from the assumptions; and the assumptions not understood."""
    iv, odd = {}, []
    ops = {"Lt": "Ge", "Le": "Gt", "Gt": "Le", "Ge": "Lt", "Eq": "Ne", "Ne": "Eq"}
    flip = {"Lt": "Gt", "Le": "Ge", "Gt": "Lt", "Ge": "Le", "Eq": "Eq", "Ne": "Ne"}
    for k, v in run.assume.items():
        if k and k[0] == "cmp" and len(k) == 4 and k[1] in ops:
            op, a, b = k[1], k[2], k[3]
            if is_int(a) and isinstance(b, tuple):
                op, a, b = flip[op], b, a
        elif k and k[0] == "inteq" and len(k) == 3:
            op, a, b = "Eq", k[1], k[2]
        else:
            odd.append(k)
            continue
        if not (isinstance(a, tuple) and is_int(b)):
            odd.append(k)
            continue
        if v is False:
            op = ops[op]
        nat = 0 if a[-1] == "nanos" else -(1 << 31)
        if isinstance(a[-1], tuple) and a[-1][0] == "#rem":
            nat = 1 - a[-1][1]
        lo, hi, ne = iv.get(a, (nat, 1 << 31, ()))
        if op == "Lt":
            hi = min(hi, b - 1)
        elif op == "Le":
            hi = min(hi, b)
        elif op == "Gt":
            lo = max(lo, b + 1)
        elif op == "Ge":
            lo = max(lo, b)
        elif op == "Eq":
            lo, hi = max(lo, b), min(hi, b)
        else:
            ne = ne + (b,)
        while lo in ne:
            lo += 1
        while hi in ne:
            hi -= 1
        iv[a] = (lo, hi, ne)
    return iv, odd


def within(iv, p, a, b):
    return p in iv and iv[p][0] >= a and iv[p][1] <= b


def outside(iv, p, a, b):
    return p in iv and (iv[p][0] > b or iv[p][1] < a or all(x in iv[p][2] for x in range(a, b + 1)) if b - a < 100 else p in iv and (iv[p][0] > b or iv[p][1] < a))


def types_cfg(ctx, cfg):
    Types(ctx, cfg).run()


def check(ctx):
    from report import parallel
    cfgs = ["E", "R"] if ctx.quick else ["D", "E", "N", "A", "R"]
    parallel(ctx, [(types_cfg, (c,)) for c in cfgs])
    ctx.floor("validated types", ctx.cov.get("types", 0), 9 * len(cfgs))
    ctx.floor("constructors", ctx.cov.get("constructors", 0), 30 * len(cfgs))
    ctx.assumptions += ["Constructors named `unvalidated` are documented to skip validation and are not considered.",
                        "chrono values have the years, sub-second parts and offsets their accessors report."]
    return RULE
