"""Parser combinators on byte strings with symbolic parts.

A parser is applied to the *rest of the encoded message*: a sequence of literal bytes, symbolic leaves, nested
message parts that are not expanded yet (`tok`), and repetitions.  The result is a definite success or error for every
message of the shape, or `Undecided`.
"""
from ev import (ALL, Buf, Ch, Clo, Comb, Con, DIGITS, FnV, ListV, PanicE, Pos, S, Sym, Top, Tup, UNIT, Undecided, err, is_ok, lit,
                mask_of, nom_err, ok, some)
from model import OPTION
import stdx
from stdx import is_int, lang, pred_mask, sparts


def OK(rest, v):
    return ok(Tup([rest, v]))


def ERR(why):
    return nom_err("Error", why)


def INC():
    return nom_err("Incomplete", "needed")


PRIM = {
    "abnf_core::streaming::sp": b" ", "abnf_core::streaming::dquote": b'"',
    "abnf_core::complete::sp": b" ", "abnf_core::complete::dquote": b'"',
}


TAKES = ("take_while", "take_while1", "take_till", "take_till1", "is_not", "is_a", "take_while_m_n", "digit0", "digit1", "alpha0", "alpha1",
         "alphanumeric0", "alphanumeric1", "space0", "space1", "multispace0", "multispace1", "not_line_ending", "escaped", "escaped_transform")


def completed(run, r, name):
    """A `complete` parser: the end of input is an error (or the end of the match), not Incomplete."""
    r = run.d(r)
    if isinstance(r, Con) and r.vn == "Err" and kind_of(r) == "Incomplete":
        takes = name in TAKES
        ev = run.__dict__.get("anyev")
        if run.opts.get("any") and ev and ev[-1][1] == "Incomplete":
            pos = ev[-1][0]
            ev[-1] = (pos, "short")
            if not takes or name[-1] in "1a" and run.choose(("any", "shortend", pos), [True, False]):
                # nothing has arrived at this position
                run.__dict__.setdefault("ended", set()).add(pos)
                return ERR("end of input")
            rest = S((("any", any_next(run)),))
            run.__dict__.setdefault("ended", set()).add(rest.parts[0][1])
            v = any_raw(run, ALL, 0)
            any_log(run, S((("any", pos),)), rest, v)
            return OK(rest, v)
        if takes:
            raise Undecided("`complete` parser at the end of the input")
        return ERR("end of input")
    return r


def make(c, full):
    r = make0(c, full)
    if "::complete::" in full and (full.startswith("nom::") or full.startswith("abnf_core::")):
        if isinstance(r, Comb):
            return Comb("complete_prim", [r])
        if isinstance(r, Con):
            return completed(c.run, r, full.split("::")[-1])
    return r


def make0(c, full):
    run = c.run
    n = full.split("::")[-1]
    if full in PRIM:
        return tag(run, sparts(run, c.args[0]), PRIM[full], False)
    if full in ("abnf_core::streaming::crlf", "abnf_core::complete::crlf"):
        return tag(run, sparts(run, c.args[0]), b"\r\n", False)
    if full in ("abnf_core::streaming::crlf_relaxed", "abnf_core::complete::crlf_relaxed"):
        return run_alt(run, [Comb("tag", [lit(b"\r\n")]), Comb("tag", [lit(b"\n")])], sparts(run, c.args[0]))
    if full.startswith("abnf_core::is_"):
        import string
        v = run.d(c.args[0])
        v = v.c if isinstance(v, Ch) else v
        m = {"is_alpha": mask_of((string.ascii_letters).encode()), "is_digit": DIGITS, "is_ctl": mask_of(range(32)) | 1 << 127,
             "is_char": mask_of(range(1, 128)), "is_vchar": mask_of(range(33, 127)), "is_sp": 1 << 32}.get(n)
        if m is None or not is_int(v):
            raise Undecided("no model for " + full)
        return v < 256 and bool(m >> v & 1)
    if full.startswith("nom::error::") or full.startswith("nom::Needed") or full.startswith("nom::internal"):
        if n in ("parse",):
            return run.apply(c.args[0], [c.args[1]])
        return Top(full)
    if full == "nom::Parser::parse" or n == "parse":
        return run.apply(c.args[0], [c.args[1]])
    if n in ("digit1", "digit0", "alpha1", "alphanumeric1", "multispace0", "space0", "space1", "crlf", "line_ending", "rest") and full.startswith("nom::"):
        # these are parsers, not constructors
        return run_prim(run, n, sparts(run, c.args[0]))
    # Parser method adapters
    if full.startswith("nom::Parser::"):
        return Comb(n, [c.args[0]] + list(c.args[1:]))
    if full.startswith("nom::Err"):
        raise Undecided("no model for " + full)
    return Comb(n, list(c.args))


def run_prim(run, n, s):
    if n == "digit1":
        return take_while(run, s, DIGITS, 1, None)
    if n == "digit0":
        return take_while(run, s, DIGITS, 0, None)
    if n == "crlf":
        return tag(run, s, b"\r\n", False)
    am = {"alpha1": "is_ascii_alphabetic", "alphanumeric1": "is_ascii_alphanumeric"}.get(n)
    if am:
        return take_while(run, s, stdx.ascii_name_mask(am), 1, None)
    if n in ("space0", "space1"):
        return take_while(run, s, mask_of(b" \t"), int(n[-1]), None)
    raise Undecided("no model for nom parser " + n)


# ---------------------------------------------------------------- input access
def front(run, s):
    """Makes the first part of the input a non-token part (case split on the token's alternatives)."""
    while s.parts:
        p = s.parts[0]
        if p[0] == "tok":
            exp = run.opts.get("expand")
            if exp is None:
                raise Undecided("unexpanded token")
            s = S(tuple(exp(run, p)) + s.parts[1:])
            continue
        if p[0] == "rep":
            n = p[4] if len(p) > 4 else 0
            if n >= 2:
                raise Undecided("repetition read outside a list parser")
            more = run.choose(("rep", p[1], n), [True, False])
            if more:
                s = S(p[2] + (("rep", p[1], p[2], p[3], n + 1),) + s.parts[1:])
            else:
                s = S(s.parts[1:])
            continue
        if p[0] in ("frag",):
            s = S(s.parts[1:])
            continue
        if p[0] in ("raw", "esc"):
            m, mn = lang(run, p)
            if mn == 0 and run.choose(p[1] + ("#empty",), [False, True]):
                s = S(s.parts[1:])
                continue
        return s
    return s


def excluded(run, s, mask):
    """The next byte certainly exists and is not in `mask` (no case split)."""
    f = run.opts.get("first")
    if f is None or not s.parts or s.parts[0][0] not in ("tok", "rep", "frag", "raw", "esc"):
        return False
    try:
        m, e = f(s.parts)
    except Undecided:
        return False
    return not e and not (m & mask)


def tag(run, s, t, nocase):
    """Matches the constant t."""
    if is_any(s):
        return any_step(run, s, lambda: lit(t))
    if nocase:
        t = t.lower()
    start = s
    matched = 0
    while t:
        if excluded(run, s, fold_mask(1 << t[0]) if nocase else 1 << t[0]):
            return ERR("expected %r" % t.decode("latin1"))
        s = front(run, s)
        if not s.parts:
            return INC()
        p = s.parts[0]
        if p[0] == "lit":
            b = p[1].lower() if nocase else p[1]
            k = min(len(b), len(t))
            if b[:k] != t[:k]:
                return ERR("expected %r, found %r" % (t.decode("latin1"), p[1][:20]))
            t = t[k:]
            matched += k
            s = S((("lit", p[1][k:]),) + s.parts[1:])
            continue
        if p[0] == "eof":
            return INC()
        if p[0] == "follow":
            m = p[1]
            if nocase:
                m = fold_mask(m)
            if not (m >> t[0] & 1):
                return ERR("expected %r" % t.decode("latin1"))
            raise Beyond("lookahead beyond the part: %r" % t)
        if p[0] in ("raw", "num", "esc"):
            m, mn = lang(run, p)
            if p[0] == "esc":
                m |= 1 << 92
                m &= ~(1 << 34)
            if nocase:
                m = fold_mask(m)
            if not (m >> t[0] & 1):
                return ERR("expected %r, found a value" % t.decode("latin1"))
            if p[0] == "raw" and run.assume.get(("starts", False, (p,), t)) is False:
                return ERR("expected %r, found a value" % t.decode("latin1"))
            if run.opts.get("exact_starts") and p[0] == "raw" and not nocase:
                if run.choose(("starts", False, (p,), t), [False, True]):
                    raise Undecided("text after a constant prefix")
                return ERR("expected %r, found a value" % t.decode("latin1"))
            if run.opts.get("strict_free") and all(m >> x & 1 for x in t):
                raise Undecided("keyword %r may occur in a value" % t)
            run.note("value %s assumed not to start with the keyword %r" % (".".join(map(str, p[1][-3:])), t.decode("latin1")))
            return ERR("expected %r, found a value" % t.decode("latin1"))
        if p[0] == "cut":
            if not ((fold_mask(p[2]) if nocase else p[2]) >> t[0] & 1):
                return ERR("expected %r, found %s inside a value" % (t.decode("latin1"), show_mask(p[2])))
            raise Split("the parser stops inside the value %s at %s" % (".".join(map(str, p[1][-3:])), show_mask(p[2])))
        if p[0] == "fixnum":
            if not (DIGITS >> t[0] & 1):
                return ERR("expected %r, found digits" % t.decode("latin1"))
            raise Undecided("constant digits against a date field")
        raise Undecided("tag %r against %r" % (t, p))
    return OK(s, sub(run, start, s))


def fold_mask(m):
    r = m
    for c in range(65, 91):
        if m >> c & 1 or m >> (c + 32) & 1:
            r |= (1 << c) | (1 << (c + 32))
    return r


def same_input(run, a, b):
    return norm_eq(run, a, b)


def norm_eq(run, a, b):
    """Equality of inputs modulo tokens that were already expanded on this path."""
    for _ in range(200):
        if a.parts == b.parts:
            return True
        # drop the common front
        pa, pb = list(a.parts), list(b.parts)
        while pa and pb and pa[0] == pb[0]:
            pa.pop(0)
            pb.pop(0)
        if pa and pb and pa[0][0] == "lit" and pb[0][0] == "lit":
            x, y = pa[0][1], pb[0][1]
            k = 0
            while k < len(x) and k < len(y) and x[k] == y[k]:
                k += 1
            if k == 0:
                return False
            pa[0] = ("lit", x[k:])
            pb[0] = ("lit", y[k:])
        changed = False
        for l in (pa, pb):
            if l and l[0][0] == "tok" and run.opts.get("expanded") and run.opts["expanded"](run, l[0]):
                l[0:1] = list(run.opts["expand"](run, l[0]))
                changed = True
                break
            if l and l[0][0] == "rep":
                n = l[0][4] if len(l[0]) > 4 else 0
                if ("rep", l[0][1], n) in run.assume and not (pa[0][0] == "rep" and pb[0:1] and pb[0][0] == "rep"):
                    if run.assume[("rep", l[0][1], n)]:
                        l[0:1] = list(l[0][2]) + [("rep", l[0][1], l[0][2], l[0][3], n + 1)]
                    else:
                        l[0:1] = []
                    changed = True
                    break
            if l and l[0][0] == "frag":
                l.pop(0)
                changed = True
                break
            if l and l[0][0] in ("raw", "esc") and run.assume.get(l[0][1] + ("#empty",)) is True:
                l.pop(0)
                changed = True
                break
        a, b = S(pa), S(pb)
        if not changed and not (pa and pb and (pa[0][0] == "lit" or pb[0][0] == "lit")):
            return a.parts == b.parts
        if not changed and a.parts != b.parts:
            if pa and pb and pa[0][0] == "lit" and pb[0][0] == "lit" and pa[0][1] and pb[0][1] and pa[0][1][0] == pb[0][1][0]:
                continue
            return False
    return False


def sub(run, start, rest):
    """The part of `start` consumed before `rest`."""
    out = []
    cur = start
    if is_any(start) and is_any(rest):
        a, b = start.parts[0][1], rest.parts[0][1]
        log = run.__dict__.get("anylog", {})
        while a != b and a in log:
            out.extend(log[a][0])
            a = log[a][1]
        if a != b:
            return any_raw(run, ALL, 0)
        return S(out)
    for _ in range(500):
        if norm_eq(run, cur, rest):
            return S(out)
        if not cur.parts:
            break
        p = cur.parts[0]
        if p[0] in ("tok", "rep", "frag") or (p[0] in ("raw", "esc") and run.assume.get(p[1] + ("#empty",)) is True):
            if p[0] == "rep" and ("rep", p[1], p[4] if len(p) > 4 else 0) not in run.assume:
                # consumed as a whole by a list parser
                out.append(p)
                cur = S(cur.parts[1:])
                continue
            if p[0] == "tok" and not run.opts["expanded"](run, p):
                out.append(p)
                cur = S(cur.parts[1:])
                continue
            cur = front(run, cur)
            continue
        if p[0] == "lit":
            done = False
            for k in range(1, len(p[1])):
                c2 = S((("lit", p[1][k:]),) + cur.parts[1:])
                if rest.parts and rest.parts[0][0] == "lit" and norm_eq(run, c2, rest):
                    out.append(("lit", p[1][:k]))
                    return S(out)
            out.append(p)
            cur = S(cur.parts[1:])
            continue
        if p[0] in ("raw", "esc") and rest.parts and rest.parts[0][0] == "cut" and rest.parts[0][1] == p[1]:
            out.append((p[0], p[1] + ("#pre",), ("mask", lang(run, p)[0], 0)))
            return S(out)
        if p[0] == "fixnum" and rest.parts and rest.parts[0][0] == "fixdig" and rest.parts[0][1] == p[1]:
            raise Undecided("split date field")
        out.append(p)
        cur = S(cur.parts[1:])
    raise Undecided("consumed input")


class Split(Undecided):
    pass


class Beyond(Undecided):
    """The outcome depends on what follows the part under consideration."""


def has_bytes(run, p, mask):
    """Does the value contain a byte of `mask`?  (case split, consistent with earlier answers)"""
    m, mn = lang(run, p)
    mask &= m
    if not mask:
        return False
    for k, v in run.assume.items():
        if k and k[0] == "has" and k[1] == p[1] and v is True and not (k[2] & m) & ~mask:
            return True
    return run.choose(("has", p[1], mask), [False, True])


def take_while(run, s, mask, lo, hi):
    if is_any(s):
        return any_step(run, s, lambda: any_raw(run, mask, lo, hi), may_fail=lo > 0)
    out = []
    n = 0
    unknown = False
    while True:
        if hi is not None and n >= hi:
            break
        if excluded(run, s, mask):
            break
        s = front(run, s)
        if not s.parts:
            return INC()
        p = s.parts[0]
        if p[0] == "lit":
            b = p[1]
            k = 0
            while k < len(b) and mask >> b[k] & 1 and (hi is None or n < hi):
                k += 1
                n += 1
            if k:
                out.append(("lit", b[:k]))
            s = S((("lit", b[k:]),) + s.parts[1:])
            if k < len(b):
                break
            continue
        if p[0] == "eof":
            return INC()
        if p[0] == "follow":
            if p[1] & mask:
                raise Beyond("what follows may continue the token")
            if p[2]:
                raise Beyond("end of input")
            break
        if p[0] in ("raw", "num", "esc"):
            m, mn = lang(run, p)
            if p[0] == "esc":
                m |= 1 << 92
            if hi is not None:
                if not m & mask:
                    break
                if p[0] == "raw" and isinstance(p[2], tuple) and p[2][:1] == ("char",):
                    if m & ~mask and has_bytes(run, p, m & ~mask):
                        s = S((("cut", p[1], m & ~mask),) + s.parts[1:])
                        break
                    out.append(p)
                    n += 1
                    s = S(s.parts[1:])
                    continue
                raise Undecided("bounded take_while over a value")
            if m & ~mask == 0:
                out.append(p)
                n += 1
                s = S(s.parts[1:])
                continue
            if m & mask == 0:
                break
            bad = m & ~mask
            if p[0] == "num":
                raise Split("the parser stops inside the number")
            if not has_bytes(run, p, bad):
                out.append(p)
                n += 1
                s = S(s.parts[1:])
                continue
            # the parser stops inside the value, at a byte of `bad`
            if lo > n:
                if run.choose(("startsbad", p[1], bad), [False, True]):
                    s = S((("cut", p[1], bad),) + s.parts[1:])
                    break
            out.append((p[0], p[1] + ("#pre",), ("mask", m & mask, 1 if lo > n else 0)))
            n += 1
            s = S((("cut", p[1], bad),) + s.parts[1:])
            break
        if p[0] == "cut":
            if p[2] & mask:
                raise Split("the parser stops inside the value %s at %s" % (".".join(map(str, p[1][-3:])), show_mask(p[2])))
            break
        if p[0] == "fixnum":
            if not mask & DIGITS:
                break
            if mask & DIGITS != DIGITS:
                raise Undecided("partial digits")
            if hi is not None and n + p[2] > hi:
                # takes a prefix of the field only
                raise Split("the parser takes only part of the date field " + p[1][-1])
            out.append(p)
            n += p[2]
            s = S(s.parts[1:])
            continue
        raise Undecided("take_while against %r" % (p,))
    if n < lo:
        return ERR("too few characters")
    return OK(s, S(out))


def show_mask(m):
    return "{" + " ".join(repr(chr(b))[1:-1] if 32 < b < 127 else "%%x%02X" % b for b in range(256) if m >> b & 1)[:80] + "}"


def take(run, s, n):
    if is_any(s):
        n = run.d(n)
        if not is_int(n):
            run.__dict__.setdefault("takes", []).append(n)
        return any_step(run, s, lambda: any_raw(run, ALL, n, n) if is_int(n) else any_raw(run, ALL, 0))
    n = run.d(n)
    if is_int(n):
        out = []
        while n > 0:
            s = front(run, s)
            if not s.parts or s.parts[0][0] == "eof":
                return INC()
            p = s.parts[0]
            if p[0] == "lit":
                k = min(n, len(p[1]))
                out.append(("lit", p[1][:k]))
                s = S((("lit", p[1][k:]),) + s.parts[1:])
                n -= k
                continue
            if p[0] == "fixnum" and p[2] <= n:
                out.append(p)
                n -= p[2]
                s = S(s.parts[1:])
                continue
            raise Undecided("take over a value")
        return OK(s, S(out))
    if isinstance(n, Sym):
        base = n.path
        while base and str(base[-1]).startswith("as "):
            base = base[:-1]
        if base[-1:] == ("#len",):
            while s.parts and s.parts[0][0] == "frag":
                s = S(s.parts[1:])
            if s.parts and s.parts[0][0] == "raw" and s.parts[0][1] == base[:-1]:
                return OK(S(s.parts[1:]), S(s.parts[:1]))
            if run.assume.get(base[:-1] + ("#empty",)) is True:
                return OK(s, S())
        raise Undecided("take(%r) at %r" % (n, s.parts[:1]))
    raise Undecided("take(%r)" % (n,))


def escaped(run, s, normal, ctrl, escapable):
    """nom escaped(normal, control, escapable)."""
    if is_any(s):
        return any_step(run, s, lambda: any_raw(run, ALL if comb_mask(run, normal) is None else comb_mask(run, normal) | 1 << ctrl | (comb_mask(run, escapable) or 0), 1))
    s0 = s
    out = []
    while True:
        s = front(run, s)
        if not s.parts:
            return INC()
        p = s.parts[0]
        if p[0] == "esc":
            m, mn = lang(run, p)
            nm = comb_mask(run, normal)
            em = comb_mask(run, escapable)
            if nm is None or em is None:
                raise Undecided("escaped parser")
            plain = m & ~mask_of(b'"\\')
            if nm & mask_of(b'"\\'):
                raise Split("unescaped quote or backslash is taken as content")
            if ctrl != 92:
                raise Split("escape character")
            if plain & ~nm and has_bytes(run, p, plain & ~nm):
                out.append(("esc", p[1] + ("#pre",), ("mask", m & (nm | mask_of(b'"\\')), 0)))
                return OK(S((("cut", p[1], plain & ~nm),) + s.parts[1:]), S(out))
            if mask_of(b'"\\') & m & ~em:
                raise Split("escaped %s not accepted" % show_mask(mask_of(b'"\\') & m & ~em))
            out.append(p)
            s = S(s.parts[1:])
            continue
        if p[0] == "lit":
            b = p[1]
            nm = comb_mask(run, normal)
            if nm is None:
                raise Undecided("escaped parser")
            k = 0
            while k < len(b) and nm >> b[k] & 1:
                k += 1
            if k:
                out.append(("lit", b[:k]))
                s = S((("lit", b[k:]),) + s.parts[1:])
                continue
            if b[0] == ctrl:
                em = comb_mask(run, escapable)
                if len(b) < 2 or em is None:
                    raise Undecided("escape at the end of a literal part")
                if not em >> b[1] & 1:
                    return ERR("bad escape")
                out.append(("lit", b[:2]))
                s = S((("lit", b[2:]),) + s.parts[1:])
                continue
            return OK(s, S(out))
        if p[0] == "eof":
            return INC()
        if p[0] == "follow":
            nm = comb_mask(run, normal)
            if nm is None or p[1] & (nm | 1 << ctrl) or p[2]:
                raise Beyond("what follows may continue the token")
            return OK(s, S(out))
        raise Undecided("escaped against %r" % (p,))


def comb_mask(run, p):
    p = run.d(p)
    if isinstance(p, Comb):
        if p.kind in ("take_while1", "take_while"):
            return pred_mask(run, p.args[0])
        if p.kind in ("one_of",):
            return pred_mask(run, p.args[0])
        if p.kind == "none_of":
            return ALL & ~pred_mask(run, p.args[0])
        if p.kind == "char":
            return 1 << run.d(p.args[0]).c
    if isinstance(p, FnV):
        return None
    return None


def one_of_mask(run, s, mask, aschar):
    if is_any(s):
        def mk():
            bs = [b for b in range(256) if mask >> b & 1]
            if len(bs) == 1 or len(bs) <= 4:
                b = bs[0] if len(bs) == 1 else run.choose(("any", "byte", any_next(run)), bs)
                return Ch(b) if aschar else b
            p = ("$any", any_next(run))
            run.__dict__.setdefault("anychars", {})[p] = mask
            return Sym(p, ("prim", "char")) if aschar else Sym(p + ("as u8",), ("prim", "u8"))
        return any_step(run, s, mk, txt=lambda v: S((("raw", ("$any", any_next(run)), ("mask", mask, 1)),)))
    if excluded(run, s, mask):
        return ERR("unexpected character")
    s = front(run, s)
    if not s.parts or s.parts[0][0] == "eof":
        return INC()
    p = s.parts[0]
    if p[0] == "lit":
        b = p[1][0]
        if mask >> b & 1:
            return OK(S((("lit", p[1][1:]),) + s.parts[1:]), Ch(b) if aschar else b)
        return ERR("unexpected %r" % chr(b))
    if p[0] == "follow":
        if not p[1] & mask:
            return ERR("unexpected character")
        raise Beyond("lookahead beyond the part")
    if p[0] in ("raw", "num", "esc"):
        m, mn = lang(run, p)
        if p[0] == "esc":
            m = (m | 1 << 92) & ~(1 << 34)
        if not m & mask:
            return ERR("unexpected value")
        if isinstance(p[2], tuple) and p[2][:1] == ("char",) and m & ~mask == 0:
            return OK(S(s.parts[1:]), Sym(p[1], ("prim", "char")))
        raise Undecided("single character of a value")
    if p[0] == "cut":
        if not p[2] & mask:
            return ERR("unexpected %s inside a value" % show_mask(p[2]))
        raise Split("the parser stops inside a value")
    if p[0] == "fixnum":
        if not mask & DIGITS:
            return ERR("unexpected digit")
    raise Undecided("one_of against %r" % (p,))


def kind_of(r):
    if is_ok(r):
        return "Ok"
    e = r.f["0"]
    if isinstance(e, Con):
        return e.vn
    return "Error"


def res(run, r):
    r = run.d(r)
    if not isinstance(r, Con) or r.vn not in ("Ok", "Err"):
        raise Undecided("parser result %r" % (r,))
    if r.vn == "Ok":
        t = run.d(r.f["0"])
        if not isinstance(t, Tup):
            raise Undecided("parser result")
        return "Ok", sparts(run, t.items[0]), t.items[1], r
    return kind_of(r), None, None, r


def alts(run, v):
    v = run.d(v)
    if isinstance(v, Tup):
        return v.items
    if isinstance(v, ListV) and all(i[0] == "one" for i in v.items):
        return [i[1] for i in v.items]
    raise Undecided("alternatives")


def is_any(s):
    return bool(s.parts) and s.parts[0][0] == "any"


def any_next(run):
    n = run.__dict__.setdefault("anyc", 0) + 1
    run.anyc = n
    return n


def any_raw(run, mask, lo, hi=None):
    return S((("raw", ("$any", any_next(run)), ("mask", mask, lo, hi)),))


def any_event(run, s, o):
    run.__dict__.setdefault("anyev", []).append((s.parts[0][1], o))


def any_log(run, s, rest, txt):
    run.__dict__.setdefault("anylog", {})[s.parts[0][1]] = (txt.parts, rest.parts[0][1])


def any_step(run, s, mk, may_fail=True, txt=None):
    """A primitive on arbitrary input: succeeds with an arbitrary matching value, or does not match, or lacks input."""
    if s.parts[0][1] in run.__dict__.get("ended", ()):
        any_event(run, s, "Incomplete")
        return INC()
    o = run.choose(("any", "step", any_next(run)), ["ok", "err", "inc"] if may_fail else ["ok", "inc"])
    any_event(run, s, {"err": "Error", "inc": "Incomplete"}.get(o, o))
    if o == "err":
        return ERR("no match")
    if o == "inc":
        return INC()
    rest = S((("any", any_next(run)),))
    v = mk()
    any_log(run, s, rest, txt(v) if txt else v)
    return OK(rest, v)


def run_alt(run, ps, s):
    if is_any(s):
        # the alternatives are independent: each one is followed on its own
        i = run.choose(("any", "alt", any_next(run)), list(range(len(ps))))
        was = s.parts[0][1] in run.__dict__.get("ended", ())
        r = run.d(run.apply(ps[i], [s]))
        if not was and s.parts[0][1] in run.__dict__.get("ended", ()):
            # nothing has arrived here: what the alternatives do at the end of the input
            for j, p in enumerate(ps):
                k, rest, v, r2 = res(run, run.apply(p, [s])) if j != i else (kind_of(r), None, None, r)
                if k != "Error":
                    return r2
        return r
    last = None
    for p in ps:
        k, rest, v, r = res(run, run.apply(p, [s]))
        if k != "Error":
            return r
        last = r
    return last if last is not None else ERR("no alternative")


def try_rep(run, s, step):
    """At a repetition: one generic iteration of `step`.  Returns (value, rest after the repetition) or None."""
    while s.parts and s.parts[0][0] == "frag":
        s = S(s.parts[1:])
    if not s.parts or s.parts[0][0] != "rep":
        return None
    p = s.parts[0]
    sub_in = S(p[2] + s.parts)
    k, rest, v, r = res(run, step(sub_in))
    if k != "Ok":
        return None
    if not norm_eq(run, rest, s):
        raise Split("list parser: one element of %s is not consumed exactly (left %r)" % (".".join(map(str, p[1][-2:])), S(rest.parts[:4])))
    return ("tail", p[1], v), S(s.parts[1:])


def run_list(run, s, el, sep, lo, hi=None):
    items = []
    if is_any(s):
        n = any_next(run)
        if not lo and run.choose(("any", "none", n), [False, True]):
            return OK(s, run.new_list())
        k, rest, v, r = res(run, run.apply(el, [s]))
        if k != "Ok":
            return r
        items.append(("one", v))
        txt = sub(run, s, rest)
        if sep is not None:
            k2, rest2, v2, r2 = res(run, run.apply(sep, [rest]))
            if k2 in ("Incomplete", "Failure"):
                return r2
            if k2 == "Error":
                return OK(rest, run.new_list(items))
            txt = S(txt.parts + sub(run, rest, rest2).parts)
        if is_int(lo) and lo > 1:
            items.extend(("one", v) for x in range(lo - 1))
        if hi is None or hi > max(lo, 1):
            run.assume[("$any", n, "#empty")] = False
            items.append(("tail", ("$any", n), v))
        end = S((("any", any_next(run)),))
        mk = 0
        for p in txt.parts:
            mk |= mask_of(p[1]) if p[0] == "lit" else lang(run, p)[0] if p[0] == "raw" else ALL
        any_log(run, s, end, S((("raw", ("$any", any_next(run)), ("mask", mk, 1)),)))
        return OK(end, run.new_list(items))
    if sep is None:
        while True:
            if hi is not None and len([i for i in items if i[0] == "one"]) >= hi:
                break
            tr = try_rep(run, s, lambda x: run.apply(el, [x]))
            if tr is not None:
                items.append(tr[0])
                s = tr[1]
                continue
            k, rest, v, r = res(run, run.apply(el, [s]))
            if k == "Error":
                break
            if k != "Ok":
                return r
            if norm_eq(run, rest, s):
                return ERR("no progress")
            items.append(("one", v))
            s = rest
            if len(items) > 300:
                raise Undecided("list too long")
    else:
        def step(x):
            k, rest, v, r = res(run, run.apply(sep, [x]))
            if k != "Ok":
                return r
            return run.apply(el, [rest])
        k, rest, v, r = res(run, run.apply(el, [s]))
        if k == "Error" and lo == 0:
            return OK(s, run.new_list())
        if k != "Ok":
            return r
        items.append(("one", v))
        s = rest
        while True:
            tr = try_rep(run, s, step)
            if tr is not None:
                items.append(tr[0])
                s = tr[1]
                continue
            k, rest, v, r = res(run, run.apply(sep, [s]))
            if k == "Error":
                break
            if k != "Ok":
                return r
            k, rest2, v, r = res(run, run.apply(el, [rest]))
            if k == "Error":
                break
            if k != "Ok":
                return r
            items.append(("one", v))
            s = rest2
            if len(items) > 300:
                raise Undecided("list too long")
    if len([i for i in items if i[0] == "one"]) < lo:
        return ERR("too few elements")
    return OK(s, run.new_list(items))


def run(run, c, inp):
    s = sparts(run, inp)
    k = c.kind
    a = c.args
    if k in ("tag", "tag_no_case"):
        t = sparts(run, a[0]).conc()
        if t is None:
            raise Undecided("symbolic tag")
        return tag(run, s, t, k == "tag_no_case")
    if k == "char":
        ch = run.d(a[0])
        r = one_of_mask(run, s, 1 << ch.c, True)
        return r
    if k == "one_of":
        return one_of_mask(run, s, pred_mask(run, a[0]), True)
    if k == "none_of":
        return one_of_mask(run, s, ALL & ~pred_mask(run, a[0]), True)
    if k == "satisfy":
        return one_of_mask(run, s, pred_mask(run, a[0]), True)
    if k in ("take_while", "take_while1"):
        return take_while(run, s, pred_mask(run, a[0]), 1 if k[-1] == "1" else 0, None)
    if k in ("take_till", "take_till1", "is_not"):
        return take_while(run, s, ALL & ~pred_mask(run, a[0]), 0 if k == "take_till" else 1, None)
    if k == "is_a":
        return take_while(run, s, pred_mask(run, a[0]), 1, None)
    if k == "take_while_m_n":
        return take_while(run, s, pred_mask(run, a[2]), run.d(a[0]), run.d(a[1]))
    if k == "take":
        return take(run, s, a[0])
    if k == "take_until":
        return take_until(run, s, sparts(run, a[0]).conc())
    if k == "escaped":
        return escaped(run, s, a[0], run.d(a[1]).c, a[2])
    if k == "alt":
        return run_alt(run, alts(run, a[0]), s)
    if k == "tuple":
        vs = []
        for p in alts(run, a[0]):
            kk, rest, v, r = res(run, run.apply(p, [s]))
            if kk != "Ok":
                return r
            vs.append(v)
            s = rest
        return OK(s, Tup(vs))
    if k in ("preceded", "terminated", "pair", "separated_pair", "delimited", "and"):
        vs = []
        for p in a:
            kk, rest, v, r = res(run, run.apply(p, [s]))
            if kk != "Ok":
                return r
            vs.append(v)
            s = rest
        v = {"preceded": lambda: vs[1], "terminated": lambda: vs[0], "pair": lambda: Tup(vs), "and": lambda: Tup(vs),
             "separated_pair": lambda: Tup([vs[0], vs[2]]), "delimited": lambda: vs[1]}[k]()
        return OK(s, v)
    if k == "or":
        return run_alt(run, a, s)
    if k == "opt":
        kk, rest, v, r = res(run, run.apply(a[0], [s]))
        if kk == "Ok":
            return OK(rest, some(v))
        if kk == "Error":
            return OK(s, Con(OPTION, "None", {}))
        return r
    if k in ("map", "map_res", "map_opt"):
        kk, rest, v, r = res(run, run.apply(a[0], [s]))
        if kk != "Ok":
            return r
        x = run.apply(a[1], [v])
        if k == "map":
            return OK(rest, x)
        x = run.d(x)
        if isinstance(x, Sym):
            x = Con("?", run.variant(x), {"0": run.field(x, "0", run.variant(x))} if run.variant(x) in ("Ok", "Some") else {})
        if not isinstance(x, Con):
            raise Undecided("%s result %r" % (k, x))
        if x.vn in ("Ok", "Some"):
            return OK(rest, x.f["0"])
        return ERR("rejected by %s" % k)
    if k == "value":
        kk, rest, v, r = res(run, run.apply(a[1], [s]))
        return OK(rest, stdx.clone(run.d(a[0]))) if kk == "Ok" else r
    if k == "verify":
        kk, rest, v, r = res(run, run.apply(a[0], [s]))
        if kk != "Ok":
            return r
        return OK(rest, v) if run.truth(run.apply(a[1], [v])) else ERR("verify")
    if k == "recognize":
        kk, rest, v, r = res(run, run.apply(a[0], [s]))
        return OK(rest, sub(run, s, rest)) if kk == "Ok" else r
    if k == "consumed":
        kk, rest, v, r = res(run, run.apply(a[0], [s]))
        return OK(rest, Tup([sub(run, s, rest), v])) if kk == "Ok" else r
    if k == "peek":
        kk, rest, v, r = res(run, run.apply(a[0], [s]))
        return OK(s, v) if kk == "Ok" else r
    if k == "not":
        kk, rest, v, r = res(run, run.apply(a[0], [s]))
        if kk == "Ok":
            return ERR("not")
        return OK(s, UNIT) if kk == "Error" else r
    if k == "success":
        return OK(s, a[0])
    if k == "fail":
        return ERR("fail")
    if k in ("cut",):
        kk, rest, v, r = res(run, run.apply(a[0], [s]))
        return nom_err("Failure") if kk == "Error" else r
    if k == "complete_prim":
        return completed(run, run.apply(a[-1], [s]), run.d(a[-1]).kind)
    if k == "complete":
        return completed(run, run.apply(a[-1], [s]), "complete")
    if k in ("context", "into"):
        return run.apply(a[-1], [s])
    if k == "flat_map":
        kk, rest, v, r = res(run, run.apply(a[0], [s]))
        if kk != "Ok":
            return r
        return run.apply(run.apply(a[1], [v]), [rest])
    if k == "and_then":
        raise Undecided("and_then")
    if k == "cond":
        if run.truth(a[0]):
            kk, rest, v, r = res(run, run.apply(a[1], [s]))
            return OK(rest, some(v)) if kk == "Ok" else r
        return OK(s, Con(OPTION, "None", {}))
    if k == "many0":
        return run_list(run, s, a[0], None, 0)
    if k == "many1":
        return run_list(run, s, a[0], None, 1)
    if k == "many_m_n":
        return run_list(run, s, a[2], None, run.d(a[0]), run.d(a[1]))
    if k == "count":
        n = run.d(a[1])
        return run_list(run, s, a[0], None, n, n)
    if k == "separated_list0":
        return run_list(run, s, a[1], a[0], 0)
    if k == "separated_list1":
        return run_list(run, s, a[1], a[0], 1)
    if k in ("fold_many0", "fold_many1"):
        kk, rest, v, r = res(run, run_list(run, s, a[0], None, int(k[-1])))
        if kk != "Ok":
            return r
        acc = run.apply(a[1], [])
        it = run.mk_iter(v)
        while True:
            x = run.iter_next(it)
            if x is None:
                return OK(rest, acc)
            acc = run.apply(a[2], [acc, x])
    raise Undecided("no model for nom combinator %s" % k)


def take_until(run, s, t):
    if is_any(s):
        return any_step(run, s, lambda: any_raw(run, ALL, 0))
    out = []
    while True:
        al = run.opts.get("alpha")
        if al is not None and s.parts and s.parts[0][0] in ("tok", "rep") and not al(s.parts[:1]) >> t[0] & 1 and not (
                s.parts[0][0] == "tok" and run.opts["expanded"](run, s.parts[0])):
            out.append(s.parts[0])
            s = S(s.parts[1:])
            continue
        s = front(run, s)
        if not s.parts or s.parts[0][0] == "eof":
            return INC()
        p = s.parts[0]
        if p[0] == "lit":
            i = p[1].find(t)
            if i >= 0:
                out.append(("lit", p[1][:i]))
                return OK(S((("lit", p[1][i:]),) + s.parts[1:]), S(out))
            # a match that starts here and continues in the next part
            for j in range(1, len(t)):
                if p[1].endswith(t[:j]):
                    raise Undecided("take_until across parts")
            out.append(p)
            s = S(s.parts[1:])
            continue
        if p[0] in ("raw", "esc", "num"):
            m, mn = lang(run, p)
            if m >> t[0] & 1:
                raise Split("the value %s may contain %r" % (".".join(map(str, p[1][-3:])), t))
            out.append(p)
            s = S(s.parts[1:])
            continue
        if p[0] == "fixnum":
            out.append(p)
            s = S(s.parts[1:])
            continue
        raise Undecided("take_until against %r" % (p,))
