"""Transfer functions for library code whose body is not analysed.

A model says what a std (or alloc / core::fmt / pest-independent) operation does to
abstract values.  Operations that lose or reorder text or elements are deliberately
left as opaque terms, which never compare equal to a specified result.
"""
from .terms import *
from .interp import absorb, Abort, norm_eq0

M = {}


def model(*keys):
    def deco(f):
        for k in keys:
            M[k] = f
        return f

    return deco


def tyname(prog, t):
    ty = prog.tys[t]
    k = ty["k"]
    if k == "adt":
        return ty["p"].split("::")[-1]
    if k in ("ref", "ptr"):
        return tyname(prog, ty["t"])
    return k


def keys_of(ci):
    if "_keys" in ci:
        return ci["_keys"]
    ks = []
    name = ci["name"]
    segs = [x for x in name.replace("<", "").replace(">", "").split("::")]
    last = segs[-1]
    if ci.get("trait"):
        ks.append(ci["trait"].split("::")[-1] + "." + last)
    if len(segs) >= 2:
        ks.append(segs[-2].split(" ")[-1] + "." + last)
    ks.append("fn:" + last)
    ci["_keys"] = ks
    return ks


LOCAL = ("graphviz_rust", "dot_structures", "dot_generator", "into_attr", "vp_macros", "vp_derive", "into_attr_derive")


def lookup(ci):
    if ci.get("crate") in LOCAL:
        return None
    ks = keys_of(ci)
    for k in ks:
        if k.startswith("fn:") and len(ks) > 1 and k not in FREE:
            continue
        m = M.get(k)
        if m is not None:
            return m
    return None


FREE = set()


def free(*names):
    def deco(f):
        for n in names:
            M["fn:" + n] = f
            FREE.add("fn:" + n)
        return f

    return deco


# ------------------------------------------------------------------ helpers
def one(I, st, v):
    """the value behind exactly one reference"""
    if v[0] == "ref":
        return I.load(st, v[1], v[2])
    if v[0] == "sym" and I.tyk(v[2])["k"] in ("ref", "ptr"):
        return I.materialise(v[1], I.tyk(v[2])["t"])
    return v


def target(I, st, r):
    """innermost place designated by a (possibly nested) &mut"""
    while r[0] == "ref":
        v = I.load(st, r[1], r[2])
        if v[0] == "ref":
            r = v
        elif v[0] == "box":
            r = ("ref", r[1], r[2] + (("bx",),))
        else:
            return r
    return None


def setm(I, st, r, val):
    t = target(I, st, r)
    if t is None:
        s = st.copy()
        s.ev = s.ev + (("e", ("op", "lost write", (val,))),)
        return s
    return I.store(st, t[1], t[2], val)


def val(I, st, v):
    return I.deref(st, v)


def ret(st, v):
    return [(st, v)]


def constref(v):
    return ("ref", ("K", v), ())


def op(name, *a):
    return ("op", name, tuple(a))


def iter_of(I, st, v, byref):
    p = I.parts(st, v)
    if p is None:
        return None
    return ("iter", "ref" if byref else "val", absorb(tuple(p)))


# ------------------------------------------------------------- identity-like
@model(
    "Deref.deref", "AsRef.as_ref", "Borrow.borrow", "String.as_str", "String.as_bytes", "str.as_bytes",
    "String.as_mut_str", "Vec.as_slice", "DerefMut.deref_mut", "slice.as_ref", "PathBuf.as_path",
    "Box.as_ref", "BorrowMut.borrow_mut", "AsMut.as_mut", "Vec.as_mut_slice", "str.as_str", "Path.new",
    "TempPath.deref", "OsStr.new", "Path.as_os_str", "Path.as_ref", "String.leak", "NamedTempFile.as_file",
    "NamedTempFile.as_file_mut", "NamedTempFile.path", "Cow.deref",
)
def m_deref(I, st, ci, a, *_):
    v = one(I, st, a[0])
    if v[0] == "ref":
        if I.load(st, v[1], v[2])[0] == "ref":
            pass
        return ret(st, v)
    if v[0] == "box":
        return ret(st, ("ref", a[0][1], a[0][2] + (("bx",),)) if a[0][0] == "ref" else constref(v[1]))
    if v[0] == "agg" and v[1].endswith("borrow::Cow"):
        return ret(st, constref(v[3][0]))
    if a[0][0] == "ref":
        return ret(st, a[0])
    return ret(st, constref(v))


@free("precondition_check", "assert_unsafe_precondition", "assert_inhabited", "cold_path")
def m_precond(I, st, ci, a, *_):
    return ret(st, UNIT)


@free("must_use", "black_box", "identity")
def m_id(I, st, ci, a, *_):
    return ret(st, a[0])


@model(
    "ToOwned.to_owned", "str.to_owned", "str.into_string", "String.into_boxed_str", "String.into_bytes",
    "str.to_string", "Cow.into_owned", "String.into_string", "Path.to_path_buf", "str.into_boxed_str",
    "Cow.to_mut", "str.into_owned", "OsStr.to_os_string", "PathBuf.into_os_string", "str.to_str",
    "String.from_utf8_unchecked", "Path.into_path_buf",
)
def m_own(I, st, ci, a, fid, site, dty, loc):
    v = val(I, st, a[0])
    if v[0] == "agg" and v[1].endswith("borrow::Cow"):
        return ret(st, val(I, st, v[3][0]))
    return ret(st, v)


@model("Clone.clone", "Clone.clone_from_none")
def m_clone(I, st, ci, a, fid, site, dty, loc):
    v = one(I, st, a[0])
    if v[0] == "agg" and "body" in ci and ci.get("crate") not in ("core", "alloc", "std"):
        return None
    if v[0] == "ref":
        return ret(st, v)
    return ret(st, v)


@model("Clone.clone_from")
def m_clone_from(I, st, ci, a, *_):
    return ret(setm(I, st, a[0], one(I, st, a[1])), UNIT)


@model("From.from")
def m_from(I, st, ci, a, fid, site, dty, loc):
    v = a[0]
    d = I.tyk(dty) if dty is not None else None
    if d is not None and d["k"] == "adt":
        n = d["p"].split("::")[-1]
        if n == "String":
            return ret(st, ("S", I.text(st, v)))
        if n == "Box":
            x = v if v[0] == "box" else ("box", val(I, st, v))
            return ret(st, x)
        if n in ("Rc", "Arc") and v[0] == "box":
            return ret(st, v)
        if n in ("Vec", "PathBuf", "OsString", "Rc", "Arc"):
            return ret(st, val(I, st, v))
        if n == "Cow":
            return ret(st, val(I, st, v))
        if n == "HashMap":
            return ret(st, op("HashMap.from", val(I, st, v)))
        if n == "Error" and "io" in d["p"]:
            return ret(st, op("io::Error::from", val(I, st, v)))
    if v[0] == "lin":
        return ret(st, v)
    if v[0] in ("b", "cond"):
        return None
    return None


# ------------------------------------------------------------------ strings
@model("String.new", "String.with_capacity", "Default.default_str")
def m_snew(I, st, ci, a, *_):
    return ret(st, lit(""))


@model("Default.default")
def m_default(I, st, ci, a, fid, site, dty, loc):
    if dty is None:
        return None
    return ret(st, default_of(I, dty)) if default_of(I, dty) is not None else None


def default_of(I, t):
    ty = I.tyk(t)
    k = ty["k"]
    if I.is_str_ty(t):
        return lit("")
    if k == "bool":
        return FALSE
    if k == "int":
        return lin(0)
    if k == "float":
        return ("flt", "0")
    if k == "tuple" and not ty["ts"]:
        return UNIT
    if k == "adt":
        n = ty["p"].split("::")[-1]
        if n == "Vec":
            return ("seq", ())
        if n == "Option":
            return NONE
        if n in ("HashMap", "BTreeMap", "HashSet"):
            return ("hmap", ())
    return None


@model("String.push_str", "Write.write_str", "String.push", "Write.write_char", "Formatter.write_str", "Formatter.write_char")
def m_push_str(I, st, ci, a, *_):
    r = a[0]
    fm = val(I, st, r)
    t = I.text(st, a[1])
    res = UNIT if ci["name"].split("::")[-1].startswith("push") else ok(UNIT)
    if fm[0] == "agg" and fm[1] == "fmtr":
        return ret(setm(I, st, r, ("agg", "fmtr", 0, (("S", cat(fm[3][0][1], t)),))), res)
    if fm[0] == "S":
        return ret(setm(I, st, r, ("S", cat(fm[1], t))), res)
    return ret(setm(I, st, r, op("push_str", fm, ("S", t))), res)


@model("String.insert_str", "String.insert")
def m_insert_str(I, st, ci, a, *_):
    v = val(I, st, a[0])
    if v[0] == "S" and a[1] == lin(0):
        return ret(setm(I, st, a[0], ("S", cat(I.text(st, a[2]), v[1]))), UNIT)
    if v[0] == "S" and a[1] == I.strlen(v[1]):
        return ret(setm(I, st, a[0], ("S", cat(v[1], I.text(st, a[2])))), UNIT)
    I.panic(st, "String::insert: the position may lie inside a character", 0)
    return ret(setm(I, st, a[0], op("insert_str", v, a[1], ("S", I.text(st, a[2])))), UNIT)


@model("String.clear")
def m_sclear(I, st, ci, a, *_):
    return ret(setm(I, st, a[0], lit("")), UNIT)


@model("String.reserve", "Vec.reserve", "Vec.shrink_to_fit", "String.shrink_to_fit", "String.reserve_exact", "Vec.reserve_exact")
def m_noop(I, st, ci, a, *_):
    return ret(st, UNIT)


@model("String.pop")
def m_spop(I, st, ci, a, *_):
    v = val(I, st, a[0])
    if v[0] == "S" and v[1] and v[1][-1][0] == "lit":
        t = v[1][-1][1]
        return ret(setm(I, st, a[0], ("S", cat(v[1][:-1], (("lit", t[:-1]),)))), some(("chr", ord(t[-1]))))
    if v == lit(""):
        return ret(st, NONE)
    return ret(setm(I, st, a[0], op("String.pop", v)), op("popped", v))


@model("String.truncate")
def m_strunc(I, st, ci, a, fid, site, dty, loc):
    v = val(I, st, a[0])
    if v[0] == "S" and a[1][0] == "lin":
        # cut a known literal tail
        for n in range(len(v[1]) + 1):
            head = v[1][: len(v[1]) - n]
            if I.strlen(head) == a[1]:
                return ret(setm(I, st, a[0], ("S", head)), UNIT)
        if v[1] and v[1][-1][0] == "lit":
            base = I.strlen(v[1][:-1])
            d = lsub(a[1], base)
            t = v[1][-1][1]
            b = t.encode()
            if isconst(d) and 0 <= d[1] <= len(b):
                try:
                    return ret(setm(I, st, a[0], ("S", cat(v[1][:-1], (("lit", b[: d[1]].decode()),)))), UNIT)
                except UnicodeDecodeError:
                    pass
    if v[0] == "S" and a[1][0] == "lin" and I.ge0(st, lsub(a[1], I.strlen(v[1]))):
        return ret(st, UNIT)
    I.panic(st, "String::truncate: the length may lie inside a character", loc)
    return ret(setm(I, st, a[0], op("String.truncate", v, a[1])), UNIT)


@model("Add.add")
def m_sadd(I, st, ci, a, *_):
    if a[0][0] == "lin" or a[0][0] == "op" and val(I, st, a[1])[0] == "lin":
        return ret(st, ladd(a[0], val(I, st, a[1]))) if a[0][0] == "lin" and val(I, st, a[1])[0] == "lin" else None
    v = val(I, st, a[0])
    if v[0] == "S":
        return ret(st, ("S", cat(v[1], I.text(st, a[1]))))
    return None


@model("AddAssign.add_assign")
def m_saddassign(I, st, ci, a, *_):
    v = val(I, st, a[0])
    if v[0] == "S":
        return ret(setm(I, st, a[0], ("S", cat(v[1], I.text(st, a[1])))), UNIT)
    w = val(I, st, a[1])
    if v[0] == "lin" and w[0] == "lin":
        return ret(setm(I, st, a[0], ladd(v, w)), UNIT)
    return None


@model("String.len", "str.len")
def m_slen(I, st, ci, a, *_):
    v = val(I, st, a[0])
    if v[0] == "S":
        return ret(st, I.strlen(v[1]))
    return ret(st, sym(("slen", ("op", "text", (v,)))))


@model("str.is_empty", "String.is_empty")
def m_sempty(I, st, ci, a, *_):
    v = val(I, st, a[0])
    t = I.text(st, v)
    return ret(st, streq(I, st, t, ()))


def streq(I, st, a, b, neg=False):
    p = I.mkstreq(a, b)
    r = I.decide(st, p)
    if r is not None:
        return B(r != neg)
    return ("cond", ("not", p) if neg else p)


def chars_of(t):
    return t


@model("PartialEq.eq", "PartialEq.ne", "traits.eq", "str.eq", "partial_eq.eq", "SpecPartialEq.eq", "traits.ne")
def m_eq(I, st, ci, a, fid, site, dty, loc):
    neg = ci["name"].split("::")[-1] == "ne"
    x, y = val(I, st, a[0]), val(I, st, a[1])
    return eqv(I, st, ci, x, y, neg, fid, site, loc)


def eqv(I, st, ci, x, y, neg, fid=None, site=None, loc=None):
    if x[0] == "agg" and x[1].endswith("borrow::Cow"):
        x = val(I, st, x[3][0])
    if y[0] == "agg" and y[1].endswith("borrow::Cow"):
        y = val(I, st, y[3][0])
    if x[0] == "S" and y[0] == "S":
        return ret(st, streq(I, st, x[1], y[1], neg))
    if x[0] == "lin" and y[0] == "lin":
        return I.binop(st, "Ne" if neg else "Eq", x, y)
    if x[0] in ("b", "cond", "chr") and y[0] in ("b", "cond", "chr"):
        return I.binop(st, "Ne" if neg else "Eq", x, y)
    px, py = I.parts(st, x), I.parts(st, y)
    if px is not None and py is not None:
        if not px or not py:
            p = ("eq0", I.norm(I.seqlen(px or py)))
            r = I.decide(st, p)
            if r is not None:
                return ret(st, B(r != neg))
            return ret(st, ("cond", ("not", p) if neg else p))
    r = struct_eq(I, st, x, y)
    out = []
    for s, b in r:
        if isinstance(b, bool):
            out.append((s, B(b != neg)))
        else:
            out.append((s, ("cond", ("not", b) if neg else b)))
    return out


@model("slice.contains")
def m_slice_contains(I, st, ci, a, fid, site, dty, loc):
    p = I.parts(st, val(I, st, a[0]))
    y = val(I, st, a[1])
    if p is None or len(p) > 64 or any(x[0] != "e" for x in p):
        return None if "body" in ci else ret(st, op(ci["s"], val(I, st, a[0]), y))
    if not p:
        return ret(st, FALSE)
    out, cur = [], [st]
    for x in p:
        nxt = []
        for s in cur:
            for s1, c in eqv(I, s, ci, val(I, s, x[1]), y, False, fid, site, loc):
                for s2, b in I.boolcases(s1, c):
                    if b:
                        out.append((s2, TRUE))
                    else:
                        nxt.append(s2)
        cur = nxt
    return out + [(s, FALSE) for s in cur]


def struct_eq(I, st, x, y):
    """[(state, True/False/predicate)]"""
    if x == y and not has_op(x):
        return [(st, True)]
    if x[0] == "agg" and y[0] == "agg" and x[1] == y[1]:
        if x[2] != y[2]:
            return [(st, False)]
        return fields_eq(I, st, x[3], y[3])
    if x[0] == "tup" and y[0] == "tup" and len(x[1]) == len(y[1]):
        return fields_eq(I, st, x[1], y[1])
    for p, q in ((x, y), (y, x)):
        if p[0] == "sym" and q[0] == "agg":
            ty = I.tyk(p[2])
            if ty["k"] == "adt" and ty.get("vs"):
                out = []
                for s, d in I.variant_cases(st, p, p[2]):
                    vi = s.facts.get(("var", p[1]), 0)
                    if vi != q[2]:
                        out.append((s, False))
                    else:
                        fs = tuple(I.field(s, p, vi, i) for i in range(len(ty["vs"][vi]["f"])))
                        out += fields_eq(I, s, fs, q[3])
                return out
    if {x[0], y[0]} == {"chr", "lin"}:
        x, y = (lin(z[1]) if z[0] == "chr" else z for z in (x, y))
        p = ("eq0", norm_eq0(lsub(x, y)))
        r = I.decide(st, p)
        return [(st, r if r is not None else p)]
    a, b = sorted((x, y), key=repr)
    return [(st, ("p", "same", a, b))]


def fields_eq(I, st, xs, ys):
    cur = [(st, True)]
    for x, y in zip(xs, ys):
        nxt = []
        for s, b in cur:
            if b is False:
                nxt.append((s, False))
                continue
            x1, y1 = val(I, s, x), val(I, s, y)
            for s2, v in eqv(I, s, None, x1, y1, False):
                for s3, bb in I.boolcases(s2, v):
                    nxt.append((s3, bb))
        cur = nxt
    return cur


def has_op(v):
    return any(x and x[0] == "op" for x in walk(v))


@model("str.repeat")
def m_repeat(I, st, ci, a, *_):
    t = I.text(st, a[0])
    n = a[1]
    if n[0] != "lin":
        return ret(st, ("S", (("op", "repeat", (("S", t), n)),)))
    if isconst(n) and len(t) and not is_lit(t) and n[1] <= 8:
        return ret(st, ("S", cat(*([t] * n[1]))))
    return ret(st, ("S", cat((("rep", t, n),))))


@model("slice.join", "slice.concat", "Join.join", "Concat.concat")
def m_join(I, st, ci, a, *_):
    v = val(I, st, a[0])
    parts = I.parts(st, v)
    if parts is None:
        return ret(st, op("join", v))
    isjoin = len(a) > 1
    sep = I.text(st, a[1]) if isjoin else ()
    # text elements ?
    outs = [(st, (), False)]  # state, pieces, anything before?
    for i, p in enumerate(parts):
        nxt = []
        for s, acc, before in outs:
            if p[0] == "e":
                t = I.text(s, p[1])
                nxt.append((s, cat(acc, sep if before else (), t), True))
            elif p[0] in ("range", "list"):
                n = lsub(p[3], p[2])
                for s2, ne in I.split(s, ("ge0", ladd(n, lin(-1)))):
                    if not ne:
                        nxt.append((s2, acc, before))
                        continue
                    r = range_text(I, s2, p, sep, before)
                    if r is None:
                        return ret(st, op("join", v, ("S", sep)))
                    nxt.append((s2, cat(acc, r), True))
            else:
                return ret(st, op("join", v, ("S", sep)))
        outs = nxt
    return [(s, ("S", acc)) for s, acc, _ in outs]


def range_text(I, st, p, sep, before):
    """text of joining a non-empty range part"""
    lo, hi = p[2], p[3]
    if p[0] == "list":
        I.fresh += 1
        lid = ("join", p[1])
        k = ("k", lid)
        e = I.materialise(p[1] + (("ix", sym(k)),), p[4])
        alts = (((), ("e", e)),)
        alts = (((), (("e", e),)),)
    else:
        lid = p[1]
        alts = p[4]
        k = ("k", lid)
    if not isinstance(alts, tuple) or (alts and alts[0] == "?"):
        return None
    body = []
    for g, ps in alts:
        if any(q[0] != "e" for q in ps) or (not ps and sep and not before):
            return None
        t = ()
        for i, q in enumerate(ps):
            t = cat(t, sep if i else (), I.text(st, q[1]))
        body.append((g, t, bool(ps)))
    if before or not sep:
        return (("range", lid, lo, hi, tuple((g, cat(sep, t) if some else ()) for g, t, some in body)),)
    body = [(g, t) for g, t, _ in body]
    first = (("range", lid, lo, ladd(lo, lin(1)), tuple(body)),)
    if len(body) == 1 and not body[0][0]:
        first = subst(body[0][1], {k: lo})
    rest = (("range", lid, ladd(lo, lin(1)), hi, tuple((g, cat(sep, t)) for g, t in body)),)
    if I.ge0(st, lsub(ladd(lo, lin(1)), hi)):
        rest = ()
    return cat(first, rest)


def pure_str(name, f):
    def g(I, st, ci, a, *_):
        t = I.text(st, a[0])
        if is_lit(t):
            return ret(st, lit(f(lit_text(t))))
        return ret(st, ("S", (("op", name, (("S", t),)),)))

    for k in ("str.", "String."):
        M[k + name] = g


pure_str("to_lowercase", str.lower)
pure_str("to_uppercase", str.upper)
pure_str("to_ascii_lowercase", lambda s: "".join(c.lower() if c.isascii() else c for c in s))
pure_str("to_ascii_uppercase", lambda s: "".join(c.upper() if c.isascii() else c for c in s))


@model("str.make_ascii_lowercase", "str.make_ascii_uppercase", "String.make_ascii_lowercase", "String.make_ascii_uppercase")
def m_makeascii(I, st, ci, a, *_):
    n = ci["name"].split("::")[-1].replace("make", "to")
    if a[0][0] != "ref" or val(I, st, a[0])[0] not in ("S", "sym"):
        return None
    return [(setm(I, st, a[0], v), UNIT) for s, v in M["str." + n](I, st, ci, a)]


@model("char.to_ascii_lowercase", "methods.to_ascii_lowercase", "char.to_ascii_uppercase", "methods.to_ascii_uppercase")
def m_charcase(I, st, ci, a, *_):
    v = val(I, st, a[0])
    n = ci["name"].split("::")[-1]
    if v[0] == "chr":
        c = chr(v[1])
        return ret(st, ("chr", ord((c.lower() if "lower" in n else c.upper()) if c.isascii() else c)))
    if v[0] == "lin" and I.ge0(st, ladd(v, lin(-128))):
        return ret(st, v)
    return ret(st, op("char." + n, v))


def char_map(I, st, f, fid, site):
    """what a function from characters to characters does to a text, or None"""
    memo = I.__dict__.setdefault("_charmaps", {})
    if f in memo:
        return memo[f]
    memo[f] = None
    npanic = len(I.panics)
    x = sym(("i", (("opt", "any other char"),)))
    s = I.assume(st, ("ge0", ladd(x, lin(-128))), True)
    if s is None:
        return None
    table = {}
    for c in range(129):
        r = I.call_value(f, [("chr", c) if c < 128 else x], st if c < 128 else s, fid, (site, "char"), None, 0)
        if len(r) != 1 or len(I.panics) != npanic or r[0][0].ev != st.ev:
            return None
        v = I.deref(r[0][0], r[0][1])
        if c == 128:
            if v != x:
                return None
            continue
        if v[0] == "lin" and isconst(v):
            v = ("chr", v[1])
        if v[0] != "chr":
            return None
        table[chr(c)] = chr(v[1])
    for n, g in (("to_ascii_lowercase", str.lower), ("to_ascii_uppercase", str.upper)):
        if all(d == g(c) for c, d in table.items()):
            memo[f] = n
    return memo[f]


@model("Iterator.map")
def m_map(I, st, ci, a, fid, site, dty, loc):
    v = val(I, st, a[0])
    if v[0] == "op" and v[1] == "str.chars" and len(v[2]) == 1:
        n = char_map(I, st, val(I, st, a[1]), fid, site)
        if n is not None:
            return [(s, op("str.chars", t)) for s, t in M["str." + n](I, st, ci, [v[2][0]])]
    return None


pure_str("trim", str.strip)
pure_str("trim_end", str.rstrip)
pure_str("trim_start", str.lstrip)


CHAR_FNS = {
    "is_whitespace": lambda c: c.isspace(),
    "is_ascii_whitespace": lambda c: c in " \t\n\r\x0c",
    "is_ascii_digit": lambda c: c.isascii() and c.isdigit(),
    "is_ascii_punctuation": lambda c: c.isascii() and c.isprintable() and not c.isalnum() and c != " ",
}


def char_set(I, st, f, fid, site):
    """the characters a predicate accepts, when it accepts only ASCII ones"""
    if f[0] == "fn" and f[1] >= 0:
        n = I.prog.insts[f[1]]["name"].split("::")[-1]
        g = CHAR_FNS.get(n)
        if g is not None and n.startswith("is_ascii"):
            return "".join(chr(c) for c in range(128) if g(chr(c)))
        return None
    if f[0] != "clo" or fid is None:
        return None
    memo = I.__dict__.setdefault("_charsets", {})
    if f in memo:
        return memo[f]
    memo[f] = None
    got = []
    npanic = len(I.panics)

    def ask(c, s):
        res = I.call_value(f, [c], s, fid, (site, "char"), None, 0)
        vals = set()
        for s2, v in res:
            for _, b in I.boolcases(s2, v):
                vals.add(b)
        return vals

    for c in range(128):
        r = ask(("chr", c), st)
        if len(r) != 1 or len(I.panics) != npanic:
            return None
        if True in r:
            got.append(chr(c))
    x = sym(("i", (("opt", "any other char"),)))
    s = I.assume(st, ("ge0", ladd(x, lin(-128))), True)
    if s is None or ask(x, s) != {False}:
        return None
    memo[f] = "".join(got)
    return memo[f]


def pat(I, st, v, fid=None, site=None):
    """constant pattern: ('str', s) / ('set', chars) / None"""
    w = val(I, st, v)
    if w[0] in ("clo", "fn"):
        cs = char_set(I, st, w, fid, site)
        return ("set", cs) if cs is not None else None
    if w[0] == "chr":
        return ("set", chr(w[1]))
    if w[0] == "S" and is_lit(w[1]):
        return ("str", lit_text(w[1]))
    ps = I.parts(st, w)
    if ps is not None and all(p[0] == "e" and val(I, st, p[1])[0] == "chr" for p in ps):
        return ("set", "".join(sorted(chr(val(I, st, p[1])[1]) for p in ps)))
    return None


def last_of_range(I, st, t):
    """a text that ends with a repetition ends with what the last round appended"""
    if not t:
        return t
    r = t[-1]
    if r[0] != "range" or not isinstance(r[4], tuple):
        return t
    k = ("k", r[1])
    if r[4] and r[4][0] == "?":
        last = r[4][3] if len(r[4]) > 3 else None
        if last is None:
            # ask the loop to find out what every round ends with
            I.wanted_last.add(r[4][1])
            return t
    else:
        ends = {b[-1] if b else None for _, b in r[4]}
        last = ends.pop() if len(ends) == 1 else None
    if last is None or not I.nonempty(st, last):
        return t
    prev = t[-2] if len(t) > 1 else None
    if I.ge0(st, ladd(lsub(r[3], r[2]), lin(-1))) or prev == subst(last, {k: ladd(r[2], lin(-1))}):
        return (subst(last, {k: ladd(r[3], lin(-1))}),)
    return t


@model("str.ends_with", "str.starts_with", "str.contains")
def m_ends(I, st, ci, a, fid, site, dty, loc):
    t = I.text(st, a[0])
    which = ci["name"].split("::")[-1]
    p = pat(I, st, a[1], fid, site)
    if p is None:
        return ret(st, ("cond", ("p", which, t, a[1])))
    if which == "contains":
        if is_lit(t):
            s = lit_text(t)
            return ret(st, B(p[1] in s if p[0] == "str" else any(c in s for c in p[1])))
        if any(q[0] == "lit" and (p[1] in q[1] if p[0] == "str" else any(c in q[1] for c in p[1])) for q in t):
            return ret(st, TRUE)
        return ret(st, ("cond", ("p", which, t, p)))
    end = which == "ends_with"
    opts = [p[1]] if p[0] == "str" else list(p[1])
    if not t:
        return ret(st, B("" in opts))
    if end:
        t = last_of_range(I, st, t)
    e = t[-1] if end else t[0]
    if e[0] == "lit":
        full = is_lit(t)
        r = None
        for o in opts:
            if (e[1].endswith(o) if end else e[1].startswith(o)):
                r = True
        if r is None:
            if full or all(len(o) <= len(e[1]) for o in opts):
                r = False
        if r is not None:
            return ret(st, B(r))
    # only the last (first) non-empty piece matters for one-character patterns
    if all(len(o) == 1 for o in opts) and I.nonempty(st, e):
        t = (e,)
    return ret(st, ("cond", ("p", which, t, p)))


@model("str.strip_suffix", "str.strip_prefix")
def m_strip(I, st, ci, a, fid, site, dty, loc):
    t = I.text(st, a[0])
    end = ci["name"].endswith("suffix")
    p = pat(I, st, a[1], fid, site)
    if p is None:
        return ret(st, op("strip", ("S", t), a[1]))
    opts = [p[1]] if p[0] == "str" else list(p[1])
    e = (t[-1] if end else t[0]) if t else ("lit", "")
    if e[0] == "lit":
        for o in opts:
            if (e[1].endswith(o) if end else e[1].startswith(o)):
                rest = e[1][: len(e[1]) - len(o)] if end else e[1][len(o):]
                q = cat(t[:-1], (("lit", rest),)) if end else cat((("lit", rest),), t[1:])
                return ret(st, some(("S", q)))
        if is_lit(t) or all(len(o) <= len(e[1]) for o in opts):
            return ret(st, NONE)
    pr = ("p", "ends_with" if end else "starts_with", t, p)
    out = []
    for s, b in I.split(st, pr):
        if b:
            out.append((s, some(("S", (("op", "strip", (("S", t), ("pat",) + p)),)))))
        else:
            out.append((s, NONE))
    return out


@model("str.replace", "str.replacen", "String.replace_range", "String.remove", "String.retain", "str.escape_default", "str.escape_debug")
def m_replace(I, st, ci, a, *_):
    n = ci["name"].split("::")[-1]
    t = I.text(st, a[0])
    if n == "replace" and is_lit(t):
        p, q = pat(I, st, a[1]), I.text(st, a[2])
        if p and is_lit(q):
            s = lit_text(t)
            for o in [p[1]] if p[0] == "str" else list(p[1]):
                s = s.replace(o, lit_text(q))
            return ret(st, lit(s))
    v = ("S", (("op", n, (("S", t),) + tuple(val(I, st, x) for x in a[1:])),))
    if n in ("replace_range", "remove"):
        I.panic(st, "String::%s: the position may be out of range or inside a character" % n, 0)
    if n in ("replace_range", "remove", "retain"):
        return ret(setm(I, st, a[0], v), op(n, ("S", t)) if n == "remove" else UNIT)
    return ret(st, v)


@model("str.eq_ignore_ascii_case")
def m_eqi(I, st, ci, a, *_):
    x, y = I.text(st, a[0]), I.text(st, a[1])
    if is_lit(x) and is_lit(y):
        return ret(st, B(lit_text(x).lower() == lit_text(y).lower()))
    return ret(st, ("cond", ("p", "eqi") + tuple(sorted((x, y), key=repr))))


@model("String.from_utf8_lossy")
def m_lossy(I, st, ci, a, *_):
    v = val(I, st, a[0])
    if v[0] == "S":
        return ret(st, v)
    return ret(st, ("S", (("op", "utf8", (v,)),)))


@model("String.from_utf8", "str.from_utf8", "converts.from_utf8")
def m_fromutf8(I, st, ci, a, *_):
    v = val(I, st, a[0])
    if v[0] == "S":
        return ret(st, ok(v))
    out = []
    for s, b in I.split(st, ("p", "utf8ok", v)):
        out.append((s, ok(("S", (("op", "utf8", (v,)),))) if b else err(op("utf8err", v))))
    return out


@model("Path.to_string_lossy", "OsStr.to_string_lossy", "Path.display", "OsString.to_string_lossy")
def m_pathlossy(I, st, ci, a, *_):
    v = val(I, st, a[0])
    if v[0] == "S":
        return ret(st, v)
    return ret(st, ("S", (("op", "pathtext", (v,)),)))


@model("Path.to_str", "OsStr.to_str")
def m_pathstr(I, st, ci, a, *_):
    v = val(I, st, a[0])
    if v[0] == "S":
        return ret(st, some(v))
    out = []
    for s, b in I.split(st, ("p", "utf8ok", v)):
        out.append((s, some(("S", (("op", "pathtext", (v,)),))) if b else NONE))
    return out


# ----------------------------------------------------------------- formatting
def call_fmt(I, st, fmti, x, fid, site, loc, kind):
    """pieces produced by running a Display/Debug impl"""
    ci = I.prog.insts[fmti]
    v = val(I, st, x)
    if kind == "d":
        if v[0] == "S":
            return [(st, v[1])]
        if v[0] == "agg" and v[1].endswith("borrow::Cow"):
            return [(st, I.text(st, v))]
        if v[0] in ("chr",):
            return [(st, (("lit", chr(v[1])),))]
        if v[0] == "lin" and isconst(v):
            return [(st, (("lit", str(v[1])),))]
        if v[0] == "b":
            return [(st, (("lit", "true" if v[1] else "false"),))]
        if v[0] == "fmtargs":
            return [(st, v[1])]
    if "body" in ci:
        cell = ("T", fid, site, "fmtr%d" % I.depthmark())
        s = st.copy()
        s.mem[cell] = ("agg", "fmtr", 0, (lit(""),))
        a0 = x
        # &T expected
        r = []
        vv = x
        while vv[0] == "ref":
            nx = I.load(s, vv[1], vv[2])
            if nx[0] != "ref":
                break
            vv = nx
        if vv[0] != "ref":
            vv = constref(v)
        for s2, _ in I.call(ci, [vv, ("ref", cell, ())], s, fid, site, None, loc):
            f = s2.mem.get(cell)
            s2 = s2.copy()
            s2.mem.pop(cell, None)
            t = f[3][0][1] if f and f[0] == "agg" and f[3][0][0] == "S" else (("op", "fmt", (f or UNIT,)),)
            r.append((s2, t))
        return r
    if kind == "d" and I.hooks:
        r = I.hooks.display(I, st, v)
        if r is not None:
            return [(st, r)]
    return [(st, (("disp" if kind == "d" else "dbg", v),))]


@model("Argument.new_display", "Argument.new_debug", "Argument.new_lower_hex", "Argument.new_upper_hex", "Argument.new_lower_exp")
def m_arg(I, st, ci, a, fid, site, dty, loc):
    n = ci["name"].split("::")[-1]
    if n in ("new_display", "new_debug") and "aux_fmt" in ci:
        out = []
        for s, t in call_fmt(I, st, ci["aux_fmt"], a[0], fid, site, loc, "d" if n == "new_display" else "g"):
            out.append((s, ("farg", t)))
        return out
    return ret(st, ("farg", (("op", n, (val(I, st, a[0]),)),)))


@model("Argument.from_usize")
def m_argu(I, st, ci, a, *_):
    return ret(st, ("fusize", val(I, st, a[0])))


@model("Argument.none")
def m_argn(I, st, ci, a, *_):
    return ret(st, ("seq", ()))


def decode_template(b):
    """fmt template bytes -> list of ('lit', text) | ('ph', {..})"""
    out = []
    i = 0
    arg = 0
    b = bytes(b)
    while i < len(b):
        c = b[i]
        i += 1
        if c == 0:
            break
        if c < 0x80:
            out.append(("lit", b[i:i + c].decode("utf8", "replace")))
            i += c
        elif c == 0x80:
            n = b[i] | b[i + 1] << 8
            i += 2
            out.append(("lit", b[i:i + n].decode("utf8", "replace")))
            i += n
        elif c & 0xC0 == 0xC0:
            ph = {"arg": arg}
            if c & 1:
                ph["flags"] = int.from_bytes(b[i:i + 4], "little")
                i += 4
            if c & 2:
                ph["width"] = b[i] | b[i + 1] << 8
                i += 2
            if c & 4:
                ph["prec"] = b[i] | b[i + 1] << 8
                i += 2
            if c & 8:
                ph["arg"] = b[i] | b[i + 1] << 8
                i += 2
            if c & 16:
                ph["wind"] = True
            if c & 32:
                ph["pind"] = True
            arg = ph["arg"] + 1
            out.append(("ph", ph))
        else:
            out.append(("bad", c))
    return out


@model("Arguments.new")
def m_args_new(I, st, ci, a, *_):
    tb = val(I, st, a[0])
    if tb[0] == "S" and is_lit(tb[1]):
        tb = ("bytes", tuple(lit_text(tb[1]).encode()))
    if tb[0] == "seq":
        tb = ("bytes", tuple(p[1][1] for p in tb[1]))
    args = I.parts(st, val(I, st, a[1]))
    if tb[0] != "bytes" or args is None:
        return ret(st, ("fmtargs", (("op", "fmt", (tb,)),)))
    vals = [p[1] for p in args]
    out = ()
    for t in decode_template(tb[1]):
        if t[0] == "lit":
            out = cat(out, (t,))
        elif t[0] == "ph":
            ph = t[1]
            v = vals[ph["arg"]] if ph["arg"] < len(vals) else ("op", "arg", ())
            v = val(I, st, v)
            p = v[1] if v[0] == "farg" else (("op", "fmtarg", (v,)),)
            if "width" in ph:
                w = lin(ph["width"])
                if ph.get("wind"):
                    x = val(I, st, vals[ph["width"]]) if ph["width"] < len(vals) else ("op", "w", ())
                    w = x[1] if x[0] == "fusize" else ("op", "width", (x,))
                fl = ph.get("flags", 0x20)
                fill = chr(fl & 0x1FFFFF) if fl & 0x1FFFFF else " "
                if p == () and w[0] == "lin":
                    p = (("rep", (("lit", fill),), w),)
                elif is_lit(p) and isconst(w) and len(lit_text(p)) >= w[1]:
                    pass
                else:
                    p = (("op", "pad", (("S", p), w)),)
            elif "prec" in ph or ph.get("flags") not in (None,):
                if ph.get("flags", 0) & 0xFFE00000 and any(x[0] == "dbg" for x in p):
                    p = (("op", "fmtflags", (("S", p), lin(ph.get("flags", 0)))),)
                elif "prec" not in ph and ph.get("flags", 0) & 0x01A00000 and any(x[0] not in ("lit", "txt") for x in p):
                    # {:#}, {:+}, {:0}: how a value is shown depends on them
                    p = (("op", "fmtflags", (("S", p), lin(ph.get("flags", 0)))),)
                elif "prec" in ph:
                    p = (("op", "prec", (("S", p),)),)
            out = cat(out, p)
        else:
            out = cat(out, (("op", "fmt", ()),))
    return ret(st, ("fmtargs", out))


@model("Arguments.from_str", "Arguments.from_str_nonconst", "Arguments.new_const")
def m_args_str(I, st, ci, a, *_):
    v = val(I, st, a[0])
    ps = I.parts(st, v) if v[0] != "S" else None
    if ps is not None:
        t = ()
        for p in ps:
            t = cat(t, I.text(st, p[1]))
        return ret(st, ("fmtargs", t))
    return ret(st, ("fmtargs", I.text(st, v)))


@model("Arguments.as_str")
def m_args_asstr(I, st, ci, a, *_):
    v = val(I, st, a[0])
    if v[0] == "fmtargs" and is_lit(v[1]):
        return ret(st, some(("S", v[1])))
    return ret(st, NONE)


@model("fmt.format")
def m_format(I, st, ci, a, *_):
    v = val(I, st, a[0])
    return ret(st, ("S", v[1]) if v[0] == "fmtargs" else ("S", (("op", "format", (v,)),)))


M["fn:format"] = m_format
FREE.add("fn:format")


@model("Write.write_fmt", "Formatter.write_fmt", "fmt.write")
def m_write_fmt(I, st, ci, a, fid, site, dty, loc):
    v = val(I, st, a[1])
    if v[0] != "fmtargs":
        return None
    t = val(I, st, a[0])
    if t[0] == "S":
        return ret(setm(I, st, a[0], ("S", cat(t[1], v[1]))), ok(UNIT))
    if t[0] == "agg" and t[1] == "fmtr":
        return ret(setm(I, st, a[0], ("agg", "fmtr", 0, (("S", cat(t[3][0][1], v[1])),))), ok(UNIT))
    if t[0] in ("tmp", "file"):
        return m_write_all(I, st, ci, [a[0], ("S", v[1])], fid, site, dty, loc)
    return None


def fmtr_push(I, st, f, t):
    v = val(I, st, f)
    if v[0] == "agg" and v[1] == "fmtr":
        return setm(I, st, f, ("agg", "fmtr", 0, (("S", cat(v[3][0][1], t)),)))
    return setm(I, st, f, op("fmt", v, ("S", t)))


@model("Formatter.pad")
def m_pad(I, st, ci, a, *_):
    return ret(fmtr_push(I, st, a[0], I.text(st, a[1])), ok(UNIT))


@model("Display.fmt")
def m_display_fmt(I, st, ci, a, fid, site, dty, loc):
    v = val(I, st, a[0])
    if "body" in ci and ci["crate"] not in ("core", "alloc", "std"):
        return None
    r = call_fmt(I, st, ci["i"], a[0], fid, site, loc, "d") if "body" not in ci else None
    if r is None:
        return None
    return [(fmtr_push(I, s, a[1], t), ok(UNIT)) for s, t in r]


@model("Debug.fmt")
def m_debug_fmt(I, st, ci, a, *_):
    if "body" in ci:
        return None
    return ret(fmtr_push(I, st, a[1], (("dbg", val(I, st, a[0])),)), ok(UNIT))


@model("Formatter.debug_c_like_enum_write_str")
def m_cenum(I, st, ci, a, *_):
    t = I.text(st, a[1])
    i = a[2]
    if is_lit(t) and i[0] == "lin" and isconst(i):
        s = lit_text(t)[i[1]:]
        return ret(fmtr_push(I, st, a[0], (("lit", s.split(" ")[0]),)), ok(UNIT))
    return ret(fmtr_push(I, st, a[0], (("op", "enumname", (("S", t), i)),)), ok(UNIT))


@model(
    "Formatter.debug_tuple_field1_finish", "Formatter.debug_tuple_field2_finish", "Formatter.debug_tuple_field3_finish",
    "Formatter.debug_struct_field1_finish", "Formatter.debug_struct_field2_finish", "Formatter.debug_struct_field3_finish",
    "Formatter.debug_tuple_fields_finish", "Formatter.debug_struct_fields_finish", "Formatter.debug_struct_field4_finish",
    "Formatter.debug_struct_field5_finish",
)
def m_dbg(I, st, ci, a, *_):
    t = cat(I.text(st, a[1]), (("lit", "("),), (("op", "debug fields", tuple(val(I, st, x) for x in a[2:])),), (("lit", ")"),))
    return ret(fmtr_push(I, st, a[0], t), ok(UNIT))


@model("ToString.to_string", "SpecToString.spec_to_string")
def m_tostring(I, st, ci, a, fid, site, dty, loc):
    v = val(I, st, a[0])
    if v[0] == "S":
        return ret(st, v)
    if "aux_fmt" in ci:
        return [(s, ("S", t)) for s, t in call_fmt(I, st, ci["aux_fmt"], a[0], fid, site, loc, "d")]
    return ret(st, ("S", (("disp", v),)))


# ------------------------------------------------------------------ sequences
@model("Vec.new", "Vec.with_capacity", "VecDeque.new", "VecDeque.with_capacity")
def m_vnew(I, st, ci, a, *_):
    return ret(st, ("seq", ()))


@model("Vec.push", "VecDeque.push_back")
def m_vpush(I, st, ci, a, *_):
    v = val(I, st, a[0])
    p = I.parts(st, v)
    if p is None:
        return ret(setm(I, st, a[0], op("push", v, a[1])), UNIT)
    return ret(setm(I, st, a[0], ("seq", tuple(p) + (("e", a[1]),))), UNIT)


@model("Vec.insert", "VecDeque.push_front")
def m_vinsert(I, st, ci, a, *_):
    v = val(I, st, a[0])
    p = I.parts(st, v)
    ix, x = (a[1], a[2]) if len(a) > 2 else (lin(0), a[1])
    if p is not None and ix == lin(0):
        return ret(setm(I, st, a[0], ("seq", (("e", x),) + tuple(p))), UNIT)
    if p is not None and ix == I.seqlen(p):
        return ret(setm(I, st, a[0], ("seq", tuple(p) + (("e", x),))), UNIT)
    if p is None or ix[0] != "lin" or not I.ge0(st, lsub(I.seqlen(p), ix)):
        I.panic(st, "Vec::insert: index may be out of bounds", 0)
    return ret(setm(I, st, a[0], op("Vec.insert", v, ix, x)), UNIT)


@model("Vec.append")
def m_vappend(I, st, ci, a, *_):
    p, q = I.parts(st, val(I, st, a[0])), I.parts(st, val(I, st, a[1]))
    if p is None or q is None:
        return None
    s = setm(I, st, a[0], ("seq", tuple(p) + tuple(q)))
    return ret(setm(I, s, a[1], ("seq", ())), UNIT)


@model("Vec.extend_from_slice")
def m_vext(I, st, ci, a, *_):
    p, q = I.parts(st, val(I, st, a[0])), I.parts(st, val(I, st, a[1]))
    if p is None or q is None:
        return None
    return ret(setm(I, st, a[0], ("seq", tuple(p) + tuple(q))), UNIT)


@model("Vec.clear")
def m_vclear(I, st, ci, a, *_):
    return ret(setm(I, st, a[0], ("seq", ())), UNIT)


@model("Vec.pop", "VecDeque.pop_back")
def m_vpop(I, st, ci, a, *_):
    v = val(I, st, a[0])
    p = I.parts(st, v)
    if p is not None:
        r = take_last(I, st, p, False)
        if r is not None:
            return [(setm(I, s, a[0], ("seq", q)), x) for s, x, q in r]
    return ret(setm(I, st, a[0], op("popped", v)), op("pop", v))


@model("TryFrom.try_from", "TryInto.try_into", "slice.first_chunk", "slice.as_array")
def m_toarray(I, st, ci, a, fid, site, dty, loc):
    """a list of exactly N elements"""
    ty = I.prog.tys[dty] if dty is not None else {"k": ""}
    if ty["k"] != "adt" or not ty.get("args"):
        return None
    t = I.prog.tys[ty["args"][0]]
    byref = t["k"] == "ref"
    if byref:
        t = I.prog.tys[t["t"]]
    if t["k"] != "array" or not 0 <= t["len"] <= 8:
        return None
    v = val(I, st, a[0])
    p = I.parts(st, v)
    n = ci["name"].split("::")[-1]
    if p is None or not byref and n.startswith("try_") and a[0][0] == "ref":
        return None
    no = err(v if not byref else UNIT) if n.startswith("try_") else NONE
    yes = ok if n.startswith("try_") else some
    out = []
    work = [(st, (), p)]
    for i in range(t["len"] + 1):
        nxt = []
        for s, front, q in work:
            r = take_first(I, s, q, False)
            if r is None:
                return None
            for s2, x, rest in r:
                if i == t["len"]:
                    if x != NONE and n != "first_chunk":
                        out.append((s2, no))
                    else:
                        arr = ("seq", front)
                        out.append((s2, yes(constref(arr) if byref else arr)))
                elif x == NONE:
                    out.append((s2, no))
                else:
                    nxt.append((s2, front + (("e", x[3][0]),), rest))
        work = nxt
    return out


@model("Vec.remove", "Vec.swap_remove")
def m_vremove(I, st, ci, a, *_):
    v = val(I, st, a[0])
    p = I.parts(st, v)
    if p is not None and a[1] == lin(0) and ci["name"].endswith("::remove"):
        r = take_first(I, st, p, False)
        if r is not None:
            out = []
            for s, x, q in r:
                if x == NONE:
                    I.panic(s, "Vec::remove: index out of bounds", 0)
                    continue
                out.append((setm(I, s, a[0], ("seq", q)), x[3][0]))
            return out
    if p is not None and isconst(a[1]) and a[1][1] < 8 and ci["name"].endswith("::remove"):
        out, work = [], [(st, (), p)]
        for n in range(a[1][1] + 1):
            nxt = []
            for s, front, q in work:
                r = take_first(I, s, q, False)
                if r is None:
                    nxt = out = None
                    break
                for s2, x, rest in r:
                    if x == NONE:
                        I.panic(s2, "Vec::remove: index out of bounds", 0)
                    elif n == a[1][1]:
                        out.append((setm(I, s2, a[0], ("seq", front + rest)), x[3][0]))
                    else:
                        nxt.append((s2, front + (("e", x[3][0]),), rest))
            if nxt is None:
                break
            work = nxt
        if out is not None:
            return out
    if p is not None:
        I.panic(st, "Vec::remove: index may be out of bounds", 0)
    return ret(setm(I, st, a[0], op("Vec.remove", v, a[1])), op("removed", v, a[1]))


@model(
    "Vec.truncate", "Vec.retain", "Vec.retain_mut", "Vec.dedup", "Vec.dedup_by", "Vec.dedup_by_key", "slice.reverse",
    "slice.sort", "slice.sort_by", "slice.sort_by_key", "slice.sort_unstable", "slice.sort_unstable_by",
    "slice.sort_unstable_by_key", "slice.swap", "slice.rotate_left", "slice.rotate_right", "slice.sort_by_cached_key",
)
def m_vlossy(I, st, ci, a, *_):
    v = val(I, st, a[0])
    n = ci["name"].split("::")[-1]
    p = I.parts(st, v)
    if p == ():
        return ret(st, UNIT)
    if p is not None and n == "truncate" and a[1][0] == "lin":
        if I.ge0(st, lsub(a[1], I.seqlen(p))):
            return ret(st, UNIT)
        if all(x[0] == "e" for x in p) and isconst(a[1]):
            return ret(setm(I, st, a[0], ("seq", p[: a[1][1]])), UNIT)
        if len(p) == 1 and p[0][0] == "list" and I.ge0(st, lsub(I.seqlen(p), a[1])):
            q = p[0]
            return ret(setm(I, st, a[0], ("seq", (("list", q[1], q[2], ladd(q[2], a[1]), q[4]),))), UNIT)
    return ret(setm(I, st, a[0], op("Vec." + n, v, *[val(I, st, x) for x in a[1:]])), UNIT)


@model("Vec.drain", "Vec.splice", "Vec.split_off")
def m_drain(I, st, ci, a, *_):
    v = val(I, st, a[0])
    p = I.parts(st, v)
    n = ci["name"].split("::")[-1]
    if n == "drain" and p is not None:
        r = a[1]
        if r[0] == "agg" and r[1].endswith("RangeFull"):
            return ret(setm(I, st, a[0], ("seq", ())), ("iter", "val", tuple(p)))
        if r == UNIT:
            return ret(setm(I, st, a[0], ("seq", ())), ("iter", "val", tuple(p)))
    return ret(setm(I, st, a[0], op("Vec." + n, v)), op(n, v))


@model("Vec.len", "slice.len", "VecDeque.len", "ExactSizeIterator.len")
def m_vlen(I, st, ci, a, *_):
    v = val(I, st, a[0])
    p = I.parts(st, v) if v[0] != "iter" else v[2]
    if p is None:
        if v[0] == "S":
            return ret(st, I.strlen(v[1]))
        return ret(st, sym(("len", v)))
    return ret(st, I.seqlen(p))


@model("Vec.is_empty", "slice.is_empty", "VecDeque.is_empty", "ExactSizeIterator.is_empty")
def m_vempty(I, st, ci, a, *_):
    v = val(I, st, a[0])
    if v[0] == "S":
        return ret(st, streq(I, st, v[1], ()))
    p = I.parts(st, v) if v[0] != "iter" else v[2]
    l = I.seqlen(p) if p is not None else sym(("len", v))
    pr = ("eq0", I.norm(l))
    r = I.decide(st, pr)
    return ret(st, B(r) if r is not None else ("cond", pr))


@model("slice.iter", "Vec.iter", "VecDeque.iter", "Option.iter_none")
def m_iter(I, st, ci, a, *_):
    v = val(I, st, a[0])
    it = iter_of(I, st, v, True)
    if it is None:
        return ret(st, op("iter", v))
    return ret(st, it)


@model("Option.iter")
def m_opt_iter(I, st, ci, a, *_):
    """no element or one"""
    v = val(I, st, a[0])
    if v[0] == "agg" and v[1] == OPT:
        return ret(st, ("iter", "ref", tuple(("e", x) for x in v[3])))
    if v[0] != "sym" or not I.tyk(v[2]).get("vs"):
        return None
    out = []
    for s, d in I.variant_cases(st, v, v[2]):
        out.append((s, ("iter", "ref", (("e", I.field(s, v, 1, 0)),) if d == lin(1) else ())))
    return out


def opt_iter(I, st, v):
    """[(state, iterator)] over the value an option may hold"""
    if v[0] == "agg" and v[1] == OPT:
        return [(st, ("iter", "val", tuple(("e", x) for x in v[3])))]
    if v[0] == "sym" and I.tyk(v[2])["k"] == "adt" and I.tyk(v[2])["p"] == OPT:
        return [(s, ("iter", "val", (("e", I.field(s, v, 1, 0)),) if d == lin(1) else ())) for s, d in I.variant_cases(st, v, v[2])]
    return None


@model("IntoIterator.into_iter")
def m_into_iter(I, st, ci, a, *_):
    v0 = a[0]
    v = val(I, st, v0)
    if v0[0] != "ref" and (v[0] == "agg" and v[1] == OPT or v[0] == "sym" and v0 == v and I.tyk(v[2])["k"] == "adt"):
        r = opt_iter(I, st, v)
        if r is not None:
            return r
    if v[0] == "iter":
        return ret(st, v0)
    byref = v0[0] == "ref" or (v0[0] == "sym" and I.tyk(v0[2])["k"] == "ref")
    it = iter_of(I, st, v, byref)
    if it is None:
        return None
    return ret(st, it)


@model("iter.once", "sources.once", "once.once", "iter.empty", "empty.empty", "iter.repeat_none")
def m_once(I, st, ci, a, *_):
    return ret(st, ("iter", "val", tuple(("e", x) for x in a)))


@model("Iterator.chain")
def m_chain(I, st, ci, a, *_):
    v, w = val(I, st, a[0]), val(I, st, a[1])
    ws = [(st, w)]
    if a[1][0] != "ref" and w[0] in ("agg", "sym"):
        ws = opt_iter(I, st, w) or ws
    out = []
    for s, w in ws:
        if w[0] != "iter":
            w = iter_of(I, s, w, a[1][0] == "ref") or w
        if v[0] == "iter" and w[0] == "iter" and (v[1] == w[1] or not v[2] or not w[2]) and a[0][0] != "ref":
            out.append((s, ("iter", v[1] if v[2] else w[1], v[2] + w[2])))
    return out if len(out) == len(ws) else None


@model("Iterator.zip", "zip.zip")
def m_zip(I, st, ci, a, fid, site, *_):
    """two lists side by side, as long as the shorter one"""
    v = val(I, st, a[0])
    w = val(I, st, a[1])
    if w[0] != "iter":
        w = iter_of(I, st, w, a[1][0] == "ref") or w
    out = []
    for s1, v1 in skipped(I, st, v):
        for s2, w1 in skipped(I, s1, w):
            if v1[0] != "iter" or w1[0] != "iter" or not zippable(v1) or not zippable(w1):
                return None
            if not v1[2] or not w1[2]:
                out.append((s2, ("iter", "val", ())))
                continue
            p, q = v1[2][0], w1[2][0]
            n, m = lsub(p[3], p[2]), lsub(q[3], q[2])
            lid = ("zip", fid, site)
            k = sym(("k", lid))

            def item(u, z):
                if z[0] == "list":
                    x = I.materialise(z[1] + (("ix", ladd(k, z[2])),), z[4])
                else:
                    x = subst(z[4][0][1][0][1], {("k", z[1]): ladd(k, z[2])})
                return constref(x) if u[1] == "ref" else x

            for s, b in I.split(s2, ("ge0", lsub(m, n))):
                r = ("range", lid, lin(0), n if b else m, (((), (("e", ("tup", (item(v1, p), item(w1, q)))),)),))
                out.append((s, ("iter", "val", (r,))))
    return out


def zippable(v):
    """nothing, or one list or range of which every round gives one value"""
    if len(v[2]) > 1:
        return False
    return all(
        z[0] == "list"
        or z[0] == "range" and isinstance(z[4], tuple) and len(z[4]) == 1 and z[4][0][0] == () and len(z[4][0][1]) == 1 and z[4][0][1][0][0] == "e"
        for z in v[2]
    )


def skipped(I, st, v):
    """[(state, iterator)]: a skip of a few elements, made at once"""
    if v[0] != "agg" or v[1] != "core::iter::adapters::skip::Skip" or len(v[3]) != 2:
        return [(st, v)]
    it, n = v[3]
    if it[0] != "iter" or n[0] != "lin" or n not in (lin(0), lin(1), lin(2)):
        return [(st, v)]
    sts = [(st, it)]
    for _ in range((lin(0), lin(1), lin(2)).index(n)):
        nxt = []
        for s, i in sts:
            r = take_first(I, s, i[2], i[1] == "ref")
            if r is None:
                return [(st, v)]
            nxt += [(s2, ("iter", i[1], rest)) for s2, _, rest in r]
        sts = nxt
    return sts


def take_first(I, st, p, byref):
    """[(state, Option, rest)] or None"""
    if not p:
        return [(st, NONE, ())]
    h, t = p[0], p[1:]
    w = (lambda x: some(x if x[0] == "ref" and False else constref(x))) if byref else some
    if h[0] == "e":
        return [(st, w(h[1]), t)]
    if h[0] in ("list", "range"):
        n = lsub(h[3], h[2])
        out = []
        for s, ne in I.split(st, ("ge0", ladd(n, lin(-1)))):
            if not ne:
                r = take_first(I, s, t, byref)
                if r is None:
                    return None
                out += r
                continue
            if h[0] == "list":
                x = I.materialise(h[1] + (("ix", h[2]),), h[4])
                out.append((s, w(x), (("list", h[1], ladd(h[2], lin(1)), h[3], h[4]),) + t))
                continue
            alts = h[4]
            if not isinstance(alts, tuple) or (alts and alts[0] == "?"):
                return None
            rest = (("range", h[1], ladd(h[2], lin(1)), h[3], alts),) + t
            for g, b in alts:
                if len(b) != 1 or b[0][0] != "e":
                    return None
                m = {("k", h[1]): h[2]}
                s2 = s
                for f, val_ in g:
                    f = subst(f, m)
                    if f[0] == "var":
                        k = s2.facts.get(f)
                        if k is not None and k != val_:
                            s2 = None
                            break
                        s2 = s2.copy()
                        s2.facts[f] = val_
                    else:
                        s2 = I.assume(s2, f, val_) if isinstance(val_, bool) else s2
                        if s2 is None:
                            break
                if s2 is None:
                    continue
                out.append((s2, w(subst(b[0][1], m)), rest))
        return out
    return None


def take_last(I, st, p, byref):
    if not p:
        return [(st, NONE, ())]
    t, h = p[:-1], p[-1]
    w = (lambda x: some(constref(x))) if byref else some
    if h[0] == "e":
        return [(st, w(h[1]), t)]
    if h[0] in ("list", "range"):
        n = lsub(h[3], h[2])
        out = []
        for s, ne in I.split(st, ("ge0", ladd(n, lin(-1)))):
            if not ne:
                r = take_last(I, s, t, byref)
                if r is None:
                    return None
                out += r
                continue
            last = ladd(h[3], lin(-1))
            if h[0] == "list":
                x = I.materialise(h[1] + (("ix", last),), h[4])
                out.append((s, w(x), t + (("list", h[1], h[2], last, h[4]),)))
                continue
            alts = h[4]
            if not (isinstance(alts, tuple) and len(alts) == 1 and not alts[0][0] and len(alts[0][1]) == 1 and alts[0][1][0][0] == "e"):
                return None
            out.append((s, w(subst(alts[0][1][0][1], {("k", h[1]): last})), t + (("range", h[1], h[2], last, alts),)))
        return out
    return None


def last_char(I, st, t, n):
    """the last character (byte) of a text; comparing it to an ASCII one asks how the text ends"""
    out = []
    t = last_of_range(I, st, t)
    for s, empty in I.split(st, I.mkstreq(t, ())):
        if empty:
            out.append((s, NONE))
        elif t[-1][0] == "lit" and t[-1][1] and (n == "chars" or t[-1][1].isascii()):
            out.append((s, some(("chr", ord(t[-1][1][-1])))))
        else:
            out.append((s, some(sym(("lastchar", (t[-1],) if I.nonempty(s, t[-1]) else t)))))
    return out


@model("Iterator.next", "DoubleEndedIterator.next_back")
def m_next(I, st, ci, a, fid, site, dty, loc):
    it = val(I, st, a[0])
    if it[0] == "op" and it[1] in ("str.chars", "str.bytes") and len(it[2]) == 1 and ci["name"].endswith("next_back"):
        return [(setm(I, s, a[0], op("advanced", it)), x) for s, x in last_char(I, st, it[2][0][1], it[1][4:])]
    if it[0] == "agg" and it[1].endswith("::Chain") and ci["name"].endswith("::next"):
        # the first of two chained iterators is dropped with its last element, not one call later
        h = it[3][0]
        if h[0] == "agg" and h[1] == OPT and h[2] == 1 and h[3][0][0] == "iter" and h[3][0][2] and h[3][0][2][0][0] == "e":
            f = h[3][0]
            (s, x, rest), = take_first(I, st, f[2], f[1] == "ref")
            left = some(("iter", f[1], rest)) if rest else NONE
            return [(setm(I, s, a[0], it[:3] + ((left,) + tuple(it[3][1:]),)), x)]
    if it[0] != "iter":
        if "body" in ci:
            return None
        return next_opaque(I, st, ci, a, it, dty)
    back = ci["name"].endswith("next_back")
    r = (take_last if back else take_first)(I, st, it[2], it[1] == "ref")
    if r is None:
        return next_opaque(I, st, ci, a, it, dty)
    return [(setm(I, s, a[0], ("iter", it[1], rest)), x) for s, x, rest in r]


def next_opaque(I, st, ci, a, it, dty):
    if I.hooks:
        r = I.hooks.next(I, st, ci, a, it, dty)
        if r is not None:
            return r
    v = op("next", it)
    s = setm(I, st, a[0], op("advanced", it))
    return ret(s, v)


@model("Iterator.last")
def m_last_char(I, st, ci, a, *_):
    it = val(I, st, a[0])
    if it[0] == "op" and it[1] in ("str.chars", "str.bytes") and len(it[2]) == 1:
        return last_char(I, st, it[2][0][1], it[1][4:])
    return None


@model("Iterator.size_hint", "Iter.size_hint")
def m_size_hint(I, st, ci, a, *_):
    it = val(I, st, a[0])
    if it[0] == "iter":
        n = I.seqlen(it[2])
        return ret(st, ("tup", (n, some(n))))
    return None if "body" in ci else ret(st, ("tup", (sym(("i", ("hint", it))), op("hint", it))))


@model("Iterator.peekable")
def m_peekable(I, st, ci, a, *_):
    v = val(I, st, a[0])
    # iterators over values made before have no effects: looking ahead leaves no trace
    return ret(st, v) if v[0] == "iter" and a[0][0] != "ref" else None


@model("Peekable.peek", "Peekable.next_if", "Peekable.next_if_eq")
def m_peek(I, st, ci, a, fid, site, dty, loc):
    it = val(I, st, a[0])
    n = ci["name"].split("::")[-1]
    if it[0] != "iter":
        return None
    r = take_first(I, st, it[2], it[1] == "ref")
    if r is None or n == "next_if_eq":
        raise Abort("looking ahead in %s" % (show(it),))
    out = []
    for s, x, rest in r:
        if x == NONE:
            out.append((s, NONE))
        elif n == "peek":
            out.append((s, some(constref(x[3][0]))))
        else:
            for s2, b in I.call_value(a[1], [constref(x[3][0])], s, fid, (site, "peek"), None, loc):
                for s3, yes in I.boolcases(s2, b):
                    out.append((setm(I, s3, a[0], ("iter", it[1], rest)), x) if yes else (s3, NONE))
    return out


@model("slice.first", "slice.last", "slice.split_first", "slice.split_last", "slice.get")
def m_first(I, st, ci, a, *_):
    n = ci["name"].split("::")[-1]
    v = val(I, st, a[0])
    p = I.parts(st, v)
    if v[0] == "S" and n == "last":
        return [(s, x if x == NONE else some(constref(x[3][0]))) for s, x in last_char(I, st, v[1], "bytes")]
    if p is None:
        return ret(st, op(n, v))
    if n == "get":
        ix = a[1]
        if ix[0] != "lin":
            return ret(st, op("get", v, ix))
        out = []
        for s, b in I.split(st, ("ge0", ladd(lsub(I.seqlen(p), ix), lin(-1)))):
            out.append((s, some(constref(I.elem(s, v, ix))) if b else NONE))
        return out
    f = take_first if "first" in n else take_last
    r = f(I, st, p, True)
    if r is None:
        return ret(st, op(n, v))
    out = []
    for s, x, rest in r:
        if x != NONE and n.startswith("split"):
            x = some(("tup", (x[3][0], constref(("seq", rest)))))
        out.append((s, x))
    return out


@model("slice.to_vec", "slice.into_vec", "Vec.into_boxed_slice", "Vec.into", "slice.to_owned", "Box.into_vec", "slice.into_iter_none", "Vec.leak")
def m_tovec(I, st, ci, a, *_):
    v = val(I, st, a[0])
    return ret(st, v)


@model("Index.index", "IndexMut.index_mut", "SliceIndex.index", "slice.index", "vec.index")
def m_index(I, st, ci, a, *_):
    v = val(I, st, a[0])
    ix = a[1]
    if v[0] == "hmap":
        k = hkey(I, st, ix)
        out = []
        for s, b in I.split(st, ("p", "hhas", v, k)) if v[1] else [(st, False)]:
            if b:
                out.append((s, constref(op("hval", v, k))))
            else:
                I.panic(s, "index: no such key", 0)
        return out
    p = I.parts(st, v)
    if p is not None and ix[0] == "lin":
        out = []
        for s, b in I.split(st, ("ge0", ladd(lsub(I.seqlen(p), ix), lin(-1)))):
            if not b:
                I.panic(s, "index out of bounds", 0)
                continue
            t = target(I, s, a[0])
            out.append((s, ("ref", t[1], t[2] + (("ix", ix),)) if t else constref(I.elem(s, v, ix))))
        return out
    if ix[0] == "agg" and "ops::range::" in ix[1] or ix[0] == "agg" and ix[1].split("::")[-1].startswith("Range"):
        kind = ix[1].split("::")[-1]
        if v[0] == "S":
            n = I.strlen(v[1])
        elif p is not None:
            n = I.seqlen(p)
        else:
            return ret(st, op("index", v, ix))
        lo, hi = lin(0), n
        if kind == "RangeFrom":
            lo = ix[3][0]
        elif kind == "RangeTo":
            hi = ix[3][0]
        elif kind == "Range":
            lo, hi = ix[3][0], ix[3][1]
        elif kind == "RangeFull":
            pass
        elif kind == "RangeInclusive":
            lo, hi = ix[3][0], ladd(ix[3][1], lin(1))
        else:
            return ret(st, op("index", v, ix))
        if lo[0] != "lin" or hi[0] != "lin":
            return ret(st, op("index", v, ix))
        out = []
        for s, b in I.split(st, ("ge0", lsub(hi, lo))):
            if not b:
                I.panic(s, "slice index starts after its end", 0)
                continue
            for s2, b2 in I.split(s, ("ge0", lsub(n, hi))):
                if not b2:
                    I.panic(s2, "slice index out of range", 0)
                    continue
                if v[0] == "S":
                    out.append((s2, str_slice(I, s2, v[1], lo, hi)))
                else:
                    r = I.slice_parts(s2, p, lo, hi)
                    out.append((s2, constref(("seq", r)) if r is not None else op("slice", v, lo, hi)))
        return out
    if v[0] in ("op", "sym", "hmap"):
        I.panic(st, "index: may panic", 0)
        return ret(st, op("index", v, ix))
    return ret(st, op("index", v, ix))


def str_slice(I, st, t, lo, hi):
    n = I.strlen(t)
    # drop pieces / literal characters from both ends
    ps = list(t)
    off = lo
    while ps and isconst(off) and off[1] > 0 and ps[0][0] == "lit":
        s = ps[0][1]
        k = min(off[1], len(s))
        ps[0] = ("lit", s[k:])
        off = lin(off[1] - k)
        if not ps[0][1]:
            ps.pop(0)
    tail = lsub(n, hi)
    while ps and isconst(tail) and tail[1] > 0 and ps[-1][0] == "lit":
        s = ps[-1][1]
        k = min(tail[1], len(s))
        ps[-1] = ("lit", s[: len(s) - k])
        tail = lin(tail[1] - k)
        if not ps[-1][1]:
            ps.pop()
    if off == lin(0) and tail == lin(0):
        return ("S", cat(tuple(ps)))
    I.panic(st, "string slice: a bound may lie inside a character", 0)
    return ("S", (("op", "substr", (("S", t), lo, hi)),))


@model("str.chars", "str.char_indices", "str.bytes", "str.lines", "str.split", "str.splitn", "str.split_whitespace", "str.split_once", "str.rsplit", "str.char_count")
def m_chars(I, st, ci, a, *_):
    return ret(st, op("str." + ci["name"].split("::")[-1], ("S", I.text(st, a[0])), *[val(I, st, x) for x in a[1:]]))


# --- construction of vec![..] and boxes
@model("Box.new_uninit", "Box.new_uninit_in", "exchange_malloc.x")
def m_uninit(I, st, ci, a, *_):
    return ret(st, ("box", ("mu", None)))


@free("box_assume_init_into_vec_unsafe", "into_vec")
def m_assume_init(I, st, ci, a, *_):
    v = a[0]
    if v[0] == "box":
        v = v[1]
    if v[0] == "mu":
        v = v[1] or ("seq", ())
    p = I.parts(st, v)
    return ret(st, ("seq", tuple(p)) if p is not None else op("vec", v))


@model("Box.assume_init")
def m_box_assume(I, st, ci, a, *_):
    v = a[0]
    if v[0] == "box" and v[1][0] == "mu":
        return ret(st, ("box", v[1][1]))
    return ret(st, v)


@model("Box.new", "Rc.new", "Arc.new", "Box.pin")
def m_box_new(I, st, ci, a, *_):
    return ret(st, ("box", a[0]))


@model("iter.repeat_n", "repeat_n.repeat_n")
def m_repeat_n(I, st, ci, a, *_):
    (s, v), = m_from_elem(I, st, ci, a)
    return ret(s, ("iter", "val", v[1]))


@model("vec.from_elem", "from_elem")
def m_from_elem(I, st, ci, a, *_):
    if isconst(a[1]) and a[1][1] <= 16:
        return ret(st, ("seq", tuple(("e", a[0]) for _ in range(a[1][1]))))
    return ret(st, ("seq", (("range", ("rep", repr(a[0])), lin(0), a[1], (((), (("e", a[0]),)),)),)))


M["fn:from_elem"] = m_from_elem
FREE.add("fn:from_elem")


# --- collecting
def collect_body(I, ci):
    """MIR of:  for x in iter { acc.push(x) }   with the two library calls resolved"""
    nx = ci["aux_next"]
    ni = I.prog.insts[nx]
    oty = ni["body"]["locals"][0] if "body" in ni else None
    bbs = [
        {"c": False, "s": [], "t": ["goto", 1], "l": 0},
        {"c": False, "s": [["=", [2, []], ["ref", True, [1, []]], 0]], "t": ["call", ["fn", nx], [["move", [2, []]]], [3, []], 2, oty], "l": 0},
        {"c": False, "s": [["=", [5, []], ["discr", [3, []], oty], 0]], "t": ["switch", ["copy", [5, []]], None, [[0, 4]], 3], "l": 0},
        {"c": False, "s": [["=", [4, []], ["use", ["move", [3, [["d", 1], ["f", 0, 0]]]]], 0]], "t": ["call", ["py", ci["_push"]], [["copy", [6, []]], ["move", [4, []]]], [7, []], 1, None], "l": 0},
        {"c": False, "s": [], "t": ["return"], "l": 0},
    ]
    return {"argc": 2, "span": "", "locals": [0] * 8, "names": [], "bbs": bbs}


def run_collect(I, st, ci, acc_ref, it, fid, site, push, kind):
    halves = chained(I, ci, it)
    if halves is not None:
        # all of the first iterator, then all of the second
        sts = [st]
        for k, (c, h) in enumerate(halves):
            sts = [s2 for s in sts for s2 in run_collect(I, s, c, acc_ref, h, fid, (site, "half", k), push, (kind, k))]
        return sts
    syn = {
        "i": ("syn", kind, ci["i"]),
        "s": "collect loop of " + ci["s"],
        "name": "collect",
        "loops": {1: {1, 2, 3}},
        "_push": push,
        "aux_next": ci["aux_next"],
        "dk": "Fn",
        "p": "syn",
    }
    cache = I.__dict__.setdefault("_syn", {})
    if syn["i"] not in cache:
        syn["body"] = collect_body(I, syn)
        cache[syn["i"]] = syn
    syn = cache[syn["i"]]
    f2 = I.frame(fid, (site, "collect"), syn["i"])
    s = st.copy()
    s.mem[(f2, 1)] = it
    s.mem[(f2, 6)] = acc_ref
    I.stack.append(syn["i"])
    try:
        ex = I.walk(syn, f2, 0, s, None)[1]
    finally:
        I.stack.pop()
    out = []
    for e in ex:
        s = e[1].copy()
        for i in range(8):
            s.mem.pop((f2, i), None)
        out.append(s)
    return out


def chained(I, ci, it):
    """the iterators a chain still has to go through, each with how it is advanced"""
    if it[0] != "agg" or it[1] != "core::iter::adapters::chain::Chain" or len(it[3]) != 2:
        return None
    ty = I.tyk(I.prog.insts[ci["aux_next"]].get("self", 0))
    if ty.get("p") != it[1] or len(ty["args"]) != 2:
        return None
    out = []
    for h, t in zip(it[3], ty["args"]):
        if h[0] != "agg" or h[1] != OPT:
            return None
        n = [i for i in I.prog.insts if i.get("method") == "next" and i.get("self") == t and i["ik"] == "item"]
        if not n:
            return None
        if h[2] == 1:
            out.append((dict(ci, aux_next=n[0]["i"], i=(ci["i"], t), s="part of " + ci["s"]), h[3][0]))
    return out


def push_elem(I, st, args):
    acc = val(I, st, args[0])
    if acc[0] == "S":
        return [(setm(I, st, args[0], ("S", cat(acc[1], I.text(st, args[1])))), UNIT)]
    p = I.parts(st, acc)
    if p is None:
        return [(setm(I, st, args[0], op("push", acc, args[1])), UNIT)]
    return [(setm(I, st, args[0], ("seq", tuple(p) + (("e", args[1]),))), UNIT)]


def push_deref(I, st, args):
    return push_elem(I, st, [args[0], one(I, st, args[1])])


def push_arg(I, st, args):
    c = val(I, st, args[0])
    if c[0] == "cmd":
        return [(setm(I, st, args[0], add_args(c, (("e", textval(I, st, args[1])),))), UNIT)]
    return [(setm(I, st, args[0], op("args", c, args[1])), UNIT)]


def into_iter_then(I, st, ci, src, fid, site, loc):
    ii = I.prog.insts[ci["aux_into_iter"]]
    return I.call(ii, [src], st, fid, (site, "ii"), ci.get("aux_iter_ty"), loc)


@model("FromIterator.from_iter")
def m_from_iter(I, st, ci, a, fid, site, dty, loc):
    if "aux_next" not in ci:
        return None
    n = ci["name"]
    d = tyname(I.prog, dty) if dty is not None else ""
    if d in ("Option", "Result"):
        return None  # core body
    init = None
    if d == "String":
        init = lit("")
    elif d in ("Vec", "VecDeque", "Box"):
        init = ("seq", ())
    if init is None:
        return ret(st, op("collect " + d, val(I, st, a[0])))
    out = []
    if d == "String" and a[0][0] == "op" and a[0][1] == "str.chars" and len(a[0][2]) == 1:
        return ret(st, a[0][2][0])
    for s, it in into_iter_then(I, st, ci, a[0], fid, site, loc):
        # already fully described sequence: no loop needed
        if it[0] == "iter" and it[1] == "val" and init == ("seq", ()):
            out.append((s, ("seq", it[2])))
            continue
        cell = ("T", fid, site, "acc")
        s = s.copy()
        s.mem[cell] = init
        for s2 in run_collect(I, s, ci, ("ref", cell, ()), it, fid, site, push_elem, "coll"):
            v = s2.mem.pop(cell, None)
            out.append((s2, v))
    return out


@model("Extend.extend", "Vec.extend_desugared")
def m_extend(I, st, ci, a, fid, site, dty, loc):
    if "aux_next" not in ci:
        return None
    out = []
    v = val(I, st, a[0])
    push = push_elem
    # Vec<T: Copy>::extend(iter of &T)
    tr = ci.get("trargs") or []
    if v[0] != "S" and tr and len(tr) > 1 and I.tyk(tr[-1])["k"] == "ref" and tyname(I.prog, ci["self"]) == "Vec":
        st_self = I.tyk(ci["self"])
        if st_self["k"] == "adt" and I.tyk(st_self["args"][0])["k"] != "ref":
            push = push_deref
    for s, it in into_iter_then(I, st, ci, a[1], fid, site, loc):
        if it[0] == "iter" and it[1] == "val" and v[0] != "S" and I.parts(s, v) is not None:
            out.append((setm(I, s, a[0], ("seq", tuple(I.parts(s, v)) + it[2])), UNIT))
            continue
        for s2 in run_collect(I, s, ci, a[0], it, fid, site, push, "ext" if push is push_elem else "extd"):
            out.append((s2, UNIT))
    return out


@model("Extend.extend_one", "Vec.extend_one")
def m_extend_one(I, st, ci, a, *rest):
    n = tyname(I.prog, ci["self"])
    if n in ("Vec", "VecDeque"):
        st_self = I.tyk(ci["self"])
        tr = ci.get("trargs") or []
        x = a[1]
        if tr and len(tr) > 1 and I.tyk(tr[-1])["k"] == "ref" and st_self["k"] == "adt" and I.tyk(st_self["args"][0])["k"] != "ref":
            x = one(I, st, x)
        return m_vpush(I, st, ci, [a[0], x])
    if n == "String":
        v = val(I, st, a[0])
        if v[0] == "S":
            return ret(setm(I, st, a[0], ("S", cat(v[1], I.text(st, a[1])))), UNIT)
    return None


# ------------------------------------------------------------------- hash map
@model("HashMap.new", "HashMap.with_capacity", "BTreeMap.new", "HashSet.new")
def m_hnew(I, st, ci, a, *_):
    return ret(st, ("hmap", ()))


def hkey(I, st, k):
    k = val(I, st, k)
    return k


@model("HashMap.insert", "BTreeMap.insert")
def m_hinsert(I, st, ci, a, *_):
    v = val(I, st, a[0])
    nv = ("hmap", v[1] + ((hkey(I, st, a[1]), a[2]),)) if v[0] == "hmap" else op("hinsert", v, hkey(I, st, a[1]), a[2])
    return ret(setm(I, st, a[0], nv), op("hold", v))


@model("HashMap.get", "HashMap.contains_key", "BTreeMap.get", "HashMap.get_key_value")
def m_hget(I, st, ci, a, *_):
    v = val(I, st, a[0])
    k = hkey(I, st, a[1])
    n = ci["name"].split("::")[-1]
    if v == ("hmap", ()):
        return ret(st, FALSE if n == "contains_key" else NONE)
    out = []
    for s, b in I.split(st, ("p", "hhas", v, k)):
        if n == "contains_key":
            out.append((s, B(b)))
        elif not b:
            out.append((s, NONE))
        else:
            x = constref(op("hval", v, k))
            out.append((s, some(x if n == "get" else ("tup", (constref(k), x)))))
    return out


@model("HashMap.len", "HashMap.is_empty")
def m_hlen(I, st, ci, a, *_):
    v = val(I, st, a[0])
    l = lin(0) if v == ("hmap", ()) else sym(("len", ("hmaplen", v)))
    if ci["name"].endswith("len"):
        return ret(st, l)
    p = ("eq0", l)
    r = I.decide(st, p)
    return ret(st, B(r) if r is not None else ("cond", p))


# --------------------------------------------------------------- misc library
@model("mem.swap")
def m_swap(I, st, ci, a, *_):
    x, y = one(I, st, a[0]), one(I, st, a[1])
    s = I.store(st, a[0][1], a[0][2], y)
    return ret(I.store(s, a[1][1], a[1][2], x), UNIT)


@model("mem.replace")
def m_mreplace(I, st, ci, a, *_):
    x = one(I, st, a[0])
    return ret(I.store(st, a[0][1], a[0][2], a[1]), x)


@model("mem.take")
def m_mtake(I, st, ci, a, fid, site, dty, loc):
    x = one(I, st, a[0])
    d = default_of(I, dty) if dty is not None else None
    if d is None:
        return None
    return ret(I.store(st, a[0][1], a[0][2], d), x)


@model("mem.drop", "mem.forget")
def m_mdrop(I, st, ci, a, fid, site, dty, loc):
    if ci["name"].endswith("drop") and I.hooks:
        t = ci["targs"][0] if ci.get("targs") else None
        st = I.hooks.on_drop(I, st, a[0], t, loc) or st
    elif I.hooks:
        st = I.hooks.on_forget(I, st, a[0], loc) or st
    return ret(st, UNIT)


@model("num.saturating_sub", "usize.saturating_sub")
def m_satsub(I, st, ci, a, *_):
    d = lsub(a[0], a[1])
    out = []
    for s, b in I.split(st, ("ge0", d)):
        out.append((s, d if b else lin(0)))
    return out


@model("num.saturating_add", "num.wrapping_add")
def m_satadd(I, st, ci, a, *_):
    return ret(st, ladd(a[0], a[1]))


@model("num.wrapping_sub")
def m_wsub(I, st, ci, a, *_):
    d = lsub(a[0], a[1])
    out = []
    for s, b in I.split(st, ("ge0", d)):
        out.append((s, d if b else op("wrap", d)))
    return out


@model("num.checked_sub")
def m_csub(I, st, ci, a, *_):
    d = lsub(a[0], a[1])
    return [(s, some(d) if b else NONE) for s, b in I.split(st, ("ge0", d))]


@model("num.checked_add")
def m_cadd(I, st, ci, a, *_):
    return ret(st, some(ladd(a[0], a[1])))


@model("num.saturating_mul", "num.wrapping_mul")
def m_smul(I, st, ci, a, *_):
    if isconst(a[0]):
        return ret(st, lscale(a[1], a[0][1]))
    if isconst(a[1]):
        return ret(st, lscale(a[0], a[1][1]))
    return ret(st, sym(("mul", a[0], a[1])))


@model("Ord.max", "Ord.min", "cmp.max", "cmp.min")
def m_max(I, st, ci, a, *_):
    if a[0][0] == "lin" and a[1][0] == "lin":
        mx = ci["name"].endswith("max")
        out = []
        for s, b in I.split(st, ("ge0", lsub(a[0], a[1]))):
            out.append((s, a[0] if b == mx else a[1]))
        return out
    return None


@model("PartialOrd.lt", "PartialOrd.le", "PartialOrd.gt", "PartialOrd.ge")
def m_ord(I, st, ci, a, *_):
    x, y = val(I, st, a[0]), val(I, st, a[1])
    if x[0] == "lin" and y[0] == "lin":
        n = ci["name"].split("::")[-1]
        return I.binop(st, {"lt": "Lt", "le": "Le", "gt": "Gt", "ge": "Ge"}[n], x, y)
    return None


@model("Ord.cmp", "PartialOrd.partial_cmp")
def m_cmp(I, st, ci, a, *_):
    x, y = val(I, st, a[0]), val(I, st, a[1])
    if x[0] == "lin" and y[0] == "lin":
        out = []
        w = some if ci["name"].endswith("partial_cmp") else (lambda z: z)
        for s, b in I.split(st, ("ge0", ladd(lsub(x, y), lin(-1)))):
            if b:
                out.append((s, w(("agg", "core::cmp::Ordering", 2, ()))))
            else:
                for s2, e in I.split(s, ("eq0", I.norm(lsub(x, y)))):
                    out.append((s2, w(("agg", "core::cmp::Ordering", 1 if e else 0, ()))))
        return out
    return None


def textval(I, st, v):
    w = val(I, st, v)
    if w[0] == "S":
        return w
    if w[0] == "agg" and w[1].endswith("borrow::Cow"):
        return val(I, st, w[3][0])
    return w


# ---------------------------------------------------------- processes & files
# ('cmd', program, ((what, parts) ...))
def add_args(c, ps):
    return ("cmd", c[1], ("seq", c[2][1] + tuple(ps)), c[3])


def event(I, st, v):
    s = st.copy()
    s.ev = s.ev + (("e", v),)
    return s


@model("Command.new")
def m_cmd_new(I, st, ci, a, *_):
    return ret(st, ("cmd", textval(I, st, a[0]), ("seq", ()), ()))


@model("Command.arg")
def m_cmd_arg(I, st, ci, a, *_):
    c = val(I, st, a[0])
    if c[0] != "cmd":
        return None
    return ret(setm(I, st, a[0], add_args(c, (("e", textval(I, st, a[1])),))), a[0])


@model("Command.args")
def m_cmd_args(I, st, ci, a, fid, site, dty, loc):
    c = val(I, st, a[0])
    if c[0] != "cmd" or "aux_next" not in ci:
        return None
    out = []
    for s, it in into_iter_then(I, st, ci, a[1], fid, site, loc):
        if it[0] == "iter":
            ps = tuple(("e", textval(I, s, p[1])) if p[0] == "e" else p for p in it[2])
            out.append((setm(I, s, a[0], add_args(c, ps)), a[0]))
            continue
        t = target(I, s, a[0])
        for s2 in run_collect(I, s, ci, t, it, fid, site, push_arg, "args"):
            out.append((s2, a[0]))
    return out


@model(
    "Command.stdin", "Command.stdout", "Command.stderr", "Command.env", "Command.env_remove", "Command.env_clear",
    "Command.current_dir", "Command.envs",
)
def m_cmd_cfg(I, st, ci, a, *_):
    c = val(I, st, a[0])
    if c[0] != "cmd":
        return None
    n = ci["name"].split("::")[-1]
    return ret(setm(I, st, a[0], ("cmd", c[1], c[2], c[3] + ((n,) + tuple(textval(I, st, x) for x in a[1:]),))), a[0])


def freshid(I, st, tag):
    """a per-path name: the number of events so far"""
    return (tag, len(st.ev))


@model("Stdio.null", "Stdio.piped", "Stdio.inherit")
def m_stdio(I, st, ci, a, *_):
    return ret(st, op("Stdio::" + ci["name"].split("::")[-1]))


def captured(c, what, default):
    """does the parent get what the program writes there?"""
    for x in reversed(c[3]):
        if x[0] == what:
            return x[1] == op("Stdio::piped")
    return default


@model("Command.output", "Command.status", "Command.spawn", "Child.wait_with_output", "Child.wait")
def m_cmd_run(I, st, ci, a, *_):
    n = ci["name"].split("::")[-1]
    c = val(I, st, a[0])
    fact = "started"
    if n == "wait_with_output" and c[0] == "op" and c[1] == "child":
        c, fact = c[2][1], "ok"
    rid = freshid(I, st, "output" if fact == "ok" else n)
    s = event(I, st, ("ev", n, c)) if n != "wait_with_output" else event(I, st, ("ev", "output", c))
    if n in ("output", "wait_with_output"):
        o, e = (captured(c, w, n == "output") if c[0] == "cmd" else True for w in ("stdout", "stderr"))
        v = ("agg", "std::process::Output", 0, (op("status", rid), op("stdout", rid) if o else ("seq", ()), op("stderr", rid) if e else ("seq", ())))
    elif n in ("status", "wait"):
        v = op("status", rid)
    else:
        v = ("op", "child", (rid, c))
    out = []
    for s2, b in I.split(s, ("p", fact, rid)):
        out.append((s2, ok(v) if b else err(op("io error", rid))))
    return out


@model("ExitStatus.success")
def m_success(I, st, ci, a, *_):
    v = val(I, st, a[0])
    return ret(st, ("cond", ("p", "success", v)))


@model("ExitStatus.code")
def m_code(I, st, ci, a, *_):
    v = val(I, st, a[0])
    # exit code: Some(0) iff success; None when killed by a signal
    out = []
    for s, b in I.split(st, ("p", "success", v)):
        if b:
            out.append((s, some(lin(0))))
            continue
        for s2, b2 in I.split(s, ("p", "exited", v)):
            if b2:
                code = sym(("sint", ("code", v)))
                s3 = s2.copy()
                s3.facts[("eq0", code)] = False
                out.append((s3, some(code)))
            else:
                out.append((s2, NONE))
    return out


def fallible(tag):
    def f(I, st, ci, a, *_):
        n = ci["name"].split("::")[-1]
        rid = freshid(I, st, tag)
        vals = tuple(textval(I, st, x) for x in a)
        s = event(I, st, ("ev", tag) + vals)
        out = []
        for s2, b in I.split(s, ("p", "ok", rid)):
            out.append((s2, ok(RESULTS.get(tag, lambda rid, vals: UNIT)(rid, vals)) if b else err(op("io error", rid))))
        return out

    return f


RESULTS = {
    "tempfile": lambda rid, vals: ("tmp", rid, "file"),
}

M["NamedTempFile.new"] = fallible("tempfile")
for _k in ("NamedTempFile.new_in", "NamedTempFile.with_prefix", "NamedTempFile.with_suffix"):
    M[_k] = fallible("tempfile")



@model("tempfile::Builder.new", "Builder.new", "Builder.default")
def m_builder(I, st, ci, a, *_):
    if "tempfile" not in ci["name"]:
        return None
    return ret(st, op("tempfile builder"))


@model("Builder.prefix", "Builder.suffix", "Builder.rand_bytes")
def m_builder_cfg(I, st, ci, a, *_):
    # how the file is called: of no consequence, as long as the crate removes it
    return ret(st, a[0]) if val(I, st, a[0]) == op("tempfile builder") else None


@model("Builder.tempfile")
def m_builder_make(I, st, ci, a, *_):
    if val(I, st, a[0]) != op("tempfile builder"):
        return None
    return fallible("tempfile")(I, st, ci, ())


@model("BufWriter.new", "BufWriter.with_capacity")
def m_bufwriter(I, st, ci, a, *_):
    return ret(st, op("bufwriter", a[-1], ("S", ())))


@model("io.copy")
def m_io_copy(I, st, ci, a, *_):
    f = val(I, st, a[1])
    t = textval(I, st, a[0])
    if f[0] != "tmp" or t[0] != "S":
        return None
    rid = freshid(I, st, "write")
    s = event(I, st, ("ev", "write_all", f, t))
    return [(s2, ok(sym(("i", rid))) if b else err(op("io error", rid))) for s2, b in I.split(s, ("p", "ok", rid))]


@model("Write.write_all", "NamedTempFile.write_all")
def m_write_all(I, st, ci, a, fid, site, dty, loc):
    f = val(I, st, a[0])
    rid = freshid(I, st, "write")
    if f[0] == "op" and f[1] == "bufwriter":
        # kept in memory (or written, when there is a lot of it) until the flush that counts
        t = textval(I, st, a[1])
        if t[0] != "S" or f[2][1][1]:
            return None
        s = setm(I, st, a[0], op("bufwriter", f[2][0], t))
        q = ("p", "ok", ("buffered", rid[1]))
        return [(s2, ok(UNIT) if b else err(op("io error", q[2]))) for s2, b in I.split(s, q)]
    s = event(I, st, ("ev", "write_all", f, textval(I, st, a[1])))
    out = []
    for s2, b in I.split(s, ("p", "ok", rid)):
        out.append((s2, ok(UNIT) if b else err(op("io error", rid))))
    return out


@model("Write.write")
def m_write_short(I, st, ci, a, *_):
    f = val(I, st, a[0])
    rid = freshid(I, st, "write")
    s = event(I, st, ("ev", "short write", f, textval(I, st, a[1])))
    out = []
    for s2, b in I.split(s, ("p", "ok", rid)):
        out.append((s2, ok(sym(("i", rid))) if b else err(op("io error", rid))))
    return out


@model("Write.flush", "File.sync_all", "File.sync_data")
def m_flush(I, st, ci, a, *_):
    f = val(I, st, a[0])
    if f[0] == "op" and f[1] == "bufwriter":
        if not f[2][1][1]:
            return ret(st, ok(UNIT))
        rid = freshid(I, st, "write")
        s = event(I, setm(I, st, a[0], op("bufwriter", f[2][0], ("S", ()))), ("ev", "write_all", val(I, st, f[2][0]), f[2][1]))
        return [(s2, ok(UNIT) if b else err(op("io error", rid))) for s2, b in I.split(s, ("p", "ok", rid))]
    rid = freshid(I, st, "flush")
    s = event(I, st, ("ev", "flush", val(I, st, a[0])))
    return [(s2, ok(UNIT) if b else err(op("io error", rid))) for s2, b in I.split(s, ("p", "ok", rid))]


@model("fs.write")
def m_fs_write(I, st, ci, a, *_):
    rid = freshid(I, st, "write")
    s = event(I, st, ("ev", "write_all", val(I, st, a[0]), textval(I, st, a[1])))
    return [(s2, ok(UNIT) if b else err(op("io error", rid))) for s2, b in I.split(s, ("p", "ok", rid))]


@model("NamedTempFile.into_temp_path")
def m_into_tp(I, st, ci, a, *_):
    return ret(st, a[0])


@model("NamedTempFile.into_parts")
def m_into_parts(I, st, ci, a, *_):
    return ret(st, ("tup", (op("file", a[0]), a[0])))


@model("TempPath.close", "NamedTempFile.close")
def m_close(I, st, ci, a, *_):
    rid = freshid(I, st, "close")
    s = event(I, st, ("ev", "close", a[0]))
    return [(s2, ok(UNIT) if b else err(op("io error", rid))) for s2, b in I.split(s, ("p", "ok", rid))]


@model("TempPath.keep", "NamedTempFile.keep", "TempPath.persist", "NamedTempFile.persist", "TempPath.disable_cleanup", "NamedTempFile.disable_cleanup")
def m_keep(I, st, ci, a, *_):
    s = event(I, st, ("ev", "keep", val(I, st, a[0])))
    return ret(s, op("kept", val(I, st, a[0])))


@model("Error.new", "error.new", "Error.other", "error.other")
def m_ioerr(I, st, ci, a, *_):
    if ci["name"].endswith("other"):
        return ret(st, ("op", "io::Error", (op("kind"), textval(I, st, a[0]))))
    return ret(st, ("op", "io::Error", (a[0], textval(I, st, a[1]))))


@model("Error.from_kind")
def m_ioerrk(I, st, ci, a, *_):
    return ret(st, ("op", "io::Error", (a[0],)))


@free("random")
def m_random(I, st, ci, a, *_):
    rid = freshid(I, st, "random")
    s = event(I, st, ("ev", "random"))
    return ret(s, ("op", "random", (rid,)))


@model("array.map", "N].map")
def m_arraymap(I, st, ci, a, fid, site, dty, loc):
    """[T; N]::map: the elements one after the other"""
    ps = I.parts(st, a[0])
    if ps is None or any(p[0] != "e" for p in ps):
        return ret(st, op("array map", a[0], a[1]))
    outs = [(st, ())]
    for n, p in enumerate(ps):
        nxt = []
        for s, done in outs:
            for s2, v in I.call_value(a[1], [p[1]], s, fid, (site, "map", n), None, loc):
                nxt.append((s2, done + (("e", v),)))
        outs = nxt
    return [(s, ("seq", done)) for s, done in outs]
