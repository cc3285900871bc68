"""Abstract values (immutable tuples) and their algebra.

 ints      ('lin', c, ((sym, coef), ...))       linear combinations of symbols
 bools     ('b', True) | ('cond', predicate)
 strings   ('S', pieces)                          see below
 adts      ('agg', adt_path, variant, fields)
 tuples    ('tup', fields)
 closures  ('clo', inst, captures)
 boxes     ('box', value)
 pointers  ('ref', cell, proj)
 inputs    ('sym', path, tyid)                    lazily expanded symbolic input
 sequences ('seq', parts)
 fn items  ('fn', inst)
 opaque    ('op', name, args)

string pieces: ('lit', s) ('txt', path) ('P', T, path, ctx) ('rep', pieces, lin)
               ('disp', v) ('call', f, args) ('op', name, args)
               ('range', lid, lo, hi, alts)
sequence parts: ('e', v) ('list', path, lo, hi, elem_ty) ('range', lid, lo, hi, alts)
alts: tuple of (guards, parts)   guards: tuple of (pred, value)
"""


def lin(c=0, *terms):
    d = {}
    for s, k in terms:
        d[s] = d.get(s, 0) + k
    return ("lin", c, tuple(sorted(((s, k) for s, k in d.items() if k), key=repr)))


def sym(s):
    return ("lin", 0, ((s, 1),))


def ladd(a, b, k=1):
    d = dict(a[2])
    for s, c in b[2]:
        d[s] = d.get(s, 0) + k * c
    return ("lin", a[1] + k * b[1], tuple(sorted(((s, c) for s, c in d.items() if c), key=repr)))


def lsub(a, b):
    return ladd(a, b, -1)


def lneg(a):
    return ("lin", -a[1], tuple((s, -c) for s, c in a[2]))


def lscale(a, k):
    if k == 0:
        return lin(0)
    return ("lin", a[1] * k, tuple((s, c * k) for s, c in a[2]))


def lmul(a, b):
    """products of unknown numbers are unknown numbers of their own"""
    out = lin(a[1] * b[1])
    for x, c in a[2]:
        out = ladd(out, ("lin", 0, ((x, c * b[1]),)) if b[1] else lin(0))
    for y, d in b[2]:
        out = ladd(out, ("lin", 0, ((y, d * a[1]),)) if a[1] else lin(0))
        for x, c in a[2]:
            u, v = sorted((x, y), key=repr)
            out = ladd(out, ("lin", 0, ((("mul", sym(u), sym(v)), c * d),)))
    return out


def isconst(a):
    return a[0] == "lin" and not a[2]


TRUE = ("b", True)
FALSE = ("b", False)
UNIT = ("tup", ())


def B(x):
    return TRUE if x else FALSE


OPT = "core::option::Option"
RES = "core::result::Result"


def some(v):
    return ("agg", OPT, 1, (v,))


NONE = ("agg", OPT, 0, ())


def ok(v):
    return ("agg", RES, 0, (v,))


def err(v):
    return ("agg", RES, 1, (v,))


def S(pieces):
    return ("S", cat(pieces))


def lit(s):
    return ("S", (("lit", s),) if s else ())


def cat(*groups):
    out = []
    for g in groups:
        for p in g:
            if p[0] == "lit":
                if not p[1]:
                    continue
                if out and out[-1][0] == "lit":
                    out[-1] = ("lit", out[-1][1] + p[1])
                    continue
            elif p[0] == "rep":
                if isconst(p[2]):
                    n = p[2][1]
                    if n <= 0:
                        continue
                    if n <= 64 and all(x[0] == "lit" for x in p[1]):
                        q = ("lit", "".join(x[1] for x in p[1]) * n)
                        if out and out[-1][0] == "lit":
                            out[-1] = ("lit", out[-1][1] + q[1])
                        else:
                            out.append(q)
                        continue
                if not p[1]:
                    continue
            out.append(p)
    return tuple(out)


def is_lit(pieces):
    return all(p[0] == "lit" for p in pieces)


def lit_text(pieces):
    return "".join(p[1] for p in pieces)


def subst(t, m):
    """Replace int symbols (keys of m -> lin) everywhere inside a term."""
    if not isinstance(t, tuple):
        return t
    if t and t[0] == "lin" and len(t) == 3 and isinstance(t[2], tuple):
        r = lin(t[1])
        for s, c in t[2]:
            if s in m:
                r = ladd(r, lscale(m[s], c))
            else:
                s2 = subst(s, m)
                r = ladd(r, ("lin", 0, ((s2, c),)))
        return r
    ch = False
    out = []
    for x in t:
        y = subst(x, m)
        if y is not x and y != x:
            ch = True
        out.append(y)
    if not ch:
        return t
    r = tuple(out)
    if r and r[0] == "S":
        return ("S", cat(r[1]))
    return r


def mentions(t, syms):
    if not isinstance(t, tuple):
        return False
    if t in syms:
        return True
    return any(mentions(x, syms) for x in t)


def walk(t):
    if isinstance(t, tuple):
        yield t
        for x in t:
            yield from walk(x)


def show(v, depth=0):
    """Readable rendering for reports."""
    if not isinstance(v, tuple) or not v:
        return repr(v)
    k = v[0]
    if k == "lin" and len(v) == 3:
        parts = []
        for s, c in v[2]:
            parts.append(("" if c == 1 else "%d*" % c) + show_sym(s))
        if v[1] or not parts:
            parts.append(str(v[1]))
        return "+".join(parts).replace("+-", "-")
    if k == "b":
        return str(v[1]).lower()
    if k == "cond":
        return "(" + show(v[1]) + ")"
    if k == "S":
        return "".join(show_piece(p) for p in v[1]) or '""'
    if k == "agg":
        nm = v[1].split("::")[-1]
        return "%s#%s(%s)" % (nm, v[2], ", ".join(map(show, v[3])))
    if k == "tup":
        return "(" + ", ".join(map(show, v[1])) + ")"
    if k == "sym":
        return show_path(v[1])
    if k == "seq":
        return "[" + ", ".join(show_part(p) for p in v[1]) + "]"
    if k == "ref":
        return "&" + show_path(v[1]) + show_path(v[2])
    if k == "op":
        return "%s(%s)" % (v[1], ", ".join(map(show, v[2])))
    if k == "box":
        return "box " + show(v[1])
    if k in ("lit", "txt", "P", "rep", "disp", "call"):
        return show_piece(v)
    return "%s(%s)" % (k, ", ".join(show(x) if isinstance(x, tuple) else str(x) for x in v[1:]))


def show_sym(s):
    if isinstance(s, tuple) and s:
        if s[0] == "len":
            return "len(%s)" % show_path(s[1])
        if s[0] in ("n", "k"):
            return s[0]
        if s[0] == "slen":
            return "strlen(%s)" % show_piece(s[1])
        if s[0] == "i":
            return show_path(s[1])
        return show(s)
    return str(s)


def show_path(p):
    if not isinstance(p, tuple):
        return str(p)
    out = []
    for x in p:
        if isinstance(x, tuple) and x:
            if x[0] == "ix":
                out.append("[%s]" % show(x[1]))
            elif x[0] == "v":
                out.append(".%s.%s" % (x[1], x[2]))
            elif x[0] == "f":
                out.append(".%s" % (x[1],))
            elif x[0] == "ch":
                out.append("/")
            else:
                out.append(show(x))
        else:
            out.append(str(x))
    return "".join(out)


def show_piece(p):
    k = p[0]
    if k == "lit":
        return repr(p[1])[1:-1].replace(" ", "␠")
    if k == "txt":
        return "‹%s›" % show_path(p[1])
    if k == "P":
        return "⟦%s %s⟧" % (p[1].split("::")[-1].replace(">", ""), show_path(p[2]))
    if k == "rep":
        return "{%s×%s}" % ("".join(map(show_piece, p[1])), show(p[2]))
    if k == "disp":
        return "‹display %s›" % show(p[1])
    if k == "range":
        return show_part(p)
    if k == "call":
        return "‹call %s(%s)›" % (show(p[1]), ", ".join(map(show, p[2])))
    if k == "op":
        return "‹%s(%s)›" % (p[1], ", ".join(map(show, p[2])))
    return show(p) if k not in ("lit",) else ""


def show_part(p):
    if p[0] == "e":
        return show(p[1])
    if p[0] == "list":
        return "%s[%s..%s]" % (show_path(p[1]), show(p[2]), show(p[3]))
    if p[0] == "range":
        try:
            alts = " | ".join(
                ("{%s}" % ", ".join("%s=%s" % (show(g), w) for g, w in gs) if gs else "")
                + "".join(show_piece(x) if x[0] != "e" else show(x[1]) for x in ps)
                for gs, ps in p[4]
            )
        except (ValueError, TypeError):
            alts = str(p[4])
        return "(for k in %s..%s: %s)" % (show(p[2]), show(p[3]), alts)
    return show_piece(p)
