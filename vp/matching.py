"""Comparison of an abstract text (what the code produces) with a specified one.

Both sides are sequences of pieces; they are turned into tokens, ranges are brought
into a canonical rotation, and then walked in parallel.  Spec atoms are expanded only
where the code's text is finer than the spec's.
"""
import re
from .terms import *

TOK = re.compile(r"[A-Za-z0-9_.]+|->|--|\s+|.", re.S)
PUNCT = set("[]{}=,;:")


class Mismatch(Exception):
    pass


def is_layout(p):
    """separator / indentation pieces"""
    if p[0] == "rep":
        return is_lit(p[1]) and lit_text(p[1]).strip() == ""
    if p[0] == "txt":
        return p[1] and p[1][0] == ("opt", "sep")
    return False


def toks(I, st, pieces, layout):
    """pieces -> token list.  ws: ('ws', verbatim) ; words: ('tok', s)"""
    out = []
    ws = []

    def flush():
        if ws:
            v = runs(cat(tuple(ws)))
            if v:
                sig = any(p[0] != "lit" or "\n" in p[1] for p in v)
                out.append(("ws", v if (layout and sig) else None))
            ws.clear()

    for p in pieces:
        k = p[0]
        if k == "lit":
            for t in TOK.findall(p[1]):
                if t.isspace():
                    ws.append(("lit", t))
                else:
                    flush()
                    out.append(("tok", t))
        elif is_layout(p):
            if k == "rep":
                z = I.ge0(st, lneg(p[2]))
                if z:
                    continue
            elif I.decide(st, I.mkstreq((p,), ())):
                continue
            ws.append(p)
        elif k == "range" and as_rep(p) is not None:
            q = as_rep(p)
            if not I.ge0(st, lneg(q[2])):
                ws.append(q)
        elif k == "range":
            flush()
            alts = p[4]
            if isinstance(alts, tuple) and not (alts and alts[0] == "?"):
                alts = tuple((g, tuple(toks(I, st, b, layout))) for g, b in alts)
            out.append(("range", p[1], p[2], p[3], alts))
        else:
            flush()
            out.append(p)
    flush()
    if not layout:
        # white space next to a delimiter separates nothing
        out = [
            t
            for i, t in enumerate(out)
            if not (
                t[0] == "ws"
                and (
                    (i and out[i - 1][0] == "tok" and out[i - 1][1] in PUNCT)
                    or (i + 1 < len(out) and out[i + 1][0] == "tok" and out[i + 1][1] in PUNCT)
                )
            )
        ]
    return out


def as_rep(p):
    """the same white space in every iteration"""
    alts = p[4]
    if isinstance(alts, tuple) and len(alts) == 1 and not alts[0][0] and alts[0][1]:
        b = alts[0][1]
        if is_lit(b) and lit_text(b).strip() == "":
            return ("rep", b, lsub(p[3], p[2]))
    return None


def runs(ps):
    """one character repeated: adjacent runs and literals of it become one run"""
    out = []
    for p in ps:
        if p[0] == "rep" and is_lit(p[1]) and len(set(lit_text(p[1]))) == 1:
            s = lit_text(p[1])
            p = ("rep", (("lit", s[0]),), lscale(p[2], len(s)))
            if out and out[-1][0] == "rep" and out[-1][1] == p[1]:
                out[-1] = ("rep", p[1], ladd(out[-1][2], p[2]))
                continue
            if out and out[-1][0] == "lit":
                t = out[-1][1]
                r = t.rstrip(s[0])
                if len(r) < len(t):
                    p = ("rep", p[1], ladd(p[2], lin(len(t) - len(r))))
                    out.pop()
                    if r:
                        out.append(("lit", r))
        elif p[0] == "lit" and out and out[-1][0] == "rep" and is_lit(out[-1][1]) and len(out[-1][1][0][1]) == 1:
            c = out[-1][1][0][1]
            r = p[1].lstrip(c)
            out[-1] = ("rep", out[-1][1], ladd(out[-1][2], lin(len(p[1]) - len(r))))
            if not r:
                continue
            p = ("lit", r)
        out.append(p)
    return cat(tuple(out))


def ends_layout(I, st, x):
    return x[0] == "ws"


def index_offset(p, k):
    """the constant added to k in the first index built from it"""
    for t in walk(p):
        if t and t[0] == "lin" and len(t) == 3 and isinstance(t[2], tuple) and (k, 1) in t[2] and len(t[2]) == 1:
            return t[1]
    return 0


def shift(t):
    """number the iterations of a range by the first index its body uses"""
    k = ("k", t[1])
    if not isinstance(t[4], tuple) or (t[4] and t[4][0] == "?"):
        return t
    off = index_offset(tuple(b for _, b in t[4]), k)
    if not off:
        return t
    m = {k: ladd(sym(k), lin(-off))}
    return (
        "range", t[1], ladd(t[2], lin(off)), ladd(t[3], lin(off)),
        tuple((tuple((subst(f, m), v) for f, v in g), tuple(subst(x, m) for x in b)) for g, b in t[4]),
    )


def canon(I, st, ts):
    """rotate and absorb ranges"""
    return [shift(t) if t[0] == "range" else t for t in canon0(I, st, [shift(t) if t[0] == "range" else t for t in ts])]


def canon0(I, st, ts):
    ts = list(ts)
    i = 0
    while i < len(ts):
        t = ts[i]
        if t[0] == "range":
            lo, hi, alts = t[2], t[3], t[4]
            if I.ge0(st, lsub(lo, hi)):
                ts[i:i + 1] = []
                continue
            if isinstance(alts, tuple) and len(alts) == 1 and not alts[0][0] and alts[0][1]:
                k = ("k", t[1])
                body = list(canon(I, st, alts[0][1]))
                n = 0
                while i + 1 < len(ts) and n < len(body) + 1:
                    u = body[0]
                    if subst(u, {k: hi}) != ts[i + 1]:
                        break
                    first = subst(u, {k: lo})
                    # U(lo) [ V(k-1) U(k) ] for k = lo+1 .. hi+1
                    km = {k: ladd(sym(k), lin(-1))}
                    body = [subst(x, km) for x in body[1:]] + [u]
                    lo, hi = ladd(lo, lin(1)), ladd(hi, lin(1))
                    ts[i + 1:i + 2] = []
                    ts[i:i + 1] = [first, ("range", t[1], lo, hi, (((), tuple(body)),))]
                    i += 1
                    n += 1
                ts[i] = ("range", t[1], lo, hi, (((), tuple(body)),))
                # absorb preceding instances
                while True:
                    m = len(body)
                    prev = [subst(x, {k: ladd(lo, lin(-1))}) for x in body]
                    if i >= m and ts[i - m:i] == prev:
                        lo = ladd(lo, lin(-1))
                        ts[i - m:i + 1] = [("range", t[1], lo, hi, (((), tuple(body)),))]
                        i -= m
                    else:
                        break
                # merge with a preceding range over the same body
                if i and ts[i - 1][0] == "range":
                    q = ts[i - 1]
                    if q[3] == lo and isinstance(q[4], tuple) and len(q[4]) == 1 and not q[4][0][0]:
                        qb = tuple(subst(x, {("k", q[1]): sym(k)}) for x in q[4][0][1])
                        if qb == tuple(body):
                            ts[i - 1:i + 1] = [("range", t[1], q[2], hi, (((), tuple(body)),))]
                            i -= 1
            elif isinstance(alts, tuple) and len(alts) > 1 and alts[0][0] != "?":
                i = rotate(ts, i)
        i += 1
    return ts


def instance(alts, m):
    return tuple((tuple((subst(f, m), v) for f, v in g), tuple(subst(x, m) for x in b)) for g, b in alts)


def rotate(ts, i):
    """the same for ranges whose iterations differ; returns the position of the range"""
    _, kid, lo, hi, alts = ts[i]
    k = ("k", kid)
    # a single iteration before it
    while i and ts[i - 1][0] == "range" and ts[i - 1][3] == lo and lsub(lo, ts[i - 1][2]) == lin(1):
        q = ts[i - 1]
        if not isinstance(q[4], tuple) or set(instance(q[4], {("k", q[1]): q[2]})) != set(instance(alts, {k: q[2]})):
            break
        lo = q[2]
        ts[i - 1:i + 1] = [("range", kid, lo, hi, alts)]
        i -= 1
    # U(k) V(k) for k in lo..hi, U(hi)
    while i + 1 < len(ts):
        us = {b[0] if b else None for _, b in alts}
        u = us.pop()
        if us or u is None or not mentions(u, {k}) or subst(u, {k: hi}) != ts[i + 1]:
            break
        alts = tuple((g, b + (u,)) for g, b in instance(tuple((g, b[1:]) for g, b in alts), {k: ladd(sym(k), lin(-1))}))
        first = subst(u, {k: lo})
        lo, hi = ladd(lo, lin(1)), ladd(hi, lin(1))
        ts[i:i + 2] = [first, ("range", kid, lo, hi, alts)]
        i += 1
    return i


def known_lengths(st):
    """the lengths that the facts of a path leave one value"""
    ge = {f[1] for f, v in st.facts.items() if v is True and f[0] == "ge0" and f[1][0] == "lin" and len(f[1][2]) == 1}
    return {
        l[2][0][0]: lin(-l[1]) for l in ge if l[2][0][1] == 1 and l[2][0][0][0] == "len" and lneg(l) in ge
    }


def paths_in(t):
    for x in walk(t):
        if x and x[0] == "txt" and len(x) == 2 and isinstance(x[1], tuple):
            yield x[1]
        elif x and x[0] == "P" and len(x) == 4:
            yield x[2]
        elif x and x[0] == "sym" and len(x) == 3 and isinstance(x[1], tuple):
            yield x[1]


def below(p, q):
    return len(q) > len(p) and q[: len(p)] == p


class Matcher:
    def __init__(self, I, spec, layout, type_of_path=None, budget=4000):
        self.I = I
        self.spec = spec  # spec(st, T, val, R) -> [(st, pieces)]
        self.layout = layout
        self.pairs = []
        self.compared = 0
        self.budget = budget

    def tok(self, st, pieces):
        return canon(self.I, st, toks(self.I, st, pieces, self.layout))

    def run(self, st, impl, spec):
        """raises Mismatch"""
        self.m(st, self.tok(st, impl), self.tok(st, spec), None, 0, False)

    def fail(self, st, A, B, why):
        a = "".join(show_tok(x) for x in A[:12]) or "<end>"
        b = "".join(show_tok(x) for x in B[:12]) or "<end>"
        raise Mismatch("%s: the code has `%s` where `%s` is required%s" % (why, a, b, facts_str(st)))

    def punct(self, t):
        return t is not None and t[0] == "tok" and t[1] in PUNCT

    def m(self, st, A, B, prev, depth, inrange):
        I = self.I
        self.budget -= 1
        if self.budget < 0:
            raise Mismatch("comparison budget exceeded")
        A, B = list(A), list(B)
        m = known_lengths(st)
        if m:
            A, B = [subst(t, m) for t in A], [subst(t, m) for t in B]
        while True:
            if not A and not B:
                return
            a = A[0] if A else None
            b = B[0] if B else None
            # ---- white space
            if (a and a[0] == "ws") or (b and b[0] == "ws"):
                av = a[1] if a and a[0] == "ws" else False
                bv = b[1] if b and b[0] == "ws" else False
                if self.layout and (av or bv):
                    # significant layout: must agree
                    if av != bv:
                        # give expansion of an empty atom a chance
                        if b and b[0] == "P" and self.may_expand(A, b, depth):
                            return self.expand(st, A, B, prev, depth, inrange)
                        if b and b[0] == "range" or a and a[0] == "range":
                            pass
                        else:
                            self.fail(st, A, B, "layout")
                    else:
                        A.pop(0)
                        B.pop(0)
                        continue
                elif av is not False and bv is not False:
                    A.pop(0)
                    B.pop(0)
                    continue
                elif av is not False:
                    # extra white space between tokens is harmless
                    if b is not None and b[0] == "range" and len(A) > 1 and A[1][0] != "range":
                        return self.peel(st, A, B, prev, depth, inrange)
                    A.pop(0)
                    continue
                else:
                    nxt = B[1] if len(B) > 1 else None
                    if (
                        self.punct(prev)
                        or self.punct(nxt)
                        or (prev is None and not inrange)
                        or (nxt is None and not inrange)
                    ):
                        B.pop(0)
                        continue
                    if a is not None and a[0] == "range":
                        return self.peel(st, A, B, prev, depth, inrange)
                    if nxt is not None and nxt[0] == "P" and self.may_expand(A, nxt, depth):
                        # the next atom may turn out to be empty or start with punctuation
                        ok = True
                        for s2, ps in self.spec(st, nxt):
                            nb = [B[0]] + self.tok(s2, ps) + B[2:]
                            if self.punct(nb[1] if len(nb) > 1 else None) or len(nb) == 1:
                                self.m(s2, A, nb[1:], prev, depth + 1, inrange)
                            else:
                                self.fail(s2, A, nb, "no separation between tokens")
                        return
                    self.fail(st, A, B, "no separation between tokens")
            # ---- ranges
            if (a and a[0] == "range") or (b and b[0] == "range"):
                if a and b and a[0] == "range" and b[0] == "range":
                    a, b = shift(a), shift(b)
                    A[0], B[0] = a, b
                if a and b and a[0] == "range" and b[0] == "range" and a[2] == b[2] and a[3] == b[3]:
                    self.bodies(st, a, b, depth)
                    prev = None
                    A.pop(0)
                    B.pop(0)
                    continue
                return self.peel(st, A, B, prev, depth, inrange)
            if a is None or b is None:
                if b is not None and b[0] == "P" and self.may_expand(A, b, depth):
                    return self.expand(st, A, B, prev, depth, inrange)
                self.fail(st, A, B, "text")
            if a[0] == "P" and b[0] == "P" and a[1] == b[1] and a[2] == b[2]:
                self.pairs.append((st, a, b))
                self.compared += 1
                prev = a
                A.pop(0)
                B.pop(0)
                continue
            if self.same(st, a, b):
                self.compared += 1
                prev = a
                A.pop(0)
                B.pop(0)
                continue
            if b[0] == "P" and self.may_expand(A, b, depth):
                return self.expand(st, A, B, prev, depth, inrange)
            self.fail(st, A, B, "text")

    def same(self, st, a, b):
        if a == b:
            return True
        if a[0] == "call" and b[0] == "call":
            if a[1] != b[1] or len(a[2]) != len(b[2]):
                return False
            for x, y in zip(a[2], b[2]):
                if x == y:
                    continue
                if x[0] == "S" and y[0] == "S":
                    xs, ys = drop_empty(self.I, st, x[1]), drop_empty(self.I, st, y[1])
                    if xs == ys:
                        continue
                    if len(xs) == len(ys) and all(
                        p == q or (p[0] == "P" and q[0] == "P" and p[1:3] == q[1:3]) for p, q in zip(xs, ys)
                    ):
                        for p, q in zip(xs, ys):
                            if p[0] == "P" and q[0] == "P":
                                self.pairs.append((st, p, q))
                        continue
                    # the text of the value may be spelled out
                    try:
                        Matcher(self.I, self.spec, self.layout).run(st, xs, ys)
                        continue
                    except Mismatch:
                        return False
                return False
            return True
        return False

    def may_expand(self, A, b, depth):
        if depth > 8:
            return False
        if b[1] in ("Vec<Attribute>", "Id", "Port", "Vec<Stmt>", "GraphAttributes", "Vertex"):
            return True
        return any(below(b[2], p) for t in A for p in paths_in(t))

    def expand(self, st, A, B, prev, depth, inrange):
        b = B[0]
        for s2, ps in self.spec(st, b):
            nb = self.tok(s2, tuple(ps)) + B[1:]
            na = canon(self.I, s2, A)
            self.m(s2, na, canon(self.I, s2, nb), prev, depth + 1, inrange)

    def bodies(self, st, a, b, depth):
        I = self.I
        if not isinstance(b[4], tuple) or not isinstance(a[4], tuple):
            raise Mismatch("unresolved repetition")
        k = ("k", a[1])
        kb = ("k", b[1])
        s0 = st.copy()
        s0.facts[("ge0", lsub(sym(k), a[2]))] = True
        s0.facts[("ge0", ladd(lsub(a[3], sym(k)), lin(-1)))] = True
        if not a[4]:
            raise Mismatch("a repetition produces nothing: %s required" % "".join(show_tok(x) for x in b[4][0][1]))
        for ga, ta in a[4]:
            s1 = assume_all(I, s0, ga)
            if s1 is None:
                continue
            for gb, tb in b[4]:
                s2 = assume_all(I, s1, [(subst(f, {kb: sym(k)}), v) for f, v in gb])
                if s2 is None:
                    continue
                tb2 = [subst(x, {kb: sym(k)}) for x in tb]
                self.m(s2, canon(I, s2, ta), canon(I, s2, tb2), None, depth, True)

    def peel(self, st, A, B, prev, depth, inrange):
        """unroll one element of a range (or show it is empty)"""
        I = self.I
        if depth > 12:
            self.fail(st, A, B, "repetition")
        a = A[0] if A else None
        b = B[0] if B else None
        side = None
        if b is not None and b[0] == "range" and (a is None or a[0] != "range"):
            side = "B"
        elif a is not None and a[0] == "range" and (b is None or b[0] != "range"):
            side = "A"
        else:
            if a[2] == b[2]:
                # same start, different end: unroll the last element of the longer
                d = lsub(b[3], a[3])
                if I.ge0(st, d):
                    X, idx, r = B, 0, b
                elif I.ge0(st, lneg(d)):
                    X, idx, r = A, 0, a
                else:
                    self.fail(st, A, B, "repetition bounds")
                if not (isinstance(r[4], tuple) and len(r[4]) == 1 and not r[4][0][0]):
                    self.fail(st, A, B, "repetition bounds")
                last = ladd(r[3], lin(-1))
                new = [("range", r[1], r[2], last, r[4])] + [subst(x, {("k", r[1]): last}) for x in r[4][0][1]]
                if X is A:
                    return self.m(st, new + A[1:], B, prev, depth + 1, inrange)
                return self.m(st, A, new + B[1:], prev, depth + 1, inrange)
            d = lsub(a[2], b[2])
            if I.ge0(st, d):
                side = "B"
            elif I.ge0(st, lneg(d)):
                side = "A"
            else:
                self.fail(st, A, B, "repetition bounds")
        X = A if side == "A" else B
        r = X[0]
        n = lsub(r[3], r[2])
        for s2, ne in I.split(st, ("ge0", ladd(n, lin(-1)))):
            if not ne:
                if side == "A":
                    self.m(s2, canon(I, s2, A[1:]), canon(I, s2, B), prev, depth + 1, inrange)
                else:
                    self.m(s2, canon(I, s2, A), canon(I, s2, B[1:]), prev, depth + 1, inrange)
                continue
            if not isinstance(r[4], tuple):
                self.fail(st, A, B, "repetition")
            km = {("k", r[1]): r[2]}
            rest = shift(("range", r[1], ladd(r[2], lin(1)), r[3], r[4]))
            for g, body in r[4]:
                s3 = assume_all(I, s2, [(subst(f, km), v) for f, v in g])
                if s3 is None:
                    continue
                nx = [subst(x, km) for x in body] + [rest] + X[1:]
                # no re-canonicalisation: it would undo the unrolling
                if side == "A":
                    self.m(s3, nx, B, prev, depth + 1, inrange)
                else:
                    self.m(s3, A, nx, prev, depth + 1, inrange)


def drop_empty(I, st, ps):
    out = []
    for p in ps:
        if p[0] == "rep" and I.ge0(st, lneg(p[2])):
            continue
        if is_layout(p) and p[0] == "txt" and I.decide(st, I.mkstreq((p,), ())):
            continue
        out.append(p)
    return cat(tuple(out))


def assume_all(I, st, facts):
    s = st
    for f, v in facts:
        if isinstance(v, bool) and f[0] != "var":
            s = I.assume(s, f, v)
            if s is None:
                return None
        else:
            k = s.facts.get(f)
            if k is not None:
                if k != v:
                    return None
                continue
            s = s.copy()
            s.facts[f] = v
    return s


def show_tok(t):
    if t[0] == "tok":
        return t[1]
    if t[0] == "ws":
        return "␠" if t[1] is None else "".join(show_piece(x) for x in t[1])
    if t[0] == "range":
        if isinstance(t[4], tuple) and not (t[4] and t[4][0] == "?"):
            return "(for k in %s..%s: %s)" % (
                show(t[2]),
                show(t[3]),
                " | ".join("".join(show_tok(x) for x in b) for _, b in t[4]),
            )
        return "(for ..)"
    return show_piece(t)


def facts_str(st):
    fs = []
    for f, v in sorted(st.facts.items(), key=repr):
        if f[0] == "var":
            fs.append("%s is variant %s" % (show_path(f[1]) if isinstance(f[1], tuple) else f[1], v))
        elif f[0] == "ge0":
            fs.append("%s >= 0" % show(f[1]))
        elif f[0] == "seq":
            fs.append(
                '%s %s %s'
                % (
                    "".join(map(show_piece, f[1])) or '""',
                    "==" if v else "!=",
                    "".join(map(show_piece, f[2])) or '""',
                )
            )
        elif f[0] == "symb":
            fs.append("%s%s" % ("" if v else "not ", show_path(f[1])))
        else:
            fs.append("%s is %s" % (show(f)[:80], v))
    return " [when " + ", ".join(fs[:8]) + "]" if fs else ""
