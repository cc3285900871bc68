"""The structures of the language: dot-structures."""
from .checks import check
from .interp import Interp, Hooks, St
from .terms import *

EXPLAIN = (
    "Abstract interpretation of the resolved MIR of every constructor, conversion, modifier, equality and clone "
    "function of dot-structures on symbolic values: the final value or the truth value of every path is compared with "
    "the one the names and types of the fields require."
)
ASSUME = [
    "Vec, String, Option and the comparison and cloning of library types behave as documented",
    "comparison and cloning of a nested type of the crate is the one checked for that type",
]


def expand(I, st, v, depth=6):
    """v with every symbolic part whose variant is known (or which is a struct) spelled out"""
    if not isinstance(v, tuple) or not v:
        return v
    if v[0] == "sym" and depth:
        ty = I.tyk(v[2])
        if ty["k"] == "adt" and ty.get("vs") and I.is_local(v[2]):
            if ty["ak"] == "enum":
                vi = st.facts.get(("var", v[1]))
                if vi is None:
                    return v
            else:
                vi = 0
            fs = tuple(expand(I, st, I.field(st, v, vi, i), depth - 1) for i in range(len(ty["vs"][vi]["f"])))
            return ("agg", ty["p"], vi, fs)
        if ty["k"] == "adt" and ty["p"] == OPT:
            vi = st.facts.get(("var", v[1]))
            if vi == 0:
                return NONE
            if vi == 1:
                return ("agg", OPT, 1, (expand(I, st, I.field(st, v, 1, 0), depth - 1),))
            return v
        if ty["k"] == "adt" and ty["p"] == "alloc::vec::Vec":
            p = I.parts(st, v)
            return ("seq", p) if p is not None else v
        return v
    if v[0] == "agg":
        return ("agg", v[1], v[2], tuple(expand(I, st, x, depth) for x in v[3]))
    if v[0] == "tup":
        return ("tup", tuple(expand(I, st, x, depth) for x in v[1]))
    if v[0] == "box":
        return expand(I, st, v[1], depth)
    if v[0] == "seq":
        return ("seq", tuple(("e", expand(I, st, p[1], depth)) if p[0] == "e" else p for p in v[1]))
    if v[0] == "cond":
        r = I.decide(st, v[1])
        return B(r) if r is not None else v
    return v


class SInterp(Interp):
    def is_local(self, t):
        return self.tyk(t).get("p", "").startswith("dot_structures::")


class Cut(Hooks):
    """the clone of a nested type of the crate is checked on its own: here it is the value"""

    def __init__(self, root):
        self.root = root

    def call(self, I, ci, args, st, fid, site, dty, loc):
        if ci.get("trait") == "core::clone::Clone" and ci.get("method") == "clone" and ci is not self.root and ci.get("self") is not None and I.is_local(ci["self"]):
            return [(st, I.deref(st, args[0]))]
        return None


class Runner:
    def __init__(self, prog, rep):
        self.prog = prog
        self.rep = rep

    def run(self, ci):
        """-> (interp, [(state, result)], args, initial self value or None)"""
        I = SInterp(self.prog, Cut(ci))
        st = St()
        args = []
        b = ci["body"]
        vals = []
        for k in range(b["argc"]):
            t = b["locals"][k + 1]
            ty = self.prog.tys[t]
            if ty["k"] == "ref":
                c = ("in", k)
                v = I.materialise(("a%d" % k,), ty["t"])
                st.mem[c] = v
                args.append(("ref", c, ()))
                vals.append((v, ty["t"], c))
            else:
                v = I.materialise(("a%d" % k,), t)
                args.append(v)
                vals.append((v, t, None))
        outs = I.run_fn(ci, args, st)
        self.rep.count("functions")
        self.rep.count("paths", len(outs))
        self.rep.count("call_sites", I.callsites)
        return I, outs, vals


def loc(ci):
    return ci.get("body", {}).get("span") or ci.get("span") or "dot-structures/src/lib.rs"


def unref(I, st, v):
    while v and v[0] == "ref":
        v = I.deref(st, v)
    return v


def same_fact(st, a, b):
    for x, y in ((a, b), (b, a)):
        f = st.facts.get(("p", "same", x, y))
        if f is not None:
            return f
    return None


class Eq:
    """decides, from the facts of one path, whether two symbolic values are equal"""

    def __init__(self, I, st, extra=None):
        self.I = I
        self.st = st
        if extra is not None:
            s = st.copy()
            s.facts[extra[0]] = extra[1]
            self.st = s

    def eq(self, a, b, depth=8):
        """True: established; False: refuted; None: open"""
        I, st = self.I, self.st
        if a == b:
            return True
        if a[0] == "S" and b[0] == "S":
            return I.decide(st, I.mkstreq(a[1], b[1]))
        if a[0] in ("cond", "b") and b[0] in ("cond", "b"):
            x = I.decide(st, a[1]) if a[0] == "cond" else a[1]
            y = I.decide(st, b[1]) if b[0] == "cond" else b[1]
            if x is None or y is None:
                return self.other(a, b)
            return x == y
        if a[0] == "lin" and b[0] == "lin":
            return I.decide(st, ("eq0", lsub(a, b)))
        if a[0] == "sym" and b[0] == "sym" and a[2] == b[2]:
            f = self.other(a, b)
            if f is not None:
                return f
            ty = I.tyk(a[2])
            if ty["k"] == "adt" and ty.get("vs") and (I.is_local(a[2]) or ty["p"] == OPT):
                if ty["ak"] == "enum":
                    va, vb = st.facts.get(("var", a[1])), st.facts.get(("var", b[1]))
                    if va is None or vb is None:
                        return None
                    if va != vb:
                        return False
                    vi = va
                else:
                    vi = 0
                if not depth:
                    return None
                res = True
                for i in range(len(ty["vs"][vi]["f"])):
                    r = self.eq(I.field(st, a, vi, i), I.field(st, b, vi, i), depth - 1)
                    if r is False:
                        return False
                    if r is None:
                        res = None
                return res
            if ty["k"] == "adt" and ty["p"] == "alloc::boxed::Box":
                return self.other(a, b)
        return self.other(a, b)

    def other(self, a, b):
        for x, y in ((a, b), (b, a)):
            f = self.st.facts.get(("p", "same", x, y))
            if f is not None:
                return f
            f = self.st.facts.get(("p", ("op", "same", (x, y))))
            if f is not None:
                return f
        return self.lists(a, b)

    def lists(self, a, b):
        """two lists of the input, as far as their lengths and elements were compared"""
        I, st = self.I, self.st
        if a[0] != "sym" or b[0] != "sym" or a[2] != b[2]:
            return None
        pa, pb = I.parts(st, a), I.parts(st, b)
        if pa is None or pb is None or len(pa) != 1 or len(pb) != 1 or pa[0][0] != "list" or pb[0][0] != "list":
            return None
        na, nb = I.seqlen(pa), I.seqlen(pb)
        d = lsub(na, nb)
        n = I.decide(st, ("eq0", d))
        if n is None and I.ge0(st, d) and I.ge0(st, lneg(d)):
            n = True
        if n is None and (I.ge0(st, ladd(d, lin(-1))) or I.ge0(st, ladd(lneg(d), lin(-1)))):
            n = False
        if n is False:
            return False

        def index(f):
            """the place at which the fact compares the two lists"""
            xs = f[2:4] if len(f) == 4 else f[1][2]
            if len(xs) != 2 or any(x[0] != "sym" or not x[1] or x[1][-1][0] != "ix" for x in xs):
                return None
            x, y = xs
            if {x[1][:-1], y[1][:-1]} != {a[1], b[1]} or x[1][-1] != y[1][-1] or a[1] == b[1]:
                return None
            return x[1][-1][1]

        for f, v in st.facts.items():
            if f[0] == "p" and v is False and (f[1] == "same" or f[1][:2] == ("op", "same")) and index(f) is not None:
                return False
        if n is True and (I.ge0(st, lneg(na)) or I.ge0(st, lneg(nb))):
            return True
        for f, v in st.facts.items():
            if n is True and v is True and f[0] == "all":
                i = index(f[2])
                if i is not None and i[0] == "lin" and i[1] == 0 and len(i[2]) == 1 and i[2][0][0][0] == "k" and (f[1] == na or f[1] == nb):
                    return True
        return None


@check("C25")
def build(ctx, rep):
    run(ctx, rep, dict(add=3, new=2, **{"from": 7}))


@check("C30")
def compare(ctx, rep):
    run(ctx, rep, dict(eq=10, clone=10))


KIND = {"add_stmt": "add", "add_attr": "add", "from": "from", "new": "new", "eq": "eq", "ne": "eq", "clone": "clone"}


def run(ctx, rep, kinds):
    prog = ctx.prog("structures")
    rep.explain = EXPLAIN
    rep.assumptions = ASSUME
    R = Runner(prog, rep)
    local = lambda t: prog.tys[t]["k"] == "adt" and prog.tys[t]["p"].startswith("dot_structures::")
    tname = lambda t: prog.tys[t]["s"] if "s" in prog.tys[t] else prog.tys[t]["p"]
    seen = {"add": 0, "from": 0, "new": 0, "eq": 0, "clone": 0}

    def bad(ci, kind, msg):
        rep.bad("%s|%s" % (ci["s"], kind), "dot-structures/src/lib.rs " + ci["s"], msg)

    def nopanic(ci, I):
        for p in I.panics:
            bad(ci, "panic", "can panic: %s" % (p["msg"],))

    for ci in [i for i in prog.insts if "body" in i and i.get("crate") == "dot_structures"]:
        m, tr = ci.get("method"), ci.get("trait")
        if ci.get("self") is None or not local(ci["self"]):
            continue
        if KIND.get(m) not in kinds:
            continue
        sty = prog.tys[ci["self"]]
        if tr is None and m in ("add_stmt", "add_attr"):
            I, outs, vals = R.run(ci)
            seen["add"] += 1
            nopanic(ci, I)
            want = "stmts" if m == "add_stmt" else "attributes"
            if not outs:
                bad(ci, "none", "does not return")
            covered = set()
            for st, res in outs:
                v0, t0, cell = vals[0]
                before, after = expand(I, st, v0, 2), expand(I, st, st.mem.get(cell), 2)
                if before[0] != "agg" or after is None or after[0] != "agg":
                    # no variant was looked at: the value is untouched or unknown
                    bad(ci, "value", "on a path with the facts {%s} the value is left as %s" % (show_facts(st), show(after)))
                    continue
                covered.add(before[2])
                names = [f[0] for f in sty["vs"][before[2]]["f"]]
                if after[1:3] != before[1:3]:
                    bad(ci, "variant", "turns a %s into %s" % (sty["vs"][before[2]]["n"], show(after)))
                    continue
                for n, x, y in zip(names, before[3], after[3]):
                    x, y = expand(I, st, x, 1), expand(I, st, y, 1)
                    if n == want:
                        xp = list(I.parts(st, x) or [("?",)])
                        arg = vals[1][0]
                        good = y[0] == "seq" and equal(I, st, flat(I, st, ("seq", tuple(xp) + (("e", arg),))), flat(I, st, y))
                        if not good:
                            bad(ci, "append", "%s of %s becomes %s: not the old ones followed by the new one" % (n, sty["vs"][before[2]]["n"], show(y)))
                    elif x != y:
                        bad(ci, "field", "%s of %s becomes %s" % (n, sty["vs"][before[2]]["n"], show(y)))
            if covered and covered != set(range(len(sty["vs"]))):
                bad(ci, "covered", "no path for the variants %s" % [v["n"] for i, v in enumerate(sty["vs"]) if i not in covered])
            rep.samples.append("%s: %d paths, the argument is appended on each" % (ci["s"], len(outs)))
        elif tr == "core::convert::From" and m == "from":
            I, outs, vals = R.run(ci)
            seen["from"] += 1
            nopanic(ci, I)
            argt = vals[0][1]
            cands = [i for i, v in enumerate(sty["vs"]) if len(v["f"]) == 1 and v["f"][0][1] == argt]
            if sty["ak"] != "enum" or len(cands) != 1:
                continue
            for st, res in outs:
                r = expand(I, st, res, 1)
                if r[0] != "agg" or r[2] != cands[0] or expand(I, st, r[3][0], 5) != expand(I, st, vals[0][0], 5):
                    bad(ci, "value", "converts to %s, expected %s of the argument" % (show(res), sty["vs"][cands[0]]["n"]))
            if not outs:
                bad(ci, "none", "does not return")
            rep.samples.append("%s: %s of the argument" % (ci["s"], sty["vs"][cands[0]]["n"]))
        elif tr is None and m == "new" and sty["p"].endswith("::GraphAttributes"):
            new_gattr(R, ci, sty, bad)
            seen["new"] += 1
        elif tr is None and m == "new":
            I, outs, vals = R.run(ci)
            seen["new"] += 1
            nopanic(ci, I)
            for st, res in outs:
                r = expand(I, st, res, 1)
                fs = sty["vs"][0]["f"]
                if sty["ak"] == "enum" or r[0] != "agg" or len(vals) != len(fs):
                    bad(ci, "shape", "unexpected result %s" % show(res))
                    continue
                for (n, t), x in zip(fs, r[3]):
                    a = [v for v, tt, c in vals if tt == t]
                    if len(a) == 1 and flat(I, st, x) != flat(I, st, a[0]):
                        bad(ci, "field", "field %s becomes %s" % (n, show(x)))
        elif tr == "core::cmp::PartialEq" and m in ("eq", "ne"):
            I, outs, vals = R.run(ci)
            seen["eq"] += m == "eq"
            nopanic(ci, I)
            a, b = vals[0][0], vals[1][0]
            if not outs:
                bad(ci, "none", "does not return")
            for st, res in outs:
                for val in (True, False):
                    if res[0] == "b":
                        if res[1] != val:
                            continue
                        s = st
                    elif res[0] == "cond":
                        s = I.assume(st, res[1], val)
                        if s is None:
                            continue
                    else:
                        bad(ci, "unknown", "the result is %s" % show(res))
                        continue
                    rep.count("outcomes")
                    got = Eq(I, s).eq(a, b)
                    if m == "ne":
                        got = None if got is None else not got
                    if got is not val:
                        bad(ci, "truth", "answers %s where the values are %s (facts: %s)" % (
                            val, {True: "equal", False: "different", None: "neither shown equal nor shown different"}[got if m == "eq" or got is None else not got], show_facts(s)))
            rep.samples.append("%s: %d paths" % (ci["s"], len(outs)))
        elif tr == "core::clone::Clone" and m == "clone":
            I, outs, vals = R.run(ci)
            seen["clone"] += 1
            nopanic(ci, I)
            if not outs:
                bad(ci, "none", "does not return")
            for st, res in outs:
                x, y = flat(I, st, vals[0][0]), flat(I, st, unref(I, st, res))
                if not equal(I, st, x, y):
                    bad(ci, "value", "the clone of %s is %s" % (show(x), show(y)))
    for k, n in kinds.items():
        rep.counts["kind_" + k] = seen[k]
        rep.floor("kind_" + k, n)


def flat(I, st, v):
    """a canonical form: structs and known variants spelled out, whole input lists as parts"""
    v = expand(I, st, v, 8)
    if v[0] == "agg":
        return ("agg", v[1], v[2], tuple(flat(I, st, x) for x in v[3]))
    if v[0] == "tup":
        return ("tup", tuple(flat(I, st, x) for x in v[1]))
    if v[0] == "seq":
        return ("seq", tuple(("e", flat(I, st, p[1])) if p[0] == "e" else copied(I, st, p) for p in v[1]))
    return v


def equal(I, st, x, y):
    """both in the form flat gives: the same value; y may list parts of an input list one by one"""
    if x == y:
        return True
    if x[0] == "agg" and y[0] == "agg":
        return x[1:3] == y[1:3] and len(x[3]) == len(y[3]) and all(equal(I, st, a, b) for a, b in zip(x[3], y[3]))
    if x[0] != "seq" or y[0] != "seq":
        return False
    need, have = list(x[1]), list(y[1])
    while need:
        p = need[0]
        if p[0] == "list" and I.ge0(st, lsub(p[2], p[3])):
            need.pop(0)
            continue
        if not have:
            return False
        q = have[0]
        if p[0] == "list" and q[0] == "list" and p[1] == q[1] and p[4] == q[4] and p[2] == q[2]:
            have.pop(0)
            if p[3] == q[3]:
                need.pop(0)
            else:
                need[0] = ("list", p[1], q[3], p[3], p[4])
            continue
        if p[0] == "list" and q[0] == "e":
            if not equal(I, st, flat(I, st, I.materialise(p[1] + (("ix", p[2]),), p[4])), q[1]):
                return False
            have.pop(0)
            need[0] = ("list", p[1], ladd(p[2], lin(1)), p[3], p[4])
            continue
        if p[0] == q[0] == "e" and equal(I, st, p[1], q[1]):
            need.pop(0)
            have.pop(0)
            continue
        if p == q:
            need.pop(0)
            have.pop(0)
            continue
        return False
    return all(q[0] == "list" and bool(I.ge0(st, lsub(q[2], q[3]))) for q in have)


def copied(I, st, p):
    """the part of an input list that a loop copies element by element, or the part itself"""
    if p[0] == "range" and len(p[4]) == 1 and len(p[4][0][1]) == 1:
        e = p[4][0][1][0]
        if e[0] == "e" and e[1][0] == "sym" and e[1][1] and e[1][1][-1][0] == "ix":
            ix, k = e[1][1][-1][1], sym(("k", p[1]))
            off = lsub(ix, k)
            if not any(s == ("k", p[1]) for s, _ in off[2]):
                return ("list", e[1][1][:-1], ladd(p[2], off), ladd(p[3], off), e[1][2])
    return p


def show_facts(st):
    return ", ".join("%s=%s" % (show(k), v) for k, v in st.facts.items())


def new_gattr(R, ci, sty, bad):
    I, outs, vals = R.run(ci)
    strs = [v for v, t, c in vals if v[0] == "S"]
    attrs = [v for v, t, c in vals if v[0] != "S"]
    if len(strs) != 1 or len(attrs) != 1:
        return bad(ci, "shape", "the arguments are not a text and a list")
    txt = strs[0]
    words = {v["n"].lower(): i for i, v in enumerate(sty["vs"])}

    def truth(st):
        """{word: True/False/None} what the path knows about the text, ignoring case"""
        k = {w: None for w in words}
        for f, val in st.facts.items():
            if f[0] == "seq":
                for x, y in ((f[1], f[2]), (f[2], f[1])):
                    if is_lit(y) and lit_text(y) in words and len(x) == 1:
                        p = x[0]
                        folded = False
                        while p[0] == "op" and p[1] in ("lower", "lowercase", "to_lowercase", "fold", "to_ascii_lowercase") and p[2]:
                            folded = True
                            p = p[2][0]
                            if p[0] == "S" and len(p[1]) == 1:
                                p = p[1][0]
                        if p != txt[1][0]:
                            continue
                        if folded or val is True:
                            k[lit_text(y)] = val
            elif f[0] == "p" and f[1] == "eqi":
                for x, y in ((f[2], f[3]), (f[3], f[2])):
                    if is_lit(y) and lit_text(y).lower() in words and len(x) == 1 and x[0] == txt[1][0]:
                        k[lit_text(y).lower()] = val
        t = [w for w in k if k[w] is True]
        if t:
            for w in k:
                k[w] = w == t[0]
        return k

    covered = set()
    for st, res in outs:
        r = expand(I, st, res, 1)
        k = truth(st)
        t = [w for w in k if k[w]]
        if len(t) != 1:
            bad(ci, "text", "returns %s where the text is not known to be one of the three words (%s)" % (show(res), show_facts(st)))
            continue
        if r[0] != "agg" or r[2] != words[t[0]]:
            bad(ci, "variant", "for `%s` returns %s" % (t[0], show(res)))
            continue
        covered.add(t[0])
        if flat(I, st, r[3][0]) != flat(I, st, attrs[0]):
            bad(ci, "attrs", "for `%s` the attributes become %s" % (t[0], show(r[3][0])))
    for w in words:
        if w not in covered:
            bad(ci, "missing", "no path returns for `%s`" % w)
    for p in I.panics:
        st = St(facts=p["facts"])
        k = truth(st)
        if not all(k[w] is False for w in k):
            bad(ci, "panic", "panics for a text that may be one of the three words: %s" % show_facts(st))
