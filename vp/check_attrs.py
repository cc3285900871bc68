"""The attribute functions and types of the library (src/attributes)."""
import re
from .checks import check
from .check_structures import SInterp, flat, show_facts
from .interp import Hooks, St
from .attrs_ref import CARRIERS, WORDS, DEFAULTS
from .terms import *

EXPLAIN = (
    "Abstract interpretation of the resolved MIR (after expansion of the generating macros and the derive) of every attribute function, every conversion "
    "to an attribute and every default in src/attributes, on symbolic arguments with every variant of the enumerations split: the attribute of each path "
    "is compared with the name of the function or type and the text of the value."
)
ASSUME = ["formatting of numbers and truth values by the standard library is as documented", "texts are passed as the caller gives them"]
OWN = {"NodeAttributes": "N", "EdgeAttributes": "E", "GraphAttributes": "G", "SubgraphAttributes": "C"}
ID = re.compile(r'(?:[A-Za-z_\x80-\uffff][\w]*|-?(?:\.[0-9]+|[0-9]+(?:\.[0-9]*)?)|"(?:[^"\\]|\\.)*"|<(?:[^<>]|<[^<>]*>)*>)\Z', re.S)
KEYWORDS = ("node", "edge", "graph", "digraph", "subgraph", "strict")
AT = "src/attributes/mod.rs "


def is_id(text):
    return ID.match(text) is not None and text.lower() not in KEYWORDS


class At:
    def __init__(self, ctx, rep):
        self.rep = rep
        self.prog = ctx.prog("root")
        self.tys = self.prog.tys
        self.insts = [i for i in self.prog.insts if "body" in i and i.get("crate") == "graphviz_rust"]

    def short(self, t):
        return self.tys[t].get("p", "").split("::")[-1]

    def owners(self):
        for i in self.insts:
            t = i.get("self")
            if t is not None and not i.get("trait") and self.short(t) in OWN and self.tys[t]["p"].startswith("graphviz_rust::attributes::"):
                if i["body"]["locals"][0] is not None and self.tys[i["body"]["locals"][0]].get("p", "").endswith("::Attribute"):
                    yield i, i["method"], OWN[self.short(t)], self.short(t)

    def convs(self):
        for i in self.insts:
            if i.get("trait", "") and i["trait"].split("::")[-1] == "IntoAttribute" and i.get("method") == "into_attr":
                yield i, self.short(i["self"])

    def defaults(self):
        for i in self.insts:
            t = i.get("self")
            if i.get("trait") == "core::default::Default" and t is not None and self.tys[t].get("p", "").startswith("graphviz_rust::attributes::"):
                yield i, self.short(t)

    def run(self, ci, args=None):
        I = AInterp(self.prog, Hooks())
        st = St()
        b = ci["body"]
        if args is None:
            args = [I.materialise(("a%d" % k,), b["locals"][k + 1]) for k in range(b["argc"])]
        outs = I.run_fn(ci, args, st)
        self.rep.count("functions")
        self.rep.count("paths", len(outs))
        self.rep.count("call_sites", I.callsites)
        return I, outs, args

    # ---- the text of a value --------------------------------------------
    def word(self, ty, vi):
        n = ty["vs"][vi]["n"]
        if n.startswith("r#"):
            n = n[2:]
        return n[:-1] if n.endswith("_") and len(n) > 1 else n

    def texts(self, I, st, v, t, depth=4):
        """the texts (part tuples) that state the value, or None if it has none here"""
        while v and v[0] == "ref":
            v = I.deref(st, v)
            t = self.tys[t]["t"]
        if v[0] == "S":
            return [v[1]]
        ty = self.tys[t]
        if ty["k"] == "bool":
            x = v[1] if v[0] == "b" else I.decide(st, v[1]) if v[0] == "cond" else None
            if x is not None:
                return [(("lit", "true" if x else "false"),), (("disp", v),)]
            return [(("disp", v),), (("dbg", v),)]
        if ty["k"] == "int":
            r = [(("disp", v),), (("dbg", v),)]
            if v[0] == "lin" and not v[2]:
                r.append((("lit", str(v[1])),))
            return r
        if ty["k"] == "float":
            r = [(("disp", v),)]
            if v[0] == "flt":
                r.append((("lit", fmtf(v[1])),))
            return r
        if ty["k"] == "adt" and ty.get("vs") and ty["p"].startswith("graphviz_rust::"):
            if ty["ak"] == "enum":
                vi = v[2] if v[0] == "agg" else st.facts.get(("var", v[1])) if v[0] == "sym" else None
                if vi is None or ty["vs"][vi]["f"]:
                    return None
                w = self.word(ty, vi)
                return [(("lit", w),), (("lit", '"%s"' % w),)]
            if len(ty["vs"][0]["f"]) == 1 and depth:
                return self.texts(I, st, I.field(st, v, 0, 0), ty["vs"][0]["f"][0][1], depth - 1)
        return None


class AInterp(SInterp):
    def is_local(self, t):
        p = self.tyk(t).get("p", "")
        return p.startswith("graphviz_rust::") or p.startswith("dot_structures::")


def fmtf(s):
    from decimal import Decimal

    x = format(Decimal(s), "f")
    return x.rstrip("0").rstrip(".") if "." in x else x


def attr(I, st, r):
    """(id variant of the name, name parts, id variant of the value, value parts) or None"""
    r = flat(I, st, r)
    if r[0] != "agg" or not r[1].endswith("::Attribute") or any(x[0] != "agg" or len(x[3]) != 1 or x[3][0][0] != "S" for x in r[3]):
        return None
    (a, b) = r[3]
    return a[2], a[3][0][1], b[2], b[3][0][1]


PLAIN = 2


def judge(A, I, st, res, name, v, t, where, key, bad):
    """one path of a function that makes the attribute `name` of the value v"""
    r = attr(I, st, res)
    if r is None:
        return bad(key + "|shape", where, "the result is %s" % show(res))
    nk, n, vk, w = r
    if nk != PLAIN or n != (("lit", name),):
        bad(key + "|name", where, "the attribute is called %s" % show(("S", n)))
    want = A.texts(I, st, v, t)
    if want is None:
        return bad(key + "|value", where, "the value %s is not told apart from others on this path" % show(v))
    if vk != PLAIN or not w in want:
        bad(key + "|value", where, "the value is %s instead of %s (%s)" % (show(("S", w)), " or ".join(show(("S", x)) for x in want), show_facts(st)))
    elif all(p[0] == "lit" for p in w) and not is_id("".join(p[1] for p in w)):
        bad(key + "|id|" + "".join(p[1] for p in w), where, "the value %s is not a DOT identifier: the attribute list it is printed in is not valid" % show(("S", w)))


@check("C27")
def functions(ctx, rep):
    rep.explain, rep.assumptions = EXPLAIN, ASSUME
    A = At(ctx, rep)
    for ci, m, kind, owner in A.owners():
        where = AT + owner + "::" + m
        key = owner + "::" + m
        if ci["body"]["argc"] == 0:
            continue
        I, outs, args = A.run(ci)
        for p in I.panics:
            rep.bad(key + "|panic", where, "can panic: %s" % p["msg"])
        if not outs:
            rep.bad(key + "|none", where, "does not return")
        rep.count("attribute_functions")
        if ci["body"]["argc"] > 1:
            several(A, I, ci, outs, args, m, where, key, rep)
            continue
        t = ci["body"]["locals"][1]
        for st, res in outs:
            judge(A, I, st, res, m, args[0], t, where, key, rep.bad)
        covered(A, I, outs, args[0], t, where, key, rep)
        if len(rep.samples) < 8 and len(outs) == 1:
            rep.samples.append("%s: %s" % (key, show(outs[0][1])))
    for ci, name in A.convs():
        where = AT + "%s::into_attr" % name
        I, outs, args = A.run(ci)
        rep.count("conversions")
        for p in I.panics:
            rep.bad(name + "|panic", where, "can panic: %s" % p["msg"])
        if not outs:
            rep.bad(name + "|none", where, "does not return")
        for st, res in outs:
            judge(A, I, st, res, name, args[0], ci["body"]["locals"][1], where, name, rep.bad)
        covered(A, I, outs, args[0], ci["body"]["locals"][1], where, name, rep)
    rep.floor("attribute_functions", 200)
    rep.floor("conversions", 150)


def covered(A, I, outs, v, t, where, key, rep):
    ty = A.tys[t]
    if ty["k"] == "adt" and ty.get("ak") == "enum" and v[0] == "sym":
        seen = {st.facts.get(("var", v[1])) for st, _ in outs}
        miss = [x["n"] for i, x in enumerate(ty["vs"]) if i not in seen]
        if miss and None not in seen:
            rep.bad(key + "|covered", where, "no result for %s" % ", ".join(miss))
        words = {}
        for i, x in enumerate(ty["vs"]):
            words.setdefault(A.word(ty, i), []).append(x["n"])
        for w, l in words.items():
            if len(l) > 1:
                rep.bad(key + "|words", where, "%s have the same word" % ", ".join(l))


def several(A, I, ci, outs, args, m, where, key, rep):
    """a pair of numbers, separated by a comma, for the attribute the name begins with"""
    name = max((n for n in CARRIERS if m == n or m.startswith(n + "_")), key=len, default=None)
    if name is None:
        return rep.bad(key + "|name", where, "no attribute has a name that %s begins with" % m)
    for st, res in outs:
        r = attr(I, st, res)
        if r is None:
            rep.bad(key + "|shape", where, "the result is %s" % show(res))
            continue
        nk, n, vk, w = r
        if nk != PLAIN or n != (("lit", name),):
            rep.bad(key + "|name", where, "the attribute is called %s" % show(("S", n)))
        ts = [A.texts(I, st, a, ci["body"]["locals"][i + 1]) for i, a in enumerate(args)]
        if any(x is None for x in ts):
            rep.bad(key + "|value", where, "the value is %s" % show(("S", w)))
            continue
        want = ()
        for i, x in enumerate(ts):
            want += ((("lit", ","),) if i else ()) + x[0]
        quoted = (("lit", '"'),) + want + (("lit", '"'),)
        if vk == PLAIN and w == want:
            rep.bad(key + "|id", where, "the plain value %s is not one DOT identifier: the attribute list it is printed in is not valid" % show(("S", w)))
        elif not w == quoted:
            rep.bad(key + "|value", where, "the value is %s instead of the numbers in order, separated by a comma" % show(("S", w)))


@check("C29")
def documented(ctx, rep):
    rep.explain = EXPLAIN + " Names, carriers, words and defaults are compared with the documented ones (vp/attrs_ref.py)."
    rep.assumptions = ASSUME
    A = At(ctx, rep)
    seen = set()
    for ci, m, kind, owner in A.owners():
        where = AT + owner + "::" + m
        if ci["body"]["argc"] != 1:
            continue
        rep.count("attribute_functions")
        if m not in CARRIERS:
            rep.bad("name|" + m, where, "Graphviz has no attribute `%s`" % m)
        elif kind not in CARRIERS[m]:
            rep.bad("carrier|%s|%s" % (m, kind), where, "`%s` is not an attribute of this kind of element" % m)
        enum_words(A, ci["body"]["locals"][1], m, where, rep, seen)
    for ci, name in A.convs():
        rep.count("types")
        if name not in CARRIERS and name not in WORDS:
            rep.bad("name|" + name, AT + name, "Graphviz has no attribute `%s`" % name)
        enum_words(A, ci["self"], name, AT + name, rep, seen)
    convs = {n: ci for ci, n in A.convs()}
    for ci, name in A.defaults():
        where = AT + "%s::default" % name
        I, outs, _ = A.run(ci)
        rep.count("defaults")
        if len(outs) != 1 or I.panics:
            rep.bad("default|" + name, where, "has %d outcomes, %d panics" % (len(outs), len(I.panics)))
            continue
        st, v = outs[0]
        v = flat(I, st, v)
        w = A.texts(I, st, v, ci["body"]["locals"][0])
        lits = [lit_text(x) for x in (w or ()) if is_lit(x)] or (["".join(p[1] for p in w[0])] if w and all(p[0] == "lit" for p in w[0]) else [])
        if not lits:
            rep.bad("default|" + name, where, "the default is %s" % show(v))
            continue
        got = lits[0]
        if A.tys[ci["self"]].get("ak") != "enum" and not is_id(got):
            rep.bad("id|" + name, where, "the default `%s` is not a DOT identifier: the attribute cannot be printed" % got)
        bare = got[1:-1].replace('\\"', '"') if len(got) > 1 and got[0] == got[-1] == '"' else got
        if name in DEFAULTS:
            want = DEFAULTS[name]
            want = want if isinstance(want, tuple) else (want,)
            if not any(agree(bare, x) for x in want):
                rep.bad("default|" + name, where, "the default is `%s`; Graphviz has %s" % (bare, " or ".join("`%s`" % (x,) for x in want) or "none"))
        elif name in WORDS:
            pass
        else:
            rep.bad("default|" + name, where, "no default is documented")
        if len(rep.samples) < 10:
            rep.samples.append("%s: default `%s`" % (name, got))
    rep.floor("attribute_functions", 200)
    rep.floor("types", 150)
    rep.floor("defaults", 100)
    rep.floor("words", 700)


def agree(text, x):
    if isinstance(x, bool):
        return text == ("true" if x else "false")
    if isinstance(x, (int, float)):
        try:
            return float(text) == x
        except ValueError:
            return False
    return text == x


def enum_words(A, t, name, where, rep, seen):
    ty = A.tys[t]
    if ty["k"] != "adt" or ty.get("ak") != "enum" or not ty["p"].startswith("graphviz_rust::attributes::"):
        return
    tn = ty["p"].split("::")[-1]
    if tn in seen:
        return
    seen.add(tn)
    if tn not in WORDS:
        return rep.bad("words|" + tn, where, "no words are documented for `%s`" % tn)
    for i, v in enumerate(ty["vs"]):
        rep.count("words")
        w = A.word(ty, i)
        if w not in WORDS[tn]:
            rep.bad("word|%s|%s" % (tn, w), where, "`%s` is not a value of `%s`" % (w, tn))
