"""The builder macros of dot-generator: every documented form is expanded by the compiler in a generated
witness crate and its MIR compared, by abstract interpretation, with that of the value spelled out by hand."""
import os, re
from .checks import check
from .check_structures import SInterp, equal, flat, show_facts
from .interp import Hooks, St
from .terms import *

EXPLAIN = (
    "Every documented form of every macro of dot-generator is written out in a generated witness crate, once with the macro and once as the "
    "value that the documentation states, with arguments of all syntactic shapes and lists of every length up to one more than any arm of the "
    "macros can tell apart. The compiler expands and resolves both; abstract interpretation of their MIR compares the two values "
    "and the arguments that are evaluated. A form that does not compile is a violation at that form."
)
ASSUME = [
    "Vec, String, Option and formatting behave as documented",
    "a repetition in a macro treats all its elements alike beyond the number of elements any arm can name",
    "expressions of another shape than the witnessed ones (call, macro call, index, reference, negation, parentheses, match, literal) are matched like one of those",
]

HEAD = """#![allow(warnings)]
use dot_generator::*;
use dot_structures::*;
extern crate alloc;
unsafe extern "Rust" {
    pub safe fn text(n: u32) -> String;
    pub safe fn num(n: u32) -> i64;
    pub safe fn ident(n: u32) -> Id;
    pub safe fn a_port(n: u32) -> Port;
    pub safe fn a_nid(n: u32) -> NodeId;
    pub safe fn a_node(n: u32) -> Node;
    pub safe fn an_edge(n: u32) -> Edge;
    pub safe fn a_sub(n: u32) -> Subgraph;
    pub safe fn an_attr(n: u32) -> Attribute;
    pub safe fn a_gattr(n: u32) -> GraphAttributes;
    pub safe fn a_stmt(n: u32) -> Stmt;
    pub safe fn attr_list(n: u32) -> Vec<Attribute>;
    pub safe fn stmt_list(n: u32) -> Vec<Stmt>;
}
macro_rules! via { ($f:ident, $n:expr) => { $f($n) } }
pub struct Env { pub t: [String; 12] }
"""

STYLES = {
    "call": "{f}({n})", "macro": "via!({f}, {n})", "paren": "({f}({n}))", "match": "match 0 {{ _ => {f}({n}) }}",
    "index": "e.t[{n}]", "ref": "&{f}({n})", "neg": "-num({n})", "lit": "\"t{n}\"", "sum": "num({n}) - 1", "name": "t{n}",
}
TEXT_ONLY = ("index", "ref", "neg", "lit", "sum")
STMTS = [("a_node", "Stmt::Node({})"), ("an_edge", "Stmt::Edge({})"), ("a_sub", "Stmt::Subgraph({})"), ("an_attr", "Stmt::Attribute({})"), ("a_gattr", "Stmt::GAttribute({})"), ("a_stmt", "{}")]
ENDS = [("a_nid", "Vertex::N({})"), ("a_sub", "Vertex::S({})")]
PREF = [("", "Id::Plain(format!(\"{{}}\", {}))"), ("html ", "Id::Html(format!(\"{{}}\", {}))"), ("esc ", "Id::Escaped(format!(\"\\\"{{}}\\\"\", {}))")]
NOID = "Id::Anonymous(String::new())"


class Gen:
    """one argument style; numbers the arguments of a form"""

    def __init__(self, style):
        self.style = style
        self.n = 0
        self.lets = []

    def a(self, f):
        n = self.n
        self.n += 1
        st = self.style if f == "text" or self.style not in TEXT_ONLY else "call"
        if st == "name":
            self.lets.append("let t%d = %s(%d);" % (n, f, n))
        return STYLES[st].format(f=f, n=n)


def forms(maxlen):
    """(name, result type, macro text, value text) over all documented forms; a function of a Gen each"""
    out = []

    def add(name, ret, fn):
        out.append((name, ret, fn))

    lens = list(range(1, maxlen + 1))

    def idp(g, p):
        x = g.a("text")
        return PREF[p][0] + x, PREF[p][1].format(x)

    def mix(g, kinds, n, k=0):
        """n arguments with the kinds in turn -> (macro texts, value texts)"""
        m, v = [], []
        for i in range(n):
            f, w = kinds[(i + k) % len(kinds)]
            x = g.a(f)
            m.append(x)
            v.append(w.format(x))
        return m, v

    # port!
    add("port!()", "Port", lambda g: ("port!()", "Port(None, None)"))

    def f(g):
        t = g.a("text")
        return "port!(, %s)" % t, "Port(None, Some((%s).to_string()))" % t
    add("port!(, text)", "Port", f)

    def f(g):
        i, t = g.a("ident"), g.a("text")
        return "port!(%s, %s)" % (i, t), "Port(Some(%s), Some((%s).to_string()))" % (i, t)
    add("port!(id, text)", "Port", f)

    def f(g):
        i = g.a("ident")
        return "port!(%s)" % i, "Port(Some(%s), None)" % i
    add("port!(id)", "Port", f)
    # id!
    add("id!()", "Id", lambda g: ("id!()", NOID))
    for p in range(3):
        def f(g, p=p):
            m, v = idp(g, p)
            return "id!(%s)" % m, v
        add("id!(%stext)" % PREF[p][0], "Id", f)

        def f(g, p=p):
            m, v = idp(g, p)
            return "node_id!(%s)" % m, "NodeId(%s, None)" % v
        add("node_id!(%stext)" % PREF[p][0], "NodeId", f)

        def f(g, p=p):
            m, v = idp(g, p)
            q = g.a("a_port")
            return "node_id!(%s, %s)" % (m, q), "NodeId(%s, Some(%s))" % (v, q)
        add("node_id!(%stext, port)" % PREF[p][0], "NodeId", f)
        for q in range(3):
            def f(g, p=p, q=q):
                m, v = idp(g, p)
                n, w = idp(g, q)
                return "attr!(%s, %s)" % (m, n), "Attribute(%s, %s)" % (v, w)
            add("attr!(%stext, %stext)" % (PREF[p][0], PREF[q][0]), "Attribute", f)
    add("node_id!()", "NodeId", lambda g: ("node_id!()", "NodeId(%s, None)" % NOID))
    # stmt!
    for k, w in STMTS:
        def f(g, k=k, w=w):
            x = g.a(k)
            return "stmt!(%s)" % x, w.format(x)
        add("stmt!(%s)" % k, "Stmt", f)
    # attrs!
    add("attrs!()", "GraphAttributes", lambda g: ("attrs!()", "GraphAttributes::Graph(vec![])"))
    for w, V in (("graph", "Graph"), ("node", "Node"), ("edge", "Edge")):
        def f(g, w=w, V=V):
            x = g.a("attr_list")
            return "attrs!(%s %s)" % (w, x), "GraphAttributes::%s(%s)" % (V, x)
        add("attrs!(%s vec)" % w, "GraphAttributes", f)
        for n in lens:
            def f(g, w=w, V=V, n=n):
                m, v = mix(g, [("an_attr", "{}")], n)
                return "attrs!(%s; %s)" % (w, ", ".join(m)), "GraphAttributes::%s(vec![%s])" % (V, ", ".join(v))
            add("attrs!(%s; %d attributes)" % (w, n), "GraphAttributes", f)
    # subgraph!
    SG = "Subgraph {{ id: {}, stmts: {} }}"
    add("subgraph!()", "Subgraph", lambda g: ("subgraph!()", SG.format(NOID, "vec![]")))
    for n in lens:
        for k in range(len(STMTS) if n == 1 else 1):
            def f(g, n=n, k=k):
                m, v = mix(g, STMTS, n, k)
                return "subgraph!(; %s)" % ", ".join(m), SG.format(NOID, "vec![%s]" % ", ".join(v))
            add("subgraph!(; %d statements)" % n, "Subgraph", f)
    for p in range(3):
        def f(g, p=p):
            m, v = idp(g, p)
            return "subgraph!(%s)" % m, SG.format(v, "vec![]")
        add("subgraph!(%stext)" % PREF[p][0], "Subgraph", f)

        def f(g, p=p):
            m, v = idp(g, p)
            l = g.a("stmt_list")
            return "subgraph!(%s, %s)" % (m, l), SG.format(v, l)
        add("subgraph!(%stext, vec)" % PREF[p][0], "Subgraph", f)
        for n in lens:
            def f(g, p=p, n=n):
                m, v = idp(g, p)
                a, b = mix(g, STMTS, n, n)
                return "subgraph!(%s; %s)" % (m, ", ".join(a)), SG.format(v, "vec![%s]" % ", ".join(b))
            add("subgraph!(%stext; %d statements)" % (PREF[p][0], n), "Subgraph", f)
    # node!
    ND = "Node {{ id: NodeId({}, {}), attributes: {} }}"
    add("node!()", "Node", lambda g: ("node!()", ND.format(NOID, "None", "vec![]")))
    for p in range(3):
        for port in (False, True):
            for n in [None, 0] + lens:
                def f(g, p=p, port=port, n=n):
                    m, v = idp(g, p)
                    q = "None"
                    if port:
                        x = g.a("a_port")
                        m += " => " + x
                        q = "Some(%s)" % x
                    if n is None:
                        return "node!(%s)" % m, ND.format(v, q, "vec![]")
                    if n == 0:
                        l = g.a("attr_list")
                        return "node!(%s, %s)" % (m, l), ND.format(v, q, l)
                    a, b = mix(g, [("an_attr", "{}")], n)
                    return "node!(%s; %s)" % (m, ", ".join(a)), ND.format(v, q, "vec![%s]" % ", ".join(b))
                add("node!(%stext%s%s)" % (PREF[p][0], " => port" if port else "", "" if n is None else ", vec" if n == 0 else "; %d attributes" % n), "Node", f)
    # edge!
    for k in range(2, maxlen + 2):
        for s in range(2):
            for n in [None, 0] + lens:
                def f(g, k=k, n=n, s=s):
                    a, b = mix(g, ENDS, k, s)
                    ty = "EdgeTy::Pair(%s, %s)" % tuple(b) if k == 2 else "EdgeTy::Chain(vec![%s])" % ", ".join(b)
                    m = " => ".join(a)
                    E = "Edge {{ ty: {}, attributes: {} }}"
                    if n is None:
                        return "edge!(%s)" % m, E.format(ty, "vec![]")
                    if n == 0:
                        l = g.a("attr_list")
                        return "edge!(%s, %s)" % (m, l), E.format(ty, l)
                    x, y = mix(g, [("an_attr", "{}")], n)
                    return "edge!(%s; %s)" % (m, ", ".join(x)), E.format(ty, "vec![%s]" % ", ".join(y))
                if s == 1 and n not in (None, 0, 1):
                    continue
                add("edge!(%d end points%s)" % (k, "" if n is None else ", vec" if n == 0 else "; %d attributes" % n), "Edge", f)
    # graph!
    for strict in (False, True):
        for di in (False, True):
            G = "Graph::%s {{ id: {}, strict: %s, stmts: {} }}" % ("DiGraph" if di else "Graph", str(strict).lower())
            pre = ("strict " if strict else "") + ("di " if di else "")
            for n in [None, 0] + lens:
                def f(g, G=G, pre=pre, n=n):
                    i = g.a("ident")
                    if n is None:
                        return "graph!(%s%s)" % (pre, i), G.format(i, "vec![]")
                    if n == 0:
                        l = g.a("stmt_list")
                        return "graph!(%s%s, %s)" % (pre, i, l), G.format(i, l)
                    a, b = mix(g, STMTS, n, n)
                    return "graph!(%s%s; %s)" % (pre, i, ", ".join(a)), G.format(i, "vec![%s]" % ", ".join(b))
                add("graph!(%sid%s)" % (pre, "" if n is None else ", vec" if n == 0 else "; %d statements" % n), "Graph", f)
    return out


def list_bound(src):
    """one more than the number of single arguments any arm of a macro names"""
    n = 0
    for line in re.findall(r"^\s*\((.*)\)\s*=>", src, re.M):
        while True:
            t = re.sub(r"\$\([^()]*\)\s*[^\s\w$]?\s*[+*?]", "", line)
            if t == line:
                break
            line = t
        n = max(n, len(re.findall(r"\$\w+\s*:", line)))
    return max(4, min(n + 1, 9))


def witness(forms_, skip):
    """-> (source, [(line, form name, style)]); two functions of one line each"""
    lines = HEAD.split("\n")
    rows = []
    seen = set()
    for name, ret, fn in forms_:
        for style in STYLES:
            g = Gen(style)
            m, v = fn(g)
            if (m, v) in seen:
                continue
            seen.add((m, v))
            k = len(rows)
            rows.append((name, style, m))
            if k in skip:
                continue
            lets = " ".join(g.lets)
            rows[k] = (name, style, m)
            lines.append("pub fn w_%d(e: Env) -> %s { %s %s }" % (k, ret, lets, m))
            lines.append("pub fn x_%d(e: Env) -> %s { %s %s }" % (k, ret, lets, v))
    return "\n".join(lines) + "\n", rows


TOML = """[package]
name = "vp_macros"
version = "0.1.0"
edition = "2021"
[dependencies]
dot-generator = {{ path = "{repo}/dot-generator" }}
dot-structures = {{ path = "{repo}/dot-structures" }}
[workspace]
"""


class Mac(Hooks):
    """an argument is an opaque value; its evaluation is recorded"""

    def call(self, I, ci, args, st, fid, site, dty, loc):
        if ci.get("crate") == "vp_macros" and "body" not in ci:
            name = ci["s"].split("::")[-1]
            s = st.copy()
            s.ev = st.ev + ((name, tuple(args)),)
            return [(s, I.materialise(("arg", name, tuple(args)), dty))]
        return None


def outcome(prog, ci):
    I = SInterp(prog, Mac())
    st = St()
    args = [I.materialise(("a%d" % k,), ci["body"]["locals"][k + 1]) for k in range(ci["body"]["argc"])]
    res = []
    for s, r in I.run_fn(ci, args, st):
        res.append((s, flat(I, s, r), sorted(map(repr, s.ev))))
    return I, res


@check("C26")
def macros(ctx, rep):
    rep.explain = EXPLAIN
    rep.assumptions = ASSUME
    src = ctx.source("dot-generator/src/lib.rs")
    cut = src.find("#[cfg(test)]")
    n = list_bound(src[:cut] if cut > 0 else src)
    fs = forms(n)
    prog, rows, lost = ctx.witness("macros", TOML, lambda skip: witness(fs, skip))
    rep.count("forms", len(fs))
    rep.count("witnesses", len(rows))
    rep.count("longest_list", n)
    at = "dot-generator/src/lib.rs "
    for k, msg in sorted(lost.items()):
        name, style, m = rows[k]
        rep.bad("compile|%s|%s" % (name, style), at + name, "`%s` does not compile: %s" % (m, msg))
    by = {}
    for i in prog.insts:
        if "body" in i and i.get("crate") == "vp_macros":
            mt = re.search(r"(?:^|::)([wx])_(\d+)$", i["s"])
            if mt:
                by[mt.group(1), int(mt.group(2))] = i
    for k, (name, style, m) in enumerate(rows):
        if k in lost:
            continue
        a, b = by.get(("w", k)), by.get(("x", k))
        if a is None or b is None:
            rep.bad("missing|" + name, at + name, "the witness of `%s` was not exported" % m)
            continue
        I, got = outcome(prog, a)
        J, want = outcome(prog, b)
        rep.count("compared")
        for p in I.panics[len(J.panics):]:
            rep.bad("panic|" + name, at + name, "`%s` can panic: %s" % (m, p["msg"]))
        if not got or len(want) != 1:
            rep.bad("paths|" + name, at + name, "`%s` has %d outcomes" % (m, len(got)))
            continue
        rep.count("paths", len(got))
        _, w, once = want[0]
        for st, g, ev in got:
            if ev != once:
                rep.bad("eval|" + name, at + name, "`%s` evaluates %s instead of each argument once" % (m, ev))
            elif not equal(I, st, w if len(got) == 1 else flat(I, st, w), g):
                facts = show_facts(st)
                rep.bad("value|" + name, at + name, "`%s` is %s; it should be %s%s" % (m, show(g), show(w), " [when %s]" % facts if facts else ""))
        if k % 97 == 0:
            rep.samples.append("`%s` is %s" % (m, show(got[0][1])[:200]))
    rep.floor("compared", 500)


# ---- the derive ------------------------------------------------------------
DTOML = """[package]
name = "vp_derive"
version = "0.1.0"
edition = "2021"
[dependencies]
into-attr-derive = {{ path = "{repo}/into-attr-derive" }}
into-attr = {{ path = "{repo}/into-attr" }}
dot-generator = "0.2.0"
dot-structures = "0.1.1"
[workspace]
"""
DHEAD = """#![allow(warnings)]
use dot_generator::*;
use dot_structures::*;
use into_attr::IntoAttribute;
use into_attr_derive::IntoAttribute;
#[derive(Debug)] pub struct Shown(pub u8);
impl std::fmt::Display for Shown { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { f.write_str("<")?; write!(f, "{}", self.0)?; f.write_str(">") } }
"""
NAMES = ["a", "Z", "color", "headURL", "label_scheme", "_background", "nslimit1", "x_", "__", "Big_Name_", "attr", "Ident", "r#type", "r#box", "größe"]
FIELDS = ["String", "&'static str", "f32", "f64", "i32", "u64", "bool", "char", "crate::Shown", "Option1"]
VARS = ["normal", "box_", "avg_dist", "twice__", "___", "BL", "r#in", "r#type", "x1_", "_low", "ns", "tee", "_a_", "Æ_"]


def derived():
    """(name of the row, declaration, value of the attribute with the type spelled out)"""
    rows = []

    def bare(n):
        return n[2:] if n.startswith("r#") else n

    A = "Attribute(Id::Plain(String::from(\"%s\")), Id::Plain(%s))"
    for i, n in enumerate(NAMES):
        for j, f in enumerate(FIELDS):
            if f == "Option1" or (j and i % 5 and j % 5 != i % 5):
                continue
            rows.append(("struct %s(%s)" % (n, f), n, "pub struct %s(pub %s);" % (n, f), A % (bare(n), "format!(\"{}\", e.0)")))
    for i, n in enumerate(NAMES):
        vs = VARS[i % 7:] if i else VARS
        for sub in (vs, vs[:1]):
            arms = ", ".join("%s::%s => String::from(\"%s\")" % (n, v, word(bare(v))) for v in sub)
            rows.append(("enum %s { %s }" % (n, ", ".join(sub)), n, "pub enum %s { %s }" % (n, ", ".join(sub)), A % (bare(n), "match e { %s }" % arms)))
    arms = ", ".join("kind::%s => String::from(\"%s\")" % (v, word(v)) for v in ("a", "b_"))
    rows.append(("enum kind { a = 3, b_ = 7 }", "kind", "pub enum kind { a = 3, b_ = 7 }", A % ("kind", "match e { %s }" % arms)))
    # with everything a type may carry
    more = "/// one\n/// two\n///\n/// four\n#[allow(dead_code)]\n#[must_use]\n#[deprecated]\n#[doc(hidden)]\n"
    rows.append(("a documented struct", "documented", more + "pub struct documented(/// the value\n #[allow(dead_code)] pub(crate) String);", A % ("documented", "e.0")))
    rows.append(("a struct with a private field", "private_", "pub(crate) struct private_(f32);", A % ("private_", "format!(\"{}\", e.0)")))
    arms = ", ".join("told::%s => String::from(\"%s\")" % (v, word(v)) for v in ("a", "b_"))
    rows.append(("a documented enum", "told", "#[repr(u8)]\n" + more + "pub enum told { /// first\n /// of two\n a, #[allow(dead_code)] #[doc(hidden)] b_ }", A % ("told", "match e { %s }" % arms)))
    return rows


def word(v):
    return v[:-1] if v.endswith("_") else v


def dwitness(rows, skip):
    lines = DHEAD.split("\n")
    for k, (what, n, decl, val) in enumerate(rows):
        if k in skip:
            continue
        lines.append("pub mod m_%d { use super::*; #[derive(Debug, IntoAttribute)] %s pub fn w_%d(e: %s) -> Attribute { e.into_attr() }" % (k, decl, k, n))
        lines.append("pub fn x_%d(e: %s) -> Attribute { %s } }" % (k, n, val))
    return "\n".join(lines) + "\n", rows


DEXPLAIN = (
    "The derive is applied, in a generated witness crate, to types of every kind it supports with names, variants and fields of all shapes; the compiler runs "
    "the current procedural macro and resolves the result. Abstract interpretation of the MIR of each derived conversion compares the attribute of every path "
    "with the one made by hand from the name of the type and the variant or the field."
)


@check("C28")
def derive(ctx, rep):
    rep.explain = DEXPLAIN
    rep.assumptions = ["formatting by the standard library is as documented", "the derive treats all names alike that differ in letters only"]
    ctx.source("into-attr-derive/src/lib.rs")
    rows = derived()
    prog, rows, lost = ctx.witness("derive", DTOML, lambda skip: dwitness(rows, skip))
    rep.count("types", len(rows))
    by = {}
    for i in prog.insts:
        if "body" in i and i.get("crate") == "vp_derive":
            mt = re.search(r"(?:^|::)([wx])_(\d+)$", i["s"])
            if mt:
                by[mt.group(1), int(mt.group(2))] = i
    for k, (what, n, decl, val) in enumerate(rows):
        at = "into-attr-derive/src/lib.rs derive for `%s`" % what
        if k in lost:
            rep.bad("compile|" + what, at, "the derived code does not compile: %s" % lost[k])
            continue
        a, b = by.get(("w", k)), by.get(("x", k))
        if a is None or b is None:
            rep.bad("missing|" + what, at, "the witness was not exported")
            continue
        I, got = outcome(prog, a)
        J, want = outcome(prog, b)
        rep.count("compared")
        rep.count("paths", len(got))
        for p in I.panics:
            rep.bad("panic|" + what, at, "can panic: %s" % p["msg"])
        g, w = by_variant(got), by_variant(want)
        if len(g) != len(got) or set(g) != set(w):
            # a conversion that does not tell the variants apart has one outcome for all
            rep.bad("paths|" + what, at, "%d outcomes, expected %d" % (len(got), len(want)))
            continue
        for v in g:
            if g[v] != w[v]:
                rep.bad("value|%s|%s" % (what, v), at, "gives %s; it should be %s" % (show(g[v]), show(w[v])))
        if k % 12 == 0:
            rep.samples.append("%s: %s" % (what, "; ".join(show(x) for x in list(g.values())[:3])))
    rep.floor("compared", 50)
    rep.floor("paths", 150)


def by_variant(outs):
    return {tuple(sorted((repr(k), v) for k, v in s.facts.items() if k[0] == "var")): r for s, r, _ in outs}
