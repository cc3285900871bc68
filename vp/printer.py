"""What the printer must produce, and the analysis that shows it does.

Every `DotPrinter` implementation is analysed on its own, on a symbolic input and an
abstract context; prints of sub-objects stay atoms.  The specification gives the text
required for a *request* (the documented meaning of the context's options); an atom of
the implementation that meets an atom of the specification adds the obligation
(type, implementation context, request) to the work list, so the whole printer is
covered by a simulation between implementation contexts and requests.
"""
from . import once
from .terms import *
from .interp import *
from .matching import *
from collections import namedtuple

Req = namedtuple("Req", "semi multi comma step size sep indent digraph printers")

SHORT = {
    "dot_structures::Id": "Id",
    "dot_structures::Port": "Port",
    "dot_structures::NodeId": "NodeId",
    "dot_structures::Attribute": "Attribute",
    "dot_structures::GraphAttributes": "GraphAttributes",
    "dot_structures::Node": "Node",
    "dot_structures::Vertex": "Vertex",
    "dot_structures::Subgraph": "Subgraph",
    "dot_structures::Graph": "Graph",
    "dot_structures::Stmt": "Stmt",
    "dot_structures::Edge": "Edge",
    "std::vec::Vec<dot_structures::Attribute>": "Vec<Attribute>",
    "std::vec::Vec<dot_structures::Stmt>": "Vec<Stmt>",
}
TYPES = list(SHORT.values())
FLAT = ("Id", "Port", "NodeId", "Attribute", "Vec<Attribute>", "GraphAttributes", "Node")  # no blocks inside
SELF = "self"


def trait_is_printer(ci):
    return ci.get("method") == "print" and (ci.get("trait") or "").endswith("::DotPrinter")


class PHooks(Hooks):
    def __init__(self, an):
        self.an = an

    def call(self, I, ci, args, st, fid, site, dty, loc):
        if trait_is_printer(ci) and ci.get("ik") == "item":
            T = SHORT.get(I.tyk(ci["self"])["s"])
            if T is None:
                return None
            v = I.deref(st, args[0])
            c = I.deref(st, args[1])
            self.an.sites += 1
            path = None
            if v[0] == "sym":
                path = v[1]
            elif v[0] == "seq" and len(v[1]) == 1 and v[1][0][0] == "list":
                p = v[1][0]
                if p[2] == lin(0) and p[3] == sym(("len", p[1])):
                    path = p[1]
            if path is None or (path == (SELF,) and T == self.an.cur):
                return None
            s = st.copy()
            s.ev = s.ev + (("e", ("op", "printed", (("sym", path, None), T, c))),)
            whole = [(s, ("S", (("P", T, path, c),)))]
            if T == "Vec<Attribute>" and self.an.cur != T and self.an.blank(c):
                out = []
                for s2, some in I.split(s, ("ge0", ladd(sym(("len", path)), lin(-1)))):
                    out.append((s2, whole[0][1] if some else ("S", ())))
                return out
            return whole
        return None

    def call_opaque(self, I, st, f, args, dty):
        if f[0] == "op" and f[1] == "hval":
            return [(st, ("S", (("call", f, tuple(norm_arg(I, st, a) for a in args)),)))]
        return None

    def piece_nonempty(self, I, st, p):
        if p[0] == "P":
            if p[1] == "Vec<Attribute>":
                return True if I.ge0(st, ladd(sym(("len", p[2])), lin(-1))) and self.an.blank(p[3]) else None
            return True if p[1] in ("Attribute", "GraphAttributes", "Subgraph", "Graph") else None
        return None


def norm_arg(I, st, a):
    v = I.deref(st, a)
    if v[0] == "agg" and v[1].endswith("Cow"):
        v = I.deref(st, v[3][0])
    return v


def opt(name):
    return ("cond", ("symb", (("opt", name),)))


SEP = ("txt", (("opt", "sep"),))


class Spec:
    """required text per type; bodies are lists of (state, pieces)"""

    def __init__(self, I, an):
        self.I = I
        self.an = an

    def __call__(self, st, atom):
        _, T, path, R = atom
        v = self.I.materialise(path, self.an.tyid[T])
        return self.of(st, T, v, R)

    # helpers -----------------------------------------------------------
    def P(self, T, v, R):
        return ("P", T, v[1], R)

    def variants(self, st, v):
        out = []
        for s, _ in self.I.variant_cases(st, v, v[2]):
            out.append((s, s.facts.get(("var", v[1]), 0)))
        return out

    def fld(self, st, v, i, variant=None):
        return self.I.field(st, v, variant, i)

    def vname(self, v, i):
        return self.I.tyk(v[2])["vs"][i]["n"]

    def inline(self, st, R):
        return self.I.split(st, self.I.mkstreq(R.sep, ()))

    def indent(self, st, R):
        """[(st, pieces)]"""
        return [(s, () if inl else (("rep", (("lit", " "),), R.indent),)) for s, inl in self.inline(st, R)]

    def grown(self, st, R):
        return [(s, R if inl else R._replace(indent=ladd(R.indent, R.step))) for s, inl in self.inline(st, R)]

    def cond(self, st, v):
        return self.I.boolcases(st, v)

    def length(self, v):
        return I_len(self.I, v)

    # types ---------------------------------------------------------------
    def of(self, st, T, v, R):
        return getattr(self, "t_" + T.replace("<", "_").replace(">", ""))(st, v, R)

    def t_Id(self, st, v, R):
        out = []
        for s, i in self.variants(st, v):
            if self.vname(v, i) == "Anonymous":
                out.append((s, ()))
            else:
                out.append((s, self.fld(s, v, 0, i)[1]))
        return out

    def t_Port(self, st, v, R):
        out = []
        a, b = self.fld(st, v, 0), self.fld(st, v, 1)
        for s, i in self.variants(st, a):
            for s2, j in self.variants(s, b):
                ps = ()
                if i == 1:
                    ps += (("lit", ":"), self.P("Id", self.fld(s2, a, 0, 1), R))
                if j == 1:
                    ps += (("lit", ":"),) + self.fld(s2, b, 0, 1)[1]
                out.append((s2, ps))
        return out

    def t_NodeId(self, st, v, R):
        out = []
        p = self.fld(st, v, 1)
        for s, i in self.variants(st, p):
            ps = (self.P("Id", self.fld(s, v, 0), R),)
            if i == 1:
                ps += (self.P("Port", self.fld(s, p, 0, 1), R),)
            out.append((s, ps))
        return out

    def t_Attribute(self, st, v, R):
        k, x = self.fld(st, v, 0), self.fld(st, v, 1)
        out = []
        has = ("p", "hhas", R.printers, k) if R.printers != ("hmap", ()) else ("const", False)
        for s, b in self.I.split(st, has):
            if not b:
                out.append((s, (self.P("Id", k, R), ("lit", "="), self.P("Id", x, R))))
                continue
            for s2, ind in self.indent(s, R):
                args = (("S", (self.P("Id", x, R),)), ("S", R.sep), ("S", ind), R.step)
                out.append((s2, (self.P("Id", k, R), ("lit", "="), ("call", ("op", "hval", (R.printers, k)), args))))
        return out

    def t_Vec_Attribute(self, st, v, R):
        n = self.length(v)
        out = []
        et = self.I.tyk(v[2])["args"][0]
        for s, e in self.I.split(st, ("eq0", n)):
            if e:
                out.append((s, ()))
                continue
            lid = ("spec", v[1])
            k = sym(("k", lid))
            if not self.an.layout:
                ea = ("P", "Attribute", v[1] + (("ix", k),), R)
                e0 = ("P", "Attribute", v[1] + (("ix", lin(0)),), R)
                out.append(
                    (s, (("lit", "["), e0, ("range", lid, lin(1), n, (((), (("attrsep",), ea)),)), ("lit", "]")))
                )
                continue
            for s2, many in self.I.split(s, ("ge0", ladd(n, lin(-2)))):
                for s3, m in self.cond(s2, R.multi):
                    if many and m:
                        for s4, R2 in self.grown(s3, R):
                            for s5, ind2 in self.indent(s4, R2):
                                for s6, ind in self.indent(s5, R):
                                    for s7, c in self.cond(s6, R.comma):
                                        inl = self.I.decide(s7, self.I.mkstreq(R.sep, ()))
                                        comma = (("lit", ","),) if (c or inl) else ()
                                        ea = ("P", "Attribute", v[1] + (("ix", k),), R)
                                        e0 = ("P", "Attribute", v[1] + (("ix", lin(0)),), R)
                                        body = cat(comma, R.sep, ind2, (ea,))
                                        out.append(
                                            (
                                                s7,
                                                cat(
                                                    (("lit", "["),), R.sep, ind2, (e0,),
                                                    (("range", lid, lin(1), n, (((), body),)),),
                                                    R.sep, ind, (("lit", "]"),),
                                                ),
                                            )
                                        )
                    else:
                        ea = ("P", "Attribute", v[1] + (("ix", k),), R)
                        e0 = ("P", "Attribute", v[1] + (("ix", lin(0)),), R)
                        out.append(
                            (
                                s3,
                                (
                                    ("lit", "["), e0,
                                    ("range", lid, lin(1), n, (((), (("lit", " "), ea)),)),
                                    ("lit", "]"),
                                ),
                            )
                        )
        return out

    def t_GraphAttributes(self, st, v, R):
        out = []
        for s, i in self.variants(st, v):
            at = self.fld(s, v, 0, i)
            for s2, e in self.I.split(s, ("eq0", self.length(at))):
                kw = ("lit", self.vname(v, i).lower())
                if e:
                    out.append((s2, cat((kw, ("lit", "[]")))))
                else:
                    out.append((s2, (kw, self.P("Vec<Attribute>", at, R))))
        return out

    def t_Node(self, st, v, R):
        return [(st, (self.P("NodeId", self.fld(st, v, 0), R), self.P("Vec<Attribute>", self.fld(st, v, 1), R)))]

    def t_Vertex(self, st, v, R):
        out = []
        for s, i in self.variants(st, v):
            x = self.fld(s, v, 0, i)
            out.append((s, (self.P("NodeId" if self.vname(v, i) == "N" else "Subgraph", x, R),)))
        return out

    def t_Subgraph(self, st, v, R):
        out = []
        for s, R2 in self.grown(st, R):
            for s2, ind in self.indent(s, R):
                out.append(
                    (
                        s2,
                        cat(
                            (("lit", "subgraph "), self.P("Id", self.fld(s2, v, 0), R2), ("lit", " {")),
                            R.sep,
                            (self.P("Vec<Stmt>", self.fld(s2, v, 1), R2),),
                            R.sep, ind, (("lit", "}"),),
                        ),
                    )
                )
        return out

    def t_Graph(self, st, v, R):
        out = []
        for s, i in self.variants(st, v):
            di = self.vname(v, i) == "DiGraph"
            names = [f[0] for f in self.I.tyk(v[2])["vs"][i]["f"]]
            id_ = self.fld(s, v, names.index("id"), i)
            strict = self.fld(s, v, names.index("strict"), i)
            stmts = self.fld(s, v, names.index("stmts"), i)
            for s2, b in self.cond(s, strict):
                for s3, R2 in self.grown(s2, R):
                    R2 = R2._replace(digraph=di)
                    kw = ("strict " if b else "") + ("digraph" if di else "graph") + " "
                    out.append(
                        (
                            s3,
                            cat(
                                (("lit", kw), self.P("Id", id_, R2), ("lit", " {")), R.sep,
                                (self.P("Vec<Stmt>", stmts, R2),), R.sep, (("lit", "}"),),
                            ),
                        )
                    )
        return out

    def t_Vec_Stmt(self, st, v, R):
        n = self.length(v)
        lid = ("spec", v[1])
        k = sym(("k", lid))
        out = []
        ea = ("P", "Stmt", v[1] + (("ix", k),), R)
        e0 = ("P", "Stmt", v[1] + (("ix", lin(0)),), R)
        for s, inl in self.inline(st, R):
            for s2, ne in self.I.split(s, ("ge0", ladd(n, lin(-1)))):
                if not ne:
                    out.append((s2, ()))
                    continue
                sep = (("stmtsep", v[1] + (("ix", k),)),) if inl or not self.an.layout else R.sep
                out.append((s2, (e0, ("range", lid, lin(1), n, (((), cat(sep, (ea,))),)))))
        return out

    def t_Stmt(self, st, v, R):
        out = []
        for s, i in self.variants(st, v):
            T = {"GAttribute": "GraphAttributes"}.get(self.vname(v, i), self.vname(v, i))
            for s2, semi in self.cond(s, R.semi):
                for s3, ind in self.indent(s2, R):
                    out.append(
                        (s3, cat(ind, (self.P(T, self.fld(s3, v, 0, i), R),), (("lit", ";"),) if semi else ()))
                    )
        return out

    def edge_text(self, st, v, R, ctx=None):
        out = []
        R0 = R if ctx is None else ctx
        bond = " -> " if R.digraph else " -- "
        ty = self.fld(st, v, 0)
        at = self.fld(st, v, 1)
        for s, i in self.variants(st, ty):
            if self.vname(ty, i) == "Pair":
                l, r = self.fld(s, ty, 0, i), self.fld(s, ty, 1, i)
                ps = (("P", "Vertex", l[1], R0), ("lit", bond), ("P", "Vertex", r[1], R0))
                for s2, e in self.I.split(s, ("eq0", self.length(at))):
                    out.append((s2, ps if e else cat(ps, (("lit", " "), ("P", "Vec<Attribute>", at[1], R0)))))
            else:
                vs = self.fld(s, ty, 0, i)
                n = self.length(vs)
                lid = ("spec", vs[1])
                k = sym(("k", lid))
                for s2, ne in self.I.split(s, ("ge0", ladd(n, lin(-1)))):
                    ps = ()
                    if ne:
                        ps = (
                            ("P", "Vertex", vs[1] + (("ix", lin(0)),), R0),
                            ("range", lid, lin(1), n, (((), (("lit", bond), ("P", "Vertex", vs[1] + (("ix", k),), R0))),)),
                        )
                    none = self.I.decide(s2, ("eq0", self.length(at)))
                    out.append((s2, ps if none else ps + (("P", "Vec<Attribute>", at[1], R0),)))
        return out

    def t_Edge(self, st, v, R):
        """printed on one line when it is short enough"""
        out = []
        for s, inl in self.inline(st, R):
            if inl or not self.an.layout:
                for s2, ps in self.edge_text(s, v, R):
                    out.append((s2, ps))
                continue
            cond = self.an.edge_short(s)
            if cond is None:
                raise Mismatch(
                    "no length test against the configured inline size decides how an edge is printed%s" % facts_str(s)
                )
            out += self.edge_text(s, v, R._replace(sep=()) if cond else R)
        return out


def I_len(I, v):
    return I.seqlen(I.parts(None, v))


class Failure:
    def __init__(self, T, kind, msg, loc, where):
        self.T, self.kind, self.msg, self.loc, self.where = T, kind, msg, loc, where

    def key(self):
        return "%s|%s" % (self.T, self.kind)


class PrinterAnalysis:
    def __init__(self, prog, layout=True):
        self.prog = prog
        self.layout = layout
        self.fail = []
        self.sites = 0
        self.items = 0
        self.paths = 0
        self.compared = 0
        self.panics = []
        self.analysed = set()
        self.callsites = 0
        self.events = []
        self.modes, self.twice, self.printed = {}, [], 0
        self.unmodelled = {}
        self.samples = []
        self.cur = None
        self.impls = {}
        self.tyid = {}
        for i in prog.insts:
            if trait_is_printer(i) and "body" in i and i["ik"] == "item":
                s = prog.tys[i["self"]]["s"]
                if s in SHORT:
                    self.impls[SHORT[s]] = i
                    self.tyid[SHORT[s]] = i["self"]
        self.missing = [T for T in TYPES if T not in self.impls]

    # ------------------------------------------------------- contexts
    def methods(self):
        """public constructors / builders of the context, by name"""
        r = {}
        for i in self.prog.insts:
            n = i["s"]
            if "printer::PrinterContext" in n and "body" in i and i.get("crate") == "graphviz_rust":
                if i.get("trait", "").endswith("Default") or "::" in n and not i.get("trait"):
                    r[i["p"].split("::")[-1]] = i
        return r

    def interp(self):
        I = Interp(self.prog, PHooks(self))
        return I

    def build(self, base, args, steps):
        """abstractly run constructor + builder calls -> [(facts, ctx value)]"""
        I = self.interp()
        m = self.methods()
        states = [(s, v) for s, v in I.run_fn(m[base], args)]
        for name, a in steps:
            nxt = []
            for s, v in states:
                s = s.copy()
                s.mem[("c",)] = v
                for s2, _ in I.run_fn(m[name], [("ref", ("c",), ())] + a, s):
                    nxt.append((s2, s2.mem[("c",)]))
            states = nxt
        if I.panics:
            raise Mismatch("building a context can panic: %s" % I.panics[0]["msg"])
        self.note(I)
        return [(s.facts, v) for s, v in states]

    def note(self, I):
        self.analysed |= I.analysed
        self.callsites += I.callsites
        for k, n in I.unmodelled.items():
            self.unmodelled[k] = self.unmodelled.get(k, 0) + n

    def contexts(self):
        """initial (facts, ctx, request)"""
        step, size = sym(("i", (("opt", "step"),))), sym(("i", (("opt", "size"),)))
        sepv = ("S", (SEP,))
        idty = self.tyid["Id"]
        pid = ("sym", (("opt", "pid"),), idty)
        pf = ("op", "user printer", ())
        nl = (("lit", "\n"),)
        base = Req(FALSE, FALSE, TRUE, lin(2), lin(90), nl, lin(0), False, ("hmap", ()))
        common = [
            ("with_semi", [], dict(semi=TRUE)),
            ("with_node_mult_attr_s_l", [], dict(multi=TRUE)),
            ("with_no_node_mult_attr_s_l_comma", [], dict(comma=FALSE)),
            ("with_indent_step", [step], dict(step=step)),
            ("with_inline_size", [size], dict(size=size)),
            ("with_attr_value_printer", [pid, ("box", pf)], dict(printers=("hmap", ((pid, ("box", pf)),)))),
        ]
        out = []
        m = self.methods()
        for need in ["default", "new", "always_inline", "with_line_sep"] + [c[0] for c in common]:
            if need not in m:
                raise Mismatch("public context constructor `%s` not found" % need)

        def mk(label, ctor, args, steps, req):
            for facts, v in self.build(ctor, args, [(n, a) for n, a in steps]):
                out.append((label, facts, v, req))

        mk("default()", "default", [], [], base)
        for n, a, d in common:
            mk("default().%s" % n, "default", [], [(n, a)], base._replace(**d))
        everything = base
        steps = []
        for n, a, d in common:
            everything = everything._replace(**d)
            steps.append((n, a))
        mk("default() with every option", "default", [], steps, everything)
        mk("default() with every option, applied in reverse", "default", [], steps[::-1], everything)
        mk("default().always_inline()", "default", [], [("always_inline", [])], base._replace(sep=()))
        mk("default().with_line_sep(s)", "default", [], [("with_line_sep", [sepv])], base._replace(sep=(SEP,)))
        mk("every option + always_inline()", "default", [], steps + [("always_inline", [])], everything._replace(sep=()))
        mk("always_inline() + every option", "default", [], [("always_inline", [])] + steps, everything._replace(sep=()))
        mk("every option + with_line_sep(s)", "default", [], [("with_line_sep", [sepv])] + steps, everything._replace(sep=(SEP,)))
        mk("with_line_sep(s).always_inline()", "default", [], [("with_line_sep", [sepv]), ("always_inline", [])], base._replace(sep=()))
        for semi in (TRUE, FALSE):
            nb = base._replace(semi=semi, step=step, sep=(SEP,), size=size)
            mk("new(%s, step, s, size)" % semi[1], "new", [semi, step, sepv, size], [], nb)
        mk("new(..) with every option", "new", [FALSE, step, sepv, size], steps, everything._replace(sep=(SEP,)))
        mk("new(..).always_inline()", "new", [FALSE, step, sepv, size], [("always_inline", [])], base._replace(step=step, size=size, sep=()))
        return out

    # ------------------------------------------------------------- driver
    def add(self, T, kind, msg, loc=""):
        self.fail.append(Failure(T, kind, msg, loc, self.where))

    def run(self, labels=None, types=None):
        self.where = ""
        self.blanks = {}
        self.leaks = set()
        for T in self.missing:
            self.add(T, "anchor", "no DotPrinter implementation for %s" % T)
        if self.missing:
            return
        try:
            ctxs = self.contexts()
        except (Mismatch, Abort) as e:
            self.add("PrinterContext", "context", str(e))
            return
        seen = {}
        work = []
        pos = set()
        for label, facts, v, R in ctxs:
            pos |= set(zero_fields(v))
        self.pos = pos

        def push(label, T, ctx, R, facts, first=False):
            ctx, R = widen(ctx, R, pos)
            key = (T, ctx, R)
            if key in seen:
                return
            seen[key] = True
            work.insert(0 if first else len(work), (label, T, ctx, R, facts))

        for label, facts, v, R in ctxs:
            # generalise the two values a context may hold for is-it-a-digraph by
            # analysing graphs of both kinds
            for T in TYPES:
                push(label, T, v, R, facts)
        while work:
            label, T, ctx, R, facts = work.pop(0)
            if types is not None and T not in types:
                continue
            self.items += 1
            self.where = label
            if len(seen) > 4000:
                self.add(T, "context", "the set of printer contexts does not close")
                return
            self.one(T, ctx, R, push, label)
            if len([f for f in self.fail if f.kind not in ("restore", "effect")]) > 40:
                break
        self.often()

    def blank(self, ctx):
        """is the text of a list of attributes empty exactly for the empty list, in this context?"""
        T = "Vec<Attribute>"
        key = ctx
        if key in self.blanks:
            return self.blanks[key]
        self.blanks[key] = False
        cur, self.cur = self.cur, T
        I = self.interp()
        st = St()
        st.mem[("self",)] = I.materialise((SELF,), self.tyid[T])
        st.mem[("ctx",)] = key
        try:
            ok = True
            for s, r in I.run_fn(self.impls[T], [("ref", ("self",), ()), ("ref", ("ctx",), ())], st):
                r = I.deref(s, r)
                n = sym(("len", (SELF,)))
                if r[0] != "S" or s.mem[("ctx",)] != key:
                    ok = False
                elif I.ge0(s, lneg(n)):
                    ok = ok and r[1] == ()
                elif I.ge0(s, ladd(n, lin(-1))):
                    ok = ok and any(I.nonempty(s, p) for p in r[1])
                else:
                    ok = False
        except (Abort, Mismatch):
            ok = False
        finally:
            self.cur = cur
        self.blanks[key] = ok
        return ok

    # --- how often the parts of a value are printed
    def mode(self, c):
        """a context but for the depth"""

        def go(t, pre):
            if pre in self.pos:
                return ("depth",)
            if t[0] == "agg":
                return ("agg", t[1], t[2], tuple(go(x, pre + (i,)) for i, x in enumerate(t[3])))
            return t

        return go(c, ())

    def prints(self, T, I, s, ctx, loc):
        m = self.mode(ctx)
        try:
            its = once.items(s.ev, "printed", lambda p, x: x[0] not in FLAT)
        except ValueError as e:
            self.add(T, "twice", str(e), loc)
            return
        its = [(p, (U, self.mode(c)), env, w) for p, (U, c), env, w in its]
        self.printed += len(its)
        for p, (U, c), env, w in its:
            self.modes.setdefault(m, set()).add(c)
        if once.clash(I, s, its) is not None:
            self.twice.append((T, m, its, I, s, loc, self.where))

    def often(self):
        """a part printed twice in a mode from which this one is reached again"""

        def back(c, m):
            seen, todo = set(), [c]
            while todo:
                x = todo.pop()
                if x == m:
                    return True
                if x not in seen:
                    seen.add(x)
                    todo += self.modes.get(x, ())
            return False

        for T, m, its, I, s, loc, where in self.twice:
            r = once.clash(I, s, [x for x in its if back(x[1][1], m)])
            if r is not None:
                a, b = r
                self.where = where
                what = "`%s` is printed again in every pass of a loop" % show_path(a[0]) if a is b else "`%s` is printed although `%s` is" % (show_path(b[0]), show_path(a[0]))
                self.add(T, "twice", "%s, so the time grows exponentially with the nesting%s" % (what, facts_str(s)), loc)

    def one(self, T, ctx, R, push, label):
        inst = self.impls[T]
        I = self.interp()
        self.cur = T
        st = St()
        st.mem[("self",)] = I.materialise((SELF,), self.tyid[T])
        st.mem[("ctx",)] = ctx
        loc = inst["body"]["span"]
        try:
            res = I.run_fn(inst, [("ref", ("self",), ()), ("ref", ("ctx",), ())], st)
        except Abort as e:
            self.add(T, "analysis", str(e), loc)
            return
        self.note(I)
        for p in I.panics:
            self.panics.append((T, p))
            self.add(T, "panic", "%s can be reached%s" % (p["msg"], facts_str(St({}, p["facts"]))), loc)
        spec = Spec(I, self)
        v = st.mem[("self",)]
        for s, r in res:
            self.paths += 1
            self.prints(T, I, s, ctx, loc)
            other = once.only(s.ev, "printed")
            if other is not None:
                self.events.append((T, s.ev))
                if len([f for f in self.fail if f.T == T and f.kind == "effect"]) < 6:
                    self.add(T, "effect", "printing has a side effect: %s" % show(other), loc)
            c2 = s.mem[("ctx",)]
            r = I.deref(s, r)
            if r[0] != "S":
                self.add(T, "text", "the result is not text: %s" % show(r), loc)
                continue
            r = ("S", r[1])
            if T == "Graph":
                c2 = renamed(c2)
                push(label, "Graph", c2, R, s.facts)
                for U in TYPES:
                    # the same context must go on serving the same options
                    if U != "Graph":
                        di = s.facts.get(("var", (SELF,)))
                        dn = I.tyk(self.tyid["Graph"])["vs"][di]["n"] == "DiGraph" if di is not None else R.digraph
                        push(label, U, c2, R._replace(digraph=dn), s.facts)
            elif c2 != ctx:
                d = diff(ctx, c2)
                if len([f for f in self.fail if f.T == T and f.kind == "restore"]) < 6:
                    self.add(T, "restore", "the context is not as before after printing a %s: %s -> %s%s" % (T, d, "", facts_str(s)), loc)
                # what is printed after it must be right all the same
                later = renamed(c2)
                if label.count(", after a ") < 2 and not any(x == EARLIER for x in walk(ctx)) and len(self.leaks | {(later, R)}) <= 24:
                    self.leaks.add((later, R))
                    for U in TYPES:
                        push(label + ", after a %s" % T, U, later, R, s.facts, True)
            self.edge_state = (I, R, ctx, v)
            M = PM(I, spec, self.layout)
            try:
                for s2, exp in spec.of(s, T, v, R):
                    M.run(s2, r[1], exp)
            except Mismatch as e:
                kind = str(e).split(":")[0] if ":" in str(e) else "text"
                kind = {"text": "text", "layout": "layout", "no separation between tokens": "fusion"}.get(kind, "text")
                self.add(T, kind, str(e), loc)
                continue
            finally:
                self.compared += M.compared
            if len(self.samples) < 12 and T not in [x[0] for x in self.samples]:
                self.samples.append((T, "%s under %s prints %s" % (T, label, show(r))))
            for s2, a, b in M.pairs:
                push(label, a[1], a[3], b[3], s2.facts)

    def edge_short(self, st):
        """does the path know that the multi-line text fits the inline size?"""
        I, R, ctx, v = self.edge_state
        spec = Spec(I, self)
        rs = [(s, ps) for s, ps in spec.edge_text(st, v, R, ctx)]
        verdict = None
        for s, ps in rs:
            l = I.strlen(norm_ranges(I, s, ps))
            r = None
            for g, val in s.facts.items():
                pass
            d = self.decide_len(I, s, ps, R.size)
            if d is None:
                return None
            if verdict is not None and d != verdict:
                return None
            verdict = d
        return verdict

    def decide_len(self, I, st, ps, size):
        """is  size - len(text) >= 0  decided by a fact about a text equal to ps?"""
        if not ps:
            return I.ge0(st, size)
        for g, val in st.facts.items():
            if g[0] != "ge0" or val is not True:
                continue
            l = g[1]
            pieces, rest = [], lin(l[1])
            sign = None
            for s, c in l[2]:
                if isinstance(s, tuple) and s and s[0] == "slen":
                    if sign is None:
                        sign = c
                    elif sign != c:
                        sign = 0
                    pieces.append(s[1])
                else:
                    rest = ladd(rest, ("lin", 0, ((s, c),)))
            if not pieces or sign not in (1, -1):
                continue
            want = I.strlen(ps)
            # compare up to the representation of ranges
            if sign == -1:
                # size - len >= 0
                if lens_equal(I, st, ladd(lneg(l), size), want):
                    return True
            else:
                # len - size - 1 >= 0
                if lens_equal(I, st, ladd(ladd(l, size), lin(1)), want):
                    return False
        return None


def lens_equal(I, st, a, b):
    if a == b:
        return True
    return canon_len(I, st, a) == canon_len(I, st, b)


def canon_len(I, st, l):
    m = known_lengths(st)
    return canon_len0(I, st, subst(l, m) if m else l)


def canon_len0(I, st, l):
    """length terms of ranges, independent of loop identities, of index offsets and of
    how many iterations were peeled off"""
    out = lin(l[1])
    sums = {}
    for s, c in l[2]:
        if isinstance(s, tuple) and s[0] == "slen" and s[1][0] == "range":
            r = s[1]
            if isinstance(r[4], tuple) and len(r[4]) == 1 and not r[4][0][0]:
                body = r[4][0][1]
                k = ("k", r[1])
                lo, hi = r[2], r[3]
                n = lsub(hi, lo)
                for d in range(4):
                    if I.ge0(st, ladd(n, lin(-d))) and I.ge0(st, ladd(lin(d), n, -1)):
                        n = lin(d)
                        hi = ladd(lo, n)
                        break
                for p in body:
                    if p[0] == "lit":
                        out = ladd(out, lscale(n, len(p[1].encode()) * c))
                    elif mentions(p, {k}):
                        off = index_offset(p, k)
                        q = subst(p, {k: ladd(sym(("kk",)), lin(-off))})
                        key = (q, c)
                        sums.setdefault(key, []).append((ladd(lo, lin(off)), ladd(hi, lin(off))))
                    elif isconst(n):
                        out = ladd(out, ("lin", 0, ((("slen", p), n[1] * c),) if n[1] * c else ()))
                    else:
                        out = ladd(out, ("lin", 0, ((("times", p, n), c),)))
                continue
        out = ladd(out, ("lin", 0, ((s, c),)))
    d = dict(out[2])
    for (q, c), ivs in sums.items():
        for lo, hi in ivs:
            n = lsub(hi, lo)
            if isconst(n):
                for j in range(max(n[1], 0)):
                    t = ("slen", subst(q, {("kk",): ladd(lo, lin(j))}))
                    d[t] = d.get(t, 0) + c
                continue
            while True:
                t = ("slen", subst(q, {("kk",): ladd(lo, lin(-1))}))
                if d.get(t, 0) == c:
                    del d[t]
                    lo = ladd(lo, lin(-1))
                else:
                    break
            while True:
                t = ("slen", subst(q, {("kk",): hi}))
                if d.get(t, 0) == c:
                    del d[t]
                    hi = ladd(hi, lin(1))
                else:
                    break
            t = ("sum", q, lo, hi)
            d[t] = d.get(t, 0) + c
    return ("lin", out[1], tuple(sorted(((x, y) for x, y in d.items() if y), key=repr)))


def norm_ranges(I, st, ps):
    return ps


class PM(Matcher):
    """knows the statement separator of inline mode"""

    def m(self, st, A, B, prev, depth, inrange):
        if B and B[0][0] in ("attrsep", "stmtsep") and A and A[0][0] == "range":
            return self.peel(st, A, B, prev, depth, inrange)
        if B and B[0][0] == "attrsep":
            A, B = list(A), list(B)
            n = comma = 0
            while A and (A[0][0] == "ws" or (not comma and A[0] in (("tok", ","), ("tok", ";")))):
                comma += A[0][0] == "tok"
                n += 1
                A.pop(0)
            if not n:
                self.fail(st, A, [("tok", "<separator>")] + B[1:], "no separation between tokens")
            return super().m(st, A, B[1:], None, depth, inrange)
        if B and B[0][0] == "stmtsep":
            a = A[0] if A else None
            if a is not None and a[0] == "ws":
                return super().m(st, A[1:], B[1:], ("ws", None), depth, inrange)
            # nothing printed: fine only when the previous statement closed itself
            p = B[0][1][:-1] + (("ix", ladd(B[0][1][-1][1], lin(-1))),)
            for f, v in st.facts.items():
                if v is True and f[0] == "seq" and sorted(f[1:3], key=len) == [(), (("sofar",),)]:
                    return super().m(st, A, B[1:], None, depth, inrange)  # nothing printed yet
                if v is True and f[0] == "p" and f[1] == "ends_with" and len(f) == 4:
                    t, pt = f[2], f[3]
                    if (
                        t and (t == (("sofar",),) or t[-1][0] == "P" and t[-1][1] == "Stmt" and t[-1][2] == p)
                        and isinstance(pt, tuple) and pt[0] in ("set", "str")
                        and all(ch in "]};" for ch in (pt[1] if pt[0] == "set" else pt[1][-1:]))
                    ):
                        return super().m(st, A, B[1:], None, depth, inrange)
            if a is not None and a[0] == "tok" and a[1] == ";":
                return super().m(st, A[1:], B[1:], a, depth, inrange)
            self.fail(st, A, [("tok", "<separator>")] + list(B[1:]), "no separation between tokens")
        return super().m(st, A, B, prev, depth, inrange)


EARLIER = "earlier"


def renamed(t):
    """a context of which the parts of the value just printed are those of another value"""
    if t == SELF:
        return EARLIER
    return tuple(renamed(x) for x in t) if isinstance(t, tuple) else t


def zero_fields(ctx, pre=()):
    """where a fresh context holds the number zero (its indentation)"""
    out = []
    if ctx[0] == "agg":
        for i, x in enumerate(ctx[3]):
            if x == lin(0):
                out.append(pre + (i,))
            else:
                out += zero_fields(x, pre + (i,))
    return out


def widen(ctx, R, pos):
    """indentation of any depth"""
    I0 = sym(("i", (("opt", "indent"),)))
    if R.indent == lin(0) or R.indent == I0:
        return ctx, R

    # the depth may be held as a number of blanks, or as a number of levels
    D0 = sym(("i", (("opt", "depth"),)))
    new = lmul(D0, R.step)
    if R.indent == new:
        return ctx, R
    held = []

    def go(t, pre, find, put):
        if t == find and pre in pos:
            held.append(pre)
            return put
        if t[0] == "agg":
            return ("agg", t[1], t[2], tuple(go(x, pre + (i,), find, put) for i, x in enumerate(t[3])))
        return t

    c = go(ctx, (), R.indent, I0)
    if not held:
        for level in (lin(1), ladd(D0, lin(1))):
            if lmul(level, R.step) == R.indent:
                c = go(ctx, (), level, D0)
        if held:
            return c, R._replace(indent=new)
    return c, R._replace(indent=I0)


def diff(a, b):
    if a[0] == "agg" and b[0] == "agg" and len(a[3]) == len(b[3]):
        return "; ".join("field %d: %s -> %s" % (i, show(x), show(y)) for i, (x, y) in enumerate(zip(a[3], b[3])) if x != y)
    return "%s -> %s" % (show(a), show(b))
