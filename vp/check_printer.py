"""Properties of the printer (and of printing as a whole)."""
from .checks import check
from .interp import Hooks, Interp, St
from .printer import PrinterAnalysis, TYPES, trait_is_printer
from .terms import show

EXPLAIN = (
    "Modular abstract interpretation of the monomorphised MIR of every DotPrinter implementation, from every "
    "context the public constructors and builders can make (found by analysing those too), on a symbolic input: "
    "branches are partitioned, loops are closed by widening into range terms, calls that print a part of the input "
    "stay atoms. The text term of every path is compared token by token with the text required for the options the "
    "context was built from; every atom met on the way adds the obligation (type, context, options), until no new "
    "one appears."
)
ASSUME = [
    "library functions (strings, formatting, Vec, slices, iterators, Option, HashMap) behave as their transfer functions in vp/models.py say",
    "sizes do not overflow usize and memory is not exhausted",
    "a line separator given by the user consists of white space; a user-supplied value printer returns one value token",
]


def analyses(ctx):
    def go():
        prog = ctx.prog("root")
        L, T = PrinterAnalysis(prog, True), PrinterAnalysis(prog, False)
        L.run()
        T.run()
        return L, T

    return ctx.memo("printer", go)


def common(rep, a, only=None):
    rep.count("obligations", a.items)
    rep.count("paths", a.paths)
    rep.count("tokens_compared", a.compared)
    rep.count("print_sites", a.sites)
    rep.count("call_sites", a.callsites)
    rep.count("functions", len(a.analysed))
    rep.counts["implementations"] = len(a.impls)
    rep.explain = EXPLAIN
    rep.assumptions = ASSUME
    rep.samples = [s for t, s in a.samples if only is None or t in only]
    rep.floor("implementations", len(TYPES))
    rep.floor("paths", 50)


class EntryHooks(Hooks):
    def __init__(self, ref):
        self.ref = ref
        self.prints = 0

    def call(self, I, ci, args, st, fid, site, dty, loc):
        if trait_is_printer(ci) and I.tyk(ci["self"])["s"] == "dot_structures::Graph":
            g = I.deref(st, args[0])
            if args[1] != self.ref:
                return [(st, ("op", "printed with another context", (g,)))]
            self.prints += 1
            s = st.copy()
            s.mem[self.ref[1]] = ("op", "context after printing", (s.mem[self.ref[1]],))
            return [(s, ("S", (("op", "print", (g,)),)))]
        return None


def entry(ctx):
    """[(kind, where, message)]: the function `print` of the library must give what printing the graph gives"""

    def go():
        prog = ctx.prog("root")
        fns = [i for i in prog.insts if "body" in i and i["s"] == "print" and i["crate"] == "graphviz_rust"]
        if len(fns) != 1:
            return 0, [("anchor", "src/lib.rs", "the public function `print` was not found")]
        b = fns[0]["body"]
        out = []
        ref = ("ref", ("in", 1), ())
        I = Interp(prog, EntryHooks(ref))
        st = St()
        g = I.materialise(("g",), b["locals"][1])
        st.mem[("in", 1)] = c = I.materialise(("ctx",), prog.tys[b["locals"][2]]["t"])
        outs = I.run_fn(fns[0], [g, ref], st)
        for p in I.panics:
            out.append(("panic", b["span"], "%s can be reached" % p["msg"]))
        want = ("S", (("op", "print", (g,)),))
        for s, v in outs:
            v = I.deref(s, v)
            if v != want:
                out.append(("text", b["span"], "the library function gives %s instead of the printed graph" % show(v)[:300]))
            if s.mem[("in", 1)] != ("op", "context after printing", (c,)):
                out.append(("restore", b["span"], "the context is left as %s" % show(s.mem[("in", 1)])[:300]))
            if s.ev:
                out.append(("effect", b["span"], "a side effect: %s" % show(s.ev[0][1])))
        if not outs:
            out.append(("text", b["span"], "the library function never returns"))
        return len(outs), out

    return ctx.memo("entry", go)


def library(ctx, rep, kinds):
    n, bad = entry(ctx)
    rep.count("paths", n)
    for kind, where, msg in bad:
        if kind == "anchor" or kind in kinds:
            rep.bad("print|%s" % kind, where, "%s [print] %s" % (kind, msg))


def take(rep, a, types, kinds):
    for f in a.fail:
        if f.T == "PrinterContext" or f.kind in ("anchor", "analysis", "context") or (
            (types is None or f.T in types) and f.kind in kinds
        ):
            rep.bad("%s|%s" % (f.T, f.kind), f.loc or "src/printer.rs", "%s [%s] printing %s: %s" % (f.kind, f.where, f.T, f.msg))


TEXT = ("text", "fusion", "layout", "repetition")


def text_property(pid, types):
    @check(pid)
    def run(ctx, rep):
        L, T = analyses(ctx)
        common(rep, T, types)
        take(rep, T, types, TEXT)
        library(ctx, rep, TEXT)

    return run


text_property("C10", {"Vec<Stmt>", "Stmt", "Graph", "Subgraph", "Vertex", "Edge"})
text_property("C11", {"Vec<Attribute>", "Attribute", "GraphAttributes", "Node", "Edge"})
text_property("C12", {"Graph", "Subgraph", "Edge", "Vec<Stmt>", "Stmt", "Vertex"})
text_property("C13", {"Id", "Port", "NodeId", "Attribute", "Vertex", "Node"})


@check("C14")
def c14(ctx, rep):
    L, T = analyses(ctx)
    common(rep, T)
    take(rep, T, None, ("fusion",))
    library(ctx, rep, TEXT)


@check("C15")
def c15(ctx, rep):
    L, T = analyses(ctx)
    common(rep, L)
    take(rep, L, None, ("restore",))
    # what a context prints may not depend on what it printed before: the contexts a
    # graph leaves behind are in the work list for the same options
    take(rep, L, None, TEXT)
    library(ctx, rep, ("restore",))


@check("C16")
def c16(ctx, rep):
    L, T = analyses(ctx)
    common(rep, L)
    # an option that is lost while printing does not govern what follows
    take(rep, L, None, TEXT + ("restore",))
    library(ctx, rep, TEXT + ("restore",))


@check("C17")
def c17(ctx, rep):
    L, T = analyses(ctx)
    common(rep, L, {"Attribute"})
    take(rep, L, {"Attribute"}, TEXT)
    library(ctx, rep, TEXT)


@check("C18")
def c18(ctx, rep):
    L, T = analyses(ctx)
    common(rep, L)
    rep.count("panic_sites_reached", len(L.panics))
    take(rep, L, None, ("panic",))
    library(ctx, rep, ("panic",))


@check("C19")
def c19(ctx, rep):
    L, T = analyses(ctx)
    common(rep, L)
    take(rep, L, None, ("effect",))
    library(ctx, rep, ("effect",))


@check("C33")
def c33(ctx, rep):
    for a in analyses(ctx):
        common(rep, a)
        take(rep, a, None, ("twice",))
        rep.count("nested_prints", a.printed)
        rep.count("edges_between_modes", sum(len(x) for x in a.modes.values()))
    rep.floor("nested_prints", 20)
