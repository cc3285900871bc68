"""Properties of the parser: the grammar and the functions that make structures from its pairs."""
import glob, os, re
from .checks import check
from .parser import ParserAnalysis, ParserError, Tree
from .grammars import PARTS, Comparison, LIMIT, reference
from .parser import CLASSES
from .peg import Core, Grammar, GrammarError, Langs, reachable
from .run import Broken

EXPLAIN = (
    "(1) Abstract interpretation of the MIR of `parse` and of every function that makes a structure from a pair: the "
    "argument is a symbolic pair of the grammar rules it is called with (found by a work list from `parse`), its "
    "children are those the rule's definition in the .pest file allows, repetitions are ranges of unknown length. Per "
    "path the structure is turned back into tokens and compared with the tokens of the rule. "
    "(2) Exact comparison of the .pest grammar with vp/dot.ref.pest as languages of parsing expressions (ordered "
    "choice, greedy repetition, predicates, implicit white space) by derivatives over BDDs, recursion cut at blocks and "
    "at tags; zero-width marks in front of the parts compare how a text is divided."
)
ASSUME = [
    "the pest crate implements its documented semantics, and pest_derive compiles the .pest file named by #[grammar]",
    "library functions behave as their transfer functions in vp/models.py say",
    "the stack is deep enough for the nesting of the text",
]
RULE = "structure tokens = rule tokens; grammar = reference grammar"


def grammar_file(ctx):
    out = []
    for f in sorted(glob.glob(os.path.join(ctx.repo, "src", "**", "*.rs"), recursive=True)):
        for m in re.finditer(r'^\s*#\[\s*grammar\s*=\s*"([^"]+)"\s*\]', open(f, encoding="utf-8").read(), re.M):
            out.append(m.group(1))
    if not out:
        raise Broken("no #[grammar = ...] in src")
    return [os.path.join("src", x) for x in dict.fromkeys(out)]


def repeated(ctx, rep, tree):
    """places of a text at which the grammar tries a block, or a tag, more than once"""
    core = Core()
    A = Grammar(tree.rules, core, tree.cuts)
    units = [(r, tree.cuts[r], A.rule(r, tree.cuts[r] == "angle", True)) for r in sorted(tree.cuts)]
    first = {"block": "{", "angle": "<"}
    L = Langs(core, ["block", "angle"], first)
    g = grammar_file(ctx)[0]
    for r, X, e in units:
        for Y in sorted(set(tree.cuts.values())):
            if not any(c in reachable(tree.rules, r) and r in reachable(tree.rules, c) for c in tree.cuts if tree.cuts[c] == Y):
                continue
            fail = lambda l: isinstance(l, int) and L.reps[l] == ord(first[Y])
            here = lambda l: l == Y or fail(l)
            for x, kind, texts in L.crossings(e, Y):
                rep.count("choices_of_the_grammar")
                for (n, m), f in sorted(texts.items()):
                    stages = [here] if n == m else [fail, here]
                    try:
                        w, k = L.marked(f, stages, LIMIT)
                        rep.count("grammar_states", k)
                        if w is not None:
                            w, k = L.marked(L.lang(L.key("at", x, f, e)), stages, LIMIT)
                            rep.count("grammar_states", k)
                    except GrammarError as err:
                        if "states" not in str(err):
                            raise
                        w = None
                        rep.assumptions = rep.assumptions + ["the search for a %s tried twice in rule %s ended after %d states" % (Y, r, LIMIT)]
                    if w is not None:
                        what = "a %s is tried twice at the marked place of" % Y if n == m else "a %s is tried at the second place after it failed at the first of" % Y
                        rep.bad("again|%s|%s" % (r, Y), "%s rule %s" % (g, r), "%s `%s`, so the time grows exponentially with the nesting" % (what, L.show(w)))
                        return


def analysed(ctx):
    def go():
        text = "\n".join(ctx.source(f) for f in grammar_file(ctx))
        tree = Tree(text, reference())
        a = ParserAnalysis(ctx.prog("root"), tree).run()
        return tree, a

    return ctx.memo("parser", go)


def common(rep, a, tree):
    rep.count("obligations", a.items)
    rep.count("paths", a.pathcount)
    rep.count("token_steps", a.compared)
    rep.count("call_sites", a.callsites)
    rep.count("functions", len(a.fns))
    rep.count("grammar_rules", len(tree.rules))
    rep.explain = EXPLAIN
    rep.assumptions = ASSUME
    rep.samples = list(a.samples)
    rep.floor("obligations", 3)
    rep.floor("paths", 20)
    rep.floor("grammar_rules", 5)


def take(rep, a, want):
    for f in a.fail:
        if f.kind in ("analysis", "anchor") or want(f):
            rep.bad("%s|%s|%s" % (f.T, f.fn, f.kind), f.where or f.fn, "[%s] %s" % (f.kind, f.msg))


# what is compared when a whole result is wrong in some way no part can be told of
WHOLE = ("value", "result", "text")
SHAPE = ("part", "list", "token", "missing", "kw")


def division(ctx, rep, leaf, parts, what, own=()):
    """how texts are divided into parts"""
    tree, a = analysed(ctx)
    if not getattr(a, "start_rules", None) or len(a.start_rules) != 1:
        return
    parts = [T for T in parts if T not in a.inner]
    c = Comparison(tree, a.start_rules[0], leaf, parts, a.used)
    for unit, w in c.otherwise():
        if w is not None:
            rep.bad("division|" + unit, "%s rule %s" % (grammar_file(ctx)[0], unit), "%s: a text is divided in another way than `%s`" % (what, c.show(w)))
    rep.count("parts_marked", len(c.parts) + len(leaf))
    done(rep, c)
    # a part that other texts than those of the reference may form, in a grammar that is not equivalent to it
    c = Comparison(tree, a.start_rules[0], used=a.used)
    for T in parts:
        rules = [r for r in a.used.get(T, ()) if not c.wrapper(r, a.used[T])]
        if rules and T in own:
            part(ctx, rep, c, T, rules, PARTS[T])
    for k in leaf:
        rules = [r for r, x in tree.classes.items() if x == k]
        if rules and k in own:
            part(ctx, rep, c, CLASSES[k], rules, CLASSES[k])


def part(ctx, rep, c, what, rules, ref):
    w = c.local(rules, ref)
    rep.count("parts_compared")
    if w is None:
        return
    if not hasattr(c, "differs"):
        c.differs = any(w is not None for _, w in c.rejected()) or any(w is not None for _, w in c.accepted())
    if c.differs:
        rep.bad("part|" + what, "%s rule %s" % (grammar_file(ctx)[0], ", ".join(rules)), "%s: `%s` is %s" % (what, c.show(w), "not what the rule should match, or is not matched as it should"))


def done(rep, c):
    rep.count("grammar_units", len(c.units))
    rep.count("grammar_states", c.states)
    rep.floor("grammar_units", 2)
    if c.cut_short:
        rep.assumptions = rep.assumptions + ["the comparison of %s ended after %d states without a difference" % (", ".join(c.cut_short), LIMIT)]


@check("C01")
def c01(ctx, rep):
    tree, a = analysed(ctx)
    common(rep, a, tree)
    take(rep, a, lambda f: f.kind == "panic")


@check("C02")
def c02(ctx, rep):
    tree, a = analysed(ctx)
    common(rep, a, tree)
    take(rep, a, lambda f: f.T in ("parse", "Graph", "Subgraph", "Stmt", "Node") and f.kind in SHAPE + WHOLE + ("id",))
    division(ctx, rep, "", ("Node", "Edge", "GraphAttributes", "Subgraph"), "statements", ("Subgraph",))


@check("C03")
def c03(ctx, rep):
    tree, a = analysed(ctx)
    common(rep, a, tree)
    mine = lambda f: f.T in ("Attribute", "GraphAttributes", "Node", "Edge") or "Attribute" in a.topics(f)
    take(rep, a, lambda f: f.kind in SHAPE + WHOLE + ("id",) and mine(f))
    division(ctx, rep, "", ("Attribute", "GraphAttributes", "Node", "Edge"), "attributes", ("Attribute", "GraphAttributes", "Node", "Edge"))


@check("C04")
def c04(ctx, rep):
    tree, a = analysed(ctx)
    common(rep, a, tree)
    mine = lambda f: f.T in ("Edge", "EdgeTy", "Vertex") or "Vertex" in a.topics(f)
    take(rep, a, lambda f: f.kind in SHAPE + WHOLE and mine(f))
    division(ctx, rep, "", ("Edge",), "edges", ("Edge",))


@check("C05")
def c05(ctx, rep):
    tree, a = analysed(ctx)
    common(rep, a, tree)
    take(rep, a, lambda f: f.T in ("Graph", "parse") and f.kind in SHAPE + WHOLE + ("id",))
    if len(getattr(a, "start_rules", ())) == 1:
        c = Comparison(tree, a.start_rules[0])
        c.units = c.units[:1]
        for how, found in (("is not accepted", c.rejected()), ("is accepted", c.accepted())):
            for unit, w in found:
                if w is not None:
                    rep.bad("header|" + how, "%s rule %s" % (grammar_file(ctx)[0], a.start_rules[0]), "the header `%s` %s" % (c.show(w), how))
        rep.count("grammar_units", 1)
        rep.count("grammar_states", c.states)


@check("C06")
def c06(ctx, rep):
    tree, a = analysed(ctx)
    common(rep, a, tree)
    take(rep, a, lambda f: f.kind in ("id",) + WHOLE)
    missing = [n for k, n in (("P", "plain"), ("H", "html"), ("Q", "quoted")) if k not in tree.classes.values()]
    for n in missing:
        rep.bad("class|" + n, grammar_file(ctx)[0], "no rule of the grammar stands for the %s ids" % n)
    division(ctx, rep, "PHQ", (), "ids", "PHQ")


@check("C07")
def c07(ctx, rep):
    tree, a = analysed(ctx)
    common(rep, a, tree)
    take(rep, a, lambda f: f.kind == "cmp" or (f.T in ("Port", "NodeId") and f.kind in SHAPE + WHOLE + ("id",)))
    division(ctx, rep, "C", ("NodeId", "Port"), "ports", ("C", "NodeId", "Port"))


def probe(c, unit, text):
    """is the text one of the unit's (both made of characters only)"""
    a, r = c.langs(unit)
    return c.L.accepts(a, text)


@check("C08")
def c08(ctx, rep):
    tree, a = analysed(ctx)
    common(rep, a, tree)
    take(rep, a, lambda f: f.T == "parse" and f.kind in ("reject", "text"))
    if len(getattr(a, "start_rules", ())) != 1:
        return
    c = Comparison(tree, a.start_rules[0])
    g = grammar_file(ctx)[0]
    for unit, w in c.rejected():
        if w is not None:
            rep.bad("rejected|" + unit, "%s rule %s" % (g, unit), "`%s` is not accepted" % c.show(w))
    for u in c.units:
        if u[3] and tree.cuts.get(u[0]) == "block" and not probe(c, u, '{a [b="c" + "d"]}'):
            rep.bad("concat", "%s rule %s" % (g, u[0]), 'a quoted string continued with + is rejected: `{a [b="c" + "d"]}`')
    done(rep, c)


@check("C09")
def c09(ctx, rep):
    tree, a = analysed(ctx)
    common(rep, a, tree)
    take(rep, a, lambda f: f.T == "parse" and f.kind in ("accept", "text"))
    if len(getattr(a, "start_rules", ())) != 1:
        return
    c = Comparison(tree, a.start_rules[0])
    g = grammar_file(ctx)[0]
    for unit, w in c.accepted():
        if w is not None:
            rep.bad("accepted|" + unit, "%s rule %s" % (g, unit), "`%s` is accepted" % c.show(w))
    blocks = [u for u in c.units if u[3] and tree.cuts.get(u[0]) == "block"]
    if len(blocks) == 1 and probe(c, blocks[0], "{a -> b}") and probe(c, blocks[0], "{a -- b}"):
        rep.bad("edgeop", "%s rule %s" % (g, blocks[0][0]), "the statements of graphs and digraphs alike take both edge operators: `graph {a -> b}` and `digraph {a -- b}` are accepted")
    if len(blocks) == 1 and any(probe(c, blocks[0], "{%s -> a}" % k) for k in ("node", "edge", "graph", "digraph", "strict")):
        rep.bad("keyword", "%s rule %s" % (g, blocks[0][0]), "a keyword is taken as an id: `digraph {node -> a}` is accepted")
    done(rep, c)


@check("C32")
def c32(ctx, rep):
    tree, a = analysed(ctx)
    common(rep, a, tree)
    take(rep, a, lambda f: f.kind in ("twice", "reparse"))
    repeated(ctx, rep, tree)
    rep.count("conversions", a.reads)
    rep.floor("conversions", 5)


@check("C31")
def c31(ctx, rep):
    # printing says what the structures say (C10-C14), parsing makes the structures that say what the text says (C01-C07)
    # of every text of the language (C08)
    from . import check_printer as P

    L, T = P.analyses(ctx)
    P.common(rep, T)
    printed = dict(rep.counts)
    P.take(rep, T, None, P.TEXT + ("panic", "restore"))
    P.library(ctx, rep, P.TEXT + ("panic",))
    tree, a = analysed(ctx)
    samples, rep.samples = rep.samples, []
    common(rep, a, tree)
    rep.samples = samples[:6] + rep.samples[:6]
    take(rep, a, lambda f: f.kind not in ("twice", "reparse", "accept"))
    for k, n in (("P", "plain"), ("H", "html"), ("Q", "quoted")):
        if k not in tree.classes.values():
            rep.bad("class|" + n, grammar_file(ctx)[0], "no rule of the grammar stands for the %s ids" % n)
    if len(getattr(a, "start_rules", ())) == 1:
        c = Comparison(tree, a.start_rules[0])
        g = grammar_file(ctx)[0]
        for unit, w in c.rejected():
            if w is not None:
                rep.bad("rejected|" + unit, "%s rule %s" % (g, unit), "`%s` is not accepted" % c.show(w))
        done(rep, c)
        division(ctx, rep, "PHQC", ("Node", "Edge", "GraphAttributes", "Subgraph", "Attribute", "NodeId", "Port"), "parts")
    rep.explain = P.EXPLAIN + " Then, for the other direction: " + EXPLAIN
    rep.assumptions = P.ASSUME + ASSUME
