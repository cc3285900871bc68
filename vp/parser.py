"""The parser: the functions that turn the tree of the grammar into the structures.

Every function that makes a structure from one pair is interpreted on a symbolic pair of the rules it is called with.
The children of a pair are those its rule in the grammar allows. The structure returned is unparsed to tokens and
compared with the tokens of the rule; a call of another such function stands for the tokens of its pair and adds the
obligation (function, rules). Whatever the text, the structure then says what the text says.
"""
import re
from . import once, peg
from .interp import Interp, Hooks, St
from .terms import *

COMPASS = ("n", "ne", "e", "se", "s", "sw", "w", "nw", "c", "_")
DROP = {";", ",", "[", "]"}
EDGEOPS = {"->", "--"}
KEYWORDS = {"strict", "graph", "digraph", "node", "edge", "subgraph"}
CLASSES = {"P": "plain", "H": "html", "Q": "quoted", "C": "compass"}
KINDS = {"Plain": "P", "Html": "H", "Escaped": "Q"}


class ParserError(Exception):
    pass


# ------------------------------------------------------------------ grammar
class Tree:
    """what pairs the rules of the grammar produce"""

    def __init__(self, text, ref, gram_name="grammar"):
        self.rules = peg.read(text)
        self.ref = peg.read(ref)
        self.memo = {}
        self.wordmemo = {}
        self.setup()

    def setup(self):
        A, R = self.rules, self.ref
        self.cuts = {}
        rec = [r for r in A if self.oncycle(r)]
        letters = {"{": "block", "<": "angle"}
        while True:
            # a rule on every cycle: blocks by blocks, tags by tags
            todo = [r for r in rec if r not in self.cuts and self.oncycle(r, self.cuts)]
            if not todo:
                break
            todo = [r for r in todo if peg.first_char(A, A[r][1]) in letters]
            if not todo:
                raise ParserError("the recursion of the rules %s goes around the blocks" % ", ".join(sorted(r for r in rec if self.oncycle(r, self.cuts))[:6]))
            self.cuts[todo[0]] = letters[peg.first_char(A, A[todo[0]][1])]
        self.core = peg.Core()
        plain = peg.Grammar(A, self.core, self.cuts)
        rplain = peg.Grammar(R, self.core, {"block": "block", "angle": "angle"})
        # lexical classes: by the set of texts
        self.classes = {}
        leaves = [r for r, (m, e) in A.items() if m in ("@", "$")]
        todo = []
        for r in leaves:
            todo.append((r, plain.rule(r, False)))
        refs = {k: rplain.rule(n, False) for k, n in CLASSES.items()}
        L = self.langs()

        def empty(f):
            try:
                return L.witness(f, 5000)[0] is None
            except peg.GrammarError:
                return False

        todo.sort(key=lambda x: x[0] in self.cuts)
        for r, e in todo:
            f = L.start(e)
            for k, re_ in refs.items():
                if r not in self.classes and empty(L.XOR(f, L.start(re_))) and not (r in self.cuts and k in self.classes.values()):
                    self.classes[r] = k
        names = {"plain": "P", "html": "H", "string_qt": "Q", "compass": "C"}
        for n, k in names.items():
            if n in A and n not in self.classes and k not in self.classes.values():
                self.classes[n] = k
        inside = set()
        for r in self.classes:
            inside |= peg.reachable(A, r)
        for r, e in todo:
            # a kind of ids may be made of several rules
            f = L.start(e)
            if r in inside or self.words(r) is not None:
                continue
            for k in "PHQ":
                if empty(L.AND(f, L.NOT(L.start(refs[k])))):
                    self.classes[r] = k
                    inside |= peg.reachable(A, r)

    def oncycle(self, r, without=()):
        seen, todo = set(without), list(peg.calls(self.rules[r][1]))
        while todo:
            x = todo.pop()
            if x == r:
                return True
            if x in seen or x not in self.rules:
                continue
            seen.add(x)
            todo += peg.calls(self.rules[x][1])
        return False

    def langs(self):
        return peg.Langs(self.core, ["block", "angle"], {"block": "{", "angle": "<"}, ["P", "H", "Q", "C", "end"])

    def silent(self, name):
        return name not in self.rules and name != "EOI" or (name in self.rules and self.rules[name][0] == "_")

    def makes_pairs(self, name, seen=()):
        if name == "EOI":
            return True
        if name not in self.rules or name in seen:
            return False
        if not self.silent(name):
            return True
        return any(self.makes_pairs(x, seen + (name,)) for x in peg.calls(self.rules[name][1]))

    def again(self, e, atomic):
        """can a match of e be followed at once by another one (in a repetition)"""
        k = ("again", e, atomic)
        if k not in self.memo:
            g = peg.Grammar(self.rules, self.core, self.cuts)
            x = g.expr(e, atomic)
            two = self.core.seqs([x, x] if atomic else [x, g.skip(), x])
            L = self.langs()
            self.memo[k] = L.witness(L.start(two, False), 60000)[0] is not None
        return self.memo[k]

    def template(self, rule):
        """[[item]] : item = ('lit', text) ('e', rules) ('list', rules, min, pre, post)"""
        if rule not in self.memo:
            if rule == "EOI":
                self.memo[rule] = [[]]
            else:
                mod, e = self.rules[rule]
                self.memo[rule] = [[]] if mod == "@" else self.dedupe(self.expand(e, mod == "$"))
        return self.memo[rule]

    def leaf(self, rule):
        """a rule whose text is one token: an atomic one"""
        return rule in self.rules and self.rules[rule][0] in ("@", "$")

    def literal(self, rule):
        """the one word a rule stands for, when that is no keyword the structures speak of"""
        if rule not in self.rules or rule in self.classes or self.template(rule) not in ([[]], []):
            return None
        ws = self.words(rule)
        if not ws:
            return None
        ws = {"->" if w in EDGEOPS else "" if w.strip() in DROP else w.strip().lower() for w in ws}
        if len(ws) != 1 or (ws <= KEYWORDS and ws != {"subgraph"}):
            return None
        return ws.pop()

    def dedupe(self, alts):
        out = []
        single = None
        for a in alts:
            if len(a) == 1 and a[0][0] == "e":
                if single is None:
                    single = len(out)
                    out.append(list(a))
                else:
                    out[single] = [("e", tuple(sorted(set(out[single][0][1]) | set(a[0][1]))))]
                continue
            if a not in out:
                out.append(a)
        return out

    def expand(self, e, atomic, seen=()):
        k = e[0]
        if k in ("lit", "ilit"):
            t = e[1].strip()
            t = "->" if t in EDGEOPS else t if k == "lit" else t.lower()
            return [[] if not t or t in DROP or atomic else [("lit", t)]]
        if k in ("set", "soi", "eoi", "not", "and"):
            return [[]]
        if k == "call":
            n = e[1]
            if n == "EOI" or (n in self.rules and not self.silent(n)):
                return [[("e", (n,))]]
            if n not in self.rules or (not self.makes_pairs(n) and (atomic or n in seen)):
                return [[]]
            if n in seen:
                raise ParserError("the silent rule %s is recursive" % n)
            mod, b = self.rules[n]
            return self.expand(b, atomic, seen + (n,))
        if k == "seq":
            out = [[]]
            for x in e[1]:
                out = [a + b for a in out for b in self.expand(x, atomic, seen)]
            return self.dedupe(out)
        if k == "alt":
            return self.dedupe([a for x in e[1] for a in self.expand(x, atomic, seen)])
        if k == "opt":
            return self.dedupe(self.expand(e[1], atomic, seen) + [[]])
        lo = {"star": 0, "plus": 1}.get(k, e[2] if k == "rep" else 0)
        hi = e[3] if k == "rep" else None
        inner = self.expand(e[1], atomic, seen)
        if hi == 1 or (k in ("star", "plus") and not self.again(e[1], atomic)):
            return inner if lo else self.dedupe(inner + [[]])
        if hi is not None and hi == lo and hi <= 4:
            out = [[]]
            for _ in range(hi):
                out = [a + b for a in out for b in inner]
            return out
        rules, shapes, least = set(), set(), lo
        for a in inner:
            es = [i for i, x in enumerate(a) if x[0] != "lit"]
            if not es:
                if any(x[0] == "lit" for x in a):
                    raise ParserError("a repetition of words without content")
                least = 0
                continue
            if len(es) != 1:
                raise ParserError("a repetition of more than one kind of part")
            x = a[es[0]]
            pre, post = tuple(a[: es[0]]), tuple(a[es[0] + 1 :])
            if x[0] == "list":
                if pre or post:
                    raise ParserError("a repetition of lists with words between them")
                rules |= set(x[1])
                shapes.add((x[3], x[4]))
                least = min(least, x[2])
            else:
                rules |= set(x[1])
                shapes.add((pre, post))
        if not rules:
            return [[]]
        if len(shapes) != 1:
            raise ParserError("a repetition of parts of different shapes")
        pre, post = shapes.pop()
        return [[("list", tuple(sorted(rules)), least, pre, post)]]

    def words(self, rule, limit=400):
        """all texts of a rule, or None when there are too many"""
        if rule not in self.wordmemo:
            g = peg.Grammar(self.rules, self.core, self.cuts)
            try:
                e = g.rule(rule, False)
                L = self.langs()
                self.wordmemo[rule] = enum_words(L, L.start(e), limit)
            except peg.GrammarError:
                self.wordmemo[rule] = None
        return self.wordmemo[rule]


def enum_words(L, f, limit):
    out = []
    wide = set()
    counts = {}
    for a, b in L.bounds:
        pass
    # letters that stand for one character only
    single = {}
    for a, b in L.bounds:
        inn = tuple(sorted(repr(s) for s in L.member if any(x <= a and b <= y for x, y in s)))
        single.setdefault(inn, []).append((a, b))
    one = set()
    for inn, iv in single.items():
        if len(iv) == 1 and iv[0][0] == iv[0][1]:
            one.add(iv[0][0])
    layer = [(f, "")]
    n = 0
    while layer:
        nxt = []
        for x, w in layer:
            if L.nullable(x):
                out.append(w)
            for l in L.letters:
                if isinstance(l, tuple):
                    continue
                y = L.deriv(x, l)
                if y == 0:
                    continue
                if isinstance(l, str) or L.reps[l] not in one:
                    return None
                nxt.append((y, w + chr(L.reps[l])))
            if len(nxt) + len(out) > limit * 4:
                return None
        layer = nxt
        n += 1
        if n > 24:
            return None
    return out if len(out) <= limit else None


# -------------------------------------------------------------- interpreter
PAIR = "pest::iterators::pair::Pair"


def rules_at(path, facts):
    r = facts.get(("rule", path))
    if r is not None:
        return (r,)
    for x in reversed(path):
        if x[0] in ("c", "r"):
            return x[-1]
    raise ParserError("no rule for %s" % (path,))


class PHooks(Hooks):
    def __init__(self, an, root):
        self.an = an
        self.root = root

    def call(self, I, ci, args, st, fid, site, dty, loc):
        an = self.an
        nm = ci["name"].split("::")[-1]
        if ci["crate"] == "pest" or ("pest::" in ci["s"] and ci["crate"] != "graphviz_rust" and ci.get("trait", "").startswith("pest")):
            return an.pest(I, ci, nm, args, st, dty)
        if ci["s"].startswith("<pest::iterators::Pair<") and nm == "clone" or (ci["s"].startswith("<pest::iterators::Pairs<") and nm == "clone"):
            return [(st, I.deref(st, args[0]))]
        if ci.get("trait") == "pest::parser::Parser" and nm == "parse" or (ci["s"].endswith("as pest::Parser<parser::Rule>>::parse")):
            return an.run_parser(I, ci, args, st, dty)
        if ci["crate"] == "rand":
            s = st.copy()
            return [(s, ("op", "random", (("site", site),)))]
        if ci["crate"] == "graphviz_rust" and "body" in ci and dty is not None and ci is not self.root and len(args) == 1:
            t = I.tyk(dty)
            if t["k"] == "adt" and t["p"] in an.targets:
                v = I.deref(st, args[0])
                if v[0] == "sym" and I.tyk(v[2])["k"] == "adt" and I.tyk(v[2])["p"] == PAIR:
                    try:
                        rs = rules_at(v[1], st.facts)
                    except ParserError:
                        return None
                    an.need(ci, rs)
                    s = st.copy()
                    s.ev = s.ev + (("e", ("op", "converted", (v,))),)
                    return [(s, ("sym", v[1] + (("ast", ci["s"]),), dty))]
        return None

    def display(self, I, st, v):
        if v[0] == "agg" and v[1] == "dot_structures::Id":
            n = I.variant_name(v)
            t = I.text(st, v[3][0])
            pre = {"Html": "html ", "Escaped": "esc ", "Anonymous": "anon "}.get(n, "")
            return cat((("lit", pre),) if pre else (), t)
        return None


class PInterp(Interp):
    def variant_name(self, v):
        for t in self.prog.tys:
            if t["k"] == "adt" and t["p"] == v[1]:
                return t["vs"][v[2]]["n"]


class Fail:
    def __init__(self, T, fn, kind, msg, where=None, about=()):
        self.T, self.fn, self.kind, self.msg, self.where = T, fn, kind, msg, where
        # the rules of the part of the text the result differs in
        self.about = about


class ParserAnalysis:
    def __init__(self, prog, tree):
        self.prog = prog
        self.tree = tree
        self.targets = {
            "dot_structures::" + n
            for n in ("Attribute", "Node", "NodeId", "Vertex", "Edge", "EdgeTy", "Subgraph", "Stmt", "Graph", "GraphAttributes", "Port")
        }
        self.work, self.seen = [], set()
        self.fail = []
        self.pathcount = self.compared = self.steps = 0
        self.fns = set()
        self.samples = []
        self.ok_seen = 0
        self.items = 0
        self.reads = 0
        self.inner = set()  # structures that are also made inside of others, from parts of their rules
        self.used = {}  # structure -> grammar rules it is made from
        self.callsites = 0
        self.pair_ty = None
        for i, t in enumerate(prog.tys):
            if t["k"] == "adt" and t["p"] == PAIR:
                self.pair_ty = i

    # --- the library
    def pest(self, I, ci, nm, args, st, dty):
        v = I.deref(st, args[0]) if args else None
        if nm == "as_rule":
            if v[0] != "sym":
                return None
            out = []
            rs = rules_at(v[1], st.facts)
            t = I.tyk(dty)
            for r in rs:
                s = st
                if len(rs) > 1:
                    s = st.copy()
                    s.facts[("rule", v[1])] = r
                ix = [k for k, x in enumerate(t["vs"]) if x["n"] == r]
                out.append((s, ("agg", t["p"], ix[0], ())))
            return out
        if nm in ("as_str", "as_span"):
            if v[0] == "sym":
                return [(st, ("S", (("txt", v[1]),)))]
            if v[0] == "S":
                return [(st, v)]
            return None
        if nm == "into_inner":
            if v[0] != "sym":
                return None
            return self.children(I, v[1], st)
        if nm == "peek" and v[0] == "iter":
            m = I.models.take_first(I, st, v[2], False)
            if m is None:
                return None
            return [(I.models.setm(I, s, args[0], ("iter", v[1], put_back(rest, x))), x) for s, x, rest in m]
        if nm in ("next", "next_back", "len", "size_hint"):
            return None
        return None

    def children(self, I, path, st):
        out = []
        for s, r in self.split_rule(path, st):
            alts = self.tree.template(r)
            known = s.facts.get(("alt", path))
            for i, a in enumerate(alts):
                if known is not None and known != i:
                    continue
                s2 = s
                if len(alts) > 1 and known is None:
                    s2 = s.copy()
                    s2.facts[("alt", path)] = i
                parts = []
                for pos, x in enumerate(a):
                    p = path + (("c", i, pos, x[1] if x[0] != "lit" else ()),)
                    if x[0] == "e":
                        parts.append(("e", ("sym", p, self.pair_ty)))
                    elif x[0] == "list":
                        n = sym(("len", p))
                        parts.append(("list", p, lin(0), n, self.pair_ty))
                        if x[2]:
                            s2 = I.assume(s2, ("ge0", ladd(n, lin(-1))), True)
                if s2 is not None:
                    out.append((s2, ("iter", "val", tuple(parts))))
        return out

    def split_rule(self, path, st):
        rs = rules_at(path, st.facts)
        out = []
        for r in rs:
            s = st
            if len(rs) > 1:
                s = st.copy()
                s.facts[("rule", path)] = r
            out.append((s, r))
        return out

    def run_parser(self, I, ci, args, st, dty):
        rule = I.deref(st, args[0])
        text = I.deref(st, args[1])
        if rule[0] != "agg":
            return None
        t = [x for x in self.prog.tys if x["k"] == "adt" and x["p"] == rule[1]][0]
        name = t["vs"][rule[2]]["n"]
        p = (("parse", repr(text)), ("r", (name,)))
        self.entry.append((name, text))
        a, b = st.copy(), st.copy()
        a.facts[("accepts", name)] = True
        b.facts[("accepts", name)] = False
        return [
            (a, ok(("iter", "val", (("e", ("sym", p, self.pair_ty)),)))),
            (b, err(("op", "pest error", ()))),
        ]

    # --- obligations
    def need(self, ci, rules):
        k = (ci["s"], tuple(rules))
        if k not in self.seen:
            self.seen.add(k)
            self.work.append((ci, tuple(rules)))

    def bad(self, T, ci, kind, msg, about=()):
        self.fail.append(Fail(T, ci["s"], kind, msg, "src/parser.rs " + ci["s"], about))

    def topics(self, f):
        """the types of the structure which the part a result differs in becomes"""
        out = set()
        todo, seen = list(f.about), set()
        while todo:
            r = todo.pop()
            if r in seen or r not in self.tree.rules:
                continue
            seen.add(r)
            now = {T for T, rs in self.used.items() if r in rs}
            out |= now
            if not now:
                # a part without a type of its own: what it consists of
                todo += [c for t in self.tree.template(r) for x in t if x[0] != "lit" for c in x[1] if self.tree.literal(c) is None]
        return out

    def run(self):
        roots = [i for i in self.prog.insts if "body" in i and i["s"] == "parse" and i["crate"] == "graphviz_rust"]
        if len(roots) != 1:
            self.fail.append(Fail("parse", "parse", "anchor", "the public function `parse` was not found"))
            return self
        self.entry = []
        self.root(roots[0])
        while self.work:
            ci, rules = self.work.pop()
            self.obligation(ci, rules)
        return self

    def interpret(self, ci, args, st):
        I = PInterp(self.prog, PHooks(self, ci))
        outs = I.run_fn(ci, args, st)
        self.steps += I.steps
        self.callsites += I.callsites
        self.fns |= {x for x in getattr(I, "visited", ())} | {ci["s"]}
        self.pathcount += len(outs)
        return I, outs

    def panics(self, T, I, ci):
        for p in I.panics:
            if not self.feasible(p["facts"]):
                continue
            self.bad(T, ci, "panic", "can panic in %s: %s; when %s" % (p["stack"][-1] if p["stack"] else "?", p["msg"], self.facts_text(p["facts"])))

    def root(self, ci):
        st = St()
        t = self.prog.tys[ci["body"]["locals"][1]]
        I0 = PInterp(self.prog, PHooks(self, ci))
        st.mem[("in", 0)] = ("S", (("txt", ("dot",)),))
        I, outs = self.interpret(ci, [("ref", ("in", 0), ())], st)
        self.panics("parse", I, ci)
        self.items += 1
        for name, text in self.entry:
            if text != ("S", (("txt", ("dot",)),)):
                self.bad("parse", ci, "text", "the grammar is given %s instead of the text" % show(text))
        self.start_rules = sorted({n for n, _ in self.entry})
        if len(self.start_rules) != 1:
            self.bad("parse", ci, "text", "the text is parsed by the rules %s" % self.start_rules)
            return
        top = self.start_rules[0]
        oks = 0
        for s, v in outs:
            if self.feasible(s.facts):
                self.once("parse", ci, I, s)
            acc = s.facts.get(("accepts", top))
            if v[0] != "agg" or v[1] != RES:
                self.bad("parse", ci, "result", "returns %s" % show(v))
            elif v[2] == 1:
                if acc is not False:
                    self.bad("parse", ci, "reject", "returns an error for a text that the grammar accepts (%s)" % self.facts_text(s.facts))
            else:
                oks += 1
                if acc is not True:
                    self.bad("parse", ci, "accept", "returns a graph for a text the grammar does not accept")
                    continue
                self.compare("parse", ci, I, s, v[3][0], (("parse", repr(self.entry[0][1])), ("r", (top,))))
        if not oks:
            self.bad("parse", ci, "result", "never returns a graph")

    def obligation(self, ci, rules):
        st = St()
        path = (("r", rules),)
        T = self.prog.tys[ci["body"]["locals"][0]]["p"].split("::")[-1]
        self.used.setdefault(T, set()).update(rules)
        parses = len(self.entry)
        try:
            I, outs = self.interpret(ci, [("sym", path, self.pair_ty)], st)
        except ParserError as e:
            self.bad(T, ci, "analysis", str(e))
            return
        self.items += 1
        if len(self.entry) > parses:
            self.bad(T, ci, "reparse", "a part of the text is parsed again")
        self.panics(T, I, ci)
        if not outs:
            self.bad(T, ci, "result", "never returns for the rules %s" % (rules,))
        for s, v in outs:
            if self.feasible(s.facts):
                self.once(T, ci, I, s)
                self.compare(T, ci, I, s, v, path)

    # --- how often the parts of a text are read
    def deep(self, r):
        """can the text of the rule be nested without a limit"""
        k = ("deep", r)
        if k not in self.tree.memo:
            self.tree.memo[k] = any(c in peg.reachable(self.tree.rules, r) and self.tree.cuts[c] == "block" for c in self.tree.cuts)
        return self.tree.memo[k]

    def once(self, T, ci, I, s):
        """no part which may contain blocks is converted twice"""
        keep = lambda p, _: any(self.deep(r) for r in rules_at(p, s.facts))
        try:
            its = once.items(s.ev, "converted", keep)
        except (ParserError, ValueError) as e:
            self.bad(T, ci, "twice", str(e))
            return
        self.reads += len(its)
        r = once.clash(I, s, its)
        if r is not None and r[0] is r[1]:
            self.bad(T, ci, "twice", "`%s` is converted again in every pass of a loop (when %s)" % (show_path(r[0][0]), self.facts_text(s.facts)))
        elif r is not None:
            self.bad(T, ci, "twice", "`%s` is converted although `%s` is (when %s)" % (show_path(r[1][0]), show_path(r[0][0]), self.facts_text(s.facts)))

    def parts(self, T, path, facts):
        """what a statement made of several parts consists of: a subgraph that is an end point, the rest of its edge"""
        if T != "Stmt":
            return ()
        out = ()
        for r in rules_at(path, facts):
            t = self.tree.template(r)
            i = facts.get(("alt", path), 0 if len(t) == 1 else None)
            if i is not None and len(t[i]) > 1:
                out += tuple(c for x in t[i] if x[0] != "lit" for c in x[1])
        return out

    def compare(self, T, ci, I, s, v, path):
        try:
            self.whole = True
            have = self.unparse(I, s, v)
        except ParserError as e:
            self.bad(T, ci, "value", "%s (when %s)" % (e, self.facts_text(s.facts)), self.parts(T, path, s.facts))
            return
        m = Match(self, I, s)
        r = m.match(have, [("pair", path)])
        self.compared += m.steps
        if r is not None:
            kind, msg = r
            about = (rules_at(m.at, s.facts) if m.at else ()) + self.parts(T, path, s.facts)
            self.bad(T, ci, kind, "%s; the structure says `%s` (when %s)" % (msg, show_tokens(have), self.facts_text(s.facts)), about)
        elif len(self.samples) < 40:
            self.samples.append("%s(%s): %s" % (ci["s"], "|".join(rules_at(path, {})), show_tokens(have)))

    # --- facts about texts
    def wordsat(self, path, facts):
        out = []
        for r in rules_at(path, facts):
            w = self.tree.words(r) if r in self.tree.rules else None
            if w is None:
                return None
            out += w
        return out

    def textpaths(self, facts):
        ps = set()
        for f, val in facts.items():
            if f[0] in ("seq", "p", "eq0", "ge0"):
                for x in walk(f):
                    if isinstance(x, tuple) and len(x) == 2 and x[0] == "txt":
                        ps.add(x[1])
        return ps

    def remaining(self, path, facts):
        """the texts the pair at the path can have, as far as the facts leave them, or None"""
        ws = self.wordsat(path, facts)
        if ws is None:
            return None
        fs = [(f, val) for f, val in facts.items() if f[0] in ("seq", "p", "eq0", "ge0") and isinstance(val, bool)]
        return [w for w in ws if all(holds(f, path, w) in (val, None) for f, val in fs)]

    def feasible(self, facts):
        for p in self.textpaths(facts):
            try:
                r = self.remaining(p, facts)
            except ParserError:
                continue
            if r is not None and not r:
                return False
        return True

    def facts_text(self, facts):
        out = []
        for f, v in facts.items():
            if f[0] == "rule":
                out.append("%s is %s" % (show_path(f[1]), v))
            elif f[0] == "alt":
                try:
                    r = rules_at(f[1], facts)[0]
                    a = self.tree.template(r)[v]
                    out.append("%s has %s" % (show_path(f[1]), " ".join(x[1] if x[0] == "lit" else "|".join(x[1]) + ("*" if x[0] == "list" else "") for x in a) or "nothing"))
                except Exception:
                    out.append("alternative %s" % v)
            elif f[0] == "accepts":
                continue
            else:
                out.append("%s=%s" % (show(f), v))
        return ", ".join(out)[:400] or "always"

    # --- from structures back to tokens
    def unparse(self, I, st, v):
        v = I.deref(st, v)
        if v[0] == "box":
            return self.unparse(I, st, v[1])
        if v[0] == "sym" and v[1] and v[1][-1][0] == "ast":
            return [("N", v[1][:-1], v[1][-1][1])]
        if v[0] != "agg":
            raise ParserError("the result contains %s" % show(v)[:200])
        T = v[1].split("::")[-1]
        if not self.whole:
            self.inner.add(T)
        self.whole = False
        f = v[3]
        n = I.variant_name(v)
        up = lambda x: self.unparse(I, st, x)
        names = [x[0] for t in I.prog.tys if t["k"] == "adt" and t["p"] == v[1] for x in t["vs"][v[2]]["f"]]
        g = dict(zip(names, f))
        if T == "Id":
            if n == "Anonymous":
                t = I.text(st, f[0])
                if not any(x and x[0] == "op" and x[1] == "random" for x in walk(t)):
                    raise ParserError("an anonymous id is made of %s" % show(("S", t)))
                return []
            return [("id", KINDS[n], I.text(st, f[0]))]
        if T == "NodeId":
            return up(f[0]) + self.opt(I, st, f[1], up)
        if T == "Port":
            a = self.opt(I, st, f[0], up)
            b = self.opt(I, st, f[1], lambda x: [("cmp", I.text(st, x))])
            if not a and not b:
                raise ParserError("a port without id and compass point")
            if a and not b and a[0][0] == "id":
                a = [("portid",) + a[0][1:]]
            return [("lit", ":")] + a + ([("lit", ":")] if a and b else []) + b
        if T == "Attribute":
            return up(f[0]) + [("lit", "=")] + up(f[1])
        if T == "Node":
            return up(g["id"]) + self.seq(I, st, g["attributes"], [])
        if T == "Edge":
            return up(g["ty"]) + self.seq(I, st, g["attributes"], [])
        if T == "EdgeTy":
            if n == "Pair":
                return up(f[0]) + [("op",)] + up(f[1])
            return self.seq(I, st, f[0], [("op",)])
        if T in ("Vertex", "Stmt"):
            return up(f[0])
        if T == "Subgraph":
            return up(g["id"]) + [("lit", "{")] + self.seq(I, st, g["stmts"], []) + [("lit", "}")]
        if T == "GraphAttributes":
            return [("kw", n.lower())] + self.seq(I, st, f[0], [])
        if T == "Graph":
            s = g["strict"]
            if s[0] == "cond":
                d = I.decide(st, s[1])
                s = B(d) if d is not None else s
            if s[0] != "b":
                raise ParserError("whether the graph is strict is %s" % show(s))
            return ([("kw", "strict")] if s[1] else []) + [("kw", n.lower())] + up(g["id"]) + [("lit", "{")] + self.seq(I, st, g["stmts"], []) + [("lit", "}")]
        raise ParserError("the result contains %s" % show(v)[:200])

    def opt(self, I, st, v, f):
        v = I.deref(st, v)
        if v[0] == "agg" and v[1] == OPT:
            return f(v[3][0]) if v[2] == 1 else []
        raise ParserError("an optional part is %s" % show(v)[:200])

    def seq(self, I, st, v, sep):
        """tokens of a list; sep goes between the elements"""
        v = I.deref(st, v)
        p = I.parts(st, v)
        if p is None:
            raise ParserError("a list is %s" % show(v)[:200])
        out = []
        first = True
        for x in p:
            if x[0] == "e":
                out += ([] if first else sep) + self.unparse(I, st, x[1])
                first = False
            elif x[0] == "range":
                if I.ge0(st, lsub(x[2], x[3])):
                    continue
                if len(x[4]) != 1 or x[4][0][0]:
                    alts = x[4]
                    toks = []
                    for g, b in alts:
                        if len(b) != 1 or b[0][0] != "e":
                            raise ParserError("a list has elements that are there only sometimes: %s" % show(v)[:200])
                        s2 = st.copy()
                        for fct, val in g:
                            s2.facts[fct] = val
                        toks.append((g, self.unparse(I, s2, b[0][1])))
                    body = ("cases", tuple((g, tuple(t)) for g, t in toks))
                else:
                    b = x[4][0][1]
                    if len(b) != 1 or b[0][0] != "e":
                        raise ParserError("a list has %d elements for one of the text" % len(b))
                    body = ("cases", (((), tuple(self.unparse(I, st, b[0][1]))),))
                if first and sep:
                    raise ParserError("a chain may be empty")
                out.append(("R", x[1], x[2], x[3], tuple(sep), body))
                first = False
            else:
                raise ParserError("a list contains %s" % show(("seq", (x,)))[:200])
        return out


def put_back(rest, x):
    if x[0] == "agg" and x[1] == OPT and x[2] == 1:
        e = x[3][0]
        # an element just taken from the front of a list goes back to it
        if rest and rest[0][0] == "list" and e[0] == "sym" and e[1][:-1] == rest[0][1] and e[1][-1][0] == "ix" and ladd(e[1][-1][1], lin(1)) == rest[0][2]:
            h = rest[0]
            return (("list", h[1], e[1][-1][1], h[3], h[4]),) + tuple(rest[1:])
        return (("e", e),) + tuple(rest)
    return rest


def holds(f, path, word):
    """truth of a fact when the text at the path is the word; None: not a fact about it alone"""

    def text(ps):
        out = ""
        for p in ps:
            if p[0] == "lit":
                out += p[1]
            elif p == ("txt", path):
                out += word
            elif p[0] == "op" and p[1] in ("to_lowercase", "to_ascii_lowercase", "to_uppercase", "to_ascii_uppercase", "trim") and p[2][0][0] == "S":
                x = text(p[2][0][1])
                if x is None:
                    return None
                out += x.lower() if "lower" in p[1] else x.upper() if "upper" in p[1] else x.strip()
            else:
                return None
        return out

    if f[0] == "seq":
        a, b = text(f[1]), text(f[2])
        return None if a is None or b is None else a == b
    if f[0] in ("eq0", "ge0") and len(f) == 2 and f[1][0] == "lin":
        n = f[1][1]
        for x, c in f[1][2]:
            w = text((x[1],)) if isinstance(x, tuple) and x[0] == "slen" else None
            if w is None:
                return None
            n += c * len(w.encode())
        return n == 0 if f[0] == "eq0" else n >= 0
    if f[0] == "p" and f[1] == "is" and f[2][:2] == ("op", "elem") and f[2][2][0][0] == "S" and isconst(f[2][2][1]):
        # a byte of it
        t, i = text(f[2][2][0][1]), f[2][2][1][1]
        t = t if t is None else t.encode()
        return None if t is None or not 0 <= i < len(t) else t[i] == f[3]
    if f[0] == "p" and f[1] == "eqi":
        a, b = text(f[2]), text(f[3])
        return None if a is None or b is None else a.lower() == b.lower()
    if f[0] == "p" and f[1] in ("starts_with", "ends_with", "contains") and len(f) == 4:
        t, q = text(f[2]), f[3]
        if t is None or q[0] not in ("str", "set"):
            return None
        opts = [q[1]] if q[0] == "str" else list(q[1])
        return any({"starts_with": t.startswith, "ends_with": t.endswith, "contains": lambda o: o in t}[f[1]](o) for o in opts)
    return None


# ---------------------------------------------------------------- comparing
class Match:
    def __init__(self, an, I, st):
        self.an = an
        self.tree = an.tree
        self.I = I
        self.st = st
        self.steps = 0
        # the part of the text met last
        self.at = None

    def canon(self, path, facts):
        """the deepest pair with the same text"""
        while True:
            rs = rules_at(path, facts)
            if len(rs) != 1:
                return path
            r = rs[0]
            if r in self.tree.classes or r not in self.tree.rules:
                return path
            t = self.tree.template(r)
            i = facts.get(("alt", path), 0 if len(t) == 1 else None)
            if i is None or len(t[i]) != 1 or t[i][0][0] != "e" or not covers(self.tree, r):
                return path
            path = path + (("c", i, 0, t[i][0][1]),)

    def kinds(self, path, facts):
        return {self.tree.classes.get(r) for r in rules_at(path, facts)}

    def match(self, have, want, facts=None):
        """None when the tokens agree, otherwise (kind, message)"""
        facts = dict(self.st.facts) if facts is None else facts
        have, want = list(have), list(want)
        while True:
            self.steps += 1
            if not want:
                if have:
                    return kind_of(have[0]), "`%s` is not in the text" % show_tokens(have[:1])
                return None
            w = want[0]
            if w[0] == "pair":
                path = self.at = w[1]
                if have and have[0][0] == "N" and have[0][1] == path:
                    have.pop(0)
                    want.pop(0)
                    continue
                rs = rules_at(path, facts)
                if len(rs) > 1:
                    for r in rs:
                        f2 = dict(facts)
                        f2[("rule", path)] = r
                        e = self.match(have, want, f2)
                        if e:
                            return e
                    return None
                r = rs[0]
                if r == "EOI":
                    want.pop(0)
                    continue
                lit = self.tree.literal(r)
                if lit is not None:
                    want[:1] = lit_tokens(lit)
                    continue
                if self.tree.leaf(r) and self.canon(path, facts) == path:
                    e = self.leaf(have, path, r, facts, want)
                    if e:
                        return e
                    have.pop(0)
                    want.pop(0)
                    continue
                t = self.tree.template(r)
                i = facts.get(("alt", path))
                if i is None and len(t) > 1:
                    for k in range(len(t)):
                        f2 = dict(facts)
                        f2[("alt", path)] = k
                        e = self.match(have, want, f2)
                        if e:
                            return e
                    return None
                i = i or 0
                new = []
                for pos, x in enumerate(t[i]):
                    p = path + (("c", i, pos, x[1] if x[0] != "lit" else ()),)
                    if x[0] == "lit":
                        new += lit_tokens(x[1])
                    elif x[0] == "e":
                        new.append(("pair", p))
                    else:
                        new.append(("list", p, lin(0), sym(("len", p)), x[3], x[4], x[2]))
                want[:1] = new
                continue
            if w[0] == "list":
                _, p, lo, hi, pre, post, least = w
                self.at = p
                d = self.known(lsub(hi, lo), facts, p, least)
                if d == 0:
                    want.pop(0)
                    continue
                if have and have[0][0] == "R":
                    e, upto = self.whole(have[0], w, facts)
                    if e is None:
                        have.pop(0)
                        want[0] = ("list", p, upto, hi, pre, post, 0)
                        continue
                    if have[0][2] == lo:
                        return e
                if d is None:
                    # not known to have an element: it may have none, or one
                    n = lsub(hi, lo)
                    f2 = dict(facts)
                    f2[("ge0", lneg(n))] = True
                    e = self.match(have, want[1:], f2)
                    if e:
                        return e
                    f2 = dict(facts)
                    f2[("ge0", ladd(n, lin(-1)))] = True
                    if len(f2) > 60 or f2 == facts:
                        return "list", "a repetition is not followed to its end"
                    if not (have and have[0][0] not in ("lit", "op")) and not any(x[0] == "lit" for x in pre):
                        return "list", "the elements of %s are missing" % show_path(p)
                    return self.match(have, want, f2)
                el = ("pair", p + (("ix", lo),))
                want[:1] = [t for x in pre for t in lit_tokens(x[1])] + [el] + [t for x in post for t in lit_tokens(x[1])] + [
                    ("list", p, ladd(lo, lin(1)), hi, pre, post, max(0, least - 1))
                ]
                continue
            # a word of the grammar
            if not have:
                return "missing", "`%s` of the text is missing" % show_tokens([w])
            h = have[0]
            if w == h:
                have.pop(0)
                want.pop(0)
                continue
            if w[0] == "lit" and w[1] == "subgraph":
                want.pop(0)
                continue
            if h[0] == "R":
                st2 = self.with_facts(facts)
                if self.I.ge0(st2, lsub(h[2], h[3])):
                    have.pop(0)
                    continue
            return kind_of(h), "`%s` where the text has `%s`" % (show_tokens([h]), show_tokens([w]))

    def with_facts(self, facts):
        s = self.st.copy()
        s.facts = facts
        return s

    def known(self, n, facts, p, least):
        s = self.with_facts(dict(facts))
        if least:
            s.facts[("ge0", ladd(sym(("len", p)), lin(-1)))] = True
        if self.I.ge0(s, lneg(n)):
            return 0
        if self.I.ge0(s, ladd(n, lin(-1))):
            return 1
        return None

    def whole(self, R, w, facts):
        """a range of the result against a whole list of the text"""
        _, lid, lo, hi, sep, body = R
        _, p, wlo, whi, pre, post, least = w
        k = sym(("k", lid))
        off = None
        # the element of the list the body speaks of
        for g, toks in body[1]:
            for t in walk(toks):
                if isinstance(t, tuple) and len(t) > len(p) and t[: len(p)] == p and t[len(p)][0] == "ix":
                    off = lsub(t[len(p)][1], k)
                    break
        if off is None:
            return ("list", "the list of the result is not made from %s" % show_path(p)), None
        if any(s == ("k", lid) for s, _ in off[2]):
            return ("list", "the elements of %s are taken in another order" % show_path(p)), None
        s = self.with_facts(facts)
        a, b = ladd(lo, off), ladd(hi, off)
        if a != wlo or not self.I.ge0(s, lsub(whi, b)) or not self.I.ge0(s, lsub(b, a)):
            return ("list", "elements %s to %s of %s are taken, there are %s to %s" % (show(a), show(b), show_path(p), show(wlo), show(whi))), None
        el = [t for x in pre for t in lit_tokens(x[1])] + [("pair", p + (("ix", ladd(k, off)),))] + [t for x in post for t in lit_tokens(x[1])]
        for g, toks in body[1]:
            f2 = dict(facts)
            for f, v in g:
                f2[f] = v
            if not self.an.feasible(f2):
                continue
            e = self.match(list(sep) + list(toks), el, f2)
            if e:
                return e, None
        return None, b

    def leaf(self, have, path, r, facts, want):
        what = "the text of %s" % r
        if not have:
            return "missing", what + " is missing"
        h = have[0]
        cls = self.tree.classes.get(r)
        if h[0] == "kw":
            ws = self.an.remaining(path, facts)
            if ws is None or {w.lower() for w in ws} != {h[1]}:
                return "kw", "`%s` where the text has %s" % (h[1], "|".join(sorted({w.lower() for w in ws})) if ws else r)
            return None
        if h[0] in ("id", "portid", "cmp"):
            t = h[-1]
            if len(t) != 1 or t[0][0] != "txt" or not self.sametext(t[0][1], path, facts):
                return ("id" if h[0] != "cmp" else "cmp"), "`%s` instead of %s" % (show_tokens([h]), what)
            if h[0] == "cmp":
                if cls == "C":
                    return None
                if cls == "P" and any(self.says(facts, path, c) is True for c in COMPASS):
                    return None
                return "cmp", "a compass point from %s %s" % (what, "that is not known to be one" if cls == "P" else "")
            if cls != h[1]:
                return "id", "%s becomes an id of the kind %s" % (what, CLASSES.get(h[1]))
            if h[0] == "portid" and cls == "P":
                lone = not (len(want) > 1)
                missing = [c for c in COMPASS if self.says(facts, path, c) is not False]
                if missing:
                    return "cmp", "a port that may be the compass point %s becomes an id" % " ".join(missing)
            return None
        return kind_of(h), "`%s` where the text has %s" % (show_tokens([h]), what)

    def sametext(self, a, b, facts):
        return a == b or self.canon(a, facts) == self.canon(b, facts)

    def says(self, facts, path, word):
        """is the text at the path known to be the word"""
        res = None
        for f, val in facts.items():
            if f[0] != "seq" or not isinstance(val, bool):
                continue
            for x, y in ((f[1], f[2]), (f[2], f[1])):
                if len(x) == 1 and x[0][0] == "txt" and is_lit(y) and self.sametext(x[0][1], path, facts):
                    if lit_text(y) == word:
                        return val
                    if val is True:
                        res = False
        return res


def covers(tree, r):
    """the rule consists of exactly one other rule, nothing around it"""
    mod, e = tree.rules[r]

    def one(x):
        if x[0] == "call":
            n = x[1]
            return n in tree.rules and (not tree.silent(n) or one(tree.rules[n][1]))
        if x[0] == "alt":
            return all(one(y) for y in x[1])
        if x[0] == "seq":
            return sum(1 for y in x[1] if y[0] not in ("not", "and")) == 1 and all(y[0] in ("not", "and") or one(y) for y in x[1]) and mod in ("@", "$")
        return False

    return one(e)


def lit_tokens(t):
    if t in EDGEOPS:
        return [("op",)]
    if t in DROP:
        return []
    if t.lower() in KEYWORDS and t.lower() != "subgraph":
        return [("kw", t.lower())]
    return [("lit", t.lower())]


def kind_of(t):
    return {"id": "id", "portid": "id", "cmp": "cmp", "kw": "kw", "N": "part", "R": "list"}.get(t[0], "token")


def show_path(p):
    out = []
    for x in p:
        if x[0] in ("c", "r"):
            out.append("|".join(x[-1]))
        elif x[0] == "ix":
            out[-1] += "[%s]" % show(x[1]) if out else "[]"
    return "/".join(out)


def show_tokens(ts):
    out = []
    for t in ts:
        if t[0] in ("lit", "kw"):
            out.append(t[1])
        elif t[0] == "op":
            out.append("->")
        elif t[0] in ("id", "portid"):
            out.append("%s(%s)" % (CLASSES[t[1]], show(("S", t[2]))))
        elif t[0] == "cmp":
            out.append("compass(%s)" % show(("S", t[1])))
        elif t[0] == "N":
            out.append("<%s>" % show_path(t[1]))
        elif t[0] == "R":
            out.append("(for %s..%s: %s)" % (show(t[2]), show(t[3]), " | ".join(show_tokens(list(t[4]) + list(b)) for g, b in t[5][1])))
        elif t[0] == "pair":
            out.append("<%s>" % show_path(t[1]))
        else:
            out.append(str(t[0]))
    return " ".join(out)
