"""The grammar against the reference grammar: which texts are accepted, and how they are cut into parts."""
import os
from . import peg
from .parser import CLASSES, ParserError, Tree

REF = os.path.join(os.path.dirname(os.path.abspath(__file__)), "dot.ref.pest")
# structures and the rules of the reference grammar they are made from
PARTS = {"Node": "node", "Edge": "edge_stmt", "GraphAttributes": "attr_stmt", "Subgraph": "subgraph", "Attribute": "assign", "NodeId": "node_id", "Port": "port"}
LIMIT = 150000


def reference():
    return open(REF, encoding="utf-8").read()


class Comparison:
    def __init__(self, tree, top, leaf=(), parts=(), used=None):
        """leaf: classes of tokens to be marked, parts: structures to be marked"""
        self.tree = tree
        self.core = peg.Core()
        A, R = tree.rules, tree.ref
        self.parts = {}
        marks, rmarks = {}, {}
        for T in parts:
            rules = [r for r in (used or {}).get(T, ()) if not self.wrapper(r, used[T])]
            if not rules:
                continue
            self.parts[T] = rules
            for r in rules:
                marks.setdefault(r, []).append(T)
            rmarks.setdefault(PARTS[T], []).append(T)
        order = list(PARTS)
        for m in (marks, rmarks):
            for r in m:
                m[r].sort(key=order.index)
        lm = {r: k for r, k in tree.classes.items() if k in leaf}
        rlm = {n: k for k, n in CLASSES.items() if k in leaf}
        self.A = peg.Grammar(A, self.core, tree.cuts, lm, marks)
        self.R = peg.Grammar(R, self.core, {"block": "block", "angle": "angle"}, rlm, rmarks)
        self.units = [("file", self.A.rule(top, False), self.R.rule("file", False), False)]
        for r, l in sorted(tree.cuts.items()):
            atomic = l == "angle"
            self.units.append((r, self.A.rule(r, atomic, True), self.R.rule(l, atomic, True), True))
        names = sorted(leaf) + (["end"] if leaf else []) + list(self.parts)
        self.L = peg.Langs(self.core, ["block", "angle"], {"block": "{", "angle": "<"}, names)
        self.states = 0
        self.cut_short = []

    def wrapper(self, r, rules):
        t = self.tree.template(r)
        return all(len(a) == 1 and a[0][0] == "e" and set(a[0][1]) <= set(rules) and r not in a[0][1] for a in t) if t else False

    def langs(self, unit):
        n, a, r, whole = unit
        return self.L.start(a, whole), self.L.start(r, whole)

    def unmarked(self, e, whole):
        L = self.L
        return L.lang(L.key("g", e, L.key("end", True) if whole else L.ALL, True))

    def search(self, name, f):
        try:
            w, k = self.L.witness(f, LIMIT)
        except peg.GrammarError as e:
            if "states" not in str(e):
                raise
            self.cut_short.append(name)
            self.states += LIMIT
            return None
        self.states += k
        return w

    def rejected(self):
        """texts of the reference that the grammar does not accept"""
        for u in self.units:
            a, r = self.langs(u)
            yield u[0], self.search(u[0], self.L.AND(r, self.L.NOT(a)))

    def accepted(self):
        for u in self.units:
            a, r = self.langs(u)
            yield u[0], self.search(u[0], self.L.AND(a, self.L.NOT(r)))

    def otherwise(self):
        """texts both accept but cut in another way"""
        L = self.L
        for u in self.units:
            if u[0] != "file" and self.tree.cuts[u[0]] == "angle":
                continue
            a, r = self.langs(u)
            yield u[0], self.search(u[0], L.AND(L.AND(r, L.NOT(a)), self.unmarked(u[1], u[3])))

    def local(self, rules, ref):
        """a text on which rules of the grammar and a rule of the reference differ when they stand alone, or None"""
        es = [self.A.rule(r, False, r in self.tree.cuts) for r in rules]
        L = self.L
        for whole in (True, False):
            f = 0
            for e in es:
                f = L.OR(f, L.start(e, whole))
            w = self.search(ref, L.XOR(f, L.start(self.R.rule(ref, False), whole)))
            if w is not None:
                return w
        return None

    def show(self, w):
        return self.L.show(w)
