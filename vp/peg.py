"""Parsing expression grammars (pest) as regular languages.

The set of inputs a (non-recursive) parsing expression e accepts in front of a continuation K is

    G(c, K)     = c K                      G(e1 e2, K) = G(e1, G(e2, K))
    G(e1|e2, K) = G(e1,K) u (G(e2,K) - G(e1, all))
    G(e*, K)    = G(e, G(e*,K)) u (K - G(e, all))
    G(!e, K)    = K - G(e, all)

Every language met is a boolean combination of `character set, then continuation' atoms; it is kept as a BDD over
those atoms, so derivatives are finite in number and two grammars are compared exactly by exploring the derivatives of
their difference. Marks (zero-width letters that only G, not the predicates, sees) compare how the text is cut into
tokens. A recursive rule is cut at a rule that all its cycles go through, which stands for a letter of its own.
"""


class GrammarError(Exception):
    pass


# ------------------------------------------------------------------ reading
class Reader:
    def __init__(self, text):
        self.s = text
        self.i = 0

    def ws(self):
        s = self.s
        while self.i < len(s):
            if s[self.i].isspace():
                self.i += 1
            elif s.startswith("//", self.i):
                j = s.find("\n", self.i)
                self.i = len(s) if j < 0 else j + 1
            elif s.startswith("/*", self.i):
                depth, self.i = 1, self.i + 2
                while depth:
                    if self.i >= len(s):
                        raise GrammarError("comment without an end")
                    if s.startswith("/*", self.i):
                        depth += 1
                        self.i += 2
                    elif s.startswith("*/", self.i):
                        depth -= 1
                        self.i += 2
                    else:
                        self.i += 1
            else:
                return

    def peek(self, t):
        self.ws()
        return self.s.startswith(t, self.i)

    def eat(self, t):
        if self.peek(t):
            self.i += len(t)
            return True
        return False

    def need(self, t):
        if not self.eat(t):
            raise GrammarError("expected %r at %r" % (t, self.s[self.i : self.i + 30]))

    def name(self):
        self.ws()
        j = self.i
        while j < len(self.s) and (self.s[j].isalnum() or self.s[j] == "_"):
            j += 1
        if j == self.i:
            raise GrammarError("expected a name at %r" % self.s[self.i : self.i + 30])
        r = self.s[self.i : j]
        self.i = j
        return r

    def quoted(self, q):
        self.need(q)
        out = []
        s = self.s
        while True:
            c = s[self.i]
            self.i += 1
            if c == q:
                return "".join(out)
            if c != "\\":
                out.append(c)
                continue
            c = s[self.i]
            self.i += 1
            if c == "x":
                out.append(chr(int(s[self.i : self.i + 2], 16)))
                self.i += 2
            elif c == "u":
                j = s.index("}", self.i)
                out.append(chr(int(s[self.i + 1 : j], 16)))
                self.i = j + 1
            else:
                m = {"n": "\n", "r": "\r", "t": "\t", "0": "\0", "\\": "\\", '"': '"', "'": "'"}
                if c not in m:
                    raise GrammarError("unknown escape \\%s" % c)
                out.append(m[c])

    def grammar(self):
        rules = {}
        self.ws()
        while self.i < len(self.s):
            n = self.name()
            self.need("=")
            self.ws()
            mod = ""
            if self.s[self.i] in "_@$!":
                mod = self.s[self.i]
                self.i += 1
            self.need("{")
            e = self.choice()
            self.need("}")
            if n in rules:
                raise GrammarError("rule %s is defined twice" % n)
            rules[n] = (mod, e)
            self.ws()
        return rules

    def choice(self):
        self.eat("|")
        alts = [self.seq()]
        while self.eat("|"):
            alts.append(self.seq())
        return alts[0] if len(alts) == 1 else ("alt", tuple(alts))

    def seq(self):
        xs = [self.term()]
        while self.eat("~"):
            xs.append(self.term())
        return xs[0] if len(xs) == 1 else ("seq", tuple(xs))

    def term(self):
        self.ws()
        if self.eat("#"):  # a tag
            self.name()
            self.need("=")
        if self.eat("!"):
            return ("not", self.term())
        if self.eat("&"):
            return ("and", self.term())
        e = self.atom()
        while True:
            if self.eat("*"):
                e = ("star", e)
            elif self.eat("+"):
                e = ("plus", e)
            elif self.eat("?"):
                e = ("opt", e)
            elif self.peek("{"):
                self.need("{")
                lo, hi = None, None
                self.ws()
                if not self.peek(","):
                    lo = int(self.name())
                if self.eat(","):
                    if not self.peek("}"):
                        hi = int(self.name())
                    lo = lo or 0
                else:
                    hi = lo
                self.need("}")
                e = ("rep", e, lo, hi)
            else:
                return e

    def atom(self):
        self.ws()
        if self.eat("("):
            e = self.choice()
            self.need(")")
            return e
        if self.eat("^"):
            return ("ilit", self.quoted('"'))
        if self.peek('"'):
            return ("lit", self.quoted('"'))
        if self.peek("'"):
            a = self.quoted("'")
            self.need("..")
            b = self.quoted("'")
            return ("set", ((ord(a), ord(b)),))
        n = self.name()
        if n in ("PUSH", "POP", "PEEK", "DROP", "PEEK_ALL", "POP_ALL", "PUSH_LITERAL"):
            raise GrammarError("the stack operation %s is not understood" % n)
        return ("call", n)


MAXC = 0x10FFFF
LETTERS = ((65, 90), (97, 122))
BUILTIN = {
    "ANY": ("set", ((0, MAXC),)),
    "SOI": ("soi",),
    "EOI": ("eoi",),
    "ASCII": ("set", ((0, 127),)),
    "ASCII_DIGIT": ("set", ((48, 57),)),
    "ASCII_NONZERO_DIGIT": ("set", ((49, 57),)),
    "ASCII_BIN_DIGIT": ("set", ((48, 49),)),
    "ASCII_OCT_DIGIT": ("set", ((48, 55),)),
    "ASCII_HEX_DIGIT": ("set", ((48, 57), (65, 70), (97, 102))),
    "ASCII_ALPHA": ("set", LETTERS),
    "ASCII_ALPHA_LOWER": ("set", ((97, 122),)),
    "ASCII_ALPHA_UPPER": ("set", ((65, 90),)),
    "ASCII_ALPHANUMERIC": ("set", ((48, 57),) + LETTERS),
    "NEWLINE": ("alt", (("lit", "\n"), ("lit", "\r\n"), ("lit", "\r"))),
}


def read(text):
    return Reader(text).grammar()


# ------------------------------------------------------------- core terms
class Core:
    """interned core expressions: ('e',) ('c', intervals) ('seq',a,b) ('alt',a,b) ('star',a) ('not',a) ('letter',n) ('eoi',) ('mark',m)"""

    def __init__(self):
        self.ids = {}
        self.terms = []

    def mk(self, *t):
        if t not in self.ids:
            self.ids[t] = len(self.terms)
            self.terms.append(t)
        return self.ids[t]

    def seqs(self, xs):
        if not xs:
            return self.mk("e")
        r = xs[-1]
        for x in reversed(xs[:-1]):
            if self.terms[x] == ("e",):
                continue
            r = x if self.terms[r] == ("e",) else self.mk("seq", x, r)
        return r

    def alts(self, xs):
        r = xs[-1]
        for x in reversed(xs[:-1]):
            r = self.mk("alt", x, r)
        return r


class Grammar:
    """a set of pest rules, turned into core expressions"""

    def __init__(self, rules, core, cuts=(), leafmarks=None, marks=None):
        self.rules = rules
        self.core = core
        self.cuts = dict(cuts)  # rule -> letter
        self.leafmarks = leafmarks or {}  # rule -> mark around its text
        self.marks = marks or {}  # rule -> marks in front of its text
        self.memo = {}
        self.active = []

    def skip(self):
        k = ("skip",)
        if k not in self.memo:
            c = self.core
            w = self.rule("WHITESPACE", True) if "WHITESPACE" in self.rules else None
            m = self.rule("COMMENT", True) if "COMMENT" in self.rules else None
            if w is None and m is None:
                r = c.mk("e")
            elif m is None:
                r = c.mk("star", w)
            elif w is None:
                r = c.mk("star", m)
            else:
                ws = c.mk("star", w)
                r = c.mk("seq", ws, c.mk("star", c.mk("seq", m, ws)))
            self.memo[k] = r
        return self.memo[k]

    def rule(self, name, atomic, body=False):
        """the core expression of a call of the rule (body: of its definition even when it is cut)"""
        c = self.core
        if name not in self.rules:
            if name in BUILTIN:
                return self.expr(BUILTIN[name], True)
            raise GrammarError("the rule %s is not known" % name)
        if name in self.cuts and not body:
            if name not in self.leafmarks or name in self.active:
                return c.mk("letter", self.cuts[name])
            body = True
        k = (name, atomic, body)
        if k in self.memo:
            return self.memo[k]
        if name in self.active and not body:
            raise GrammarError("recursion through %s" % " ".join(self.active))
        self.active.append(name)
        mod, e = self.rules[name]
        a = True if mod in ("@", "$") else False if mod == "!" else atomic
        if e[0] == "call" and self.cuts.get(e[1]) == "angle" and name not in self.cuts:
            r = self.rule(e[1], a, True)  # another name of a tag
        else:
            r = self.expr(e, a)
        if name in self.leafmarks:
            r = c.seqs([c.mk("mark", self.leafmarks[name]), r, c.mk("mark", "end")])
        for m in reversed(self.marks.get(name, ())):
            r = c.seqs([c.mk("mark", m), r])
        self.active.pop()
        self.memo[k] = r
        return r

    def expr(self, e, atomic):
        c = self.core
        k = e[0]
        if k == "lit":
            return c.seqs([c.mk("c", ((ord(x), ord(x)),)) for x in e[1]])
        if k == "ilit":
            out = []
            for x in e[1]:
                if x.isascii() and x.isalpha():
                    out.append(c.mk("c", tuple(sorted(((ord(x.lower()),) * 2, (ord(x.upper()),) * 2)))))
                else:
                    out.append(c.mk("c", ((ord(x), ord(x)),)))
            return c.seqs(out)
        if k == "set":
            return c.mk("c", tuple(sorted(e[1])))
        if k == "soi":
            return c.mk("e")
        if k == "eoi":
            return c.mk("eoi")
        if k == "call":
            return self.rule(e[1], atomic)
        if k == "seq":
            sk = c.mk("e") if atomic else self.skip()
            out = []
            for i, x in enumerate(e[1]):
                if i:
                    out.append(sk)
                out.append(self.expr(x, atomic))
            return c.seqs(out)
        if k == "alt":
            return c.alts([self.expr(x, atomic) for x in e[1]])
        if k == "not":
            return c.mk("not", self.expr(e[1], atomic))
        if k == "and":
            return c.mk("not", c.mk("not", self.expr(e[1], atomic)))
        x = self.expr(e[1], atomic)
        rest = x if atomic else c.seqs([self.skip(), x])
        if k == "opt":
            return c.mk("alt", x, c.mk("e"))
        if k == "plus":
            return c.seqs([x, c.mk("star", rest)])
        if k == "star":
            return c.mk("alt", c.seqs([x, c.mk("star", rest)]), c.mk("e")) if not atomic else c.mk("star", x)
        if k == "rep":
            lo, hi = e[2], e[3]
            if hi is None:
                tail = c.mk("star", rest)
            else:
                tail = c.mk("e")
                for _ in range(hi - lo):
                    tail = c.mk("alt", c.seqs([rest, tail]), c.mk("e"))
            if lo == 0:
                if hi is None:
                    return c.mk("alt", c.seqs([x, tail]), c.mk("e"))
                tail = c.mk("e")
                for _ in range(hi - 1):
                    tail = c.mk("alt", c.seqs([rest, tail]), c.mk("e"))
                return c.mk("alt", c.seqs([x, tail]), c.mk("e")) if hi else c.mk("e")
            return c.seqs([x] + [rest] * (lo - 1) + [tail])
        raise GrammarError("unknown expression %s" % k)


# ---------------------------------------------------------------- languages
class Langs:
    """languages as BDDs over atoms; letters: ints (character classes), strings (cut rules), ('m', mark)"""

    F, T = 0, 1

    def __init__(self, core, letters=(), starts=None, marks=()):
        self.core = core
        self.nodes = [None, None]
        self.uniq = {}
        self.itec = {}
        self.keys = {}
        self.kterms = []
        self.ALL = self.key("all")
        self.busy = set()
        self.parts = {}
        self.dcache = {}
        self.ncache = {0: False, 1: True}
        cuts = {0, MAXC + 1}
        for t in core.terms:
            if t[0] == "c":
                for a, b in t[1]:
                    cuts.add(a)
                    cuts.add(b + 1)
        cs = sorted(cuts)
        self.bounds = [(a, b - 1) for a, b in zip(cs, cs[1:])]
        # characters that every set treats alike share one letter
        sig = {}
        sets = sorted({t[1] for t in core.terms if t[0] == "c"})
        self.reps = []
        self.member = {s: set() for s in sets}
        for a, b in self.bounds:
            inn = tuple(i for i, s in enumerate(sets) if any(x <= a and b <= y for x, y in s))
            if inn not in sig:
                sig[inn] = len(self.reps)
                self.reps.append(pick(a, b))
                for i in inn:
                    self.member[sets[i]].add(sig[inn])
        self.letters = list(range(len(self.reps))) + list(letters) + [("m", m) for m in marks]
        self.starts = starts or {}  # letter -> the character it begins with

    # --- bdd
    def node(self, v, hi, lo):
        if hi == lo:
            return hi
        k = (v, hi, lo)
        if k not in self.uniq:
            self.uniq[k] = len(self.nodes)
            self.nodes.append(k)
        return self.uniq[k]

    def ite(self, f, g, h):
        if f == 1 or g == h:
            return g
        if f == 0:
            return h
        if g == 1 and h == 0:
            return f
        k = (f, g, h)
        r = self.itec.get(k)
        if r is not None:
            return r
        v = min(self.nodes[x][0] for x in (f, g, h) if x > 1)

        def co(x, side):
            if x > 1 and self.nodes[x][0] == v:
                return self.nodes[x][1 + side]
            return x

        r = self.node(v, self.ite(co(f, 0), co(g, 0), co(h, 0)), self.ite(co(f, 1), co(g, 1), co(h, 1)))
        self.itec[k] = r
        return r

    def OR(self, a, b):
        return self.ite(a, 1, b)

    def AND(self, a, b):
        return self.ite(a, b, 0)

    def NOT(self, a):
        return self.ite(a, 0, 1)

    def XOR(self, a, b):
        return self.ite(a, self.NOT(b), b)

    # --- continuations: an unexpanded language is a variable of the BDDs
    def key(self, *t):
        while t[0] == "g":
            c = self.core.terms[t[1]]
            if c[0] == "e":
                return t[2]
            if c[0] == "mark" and t[3]:
                return t[2]
            if c[0] == "seq":
                t = ("g", c[1], self.key("g", c[2], t[2], t[3]), t[3])
                continue
            break
        k = self.keys.get(t)
        if k is None:
            k = self.keys[t] = len(self.kterms)
            self.kterms.append(t)
        return k

    def lang(self, k):
        return 1 if k == self.ALL else self.node(k, 1, 0)

    def start(self, e, whole=True):
        return self.lang(self.key("g", e, self.key("end", False) if whole else self.ALL, False))

    # --- derivatives
    def D(self, k, l):
        """the derivative of the language of a key"""
        if k == self.ALL:
            return 1
        r = self.dcache.get((k, l))
        if r is not None:
            return r
        if (k, l) in self.busy:
            raise GrammarError("a repetition of something that may be empty")
        self.busy.add((k, l))
        r = self._D(k, self.kterms[k], l)
        self.busy.discard((k, l))
        self.dcache[(k, l)] = r
        return r

    def _D(self, key, t, l):
        if t[0] in ("cal", "at"):
            return self._calls(t, l)
        mark = isinstance(l, tuple) and l[0] == "m"
        full, l = l, base(l)
        if t[0] == "end":
            return self.lang(key) if mark and t[1] else 0
        _, e, k, pred = t
        if mark and pred:
            return self.lang(key)
        c = self.core.terms[e]
        n = c[0]
        if n == "c":
            if mark:
                return 0
            if isinstance(l, str):
                if pred and k == self.ALL and l in self.starts and any(a <= ord(self.starts[l]) <= b for a, b in c[1]) and c[1] != ((0, MAXC),):
                    return 1
                return 0
            return self.lang(k) if l in self.member[c[1]] else 0
        if n == "letter":
            return self.lang(k) if c[1] == l else 0
        if n == "mark":
            return self.lang(k) if mark and c[1] == l[1] else 0
        if n == "eoi":
            return self.AND(self.D(self.key("end", pred), l), self.D(k, full))
        if n == "alt":
            a = self.D(self.key("g", c[1], k, pred), full)
            no = self.NOT(self.P(c[1], l))
            if no == 0:
                return a
            return self.OR(a, self.AND(self.D(self.key("g", c[2], k, pred), full), no))
        if n == "not":
            return self.AND(self.D(k, full), self.NOT(self.P(c[1], l)))
        if n == "star":
            go = self.D(self.key("g", c[1], self.key("g", e, k, pred), pred), full)
            return self.OR(go, self.AND(self.D(k, full), self.NOT(self.P(c[1], l))))
        raise GrammarError(n)

    # --- where the recursion goes on: ("cal", n, X, e) are the texts with a place (a letter marked n) at which the letter
    # X is tried while e is matched from the start; ("at", x, f, e) those in which the expression x is tried, while e
    # is matched, at a place from which the text is one of f
    def _calls(self, t, l):
        what, n, X, e = t
        c = self.core.terms[e]
        D = lambda y: self.D(self.key(what, n, X, y), l)
        k = c[0]
        if what == "at" and e == n:
            return self.deriv(X, l)
        if k == "letter":
            return 1 if what == "cal" and c[1] == X and isinstance(l, tuple) and l[:2] == ("•", n) else 0
        if k not in ("not", "seq", "alt", "star"):
            return 0
        goal = self.core.mk("letter", X) if what == "cal" else n
        a = c[1]
        r = D(a) if self.holds(a, goal) else 0
        if k == "alt" and self.holds(c[2], goal):
            r = self.OR(r, self.AND(self.NOT(self.P(a, l)), D(c[2])))
        b = e if k == "star" else c[2] if k == "seq" else None
        if b is not None and self.holds(b, goal):
            r = self.OR(r, self.D(self.key("g", a, self.key(what, n, X, b), True), l))
        return r

    def holds(self, e, goal):
        """is the term part of e"""
        r = self.parts.get((e, goal))
        if r is None:
            c = self.core.terms[e]
            r = e == goal or (c[0] in ("not", "seq", "alt", "star") and any(self.holds(x, goal) for x in c[1:]))
            self.parts[(e, goal)] = r
        return r

    def crossings(self, e, X):
        """[(term of e with two parts that both try the letter, kind, {(n, m): texts with n tried by the one and m by the other})]"""
        goal = self.core.mk("letter", X)
        seen, todo, out = set(), [e], []
        cal = lambda n, y: self.key("cal", n, X, y)
        while todo:
            x = todo.pop()
            if x in seen or not self.holds(x, goal):
                continue
            seen.add(x)
            c = self.core.terms[x]
            if c[0] not in ("not", "seq", "alt", "star"):
                continue
            todo += c[1:]
            if c[0] == "not":
                continue
            a, b = c[1], x if c[0] == "star" else c[2]
            if self.holds(a, goal) and self.holds(b, goal):
                if c[0] == "alt":
                    no = self.NOT(self.lang(self.key("g", a, self.ALL, True)))
                    f = lambda n, m: self.AND(self.AND(self.lang(cal(n, a)), self.lang(cal(m, b))), no)
                else:
                    f = lambda n, m: self.AND(self.lang(cal(n, a)), self.lang(self.key("g", a, cal(m, b), True)))
                out.append((x, c[0], {k: f(*k) for k in ((0, 0), (0, 1), (1, 0))}))
        return out

    def marked(self, f, stages, limit=200000):
        """(a shortest word of the language with one marked letter of each stage, in order, or None; states)"""
        seen = {(f, 0): None}
        layer = [(f, 0)]
        free = [l for l in self.letters if not (isinstance(l, tuple) and l[0] == "m")]
        while layer:
            nxt = []
            for x in layer:
                g, s = x
                if s == len(stages) and self.nullable(g):
                    w = []
                    while seen[x] is not None:
                        x, l = seen[x]
                        w.append(l)
                    return w[::-1], len(seen)
                step = [(l, s) for l in free]
                if s < len(stages):
                    step += [(("•", s, l), s + 1) for l in free if stages[s](l)]
                for l, z in step:
                    y = self.deriv(g, l)
                    if y == 0 or (y, z) in seen:
                        continue
                    seen[(y, z)] = (x, l)
                    nxt.append((y, z))
            if len(seen) > limit:
                raise GrammarError("more than %d states" % limit)
            layer = nxt
        return None, len(seen)

    def P(self, e, l):
        """the derivative of `a match of e begins here'; a mark does not change what is ahead"""
        k = self.key("g", e, self.ALL, True)
        l = base(l)
        return self.lang(k) if isinstance(l, tuple) else self.D(k, l)

    def deriv(self, f, l):
        if f < 2:
            return f
        k = ("f", f, l)
        r = self.dcache.get(k)
        if r is None:
            v, hi, lo = self.nodes[f]
            r = self.ite(self.D(v, l), self.deriv(hi, l), self.deriv(lo, l))
            self.dcache[k] = r
        return r

    def N(self, k):
        """does the language of the key contain the empty word"""
        if k == self.ALL:
            return True
        r = self.ncache.get(("k", k))
        if r is not None:
            return r
        if ("n", k) in self.busy:
            raise GrammarError("a repetition of something that may be empty")
        self.busy.add(("n", k))
        t = self.kterms[k]
        if t[0] == "end":
            r = True
        elif t[0] in ("cal", "at"):
            r = False  # the marked letter is still to come
        else:
            _, e, kk, pred = t
            c = self.core.terms[e]
            n = c[0]
            pn = lambda x: self.N(self.key("g", x, self.ALL, True))
            if n in ("c", "letter", "mark"):
                r = False
            elif n == "eoi":
                r = self.N(kk)
            elif n == "alt":
                r = self.N(self.key("g", c[1], kk, pred)) or (not pn(c[1]) and self.N(self.key("g", c[2], kk, pred)))
            elif n == "not":
                r = self.N(kk) and not pn(c[1])
            elif n == "star":
                r = not pn(c[1]) and self.N(kk)
        self.busy.discard(("n", k))
        self.ncache[("k", k)] = r
        return r

    def nullable(self, f):
        if f < 2:
            return f == 1
        r = self.ncache.get(f)
        if r is None:
            v, hi, lo = self.nodes[f]
            r = self.ncache[f] = self.nullable(hi if self.N(v) else lo)
        return r

    def witness(self, f, limit=200000):
        """(a shortest word of the language or None, states explored)"""
        seen = {f: None}
        layer = [f]
        while layer:
            nxt = []
            for x in layer:
                if self.nullable(x):
                    w = []
                    while seen[x] is not None:
                        x, l = seen[x]
                        w.append(l)
                    return w[::-1], len(seen)
                for l in self.letters:
                    y = self.deriv(x, l)
                    if y == 0 or y in seen:
                        continue
                    seen[y] = (x, l)
                    nxt.append(y)
            if len(seen) > limit:
                raise GrammarError("more than %d states" % limit)
            layer = nxt
        return None, len(seen)

    def show(self, w):
        out = []
        for l in w:
            if isinstance(l, int):
                out.append(chr(self.reps[l]))
            elif isinstance(l, tuple) and l[0] == "•":
                out.append("•" + self.show([l[2]]))
            elif isinstance(l, tuple):
                out.append({"end": "\u203a"}.get(l[1], "%s\u2039" % l[1]))
            else:
                out.append("\u00ab%s\u00bb" % l)
        return "".join(out)

    def word(self, text):
        """the letters of a text"""
        out = []
        for ch in text:
            o = ord(ch)
            for i, (a, b) in enumerate(self.bounds):
                if a <= o <= b:
                    # the letter of this interval
                    inn = tuple(s for s in sorted(self.member) if any(x <= a and b <= y for x, y in s))
                    for j in range(len(self.reps)):
                        if all((j in self.member[s]) == (s in inn) for s in self.member):
                            out.append(j)
                            break
                    break
        return out

    def accepts(self, f, text):
        for l in self.word(text):
            f = self.deriv(f, l)
        return self.nullable(f)


def base(l):
    """a letter without its mark"""
    return l[2] if isinstance(l, tuple) and l[0] == "•" else l


def pick(a, b):
    for r in (ord("a"), ord("x"), ord("A"), ord("5"), ord("%"), 0xE9):
        if a <= r <= b:
            return r
    if a <= 33 <= b:
        return 33
    return a


# ------------------------------------------------------------------ analysis
def calls(e):
    if e[0] == "call":
        yield e[1]
    elif e[0] in ("alt", "seq"):
        for x in e[1]:
            yield from calls(x)
    elif e[0] in ("not", "and", "star", "plus", "opt", "rep"):
        yield from calls(e[1])


def reachable(rules, root):
    seen, todo = set(), [root]
    for r in ("WHITESPACE", "COMMENT"):
        if r in rules:
            todo.append(r)
    while todo:
        r = todo.pop()
        if r in seen or r not in rules:
            continue
        seen.add(r)
        todo += calls(rules[r][1])
    return seen


def cyclic(rules, root, without=()):
    """a rule on a cycle that avoids the given rules, or None"""
    state = {}

    def go(r):
        if r in without or r not in rules:
            return None
        if state.get(r) == 1:
            return r
        if state.get(r) == 2:
            return None
        state[r] = 1
        for x in calls(rules[r][1]):
            y = go(x)
            if y is not None:
                return y
        state[r] = 2
        return None

    return go(root)


def first_char(rules, e, seen=()):
    """the one character every match of e begins with, or None"""
    k = e[0]
    if k in ("lit", "ilit"):
        return e[1][:1] or None
    if k == "seq":
        return first_char(rules, e[1][0], seen)
    if k == "alt":
        r = {first_char(rules, x, seen) for x in e[1]}
        return r.pop() if len(r) == 1 else None
    if k == "plus":
        return first_char(rules, e[1], seen)
    if k == "call" and e[1] in rules and e[1] not in seen:
        return first_char(rules, rules[e[1]][1], seen + (e[1],))
    return None
