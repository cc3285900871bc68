"""Loop closing.

 iteration 0 is analysed on its own; iterations n >= 1 are analysed once from a
 generalised head state in which every integer advances affinely with n and every
 string / sequence / event trace is `what was there after iteration 0` followed by
 a `range` term.  What one generic iteration appends (per path, with the facts the
 path learnt about the current element as guards) becomes the body of the range.
"""
from .terms import *


class CannotMerge(Exception):
    pass


def has_prefix(old, new):
    """new = old ++ delta ?  (pieces or parts).  returns delta or None"""
    n = len(old)
    if new[:n] == old:
        return new[n:]
    if n and len(new) >= n and new[: n - 1] == old[: n - 1]:
        a, b = old[n - 1], new[n - 1]
        if a[0] == "lit" and b[0] == "lit" and b[1].startswith(a[1]):
            return (("lit", b[1][len(a[1]):]),) + new[n:]
    return None


class Again(Exception):
    """the loop assigns to these places instead of appending to them"""


class LoopRunner:
    def __init__(self, I, inst, fid, head, blocks):
        self.I = I
        self.inst = inst
        self.fid = fid
        self.head = head
        self.blocks = blocks
        self.lid = (fid, head)
        self.n = sym(("n", self.lid))
        self.k = sym(("k", self.lid))
        self.assigned = set()
        self.chosen = False

    def iterate(self, st):
        if not self.chosen:
            return self.I.walk(self.inst, self.fid, self.head, st, (self.head, self.blocks))
        backs, exits = [], []
        for s in self.expand(st):
            b, e = self.I.walk(self.inst, self.fid, self.head, s, (self.head, self.blocks))
            backs += b
            exits += e
        return backs, exits

    def expand(self, st):
        """one state for each outcome of the tests that decided the values carried from the round before"""
        for c, v in st.mem.items():
            f = first_choice(v)
            if f is None:
                continue
            out = []
            for s, b in self.I.split(st, f):
                s = s.copy()
                s.mem = {d: choose(w, f, b) for d, w in s.mem.items()}
                out += self.expand(s)
            return out
        return [st]

    def run(self, st0):
        for _ in range(4):
            try:
                return self.run0(st0)
            except Again as e:
                self.assigned |= e.args[0]
        raise_abort("the values carried around the loop in %s do not settle" % self.inst["s"])

    def run0(self, st0):
        self.failed = set()
        st0 = self.clean(st0)
        exits = []
        backs, ex = self.iterate(st0)
        exits += ex
        backs = [self.clean(b) for b in backs]
        its = iterators(st0)
        backs, again = self.passed(st0, backs)
        rest = []
        for b in backs:
            (again if its and self.shrunk(its, iterators(b)) else rest).append(b)
        known = [set(self.split_facts(st0, b, lin(0))[1]) for b in rest]
        self.first = set.intersection(*known) if known else set()
        for s1 in self.group(st0, rest, lin(0)):
            exits += self.from_one(st0, s1, 0)
        for b in again:
            # elements that are known one by one are gone through one by one
            exits += self.run(b)
        return exits

    def shrunk(self, a, b):
        for loc, p in a.items():
            q = b.get(loc)
            if p and p[0][0] == "e" and len(p) <= 24 and q is not None and len(q) < len(p) and p[len(p) - len(q):] == q:
                return True
        return False

    def passed(self, a, bs):
        """[states that are still in the first part of an iterator, states that went on to the parts after it]"""
        its = {loc: p for loc, p in iterators(a).items() if len(p) > 1 and p[0][0] in ("list", "range")}
        if not its:
            return bs, []
        stay, on = [], []
        for b in bs:
            now = iterators(b)
            gone = any(loc in now and len(now[loc]) < len(p) - 1 and p[len(p) - len(now[loc]):] == now[loc] for loc, p in its.items())
            (on if gone else stay).append(b)
        return stay, on

    def clean(self, st):
        """drop locals which are dead at the loop head"""
        live = self.live()
        s = None
        for c in st.mem:
            if isinstance(c, tuple) and c[0] == self.fid and isinstance(c[1], int) and c[1] not in live:
                if s is None:
                    s = st.copy()
                del s.mem[c]
            elif isinstance(c, tuple) and c[0] == "T" and c[1] == self.fid:
                if s is None:
                    s = st.copy()
                del s.mem[c]
        return s or st

    _live_cache = {}

    def live(self):
        key = (id(self.inst), self.head)
        if key in self._live_cache:
            return self._live_cache[key]
        body = self.inst["body"]
        from .mir import succs

        bbs = body["bbs"]
        use = [set() for _ in bbs]
        dfn = [set() for _ in bbs]
        borrowed = set()

        def u_place(p, U, D):
            if p[0] not in D:
                U.add(p[0])
            for e in p[1]:
                if e[0] == "ix" and e[1] not in D:
                    U.add(e[1])

        def u_op(o, U, D):
            if o[0] in ("copy", "move"):
                u_place(o[1], U, D)

        for i, b in enumerate(bbs):
            if b["c"]:
                continue
            U, D = use[i], dfn[i]
            for s in b["s"]:
                if s[0] == "=":
                    r = s[2]
                    if r[0] in ("use", "repeat"):
                        u_op(r[1], U, D)
                    elif r[0] == "ref":
                        u_place(r[2], U, D)
                        if not any(e[0] == "*" for e in r[2][1]):
                            borrowed.add(r[2][0])
                    elif r[0] == "discr":
                        u_place(r[1], U, D)
                    elif r[0] == "bin":
                        u_op(r[2], U, D)
                        u_op(r[3], U, D)
                    elif r[0] in ("un", "cast"):
                        u_op(r[2], U, D)
                    elif r[0] == "agg":
                        for o in r[2]:
                            u_op(o, U, D)
                    if s[1][1]:
                        u_place(s[1], U, D)
                    else:
                        D.add(s[1][0])
                elif s[0] in ("dead", "live"):
                    D.add(s[1])
            t = b["t"]
            if t[0] == "switch":
                u_op(t[1], U, D)
            elif t[0] == "call":
                for o in t[2]:
                    u_op(o, U, D)
                if t[1][0] == "dyn":
                    u_op(t[1][1], U, D)
                if t[3][1]:
                    u_place(t[3], U, D)
                else:
                    D.add(t[3][0])
            elif t[0] == "assert":
                u_op(t[1], U, D)
            elif t[0] == "drop":
                u_place(t[1], U, D)
            elif t[0] == "return":
                if 0 not in D:
                    U.add(0)
        inn = [set() for _ in bbs]
        ch = True
        while ch:
            ch = False
            for i in range(len(bbs) - 1, -1, -1):
                if bbs[i]["c"]:
                    continue
                out = set()
                for s in succs(bbs[i]["t"]):
                    out |= inn[s]
                n = use[i] | (out - dfn[i])
                if n != inn[i]:
                    inn[i] = n
                    ch = True
        r = set(inn[self.head]) | borrowed
        self._live_cache[key] = r
        return r

    # ------------------------------------------------------------- grouping
    def is_iter_fact(self, f, idx):
        """does the fact talk about the element(s) of iteration idx?"""
        if f[0] == "ge0":
            return False
        for x in walk(f):
            if len(x) == 2 and x[0] == "ix" and isinstance(x[1], tuple):
                if isconst(idx) and isconst(x[1]):
                    if x[1] == idx:
                        return True
                elif not isconst(idx) and mentions(x[1], {s for s, _ in idx[2]}):
                    return True
        if not isconst(idx) and mentions(f, {s for s, _ in idx[2]}):
            return True
        return False

    def split_facts(self, head, b, idx):
        inv, it = {}, []
        for f, v in b.facts.items():
            if f in head.facts:
                continue
            if self.is_iter_fact(f, idx):
                it.append((f, v))
            else:
                inv[f] = v
        return inv, tuple(sorted(it, key=repr))

    def group(self, head, backs, idx):
        """merge the back-edge states of one iteration where only appended material and
        element facts differ; returns the merged states"""
        groups = []
        for b in backs:
            inv, it = self.split_facts(head, b, idx)
            groups.append([b, inv, it])
        # partition by invariant facts
        parts = {}
        for b, inv, it in groups:
            parts.setdefault(tuple(sorted(inv.items(), key=repr)), []).append((b, it))
        out = []
        for inv, items in parts.items():
            rest = items
            while rest:
                cur, later = [rest[0]], []
                for x in rest[1:]:
                    try:
                        self.merge(head, cur + [x], dict(inv), idx)
                        cur.append(x)
                    except CannotMerge:
                        later.append(x)
                out.append(self.merge(head, cur, dict(inv), idx))
                rest = later
        return out

    def merge(self, head, items, inv, idx):
        s = St_copy(head)
        s.facts.update(inv)
        guards = [it for _, it in items]
        states = [b for b, _ in items]
        cells = set(states[0].mem)
        for b in states[1:]:
            cells &= set(b.mem)
        s.mem = {}
        for c in cells:
            s.mem[c] = self.mergeval(head.mem.get(c, ("uninit",)), [b.mem[c] for b in states], guards, idx, (c,))
        s.ev = self.mergeparts(head.ev, [b.ev for b in states], guards, idx)
        return s

    def mergeparts(self, old, news, guards, idx):
        if all(n == news[0] for n in news):
            return news[0]
        ds = [has_prefix(old, n) for n in news]
        if any(d is None for d in ds):
            raise CannotMerge()
        alts = tuple(dedupe([(g, d) for g, d in zip(guards, ds)]))
        return old + (("range", self.lid, idx, ladd(idx, lin(1)), alts),)

    def mergeval(self, old, news, guards, idx, loc):
        a = news[0]
        if all(n == a for n in news):
            return a
        if loc in self.assigned:
            return self.choice(news, guards)
        if a[0] in ("S", "seq") and all(n[0] == a[0] for n in news):
            o = old[1] if old[0] == a[0] else ()
            try:
                return (a[0], self.mergeparts(o, [n[1] for n in news], guards, idx))
            except CannotMerge:
                if a[0] == "S":
                    self.failed.add(loc)
                raise
        if a[0] in ("agg", "tup", "clo", "box", "iter", "cmd") and all(n[0] == a[0] and len(n) == len(a) for n in news):
            return self.mergetuple(old, news, guards, idx, loc)
        if all(n[0] in ("b", "cond") for n in news):
            return self.choice(news, guards)
        raise CannotMerge()

    def mergetuple(self, old, news, guards, idx, loc):
        a = news[0]
        out = []
        for i, x in enumerate(a):
            xs = [n[i] for n in news]
            if all(y == x for y in xs):
                out.append(x)
                continue
            o = old[i] if isinstance(old, tuple) and len(old) == len(a) and old[0] == a[0] else None
            if not isinstance(x, tuple):
                raise CannotMerge()
            if x and isinstance(x[0], str):
                out.append(self.mergeval(o if isinstance(o, tuple) else ("uninit",), xs, guards, idx, loc + (i,)))
            else:
                if any(len(y) != len(x) for y in xs):
                    raise CannotMerge()
                fs = []
                for j in range(len(x)):
                    oj = o[j] if isinstance(o, tuple) and len(o) == len(x) else ("uninit",)
                    fs.append(self.mergeval(oj, [y[j] for y in xs], guards, idx, loc + (i, j)))
                out.append(tuple(fs))
        return tuple(out)

    def choice(self, news, guards):
        """the value as a decision over the facts that tell the paths apart"""
        if any(not isinstance(v, bool) or f[0] not in ("p", "seq", "symb", "eq0") for g in guards for f, v in g):
            raise CannotMerge()
        items = []
        for g, n in zip(guards, news):
            if n[0] != "cond":
                items.append((dict(g), n))
                continue
            f, yes = n[1], True
            while f[0] == "not":
                f, yes = f[1], not yes
            if f[0] not in ("p", "seq", "symb", "eq0"):
                raise CannotMerge()
            items += [(dict(g) | {f: b}, ("b", b is yes)) for b in (True, False)]
        v = decision(items)
        if v is None or depth_of(v) > 5:
            raise CannotMerge()
        if v[0] == "ite":
            self.chosen = True
        return v

    # ------------------------------------------------------- generic iteration
    def from_one(self, st0, s1, depth):
        I = self.I
        if depth > 6:
            raise_abort("loop partitioning does not converge in %s" % self.inst["s"])
        backs, ex = self.iterate(s1)
        backs = [self.clean(b) for b in backs]
        # rounds on the parts after the one the loop goes through: the general state has them too
        backs, on = self.passed(s1, backs)
        if not backs:
            for b in on:
                ex = ex + self.run(b)
            return ex
        # split on loop-invariant facts first discovered here
        s2s = self.group(s1, backs, lin(1))
        if self.failed - self.assigned:
            raise Again(self.failed - self.assigned)
        for s2 in s2s:
            new = [f for f in s2.facts if f not in s1.facts and not (f[0] == "ge0")]
            if new:
                f = sorted(new, key=repr)[0]
                out = []
                vals = sorted({repr(x.facts.get(f)): x.facts.get(f) for x in s2s}.items())
                if isinstance(s2.facts[f], bool):
                    vals = [True, False]
                else:
                    vals = [v for _, v in vals if v is not None]
                for v in vals:
                    if isinstance(v, bool) and f[0] not in ("var",):
                        sv = I.assume(s1, f, v)
                        if sv is None:
                            continue
                        if f not in sv.facts:
                            sv = St_copy(sv)
                            sv.facts[f] = v
                    else:
                        sv = St_copy(s1)
                        sv.facts[f] = v
                    out += self.from_one(st0, sv, depth + 1)
                return out
        wid = set()
        self.last = {}
        for attempt in range(8):
            self.ctr = 0
            self.acc = {}
            g = self.generalise(s1, s2s[0], wid)
            if attempt == 0:
                for x in s2s[1:]:
                    self.check_same_shape(g, x, wid)
                if wid:
                    self.ctr = 0
                    self.acc = {}
                    g = self.generalise(s1, s2s[0], wid)
            outer, I.wanted_last = I.wanted_last, set()
            gb, gex = self.iterate(g)
            gb = [self.clean(b) for b in gb]
            gb, on = self.passed(g, gb)
            wanted = I.wanted_last - set(self.last)
            I.wanted_last = outer | I.wanted_last
            if wanted and self.find_last(g, gb, wanted):
                self.ctr = 0
                self.acc = {}
                g = self.generalise(s1, s2s[0], wid)
                gb, gex = self.iterate(g)
                gb = [self.clean(b) for b in gb]
                gb, on = self.passed(g, gb)
            extra = self.bounds(g, s1, gb, wid)
            if extra:
                # what the loop test establishes on every iteration also holds after it
                g = g.copy()
                for q in extra:
                    g.facts[q] = True
                self.cands = self.cands + extra
                gb, gex = self.iterate(g)
                gb = [self.clean(b) for b in gb]
                gb, on = self.passed(g, gb)
            bad = set()
            accs = {}
            # what the paths know about the number of the round, where they differ in it
            tests = [{f for f, v in b.facts.items() if f[0] == "ge0" and v is True and f not in g.facts and mentions(f, {("n", self.lid)})} for b in gb]
            common = set.intersection(*tests) if tests else set()
            rounds = []
            every = None
            for b, ts in zip(gb, tests):
                inv, it = self.split_facts(g, b, self.n)
                every = set(it) if every is None else every & set(it)
                n = {k: len(v) for k, v in accs.items()}
                self.verify(g, b, it, bad, accs)
                extra_ = tuple(sorted(((f, True) for f in ts - common), key=repr))
                for k, v in accs.items():
                    rounds += [(k, extra_)] * (len(v) - n.get(k, 0))
            if not bad:
                break
            wid |= bad
        else:
            raise_abort("no stable loop state in %s (bb%d)" % (self.inst["s"], self.head))
        # fill the placeholders
        fill = {}
        for key, alts in accs.items():
            atk = {("n", self.lid): self.k}
            more = [x for k_, x in rounds if k_ == key]
            if not any(d != d2 and not excluded(g_, g2) for g_, d in alts for g2, d2 in alts):
                more = [()] * len(alts)
            a2 = dedupe([(tuple((subst(self.sofar(f, key), atk), v) for f, v in g_ + x), subst_parts(d, atk)) for (g_, d), x in zip(alts, more)])
            fill[key] = tuple(a2)
        for key in self.acc:
            fill.setdefault(key, ())
        out = []
        every = self.everywhere(every or ())
        for e in gex:
            st = e[-1]
            if every:
                st = St_copy(st)
                for f in every:
                    st.facts[("all", self.n, f)] = True
            st = self.finish(st, fill)
            if st is None:
                continue
            out.append(e[:-1] + (st,))
        for b in on:
            st = self.finish(b, fill)
            if st is not None:
                out += self.run(st)
        return out

    def sofar(self, f, key):
        """in the tests before a piece that is appended: the text itself, as it was before the piece"""
        if not isinstance(f, tuple):
            return f
        if f and self.acc.get(key) == f[:-1]:
            r = f[-1]
            if isinstance(r, tuple) and len(r) == 5 and r[0] == "range" and r[1] == self.lid and r[3] == self.n and isinstance(r[4], tuple) and r[4][:2] == ("?", key):
                return (("sofar",),)
        return tuple(self.sofar(x, key) for x in f)

    def everywhere(self, facts):
        """what every round before found equal, as facts about element k"""
        out = []
        nsym = ("n", self.lid)
        for f, v in facts:
            same = f[0] == "p" and (f[1] == "same" or len(f) == 2 and isinstance(f[1], tuple) and f[1][:2] == ("op", "same"))
            if same and v is True and (subst(f, {nsym: lin(0)}), v) in self.first:
                out.append(subst(f, {nsym: self.k}))
        return sorted(out, key=repr)

    def find_last(self, g, gb, wanted):
        """the piece every round appends last"""
        accs = {}
        for b in gb:
            inv, it = self.split_facts(g, b, self.n)
            self.verify(g, b, it, set(), accs)
        hit = False
        for loc in wanted:
            ends = {d[-1] if d else None for _, d in accs.get(loc, [])}
            if len(ends) == 1 and None not in ends:
                self.last[loc] = subst(ends.pop(), {("n", self.lid): self.k})
                hit = True
        return hit

    def bounds(self, g, s1, gb, wid):
        """facts learnt about the counter by every continuing path, one iteration later"""
        if not gb:
            return []
        nsym = ("n", self.lid)
        back = {nsym: ladd(self.n, lin(-1))}
        one = {nsym: lin(1)}
        out = []
        for f, v in gb[0].facts.items():
            if f[0] != "ge0" or v is not True or f in g.facts or not any(s == nsym for s, _ in f[1][2]):
                continue
            if not all(f in b.facts for b in gb[1:]):
                continue
            q = ("ge0", subst(f[1], back))
            if q in g.facts or ("fact", q) in wid or self.I.ge0(g, q[1]):
                continue
            if self.I.ge0(s1, subst(q[1], one)):
                out.append(q)
        return out

    def finish(self, st, fill):
        s = map_state(st, lambda t: fill_terms(t, self.lid, fill))
        # eliminate the iteration counter where the exit pins it
        nsym = ("n", self.lid)
        if not mentions_state(s, nsym):
            return s
        for f, v in list(s.facts.items()):
            if f[0] != "ge0" or v is not True:
                continue
            l = f[1]
            c = dict(l[2]).get(nsym)
            if c is None or abs(c) != 1:
                continue
            if self.I.ge0(s, lneg(l)):
                # l == 0  ->  n = -(l - c n)/c
                rest = ladd(l, ("lin", 0, ((nsym, c),)), -1)
                n = lscale(rest, -c)
                s = map_state(s, lambda t: subst(t, {nsym: n}))
                s = map_state(s, lambda t: self.tidy(s, t))
                s.facts = {
                    f2: v2
                    for f2, v2 in s.facts.items()
                    if not (f2[0] == "ge0" and isconst(f2[1]))
                }
                s.facts[("ge0", ladd(n, lin(-1)))] = True
                return s
        # not determined: give it a name of its own
        self.I.fresh += 1
        fr = sym(("nx", self.lid, self.I.fresh))
        s = map_state(s, lambda t: subst(t, {nsym: fr}))
        s.facts[("ge0", ladd(fr, lin(-1)))] = True
        return s

    def tidy(self, st, t):
        """guards that the bounds of the repetition decide; a last iteration unlike the others is set apart"""
        if not isinstance(t, tuple):
            return t
        out = None
        for i, x in enumerate(t):
            if isinstance(x, tuple):
                if len(x) == 5 and x[0] == "range" and x[1] == self.lid and isinstance(x[4], tuple) and not (x[4] and x[4][0] == "?"):
                    y = self.bounded(st, x)
                else:
                    y = self.tidy(st, x)
                    y = (y,)
                if y != (x,):
                    if out is None:
                        out = list(t[:i])
                    out += y
                    continue
            if out is not None:
                out.append(x)
        return tuple(out) if out is not None else t

    def bounded(self, st, r):
        if not any(g[0] in ("ge0", "eq0") for gs, _ in r[4] for g, _ in gs):
            return (r,)
        k = sym(("k", self.lid))

        def within(lo, hi):
            s = st.copy()
            s.facts[("ge0", lsub(k, lo))] = True
            s.facts[("ge0", ladd(lsub(hi, k), lin(-1)))] = True
            alts = []
            for gs, b in r[4]:
                keep = []
                for g, v in gs:
                    d = self.I.decide(s, g) if g[0] in ("ge0", "eq0") and isinstance(v, bool) else None
                    if d is None:
                        keep.append((g, v))
                    elif d != v:
                        keep = None
                        break
                if keep is not None:
                    alts.append((tuple(keep), b))
            return tuple(dedupe(alts))

        open_ = lambda alts: any(g[0] in ("ge0", "eq0") and mentions(g, {("k", self.lid)}) for gs, _ in alts for g, _ in gs)
        alts = within(r[2], r[3])
        if open_(alts) and self.I.ge0(st, ladd(lsub(r[3], r[2]), lin(-1))):
            last = ladd(r[3], lin(-1))
            a, b = within(r[2], last), within(last, r[3])
            if not open_(a) and not open_(b):
                if len(b) == 1 and not b[0][0]:
                    end = subst(b[0][1], {("k", self.lid): last})
                else:
                    end = (("range", r[1], last, r[3], b),)
                return (("range", r[1], r[2], last, a),) + tuple(end)
        return (r[:4] + (alts,),)

    def generalise(self, s1, s2, wid):
        g = St_copy(s1)
        g.mem = {}
        for c in s1.mem:
            if c in s2.mem:
                g.mem[c] = self.au(s1.mem[c], s2.mem[c], (c,), wid)
        g.ev = self.au_parts(s1.ev, s2.ev, ("ev",), wid)
        # bounds that advance with n
        for f, v in s1.facts.items():
            if f[0] == "ge0" and v is True and f not in s2_dropped(f):
                pass
        for f in list(s2.facts):
            if f[0] == "ge0" and f not in s1.facts:
                # ge0(l) holds after iteration 1; ge0(l+1) held after iteration 0?
                h = ("ge0", ladd(f[1], lin(1)))
                if h in s1.facts or self.I.ge0(s1, h[1]):
                    q = ("ge0", ladd(ladd(f[1], lin(2)), self.n, -1))
                    if ("fact", q) not in wid:
                        g.facts[q] = True
        self.cands = [q for q in g.facts if q not in s1.facts]
        return g

    def au(self, a, b, loc, wid):
        if loc in wid:
            return ("op", "mix", ((repr(loc), self.lid),))
        if a == b:
            if a[0] in ("S", "seq") and ("acc",) + loc in wid:
                return (a[0], self.au_parts(a[1], b[1], loc, wid))
            return a
        if a[0] == "lin" and b[0] == "lin":
            d = lsub(b, a)
            if isconst(d):
                # a + d*(n-1)
                return ladd(ladd(a, lscale(self.n, d[1])), lin(-d[1]))
            return ("op", "mix", ((repr(loc), self.lid),))
        if a[0] == "ite" and b[0] == "ite" and a[1][0] == b[1][0] and len(a[1]) == len(b[1]):
            f = a[1][:1] + tuple(self.au_struct(x, y, loc + (i,), wid) for i, (x, y) in enumerate(zip(a[1][1:], b[1][1:])))
            return ("ite", f, self.au(a[2], b[2], loc + (2,), wid), self.au(a[3], b[3], loc + (3,), wid))
        if a[0] in ("S", "seq") and b[0] == a[0]:
            return (a[0], self.au_parts(a[1], b[1], loc, wid))
        if a and b and a[0] == b[0] and len(a) == len(b) and a[0] not in ("op",):
            return self.au_tuple(a, b, loc, wid)
        return ("op", "mix", ((repr(loc), self.lid),))

    def au_tuple(self, a, b, loc, wid):
        out = []
        for i, (x, y) in enumerate(zip(a, b)):
            if x == y:
                out.append(x)
            elif isinstance(x, tuple) and isinstance(y, tuple):
                if x and isinstance(x[0], str) and not (a[0] in ("sym", "ref") and x[0] not in ("K",)):
                    out.append(self.au(x, y, loc + (i,), wid))
                elif len(x) == len(y):
                    out.append(self.au_struct(x, y, loc + (i,), wid))
                else:
                    return ("op", "mix", ((repr(loc), self.lid),))
            else:
                return ("op", "mix", ((repr(loc), self.lid),))
        return tuple(out)

    def au_struct(self, x, y, loc, wid):
        """structural anti-unification of arbitrary tuples (paths, field lists)"""
        if x == y:
            return x
        if isinstance(x, tuple) and isinstance(y, tuple):
            if x and y and x[0] == "lin" and y[0] == "lin" and len(x) == 3:
                d = lsub(y, x)
                if isconst(d):
                    return ladd(ladd(x, lscale(self.n, d[1])), lin(-d[1]))
                return x
            if x and isinstance(x[0], str) and x[0] in ("S", "seq", "agg", "tup", "clo", "box", "iter", "cmd"):
                return self.au(x, y, loc, wid)
            if len(x) == len(y):
                return tuple(self.au_struct(p, q, loc + (i,), wid) for i, (p, q) in enumerate(zip(x, y)))
        return ("op", "mix", ((repr(loc), self.lid),))

    def au_parts(self, a, b, loc, wid):
        d = has_prefix(a, b)
        if d is None:
            # same length, differing inside
            if len(a) == len(b):
                return tuple(self.au_struct(x, y, loc + (i,), wid) for i, (x, y) in enumerate(zip(a, b)))
            return (("op", "mix", ((repr(loc), self.lid),)),)
        if not d and ("acc",) + loc not in wid:
            return a
        self.acc[loc] = a
        # number of elements appended per iteration, if uniform
        cnt = None
        if all(p[0] == "e" for p in d):
            cnt = len(d)
        elif len(d) == 1 and d[0][0] == "range" and isinstance(d[0][4], tuple):
            ls = {len(x[1]) for x in d[0][4] if all(q[0] == "e" for q in x[1])}
            if len(ls) == 1 and all(all(q[0] == "e" for q in x[1]) for x in d[0][4]):
                cnt = ls.pop()
        ph = ("?", loc, cnt)
        if loc in self.last:
            ph += (self.last[loc],)
        return a + (("range", self.lid, lin(1), self.n, ph),)

    def check_same_shape(self, g, s, wid):
        m = {("n", self.lid): lin(2)}
        for c, v in g.mem.items():
            if c not in s.mem:
                continue
            self.compare(subst(v, m), s.mem[c], (c,), wid)

    def compare(self, want, got, loc, wid):
        """record locations where a second path disagrees with the generalisation"""
        if want == got:
            return
        if want[0] in ("S", "seq") and got[0] == want[0]:
            base = self.acc.get(loc)
            if base is not None and has_prefix(base, got[1]) is not None:
                return
            d = has_prefix(want[1], got[1])
            if d is not None:
                wid.add(("acc",) + loc)
            else:
                wid.add(loc)
            return
        if want[0] in ("agg", "tup", "clo", "box", "iter", "cmd") and got[0] == want[0] and len(want) == len(got):
            for i, (x, y) in enumerate(zip(want, got)):
                if x == y:
                    continue
                if isinstance(x, tuple) and isinstance(y, tuple) and len(x) == len(y) and x and not isinstance(x[0], str):
                    for j, (p, q) in enumerate(zip(x, y)):
                        if p != q:
                            if isinstance(p, tuple) and isinstance(q, tuple):
                                self.compare(p, q, loc + (i, j), wid)
                            else:
                                wid.add(loc)
                elif isinstance(x, tuple) and isinstance(y, tuple) and x and y and isinstance(x[0], str):
                    self.compare(x, y, loc + (i,), wid)
                else:
                    wid.add(loc)
            return
        if want[0] == "op" and want[1] == "mix":
            return
        wid.add(loc)

    def verify(self, g, b, it, bad, accs):
        m = {("n", self.lid): ladd(self.n, lin(1))}
        self.state = b
        for c, v in g.mem.items():
            if c not in b.mem:
                continue
            self.verify_val(v, b.mem[c], (c,), m, it, bad, accs)
        self.verify_parts(g.ev, b.ev, ("ev",), m, it, bad, accs)
        for q in self.cands:
            if q[0] == "ge0":
                if not self.I.ge0(b, subst(q[1], m)):
                    bad.add(("fact", q))

    def verify_parts(self, gp, bp, loc, m, it, bad, accs):
        if loc in self.acc:
            d = has_prefix(gp, bp)
            if d is None:
                bad.add(loc)
            else:
                accs.setdefault(loc, []).append((it, d))
            return
        want = subst_parts(gp, m)
        if want != bp:
            if has_prefix(gp, bp) is not None:
                bad.add(("acc",) + loc)
            else:
                bad.add(loc)

    def verify_val(self, v, w, loc, m, it, bad, accs):
        if v[0] == "ite" and w[0] != "ite":
            cases = [(s, ("b", b)) for s, b in self.I.split(self.state, w[1])] if w[0] == "cond" else [(self.state, w)]
            for s, x in cases:
                y = v
                while y[0] == "ite":
                    d = self.I.decide(s, subst_fact(y[1], m))
                    if d is None:
                        bad.add(loc)
                        return
                    y = y[2] if d else y[3]
                self.verify_val(y, x, loc, m, it, bad, accs)
            return
        if v[0] in ("S", "seq"):
            if w[0] != v[0]:
                bad.add(loc)
                return
            self.verify_parts(v[1], w[1], loc, m, it, bad, accs)
            return
        if v[0] == "op" and v[1] == "mix":
            return
        if v[0] in ("agg", "tup", "clo", "box", "iter", "cmd") and w[0] == v[0] and len(v) == len(w):
            for i, (x, y) in enumerate(zip(v, w)):
                if isinstance(x, tuple) and isinstance(y, tuple):
                    if x and isinstance(x[0], str):
                        self.verify_val(x, y, loc + (i,), m, it, bad, accs)
                    elif len(x) == len(y):
                        for j, (p, q) in enumerate(zip(x, y)):
                            if isinstance(p, tuple) and isinstance(q, tuple):
                                self.verify_val(p, q, loc + (i, j), m, it, bad, accs)
                            elif p != q:
                                bad.add(loc)
                    else:
                        bad.add(loc)
                elif x != y:
                    bad.add(loc)
            return
        if subst(v, m) != w:
            bad.add(loc)


def decision(items):
    """a tree of tests over [(facts, value)], or None when the facts do not tell the values apart"""
    if not items:
        return None
    if all(v == items[0][1] for _, v in items):
        return items[0][1]
    best = None
    for f in sorted(set.intersection(*(set(g) for g, _ in items)), key=repr):
        sides = [decision([({x: y for x, y in g.items() if x != f}, v) for g, v in items if g[f] is b]) for b in (True, False)]
        if sides[0] == sides[1] and sides[0] is not None:
            return sides[0]
        if best is None and None not in sides:
            best = ("ite", f) + tuple(sides)
    return best


def depth_of(v):
    return 1 + max(depth_of(v[2]), depth_of(v[3])) if v[0] == "ite" else 0


def first_choice(v):
    if not isinstance(v, tuple) or not v:
        return None
    if v[0] == "ite":
        return v[1]
    if v[0] in ("agg", "tup", "clo", "box"):
        for x in v[1:]:
            if isinstance(x, tuple):
                for y in (x,) if x and isinstance(x[0], str) else x:
                    f = first_choice(y)
                    if f is not None:
                        return f
    return None


def choose(v, f, b):
    if not isinstance(v, tuple) or not v:
        return v
    if v[0] == "ite":
        if v[1] == f:
            return choose(v[2] if b else v[3], f, b)
        return ("ite", v[1], choose(v[2], f, b), choose(v[3], f, b))
    if v[0] in ("agg", "tup", "clo", "box"):
        return tuple(
            x if not isinstance(x, tuple) else choose(x, f, b) if x and isinstance(x[0], str) else tuple(choose(y, f, b) for y in x)
            for x in v
        )
    return v


def subst_fact(f, m):
    return f[:1] + tuple(subst(x, m) for x in f[1:])


def excluded(g, h):
    """do two guards contradict each other?"""
    h = dict(h)
    return any(f in h and h[f] != v for f, v in g)


def iterators(st):
    """the iterators in the memory, by where they are"""
    out = {}

    def go(v, loc, d):
        if not isinstance(v, tuple) or d > 6:
            return
        if len(v) == 3 and v[0] == "iter":
            out[loc] = v[2]
            return
        if v and v[0] in ("agg", "tup", "clo", "box"):
            for i, x in enumerate(v[1:]):
                if isinstance(x, tuple):
                    if x and isinstance(x[0], str):
                        go(x, loc + (i,), d + 1)
                    else:
                        for j, y in enumerate(x):
                            go(y, loc + (i, j), d + 1)

    for c, v in st.mem.items():
        go(v, (c,), 0)
    return out


def s2_dropped(f):
    return ()


def raise_abort(msg):
    from .interp import Abort

    raise Abort(msg)


def St_copy(s):
    return s.copy()


def dedupe(xs):
    out = []
    for x in xs:
        if x not in out:
            out.append(x)
    return out


def subst_parts(ps, m):
    r = tuple(subst(p, m) for p in ps)
    return r


def fill_terms(t, lid, fill):
    """replace range placeholders ("?", loc, cnt) of loop lid by their alternatives"""
    if not isinstance(t, tuple):
        return t
    if len(t) == 5 and t[0] == "range" and t[1] == lid and isinstance(t[4], tuple) and len(t[4]) in (3, 4) and t[4][0] == "?":
        return ("range", lid, fill_terms(t[2], lid, fill), fill_terms(t[3], lid, fill), fill.get(t[4][1], ()))
    out = None
    for i, x in enumerate(t):
        if isinstance(x, tuple):
            y = fill_terms(x, lid, fill)
            if y is not x:
                if out is None:
                    out = list(t)
                out[i] = y
    return tuple(out) if out is not None else t


def map_state(st, f):
    s = st.copy()
    s.mem = {c: f(v) for c, v in s.mem.items()}
    s.facts = {f(k): v for k, v in s.facts.items()}
    s.ev = f(s.ev)
    return s


def mentions_state(s, symb):
    ss = {symb}
    return (
        any(mentions(v, ss) for v in s.mem.values())
        or any(mentions(k, ss) for k in s.facts)
        or mentions(s.ev, ss)
    )
