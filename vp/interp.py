"""Path-partitioned abstract interpreter over exported MIR.

Nothing of the analysed program is executed and no solver is involved: the
interpreter propagates abstract values (vp.terms) through the control-flow
graph, partitions states by the outcome of branches, and closes every loop with
a widening that turns "what one generic iteration appends" into a range term.
"""
from .terms import *
from .mir import Prog


class Abort(Exception):
    pass


class St:
    __slots__ = ("mem", "facts", "ev")

    def __init__(self, mem=None, facts=None, ev=()):
        self.mem = mem if mem is not None else {}
        self.facts = facts if facts is not None else {}
        self.ev = ev

    def copy(self):
        return St(dict(self.mem), dict(self.facts), self.ev)

    def key(self):
        return (
            tuple(sorted(self.mem.items(), key=repr)),
            tuple(sorted(self.facts.items(), key=repr)),
            self.ev,
        )


def norm_eq0(l):
    # canonical sign
    if l[2]:
        if l[2][0][1] < 0:
            return lneg(l)
    elif l[1] < 0:
        return lneg(l)
    return l


def last_char_is(l):
    """(last character of t) == c  as a question about the end of t"""
    if len(l[2]) == 1 and l[2][0][0][0] == "lastchar" and abs(l[2][0][1]) == 1:
        c = -l[1] * l[2][0][1]
        return ("p", "ends_with", l[2][0][0][1], ("set", chr(c))) if 0 <= c < 128 else None
    return None


class Interp:
    MAXSTEPS = 400000
    MAXDEPTH = 60

    def __init__(self, prog, hooks=None):
        self.prog = prog
        self.hooks = hooks
        self.frames = {}
        self.finfo = []
        self.panics = []
        self.unmodelled = {}
        self.steps = 0
        self.stack = []
        self.analysed = set()
        self.callsites = 0
        self.fresh = 0
        self.wanted_last = set()
        from . import models

        self.models = models

    # ---------------------------------------------------------------- frames
    def frame(self, parent, site, iid):
        k = (parent, site, iid)
        if k not in self.frames:
            self.frames[k] = len(self.finfo)
            self.finfo.append(k)
        return self.frames[k]

    def norm(self, l):
        return norm_eq0(l)

    def depthmark(self):
        return len(self.stack)

    def newsym(self, tag):
        self.fresh += 1
        return (tag, self.fresh)

    # ------------------------------------------------------------ predicates
    def lower(self, st, s):
        """a constant lower bound of a symbol"""
        if isinstance(s, tuple) and s:
            if s[0] == "n":
                return 1
            if s[0] == "slen":
                return 1 if self.nonempty(st, s[1]) else 0
            if s[0] == "sint":
                return None
        return 0

    def nonempty(self, st, piece):
        k = piece[0]
        if k == "lit":
            return bool(piece[1])
        if self.hooks:
            r = self.hooks.piece_nonempty(self, st, piece)
            if r is not None:
                return r
        return False

    def lmin(self, st, l):
        m = l[1]
        for s, c in l[2]:
            if c < 0:
                return None
            b = self.lower(st, s)
            if b is None:
                return None
            m += c * b
        return m

    def ge0(self, st, l):
        """True / False / None"""
        if isconst(l):
            return l[1] >= 0
        if self._ge(st, l):
            return True
        if self._ge(st, ladd(lneg(l), lin(-1))):
            return False
        return None

    def _ge(self, st, l):
        m = self.lmin(st, l)
        if m is not None and m >= 0:
            return True
        gs = [g[1] for g, v in st.facts.items() if v is True and g[0] == "ge0"]
        for g in gs:
            m = self.lmin(st, lsub(l, g))
            if m is not None and m >= 0:
                return True
        for i, g in enumerate(gs):
            d = lsub(l, g)
            if not any(s in dict(d[2]) for s, _ in l[2]) and d[2]:
                pass
            for h in gs[i:]:
                m = self.lmin(st, lsub(d, h))
                if m is not None and m >= 0:
                    return True
        return False

    def decide(self, st, p):
        k = p[0]
        if k == "not":
            r = self.decide(st, p[1])
            return None if r is None else (not r)
        if k == "const":
            return p[1]
        if k == "ge0":
            return self.ge0(st, p[1])
        if k == "eq0":
            l = p[1]
            if isconst(l):
                return l[1] == 0
            q = last_char_is(l)
            if q is not None:
                return q if isinstance(q, bool) else self.decide(st, q)
            a = self.ge0(st, l)
            b = self.ge0(st, lneg(l))
            if a is False or b is False:
                return False
            if a and b:
                return True
            return st.facts.get(p)
        if k == "seq":
            return self.decide_streq(st, p)
        r = st.facts.get(p)
        if r is None and self.hooks:
            r = self.hooks.decide(self, st, p)
        return r

    def decide_streq(self, st, p):
        a, b = p[1], p[2]
        if a == b:
            return True
        if is_lit(a) and is_lit(b):
            return lit_text(a) == lit_text(b)
        if (not a and any(self.nonempty(st, x) for x in b)) or (
            not b and any(self.nonempty(st, x) for x in a)
        ):
            return False
        # literal prefixes / suffixes that disagree
        if a and b:
            if a[0][0] == "lit" and b[0][0] == "lit":
                n = min(len(a[0][1]), len(b[0][1]))
                if a[0][1][:n] != b[0][1][:n]:
                    return False
            if a[-1][0] == "lit" and b[-1][0] == "lit":
                n = min(len(a[-1][1]), len(b[-1][1]))
                if n and a[-1][1][-n:] != b[-1][1][-n:]:
                    return False
        r = st.facts.get(p)
        if r is not None:
            return r
        # x == lit1 known, asked x == lit2
        for q, v in st.facts.items():
            if q[0] == "seq" and v is True:
                for x, y in ((q[1], q[2]), (q[2], q[1])):
                    for c, d in ((a, b), (b, a)):
                        if x == c and is_lit(y) and is_lit(d):
                            return lit_text(y) == lit_text(d)
        return None

    def mkstreq(self, a, b):
        x, y = sorted((a, b), key=repr)
        return ("seq", x, y)

    def assume(self, st, p, val):
        """st with p == val, or None if impossible"""
        if p[0] == "not":
            return self.assume(st, p[1], not val)
        r = self.decide(st, p)
        if r is not None:
            return st if r == val else None
        if p[0] == "ge0":
            q = p if val else ("ge0", ladd(lneg(p[1]), lin(-1)))
            s = st.copy()
            s.facts[q] = True
            return s
        if p[0] == "eq0":
            l = p[1]
            q = last_char_is(l)
            if q is not None:
                return self.assume(st, q, val)
            if val:
                s = self.assume(st, ("ge0", l), True)
                return s and self.assume(s, ("ge0", lneg(l)), True)
            if self.ge0(st, l):
                return self.assume(st, ("ge0", ladd(l, lin(-1))), True)
            if self.ge0(st, lneg(l)):
                return self.assume(st, ("ge0", ladd(lneg(l), lin(-1))), True)
            s = st.copy()
            s.facts[p] = False
            return s
        s = st.copy()
        s.facts[p] = val
        return s

    def split(self, st, p):
        """[(state, bool)] for both feasible outcomes"""
        r = self.decide(st, p)
        if r is not None:
            return [(st, r)]
        out = []
        for v in (True, False):
            s = self.assume(st, p, v)
            if s is not None:
                out.append((s, v))
        return out

    def boolcases(self, st, v):
        if v[0] == "b":
            return [(st, v[1])]
        if v[0] == "cond":
            return self.split(st, v[1])
        if v[0] == "op":
            return self.split(st, ("p", v))
        return self.split(st, ("p", v))

    # -------------------------------------------------------------- memory
    def tyk(self, t):
        return self.prog.tys[t]

    def is_str_ty(self, t):
        ty = self.tyk(t)
        if ty["k"] == "str":
            return True
        if ty["k"] == "adt" and ty["p"] == "alloc::string::String":
            return True
        if ty["k"] == "ref":
            return self.is_str_ty(ty["t"]) and self.tyk(ty["t"])["k"] == "str"
        return False

    def materialise(self, path, t):
        """symbolic input of type t at path"""
        if self.hooks:
            r = self.hooks.materialise(self, path, t)
            if r is not None:
                return r
        ty = self.tyk(t)
        k = ty["k"]
        if self.is_str_ty(t):
            return ("S", (("txt", path),))
        if k == "bool":
            return ("cond", ("symb", path))
        if k == "int":
            return sym(("i" if ty["n"].startswith("u") else "sint", path))
        if k == "tuple":
            return ("tup", tuple(self.materialise(path + (("f", i),), x) for i, x in enumerate(ty["ts"])))
        return ("sym", path, t)

    def field(self, st, v, variant, i):
        k = v[0]
        if k == "agg":
            if i < len(v[3]):
                return v[3][i]
            return ("op", "badfield", (v,))
        if k == "tup":
            return v[1][i] if i < len(v[1]) else ("op", "badfield", (v,))
        if k == "clo":
            return v[2][i]
        if k == "sym":
            ty = self.tyk(v[2])
            if ty["k"] == "adt" and ty.get("vs"):
                vi = variant if variant is not None else 0
                f = ty["vs"][vi]["f"]
                if i < len(f):
                    step = ("v", ty["vs"][vi]["n"], f[i][0]) if ty["ak"] == "enum" else ("f", f[i][0])
                    return self.materialise(v[1] + (step,), f[i][1])
            return ("op", "field", (v, lin(i)))
        if k == "mu":
            return v
        if k == "op":
            return ("op", "field", (v, ("op", "v%s.%d" % (variant, i), ())))
        return ("op", "field", (v, lin(i)))

    def elem(self, st, v, idx):
        parts = self.parts(st, v)
        if parts is None:
            return ("op", "elem", (v, idx))
        if len(parts) == 1 and parts[0][0] == "list":
            p = parts[0]
            return self.materialise(p[1] + (("ix", ladd(p[2], idx)),), p[4])
        if isconst(idx):
            n = idx[1]
            for p in parts:
                if p[0] == "e":
                    if n == 0:
                        return p[1]
                    n -= 1
                elif p[0] == "list":
                    if n == 0 or True:
                        # need to know that n is within the part
                        l = lsub(p[3], p[2])
                        if isconst(l):
                            if n < l[1]:
                                return self.materialise(p[1] + (("ix", ladd(p[2], lin(n))),), p[4])
                            n -= l[1]
                        elif self.ge0(st, ladd(l, lin(-n - 1))):
                            return self.materialise(p[1] + (("ix", ladd(p[2], lin(n))),), p[4])
                        else:
                            break
                else:
                    break
        # a generic element of mapped ranges: one element per iteration
        parts = absorb(parts)
        base = lin(0)
        for p in parts:
            if p[0] == "e":
                if base == idx:
                    return p[1]
                base = ladd(base, lin(1))
            elif p[0] == "range" and isinstance(p[4], tuple) and len(p[4]) == 1:
                g, b = p[4][0]
                if not g and len(b) == 1 and b[0][0] == "e":
                    off = lsub(idx, base)
                    ln = lsub(p[3], p[2])
                    if self.ge0(st, off) and self.ge0(st, ladd(lsub(ln, off), lin(-1))):
                        return subst(b[0][1], {("k", p[1]): ladd(p[2], off)})
                    base = ladd(base, ln)
                else:
                    break
            else:
                break
        return ("op", "elem", (v, idx))

    def parts(self, st, v):
        """sequence parts of a Vec/slice/array value"""
        k = v[0]
        if k == "seq":
            return v[1]
        if k == "bytes":
            return tuple(("e", lin(b)) for b in v[1])
        if k == "sym":
            ty = self.tyk(v[2])
            et = None
            if ty["k"] in ("slice",):
                et = ty["t"]
            elif ty["k"] == "adt" and ty["p"].startswith("alloc::vec::Vec"):
                et = ty["args"][0]
            elif ty["k"] == "array":
                et = ty["t"]
                return (("list", v[1], lin(0), lin(ty["len"]), et),)
            if et is not None:
                return (("list", v[1], lin(0), sym(("len", v[1])), et),)
        if k == "tup" and not v[1]:
            return ()
        if k == "box":
            return self.parts(st, v[1])
        return None

    def seqlen(self, parts):
        n = lin(0)
        for p in parts:
            if p[0] == "e":
                n = ladd(n, lin(1))
            elif p[0] == "list":
                n = ladd(n, lsub(p[3], p[2]))
            elif p[0] == "range":
                alts = p[4]
                if isinstance(alts, tuple) and alts and alts[0] != "?":
                    ls = {self.seqlen(b) for _, b in alts}
                    if len(ls) == 1 and isconst(next(iter(ls))):
                        n = ladd(n, lscale(lsub(p[3], p[2]), next(iter(ls))[1]))
                        continue
                elif isinstance(alts, tuple) and alts and alts[0] == "?" and alts[2] is not None:
                    n = ladd(n, lscale(lsub(p[3], p[2]), alts[2]))
                    continue
                n = ladd(n, sym(("rlen", p)))
            else:
                n = ladd(n, sym(("rlen", p)))
        return n

    def strlen(self, pieces):
        n = lin(0)
        for p in pieces:
            if p[0] == "lit":
                n = ladd(n, lin(len(p[1].encode())))
            elif p[0] == "rep" and is_lit(p[1]):
                n = ladd(n, lscale(p[2], len(lit_text(p[1]).encode())))
            else:
                n = ladd(n, sym(("slen", p)))
        return n

    def load(self, st, cell, proj):
        if isinstance(cell, tuple) and cell and cell[0] == "K":
            v = cell[1]
        else:
            v = st.mem.get(cell, ("uninit",))
        return self.follow(st, v, proj)

    def follow(self, st, v, proj):
        variant = None
        i = 0
        while i < len(proj):
            e = proj[i]
            k = e[0]
            if v[0] == "mu":
                if k in ("f",):
                    i += 1
                    if i == len(proj) and v[1] is not None:
                        pass
                    continue
                v = v[1] if v[1] is not None else ("uninit",)
                continue
            if k == "d":
                variant = e[1]
            elif k == "f":
                v = self.field(st, v, variant, e[1])
                variant = None
            elif k == "ix":
                v = self.elem(st, v, e[1])
            elif k == "sub":
                parts = self.parts(st, v)
                if parts is None:
                    v = ("op", "slice", (v, e[1], e[2]))
                else:
                    r = self.slice_parts(st, parts, e[1], e[2])
                    v = ("seq", r) if r is not None else ("op", "slice", (v, e[1], e[2]))
            elif k == "bx":
                v = v[1] if v[0] == "box" else ("op", "unbox", (v,))
            elif k == "*":
                if v[0] == "ref":
                    v = self.load(st, v[1], v[2])
                elif v[0] == "sym" and self.tyk(v[2])["k"] in ("ref", "ptr"):
                    v = self.materialise(v[1], self.tyk(v[2])["t"])
                elif v[0] == "box":
                    v = v[1]
            i += 1
        return v

    def slice_parts(self, st, parts, lo, hi):
        if len(parts) == 1 and parts[0][0] == "list":
            p = parts[0]
            return (("list", p[1], ladd(p[2], lo), ladd(p[2], hi), p[4]),)
        if lo == lin(0) and hi == self.seqlen(parts):
            return parts
        if isconst(lo) and isconst(hi) and all(p[0] == "e" for p in parts):
            return parts[lo[1]:hi[1]]
        if isconst(lo) and hi == self.seqlen(parts):
            n = lo[1]
            ps = list(parts)
            while n and ps:
                if ps[0][0] == "e":
                    ps.pop(0)
                    n -= 1
                elif ps[0][0] == "list":
                    p = ps[0]
                    ps[0] = ("list", p[1], ladd(p[2], lin(n)), p[3], p[4])
                    n = 0
                else:
                    return None
            return tuple(ps) if not n else None
        return None

    def store(self, st, cell, proj, val):
        """functional update; returns a new state"""
        s = st.copy()
        if isinstance(cell, tuple) and cell and cell[0] == "K":
            return s
        old = s.mem.get(cell, ("uninit",))
        s.mem[cell] = self.update(st, old, proj, val)
        return s

    def update(self, st, v, proj, val):
        if not proj:
            return val
        e = proj[0]
        k = e[0]
        if v[0] == "mu":
            ps = proj
            while ps and ps[0][0] == "f":
                ps = ps[1:]
            if not ps:
                return ("mu", val)
            return ("mu", self.update(st, v[1] or ("uninit",), ps, val))
        if k == "d":
            # next must be a field
            if len(proj) > 1:
                f = proj[1]
                v = self.expand(v, e[1])
                if v[0] == "agg":
                    return self.upd_field(st, v, f[1], proj[2:], val)
            return ("op", "upd", (v,))
        if k == "f":
            v = self.expand(v, None)
            return self.upd_field(st, v, e[1], proj[1:], val)
        if k == "bx":
            return ("box", self.update(st, v[1] if v[0] == "box" else ("uninit",), proj[1:], val))
        if k == "ix":
            parts = self.parts(st, v)
            if parts is not None and isconst(e[1]) and all(p[0] == "e" for p in parts) and e[1][1] < len(parts):
                ps = list(parts)
                ps[e[1][1]] = ("e", self.update(st, ps[e[1][1]][1], proj[1:], val))
                return ("seq", tuple(ps))
            return ("op", "upd", (v, e[1], val))
        return ("op", "upd", (v, val))

    def upd_field(self, st, v, i, rest, val):
        if v[0] == "agg":
            fs = list(v[3])
            while len(fs) <= i:
                fs.append(("uninit",))
            fs[i] = self.update(st, fs[i], rest, val)
            return ("agg", v[1], v[2], tuple(fs))
        if v[0] == "tup":
            fs = list(v[1])
            while len(fs) <= i:
                fs.append(("uninit",))
            fs[i] = self.update(st, fs[i], rest, val)
            return ("tup", tuple(fs))
        if v[0] == "clo":
            fs = list(v[2])
            fs[i] = self.update(st, fs[i], rest, val)
            return ("clo", v[1], tuple(fs))
        if v[0] == "uninit":
            return self.upd_field(st, ("tup", ()), i, rest, val)
        return ("op", "upd", (v, lin(i), val))

    def expand(self, v, variant):
        """turn a symbolic struct / known variant into an aggregate"""
        if v[0] == "sym":
            ty = self.tyk(v[2])
            if ty["k"] == "adt" and ty.get("vs") and (variant is not None or ty["ak"] == "struct"):
                vi = variant or 0
                fs = tuple(self.field(None, v, vi, i) for i in range(len(ty["vs"][vi]["f"])))
                return ("agg", ty["p"], vi, fs)
        return v

    def place(self, st, fid, p):
        """MIR place -> (cell, proj)"""
        cell = (fid, p[0])
        proj = ()
        for e in p[1]:
            k = e[0]
            if k == "*":
                v = self.load(st, cell, proj)
                if v[0] == "ref":
                    cell, proj = v[1], v[2]
                elif v[0] == "box":
                    proj = proj + (("bx",),)
                elif v[0] == "sym" and self.tyk(v[2])["k"] in ("ref", "ptr"):
                    proj = proj + (("*",),)
                # strings and opaque values: a reference is its referent
            elif k == "f":
                v = self.load(st, cell, proj) if e[1] == 0 else None
                if v is not None and v[0] == "box":
                    continue  # Box<T>.0: handled by BoxDerefTransmute
                proj = proj + (("f", e[1]),)
            elif k == "d":
                proj = proj + (("d", e[1]),)
            elif k == "ix":
                proj = proj + (("ix", self.load(st, (fid, e[1]), ())),)
            elif k == "ci":
                off = lin(e[1])
                if e[3]:
                    v = self.load(st, cell, proj)
                    ps = self.parts(st, v)
                    off = lsub(self.seqlen(ps), off) if ps is not None else ("op", "fromend", (lin(e[1]),))
                proj = proj + (("ix", off),)
            elif k == "sub":
                v = self.load(st, cell, proj)
                ps = self.parts(st, v)
                if e[3]:
                    hi = lsub(self.seqlen(ps), lin(e[2])) if ps is not None else lin(-1)
                else:
                    hi = lin(e[2])
                proj = proj + (("sub", lin(e[1]), hi),)
            else:
                proj = proj + (("?",),)
        return cell, proj

    def operand(self, st, fid, o):
        k = o[0]
        if k in ("copy", "move"):
            c, p = self.place(st, fid, o[1])
            return self.load(st, c, p)
        if k == "c":
            return self.const(o[1], o[2])
        if k == "rtcheck":
            return FALSE  # debug-only checks inside core
        return ("op", "operand", ())

    def const(self, t, c):
        ty = self.tyk(t)
        k = c[0]
        if k == "zst":
            if ty["k"] == "fndef":
                return ("fn", ty["f"])
            if ty["k"] == "closure":
                return ("clo", self.closure_inst(ty["def"]), ())
            return UNIT
        if k == "str":
            return lit(c[1])
        if k == "bytes":
            return ("bytes", tuple(c[1]))
        if k == "bool":
            return B(c[1])
        if k == "int":
            return lin(c[1])
        if k == "char":
            return ("chr", c[1])
        if k == "float":
            return ("flt", c[1])
        if k == "ref":
            inner = self.const(ty["t"], c[1]) if ty["k"] == "ref" else ("op", "constref", ())
            if inner[0] in ("S", "bytes"):
                return inner
            return ("ref", ("K", inner), ())
        if k == "agg":
            return self.const_agg(ty, c)
        if k == "fnptr":
            return ("fn", c[1])
        if k == "opaque":
            if ty["k"] == "adt" and ty["p"] == "alloc::string::String":
                return lit("")
            if ty["k"] == "adt" and ty["p"].startswith("alloc::vec::Vec"):
                return ("seq", ())
            return ("op", "const", (c[1],))
        return ("op", "const?", (ty["s"],))

    def closure_inst(self, d):
        if not hasattr(self, "_clo"):
            self._clo = {}
            for i in self.prog.insts:
                if i["dk"] == "Closure" and "body" in i:
                    self._clo.setdefault(i["p"], []).append(i["i"])
        c = self._clo.get(d)
        if not c:
            raise Abort("closure %s is not exported" % d)
        return c[0]

    def const_agg(self, ty, c):
        if ty["k"] == "tuple":
            return ("tup", tuple(self.const(t, x) for t, x in zip(ty["ts"], c[2])))
        if ty["k"] in ("array", "slice"):
            return ("seq", tuple(("e", self.const(ty["t"], x)) for x in c[2]))
        if ty["k"] == "adt" and ty.get("vs"):
            f = ty["vs"][c[1]]["f"]
            return ("agg", ty["p"], c[1], tuple(self.const(ft[1], x) for ft, x in zip(f, c[2])))
        return ("op", "constagg", (ty["s"],))

    # ------------------------------------------------------------ statements
    def discr_cases(self, st, cell, proj, t):
        """[(state, discriminant value lin)]"""
        v = self.load(st, cell, proj)
        return self.variant_cases(st, v, t)

    def discr_of(self, adt_ty, vi):
        ty = adt_ty
        if ty and ty.get("vs") and vi < len(ty["vs"]):
            return ty["vs"][vi]["d"]
        return vi

    def variant_cases(self, st, v, t):
        ty = self.tyk(t) if t is not None else None
        while v[0] == "ref":
            v = self.load(st, v[1], v[2])
        if v[0] == "agg":
            return [(st, lin(self.discr_of(ty, v[2])))]
        if v[0] == "uninit":
            # optimised library MIR reads discriminants of dead locals
            return [(st, sym(("discr", v)))]
        if v[0] == "sym":
            known = st.facts.get(("var", v[1]))
            ty = self.tyk(v[2])
            if ty["k"] == "adt" and ty.get("vs"):
                if known is not None:
                    return [(st, lin(self.discr_of(ty, known)))]
                out = []
                for i in range(len(ty["vs"])):
                    if st.facts.get(("notvar", v[1], i)):
                        continue
                    s = st.copy()
                    s.facts[("var", v[1])] = i
                    out.append((s, lin(self.discr_of(ty, i))))
                return out
        if ty and ty["k"] == "adt" and ty.get("vs"):
            known = st.facts.get(("var", v))
            if known is not None:
                return [(st, lin(self.discr_of(ty, known)))]
            if len(ty["vs"]) <= 8:
                out = []
                for i in range(len(ty["vs"])):
                    s = st.copy()
                    s.facts[("var", v)] = i
                    out.append((s, lin(self.discr_of(ty, i))))
                return out
        return [(st, sym(("discr", v)))]

    def rvalue(self, st, fid, r, body):
        k = r[0]
        if k == "use":
            return [(st, self.operand(st, fid, r[1]))]
        if k == "ref":
            if r[2][1] and r[2][1][-1][0] == "*":
                # reborrow of a reference value that stands for its own referent
                bc, bp = self.place(st, fid, [r[2][0], r[2][1][:-1]])
                bv = self.load(st, bc, bp)
                if bv[0] not in ("ref", "box") and not (
                    bv[0] == "sym" and self.tyk(bv[2])["k"] in ("ref", "ptr")
                ):
                    return [(st, bv)]
            c, p = self.place(st, fid, r[2])
            # a reference to a value that stands for its own referent
            v = self.load(st, c, p)
            if v[0] == "S" and not r[1] and isinstance(c, tuple) and c and c[0] == "K":
                return [(st, v)]
            return [(st, ("ref", c, p))]
        if k == "agg":
            h = r[1]
            fs = tuple(self.operand(st, fid, o) for o in r[2])
            if h[0] == "array":
                return [(st, ("seq", tuple(("e", x) for x in fs)))]
            if h[0] == "tuple":
                return [(st, ("tup", fs))]
            if h[0] == "adt":
                return [(st, ("agg", self.tyk(h[1])["p"], h[2], fs))]
            if h[0] == "closure":
                return [(st, ("clo", h[2], fs))]
            return [(st, ("op", "agg", fs))]
        if k == "discr":
            c, p = self.place(st, fid, r[1])
            return self.discr_cases(st, c, p, r[2])
        if k == "bin":
            a = self.operand(st, fid, r[2])
            b = self.operand(st, fid, r[3])
            return self.binop(st, r[1], a, b)
        if k == "un":
            a = self.operand(st, fid, r[2])
            if r[1] == "Not":
                if a[0] == "b":
                    return [(st, B(not a[1]))]
                if a[0] == "cond":
                    return [(st, ("cond", a[1][1] if a[1][0] == "not" else ("not", a[1])))]
            if r[1] == "Neg" and a[0] == "lin":
                return [(st, lneg(a))]
            if r[1] == "PtrMetadata":
                v = self.deref(st, a)
                if v[0] == "S":
                    return [(st, self.strlen(v[1]))]
                ps = self.parts(st, v)
                if ps is not None:
                    return [(st, self.seqlen(ps))]
            return [(st, ("op", r[1], (a,)))]
        if k == "cast":
            v = self.operand(st, fid, r[2])
            if r[1] == "BoxDerefTransmute":
                o = r[2][1]
                c, p = self.place(st, fid, [o[0], o[1][:-1]])
                return [(st, ("ref", c, p + (("bx",),)))]
            if r[1] == "PointerExposeProvenance" or r[1] == "transmute" and self.tyk(r[4])["k"] in ("int", "uint") and v[0] == "ref":
                # where a value lies in memory is no part of any input
                s = st.copy()
                s.ev = s.ev + (("e", ("op", "address", (v,))),)
                return [(s, ("op", "address", (v,)))]
            if r[1] == "int" and v[0] == "lin":
                return [(st, v)]
            if r[1] == "int" and v[0] == "b":
                return [(st, lin(1 if v[1] else 0))]
            if r[1] == "int" and v[0] == "chr":
                return [(st, lin(v[1]))]
            if r[1] in ("int", "IntToFloat", "FloatToInt", "FloatToFloat"):
                return [(st, ("op", "cast", (v, self.tyk(r[4])["s"])))]
            return [(st, v)]
        if k == "repeat":
            v = self.operand(st, fid, r[1])
            if 0 <= r[2] <= 64:
                return [(st, ("seq", tuple(("e", v) for _ in range(r[2]))))]
        return [(st, ("op", "rvalue", (str(k),)))]

    def binop(self, st, op, a, b):
        ovf = op.endswith("WithOverflow")
        base = op.replace("WithOverflow", "").replace("Unchecked", "")

        def wrap(v, bad=FALSE):
            return ("tup", (v, bad)) if ovf else v

        if a[0] == "lin" and b[0] == "lin":
            if base == "Add":
                return [(st, wrap(ladd(a, b)))]
            if base == "Sub":
                d = lsub(a, b)
                if ovf:
                    # underflow iff a - b < 0
                    r = self.ge0(st, d)
                    bad = FALSE if r else (TRUE if r is False else ("cond", ("not", ("ge0", d))))
                    return [(st, ("tup", (d, bad)))]
                return [(st, d)]
            if base == "Mul":
                if isconst(a):
                    return [(st, wrap(lscale(b, a[1])))]
                if isconst(b):
                    return [(st, wrap(lscale(a, b[1])))]
                return [(st, wrap(lmul(a, b)))]
            if base in ("Div", "Rem", "BitAnd", "BitOr", "BitXor", "Shl", "Shr"):
                if isconst(a) and isconst(b):
                    x, y = a[1], b[1]
                    try:
                        r = {
                            "Div": lambda: x // y,
                            "Rem": lambda: x % y,
                            "BitAnd": lambda: x & y,
                            "BitOr": lambda: x | y,
                            "BitXor": lambda: x ^ y,
                            "Shl": lambda: x << y,
                            "Shr": lambda: x >> y,
                        }[base]()
                        return [(st, wrap(lin(r)))]
                    except Exception:
                        pass
                return [(st, wrap(sym((base.lower(), a, b))))]
            p = None
            if base == "Lt":
                p = ("ge0", ladd(lsub(b, a), lin(-1)))
            elif base == "Le":
                p = ("ge0", lsub(b, a))
            elif base == "Gt":
                p = ("ge0", ladd(lsub(a, b), lin(-1)))
            elif base == "Ge":
                p = ("ge0", lsub(a, b))
            elif base == "Eq":
                p = ("eq0", norm_eq0(lsub(a, b)))
            elif base == "Ne":
                p = ("not", ("eq0", norm_eq0(lsub(a, b))))
            if p:
                r = self.decide(st, p)
                return [(st, B(r) if r is not None else ("cond", p))]
        if {a[0], b[0]} == {"chr", "lin"} and base in ("Eq", "Ne", "Lt", "Le", "Gt", "Ge"):
            a, b = (lin(x[1]) if x[0] == "chr" else x for x in (a, b))
            p = {
                "Eq": ("eq0", norm_eq0(lsub(a, b))), "Ne": ("not", ("eq0", norm_eq0(lsub(a, b)))),
                "Lt": ("ge0", ladd(lsub(b, a), lin(-1))), "Le": ("ge0", lsub(b, a)),
                "Gt": ("ge0", ladd(lsub(a, b), lin(-1))), "Ge": ("ge0", lsub(a, b)),
            }[base]
            r = self.decide(st, p)
            return [(st, B(r) if r is not None else ("cond", p))]
        if a[0] == "chr" and b[0] == "chr":
            x, y = a[1], b[1]
            r = {"Eq": x == y, "Ne": x != y, "Lt": x < y, "Le": x <= y, "Gt": x > y, "Ge": x >= y}.get(base)
            if r is not None:
                return [(st, B(r))]
        if base in ("Eq", "Ne", "BitAnd", "BitOr", "BitXor") and (
            a[0] in ("b", "cond") and b[0] in ("b", "cond")
        ):
            out = []
            for s1, x in self.boolcases(st, a):
                for s2, y in self.boolcases(s1, b):
                    r = {"Eq": x == y, "Ne": x != y, "BitAnd": x and y, "BitOr": x or y, "BitXor": x != y}[base]
                    out.append((s2, B(r)))
            return out
        if base in ("Eq", "Ne"):
            if a == b and not mentions_op(a):
                return [(st, B(base == "Eq"))]
            x, y = sorted((a, b), key=repr)
            p = ("p", "same", x, y)
            return [(st, ("cond", p if base == "Eq" else ("not", p)))]
        v = ("op", base, (a, b))
        return [(st, wrap(v, FALSE))]

    def deref(self, st, v):
        n = 0
        while n < 20:
            if v[0] == "ref":
                v = self.load(st, v[1], v[2])
            elif v[0] == "sym" and self.tyk(v[2])["k"] in ("ref", "ptr"):
                v = self.materialise(v[1], self.tyk(v[2])["t"])
            elif v[0] == "box":
                v = v[1]
            else:
                break
            n += 1
        return v

    def text(self, st, v):
        v = self.deref(st, v)
        if v[0] == "S":
            return v[1]
        if v[0] == "agg" and v[1].endswith("borrow::Cow"):
            return self.text(st, v[3][0])
        if v[0] == "op":
            return (("op", v[1], v[2]),)
        if v[0] == "chr":
            return (("lit", chr(v[1])),)
        return (("op", "text", (v,)),)

    # ---------------------------------------------------------- control flow
    def exec_block(self, inst, fid, bi, st):
        self.steps += 1
        if self.steps > self.MAXSTEPS:
            raise Abort("analysis budget exceeded in %s" % inst["s"])
        body = inst["body"]
        bb = body["bbs"][bi]
        states = [st]
        for s in bb["s"]:
            k = s[0]
            nxt = []
            for cur in states:
                if k == "=":
                    for s2, v in self.rvalue(cur, fid, s[2], body):
                        c, p = self.place(s2, fid, s[1])
                        nxt.append(self.store(s2, c, p, v))
                elif k == "dead":
                    if (fid, s[1]) in cur.mem:
                        cur = cur.copy()
                        del cur.mem[(fid, s[1])]
                    nxt.append(cur)
                elif k == "setd":
                    nxt.append(cur)
                else:
                    nxt.append(cur)
            states = nxt
        out = []
        for cur in states:
            out.extend(self.terminator(inst, fid, bi, bb, cur))
        return out

    def terminator(self, inst, fid, bi, bb, st):
        t = bb["t"]
        k = t[0]
        if k == "goto":
            return [("bb", t[1], st)]
        if k == "return":
            return [("ret", st)]
        if k in ("unreachable", "cleanup"):
            return []
        if k == "switch":
            return self.switch(st, fid, t)
        if k == "drop":
            if self.hooks:
                c, p = self.place(st, fid, t[1])
                st = self.hooks.on_drop(self, st, self.load(st, c, p), t[3], bb["l"]) or st
            return [("bb", t[2], st)]
        if k == "assert":
            v = self.operand(st, fid, t[1])
            out = []
            for s, b in self.boolcases(st, v):
                if b == t[2]:
                    out.append(("bb", t[4], s))
                else:
                    self.panic(s, "assert " + t[3], bb["l"])
            return out
        if k == "call":
            return self.call_term(inst, fid, bi, bb, st, t)
        raise Abort("unknown terminator %s in %s" % (t, inst["s"]))

    def panic(self, st, msg, loc):
        self.panics.append(
            {
                "msg": msg,
                "loc": loc,
                "facts": dict(st.facts),
                "stack": [self.prog.insts[x]["s"] if isinstance(x, int) else x for x in self.stack],
            }
        )

    def switch(self, st, fid, t):
        v = self.operand(st, fid, t[1])
        out = []
        if v[0] in ("b", "cond"):
            for s, b in self.boolcases(st, v):
                tgt = t[4]
                for val, bb in t[3]:
                    if val == (1 if b else 0):
                        tgt = bb
                out.append(("bb", tgt, s))
            return out
        if v[0] == "chr":
            v = lin(v[1])
        if v[0] == "lin":
            cur = [st]
            for val, bb in t[3]:
                p = ("eq0", norm_eq0(lsub(v, lin(val))))
                nxt = []
                for c in cur:
                    for s, b in self.split(c, p):
                        if b:
                            out.append(("bb", bb, s))
                        else:
                            nxt.append(s)
                cur = nxt
            for c in cur:
                out.append(("bb", t[4], c))
            return out
        # opaque scrutinee: every target is possible
        for val, bb in t[3]:
            s = self.assume(st, ("p", "is", v, val), True)
            if s:
                out.append(("bb", bb, s))
        s = st
        for val, bb in t[3]:
            s = s and self.assume(s, ("p", "is", v, val), False)
        if s:
            out.append(("bb", t[4], s))
        return out

    def call_term(self, inst, fid, bi, bb, st, t):
        args = [self.operand(st, fid, a) for a in t[2]]
        callee = t[1]
        site = (inst["i"], bi)
        self.callsites += 1
        if callee[0] == "py":
            res = callee[1](self, st, args)
        elif callee[0] == "fn":
            ci = self.prog.insts[callee[1]]
            res = self.call(ci, args, st, fid, site, t[5], bb["l"])
        elif callee[0] == "dyn":
            f = self.operand(st, fid, callee[1])
            res = self.call_value(f, args, st, fid, site, t[5], bb["l"])
        else:
            res = [(st, ("op", "unresolved " + str(callee[1]), tuple(args)))]
        out = []
        for s, v in res:
            if t[4] < 0:
                self.panic(s, "diverges: " + (self.prog.insts[callee[1]]["name"] if callee[0] == "fn" else "?"), bb["l"])
                continue
            c, p = self.place(s, fid, t[3])
            out.append(("bb", t[4], self.store(s, c, p, v)))
        return out

    def call_value(self, f, args, st, fid, site, dty, loc):
        """call a closure / fn item / opaque callable with plain args"""
        f0 = f
        f = self.deref(st, f)
        if f[0] == "fn":
            if f[1] < 0:
                return [(st, ("op", "unresolved", tuple(args)))]
            return self.call(self.prog.insts[f[1]], list(args), st, fid, site, dty, loc)
        if f[0] == "clo":
            ci = self.prog.insts[f[1]]
            body = ci.get("body")
            if body is None:
                raise Abort("closure without body")
            selfty = self.tyk(body["locals"][1])
            if selfty["k"] == "ref":
                if f0[0] == "ref":
                    a0 = f0
                    # strip nested references
                    while True:
                        x = self.load(st, a0[1], a0[2])
                        if x[0] == "ref":
                            a0 = x
                        else:
                            break
                else:
                    cell = ("T", fid, site, "clo")
                    st = st.copy()
                    st.mem[cell] = f
                    a0 = ("ref", cell, ())
            else:
                a0 = f
            return self.call(ci, [a0] + list(args), st, fid, site, dty, loc)
        if self.hooks:
            r = self.hooks.call_opaque(self, st, f, args, dty)
            if r is not None:
                return r
        return [(st, ("op", "call", (f,) + tuple(self.deref(st, a) for a in args)))]

    def call(self, ci, args, st, fid, site, dty, loc):
        # property-specific cut points
        if self.hooks:
            r = self.hooks.call(self, ci, args, st, fid, site, dty, loc)
            if r is not None:
                return r
        if ci.get("trait", "").startswith("core::ops::function::Fn") and ci.get("method", "").startswith("call"):
            a = self.deref(st, args[1]) if len(args) > 1 else UNIT
            if a[0] == "tup":
                return self.call_value(args[0], a[1], st, fid, site, dty, loc)
        if ci["ik"] in ("closureonce", "fnptr", "reify", "cloneshim") and ci["ik"] != "cloneshim":
            a = args[1] if len(args) > 1 else UNIT
            if ci["ik"] != "reify" and a[0] == "tup":
                return self.call_value(args[0], a[1], st, fid, site, dty, loc)
        if ci["p"].startswith("core::ops::function::") or (
            ci["dk"] == "Closure" and len(args) == 2 and args[1][0] == "tup" and self.closure_untuple(ci, args)
        ):
            if ci["dk"] == "Closure":
                return self.call_value(args[0], args[1][1], st, fid, site, dty, loc)
        if ci["ik"] == "virtual":
            ci = self.devirtualise(ci, args, st)
            if self.hooks and ci["ik"] != "virtual":
                r = self.hooks.call(self, ci, args, st, fid, site, dty, loc)
                if r is not None:
                    return r
        m = self.models.lookup(ci)
        if m is not None:
            r = m(self, st, ci, args, fid, site, dty, loc)
            if r is not None:
                return r
        if "body" in ci:
            return self.run_body(ci, args, st, fid, site)
        return self.unknown(ci, args, st, dty, loc)

    def value_type(self, st, v):
        """the path of the type of a value, when the value tells"""
        v = self.deref(st, v)
        if v[0] == "sym":
            return self.tyk(v[2])["s"]
        if v[0] == "agg":
            return v[1]
        if v[0] == "seq" and len(v[1]) == 1 and v[1][0][0] == "list":
            return "std::vec::Vec<%s>" % self.tyk(v[1][0][4])["s"]
        if v[0] == "S":
            return "std::string::String"
        return None

    def devirtualise(self, ci, args, st):
        """a call through a trait object whose value is known"""
        t = self.value_type(st, args[0]) if args else None
        if t is None:
            return ci
        for i in self.prog.insts:
            if (
                i.get("trait") == ci.get("trait") and i.get("method") == ci.get("method")
                and i["ik"] == "item" and "self" in i and self.tyk(i["self"])["s"] == t
            ):
                return i
        return ci

    def closure_untuple(self, ci, args):
        """is this a Fn*-ABI call of a closure body (self, (args,))?"""
        body = ci.get("body")
        if not body:
            return False
        n = body["argc"]
        if n != 2:
            return True
        # one declared parameter: is the passed tuple that parameter itself?
        pt = self.tyk(body["locals"][2])
        if pt["k"] == "tuple":
            a = args[1]
            return len(a[1]) == 1 and a[1][0][0] == "tup"
        return True

    def unknown(self, ci, args, st, dty, loc):
        self.unmodelled[ci["name"]] = self.unmodelled.get(ci["name"], 0) + 1
        vals = tuple(self.deref(st, a) for a in args)
        s = st
        # anything reachable through a unique reference may have changed
        for i, a in enumerate(args):
            if a[0] == "ref" and self.arg_is_mut(ci, i):
                old = self.load(s, a[1], a[2])
                s = self.store(s, a[1], a[2], ("op", "mut " + ci["name"], (old,) + vals))
        s2 = s.copy()
        s2.ev = s2.ev + (("e", ("op", "call " + ci["name"], vals)),)
        return [(s2, ("op", ci["name"], vals))]

    def arg_is_mut(self, ci, i):
        b = ci.get("body")
        if b:
            t = self.tyk(b["locals"][i + 1])
            return t["k"] == "ref" and t["mut"]
        return True

    def run_body(self, ci, args, st, fid, site):
        if len(self.stack) > self.MAXDEPTH:
            raise Abort("call depth exceeded at %s" % ci["s"])
        body = ci["body"]
        f2 = self.frame(fid, site, ci["i"])
        s = st.copy()
        if body.get("spread") and len(args) != body["argc"]:
            pass
        for i, a in enumerate(args):
            s.mem[(f2, i + 1)] = a
        self.stack.append(ci["i"])
        self.analysed.add(ci["i"])
        try:
            rets = self.walk(ci, f2, 0, s, None)[1]
        finally:
            self.stack.pop()
        out = []
        for e in rets:
            s = e[1]
            v = s.mem.get((f2, 0), UNIT)
            s = s.copy()
            for i in range(len(body["locals"])):
                s.mem.pop((f2, i), None)
            out.append((s, v))
        return self.dedupe(out)

    def dedupe(self, outs):
        if len(outs) < 2:
            return outs
        seen = {}
        for s, v in outs:
            k = (s.key(), v)
            if k not in seen:
                seen[k] = (s, v)
        return list(seen.values())

    def walk(self, inst, fid, start, st, loop):
        loops = self.prog.loops(inst) if isinstance(inst["i"], int) else inst["loops"]
        backs, exits = [], []
        work = [(start, st, True)]
        while work:
            bi, s, first = work.pop()
            if loop is not None and not first and bi == loop[0]:
                backs.append(s)
                continue
            if loop is not None and bi not in loop[1]:
                exits.append(("bb", bi, s))
                continue
            if bi in loops and not (loop is not None and bi == loop[0]):
                for e in self.run_loop(inst, fid, bi, loops[bi], s):
                    if e[0] == "bb":
                        work.append((e[1], e[2], False))
                    else:
                        exits.append(("ret", e[1]))
                continue
            for e in self.exec_block(inst, fid, bi, s):
                if e[0] == "bb":
                    work.append((e[1], e[2], False))
                else:
                    exits.append(("ret", e[1]))
        return backs, exits

    # ----------------------------------------------------------------- loops
    def run_loop(self, inst, fid, head, blocks, st0):
        from .loops import LoopRunner

        return LoopRunner(self, inst, fid, head, blocks).run(st0)

    # -------------------------------------------------------------- entry
    def run_fn(self, ci, args, st=None):
        """analyse a function from the given abstract arguments"""
        st = st or St()
        return self.run_body(ci, args, st, -1, ("entry", ci["i"]))


def absorb(parts):
    """`f(lo-1), f(lo) .. f(hi-1)` written as element + range becomes one range"""
    ps = list(parts)
    i = 1
    while i < len(ps):
        p = ps[i]
        if (
            p[0] == "range" and isinstance(p[4], tuple) and len(p[4]) == 1
            and not p[4][0][0] and len(p[4][0][1]) == 1 and p[4][0][1][0][0] == "e"
        ):
            b = p[4][0][1][0]
            while i >= 1 and ps[i - 1][0] == "e" and subst(b, {("k", p[1]): ladd(p[2], lin(-1))}) == ps[i - 1]:
                p = ("range", p[1], ladd(p[2], lin(-1)), p[3], p[4])
                ps[i - 1:i + 1] = [p]
                i -= 1
        elif (
            p[0] == "range" and ps[i - 1][0] == "range" and isinstance(p[4], tuple) and p[4] and p[4][0] != "?"
            and ps[i - 1][1] == p[1] and ladd(ps[i - 1][2], lin(1)) == ps[i - 1][3] == p[2]
            and isinstance(ps[i - 1][4], tuple)
            and set(subst(p[4], {("k", p[1]): ps[i - 1][2]})) == set(ps[i - 1][4])
        ):
            # the first round of a loop and its other rounds
            ps[i - 1:i + 1] = [("range", p[1], ps[i - 1][2], p[3], p[4])]
            i -= 1
        i += 1
    return tuple(ps)


def mentions_op(v):
    for x in walk(v):
        if x and x[0] == "op":
            return True
    return False


class Hooks:
    """property-specific behaviour; the defaults do nothing"""

    def call(self, I, ci, args, st, fid, site, dty, loc):
        return None

    def call_opaque(self, I, st, f, args, dty):
        return None

    def on_drop(self, I, st, v, ty, loc):
        return None

    def piece_nonempty(self, I, st, piece):
        return None

    def decide(self, I, st, p):
        return None

    def materialise(self, I, path, t):
        return None

    def display(self, I, st, v):
        return None

    def next(self, I, st, ci, a, it, dty):
        return None

    def on_forget(self, I, st, v, loc):
        return None
