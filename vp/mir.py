"""Loader for the exported MIR."""
import json, re


class Prog:
    def __init__(self, path):
        j = json.load(open(path))
        self.name = j["crate"]
        self.insts = j["insts"]
        self.tys = j["tys"]
        self.roots = j["roots"]
        self.generic = j["generic"]
        for i in self.insts:
            i["name"] = strip_generics(i["pp"])
        self._loops = {}

    def ty(self, t):
        return self.tys[t]

    def find(self, pred):
        return [i for i in self.insts if pred(i)]

    def loops(self, inst):
        n = inst["i"]
        if n not in self._loops:
            self._loops[n] = find_loops(inst["body"])
        return self._loops[n]


def strip_generics(s):
    """`<std::vec::Vec<T, A> as std::ops::Deref>::deref` -> `Vec as Deref::deref`-like key."""
    # remove generic argument lists but keep the outermost <.. as ..>
    out = []
    depth = 0
    keep = []
    i = 0
    n = len(s)
    while i < n:
        c = s[i]
        if c == "<":
            prev = s[i - 1] if i else ""
            if i == 0 or (i >= 2 and s[i - 2:i] == "::" and False):
                keep.append(True)
                out.append("<")
            else:
                keep.append(False)
                depth += 1
        elif c == ">" and i and s[i - 1] != "-":
            if keep:
                k = keep.pop()
                if k:
                    out.append(">")
                else:
                    depth -= 1
        else:
            if depth == 0:
                out.append(c)
        i += 1
    r = "".join(out)
    r = r.replace("::::", "::")
    if r.endswith("::"):
        r = r[:-2]
    return r


def succs(t):
    k = t[0]
    if k == "goto":
        return [t[1]]
    if k == "switch":
        return [x[1] for x in t[3]] + [t[4]]
    if k == "call":
        return [t[4]] if t[4] >= 0 else []
    if k == "assert":
        return [t[4]]
    if k == "drop":
        return [t[2]]
    return []


def find_loops(body):
    """head block -> set of blocks (natural loops, merged per head)."""
    bbs = body["bbs"]
    n = len(bbs)
    sc = [succs(b["t"]) for b in bbs]
    # reachable + dominators (simple iterative)
    order = []
    seen = set()
    stack = [(0, iter(sc[0]))]
    seen.add(0)
    while stack:
        b, it = stack[-1]
        for s in it:
            if s not in seen:
                seen.add(s)
                stack.append((s, iter(sc[s])))
                break
        else:
            order.append(b)
            stack.pop()
    rpo = order[::-1]
    pos = {b: i for i, b in enumerate(rpo)}
    preds = {b: [] for b in rpo}
    for b in rpo:
        for s in sc[b]:
            preds[s].append(b)
    idom = {0: 0}
    ch = True
    while ch:
        ch = False
        for b in rpo[1:]:
            new = None
            for p in preds[b]:
                if p in idom:
                    if new is None:
                        new = p
                    else:
                        x, y = new, p
                        while x != y:
                            while pos[x] > pos[y]:
                                x = idom[x]
                            while pos[y] > pos[x]:
                                y = idom[y]
                        new = x
            if idom.get(b) != new:
                idom[b] = new
                ch = True

    def dom(a, b):
        while True:
            if a == b:
                return True
            if b == 0:
                return False
            b = idom[b]

    loops = {}
    for b in rpo:
        for s in sc[b]:
            if dom(s, b):
                blocks = loops.setdefault(s, {s})
                st = [b]
                while st:
                    x = st.pop()
                    if x in blocks:
                        continue
                    blocks.add(x)
                    st.extend(preds[x])
    return loops


def fmt_place(p):
    s = "_%d" % p[0]
    for e in p[1]:
        if e[0] == "*":
            s = "(*%s)" % s
        elif e[0] == "f":
            s += ".%d" % e[1]
        elif e[0] == "d":
            s += "@%d" % e[1]
        else:
            s += "[%s]" % (e,)
    return s


def fmt_op(o):
    if o[0] in ("copy", "move"):
        return o[0][0] + " " + fmt_place(o[1])
    return "const %s" % (o[2:],)


def dump(prog, inst):
    b = inst["body"]
    out = ["fn %s  [%s] argc=%d" % (inst["s"], b["span"], b["argc"])]
    for i, l in enumerate(b["locals"]):
        out.append("  _%d: %s" % (i, prog.tys[l]["s"]))
    for i, bb in enumerate(b["bbs"]):
        if bb["c"]:
            continue
        out.append(" bb%d:" % i)
        for s in bb["s"]:
            if s[0] == "=":
                r = s[2]
                out.append("   %s = %s" % (fmt_place(s[1]), fmt_rv(prog, r)))
            elif s[0] not in ("live", "dead"):
                out.append("   %s" % (s,))
        t = bb["t"]
        if t[0] == "call":
            c = t[1]
            nm = prog.insts[c[1]]["s"] if c[0] == "fn" else str(c)
            out.append("   %s = call %s(%s) -> bb%d" % (fmt_place(t[3]), nm, ", ".join(map(fmt_op, t[2])), t[4]))
        else:
            out.append("   %s" % (t,))
    return "\n".join(out)


def fmt_rv(prog, r):
    if r[0] == "use":
        return fmt_op(r[1])
    if r[0] == "ref":
        return "&%s%s" % ("mut " if r[1] else "", fmt_place(r[2]))
    if r[0] == "agg":
        return "agg %s(%s)" % (r[1], ", ".join(map(fmt_op, r[2])))
    return str(r)
