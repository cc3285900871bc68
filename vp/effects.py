"""Effects reachable through the call graph of the resolved MIR."""

# (crate, path fragment) of library functions that touch something outside the values they are given
SYSTEM = [
    ("std", "std::process::", "a process"),
    ("std", "std::fs::", "the file system"),
    ("std", "std::env::", "the environment"),
    ("std", "std::net::", "the network"),
    ("std", "std::os::", "the operating system"),
    ("std", "std::io::stdio", "the standard streams"),
    ("std", "std::io::_print", "the standard streams"),
    ("std", "std::io::_eprint", "the standard streams"),
    ("std", "std::thread::", "threads"),
    ("std", "std::time::", "the clock"),
    ("tempfile", "tempfile::", "temporary files"),
    ("libc", "libc::", "the operating system"),
]


def effect_of(ci):
    for crate, frag, what in SYSTEM:
        if ci["crate"] == crate and (frag in ci["p"] or frag in ci["s"]):
            return what
    return None


def callees(prog, i):
    """instances an instance calls, drops or takes the address of"""
    c = i.get("_callees")
    if c is not None:
        return c
    out = set()
    b = i.get("body")
    if b:
        def op(o):
            if isinstance(o, list) and o and o[0] == "c" and isinstance(o[1], int):
                ty(o[1])

        def ty(t):
            k = prog.tys[t]
            if k["k"] == "fndef" and k.get("f", -1) >= 0:
                out.add(k["f"])

        for bb in b["bbs"]:
            for s in bb["s"]:
                if s[0] == "=":
                    scan(s[2], op)
            t = bb["t"]
            if t[0] == "call":
                if t[1][0] == "fn":
                    out.add(t[1][1])
                for a in t[2]:
                    op(a)
        for t in b["locals"]:
            k = prog.tys[t]
            if k["k"] == "closure":
                out |= closures(prog, k["def"])
            elif k["k"] == "fndef":
                ty(t)
    for x in i.get("fns", ()):
        if isinstance(x, list) and len(x) == 2 and isinstance(x[1], int) and x[1] >= 0:
            out.add(x[1])
    i["_callees"] = out
    return out


def closures(prog, d):
    m = getattr(prog, "_clos", None)
    if m is None:
        m = prog._clos = {}
        for i in prog.insts:
            if i["dk"] == "Closure":
                m.setdefault(i["p"], set()).add(i["i"])
    return m.get(d, set())


def scan(x, op):
    if isinstance(x, list):
        if x and x[0] == "c":
            op(x)
        for y in x:
            if isinstance(y, list):
                scan(y, op)


def reach(prog, starts):
    seen, work = set(starts), list(starts)
    while work:
        i = work.pop()
        for j in callees(prog, prog.insts[i]):
            if j not in seen:
                seen.add(j)
                work.append(j)
    return seen


def effects_of(prog, entry):
    """[(what, call chain)] reachable from an instance; one chain per effect"""
    seen = {entry["i"]: None}
    work = [entry["i"]]
    out = {}
    while work:
        i = work.pop(0)
        ci = prog.insts[i]
        e = effect_of(ci)
        if e is not None:
            if e not in out:
                chain, j = [], i
                while j is not None:
                    chain.append(prog.insts[j]["s"])
                    j = seen[j]
                out[e] = chain[::-1]
            continue
        for j in callees(prog, ci):
            if j not in seen:
                seen[j] = i
                work.append(j)
    return sorted(out.items())
