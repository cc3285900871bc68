"""Which parts of the input a path touches, and whether it touches one of them twice."""
from .terms import *


def items(parts, name, keep, env=None, where=(), out=None):
    """[(path, extra, {loop: (index, lo, hi)}, place)] of the events ("op", name, (("sym", path, ..), extra ..))"""
    env = env or {}
    out = [] if out is None else out
    for n, x in enumerate(parts):
        if x[0] == "e":
            v = x[1]
            if v[:2] == ("op", name) and keep(v[2][0][1], v[2][1:]):
                out.append((v[2][0][1], v[2][1:], env, where + (n,)))
        elif x[0] == "range":
            for j, (g, b) in enumerate(x[4]):
                items(b, name, keep, dict(env, **{repr(x[1]): (("k", x[1]), x[2], x[3])}), where + (n, ("case", x[1], j)), out)
        else:
            raise ValueError("events are not understood: %s" % show(x)[:200])
    return out


def only(parts, name):
    """are all events of this name"""
    for x in parts:
        if x[0] == "e":
            if x[1][:2] != ("op", name):
                return x[1]
        elif x[0] == "range":
            for g, b in x[4]:
                r = only(b, name)
                if r is not None:
                    return r
        else:
            return x
    return None


def ends(e, env):
    """the least and the greatest value of an index"""
    lo = hi = e
    for k, a, b in env.values():
        n = dict(e[2]).get(k, 0)
        if n:
            least, most = (a, ladd(b, lin(-1))) if n > 0 else (ladd(b, lin(-1)), a)
            lo = ladd(ladd(lo, sym(k), -n), least, n)
            hi = ladd(ladd(hi, sym(k), -n), most, n)
    return lo, hi


def apart(I, s, a, b):
    """are the parts a and b touch different ones"""
    for x, y in zip(a[0], b[0]):
        if x == y and not (isinstance(x, tuple) and x[0] == "ix"):
            continue
        if not (isinstance(x, tuple) and isinstance(y, tuple)):
            return True
        if x[0] == "c" and y[0] == "c":
            if x[1:3] != y[1:3]:
                return True
        elif x[0] == "ix" and y[0] == "ix":
            e, f = x[1], y[1]
            (l1, h1), (l2, h2) = ends(e, a[2]), ends(f, b[2])
            if I.ge0(s, lsub(lsub(l2, h1), lin(1))) or I.ge0(s, lsub(lsub(l1, h2), lin(1))):
                return True
            both = [k for k in a[2] if k in b[2] and e == f and dict(e[2]).get(a[2][k][0], 0)]
            cases = [(u, w) for u in a[3] for w in b[3] if isinstance(u, tuple) and isinstance(w, tuple)]
            if both and any(u[1] == w[1] and u[2] != w[2] for u, w in cases):
                return True  # another case of the same loop
        else:
            return True
    return False


def again(I, s, a):
    """a loop that may have several passes and touches the same part in each"""
    steps = [dict(x[1][2]) for x in a[0] if isinstance(x, tuple) and x[0] == "ix"]
    for k, lo, hi in a[2].values():
        if not any(d.get(k, 0) for d in steps) and not I.ge0(s, ladd(lsub(lo, hi), lin(1))):
            return True
    return False


def clash(I, s, its):
    """(a, a) or (a, b) of the parts touched twice, or None"""
    for i, a in enumerate(its):
        if again(I, s, a):
            return a, a
        for b in its[i + 1 :]:
            if not apart(I, s, a, b):
                return a, b
    return None
