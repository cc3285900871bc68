"""Running the Graphviz program: src/cmd.rs, exec and exec_dot."""
from .checks import check
from . import models
from .interp import Interp, Hooks, St, absorb
from .terms import *
from .effects import effects_of

LAYOUTS = {"dot", "neato", "twopi", "circo", "fdp", "osage", "patchwork", "sfdp", "nop", "nop1", "nop2"}
FORMATS = set(
    "bmp cgimage canon dot gv xdot xdot1.2 xdot1.4 eps exr fig gd gd2 gif gtk ico imap imap_np cmap cmapx cmapx_np ismap "
    "jpg jpeg jpe jp2 json json0 dot_json xdot_json pdf pic pct pict plain plain-ext png pov ps ps2 psd sgi svg svgz svg_inline tga "
    "tif tiff tk vml vmlz vrml vt vt-24bit vt-4up vt-6up vt-8up wbmp webp x11 xlib ascii kitty kittyz vdx".split()
)
# what a variant means, where the variant's own name does not say it
NAMES = {
    "Asage": "osage", "Vbmp": "wbmp", "Xdot12": "xdot1.2", "Xdot14": "xdot1.4", "ImapNp": "imap_np", "CmapxNp": "cmapx_np",
    "DotJson": "dot_json", "XdotJson": "xdot_json", "PlainExt": "plain-ext",
}


def has_tmp(v):
    return any(x and x[0] == "tmp" for x in walk(v))


class CHooks(Hooks):
    def __init__(self, argty, cut=True):
        self.argty = argty
        self.cut = cut
        self.preps = {}

    def call(self, I, ci, args, st, fid, site, dty, loc):
        if "body" in ci and ci["ik"] == "item" and ci["p"] in ("graphviz_rust::parse", "parse"):
            # reading DOT text is judged elsewhere (C01-C09): here it may give a graph or fail
            g = ("op", "parse", tuple(I.deref(st, x) for x in args))
            out = []
            for s2, b in I.split(st, ("p", "ok", g)):
                out.append((s2, models.ok(g) if b else models.err(("op", "parse error", (g,)))))
            return out
        if not self.cut or "body" not in ci or len(args) != 1 or dty is None or not I.is_str_ty(dty):
            return None
        if ci["dk"] == "Closure":
            return None
        v = I.deref(st, args[0])
        if v[0] == "sym" and I.tyk(v[2])["s"] == self.argty:
            self.preps[ci["s"]] = ci
            return [(st, ("S", (("prep", v[1]),)))]
        return None

    def on_drop(self, I, st, v, ty, loc):
        for x in walk(v):
            if x and x[0] == "tmp":
                s = st.copy()
                s.ev = s.ev + (("e", ("ev", "drop", x)),)
                return s
        return None

    def on_forget(self, I, st, v, loc):
        for x in walk(v):
            if x and x[0] == "tmp":
                s = st.copy()
                s.ev = s.ev + (("e", ("ev", "keep", x)),)
                return s
        return None


def fn_named(prog, want):
    c = [i for i in prog.insts if i["s"] == want and "body" in i]
    return c[0] if c else None


def arg_type(prog):
    for i, t in enumerate(prog.tys):
        if t["k"] == "adt" and t["s"].split("::")[-1] == "CommandArg":
            return t
    return None


def crate_fn(prog, name):
    """a free public function of the crate root (printed as crate::name or name)"""
    for i in prog.insts:
        if "body" in i and i["p"] in ("graphviz_rust::" + name, name) and i["ik"] == "item":
            return i
    return None


class CmdAnalysis:
    """all paths of exec_dot on a symbolic text and symbolic arguments"""

    def __init__(self, prog):
        self.prog = prog
        self.at = arg_type(prog)
        self.fail = []
        self.paths = 0
        self.preps = {}
        self.run()

    def bad(self, kind, msg, loc="src/cmd.rs"):
        self.fail.append((kind, loc, msg))

    def run(self):
        ci = crate_fn(self.prog, "exec_dot")
        if ci is None or self.at is None:
            self.bad("anchor", "the public function that runs Graphviz on a text, or its argument type, was not found")
            return
        h = CHooks(self.at["s"])
        I = Interp(self.prog, h)
        b = ci["body"]
        args = [I.materialise((("a%d" % k),), b["locals"][k + 1]) for k in range(b["argc"])]
        self.text, self.args = args[0], args[1]
        self.outs = I.run_fn(ci, args, St())
        self.I = I
        self.preps = h.preps
        self.paths = len(self.outs)
        self.panics = [p for p in I.panics]
        self.callsites = I.callsites
        self.analysed = {self.prog.insts[x]["s"] for x in I.analysed if isinstance(x, int)}
        self.graph_entry()
        self.both = self.outs + self.gouts

    def graph_entry(self):
        """the same for exec: what the graph given prints, under the context given, is the symbolic text"""
        self.gouts, self.printed, self.prints = [], [], 0
        ex = crate_fn(self.prog, "exec")
        if ex is None:
            self.bad("anchor", "the public function that runs Graphviz on a graph was not found", "src/lib.rs")
            return
        a = self

        class H(CHooks):
            def call(self, I, ci, args, st, fid, site, dty, loc):
                if ci.get("trait", "").endswith("printer::DotPrinter") and ci.get("method") == "print":
                    g = I.deref(st, args[0])
                    a.prints += 1
                    if g == a.graph and args[1] == a.ctxref and st.mem.get(("in", 1)) == a.before:
                        return [(st, ("S", (("txt", a.text[1][0][1]),)))]
                    a.printed.append((loc, g))
                    return [(st, ("S", (("op", "print", (g,)),)))]
                return CHooks.call(self, I, ci, args, st, fid, site, dty, loc)

        h = H(self.at["s"])
        I = Interp(self.prog, h)
        b = ex["body"]
        st = St()
        self.graph = I.materialise(("g",), b["locals"][1])
        st.mem[("in", 1)] = I.materialise(("ctx",), self.prog.tys[b["locals"][2]]["t"])
        self.ctxref = ("ref", ("in", 1), ())
        self.before = st.mem[("in", 1)]
        self.gouts = I.run_fn(ex, [self.graph, self.ctxref, I.materialise(("a1",), b["locals"][3])], st)
        self.preps.update(h.preps)
        self.paths += len(self.gouts)
        self.panics += I.panics


def analysis(ctx):
    return ctx.memo("cmd", lambda: CmdAnalysis(ctx.prog("root")))


def evs(st):
    """the events of a path, in order; a loop's events appear as one range"""
    return [e[1] if e[0] == "e" else ("ev", "repeated", e) for e in st.ev]


def fails(st):
    """what failed on this path: [(rid)]"""
    out = []
    for p, v in st.facts.items():
        if p[0] == "p" and p[1] in ("ok", "started") and v is False:
            out.append(p[2])
    return out


def is_io_error(v, rids):
    """the io error of one of the failed operations, as it was"""
    if v[0] == "op" and v[1] == "io error" and v[2] and v[2][0] in rids:
        return True
    if v[0] == "op" and v[1] == "io::Error::from" and v[2]:
        return is_io_error(v[2][0], rids)
    return False


def where(st):
    from .matching import facts_str

    return facts_str(st)[:300]


def common(rep, a):
    rep.count("paths", a.paths)
    rep.count("call_sites", getattr(a, "callsites", 0))
    rep.count("functions", len(getattr(a, "analysed", ())))
    rep.explain = (
        "Abstract interpretation of the resolved MIR of the public execution functions on a symbolic text and argument list, "
        "with every fallible library call split into success and failure: the ordered effects of every path and its result are "
        "compared with what the outcome of the calls requires."
    )
    rep.assumptions = [
        "std::process, std::io and the tempfile crate behave as documented (transfer functions in vp/models.py)",
        "a NamedTempFile / TempPath removes its file when dropped or closed, and not before",
    ]
    for k, l, m in a.fail:
        rep.bad(k, l, m)
    rep.floor("paths", 6)


def carries(t, want):
    """is the value in there whole, not cut, trimmed or changed?"""
    if t == want:
        return True
    if not isinstance(t, tuple) or not t:
        return False
    if t[0] == "op" and t[1] not in ("utf8", "text", "box", "io::Error", "string", "into"):
        return False
    return any(carries(x, want) for x in t)


@check("C20")
def c20(ctx, rep):
    a = analysis(ctx)
    common(rep, a)
    if a.fail:
        return
    n = 0
    for st, v in a.both:
        runs = [e for e in evs(st) if e[0] == "ev" and e[1] in ("output", "status", "spawn", "wait_with_output", "wait")]
        rids = fails(st)
        spawns = [e for e in runs if e[1] == "spawn"]
        if len(spawns) > 1:
            rep.bad("run-twice", "src/cmd.rs", "the program must be run once, it is started %d times" % len(spawns))
            continue
        if v[0] != "agg" or not v[1].endswith("result::Result"):
            rep.bad("result", "src/cmd.rs", "the result is not understood: %s" % show(v))
            continue
        isok, x = v[2] == 0, v[3][0]
        n += 1
        if spawns:
            # started first, its output collected later
            rid = ("spawn", evs(st).index(spawns[0]))
            if st.facts.get(("p", "started", rid)) is False:
                if isok or not is_io_error(x, rids):
                    rep.bad("start-error-lost", "src/cmd.rs", "the error of starting the program is not returned: result %s" % show(v))
                continue
            runs = [e for e in runs if e[1] != "spawn"]
            if not runs:
                rep.bad("not-waited", "src/cmd.rs", "the program is started and its output is not collected [when %s]" % where(st))
                continue
            if any(st.facts.get(("p", "ok", ("output", i))) is False for i in range(len(evs(st)))):
                if isok or not is_io_error(x, rids):
                    rep.bad("io-error-lost", "src/cmd.rs", "the error of collecting the output is not returned: result %s" % show(v))
                continue
        if not runs:
            if not rids:
                rep.bad("not-run", "src/cmd.rs", "nothing failed and the program was not started [when %s]" % where(st))
            elif isok or not is_io_error(x, rids):
                rep.bad("io-error-lost", "src/cmd.rs", "an I/O error before the program starts is not returned: result %s [when %s]" % (show(v), where(st)))
            continue
        if len(runs) > 1 or runs[0][1] != "output":
            rep.bad("run-twice", "src/cmd.rs", "the program must be run once and its output collected, found %s" % [e[1] for e in runs])
            continue
        rid = ("output", evs(st).index(runs[0]))
        started = st.facts.get(("p", "started", rid))
        succ = st.facts.get(("p", "success", ("op", "status", (rid,))))
        if started is False:
            if isok or not is_io_error(x, rids):
                rep.bad("start-error-lost", "src/cmd.rs", "the error of starting the program is not returned: result %s" % show(v))
            continue
        if rids and not isok and is_io_error(x, rids):
            continue  # something else failed as well (removing the file): its error may be returned
        if isok:
            if succ is not True:
                rep.bad("failure-hidden", "src/cmd.rs", "Ok is returned although the program may have failed (%s) [when %s]" % ("status not looked at" if succ is None else "status not successful", where(st)))
            elif x != ("op", "stdout", (rid,)):
                rep.bad("stdout", "src/cmd.rs", "the bytes returned are %s, not what the program wrote to its standard output" % show(x))
            elif rids and not set(r[0] for r in rids) <= {"close"}:
                rep.bad("io-error-lost", "src/cmd.rs", "Ok is returned although %s failed" % show(("tup", tuple(rids))))
        else:
            if succ is True:
                rep.bad("success-lost", "src/cmd.rs", "an error is returned although the program succeeded [when %s]" % where(st))
            elif succ is None:
                rep.bad("failure-hidden", "src/cmd.rs", "an error is returned without looking at the exit status [when %s]" % where(st))
            elif not (x[0] == "op" and x[1] == "io::Error" and len(x[2]) == 2):
                rep.bad("error", "src/cmd.rs", "the error returned for a failed run is %s" % show(x))
            else:
                t = x[2][1]
                if not carries(t, ("op", "stderr", (rid,))):
                    rep.bad("stderr", "src/cmd.rs", "the error for a failed run does not carry what the program wrote to its standard error: %s" % show(t))
                k = x[2][0]
                if k != ("op", "kind", ()) and not (k[0] == "agg" and kind_name(a.prog, k) == "Other"):
                    rep.bad("kind", "src/cmd.rs", "the error for a failed run has kind %s, not Other" % kind_name(a.prog, k))
    for p in a.panics:
        rep.bad("panic", p["loc"], "running Graphviz can panic: %s in %s" % (p["msg"], p["stack"][-1:]))
    rep.count("results_compared", n)
    rep.samples = ["%s => %s" % (where(s), show(v)[:200]) for s, v in a.both[:8]]


def kind_name(prog, k):
    if k[0] != "agg":
        return show(k)
    for t in prog.tys:
        if t["k"] == "adt" and t["p"] == k[1] and t.get("vs"):
            return t["vs"][k[2]]["n"]
    return show(k)


ALLOWED = {"tempfile", "write_all", "spawn", "output", "close", "drop", "flush"}


@check("C21")
def c21(ctx, rep):
    a = analysis(ctx)
    common(rep, a)
    if a.fail:
        return
    n = 0
    for st, v in a.both:
        es = evs(st)
        tmp = None
        state = "none"  # none -> made -> written -> run -> gone
        want = textof(a.text)
        for i, e in enumerate(es):
            if e[0] != "ev":
                if has_tmp(e) or touches_system(e):
                    rep.bad("effect|" + str(e[1])[:60], "src/cmd.rs", "unexpected effect: %s" % show(e)[:200])
                continue
            k = e[1]
            n += 1
            okf = st.facts.get(("p", "ok", ({"write_all": "write"}.get(k, k), i)))
            if k not in ALLOWED:
                rep.bad("effect|" + k, "src/cmd.rs", "running Graphviz does something it should not: %s" % show(("tup", tuple(e[1:])))[:200])
            elif k == "tempfile":
                if okf is False:
                    continue
                if tmp is not None:
                    rep.bad("second-file", "src/cmd.rs", "more than one temporary file is made")
                if len(e) > 2:
                    rep.bad("file-place", "src/cmd.rs", "the temporary file is made with parameters: %s" % show(("tup", tuple(e[2:]))))
                tmp, state = ("tmp", ("tempfile", i), "file"), "made"
            elif k == "write_all":
                if tmp is None or e[2] != tmp:
                    rep.bad("write-elsewhere", "src/cmd.rs", "something else than the temporary file is written: %s" % show(e[2]))
                elif okf is not False:
                    if state != "made":
                        rep.bad("write-state", "src/cmd.rs", "the file is written in state '%s'" % state)
                    if textof(e[3]) != want:
                        rep.bad("content", "src/cmd.rs", "what is written is %s, not the text given" % show(e[3]))
                    state = "written"
            elif k == "spawn":
                if state != "written":
                    rep.bad("run-state", "src/cmd.rs", "the program is started when the file is '%s' [%s]" % (state, where(st)))
                else:
                    state = "running" if st.facts.get(("p", "started", ("spawn", i))) else "run"
            elif k == "output":
                if state == "running":
                    state = "run"
                elif state != "written":
                    rep.bad("run-state", "src/cmd.rs", "the program is started when the file is '%s' [%s]" % (state, where(st)))
                else:
                    state = "run"
            elif k in ("close", "drop"):
                if state == "gone":
                    continue
                if state == "running" or state == "written" and any(x[0] == "ev" and x[1] == "output" for x in es[i:]):
                    rep.bad("removed-early", "src/cmd.rs", "the file is removed before the program has read it")
                state = "gone"
        if tmp is not None and state != "gone":
            rep.bad("leak", "src/cmd.rs", "the temporary file stays behind on this path [when %s]" % where(st))
    rep.count("effects_ordered", n)
    rep.samples = [" ; ".join(show(("tup", tuple(e[1:])))[:120] for e in evs(s)) for s, v in a.both[:6]]


def textof(v):
    if v[0] == "S":
        return v[1]
    if v[0] == "bytes":
        return lit(bytes(v[1]).decode("utf8", "replace"))[1]
    return (("val", v),)


def touches_system(e):
    return any(isinstance(x, str) and any(k in x for k in ("process", "fs::", "env::", "net::")) for x in e)


@check("C22")
def c22(ctx, rep):
    a = analysis(ctx)
    common(rep, a)
    if a.fail:
        return
    n = 0
    argpath = a.args[1]
    for st, v in a.both:
        for i, e in enumerate(evs(st)):
            if e[0] != "ev" or e[1] != "output":
                continue
            n += 1
            c = e[2]
            if c[0] != "cmd":
                rep.bad("command", "src/cmd.rs", "the command is not understood: %s" % show(c)[:200])
                continue
            if textof(c[1]) != lit("dot")[1]:
                rep.bad("program", "src/cmd.rs", "the program started is %s, not dot" % show(c[1]))
            for cfg in c[3]:
                if cfg[0] not in ("stdin", "stdout", "stderr") or "inherit" in show(("tup", cfg[1:])):
                    rep.bad("config|" + cfg[0], "src/cmd.rs", "the program is started with a changed %s" % cfg[0])
            parts = list(c[2][1])
            if not parts or parts[-1][0] != "e" or not is_path_of_tmp(parts[-1][1]):
                rep.bad("input-last", "src/cmd.rs", "the last argument is not the path of the temporary file: %s" % (show_part(parts[-1]) if parts else "no argument"))
                continue
            check_args(rep, a, st, absorb(parts[:-1]), argpath)
    rep.count("commands_compared", n)
    preps_ok(rep, a, "text")
    rep.floor("commands_compared", 1)


def is_path_of_tmp(v):
    if v[0] == "tmp":
        return True
    if v[0] == "op" and v[1] in ("path", "as path") and v[2]:
        return is_path_of_tmp(v[2][0])
    if v[0] == "S" and len(v[1]) == 1 and v[1][0][0] == "op" and v[1][0][1] == "path":
        return any(x and x[0] == "tmp" for x in walk(v))
    return False


def check_args(rep, a, st, parts, argpath):
    I = a.I
    n = ("len", argpath)
    empty = I.decide(st, ("eq0", sym(n))) is True
    if empty and not parts:
        return
    if len(parts) != 1 or parts[0][0] != "range":
        rep.bad("args-shape", "src/cmd.rs", "the arguments are not passed one for one: %s [when %s]" % (" ".join(map(show_part, parts))[:300], where(st)))
        return
    p = parts[0]
    if p[2] != lin(0) or not (p[3] == sym(n) or I.decide(st, ("eq0", I.norm(lsub(p[3], sym(n))))) is True):
        rep.bad("args-range", "src/cmd.rs", "not every argument is passed: %s" % show_part(p)[:300])
        return
    k = ("k", p[1])
    alts = p[4]
    if not isinstance(alts, tuple) or not alts or alts[0] == "?":
        rep.bad("args-shape", "src/cmd.rs", "the arguments are not passed in order: %s" % show_part(p)[:300])
        return
    for g, b in alts:
        if len(b) != 1 or b[0][0] != "e":
            rep.bad("args-shape", "src/cmd.rs", "an argument is passed as %d arguments: %s" % (len(b), show_part(p)[:300]))
            continue
        t = textof(b[0][1])
        want = argpath + (("ix", sym(k)),)
        if t == (("prep", want),):
            continue
        # written out in place: compare with the table
        var = [f for f in g if f[0][0] == "var" and f[0][1] == want]
        exp = expected(I, a.at, want, dict(g))
        if exp is None or exp != t:
            rep.bad("arg-text", "src/cmd.rs", "argument k is passed as %s [when %s]" % (show(("S", t)), var))


def variant_list(prog, t):
    ty = prog.tys[t]
    return [(v["n"], v["f"]) for v in ty["vs"]] if ty["k"] == "adt" and ty.get("vs") else []


def expected(I, at, path, facts):
    """the command line text of a CommandArg"""
    vi = facts.get(("var", path))
    if vi is None:
        return None
    v = at["vs"][vi]
    name = v["n"]
    if name in ("Custom", "Output"):
        p = ("txt", path + (("v", name, v["f"][0][0]),))
        return ((p,) if name == "Custom" else (("lit", "-o"), p))
    if name in ("Layout", "Format") and len(v["f"]) == 1:
        sub = path + (("v", name, v["f"][0][0]),)
        sv = facts.get(("var", sub))
        vs = variant_list(I.prog, v["f"][0][1])
        if sv is None or not vs:
            return None
        n = vs[sv][0]
        return (("lit", ("-K" if name == "Layout" else "-T") + NAMES.get(n, n.lower())),)
    return None


def prep_runs(a):
    """(fn, state, text) of every path of every function that turns an argument into text"""
    out = []
    for name, ci in sorted(a.preps.items()):
        I = Interp(a.prog, CHooks(a.at["s"], cut=False))
        b = ci["body"]
        t = b["locals"][1]
        ty = a.prog.tys[t]
        st = St()
        root = ("arg",)
        if ty["k"] == "ref":
            st.mem[("in", 0)] = I.materialise(root, ty["t"])
            arg = ("ref", ("in", 0), ())
        else:
            arg = I.materialise(root, t)
        for s, v in I.run_fn(ci, [arg], st):
            out.append((name, I, s, v))
        for p in I.panics:
            out.append((name, I, None, p))
    return out


def preps(a):
    if not hasattr(a, "_preps"):
        a._preps = prep_runs(a)
    return a._preps


def preps_ok(rep, a, what):
    rs = preps(a)
    root = ("arg",)
    for name, I, s, v in rs:
        if s is None:
            rep.bad("panic", v["loc"], "turning an argument into text can panic: %s" % v["msg"])
            continue
        rep.count("argument_texts", 1)
        facts = dict(s.facts)
        exp = expected(I, a.at, root, facts)
        v = I.deref(s, v)
        got = textof(v)
        if exp is None:
            # every value of one kind behaves alike on this path
            vi = facts.get(("var", root))
            if vi is None:
                rep.bad("arg-kind", "src/cmd.rs", "%s does not distinguish the kinds of arguments: %s" % (name, show(v)))
            else:
                rep.bad("arg-kind|" + a.at["vs"][vi]["n"], "src/cmd.rs", "%s gives %s for every %s argument" % (name, show(v), a.at["vs"][vi]["n"]))
            continue
        if cat(got) != cat(exp):
            kind = a.at["vs"][facts[("var", root)]]["n"]
            if what == "names" or kind in ("Custom", "Output") or not prefix_ok(got, exp):
                rep.bad("arg-text|%s|%s" % (kind, show(("S", exp))), "src/cmd.rs", "%s gives %s where %s is required" % (name, show(v), show(("S", exp))))
    rep.floor("argument_texts", 60)
    return rs


def prefix_ok(got, exp):
    return is_lit(got) and is_lit(exp) and lit_text(got)[:2] == lit_text(exp)[:2] and len(lit_text(got)) > 2


def made_of_names(rep, a):
    """what makes an argument of a layout or a format keeps which one it is"""
    kinds = {v["f"][0][1]: v["n"] for v in a.at["vs"] if v["n"] in ("Layout", "Format") and len(v["f"]) == 1}
    for ci in a.prog.insts:
        if "body" not in ci or ci["crate"] != a.prog.name or ci["dk"] == "Closure" or ci["body"]["argc"] != 1:
            continue
        b = ci["body"]
        if b["locals"][1] not in kinds or a.prog.tys[b["locals"][0]]["s"] != a.at["s"]:
            continue
        n = kinds[b["locals"][1]]
        I = Interp(a.prog, CHooks(a.at["s"], cut=False))
        x = I.materialise(("name",), b["locals"][1])
        for s, v in I.run_fn(ci, [x], St()):
            rep.count("conversions")
            v = I.deref(s, v)
            ok = v[0] == "agg" and a.at["vs"][v[2]]["n"] == n and same_name(I, s, v[3][0], x)
            if not ok:
                rep.bad("from|" + ci["s"], b["span"], "%s makes %s of a %s" % (ci["s"], show(v)[:200], n))
        for p in I.panics:
            rep.bad("panic", p["loc"], "making an argument can panic: %s" % p["msg"])
    rep.floor("conversions", 2)


def same_name(I, s, v, x):
    v = I.deref(s, v)
    if v == x:
        return True
    # written out: the variant the path knows it to be
    return v[0] == "agg" and not v[3] and s.facts.get(("var", x[1])) == v[2]


@check("C23")
def c23(ctx, rep):
    a = analysis(ctx)
    common(rep, a)
    if a.fail:
        return
    made_of_names(rep, a)
    rs = preps_ok(rep, a, "names")
    seen = {}
    for name, I, s, v in rs:
        if s is None:
            continue
        t = textof(I.deref(s, v))
        if not is_lit(t):
            continue
        t = lit_text(t)
        known = LAYOUTS if t.startswith("-K") else FORMATS if t.startswith("-T") else None
        if known is None:
            continue
        rep.count("names_checked")
        if t[2:] not in known:
            rep.bad("name|" + t, "src/cmd.rs", "%s is not a name Graphviz knows" % t)
        key = tuple(sorted((p, x) for p, x in s.facts.items() if p[0] == "var"))
        if t in seen and seen[t] != key:
            rep.bad("dup|" + t, "src/cmd.rs", "two different values are both passed as %s" % t)
        seen[t] = key
    rep.samples = sorted(seen)[:12]
    rep.floor("names_checked", 60)


@check("C24")
def c24(ctx, rep):
    prog = ctx.prog("root")
    rep.explain = (
        "Call graph of the resolved MIR: effects (processes, files, environment, network, output streams) reachable from every public "
        "function; abstract interpretation of exec against exec_dot applied to the printed text; the crate built without its execution "
        "feature and its call graph searched again."
    )
    a = analysis(ctx)
    for k, l, m in a.fail:
        rep.bad(k, l, m)
    if a.fail:
        return
    # 1. exec(g, ctx, args) == exec_dot(print(g, ctx), args)
    outs, before = a.gouts, a.before
    for loc, g in a.printed:
        rep.bad("exec-prints", loc, "what is printed is not the graph given, with the context given: %s" % show(g))
    A, B = shape(outs), shape(a.outs)
    rep.count("paths_compared", len(outs))
    if A != B:
        d = sorted(A ^ B)
        rep.bad("exec-differs", "src/lib.rs", "running on a graph differs from running on its printed text: %s" % (d[0][:400] if d else ""))
    if not a.prints:
        rep.bad("exec-prints", "src/lib.rs", "running on a graph does not print it")
    for s, v in outs:
        if s.mem.get(("in", 1)) != before:
            rep.bad("exec-context", "src/lib.rs", "running changes the printing context itself")
    # 2. effects
    entries, execs = public_entries(prog)
    rep.count("public_functions", len(entries) + len(execs))
    for e in entries:
        for eff, path in effects_of(prog, e):
            rep.bad("effect|%s|%s" % (e["p"], eff), e.get("loc", "src/lib.rs"), "%s can reach %s through %s" % (e["s"], eff, " > ".join(path[-4:])))
    got = set()
    for e in execs:
        got |= {k for k, _ in effects_of(prog, e)}
    rep.count("effects_seen_in_exec", len(got))
    rep.floor("effects_seen_in_exec", 2)
    rep.floor("public_functions", 50)
    rep.samples = [e["s"] for e in entries[:12]]
    # 3. without the feature
    bare = ctx.prog("bare")
    n = 0
    for e in bare.insts:
        if e["crate"] == bare.name and "body" in e and e["dk"] in ("Fn", "AssocFn") and e.get("pub"):
            n += 1
            for eff, path in effects_of(bare, e):
                rep.bad("bare|%s|%s" % (e["p"], eff), "src/lib.rs", "without the execution feature %s can still reach %s" % (e["s"], eff))
    rep.count("functions_without_feature", n)
    rep.floor("functions_without_feature", 50)


def shape(outs):
    """results and effects of all paths, with loop and frame numbers renamed"""
    import re

    out = set()
    for s, v in outs:
        evt = show(("tup", tuple(x for e in s.ev for x in [e[1] if e[0] == "e" else ("op", show_part(e), ())])))
        fx = sorted(show(("tup", (p,))) + "=" + str(x) for p, x in s.facts.items() if p[0] == "p")
        out.add(re.sub(r"\d+", "#", evt + " => " + show(v) + " | " + " ".join(fx)))
    return out


def public_entries(prog):
    entries, execs = [], []
    ex = {i["i"] for n in ("exec", "exec_dot") for i in [crate_fn(prog, n)] if i}
    for i in prog.insts:
        if "body" not in i or i["crate"] != prog.name or i["ik"] != "item":
            continue
        if i["i"] in ex:
            execs.append(i)
        elif i["dk"] in ("Fn", "AssocFn") and i.get("pub"):  # what nothing public reaches is dead
            entries.append(i)
    return entries, execs
