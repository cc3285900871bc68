"""Runs the check of one property: export, analyse, compare, report."""
import json, os, re, signal, subprocess, sys, time, traceback, fcntl, shutil

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VP_REPO", "/repo")
BUILD = os.environ.get("VP_BUILD", os.path.join(HERE, ".build"))
sys.setrecursionlimit(20000)


class Broken(Exception):
    """the current source cannot be analysed (e.g. it does not compile)"""


class Ctx:
    def __init__(self, tier):
        self.tier = tier
        self.base = os.path.join(BUILD, "out.%d" % os.getpid())
        self.progs = {}
        self.cache = {}
        self.repo = REPO

    FILES = {"root": "graphviz_rust", "bare": "graphviz_rust", "structures": "dot_structures", "macros": "vp_macros", "derive": "vp_derive"}

    def prog(self, kind):
        if kind not in self.progs:
            from .mir import Prog

            os.makedirs(BUILD, exist_ok=True)
            out = os.path.join(self.base, kind)
            with open(os.path.join(BUILD, "lock"), "w") as lock:
                fcntl.flock(lock, fcntl.LOCK_EX)
                r = subprocess.run(
                    [os.path.join(HERE, "bin", "export.sh"), out, kind],
                    stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True,
                )
            f = os.path.join(out, self.FILES[kind] + ".json")
            if r.returncode or not os.path.exists(f):
                raise Broken("export of %s failed (%d):\n%s" % (kind, r.returncode, r.stdout[-400000:]))
            self.progs[kind] = Prog(f)
        return self.progs[kind]

    def witness(self, kind, toml, make):
        """Writes the witness crate `make(skip)` -> (source, rows) into the build directory and exports it.
        Witness functions (two lines per row, named ?_ROW) which do not compile are left out.
        -> (program, rows, {row: message})"""
        d = os.path.join(BUILD, "wit", kind)
        os.makedirs(os.path.join(d, "src"), exist_ok=True)
        with open(os.path.join(d, "Cargo.toml"), "w") as f:
            f.write(toml.format(repo=os.path.abspath(self.repo)))
        lost = {}
        try:
            for _ in range(12):
                src, rows = make(lost)
                with open(os.path.join(d, "src", "lib.rs"), "w") as f:
                    f.write(src)
                os.environ["VP_WITNESS"] = d
                try:
                    return self.prog(kind), rows, lost
                except Broken as e:
                    lines = src.split("\n")
                    new = {}
                    for m in re.finditer(r"^error(?:\[\w+\])?: (.*)\n((?:(?!error).*\n)*?)\s*--> src/lib\.rs:(\d+):", str(e), re.M):
                        k = re.match(r"pub .*?\bfn [wx]_(\d+)\(", lines[int(m.group(3)) - 1])
                        if k and int(k.group(1)) not in lost:
                            new[int(k.group(1))] = m.group(1)
                    if not new:
                        raise
                    lost.update(new)
            raise Broken("too many witnesses do not compile")
        finally:
            pass

    def memo(self, key, fn):
        if key not in self.cache:
            self.cache[key] = fn()
        return self.cache[key]

    def source(self, rel):
        p = os.path.join(self.repo, rel)
        if not os.path.exists(p):
            raise Broken("%s is missing" % rel)
        return open(p, encoding="utf-8").read()

    def close(self):
        shutil.rmtree(self.base, ignore_errors=True)


class Report:
    def __init__(self, pid):
        self.pid = pid
        self.violations = []  # (key, where, message)
        self.counts = {}
        self.samples = []
        self.explain = ""
        self.assumptions = []
        self.floors = {}

    def bad(self, key, where, msg):
        self.violations.append((key, where, msg))

    def count(self, name, n=1):
        self.counts[name] = self.counts.get(name, 0) + n

    def floor(self, name, n):
        """an analysis that found less than this analysed nothing worth the name"""
        self.floors[name] = n


def known_findings(pid):
    """[(key substring, description)] recorded as findings (not repaired)"""
    p = os.path.join(HERE, "known-findings.jsonl")
    out = []
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if not l or l.startswith("#"):
                continue
            j = json.loads(l)
            if j.get("property") == pid and j.get("status") == "known":
                out.append((j["key"], j["what"]))
    return out


def out_of_time(*_):
    raise Broken("the analysis did not come to an end in the time it has: the code is beyond what it can follow")


def main(argv):
    if not argv:
        print("usage: check ID [quick|thorough]", file=sys.stderr)
        return 2
    pid = argv[0]
    tier = argv[1] if len(argv) > 1 else os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    t0 = time.time()
    from . import checks

    fn, level = checks.REGISTRY[pid]
    ctx = Ctx(tier)
    rep = Report(pid)
    limit = 720 if tier == "quick" else 10800
    signal.signal(signal.SIGALRM, out_of_time)
    signal.alarm(limit)
    try:
        fn(ctx, rep)
        signal.alarm(0)
        for k, n in rep.floors.items():
            if rep.counts.get(k, 0) < n:
                rep.bad("floor|" + k, "-", "only %d %s were analysed, at least %d are needed: the code this property is anchored in was not found" % (rep.counts.get(k, 0), k, n))
    except Broken as e:
        rep.bad("broken", "-", str(e)[-4000:])
    except Exception as e:  # fail closed: an analysis that breaks down decides nothing
        traceback.print_exc()
        rep.bad("analysis", "-", "the analysis could not be completed: %s: %s" % (type(e).__name__, e))
    finally:
        signal.alarm(0)
        ctx.close()
    known = known_findings(pid)
    new, old = [], []
    for v in rep.violations:
        k = [w for key, w in known if key == v[0]]
        (old if k else new).append(v)
    for key, what in known:
        if any(v[0] == key for v in old):
            print("KNOWN-FINDING: property=%s %s" % (pid, what))
    cov = dict(rep.counts)
    cov["explanation"] = rep.explain
    cov["samples"] = rep.samples[:12]
    if level == "proof":
        cov.setdefault("obligations", 0)
        cov.setdefault("discharged", 0)
    ev = {
        "property": pid, "tier": tier, "seed": seed, "level": level, "coverage": cov,
        "wall_s": round(time.time() - t0, 3), "violations": len(new), "assumptions": rep.assumptions,
    }
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    p = os.path.join(HERE, "evidence", pid + ".json")
    with open(p + ".tmp", "w") as f:
        json.dump(ev, f, indent=1)
    os.replace(p + ".tmp", p)
    if not new:
        print("OK property=%s %s" % (pid, json.dumps(rep.counts)))
        return 0
    rp = os.path.join(HERE, "evidence", pid + ".violations.txt")
    with open(rp, "w") as f:
        for key, where, msg in new:
            f.write("%s\n  at %s\n  %s\n\n" % (key, where, msg))
    seen = set()
    for key, where, msg in new[:40]:
        if key in seen:
            continue
        seen.add(key)
        print("  %s: %s" % (where, msg[:1200]))
    print("VIOLATION property=%s replay=%s" % (pid, rp))
    return 1


if __name__ == "__main__":
    sys.exit(main(sys.argv[1:]))
