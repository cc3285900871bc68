#!/usr/bin/env python3
"""seed.py FILE : FILE defines SEEDS = [dict(id, property, needs, breaks, edits=[(file, old, new)], main=rust source | demo=script, extra={name: text})].
For each: makes the patch in a scratch copy of /repo, checks that it builds, passes the tests and that the demo tells both trees apart, and stores it in /verif/seeded/<id>."""
import sys, os, subprocess, shutil, json, importlib.util, tempfile
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
spec = importlib.util.spec_from_file_location("s", sys.argv[1]); m = importlib.util.module_from_spec(spec); spec.loader.exec_module(m)
sub = sys.argv[2:] 
W = "/tmp/seedwork"
base = json.load(open("/opt/vp/BASELINE.json"))
def sh(c, cwd, **k): return subprocess.run(c, cwd=cwd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)
for s in m.SEEDS:
    if sub and s["id"] not in sub: continue
    d = os.path.join(H, "seeded", s["id"])
    shutil.rmtree(W, ignore_errors=True)
    subprocess.run(["cp", "-a", "/repo", W], check=True)
    os.makedirs(d, exist_ok=True)
    for k, v in s.get("extra", {}).items(): open(os.path.join(d, k), "w").write(v)
    if "main" in s:
        open(os.path.join(d, "main.rs"), "w").write(s["main"]); shutil.copy(os.path.join(H, "tools", "demo.sh"), d)
    else:
        open(os.path.join(d, "demo.sh"), "w").write(s["demo"])
    os.chmod(os.path.join(d, "demo.sh"), 0o755)
    json.dump({"property": s["property"], "needs": s["needs"], "what_it_breaks": s["breaks"]}, open(os.path.join(d, "meta.json"), "w"), indent=1)
    demo = os.path.join(d, "demo.sh")
    r0 = sh("bash " + demo, W)
    ok = True
    for f, a, b in s["edits"]:
        p = os.path.join(W, f); t = open(p).read()
        if t.count(a) < 1: print(s["id"], "EDIT FAILED", a[:80]); ok = False; break
        open(p, "w").write(t.replace(a, b, 1))
    if not ok: continue
    diff = subprocess.run(["git", "-C", W, "diff"], stdout=subprocess.PIPE, text=True).stdout
    open(os.path.join(d, "patch.diff"), "w").write(diff)
    fails = []
    for c in ["dot-structures", "dot-generator", "into-attr", "into-attr-derive", "."]:
        r = sh(". /opt/vp/env.sh; cd $PWD; cargo test --workspace --offline 2>&1 | tail -40", os.path.join(W, c))
        if "FAILED" in r.stdout or "error:" in r.stdout or "error[" in r.stdout: fails.append(c + ": " + r.stdout[-600:])
    r1 = sh("bash " + demo, W)
    print(s["id"], "tests", "PASS" if not fails else "FAIL " + fails[0], "| demo base", r0.returncode, "patched", r1.returncode, "OK" if r0.returncode == 0 and r1.returncode != 0 and not fails else "BAD")
    if r0.returncode: print(r0.stdout[-1500:])
    if r1.returncode == 0 or "could not compile" in r1.stdout: print(r1.stdout[-800:])
    shutil.rmtree(W, ignore_errors=True)
