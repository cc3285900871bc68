#!/usr/bin/env python3
"""tryseeds.py [id...]: runs the check of each planted bug's property (and, with -a, every check) on a scratch copy with the patch."""
import sys, os, subprocess, json, shutil, concurrent.futures as cf
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ids = [a for a in sys.argv[1:] if not a.startswith("-")] or sorted(os.listdir(os.path.join(H, "seeded")))
def one(s, slot):
    d = "/tmp/ts%d" % slot
    shutil.rmtree(d, ignore_errors=True)
    shutil.copytree("/repo", d, ignore=shutil.ignore_patterns("target", ".git"), symlinks=True)
    subprocess.run(["patch", "-p1", "-s", "-i", os.path.join(H, "seeded", s, "patch.diff")], cwd=d, check=True)
    pid = json.load(open(os.path.join(H, "seeded", s, "meta.json")))["property"]
    env = dict(os.environ, VP_REPO=d, VP_BUILD=d + "b")
    reg = [c["property"] for c in json.load(open(os.path.join(H, "MANIFEST.json")))["checks"]]
    r = subprocess.run(["python3", "-B", os.path.join(H, "selftest", "multi.py")] + ([pid] if "-a" not in sys.argv else reg), env=env, cwd=H, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    shutil.rmtree(d, ignore_errors=True)
    l = r.stdout.strip().splitlines()
    return s, pid, l[-1] if l else "?", l[0][:250] if l else ""
import queue
q = queue.Queue(); [q.put(i) for i in range(6)]
def w(s):
    k = q.get()
    try: return one(s, k)
    finally: q.put(k)
with cf.ThreadPoolExecutor(6) as ex:
    for r in ex.map(w, ids): print(*r, flush=True)
for i in range(6): shutil.rmtree("/tmp/ts%db" % i, ignore_errors=True)
