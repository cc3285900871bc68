#!/usr/bin/env python3
"""usage: tests.py variants.py [substr]: do the variants that must stay quiet compile and pass the repository's tests?"""
import sys, os, subprocess, shutil, importlib.util, concurrent.futures as cf, queue
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
spec = importlib.util.spec_from_file_location('v', sys.argv[1]); v = importlib.util.module_from_spec(spec); spec.loader.exec_module(v)
sub = sys.argv[2] if len(sys.argv) > 2 else ''
N = 3
q = queue.Queue(); [q.put(i) for i in range(N)]


def one(it):
    k = q.get()
    try:
        d = '/tmp/vtt/r%d' % k
        shutil.rmtree(d, ignore_errors=True)
        shutil.copytree('/repo', d, ignore=shutil.ignore_patterns('target', '.git'), symlinks=True)
        for f, a, b in it[2]:
            p = os.path.join(d, f); t = open(p).read()
            if a not in t: return it[0], 'EDIT-FAILED ' + a[:60]
            open(p, 'w').write(t.replace(a, b, 1))
        dirs = sorted({f.split('/')[0] if f.split('/')[0] != 'src' else '.' for f, _, _ in it[2]})
        out = ''
        for x in dirs:
            r = subprocess.run('source /opt/vp/env.sh; cd %s/%s && CARGO_TARGET_DIR=/tmp/vtt/t%d cargo test --offline --lib --tests 2>&1' % (d, x, k), shell=True, executable='/bin/bash', stdout=subprocess.PIPE, text=True)
            if r.returncode: out += '\n'.join(l for l in r.stdout.splitlines() if l.startswith('error') or 'FAILED' in l or 'panicked' in l or '-->' in l)[:600] or r.stdout[-400:]
        return it[0], out
    finally:
        q.put(k)


with cf.ThreadPoolExecutor(N) as ex:
    for n, o in ex.map(one, [i for i in v.V if (i[1] == 'quiet' or os.environ.get('VP_ALL')) and sub in i[0]]):
        print('ok ' if not o else 'BAD', n, o, flush=True)
shutil.rmtree('/tmp/vtt', ignore_errors=True)
