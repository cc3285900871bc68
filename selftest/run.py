#!/usr/bin/env python3
"""usage: run.py variants.py [name-substr] : apply variants on copies of /repo and run checks"""
import sys, os, subprocess, shutil, importlib.util, concurrent.futures as cf, threading
spec=importlib.util.spec_from_file_location('v',sys.argv[1]); v=importlib.util.module_from_spec(spec); spec.loader.exec_module(v)
sub=sys.argv[2] if len(sys.argv)>2 else ''
NW=6
slots=list(range(NW)); lk=threading.Lock()
def one(item):
    name, expect, edits = item[:3]
    ids = item[3] if len(item)>3 else getattr(v,'IDS',None) or expect.split()
    with lk: s=slots.pop()
    try:
        d='/tmp/vt/r%d'%s; b='/tmp/vt/b%d'%s
        subprocess.run(['rsync','-a','--delete','--exclude','target','--exclude','.git','/repo/',d+'/'],check=True) if shutil.which('rsync') else (shutil.rmtree(d,ignore_errors=True), shutil.copytree('/repo',d,ignore=shutil.ignore_patterns('target','.git'),symlinks=True))
        for f,a,c in edits:
            p=os.path.join(d,f); t=open(p).read()
            if t.count(a)<1: return name,'EDIT-FAILED '+a[:60]
            open(p,'w').write(t.replace(a,c) if len(a)<2 else t.replace(a,c,1))
        out={}
        env=dict(os.environ,VP_REPO=d,VP_BUILD=b,VERIF_SEED='1')
        r=subprocess.run(['python3','-B',os.path.join(os.path.dirname(os.path.abspath(__file__)),'multi.py')]+ids,env=env,cwd='/verif',stdout=subprocess.PIPE,stderr=subprocess.STDOUT,text=True)
        return name,expect,r.stdout.strip()
    finally:
        with lk: slots.append(s)
items=[i for i in v.V if sub in i[0]]
with cf.ThreadPoolExecutor(NW) as ex:
    for f in cf.as_completed([ex.submit(one,i) for i in items]):
        r=f.result()
        if len(r)==2: print('!!',*r); continue
        name,expect,o=r
        last=o.splitlines()[-1] if o else ''
        fired=last.split('FIRED',1)[1].split() if 'FIRED' in last else ['?']
        if expect=='quiet': good = fired==[]
        else: good = all(x in fired for x in expect.split())
        print('ok ' if good else 'BAD', name, 'expect',expect,'fired',fired, flush=True)
        if not good or '-v' in sys.argv: print('\n'.join('      '+l[:330] for l in o.splitlines()[:3]+o.splitlines()[-2:-1]))
