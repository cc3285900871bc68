import sys, traceback; sys.path.insert(0,'/verif'); sys.setrecursionlimit(20000)
from vp import run, checks, grammars
import hashlib, pickle, os
# the self-test runs many variants with the same grammar: keep the results of the grammar comparison
C='/tmp/vt/gcache'; os.makedirs(C,exist_ok=True)
def cached(name):
    real=getattr(grammars.Comparison,name)
    code=''.join(open('/verif/vp/%s.py'%m).read() for m in ('peg','grammars'))
    def f(self):
        k=hashlib.sha1(repr((code,name,self.tree.rules,self.tree.ref,self.tree.cuts,self.tree.classes,self.A.leafmarks,self.A.marks,self.units)).encode()).hexdigest()
        p=os.path.join(C,k)
        if os.path.exists(p):
            rows,self.states,self.cut_short=pickle.load(open(p,'rb'))
            return rows
        rows=list(real(self)); pickle.dump((rows,self.states,self.cut_short),open(p+'.%d'%os.getpid(),'wb')); os.replace(p+'.%d'%os.getpid(),p)
        return rows
    setattr(grammars.Comparison,name,f)
for n in ('rejected','accepted','otherwise'): cached(n)
ctx=run.Ctx('quick'); fired=[]; seen=set()
try:
    for pid in sys.argv[1:]:
        rep=run.Report(pid)
        try:
            checks.REGISTRY[pid][0](ctx,rep)
            for k,n in rep.floors.items():
                if rep.counts.get(k,0)<n: rep.bad('floor','-',k)
        except run.Broken as e: rep.bad('broken','-',str(e)[-1500:])
        except Exception as e: rep.bad('analysis','-',''.join(traceback.format_exc()[-600:]))
        known=[k for k,w in run.known_findings(pid)]
        new=[x for x in rep.violations if x[0] not in known]
        if new:
            fired.append(pid)
            for key,w,m in new:
                if m not in seen:
                    seen.add(m); print(pid,w,m[:600])
finally: ctx.close()
print('FIRED',*fired)
