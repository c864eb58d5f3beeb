"""Compare the 0/1 stand-in (symex/mip.py) with the installed solver.

usage: /opt/venv/bin/python tools/mip_xcheck.py REPO SEED COUNT
Random instances are solved by the three heuristics with the stand-in, and each
model they build is solved by the real solver too: status and objective have to
agree (relaxed models of type 1 are known to differ: sum of squares; of type 2:
the real solver does not insist on the best second objective).  This checks the
machinery only; it decides no property."""
import sys,random
sys.path.insert(0,'/verif'); sys.path.insert(0,sys.argv[1]); sys.path.append('/opt/veriftools/pyvenv/lib/python3.12/site-packages')
import gurobipy as gp
env=gp.Env(empty=True); env.setParam('OutputFlag',0); env.start()
from symex import mip
stat={"n":0,"relax":0,"inf":0,"bad":0}
orig=mip.Model.optimize
def opt(self,callback=None):
    orig(self,callback)
    m=gp.Model(env=env); m.params.Threads=1
    V=[m.addVar(vtype='B',obj=v.obj,ub=v.ub) for v in self.vars]
    m.modelSense=self.modelSense
    R={}
    for c in self.cons:
        e=gp.LinExpr(float(c.e.c))
        for a,v in c.e.t: e.add(V[v.i],float(a))
        R[id(c)]=m.addConstr(e<=0 if c.op=='<' else e==0)
    m.update()
    if self.relaxed:
        stat["relax"]+=1
        soft=[R[id(c)] for c in self.relaxed[1]]
        m.feasRelax(self.relaxed[0],True,None,None,None,soft,[1.0]*len(soft))
    m.optimize()
    stat["n"]+=1
    if m.Status!=self.Status:
        print("STATUS",m.Status,self.Status,self.relaxed and self.relaxed[0]); stat["bad"]+=1; return
    if m.Status==3: stat["inf"]+=1; return
    ov=sum(v.obj*(v.x>.5) for v in self.vars); rv=sum(v.obj*(x.X>.5) for v,x in zip(self.vars,V))
    if abs(ov-rv)>1e-4:
        # relaxed: violation first
        print("OBJ",ov,rv,self.relaxed and self.relaxed[0],[c.violation([i for i,x in enumerate(V) if x.X>.5]) for c in (self.relaxed[1] if self.relaxed else [])],[c.violation([v.i for v in self.vars if v.x>.5]) for c in (self.relaxed[1] if self.relaxed else [])]); stat["bad"]+=1
mip.Model.optimize=opt
mip.install()
import random,time
import numpy as np
from verypy import get_algorithms
from verypy.cvrp_ops import validate_solution_feasibility as check_solution_feasibility
A={a[0]:a[3] for a in get_algorithms(["gap","mbsa","ptl"])}
rnd=random.Random(int(sys.argv[2]))
bad=0
t=time.time()
for it in range(int(sys.argv[3])):
    n=rnd.randint(2,8)
    pts=[(rnd.randint(0,20),rnd.randint(0,20)) for _ in range(n)]
    if rnd.random()<.1: pts=[(0,0)]+[(3,4)]*(n-1)
    D=np.array([[((a[0]-b[0])**2+(a[1]-b[1])**2)**.5 for b in pts] for a in pts])
    d=[0]+[rnd.randint(1,9) for _ in range(n-1)]
    C=rnd.choice([None,max(d),max(d)+rnd.randint(0,20),sum(d)])
    L=rnd.choice([None,2*D[0].max()+rnd.random()*20])
    for nm,f in A.items():
        if nm=="gap" and C is None: continue
        for sg in (True,False):
            try:
                s=f(pts,D,d if C else None,C,L,None,"GEO" if 0 else "EUC_2D",sg,rnd.random()<.5)
            except BaseException as e:
                print("EXC",it,nm,sg,repr(e)[:200],n,C,L,d,pts); bad+=1; continue
            ok=check_solution_feasibility(s,D,d if C else None,C,L,True) if s is not None else None
            if not (ok is True or (isinstance(ok,tuple) and all(ok))):
                print("BAD",it,nm,sg,s,ok,n,C,L,d,pts); bad+=1
print("done",bad,time.time()-t)

print(stat)
