# run an oracle alone: python3-vt orc.py PID [seconds]
import sys,time,random,importlib
sys.path[:0]=['/verif','/repo']
from pydv import framework as F
o=importlib.import_module('oracles.'+sys.argv[1]); lim=float(sys.argv[2]) if len(sys.argv)>2 else 8
t=time.time();n=0;kn={};enum=True;bad=0;nt=0
def stream():
    global enum
    for c in o.enumerate_cases('quick'): yield c
    enum=False; print('enumerated',n,round(time.time()-t,1))
    rng=random.Random(5)
    while hasattr(o,'random_case'): yield o.random_case(rng)
for c in stream():
    n+=1
    r=F.run_case(o,c)
    if getattr(o,'nontrivial',lambda c:True)(c): nt+=1
    if r and hasattr(o,'known') and o.known(c,r): kn[o.known(c,r)]=kn.get(o.known(c,r),0)+1
    elif r:
        bad+=1
        if bad==1:
            c2,r2=F.minimize(o,c,r); print('min:',c2,r2)
        else: print(c,r)
    if bad>4 or time.time()-t>lim: break
print(sys.argv[1],n,'cases',nt,'nontrivial',bad,'bad',kn,round(time.time()-t,1),'s')
