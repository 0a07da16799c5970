import sys; sys.path[:0]=['/verif','/repo']
from pydv import ctx as C, framework as F
old=C.Ctx.prove
def prove(self,name,goal,where=''):
    r=old(self,name,goal,where)
    if not r:
        print('FAILED',name); 
        for p in self.pc: print('   ',p)
        print('  |-',goal)
    return r
C.Ctx.prove=prove
import importlib
mod=importlib.import_module('specs.'+sys.argv[1])
class Q:
    def put(self,x):
        print({k:v for k,v in x[1].items() if k not in('stats','cover','functions','obs')} if isinstance(x,tuple) else x)
        if '-v' in sys.argv:
            for o in x[1]['obs']: print(o)
fns=F.proofs_of(mod)
for i,f in enumerate(fns):
    if len(sys.argv)<3 or sys.argv[2] in f._proof['name']:
        F.run_one_proof(sys.argv[1],i,1.0,Q())
