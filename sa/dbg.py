import sys; sys.path.insert(0,'/verif/sa')
from facts import Facts
from core import *
import time
F=Facts(__import__('os').environ.get('FACTS','/verif/build/facts.json'))
X=Ctx(F,'dbg')
def go(name, q=None, args=None, n=40):
    t=time.time()
    c=[k for k in F.bodies if k==name] or [k for k in F.bodies if k.endswith(name) and 'promoted' not in k]
    if len(c)!=1: print(c); return
    it,outs=X.run(c[0],q,args)
    print(c[0],'steps',it.steps,'t',round(time.time()-t,2))
    for o in outs[:n]: print('  ->',pstr(it,o.st,o.v)[:1500], dict(o.st.ghost))
    print('  unmodelled',it.unmodelled)
    return it,outs
if __name__=='__main__':
    for a in sys.argv[1:]: go(a)
