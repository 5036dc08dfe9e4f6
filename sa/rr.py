import sys,time; sys.path.insert(0,'/verif/sa')
from facts import Facts
from core import *
import importlib,json,os
F=Facts(os.environ.get('FACTS','/verif/build/facts.json'))
base=json.load(open('/verif/sa/baseline_sigs.json'))
m=importlib.import_module('rules.'+sys.argv[1])
done=set()
for p,rs in list(RULES.items()):
    for r in rs:
        if r in done or r.__module__ != 'rules.'+sys.argv[1] or (len(sys.argv)>2 and not any(x in r.__name__ for x in sys.argv[2:])): continue
        done.add(r)
        ctx=Ctx(F,p,base); ctx.tier='quick'; ctx.scope='whole'; t=time.time()
        try: r(ctx)
        except Missing as e: print('MISSING',e)
        print(r.__name__,p,'obs',len(ctx.obs),'viol',len(ctx.viol),'t',round(time.time()-t,1),'steps',ctx.steps)
        for v in ctx.viol[:4]: print('   V',str(v)[:500])
