import sys,time,traceback,collections
from t1 import *
pat=sys.argv[1:] 
bad=0; n=0; slow=[]
un=collections.Counter()
for k,b in F.bodies.items():
    if 'promoted' in k or b['k'] in('const','static','closure','coroutine','other') or '__' in k or 'Debug' in k or 'serde' in k: continue
    if pat and not any(x in k for x in pat): continue
    q=Query(); q.max_steps=60000
    it=Interp(F,q); st=State()
    args=[mk(('arg', l[1] if len(l)>1 else f'a{i}')) for i,l in enumerate(b['locals'][1:b['argc']+1])]
    t=time.time(); n+=1
    try:
        rs=it.run_body(st,b,args,('root',0))
        if b.get('async'):
            rs2=[]
            for s,v in rs: rs2+=it.poll(s,v,0,0)
            rs=rs2
        if not rs: print('NORET',k)
    except Budget as e: print('BUDGET',k,str(e)[-60:])
    except RecursionError: print('REC',k)
    except Exception as e:
        bad+=1
        if bad<6: print('EXC',k); traceback.print_exc(limit=-3)
    dt=time.time()-t
    if dt>3: slow.append((round(dt,1),it.steps,k))
    for x,y in it.unmodelled.items(): un[x]+=1
print(n,'bad',bad); 
for s in sorted(slow)[-25:]: print(s)
for x in un.most_common(60): print(x)
