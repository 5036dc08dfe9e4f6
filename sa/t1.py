import sys,time
import sys; sys.path.insert(0,'/verif/sa')
from facts import *
import absint
from absint import *
F=Facts('/verif/build/facts.json')
def run(q, path, args=None):
    b=F.bodies[path]
    it=Interp(F,q)
    st=State()
    if args is None:
        args=[]
        for i in range(b['argc']):
            l=b['locals'][i+1]
            args.append(mk(('arg', l[1] if len(l)>1 else f'a{i}')))
    t=time.time()
    rs=it.run_body(st,b,args,('root',0))
    print('steps',it.steps,'time',round(time.time()-t,2),'frames',len(it.frame_list))
    return it,rs
if __name__=='__main__':
    p="crate::<inmem::immutable::memtable::ImmutableVisibleScan<'t> as core::iter::traits::iterator::Iterator>::next"
    it,rs=run(Query(),p)
    for s,v in rs: print(v)
    print(it.unmodelled)
