import sys; sys.path.insert(0,'/verif/sa')
from dbg import *
class Q(CQ):
    def rel(self,it,st,a,b):
        print('REL',path(a),'?',path(b)); return CQ.rel(self,it,st,a,b)
    def truth(self,it,st,t): print('TRUTH',path(t)); return CQ.truth(self,it,st,t)
for n in sys.argv[1:]: go(n,Q())
