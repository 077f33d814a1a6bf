import sys
sys.path.insert(0,'/verif')
from sa.entries import ENTRIES
from sa.terms import *
e=ENTRIES[sys.argv[1]]
A,syms,names,fn=e.summary()
def dump(S,tag):
    print('=====',tag)
    for lu,info in S.run.loops.items():
        print('loop',lu,'X=',show(info.X,9))
        for lid,(i,u) in info.mus.items(): print('   mu',lid,[l for (a,l),k in S.run.locids.items() if a==lu and k==lid],'init',show(i,7),'upd',show(u,9), ty(mk('mu',lu,lid)))
        for g,d in info.accs.items(): print('   acc',g,show(d,9), ty(mk('acc',lu,g)))
dump(A,'code')
for s in e.specs: dump(e.reference(s)[0],s)
