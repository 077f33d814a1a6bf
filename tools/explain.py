import sys
sys.path.insert(0,'/verif')
from sa.entries import ENTRIES
from sa.terms import *
e=ENTRIES[sys.argv[1]]
D=int(sys.argv[2]) if len(sys.argv)>2 else 7
A,syms,names,fn=e.summary()
def dump(S,tag):
    print('=====',tag, S.run.opaques)
    def tr(evs,ind):
        for x in evs:
            if hasattr(x,'luid'):
                print(ind,'  X',show(x.X,D),'EXITS',[(k,show(g,D),show(p,D) if hasattr(p,'op') else p) for k,g,p,_ in x.exits],'BACK',[(show(b,D),f) for b,f,v in x.back])
                print(ind,'LOOP',x.luid,'pc',show(x.pc,D)); print(ind,'  X',show(x.X,D),'EXITS',[(k,show(g,D),show(p,D) if hasattr(p,'op') else p) for k,g,p,_ in x.exits],'BACK',[(show(b,D),f) for b,f,v in x.back]); tr(x.body,ind+'   ')
            else: print(ind,x.kind,[show(a,D) for a in x.args],'IF',show(x.pc,D))
    tr(S.trace,'  ')
    for x in S.exits:
        print('EXIT',x.kind,x.cls,'IF',show(x.pc,D),'PAY',show(x.payload,D) if x.payload else None)
        for k,v in x.stores.items(): print('     ',show(k[0],5),k[1],'=',show(v,D))
dump(A,'code')
if len(sys.argv)>3:
  for s in e.specs: dump(e.reference(s)[0],s)
