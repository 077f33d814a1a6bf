import sys,time
sys.path.insert(0,'/verif'); sys.setrecursionlimit(20000)
from sa.entries import ENTRIES
from sa.compare import Proj
from sa import selftest
keys=[k for k in ENTRIES if any(k==q or (q.endswith("*") and k.startswith(q[:-1])) for q in sys.argv[1:])]
for k in keys:
    t=time.time()
    r=selftest.run_mutants(ENTRIES[k],Proj(truth='not_equal' in k),verbose=True,max_time=10,limit=150)
    print(k,'killed',r['killed'],'survived',len(r['survived']),'undecided',len(r['undecided']),'%.1fs'%(time.time()-t),flush=True)
