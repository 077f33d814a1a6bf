import sys,time,traceback
sys.path.insert(0,'/verif')
from sa.entries import ENTRIES
from sa.compare import Proj
import sa.compare
keys=sys.argv[1:] or list(ENTRIES)+['faults','state']

keys=[k for k in ENTRIES if any(k==q or (q.endswith("*") and k.startswith(q[:-1])) for q in keys)]
for k in keys:
    e=ENTRIES[k]
    t=time.time()
    try:
        s,d,o=e.check(Proj(truth='not_equal' in k, raise_stores='.from_' not in k, trace=k in ('tcp.read', 'tcp.write', 'rtu.read', 'rtu.write')))
    except Exception as x:
        print('CRASH',k,repr(x)); print("".join(traceback.format_exc().split("\n")[-6:])[:600]); continue
    print('%-24s %-10s obl=%d %.2fs %s'%(k,s,o,time.time()-t,'' if d is None else (d if isinstance(d,str) else d.text(700))))

from sa import lint
from sa.rules import Result
for k,rs in (('faults',[lint.faults]),('state',[lint.definition_writes,lint.shared_state])):
    if k in sys.argv[1:] or len(sys.argv)==1 or 'lint' in sys.argv[1:]:
        r=Result(); t=time.time()
        try:
            for f in rs: f(r,{})
        except Exception as x:
            print('CRASH',k,repr(x)); print(traceback.format_exc()[-600:]); continue
        print('%-24s %-10s obl=%d %.2fs %s'%(k,'diff' if r.findings else 'ok',r.obligations,time.time()-t,' ; '.join(map(str,r.findings))))
