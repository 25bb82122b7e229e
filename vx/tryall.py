import sys, time, re
sys.path.insert(0, "/verif/vx")
from amodels import *
import multiprocessing as mp
d="/verif/build/dump-"+sys.argv[1]
pat=re.compile(sys.argv[2] if len(sys.argv)>2 else ".")
def go(root):
    t=time.time()
    try:
        it, outs, err = analyse(Program(d, root))
    except Exception as e:
        import traceback
        return root, time.time()-t, "EXC "+traceback.format_exc()[-600:], 0, [], []
    unk=[1 for s,v in outs or [] if has_unknown(v)]
    return root, time.time()-t, err, len(outs or []), it.notes[:3], unk
roots=[r for r in load_index(d) if pat.search(r)]
with mp.Pool(8) as p:
    tot=0
    for r in p.imap_unordered(go, roots):
        tot+=r[1]
        if r[2] or r[4] or r[5] or r[1]>5: print(r[0], "%.1f"%r[1], r[2], "outs", r[3], "notes", r[4], "unk", len(r[5]))
print(len(roots), "roots", tot)
