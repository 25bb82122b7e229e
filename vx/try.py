import sys, time
sys.path.insert(0, "/verif/vx")
from gmodels import *
d="/verif/build/dump-"+sys.argv[1]
CONC=False
for root in sys.argv[2:]:
    if root=="conc": CONC=True; continue
    t=time.time()
    it, outs, err = analyse(Program(d, root), opts=dict(conc=CONC, cuts=CUTS if CONC else None))
    print("==", root, "%.2fs steps %d"%(time.time()-t, it.steps), err or "", "notes", it.notes[:5])
    for s,v in outs or []:
        print("  ->", v); print("     facts", s.facts.ge, s.facts.ne, s.facts.b, s.facts.disc)
        for c,x in s.cells.items(): print("     cell", c, x)
        print("     ev", s.ev)
    for p in it.panics: print("  panic", p[1:], )
