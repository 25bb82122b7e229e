"""Debug: prints the histories of an entry point of build/dump-alloc."""
import sys; sys.path.insert(0, "/verif/vx")
from aobl import *
run = ARun("/verif/build/dump-alloc", sys.argv[1])
W = int(sys.argv[2]) if len(sys.argv) > 2 else 200
print(run.err, run.unclear())
for st, v in run.outs or []:
    if st.facts.contradictory(): continue
    print("OUT", str(v)[:W], "| facts", str((st.facts.ge, st.facts.ne, st.facts.b, st.facts.disc))[:W])
    for e, h, l in walk(st.ev): print("  ", ".".join("%d/%d" % (id(x[0]) % 9999, id(x[2]) % 9999) for x in l), str(e)[:W])
