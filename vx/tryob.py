"""Tries a checker on entry points:  tryob.py KIND CHECKER PATTERN"""
import sys, re; sys.path.insert(0, "/verif/vx")
import robl as obl, time, os
import multiprocessing as mp
dump = os.environ.get("DUMP", "/verif/build/dump-" + sys.argv[1])
def go(a):
    fn, r = a
    t = time.time(); ob = obl.Obs("X")
    try: getattr(obl, fn)(ob, dump, r)
    except Exception:
        import traceback; return a, time.time() - t, traceback.format_exc()
    return a, time.time() - t, ob.res
todo = [(sys.argv[i], r) for i in range(2, len(sys.argv) - 1, 2) for r in obl.load_index(dump) if re.search(sys.argv[i + 1], r)]
with mp.Pool(8) as p:
    for a, t, res in p.imap(go, todo):
        if isinstance(res, str): print(a, res[-1500:]); continue
        print(a[0], a[1], "%.1fs" % t)
        for x in res: print("    %-9s %s  %s %s" % (x["status"], x["rule"], str(x["why"])[:300], x["point"] or ""))
