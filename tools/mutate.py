"""Applies small textual changes to /repo one by one and runs the checks:  mutate.py FILE [NAME...]
FILE defines M = [(name, 'check ids', file, old, new), ...]; a name starting with '=' is a change that keeps the behaviour.
TEST=1 also runs the repository's own tests on each."""
import sys, os, subprocess, re, json
R = "/repo/"
def sh(*a, **k): return subprocess.run(a, capture_output=True, text=True, **k)
if sh("git", "-C", R, "status", "--porcelain").stdout.strip(): sys.exit("/repo is dirty")
g = {}; exec(open(sys.argv[1]).read(), g)
for name, ids, f, old, new, *more in g["M"]:
    if len(sys.argv) > 2 and not any(x in name for x in sys.argv[2:]): continue
    try:
        bad = False
        for ff, o, n in [(f, old, new)] + [tuple(more[i:i + 3]) for i in range(0, len(more), 3)]:
            p = R + ff if ff.startswith("crates") else R + "crates/" + ff
            s = open(p).read()
            if s.count(o) < 1: print(name, "NOT APPLICABLE", repr(o)[:80]); bad = True; break
            open(p, "w").write(s.replace(o, n, 1))
        if bad: continue
        if os.environ.get("TEST"):
            b = sh("bash", "/opt/vp/build.sh"); t = sh("bash", "/opt/vp/test.sh", "/tmp/t.json")
            base = json.load(open("/opt/vp/BASELINE.json"))
            print(name, "build", b.returncode, "tests", t.returncode, end=" ")
        for i in ids.split():
            r = sh("python3", "/verif/check.py", i, cwd="/verif")
            want = 0 if name.startswith("=") else 1
            first = (r.stdout.strip().split("\n") or [""])
            head = [l for l in first if "obligations" in l][-1:] or first[-1:]
            why = [l.strip() for l in first if "violated:" in l][:1] or [l.strip()[:300] for l in first if 'undecided:' in l][:2]
            print(("ok  " if r.returncode == want else "MISS" if want else "FALSE ALARM"), name, i, r.returncode, "" if r.returncode == want and not os.environ.get("V") else (head + why), (why[0][:200] if why and r.returncode == want else ""), r.stderr[-300:] if r.returncode not in (0, 1) else "", flush=True)
    finally:
        sh("git", "-C", R, "checkout", "-q", "--", ".")
