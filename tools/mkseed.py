"""mkseed.py FILE...: makes /verif/seeded/<id>/ from a description (python dict literal in FILE)."""
import json, os, shutil, subprocess, sys
HERE = os.path.dirname(os.path.abspath(__file__))
def make(d):
    out = "/verif/seeded/" + d["id"]
    os.makedirs(out, exist_ok=True)
    work = "/tmp/mkseed"; shutil.rmtree(work, ignore_errors=True)
    subprocess.check_call(["git", "clone", "-q", "/repo", work])
    for f, old, new in d["edits"]:
        p = os.path.join(work, f); s = open(p).read()
        assert s.count(old) == 1, (d["id"], f, s.count(old), old)
        open(p, "w").write(s.replace(old, new))
    diff = subprocess.check_output(["git", "-C", work, "diff"], text=True)
    open(out + "/patch.diff", "w").write(diff)
    shutil.copy(HERE + "/seedlib/demo.sh", out + "/demo.sh")
    open(out + "/main.rs", "w").write(d["main"].lstrip("\n"))
    json.dump({"property": d["property"], "needs": d["needs"], "what_it_breaks": d["breaks"]}, open(out + "/meta.json", "w"), indent=1)
    shutil.rmtree(work)
    print("made", d["id"])
for f in sys.argv[1:]:
    env = {}
    exec(open(f).read(), env)
    for d in env["SEEDS"]: make(d)
