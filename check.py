#!/usr/bin/env python3
"""Decides one property statically:  check.py <property id>

Compiles the entry points of witness/ against /repo's working tree, dumps the compiler's MIR of
everything they reach, and decides the property's obligations over that by abstract interpretation.
Exit 0: no obligation is violated.  Exit 1: a line VIOLATION property=<id> replay=<path>.
Exit 2: the check could not be carried out (the tree or the entry points do not compile)."""
import fcntl, json, multiprocessing as mp, os, re, resource, signal, sys, time, traceback
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, "vx"))
import api, build, robl as obl
from props import PROPS

TASK_S = 120          # one entry point
ALL_S = 400           # all of them; what is not decided by then stays undecided
START = time.time()
TRUST = [
    "rustc (nightly) type checking, trait resolution and MIR construction",
    "the abstract interpreter and prover in /verif/vx, and its models of the standard library",
    "the witness crate's entry points cover the public operations",
]

class TaskTimeout(BaseException):
    pass
def limited():
    resource.setrlimit(resource.RLIMIT_AS, (3 << 30, 3 << 30))
def _alarm(*_): raise TaskTimeout()

def run_task(a):
    prop, fn, dump, root = a
    t = time.time()
    ob = obl.Obs(prop)
    signal.signal(signal.SIGALRM, _alarm)
    left = min(TASK_S, START + ALL_S - t)
    note = None
    try:
        if left <= 0: raise TaskTimeout()
        signal.setitimer(signal.ITIMER_REAL, left, 5)
        f, _, rule = fn.partition("@")          # only the rules that start so
        getattr(obl, f)(ob, dump, root)
        ob.res = [r for r in ob.res if r["rule"].startswith(rule)]
    except TaskTimeout:
        note = "ran out of time"
    except MemoryError:
        note = "ran out of memory"
    except Exception:
        note = "analyser error: " + traceback.format_exc()[-600:]
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
    if note: ob.res.append(dict(root=root, rule=fn, status=obl.OPEN, why=note, point=None, where=[], fns=0))
    return root, fn, time.time() - t, ob.res

def known(prop):
    """Entries of the known-findings file that suppress a violation: (root, rule)."""
    out = []
    try:
        for l in open(os.path.join(HERE, "known-findings.txt")):
            m = re.match(r"known: property=(\S+) entry=(\S+) rule=\"([^\"]*)\" (.*)$", l.strip())
            if m and m.group(1) == prop: out.append((m.group(2), m.group(3), m.group(4)))
    except FileNotFoundError:
        pass
    return out

def spec_groups(group):
    """The properties that say the types of a group compile."""
    return {"wheres": ("C03", "C04"), "names": ("C03", "C04")}.get(group, ("C03",))

def decide(prop, jobs):
    spec = PROPS[prop]
    res, wits = [], []
    tasks, seen = [], set()
    for kind, fn, pat in [(t[2] if len(t) > 2 else spec["dump"], t[0], t[1]) for t in spec.get("tasks", [])]:
        try: dump = build.dumped(kind)
        except build.BuildError as e:
            if kind != "spirv": raise
            if not any(r["rule"] == "shader build" for r in res):
                res.append(dict(root="shader build", rule="shader build", status=obl.OPEN, why=str(e)[-600:], point=None, where=[], fns=0))
            continue
        for group, errs in getattr(dump, "rejected", {}).items():
            if (group, kind) not in seen and prop in spec_groups(group):
                seen.add((group, kind))
                res.append(dict(root="derived::" + group, rule="deriving types compile", status=obl.REFUTED, why="; ".join(errs[:4]), point=None,
                                where=["code generated by the derive macro (crates/crabslab-derive/src/lib.rs)"], fns=0))
        roots = [r for r in obl.load_index(dump) if re.search(pat, r)]
        if not roots and not res: raise build.BuildError("no entry point matches %s" % pat)
        tasks += [(prop, fn, dump, r) for r in roots]
    if tasks:
        with mp.Pool(jobs, limited) as p:
            for root, fn, t, r in p.imap_unordered(run_task, tasks):
                res += r
    for kind in spec.get("compile_fail", []):
        for name, what, v, why in build.compile_fail(prop, kind):
            res.append(dict(root="fail::" + name, rule="does not compile: " + what, point=None, fns=0, why=why,
                status=obl.PROVED if v else obl.REFUTED if v is False else obl.OPEN, where=["witness/src/fail/%s.rs" % name]))
    for kind in spec.get("compile_pass", []):
        for name, what, v, why in build.compile_pass(prop, kind):
            res.append(dict(root="pass::" + name, rule="compiles: " + what, point=None, fns=0, why=why,
                status=obl.PROVED if v else obl.REFUTED if v is False else obl.OPEN, where=["witness/src/pass/%s.rs" % name]))
    for kind in spec.get("api", []):
        for name, rule, v, why, at in api.tracked_access(build.dumped(kind)):
            res.append(dict(root=name, rule=rule, point=None, fns=0, why=why, status=obl.PROVED if v else obl.REFUTED if v is False else obl.OPEN, where=[at]))
    return tasks, res

def main():
    prop = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"): tier = "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    os.makedirs(os.path.join(HERE, "build"), exist_ok=True)
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    lock = open(os.path.join(HERE, "build", ".lock"), "w")
    fcntl.flock(lock, fcntl.LOCK_EX)
    try:
        tasks, res = decide(prop, os.cpu_count() or 4)
    except build.BuildError as e:
        print("cannot decide %s: %s" % (prop, e))
        return 2
    bad = [r for r in res if r["status"] == obl.REFUTED]
    open_ = [r for r in res if r["status"] == obl.OPEN]
    good = [r for r in res if r["status"] == obl.PROVED]
    kn = known(prop)
    unlisted = []
    for r in bad:
        k = next((k for k in kn if k[0] == r["root"] and k[1] == r["rule"]), None)
        if k: print("KNOWN-FINDING: property=%s %s: %s %s" % (prop, r["root"], r["rule"], k[2]))
        else: unlisted.append(r)
    replay = os.path.join("evidence", prop + ".violation.json")
    try: os.remove(os.path.join(HERE, replay))
    except FileNotFoundError: pass
    if unlisted:
        with open(os.path.join(HERE, replay), "w") as f: json.dump(unlisted, f, indent=1, default=str)
    fns = sorted({w for r in res for w in r.get("analysed", [])})
    ev = dict(property=prop, tier=tier, seed=seed, level="proof", wall_s=round(time.time() - t0, 2), violations=len(unlisted),
        coverage=dict(obligations=len(res), discharged=len(good), undecided=len(open_),
            checker_cmd="cd /verif && python3 check.py %s" % prop, trusted_base=TRUST,
            entry_points=len({(t[2], t[3]) for t in tasks}),
            rules=sorted({re.sub(r"\d+", "#", r["rule"]) for r in res}),
            functions_analysed=len(fns), library_functions=fns,
            open=[dict(entry=r["root"], rule=r["rule"], why=str(r["why"])[:300]) for r in open_][:50],
            samples=[dict(entry=r["root"], rule=r["rule"], verdict=r["status"], detail=str(r["why"])[:200]) for r in res[:5]]))
    with open(os.path.join(HERE, "evidence", prop + ".json"), "w") as f: json.dump(ev, f, indent=1, default=str)
    print("%s: %d obligations, %d discharged, %d undecided, %d violated (%.1f s)" % (prop, len(res), len(good), len(open_), len(bad), time.time() - t0))
    for r in open_[:10]: print("  undecided: %s: %s: %s" % (r["root"], r["rule"], str(r["why"])[:200]))
    for r in unlisted[:10]:
        print("  violated: %s: %s: %s" % (r["root"], r["rule"], str(r["why"])[:400]))
        if r.get("point"): print("    for example at %s" % (r["point"],))
        for w in r["where"][:12]: print("    in %s" % w)
    if unlisted:
        print("VIOLATION property=%s replay=%s" % (prop, replay))
        return 1
    return 0

if __name__ == "__main__":
    sys.exit(main())
