"""Queries over the public interface of craballoc (types of every exported function and field, from the compiler):
where can safe code outside the library get at the CPU copy of a value without the library noticing?"""
import json, os
LOCKS = ("RwLock", "Mutex", "RefCell", "Cell", "UnsafeCell", "OnceCell", "OnceLock", "ReentrantLock")
GUARDS = ("RwLockWriteGuard", "MutexGuard", "MappedRwLockWriteGuard", "MappedMutexGuard", "RefMut", "PeekMut")
MUT_ITERS = ("std::slice::IterMut", "std::slice::ChunksMut")
MUT_TRAITS = ("std::ops::DerefMut", "std::convert::AsMut", "std::borrow::BorrowMut")
last = lambda p: p.split("::")[-1]
def std(p): return not p.startswith(("crab", "witness"))
def valueish(t):
    """A value of the stored type, or a plain collection of such."""
    k = t[0]
    if k == "param": return True
    if k == "slice": return valueish(t[1])
    if k == "tuple": return any(valueish(x) for x in t[1])
    return k == "adt" and std(t[1]) and last(t[1]) in ("Vec", "Option", "Box", "VecDeque") and any(valueish(x) for x in t[2][:1])
def kids(t):
    k = t[0]
    if k in ("ref", "ptr"): return [t[2]]
    if k == "adt": return t[2]
    if k == "slice": return [t[1]]
    if k in ("tuple",): return t[1]
    if k == "alias": return [x for x in t[2] if isinstance(x, list)]
    return []
def any_in(t, f): return f(t) or any(any_in(x, f) for x in kids(t))
def lock_over(t): return t[0] == "adt" and std(t[1]) and last(t[1]) in LOCKS and any(valueish(x) for x in t[2])
def guard_over(t): return t[0] == "adt" and std(t[1]) and last(t[1]) in GUARDS and any(valueish(x) for x in t[2])
def access(t):
    """How a value of this type gives mutable access to a stored value, or None."""
    if t[0] == "ref" and t[1] and valueish(t[2]): return "a mutable reference"
    if t[0] == "ptr" and valueish(t[2]): return "a raw pointer"
    if lock_over(t): return "the lock of the value"
    if guard_over(t): return "an untracked write guard"
    if t[0] == "adt" and t[1] in MUT_ITERS and any(valueish(x) for x in t[2]): return "a mutable iterator"
    if t[0] == "alias" and any(x in MUT_TRAITS for x in t[2]): return "something to write through"
    for x in kids(t):
        a = access(x)
        if a: return a
    return None
def load(dump): return json.load(open(os.path.join(dump, "api.json")))
def tracked_access(dump):
    """-> [(root, rule, verdict True/False/None, why, where)]"""
    items = load(dump)
    types = {i["type"]: i for i in items if "type" in i}
    def contains(t, f, seen=()):
        def g(x):
            if f(x): return True
            return x[0] == "adt" and x[1] in types and x[1] not in seen and any(contains(y[2], f, seen + (x[1],)) for y in types[x[1]]["fields"])
        return any_in(t, g)
    handles = {n for n, i in types.items() if contains(i["self"], lock_over)}
    guards = {n for n, i in types.items() if any(any_in(f[2], guard_over) for f in i["fields"])}
    out = []
    def own(i, names):
        return i["self"][0] == "adt" and i["self"][1] in names or any(any_in(t, lambda x: x[0] == "adt" and x[1] in names) for t in i["inputs"])
    for i in items:
        if "static" in i: continue
        if "type" in i:
            if i["type"] not in handles | guards: continue
            for name, public, t in i["fields"]:
                a = access(t)
                if not a: continue
                out.append((i["type"], "the CPU copy is not in a public field", not public, "field %s is public and gives %s" % (name, a) if public else "field %s is private" % name, i["at"]))
        else:
            if i.get("unsafe") or not own(i, handles | guards): continue
            a = access(i["output"])
            s = i["self"][1] if i["self"][0] == "adt" else None
            tracked = s in guards and types[s]["dtor"]
            v = a is None or bool(tracked)
            out.append((i["fn"], "no untracked mutable access is handed out", v,
                        "no mutable access in the result" if a is None else ("%s, from a guard that reports the change when it is dropped" % a if v else "hands out %s to the CPU copy" % a), i["at"]))
    return out
