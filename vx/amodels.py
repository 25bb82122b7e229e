"""Semantics of shared ownership, locks, atomics, channels, maps and runtimes."""
from models import *
import models as _m

def own(st, v):
    """A fresh heap cell holding v."""
    c = ("o", fresh_id())
    st.cells[c] = v
    return c
def held(ev):
    """Locks held at the end of a history: {uid: (mode, cell, path)}."""
    h = {}
    for e in ev:
        if e[0] == "lock": h[e[4]] = (e[1], e[2], e[3])
        elif e[0] == "unlock": h.pop(e[3], None)
    return h

# ---------------------------------------------------------------- shared ownership
def mk_arc(cls):
    def f(m, it, term, ti, t):
        return cls(("h", ("arc", term), t["args"][0]))
    return f
@fn("std::sync::Arc::new", "std::boxed::Box::new")
def _(c):
    cell = own(c.st, c.args[0])
    return c.ret(Arc(cell) if "Arc" in c.callee["path"] else Ref(cell, ()))
@tr("std::convert::From::from", "std::sync::Arc")
def _(c):
    return c.ret(Arc(own(c.st, c.args[0]))) if isinstance(c.args[0], V) and not isinstance(c.args[0], (Ref, VecV)) else None
@tr("std::ops::Deref::deref", "std::sync::Arc")
@tr("std::convert::AsRef::as_ref", "std::sync::Arc")
@tr("std::borrow::Borrow::borrow", "std::sync::Arc")
def _(c):
    a = c.load(c.args[0])
    return c.ret(Ref(a.obj, ())) if isinstance(a, Arc) else None
@tr("std::clone::Clone::clone", "std::sync::Arc")
def _(c):
    a = c.load(c.args[0])
    if isinstance(a, Arc): c.st.event("share", a.obj)
    return c.ret(a)
@tr("std::clone::Clone::clone", "std::sync::Weak", "async_channel::Sender", "async_channel::Receiver", "std::string::String")
def _(c): return c.ret(c.load(c.args[0]))
@fn("std::sync::Arc::downgrade")
def _(c):
    a = c.load(c.args[0])
    return c.ret(Weak(a.obj)) if isinstance(a, Arc) else None
@fn("std::sync::Arc::ptr_eq", "std::sync::Weak::ptr_eq")
def _(c):
    a, b = c.load(c.args[0]), c.load(c.args[1])
    if a == b: return c.ret(TRUE)
    return c.ret(cop(("sameobj", a, b)))
def is_dead(c, obj):
    """Has the last strong reference to the object been given up? (stable once true)"""
    if obj[0] == "o": return False
    t = ("dead", obj)
    if c.st.facts.b.get(t) is True: return True
    if c.it.opts.get("conc"):
        u = ("dead", obj, len(c.st.ev))
        if c.decide(cop(u)):
            c.st.facts = c.st.facts.with_b(t, True)
            return True
        return False
    return c.decide(cop(t))
@fn("std::sync::Weak::upgrade")
def _(c):
    w = c.load(c.args[0])
    if not isinstance(w, Weak): return None
    dead = is_dead(c, w.obj)
    c.st.event("upgrade", w.obj, not dead)
    if dead: return c.ret(c.none())
    return c.ret(c.some(Arc(w.obj)))
@fn("std::sync::Weak::strong_count", "std::sync::Arc::strong_count")
def _(c):
    w = c.load(c.args[0])
    if isinstance(w, Weak):
        dead = is_dead(c, w.obj)
        c.st.event("count", w.obj, not dead)
        if dead: return c.ret(P(0))
    elif not isinstance(w, Arc): return None
    k = ("strong", w.obj) + ((len(c.st.ev),) if c.it.opts.get("conc") else ())
    a = Poly.atom(("a", "t", "usize", k))
    c.st.facts = c.st.facts.with_ge(a - 1)
    return c.ret(a)
@fn("std::sync::Weak::new")
def _(c): return c.ret(Weak(("none",)))
@fn("std::sync::Arc::into_inner")
def _(c):
    """Gives up the share; what it held is moved out if nobody else has one at that moment."""
    a = c.args[0]
    if not isinstance(a, Arc): return None
    c.st.event("release", a.obj)
    if not c.decide(cop(("sole", a.obj, len(c.st.ev)))): return c.ret(c.none())
    return c.ret(c.some(c.it.unk("what a shared pointer held")))
@fn("std::sync::Arc::try_unwrap", "std::sync::Arc::get_mut")
def _(c):
    c.it.note("exclusive access through Arc")
    return c.ret(c.it.unknown_of(c.dest, "exclusive access through Arc"))
def drop_arc(it, st, r, ti, t, depth):
    v = it.get(st, it.cell(st, r.c), r.p)
    if isinstance(v, Arc): st.event("release", v.obj)
    return [st]

# ---------------------------------------------------------------- locks
def mk_mx(kind):
    def f(m, it, term, ti, t): return Mx(kind, it.mk(("in", term), t["args"][0]))
    return f
@fn("std::sync::Mutex::new", "std::sync::RwLock::new")
def _(c): return c.ret(Mx("m" if "Mutex" in c.callee["path"] else "rw", c.args[0]))
def acquire(c, mode):
    r = c.args[0]
    if not isinstance(r, Ref): return None
    m = c.peek(r)
    if not isinstance(m, Mx): return None
    uid = fresh_id()
    cls = c.targ(0)
    mine = [h for h in held(c.st.ev).values() if (h[1], h[2]) == (r.c, r.p)]
    if c.it.opts.get("conc") and r.c[0] == "h" and not mine and not any(e[0] == "lock" and e[2] == r.c and e[3] == r.p and e[4] == "own" for e in c.st.ev):
        c.st.cells[r.c] = c.it.put(c.st, c.it.cell(c.st, r.c), r.p + (("lk",),), c.it.mk(("acq", uid), c.callee["args"][0]))
    c.st.event("lock", mode, r.c, r.p, uid, cls, c.it.cur[-1] if c.it.cur else "", c.span, c.peek(r).val if c.it.opts.get("conc") else None)
    return Guard(mode, r, uid)
def result(c, v, variant=0):
    return Agg(c.ty(), variant, (v,))
@fn("std::sync::Mutex::lock", "std::sync::RwLock::write", "std::sync::RwLock::read")
def _(c):
    g = acquire(c, {"lock": "m", "write": "w", "read": "r"}[c.callee["path"].split("::")[-1]])
    return c.ret(result(c, g)) if g else None
@fn("std::sync::Mutex::try_lock", "std::sync::RwLock::try_write", "std::sync::RwLock::try_read")
def _(c):
    if not c.decide(cop(("trylock", len(c.st.ev)))): return c.ret(result(c, c.it.unk("try_lock error"), 1))
    g = acquire(c, {"try_lock": "m", "try_write": "w", "try_read": "r"}[c.callee["path"].split("::")[-1]])
    return c.ret(result(c, g)) if g else None
@fn("std::sync::Mutex::get_mut", "std::sync::RwLock::get_mut")
def _(c):
    r = c.args[0]
    return c.ret(result(c, Ref(r.c, r.p + (("lk",),))))
@fn("std::sync::Mutex::into_inner", "std::sync::RwLock::into_inner")
def _(c): return c.ret(result(c, c.args[0].val)) if isinstance(c.args[0], Mx) else None
@fn("std::sync::PoisonError::into_inner", "std::sync::PoisonError::get_mut")
def _(c): return c.ret(c.it.unknown_of(c.dest, "poisoned"))
GUARDS = ("std::sync::MutexGuard", "std::sync::RwLockReadGuard", "std::sync::RwLockWriteGuard")
@tr("std::ops::Deref::deref", *GUARDS)
@tr("std::ops::DerefMut::deref_mut", *GUARDS)
def _(c):
    g = c.peek(c.args[0])
    if not isinstance(g, Guard): return None
    return c.ret(Ref(g.place.c, g.place.p + (("lk",),)))
def drop_guard(it, st, r, ti, t, depth):
    v = it.get(st, it.cell(st, r.c), r.p)
    if isinstance(v, Guard):
        m = it.get(st, it.cell(st, v.place.c), v.place.p)
        st.event("unlock", v.place.c, v.place.p, v.uid, v.kind, m.val if isinstance(m, Mx) and it.opts.get("conc") else None)
    return [st]

# ---------------------------------------------------------------- atomics
def mk_at(m, it, term, ti, t): return At(it.mk(("at", term), t["args"][0]), it.tn(t["args"][0]))
@fn("std::sync::atomic::Atomic::new")
def _(c): return c.ret(At(c.args[0], c.ty()))
@tr("std::convert::From::from", "std::sync::atomic::Atomic")
def _(c): return c.ret(At(c.args[0], c.ty()))
@tr("std::default::Default::default", "std::sync::atomic::Atomic")
def _(c):
    t = c.it.tn(c.it.ty(c.callee["args"][0])["args"][0])
    return c.ret(At(FALSE if t == "bool" else P(0), t))
def order(v):
    return v.v if isinstance(v, Agg) else None
def at_cur(c, r):
    """Current value; other threads may have changed it."""
    v = c.peek(r)
    if not isinstance(v, At): return None
    if c.it.opts.get("conc") and r.c[0] == "h":
        h = c.it.mk(("at", c.it.cell(c.st, r.c) and (r.c, r.p), len(c.st.ev)), c.it.tyi(v.ty))
        return h
    return v.val
def at_set(c, r, new):
    v = c.peek(r)
    c.st.cells[r.c] = c.it.put(c.st, c.it.cell(c.st, r.c), r.p, At(new, v.ty))
@fn("std::sync::atomic::Atomic::load")
def _(c):
    r = c.args[0]; v = at_cur(c, r)
    if v is None: return None
    at_set(c, r, v)
    c.st.event("ald", r.c, r.p, v, order(c.args[1]))
    return c.ret(v)
@fn("std::sync::atomic::Atomic::store")
def _(c):
    r = c.args[0]
    if not isinstance(c.peek(r), At): return None
    c.st.event("ast", r.c, r.p, c.args[1], order(c.args[2]))
    at_set(c, r, c.args[1])
    return c.ret()
def rmw(f):
    def g(c):
        r = c.args[0]; v = at_cur(c, r)
        if v is None: return None
        new = f(c, v, c.args[1])
        c.st.event("rmw", r.c, r.p, v, new, order(c.args[2]))
        at_set(c, r, new)
        return c.ret(v)
    return g
def _wrapping(op):
    def f(c, v, x):
        p = v + x if op == "add" else v - x
        return p        # counters stay below 2^64
    return f
fn("std::sync::atomic::Atomic::fetch_add")(rmw(_wrapping("add")))
fn("std::sync::atomic::Atomic::fetch_sub")(rmw(_wrapping("sub")))
fn("std::sync::atomic::Atomic::swap")(rmw(lambda c, v, x: x))
@fn("std::sync::atomic::Atomic::fetch_max", "std::sync::atomic::Atomic::fetch_min")
def _(c):
    mx = c.callee["path"].endswith("max")
    r = c.args[0]; v = at_cur(c, r)
    new = v if c.decide(cge(v - c.args[1])) == mx else c.args[1]
    c.st.event("rmw", r.c, r.p, v, new, order(c.args[2])); at_set(c, r, new)
    return c.ret(v)
fn("std::sync::atomic::Atomic::fetch_or")(rmw(lambda c, v, x: cor(v, x) if isinstance(v, Cond) else c.it.unk("bits")))
fn("std::sync::atomic::Atomic::fetch_and")(rmw(lambda c, v, x: cand(v, x) if isinstance(v, Cond) else c.it.unk("bits")))
@fn("std::sync::atomic::Atomic::compare_exchange", "std::sync::atomic::Atomic::compare_exchange_weak")
def _(c):
    r = c.args[0]; v = at_cur(c, r)
    if v is None: return None
    same_ = ceq(v - c.args[1]) if isinstance(v, Poly) else cor(cand(v, c.args[1]), cand(cnot(v), cnot(c.args[1])))
    ok = c.decide(same_)
    if ok and c.callee["path"].endswith("weak") and not c.decide(cop(("spurious", len(c.st.ev)))): pass
    if ok:
        c.st.event("rmw", r.c, r.p, v, c.args[2], order(c.args[3])); at_set(c, r, c.args[2])
        return c.ret(result(c, v))
    c.st.event("ald", r.c, r.p, v, order(c.args[4])); at_set(c, r, v)
    return c.ret(result(c, v, 1))

# ---------------------------------------------------------------- channels
def chan(v):
    return v.t if isinstance(v, Op) else None
@fn("async_channel::unbounded", "async_channel::bounded")
def _(c):
    t = c.it.ty(c.dest)
    u = ("chan", fresh_id(), c.args[0] if c.args else None)
    return c.ret(Agg(c.ty(), 0, tuple(Op(u, c.it.tn(x)) for x in t["of"])))
@fn("async_channel::Sender::try_send", "async_channel::Sender::send_blocking", "async_channel::Sender::force_send")
def _(c):
    ch = chan(c.load(c.args[0]))
    if ch is None: return None
    c.st.event("send", ch, c.args[1])
    ok = UNIT
    if c.callee["path"].endswith("force_send"): return None
    return c.ret(result(c, ok))
@fn("async_channel::Receiver::try_recv", "async_channel::Receiver::recv_blocking")
def _(c):
    ch = chan(c.load(c.args[0]))
    if ch is None: return None
    n = len(c.st.ev)
    if c.decide(cop(("chan nonempty", ch, n))):
        t = c.it.ty(c.dest)
        v = c.it.mk(("received", ch, n), t["args"][0])
        c.st.event("recv", ch, v)
        return c.ret(result(c, v))
    c.st.event("drained", ch)
    return c.ret(result(c, Op(("recv error",), c.it.tn(c.it.ty(c.dest)["args"][1])), 1))
@fn("async_channel::Receiver::is_empty", "async_channel::Sender::is_empty")
def _(c):
    ch = chan(c.load(c.args[0]))
    if ch is None: return None
    c.st.event("chempty", ch)
    return c.ret(cop(("chan empty", ch)))
@fn("async_channel::Receiver::len", "async_channel::Sender::len")
def _(c):
    ch = chan(c.load(c.args[0]))
    if ch is None: return None
    e = ("chan empty", ch)
    c.st.event("chempty", ch)
    if c.decide(cop(e)): return c.ret(P(0))
    a = Poly.atom(("a", "t", "usize", ("chan len", ch)))
    c.st.facts = c.st.facts.with_ge(a - 1)
    return c.ret(a)

# ---------------------------------------------------------------- hash maps and sets
MAPS = ("std::collections::HashMap", "std::collections::HashSet")
def mk_map(kind):
    def f(m, it, term, ti, t): return Map(kind, term, ())
    return f
EMPTY = ("empty",)
@tr("std::default::Default::default", *MAPS)
def _(c): return c.ret(Map("map" if "Map" in c.ty().split("<")[0] else "set", EMPTY, ()))
@fn("std::collections::HashMap::new", "std::collections::HashSet::new", "std::collections::HashMap::with_hasher", "std::collections::HashSet::with_hasher",
    "std::collections::HashMap::with_capacity_and_hasher", "std::collections::HashSet::with_capacity_and_hasher")
def _(c): return c.ret(Map("map" if "HashMap" in c.callee["path"] else "set", EMPTY, ()))
@tr("std::clone::Clone::clone", *MAPS)
def _(c): return c.ret(c.load(c.args[0]))
def setmap(c, r, m): c.st.cells[r.c] = c.it.put(c.st, c.it.cell(c.st, r.c), r.p, m)
def key_of(c, k): return c.load(k) if isinstance(k, Ref) else k
def found(c, m, k):
    """Is the key in the map? By the operations on it, the newest first."""
    for op in reversed(m.log):
        if op[1] == k: return op[0] == "ins", (op[2] if op[0] == "ins" else None)
        if isinstance(op[1], Poly) and isinstance(k, Poly) and c.st.facts.entails_ne(op[1] - k): continue
        if c.decide(ceq(op[1] - k)): return op[0] == "ins", (op[2] if op[0] == "ins" else None)
    if m.term == EMPTY: return False, None
    return c.decide(cop(("has", m.term, k))), None
@fn("std::collections::HashMap::insert", "std::collections::HashSet::insert")
def _(c):
    r = c.args[0]; m = c.peek(r)
    if not isinstance(m, Map): return None
    k = c.args[1]; v = c.args[2] if len(c.args) > 2 else UNIT
    c.st.event("mins", r.c, r.p, k, v, m.term)
    setmap(c, r, Map(m.kind, m.term, m.log + (("ins", k, v),)))
    if c.ty() == "bool": return c.ret(cop(("newkey", m.term, k, len(c.st.ev))))
    return c.ret(Op(("previous", m.term, k, len(c.st.ev)), c.ty()))
@fn("std::collections::HashMap::entry")
def _(c):
    r = c.args[0]; m = c.peek(r)
    if not isinstance(m, Map): return None
    return c.ret(Op(("entry", r, c.args[1]), c.ty()))
@fn("std::collections::hash_map::Entry::or_insert")
def _(c):
    """An insertion: the keys are numbers that were never used before, which has a rule of its own."""
    e = c.args[0]
    if not isinstance(e, Op) or not isinstance(e.t, tuple) or e.t[0] != "entry": return None
    r, k = e.t[1], e.t[2]; m = c.peek(r)
    if not isinstance(m, Map): return None
    c.st.event("mins", r.c, r.p, k, c.args[1], m.term)
    setmap(c, r, Map(m.kind, m.term, m.log + (("ins", k, c.args[1]),)))
    cell = ("tmp", fresh_id()); c.st.cells[cell] = c.args[1]
    return c.ret(Ref(cell, ()))
@fn("std::collections::HashMap::remove", "std::collections::HashSet::remove", "std::collections::HashMap::remove_entry", "std::collections::HashSet::take")
def _(c):
    r = c.args[0]; m = c.peek(r)
    if not isinstance(m, Map): return None
    k = key_of(c, c.args[1])
    c.st.event("mrem", r.c, r.p, k, m.term)
    setmap(c, r, Map(m.kind, m.term, m.log + (("rem", k),)))
    if c.ty() == "bool": return c.ret(cop(("oldkey", m.term, k, len(c.st.ev))))
    if c.callee["path"].endswith("remove"):
        t = c.it.ty(c.dest)
        has, v = found(c, m, k)
        if not has: return c.ret(c.none())
        if v is None:
            cell = mval(c, m, k, t["args"][0])
            v = c.it.cell(c.st, cell)
        return c.ret(c.some(v))
    return c.ret(Op(("removed", m.term, k, len(c.st.ev)), c.ty()))
def mval(c, m, k, ti): return ("h", ("mval", m.term, k), ti)
@fn("std::collections::HashMap::get", "std::collections::HashMap::get_mut", "std::collections::HashSet::get")
def _(c):
    r = c.args[0]; m = c.peek(r)
    if not isinstance(m, Map): return None
    k = key_of(c, c.args[1])
    has, v = found(c, m, k)
    c.st.event("mget", r.c, r.p, k, has, m.term)
    if not has: return c.ret(c.none())
    if v is not None: return c.ret(c.some(Ref(own(c.st, v), ())))
    t = c.it.ty(c.it.ty(c.dest)["args"][0])
    return c.ret(c.some(Ref(mval(c, m, k, t["to"]), ())))
@tr("std::ops::Index::index", "std::collections::HashMap")
def _(c):
    r = c.args[0]; m = c.peek(r)
    if not isinstance(m, Map): return None
    k = key_of(c, c.args[1])
    c.st.event("mget", r.c, r.p, k, True, m.term)
    return c.ret(Ref(mval(c, m, k, c.it.ty(c.dest)["to"]), ()))
@fn("std::collections::HashMap::contains_key", "std::collections::HashSet::contains")
def _(c):
    m = c.peek(c.args[0])
    if not isinstance(m, Map): return None
    has, v = found(c, m, key_of(c, c.args[1]))
    c.st.event("mget", c.args[0].c, c.args[0].p, key_of(c, c.args[1]), has, m.term)
    return c.ret(TRUE if has else FALSE)
@fn("std::collections::HashMap::is_empty", "std::collections::HashSet::is_empty")
def _(c):
    m = c.peek(c.args[0])
    if not isinstance(m, Map): return None
    if not m.log: return c.ret(TRUE if m.term == EMPTY else cop(("map empty", m.term)))
    if m.log[-1][0] == "ins": return c.ret(FALSE)
    return c.ret(cop(("map empty", m.term, m.log)))
@fn("std::collections::HashMap::len", "std::collections::HashSet::len")
def _(c):
    m = c.peek(c.args[0])
    if not isinstance(m, Map): return None
    if m.term == EMPTY and not m.log: return c.ret(P(0))
    return c.ret(Poly.atom(("a", "t", "usize", ("map len", m.term, m.log))))
@fn("std::collections::HashMap::clear", "std::collections::HashSet::clear")
def _(c):
    r = c.args[0]; m = c.peek(r)
    if not isinstance(m, Map): return None
    c.st.event("mclear", r.c, r.p, m)
    setmap(c, r, Map(m.kind, EMPTY, ()))
    return c.ret()
@fn("std::collections::HashMap::drain", "std::collections::HashSet::drain")
def _(c):
    r = c.args[0]; m = c.peek(r)
    if not isinstance(m, Map): return None
    c.st.event("mclear", r.c, r.p, m)
    setmap(c, r, Map(m.kind, EMPTY, ()))
    return c.ret(Agg("#mapiter", 0, (m, FALSE)))
@tr("std::iter::IntoIterator::into_iter", *MAPS)
def _(c):
    m = c.args[0]
    return c.ret(Agg("#mapiter", 0, (m, FALSE))) if isinstance(m, Map) else None
@tr("std::iter::IntoIterator::into_iter", *["&" + x for x in MAPS])
def _(c):
    m = c.peek(c.args[0])
    return c.ret(Agg("#mapiter", 0, (m, TRUE))) if isinstance(m, Map) else None
@fn("std::collections::HashMap::iter", "std::collections::HashSet::iter", "std::collections::HashMap::keys")
def _(c):
    m = c.peek(c.args[0])
    return c.ret(Agg("#mapiter", 0, (m, TRUE))) if isinstance(m, Map) else None
MITERS = tuple("std::collections::hash_%s::%s" % (a, b) for a in ("map", "set") for b in ("IntoIter", "Iter", "Drain", "Keys", "IterMut"))
@tr("std::iter::Iterator::next", *MITERS)
def _(c):
    v = c.peek(c.args[0])
    if not isinstance(v, Agg) or v.ty != "#mapiter": return None
    m, ref = v.f
    if m.term == EMPTY and not m.log: return c.ret(c.none())
    n = len(c.st.ev)
    if not c.decide(cop(("more", m.term, m.log, n))): return c.ret(c.none())
    oi = c.it.ty(c.dest)["args"][0]
    t = c.it.ty(oi)
    if m.kind == "map" and t["k"] == "tuple":
        kt, vt = t["of"]
        kk = c.it.mk(("key", m.term, n), c.it.ty(kt)["to"] if ref.k == "T" else kt)
        c.st.event("mnext", m, kk)
        cell = mval(c, m, kk, c.it.ty(vt)["to"] if c.it.ty(vt)["k"] == "ref" else vt)
        kv = Ref(own(c.st, kk), ()) if ref.k == "T" else kk
        return c.ret(c.some(Agg(c.it.tn(oi), 0, (kv, Ref(cell, ()) if c.it.ty(vt)["k"] == "ref" else c.it.cell(c.st, cell)))))
    kt = t["to"] if t["k"] == "ref" else oi
    kk = c.it.mk(("key", m.term, n), kt)
    c.st.event("mnext", m, kk)
    return c.ret(c.some(Ref(own(c.st, kk), ()) if t["k"] == "ref" else kk))

# ---------------------------------------------------------------- runtimes, closures, logging, formatting
@tr("std::ops::FnOnce::call_once", "#param")
def _(c):
    a = c.args[1]
    args = a.f if isinstance(a, Agg) else ()
    n = len([e for e in c.st.ev if e[0] == "callf"])
    c.st.event("callf", c.args[0], args)
    for x in args:
        if isinstance(x, Ref):
            v = c.peek(x)
            if isinstance(v, Op): put_quiet(c, x, Op(("fnout", n, v.t), v.ty))
            else: put_quiet(c, x, c.it.unk("changed by a caller's function"))
            c.st.event("set", x.c, x.p)
    return c.ret(c.it.mk(("fnresult", n), c.dest) if c.it.tn(c.dest) != "()" else UNIT)
def fncall(c):
    f = c.args[0]
    if isinstance(f, Ref): f = c.peek(f)
    if isinstance(f, Fn) and isinstance(c.args[1], Agg):
        return c.it.call_value(c.st, f, list(c.args[1].f), c.dest, c.depth, c.span)
    return None
for _n in ("Once::call_once", "Mut::call_mut", "::call"): TR[("std::ops::Fn" + _n, "*")] = fncall
R = "craballoc::runtime::IsRuntime::"
def rt(name):
    @tr(R + name, "#param")
    def f(c):
        c.st.event("rt", name, tuple(c.args), tuple(held(c.st.ev).values()), tuple(c.peek(a) if isinstance(a, Ref) else None for a in c.args), ("rt", name, len(c.st.ev) + 1))
        if c.ty() == "()": return c.ret()
        return c.ret(c.it.mk(("rt", name, len(c.st.ev)), c.dest))
for _n in ("buffer_create", "buffer_copy", "buffer_write", "buffer_read"): rt(_n)
@tr("std::convert::AsRef::as_ref", "#param")
def _(c):
    a = c.args[0]
    return c.ret(Ref(("h", ("asref", a.c, a.p), c.it.ty(c.dest)["to"]), ())) if isinstance(a, Ref) else None
@tr("std::borrow::ToOwned::to_owned", "str")
def _(c): return c.ret(Op(("string", c.peek(c.args[0])), c.ty()))
@tr("std::convert::From::from", "std::string::String")
@tr("std::string::ToString::to_string", "str")
def _(c): return c.ret(Op(("string", c.peek(c.args[0])), c.ty())) if isinstance(c.args[0], Ref) else None
@tr("std::ops::Deref::deref", "std::string::String")
def _(c):
    s = c.peek(c.args[0])
    return c.ret(Ref(("h", ("strof", s), c.it.ty(c.dest)["to"]), ()))
@fn("std::string::String::as_str", "std::string::String::as_ref")
def _(c): return TR[("std::ops::Deref::deref", "std::string::String")](c)
@fn("core::fmt::rt::Argument::new_debug", "core::fmt::rt::Argument::new_display", "core::fmt::rt::Argument::new_lower_hex",
    "std::fmt::rt::Argument::new_debug", "std::fmt::rt::Argument::new_display",
    "std::fmt::Arguments::new", "std::fmt::Arguments::from_str", "std::fmt::format", "std::fmt::Arguments::new_v1", "std::fmt::Arguments::new_const", "std::any::type_name")
def _(c): return c.ret(Op(("fmt", len(c.st.ev)), c.ty()) if not c.ty().startswith("&") else c.it.mk(("fmt", len(c.st.ev)), c.dest))
@fn("std::fmt::DebugStruct::field", "std::fmt::DebugTuple::field", "std::fmt::DebugList::entry", "std::fmt::DebugList::entries")
def _(c): return c.ret(c.args[0])
@fn("std::fmt::Formatter::debug_struct", "std::fmt::Formatter::debug_tuple", "std::fmt::Formatter::debug_list", "std::fmt::DebugStruct::finish", "std::fmt::DebugTuple::finish",
    "std::fmt::DebugStruct::finish_non_exhaustive", "std::fmt::Formatter::write_str", "std::fmt::Formatter::write_fmt", "std::fmt::Formatter::debug_struct_fields_finish")
def _(c): return c.ret(c.it.mk(("fmt", len(c.st.ev)), c.dest))
@tr("std::cmp::PartialOrd::le", "log::Level")
@tr("std::cmp::PartialOrd::lt", "log::Level")
def _(c): return c.ret(FALSE)
@tr("std::cmp::PartialOrd::le", "tracing::Level", "tracing_core::Level", "tracing_core::metadata::Level")
def _(c): return c.ret(FALSE)
@tr("std::future::Future::poll", "#param")
def _(c):
    return c.ret(Agg(c.ty(), 0, (c.it.mk(("output", c.args[0] if not isinstance(c.args[0], Ref) else ("ref", c.args[0].c)), c.it.ty(c.dest)["args"][0]),)))

# ---------------------------------------------------------------- boxes made by vec![..]
@fn("std::boxed::Box::new_uninit")
def _(c):
    cell = own(c.st, Agg("#uninit", 0, (UNIT, Agg("#manual", 0, (c.it.unk("uninitialised"),)))))
    return c.ret(Ref(cell, ()))
@fn("std::boxed::box_assume_init_into_vec_unsafe")
def _(c):
    b = c.args[0]
    if not isinstance(b, Ref): return None
    v = c.peek(b)
    if not isinstance(v, Agg) or v.ty != "#uninit": return None
    q = v.f[1].f[0]
    return c.ret(VecV(q, q.n)) if isinstance(q, Seq) else None

def setup(m):
    H = lambda f: (lambda it, term, ti, t: f(m, it, term, ti, t))
    m.mk.update({
        "std::sync::Arc": H(mk_arc(Arc)), "std::sync::Weak": H(mk_arc(Weak)), "std::sync::Mutex": H(mk_mx("m")), "std::sync::RwLock": H(mk_mx("rw")),
        "std::sync::atomic::Atomic": H(mk_at), "std::collections::HashMap": H(mk_map("map")), "std::collections::HashSet": H(mk_map("set")),
    })
    m.drops["std::sync::Arc"] = drop_arc
    for g in GUARDS: m.drops[g] = drop_guard
    m.nodrop |= {"std::sync::Weak", "async_channel::Sender", "async_channel::Receiver", "std::string::String", "async_channel::TrySendError", "std::sync::PoisonError", "std::boxed::Box", *MAPS}
_base_init = Models.__init__
def _init(self):
    _base_init(self)
    setup(self)
Models.__init__ = _init

# ---------------------------------------------------------------- range managers as abstract sets (A02 and A07 are about them)
def manager(c):
    r = c.args[0]
    v = c.peek(r)
    if not (isinstance(v, Agg) and len(v.f) == 1 and isinstance(v.f[0], VecV)): return None
    return r, v, v.f[0].seq
def set_ranges(c, r, v, q):
    c.st.cells[r.c] = c.it.put(c.st, c.it.cell(c.st, r.c), r.p, Agg(v.ty, v.v, (VecV(q, q.n),)))
def cut_add(c):
    m = manager(c)
    if m is None: return None
    r, v, q = m
    x = c.args[1]
    base = ("added", r.c, r.p, len(c.st.ev))
    n = Poly.atom(("a", "t", "len32", base))
    c.st.facts = c.st.facts.with_ge(n - 1)
    c.st.event("madd", r.c, r.p, x, tuple(held(c.st.ev).values()))
    set_ranges(c, r, v, Seq(n, base, (), q.ety))
    return c.ret()
def cut_remove(c):
    m = manager(c)
    if m is None: return None
    r, v, q = m
    count = c.args[1]
    u = len(c.st.ev)
    if not (c.decide(cge(count - 1)) and c.decide(cop(("a free range of", r.c, r.p, u, count)))):
        c.st.event("mnone", r.c, r.p, count)
        return c.ret(c.none())
    ti = c.it.ty(c.dest)["args"][0]
    x = c.it.mk(("taken", r.c, r.p, u, count), ti)
    c.it.assume(c.st, ceq(x.f[1] - x.f[0] - count + 1))
    c.st.event("mtake", r.c, r.p, count, x)
    base = ("without", r.c, r.p, u, x)
    set_ranges(c, r, v, Seq(Poly.atom(("a", "t", "len32", base)), base, (), q.ety))
    return c.ret(c.some(x))
CUTS = {"craballoc::range::RangeManager::add_range": cut_add, "craballoc::range::RangeManager::remove": cut_remove}
