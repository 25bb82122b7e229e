"""Obligations about the allocator and its handles, over the histories of their entry points."""
from obl import *
from gmodels import CUTS, held

# ---------------------------------------------------------------- analysed histories
class Sec:
    """One critical section: from taking a lock to releasing it, with the contents at both ends."""
    def __init__(self, e, i):
        self.mode, self.cell, self.path, self.uid, self.cls, self.fn, self.span, self.before = e[1:9]
        self.start, self.end, self.after = i, None, None
    @property
    def place(self): return (self.cell, self.path)
class ARun(Run):
    """An entry point analysed as one thread among others: what is behind a lock or an atomic may have
    changed whenever it is looked at."""
    def __init__(self, dump, root, pre=None, conc=True, cuts=True, **opts):
        o = dict(conc=conc, cuts=CUTS if cuts is True else cuts or None)
        o.update(opts)
        Run.__init__(self, dump, root, pre, o)
    def unclear(self):
        """Why histories may be incomplete, if so."""
        if self.err is not None: return "not analysed: %s" % self.err
        if self.it.notes: return "not resolved: %s in %s" % (self.it.notes[0][1], self.it.notes[0][0])
        for st, v in self.outs:
            for e, _, _ in walk(st.ev):
                if e[0] == "unknown": return "unknown effects of %s" % (e[1],)
        return None
def walk(ev, hold=(), loops=()):
    """(event, uids of the held locks, enclosing loops), in order; the alternatives of a loop one after the other."""
    hold = list(hold)
    for e in ev:
        if e[0] == "loop":
            for a in e[3]:
                yield from walk(a, hold, loops + ((e[1], e[2], a),))
        else:
            if e[0] == "unlock" and e[3] in hold: hold.remove(e[3])
            yield e, tuple(hold), loops
            if e[0] == "lock": hold.append(e[4])
class Path:
    def __init__(self, run, st, v):
        self.run, self.it, self.st, self.v = run, run.it, st, v
        self.ev = list(walk(st.ev))
        self.secs = {}
        for i, (e, h, l) in enumerate(self.ev):
            if e[0] == "lock": self.secs[e[4]] = Sec(e, i)
            elif e[0] == "unlock" and e[3] in self.secs:
                s = self.secs[e[3]]
                if s.end is None or True: s.end, s.after = i, e[5]
        for s in self.secs.values():
            if s.end is None:
                s.end = len(self.ev)
                s.after = self.content(s.cell, s.path)
    def content(self, cell, path=()):
        m = self.it.get(self.st, self.it.cell(self.st, cell), path)
        return m.val if isinstance(m, (Mx, At)) else None
    def sections(self, cell, changed=False):
        return [s for s in self.secs.values() if s.cell == cell and (not changed or s.after != s.before)]
    def events(self, *kinds):
        return [(i, e, h, l) for i, (e, h, l) in enumerate(self.ev) if e[0] in kinds]
def infeasible_choice(f):
    """Does the path depend on a value the analysis lost (then it may not exist)?"""
    def lost(x):
        hit = []
        def g(t):
            if isinstance(t, Unk): hit.append(t)
            if isinstance(t, tuple) and len(t) > 3 and t[0] == "a" and t[1] == "unk" and t[2] != "len32": hit.append(t)
        visit(x, g)
        return hit
    for p in f.ge + f.ne:
        if lost(p): return True
    for t in list(f.b) + list(f.disc):
        if isinstance(t, tuple) and t and t[0] == "unkb" or lost(t): return True
    return False
def broken(p, why):
    """The path exists and violates the rule, whatever the values."""
    if infeasible_choice(p.st.facts): return Verdict(OPEN, why)
    v = refute(p.it, p.st, lambda e: True, why)
    if v.status == REFUTED: return v
    # a path without a point found: only when it depends on nothing numeric
    return Verdict(REFUTED, why) if not p.st.facts.ge and not p.st.facts.ne else v
def broken_idle(p, why):
    """A violation that does not depend on what the path's loops did: also looks for it where they had nothing to do."""
    v = broken(p, why)
    if v.status == REFUTED: return v
    st = p.st.copy()
    f = st.facts
    for i, e, h, l in p.ev_all():
        for x in l[:1]:
            K = P(x[1])
            if K.is_const(): 
                if K.value(): return v
            else: f = f.with_eq(K)
    def fa(t):
        if t[1] != "unk": return None
        x = p.it.inits.get(t[3])
        return next(iter(x)) if x and len(x) == 1 else None
    for _ in range(3): f = f.map(lambda x: deep(x, fa))
    st.facts = f
    if f.contradictory(): return v
    w = broken(with_state(p, st), why)
    return w if w.status == REFUTED else v
def broken_relaxed(p, why):
    """A violation that depends only on which way the path goes: what is only known about loops is set aside."""
    v = broken_idle(p, why)
    if v.status == REFUTED: return v
    st = p.st.copy()
    st.facts = Facts(tuple(x for x in st.facts.ge if not has_unknown(x)), tuple(x for x in st.facts.ne if not has_unknown(x)), st.facts.b, st.facts.disc)
    if st.facts.contradictory(): return v
    w = broken(with_state(p, st), why)
    return w if w.status == REFUTED else v
GOOD = Verdict(PROVED)
def hist(ob, run, rule, f, want_paths=True):
    """One obligation over the complete histories of an entry point."""
    u = run.unclear()
    if u: return ob.add(run, rule, Verdict(OPEN, u))
    vs = []
    for st, v in run.outs:
        if st.facts.contradictory(): continue
        st = st.copy()
        try: r = f(Path(run, st, v))
        except (Fork, Undecided, Stop) as e: r = Verdict(OPEN, "comparison not resolved: %s" % (e,))
        vs += r if isinstance(r, list) else [r] if r is not None else []
    if want_paths and not vs: vs = [Verdict(OPEN, "no path of this kind reaches the end")]
    ob.all(run, rule, vs)

# ---------------------------------------------------------------- the parts of handles
def leaves(run, v, ty=None, out=None):
    """(type name, value) of the parts of a structure of the library."""
    it = run.it
    if out is None: out = []
    n = ty or getattr(v, "ty", None)
    if isinstance(v, Op) and not v.ty.startswith("async_channel"):
        ti = it.tyi(v.ty)
        t = it.ty(ti) if ti is not None else None
        if t and t["k"] == "adt" and not t["enum"] and t["path"].startswith("cra"): v = it.as_variant(v, 0)
    if isinstance(v, Agg) and n and not n.startswith(("crabslab::Id<", "crabslab::Array<", "crabslab::id::Id<", "crabslab::array::Array<")):
        ti = it.tyi(v.ty)
        t = it.ty(ti) if ti is not None else None
        if t and t["k"] == "adt" and not t["enum"] and t["variants"]:
            for x, (fname, fti) in zip(v.f, [(f[0], f[1]) for f in t["variants"][0][2]]): leaves(run, x, it.tn(fti), out)
            return out
        if t and t["k"] == "tuple":
            for x, fti in zip(v.f, t["of"]): leaves(run, x, it.tn(fti), out)
            return out
    out.append((n or "", v))
    return out
class Parts:
    """What identifies a value: its slots, number, channel, queue of updates and CPU copy."""
    def __init__(self, run, v):
        self.id = self.array = self.k = self.chan = self.queue = self.cpu = None
        self.ok = True
        for n, x in leaves(run, v):
            if re.match(r"crabslab::(\w+::)?Id<", n): self.put("id", find_poly(x))
            elif re.match(r"crabslab::(\w+::)?Array<", n): self.put("array", tuple(polys(x)[:2]) if len(polys(x)) >= 2 else None)
            elif n == "usize": self.put("k", x)
            elif n.startswith("async_channel::Sender<"): self.put("chan", x.t if isinstance(x, Op) else None)
            elif isinstance(x, (Arc, Weak)): self.put("queue" if "SlabUpdate" in n else "cpu", x.obj)
    def put(self, role, x):
        if x is None or getattr(self, role) not in (None, x): self.ok = False
        setattr(self, role, x)
    def roles(self): return {r: getattr(self, r) for r in ("id", "array", "k", "chan", "queue", "cpu") if getattr(self, r) is not None}
def parts(p, x):
    """The parts of a handle: the name of an argument, or a value."""
    v = x
    if isinstance(x, str):
        v = p.run.args[x]
        if isinstance(v, Ref): v = p.run.init(v)
    return Parts(p.run, v)
def same_parts(p, got, want, rule):
    vs = []
    for r, x in got.roles().items():
        y = getattr(want, r)
        if y is None: return [Verdict(OPEN, "the original's %s is not resolved" % r)]
        if r in ("id", "k"): vs.append(same(p.it, p.st, x, y) if isinstance(x, Poly) and isinstance(y, Poly) else Verdict(OPEN, r))
        elif r == "array": vs += [same(p.it, p.st, a, b) for a, b in zip(x, y)]
        elif x == y: vs.append(GOOD)
        else: vs.append(broken(p, "the %s of %s is another one" % ({"chan": "channel", "queue": "update queue", "cpu": "CPU copy"}[r], rule)))
    return vs

# ---------------------------------------------------------------- A11: identity
def ident_clone(ob, dump, root, src="h"):
    run = ARun(dump, root)
    if run.err is None and src not in run.args: src = next(iter(run.args))
    hist(ob, run, "a clone shares everything with the original", lambda p: same(p.it, p.st, p.v, run.init(run.args[src])))
def ident_parts(ob, dump, root):
    """Downgrading, upgrading, keeping the GPU half."""
    run = ARun(dump, root)
    if run.err is not None: return ob.add(run, "shares the identity of the original", undecided(run))
    src = next(iter(run.args))
    def f(p):
        v, vs = p.v, []
        want = parts(p, src)
        if isinstance(v, Agg) and "Option<" in v.ty.split("craballoc")[0]:
            dead = [e for _, e, _, _ in p.events("upgrade", "count") if not e[2]]
            if v.v == 0:
                # something it needs is gone
                return GOOD if dead else broken(p, "upgrading fails although nothing was dropped")
            alive = {e[1] for _, e, _, _ in p.events("upgrade") if e[2]}
            v = v.f[0]
            got = Parts(run, v)
            for r in ("queue", "cpu"):
                o = getattr(got, r)
                if o is not None and o[0] == "h" and o not in alive: vs.append(broken(p, "upgrading yields a %s that was not upgraded" % r))
        got = Parts(run, v)
        if not got.ok or not got.roles(): return Verdict(OPEN, "parts of the handle not resolved")
        return vs + same_parts(p, got, want, "the new handle")
    hist(ob, run, "shares the identity of the original", f)
def ident_access(ob, dump, root, role):
    """Accessors report the identity."""
    run = ARun(dump, root)
    if run.err is not None: return ob.add(run, "reports the handle's own %s" % role, undecided(run))
    src = next(iter(run.args))
    def f(p):
        w = getattr(parts(p, src), role)
        if w is None: return Verdict(OPEN, "part not resolved")
        if role == "array": return [same(p.it, p.st, a, b) for a, b in zip(polys(p.v)[:2], w)]
        g = find_poly(p.v)
        return same(p.it, p.st, g, w) if g is not None else Verdict(OPEN, "result not resolved")
    hist(ob, run, "reports the handle's own %s" % {"id": "id", "array": "array", "k": "number"}[role], f)
def ident_id(ob, dump, root): ident_access(ob, dump, root, "id")
def ident_k(ob, dump, root): ident_access(ob, dump, root, "k")
def ident_array(ob, dump, root): ident_access(ob, dump, root, "array")
def ident_as_ref(ob, dump, root):
    run = ARun(dump, root)
    hist(ob, run, "refers to the same handle", lambda p: GOOD if p.v == run.args[next(iter(run.args))] else
         Verdict(OPEN, "result not resolved") if not isinstance(p.v, Ref) or p.v.p else broken(p, "refers to something else"))

def ident_count(ob, dump, root):
    """The reported number of references is that of the handles that keep the value's slots."""
    run = ARun(dump, root, conc=False)
    rule = "counts the handles that keep the slots in use"
    if run.err is not None: return ob.add(run, rule, undecided(run))
    src = next(iter(run.args))
    def f(p):
        h = parts(p, src)
        if h.queue is None: return Verdict(OPEN, "update queue not resolved")
        dead = p.st.facts.b.get(("dead", h.queue))
        weak = p.run.weak_queue
        n = Poly.atom(("a", "t", "usize", ("strong", h.queue)))
        if weak and dead is None:
            if any(e[1] != h.queue for _, e, _, _ in p.events("count", "upgrade")): return broken(p, "does not ask about what keeps the slots")
            return Verdict(OPEN, "what is counted is not resolved")
        if any(e[1] == h.queue and e[2] for _, e, _, _ in p.events("upgrade")): return Verdict(OPEN, "counted with one more handle in between")
        if isinstance(p.v, Poly): return same(p.it, p.st, p.v, P(0) if dead else n)
        if not isinstance(p.v, Cond): return Verdict(OPEN, "result not resolved")
        st = p.st.copy()
        if not dead: st.facts = st.facts.with_ge(n - 1)
        return holds(p.it, st, cnot(p.v) if dead else p.v)
    h0 = run.args[src]
    run.weak_queue = any(isinstance(x, Weak) for n, x in leaves(run, run.init(h0) if isinstance(h0, Ref) else h0))
    hist(ob, run, rule, f)

# ---------------------------------------------------------------- A04, A05: updates
S_T = size_atom("T")
def enc_one(run, val, ety):
    return Seq(S_T, ("fill", P(0)), (Ent("enc", P(0), S_T, ("T", val), None, None),), ety)
def enc_all(run, seq, ety):
    q = ("a", "k", "nat", ("spec", "q"))
    k = Poly.atom(q)
    el = run.it.seq_get(run.st0.copy(), seq, k)
    return Seq(S_T * seq.n, ("fill", P(0)), (Ent("enc", k * S_T, S_T, ("T", el), q, seq.n),), ety)
def queue_final(p, obj):
    v = p.content(obj)
    return v if isinstance(v, VecV) else None
def update_parts(x):
    """(index, len, elements) of an update."""
    if not isinstance(x, Agg): return None
    a = [f for f in x.f if isinstance(f, Agg)]
    e = [f for f in x.f if isinstance(f, VecV)]
    if len(a) != 1 or len(e) != 1 or len(polys(a[0])) < 2: return None
    return polys(a[0])[0], polys(a[0])[1], e[0].seq
def newest_is(p, q, index, size, elements, depth=0):
    """The last update of the queue covers exactly these slots with these contents."""
    try: return newest_is_(p, q, index, size, elements)
    except Fork as f:
        if depth > 5: raise
        vs = []
        for alt in f.alts:
            s = p.it.refine(p.st, alt)
            if s is not None: vs += newest_is(with_state(p, s), q, index, size, elements, depth + 1)
        return vs
def newest_is_(p, q, index, size, elements):
    if isinstance(p.st.facts.entails(q.n - 1), bool) and not p.st.facts.entails(q.n - 1):
        return [refute(p.it, p.st, lambda e: e.poly(q.n) < 1 and e.poly(size) > 0, "no update is queued")]
    u = update_parts(p.it.seq_get(p.st, q, q.n - 1))
    if u is None: return [Verdict(OPEN, "queued update not resolved")]
    i, n, es = u
    want = elements(es.ety)
    return [same(p.it, p.st, i, index), same(p.it, p.st, n, size), same(p.it, p.st, es, want)]
def in_place(p, q, old):
    """Is the newest update one that was queued before, with other contents?"""
    if not isinstance(old, VecV) or not isinstance(q.n, Poly): return False
    try: u, o = (update_parts(p.it.seq_get(p.st, x, x.n - 1)) for x in (q, old.seq))
    except (Stop, Fork): return False
    return bool(u and o and u[0] == o[0] and u[1] == o[1])
def notified(p, chan, k, after, what="the update", before=None):
    """A notification of k is sent after position `after`."""
    near = []
    for i, e, h, l in p.events("send"):
        if e[1] != chan or l: continue
        if not isinstance(e[2], Poly): return Verdict(OPEN, "notification not resolved")
        if i > after and p.st.facts.entails_eq(e[2] - k): return GOOD
        near.append((i, e[2]))
    late = [x for i, x in near if i > after]
    if late: return refute(p.it, p.st, lambda e: all(e.poly(x) != e.poly(k) for x in late), "the notification names another value")
    # somebody else's update still waits, and with it a notification
    if not near and isinstance(before, VecV) and p.st.facts.entails(before.seq.n - 1): return Verdict(OPEN, "an earlier update still waits")
    return broken(p, "no notification follows %s" % what if not near else "the notification is sent before %s is in place" % what)
def mentions(v, x):
    hit = []
    visit(v, lambda t: hit.append(1) if t == x else None)
    return bool(hit)
def last_change(p, cell):
    s = p.sections(cell, changed=True)
    return s[-1] if s else None
def region(q):
    """Slots of a handle."""
    if q.id is not None: return q.id, S_T
    if q.array is not None: return q.array[0], S_T * q.array[1]
    return None
def set_value(ob, dump, root, arg, expect, result=None):
    """A handle to one value is set."""
    run = ARun(dump, root, lambda r: [cge(S_T - 1)])
    rule = "queues exactly the new value for its own slots"
    if run.err is not None: return ob.add(run, rule, undecided(run))
    def value(p, h):
        """The value that must be queued."""
        if expect[0] == "arg": return p.run.args[expect[1]]
        s = p.sections(h.cpu)
        if not s: return None
        return Op(("fnout", 0, s[0].before.t), s[0].before.ty) if isinstance(s[0].before, Op) else None
    def queue(p):
        h = parts(p, arg)
        q = queue_final(p, h.queue)
        if not h.ok or q is None: return Verdict(OPEN, "update queue not resolved")
        x = value(p, h)
        if x is None: return Verdict(OPEN, "value not resolved")
        if not p.sections(h.queue): return broken(p, "the queue is not touched")
        later = [s.before for s in p.sections(h.cpu)[1:]] if h.cpu else []
        vs = newest_is(p, q.seq, h.id, S_T, lambda ety: enc_one(run, x, ety))
        u = update_parts(p.it.seq_get(p.st, q.seq, q.seq.n - 1)) if later and any(v.status == REFUTED for v in vs) else None
        if any(v.status == REFUTED for v in vs) and in_place(p, q.seq, p.sections(h.queue)[0].before): return Verdict(OPEN, "an earlier update is changed in place")
        if u and any(isinstance(b, Op) and mentions(u[2], b) for b in later): return Verdict(OPEN, "queued in a later critical section of the CPU copy")
        return vs
    hist(ob, run, rule, queue)
    def notify(p):
        h = parts(p, arg)
        s = last_change(p, h.queue) if h.queue else None
        if s is None or h.chan is None or h.k is None: return Verdict(OPEN, "handle not resolved") if s is not None or h.queue is None else []
        return notified(p, h.chan, h.k, s.start, before=s.before)
    hist(ob, run, "notifies of the value once the update is in place", notify, want_paths=False)
    def cpu(p):
        h = parts(p, arg)
        if h.cpu is None: return []
        c, x = p.content(h.cpu), value(p, h)
        if c is None or x is None: return Verdict(OPEN, "CPU copy not resolved")
        return same(p.it, p.st, c, x)
    hist(ob, run, "the CPU copy is the value that was queued", cpu, want_paths=False)
    if result is not None:
        hist(ob, run, "returns the function's result" if result == "fn" else "returns the value", lambda p:
             same(p.it, p.st, p.v, Op(("fnresult", 0), p.v.ty) if result == "fn" else p.run.args[result]) if isinstance(p.v, (Op, Agg, Poly)) else Verdict(OPEN, "result not resolved"))
    no_panic_conc(ob, run)
def no_panic_conc(ob, run):
    pass
def gpu_set(ob, dump, root): set_value(ob, dump, root, "g", ("arg", "value"))
def hybrid_set(ob, dump, root): set_value(ob, dump, root, "h", ("arg", "value"))
def hybrid_modify(ob, dump, root): set_value(ob, dump, root, "h", ("fn",), "fn")
def guard_write(ob, dump, root): set_value(ob, dump, root, "h", ("arg", "value"))
def guard_write_read(ob, dump, root): set_value(ob, dump, root, "h", ("arg", "value"), "value")
def guard_write_twice(ob, dump, root): set_value(ob, dump, root, "h", ("arg", "second"))
def guard_with(ob, dump, root): set_value(ob, dump, root, "h", ("fn",))
def guard_unused(ob, dump, root):
    """A write guard that was only read from."""
    run = ARun(dump, root)
    def f(p):
        h = parts(p, "h")
        if not h.ok or h.queue is None: return Verdict(OPEN, "handle not resolved")
        if p.sections(h.queue, changed=True): return broken(p, "an update is queued")
        c = [s for s in p.sections(h.cpu) if s.after != s.before]
        return broken(p, "the CPU copy changes") if c else GOOD
    hist(ob, run, "reading through a guard queues nothing", f)
def cpu_get(ob, dump, root):
    """Reading returns the CPU copy."""
    run = ARun(dump, root)
    def f(p):
        h = parts(p, "h")
        s = p.sections(h.cpu) if h.cpu else []
        if len(s) != 1: return Verdict(OPEN, "CPU copy not resolved") if s else broken(p, "the CPU copy is not read")
        vs = [GOOD if s[0].after == s[0].before else broken(p, "the CPU copy changes")]
        want = s[0].before
        if isinstance(want, VecV):
            if isinstance(p.v, VecV): return vs + [same(p.it, p.st, p.v.seq, want.seq)]
            i = run.args.get("index")
            if isinstance(p.v, Agg) and isinstance(i, Poly):
                inside = split(p.it, p.st, lambda x: x.facts.entails(want.seq.n - i - 1))
                if p.v.v == 0:
                    return vs + [refute(p.it, p.st, lambda e: e.poly(i) < e.poly(want.seq.n), "nothing is returned for an element of the array") if not p.st.facts.entails(i - want.seq.n) else GOOD]
                return vs + [same(p.it, p.st, p.v.f[0], p.it.seq_get(p.st, want.seq, i))]
            return Verdict(OPEN, "result not resolved")
        return vs + [same(p.it, p.st, p.v, want)]
    hist(ob, run, "returns the CPU copy", f)

# creation
def is_registry(s): return "WeakGpuRef" in s.cls
def created(p):
    """The handle that was made, resolved."""
    h = Parts(p.run, p.v)
    return h if h.ok and h.queue and h.chan and isinstance(h.k, Poly) and (h.id is not None or h.array is not None) else None
def insertions(p, h):
    return [(i, e, hd) for i, e, hd, l in p.events("mins") if any(is_registry(p.secs[u]) for u in hd) and not l]
def source_parts(run, x):
    """(index, len, queue, [(field, bool)]) of a registered source."""
    if not isinstance(x, Agg): return None
    a = w = None
    flags = []
    t = run.it.ty(run.it.tyi(x.ty))
    for f, v in zip(t["variants"][0][2], x.f):
        if isinstance(v, Agg) and len(polys(v)) >= 2: a = polys(v)
        elif isinstance(v, Weak): w = v.obj
        elif isinstance(v, Cond): flags.append((f[0], v))
    return (a[0], a[1], w, flags) if a and w else None
def values_seq(run):
    """The sequence of values an array is made of."""
    v = run.args.get("values")
    if isinstance(v, Ref): v = run.it.load(run.st0.copy(), v)
    if isinstance(v, VecV): v = v.seq
    return v if isinstance(v, Seq) else None
def create(ob, dump, root, array):
    run = ARun(dump, root, lambda r: [cge(S_T - 1)])
    rule = "a new value is queued completely"
    if run.err is not None: return ob.add(run, rule, undecided(run))
    seq = values_seq(run) if array else None
    def queue(p):
        h = created(p)
        q = queue_final(p, h.queue) if h else None
        if q is None: return Verdict(OPEN, "the new handle is not resolved")
        at, size = region(h)
        if not array: return newest_is(p, q.seq, at, size, lambda ety: enc_one(run, run.args["value"], ety))
        vs = [same(p.it, p.st, h.array[1], seq.n)]
        s = p.st.copy(); s.facts = s.facts.with_ge(seq.n - 1)
        if not s.facts.contradictory():
            pp = Path(run, s, p.v)
            vs += newest_is(pp, q.seq, at, S_T * seq.n, lambda ety: enc_all(run, seq, ety))
        s = p.st.copy(); s.facts = s.facts.with_eq(seq.n)
        if not s.facts.contradictory():
            vs.append(holds(p.it, s, ceq(q.seq.n)) if not isinstance(q.seq.n, Poly) or not q.seq.n.is_const() else
                      GOOD if q.seq.n.value() == 0 else empty_queue(Path(run, s, p.v), q.seq))
        return vs
    hist(ob, run, rule, queue)
    def cpu(p):
        h = created(p)
        if h is None: return Verdict(OPEN, "the new handle is not resolved")
        if h.cpu is None: return []
        c = p.content(h.cpu)
        if array: return same(p.it, p.st, c.seq, seq) if isinstance(c, VecV) else Verdict(OPEN, "CPU copy not resolved")
        return same(p.it, p.st, c, run.args["value"])
    hist(ob, run, "the CPU copy is the value that was queued", cpu, want_paths=False)
    def notify(p):
        h = created(p)
        if h is None: return Verdict(OPEN, "the new handle is not resolved")
        s = last_change(p, h.queue)
        return notified(p, h.chan, h.k, s.start if s else -1)
    hist(ob, run, "notifies of the value once the update is in place", notify)
def empty_queue(p, q):
    """Updates of an empty array must not write."""
    u = update_parts(p.it.seq_get(p.st, q, q.n - 1))
    if u is None: return Verdict(OPEN, "queued update not resolved")
    return broken(p, "an update is queued for an empty array")
def create_value(ob, dump, root): create(ob, dump, root, False)
def create_array(ob, dump, root): create(ob, dump, root, True)
def register(ob, dump, root):
    """A08, A06: a new source is registered under a number of its own, before its notification."""
    array = "arrays" in root
    run = ARun(dump, root, lambda r: [cge(S_T - 1)])
    if run.err is not None: return ob.add(run, "known to the allocator before its notification", undecided(run))
    def f(p):
        h = created(p)
        if h is None: return Verdict(OPEN, "the new handle is not resolved")
        ins = insertions(p, h)
        if not ins: return broken(p, "the new value is not registered")
        mine = [(i, e, hd) for i, e, hd in ins if isinstance(e[3], Poly) and p.st.facts.entails_eq(e[3] - h.k)]
        if not mine: return refute(p.it, p.st, lambda z: all(z.poly(e[3]) != z.poly(h.k) for _, e, _ in ins), "registered under another number")
        i, e, hd = mine[-1]
        start = min(p.secs[u].start for u in hd if is_registry(p.secs[u]))
        return notified(p, h.chan, h.k, start, "its registration")
    hist(ob, run, "known to the allocator before its notification", f)
def registered_as(ob, dump, root):
    """A06: what is registered leads to the value's queue and names exactly its slots."""
    run = ARun(dump, root, lambda r: [cge(S_T - 1)])
    if run.err is not None: return ob.add(run, "registered with its own queue and number", undecided(run))
    def f(p):
        h = created(p)
        if h is None: return Verdict(OPEN, "the new handle is not resolved")
        vs = []
        for i, e, hd in insertions(p, h):
            s = source_parts(run, e[4])
            if s is None: return Verdict(OPEN, "registered source not resolved")
            vs.append(GOOD if s[2] == h.queue else broken(p, "another queue is registered"))
        # the number is handed out once
        own_ = [x for _, x, _, _ in p.events("rmw") if isinstance(x[3], Poly) and isinstance(x[4], Poly) and
                (x[3] == h.k or x[4] == h.k) and p.st.facts.entails_ne(x[4] - x[3])]
        if not own_: vs.append(Verdict(OPEN, "where the number comes from is not resolved") if not h.k.is_const() and h.k.as_atom() and h.k.as_atom()[1] not in ("t",) and not p.events("ald") else
                               broken(p, "the number is not taken atomically, so two values may share it"))
        return vs
    hist(ob, run, "registered with its own queue and number", f)
def registered_slots(ob, dump, root):
    """A03: the region registered for recycling is the value's own."""
    run = ARun(dump, root, lambda r: [cge(S_T - 1)])
    if run.err is not None: return ob.add(run, "registered with exactly its slots", undecided(run))
    def f(p):
        h = created(p)
        if h is None: return Verdict(OPEN, "the new handle is not resolved")
        at, size = region(h)
        vs = []
        for i, e, hd in insertions(p, h):
            s = source_parts(run, e[4])
            if s is None: return Verdict(OPEN, "registered source not resolved")
            z = p.st.copy()
            if h.array is not None: z.facts = z.facts.with_ge(h.array[1] - 1)
            if z.facts.contradictory(): continue
            vs += [same(p.it, z, s[0], at), same(p.it, z, s[1], size)]
        return vs
    hist(ob, run, "registered with exactly its slots", f, want_paths=False)

# ---------------------------------------------------------------- A03: dropping
def dropped(ob, dump, root):
    run = ARun(dump, root)
    if run.err is not None: return ob.add(run, "notifies after giving up its share", undecided(run))
    src = next(iter(run.args))
    def f(p):
        h = parts(p, src)
        if not h.ok or h.queue is None or h.chan is None: return Verdict(OPEN, "handle not resolved")
        rel = [i for i, e, _, _ in p.events("release") if e[1] == h.queue]
        if not rel: return broken(p, "the share of the value is not given up")
        return notified(p, h.chan, h.k, rel[-1], "the release of the handle's share")
    hist(ob, run, "notifies after giving up its share", f)
def keeps(ob, dump, root):
    """Keeping the GPU half does not give up the value."""
    run = ARun(dump, root)
    src = next(iter(run.args))
    def f(p):
        h = parts(p, src)
        if not h.ok or h.queue is None: return Verdict(OPEN, "handle not resolved")
        n = len([1 for _, e, _, _ in p.events("release") if e[1] == h.queue]) - len([1 for _, e, _, _ in p.events("share") if e[1] == h.queue])
        return GOOD if n <= 0 else broken(p, "the share of the value is given up")
    hist(ob, run, "the value stays alive", f)

# ---------------------------------------------------------------- A02: sets of free ranges
import itertools
OVER_SETS = r"RangeManager|range::|Range\b|SlabUpdate"     # loops over the ranges of a set, not over slots
def vec_ty(run, arg, path=()):
    """(type index of a manager, type name of its elements)."""
    it = run.it
    ti = run.args[arg].c[2]
    t = it.ty(ti)
    for n, f in enumerate(t["variants"][0][2]):
        x = it.ty(f[1])
        if x["k"] == "adt" and norm(x["path"]).endswith("vec::Vec"): return it.tn(ti), n, len(t["variants"][0][2]), x["args"][0]
    raise Undecided("the set of ranges is not kept in a vector")
def interval(v):
    """(first, last) of a range."""
    return tuple(polys(v)[:2]) if isinstance(v, Agg) and len(polys(v)) == 2 else None
def elements(it, st, v):
    """The elements of a vector of known length."""
    f = find_seq(v)
    if f is None or not isinstance(f[1].n, Poly): return None
    q = f[1]
    if not q.n.is_const():
        for c in range(8):
            if st.facts.entails_eq(q.n - c): return [it.seq_get(st, q, P(i)) for i in range(c)]
        return None
    return [it.seq_get(st, q, P(i)) for i in range(q.n.value())]
def free_set(N, order, arg="m", extra=None):
    """A set of N ranges, none of which overlap or touch, lying in memory in the given order."""
    def pre(run):
        it = run.it
        name, f, nf, ety = vec_ty(run, arg)
        if nf != 1: raise Undecided("the set has other parts")
        run.rs = [it.mk(("spec", "range", i), ety) for i in range(N)]
        run.iv = [interval(it.as_variant(r, 0) if not isinstance(r, Agg) else r) for r in run.rs]
        seq = Seq(P(N), ("fill", P(0)), tuple(Ent("el", P(i), P(1), r, None, None) for i, r in enumerate(run.rs)), ety)
        run.st0.cells[run.args[arg].c] = Agg(name, 0, (VecV(seq, P(N)),))
        cs = [cge(b - a) for a, b in run.iv]
        top = P((1 << 32) - 2)
        cs += [cge(top - b) for _, b in run.iv]
        for x, y in zip(order, order[1:]): cs.append(cge(run.iv[y][0] - run.iv[x][1] - 2))
        return cs + (extra(run) if extra else [])
    return pre
def member(s, x, iv):
    """x is in the interval; forks."""
    for p in (x - iv[0], iv[1] - x):
        if s.facts.entails(p): continue
        if s.facts.entails(-p - 1): return False
        raise Fork([("ge", p), ("ge", -p - 1)])
    return True
X = Poly.atom(("a", "t", "u32", ("spec", "slot")))
def slots_as(p, after, want, why):
    """The intervals hold exactly the slots that want(x) is true of."""
    r = split(p.it, p.st, lambda s: any([member(s, X, i) for i in after]) == want(s, lambda i: member(s, X, i)))
    if r is True: return GOOD
    inside = lambda e: lambda i: e.poly(i[0]) <= e.poly(X) <= e.poly(i[1])
    return refute(p.it, p.st, lambda e: any(inside(e)(i) for i in after) != want(None, inside(e)), why)
def apart(p, ivs, why, touch=1):
    """No two of them overlap (or touch), and none is reversed."""
    vs = []
    for a, b in ivs: vs.append(holds(p.it, p.st, cge(b - a)))
    for x, y in itertools.combinations(ivs, 2):
        r = split(p.it, p.st, lambda s: s.facts.entails(y[0] - x[1] - 1 - touch) or s.facts.entails(x[0] - y[1] - 1 - touch))
        if r is True: continue
        vs.append(refute(p.it, p.st, lambda e: e.poly(y[0]) <= e.poly(x[1]) + touch and e.poly(x[0]) <= e.poly(y[1]) + touch, why))
    return vs or [GOOD]
def runs_free(dump, root, sizes, extra=None, gaps=None, **opts):
    """The entry point on every arrangement of a few free ranges."""
    for N in sizes:
        for order in itertools.permutations(range(N)):
            for g in (range(N + 1) if gaps else (None,)):
                ex = (lambda run, g=g, order=order: gaps(run, order, g)) if gaps else extra
                yield N, order, ARun(dump, root, free_set(N, order, "m", ex), conc=False, cuts=False, unroll=(N + 2, OVER_SETS), **opts)
def all_paths(runs, f):
    """Verdicts of f over the paths of several runs."""
    vs, last = [], None
    for N, order, run in runs:
        last = run
        u = run.unclear()
        if u: vs.append(Verdict(OPEN, u)); continue
        n = 0
        for st, v in run.outs:
            if st.facts.contradictory(): continue
            n += 1
            try: r = f(run, Path(run, st.copy(), v))
            except (Fork, Undecided, Stop) as e: r = Verdict(OPEN, "comparison not resolved: %s" % (e,))
            vs += r if isinstance(r, list) else [r]
        for st, msg, fname, span, definite in run.it.panics:
            if not st.facts.contradictory(): vs.append(refute(run.it, st, lambda e: True, "%s in %s (%s)" % (str(msg).split(" ")[0], fname, span)))
        if not n and not run.it.panics: vs.append(Verdict(OPEN, "no path reaches the end"))
        if any(v.status == REFUTED for v in vs): break
    return last, vs
def final_set(run, p):
    es = elements(run.it, p.st, run.at_end(p.st, run.args["m"]))
    if es is None: return None
    iv = [interval(run.it.as_variant(e, 0) if not isinstance(e, Agg) else e) for e in es]
    return None if any(i is None for i in iv) else iv
def free_remove(ob, dump, root, sizes=(0, 1, 2, 3)):
    """Taking slots from a set of free ranges."""
    def f(run, p):
        c = run.args["count"]
        after = final_set(run, p)
        if after is None or not isinstance(p.v, Agg): return Verdict(OPEN, "result not resolved")
        if p.v.v == 0:
            vs = [slots_as(p, after, lambda s, m: any([m(i) for i in run.iv]), "nothing is taken but the free slots change")]
            vs += apart(p, after, "free ranges are left that overlap or touch")
            z = p.st.copy(); z.facts = z.facts.with_ge(c - 1)
            if z.facts.contradictory(): return vs
            for a, b in run.iv:
                r = split(p.it, z, lambda s: s.facts.entails(c - (b - a + 1) - 1))
                if r is not True: vs.append(refute(p.it, z, lambda e: e.poly(b) - e.poly(a) + 1 >= e.poly(c), "nothing is taken although a range is large enough"))
            return vs
        t = interval(p.v.f[0])
        if t is None: return Verdict(OPEN, "result not resolved")
        vs = [holds(p.it, p.st, cge(c - 1)), holds(p.it, p.st, ceq(t[1] - t[0] + 1 - c))]
        vs.append(slots_as(p, [t], lambda s, m: m(t) and any([m(i) for i in run.iv]), "the taken range was not free"))
        vs.append(slots_as(p, after, lambda s, m: any([m(i) for i in run.iv]) and not m(t), "the free slots afterwards are not those before without the taken ones"))
        return vs + apart(p, after, "free ranges are left that overlap or touch")
    run, vs = all_paths(runs_free(dump, root, sizes), f)
    ob.all(run, "takes exactly n free slots, or nothing", vs)
def gap(run, order, g):
    """The added range lies in the g-th gap."""
    r = run.args["r"]
    iv = interval(r if isinstance(r, Agg) else run.it.as_variant(r, 0))
    run.new = iv
    cs = [cge(iv[1] - iv[0]), cge(P((1 << 32) - 2) - iv[1])]
    if g > 0: cs.append(cge(iv[0] - run.iv[order[g - 1]][1] - 1))
    if g < len(order): cs.append(cge(run.iv[order[g]][0] - iv[1] - 1))
    return cs
def free_add(ob, dump, root, sizes=(0, 1, 2, 3)):
    """Adding a range to a set of free ranges."""
    def f(run, p):
        after = final_set(run, p)
        if after is None: return Verdict(OPEN, "result not resolved")
        return [slots_as(p, after, lambda s, m: any([m(i) for i in run.iv]) or m(run.new), "the free slots afterwards are not those before and the added ones")] + \
            apart(p, after, "free ranges are left that overlap or touch")
    run, vs = all_paths(runs_free(dump, root, sizes, gaps=gap), f)
    ob.all(run, "tracks exactly the old slots and the added ones, merged", vs)

# ---------------------------------------------------------------- A07: sets of updates
def update_of(run, v):
    v = v if isinstance(v, Agg) else run.it.as_variant(v, 0)
    for i, x in enumerate(v.f):
        if isinstance(x, Op) and "Array<" in x.ty: v = Agg(v.ty, v.v, v.f[:i] + (run.it.as_variant(x, 0),) + v.f[i + 1:])
    return update_parts(v)
def valid_update(u):
    i, n, q = u
    return [cge(n - 1), ceq(q.n - n), cge(P((1 << 32) - 2) - i - n)]
def span(u): return (u[0], u[0] + u[1] - 1)
def update_set(N, order, arg="m", extra=None):
    """N updates that do not overlap, in any arrangement."""
    def pre(run):
        it = run.it
        name, f, nf, ety = vec_ty(run, arg)
        if nf != 1: raise Undecided("the set has other parts")
        run.rs = [it.mk(("spec", "update", i), ety) for i in range(N)]
        run.us = [update_of(run, r) for r in run.rs]
        seq = Seq(P(N), ("fill", P(0)), tuple(Ent("el", P(i), P(1), r, None, None) for i, r in enumerate(run.rs)), ety)
        run.st0.cells[run.args[arg].c] = Agg(name, 0, (VecV(seq, P(N)),))
        cs = [c for u in run.us for c in valid_update(u)]
        for x, y in zip(order, order[1:]): cs.append(cge(run.us[y][0] - run.us[x][0] - run.us[x][1]))
        run.new = update_of(run, run.args["r"])
        return cs + valid_update(run.new)
    return pre
def slot_of(it, s, us, x):
    """What the updates say about a slot, the first that covers it: a value, or None; forks."""
    for u in us:
        if member(s, x, span(u)): return it.seq_get(s, u[2], x - u[0])
    return None
def slot_at(e, us, x):
    for u in us:
        i, n = e.poly(u[0]), e.poly(u[1])
        if i <= x < i + n: return e.elem(u[2], x - i)
    return None
THOROUGH = os.environ.get("VERIF_TIER") == "thorough"
def update_add(ob, dump, root, sizes=(0, 1, 2, 3) if THOROUGH else (0, 1, 2)):
    """Adding an update to a set: the newest wins."""
    def f(run, p):
        es = elements(run.it, p.st, run.at_end(p.st, run.args["m"]))
        us = None if es is None else [update_of(run, e) for e in es]
        if us is None or any(u is None for u in us): return Verdict(OPEN, "result not resolved")
        return newest_wins(run, p, us, [run.new] + run.us)
    vs, last = [], None
    for N in sizes:
        # with three, one arrangement stands for the others
        for order in itertools.permutations(range(N)) if N < 3 else [(0, 1, 2), (2, 0, 1)]:
            last, v = all_paths([(N, order, ARun(dump, root, update_set(N, order), conc=False, cuts=False, unroll=(N + 2, OVER_SETS)))], f)
            vs += v
    ob.all(last, "every slot holds its newest value, and no two updates overlap", vs)
def newest_wins(run, p, got, want):
    it = run.it
    vs = []
    for u in got:
        vs.append(holds(it, p.st, ceq(u[2].n - u[1])))
    vs += apart(p, [span(u) for u in got], "two updates are left that overlap", touch=0)
    def same_slot(s):
        a, b = slot_of(it, s, got, X), slot_of(it, s, want, X)
        if a is None or b is None: return a is b
        return eq(it, s, a, b)
    r = split(it, p.st, same_slot)
    if r is not True: vs.append(refute(it, p.st, lambda e: slot_at(e, got, e.poly(X)) != slot_at(e, want, e.poly(X)), "a slot does not get the value that was queued last"))
    return vs
def update_union(ob, dump, root):
    """Merging two overlapping updates."""
    def pre(run):
        run.a, run.b = update_of(run, run.init(run.args["a"])), update_of(run, run.args["b"])
        (i, n, _), (j, m, _) = run.a, run.b
        return valid_update(run.a) + valid_update(run.b) + [cge(i + n - j - 1), cge(j + m - i - 1)]
    run = ARun(dump, root, pre, conc=False, cuts=False)
    def f(p):
        u = update_of(run, run.at_end(p.st, run.args["a"]))
        if u is None: return Verdict(OPEN, "result not resolved")
        return newest_wins(run, p, [u], [run.b, run.a])
    hist(ob, run, "the newer update's values win", f)
    no_panic(ob, run)

# ---------------------------------------------------------------- A02, A18: single ranges
def ranges_of(run, *names):
    out = []
    for n in names:
        v = run.args[n]
        v = run.init(v) if isinstance(v, Ref) else v
        out.append(interval(v if isinstance(v, Agg) else run.it.as_variant(v, 0)))
    return out
def valid(iv): return [cge(iv[1] - iv[0]), cge(P((1 << 32) - 2) - iv[1])]
def range_rel(ob, dump, root, rel, pre_apart=False):
    """A predicate on two ranges."""
    for k in range(2 if pre_apart else 1):
        def pre(run):
            run.a, run.b = ranges_of(run, "a", "b")
            cs = valid(run.a) + valid(run.b)
            if pre_apart: cs.append(cge(run.b[0] - run.a[1] - 1) if k else cge(run.a[0] - run.b[1] - 1))
            return cs
        run = ARun(dump, root, pre, conc=False, cuts=False)
        if run.err is not None: return ob.add(run, "agrees with its definition", undecided(run))
        if rel == "overlap": want = cand(cge(run.b[1] - run.a[0]), cge(run.a[1] - run.b[0]))
        else: want = cor(ceq(run.a[1] + 1 - run.b[0]), ceq(run.b[1] + 1 - run.a[0]))
        hist(ob, run, "agrees with its definition", lambda p: same(run.it, p.st, p.v, want) if isinstance(p.v, Cond) else Verdict(OPEN, "result not resolved"))
        no_panic(ob, run)
def range_intersects(ob, dump, root): range_rel(ob, dump, root, "overlap")
def range_touch(ob, dump, root): range_rel(ob, dump, root, "touch", True)
def update_intersects(ob, dump, root):
    def pre(run):
        run.a, run.b = [update_of(run, run.init(run.args[n])) for n in "ab"]
        return valid_update(run.a) + valid_update(run.b)
    run = ARun(dump, root, pre, conc=False, cuts=False)
    if run.err is not None: return ob.add(run, "true exactly for overlapping updates", undecided(run))
    a, b = span(run.a), span(run.b)
    want = cand(cge(b[1] - a[0]), cge(a[1] - b[0]))
    hist(ob, run, "true exactly for overlapping updates", lambda p: same(run.it, p.st, p.v, want) if isinstance(p.v, Cond) else Verdict(OPEN, "result not resolved"))
    no_panic(ob, run)
def range_union(ob, dump, root):
    """The union of two ranges that touch or overlap."""
    def pre(run):
        run.a, run.b = ranges_of(run, "a", "b")
        return valid(run.a) + valid(run.b) + [cge(run.b[1] + 1 - run.a[0]), cge(run.a[1] + 1 - run.b[0])]
    run = ARun(dump, root, pre, conc=False, cuts=False)
    def f(p):
        u = run.at_end(p.st, run.args["a"])
        u = interval(u)
        return slots_as(p, [u], lambda s, m: any([m(run.a), m(run.b)]), "the union has other slots than its parts") if u else Verdict(OPEN, "result not resolved")
    hist(ob, run, "covers exactly its parts", f)
    no_panic(ob, run)
def range_from_array(ob, dump, root):
    """The slots of an array."""
    size = P(1) if "u32" in root else S_T
    def pre(run):
        run.arr = polys(run.args["a"] if isinstance(run.args["a"], Agg) else run.it.as_variant(run.args["a"], 0))[:2]
        i, n = run.arr
        return [cge(size - 1), cge(n - 1), cge(P((1 << 32) - 2) - i - n * size), cge(P((1 << 32) - 2) - n * size)]
    run = ARun(dump, root, pre, conc=False, cuts=False)
    def f(p):
        u = interval(p.v)
        i, n = run.arr
        return [same(run.it, p.st, u[0], i), same(run.it, p.st, u[1], i + n * size - 1)] if u else Verdict(OPEN, "result not resolved")
    hist(ob, run, "covers exactly the array's slots", f)
    no_panic(ob, run)

# ---------------------------------------------------------------- A18: lengths
def counted(ob, dump, root):
    """A length, or the emptiness query, of ranges, sets of ranges and allocated arrays."""
    arrays, op = "arrays" in root, root.split("::")[-1]
    empty = op.endswith("is_empty")
    rule = "true exactly for length zero" if empty else "the number of slots or elements covered"
    def pre(run):
        run.n = None
        if op in ("len", "is_empty"):
            run.a, = ranges_of(run, next(iter(run.args)))
            run.n = run.a[1] - run.a[0] + 1
            return valid(run.a)
        if not arrays:
            f = find_seq(run.init(run.args["m"]))
            run.n = f[1].n if f else None
        return []
    run = ARun(dump, root, pre, conc=arrays, cuts=arrays)
    if run.err is not None: return ob.add(run, rule, undecided(run))
    def f(p):
        n = run.n
        if arrays:
            h = parts(p, next(iter(run.args)))
            if h.array is None: return Verdict(OPEN, "handle not resolved")
            n = h.array[1]
            # the CPU copy has as many elements as the array
            for s in p.sections(h.cpu) if h.cpu else []:
                if isinstance(s.before, VecV): p.st.facts = p.st.facts.with_eq(s.before.seq.n - n)
        if n is None: return Verdict(OPEN, "length not resolved")
        if empty: return same(run.it, p.st, p.v, ceq(n)) if isinstance(p.v, Cond) else Verdict(OPEN, "result not resolved")
        return same(run.it, p.st, p.v, n) if isinstance(p.v, Poly) else Verdict(OPEN, "result not resolved")
    hist(ob, run, rule, f)
    no_panic(ob, run)
def default_set(ob, dump, root):
    """A new set of ranges tracks nothing."""
    run = ARun(dump, root, conc=False, cuts=False)
    def f(p):
        q = find_seq(p.v)
        return same(run.it, p.st, q[1].n, P(0)) if q else Verdict(OPEN, "result not resolved")
    hist(ob, run, "tracks nothing", f)

# ---------------------------------------------------------------- A05: elements of arrays
def item(p, run, h):
    """(slots of the element, index); the array is addressable and the CPU copy as long as the array."""
    i, n = h.array
    k = run.args["index"]
    for s in p.secs.values():
        if h.cpu and s.cell == h.cpu and isinstance(s.before, VecV): p.st.facts = p.st.facts.with_eq(s.before.seq.n - n)
    p.st.facts = p.st.facts.with_ge(S_T - 1).with_ge(P((1 << 32) - 2) - i - n * S_T).with_ge(P((1 << 32) - 2) - i).with_ge(P((1 << 32) - 2) - n * S_T)
    return i + k * S_T, k
def in_case(p, *ge):
    s = p.st.copy()
    for x in ge: s.facts = s.facts.with_ge(x)
    return None if s.facts.contradictory() else Path(p.run, s, p.v)
def item_facts(p, h, k, inside):
    """Products with the size do not follow from linear facts."""
    n = h.array[1]
    return [n - k - 1, (n - k - 1) * S_T] if inside else [k - n]
def k_of(run): return run.args["index"]
def kept_of(p, a, b):
    """How the updates of b were chosen that a still has, if some were dropped by a predicate."""
    if not (isinstance(a.base, tuple) and len(a.base) == 2 and a.base[0] == "fill"): return None
    try: kept = getattr(p.it, "kept", {}).get(a.base[1])
    except TypeError: return None
    return kept if kept is not None and kept[0] == b else None
def superseded(p, kept, h, at, k):
    """Only updates which the new one covers entirely may be dropped."""
    q, j, x, outs = kept
    u = update_parts(x) if not isinstance(x, Op) else update_parts(p.it.as_variant(x, 0))
    if u is None: return [Verdict(OPEN, "queued update not resolved")]
    i, n, _ = u
    vs = []
    for s, b in outs:
        z = s.copy()
        if p.it.known(z, b) is True: continue
        try: p.it.assume(z, cnot(b))
        except Stop: continue
        for f in p.st.facts.ge:
            if not has_unknown(f): z.facts = z.facts.with_ge(f)
        if z.facts.contradictory(): continue
        if z.facts.entails(i - at) and z.facts.entails(at + S_T - i - n): continue
        # an earlier update of the whole array, or of another of its elements
        first, count = h.array
        bad = []
        N, K, M, Z = 3, (0, 1, 2), (0, 1, 2), 2     # arrays of three elements of two slots: products of unknowns are hard to solve for
        for kk in K:
            for mm in (None,) + M:
                if mm == kk: continue
                y = z.copy()
                idx, size = (first, Z * N) if mm is None else (first + mm * Z, Z)
                for g in (S_T - Z, count - N, k - kk, i - idx, n - size): y.facts = y.facts.with_eq(g)
                if y.facts.contradictory(): continue
                bad.append(refute(p.it, y, lambda e, b=b: e.cond(cnot(b)) and not (e.poly(i) >= e.poly(at) and e.poly(i) + e.poly(n) <= e.poly(at) + e.poly(S_T)), "an earlier update of slots outside the new one is dropped"))
                if bad[-1].status == REFUTED: break
        vs += [v for v in bad if v.status == REFUTED] or [Verdict(OPEN, "which earlier updates are dropped")]
    return vs
def set_element(ob, dump, root, arg, kind):
    run = ARun(dump, root, lambda r: [cge(S_T - 1)])
    rule = "queues exactly the element's new value after the earlier updates"
    if run.err is not None: return ob.add(run, rule, undecided(run))
    def value(p, h):
        if kind == "set":
            v = run.args["value"]
            return run.init(v) if isinstance(v, Ref) else v
        s = p.sections(h.cpu)
        if not s or not isinstance(s[0].before, VecV): return None
        old = p.it.seq_get(p.st, s[0].before.seq, run.args["index"])
        return Op(("fnout", 0, old.t), old.ty) if isinstance(old, Op) else None
    def cases(p, inside):
        h = parts(p, arg)
        if not h.ok or h.array is None or h.queue is None: return None, None, None
        at, k = item(p, run, h)
        q = in_case(p, *item_facts(p, h, k, inside))
        return h, at, q
    def queue(p):
        h, at, p = cases(p, True)
        if h is None: return Verdict(OPEN, "handle not resolved")
        if p is None: return []
        s = p.sections(h.queue, changed=True)
        if not s: return broken(p, "an element of the array is set but nothing is queued")
        if len(s) > 1 or not all(isinstance(x, VecV) for x in (s[0].before, s[0].after)): return Verdict(OPEN, "several changes of the queue")
        b, a = s[0].before.seq, s[0].after.seq
        kept = kept_of(p, a, b)
        if kept is not None:
            x = value(p, h)
            if x is None: return Verdict(OPEN, "value not resolved")
            return superseded(p, kept, h, at, k_of(run)) + newest_is(p, a, at, S_T, lambda ety: enc_one(run, x, ety))
        if not p.st.facts.entails_eq(a.n - b.n - 1):
            return refute(p.it, p.st, lambda e: e.poly(a.n) not in (e.poly(b.n), e.poly(b.n) + 1) and e.poly(a.n) < e.poly(b.n) + 1, "earlier updates are lost")
        x = value(p, h)
        if x is None: return Verdict(OPEN, "value not resolved")
        vs = newest_is(p, a, at, S_T, lambda ety: enc_one(run, x, ety))
        j = Poly.atom(("a", "k", "nat", ("spec", "j")))
        z = p.st.copy(); z.facts = z.facts.with_ge(j).with_ge(b.n - j - 1)
        if not z.facts.contradictory():
            r = split(p.it, z, lambda s: eq(p.it, s, p.it.seq_get(s, a, j), p.it.seq_get(s, b, j)))
            vs.append(GOOD if r is True else refute(p.it, z, lambda e: e.elem(a, e.poly(j)) != e.elem(b, e.poly(j)), "an earlier update changes"))
        return vs
    hist(ob, run, rule, queue)
    def notify(p):
        h, at, p = cases(p, True)
        if p is None or h.chan is None or h.k is None: return []
        s = last_change(p, h.queue)
        return notified(p, h.chan, h.k, s.start, before=s.before) if s else []
    hist(ob, run, "notifies of the array once the update is in place", notify, want_paths=False)
    def outside(p):
        h, at, p = cases(p, False)
        if h is None: return Verdict(OPEN, "handle not resolved")
        if p is None: return []
        if p.sections(h.queue, changed=True): return broken(p, "an index out of range queues an update")
        if h.cpu and p.sections(h.cpu, changed=True): return broken(p, "an index out of range changes the CPU copy")
        if isinstance(p.v, Agg) and "Option" in p.v.ty and p.v.v != 0: return broken(p, "an index out of range yields a value")
        return GOOD
    hist(ob, run, "an index out of range changes nothing", outside)
    def cpu(p):
        h, at, p = cases(p, True)
        if p is None or h.cpu is None: return []
        s = p.sections(h.cpu)
        if not s or not isinstance(s[0].before, VecV): return Verdict(OPEN, "CPU copy not resolved")
        a, b, x, k = p.content(h.cpu), s[0].before.seq, value(p, h), run.args["index"]
        if not isinstance(a, VecV) or x is None: return Verdict(OPEN, "CPU copy not resolved")
        a = a.seq
        vs = [same(p.it, p.st, a.n, b.n), same(p.it, p.st, p.it.seq_get(p.st, a, k), x)]
        j = Poly.atom(("a", "k", "nat", ("spec", "j")))
        for d in (k - j - 1, j - k - 1):
            z = p.st.copy(); z.facts = z.facts.with_ge(j).with_ge(b.n - j - 1).with_ge(d)
            if z.facts.contradictory(): continue
            r = split(p.it, z, lambda s: eq(p.it, s, p.it.seq_get(s, a, j), p.it.seq_get(s, b, j)))
            vs.append(GOOD if r is True else refute(p.it, z, lambda e: e.elem(a, e.poly(j)) != e.elem(b, e.poly(j)), "another element of the CPU copy changes"))
        # what is returned
        if isinstance(p.v, Agg) and "Option" in p.v.ty:
            if p.v.v == 0: vs.append(broken(p, "nothing is returned for an element of the array"))
            else: vs.append(same(p.it, p.st, p.v.f[0], p.it.seq_get(p.st, b, k) if kind == "set" else Op(("fnresult", 0), p.v.f[0].ty)) if isinstance(p.v.f[0], Op) else Verdict(OPEN, "result not resolved"))
        return vs
    hist(ob, run, "changes exactly the element of the CPU copy and returns what it replaced", cpu, want_paths=False)
def array_set(ob, dump, root): set_element(ob, dump, root, next(a for a in ("h", "g") if "%s_" % {"h": "hybrid", "g": "gpu"}[a] in root), "set")
def array_modify(ob, dump, root): set_element(ob, dump, root, "h", "modify")
def element_id(ob, dump, root):
    """The id of an element."""
    run = ARun(dump, root, lambda r: [cge(S_T - 1)])
    if run.err is not None: return ob.add(run, "the element's position", undecided(run))
    def f(p):
        h = parts(p, next(iter(run.args)))
        if h.array is None: return Verdict(OPEN, "handle not resolved")
        at, k = item(p, run, h)
        g = find_poly(p.v)
        if g is None: return Verdict(OPEN, "result not resolved")
        vs = []
        a, b = in_case(p, *item_facts(p, h, k, True)), in_case(p, *item_facts(p, h, k, False))
        if a: vs.append(same(p.it, a.st, g, at))
        if b: vs.append(same(p.it, b.st, g, P((1 << 32) - 1)))
        return vs
    hist(ob, run, "the element's position, or no id", f)

# ---------------------------------------------------------------- A07: one critical section for both copies
def together(ob, dump, root):
    """The CPU copy and the queue change under one lock."""
    run = ARun(dump, root, lambda r: [cge(S_T - 1)])
    if run.err is not None: return ob.add(run, "CPU copy and queue change together", undecided(run))
    def f(p):
        h = parts(p, "h")
        if not h.ok or h.cpu is None or h.queue is None: return Verdict(OPEN, "handle not resolved")
        q, c = p.sections(h.queue, changed=True), p.sections(h.cpu, changed=True)
        if not q or not c: return []
        def around(s): return {u for u in p.ev[s.start][1] if p.secs[u].end > s.end} | {s.uid}
        shared = set.intersection(*[around(s) for s in q + c])
        # a shared section excludes other writers only if it is exclusive
        ok = [u for u in shared if p.secs[u].mode in ("w", "m", "own")]
        # queued under a later look at the CPU copy: whatever is queued is not older than the CPU copy
        if not ok and any(p.secs[u].cell == h.cpu for s in q for u in around(s)): return Verdict(OPEN, "queued in another critical section of the CPU copy")
        return GOOD if ok else broken(p, "no lock is held from the change of the CPU copy to the change of the queue")
    hist(ob, run, "CPU copy and queue change together", f, want_paths=False)

# ---------------------------------------------------------------- A01: regions
NONE_INDEX = P((1 << 32) - 1)
def exclusive(p, hold, cell):
    """The uid of a held lock that nobody else can hold on this cell."""
    for u in hold:
        if p.secs[u].cell == cell and p.secs[u].mode in ("w", "m"): return u
    return None
def fits(run, seq=None):
    cs = [cge(S_T - 1), cge(P((1 << 31)) - S_T)]
    if seq is not None and isinstance(seq.n, Poly): cs += [cge(P((1 << 32) - 2) - S_T * seq.n), cge(P((1 << 32) - 2) - seq.n)]
    return cs
def claims(p):
    """(index, slots, event position, kind, cell) of everything the path takes from the free list or the end of the slab."""
    out = []
    for i, e, h, l in p.events("mtake"):
        x = interval(e[4])
        if x is not None: out.append((x[0], e[3], i, "free", e[1], h, e))
    for i, e, h, l in p.events("rmw"):
        if isinstance(e[3], Poly) and isinstance(e[4], Poly): out.append((e[3], e[4] - e[3], i, "end", e[1], h, e))
    lds = [(i, e, h) for i, e, h, l in p.events("ald") if isinstance(e[3], Poly)]
    for i, e, h, l in p.events("ast"):
        if not isinstance(e[3], Poly): continue
        for j, d, g in lds:
            if j < i and d[1:3] == e[1:3]: out.append((d[3], e[3] - d[3], i, "store", e[1], tuple(set(h) & set(g)), e))
    return out
def region_of(ob, dump, root):
    """Where the slots of a new value come from."""
    array = "arrays" in root
    run = ARun(dump, root, lambda r: fits(r, values_seq(r) if array else None))
    rule = "owns a region of its own of exactly its size"
    if run.err is not None: return ob.add(run, rule, undecided(run))
    seq = values_seq(run) if array else None
    def f(p):
        h = created(p)
        if h is None: return Verdict(OPEN, "the new handle is not resolved")
        vs = []
        cases = [p]
        if array:
            vs.append(same(p.it, p.st, h.array[1], seq.n))
            z = p.st.copy(); z.facts = z.facts.with_eq(seq.n)
            if not z.facts.contradictory(): vs.append(same(p.it, z, h.array[0], NONE_INDEX))
            z = p.st.copy(); z.facts = z.facts.with_ge(seq.n - 1)
            if z.facts.contradictory(): return vs
            p = Path(run, z, p.v)
        at, size = region(h)
        mine = [c for c in claims(p) if p.st.facts.entails_eq(c[0] - at)]
        if not mine:
            cs = claims(p)
            if not cs: return vs + [Verdict(OPEN, "the region's origin is not resolved")]
            return vs + [refute(p.it, p.st, lambda e: all(e.poly(c[0]) != e.poly(at) for c in cs), "the region does not start where slots were taken")]
        at_, n, i, kind, cell, hold, e = mine[-1]
        vs.append(same(p.it, p.st, n, size))
        if kind == "free":
            u = exclusive(p, hold, cell)
            if u is None:
                return vs + [broken(p, "the slots are taken from something else than the allocator's free list, or not exclusively")]
            s = p.secs[u]
            if s.after == s.before: vs.append(broken(p, "the slots stay in the free list"))
            elif not mentions(s.after, e[4]): vs.append(Verdict(OPEN, "free list not resolved"))
        elif kind == "store" and not any(p.secs[u].mode in ("w", "m") for u in hold):
            vs.append(broken(p, "the end of the slab is read and moved in two steps, so two values may get the same slots"))
        return vs
    hist(ob, run, rule, f)
    # a recycled region that is not of the size asked for fails an assertion of a debug build, and overlaps another value in a release build
    for st, msg, fname, span, definite in run.it.panics:
        if not definite: continue
        p = Path(run, st.copy(), None)
        mine = [c for c in claims(p) if c[3] == "free"]
        if not mine: continue
        at, n = mine[-1][:2]
        ends = [x for x in interval(mine[-1][6][4]) if x is not None]
        if not any(mentions(g, m) for g in st.facts.ne + st.facts.ge for x in ends for m in x.atoms()): continue
        want = S_T * (seq.n if array else P(1))
        ob.add(run, rule, refute(p.it, p.st, lambda e: e.poly(n) != e.poly(want), "takes a free region of another size (an assertion in %s fails)" % fname, near=hints(n, want, *p.st.facts.ne)))
def place(cell):
    """A shared cell by where it is, without type indices (they differ between entry points)."""
    def g(t):
        if isinstance(t, tuple) and len(t) == 3 and t[0] == "h": return ("h", g(t[1]))
        return tuple(g(x) for x in t) if isinstance(t, tuple) else t
    return g(cell)
def role_len(dump):
    """The cell of the slab's length, from the creation of a value."""
    run = ARun(dump, "alloc::values::gpu_new", lambda r: fits(r))
    cells = set()
    for st, v in run.outs or []:
        p = Path(run, st, v)
        h = created(p)
        if h is None: continue
        for c in claims(p):
            if c[3] != "free" and p.st.facts.entails_eq(c[0] - h.id): cells.add(place(c[4]))
    return cells
def others_keep_len(ob, dump, root):
    """Nothing but an allocation moves the end of the slab."""
    cells = role_len(dump)
    run = ARun(dump, root)
    rule = "the end of the slab stays"
    if len(cells) != 1: return ob.add(run, rule, Verdict(OPEN, "the slab's length is not resolved: %s" % (cells,)))
    def f(p):
        for i, e, h, l in p.events("rmw", "ast"):
            if place(e[1]) in cells and not (e[0] == "rmw" and e[3] == e[4]): return broken(p, "%s moves the end of the slab" % root)
        return GOOD
    hist(ob, run, rule, f)

# ---------------------------------------------------------------- commits: what happens to each notified value
class Seg:
    """One pass of an outermost loop, or the code outside of loops."""
    def __init__(self, p, loop, ev):
        self.loop, self.ev = loop, ev
        self.p = p
        if loop is not None:
            st = p.st.copy()
            f = before_loop(st.facts, loop)
            for i, e, h, l in ev:
                if e[0] == "facts" and len(l) == 1:
                    f = f.overlay(*e[1:5])
            st.facts = f
            self.p = Path.__new__(Path)
            self.p.__dict__.update(p.__dict__)
            self.p.st = st
    def events(self, *kinds): return [x for x in self.ev if x[1][0] in kinds]
    def section(self, uid):
        """A critical section as it runs in this pass."""
        sec = None
        for i, e, h, l in self.ev:
            if e[0] == "lock" and e[4] == uid: sec = Sec(e, i)
            elif e[0] == "unlock" and e[3] == uid and sec is not None: sec.end, sec.after = i, e[5]
        return sec if sec is not None and sec.end is not None else None
def before_loop(f, loop):
    """What of the path's facts was decided before a loop ran: what mentions its outcome is about what comes later,
    and says nothing about whether a pass of it takes place."""
    uid = loop[0][3][0] if len(loop[0]) > 3 and isinstance(loop[0][3], tuple) else None
    if not isinstance(uid, int): return f
    def later(x):
        hit = []
        visit(x, lambda t: hit.append(1) if isinstance(t, tuple) and len(t) > 2 and t[0] == "lv" and isinstance(t[1], int) and t[1] >= uid else None)
        return bool(hit)
    return type(f)(tuple(x for x in f.ge if not later(x)), tuple(x for x in f.ne if not later(x)),
                   {t: v for t, v in f.b.items() if not later(t)}, {t: v for t, v in f.disc.items() if not later(t)})
def segs(p):
    by, order = {}, []
    for i, (e, h, l) in enumerate(p.ev):
        k = None if not l else (id(l[0][0]), id(l[0][2]))
        if k not in by: by[k] = (l[0] if l else None, []); order.append(k)
        by[k][1].append((i, e, h, l))
    out = [Seg(p, *by[k]) for k in order]
    return [s for s in out if not s.p.st.facts.contradictory()]
def role_free(dump):
    """The cells new values take recycled slots from."""
    cells = set()
    run = ARun(dump, "alloc::values::gpu_new", lambda r: fits(r))
    for st, v in run.outs or []: cells |= {place(e[1]) for e, _, _ in walk(st.ev) if e[0] in ("mtake", "mnone")}
    return cells
class Source:
    """A registered source that was looked up."""
    def __init__(self, p, cell, key, term, ti):
        self.cell, self.key, self.term = cell, key, ("mval", term, key)
        v = p.it.cell(p.st, ("h", self.term, ti))
        if not isinstance(v, Agg): v = p.it.as_variant(v, 0)
        x = source_parts(p.run, v)
        if x is None: raise Undecided("registered source not resolved")
        self.index, self.len, self.weak, self.flags = x
    def named_in(self, x):
        hit = []
        def g(t):
            if t == self.term: hit.append(1)
        visit(x, g)
        return bool(hit)
def registry_type(p):
    """Type of what is registered."""
    for s in p.secs.values():
        if is_registry(s):
            t = p.it.ty(p.it.tyi(s.cls))
            return s.cell, t["args"][1]
    return None, None
def sources(seg):
    cell, ti = registry_type(seg.p)
    if cell is None: return []
    out, seen = [], set()
    for i, e, h, l in seg.ev:
        if e[0] == "mget" and e[1] == cell and e[4]: k = (e[3], e[5])
        elif e[0] == "mrem" and e[1] == cell: k = (e[3], e[4])
        elif e[0] == "mnext" and e[1].kind == "map": k = (e[2], e[1].term)
        else: continue
        if k in seen: continue
        seen.add(k)
        out.append(Source(seg.p, cell, k[0], k[1], ti))
    return out
def liveness(seg, w):
    for i, e, h, l in seg.events("count", "upgrade"):
        if e[1] == w: return e[2]
    return None
def from_free(p, x, free):
    hit = []
    visit(x, lambda t: hit.append(1) if isinstance(t, tuple) and (len(t) == 3 and t[0] == "h" and place(t) in free or len(t) == 2 and t[0] == "acq" and t[1] in p.secs and place(p.secs[t[1]].cell) in free) else None)
    return bool(hit)
def range_element(p, x):
    """The element of a vector this range was read from: (term, type)."""
    hit = []
    def g(t):
        if isinstance(t, tuple) and len(t) == 4 and t[0] == "fld" and isinstance(t[1], tuple) and t[1] and t[1][0] == "el" and t[1] not in hit: hit.append(t[1])
    visit(x, g)
    return hit[0] if len(hit) == 1 else None
def recycling(ob, dump, root):
    """What a commit gives back to the free list."""
    free = role_free(dump)
    run = ARun(dump, root)
    rule = "recycles exactly the slots of values without handles, once"
    if run.err is not None: return ob.add(run, rule, undecided(run))
    if len(free) != 1: return ob.add(run, rule, Verdict(OPEN, "the free list is not resolved"))
    # what any path does, wherever: something may be found in one place and dealt with in another
    strange = alive_checks = removed = False     # strange: something is recycled that is not traced to where it was found dead
    for st, v in run.outs:
        p = Path(run, st, v)
        rc = registry_type(p)[0]
        for s in segs(p):
            try: src = sources(s)
            except (Fork, Undecided, Stop): src = []
            asked = [z for z in src if liveness(s, z.weak) is not None]
            for i, e, h, l in s.events("madd"):
                if place(e[1]) in free and not from_free(p, e[3], free) and not any(x.named_in(e[3]) for x in asked): strange = True
            for i, e, h, l in s.events("count", "upgrade"):
                if not any(z.weak == e[1] for z in src) or not s.events("madd"): alive_checks = True
            for i, e, h, l in s.events("mrem", "mclear", "set"):
                if e[1] == rc and not (e[0] == "mrem" and any(e[3] == z.key for z in asked)): removed = True
    def f(p):
        vs = []
        known = [(s, sources(s)) for s in segs(p)]
        for s, src in known:
            sp = s.p
            for i, e, h, l in s.events("madd"):
                if place(e[1]) not in free: continue
                if exclusive(p, h, e[1]) is None: vs.append(broken(sp, "slots are recycled without the free list's lock"))
                x = interval(e[3])
                if x is None: vs.append(Verdict(OPEN, "recycled range not resolved")); continue
                if from_free(p, e[3], free):
                    el = range_element(sp, e[3])
                    w = None
                    if el is not None:
                        ety = sp.it.tyi(e[3].ty)
                        w = interval(sp.it.as_variant(sp.it.mk(el, ety), 0) if not isinstance(sp.it.mk(el, ety), Agg) else sp.it.mk(el, ety))
                    vs += [same(sp.it, sp.st, a, b) for a, b in zip(x, w)] if w else [Verdict(OPEN, "moved free range not resolved")]
            for z in src:
                adds = [(i, e, h, l) for i, e, h, l in s.events("madd") if place(e[1]) in free and z.named_in(e[3])]
                life = liveness(s, z.weak)
                rem = [i for i, e, h, l in s.events("mrem") if e[1] == z.cell and sp.st.facts.entails_eq(e[3] - z.key)] if isinstance(z.key, Poly) else []
                if adds:
                    if life is True: vs.append(broken(sp, "the slots of a value that is still alive are recycled"))
                    elif life is None:
                        vs.append(Verdict(OPEN, "where the value was found dead is not resolved") if alive_checks and not any(e[2] == z.key for _, e, _, _ in s.events("mnext")) else
                                  broken(sp, "the slots of a value are recycled without asking whether it is alive"))
                    if len(adds) > 1 or any(len(l) > 1 for _, _, _, l in adds): vs.append(Verdict(OPEN, "recycled several times") if len(adds) == 1 else broken(sp, "the slots of a value are recycled twice"))
                    if not rem: vs.append(Verdict(OPEN, "where the value is forgotten is not resolved") if removed else broken(sp, "a recycled value stays registered and would be recycled again"))
                    for _, e, _, _ in adds:
                        x = interval(e[3])
                        if x: vs += [same(sp.it, sp.st, x[0], z.index), same(sp.it, sp.st, x[1], z.index + z.len - 1)]
                elif life is False:
                    q = sp.st.copy(); q.facts = q.facts.with_ge(z.len - 1).with_ge(NONE_INDEX - 1 - z.index)
                    if q.facts.contradictory(): vs.append(GOOD); continue
                    if strange: vs.append(Verdict(OPEN, "recycled elsewhere")); continue
                    qp = Path.__new__(Path); qp.__dict__.update(sp.__dict__); qp.st = q
                    vs.append(broken(qp, "the slots of a value without handles are never recycled"))
                elif life is True and rem: vs.append(broken(sp, "a value that is still alive is forgotten"))
        if strange: vs.append(Verdict(OPEN, "a recycled range is not traced to a value"))
        for s in p.secs.values():
            if place(s.cell) in free and s.mode in ("w", "m"):
                q = find_seq(s.after)
                b = find_seq(s.before)
                if q and b and isinstance(q[1].n, Poly) and q[1].n.is_const() and q[1].n.value() == 0 and s.after != s.before:
                    vs.append(broken(p, "free slots are forgotten") if not b[1].n.is_const() else GOOD)
        return vs or []
    hist(ob, run, rule, f)
def defrag_complete(ob, dump, root):
    """Merging the free ranges loses none of them."""
    free = role_free(dump)
    run = ARun(dump, root)
    rule = "keeps all free slots"
    if run.err is not None: return ob.add(run, rule, undecided(run))
    def f(p):
        vs = []
        for sec in p.secs.values():
            if place(sec.cell) not in free or sec.mode not in ("w", "m"): continue
            sets = [i for i, e, h, l in p.events("set") if e[1] == sec.cell and sec.start < i < sec.end]
            if not sets: continue
            b = find_seq(p.ev[sets[0]][0][3]) if p.ev[sets[0]][0][3] is not None else None
            if b is None or len(sets) > 1: vs.append(Verdict(OPEN, "the free ranges are not resolved")); continue
            if any(p.ev[i][2] for i in sets): vs.append(Verdict(OPEN, "the free list is replaced in a loop")); continue
            if b[1].n.is_const() and b[1].n.value() == 0: continue
            passes = {}
            for s in segs(p):
                if s.loop is not None: passes.setdefault((s.loop[0], s.loop[1]), []).append(s)
            found = False
            readds = [(i, e) for i, e, h, l in p.events("madd") if place(e[1]) in free and sec.start < i < sec.end and from_free(p, e[3], free)]
            if not readds:
                # nothing of what was taken out comes back
                q = p.st.copy(); q.facts = q.facts.with_ge(b[1].n - 1)
                vs.append(Verdict(OPEN, "whether free ranges come back is not resolved") if find_seq(sec.after) is None or not kept_empty(sec) or q.facts.contradictory() else broken(with_state(p, q), "free slots are forgotten"))
                continue
            for (loop, K), ss in passes.items():
                mine = [s for s in ss if any(place(e[1]) in free and from_free(p, e[3], free) for _, e, _, _ in s.events("madd"))]
                if not mine: continue
                el = range_element(mine[0].p, [e[3] for _, e, _, _ in mine[0].events("madd") if place(e[1]) in free][0])
                if el is None or el[2] != Poly.atom(loop):
                    vs.append(Verdict(OPEN, "which free range is added back is not resolved")); found = True; continue
                found = True
                v = same(p.it, p.st, K, b[1].n)
                if v.status == OPEN:
                    # a commit in which nothing was recycled, so that the free list is as it was found
                    q, k, n = unrecycled(p, sec, K, b[1].n)
                    if q is not None:
                        v = same(p.it, q, k, n)
                        if v.status == PROVED: v = Verdict(OPEN, "how many free ranges are added back")
                if v.status == REFUTED: v.why = "not every free range is added back"
                vs.append(v)
                it = p.it
                rty = next(e[3].ty for _, e, _, _ in mine[0].events("madd") if place(e[1]) in free)
                for s in ss:
                    if s in mine:
                        n = [l for _, e, _, l in s.events("madd") if place(e[1]) in free]
                        vs.append(GOOD if len(n) == 1 and len(n[0]) == 1 else Verdict(OPEN, "added back several times"))
                        continue
                    q = s.p.st.copy()
                    x = it.mk(el, it.tyi(rty))
                    x = interval(x if isinstance(x, Agg) else it.as_variant(x, 0))
                    if x: q.facts = q.facts.with_ge(x[1] - x[0]).with_ge(P(NONE_INDEX - 1) - x[1])
                    if q.facts.contradictory(): continue
                    vs.append(broken(with_state(s.p, q), "a free range is dropped"))
            if not found: vs.append(Verdict(OPEN, "where the free ranges come back is not resolved"))
        return vs or GOOD
    hist(ob, run, rule, f)
def all_items(p, it):
    """The iterator below adapters that may leave something out, and a verdict if they do."""
    while isinstance(it, Agg):
        name = it.ty.split("<")[0]
        inner = [x for x in it.f if isinstance(x, Agg)]
        if name == "std::iter::Filter" and len(inner) == 1:
            fs = [x for x in it.f if isinstance(x, Clo)]
            qs = [x for x in inner[0].f if isinstance(x, Seq)]
            if len(fs) != 1 or fs[0].inst is None or len(qs) != 1 or qs[0].ety is None: return it, Verdict(OPEN, "written updates not resolved")
            st = p.st.copy(); st.facts = Facts()
            x = p.it.mk(("spec", "item"), qs[0].ety)
            cell = ("tmp", fresh_id()); st.cells[cell] = x
            for s, b in p.it.call_value(st, fs[0], [Ref(cell, ())], p.it.tyi("bool"), 0, None):
                if p.it.known(s, b) is True: continue
                u = update_parts(x if isinstance(x, Agg) else p.it.as_variant(x, 0))
                if u is None: return it, Verdict(OPEN, "written updates not resolved")
                return it, refute(p.it, s, lambda e: not e.cond(b) and e.poly(u[1]) > 0 and e.poly(u[2].n) > 0, "some queued updates are left out when they are written")
            it = inner[0]
        elif name == "std::iter::Take" and len(inner) == 1:
            n = [x for x in it.f if isinstance(x, Poly)]; qs = [x for x in inner[0].f if isinstance(x, Seq)]
            if len(n) != 1 or len(qs) != 1: return it, Verdict(OPEN, "written updates not resolved")
            if not p.st.facts.entails(n[0] - qs[0].n):
                if n[0].is_const(): return it, Verdict(REFUTED, "only the first %d updates are written" % n[0].value())
                return it, Verdict(OPEN, "written updates not resolved")
            it = inner[0]
        elif name == "std::iter::Skip" and len(inner) == 1:
            n = [x for x in it.f if isinstance(x, Poly)]
            if len(n) != 1 or not n[0].is_const(): return it, Verdict(OPEN, "written updates not resolved")
            if n[0].value(): return it, Verdict(REFUTED, "the first %d updates are not written" % n[0].value())
            it = inner[0]
        else: return it, None
    return it, None
def with_state(p, st):
    q = Path.__new__(Path); q.__dict__.update(p.__dict__); q.st = st
    return q
def unrecycled(p, sec, *xs):
    """The path and values when the free list is as long as it was found."""
    f = find_seq(sec.before)
    lost = set()
    def g(t):
        if isinstance(t, tuple) and len(t) > 3 and t[0] == "a" and t[1] == "unk" and t[2] == "len32" and sec.cell in str_parts(t): lost.add(t)
    for x in xs: visit(x, g)
    if f is None or len(lost) != 1: return (None,) + xs
    a = lost.pop()
    fa = lambda t: f[1].n if t == a else None
    st = p.st.copy()
    fs = st.facts.map(lambda x: deep(x, fa))
    def other(x):
        hit = []
        visit(x, lambda t: hit.append(1) if isinstance(t, tuple) and len(t) > 3 and t[0] == "a" and t[1] == "unk" and t[2] == "len32" else None)
        return bool(hit)
    st.facts = type(fs)(tuple(x for x in fs.ge if not other(x)), tuple(x for x in fs.ne if not other(x)), fs.b, fs.disc)
    return (st,) + tuple(deep(x, fa) for x in xs)
def str_parts(t):
    out = []
    visit(t, lambda x: out.append(x) if isinstance(x, tuple) else None)
    return out
def kept_empty(sec):
    """Is the set of ranges empty when the lock is released?"""
    q = find_seq(sec.after)
    return q is not None and isinstance(q[1].n, Poly) and q[1].n.is_const() and q[1].n.value() == 0

# ---------------------------------------------------------------- A06, A08: delivery
_flags = {}
CREATORS = ("alloc::values::new_value", "alloc::values::gpu_new", "alloc::arrays::new_array", "alloc::arrays::gpu_new", "alloc::values::hybrid_new", "alloc::arrays::hybrid_new")
def role_flags(dump):
    """Fields that are the same constant in everything that is ever registered."""
    if dump in _flags: return _flags[dump]
    seen, ok = {}, True
    for root in CREATORS:
        run = ARun(dump, root, lambda r: fits(r))
        if run.err is not None: ok = False; break
        for st, v in run.outs:
            p = Path(run, st, v)
            for i, e, h, l in p.events("mins"):
                if not any(is_registry(p.secs[u]) for u in h): continue
                x = source_parts(run, e[4])
                if x is None: ok = False; continue
                for n, c in x[3]: seen.setdefault(n, set()).add(c.k)
    # how they are registered is not resolved: nothing can be said about any of them
    if not seen: ok = False
    _flags[dump] = {n: next(iter(v)) for n, v in seen.items() if len(v) == 1 and next(iter(v)) in ("T", "F")} if ok else None
    return _flags[dump]
def with_flags(sp, z, flags):
    """The path under what is known of every registered source; None if it cannot be."""
    st = sp.st.copy()
    for n, c in z.flags:
        k = (flags or {}).get(n)
        if k is None or not isinstance(c, Cond): continue
        try:
            sp.it.assume(st, c if k == "T" else cnot(c))
        except Stop: return None
        except Fork: continue
    if st.facts.contradictory(): return None
    q = Path.__new__(Path); q.__dict__.update(sp.__dict__); q.st = st
    return q
def is_updates(x):
    return isinstance(x, Agg) and update_parts(x) is not None
def covered(sp, adds, uid, n, ti):
    """Which elements of the taken queue are added: verdicts."""
    vs, singles, loops = [], [], []
    for i, e, h, l in adds:
        el = range_element(sp, e[3])
        if el is None or el[1] != ("acq", uid): vs.append(Verdict(OPEN, "added update not resolved")); continue
        k = el[2] if isinstance(el[2], Poly) else None
        if k is None: vs.append(Verdict(OPEN, "added update not resolved")); continue
        v = sp.it.mk(el, ti)
        if not isinstance(v, Agg): v = sp.it.as_variant(v, 0)
        a, b = update_parts(e[3]), update_of(sp.run, v)
        if a is None or b is None: vs.append(Verdict(OPEN, "added update not resolved")); continue
        vs += [same(sp.it, sp.st, x, y) for x, y in zip(a, b)]
        if len(l) == 1: singles.append((i, k))
        elif len(l) == 2: loops.append((i, k, l[1]))
        else: vs.append(Verdict(OPEN, "added update not resolved"))
    at = P(0)
    last = -1
    left = sorted(singles)
    while left:
        i, k = left.pop(0)
        if not sp.st.facts.entails_eq(k - at):
            d = k - at
            q = sp.st.copy(); q.facts = q.facts.with_ne(d)
            if not q.facts.contradictory(): vs.append(("order", with_state(sp, q)))
            return vs, None
        at, last = at + 1, i
    done = set()
    for i, k, (q, K, alt) in loops:
        if q in done: continue
        done.add(q)
        k0 = sp.it.at(k, q, P(0)) if hasattr(sp.it, "at") else None
        step = k.coeff_of(q) if hasattr(k, "coeff_of") else None
        if k0 is None: return vs + [Verdict(OPEN, "added update not resolved")], None
        if i < last: return vs + [("order", sp)], None
        for d in (k0 - at, k - k0 - Poly.atom(q)):
            if not sp.st.facts.entails_eq(d):
                w = sp.st.copy(); w.facts = w.facts.with_ge(P(K) - Poly.atom(q) - 1).with_ge(Poly.atom(q)).with_ne(d)
                return vs + ([("order", with_state(sp, w))] if not w.facts.contradictory() else []), None
        # every pass adds one
        for j, (e, h, l) in enumerate(sp.ev):
            pass
        at = at + P(K)
    return vs, at
def delivery(ob, dump, root, only_order=False):
    """What a commit does with the updates of notified values."""
    run = ARun(dump, root)
    rule = "takes and writes every queued update of notified values"
    if run.err is not None: return ob.add(run, rule, undecided(run))
    flags = role_flags(dump)
    orders = []
    # updates that are taken or added without being traced to the value they were found with
    taken_elsewhere = added_elsewhere = False
    for st, v in run.outs:
        p = Path(run, st, v)
        for s in segs(p):
            try: src = sources(s)
            except (Fork, Undecided, Stop): src = []
            keys = [e[2] for _, e, _, _ in s.events("mnext")]
            mine = set()
            for i, e, h, l in s.events("lock"):
                if "SlabUpdate" not in e[5]: continue
                mine.add(e[4])
                if not any(z.weak == e[2] and z.key in keys for z in src): taken_elsewhere = True
            for i, e, h, l in s.events("madd"):
                if is_updates(e[3]) and not any(mentions(e[3], ("acq", u)) for u in mine): added_elsewhere = True
    def f(p):
        vs = []
        ss = segs(p)
        takers = [(s, z) for s in ss for z in sources(s)]
        queues_elsewhere = [x for x in p.secs.values() if "SlabUpdate" in x.cls and not any(z.weak == x.cell for _, z in takers)]
        wcells = set()
        for s, z in takers:
            sp = with_flags(s.p, z, flags)
            if sp is None: continue
            if flags is None and z.flags: vs.append(Verdict(OPEN, "what is registered is not resolved")); continue
            life = liveness(s, z.weak)
            uids = {e[4] for _, e, _, _ in s.events("lock") if e[2] == z.weak}
            if not uids:
                if life is False: vs.append(GOOD)
                elif queues_elsewhere or taken_elsewhere: vs.append(Verdict(OPEN, "the queues are taken elsewhere"))
                elif life is True and any(e[1] == z.weak and not e[2] for _, e, _, _ in s.events("count", "upgrade")): vs.append(GOOD)
                else: vs.append(broken(sp, "the updates of a notified value are not taken"))
                continue
            if len(uids) != 1:
                def unchanged(c):
                    """Nothing was queued since an earlier section, and that is known."""
                    b = find_seq(c.before)
                    for y in uids:
                        d = s.section(y)
                        d = find_seq(d.after) if d is not None and y != c.uid else None
                        if not b or d and sp.st.facts.entails_eq(b[1].n - d[1].n): return True
                    return False
                for x in uids:
                    c = s.section(x)
                    a = find_seq(c.after) if c is not None else None
                    if not a or c.after == c.before or not (a[1].n.is_const() and a[1].n.value() == 0): continue
                    # emptied without a look at what is in it by then
                    if not any(mentions(e, ("acq", x)) for _, e, _, _ in s.ev if e[0] not in ("lock", "unlock", "grow", "facts")) and not unchanged(c):
                        vs.append(broken(sp, "the queue is emptied in a later critical section than the one its updates are copied in"))
                vs.append(Verdict(OPEN, "the queue is locked several times")); continue
            uid = next(iter(uids)); sec = s.section(uid)
            if sec is None: vs.append(Verdict(OPEN, "queue not resolved")); continue
            b, a = find_seq(sec.before), find_seq(sec.after)
            if not a or not b: vs.append(Verdict(OPEN, "queue not resolved")); continue
            n = b[1].n
            if not sp.st.facts.entails_eq(a[1].n):
                vs.append(refute(sp.it, sp.st, lambda e: e.poly(a[1].n) != 0, "queued updates stay in the queue") if a[1] != b[1] else
                          broken(sp, "queued updates stay in the queue") if not sp.st.facts.entails_eq(n) else GOOD)
            ety = b[1].ety
            adds = [x for x in s.events("madd") if is_updates(x[1][3]) and mentions(x[1][3], ("acq", uid))]
            other = [x for x in s.events("madd") if is_updates(x[1][3]) and not mentions(x[1][3], ("acq", uid))]
            wcells |= {x[1][1] for x in adds}
            r, got = covered(sp, adds, uid, n, ety)
            for x in r:
                if isinstance(x, Verdict): vs.append(x)
                else: orders.append(x[1])
            if got is None:
                few = len(adds)
                if not other and not added_elsewhere and all(len(x[3]) == 1 for x in adds) and all(isinstance(x, tuple) or x.status == PROVED for x in r):
                    vs.append(refute(sp.it, sp.st, lambda e: e.poly(n) > few, "queued updates are taken but not written"))
                vs.append(Verdict(OPEN, "order of the added updates")); continue
            # passes of the inner loop that add nothing
            for lp in {id(x[3][1][0]): x[3][1] for x in adds if len(x[3]) == 2}.values():
                for alt in alternatives(p, lp[0]):
                    if any(e[0] == "madd" for e in alt): continue
                    ap = with_facts(sp, alt)
                    v = ap.it.mk(("el", ("acq", uid), Poly.atom(lp[0])), ety)
                    u = update_of(sp.run, v if isinstance(v, Agg) else ap.it.as_variant(v, 0))
                    if u is not None: ap.st.facts = ap.st.facts.with_ge(u[1] - 1)   # one without slots may be left out
                    if not ap.st.facts.contradictory(): vs.append(broken(ap, "some queued updates are skipped"))
            for x in other:
                vs.append(Verdict(OPEN, "something else may be written") if added_elsewhere and len(x[3]) > 1 or has_lost(x[1][3]) or queue_content(p, x[1][3]) else broken(sp, "something is written that was not queued"))
            if sp.st.facts.entails(got - n): vs.append(GOOD)
            elif other or added_elsewhere: vs.append(Verdict(OPEN, "updates are added in another form"))
            elif not adds and any(mentions(e, ("acq", uid)) for _, e, _, _ in s.ev if e[0] in ("callf", "unknown")): vs.append(Verdict(OPEN, "updates are moved elsewhere"))
            elif not adds and not wcells_any(p): vs.append(Verdict(OPEN, "where the updates go is not resolved"))
            else: vs.append(refute(sp.it, sp.st, lambda e: e.poly(n) > e.poly(got), "queued updates are taken but not written"))
        if not takers: return Verdict(OPEN, "no notified value is looked up")
        # the writes reach the buffer that is returned
        writes = [(i, e) for i, e, h, l in p.events("rt") if e[1] == "buffer_write"]
        cells = {e[1] for _, e, _, _ in p.events("madd") if is_updates(e[3])}
        if len(cells) != 1: return vs + [Verdict(OPEN, "the collected updates are not resolved")]
        cell = next(iter(cells))
        def about(t): return isinstance(t, tuple) and len(t) == 2 and isinstance(t[0], tuple) and len(t[0]) == 3 and t[0][0] == "lv" and isinstance(t[0][2], tuple) and t[0][2] and t[0][2][0] == cell
        if writes:
            i, e = writes[-1]
            arg, target = e[2][1], e[2][2]
            arg, why = all_items(p, arg)
            if why is not None: vs.append(why)
            q = [x for x in (arg.f if isinstance(arg, Agg) else ()) if isinstance(x, Seq)]
            ps = [x for x in (arg.f if isinstance(arg, Agg) else ()) if isinstance(x, Poly)]
            if len(q) != 1 or len(ps) != 2: vs.append(Verdict(OPEN, "written updates not resolved"))
            else:
                names = []
                visit(q[0].base, lambda t: names.append(1) if t == cell else None)
                if not names or q[0].log: vs.append(Verdict(OPEN, "written updates not resolved"))
                else: vs += [same(p.it, p.st, ps[0], P(0)), same(p.it, p.st, ps[1], q[0].n)]
            if isinstance(target, Ref):
                objs = []
                visit(p.v, lambda t: objs.append(t.obj) if isinstance(t, Arc) else None)
                if target.c not in objs: vs.append(broken_relaxed(p, "the updates are written to another buffer than the one returned") if objs else Verdict(OPEN, "returned buffer not resolved"))
            late = [j for j, x, h, l in p.events("rt") if x[1] in ("buffer_create", "buffer_copy") and j > i]
            if late: vs.append(broken(p, "the buffer is replaced after the updates are written"))
            if any(x[1] != "buffer_write" for x in [y[1] for y in p.events("rt")][-1:]): pass
        else:
            ns = []
            def g(t):
                if isinstance(t, tuple) and len(t) > 3 and t[0] == "a" and t[1] == "unk" and mentions(t, cell) and t not in ns: ns.append(t)
            for x in p.st.facts.ge + p.st.facts.ne: visit(x, g)
            if any(p.st.facts.entails_eq(Poly.atom(t)) for t in ns): vs.append(GOOD)
            else:
                odd = [t for t in lost_atoms(p.st.facts) if t not in ns and not from_free(p, t, role_free(dump))]
                free_ = [t for t in ns if not p.st.facts.with_ge(Poly.atom(t) - 1).contradictory()]
                vs.append(Verdict(OPEN, "whether there are updates to write is not resolved") if odd else
                          Verdict(REFUTED, "updates are collected but not written"))
        return vs
    tmp = Obs("")
    hist(tmp if only_order else ob, run, rule, f)
    if only_order: ob.all(run, "adds the updates of a value in the order they were queued", [broken(sp, "updates are added in another order than they were queued") for sp in orders] or
                          [GOOD if tmp.res[0]["status"] == PROVED else Verdict(OPEN, tmp.res[0]["why"])])
def delivery_order(ob, dump, root): delivery(ob, dump, root, True)
def with_facts(sp, alt):
    st = sp.st.copy()
    f = st.facts
    for e in alt:
        if e[0] != "facts": continue
        f = f.overlay(*e[1:5])
    st.facts = f
    q = Path.__new__(Path); q.__dict__.update(sp.__dict__); q.st = st
    return q
def has_lost(x):
    hit = []
    visit(x, lambda t: hit.append(t) if isinstance(t, Unk) or isinstance(t, tuple) and t and (t[0] in ("unk", "unkb")) or isinstance(t, tuple) and len(t) > 3 and t[0] == "a" and t[1] == "unk" else None)
    return bool(hit)
def queue_content(p, x):
    return any("SlabUpdate" in s.cls and mentions(x, ("acq", u)) for u, s in p.secs.items())
def wcells_any(p): return any(is_updates(e[3]) for _, e, _, _ in p.events("madd"))
def alternatives(p, q):
    """The passes of a loop."""
    out = []
    def go(ev):
        for e in ev:
            if e[0] == "loop":
                if e[1] == q: out.extend(e[3])
                for a in e[3]: go(a)
    go(p.st.ev)
    return out
def lost_atoms(f):
    hit = []
    def g(t):
        if isinstance(t, Unk) and t not in hit: hit.append(t)
        if isinstance(t, tuple) and t and (t[0] == "unkb" or len(t) > 3 and t[0] == "a" and t[1] == "unk" and t[2] != "len32") and t not in hit: hit.append(t)
    for x in f.ge + f.ne: visit(x, g)
    for t in list(f.b) + list(f.disc): visit(t, g)
    return hit
def id_sets(p):
    """The sets of numbers that are iterated to take updates: (term, log) with the event."""
    return [(i, e, h, l) for i, e, h, l in p.events("mnext") if e[1].kind == "set"]
def section_of_set(p, term):
    """The critical section in which this content of a set was read, and its cell."""
    for u, s in p.secs.items():
        if isinstance(s.before, V) and getattr(s.before, "kind", None) == "set":
            if term == s.before.term: return u
    if isinstance(term, tuple) and len(term) == 2 and term[0] == "unk" and isinstance(term[1], tuple) and len(term[1]) == 3 and term[1][0] == "lv":
        _, lid, (cell, path) = term[1]
        for i, e, h, l in p.events("recv", "mins"):
            if l and l[0][0][3][0] == lid if isinstance(l and l[0][0], tuple) else False:
                us = [u for u in h if p.secs[u].cell == cell]
                if us: return us[-1]
    return None
def channel_of(p):
    """The allocator's notification channel: (structure, field) ignoring which end."""
    return None
def notifications(ob, dump, root):
    """Every notification is consumed once and leads to a look at its value."""
    run = ARun(dump, root)
    rule = "looks at every value that was notified"
    if run.err is not None: return ob.add(run, rule, undecided(run))
    # numbers that are queued or looked up without being traced to where they come from
    untraced = unlooked = False
    for st, v in run.outs:
        p = Path(run, st, v)
        got = [e[2] for _, e, _, _ in p.events("recv")]
        keys = [e[2] for _, e, _, _ in p.events("mnext")]
        rc = registry_type(p)[0]
        for i, e, h, l in p.events("mins", "mext"):
            if e[1] != rc and e[3] not in got + keys: untraced = True
        for i, e, h, l in p.events("mget", "mrem"):
            if e[1] == rc and e[3] not in keys: unlooked = True
    def later(p, s, x, kinds, cell=None):
        """Is what a pass found dealt with by another loop, which runs as often?"""
        mine = [(i, e, h, l) for i, e, h, l in p.events(*kinds) if mentions(e[3], x) and (cell is None or e[1] == cell) and not (l and s.loop and l[0] is s.loop)]
        if not mine: return None
        for i, e, h, l in mine:
            if e[3] != x or s.loop is None or len(l) != 1: continue
            every = all(any(y[0] in kinds and y[3] == x for y in alt) for alt in alternatives(p, l[0][0]))
            if every and p.st.facts.entails_eq(P(l[0][1]) - P(s.loop[1])): return GOOD
        return Verdict(OPEN, "dealt with elsewhere")
    def f(p):
        vs = []
        recvs = p.events("recv")
        nexts = id_sets(p)
        dr = p.events("drained")
        taken = commits(p)
        # received numbers are kept
        for s in segs(p):
            for i, e, h, l in s.events("recv"):
                ok = [x for _, x, _, _ in s.events("mins") if x[3] == e[2] or isinstance(e[2], Poly) and isinstance(x[3], Poly) and s.p.st.facts.entails_eq(x[3] - e[2])]
                if ok:
                    last = {}
                    for _, x, _, _ in s.events("mins", "mrem"):
                        if any(x[3] == y[3] and x[1] == y[1] for y in ok): last[x[1]] = x[0]
                    vs.append(broken(s.p, "a received notification is dropped again") if all(k == "mrem" for k in last.values()) else GOOD)
                elif any(mentions(x, e[2]) for _, x, _, _ in s.events("mget", "mrem", "set")): vs.append(Verdict(OPEN, "what happens to a received notification is not resolved"))
                else:
                    x = later(p, s, e[2], ("mins",))
                    vs.append(x if x is not None else Verdict(OPEN, "whether received numbers are queued is not resolved") if p.it is not None and untraced else broken(s.p, "a notification is received and lost"))
        if not recvs and not dr: return Verdict(OPEN, "no notification is received")
        if not dr:
            q = p.st.copy()
            for i, e, h, l in recvs:
                for x in l: q.facts = q.facts.with_ge(P(1 << 48) - P(x[1]))     # no channel holds more
            if not q.facts.contradictory(): vs.append(broken(with_state(p, q), "notifications may be left in the channel"))
        if not taken:
            # nothing is committed: what was notified must still be known to the next commit
            cells = {e[1] for i, e, h, l in p.events("mins") if any(x[1][2] == e[3] for x in recvs)}
            for c in cells:
                if c[0] != "h": vs.append(Verdict(OPEN, "where received numbers stay is not resolved") if any(s.mode in ("w", "m") and isinstance(s.before, V) and getattr(s.before, "kind", None) == "set" and s.after != s.before for s in p.secs.values()) else
                                          broken(p, "numbers are received without a commit and lost"))
                for s in p.secs.values():
                    if s.cell == c and isinstance(s.after, V) and getattr(s.after, "term", None) == ("empty",) and not s.after.log: vs.append(broken(p, "the notified values are forgotten without a commit"))
            for s in p.secs.values():
                if s.cell not in cells and isinstance(s.before, V) and getattr(s.before, "kind", None) == "set" and isinstance(s.after, V) and getattr(s.after, "term", None) == ("empty",) and not s.after.log and s.before.term != ("empty",):
                    vs.append(broken(p, "the notified values are forgotten without a commit"))
            return vs or None
        # every number of the set is looked up
        if not nexts: return vs + ([Verdict(OPEN, "the set of notified values is not resolved")] if not any(k[0] == "more" for k in p.st.facts.b) else [])
        for i, e, h, l in nexts[:1]:
            if not any(k[0] == "more" and k[1] == e[1].term and v is False for k, v in p.st.facts.b.items()): vs.append(broken(p, "the rest of the notified values is skipped"))
        for s in segs(p):
            for i, e, h, l in s.events("mnext"):
                if e[1].kind != "set": continue
                cell, ti = registry_type(p)
                looked = [x for _, x, _, _ in s.events("mget", "mrem") if x[1] == cell and x[3] == e[2]]
                if looked: vs.append(GOOD)
                elif any(mentions(x, e[2]) for _, x, _, _ in s.ev if x[0] not in ("mnext", "facts")): vs.append(Verdict(OPEN, "what happens to a notified value is not resolved"))
                else:
                    x = later(p, s, e[2], ("mget", "mrem"), cell)
                    vs.append(x if x is not None else Verdict(OPEN, "whether notified values are looked up elsewhere is not resolved") if unlooked else broken(s.p, "a notified value is skipped"))
        return vs
    hist(ob, run, rule, f)
def commits(p): return [x for x in p.events("rmw") if isinstance(x[1][3], V) and x[1][4] == FALSE] or p.events("mget")
def key_queue(ob, dump, root):
    """A08: the numbers of notified values are read and cleared in one critical section."""
    run = ARun(dump, root)
    rule = "reads and clears the notified values in one step"
    if run.err is not None: return ob.add(run, rule, undecided(run))
    def f(p):
        vs = []
        nexts = id_sets(p)
        shared = lambda c: c[0] == "h"
        # where numbers are put
        for i, e, h, l in p.events("recv"):
            pass
        ins = [(i, e, h, l) for i, e, h, l in p.events("mins") if any(x[1][2] == e[3] for x in p.events("recv"))]
        for i, e, h, l in ins:
            if shared(e[1]) and exclusive(p, h, e[1]) is None: vs.append(broken(p, "numbers are queued without the queue's lock"))
        # with nothing notified
        for i, e, h, l in nexts[:1]:
            u = section_of_set(p, e[1].term)
            if u is None: vs.append(Verdict(OPEN, "the set of notified values is not resolved")); continue
            s = p.secs[u]
            a = s.after
            empty = isinstance(a, V) and getattr(a, "kind", None) == "set" and a.term == ("empty",) and not a.log
            if empty: vs.append(GOOD if s.mode in ("w", "m") else broken(p, "the queue is cleared without excluding others"))
            else:
                later = [x for x in p.secs.values() if x.cell == s.cell and x is not s and isinstance(x.after, V) and getattr(x.after, "term", None) == ("empty",)]
                vs.append(broken_idle(p, "the queue is cleared after the lock was given up, so numbers queued in between are lost") if later else
                          broken_idle(p, "the notified values are not cleared") if a == s.before or not isinstance(a, V) or getattr(a, "term", None) == e[1].term else Verdict(OPEN, "the queue's content is not resolved"))
        return vs or None
    hist(ob, run, rule, f)
def one_at_a_time(ob, dump, root):
    """A08: commits exclude one another."""
    run = ARun(dump, root)
    rule = "commits do not run concurrently with one another"
    if run.err is not None: return ob.add(run, rule, undecided(run))
    def f(p):
        marks = [(i, e, h, l) for i, e, h, l in p.ev_all() if e[0] in ("recv", "drained", "rt") or e[0] == "mget" or e[0] == "lock" and "SlabUpdate" in e[5] or e[0] == "rmw" and e[4] == FALSE]
        if len(marks) < 2: return Verdict(OPEN, "not resolved")
        common = None
        for i, e, h, l in marks:
            us = {u for u in h if p.secs[u].mode in ("w", "m") and p.secs[u].cell[0] == "h"}
            common = us if common is None else common & us
        return GOOD if common else broken_always(p, "no lock is held from taking the updates to writing them")
    hist(ob, run, rule, f)
def broken_always(p, why):
    """Of something that does not depend on the values: only whether the path exists matters."""
    return Verdict(REFUTED, why)
Path.ev_all = lambda self: [(i, e, h, l) for i, (e, h, l) in enumerate(self.ev)]

# ---------------------------------------------------------------- A09, A10: buffers
_roles = {}
class Roles: pass
def rts(p, name): return [(i, e, h, l) for i, e, h, l in p.events("rt") if e[1] == name]
def slab_roles(dump):
    """Which cell and which field plays which part, from what a commit does that creates a buffer."""
    if dump in _roles: return _roles[dump]
    r = Roles()
    for n in ("needs", "cap", "invo", "inv", "buffer", "f_k", "f_inv", "f_invo", "f_buf", "f_src"): setattr(r, n, None)
    run = ARun(dump, "alloc::any::commit")
    r.err = run.err
    for st, v in run.outs or []:
        p = Path(run, st, v)
        c = rts(p, "buffer_create")
        if len(c) != 1 or not isinstance(p.v, Agg): continue
        i, e, h, l = c[0]
        for j, x, _, _ in p.events("rmw"):
            if x[4] == FALSE and isinstance(x[3], Cond): r.needs = place(x[1])
            elif isinstance(x[3], Poly) and isinstance(x[4], Poly): r.invo = place(x[1])
        for j, x, _, _ in p.events("ald", "ast"):
            if r.needs is None and isinstance(x[3], Cond): r.needs = place(x[1])
        for j, x, _, _ in p.events("ald"):
            if x[3] in e[2]: r.cap = place(x[1])
        made = e[5]
        for s in p.secs.values():
            if "SlabBuffer" in s.cls and s.mode in ("w", "m"): r.buffer = place(s.cell)
        for n, x in enumerate(p.v.f):
            if isinstance(x, Poly): r.f_k = n
            elif isinstance(x, Arc):
                if place(x.obj) == r.buffer: r.f_src = n
                elif place(x.obj) == r.invo: r.f_invo = n
                elif isinstance(p.content(x.obj), At): r.f_inv, r.inv = n, place(x.obj)
                elif x.obj[0] == "h" and any(place(e2[1]) == place(x.obj) for _, e2, _, _ in p.events("ast", "ald")): r.f_inv, r.inv = n, place(x.obj)
                else: r.f_buf = n
        break
    _roles[dump] = r
    return r
def section_at(p, h, pl):
    """The held critical section on this cell."""
    for u in h:
        if place(p.secs[u].cell) == pl: return u
    return None
LEAST = {0: "Relaxed", 1: "Release", 2: "Acquire", 3: "AcqRel", 4: "SeqCst"}
def growth_sections(dump):
    """Locks that are always held (exclusively) where new values change the capacity."""
    common = None
    r = slab_roles(dump)
    for root in CREATORS:
        run = ARun(dump, root, lambda x: fits(x))
        for st, v in run.outs or []:
            p = Path(run, st, v)
            for i, e, h, l in p.events("ast", "rmw"):
                if place(e[1]) in (r.cap, r.needs):
                    us = {place(p.secs[u].cell) for u in h if p.secs[u].mode in ("w", "m")}
                    common = us if common is None else common & us
    return common or set()
def commit_grows(ob, dump, root):
    """When and how a commit replaces the buffer."""
    r = slab_roles(dump)
    run = ARun(dump, root)
    rule = "replaces the buffer when it became too small, with all it held"
    if run.err is not None: return ob.add(run, rule, undecided(run))
    if None in (r.needs, r.cap, r.buffer, r.f_buf): return ob.add(run, rule, Verdict(OPEN, "the parts of the allocator are not resolved"))
    guard = growth_sections(dump)
    def f(p):
        vs = []
        ask = [(i, e, h) for i, e, h, l in p.events("rmw") if place(e[1]) == r.needs]
        other = [(i, e, h) for i, e, h, l in p.events("ald", "ast") if place(e[1]) == r.needs]
        if not ask and len(other) == 1 and other[0][1][0] == "ald" and truth(p, other[0][1][3]) is False: ask = other
        elif len(ask) != 1 or ask[0][1][4] != FALSE:
            if any(e[0] == "ast" for _, e, _ in other) and not ask:
                us = [{place(p.secs[u].cell) for u in h if p.secs[u].mode in ("w", "m")} & guard for i, e, h in other]
                return Verdict(OPEN, "the request for a larger buffer is not resolved") if all(us) else broken_always(p, "the request for a larger buffer is read and reset in two steps, so one made in between is lost")
            return Verdict(OPEN, "the request for a larger buffer is not resolved")
        i, e, h = ask[0]
        # drained first
        drained = [j for j, x, _, _ in p.ev_all() if x[0] in ("recv", "drained") or x[0] == "mget" or x[0] == "lock" and "SlabUpdate" in x[5]]
        vs.append(GOOD if not [j for j in drained if j > i] else broken_always(p, "updates are collected after the buffer was made large enough, so newer ones may not fit"))
        made = rts(p, "buffer_create")
        wanted = truth(p, e[3])
        if wanted is True and not made: vs.append(broken_idle(p, "the buffer is not replaced although it is too small"))
        if wanted is False and made: vs.append(Verdict(OPEN, "the buffer is replaced without need"))
        if wanted is None: vs.append(Verdict(OPEN, "whether a larger buffer is needed is not resolved"))
        if not made:
            # the current buffer is returned
            ss = [s for s in p.secs.values() if place(s.cell) == r.buffer]
            k = p.v.f[r.f_buf] if isinstance(p.v, Agg) and len(p.v.f) > r.f_buf else None
            ok = any(isinstance(k, Arc) and mentions(k.obj, ("acq", u)) for u, s in p.secs.items() if place(s.cell) == r.buffer)
            vs.append(GOOD if ok else Verdict(OPEN, "returned buffer not resolved"))
            if any(s.after != s.before for s in ss): vs.append(Verdict(OPEN, "the current buffer changes"))
            return vs
        if len(made) != 1: return vs + [Verdict(OPEN, "several buffers are created")]
        j, c, ch, cl = made[0]
        # with the capacity that was asked for
        caps = [(n, x, g) for n, x, g, _ in p.events("ald") if place(x[1]) == r.cap]
        mine = [(n, x, g) for n, x, g in caps if isinstance(c[2][1], Poly) and isinstance(x[3], Poly) and p.st.facts.entails(c[2][1] - x[3])]
        if not isinstance(c[2][1], Poly) or not caps: vs.append(Verdict(OPEN, "capacity not resolved"))
        elif not mine: vs.append(refute(p.it, p.st, lambda z: all(z.poly(c[2][1]) < z.poly(x[3]) for _, x, _ in caps), "the new buffer is smaller than the capacity"))
        else:
            n, x, g = mine[-1]
            exact = p.st.facts.entails_eq(c[2][1] - x[3])
            if not exact: vs.append(refute(p.it, p.st, lambda z: z.poly(c[2][1]) != z.poly(x[3]), "the new buffer has another size than the capacity"))
            same_lock = {place(p.secs[u].cell) for u in set(g) & set(h) if p.secs[u].mode in ("w", "m")} & guard
            if n < i: vs.append(broken_always(p, "the capacity is read before the request for a larger buffer is reset, so a newer request is lost") if not same_lock else GOOD)
            elif e[5] in (2, 3, 4) or same_lock: vs.append(GOOD)
            else: vs.append(broken_always(p, "the capacity may be an older one than the request was made for (%s)" % LEAST.get(e[5], e[5])))
        # contents
        sec = None
        for u, s in p.secs.items():
            if place(s.cell) == r.buffer and s.mode in ("w", "m") and s.after != s.before: sec = (u, s)
        if sec is None: return vs + [broken_idle(p, "the new buffer is not kept") if not any(place(s.cell) == r.buffer and s.mode in ("w", "m") for s in p.secs.values()) else Verdict(OPEN, "current buffer not resolved")]
        u, s = sec
        new = p.v.f[r.f_buf] if isinstance(p.v, Agg) else None
        kept = s.after.f[0] if isinstance(s.after, Agg) and s.after.f else None
        if not isinstance(new, Arc) or p.content_of(new.obj) != Op(c[5], getattr(p.content_of(new.obj), "ty", None)): vs.append(Verdict(OPEN, "returned buffer not resolved") if not isinstance(new, Arc) or not isinstance(p.content_of(new.obj), Op) else broken_idle(p, "another buffer than the new one is returned"))
        if isinstance(s.after, Agg) and s.after.v == 0: vs.append(broken_idle(p, "the new buffer is not kept"))
        elif not isinstance(kept, Agg): vs.append(Verdict(OPEN, "current buffer not resolved"))
        elif kept.f[r.f_buf] != new: vs.append(broken_idle(p, "another buffer is kept than is returned"))
        had = p.st.facts.disc.get(("acq", u))
        copies = rts(p, "buffer_copy")
        if had == 0:
            vs.append(GOOD if not copies else Verdict(OPEN, "copies without an old buffer"))
        elif had == 1:
            old = ("fld", ("fld", ("acq", u), 1, "0"), 0)
            good = []
            for n, x, g, _ in copies:
                src, dst = x[2][1], x[2][2]
                frm = isinstance(src, Ref) and mentions(src.c, ("acq", u))
                to = x[4][2] == Op(c[5], x[4][2].ty) if isinstance(x[4][2], Op) else isinstance(dst, Ref) and isinstance(new, Arc) and dst.c == new.obj
                if frm and to and u in g: good.append(n)
                elif frm and to: vs.append(Verdict(OPEN, "copied outside of the buffer's lock"))
                elif isinstance(src, Ref) and isinstance(dst, Ref): vs.append(broken(p, "the contents are copied between other buffers") if isinstance(x[4][1], Op) and isinstance(x[4][2], Op) else Verdict(OPEN, "copied buffers not resolved"))
            vs.append(GOOD if good else broken_idle(p, "the contents of the old buffer are not copied") if not copies else Verdict(OPEN, "copied buffers not resolved") if not any(v.status == REFUTED for v in vs) else GOOD)
        else: vs.append(Verdict(OPEN, "whether there is an old buffer is not resolved"))
        return vs
    hist(ob, run, rule, f)
def truth(p, c):
    """What the path knows of a condition."""
    if c == TRUE: return True
    if c == FALSE: return False
    try: return bool(p.it.decide(p.st.copy(), c))
    except Fork: return None
def refinements(p, f):
    """The refinements of a path that f asks for, each with f's answer."""
    work, out = [p.st], []
    while work and len(out) < 100:
        s = work.pop()
        x = s.copy()
        try: out.append((x, f(x)))
        except Fork as fk: work += [y for y in (p.it.refine(s, a) for a in fk.alts) if y is not None]
        except Stop: continue
    return out
Path.content_of = lambda self, cell: self.it.cell(self.st, cell)
def grow_atomically(ob, dump, root):
    """A value gets slots, room and a request for a larger buffer in one step."""
    r = slab_roles(dump)
    lens = role_len(dump)
    array = "arrays" in root
    run = ARun(dump, root, lambda x: fits(x, values_seq(x) if array else None))
    rule = "grows the capacity together with the length"
    if run.err is not None: return ob.add(run, rule, undecided(run))
    if None in (r.needs, r.cap) or len(lens) != 1: return ob.add(run, rule, Verdict(OPEN, "the parts of the allocator are not resolved"))
    def f(p):
        vs = []
        acc = [(i, e, h) for i, e, h, l in p.events("ald", "ast", "rmw") if place(e[1]) in (r.cap, r.needs) or place(e[1]) in lens]
        if not acc: return []
        common = None
        for i, e, h in acc:
            us = {u for u in h if p.secs[u].mode in ("w", "m")}
            common = us if common is None else common & us
        vs.append(GOOD if common else broken_always(p, "length and capacity are changed in several steps, so other allocations may come in between"))
        sends = [i for i, e, _, _ in p.events("send", "mins")]
        if sends and min(sends) < max(i for i, _, _ in acc): vs.append(broken_always(p, "the value is published before there is room for it"))
        caps = [(i, e, h) for i, e, h in acc if place(e[1]) == r.cap and e[0] in ("ast", "rmw")]
        asks = [(i, e, h) for i, e, h in acc if place(e[1]) == r.needs and e[0] in ("ast", "rmw")]
        if caps:
            if not asks: vs.append(broken(p, "the capacity grows without asking for a larger buffer"))
            else:
                i, e, h = asks[-1]
                o = e[4] if e[0] == "ast" else e[5]
                v = e[3] if e[0] == "ast" else e[4]
                if v != TRUE: vs.append(broken(p, "the request for a larger buffer is withdrawn") if v == FALSE else Verdict(OPEN, "request not resolved"))
                # a commit holds none of the locks where it reads both
                if i < caps[-1][0]: vs.append(broken_always(p, "the larger buffer is asked for before the capacity is set"))
                elif o in (1, 3, 4): vs.append(GOOD)
                else: vs.append(broken_always(p, "a commit may see the request but not the capacity (%s)" % LEAST.get(o, o)))
        return vs
    hist(ob, run, rule, f, want_paths=False)
def always_fits(ob, dump, root):
    """The capacity covers the length after every allocation if it did before."""
    r = slab_roles(dump)
    lens = role_len(dump)
    array = "arrays" in root
    rule = "the capacity always covers the slab's length"
    if None in (r.needs, r.cap) or len(lens) != 1: return ob.add(None, rule, Verdict(OPEN, "the parts of the allocator are not resolved"))
    pl = next(iter(lens))
    def cells(run):
        out = {}
        for st, v in run.outs:
            for e, _, _ in walk(st.ev):
                if e[0] in ("ald", "ast", "rmw"): out.setdefault(place(e[1]), (e[1], e[2]))
        return out
    probe = ARun(dump, root, conc=False)
    if probe.err is not None: return ob.add(probe, rule, undecided(probe))
    at = cells(probe)
    if pl not in at or r.cap not in at: return ob.add(probe, rule, Verdict(OPEN, "the parts of the allocator are not resolved"))
    val = lambda run, st, c: run.it.get(st, run.it.cell(st, c[0]), c[1]).val
    def pre(run):
        L, C = val(run, run.st0, at[pl]), val(run, run.st0, at[r.cap])
        return fits(run, values_seq(run) if array else None) + [cge(C - L), cge(C - 1), cge(P(1 << 40) - C)]
    run = ARun(dump, root, pre, conc=False)
    def f(p):
        L, C = val(run, p.st, at[pl]), val(run, p.st, at[r.cap])
        st0 = run.st0
        L0, C0 = val(run, st0.copy(), at[pl]), val(run, st0.copy(), at[r.cap])
        if not isinstance(L, Poly) or not isinstance(C, Poly): return Verdict(OPEN, "not resolved")
        vs = [holds(p.it, p.st, cge(C - L)), holds(p.it, p.st, cge(C - C0)), holds(p.it, p.st, cge(L - L0))]
        if not p.st.facts.entails_eq(C - C0) and r.needs in at:
            n = val(run, p.st, at[r.needs])
            vs.append(GOOD if n == TRUE else broken(p, "the capacity changes without asking for a larger buffer"))
        return vs
    hist(ob, run, rule, f)
    if ob.res[-1]["status"] == OPEN and array is False:
        # a counterexample may be visible where the first few passes of the loops are looked at one by one
        run = ARun(dump, root, pre, conc=False, unroll=(2, r"SlabAllocator"))
        if run.err is None:
            ob2 = Obs(""); hist(ob2, run, rule, f)
            if ob2.res[-1]["status"] == REFUTED: ob.res[-1] = ob2.res[-1]
def fresh_allocator(ob, dump, root):
    """A new allocator asks for its first buffer, which is large enough, and has handed out nothing."""
    r = slab_roles(dump)
    lens = role_len(dump)
    free = role_free(dump)
    run = ARun(dump, root)
    rule = "starts empty and asks for a first buffer"
    if run.err is not None: return ob.add(run, rule, undecided(run))
    def field(pl):
        # ('h', ('arc', ('fld', <allocator>, 0, name)))
        hit = []
        visit(pl, lambda t: hit.append(t[3]) if isinstance(t, tuple) and len(t) == 4 and t[0] == "fld" and isinstance(t[3], str) else None)
        return hit[0] if hit else None
    def f(p):
        if not isinstance(p.v, Agg): return Verdict(OPEN, "not resolved")
        t = run.it.ty(run.it.tyi(p.v.ty))
        names = [x[0] for x in t["variants"][0][2]]
        vs = []
        def of(pl):
            n = field(pl) if pl else None
            if n not in names: return None
            x = p.v.f[names.index(n)]
            c = p.content_of(x.obj) if isinstance(x, Arc) else None
            return c.val if isinstance(c, (At, Mx)) else None
        needs, cap, ln = of(r.needs), of(r.cap), of(next(iter(lens), None))
        if needs is None or not isinstance(cap, Poly) or not isinstance(ln, Poly): return Verdict(OPEN, "not resolved")
        vs.append(GOOD if needs == TRUE else broken(p, "no first buffer is asked for"))
        vs.append(holds(p.it, p.st, cge(cap - 1)))
        vs.append(holds(p.it, p.st, cge(cap - ln)))
        b = of(r.buffer)
        if isinstance(b, Agg): vs.append(GOOD if b.v == 0 else Verdict(OPEN, "starts with a buffer"))
        fr = of(next(iter(free), None))
        q = find_seq(fr) if fr is not None else None
        if q: vs.append(GOOD if p.st.facts.entails_eq(q[1].n) else broken(p, "slots are free that were never handed out"))
        return vs
    hist(ob, run, rule, f)
def has_queued(ob, dump, root):
    """Whether updates are queued: notifications in the channel or numbers in the queue, looked at in the order they move."""
    run = ARun(dump, root)
    rule = "reports queued updates until they are taken"
    if run.err is not None: return ob.add(run, rule, undecided(run))
    def f(p):
        if p.events("recv", "drained", "ast", "rmw", "mins", "mrem"): return Verdict(OPEN, "more than a look at the queues")
        if not isinstance(p.v, Cond): return Verdict(OPEN, "result not resolved")
        vs = []
        queues = [s for s in p.secs.values() if isinstance(s.before, V) and getattr(s.before, "kind", None) == "set"]
        for st, want in refinements(p, lambda x: p.it.decide(x, p.v)):
            sp = Path.__new__(Path); sp.__dict__.update(p.__dict__); sp.st = st
            chan = next((v for t, v in st.facts.b.items() if isinstance(t, tuple) and t and t[0] == "chan empty"), None)
            terms = [s.before.term for s in queues]
            queue = next((v for t, v in st.facts.b.items() if isinstance(t, tuple) and len(t) == 2 and t[0] == "map empty" and t[1] in terms), None)
            odd = [t for t in st.facts.b if isinstance(t, tuple) and t and t[0] not in ("chan empty", "map empty")] or st.facts.ge or st.facts.ne
            if want:
                vs.append(GOOD if chan is False or queue is False else Verdict(OPEN, "not resolved") if odd else
                          broken_always(p, "updates are reported although none is queued" if chan and queue else "updates are reported without looking whether any is queued"))
            else:
                if chan is False: vs.append(broken(sp, "updates are queued for the next commit and not reported"))
                elif queue is False: vs.append(broken(sp, "notified values wait in the queue and are not reported"))
                elif odd: vs.append(Verdict(OPEN, "not resolved"))
                elif chan is None: vs.append(broken_always(p, "notifications in the channel are not reported"))
                elif queue is None: vs.append(broken_always(p, "notified values that wait in the queue are not reported"))
                else:
                    c = max(i for i, e, h, l in p.events("chempty"))
                    q = max(s.start for s in queues)
                    vs.append(GOOD if c < q else broken_always(p, "the queue is looked at before the channel, so a notification that moves from one to the other in between is not reported"))
        return vs
    hist(ob, run, rule, f)

# ---------------------------------------------------------------- A10: stale buffers
def fields_of(p, v):
    """The parts of a buffer handle."""
    if isinstance(v, Ref): v = p.run.init(v)
    if isinstance(v, Op): v = p.it.as_variant(v, 0)
    return v.f if isinstance(v, Agg) else None
def buffer_roles(ob, dump, root, rule):
    r = slab_roles(dump)
    run = ARun(dump, root)
    if run.err is not None: ob.add(run, rule, undecided(run)); return None, None
    if None in (r.invo, r.inv, r.buffer, r.f_k, r.f_inv, r.f_invo, r.f_buf, r.f_src):
        ob.add(run, rule, Verdict(OPEN, "the parts of the allocator are not resolved")); return None, None
    return r, run
def staleness(ob, dump, root, which):
    """Queries of a handle against the allocator's counters."""
    rule = {"invalid": "invalid exactly when the buffer was replaced", "valid": "valid exactly when the buffer was not replaced", "new": "new exactly when created by the latest commit"}[which]
    r, run = buffer_roles(ob, dump, root, rule)
    if r is None: return
    def f(p):
        h = fields_of(p, run.args["b"])
        if h is None or not isinstance(p.v, Cond): return Verdict(OPEN, "not resolved")
        k, cell = h[r.f_k], h[r.f_invo if which == "new" else r.f_inv].obj
        look = [(e[3]) for _, e, _, _ in p.events("ald") if e[1] == cell]
        if p.events("ast", "rmw"): return Verdict(OPEN, "changes counters")
        if not look: return broken_always(p, "does not look at the allocator's counter") if not has_lost(p.v) else Verdict(OPEN, "not resolved")
        if len(look) > 1: return Verdict(OPEN, "looks at the counter several times")
        x, vs = look[0], []
        for st, yes in refinements(p, lambda s: p.it.decide(s, p.v)):
            st.facts = st.facts.with_ge(x - k)          # counters only grow
            if st.facts.contradictory(): continue
            same_ = yes if which != "invalid" else not yes
            vs.append(holds(p.it, st, cge(k - x)) if same_ else holds(p.it, st, cge(x - k - 1)))
        return vs
    hist(ob, run, rule, f)
def buf_invalid(ob, dump, root): staleness(ob, dump, root, "invalid")
def buf_valid(ob, dump, root): staleness(ob, dump, root, "valid")
def buf_new(ob, dump, root): staleness(ob, dump, root, "new")
def buf_parts(ob, dump, root):
    """The creation time and the buffer itself."""
    rule = "the handle's own creation time" if root.endswith("creation_time") else "the handle's own buffer"
    r, run = buffer_roles(ob, dump, root, rule)
    if r is None: return
    def f(p):
        h = fields_of(p, run.args["b"])
        if h is None: return Verdict(OPEN, "not resolved")
        if root.endswith("creation_time"): return same(p.it, p.st, p.v, h[r.f_k])
        if not isinstance(p.v, Ref) or p.v.p: return Verdict(OPEN, "result not resolved")
        return GOOD if p.v.c == h[r.f_buf].obj else broken(p, "refers to another buffer")
    hist(ob, run, rule, f)
def buf_sync(ob, dump, root):
    """Synchronising makes a stale handle the current one and leaves others alone."""
    rule = "a stale handle becomes the current one, others stay"
    r, run = buffer_roles(ob, dump, root, rule)
    if r is None: return
    def f(p):
        h = fields_of(p, run.args["b"])
        if h is None or not isinstance(p.v, Cond): return Verdict(OPEN, "not resolved")
        k, cell, src = h[r.f_k], h[r.f_inv].obj, h[r.f_src].obj
        now = fields_of(p, run.at_end(p.st, run.args["b"]))
        if now is None: return Verdict(OPEN, "not resolved")
        look = [(i, e[3]) for i, e, _, _ in p.events("ald") if e[1] == cell]
        secs = [(u, s) for u, s in p.secs.items() if s.cell == src]
        vs = []
        if any(s.after != s.before for u, s in secs): vs.append(broken(p, "the allocator's own buffer changes"))
        same_ = tuple(now) == tuple(h)
        cur = [current(p, s) for u, s in secs]
        if not look and not secs: return broken_always(p, "does not look at the allocator's counter")
        if not look and cur[0] is None: return Verdict(OPEN, "not resolved")
        x = look[0][1] if look else cur[0][r.f_k]
        for st, yes in refinements(p, lambda s: p.it.decide(s, p.v)):
            st.facts = st.facts.with_ge(x - k)
            if st.facts.contradictory(): continue
            sp = Path.__new__(Path); sp.__dict__.update(p.__dict__); sp.st = st
            if yes:
                vs.append(holds(p.it, st, cge(x - k - 1)))
                if same_: vs.append(broken(sp, "reports an update but keeps the old buffer")); continue
                cur = [current(p, s) for u, s in secs]
                if len(cur) != 1 or cur[0] is None: vs.append(Verdict(OPEN, "the current buffer is not resolved")); continue
                for n, what in ((r.f_k, "creation time"), (r.f_buf, "buffer")):
                    vs.append(GOOD if now[n] == cur[0][n] else Verdict(OPEN, "not resolved") if has_lost(now[n]) else broken(sp, "the %s is not the current one's" % what))
            else:
                vs.append(holds(p.it, st, cge(k - x)))
                vs.append(GOOD if same_ else broken(sp, "the handle changes although it is reported not to"))
        return vs
    hist(ob, run, rule, f)
    rule = "no schedule makes synchronising fail"
    vs = []
    for st, msg, fname, span, definite in run.it.panics:
        st = st.copy()
        p = Path(run, st, None)
        h = fields_of(p, run.args["b"])
        if h is None: continue
        secs = [(u, s, current(p, s)) for u, s in p.secs.items() if s.cell == h[r.f_src].obj]
        if any(st.facts.disc.get(("acq", u)) == 0 for u, s, c in secs): continue        # handles exist once there is a buffer
        f, last = st.facts, None
        for i, e, hold, l in p.events("ald", "lock"):
            if e[0] == "ald" and (e[1] == h[r.f_inv].obj or any(c and e[1] == c[r.f_inv].obj for _, _, c in secs)):
                f = f.with_ge(e[3] - h[r.f_k])
                if last is not None: f = f.with_ge(e[3] - last)
                last = e[3]
                for u, s, c in secs:
                    if c is None: continue
                    if i < s.start: f = f.with_ge(c[r.f_k] - e[3])
                    elif u in hold: f = f.with_eq(c[r.f_k] - e[3])
                    else: f = f.with_ge(e[3] - c[r.f_k])
        st.facts = f
        if f.contradictory(): vs.append(GOOD); continue
        vs.append(refute(run.it, st, lambda e: True, "fails in %s (%s) when another commit comes in between" % (fname, span)))
    ob.all(run, rule, vs or [GOOD])
def current(p, s):
    """The parts of the allocator's buffer in a critical section."""
    v = s.before
    if isinstance(v, Op): v = p.it.as_variant(v, 1)
    return fields_of(p, v.f[0]) if isinstance(v, Agg) and v.v == 1 and v.f else None
def invalidates(ob, dump, root):
    """A commit that replaces the buffer says so while nobody can look at the replacement, and counts up."""
    rule = "invalidates old handles exactly when the buffer is replaced"
    r, run = buffer_roles(ob, dump, root, rule)
    if r is None: return
    def f(p):
        if not isinstance(p.v, Agg): return Verdict(OPEN, "returned buffer not resolved")
        vs = []
        counts = [(i, e) for i, e, h, l in p.events("rmw", "ast") if place(e[1]) == r.invo]
        if len(counts) != 1 or counts[0][1][0] != "rmw" or not isinstance(counts[0][1][4], Poly): return Verdict(OPEN, "commits are not counted in one step") if counts else broken(p, "commits are not counted")
        vs.append(holds(p.it, p.st, cge(counts[0][1][4] - counts[0][1][3] - 1)))
        t = counts[0][1][4]
        made = rts(p, "buffer_create")
        marks = [(i, e, h) for i, e, h, l in p.events("rmw", "ast") if place(e[1]) == r.inv]
        if not made:
            if marks: vs.append(broken_idle(p, "handles are invalidated although the buffer stays"))
            return vs
        puts = [(u, s) for u, s in p.secs.items() if place(s.cell) == r.buffer and s.mode in ("w", "m") and s.after != s.before]
        if len(puts) != 1: return vs + [Verdict(OPEN, "where the buffer is replaced is not resolved")]
        u, s = puts[0]
        if not marks: return vs + [broken_always(p, "old handles are not invalidated")]
        if len(marks) > 1: return vs + [Verdict(OPEN, "invalidated several times")]
        i, e, h = marks[0]
        x = e[3] if e[0] == "ast" else e[4]
        if not isinstance(x, Poly): return vs + [Verdict(OPEN, "invalidation not resolved")]
        if u not in h: vs.append(broken_always(p, "handles are invalidated %s the replacement is available" % ("before" if i < s.start else "after")) if i < s.start else
                                 broken_always(p, "the replacement is available before old handles are invalidated"))
        vs.append(same(p.it, p.st, x, t))
        for what, v in (("returned", p.v), ("kept", s.after.f[0] if isinstance(s.after, Agg) and s.after.f else None)):
            g = fields_of(p, v) if v is not None else None
            if what == "kept" and isinstance(s.after, Agg) and s.after.v == 0: vs.append(broken_idle(p, "the replacement is not kept, so handles cannot become current")); continue
            if g is None: vs.append(Verdict(OPEN, "%s buffer not resolved" % what)); continue
            k = g[r.f_k]
            own = [j for j, y, _, _ in p.events("ald") if place(y[1]) == r.inv and y[3] == k]
            if own: vs.append(GOOD if min(own) > i else broken_always(p, "the %s buffer has the creation time of the old one" % what))
            else: vs.append(same(p.it, p.st, k, x))
            for n, pl, name in ((r.f_inv, r.inv, "invalidations"), (r.f_invo, r.invo, "commits"), (r.f_src, r.buffer, "current buffer")):
                y = g[n]
                if not isinstance(y, Arc): vs.append(Verdict(OPEN, "%s buffer not resolved" % what))
                elif place(y.obj) != pl: vs.append(broken_idle(p, "the %s buffer does not see the allocator's %s" % (what, name)))
        return vs
    hist(ob, run, rule, f)
def others_keep_buffer(ob, dump, root):
    """Nothing but a commit replaces or invalidates the buffer."""
    rule = "leaves the current buffer and its validity alone"
    r, run = buffer_roles(ob, dump, root, rule)
    if r is None: return
    def f(p):
        for i, e, h, l in p.events("rmw", "ast"):
            if place(e[1]) in (r.inv, r.invo) and not (e[0] == "rmw" and e[3] == e[4]): return broken(p, "buffers are invalidated outside of a commit")
        for s in p.secs.values():
            if place(s.cell) == r.buffer and s.after != s.before: return broken(p, "the current buffer changes outside of a commit")
        return GOOD
    hist(ob, run, rule, f)
def buf_current(ob, dump, root):
    """Asking for the buffer gives the current one."""
    rule = "gives the current buffer"
    r, run = buffer_roles(ob, dump, root, rule)
    if r is None: return
    def f(p):
        secs = [s for s in p.secs.values() if place(s.cell) == r.buffer]
        if len(secs) != 1: return Verdict(OPEN, "not resolved") if secs else broken(p, "the current buffer is not looked at")
        b = secs[0].before
        if isinstance(b, Op) and isinstance(p.v, Agg):
            d = p.st.facts.disc.get(b.t)
            if p.v.v == 0: return GOOD if d == 0 else broken(p, "no buffer is given although there is one") if d == 1 else Verdict(OPEN, "not resolved")
            c, g = current(p, secs[0]), fields_of(p, p.v.f[0])
            if d != 1 or c is None or g is None: return Verdict(OPEN, "not resolved")
            return GOOD if tuple(c) == tuple(g) else Verdict(OPEN, "not resolved") if any(map(has_lost, g)) else broken(p, "gives another buffer than the current one")
        return same(p.it, p.st, p.v, b)
    hist(ob, run, rule, f)

# ---------------------------------------------------------------- A12: locks
def lock_class(cls, cell=None):
    """Which lock of the library this is, by what it protects (and where it is kept, when that says little)."""
    if cell is not None and not re.search(r"SlabBuffer|RangeManager|WeakGpuRef|SlabUpdate|Vec<|^T$", cls):
        hit = []
        visit(place(cell), lambda t: hit.append(t[3]) if isinstance(t, tuple) and len(t) == 4 and t[0] == "fld" and isinstance(t[3], str) else None)
        return lock_class(cls) + (" " + hit[0] if hit else "")
    c = re.sub(r"SlabBuffer<.*>", "SlabBuffer<_>", cls)
    return re.sub(r"\b(\w+::)+", "", re.sub(r", std::hash::BuildHasherDefault<[^<>]*>", "", c))
def own_lock(c):
    """One per allocator (the others are one per value or buffer)."""
    return c not in ("T", "Vec<T>", "Vec<u32>") and "SlabUpdate" not in c
def lock_uses(dump, root):
    """(edges between locks: class held, class taken, gates, text), locks taken again while held, undecided reason."""
    run = ARun(dump, root)
    edges, again = {}, []
    for st in [s for s, _ in run.outs or []] + [x[0] for x in run.it.panics] if run.err is None else []:
        if st.facts.contradictory(): continue
        secs = {}
        for e, h, l in walk(st.ev):
            if e[0] != "lock": continue
            secs[e[4]] = e
            b = lock_class(e[5], e[2])
            for u in h:
                o = secs.get(u)
                if o is None: continue
                a = lock_class(o[5], o[2])
                if "try" in (o[1], e[1]): continue
                text = "%s holds %s (taken in %s, %s) and takes %s (in %s, %s)" % (root, a, o[6], short(o[7]), b, e[6], short(e[7]))
                if (o[2], o[3]) == (e[2], e[3]) or a == b and own_lock(a): again.append((st, text, o[1] == e[1] == "r"))
                elif a != b:
                    gates = frozenset(x for x in (lock_class(secs[g][5], secs[g][2]) for g in h if g != u and g in secs and secs[g][1] in ("m", "w")) if own_lock(x))
                    edges.setdefault((a, b), {}).setdefault(gates, text)
    return run, edges, again
def short(span): return str(span).replace("/repo/", "")
def self_lock(ob, dump, root):
    """No lock is taken while it is held."""
    run, edges, again = lock_uses(dump, root)
    rule = "takes no lock that it holds"
    if run.err is not None: return ob.add(run, rule, undecided(run))
    vs = [Verdict(OPEN, "not analysed: %s" % run.unclear())] if run.unclear() else [GOOD]
    for st, text, shared in again:
        if infeasible_choice(st.facts): vs.append(Verdict(OPEN, text))
        else: vs.append(Verdict(REFUTED, text))
    ob.all(run, rule, [v for v in vs if v.status == REFUTED] or vs)
def lock_order(ob, dump, root):
    """All locks of the library are taken in one order."""
    edges, unclear = {}, []
    run = None
    for r in sorted(load_index(dump)):
        if not r.startswith("alloc::") or r.startswith("alloc::ranges"): continue
        x, es, _ = lock_uses(dump, r)
        if x.err is not None or x.unclear(): unclear.append(r)
        for k, g in es.items():
            for gates, text in g.items(): edges.setdefault(k, {}).setdefault(gates, text)
        if r == root: run = x
    bad = []
    nodes = sorted({a for a, b in edges} | {b for a, b in edges})
    def go(path, gates, texts):
        for (a, b), g in edges.items():
            if a != path[-1]: continue
            for gs, text in g.items():
                # all of it under one lock that excludes others
                common = [x for x in gs if all(x in y for y in gates)]
                if gates and common: continue
                if b == path[0]: bad.append(texts + [text])
                elif b not in path and b > path[0] and len(path) < 6: go(path + [b], gates + [gs], texts + [text])
    for n in nodes: go([n], [], [])
    seen, vs = set(), []
    for ts in bad:
        k = frozenset(ts)
        if k in seen: continue
        seen.add(k); vs.append(Verdict(REFUTED, "; ".join(ts)))
    if not vs:
        vs = [Verdict(PROVED, "%d pairs" % len(edges))] * max(1, len(edges)) if not unclear else [Verdict(OPEN, "not analysed: " + ", ".join(unclear))]
    ob.all(run, "any two locks are always taken in the same order", vs[:3] if bad else vs)

# ---------------------------------------------------------------- small clients: several operations one after the other
def client(ob, dump, root, rule, f, seqs=("x", "y", "values"), total=False, cuts=None):
    """One obligation over a client that calls several operations in turn, with nobody else around."""
    def pre(r):
        cs = []
        for n, t in (("x", "T"), ("values", "T"), ("y", "S")):
            v = r.args.get(n)
            if v is None: continue
            if isinstance(v, Ref): v = r.it.load(r.st0.copy(), v)
            if isinstance(v, VecV): v = v.seq
            s = size_atom(t)
            if any(isinstance(v, k) for k in (Seq,)): cs += [cge(P((1 << 30)) - s * v.n), cge(P(1 << 30) - v.n)]
            cs += [cge(s - 1), cge(P(1 << 30) - s)]
        return cs
    run = ARun(dump, root, pre, conc=False, cuts=cuts)
    if run.err is not None: return ob.add(run, rule, undecided(run))
    if total and not run.unclear():
        for st, msg, fname, span, definite in run.it.panics:
            if st.facts.contradictory(): continue
            p = Path(run, st, None)
            v = broken(p, "panics: %s in %s" % (msg, fname))
            if v.status == REFUTED: return ob.add(run, rule, v)
    if not run.outs: return ob.add(run, rule, Verdict(OPEN, "no path reaches the end"))
    hist(ob, run, rule, f)
ADDS = {k: v for k, v in CUTS.items() if k.endswith("add_range")}
def tuple_of(p, n): return p.v.f if isinstance(p.v, Agg) and len(p.v.f) == n else None
def given(run, n, ty="T"): return Op(("p", n), ty)
def extent_of(v):
    """(first slot, slots) of an id or an array."""
    if not isinstance(v, Agg) or not v.f: return None
    m = re.match(r"crabslab::(Id|Array)<(.*)>$", v.ty)
    if not m or not isinstance(v.f[0], Poly): return None
    s = P(1) if m.group(2) == "u32" else size_atom(m.group(2))
    if m.group(1) == "Id": return v.f[0], s, None
    return (v.f[0], s * v.f[1], v.f[1]) if isinstance(v.f[1], Poly) else None
def has_slots(p, *xs):
    """The path where all of these have slots."""
    q = p.st.copy()
    for a, n, k in xs:
        if k is not None: q.facts = q.facts.with_ge(n - 1).with_ge(k - 1)
    return with_state(p, q)
def client_apart(ob, dump, root):
    def f(p):
        t = tuple_of(p, 2)
        a, b = (extent_of(t[0]), extent_of(t[1])) if t else (None, None)
        if a is None or b is None: return Verdict(OPEN, "result not resolved")
        q = has_slots(p, a, b)
        if q.st.facts.contradictory(): return GOOD
        fs = q.st.facts
        if fs.entails(b[0] - a[0] - a[1]) or fs.entails(a[0] - b[0] - b[1]): return GOOD
        return refute(p.it, q.st, lambda e: e.poly(a[0] + a[1]) > e.poly(b[0]) and e.poly(b[0] + b[1]) > e.poly(a[0]), "two values share slots")
    client(ob, dump, root, "values made one after the other have slots of their own", f)
def client_room(ob, dump, root):
    def f(p):
        made = rts(p, "buffer_create")
        if not made: return broken(p, "the first commit creates no buffer")
        n = made[-1][1][2][1]
        if not isinstance(n, Poly): return Verdict(OPEN, "capacity not resolved")
        vs = [GOOD if p.st.facts.entails(n - 1) else refute(p.it, p.st, lambda e: e.poly(n) < 1, "the buffer is empty")]
        t = tuple_of(p, 2)
        if t is not None and extent_of(t[0]) is not None:
            a = extent_of(t[0])
            q = has_slots(p, a)
            if not q.st.facts.contradictory(): vs.append(holds(p.it, q.st, cge(n - a[0] - a[1])))
        return vs
    client(ob, dump, root, "the buffer of a commit has room for what was made before", f, total="fresh" in root, cuts=ADDS)
def same_buffer(p, a, b):
    """Do two handles of buffers agree?"""
    if not (isinstance(a, Agg) and isinstance(b, Agg)): return Verdict(OPEN, "result not resolved")
    if a == b: return GOOD
    if any(has_lost(x) for x in a.f + b.f) or not all(isinstance(x, (Arc, Poly)) for x in a.f + b.f): return Verdict(OPEN, "result not resolved")
    return broken(p, "the handles are of different buffers or times")
def client_buffers(ob, dump, root):
    name = root.split("::")[-1]
    def f(p):
        made = rts(p, "buffer_create")
        if name in ("fresh_commit_twice", "clone_commits"):
            t = tuple_of(p, 2)
            if t is None: return Verdict(OPEN, "result not resolved")
            return [same_buffer(p, *t)] + [GOOD if len(made) == 1 else broken(p, "the second commit makes another buffer" if made else "no buffer is made")]
        if name == "commit_get":
            t = tuple_of(p, 3)
            if t is None or not all(isinstance(x, Agg) for x in t): return Verdict(OPEN, "result not resolved")
            return [GOOD if t[0].v == 0 else broken(p, "there is a buffer before the first commit"), same_buffer(p, t[1], t[2].f[0]) if t[2].v == 1 else broken(p, "there is no buffer after a commit")]
        if name in ("first_is_new", "second_is_not_new", "kept_is_old"):
            t = tuple_of(p, 3)
            if t is None: return Verdict(OPEN, "result not resolved")
            want = {"first_is_new": (TRUE, TRUE, FALSE)}.get(name, (FALSE, TRUE, FALSE))
            return [truths(p, x, y == TRUE, what) for x, y, what in zip(t, want, ("is_new_this_commit", "is_valid", "is_invalid"))]
        if name == "grown":
            t = tuple_of(p, 4)
            if t is None or not all(isinstance(x, Agg) for x in t) or len(made) not in (1, 2): return Verdict(OPEN, "result not resolved")
            g = len(made) == 2
            return [truths(p, x, y, what) for x, y, what in zip(t[2].f + t[3].f, (g, False, False, g), ("old is_invalid", "old is_new_this_commit", "new is_invalid", "new is_new_this_commit"))] + \
                   ([same_buffer(p, t[0], t[1])] if not g else [broken(p, "the new buffer's handle is like the old one's") if t[0] == t[1] else GOOD])
        if name == "synchronized":
            t = tuple_of(p, 4)
            if t is None or len(made) not in (1, 2): return Verdict(OPEN, "result not resolved")
            return [same_buffer(p, t[0], t[1]), truths(p, t[2], len(made) == 2, "update_if_invalid"), truths(p, t[3], True, "is_valid afterwards")]
        return Verdict(OPEN, "unknown client")
    client(ob, dump, root, "handles of buffers agree with the commits made", f, total=True, cuts=ADDS)
def truths(p, got, want, what):
    if got == (TRUE if want else FALSE): return GOOD
    if got == (FALSE if want else TRUE): return broken(p, "%s is %s" % (what, "false" if want else "true"))
    if not isinstance(got, Cond): return Verdict(OPEN, "result not resolved")
    return holds(p.it, p.st, got if want else cnot(got))
def client_value(ob, dump, root):
    name = root.split("::")[-1]
    def f(p):
        want = given(p.run, "x" if name == "new_get" else "y")
        if name == "gpu_only":
            t = tuple_of(p, 2)
            return same(p.it, p.st, t[0], t[1]) if t else Verdict(OPEN, "result not resolved")
        if name == "weak_get":
            if not isinstance(p.v, Agg): return Verdict(OPEN, "result not resolved")
            if p.v.v == 0: return Verdict(OPEN, "a handle that is alive is not found")
            return same(p.it, p.st, p.v.f[0], want)
        return same(p.it, p.st, p.v, want)
    client(ob, dump, root, "a value is read as it was last set, through every handle", f)
def client_queue(ob, dump, root):
    """What is queued after several operations on one value, slot by slot."""
    name = root.split("::")[-1]
    array = name.startswith("array")
    sets = {"array_sets_queued": (("i", "y"), ("j", "z"))}.get(name, (("i", "y"),))
    def f(p):
        run = p.run
        h = created(p)
        q = queue_final(p, h.queue) if h else None
        if q is None: return Verdict(OPEN, "the handle is not resolved")
        q = q.seq
        m = value_of(p, q.n)
        if m is None: return Verdict(OPEN, "the length of the queue is not resolved")
        us = [update_parts(p.it.seq_get(p.st, q, P(k))) for k in range(m)]
        if None in us: return Verdict(OPEN, "queued update not resolved")
        at, size = region(h)
        ety = us[0][2].ety if us else None
        seq = values_seq(run) if array else None
        if not us:
            if not array: return broken(p, "no update is queued")
            if p.st.facts.entails_eq(seq.n): return GOOD
            return refute(p.it, p.st, lambda e: e.poly(size) > 0, "no update is queued")
        # the updates that were asked for, newest first; with and without each index in range
        want = [[(at, size, enc_all(run, seq, ety) if array else enc_one(run, given(run, "y"), ety))]]
        p.st.facts = p.st.facts.with_ge(P((1 << 32) - 2) - at - size).with_ge(P((1 << 32) - 2) - at).with_ge(P((1 << 32) - 2) - size)
        if p.st.facts.contradictory(): return []
        cases = [(p.st, want[0])]
        for i, y in (sets if array else ()):
            k = run.args[i]
            nxt = []
            for st, w in cases:
                a, b = st.copy(), st.copy()
                for g in (seq.n - k - 1, (seq.n - k - 1) * S_T): a.facts = a.facts.with_ge(g)
                b.facts = b.facts.with_ge(k - seq.n)
                if not a.facts.contradictory(): nxt.append((a, [(at + k * S_T, S_T, enc_one(run, given(run, y), ety))] + w))
                if not b.facts.contradictory(): nxt.append((b, w))
            cases = nxt
        vs = []
        for st, w in cases:
            pp = with_state(p, st)
            got = us[::-1]
            if len(got) == len(w) or not array:
                same_all = [same(p.it, st, x, y) for u, v in zip(got, w) for x, y in zip(u, v)]
                if all(v.status == PROVED for v in same_all) and (len(got) == len(w) or len(w) == 1): vs.append(GOOD); continue
            def wrong(e):
                a, n = e.poly(at), e.poly(size)
                return any(slot_at(e, got, x) != slot_at(e, w, x) for x in range(a, a + min(n, 12))) or any(e.poly(u[1]) > 0 and not a <= e.poly(u[0]) < a + n for u in got)
            small = []
            for kk in itertools.product((0, 1, 2), repeat=len(sets)) if array else ((),):
                y = st.copy()
                y.facts = y.facts.with_eq(S_T - 2)
                if array: y.facts = y.facts.with_eq(seq.n - 3).with_eq(size - 6)
                for (i, _), c in zip(sets, kk): y.facts = y.facts.with_eq(run.args[i] - c).with_eq(run.args[i] * S_T - 2 * c)
                if y.facts.contradictory(): continue
                small.append(refute(p.it, y, wrong, "a slot is not queued with the value that was set last"))
                if small[-1].status == REFUTED: break
            vs += [v for v in small if v.status == REFUTED] or [Verdict(OPEN, "what is queued is not resolved")]
        return vs
    client(ob, dump, root, "every slot is queued with the value that was set last", f)
def value_of(p, n):
    if n.is_const(): return n.value()
    for m in range(5):
        if p.st.facts.entails_eq(n - m): return m
    return None
def client_array(ob, dump, root):
    name = root.split("::")[-1]
    def f(p):
        seq = values_seq(p.run)
        i, j = p.run.args.get("i"), p.run.args.get("j")
        if seq is None: return Verdict(OPEN, "values not resolved")
        def item(k): return p.it.mk(("el", seq.base, k), seq.ety)
        def option(q, got, k, want):
            """got == Some(want) exactly when k is an index"""
            if not isinstance(got, Agg): return Verdict(OPEN, "result not resolved")
            if got.v == 0: return holds(q.it, q.st, cge(k - seq.n))
            return [holds(q.it, q.st, cge(seq.n - k - 1)), same(q.it, q.st, got.f[0], want)]
        def flat(x): return x if isinstance(x, list) else [x]
        if name == "array_get": return option(p, p.v, i, item(i))
        if name == "array_set_get": return option(p, p.v, i, given(p.run, "y"))
        if name == "array_set_other":
            t = tuple_of(p, 2)
            if not t: return Verdict(OPEN, "result not resolved")
            a, b = p.st.copy(), p.st.copy()
            a.facts = a.facts.with_eq(i - j); b.facts = b.facts.with_ne(i - j)
            out = []
            if not a.facts.contradictory(): out += flat(option(with_state(p, a), t[1], j, given(p.run, "y")))
            if not b.facts.contradictory(): out += flat(option(with_state(p, b), t[1], j, item(j)))
            return out
        if name == "array_ids":
            t = tuple_of(p, 3)
            if not t or not isinstance(t[1], Agg) or not isinstance(t[2], Agg): return Verdict(OPEN, "result not resolved")
            out = [same(p.it, p.st, t[0], seq.n), same(p.it, p.st, t[1].f[1], seq.n)]
            q = p.st.copy(); q.facts = q.facts.with_ge(seq.n - i - 1).with_ge(seq.n * S_T - i * S_T - S_T)
            if not q.facts.contradictory(): out.append(same(p.it, q, t[2].f[0], t[1].f[0] + i * S_T))
            return out
        if name == "array_get_vec":
            s = p.v.seq if isinstance(p.v, VecV) else None
            if s is None: return Verdict(OPEN, "result not resolved")
            out = [same(p.it, p.st, s.n, seq.n)]
            if out[0].status != PROVED: return out
            k = Poly.atom(("a", "k", "nat", (0, "any")))
            q = p.st.copy(); q.facts = q.facts.with_ge(k).with_ge(seq.n - k - 1)
            if q.facts.contradictory(): return out
            def alike(st):
                return eq(p.it, st, p.it.seq_get(st, s, k), item(k))
            try: r = split(p.it, q, alike)
            except Stop: r = None
            return out + [GOOD if r is True else Verdict(OPEN, "elements not resolved")]
        return Verdict(OPEN, "unknown client")
    client(ob, dump, root, "elements are read as they were last set", f)
