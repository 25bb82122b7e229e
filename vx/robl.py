"""Obligations about the runtimes: the CPU reference buffer and the GPU transfers."""
from aobl import *
from gmodels import buf_size, quarter

U64 = 1 << 64
# ---------------------------------------------------------------- ranges
COMBOS = [(a, b) for a in range(3) for b in range(3)]
BOUND = ("included", "excluded", "missing")
def combo_name(c): return "start %s, end %s" % (BOUND[c[0]], BOUND[c[1]])
def bounds_as(run, combo, end, arg="range"):
    """Fixes the kinds of the two bounds; gives the half-open interval they denote."""
    it, st = run.it, run.st0
    r = run.args[arg]
    if not isinstance(r, Agg) or len(r.f) != 2: raise Undecided("the range is not a pair of bounds")
    out = []
    for b, vi in zip(r.f, combo):
        st.facts = st.facts.with_disc(b.t, vi)
        v = it.as_variant(b, vi)
        name = it.ty(it.tyi(b.ty))["variants"][vi][0]
        out.append((name, v.f[0] if v.f else None))
    (a, x), (b, y) = out
    lo = {"Included": lambda: x, "Excluded": lambda: x + 1, "Unbounded": lambda: P(0)}[a]()
    hi = {"Included": lambda: y + 1, "Excluded": lambda: y, "Unbounded": lambda: end}[b]()
    run.lo, run.hi = lo, hi
    return [cge(hi - lo), cge(end - hi), cge(P((1 << 32) - 1) - end)]
def mx_content(v):
    """What the lock inside a structure protects."""
    if isinstance(v, Mx): return v.val
    if isinstance(v, Agg):
        for x in v.f:
            r = mx_content(x)
            if r is not None: return r
    return None
def content(run, arg, st=None):
    v = run.init(run.args[arg]) if st is None else run.at_end(st, run.args[arg])
    f = find_seq(mx_content(v))
    return f[1] if f else None
def ok_seq(v):
    """The sequence of a successful result."""
    if not isinstance(v, Agg) or v.v != 0 or not v.f: return None
    f = find_seq(v.f[0])
    return f[1] if f else None

# ---------------------------------------------------------------- A15: the CPU runtime
def cpu_create(ob, dump, root):
    run = Run(dump, root, lambda r: [cge(P((1 << 32) - 1) - r.args["capacity"])])
    def f(st, v):
        q = find_seq(mx_content(v))
        if q is None: return Verdict(OPEN, "buffer not resolved")
        return same(run.it, st, q[1], Seq(run.args["capacity"], ("fill", P(0)), (), q[1].ety))
    paths(ob, run, "a new buffer has the requested capacity and holds zeros", f)
    no_panic(ob, run)
def cpu_copy(ob, dump, root):
    def pre(r):
        s, d = content(r, "source"), content(r, "destination")
        return [cge(d.n - s.n), cge(P((1 << 32) - 1) - d.n)]
    run = Run(dump, root, pre)
    if run.err is not None: return ob.add(run, "copy", undecided(run))
    s, d = content(run, "source"), content(run, "destination")
    def f(st, v):
        got = content(run, "destination", st)
        if got is None: return Verdict(OPEN, "buffer not resolved")
        return same(run.it, st, got, run.it.seq_copy(st.copy(), d, P(0), s, P(0), s.n))
    paths(ob, run, "the whole source is at the start of the destination, the rest is untouched", f)
    paths(ob, run, "the source is left as it was", lambda st, v: same(run.it, st, content(run, "source", st), s))
    no_panic(ob, run)
def some_updates(N, limit=None):
    """Exactly N updates, of any sizes, that fit."""
    def pre(run):
        it = run.it
        a = "updates"
        ti = run.tix[a]
        ety = it.ty(ti)["args"][0]
        run.rs = [it.mk(("spec", "update", i), ety) for i in range(N)]
        run.us = [update_of(run, r) for r in run.rs]
        if any(u is None for u in run.us): raise Undecided("updates not resolved")
        seq = Seq(P(N), ("fill", P(0)), tuple(Ent("el", P(i), P(1), r, None, None) for i, r in enumerate(run.rs)), ety)
        run.replace(a, VecV(seq, P(N)))
        cs = []
        for i, n, q in run.us: cs += [ceq(q.n - n), cge(P((1 << 32) - 2) - i - n)] + (limit(run, i + n) if limit else [])
        return cs
    return pre
OVER_UPDATES = "buffer_write|SlabUpdate"     # loops over the updates
SIZES = (0, 1, 2, 3) if THOROUGH else (0, 1, 2)
def cpu_write(ob, dump, root):
    """Updates are written in order, each at its own slots."""
    rule = "every slot holds the value of the last update that covers it, or its old value"
    vs, last = [], None
    for N in SIZES:
        run = last = Run(dump, root, some_updates(N, lambda r, end: [cge(content(r, "buffer").n - end)]), dict(unroll=(N + 2, OVER_UPDATES)))
        if run.err is not None: vs.append(undecided(run)); continue
        old = content(run, "buffer")
        def f(st, v):
            got = content(run, "buffer", st)
            if got is None: return Verdict(OPEN, "buffer not resolved")
            s0 = st.copy(); s0.facts = s0.facts.with_ge(X).with_ge(old.n - X - 1)
            if s0.facts.contradictory(): return Verdict(PROVED)
            r = split(run.it, s0, lambda s: (lambda w: eq(run.it, s, run.it.seq_get(s, got, X), w if w is not None else run.it.seq_get(s, old, X)))(slot_of(run.it, s, run.us[::-1], X)))
            if r is True: return same(run.it, st, got.n, old.n)
            def differs(e):
                x = e.poly(X)
                w = slot_at(e, run.us[::-1], x)
                return e.elem(got, x) != (w if w is not None else e.elem(old, x))
            return refute(run.it, s0, differs, "a slot does not hold what the updates say")
        for st, v in run.outs:
            if st.facts.contradictory(): continue
            try: vs.append(f(st, v))
            except (Fork, Undecided, Stop) as x: vs.append(Verdict(OPEN, "comparison not resolved: %s" % (x,)))
        for st, msg, fname, span, definite in run.it.panics:
            if not st.facts.contradictory(): vs.append(refute(run.it, st, lambda e: True, "%s in %s (%s)" % (str(msg).split(" ")[0], fname, span)))
    ob.all(last, rule, vs)
    # any number of updates
    run = Run(dump, root)
    if run.err is not None: return ob.add(run, "for any number of updates", undecided(run))
    def g(st, v):
        got = content(run, "buffer", st)
        old = content(run, "buffer")
        if got is None or len(got.log) != 1 and got != old: return Verdict(OPEN, "not resolved in general; decided for up to %d updates" % SIZES[-1])
        if got == old: return GOOD if st.facts.entails_eq(run.args["updates"].seq.n) else Verdict(OPEN, "not resolved in general")
        e = got.log[0]
        k = Poly.atom(e.k) if e.k else None
        u = run.args["updates"].seq
        if k is None: return Verdict(OPEN, "not resolved in general")
        x = update_of(run, run.it.seq_get(st.copy(), u, k))
        want = Seq(old.n, old.base, old.log + (Ent("copy", x[0], x[2].n, (x[2], P(0)), e.k, u.n),), old.ety)
        return GOOD if eq(run.it, st.copy(), got, want) is True else Verdict(OPEN, "not resolved in general")
    paths(ob, run, "for any number of updates: written in order, each update's elements from its own first slot", g)
def cpu_read(ob, dump, root):
    vs, last = [], None
    for c in COMBOS:
        def pre(r):
            n = content(r, "buffer").n
            return bounds_as(r, c, n) + [ceq(n - r.args["len"])]
        run = last = Run(dump, root, pre)
        rule = "reads exactly the slots of the range (%s)" % combo_name(c)
        if run.err is not None: ob.add(run, rule, undecided(run)); continue
        def f(st, v):
            q = content(run, "buffer")
            got = ok_seq(v)
            if got is None: return broken(Path(run, st, v), "reading fails") if isinstance(v, Agg) and v.v == 1 else Verdict(OPEN, "result not resolved")
            return same(run.it, st, got, run.it.seq_sub(q, run.lo, run.hi - run.lo))
        paths(ob, run, rule, f)
        no_panic(ob, run, "no panic (%s)" % combo_name(c))
        paths(ob, run, "leaves the buffer alone (%s)" % combo_name(c), lambda st, v: same(run.it, st, content(run, "buffer", st), content(run, "buffer")))
def cpu_view(ob, dump, root):
    run = Run(dump, root)
    def f(st, v):
        q = find_seq(v)
        return same(run.it, st, q[1], content(run, "b")) if q else Verdict(OPEN, "result not resolved")
    paths(ob, run, "shows exactly the buffer's contents", f)
    no_panic(ob, run)

# ---------------------------------------------------------------- A14: GPU transfers
def events(p, *kinds): return p.events(*kinds)
def grun(dump, root, pre=None, **o): return ARun(dump, root, pre, conc=False, cuts=False, **o)
def deref(run, arg): return run.init(run.args[arg])
STORAGE, COPY_SRC, COPY_DST, MAP_READ = 7, 2, 3, 0
def usage_has(it, p, need, keep=None):
    """(bits needed are set, and those of `keep` are kept): None if not resolved."""
    b = it.to_bits(p, "u32")
    ks = it.to_bits(keep, "u32") if keep is not None else [0] * 32
    missing = [i for i in need if b[i] != 1]
    if any(isinstance(b[i], tuple) and b[i][0] in ("and", "or", "xor", "not") for i in range(32)): return None, missing
    lost = [i for i in range(32) if isinstance(ks[i], tuple) and b[i] not in (1, ks[i])]
    return not missing and not lost, missing or lost
def gpu_create(ob, dump, root):
    run = grun(dump, root, lambda r: [cge(P((1 << 32) - 1) - r.args["capacity"])])
    def f(p):
        made = events(p, "gcreate")
        if len(made) != 1 or made[0][3]: return Verdict(OPEN, "not resolved")
        _, b, size, use, mapped, span = made[0][1]
        if p.v != b: return Verdict(OPEN, "another buffer is returned")
        vs = [same(p.it, p.st, size, 4 * run.args["capacity"])]
        from gmodels import number
        ok, bits = usage_has(p.it, use, (STORAGE, COPY_SRC, COPY_DST), number(run.args["usages"])) if use is not None else (None, None)
        if ok is None: vs.append(Verdict(OPEN, "usages not resolved"))
        elif not ok: vs.append(broken(p, "the buffer lacks the usages with bits %s (%s)" % (bits, short(span))))
        if mapped != FALSE: vs.append(broken(p, "the buffer is created mapped") if mapped == TRUE else Verdict(OPEN, "not resolved"))
        return vs + [GOOD]
    hist(ob, run, "four bytes per slot; storage, copy source and destination, and the requested usages", f)
    no_panic(ob, run)
def submitted(p, enc, after):
    return [i for i, e, h, l in events(p, "gsubmit") if enc in e[1] and i > after and not l]
def gpu_copy(ob, dump, root):
    run = grun(dump, root)
    def f(p):
        s, d = deref(run, "source"), deref(run, "destination")
        copies = [x for x in events(p, "gcopy", "gwrite", "gclear")]
        if not copies: return broken(p, "nothing is copied")
        if len(copies) != 1 or copies[0][1][0] != "gcopy" or copies[0][3]: return Verdict(OPEN, "not resolved")
        i, (_, enc, a, ao, b, bo, n, span), _, _ = copies[0]
        if (a, b) == (d, s): return broken(p, "copies from the destination to the source")
        if (a, b) != (s, d): return Verdict(OPEN, "not resolved")
        vs = [same(p.it, p.st, ao, P(0)), same(p.it, p.st, bo, P(0)), same(p.it, p.st, n, buf_size(s))]
        if not submitted(p, enc, i): vs.append(broken(p, "the copy is never submitted"))
        return vs
    hist(ob, run, "copies all bytes of the source to the start of the destination and submits the copy", f)
    no_panic(ob, run)
def gpu_write(ob, dump, root):
    rule = "every update's elements go to four bytes per slot from its own first slot, in order"
    vs, last = [], None
    for N in SIZES:
        run = last = grun(dump, root, some_updates(N), unroll=(N + 2, OVER_UPDATES))
        u = run.unclear()
        if u: vs.append(Verdict(OPEN, u)); continue
        def f(p):
            ws = events(p, "gwrite")
            if any(l for _, _, _, l in ws) or events(p, "gcopy", "gclear"): return [Verdict(OPEN, "not resolved")]
            got = []
            for _, (_, b, off, data, span), _, _ in ws:
                if b != deref(run, "buffer"): return [broken(p, "another buffer is written")] if isinstance(b, Op) else [Verdict(OPEN, "not resolved")]
                if not (isinstance(data.base, tuple) and data.base[0] == "bytes" and not data.log): return [Verdict(OPEN, "data not resolved")]
                q = data.base[1]
                o = quarter(off)
                got.append((o, q.n, q, off))
            if any(o is None for o, _, _, _ in got):
                if len(got) != N: return [Verdict(OPEN, "not resolved")]
                return [same(p.it, p.st, off, 4 * w[0]) for (_, _, _, off), w in zip(got, run.us)]
            A, B = [g[:3] for g in got][::-1], run.us[::-1]
            def same_slot(s):
                a, b = slot_of(p.it, s, A, X), slot_of(p.it, s, B, X)
                return a is b if a is None or b is None else eq(p.it, s, a, b)
            if split(p.it, p.st, same_slot) is True: return [GOOD]
            return [refute(p.it, p.st, lambda e: slot_at(e, A, e.poly(X)) != slot_at(e, B, e.poly(X)), "a slot does not get the newest value (%s)" % (short(ws[0][1][4]) if ws else "nothing is written"))]
        for st, v in run.outs:
            if st.facts.contradictory(): continue
            try: vs += f(Path(run, st.copy(), v))
            except (Fork, Undecided, Stop) as x: vs.append(Verdict(OPEN, "comparison not resolved: %s" % (x,)))
        for st, msg, fname, span, definite in run.it.panics:
            if not st.facts.contradictory(): vs.append(refute(run.it, st, lambda e: True, "%s in %s (%s)" % (str(msg).split(" ")[0], fname, span)))
    ob.all(last, rule, vs)
    run = grun(dump, root)
    def g(p):
        no = Verdict(OPEN, "not resolved in general; decided for up to %d updates" % SIZES[-1])
        ws = events(p, "gwrite")
        u = run.args["updates"].seq
        if not ws: return GOOD if p.st.facts.entails_eq(u.n) else no
        if len(ws) != 1 or len(ws[0][3]) != 1: return no
        k, K, _ = ws[0][3][0]
        _, b, off, data, span = ws[0][1]
        x = update_of(run, p.it.seq_get(p.st.copy(), u, Poly.atom(k)))
        if b != deref(run, "buffer") or off != 4 * x[0] or K != u.n: return no
        return GOOD if isinstance(data.base, tuple) and data.base[0] == "bytes" and data.base[1] == x[2] else no
    hist(ob, run, "for any number of updates: the k-th write is the k-th update", g)

def transfers(p):
    """The transfer of a read-back: what was copied where, and the order of its steps."""
    t = Roles()
    ev = events(p, "gcreate", "gcopy", "gsubmit", "gmap", "gpoll", "gview", "await", "send", "gwrite", "gclear")
    for k in ("gcreate", "gcopy", "gsubmit", "gmap", "gpoll", "gview", "await"):
        x = [(i, e) for i, e, h, l in ev if e[0] == k]
        setattr(t, k, x[0] if len(x) == 1 else None)
        setattr(t, k + "s", x)
    t.await_ = getattr(t, "await")
    t.sends = [(i, e) for i, e, h, l in ev if e[0] == "send"]
    t.others = [e for i, e, h, l in ev if e[0] in ("gwrite", "gclear") or l]
    return t
def readback(ob, dump, root, pre, source, region, words, name=""):
    """A read-back of a region: checks the transfer and its failures."""
    run = grun(dump, root, pre)
    def reads(p): return events(p, "gcopy", "gmap", "await")
    def transfer(p):
        t = transfers(p)
        if not reads(p): return None
        if t.others or not all((t.gcreate, t.gcopy, t.gsubmit, t.gmap, t.gpoll)): 
            for k, w in (("gcopys", "nothing is copied"), ("gsubmits", "the copy is never submitted"), ("gmaps", "the copy is never mapped"), ("gpolls", "the device is never waited for")):
                if not getattr(t, k) and not t.others: return broken(p, w)
            return Verdict(OPEN, "not resolved")
        lo, n = region(run, p)
        src = source(run, p)
        _, b, size, use, mapped, cspan = t.gcreate[1]
        _, enc, a, ao, d, do, cn, span = t.gcopy[1]
        if a == b and d == src: return broken(p, "copies into the slab's buffer instead of out of it")
        if d != b or a != src: return Verdict(OPEN, "not resolved")
        vs = [same(p.it, p.st, ao, 4 * lo), same(p.it, p.st, do, P(0)), same(p.it, p.st, cn, 4 * n), same(p.it, p.st, size, 4 * n)]
        ok, bits = usage_has(p.it, use, (COPY_DST, MAP_READ)) if use is not None else (None, None)
        if ok is None: vs.append(Verdict(OPEN, "usages not resolved"))
        elif not ok or [i for i in range(32) if p.it.to_bits(use, "u32")[i] != 0 and i not in (COPY_DST, MAP_READ)]:
            vs.append(broken(p, "the buffer read back from is not just a copy destination that can be mapped (%s)" % short(cspan)))
        if mapped == TRUE: vs.append(broken(p, "the buffer read back from is created mapped"))
        s = t.gmap[1][1]
        if s[1] != b: vs.append(Verdict(OPEN, "another buffer is mapped"))
        elif t.gmap[1][2] != 0: vs.append(broken(p, "not mapped for reading"))
        if enc not in t.gsubmit[1][1]: vs.append(broken(p, "the copy is never submitted"))
        order = [("the copy is recorded", t.gcopy[0]), ("submitted", t.gsubmit[0]), ("mapped", t.gmap[0]), ("waited for", t.gpoll[0])]
        for (x, i), (y, j) in zip(order, order[1:]):
            if i > j: vs.append(broken(p, "the transfer is %s before it is %s" % (y, x)))
        k = t.gpoll[1][1]
        if k[0] == "do not wait": vs.append(broken(p, "the device is polled without waiting"))
        elif k[0] == "wait for" and not (isinstance(k[1], Op) and k[1].t == t.gsubmit[1][2]): vs.append(Verdict(OPEN, "waits for another submission"))
        for i, e in t.gviews:
            if not t.await_ or i < t.await_[0]: vs.append(broken(p, "the bytes are looked at before the transfer is known to be done"))
        return vs
    def outcome(p):
        """What the transfer reported on this path: ok, lost (no report), failed, or None."""
        t = transfers(p)
        if t.await_ is None: return None, None
        i, e = t.await_
        ch = e[1]
        got = next((v for k, v in p.st.facts.b.items() if isinstance(k, tuple) and k and k[0] == "receives" and k[1] == ch), None)
        if got is False: return "lost", None
        x = received_value(p, ch)
        if got is not True or x is None: return None, None
        d = p.st.facts.disc.get(x.t) if isinstance(x, Op) else x.v if isinstance(x, Agg) else None
        return {0: "ok", 1: "failed"}.get(d), x
    def errors(p):
        if not reads(p): return None
        t = transfers(p)
        if t.await_ is None: return Verdict(OPEN, "not resolved") if t.gmaps else None
        how, x = outcome(p)
        failed = isinstance(p.v, Agg) and p.v.v == 1
        sent = [e for i, e in t.sends if e[1] == t.await_[1][1]]
        if not sent or t.gmap is None: return broken(p, "the outcome of the transfer is never reported to the reader") if t.gmap is not None and not t.sends else Verdict(OPEN, "not resolved")
        if len(sent) != 1: return Verdict(OPEN, "not resolved")
        if not (isinstance(sent[0][2], Op) and sent[0][2].t == ("map outcome", t.gmap[1][1])):
            vs0 = sent[0][2]
            return broken(p, "something else than the outcome of the transfer is reported") if isinstance(vs0, Agg) and p.it.ty(p.it.tyi(vs0.ty))["k"] == "adt" else Verdict(OPEN, "not resolved")
        if not isinstance(p.v, Agg): return Verdict(OPEN, "result not resolved")
        if how == "lost": return GOOD if failed else broken(p, "a transfer that never reported is taken for a success")
        if how == "failed": return GOOD if failed else broken(p, "a failed transfer is taken for a success")
        if how == "ok": return GOOD if not failed else broken(p, "a successful transfer is reported as failed")
        return broken(p, "success is reported whatever the outcome of the transfer") if not failed else Verdict(OPEN, "not resolved")
    def result(p):
        if not reads(p) or not isinstance(p.v, Agg): return None
        if p.v.v == 1: return None
        got = ok_seq(p.v)
        t = transfers(p)
        if got is None or t.gmap is None: return Verdict(OPEN, "result not resolved")
        lo, n = region(run, p)
        s = t.gmap[1][1]
        raw = Seq(n, ("words", ("mapped", s)), (), p.it.tyi("u32"))
        return words(run, p, got, raw, n)
    return run, transfer, errors, result
def received_value(p, ch):
    out = [e[2] for e, h, l in walk(p.st.ev) if e[0] == "received" and e[1] == ch]
    return out[0] if len(out) == 1 else None
def same_words(run, p, got, raw, n): return same(p.it, p.st, got, raw)
def number_of_slots(run, name="len"): return run.args[name]
def modes(dump, root):
    """(case, precondition, buffer that is read, region, what the result holds) of a read-back entry point."""
    op = root.split("::")[-1]
    if op == "buffer_read":
        for c in COMBOS:
            yield (" (%s)" % combo_name(c), lambda r, c=c: bounds_as(r, c, r.args["len"]), lambda r, p: deref(r, "buffer"), lambda r, p: (r.lo, r.hi - r.lo), same_words)
    elif op == "read":
        cell = role_len(dump)
        for c in COMBOS:
            def pre(r, c=c):
                end = length_now(r, cell)
                if end is None: raise Undecided("the slab's length is not resolved")
                return bounds_as(r, c, end)
            yield (" (%s)" % combo_name(c), pre, current_buffer, lambda r, p: (r.lo, r.hi - r.lo), same_words)
    elif op == "read_array":
        def items(run, p, got, raw, n):
            i, count = polys(run.args["array"])[:2]
            return same_items(run, p, got, raw, count)
        def pre(r):
            cell = role_len(dump)
            end = length_now(r, cell)
            i, n = polys(r.args["array"])[:2]
            return [cge(end - i - n * S_T), cge(P((1 << 32) - 1) - end)]
        yield ("", pre, current_buffer, lambda r, p: (polys(r.args["array"])[0], polys(r.args["array"])[1] * S_T), items)
def length_now(r, cells):
    """The slab's length when the entry point is called."""
    it, st = r.it, r.st0
    found = []
    def g(v):
        if isinstance(v, Arc): 
            if place(v.obj) in cells: found.append(v.obj)
    visit(r.init(r.args["a"]), g)
    if len(found) != 1: return None
    a = it.cell(st, found[0])
    return a.val if isinstance(a, At) else None
def current_buffer(run, p):
    """The GPU buffer behind the allocator's current buffer."""
    hit = []
    for k in p.st.cells:
        v = p.st.cells[k]
        if isinstance(v, Op) and v.ty == "wgpu::Buffer" and k[0] == "h": hit.append(v)
    if len(hit) != 1: raise Undecided("current buffer")
    s = [x for x in p.secs.values() if "SlabBuffer" in x.cls]
    return hit[0]
def same_items(run, p, got, raw, count):
    r = same(p.it, p.st, got.n, count)
    if r.status != PROVED: return r
    j = Poly.atom(("a", "k", "nat", ("element",)))
    s = p.st.copy(); s.facts = s.facts.with_ge(j).with_ge(count - j - 1)
    if s.facts.contradictory(): return GOOD
    want = lambda x: p.it.seq_dec(x, raw, j * S_T, S_T, "T")
    if split(p.it, s, lambda x: eq(p.it, x, p.it.seq_get(x, got, j), want(x))) is True: return GOOD
    return refute(p.it, s, lambda e: e.elem(got, e.poly(j)) != e.val(want(s.copy())), "element j is not decoded from its own slots")
def gpu_transfer(ob, dump, root):
    for name, pre, src, region, words in modes(dump, root):
        run, transfer, errors, result = readback(ob, dump, root, pre, src, region, words)
        hist(ob, run, "copies exactly the bytes of the slots, then waits" + name, transfer)
def gpu_errors(ob, dump, root):
    for name, pre, src, region, words in modes(dump, root):
        run, transfer, errors, result = readback(ob, dump, root, pre, src, region, words)
        hist(ob, run, "an error exactly when the transfer fails" + name, errors)
        hist(ob, run, "exactly the requested slots" + name, result)
        no_panic(ob, run, "no panic" + name)
def gpu_range(ob, dump, root):
    """Only where the read starts and how long it is."""
    for name, pre, src, region, words in modes(dump, root):
        run, transfer, errors, result = readback(ob, dump, root, pre, src, region, words)
        def f(p):
            c = events(p, "gcopy")
            if not c: return None
            if len(c) != 1: return Verdict(OPEN, "not resolved")
            lo, n = region(run, p)
            return [same(p.it, p.st, c[0][1][3], 4 * lo), same(p.it, p.st, c[0][1][6], 4 * n)]
        hist(ob, run, "the half-open interval of the range" + name, f)
        hist(ob, run, "as many slots as the interval has" + name, result)
def missing_buffer(ob, dump, root):
    """Reading when there is no buffer yet."""
    rule = "without a buffer, and only then, the missing-buffer error"
    run = grun(dump, root)
    roles = slab_roles(dump)
    if roles.buffer is None: return ob.add(run, rule, Verdict(OPEN, "the current buffer is not resolved"))
    def f(p):
        secs = [s for s in p.secs.values() if place(s.cell) == roles.buffer]
        if not secs: return broken(p, "the current buffer is not looked at")
        if len(secs) != 1 or not isinstance(p.v, Agg): return Verdict(OPEN, "not resolved")
        c = p.content(secs[0].cell, secs[0].path)
        d = p.st.facts.disc.get(c.t) if isinstance(c, Op) else c.v if isinstance(c, Agg) else None
        name = None
        if p.v.v == 1 and isinstance(p.v.f[0], Agg): name = p.it.ty(p.it.tyi(p.v.f[0].ty))["variants"][p.v.f[0].v][0]
        if d == 0: return GOOD if name == "NoInternalBuffer" else broken(p, "reading without a buffer %s" % ("gives the error %s" % name if name else "succeeds"))
        if d == 1: return broken(p, "a buffer that exists is reported missing") if name == "NoInternalBuffer" else GOOD
        return Verdict(OPEN, "not resolved")
    hist(ob, run, rule, f)
def waiting(ob, dump, root):
    """No lock is held while the GPU is waited for."""
    rule = "no lock is held while waiting"
    run = grun(dump, root)
    def f(p):
        for i, e, h, l in events(p, "gpoll", "await"):
            if e[2]: return broken(p, "a lock is held while waiting for the GPU (%s)" % short(e[3]))
        return GOOD
    hist(ob, run, rule, f)
