"""Obligations about single entry points: what is specified, and how each is decided."""
import os, re, sys
from amodels import *
from prove import *
from prove import hints

class Run:
    """One analysed entry point."""
    def __init__(self, dump, root, pre=None, opts=None):
        self.prog = Program(dump, root)
        self.root = root
        self.pre = pre
        body = self.prog.insts[0].get("body")
        self.names, self.args, self.tix = {}, {}, {}
        def setup(it, st, args, names):
            for l, n in names.items():
                if 1 <= l <= len(args): self.args[n], self.tix[n] = args[l - 1], body["locals"][l]
            self.it, self.st0, self.arglist = it, st, args
            self.arg_locals = [(l, n) for l, n in names.items() if 1 <= l <= len(args)]
            if pre:
                for c in pre(self): it.assume(st, c)
        try:
            self.it, self.outs, self.err = analyse(self.prog, None, None, opts, setup)
        except Stop:
            self.outs, self.err = [], None       # the precondition is contradictory
        self.ret_ti = body["locals"][0] if body else None
        self.paths = len(self.outs or [])
    def replace(self, name, value):
        """Another value for an argument, before the analysis starts."""
        l = next(l for l, n in self.arg_locals if n == name)
        self.args[name] = self.arglist[l - 1] = value
    def init(self, r):
        """What a reference argument referred to when the entry point was called."""
        return self.it.mk(r.c[1], r.c[2])
    def at_end(self, st, r):
        """What it refers to at the end of a path."""
        return st.cells.get(r.c) if r.c in st.cells else self.init(r)
    def where(self):
        """The analysed functions of the library, innermost first."""
        out = []
        for i in self.prog.insts.values():
            if i["name"] in self.it.visited and str(i.get("span", "")).startswith("/repo/"):
                out.append("%s (%s)" % (i["name"], re.sub(r":\d+$", "", i["span"])[len("/repo/"):]))
        return sorted(set(out))

def find_seq(v, path=()):
    """(path, sequence) of the slots of a slab container."""
    if isinstance(v, Seq): return path, v
    if isinstance(v, VecV): return path + (("seq",),), v.seq
    if isinstance(v, Agg):
        for i, x in enumerate(v.f):
            r = find_seq(x, path + (("f", i),))
            if r: return r
    return None
def find_poly(v):
    """The number inside a newtype such as an id."""
    if isinstance(v, Poly): return v
    if isinstance(v, Agg):
        for x in v.f:
            r = find_poly(x)
            if r is not None: return r
    return None
def polys(v):
    if isinstance(v, Poly): return [v]
    if isinstance(v, Agg): return [p for x in v.f for p in polys(x)]
    return []
def size_atom(t): return Poly.atom(("a", "size", "size", t))

class Obs:
    """Collects the obligations of one task."""
    def __init__(self, prop): self.prop, self.res = prop, []
    def add(self, run, rule, v, extra=""):
        self.res.append(dict(root=run.root if run else "", rule=rule, status=v.status, why=v.why + extra, point=v.point,
                             where=run.where() if run and v.status != PROVED else [], fns=len(run.it.visited) if run else 0, analysed=run.where() if run else []))
    def all(self, run, rule, verdicts):
        """One obligation over several paths."""
        vs = list(verdicts)
        for s in (REFUTED, OPEN):
            for v in vs:
                if v.status == s: return self.add(run, rule, v)
        self.add(run, rule, Verdict(PROVED, "%d paths" % len(vs)))

def undecided(run): return Verdict(OPEN, "not analysed: %s" % run.err)
def no_panic(ob, run, rule="no panic"):
    """No feasible panic under the precondition."""
    if run.err is not None: return ob.add(run, rule, undecided(run))
    vs = []
    seen = set()
    for st, msg, fname, span, definite in run.it.panics:
        if st.facts.contradictory(): continue
        key = (msg, fname, span, st.facts.ge if hasattr(st.facts, "ge") else None)
        v = refute(run.it, st, lambda e: True, "%s in %s (%s)" % (str(msg).split(" ")[0], fname, span))
        vs.append(v)
        if v.status == REFUTED: break
    ob.all(run, rule, vs)

_sizes = {}
def sizes_of(dump, root):
    """The values of a size constant: [(conditions, size)]."""
    if (dump, root) not in _sizes:
        r = Run(dump, root)
        ok = r.err is None and r.outs and all(isinstance(v, Poly) for _, v in r.outs)
        _sizes[(dump, root)] = [(st.facts, v) for st, v in r.outs] if ok else None
    return _sizes[(dump, root)]
def facts_conds(f):
    return [cge(p) for p in f.ge] + [cnot(ceq(p)) for p in f.ne] + [cop(t) if v else cnot(cop(t)) for t, v in f.b.items()]
def per_size(f):
    """Runs an obligation for each case of the type's size constant."""
    def g(ob, dump, root):
        cases = sizes_of(dump, mod(root) + "::size")
        if not cases: return ob.add(None, f.__name__ + " of " + root, Verdict(OPEN, "size not resolved"))
        for facts, size in cases:
            f(ob, dump, root, facts_conds(facts), size)
    g.__name__ = f.__name__
    return g
def mod(root): return root.rsplit("::", 1)[0]

# ---------------------------------------------------------------- C01, C03: round trip
def slab_len(run, name="slab"): return find_seq(run.init(run.args[name]))[1].n
def fits(size, name="index", conds=()):
    def pre(run):
        n = slab_len(run)
        return list(conds) + [cge(n - run.args[name] - size), cge((1 << 32) - 1 - n)]
    return pre
@per_size
def round_trip(ob, dump, root, conds, size):
    run = Run(dump, root, fits(size, conds=conds))
    if run.err is not None: return ob.add(run, "read(write(v)) == v", undecided(run))
    vs = []
    for st, v in run.outs:
        vs.append(same(run.it, st, v.f[1], run.init(run.args["t"])) if isinstance(v, Agg) and len(v.f) == 2 else Verdict(OPEN, "result not resolved"))
    if not run.outs and not run.it.panics: vs = [Verdict(OPEN, "no path reaches the end")]
    ob.all(run, "read(write(v)) == v", vs)
    no_panic(ob, run, "no panic where the value fits")

# ---------------------------------------------------------------- C02, C03: footprint
def in_range(it, st, lo, size, start, count, pts_differ=None):
    a = holds(it, st, cge(start - lo))
    if a.status == PROVED:
        b = holds(it, st, cge(lo + size - start - count))
        if b.status == PROVED: return b
        a = b
    # nothing is touched when the count is zero
    if isinstance(count, Poly) and st.facts.entails_eq(count): return Verdict(PROVED)
    return a
def with_k(st, k, K):
    s = st.copy()
    if k is not None:
        kk = Poly.atom(k)
        s.facts = s.facts.with_ge(kk).with_ge(P(K) - kk - 1)
    return s
def changed_outside(e, before, after, lo, size):
    n = e.poly(after.n)
    if n != e.poly(before.n): return True
    lo, size = e.poly(lo), e.poly(size)
    for i in range(min(n, 50)):
        if lo <= i < lo + size: continue
        if e.elem(after, i) != e.elem(before, i): return True
    return False
@per_size
def write_footprint(ob, dump, root, conds, size):
    run = Run(dump, root, lambda r: conds)
    if run.err is not None: return ob.add(run, "writes stay inside the value", undecided(run))
    it = run.it
    index = run.args["index"]
    before = run.init(run.args["slab"])
    ws, rs = [], []
    for st, v in run.outs:
        after = run.at_end(st, run.args["slab"])
        f = find_seq(after)
        if not f: ws.append(Verdict(OPEN, "slab not resolved")); continue
        after = f[1]
        ws.append(seq_footprint(it, st, before, after, index, size))
        # next index
        r = split(it, st, lambda s: s.facts.entails_eq(v - index - size) or not after.log and s.facts.entails_eq(v - index)) if isinstance(v, Poly) else None
        if r is True: rs.append(Verdict(PROVED))
        elif not isinstance(v, Poly): rs.append(Verdict(OPEN, "next index not resolved"))
        else:
            rs.append(refute(it, st, lambda e: e.poly(v) != e.poly(index) + e.poly(size) and (e.poly(v) != e.poly(index) or changed_outside(e, before, after, index, P(0))),
                             "returns %s" % short(v), near=hints(v, before, after)))
    ob.all(run, "writes stay inside the value's slots", ws)
    ob.all(run, "returns the position after the value", rs)
def seq_footprint(it, st, before, after, lo, size):
    if after == before: return Verdict(PROVED)
    bad = None
    if after.base == before.base and st.facts.entails_eq(after.n - before.n):
        for e in after.log:
            s = with_k(st, e.k, e.K)
            if s.facts.contradictory(): continue
            if e.kind == "many": bad = "repeated writes"; break
            v = split(it, s, lambda x: x.facts.entails(e.start - lo) and x.facts.entails(lo + size - e.start - e.count) or x.facts.entails(-e.count))
            if v is not True: bad = "write of [%s, %s)" % (short(e.start), short(e.start + e.count)); break
    else: bad = "slab replaced"
    if bad is None: return Verdict(PROVED)
    return refute(it, st, lambda e: changed_outside(e, before, after, lo, size), bad + " is not inside [%s, %s)" % (short(lo), short(lo + size)), near=hints(before, after, lo, size, *st.facts.ge))
def accesses(ev, cell, kinds, conds=()):
    """(start, count, loops) of the accesses to a cell; loops: ((k, K, alternatives), ...)."""
    for e in ev:
        if e[0] == "loop":
            for alt in e[3]:
                yield from accesses(alt, cell, kinds, conds + ((e[1], e[2], len(e[3])),))
        elif e[0] in kinds and e[1] == cell:
            if e[0] in ("rdT", "wrT"): yield e[3], e[4], conds
            elif e[2][0] == "i": yield e[2][1], P(1), conds
            elif e[2][0] == "sub": yield e[2][1], e[2][2], conds
def access_footprint(ob, run, rule, slab, kinds, lo, size):
    it = run.it
    cell = run.args[slab].c
    vs = []
    for st, v in run.outs:
        for start, count, loops in accesses(st.ev, cell, kinds):
            s, sure = st, True
            for k, K, n in loops:
                s = with_k(s, k, K)
                sure = sure and n == 1
            if s.facts.contradictory(): continue
            r = split(it, s, lambda x: x.facts.entails(start - lo) and x.facts.entails(lo + size - start - count) or x.facts.entails(-count))
            if r is True: vs.append(Verdict(PROVED)); continue
            why = "access to [%s, %s) is not inside [%s, %s)" % (short(start), short(start + count), short(lo), short(lo + size))
            if not sure: vs.append(Verdict(OPEN, why)); continue
            vs.append(refute(it, s, lambda e: e.poly(count) > 0 and (e.poly(start) < e.poly(lo) or e.poly(start) + e.poly(count) > e.poly(lo) + e.poly(size)), why, near=hints(start, count)))
    ob.all(run, rule, vs)
@per_size
def read_footprint(ob, dump, root, conds, size):
    run = Run(dump, root, lambda r: conds)
    if run.err is not None: return ob.add(run, "reads stay inside the value", undecided(run))
    access_footprint(ob, run, "reads look only at the value's slots", "slab", ("rd", "rdT"), run.args["index"], size)

# ---------------------------------------------------------------- C03: layout of derived types
def leaf_size(dump, prog, ti):
    """SLAB_SIZE of a built-in type, from the sizes the library declares; None if the type is not built in."""
    t = prog.types[ti]; k, n = t["k"], t["n"]
    def lib(name, sub):
        c = sizes_of(dump, "codecs::%s::size" % name)
        if not c or len(c) != 1: return None
        p = c[0][1]
        return deep(p, lambda a: sub.get(a[3]) if a[1] in ("size", "cp") else None)
    if k == "prim": return lib("c_" + n, {})
    if k in ("param", "alias"): return size_atom(n)
    if k == "array":
        e = type_size(dump, prog, t["of"])
        m = re.match(r"^(\d+)", str(t["len"]))
        return None if e is None else lib("c_array", {"T": e, "N": P(int(m.group(1))) if m else Poly.atom(("a", "cp", "pos", str(t["len"])))})
    if k == "tuple":
        if not t["of"]: return P(0)
        es = [type_size(dump, prog, x) for x in t["of"]]
        if any(e is None for e in es): return None
        return lib("c_tuple%d" % len(es), dict(zip("ABCDEFGHIJKLM", es)))
    if k == "adt":
        p = norm(t["path"])
        if p == "std::option::Option":
            e = type_size(dump, prog, t["args"][0])
            return None if e is None else lib("c_option", {"T": e})
        if p == "std::marker::PhantomData": return lib("c_phantom", {})
        if p.startswith("crabslab::") and p.endswith("::Id"): return lib("c_id", {})
        if p.startswith("crabslab::") and p.endswith("::Array"): return lib("c_slab_array", {})
    return None
def type_size(dump, prog, ti):
    t = prog.types[ti]
    if t["k"] == "adt" and t["variants"] is not None and not re.match(r"^(std|core|alloc|crabslab)::", t["path"]):
        c = layout(dump, prog, ti)
        if c is None: return None
        if not t["enum"]: return c[0]
        if all(x.is_const() for x in c): return P(1 + max(x.value() for x in c))
        return None
    return leaf_size(dump, prog, ti)
def layout(dump, prog, ti):
    """Sum of the fields' sizes, per variant."""
    out = []
    for v in prog.types[ti]["variants"]:
        s = P(0)
        for f in v[2]:
            x = type_size(dump, prog, f[1])
            if x is None: return None
            s = s + x
        out.append(s)
    return out
def derived_size(ob, dump, root):
    """SLAB_SIZE is the sum of the fields, or one slot and the largest variant."""
    run = Run(dump, root)
    rd = Program(dump, mod(root) + "::read")
    ti = rd.insts[0]["body"]["locals"][0]
    t = rd.types[ti]
    if t["k"] != "adt" or norm(t["path"]).startswith("std::"): return
    if run.err is not None: return ob.add(run, "declared size", undecided(run))
    want = layout(dump, rd, ti)
    if want is None: return ob.add(run, "declared size", Verdict(OPEN, "layout not resolved"))
    vs = []
    for st, v in run.outs:
        if not isinstance(v, Poly): vs.append(Verdict(OPEN, "size not resolved")); continue
        if not t["enum"]: vs.append(same(run.it, st, v, want[0])); continue
        r = split(run.it, st, lambda s: all(s.facts.entails(v - 1 - w) for w in want) and any(s.facts.entails_eq(v - 1 - w) for w in want))
        if r is True: vs.append(Verdict(PROVED))
        else: vs.append(refute(run.it, st, lambda e: e.poly(v) != 1 + max(e.poly(w) for w in want), "%s instead of 1 + max(%s)" % (short(v), ", ".join(map(short, want))), near=hints(v)))
    ob.all(run, "SLAB_SIZE covers exactly the fields", vs)
def derived_enum(ob, dump, root):
    """Tags are distinct; other tags read as the default."""
    name = root.split("::")[-1]
    base = entry(dump, name)
    cases = sizes_of(dump, base + "::size")
    if not cases: return ob.add(None, "tags of " + name, Verdict(OPEN, "size not resolved"))
    # tags
    tags, w0 = {}, None
    for facts, size in cases:
        w = Run(dump, base + "::write", fits(size, conds=facts_conds(facts)))
        w0 = w
        if w.err is not None: return ob.add(w, "distinct tags", undecided(w))
        t = w.init(w.args["t"])
        for st, v in w.outs:
            f = find_seq(w.at_end(st, w.args["slab"]))
            def tag(s):
                s.cells["tag"] = w.it.seq_get(s, f[1], w.args["index"]); s.cells["var"] = w.it.variant(s, t)
                found.append((s.cells["var"], s.cells["tag"], s)); return True
            found = []
            split(w.it, st, tag)
            for var, tg, s in found: tags.setdefault(var, []).append((tg, s))
    n = len(w0.it.ty(w0.it.tyi(t.ty))["variants"])
    vs = []
    consts = {}
    for var in range(n):
        for tg, s in tags.get(var, []):
            if isinstance(tg, Poly) and tg.is_const(): consts.setdefault(var, set()).add(tg.value())
            elif isinstance(tg, Poly) and (x := tg.as_atom()) and x[1] == "t" and x[2] == "u32" and "slab" in repr(x): vs.append(Verdict(REFUTED, "variant %d writes no tag" % var))
            else: vs.append(Verdict(OPEN, "tag of variant %d not resolved" % var))
        if var not in tags: vs.append(Verdict(OPEN, "variant %d is never written" % var))
    for a in consts:
        for b in consts:
            if a < b and consts[a] & consts[b]: vs.append(Verdict(REFUTED, "variants %d and %d have the same tag %s" % (a, b, sorted(consts[a] & consts[b]))))
    ob.all(w0, "every variant has its own tag", vs)
    if any(v.status != PROVED for v in vs): return
    # unknown tags
    dflt = Run(dump, root)
    if dflt.err is not None or len(dflt.outs) != 1: return ob.add(dflt, "unknown tag", Verdict(OPEN, "default not resolved"))
    known = sorted({x for c in consts.values() for x in c})
    vs = []
    for facts, size in cases:
        def pre(run):
            q = find_seq(run.init(run.args["slab"]))[1]
            tag = run.it.seq_get(State({}, Facts()), q, run.args["index"])
            return facts_conds(facts) + [cge(q.n - run.args["index"] - size)] + [cnot(ceq(tag - x)) for x in known]
        rd = Run(dump, base + "::read", pre)
        if rd.err is not None: vs.append(undecided(rd)); continue
        want = dflt.outs[0][1]
        for st, v in rd.outs: vs.append(same(rd.it, st, v, want))
    ob.all(rd, "an unknown tag reads as the default", vs)

# ---------------------------------------------------------------- C04: offsets
def field_through(ob, dump, root):
    """The field read through its offset is the parent's field."""
    m = mod(root)
    parent = OFFSET_PARENT(m.split("::")[2])
    fsz = sizes_of(dump, m + "::field_size")
    if not parent or not fsz or len(fsz) != 1: return ob.add(None, "offset of " + m, Verdict(OPEN, "size not resolved"))
    psz = sizes_of(dump, entry(dump, parent) + "::size")
    if not psz or len(psz) != 1: return ob.add(None, "offset of " + m, Verdict(OPEN, "size not resolved"))
    # positions that the 32 bits of an id can hold
    run = Run(dump, root, lambda r: fits(psz[0][1])(r))
    if run.err is not None: return ob.add(run, "field behind its offset", undecided(run))
    t = run.init(run.args["t"])
    fld = m.split("::")[-1]
    body = run.prog.insts[0]["body"]
    ty = run.prog.types[run.it.tyi(t.ty)]
    names = [f[0] for f in ty["variants"][0][2]]
    i = field_index(names, fld)
    if i is None: return ob.add(run, "field behind its offset", Verdict(OPEN, "field %s not found" % fld))
    ob.all(run, "field behind its offset", [same(run.it, st, v, t.f[i]) for st, v in run.outs])
    no_panic(ob, run)
def OFFSET_PARENT(m): return "d_" + m[2:]
def entry(dump, name):
    """The module of a type's entry points."""
    c = sorted({mod(r) for r in load_index(dump) if mod(r).endswith("::" + name) and "::defaults" not in r})
    return c[0] if c else name
def field_index(names, f):
    alias = {"u0": "__0", "u1": "__1", "ty": "type", "size_": "__size"}
    for c in (f, alias.get(f), f[1:] if re.match(r"^f\d$", f) else None, "r#" + alias.get(f, f)):
        if c in names: return names.index(c)
    return None
def field_consts(ob, dump, root):
    """Size constant; both orders of addition; the offset as an id."""
    m = mod(root)
    a, b = sizes_of(dump, root), sizes_of(dump, m + "::field_size")
    run = Run(dump, root)
    if not a or not b or len(a) != 1 or len(b) != 1: ob.add(run, "field size", Verdict(OPEN, "size not resolved"))
    else: ob.add(run, "the size constant is the field's SLAB_SIZE", same(run.it, run.outs[0][0], a[0][1], b[0][1]))
    # offset = sum of the sizes of the fields before it
    parent = OFFSET_PARENT(m.split("::")[2])
    rd = Program(dump, entry(dump, parent) + "::read")
    ti = rd.insts[0]["body"]["locals"][0]
    fs = rd.types[ti]["variants"][0][2]
    i = field_index([f[0] for f in fs], m.split("::")[-1])
    off = P(0)
    for f in fs[:i or 0]:
        x = type_size(dump, rd, f[1])
        off = None if x is None or off is None else off + x
    for r, want in (("id_plus_offset", True), ("offset_plus_id", True), ("offset_as_id", False)):
        # ids are 32 bits wide; only additions that stay within them
        run = Run(dump, m + "::" + r, (lambda r: [cge((1 << 32) - 1 - find_poly(r.args["id"]) - off)] if "id" in r.args else [cge((1 << 32) - 1 - off)]) if off is not None else None)
        rule = "%s denotes the field" % r
        if off is None or i is None or run.err is not None: ob.add(run, rule, Verdict(OPEN, "offset not resolved")); continue
        vs = []
        for st, v in run.outs:
            w = off + (find_poly(run.args["id"]) if want else 0)
            vs.append(same(run.it, st, find_poly(v), w))
        ob.all(run, rule, vs)
def any_offset(ob, dump, root):
    r = root.split("::")[-1]
    run = Run(dump, root, lambda r: [cge((1 << 32) - 1 - r.args["n"] - (find_poly(r.args["id"]) if "id" in r.args else 0))])
    if run.err is not None: return ob.add(run, r, undecided(run))
    ob.all(run, r + " moves by the offset", [same(run.it, st, find_poly(v), run.args["n"] + (find_poly(run.args["id"]) if "id" in run.args else 0)) for st, v in run.outs])
    no_panic(ob, run)

# ---------------------------------------------------------------- slab containers
U32 = (1 << 32) - 1
class SlabRun(Run):
    """An entry point that takes a container `s`."""
    def __init__(self, dump, root, pre=None):
        def always(r):
            v = r.vec() if "s" in r.args else None
            held = [cge(v.cap - v.seq.n)] if v is not None else []
            return held + list(pre(r) if pre else [])
        super().__init__(dump, root, always)
    def slots(self, st=None):
        v = self.init(self.args["s"]) if st is None else self.at_end(st, self.args["s"])
        f = find_seq(v)
        return f[1] if f else None
    def vec(self, st=None):
        v = self.init(self.args["s"]) if st is None else self.at_end(st, self.args["s"])
        while isinstance(v, Agg) and v.f: v = v.f[0]
        return v if isinstance(v, VecV) else None
    def ref(self, name): return self.init(self.args[name])
S_T = size_atom("T")
def dec(run, st, q, pos): return run.it.seq_dec(st, q, pos, S_T, "T")
DEF_T = Op(("default", "T"), "T")

def cases(it, st, got, alts):
    """got equals the value of the alternative whose condition holds: [(cond, value function)]."""
    def f(s):
        for c, v in alts:
            if it.decide(s, c): return eq(it, s, got, v(s))
        return True
    r = split(it, st, f)
    if r is True: return Verdict(PROVED)
    def differs(e):
        for c, v in alts:
            if e.cond(c):
                return e.val(got) != e.val(v(st.copy()))
        return False
    return refute(it, st, differs, "%s on a path where another value is due" % short(got), near=hints(got))
def unchanged(run, st, ref, pre=None):
    return same(run.it, st, run.at_end(st, ref), run.init(ref))
def paths(ob, run, rule, f):
    if run.err is not None: return ob.add(run, rule, undecided(run))
    vs = []
    for st, v in run.outs:
        try: r = f(st, v)
        except (Fork, Undecided, Stop) as e: r = Verdict(OPEN, "comparison not resolved: %s" % e)
        vs += r if isinstance(r, list) else [r]
    if not run.outs and not run.it.panics: vs = [Verdict(OPEN, "no path reaches the end")]
    ob.all(run, rule, vs)
def missing_paths(ob, run, rule):
    """Some path must reach the end under a precondition under which the operation succeeds."""
def slab_read(ob, dump, root):
    run = SlabRun(dump, root)
    if run.err is not None: return ob.add(run, "checked read", undecided(run))
    q, pos = run.slots(), find_poly(run.args["id"])
    fit = cge(q.n - pos - S_T)
    paths(ob, run, "the stored value where it fits, else the default", lambda st, v: cases(run.it, st, v, [(fit, lambda s: dec(run, s, q, pos)), (TRUE, lambda s: DEF_T)]))
    no_panic(ob, run, "reads any id without panicking")
def slab_read_unchecked(ob, dump, root):
    run = SlabRun(dump, root, lambda r: [cge(find_seq(r.init(r.args["s"]))[1].n - find_poly(r.args["id"]) - S_T)])
    if run.err is not None: return ob.add(run, "unchecked read", undecided(run))
    q, pos = run.slots(), find_poly(run.args["id"])
    paths(ob, run, "the stored value", lambda st, v: same(run.it, st, v, dec(run, st.copy(), q, pos)))
    no_panic(ob, run)
def slab_contains(ob, dump, root):
    run = SlabRun(dump, root)
    if run.err is not None: return ob.add(run, "containment", undecided(run))
    want = cge(run.slots().n - find_poly(run.args["id"]) - S_T)
    paths(ob, run, "true exactly when all slots of the value lie inside", lambda st, v: same(run.it, st, v, want))
    no_panic(ob, run)
def slab_len_ob(ob, dump, root):
    run = SlabRun(dump, root)
    paths(ob, run, "the number of slots", lambda st, v: same(run.it, st, v, run.slots().n))
    no_panic(ob, run)
def slab_is_empty(ob, dump, root):
    run = SlabRun(dump, root)
    paths(ob, run, "true exactly for length zero", lambda st, v: same(run.it, st, v, ceq(run.slots().n)))
    no_panic(ob, run)
def arr(run, name="a"):
    p = polys(run.args[name])
    return p[0], p[1]
def addressable(r, name="a"):
    i, n = arr(r, name)
    return [cge(U32 - i - n * S_T)]
def null_array(r, name="a"):
    i, n = arr(r, name)
    return [ceq(n)]
def slab_read_vec(ob, dump, root):
    for case, pre in (("", addressable), (" (no elements)", null_array)):
        run = SlabRun(dump, root, pre)
        if run.err is not None: ob.add(run, "reads every element" + case, undecided(run)); continue
        q = run.slots(); i0, n = arr(run)
        def f(st, v):
            if not isinstance(v, VecV): return Verdict(OPEN, "result not resolved")
            r = same(run.it, st, v.seq.n, n)
            if r.status != PROVED: return r
            j = Poly.atom(("a", "k", "nat", ("element",)))
            s = st.copy(); s.facts = s.facts.with_ge(j).with_ge(n - j - 1)
            if s.facts.contradictory(): return Verdict(PROVED)
            pos = i0 + j * S_T
            fit = cge(q.n - pos - S_T)
            def g(x):
                got = run.it.seq_get(x, v.seq, j)
                return eq(run.it, x, got, dec(run, x, q, pos) if run.it.decide(x, fit) else DEF_T)
            if split(run.it, s, g) is True: return Verdict(PROVED)
            def differs(e):
                jj = e.poly(j)
                want = Op(("dec", q.base, pos), "T") if e.cond(fit) else DEF_T
                return e.elem(v.seq, jj) != e.val(want)
            return refute(run.it, s, differs, "element j of the vector is not the checked read of element j of the array", near=hints(v.seq))
        paths(ob, run, "element i is the checked read of the array's element i" + case, f)
        no_panic(ob, run, "no panic" + case)
def slab_read_into(ob, dump, root):
    def none(r): return [ceq(find_poly(r.args["id"]) - U32)]
    run = SlabRun(dump, root, none)
    paths(ob, run, "a none id leaves the destination unchanged", lambda st, v: unchanged(run, st, run.args["t"]))
    no_panic(ob, run, "no panic for the none id")
    def some(r):
        p = find_poly(r.args["id"])
        return [cge(U32 - 1 - p), cge(find_seq(r.init(r.args["s"]))[1].n - p - S_T)]
    run = SlabRun(dump, root, some)
    paths(ob, run, "any other id overwrites the destination", lambda st, v: same(run.it, st, run.at_end(st, run.args["t"]), dec(run, st.copy(), run.slots(), find_poly(run.args["id"]))))
    no_panic(ob, run, "no panic for an id inside")
def no_slab_change(ob, dump, root):
    """Reading operations leave the slab alone: nothing to check, they take it by shared reference."""

def enc_at(q, pos, v): return Seq(q.n, q.base, q.log + (Ent("enc", pos, S_T, ("T", v), None, None),), q.ety)
def enc_all(q, pos, t, n):
    k = ("a", "k", "nat", ("bound", len(q.log)))
    kk = Poly.atom(k)
    return Seq(q.n, q.base, q.log + (Ent("enc", pos + kk * S_T, S_T, ("T", Op(("el", t.base, kk), "T")), k, n),), q.ety)
def seq_is(run, st, want, got):
    return same(run.it, st, got, want) if got is not None else Verdict(OPEN, "slab not resolved")
def slab_write(ob, dump, root):
    by_id = root.endswith("::write")
    pos_of = lambda r: find_poly(r.args["id"]) if by_id else r.args["index"]
    run = SlabRun(dump, root, lambda r: [cge(find_seq(r.init(r.args["s"]))[1].n - pos_of(r) - S_T)])
    if run.err is not None: return ob.add(run, "write", undecided(run))
    pos = pos_of(run); q = run.slots()
    paths(ob, run, "the value is stored at its position and nothing else changes", lambda st, v: seq_is(run, st, enc_at(q, pos, run.ref("t")), run.slots(st)))
    if not by_id: paths(ob, run, "returns the next position", lambda st, v: same(run.it, st, v, pos + S_T))
    no_panic(ob, run)
    # containers must treat a value that does not fit the way the value's own format does
    out = SlabRun(dump, root, lambda r: [cge(pos_of(r) + S_T - find_seq(r.init(r.args["s"]))[1].n - 1)])
    if out.err is None:
        vs = [refute(out.it, st, lambda e: True, "returns without handing the value to its format") for st, v in out.outs if not st.facts.contradictory()]
        ob.all(out, "a value that does not fit is left to its format", vs)
def slab_refuses(ob, dump, root):
    """A value that refuses to be written where it does not fit: the container passes that on."""
    op = root.split("_")[-1]
    U = lambda r: [cge(U32 - (find_poly(r.args["id"]) if op == "id" else r.args["index"]))]
    run = SlabRun(dump, root, U)
    if run.err is not None: return ob.add(run, "write of a refusing value", undecided(run))
    q, t = run.slots(), run.ref("t"); i = find_poly(run.args["id"]) if op == "id" else run.args["index"]
    words = lambda x, at: (Ent("el", at, P(1), x.f[0], None, None), Ent("el", at + 1, P(1), x.f[1], None, None))
    def written(s, n):
        log, at = q.log, i
        for j in range(n):
            x = run.it.get(s, t, (("i", P(j)),)) if op == "slice" else t
            log += words(x, at); at = at + 2
        return Seq(q.n, q.base, log, q.ety)
    cs = [(cge(q.n - i - 2 * n), n) for n in ((2, 1, 0) if op == "slice" else (1, 0))][:-1]
    paths(ob, run, "what fits is stored and nothing else changes",
        lambda st, v: cases(run.it, st, run.slots(st), [(c, lambda s, n=n: written(s, n)) for c, n in cs] + [(TRUE, lambda s: q)]))
    if op != "id":
        paths(ob, run, "returns the position after what was stored", lambda st, v: cases(run.it, st, v, [(c, lambda s, n=n: i + 2 * n) for c, n in cs] + [(TRUE, lambda s: i)]))
    no_panic(ob, run)
def slab_write_slice(ob, dump, root):
    run = SlabRun(dump, root, lambda r: [cge(find_seq(r.init(r.args["s"]))[1].n - r.args["index"] - r.init(r.args["t"]).n * S_T)])
    if run.err is not None: return ob.add(run, "write of a sequence", undecided(run))
    q, t, i = run.slots(), run.ref("t"), run.args["index"]
    paths(ob, run, "the items are stored consecutively in order", lambda st, v: seq_is(run, st, enc_all(q, i, t, t.n), run.slots(st)))
    paths(ob, run, "returns the position after the last item", lambda st, v: same(run.it, st, v, i + t.n * S_T))
    no_panic(ob, run)
def slab_write_array(ob, dump, root):
    def inside(r):
        i, n = arr(r); q = find_seq(r.init(r.args["s"]))[1]; t = r.init(r.args["t"])
        return [cge(q.n - i - n * S_T), cge(U32 - i - n * S_T), cge(t.n - n), cge(n - 1)]
    run = SlabRun(dump, root, inside)
    if run.err is not None: return ob.add(run, "write of an array", undecided(run))
    q, t = run.slots(), run.ref("t"); i, n = arr(run)
    paths(ob, run, "the leading items fill the array and nothing else changes", lambda st, v: seq_is(run, st, enc_all(q, i, t, n), run.slots(st)))
    no_panic(ob, run)
    for rule, pre in (("too short a sequence writes nothing", lambda r: [cge(arr(r)[1] - r.init(r.args["t"]).n - 1)]), ("an empty array receives nothing", lambda r: [ceq(arr(r)[1])])):
        run = SlabRun(dump, root, pre)
        paths(ob, run, rule, lambda st, v: unchanged(run, st, run.args["s"]))
        no_panic(ob, run, rule + ", no panic")
    # whatever the position of the array: only its own slots
    run = SlabRun(dump, root, lambda r: [cge(U32 - arr(r)[0] - arr(r)[1] * S_T)])
    if run.err is None:
        i, n = arr(run)
        paths(ob, run, "only slots of the array change", lambda st, v: seq_footprint(run.it, st, run.slots(), run.slots(st), i, n * S_T))

# ---------------------------------------------------------------- C08: growable slabs
def roomy(extra):
    def pre(r): return [cge(U32 - find_seq(r.init(r.args["s"]))[1].n - extra(r))]
    return pre
def earlier_kept(run, st):
    """Slots below the old length keep their contents."""
    q, q2 = run.slots(), run.slots(st)
    if q2 is None: return Verdict(OPEN, "slab not resolved")
    j = Poly.atom(("a", "k", "nat", ("slot",)))
    s = st.copy(); s.facts = s.facts.with_ge(j).with_ge(q.n - j - 1)
    if s.facts.contradictory(): return Verdict(PROVED)
    r = split(run.it, s, lambda x: eq(run.it, x, run.it.seq_get(x, q2, j), run.it.seq_get(x, q, j)))
    if r is True: return Verdict(PROVED)
    return refute(run.it, s, lambda e: e.elem(q2, e.poly(j)) != e.elem(q, e.poly(j)), "earlier slots change", near=hints(q2))
def grown_by(run, st, n):
    q2 = run.slots(st)
    return Verdict(OPEN, "slab not resolved") if q2 is None else same(run.it, st, q2.n, run.slots().n + n)
def reserved_first(run, st):
    """Every extension happens within the capacity reserved before it."""
    vs = []
    def walk(ev, s, sure):
        for e in ev:
            if e[0] == "loop":
                for alt in e[3]: walk(alt, with_k(s, e[1], e[2]), sure and len(e[3]) == 1)
            elif e[0] == "grow" and e[1] == run.args["s"].c:
                if s.facts.contradictory(): continue
                v = holds(run.it, s, cge(e[5] - e[4]))
                if v.status == REFUTED:
                    v = refute(run.it, s, lambda p: p.poly(e[5]) < p.poly(e[4]) and p.poly(e[4]) > p.poly(e[3]), "extended to %s with capacity %s" % (short(e[4]), short(e[5])))
                vs.append(v if sure or v.status == PROVED else Verdict(OPEN, v.why))
    walk(st.ev, st, True)
    return vs
def g_capacity(ob, dump, root):
    run = SlabRun(dump, root)
    paths(ob, run, "the capacity of the buffer", lambda st, v: same(run.it, st, v, run.vec().cap))
def g_reserve(ob, dump, root):
    run = SlabRun(dump, root, lambda r: [cge(U32 - r.args["n"])])
    paths(ob, run, "the capacity is there afterwards", lambda st, v: holds(run.it, st, cge(run.vec(st).cap - run.args["n"])))
    paths(ob, run, "the length stays", lambda st, v: grown_by(run, st, P(0)))
    paths(ob, run, "the contents stay", lambda st, v: earlier_kept(run, st))
    no_panic(ob, run)
def g_increment(ob, dump, root):
    run = SlabRun(dump, root, roomy(lambda r: r.args["n"]))
    paths(ob, run, "returns the previous length", lambda st, v: same(run.it, st, v, run.slots().n))
    paths(ob, run, "the length grows by n", lambda st, v: grown_by(run, st, run.args["n"]))
    paths(ob, run, "earlier contents stay", lambda st, v: earlier_kept(run, st))
    no_panic(ob, run)
def g_expand(ob, dump, root):
    run = SlabRun(dump, root, roomy(lambda r: r.args["n"] * S_T))
    paths(ob, run, "capacity for n more items", lambda st, v: holds(run.it, st, cge(run.vec(st).cap - run.slots().n - run.args["n"] * S_T)))
    paths(ob, run, "the length stays", lambda st, v: grown_by(run, st, P(0)))
    paths(ob, run, "the contents stay", lambda st, v: earlier_kept(run, st))
    no_panic(ob, run)
def g_allocate(ob, dump, root):
    op = root.split("::")[-1]
    count = {"allocate": lambda r: P(1), "append": lambda r: P(1), "allocate_array": lambda r: r.args["n"], "append_array": lambda r: r.init(r.args["t"]).n}[op]
    def pre(r): return roomy(lambda r: count(r) * S_T)(r) + ([cge(count(r) - 1)] if "array" in op else []) + [cge(U32 - count(r))]
    run = SlabRun(dump, root, pre)
    if run.err is not None: return ob.add(run, op, undecided(run))
    n, q = count(run), run.slots()
    def result(st, v):
        p = polys(v)
        vs = [same(run.it, st, p[0], q.n)]
        if "array" in op: vs.append(same(run.it, st, p[1], n))
        return vs
    paths(ob, run, "the region starts at the previous end", result)
    paths(ob, run, "the length grows by exactly the region", lambda st, v: grown_by(run, st, n * S_T))
    paths(ob, run, "earlier contents stay", lambda st, v: earlier_kept(run, st))
    paths(ob, run, "capacity is reserved before the length grows", lambda st, v: reserved_first(run, st))
    if op == "append":
        paths(ob, run, "the value is stored at the returned id", lambda st, v: same(run.it, st, dec(run, st.copy(), run.slots(st), q.n), run.ref("t")))
    if op == "append_array":
        j = Poly.atom(("a", "k", "nat", ("item",)))
        t = run.ref("t")
        def stored(st, v):
            s = st.copy(); s.facts = s.facts.with_ge(j).with_ge(n - j - 1)
            r = split(run.it, s, lambda x: eq(run.it, x, dec(run, x, run.slots(st), q.n + j * S_T), run.it.seq_get(x, t, j)))
            if r is True: return Verdict(PROVED)
            def differs(e):
                a, sz = e.poly(q.n + j * S_T), e.poly(S_T)
                want = e.val(run.it.mk(("el", t.base, j), t.ety))
                return any(e.elem(run.slots(st), a + i) != ("enc", "T", want, i) for i in range(sz))
            return refute(run.it, s, differs, "item j is not stored at element j of the returned array", near=hints(run.slots(st)))
        paths(ob, run, "every item is stored at its element of the returned array", stored)
    no_panic(ob, run)
    if "array" in op:
        run = SlabRun(dump, root, lambda r: [ceq(count(r))])
        paths(ob, run, "zero items: the null array", lambda st, v: [same(run.it, st, polys(v)[0], P(U32)), same(run.it, st, polys(v)[1], P(0))])
        paths(ob, run, "zero items: the slab stays as it is", lambda st, v: unchanged(run, st, run.args["s"]))
        no_panic(ob, run, "zero items: no panic")
def cpu_wrap(ob, dump, root):
    run = Run(dump, root)
    op = root.split("::")[-1]
    def f(st, v):
        if op == "new": return same(run.it, st, v.f[0], run.args["v"])
        if op == "into_inner": return same(run.it, st, v, run.args["s"].f[0])
        return same(run.it, st, run.it.get(st, run.it.cell(st, v.c), v.p), run.init(run.args["s"]).f[0])
    paths(ob, run, "the wrapper holds the buffer itself", f)

# ---------------------------------------------------------------- C09: ids and slab arrays
def raw(run, name):
    v = run.args[name]
    if isinstance(v, Ref): v = run.init(v)
    return find_poly(v)
def hashes(ev): return tuple(e[1] for e in ev if e[0] == "hash")
def pointer(ob, dump, root):
    """The meaning of each operation on ids and slab arrays."""
    op = root.split("::")[-1]
    f = POINTERS.get(op)
    if f is None: return ob.add(None, "meaning of " + op, Verdict(OPEN, "no specification"))
    f(ob, dump, root, op)
def gives(want, rule, pre=None, pick=find_poly):
    def g(ob, dump, root, op):
        run = Run(dump, root, pre)
        paths(ob, run, rule, lambda st, v: same(run.it, st, pick(v), want(run)))
        no_panic(ob, run)
    return g
def two(want):
    """Result with a position and a length."""
    def f(rule, pre=None):
        def g(ob, dump, root, op):
            run = Run(dump, root, pre)
            paths(ob, run, rule, lambda st, v: [same(run.it, st, x, y) for x, y in zip(polys(v), want(run))])
            no_panic(ob, run)
        return g
    return f
ident = lambda v: v
def within(*names):
    def pre(r):
        t = P(0)
        for n in names: t = t + (raw(r, n))
        return [cge(U32 - t)]
    return pre
def order(ob, dump, root, op):
    run = Run(dump, root)
    a, b = raw(run, "a"), raw(run, "b")
    want = {"id_eq": ceq(a - b), "id_ne": cnot(ceq(a - b)), "id_lt": cge(b - a - 1), "id_le": cge(b - a), "id_gt": cge(a - b - 1), "id_ge": cge(a - b)}
    if op in want:
        paths(ob, run, "compares the raw values", lambda st, v: same(run.it, st, v, want[op]))
    else:
        def f(st, v):
            if isinstance(v, Agg) and v.ty.startswith("std::option"):
                if v.v == 0: return refute(run.it, st, lambda e: True, "does not compare")
                v = v.f[0]
            if not isinstance(v, Agg): return Verdict(OPEN, "ordering not resolved")
            return holds(run.it, st, [cge(b - a - 1), ceq(a - b), cge(a - b - 1)][v.v])
        paths(ob, run, "compares the raw values", f)
    no_panic(ob, run)
def raw_contains(ob, dump, root, op):
    run = Run(dump, root, lambda r: [cge(U32 - polys(r.args["a"])[0] - polys(r.args["a"])[1])])
    if run.err is not None: return ob.add(run, "the positions of its slots", undecided(run))
    (i, n), x = polys(run.args["a"])[:2], run.args["i"]
    want = cand(cge(x - i), cge(i + n - x - 1))
    paths(ob, run, "the positions of its slots", lambda st, v: same(run.it, st, v, want))
    no_panic(ob, run)
def hashing(ob, dump, root, op):
    run = Run(dump, root)
    a = raw(run, "id")
    def f(st, v):
        h = hashes(st.ev)
        if not h or any(not isinstance(x, Poly) for x in h): return Verdict(OPEN, "hash not resolved")
        return holds(run.it, st, ceq(h[0] - a)) if len(h) == 1 else Verdict(OPEN, "several parts are hashed")
    paths(ob, run, "hashes the raw value", f)
def at(ob, dump, root, op):
    run = Run(dump, root, lambda r: [cge(r.args["i"] - polys(r.args["a"])[1])])
    paths(ob, run, "no element past the end: the none id", lambda st, v: same(run.it, st, find_poly(v), P(U32)))
    no_panic(ob, run, "past the end, no panic")
    run = Run(dump, root, lambda r: addressable(r) + [cge(polys(r.args["a"])[1] - r.args["i"] - 1)])
    paths(ob, run, "element i starts i sizes after the array", lambda st, v: same(run.it, st, find_poly(v), polys(run.args["a"])[0] + run.args["i"] * S_T))
    no_panic(ob, run)
def iter_all(ob, dump, root, op):
    run = Run(dump, root, addressable)
    i, n = polys(run.args["a"])
    def f(st, v):
        # the visited ids, in order: single calls and loops of calls
        done = P(0); vs = []
        for e in st.ev:
            if e[0] == "callf":
                vs.append(same(run.it, st, find_poly(e[2][0]), i + done * S_T)); done = done + 1
            elif e[0] == "loop":
                if len(e[3]) != 1: return Verdict(OPEN, "iteration not resolved")
                calls = [x for x in e[3][0] if x[0] == "callf"]
                if len(calls) != 1 or any(x[0] == "loop" for x in e[3][0]): return Verdict(OPEN, "iteration not resolved")
                s = with_k(st, e[1], e[2])
                vs.append(same(run.it, s, find_poly(calls[0][2][0]), i + (done + Poly.atom(e[1])) * S_T)); done = done + P(e[2])
        vs.append(same(run.it, st, done, n))
        return vs
    paths(ob, run, "yields the ids of all elements once, in order", f)
    no_panic(ob, run)
def iter_next(ob, dump, root, op):
    def pre(r):
        p = polys(r.init(r.args["it"]))
        return [cge(U32 - p[0] - p[1] * S_T)]
    run = Run(dump, root, pre)
    if run.err is None and len(polys(run.init(run.args["it"]))) == 3:
        # an iterator with a position: what it yields next is an element of the array or nothing
        p0, n, pos = polys(run.init(run.args["it"]))
        def f(st, v):
            if not isinstance(v, Agg): return Verdict(OPEN, "result not resolved")
            if v.v == 0: return Verdict(PROVED)
            x = find_poly(v)
            return [holds(run.it, st, cge(x - p0)), holds(run.it, st, cge(p0 + n * S_T - x - S_T))]
        paths(ob, run, "yields only elements of the array", f)
        first = Run(dump, mod(root) + "::array_iter", addressable)
        if first.err is None and len(first.outs) == 1:
            ia, na = polys(first.args["a"])
            start = polys(first.outs[0][1])
            if start == [ia, na, P(0)]:
                # positions count the elements yielded: each call yields the one at the position and moves on by one
                def step(st, v):
                    if not isinstance(v, Agg): return Verdict(OPEN, "result not resolved")
                    s = st.copy(); s.facts = s.facts.with_ge(pos).with_ge(n - pos)
                    if s.facts.contradictory(): return Verdict(PROVED)
                    if v.v == 0: return holds(run.it, s, cge(pos - n))
                    after = polys(run.at_end(st, run.args["it"]))
                    if len(after) != 3: return Verdict(OPEN, "position not resolved")
                    r = same(run.it, s, find_poly(v), p0 + pos * S_T)
                    if r.status != PROVED: return r
                    s.facts = s.facts.with_ge(n - pos - 2)
                    return [same(run.it, s, a, b) for a, b in zip(after, (p0, n, pos + 1))]
                paths(ob, run, "yields the element at the position and moves on by one", step)
    no_panic(ob, run)
def union(ob, dump, root, op):
    def pre(r):
        (ai, an), (bi, bn) = polys(r.init(r.args["a"])), polys(r.init(r.args["b"]))
        return [cge(U32 - ai - an), cge(U32 - bi - bn)]
    run = Run(dump, root, pre)
    (ai, an), (bi, bn) = polys(run.init(run.args["a"])), polys(run.init(run.args["b"]))
    def f(st, v):
        p = polys(run.at_end(st, run.args["a"]))
        if len(p) != 2: return Verdict(OPEN, "result not resolved")
        i, n = p
        e = i + n
        want = cand(cand(cand(cge(ai - i), cge(bi - i)), cor(ceq(ai - i), ceq(bi - i))), cand(cand(cge(e - ai - an), cge(e - bi - bn)), cor(ceq(e - ai - an), ceq(e - bi - bn))))
        return holds(run.it, st, want)
    paths(ob, run, "the smallest array around both", f)
    no_panic(ob, run)
def sub_slab(ob, dump, root, op):
    def pre(r):
        i, n = polys(r.init(r.args["a"])); q = r.init(r.args["slab"])
        return [cge(U32 - i - n * S_T), cge(q.n - i - n * S_T)]
    run = Run(dump, root, pre)
    i, n = polys(run.init(run.args["a"]))
    def f(st, v):
        if not isinstance(v, Ref): return Verdict(OPEN, "result not resolved")
        s = st.copy()
        q = run.it.get(s, run.it.cell(s, v.c), v.p)
        return same(run.it, s, q, run.it.seq_sub(run.init(run.args["slab"]), i, n * S_T))
    paths(ob, run, "exactly the slots of the elements", f)
    no_panic(ob, run)
    run = Run(dump, root, lambda r: [ceq(polys(r.init(r.args["a"]))[1])])
    paths(ob, run, "no slots for an empty array", lambda st, v: same(run.it, st, run.it.len_at(st, v), P(0)) if isinstance(v, Ref) else Verdict(OPEN, "result not resolved"))
    no_panic(ob, run, "empty array, no panic")
def raw_view(ob, dump, root, op):
    run = Run(dump, root, addressable)
    i, n = polys(run.args["a"])
    paths(ob, run, "the raw view covers exactly the elements' slots", lambda st, v: [same(run.it, st, polys(v)[0], i), same(run.it, st, polys(v)[1], n * S_T)])
    no_panic(ob, run)
def element(ob, dump, root, op):
    run = Run(dump, root, lambda r: [cge(r.init(r.args["s"]).n - r.args["i"] - 1)])
    def f(st, v):
        if not isinstance(v, Ref): return Verdict(OPEN, "result not resolved")
        want = Ref(run.args["s"].c, (("i", run.args["i"]),))
        if v.c != want.c or len(v.p) != 1 or v.p[0][0] != "i": return Verdict(OPEN, "result not resolved")
        return same(run.it, st, v.p[0][1], run.args["i"])
    paths(ob, run, "element i", f)
    no_panic(ob, run)
def saturating(ob, dump, root, op):
    run = Run(dump, root)
    a, b = run.args["a"], run.args["b"]
    paths(ob, run, "max(a - b, 0)", lambda st, v: cases(run.it, st, v, [(cge(a - b), lambda s: a - b), (TRUE, lambda s: P(0))]))
    no_panic(ob, run)
R = lambda n: (lambda r: raw(r, n))
POINTERS = {
    "array_raw_contains": raw_contains,
    "id_new": gives(R("i"), "holds the raw value"), "id_from_u32": gives(R("i"), "holds the raw value"),
    "id_from_usize": gives(R("i"), "holds the position", within("i")),
    "id_none": gives(lambda r: P(U32), "the none id"), "id_default": gives(lambda r: P(U32), "the default id is the none id"),
    "id_inner": gives(R("id"), "the raw value"), "id_index": gives(R("id"), "the raw value"), "id_into_u32": gives(R("id"), "the raw value"), "id_clone": gives(R("id"), "the same id"),
    "id_is_none": gives(lambda r: ceq(raw(r, "id") - U32), "true exactly for the none id", None, ident), "id_is_some": gives(lambda r: cnot(ceq(raw(r, "id") - U32)), "true exactly for other ids", None, ident),
    "id_add_usize": gives(lambda r: raw(r, "id") + raw(r, "n"), "moves by n slots", within("id", "n")), "id_add_u32": gives(lambda r: raw(r, "id") + raw(r, "n"), "moves by n slots", within("id", "n")),
    "usize_add_id": gives(lambda r: raw(r, "id") + raw(r, "n"), "moves by n slots", within("id", "n")), "u32_add_id": gives(lambda r: raw(r, "id") + raw(r, "n"), "moves by n slots", within("id", "n")),
    "array_new": two(lambda r: (r.args["i"], r.args["n"]))("holds position and length"), "array_none": two(lambda r: (P(U32), P(0)))("the null array"), "array_default": two(lambda r: (P(U32), P(0)))("the default array is the null array"),
    "array_from_id": two(lambda r: (raw(r, "id"), P(1)))("one element at the id", lambda r: [cge(U32 - 1 - raw(r, "id"))]), "array_clone": two(lambda r: polys(r.init(r.args["a"])))("the same array"),
    "array_eq": lambda ob, dump, root, op: array_eq(ob, dump, root), "array_len": gives(lambda r: polys(r.args["a"])[1], "the number of elements"),
    "array_is_empty": gives(lambda r: ceq(polys(r.args["a"])[1]), "true exactly for length zero", None, ident),
    "array_is_null": lambda ob, dump, root, op: array_is_null(ob, dump, root),
    "array_starting_index": gives(lambda r: polys(r.args["a"])[0], "the position of the first element"),
    "array_at": at, "array_iter_all": iter_all, "array_iter_next": iter_next, "array_into_u32_array": raw_view, "array_union": union, "array_sub_slab": sub_slab,
    "slab_size": gives(lambda r: S_T, "the declared size"), "saturating_sub": saturating,
    "slice_index": element, "slice_index_mut": element, "array_index": element, "array_index_mut": element, "id_hash": hashing,
}
for _o in ("id_eq", "id_ne", "id_lt", "id_le", "id_gt", "id_ge", "id_cmp", "id_partial_cmp"): POINTERS[_o] = order
def array_eq(ob, dump, root):
    run = Run(dump, root)
    (ai, an), (bi, bn) = polys(run.init(run.args["a"])), polys(run.init(run.args["b"]))
    paths(ob, run, "equal exactly when position and length agree", lambda st, v: same(run.it, st, v, cand(ceq(ai - bi), ceq(an - bn))))
def array_is_null(ob, dump, root):
    for rule, pre, want in (("the null array is null", lambda r: [ceq(polys(r.args["a"])[0] - U32), ceq(polys(r.args["a"])[1])], TRUE), ("an array with elements inside the address space is not", lambda r: [cge(U32 - 1 - polys(r.args["a"])[0]), cge(polys(r.args["a"])[1] - 1)], FALSE)):
        run = Run(dump, root, pre)
        paths(ob, run, rule, lambda st, v: same(run.it, st, v, want))
POINTER_SKIP = {"u32_cmp", "u32_hash", "array_iter"}

# ---------------------------------------------------------------- C10: the shader build
def core_of(dump): return os.path.join(os.path.dirname(dump), "dump-core")
def joint(it, st, facts):
    """The state of a path on which other facts hold as well."""
    s = st.copy()
    f = s.facts
    for p in facts.ge:
        f = f.with_ge(p)
        if f.contradictory(): break
    for p in facts.ne: f = f.with_ne(p)
    for t, v in facts.b.items(): f = f.with_b(t, v)
    for t, v in facts.disc.items():
        if isinstance(v, tuple):
            for x in v[1]: f = f.with_disc(t, x, False)
        else: f = f.with_disc(t, v)
    s.facts = f.with_ge(P(-1)) if any_contra(f, facts) else f
    return s
def any_contra(f, facts): return f.contradictory() or any(f.empty_with(p) for p in facts.ge)
def agree(ob, dump, root):
    """Both builds give the same results and leave the same values wherever the CPU build returns, and the shader build only accesses slots in range there."""
    def pre(r):
        cs = []
        for n, a in r.args.items():
            if isinstance(a, Ref):
                try: q = find_seq(r.init(a))
                except Undecided: q = None
                if q: cs.append(cge((1 << 32) - 1 - q[1].n))
        return cs
    cpu, gpu = Run(core_of(dump), root, pre), Run(dump, root, pre)
    rule = "the same results as on the CPU"
    for r in (cpu, gpu):
        if r.err is not None: return ob.add(gpu, rule, undecided(r))
    vs, ps = [], []
    cpu_fails = {(msg, norm(fname)) for _, msg, fname, _, _ in cpu.it.panics}
    refs = [n for n, a in cpu.args.items() if isinstance(a, Ref)]
    def outcome(r, st, v):
        return [v] + [r.at_end(st, r.args[n]) for n in refs]
    for sc, vc in cpu.outs:
        want = outcome(cpu, sc, vc)
        for sg, vg in gpu.outs:
            s = joint(gpu.it, sg, sc.facts)
            if s.facts.contradictory(): continue
            for a, b in zip(outcome(gpu, sg, vg), want):
                if a == b: vs.append(Verdict(PROVED)); continue
                if isinstance(a, Ref) and isinstance(b, Ref): a, b = gpu.it.load(s, a) if hasattr(gpu.it, "load") else a, cpu.it.load(sc, b) if hasattr(cpu.it, "load") else b
                vs.append(same(gpu.it, s, a, b))
        for sg, msg, fname, span, definite in gpu.it.panics:
            if (msg, norm(fname)) in cpu_fails: continue      # the CPU build stops there as well
            s = joint(gpu.it, sg, sc.facts)
            if s.facts.contradictory(): continue
            ps.append(refute(gpu.it, s, lambda e: True, "%s in %s (%s)" % (msg, fname, span)))
    if not vs and not cpu.outs: vs = [Verdict(PROVED, "never returns")]
    ob.all(gpu, rule, vs)
    ob.all(gpu, "accesses in range wherever the CPU build returns", ps)
def helper(ob, dump, root):
    """The helpers with variants of their own, against what they denote."""
    run = Run(dump, root)
    name = root.split("::")[-1]
    if run.err is not None: return ob.add(run, "what the helper denotes", undecided(run))
    a = run.args
    if name == "saturating_sub":
        vs = []
        for st, v in run.outs:
            if not isinstance(v, Poly): vs.append(Verdict(OPEN, "number not resolved")); continue
            x, y = a["a"], a["b"]
            r = split(run.it, st, lambda s: s.facts.entails_eq(v - x + y) and s.facts.entails(x - y) or s.facts.entails_eq(v) and s.facts.entails(y - x))
            vs.append(Verdict(PROVED) if r is True else refute(run.it, st, lambda e: e.poly(v) != max(0, e.poly(x) - e.poly(y)), "%s" % short(v)))
        ob.all(run, "the difference, or zero", vs)
        return no_panic(ob, run)
    # out of range the GPU's variants are undefined
    inside = lambda r: [cge(find_seq(r.init(r.args["s"]))[1].n - r.args["index"] - 1)]
    run = Run(dump, root, inside); a = run.args
    if run.err is not None: return ob.add(run, "what the helper denotes", undecided(run))
    vs = []
    for st, v in run.outs:
        if name.endswith("_set"):
            before, after = find_seq(run.init(a["s"])), find_seq(run.at_end(st, a["s"]))
            if not after: vs.append(Verdict(OPEN, "slice not resolved")); continue
            s = st.copy()
            q = before[1]
            want = Seq(q.n, q.base, q.log + (Ent("el", a["index"], P(1), a["t"], None, None),), q.ety)
            vs.append(same(run.it, s, after[1], want))
        else:
            if not isinstance(v, Ref): vs.append(Verdict(OPEN, "reference not resolved")); continue
            w = Ref(a["s"].c, a["s"].p + (("i", a["index"]),))
            if v == w: vs.append(Verdict(PROVED)); continue
            if v.c != w.c or len(v.p) != len(w.p) or v.p[-1][0] != "i": vs.append(Verdict(OPEN, "reference %s" % short(v))); continue
            vs.append(same(run.it, st, v.p[-1][1], a["index"]))
    ob.all(run, "the element at the index", vs)
    no_panic(ob, run, "no failure in range")

# ---------------------------------------------------------------- small clients: several operations one after the other
S_S = size_atom("S")
def core_client(ob, dump, root):
    """What is read after a sequence of operations."""
    op = root.split("::")[-1]
    BIG = P(1 << 30)
    sizes = [cge(S_T - 1), cge(BIG - S_T)]
    def S(r): return find_seq(r.init(r.args["s"]))[1].n
    def seq(r): return r.init(r.args["t"])
    def run_with(rule, pre, f):
        run = SlabRun(dump, root, lambda r: sizes + pre(r))
        paths(ob, run, rule, lambda st, v: f(run, st, v))
    def item(run, k): return run.it.seq_get(run.st0.copy(), seq(run), k)
    def items(run, st, v):
        """A vector that equals the slice."""
        t = seq(run)
        if not isinstance(v, VecV): return Verdict(OPEN, "result not resolved")
        r = same(run.it, st, v.seq.n, t.n)
        if r.status != PROVED: return r
        j = Poly.atom(("a", "k", "nat", ("element",)))
        s = st.copy(); s.facts = s.facts.with_ge(j).with_ge(t.n - j - 1).with_ge((t.n - j - 1) * S_T)
        if s.facts.contradictory(): return Verdict(PROVED)
        if split(run.it, s, lambda x: eq(run.it, x, run.it.seq_get(x, v.seq, j), run.it.seq_get(x, t, j))) is True: return Verdict(PROVED)
        return Verdict(OPEN, "elements not resolved")
    kept = "what was there before is still read"
    got = "what was written is read"
    if op == "write_read":
        run_with(got, lambda r: [cge(S(r) - find_poly(r.args["id"]) - S_T)], lambda r, st, v: same(r.it, st, v, r.ref("t")))
    elif op == "write_other":
        def pre(before):
            def f(r):
                a, b = find_poly(r.args["id"]), find_poly(r.args["other"])
                return [cge(S_S - 1), cge(BIG - S_S), cge(S(r) - a - S_T), cge(S(r) - b - S_S), cge(b - a - S_T) if before else cge(a - b - S_S)]
            return f
        for w in (True, False):
            run_with(kept + (", in front" if w else ", behind"), pre(w), lambda r, st, v: same(r.it, st, v, dec(r, r.st0.copy(), r.slots(), find_poly(r.args["id"]))))
    elif op.startswith("write_array_read"):
        def pre(r):
            i0, n = arr(r, "a")
            t = seq(r)
            cs = [ceq(n - t.n), cge(n - 1), cge(S(r) - i0 - n * S_T), cge(P(U32) - S(r))]
            if "i" in r.args: cs += [cge(n - r.args["i"] - 1), cge((n - r.args["i"] - 1) * S_T)]
            return cs
        run_with(got, pre, items if op.endswith("vec") else lambda r, st, v: same(r.it, st, v, item(r, r.args["i"])))
    elif op == "write_slice_read":
        def pre(before):
            def f(r):
                a, b, n = find_poly(r.args["id"]), r.args["index"], seq(r).n
                return [cge(S(r) - a - S_T), cge(S(r) - b - n * S_T), cge(P(U32) - S(r)), cge(b - a - S_T) if before else cge(a - b - n * S_T)]
            return f
        for w in (True, False):
            run_with(kept + (", in front" if w else ", behind"), pre(w), lambda r, st, v: same(r.it, st, v, dec(r, r.st0.copy(), r.slots(), find_poly(r.args["id"]))))
    else:
        def pre(r):
            n = S_T * seq(r).n if "array" in op or op == "append_read_vec" else S_T
            cs = []
            if "array" in op or op == "append_read_vec": cs += [cge(seq(r).n - 1), cge(BIG - seq(r).n), cge(BIG - n)]
            if "other" in r.args: n, cs = n + S_S, cs + [cge(S_S - 1), cge(BIG - S_S)]
            if "i" in r.args: cs += [cge(seq(r).n - r.args["i"] - 1), cge((seq(r).n - r.args["i"] - 1) * S_T)]
            return cs + [cge(P(U32) - S(r) - n)]
        def f(r, st, v):
            if op == "append_read_vec": return items(r, st, v)
            if "i" in r.args: return same(r.it, st, v, item(r, r.args["i"]))
            if op == "allocate_write_read":
                if not isinstance(v, Agg) or len(v.f) != 2: return Verdict(OPEN, "result not resolved")
                return [holds(r.it, st, v.f[0]) if isinstance(v.f[0], Cond) else Verdict(OPEN, "result not resolved"), same(r.it, st, v.f[1], r.ref("t"))]
            return same(r.it, st, v, r.ref("t"))
        run_with(got, pre, f)
