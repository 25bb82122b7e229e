"""Semantics of the standard library items the analysed code is written with."""
from interp import *

def strip(path):
    """Path without generic arguments; `<impl X>` becomes `{X}`."""
    path = norm(path)
    out, i, n = "", 0, len(path)
    while i < n:
        ch = path[i]
        if ch == "<":
            d, j = 0, i
            while j < n:
                if path[j] == "<": d += 1
                elif path[j] == ">" and path[j - 1] != "-":
                    d -= 1
                    if d == 0: break
                j += 1
            inner = path[i + 1:j]
            if inner.startswith("impl "):
                out += "{" + strip(inner[5:]) + "}"
            elif i == 0:
                out += "<" + strip(inner) + ">"
            else:
                if out.endswith("::"): out = out[:-2]
            i = j + 1
            continue
        out += ch; i += 1
    return out

FN, TR = {}, {}
def fn(*paths):
    def d(f):
        for p in paths: FN[p] = f
        return f
    return d
def tr(path, *selfs):
    def d(f):
        for s in selfs: TR[(path, s)] = f
        return f
    return d

class Ctx:
    """One call being modelled."""
    __slots__ = ("it", "st", "callee", "inst", "args", "dest", "depth", "span", "m")
    def __init__(self, it, st, callee, inst, args, dest, depth, span, m):
        self.it, self.st, self.callee, self.inst, self.args, self.dest, self.depth, self.span, self.m = it, st, callee, inst, args, dest, depth, span, m
    def ret(self, v=UNIT, st=None): return [(st or self.st, v)]
    def ty(self): return self.it.tn(self.dest)
    def some(self, v): return Agg(self.ty(), 1, (v,))
    def none(self): return Agg(self.ty(), 0, ())
    def targ(self, i): return self.it.tn(self.callee["args"][i])
    def decide(self, c): return self.it.decide(self.st, c)
    def load(self, r): return self.it.load(self.st, r)
    def peek(self, r): return self.it.get(self.st, self.it.cell(self.st, r.c), r.p)
    def store(self, r, v): self.it.store(self.st, r, v)
    def panic(self, msg, c=None):
        """Panics unless c holds (c None: always)."""
        if c is not None:
            k = self.it.known(self.st, c)
            if k is True: return
            self.it.add_panic(self.st, msg, self.it.cur[-1] if self.it.cur else "", self.span, c)
            self.it.assume(self.st, c)
            return
        self.it.panics.append((self.st, msg, self.it.cur[-1] if self.it.cur else "", self.span, True))
        raise Stop()

def stored(v):
    """The value in a MaybeUninit."""
    if isinstance(v, Agg) and v.ty.startswith("std::mem::MaybeUninit<") and len(v.f) == 1 and isinstance(v.f[0], Agg):
        v = v.f[0]
        while isinstance(v, Agg) and v.ty.startswith(("std::mem::ManuallyDrop<", "std::mem::MaybeDangling<")) and len(v.f) == 1: v = v.f[0]
        return v
    return None
def self_key(it, ti):
    t = it.ty(ti); k = t["k"]
    if k == "adt": return norm(t["path"])
    if k == "param": return "#param"
    if k == "alias": return "#param"
    if k == "prim": return t["n"]
    if k in ("ref", "ptr"): return "&" + self_key(it, t["to"])
    if k == "array": return "[;]"
    if k == "slice": return "[]"
    if k == "tuple": return "()"
    return k

class Models:
    def __init__(self):
        self.mk = {"std::vec::Vec": self.mk_vec}
        self.agg = {}
        self.drops = {}
        self.nodrop = {"std::vec::Vec", "std::string::String"}
        self.fn, self.tr = FN, TR
    def mk_vec(self, it, term, ti, t):
        q = Seq(Poly.atom(("a", "len", "len32", term)), term, (), t["args"][0])
        return VecV(q, Poly.atom(("a", "cap", "len32", term)))
    def field(self, it, st, v, e): return None
    def runtime_check(self, it, o): return FALSE
    def transmute(self, it, st, a, fi, ti):
        """Initialised storage is the value it holds."""
        ft, tt = it.tn(fi), it.tn(ti)
        if isinstance(a, Seq) and ft.startswith("[std::mem::MaybeUninit<") and tt.startswith("[") and ft[len("[std::mem::MaybeUninit<"):].split(">;")[0] == tt[1:].rsplit(";", 1)[0]:
            log = []
            for e in a.log:
                if e.kind not in ("el", "fill"): return None
                v = stored(e.val)
                if v is None: return None
                log.append(Ent(e.kind, e.start, e.count, v, e.k, e.K))
            b = a.base
            if not (isinstance(b, tuple) and b and b[0] == "fill"): return None
            return Seq(a.n, ("unk", "uninitialised"), tuple(log), it.tyi(tt[1:].rsplit(";", 1)[0]))
        return None
    def set_variant(self, it, st, c, path, v, vi): return False
    def call(self, it, st, callee, inst, args, dest, depth, span):
        c = Ctx(it, st, callee, inst, args, dest, depth, span, self)
        path = norm(callee["path"])
        cuts = it.opts.get("cuts")
        if cuts:
            h = cuts.get(strip(path))
            if h:
                r = h(c)
                if r is not None: return r
        if callee["trait"] and callee["args"]:
            sk = self_key(it, callee["args"][0])
            h = self.tr.get((path, sk)) or self.tr.get((path, "*"))
            if h:
                r = h(c)
                if r is not None: return r
        h = self.fn.get(path) or self.fn.get(strip(path))
        if h:
            r = h(c)
            if r is not None: return r
        if inst is not None:
            ip = strip(inst["path"])
            h = self.fn.get(ip)
            if h:
                r = h(c)
                if r is not None: return r
            if inst["kind"].startswith("cloneshim"):
                return c.ret(c.load(args[0]))
        if is_panic(path):
            it.panics.append((st, panic_text(path, args), it.cur[-1] if it.cur else "", span, True))
            return []
        return None
    def unknown_call(self, it, st, path, args, dest, depth, span):
        it.note("call of %s" % path)
        it.unknown_calls = getattr(it, "unknown_calls", set()) | {path}
        self.havoc_args(it, st, args)
        st.event("unknown", path)
        return [(st, it.unknown_of(dest, "result of " + path))]
    def havoc_args(self, it, st, args):
        for a in args:
            if isinstance(a, Clo) or isinstance(a, Agg): self.havoc_args(it, st, a.f)
            if isinstance(a, Ref) and a.c in st.cells:
                try: st.cells[a.c] = it.put(st, st.cells[a.c], a.p, it.unk("passed to an unknown function"))
                except (Undecided, Stop, Fork): st.cells[a.c] = it.unk("passed to an unknown function")

def is_panic(p):
    return p.startswith("std::panicking::") or p.startswith("std::rt::begin_panic") or p in ("std::option::unwrap_failed", "std::option::expect_failed", "std::result::unwrap_failed", "std::slice::index::slice_index_fail", "std::process::abort")
def panic_text(p, args): return p.split("::")[-1]

# ---------------------------------------------------------------- slab items of unknown type
S = "crabslab::SlabItem::"
def slab_place(c, r):
    """(cell, path of the whole sequence, offset, length) of a slab reference."""
    if not isinstance(r, Ref): raise Undecided("slab reference")
    if r.p and r.p[-1][0] == "sub": return r.c, r.p[:-1], r.p[-1][1], r.p[-1][2]
    return r.c, r.p, P(0), c.it.len_at(c.st, r)
@tr(S + "read_slab", "#param")
def _(c):
    idx, slab = c.args
    tname = c.targ(0)
    cell, path, off, n = slab_place(c, slab)
    size = c.it.size_of(tname)
    if not isinstance(idx, Poly): return c.ret(c.it.unk("decoded at an unknown position"))
    fit = cge(n - idx - size)
    ok = c.it.known(c.st, fit)
    if ok is False: ok = False
    c.st.event("rdT", cell, path, off + idx, size, tname, ok)
    c.panic("a type's read may fail out of range", fit)
    q = c.it.get(c.st, c.it.cell(c.st, cell), path)
    if not isinstance(q, Seq): return c.ret(c.it.unk("decoded from an unknown slab"))
    return c.ret(c.it.seq_dec(c.st, q, off + idx, size, tname))
@tr(S + "write_slab", "#param")
def _(c):
    t, idx, slab = c.args
    tname = c.targ(0)
    cell, path, off, n = slab_place(c, slab)
    size = c.it.size_of(tname)
    v = c.load(t)
    if not isinstance(idx, Poly): raise Undecided("write at an unknown position")
    fit = cge(n - idx - size)
    ok = c.it.known(c.st, fit)
    c.st.event("wrT", cell, path, off + idx, size, tname, ok)
    c.panic("a type's write may fail out of range", fit)
    q = c.it.get(c.st, c.it.cell(c.st, cell), path)
    if not isinstance(q, Seq): raise Undecided("write to an unknown slab")
    q2 = Seq(q.n, q.base, q.log + (Ent("enc", off + idx, size, (tname, v), None, None),), q.ety)
    c.st.cells[cell] = c.it.put(c.st, c.st.cells[cell], path, q2)
    return c.ret(idx + size)
@tr("std::clone::Clone::clone", "#param")
def _(c): return c.ret(c.load(c.args[0]))
@tr("std::default::Default::default", "#param", "[;]")
def _(c): return c.ret(c.it.mk(("default", c.targ(0)), c.callee["args"][0]))
@tr("std::default::Default::default", "()")
def _(c):
    if c.inst is not None and c.inst.get("body"): return None
    t = c.it.ty(c.callee["args"][0])
    return c.ret(c.it.mk(("default", t["n"]), c.callee["args"][0]))
@tr("std::clone::Clone::clone", "std::vec::Vec", "[;]", "()", "f32", "f64")
def _(c): return c.ret(c.load(c.args[0]))
@tr("std::cmp::PartialEq::eq", "#param")
def _(c): return c.ret(cop(("eq", c.load(c.args[0]), c.load(c.args[1]))))
@tr("std::cmp::PartialEq::ne", "#param")
def _(c): return c.ret(cnot(cop(("eq", c.load(c.args[0]), c.load(c.args[1])))))
@tr("std::ops::FnMut::call_mut", "#param")
def _(c):
    a = c.args[1]
    c.st.event("callf", c.args[0], a.f if isinstance(a, Agg) else a)
    return c.ret(c.it.mk(("fnresult", len(c.st.ev)), c.dest) if c.it.tn(c.dest) != "()" else UNIT)
@tr("std::ops::Fn::call", "#param")
def _(c): return TR[("std::ops::FnMut::call_mut", "#param")](c)
@tr("std::ops::FnOnce::call_once", "#param")
def _(c): return TR[("std::ops::FnMut::call_mut", "#param")](c)

# ---------------------------------------------------------------- numbers
@fn("std::f32::{f32}::to_bits", "std::f64::{f64}::to_bits")
def _(c):
    v = c.args[0]
    w = "u32" if "f32" in norm(c.callee["path"]) else "u64"
    if isinstance(v, Op) and isinstance(v.t, tuple) and v.t[0] == "b2f": return c.ret(v.t[1])
    return c.ret(Poly.atom(("a", "f2b", w, v)))
@fn("std::f32::{f32}::is_nan", "std::f64::{f64}::is_nan")
def _(c):
    v = c.args[0]
    if isinstance(v, Poly) and v.is_const():
        m, top = (23, 0xff) if "f32" in norm(c.callee["path"]) else (52, 0x7ff)
        return c.ret(TRUE if v.value() >> m & top == top and v.value() & ((1 << m) - 1) else FALSE)
    return c.ret(cop(("isnan", v)))
@fn("std::f32::{f32}::from_bits", "std::f64::{f64}::from_bits")
def _(c):
    v = c.args[0]
    n = "f32" if "f32" in norm(c.callee["path"]) else "f64"
    a = v.as_atom() if isinstance(v, Poly) else None
    if a and a[1] == "f2b": return c.ret(a[3])
    return c.ret(Op(("b2f", v), n))
def int_ty(c):
    return c.targ(0) if c.callee["args"] else c.ty()
@fn("std::intrinsics::integer_max", "std::intrinsics::integer_min")
def _(c):
    a, b = c.args
    if not (isinstance(a, Poly) and isinstance(b, Poly)): return c.ret(c.it.unknown_of(c.dest, "maximum of unknown numbers"))
    big = c.decide(cge(a - b))
    return c.ret(a if big == c.callee["path"].endswith("max") else b)
@fn("std::intrinsics::saturating_sub", "std::intrinsics::saturating_add")
def _(c):
    a, b = c.args
    ty = int_ty(c); lo, hi = BOUNDS[ty]
    p = a - b if c.callee["path"].endswith("sub") else a + b
    if c.decide(cge(p - lo)):
        return c.ret(p if c.decide(cge(-p + hi)) else P(hi))
    return c.ret(P(lo))
@fn("std::intrinsics::wrapping_add", "std::intrinsics::wrapping_sub", "std::intrinsics::wrapping_mul")
def _(c):
    a, b = c.args; m = c.callee["path"]
    return c.ret(c.it.wrap(c.st, a + b if m.endswith("add") else a - b if m.endswith("sub") else a * b, int_ty(c)))
@fn("std::intrinsics::unchecked_add", "std::intrinsics::unchecked_sub", "std::intrinsics::unchecked_mul")
def _(c):
    a, b = c.args; m = c.callee["path"]
    return c.ret(a + b if m.endswith("add") else a - b if m.endswith("sub") else a * b)
@fn("std::intrinsics::unchecked_shl", "std::intrinsics::unchecked_shr")
def _(c):
    a, b = c.args
    return c.ret(c.it.bitop(c.st, "Shl" if c.callee["path"].endswith("shl") else "Shr", a, b, int_ty(c)))
@fn("std::intrinsics::add_with_overflow", "std::intrinsics::sub_with_overflow", "std::intrinsics::mul_with_overflow")
def _(c):
    a, b = c.args; m = c.callee["path"].split("::")[-1].split("_")[0]
    ty = int_ty(c)
    p = a + b if m == "add" else a - b if m == "sub" else a * b
    return c.ret(Agg(c.ty(), 0, (c.it.wrap(c.st, p, ty), c.it.over(p, ty))))
@fn("std::intrinsics::ctlz", "std::intrinsics::ctlz_nonzero", "std::intrinsics::cttz", "std::intrinsics::cttz_nonzero", "std::intrinsics::ctpop")
def _(c):
    x = c.args[0]; ty = int_ty(c); w = WIDTH.get(ty)
    if not isinstance(x, Poly) or w is None or BOUNDS[ty][0] < 0: return None
    k = c.callee["path"].split("::")[-1].split("_")[0]
    if x.is_const(): return c.ret(P(bit_count(k, x.value(), w)))
    r = Poly.atom(("a", "op" + k, "u32", x, P(w)))
    c.it.assume(c.st, cge(P(w) - r))
    return c.ret(r)
@fn("std::intrinsics::likely", "std::intrinsics::unlikely", "std::hint::black_box", "std::intrinsics::black_box")
def _(c): return c.ret(c.args[0])
@fn("std::intrinsics::assume", "std::intrinsics::cold_path", "std::hint::assert_unchecked")
def _(c): return c.ret()
@fn("std::intrinsics::size_of", "std::mem::size_of")
def _(c):
    t = c.it.ty(c.callee["args"][0])
    w = WIDTH.get(t["n"])
    if t["n"] in ("f32",): w = 32
    if t["n"] in ("f64",): w = 64
    if w: return c.ret(P((w + 7) // 8))
    return c.ret(Poly.atom(("a", "sizeof", "pos", t["n"])))
@fn("std::mem::swap")
def _(c):
    a, b = c.args
    x, y = c.peek(a), c.peek(b)
    c.store(a, y); c.store(b, x)
    return c.ret()
@fn("std::mem::replace")
def _(c):
    x = c.peek(c.args[0]); c.store(c.args[0], c.args[1])
    return c.ret(x)
@fn("std::mem::drop", "std::mem::forget", "std::convert::identity")
def _(c):
    if c.callee["path"].endswith("forget"): return c.ret()
    if c.callee["path"].endswith("identity"): return c.ret(c.args[0])
    ti = c.callee["args"][0]
    if not c.it.has_drop(ti): return c.ret()
    cell = ("tmp", fresh_id())
    c.st.cells[cell] = c.args[0]
    return [(s, UNIT) for s in c.it.drop_value(c.st, Ref(cell, ()), ti, c.depth)]
@fn("std::ptr::const_ptr::{*const T}::cast", "std::ptr::mut_ptr::{*mut T}::cast")
def _(c): return c.ret(c.args[0])
@tr("std::hash::Hash::hash", "u32", "u64", "usize", "u8", "#param")
def _(c):
    c.st.event("hash", c.load(c.args[0]), c.args[1])
    return c.ret()

# ---------------------------------------------------------------- vectors
def vec(c, r=None):
    r = c.args[0] if r is None else r
    v = c.peek(r)
    if isinstance(v, VecV): return v
    if isinstance(v, Op): return None
    return None
def setvec(c, r, seq, cap=None):
    v = c.peek(r)
    if r.c[0] == "h": c.st.event("grow", r.c, r.p, v.seq.n, seq.n, v.cap if cap is None else cap)
    c.st.cells[r.c] = c.it.put(c.st, c.it.cell(c.st, r.c), r.p, VecV(seq, v.cap if cap is None else cap))
def elem_ty(c, i=0):
    return c.callee["args"][i]
@fn("std::vec::Vec::new")
def _(c): return c.ret(VecV(Seq(P(0), None, (), elem_ty(c)), P(0)))
@tr("std::default::Default::default", "std::vec::Vec")
def _(c): return c.ret(VecV(Seq(P(0), None, (), c.it.ty(c.callee["args"][0])["args"][0]), P(0)))
@fn("std::vec::Vec::with_capacity")
def _(c): return c.ret(VecV(Seq(P(0), None, (), elem_ty(c)), c.args[0]))
@fn("std::vec::from_elem")
def _(c): return c.ret(VecV(Seq(c.args[1], ("fill", c.args[0]), (), elem_ty(c)), c.args[1]))
@fn("std::vec::Vec::len", "std::slice::{[T]}::len", "std::vec::Vec::is_empty", "std::slice::{[T]}::is_empty")
def _(c):
    n = c.it.len_at(c.st, c.args[0])
    return c.ret(ceq(n) if c.callee["path"].endswith("is_empty") else n)
@fn("std::vec::Vec::capacity")
def _(c):
    v = vec(c)
    return c.ret(v.cap if v else c.it.unknown_of(c.dest, "capacity"))
def at_least_cap(c, v, n):
    """Capacity after making room for length n: some value not below either."""
    if c.it.known(c.st, cge(v.cap - n)) is True: return v.cap
    cap = Poly.atom(("a", "newcap", "len32", v.cap, n))
    c.st.facts = c.st.facts.with_ge(cap - n).with_ge(cap - v.cap)
    return cap
@fn("std::vec::Vec::reserve", "std::vec::Vec::reserve_exact")
def _(c):
    v = vec(c)
    setvec(c, c.args[0], v.seq, at_least_cap(c, v, v.seq.n + c.args[1]))
    c.st.event("reserve", c.args[0].c, c.args[0].p, v.seq.n + c.args[1])
    return c.ret()
@fn("std::vec::Vec::push")
def _(c):
    v = vec(c)
    if v is None: return None
    q = c.it.seq_append(v.seq, [Ent("el", v.seq.n, P(1), c.args[1], None, None)], P(1))
    setvec(c, c.args[0], q, grown(v))
    return c.ret()
def grown(v): return v.cap     # capacities matter only where the code asks for them after reserving
@fn("std::vec::Vec::pop")
def _(c):
    v = vec(c)
    if c.decide(ceq(v.seq.n)): return c.ret(c.none())
    x = c.it.seq_get(c.st, v.seq, v.seq.n - 1)
    setvec(c, c.args[0], take(v.seq, v.seq.n - 1))
    return c.ret(c.some(x))
def take(q, n):
    log = q.log
    if log and log[-1].k is None and log[-1].kind == "el" and log[-1].start == n: return Seq(n, q.base, log[:-1], q.ety)
    return Seq(n, ("view", q, P(0)), (), q.ety)
@fn("std::vec::Vec::clear")
def _(c):
    v = vec(c)
    setvec(c, c.args[0], Seq(P(0), None, (), v.seq.ety)); return c.ret()
@fn("std::vec::Vec::truncate")
def _(c):
    v = vec(c)
    if c.decide(cge(v.seq.n - c.args[1] - 1)): setvec(c, c.args[0], take(v.seq, c.args[1]))
    return c.ret()
@fn("std::vec::Vec::retain")
def _(c):
    v = vec(c); f = c.args[1]
    if v is None or not isinstance(f, Clo) or f.inst is None: return None
    q, bool_ty = v.seq, c.it.tyi("bool")
    if q.n.is_const() and q.n.value() <= 8:
        work = [(c.st.copy(), Seq(P(0), None, (), q.ety))]
        for i in range(q.n.value()):
            nxt = []
            for st, acc in work:
                x = c.it.seq_get(st, q, P(i))
                cell = ("tmp", fresh_id()); st.cells[cell] = x
                for s, b in c.it.call_value(st, f, [Ref(cell, ())], bool_ty, c.depth, c.span):
                    for want in (True, False):
                        z = s.copy()
                        if c.it.known(z, b) is not (not want):
                            try: c.it.assume(z, b if want else cnot(b))
                            except Stop: continue
                            nxt.append((z, c.it.seq_append(acc, [Ent("el", acc.n, P(1), x, None, None)], P(1)) if want else acc))
            work = nxt
        res = []
        for st, acc in work:
            c2 = Ctx(c.it, st, c.callee, c.inst, c.args, c.dest, c.depth, c.span, c.m)
            setvec(c2, c.args[0], acc); res += c2.ret()
        return res
    # any length: what is kept is decided for one element and remembered for the rules that ask
    j = Poly.atom(("a", "k", "nat", ("kept", fresh_id())))
    st = c.st.copy(); st.facts = st.facts.with_ge(j).with_ge(q.n - j - 1)
    outs = []
    if not st.facts.contradictory():
        x = c.it.seq_get(st, q, j)
        cell = ("tmp", fresh_id()); st.cells[cell] = x
        mark = len(st.ev)
        for s, b in c.it.call_value(st, f, [Ref(cell, ())], bool_ty, c.depth, c.span):
            if len(s.ev) != mark: return None
            outs.append((s, b))
        if all(c.it.known(s, b) is True for s, b in outs): return c.ret()
    u = c.it.unk("elements kept by a predicate")
    n = unknown_atom("u32", "number of elements kept")
    if not hasattr(c.it, "kept"): c.it.kept = {}
    c.it.kept[u] = (q, j, x if outs else None, outs)
    c.st.facts = c.st.facts.with_ge(n).with_ge(q.n - n)
    setvec(c, c.args[0], Seq(n, ("fill", u), (), q.ety)); return c.ret()
@fn("std::vec::Vec::dedup_by_key")
def _(c):
    v = vec(c); f = c.args[1]
    if v is None or not isinstance(f, Clo) or f.inst is None: return None
    q = v.seq
    if not (q.n.is_const() and q.n.value() <= 8): return None
    key_ty = c.callee["args"][2] if len(c.callee.get("args") or []) > 2 else None
    if key_ty is None: return None
    work = [(c.st.copy(), Seq(P(0), None, (), q.ety), None)]
    for i in range(q.n.value()):
        nxt = []
        for st, acc, last in work:
            x = c.it.seq_get(st, q, P(i))
            cell = ("tmp", fresh_id()); st.cells[cell] = x
            for s, k in c.it.call_value(st, f, [Ref(cell, ())], key_ty, c.depth, c.span):
                if not isinstance(k, Poly): return None
                x2 = s.cells[cell]
                for new in (True, False):
                    if last is None and not new: continue
                    z = s.copy()
                    if last is not None:
                        b = ceq(k - last)
                        if c.it.known(z, b) is new: continue
                        try: c.it.assume(z, cnot(b) if new else b)
                        except Stop: continue
                    nxt.append((z, c.it.seq_append(acc, [Ent("el", acc.n, P(1), x2, None, None)], P(1)) if new else acc, k if new else last))
        work = nxt
    res = []
    for st, acc, _ in work:
        c2 = Ctx(c.it, st, c.callee, c.inst, c.args, c.dest, c.depth, c.span, c.m)
        setvec(c2, c.args[0], acc); res += c2.ret()
    return res
@fn("std::vec::Vec::resize")
def _(c):
    v = vec(c); n, x = c.args[1], c.args[2]
    if c.decide(cge(n - v.seq.n)):
        d = n - v.seq.n
        if not (d.is_const() and d.value() == 0):
            q = c.it.seq_append(v.seq, [Ent("fill", v.seq.n, d, x, None, None)], d)
            setvec(c, c.args[0], q, at_least_cap(c, v, n))
    else: setvec(c, c.args[0], take(v.seq, n))
    return c.ret()
@fn("std::vec::Vec::extend_from_slice")
def _(c):
    v = vec(c); src = c.args[1]
    q, off, n = view(c, src)
    d = c.it.seq_append(v.seq, [Ent("copy", v.seq.n, n, (q, off), None, None)], n)
    setvec(c, c.args[0], d, at_least_cap(c, v, v.seq.n + n)); return c.ret()
def view(c, r):
    """(sequence, offset, length) a slice reference denotes."""
    if r.p and r.p[-1][0] == "sub":
        q = c.it.get(c.st, c.it.cell(c.st, r.c), r.p[:-1])
        if r.c[0] == "h": c.it.log_read(c.st, Ref(r.c, r.p))
        return q, r.p[-1][1], r.p[-1][2]
    q = c.peek(r)
    if isinstance(q, VecV): q = q.seq
    if not isinstance(q, Seq): raise Undecided("slice of %s" % type(q).__name__)
    return q, P(0), q.n
@fn("std::vec::Vec::append")
def _(c):
    v, o = vec(c), vec(c, c.args[1])
    q = c.it.seq_append(v.seq, [Ent("copy", v.seq.n, o.seq.n, (o.seq, P(0)), None, None)], o.seq.n)
    setvec(c, c.args[0], q); setvec(c, c.args[1], Seq(P(0), None, (), o.seq.ety)); return c.ret()
@fn("std::vec::Vec::as_slice", "std::vec::Vec::as_mut_slice", "std::vec::Vec::leak")
def _(c): return c.ret(vs(c.args[0]))
def vs(r): return Ref(r.c, r.p + (("seq",),))
@tr("std::ops::Deref::deref", "std::vec::Vec")
def _(c): return c.ret(vs(c.args[0]))
@tr("std::ops::DerefMut::deref_mut", "std::vec::Vec")
def _(c): return c.ret(vs(c.args[0]))
@tr("std::convert::AsRef::as_ref", "std::vec::Vec")
def _(c): return c.ret(vs(c.args[0]) if c.it.ty(c.it.ty(c.dest)["to"])["k"] == "slice" else c.args[0])
@tr("std::convert::AsMut::as_mut", "std::vec::Vec")
def _(c): return TR[("std::convert::AsRef::as_ref", "std::vec::Vec")](c)
@tr("std::borrow::Borrow::borrow", "std::vec::Vec")
def _(c): return TR[("std::convert::AsRef::as_ref", "std::vec::Vec")](c)
@tr("std::convert::AsRef::as_ref", "[]", "[;]")
def _(c): return c.ret(c.args[0])
@tr("std::convert::AsMut::as_mut", "[]", "[;]")
def _(c): return c.ret(c.args[0])
@fn("std::array::{[T; N]}::as_slice", "std::array::{[T; N]}::as_mut_slice", "std::array::as_slice", "std::slice::{[T]}::as_ref")
def _(c): return c.ret(c.args[0])
@fn("std::slice::{[T]}::to_vec", "std::slice::{[T]}::into_vec")
def _(c):
    q, off, n = view(c, c.args[0])
    return c.ret(VecV(subseq(c, q, off, n), n))
def subseq(c, q, off, n):
    if off == 0 and n == q.n: return q
    return c.it.seq_sub(q, off, n)
@tr("std::convert::From::from", "std::vec::Vec")
def _(c):
    a = c.args[0]
    if isinstance(a, Ref):
        q, off, n = view(c, a); return c.ret(VecV(subseq(c, q, off, n), n))
    if isinstance(a, Seq): return c.ret(VecV(a, a.n))
    if isinstance(a, VecV): return c.ret(a)
    return None
@tr("std::borrow::ToOwned::to_owned", "[]")
def _(c): return FN["std::slice::{[T]}::to_vec"](c)
@fn("std::vec::Vec::insert")
def _(c):
    v = vec(c); i, x = c.args[1], c.args[2]
    q = v.seq
    c.panic("insertion index", cge(q.n - i))
    s = Seq(q.n + 1, None, (Ent("copy", P(0), i, (q, P(0)), None, None), Ent("el", i, P(1), x, None, None), Ent("copy", i + 1, q.n - i, (q, i), None, None)), q.ety)
    setvec(c, c.args[0], s); return c.ret()
@fn("std::vec::Vec::remove")
def _(c):
    v = vec(c); i = c.args[1]; q = v.seq
    c.panic("removal index", cge(q.n - i - 1))
    x = c.it.seq_get(c.st, q, i)
    s = Seq(q.n - 1, None, (Ent("copy", P(0), i, (q, P(0)), None, None), Ent("copy", i, q.n - i - 1, (q, i + 1), None, None)), q.ety)
    setvec(c, c.args[0], s); return c.ret(x)
@fn("std::vec::Vec::swap_remove")
def _(c):
    v = vec(c); i = c.args[1]; q = v.seq
    c.panic("removal index", cge(q.n - i - 1))
    x = c.it.seq_get(c.st, q, i)
    if c.decide(ceq(q.n - 1 - i)):
        setvec(c, c.args[0], take(q, q.n - 1)); return c.ret(x)
    last = c.it.seq_get(c.st, q, q.n - 1)
    setvec(c, c.args[0], take(Seq(q.n, q.base, q.log + (Ent("el", i, P(1), last, None, None),), q.ety), q.n - 1))
    return c.ret(x)
@fn("std::vec::Vec::into_boxed_slice", "std::vec::Vec::shrink_to_fit")
def _(c): return None

# ---------------------------------------------------------------- slices
def elem(r, i): return Ref(r.c, Interp.ext(r.p, ("i", i)))
def sub(r, off, n): return Ref(r.c, Interp.ext(r.p, ("sub", off, n)))
def index(c, r, i, checked=True):
    """Reference to r[i]."""
    n = c.it.len_at(c.st, r)
    if isinstance(i, Poly):
        if checked: c.panic("index out of bounds", cge(n - i - 1))
        return elem(r, i)
    if isinstance(i, Agg):
        lo, hi = bounds_of(c, i, n)
        if lo is None: return None
        if checked:
            c.panic("slice index starts after its end", cge(hi - lo))
            c.panic("range end out of range", cge(n - hi))
        if lo == 0 and hi == n: return r
        return sub(r, lo, hi - lo)
    return None
def bounds_of(c, i, n):
    k = strip(i.ty).split("<")[0]
    k = re.sub(r"^std::(ops|range)::(legacy::)?", "", k)
    if k == "Range": return i.f[0], i.f[1]
    if k == "RangeTo": return P(0), i.f[0]
    if k == "RangeFrom": return i.f[0], n
    if k == "RangeFull": return P(0), n
    if k == "RangeInclusive": return i.f[0], i.f[1] + 1
    if k == "RangeToInclusive": return P(0), i.f[0] + 1
    return None, None
@fn("std::slice::index::{std::ops::Index for [T]}::index", "std::slice::index::{std::ops::IndexMut for [T]}::index_mut",
    "std::array::{std::ops::Index for [T; N]}::index", "std::array::{std::ops::IndexMut for [T; N]}::index_mut")
def _(c):
    r = index(c, c.args[0], c.args[1])
    return c.ret(r) if r else None
@tr("std::ops::Index::index", "std::vec::Vec")
def _(c):
    r = index(c, vs(c.args[0]), c.args[1]); return c.ret(r) if r else None
@tr("std::ops::IndexMut::index_mut", "std::vec::Vec")
def _(c):
    r = index(c, vs(c.args[0]), c.args[1]); return c.ret(r) if r else None
@tr("std::ops::Index::index", "[]", "[;]")
def _(c):
    r = index(c, c.args[0], c.args[1]); return c.ret(r) if r else None
@tr("std::ops::IndexMut::index_mut", "[]", "[;]")
def _(c):
    r = index(c, c.args[0], c.args[1]); return c.ret(r) if r else None
@fn("std::slice::{[T]}::get", "std::slice::{[T]}::get_mut")
def _(c):
    r, i = c.args
    n = c.it.len_at(c.st, r)
    if isinstance(i, Poly): ok = cge(n - i - 1)
    else:
        lo, hi = bounds_of(c, i, n)
        ok = cand(cge(hi - lo), cge(n - hi))
    if c.decide(ok): return c.ret(c.some(index(c, r, i, False)))
    return c.ret(c.none())
@tr("spirv_std::arch::IndexUnchecked::index_unchecked", "[]", "[;]")
@tr("spirv_std::arch::IndexUnchecked::index_unchecked_mut", "[]", "[;]")
def _(c):
    # an access out of range is undefined behaviour: never allowed
    r, i = c.args
    c.panic("unchecked index out of range", cand(cge(i), cge(c.it.len_at(c.st, r) - i - 1)))
    return c.ret(index(c, r, i, False))
@fn("std::slice::{[T]}::get_unchecked", "std::slice::{[T]}::get_unchecked_mut")
def _(c):
    c.st.event("unchecked", c.it.known(c.st, cge(c.it.len_at(c.st, c.args[0]) - c.args[1] - 1)) if isinstance(c.args[1], Poly) else None)
    return c.ret(index(c, c.args[0], c.args[1], False))
@fn("std::slice::{[T]}::first", "std::slice::{[T]}::first_mut")
def _(c):
    n = c.it.len_at(c.st, c.args[0])
    return c.ret(c.none() if c.decide(ceq(n)) else c.some(elem(c.args[0], P(0))))
@fn("std::slice::{[T]}::last", "std::slice::{[T]}::last_mut")
def _(c):
    n = c.it.len_at(c.st, c.args[0])
    return c.ret(c.none() if c.decide(ceq(n)) else c.some(elem(c.args[0], n - 1)))
@fn("std::slice::{[T]}::split_at", "std::slice::{[T]}::split_at_mut")
def _(c):
    r, i = c.args; n = c.it.len_at(c.st, r)
    c.panic("split index", cge(n - i))
    return c.ret(Agg(c.ty(), 0, (sub(r, P(0), i), sub(r, i, n - i))))
@fn("std::slice::{[T]}::copy_from_slice", "std::slice::{[T]}::clone_from_slice")
def _(c):
    d, s = c.args
    q, off, n = view(c, s)
    m = c.it.len_at(c.st, d)
    c.panic("source and destination slices have different lengths", ceq(m - n))
    write_block(c, d, n, "copy", (q, off))
    return c.ret()
def write_block(c, d, n, kind, val):
    cell, path, off, m = slab_place(c, d)
    q = c.it.get(c.st, c.it.cell(c.st, cell), path)
    if not isinstance(q, Seq): raise Undecided("block write to %s" % type(q).__name__)
    if cell[0] == "h": c.it.log_write(c.st, Ref(cell, path + (("sub", off, n),)), None)
    if kind == "copy": q2 = c.it.seq_copy(c.st, q, off, val[0], val[1], n)
    else: q2 = Seq(q.n, q.base, q.log + (Ent(kind, off, n, val, None, None),), q.ety)
    c.st.cells[cell] = c.it.put(c.st, c.st.cells[cell], path, q2)
@fn("std::slice::{[T]}::fill")
def _(c):
    write_block(c, c.args[0], c.it.len_at(c.st, c.args[0]), "fill", c.args[1]); return c.ret()
@fn("std::slice::{[T]}::swap")
def _(c):
    r, i, j = c.args
    a, b = c.load(elem(r, i)), c.load(elem(r, j))
    c.store(elem(r, i), b); c.store(elem(r, j), a); return c.ret()
@fn("std::slice::{[T]}::reverse")
def _(c):
    r = c.args[0]; n = c.it.len_at(c.st, r)
    if not n.is_const() or n.value() > 16: return None
    n = n.value()
    xs = [c.load(elem(r, P(i))) for i in range(n)]
    for i in range(n): c.store(elem(r, P(i)), xs[n - 1 - i])
    return c.ret()
@fn("std::slice::{[T]}::copy_within")
def _(c):
    r, i, at = c.args; n = c.it.len_at(c.st, r)
    lo, hi = bounds_of(c, i, n)
    if lo is None: return None
    c.panic("copied range within the slice", cand(cge(hi - lo), cge(n - hi)))
    c.panic("destination within the slice", cge(n - at - (hi - lo)))
    q, off, _ = view(c, sub(r, lo, hi - lo))
    write_block(c, sub(r, at, hi - lo), hi - lo, "copy", (q, off))
    return c.ret()
@fn("std::slice::{[T]}::split_first", "std::slice::{[T]}::split_last", "std::slice::{[T]}::split_first_mut", "std::slice::{[T]}::split_last_mut")
def _(c):
    r = c.args[0]; n = c.it.len_at(c.st, r)
    if c.decide(ceq(n)): return c.ret(c.none())
    fst = "first" in c.callee["path"]
    t = c.it.ty(c.it.ty(c.dest)["args"][0])["n"]
    return c.ret(c.some(Agg(t, 0, (elem(r, P(0)) if fst else elem(r, n - 1), sub(r, P(1) if fst else P(0), n - 1)))))
@fn("std::slice::{[T]}::as_ptr", "std::slice::{[T]}::as_mut_ptr")
def _(c): return c.ret(elem(c.args[0], P(0)))

# ---------------------------------------------------------------- iterators
def it_val(r, lo, hi): return Agg("#iter", 0, (r, lo, hi))
@fn("std::slice::{[T]}::iter", "std::slice::{[T]}::iter_mut")
def _(c):
    return c.ret(it_val(c.args[0], P(0), c.it.len_at(c.st, c.args[0])))
@tr("std::iter::IntoIterator::into_iter", "&[]", "&[;]")
def _(c): return c.ret(it_val(c.args[0], P(0), c.it.len_at(c.st, c.args[0])))
@tr("std::iter::IntoIterator::into_iter", "&std::vec::Vec")
def _(c): return c.ret(it_val(vs(c.args[0]), P(0), c.it.len_at(c.st, c.args[0])))
@tr("std::iter::IntoIterator::into_iter", "std::vec::Vec")
def _(c):
    v = c.args[0]
    if not isinstance(v, VecV): return None
    return c.ret(Agg("#into", 0, (v.seq, P(0), v.seq.n)))
@tr("std::iter::IntoIterator::into_iter", "[;]")
def _(c):
    v = c.args[0]
    return c.ret(Agg("#into", 0, (v, P(0), v.n))) if isinstance(v, Seq) else None
@fn("std::vec::Vec::drain")
def _(c):
    v = vec(c)
    i = c.args[1]
    lo, hi = bounds_of(c, i, v.seq.n)
    c.panic("drain range", cand(cge(hi - lo), cge(v.seq.n - hi)))
    q = v.seq
    if lo == 0 and hi == q.n: rest = Seq(P(0), None, (), q.ety)
    else: rest = Seq(q.n - (hi - lo), None, (Ent("copy", P(0), lo, (q, P(0)), None, None), Ent("copy", lo, q.n - hi, (q, hi), None, None)), q.ety)
    setvec(c, c.args[0], rest)
    return c.ret(Agg("#into", 0, (q, lo, hi)))
def nexter(back):
    def f(c):
        r = c.args[0]
        v = c.peek(r)
        if not isinstance(v, Agg) or not v.ty.startswith("#"): return None
        src, lo, hi = v.f
        if c.decide(cge(lo - hi)): return c.ret(c.none())
        i = hi - 1 if back else lo
        put_quiet(c, r, Agg(v.ty, 0, (src, lo, i) if back else (src, lo + 1, hi)))
        if v.ty == "#iter": return c.ret(c.some(elem(src, i)))
        return c.ret(c.some(c.it.seq_get(c.st, src, i)))
    return f
def put_quiet(c, r, v):
    c.st.cells[r.c] = c.it.put(c.st, c.it.cell(c.st, r.c), r.p, v)
ITERS = ("std::slice::Iter", "std::slice::IterMut", "std::vec::IntoIter", "std::vec::Drain", "std::array::IntoIter")
tr("std::iter::Iterator::next", *ITERS)(nexter(False))
tr("std::iter::DoubleEndedIterator::next_back", *ITERS)(nexter(True))
@tr("std::iter::ExactSizeIterator::len", *ITERS)
def _(c):
    v = c.peek(c.args[0])
    return c.ret(v.f[2] - v.f[1])
@tr("std::iter::Iterator::size_hint", *ITERS)
def _(c):
    v = c.peek(c.args[0]); n = v.f[2] - v.f[1]
    t = c.it.ty(c.dest)
    return c.ret(Agg(c.ty(), 0, (n, Agg(c.it.tn(t["of"][1]), 1, (n,)))))
for _i in ITERS:
    TR[("std::iter::TrustedRandomAccessNoCoerce::size", _i)] = TR[("std::iter::ExactSizeIterator::len", _i)]
@tr("std::iter::Iterator::__iterator_get_unchecked", *ITERS)
def _(c):
    v = c.peek(c.args[0])
    return c.ret(elem(v.f[0], v.f[1] + c.args[1]) if v.ty == "#iter" else c.it.seq_get(c.st, v.f[0], v.f[1] + c.args[1]))
@tr("std::clone::Clone::clone", *ITERS)
def _(c): return c.ret(c.peek(c.args[0]))
@fn("std::slice::Iter::as_slice")
def _(c):
    v = c.peek(c.args[0]); return c.ret(sub(v.f[0], v.f[1], v.f[2] - v.f[1]))
def range_next(back):
    def f(c):
        r = c.args[0]; v = c.peek(r)
        if not (isinstance(v, Agg) and isinstance(v.f[0], Poly) and isinstance(v.f[1], Poly)): return None
        lo, hi = v.f
        if c.decide(cge(lo - hi)): return c.ret(c.none())
        if back:
            put_quiet(c, r, Agg(v.ty, 0, (lo, hi - 1))); return c.ret(c.some(hi - 1))
        put_quiet(c, r, Agg(v.ty, 0, (lo + 1, hi))); return c.ret(c.some(lo))
    return f
tr("std::iter::Iterator::next", "std::ops::Range")(range_next(False))
tr("std::iter::DoubleEndedIterator::next_back", "std::ops::Range")(range_next(True))
@tr("std::iter::Iterator::next", "std::ops::RangeInclusive")
def _(c):
    r = c.args[0]; v = c.peek(r)
    if not isinstance(v, Agg): return None
    lo, hi, ex = v.f
    if c.decide(ex) or c.decide(cge(lo - hi - 1)): return c.ret(c.none())
    if c.decide(ceq(lo - hi)): put_quiet(c, r, Agg(v.ty, 0, (lo, hi, TRUE)))
    else: put_quiet(c, r, Agg(v.ty, 0, (lo + 1, hi, FALSE)))
    return c.ret(c.some(lo))
@tr("std::iter::Iterator::nth", "std::ops::Range", "std::slice::Iter")
def _(c):
    r = c.args[0]; v = c.peek(r); n = c.args[1]
    if not isinstance(v, Agg): return None
    if v.ty.startswith("#"): src, lo, hi = v.f
    else: (lo, hi), src = v.f, None
    mkv = (lambda a: Agg(v.ty, 0, (src, a, hi))) if src is not None else (lambda a: Agg(v.ty, 0, (a, hi)))
    if c.decide(cge(lo + n - hi)):
        put_quiet(c, r, mkv(hi)); return c.ret(c.none())
    put_quiet(c, r, mkv(lo + n + 1))
    if src is None: return c.ret(c.some(lo + n))
    return c.ret(c.some(elem(src, lo + n)))
@tr("std::iter::ExactSizeIterator::len", "std::ops::Range")
def _(c):
    v = c.peek(c.args[0]); lo, hi = v.f
    return c.ret(hi - lo if c.decide(cge(hi - lo)) else P(0))
@fn("std::slice::{[T]}::chunks", "std::slice::{[T]}::chunks_exact", "std::slice::{[T]}::chunks_mut", "std::slice::{[T]}::chunks_exact_mut")
def _(c):
    n = c.it.len_at(c.st, c.args[0]); k = c.args[1]
    c.panic("chunk size must be non-zero", cge(k - 1))
    ex = "exact" in c.callee["path"]
    return c.ret(Agg("#chunks", 0, (c.args[0], P(0), n, k, TRUE if ex else FALSE)))
@tr("std::iter::Iterator::next", "std::slice::Chunks", "std::slice::ChunksExact", "std::slice::ChunksMut", "std::slice::ChunksExactMut")
def _(c):
    r = c.args[0]; v = c.peek(r)
    if not isinstance(v, Agg): return None
    s, lo, hi, k, ex = v.f
    if c.decide(cge(hi - lo - k)):
        put_quiet(c, r, Agg(v.ty, 0, (s, lo + k, hi, k, ex))); return c.ret(c.some(sub(s, lo, k)))
    if ex.k == "T" or c.decide(cge(lo - hi)): return c.ret(c.none())
    put_quiet(c, r, Agg(v.ty, 0, (s, hi, hi, k, ex)))
    return c.ret(c.some(sub(s, lo, hi - lo)))
@fn("std::intrinsics::three_way_compare")
def _(c):
    a, b = c.args
    if c.decide(ceq(a - b)): return c.ret(Agg(c.ty(), 1, ()))
    return c.ret(Agg(c.ty(), 2, ()) if c.decide(cge(a - b)) else Agg(c.ty(), 0, ()))

def analyse(prog, models=None, argterms=None, opts=None, pre=None):
    """Interprets a root; -> (interp, [(state, value)] , error)."""
    it = Interp(prog, models or Models(), opts)
    body = prog.insts[0].get("body")
    if body is None: return it, None, "no body"
    names = {}
    for l, n in body["names"]:
        names.setdefault(l, n)
    st = State({}, Facts())
    args = []
    for l in range(1, body["argc"] + 1):
        term = (argterms or {}).get(names.get(l, str(l)), ("p", names.get(l, str(l))))
        args.append(it.mk(term, body["locals"][l]))
    if pre: pre(it, st, args, names)
    try:
        outs = it.call_inst(0, args, st, 0)
    except Undecided as e:
        return it, None, str(e)
    except Fork as e:
        return it, None, "unhandled fork"
    except Stop:
        return it, [], None
    except RecursionError:
        return it, None, "recursion"
    return it, outs, None
