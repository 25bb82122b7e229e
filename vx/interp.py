"""Abstract interpreter over the dumped MIR: trace-partitioned, relational (see DESIGN.md)."""
import re, json, os, itertools
from poly import *
from values import *

class Fork(Exception):
    """The current step needs to know something: alternatives to refine the state with."""
    def __init__(self, alts): self.alts = alts
class Stop(Exception):
    """The path ends (unreachable, infeasible, panic)."""
class Undecided(Exception):
    """Something the analysis does not understand; the entry point stays undecided."""

class Program:
    def __init__(self, dump, root, index=None):
        if index is None: index = load_index(dump)
        kind, f, span = index[root]
        j = json.load(open(os.path.join(dump, f)))
        self.root, self.kind, self.span = root, kind, span
        self.insts = {i["key"]: i for i in j["insts"]}
        self.types = j["types"]
        self.by_name = {}
        for i, t in enumerate(self.types): self.by_name.setdefault(t["n"], i)
        self._loops = {}
    def tn(self, i): return self.types[i]["n"]

_ix = {}
def load_index(dump):
    if dump not in _ix:
        j = json.load(open(os.path.join(dump, "index.json")))
        _ix[dump] = {n: (k, f, s) for n, k, f, s in j["roots"]}
    return _ix[dump]

INTS = {"u8", "u16", "u32", "u64", "u128", "usize", "i8", "i16", "i32", "i64", "i128", "isize", "char"}
FLOATS = {"f32", "f64", "f16", "f128"}

def norm(p):
    p = re.sub(r"\b(core|alloc)::", "std::", p)
    return re.sub(r"\bcrabslab::(?:\w+::)*(SlabItem|Slab|GrowableSlab)::", r"crabslab::\1::", p)

class State:
    __slots__ = ("cells", "facts", "ev", "hist")
    def __init__(self, cells, facts, ev=(), hist=None):
        self.cells, self.facts, self.ev, self.hist = cells, facts, ev, hist or {}
    def copy(self):
        return State(dict(self.cells), self.facts, self.ev, self.hist)
    def event(self, *e):
        self.ev = self.ev + (e,)

class Frame:
    __slots__ = ("id", "inst", "body", "loops", "depth", "name")

class Loop:
    __slots__ = ("header", "blocks")

def find_loops(body):
    n = len(body["blocks"])
    succ = [targets(b["t"]) for b in body["blocks"]]
    # dominators over blocks reachable from 0
    order, seen = [], set()
    def dfs(b):
        stack = [(b, iter(succ[b]))]
        seen.add(b)
        while stack:
            x, it = stack[-1]
            for y in it:
                if y not in seen:
                    seen.add(y); stack.append((y, iter(succ[y]))); break
            else:
                order.append(x); stack.pop()
    dfs(0)
    rpo = order[::-1]
    idx = {b: i for i, b in enumerate(rpo)}
    pred = {b: [] for b in rpo}
    for b in rpo:
        for s in succ[b]: pred[s].append(b)
    idom = {0: 0}
    changed = True
    def inter(a, b):
        while a != b:
            while idx[a] > idx[b]: a = idom[a]
            while idx[b] > idx[a]: b = idom[b]
        return a
    while changed:
        changed = False
        for b in rpo[1:]:
            ps = [p for p in pred[b] if p in idom]
            d = ps[0]
            for p in ps[1:]: d = inter(d, p)
            if idom.get(b) != d: idom[b] = d; changed = True
    def dom(a, b):
        while True:
            if a == b: return True
            if b == 0: return False
            b = idom[b]
    loops = {}
    for b in rpo:
        for h in succ[b]:
            if dom(h, b):
                L = loops.get(h)
                if L is None:
                    L = loops[h] = Loop(); L.header = h; L.blocks = {h}
                st = [b]
                while st:
                    x = st.pop()
                    if x in L.blocks: continue
                    L.blocks.add(x)
                    st += pred[x]
    return loops

def targets(t):
    k = t[0]
    if k == "goto": return [t[1]]
    if k == "switch": return [b for _, b in t[2]] + ([t[3]] if t[3] is not None else [])
    if k == "drop": return [t[2]]
    if k == "call": return [t[4]] if t[4] is not None else []
    if k == "assert": return [t[3]]
    if k == "yield": return [x for x in t[1:] if isinstance(x, int)][:1]
    return []

MAXDEPTH = 60

def signed(v, ty):
    """A constant's bits as a number of its type."""
    v = int(v)
    if ty in BOUNDS and BOUNDS[ty][0] < 0 and v > BOUNDS[ty][1]: v -= 2 * (BOUNDS[ty][1] + 1)
    return v

class Interp:
    def __init__(self, prog, models, opts=None):
        self.p = prog
        self.models = models
        self.opts = opts or {}
        self.frame_ids = itertools.count(1)
        self.loopid = itertools.count(1)
        self.steps = 0
        self.max_steps = self.opts.get("max_steps", 400000)
        self.visited = set()         # instances analysed
        self.frames = {}
        self.panics = []             # (facts, message, function, span, definite)
        self.inits = {}              # what a loop may have changed, before it ran
        self.notes = []              # imprecision
        self.callsites = 0
        self.cur = []                # stack of (function name)
        self.in_summary = 0
    # ---- types
    def ty(self, i): return self.p.types[i]
    def tn(self, i): return self.p.types[i]["n"]
    def tyi(self, name): return self.p.by_name.get(name)
    def len_of(self, t):
        n = t["len"]
        return self.const_poly(n)
    def const_poly(self, n):
        s = str(n)
        m = re.match(r"^(\d+)", s)
        if m: return P(int(m.group(1)))
        return Poly.atom(("a", "cp", "pos", s))
    # ---- making opaque values
    def mk(self, term, ti):
        t = self.ty(ti); k = t["k"]; n = t["n"]
        if k == "prim":
            if n in INTS:
                if isinstance(term, tuple) and term and term[0] == "unk": return unknown_atom(n, term[1:])
                return Poly.atom(("a", "t", n, term))
            if n == "bool": return cop(("bool", term))
            return Op(term, n)
        if k == "tuple":
            return Agg("()" if not t["of"] else n, 0, tuple(self.mk(("fld", term, 0, str(i)), x) for i, x in enumerate(t["of"])))
        if k in ("ref", "ptr"):
            return Ref(("h", ("deref", term), t["to"]), ())
        if k in ("slice", "str"):
            return Seq(Poly.atom(("a", "len", "len32", term)), term, (), t.get("of"))
        if k == "array":
            return Seq(self.len_of(t), term, (), t["of"])
        if k == "adt":
            h = self.models.mk.get(norm(t["path"]))
            if h:
                r = h(self, term, ti, t)
                if r is not None: return r
            if t["enum"]:
                return Op(term, n)
            if t["variants"]:
                v = t["variants"][0]
                return Agg(n, 0, tuple(self.mk(("fld", term, 0, f[0]), f[1]) for f in v[2]))
            return Op(term, n)
        if k == "closure":
            return Op(term, n)
        return Op(term, n)
    def cell(self, st, c):
        if c in st.cells: return st.cells[c]
        if c[0] == "h":
            v = self.mk(c[1], c[2])
            st.cells[c] = v
            return v
        raise Undecided("read of an uninitialised local %r" % (c,))
    # ---- paths
    def step_get(self, st, v, e, rest):
        k = e[0]
        if k == "f":
            if isinstance(v, (Agg, Clo)):
                if e[1] < len(v.f): return v.f[e[1]]
                return self.unk("field %s of %r" % (e[1], v.ty))
            if isinstance(v, Coro):
                return v.up[e[1]] if e[1] < len(v.up) else self.unk("captured value %s" % e[1])
            if isinstance(v, Ref) and e[1] == 0: return v          # Box / Unique / NonNull / Pin wrappers
            h = self.models.field(self, st, v, e)
            if h is not None: return h
            if isinstance(v, Unk): return v
            if isinstance(v, Op): return self.op_field(v, 0, e[1])
            return self.unk("field of %s" % type(v).__name__)
        if k == "v":
            if isinstance(v, Agg):
                if v.v != e[1]: raise Stop()
                return v
            if isinstance(v, Coro):
                return Agg(v.ty, e[1], dict(v.saved).get(e[1], ()))
            if isinstance(v, Op): return self.as_variant(v, e[1])
            return v
        if k == "i":
            if isinstance(v, Seq): return self.seq_get(st, v, e[1])
            return self.unk("element of %s" % type(v).__name__)
        if k == "sub":
            if isinstance(v, Seq): return self.seq_sub(v, e[1], e[2])
            return self.unk("part of %s" % type(v).__name__)
        if k == "seq":
            if isinstance(v, VecV): return v.seq
            return self.unk("contents of %s" % type(v).__name__)
        if k == "lk":
            if isinstance(v, (Mx, At)): return v.val
            return self.unk("guarded %s" % type(v).__name__)
        raise Undecided("path element %r" % (e,))
    def op_field(self, v, vi, fi):
        ti = self.tyi(v.ty)
        if ti is None: return self.unk("field of opaque %s" % v.ty)
        t = self.ty(ti)
        if t["k"] == "adt" and t["variants"]:
            vs = t["variants"][vi]
            f = vs[2][fi]
            return self.mk(("fld", v.t, vi, f[0]), f[1])
        if t["k"] == "closure":
            return self.mk(("fld", v.t, 0, str(fi)), t["up"][fi])
        return self.unk("field of opaque %s" % v.ty)
    def as_variant(self, v, vi):
        ti = self.tyi(v.ty)
        if ti is None: return self.unk("variant of %s" % v.ty)
        t = self.ty(ti)
        vs = t["variants"][vi]
        return Agg(v.ty, vi, tuple(self.mk(("fld", v.t, vi, f[0]), f[1]) for f in vs[2]))
    def get(self, st, v, path):
        for j, e in enumerate(path):
            v = self.step_get(st, v, e, path[j + 1:])
        return v
    def put(self, st, v, path, new):
        if not path: return new
        e = path[0]; k = e[0]
        if k == "f":
            if isinstance(v, (Agg, Clo)) and e[1] < len(v.f):
                f = list(v.f)
                f[e[1]] = self.put(st, v.f[e[1]], path[1:], new)
                return Agg(v.ty, v.v, tuple(f)) if isinstance(v, Agg) else Clo(v.inst, tuple(f), v.ty)
            if isinstance(v, Coro) and e[1] < len(v.up):
                f = list(v.up)
                f[e[1]] = self.put(st, f[e[1]], path[1:], new)
                return Coro(v.inst, tuple(f), v.state, v.saved, v.ty)
            if isinstance(v, Op):
                ti = self.tyi(v.ty)
                if ti is not None and self.ty(ti)["k"] == "closure":
                    c = Clo(None, tuple(self.mk(("fld", v.t, 0, str(i)), x) for i, x in enumerate(self.ty(ti)["up"])), v.ty)
                    return self.put(st, c, path, new)
            self.note("write to a field of %s" % type(v).__name__)
            return self.unk("written field")
        if k == "v" and isinstance(v, Coro):
            saved = dict(v.saved); fs = list(saved.get(e[1], ())); i = path[1][1]
            while len(fs) <= i: fs.append(Unk(-1, "unset local of a future"))
            fs[i] = self.put(st, fs[i], path[2:], new)
            saved[e[1]] = tuple(fs)
            return Coro(v.inst, v.up, v.state, tuple(sorted(saved.items())), v.ty)
        if k == "v":
            if isinstance(v, Op): v = self.as_variant(v, e[1])
            if isinstance(v, Agg) and v.v == e[1]: return self.put(st, v, path[1:], new)
            return self.unk("variant write")
        if k == "i":
            if isinstance(v, Seq):
                val = new
                if len(path) > 1: val = self.put(st, self.seq_get(st, v, e[1]), path[1:], new)
                return self.seq_put(st, v, e[1], val)
            return self.unk("element write")
        if k == "sub":
            if isinstance(v, Seq) and len(path) == 1 and isinstance(new, Seq):
                if new.base == ("view", v.base, e[1]) : pass
                return self.seq_copy(st, v, e[1], new, P(0), e[2])
            return self.unk("slice write")
        if k == "seq":
            if isinstance(v, VecV): return VecV(self.put(st, v.seq, path[1:], new), v.cap)
            return self.unk("vector write")
        if k == "lk":
            if isinstance(v, Mx): return Mx(v.kind, self.put(st, v.val, path[1:], new))
            if isinstance(v, At): return At(self.put(st, v.val, path[1:], new), v.ty)
            return self.unk("guarded write")
        raise Undecided("path element %r" % (e,))
    def unk(self, why):
        return Unk(fresh_id(), why)
    def note(self, why):
        if len(self.notes) < 200: self.notes.append((self.cur[-1] if self.cur else "", why))
    # appending to a path, keeping indices into sub-slices normal
    @staticmethod
    def ext(path, e):
        if path and path[-1][0] == "sub":
            off = path[-1][1]
            if e[0] == "i": return path[:-1] + (("i", off + e[1]),)
            if e[0] == "sub": return path[:-1] + (("sub", off + e[1], e[2]),)
        return path + (e,)
    def load(self, st, r):
        """Value at a reference."""
        if not isinstance(r, Ref): return self.unk("load through %s" % type(r).__name__)
        v = self.get(st, self.cell(st, r.c), r.p)
        if r.c[0] == "h": self.log_read(st, r)
        return v
    def store(self, st, r, val):
        if not isinstance(r, Ref):
            self.note("store through %s" % type(r).__name__)
            raise Undecided("store through an unknown pointer")
        self.invalidate_marks(st, r)
        if r.c[0] == "h": self.log_write(st, r, val)
        st.cells[r.c] = self.put(st, self.cell(st, r.c), r.p, val)
    def log_read(self, st, r):
        if r.p and r.p[0][0] in ("i", "sub"): st.event("rd", r.c, r.p[0])
        elif len(r.p) > 1 and r.p[0][0] == "seq": st.event("rd", r.c, r.p[1])
    def log_write(self, st, r, val):
        if r.p and r.p[0][0] in ("i", "sub"): st.event("wr", r.c, r.p[0])
        elif len(r.p) > 1 and r.p[0][0] == "seq": st.event("wr", r.c, r.p[1])
        elif not (isinstance(r.c[1], tuple) and r.c[1][0] == "deref" and False):
            old = None
            if self.opts.get("conc"):
                try: old = self.get(st, self.cell(st, r.c), r.p)
                except (Fork, Undecided, Stop, KeyError, TypeError): pass
            st.event("set", r.c, r.p, old)
    def invalidate_marks(self, st, r): pass
    # ---- deciding conditions
    def decide(self, st, c):
        """Truth of a condition on this path; forks when it is open."""
        k = c.k
        if k == "T": return True
        if k == "F": return False
        if k == "not": return not self.decide(st, c.a)
        if k == "and":
            return self.decide(st, c.a[0]) and self.decide(st, c.a[1])
        if k == "or":
            return self.decide(st, c.a[0]) or self.decide(st, c.a[1])
        f = st.facts
        if k == "ge":
            if f.entails(c.a): return True
            if f.entails(-c.a - 1): return False
            raise Fork([("ge", c.a), ("ge", -c.a - 1)])
        if k == "eq":
            if f.entails_ne(c.a): return False
            if f.entails_eq(c.a): return True
            raise Fork([("eq", c.a), ("ne", c.a)])
        if k == "op":
            if c.a in f.b: return f.b[c.a]
            raise Fork([("b", c.a, True), ("b", c.a, False)])
        raise Undecided("condition %r" % (c,))
    def known(self, st, c):
        """True/False/None, never forks."""
        k = c.k
        if k == "T": return True
        if k == "F": return False
        if k == "not":
            r = self.known(st, c.a)
            return None if r is None else not r
        if k in ("and", "or"):
            a, b = self.known(st, c.a[0]), self.known(st, c.a[1])
            if k == "and":
                if a is False or b is False: return False
                return True if a and b else None
            if a or b: return True
            return False if a is False and b is False else None
        f = st.facts
        if k == "ge":
            if f.entails(c.a): return True
            if f.entails(-c.a - 1): return False
        elif k == "eq":
            if f.entails_ne(c.a): return False
            if f.entails_eq(c.a): return True
        elif k == "op": return f.b.get(c.a)
        return None
    def refine(self, st, alt):
        s = st.copy()
        k = alt[0]
        f = s.facts
        if k == "ge": f = f.with_ge(alt[1])
        elif k == "eq": f = f.with_eq(alt[1])
        elif k == "ne": f = f.with_ne(alt[1])
        elif k == "b": f = f.with_b(alt[1], alt[2])
        elif k == "disc": f = f.with_disc(alt[1], alt[2])
        elif k == "facts": f = alt[1]
        s.facts = f
        if k in ("ge", "eq", "ne") and f.contradictory(): return None
        return s
    def assume(self, st, c):
        """Adds a condition as a fact; Stop if contradictory."""
        k = c.k
        f = st.facts
        if k == "T": return
        if k == "F": raise Stop()
        if k == "ge": f = f.with_ge(c.a)
        elif k == "eq": f = f.with_eq(c.a)
        elif k == "and":
            self.assume(st, c.a[0]); self.assume(st, c.a[1]); return
        elif k == "op": f = f.with_b(c.a, True)
        elif k == "not":
            d = c.a
            if d.k == "eq": f = f.with_ne(d.a)
            elif d.k == "op": f = f.with_b(d.a, False)
            else: return
        elif k == "or":
            a, b = self.known(st, c.a[0]), self.known(st, c.a[1])
            if a is False: return self.assume(st, c.a[1])
            if b is False: return self.assume(st, c.a[0])
            return
        st.facts = f
        if f.contradictory(): raise Stop()
    def variant(self, st, v):
        """Variant index of an enum value; forks when open."""
        if isinstance(v, Agg): return v.v
        if isinstance(v, Op):
            d = st.facts.disc.get(v.t)
            if isinstance(d, int): return d
            ti = self.tyi(v.ty)
            if ti is None: raise Undecided("variant of %s" % v.ty)
            n = len(self.ty(ti)["variants"])
            raise Fork([("disc", v.t, i) for i in range(n)])
        if isinstance(v, Unk):
            ty = None
        raise Undecided("variant of an unknown value (%s)" % (v.why if isinstance(v, Unk) else type(v).__name__))
    # ---- sequences
    def solve(self, start, k, i):
        """k0 with start[k := k0] == i, or None."""
        r = start.coeff_of(k)
        if r is None: return None
        c, rest = r
        if not c.m: return None
        return (i - rest).divide(c)
    def at(self, x, k, k0):
        return deep(x, lambda a: k0 if a == k else None)
    def ent_hull(self, e):
        """(start, length) of the union of a repeated entry when it is contiguous, else None."""
        if e.k is None: return e.start, e.count
        r = e.start.coeff_of(e.k)
        if r is None: return None
        c, rest = r
        if any(e.k in m for m in e.count.m): return None
        if c == e.count: return rest, e.count * P(e.K)
        return None
    def seq_get(self, st, q, i, depth=0):
        """Element i of a sequence."""
        if not isinstance(q, Seq): return self.unk("element of something unknown")
        for e in reversed(q.log):
            if e.k is None:
                if e.start == i and e.kind == "el": return e.val
                inside = None
                if e.kind == "el":
                    if self.decide(st, ceq(i - e.start)): return e.val
                    continue
                if not self.decide(st, cge(i - e.start)): continue
                if not self.decide(st, cge(e.start + e.count - i - 1)): continue
                return self.ent_elem(st, e, i - e.start, q)
            else:
                h = self.ent_hull(e)
                if h is None:
                    r = self.scattered(st, e, i, P(1))
                    if r == "miss": continue
                    if r is None: return self.unk("element possibly inside a scattered write")
                    k0, off = r
                    x = self.at(e.val, e.k, k0)
                    if e.kind == "el": return self.phi(st, x)
                    return self.ent_elem(st, Ent(e.kind, i - off, self.at(e.count, e.k, k0), x, None, None), off, q)
                if not self.decide(st, cge(i - h[0])): continue
                if not self.decide(st, cge(h[0] + h[1] - i - 1)): continue
                k0 = self.solve(e.start, e.k, i)
                if k0 is not None and (e.count.is_const() and e.count.value() == 1):
                    return self.phi(st, self.at(e.val, e.k, k0)) if e.kind == "el" else self.ent_elem(st, Ent(e.kind, i, P(1), self.at(e.val, e.k, k0), None, None), P(0), q)
                # i lies in some repetition: position unknown
                b = self.elem_in_blocks(st, e, i)
                if b is not None: return self.ent_elem(st, b, i - b.start, q)
                return self.unk("element of a repeated block")
        return self.base_get(st, q, i)
    def scattered(self, st, e, i, size):
        """Where [i, i+size) lies in a repeated entry with gaps: "miss", (repetition, offset) or None."""
        r = e.start.coeff_of(e.k)
        if r is None or any(e.k in m for m in e.count.m): return None
        c, s0 = r
        K = P(e.K)
        if c.m and not st.facts.entails(c): return None
        if self.known(st, cge(s0 - i - size)) is True: return "miss"
        if self.known(st, cge(i - s0 - c * (K - 1) - e.count)) is True: return "miss"
        d = i - s0
        f = st.facts
        for k0 in self.quot_candidates(d, c):
            off = d - c * k0
            if f.entails(off - e.count) and f.entails(c - off - size): return "miss"
            if f.entails(off) and f.entails(e.count - off - size):
                if not self.decide(st, cge(k0)): return "miss" if f.entails(c - e.count) else None
                if not self.decide(st, cge(K - k0 - 1)): return "miss" if f.entails(c - e.count) else None
                return k0, off
        if self.decide(st, cge(s0 - i - size)): return "miss"
        if self.decide(st, cge(i - s0 - c * (K - 1) - e.count)): return "miss"
        return None
    def phi(self, st, v):
        """A value that depends on the path: picks the alternative whose guards hold (forking when open)."""
        while isinstance(v, Phi):
            for guards, x in v.alts:
                if all(self.guard(st, g) for g in guards): v = x; break
            else: raise Stop()
        return v
    def guard(self, st, g):
        k = g[0]
        if k == "ge": return self.decide(st, cge(g[1]))
        if k == "ne": return not self.decide(st, ceq(g[1]))
        if k == "b": return self.decide(st, cop(g[1])) == g[2]
        if k == "disc":
            d = st.facts.disc.get(g[1])
            if d is None:
                raise Fork([("disc", g[1], i) for i in g[3]] if len(g) > 3 else [("disc", g[1], g[2])])
            return d == g[2]
    def guards(self, a, b):
        """Facts of b beyond those of a."""
        out = [("ge", p) for p in b.ge if p not in a.ge]
        out += [("ne", p) for p in b.ne if p not in a.ne]
        out += [("b", t, v) for t, v in b.b.items() if t not in a.b]
        out += [("disc", t, v) for t, v in b.disc.items() if t not in a.disc]
        return tuple(out)
    def elem_in_blocks(self, st, e, i):
        """The repetition of a repeated entry that contains element i = start(k0) + j with 0 <= j < count."""
        r = e.start.coeff_of(e.k)
        if r is None: return None
        # try k0 from atoms appearing multiplied with the stride
        c, rest = r
        d = i - rest
        for k0 in self.quot_candidates(d, c):
            off = d - c * k0
            if st.facts.entails(off) and st.facts.entails(e.count - off - 1) and st.facts.entails(k0) and st.facts.entails(P(e.K) - k0 - 1):
                return Ent(e.kind, self.at(e.start, e.k, k0), e.count, self.at(e.val, e.k, k0), None, None)
        return None
    def quot_candidates(self, d, c):
        """Polynomials q such that c*q is a part of d."""
        out = []
        # terms of d divisible by c when c is a single monomial
        if len(c.m) == 1:
            (ck, cv), = c.m.items()
            q = {}
            for m, v in d.m.items():
                mm = list(m); ok = True
                for a in ck:
                    if a in mm: mm.remove(a)
                    else: ok = False; break
                if ok and (v % cv == 0 or ck == ()): q[tuple(mm)] = q.get(tuple(mm), 0) + v // cv
            if ck: out.append(Poly({m: v for m, v in q.items() if v}))
            else:
                out.append(Poly({m: v // cv for m, v in d.m.items() if v // cv and (m != () )}))
                out.append(Poly({m: v // cv for m, v in d.m.items() if v // cv}))
        out.append(P(0))
        return out
    def ent_elem(self, st, e, j, q):
        """Element j of a single block entry."""
        if e.kind == "el": return e.val
        if e.kind == "fill": return e.val
        if e.kind == "copy":
            src, off = e.val
            return self.seq_get(st, src, off + j)
        if e.kind == "enc":
            return self.enc_elem(st, e.val, j, q)
        return self.unk("element of a %s block" % e.kind)
    def enc_elem(self, st, val, j, q):
        return Poly.atom(("a", "encel", "u32", val, j))
    def base_get(self, st, q, i):
        b = q.base
        if b is None: return self.unk("uninitialised element")
        if isinstance(b, tuple) and b and b[0] == "fill": return b[1]
        if isinstance(b, tuple) and b and b[0] == "view":
            return self.seq_get(st, b[1], b[2] + i)
        if q.ety is None: return Op(("el", b, i), "?")
        return self.mk(("el", b, i), q.ety)
    def seq_sub(self, q, off, n):
        if isinstance(q.base, tuple) and q.base and q.base[0] == "view" and not q.log:
            return Seq(n, ("view", q.base[1], q.base[2] + off), (), q.ety)
        return Seq(n, ("view", q, off), (), q.ety)
    def seq_put(self, st, q, i, val):
        log = q.log
        if log and log[-1].kind == "el" and log[-1].k is None and log[-1].start == i: log = log[:-1]
        return Seq(q.n, q.base, log + (Ent("el", i, P(1), val, None, None),), q.ety)
    def seq_copy(self, st, q, at, src, off, n):
        if n.is_const() and n.value() == 0: return q
        if isinstance(src.base, tuple) and src.base and src.base[0] == "view" and not src.log:
            src, off = src.base[1], src.base[2] + off
        if at == 0 and n == q.n and off == 0 and src.n == q.n: return Seq(q.n, src.base, src.log, q.ety)
        return Seq(q.n, q.base, q.log + (Ent("copy", at, n, (src, off), None, None),), q.ety)
    def seq_append(self, q, ents, n):
        return Seq(q.n + n, q.base, q.log + tuple(ents), q.ety)
    # a block of an encoded value
    def seq_dec(self, st, q, start, size, tname, depth=0):
        """The value of opaque type tname decoded from [start, start+size)."""
        if depth > 20: return self.unk("deep copy chain")
        for e in reversed(q.log):
            if e.k is None:
                if e.kind == "enc" and e.start == start and e.count == size and e.val[0] == tname: return e.val[1]
                if e.count.is_const() and e.count.value() == 0: continue
                if st.facts.entails_eq(size): break
                # disjoint?
                if self.decide(st, cge(e.start - start - size)): continue
                if self.decide(st, cge(start - e.start - e.count)): continue
                if e.kind == "enc" and e.val[0] == tname and e.count == size and self.decide(st, ceq(e.start - start)): return e.val[1]
                if e.kind == "copy":
                    if self.decide(st, cge(start - e.start)) and self.decide(st, cge(e.start + e.count - start - size)):
                        return self.seq_dec(st, e.val[0], e.val[1] + (start - e.start), size, tname, depth + 1)
                return Op(("decmix", tname, fresh_id()), tname)
            else:
                h = self.ent_hull(e)
                if e.kind == "enc" and e.val[0] == tname and e.count == size:
                    k0 = self.solve(e.start, e.k, start)
                    if k0 is not None and self.known(st, cge(k0)) and self.known(st, cge(P(e.K) - k0 - 1)):
                        return self.phi(st, self.at(e.val[1], e.k, k0))
                if h is None:
                    r = self.scattered(st, e, start, size)
                    if r == "miss": continue
                    if r is not None and e.kind == "enc" and e.val[0] == tname and r[1] == 0 and e.count == size: return self.phi(st, self.at(e.val[1], e.k, r[0]))
                    return self.unk("decode over a scattered write")
                if self.decide(st, cge(h[0] - start - size)): continue
                if self.decide(st, cge(start - h[0] - h[1])): continue
                if e.kind == "enc" and e.val[0] == tname and e.count == size:
                    k0 = self.solve(e.start, e.k, start)
                    if k0 is not None and self.decide(st, cge(k0)) and self.decide(st, cge(P(e.K) - k0 - 1)):
                        return self.phi(st, self.at(e.val[1], e.k, k0))
                return Op(("decmix", tname, fresh_id()), tname)
        b = q.base
        if isinstance(b, tuple) and b and b[0] == "view":
            return self.seq_dec(st, b[1], b[2] + start, size, tname, depth + 1)
        return self.mk_named(("dec", b, start), tname)
    def mk_named(self, term, tname):
        ti = self.tyi(tname)
        if ti is None: return Op(term, tname)
        return self.mk(term, ti)
    # ---- places and operands
    def place(self, st, fr, p):
        """(cell, path) of a MIR place."""
        local, projs, ty = p
        c, path = (fr.id, local), ()
        for e in projs:
            k = e[0]
            if k == "d":
                v = self.get(st, self.cell(st, c), path)
                if isinstance(v, Ref): c, path = v.c, v.p
                elif isinstance(v, Agg) and v.f and isinstance(v.f[0], Ref): c, path = v.f[0].c, v.f[0].p
                else: raise Undecided("dereference of %s" % (v.why if isinstance(v, Unk) else type(v).__name__ + " " + getattr(v, "ty", "")))
            elif k == "f": path = self.ext(path, ("f", e[1]))
            elif k == "v": path = self.ext(path, ("v", e[1]))
            elif k == "i":
                iv = self.cell(st, (fr.id, e[1]))
                if not isinstance(iv, Poly): iv = unknown_atom("usize", "index")
                path = self.ext(path, ("i", iv))
            elif k == "ci":
                off, mn, fe = e[1], e[2], e[3]
                if fe:
                    n = self.len_at(st, Ref(c, path))
                    path = self.ext(path, ("i", n - int(off)))
                else: path = self.ext(path, ("i", P(int(off))))
            elif k == "sub":
                a, b, fe = int(e[1]), int(e[2]), e[3]
                n = self.len_at(st, Ref(c, path))
                path = self.ext(path, ("sub", P(a), (n - a - b) if fe else P(b - a)))
            elif k == "o": pass
            else: raise Undecided("projection %r" % (e,))
        return c, path
    def len_at(self, st, r):
        if isinstance(r, Ref) and r.p and r.p[-1][0] == "sub": return r.p[-1][2]
        v = self.get(st, self.cell(st, r.c), r.p)
        if isinstance(v, Seq): return v.n
        if isinstance(v, VecV): return v.seq.n
        self.note("length of %s" % type(v).__name__)
        return unknown_atom("usize", "length")
    def operand(self, st, fr, o):
        k = o[0]
        if k in ("copy", "move"):
            p = o[1]
            if not p[1]:
                c = (fr.id, p[0])
                v = st.cells.get(c)
                if v is None: raise Undecided("read of an uninitialised local in %s" % fr.name)
                return v
            c, path = self.place(st, fr, p)
            return self.load(st, Ref(c, path))
        return self.const(st, fr, o)
    def const(self, st, fr, o):
        k = o[0]
        if k == "int":
            n = self.tn(o[1]); v = signed(o[2], n)
            if n == "bool": return TRUE if v else FALSE
            return P(v)
        if k == "zst": return self.zst(o[1])
        if k == "fn": return Fn(self.freeze(o[2]))
        if k == "body":
            return self.const_body(st, o[2])
        if k == "assoc":
            return self.assoc(st, o)
        if k == "tyc": return self.const_poly(o[2])
        if k == "val":
            t = self.ty(o[1])
            if t["k"] == "adt" and t["enum"]:
                for vi, v in enumerate(t["variants"]):
                    if not v[2] and re.search(r"(^|::)%s$" % re.escape(v[0]), o[2]): return Agg(t["n"], vi, ())
            return self.mk(("val", o[2]), o[1])
        if k == "scalar":
            n = self.tn(o[1])
            if n == "bool": return TRUE if str(o[2]) in ("1", "true") else FALSE
            try:
                if n in INTS: return P(int(str(o[2])))
            except ValueError: pass
            t = self.ty(o[1])
            if str(o[2]) == "0" and t["k"] == "adt" and t["path"].endswith("option::Option") and self.ty(t["args"][0])["k"] == "ref": return Agg(n, 0, ())
            return self.mk(("val", str(o[2])), o[1])
        if k == "rt": return self.models.runtime_check(self, o)
        return self.unk("constant %s" % k)
    def freeze(self, d):
        return tuple(sorted((k, tuple(v) if isinstance(v, list) else v) for k, v in d.items()))
    def zst(self, ti):
        t = self.ty(ti)
        if t["k"] == "tuple" and not t["of"]: return UNIT
        if t["k"] == "tuple": return Agg(t["n"], 0, tuple(self.zst(x) for x in t["of"]))
        if t["k"] == "adt" and t["variants"] and not t["enum"]:
            return Agg(t["n"], 0, tuple(self.zst(f[1]) for f in t["variants"][0][2]))
        if t["k"] == "adt" and t["enum"]:
            for vi, v in enumerate(t["variants"]):
                if not v[2]: return Agg(t["n"], vi, ())
        if t["k"] == "closure": return Clo(self.closure_inst(t), (), t["n"])
        if t["k"] == "array": return Seq(self.len_of(t), None, (), t["of"])
        if t["k"] == "fndef": return Fn(self.freeze(t["callee"])) if "callee" in t else Op(("zst", t["n"]), t["n"])
        return Op(("zst", t["n"]), t["n"])
    def closure_inst(self, t):
        for i in self.p.insts.values():
            if i["path"] == t["path"]: return i["key"]
        return None
    def const_body(self, st, key):
        s2 = State({}, st.facts, ())
        outs = self.call_inst(key, [], s2, 0)
        if not outs: raise Stop()
        if len(outs) != 1: raise Fork([("facts", s.facts) for s, _ in outs])
        s, v = outs[0]
        # keep cells that the value refers to (promoted references)
        for c, x in s.cells.items():
            if c not in st.cells: st.cells[c] = x
        if s.facts is not st.facts: st.facts = s.facts
        return v
    def assoc(self, st, o):
        path, selfty = o[2], o[3]
        name = path.split("::")[-1]
        if name == "SLAB_SIZE": return self.size_of(self.tn(selfty) if isinstance(selfty, int) else str(selfty))
        n = self.tn(o[1])
        return self.mk(("assoc", path, str(selfty)), o[1])
    def size_of(self, tname):
        return Poly.atom(("a", "size", "size", tname))
    # ---- rvalues
    def rvalue(self, st, fr, r, dest_ty, span):
        k = r[0]
        if k == "use": return self.operand(st, fr, r[1])
        if k == "ref":
            c, path = self.place(st, fr, r[2])
            return Ref(c, path)
        if k == "agg": return self.aggregate(st, fr, r, dest_ty)
        if k == "bin":
            a, b = self.operand(st, fr, r[2]), self.operand(st, fr, r[3])
            return self.binop(st, r[1], a, b, self.tn(r[4]) if len(r) > 4 and isinstance(r[4], int) else None, dest_ty)
        if k == "un":
            a = self.operand(st, fr, r[2])
            return self.unop(st, r[1], a, dest_ty)
        if k == "cast":
            a = self.operand(st, fr, r[2])
            return self.cast(st, r[1], a, r[3], r[4])
        if k == "discr":
            c, path = self.place(st, fr, r[1])
            if not path and c not in st.cells and isinstance(r[1][2], int):
                one = self.only_variant(r[1][2])       # std bodies do not store values of one-valued types
                if one is not None: return one
            v = self.get(st, self.cell(st, c), path)
            if isinstance(v, Coro): return P(v.state)
            vi = self.variant(st, v)
            n = v.ty
            ti = r[1][2] if isinstance(r[1][2], int) else self.tyi(n)
            t = self.ty(ti)
            if t["k"] == "adt" and t["variants"]: return P(signed(t["variants"][vi][1], self.tn(dest_ty) if dest_ty is not None else None))
            return P(vi)
        if k == "repeat":
            v = self.operand(st, fr, r[1])
            t = self.ty(dest_ty)
            return Seq(self.len_of(t), ("fill", v), (), t["of"])
        if k == "other":
            return self.unk("rvalue %s" % (r[1:],))
        raise Undecided("rvalue %s" % k)
    def uninhabited(self, ti):
        t = self.ty(ti)
        if t["n"] in ("!", "std::convert::Infallible"): return True
        return t["k"] == "adt" and t["enum"] and not t["variants"]
    def only_variant(self, ti):
        t = self.ty(ti)
        if t["k"] != "adt" or not t["enum"]: return None
        vs = [v for v in t["variants"] if not any(self.uninhabited(f[1]) for f in v[2])]
        return P(int(vs[0][1])) if len(vs) == 1 else None
    def aggregate(self, st, fr, r, dest_ty):
        spec = r[1]
        ops = [self.operand(st, fr, x) for x in r[2]]
        k = spec[0]
        if k == "tuple":
            return Agg("()" if not ops else self.tn(dest_ty), 0, tuple(ops))
        if k == "array":
            t = self.ty(dest_ty)
            return Seq(P(len(ops)), None, tuple(Ent("el", P(i), P(1), v, None, None) for i, v in enumerate(ops)), t.get("of"))
        if k == "adt":
            ti = spec[6]
            t = self.ty(ti)
            h = self.models.agg.get(norm(t["path"]))
            if h: return h(self, t, spec, ops)
            return Agg(t["n"], spec[2], tuple(ops))
        if k == "closure":
            return Clo(spec[2], tuple(ops), self.tn(dest_ty))
        if k == "coroutine":
            return Coro(spec[2], tuple(ops), 0, (), self.tn(dest_ty))
        raise Undecided("aggregate %s" % k)
    # ---- arithmetic
    def fits(self, st, p, ty):
        lo, hi = BOUNDS.get(ty, (None, None))
        if p.is_const():
            return (lo is None or p.value() >= lo) and (hi is None or p.value() <= hi)
        return None
    def over(self, p, ty):
        """Condition: p does not fit in ty."""
        lo, hi = BOUNDS[ty]
        c = cge(p - hi - 1)
        if lo is not None: c = cor(c, cge(-p + (lo - 1)))
        return c
    def wrap(self, st, p, ty):
        if p.is_const():
            lo, hi = BOUNDS[ty]; w = WIDTH[ty]
            v = p.value() % (1 << w)
            if lo < 0 and v > hi: v -= 1 << w
            return P(v)
        if self.known(st, self.over(p, ty)) is False: return p
        return Poly.atom(("a", "wrap", ty, p))
    def binop(self, st, op, a, b, ty, dest_ty):
        if isinstance(a, Unk) or isinstance(b, Unk):
            return self.unknown_of(dest_ty, "arithmetic on an unknown")
        if ty is None and dest_ty is not None: ty = self.tn(dest_ty)
        if isinstance(a, Cond) or isinstance(b, Cond):
            a = a if isinstance(a, Cond) else (TRUE if a.value() else FALSE)
            b = b if isinstance(b, Cond) else (TRUE if b.value() else FALSE)
            if op == "BitAnd": return cand(a, b)
            if op == "BitOr": return cor(a, b)
            if op == "BitXor" or op == "Ne": return cor(cand(a, cnot(b)), cand(cnot(a), b))
            if op == "Eq": return cor(cand(a, b), cand(cnot(a), cnot(b)))
            x, y = self.decide(st, a), self.decide(st, b)
            return {"Lt": TRUE if x < y else FALSE, "Le": TRUE if x <= y else FALSE, "Gt": TRUE if x > y else FALSE, "Ge": TRUE if x >= y else FALSE}.get(op) or self.unk("bool op " + op)
        if isinstance(a, Poly) and isinstance(b, Poly):
            if op in ("Eq", "Ne", "Lt", "Le", "Gt", "Ge"):
                c = {"Eq": lambda: ceq(a - b), "Ne": lambda: cnot(ceq(a - b)), "Lt": lambda: cge(b - a - 1), "Le": lambda: cge(b - a), "Gt": lambda: cge(a - b - 1), "Ge": lambda: cge(a - b)}[op]()
                return c
            if op == "Cmp":
                oi = "std::cmp::Ordering"
                if self.decide(st, ceq(a - b)): return Agg(oi, 1, ())
                return Agg(oi, 2, ()) if self.decide(st, cge(a - b)) else Agg(oi, 0, ())
            base = op.replace("WithOverflow", "").replace("Unchecked", "")
            if base in ("Add", "Sub", "Mul"):
                p = a + b if base == "Add" else a - b if base == "Sub" else a * b
                ity = ty if ty in BOUNDS else "usize"
                if base == "Add" and ("bits" in [x.as_atom()[1] for x in (a, b) if x.as_atom()]):
                    # numbers without common bits
                    w = self.tn(self.ty(dest_ty)["of"][0]) if op.endswith("WithOverflow") else ity
                    if w in WIDTH:
                        A, B = self.to_bits(a, w), self.to_bits(b, w)
                        if all(x == 0 or y == 0 for x, y in zip(A, B)):
                            p = self.from_bits(tuple(y if x == 0 else x for x, y in zip(A, B)), w)
                            return Agg(self.tn(dest_ty), 0, (p, FALSE)) if op.endswith("WithOverflow") else p
                if op.endswith("WithOverflow"):
                    ity = self.tn(self.ty(dest_ty)["of"][0])
                    ov = self.over(p, ity)
                    return Agg(self.tn(dest_ty), 0, (p, ov))
                if op.endswith("Unchecked"): return p
                if dest_ty is not None and self.tn(dest_ty) in BOUNDS: ity = self.tn(dest_ty)
                return self.wrap(st, p, ity)
            if base in ("Div", "Rem"):
                return self.divrem(st, base, a, b, self.tn(dest_ty))
            return self.bitop(st, base, a, b, self.tn(dest_ty))
        if op == "Offset": return self.unk("pointer offset")
        if isinstance(a, Ref) and isinstance(b, Ref) and op in ("Eq", "Ne"):
            if a == b: return TRUE if op == "Eq" else FALSE
            return cop(("cmp", op, a, b))
        if op in ("Eq", "Ne", "Lt", "Le", "Gt", "Ge"):
            return cop(("cmp", op, a, b))
        return self.opval(("op", op, a, b), dest_ty)
    def opval(self, term, ti):
        return self.mk(term, ti)
    def unknown_of(self, ti, why):
        if ti is None: return self.unk(why)
        t = self.ty(ti)
        if t["k"] == "prim":
            if t["n"] in INTS: return unknown_atom(t["n"], why)
            if t["n"] == "bool": return cop(("unkb", Unk(fresh_id(), why)))
        if t["k"] == "tuple": return Agg("()" if not t["of"] else t["n"], 0, tuple(self.unknown_of(x, why) for x in t["of"]))
        return self.unk(why)
    def divrem(self, st, op, a, b, ty):
        if a.is_const() and b.is_const() and b.value():
            q = abs(a.value()) // abs(b.value())
            if (a.value() < 0) != (b.value() < 0): q = -q
            return P(q) if op == "Div" else P(a.value() - q * b.value())
        q = a.divide(b)
        if q is not None and st.facts.entails_ne(b):
            return q if op == "Div" else P(0)
        if BOUNDS.get(ty, (None,))[0] == 0:
            qa = Poly.atom(("a", "div", ty, a, b))
            f = st.facts
            f = f.with_ge(a - b * qa).with_ge(b * qa + b - a - 1)
            st.facts = f
            return qa if op == "Div" else a - b * qa
        return Poly.atom(("a", "op" + op, ty, a, b))
    # bits
    def to_bits(self, p, ty):
        w = WIDTH[ty]
        if p.is_const():
            v = p.value() % (1 << w)
            return tuple((v >> i) & 1 for i in range(w))
        a = p.as_atom()
        if a and a[1] == "bits" and a[2] == ty: return a[3]
        if a and a[1] == "bits": # widened unsigned value
            bb = a[3]
            if BOUNDS[a[2]][0] == 0: return (bb + (0,) * w)[:w]
        lo, hi = BOUNDS[ty]
        sty = ty
        if a and a[2] in WIDTH and a[2] != ty:
            # value of a narrower type kept as it is
            sw = WIDTH[a[2]]
            if sw < w:
                low = tuple((p, a[2], i) for i in range(sw))
                ext = 0 if BOUNDS[a[2]][0] == 0 else (p, a[2], sw - 1)
                return low + (ext,) * (w - sw)
        return tuple((p, sty, i) for i in range(w))
    def from_bits(self, bits, ty):
        if all(b in (0, 1) and not isinstance(b, tuple) for b in bits):
            v = sum(b << i for i, b in enumerate(bits))
            if BOUNDS[ty][0] < 0 and v > BOUNDS[ty][1]: v -= 1 << WIDTH[ty]
            return P(v)
        b0 = bits[0]
        if isinstance(b0, tuple) and len(b0) == 3 and isinstance(b0[0], Poly):
            p, sty, i0 = b0
            sw = WIDTH.get(sty, 0)
            if i0 == 0 and sw:
                w = WIDTH[ty]
                low = tuple((p, sty, i) for i in range(sw))
                if BOUNDS[sty][0] == 0 and sw <= w and bits == low + (0,) * (w - sw):
                    if sw < w or BOUNDS[ty][0] == 0: return p
                if BOUNDS[sty][0] < 0 and sw <= w and BOUNDS[ty][0] < 0 and bits == low + ((p, sty, sw - 1),) * (w - sw): return p
        return Poly.atom(("a", "bits", ty, tuple(bits)))
    def bitop(self, st, op, a, b, ty):
        if ty not in WIDTH: return self.unknown_of(None, "bit operation")
        w = WIDTH[ty]
        A = self.to_bits(a, ty)
        if op in ("Shl", "Shr"):
            if not b.is_const(): return Poly.atom(("a", "op" + op, ty, a, b))
            n = b.value() % w
            if op == "Shl": r = (0,) * n + A[:w - n]
            else: r = A[n:] + ((0 if BOUNDS[ty][0] == 0 else A[-1]),) * n
            return self.from_bits(r, ty)
        B = self.to_bits(b, ty)
        r = []
        for x, y in zip(A, B):
            cx, cy = not isinstance(x, tuple), not isinstance(y, tuple)
            if op == "BitAnd":
                r.append(0 if (cx and x == 0) or (cy and y == 0) else y if cx else x if cy else x if x == y else ("and", x, y))
            elif op == "BitOr":
                r.append(1 if (cx and x == 1) or (cy and y == 1) else y if cx else x if cy else x if x == y else ("or", x, y))
            elif op == "BitXor":
                if cx and cy: r.append(x ^ y)
                elif x == y: r.append(0)
                elif cx: r.append(y if x == 0 else ("not", y))
                elif cy: r.append(x if y == 0 else ("not", x))
                else: r.append(("xor", x, y))
            else: return Poly.atom(("a", "op" + op, ty, a, b))
        return self.from_bits(tuple(r), ty)
    def unop(self, st, op, a, dest_ty):
        if op == "Not":
            if isinstance(a, Cond): return cnot(a)
            if isinstance(a, Poly):
                ty = self.tn(dest_ty)
                if ty in WIDTH:
                    bits = tuple((1 - x) if not isinstance(x, tuple) else (x[1] if x[0] == "not" else ("not", x)) for x in self.to_bits(a, ty))
                    return self.from_bits(bits, ty)
        if op == "Neg":
            if isinstance(a, Poly): return self.wrap(st, -a, self.tn(dest_ty))
            return self.opval(("op", "Neg", a), dest_ty)
        if op == "PtrMetadata":
            if isinstance(a, Ref): return self.len_at(st, a)
            return self.unknown_of(dest_ty, "pointer metadata")
        return self.unknown_of(dest_ty, "unary " + op)
    def cast(self, st, kind, a, fi, ti):
        ft, tt = self.tn(fi), self.tn(ti)
        if kind == "IntToInt":
            if isinstance(a, Cond): a = P(1) if self.decide(st, a) else P(0)
            if isinstance(a, Op):  # enum as integer
                return self.mk(("cast", a), ti)
            if isinstance(a, Agg):
                t = self.ty(fi)
                return P(signed(t["variants"][a.v][1], tt))
            if not isinstance(a, Poly): return self.unknown_of(ti, "cast of an unknown")
            if a.is_const(): return self.wrap(st, a, tt)
            fl, fh = BOUNDS[ft]; tl, th = BOUNDS[tt]
            if fl >= tl and fh <= th: return a
            if self.known(st, self.over(a, tt)) is False: return a
            # slabs are addressed by u32: slot numbers and lengths fit
            if ft in ("usize", "u64") and tt == "u32" and ft == "usize": return a
            return self.from_bits(self.trunc(self.to_bits(a, ft), tt, ft), tt)
        if kind.startswith("PointerCoercion") or kind in ("PtrToPtr", "FnPtrToPtr", "BoxDerefTransmute"):
            if kind.startswith("PointerCoercion(ClosureFnPointer") or "ReifyFnPointer" in kind: return a
            return a
        if kind == "Transmute":
            if isinstance(a, Ref) or ft == tt: return a
            h = self.models.transmute(self, st, a, fi, ti)
            if h is not None: return h
            if isinstance(a, Poly) and ft in WIDTH and tt in WIDTH and WIDTH[ft] == WIDTH[tt]:
                return self.from_bits(self.to_bits(a, ft), tt)
            return self.mk(("transmute", a, ft), ti)
        if isinstance(a, Unk): return self.unknown_of(ti, "cast of an unknown")
        return self.mk(("cast", kind, a), ti)
    def trunc(self, bits, tt, ft):
        w = WIDTH[tt]
        if len(bits) >= w: return bits[:w]
        ext = 0 if BOUNDS[ft][0] == 0 else bits[-1]
        return bits + (ext,) * (w - len(bits))
    # ---- running
    def call_inst(self, key, args, st, depth):
        inst = self.p.insts[key]
        body = inst.get("body")
        if body is None: raise Undecided("no body for %s" % inst["name"])
        if depth > MAXDEPTH: raise Undecided("call depth")
        self.visited.add(inst["name"])
        fr = Frame()
        fr.id = next(self.frame_ids); fr.inst = inst; fr.body = body; fr.depth = depth; fr.name = inst["name"]
        self.frames[fr.id] = fr
        lk = self.p._loops
        if key not in lk: lk[key] = find_loops(body)
        fr.loops = lk[key]
        n = body["argc"]
        if len(args) != n:
            sp = body.get("spread")
            if sp is not None and len(args) != n: raise Undecided("argument count of %s" % inst["name"])
            raise Undecided("argument count of %s: %d for %d" % (inst["name"], len(args), n))
        st = st.copy()
        for i, a in enumerate(args): st.cells[(fr.id, i + 1)] = a
        self.cur.append(inst["name"])
        try:
            outs = self.run(fr, 0, st, None)
        finally:
            self.cur.pop()
        res = []
        for o in outs:
            if o[0] != "ret": raise Undecided("unstructured control flow")
            s = o[1]
            v = s.cells.get((fr.id, 0), UNIT)
            for c in [c for c in s.cells if c[0] == fr.id]:
                if not self.refers(v, fr.id) : del s.cells[c]
            res.append((s, v))
        return res
    def refers(self, v, fid):
        """Does the value hold a reference into the frame (promoted constants)?"""
        found = []
        def f(x):
            if isinstance(x, Ref) and x.c[0] == fid: found.append(1)
        visit(v, f)
        return bool(found)
    def run(self, fr, bb0, st0, loop):
        out = []
        work = [(bb0, 0, st0, loop is not None)]
        while work:
            bb, si, st, entered = work.pop()
            if not entered:
                if loop is not None:
                    if bb == loop.header: out.append(("back", st)); continue
                    if bb not in loop.blocks: out.append(("exit", bb, st)); continue
                if bb in fr.loops:
                    work += self.enter_loop(fr, bb, st, out)
                    continue
            self.steps += 1
            if self.steps > self.max_steps: raise Undecided("too many steps")
            blk = fr.body["blocks"][bb]
            ss = blk["s"]
            cur = st
            try:
                while si < len(ss):
                    new = cur.copy()
                    self.stmt(new, fr, ss[si])
                    cur = new
                    si += 1
                for nb, s in self.term(cur.copy(), fr, blk["t"]):
                    if nb == "ret": out.append(("ret", s))
                    else: work.append((nb, 0, s, False))
            except Fork as f:
                self.forked(fr, f)
                for alt in f.alts:
                    s = self.refine(cur, alt)
                    if s is not None: work.append((bb, si, s, True))
            except Stop:
                continue
            if len(work) + len(out) > 3000: raise Undecided("too many paths")
        return out
    def forked(self, fr, f): pass
    def stmt(self, st, fr, s):
        k = s[0]
        if k == "=":
            p = s[1]
            v = self.rvalue(st, fr, s[2], p[2], s[3] if len(s) > 3 else "")
            if not p[1]: st.cells[(fr.id, p[0])] = v
            else:
                c, path = self.place(st, fr, p)
                self.store(st, Ref(c, path), v)
        elif k == "dead":
            pass
        elif k == "live": st.cells.pop((fr.id, s[1]), None)
        elif k == "disc":
            c, path = self.place(st, fr, s[1])
            v = self.get(st, self.cell(st, c), path)
            ti = s[1][2]
            t = self.ty(ti)
            vi = int(s[2])
            if isinstance(v, Agg) and v.v == vi: return
            if isinstance(v, Coro):
                st.cells[c] = self.put(st, self.cell(st, c), path, Coro(v.inst, v.up, vi, v.saved if vi != 1 else (), v.ty))
                return
            self.set_variant(st, c, path, v, vi, t)
        elif k == "intr": pass
    def set_variant(self, st, c, path, v, vi, t):
        if t["k"] == "adt" and t["variants"]:
            n = len(t["variants"][vi][2])
            f = v.f if isinstance(v, Agg) and len(v.f) == n else tuple(self.unk("unset field") for _ in range(n))
            st.cells[c] = self.put(st, self.cell(st, c), path, Agg(t["n"], vi, f))
        else:
            h = self.models.set_variant(self, st, c, path, v, vi)
            if not h: raise Undecided("set discriminant of %s" % t["n"])
    def panic(self, st, fr, msg, span, definite=False, cond=None):
        self.add_panic(st, msg, fr.name, span, None if definite else cond)
    def add_panic(self, st, msg, name, span, cond=None):
        """Records a panic that happens unless cond holds."""
        def cases(c):
            if c.k == "or": return cases(c.a[0]) + cases(c.a[1])
            if c.k == "and": return [cand(a, b) for a in cases(c.a[0]) for b in cases(c.a[1])]
            return [c]
        for c in cases(cnot(cond) if cond is not None else TRUE):
            s = st.copy()
            try: self.assume(s, c)
            except Stop: continue
            self.panics.append((s, msg, name, span, cond is None))
    def term(self, st, fr, t):
        k = t[0]
        if k == "goto": return [(t[1], st)]
        if k == "ret": return [("ret", st)]
        if k == "switch":
            v = self.operand(st, fr, t[1])
            if isinstance(v, Cond):
                b = self.decide(st, v)
                v = P(1 if b else 0)
            if not isinstance(v, Poly): raise Undecided("branch on an unknown value")
            for val, bb in t[2]:
                if self.decide(st, ceq(v - signed(val, self.tn(t[4])))): return [(bb, st)]
            if t[3] is None: return []
            return [(t[3], st)]
        if k in ("unreachable", "unwind"): return []
        if k == "assert":
            c = self.operand(st, fr, t[1])
            exp = t[2]
            if isinstance(c, Unk):
                self.panic(st, fr, t[4], t[5]); return [(t[3], st)]
            if not exp: c = cnot(c)
            r = self.known(st, c)
            if r is True: return [(t[3], st)]
            if r is False:
                self.panic(st, fr, t[4], t[5], True)
                return []
            self.panic(st, fr, t[4], t[5], False, c)
            s = st.copy()
            if not (t[4].startswith("Overflow(Add") or t[4].startswith("Overflow(Mul")) or self.opts.get("ovf_facts") or "u32" in str(t[4]):
                self.assume(s, c)
            return [(t[3], s)]
        if k == "drop":
            outs = self.drop_place(st, fr, t)
            return [(t[2], s) for s in outs]
        if k == "call": return self.call_term(st, fr, t)
        raise Undecided("terminator %s" % k)
    # ---- drops
    def drop_place(self, st, fr, t):
        if not self.has_drop(t[3]): return [st]
        c, path = self.place(st, fr, t[1])
        return self.drop_value(st, Ref(c, path), t[3], fr.depth)
    def has_drop(self, ti, seen=None):
        cache = self.p.__dict__.setdefault("_drop", {})
        if ti in cache: return cache[ti]
        seen = seen or set()
        if ti in seen: return False
        seen = seen | {ti}
        t = self.ty(ti); k = t["k"]
        r = False
        if k == "adt":
            n = norm(t["path"])
            if n in self.models.drops: r = True
            elif n in self.models.nodrop: r = False
            elif t["dtor"] is not None: r = True
            else:
                for v in t["variants"]:
                    for f in v[2]:
                        if self.has_drop(f[1], seen): r = True
                if not t["variants"]:
                    for a in t["args"]:
                        if self.has_drop(a, seen): r = True
        elif k == "tuple": r = any(self.has_drop(x, seen) for x in t["of"])
        elif k in ("closure", "coroutine"): r = any(self.has_drop(x, seen) for x in t.get("up", []))
        elif k in ("array", "slice"): r = self.has_drop(t["of"], seen)
        if len(seen) == 1: cache[ti] = r
        return r
    def drop_value(self, st, r, ti, depth):
        """Runs drop glue; returns states."""
        if not self.has_drop(ti): return [st]
        t = self.ty(ti); k = t["k"]
        outs = [st]
        if k == "coroutine":
            v = self.get(st, self.cell(st, r.c), r.p)
            if isinstance(v, Coro):
                if v.state == 1: return [st]
                if v.state != 0: self.note("a suspended future is dropped")
        if k == "adt":
            n = norm(t["path"])
            if n in self.models.drops:
                return self.models.drops[n](self, st, r, ti, t, depth)
            if t["dtor"] is not None:
                outs = [s for s, _ in self.call_inst(t["dtor"], [r], st, depth + 1)]
            res = []
            for s in outs:
                if not t["enum"]:
                    cur = [s]
                    for fi, f in enumerate(t["variants"][0][2] if t["variants"] else []):
                        nxt = []
                        for x in cur: nxt += self.drop_value(x, Ref(r.c, r.p + (("f", fi),)), f[1], depth)
                        cur = nxt
                    res += cur
                else:
                    v = self.get(s, self.cell(s, r.c), r.p)
                    if isinstance(v, Unk): res.append(s); continue
                    vi = self.variant(s, v)
                    cur = [s]
                    for fi, f in enumerate(t["variants"][vi][2]):
                        nxt = []
                        for x in cur: nxt += self.drop_value(x, Ref(r.c, r.p + (("v", vi), ("f", fi))), f[1], depth)
                        cur = nxt
                    res += cur
            return res
        if k in ("tuple", "closure", "coroutine"):
            cur = [st]
            for fi, f in enumerate(t["of"] if k == "tuple" else t["up"]):
                nxt = []
                for x in cur: nxt += self.drop_value(x, Ref(r.c, r.p + (("f", fi),)), f, depth)
                cur = nxt
            return cur
        st.event("dropseq", self.tn(ti))
        return [st]
    # ---- calls
    def call_term(self, st, fr, t):
        callee, argops, dest, target, span = t[1], t[2], t[3], t[4], t[5]
        self.callsites += 1
        args = [self.operand(st, fr, a) for a in argops]
        if callee is None:
            f = self.operand(st, fr, t[6])
            outs = self.call_value(st, f, args, dest[2], fr.depth, span)
        else:
            outs = self.call(st, callee, args, dest[2], fr.depth, span)
        res = []
        for s, v in outs:
            if target is None: continue
            if not dest[1]: s.cells[(fr.id, dest[0])] = v
            else:
                c, path = self.place(s, fr, dest)
                self.store(s, Ref(c, path), v)
            res.append((target, s))
        return res
    def call_value(self, st, f, args, dest_ty, depth, span):
        if isinstance(f, Fn): return self.call(st, self.thaw(f.callee), args, dest_ty, depth, span)
        if isinstance(f, Ref): return self.call_value(st, self.load(st, f), args, dest_ty, depth, span)
        if isinstance(f, Clo) and f.inst is not None:
            inst = self.p.insts[f.inst]
            n = inst["body"]["argc"]
            self_arg = f
            if self.ty(inst["body"]["locals"][1])["k"] == "ref":
                c = ("clo", fresh_id()); st = st.copy(); st.cells[c] = f
                self_arg = Ref(c, ())
            return self.call_inst(f.inst, [self_arg] + args, st, depth + 1)
        return self.models.unknown_call(self, st, "function value", args, dest_ty, depth, span)
    def thaw(self, fz):
        d = dict(fz)
        d["args"] = list(d.get("args", ())); d["cargs"] = list(d.get("cargs", ()))
        return d
    def call(self, st, callee, args, dest_ty, depth, span):
        """-> [(state, value)]"""
        inst = self.p.insts.get(callee["inst"]) if callee["inst"] is not None else None
        r = self.models.call(self, st, callee, inst, args, dest_ty, depth, span)
        if r is not None: return r
        if callee.get("model") is not None and self.p.insts[callee["model"]].get("body"):
            return self.call_inst(callee["model"], args, st, depth + 1)
        if inst is not None and inst.get("body"):
            return self.enter(inst, callee, args, st, depth)
        if callee.get("dflt") is not None and self.p.insts[callee["dflt"]].get("body"):
            return self.enter(self.p.insts[callee["dflt"]], callee, args, st, depth)
        return self.models.unknown_call(self, st, callee["path"], args, dest_ty, depth, span)
    def enter(self, inst, callee, args, st, depth):
        body = inst["body"]
        n = body["argc"]
        p = callee["path"]
        if n != len(args) or p.startswith(("std::ops::Fn", "core::ops::Fn")):
            # Fn*::call*(f, (a, b)) straight into the closure body
            if len(args) == 2 and isinstance(args[1], Agg):
                rest = list(args[1].f)
                self_arg = args[0]
                if inst["kind"] == "item" and 1 + len(rest) == n:
                    want_ref = self.ty(body["locals"][1])["k"] == "ref"
                    if want_ref and not isinstance(self_arg, Ref):
                        c = ("clo", fresh_id()); st = st.copy(); st.cells[c] = self_arg; self_arg = Ref(c, ())
                    elif not want_ref and isinstance(self_arg, Ref): self_arg = self.load(st, self_arg)
                    return self.call_inst(inst["key"], [self_arg] + rest, st, depth + 1)
                if len(rest) == n: # function item called through Fn
                    return self.call_inst(inst["key"], rest, st, depth + 1)
        return self.call_inst(inst["key"], args, st, depth + 1)
    # ---- loops
    def enter_loop(self, fr, bb, st, out):
        """Runs the loop at bb to its exits; returns work items."""
        L = fr.loops[bb]
        work = []
        todo = [st]
        while todo:
            s = todo.pop()
            try:
                outs = self.run_loop(fr, L, s)
            except Fork as f:
                for alt in f.alts:
                    r = self.refine(s, alt)
                    if r is not None: todo.append(r)
                continue
            for o in outs:
                if o[0] == "ret": out.append(o)
                elif o[0] == "exit": work.append((o[1], 0, o[2], False))
                else: raise Undecided("loop outcome")
        return work
    UNROLL = 70
    def unroll_of(self, fr):
        """Iterations looked at one by one: (number, pattern of the functions it applies to)."""
        u = self.opts.get("unroll")
        return u[0] if u and re.search(u[1], fr.name) else 0
    def run_loop(self, fr, L, st):
        mark = len(self.panics)
        done, cur = [], [st]
        for it in range(self.UNROLL):
            nxt, d = [], []
            for s in cur:
                m2 = len(self.panics)
                outs = self.run(fr, L.header, s, L)
                backs = [o for o in outs if o[0] == "back"]
                if (backs and len(backs) < len(outs) and it >= self.unroll_of(fr)) or (len(backs) > 1 and self.opts.get("unroll") and not self.unroll_of(fr)) or (it >= 24 and backs and not self.const_loop(fr, L, s, backs)):
                    del self.panics[m2:]
                    d += self.summarise(fr, L, s)
                    continue
                d += [o for o in outs if o[0] != "back"]
                nxt += [o[1] for o in backs]
            done += d
            if not nxt: return done
            cur = nxt
            if len(cur) > 64: break
        res = done
        for s in cur: res += self.summarise(fr, L, s)
        return res
    def const_loop(self, fr, L, s, backs): return it_is_small(s)
    # leaves of the state at a loop header
    def diff(self, a, b, path, out):
        if a == b: return
        if type(a) is type(b):
            if isinstance(a, Agg) and a.ty == b.ty and a.v == b.v and len(a.f) == len(b.f):
                for i, (x, y) in enumerate(zip(a.f, b.f)): self.diff(x, y, path + (("f", i),), out)
                return
            if isinstance(a, Clo) and a.inst == b.inst and len(a.f) == len(b.f):
                for i, (x, y) in enumerate(zip(a.f, b.f)): self.diff(x, y, path + (("f", i),), out)
                return
            if isinstance(a, VecV):
                self.diff(a.seq, b.seq, path + (("seq",),), out)
                if a.cap != b.cap: out[path + (("cap",),)] = (a.cap, b.cap)
                return
            if isinstance(a, Mx) and a.kind == b.kind: return self.diff(a.val, b.val, path + (("lk",),), out)
            if isinstance(a, At): return self.diff(a.val, b.val, path + (("lk",),), out)
        out[path] = (a, b)
    def leaf_put(self, st, v, path, new):
        if path and path[-1] == ("cap",):
            if len(path) == 1: return VecV(v.seq, new)
            return self.put(st, v, path[:-1], VecV(self.get(st, v, path[:-1]).seq, new))
        return self.put(st, v, path, new)
    def havoc(self, v, why):
        """Unknown value of the same kind."""
        if isinstance(v, Poly): return None
        if isinstance(v, Cond): return cop(("unkb", Unk(fresh_id(), why)))
        return self.unk(why)
    def poly_ty(self, p, other):
        for q in (p, other):
            a = q.as_atom()
            if a and a[2] in WIDTH: return a[2]
        los = [BOUNDS.get(a[2], (None,))[0] for q in (p, other) for a in q.atoms()]
        return "any"
    def summarise(self, fr, L, st0):
        """The effect of any number of iterations from st0; -> outcomes that leave the loop."""
        self.in_summary += 1
        try: return self._summarise(fr, L, st0)
        finally: self.in_summary -= 1
    def _summarise(self, fr, L, st0):
        uid = next(self.loopid)
        k = ("a", "k", "nat", uid)
        K = Poly.atom(k)
        st0 = st0.copy()
        forms = {}     # (cell, path) -> ("ind", delta) | ("app", n_delta, entries) | ("havoc",)
        invs = []      # candidate invariants: functions of k given as Poly in k, holding at the header
        bad_inv = set()
        ev_mode = None
        for rnd in range(12):
            s = st0.copy()
            for (c, path), form in sorted(forms.items(), key=lambda x: repr(x[0])):
                old = self.get(st0, st0.cells[c], path[:-1] if path and path[-1] == ("cap",) else path)
                if path and path[-1] == ("cap",): old = old.cap
                nv = self.leaf_at(st0, old, form, K, uid, (c, path))
                s.cells[c] = self.leaf_put(s, s.cells[c], path, nv)
            f = s.facts
            for h in invs: f = f.with_ge(h)
            s.facts = f
            s.ev = st0.ev + (("@", uid),)
            m2 = len(self.panics)
            outs = self.run(fr, L.header, s, L)
            backs = [o[1] for o in outs if o[0] == "back"]
            # cells created on the way that existed implicitly before
            again = False
            for b in backs:
                for c in b.cells:
                    if c[0] == "h" and c not in st0.cells and self.heap_before(c, k):
                        st0.cells[c] = self.mk(c[1], c[2]); again = True
            if again:
                del self.panics[m2:]; continue
            if not backs: return [o for o in self.finish(outs, k, K, uid, st0)]
            # changed leaves
            changes = {}
            for b in backs:
                for c, v in s.cells.items():
                    if c not in b.cells:
                        continue
                    d = {}
                    self.diff(v, b.cells[c], (), d)
                    for path, (x, y) in d.items(): changes.setdefault((c, path), []).append((b, x, y))
            new_forms = dict(forms)
            for key, lst in changes.items():
                full = len(lst) == len(backs)
                new_forms[key] = self.guess(st0, key, lst, full, forms.get(key), k, uid, backs, s)
            # leaves under a leaf that is now summarised as a whole
            for key in list(new_forms):
                for other in list(new_forms):
                    if other != key and other[0] == key[0] and len(other[1]) > len(key[1]) and other[1][:len(key[1])] == key[1]:
                        new_forms.pop(other, None)
            # a leaf with a form that did not change in some back state
            for key, form in forms.items():
                if key in new_forms and key not in changes and form[0] in ("ind", "app"):
                    new_forms[key] = ("havoc",)
                elif key in changes and len(changes[key]) != len(backs) and form[0] in ("ind", "app"):
                    new_forms[key] = ("havoc",)
            # invariants
            changed_inv = False
            keep = []
            for h in invs:
                h1 = self.at(h, k, K + 1)
                if all(b.facts.entails(h1) for b in backs): keep.append(h)
                else: bad_inv.add(h); changed_inv = True
            invs = keep
            cands = []
            added_inv = False
            for b in backs:
                for g in b.facts.ge[len(s.facts.ge):]:
                    if k in g.atoms():
                        cands.append(self.at(g, k, K - 1)); cands.append(g)
                for g in b.facts.ne[len(s.facts.ne):]:
                    if k in g.atoms(): cands += [g, -g, self.at(g, k, K - 1)]
            forkc = []
            for h in cands:
                if h in invs or h in bad_inv or h.is_const(): continue
                h0 = self.at(h, k, P(0))
                if st0.facts.entails(h0):
                    invs.append(h); changed_inv = added_inv = True
                elif st0.facts.entails(-h0 - 1): bad_inv.add(h)
                else: forkc.append((h, h0))
            if new_forms != forms or changed_inv:
                # a new invariant may rule out the iterations that do not follow the pattern
                if added_inv and any(fm[0] == "havoc" and forms.get(key, ("", ))[0] in ("ind", "app") for key, fm in new_forms.items()): new_forms = forms
                forms = new_forms
                del self.panics[m2:]
                continue
            # guards of the first iteration that are open at entry: look at both cases separately
            for h, h0 in forkc:
                if any(a[1] == "unk" for a in h0.atoms()): continue
                if self.is_shift_guard(h, backs, k, K):
                    del self.panics[m2:]
                    raise Fork([("ge", h0), ("ge", -h0 - 1)])
            return self.finish(outs, k, K, uid, st0)
        raise Undecided("loop in %s not summarised" % fr.name)
    def is_shift_guard(self, h, backs, k, K):
        g = self.at(h, k, K + 1)
        return all(b.facts.entails(g) for b in backs)
    def heap_before(self, c, k):
        """Could the lazily created cell exist before the loop (it does not depend on the iteration)?"""
        found = []
        def f(t):
            if t == k or (isinstance(t, tuple) and len(t) > 1 and t[0] == "a" and t[1] == "unk"): found.append(1)
            if isinstance(t, Unk): found.append(1)
        visit(c[1], f)
        return not found
    def leaf_at(self, st0, old, form, K, uid, key):
        if form[0] == "ind": return old + K * form[1]
        if form[0] == "app":
            q = ("a", "k", "nat", (uid, "q"))
            ents = tuple(self.quantify(e, ("a", "k", "nat", uid), q, K) for e in form[2])
            return Seq(old.n + K * form[1], old.base, old.log + ents, old.ety)
        if form[0] == "rep":      # value of iteration k as a function of k
            return self.at(form[1], ("a", "k", "nat", uid), K)
        # havoc
        why = "changed in a loop"
        if isinstance(old, (Poly, Seq)): self.inits.setdefault(("lv", uid, key), set()).add(old if isinstance(old, Poly) else old.n)
        if isinstance(old, Poly): return Poly.atom(("a", "unk", form[1] if len(form) > 1 else "any", ("lv", uid, key), why))
        if isinstance(old, Cond): return cop(("unkb", Unk(("lv", uid, key), why)))
        if isinstance(old, Op): return Op(("unk", ("lv", uid, key)), old.ty)
        if isinstance(old, Agg):
            ti = self.tyi(old.ty)
            if ti is not None and self.ty(ti)["k"] == "adt" and self.ty(ti)["enum"]: return Op(("unk", ("lv", uid, key)), old.ty)
        if isinstance(old, Map): return Map(old.kind, ("unk", ("lv", uid, key)), ())
        if isinstance(old, Seq):
            return Seq(Poly.atom(("a", "unk", "len32", ("lv", uid, key), why)), ("unk", ("lv", uid, key)), (), old.ety)
        return Unk(("lv", uid, key), why)
    def quantify(self, e, k, q, K):
        if e.k is None:
            e2 = self.at(e, k, Poly.atom(q))
            if e2.start == e.start and e2.count == e.count and e2.val == e.val and False: return e2
            return Ent(e2.kind, e2.start, e2.count, e2.val, q, K)
        return Ent("many", P(0), P(0), (self.at(e, k, Poly.atom(q)),), q, K)
    def guess(self, st0, key, lst, full, form, k, uid, backs, s):
        if form and form[0] == "havoc": return form
        b0, x0, y0 = lst[0]
        def dep(v, a):
            hit = []
            def f(t):
                if t == a: hit.append(1)
            visit(v, f)
            return bool(hit)
        if isinstance(x0, Poly) and all(isinstance(y, Poly) for _, _, y in lst):
            ds = {y - x for _, x, y in lst}
            if full and len(ds) == 1:
                d = ds.pop()
                if not dep(d, k) and not has_unknown(d) and not self.changing(d, s, st0, backs):
                    if form is None: return ("ind", d)
                    if form == ("ind", d): return form
            ty = self.local_ty(key, x0, y0)
            return ("havoc", ty)
        if isinstance(x0, Seq) and full and len(lst) == len(backs):
            outs = set()
            for _, x, y in lst:
                if not isinstance(y, Seq) or y.base != x.base or y.log[:len(x.log)] != x.log or len(y.log) < len(x.log): return ("havoc",)
                outs.add((y.n - x.n, y.log[len(x.log):]))
            if len(outs) > 1: outs = self.merge_appends(lst, s)
            if len(outs) == 1:
                dn, ents = outs.pop()
                if not dep(dn, k) and not has_unknown(dn):
                    if form is None: return ("app", dn, ents)
                    if form[0] == "app":
                        if form[1] == dn and form[2] == ents: return form
                        if rounds_left(form): return ("app", dn, ents, (form[3] if len(form) > 3 else 0) + 1)
            return ("havoc",)
        return ("havoc",)
    def changing(self, d, s, st0, backs): return False
    def merge_appends(self, lst, s):
        """Appends of several paths through the body that differ only in the values appended."""
        shapes = {(y.n - x.n, tuple((e.kind, e.start, e.count, e.k, e.K) for e in y.log[len(x.log):])) for _, x, y in lst}
        if len(shapes) != 1 or any(t for _, x, y in lst for t in s.facts.disc if False): return set()
        if any(set(b.facts.disc) - set(s.facts.disc) for b, _, _ in lst): return set()
        ents = []
        m = len(lst[0][2].log) - len(lst[0][1].log)
        for i in range(m):
            es = [(b, y.log[len(x.log) + i]) for b, x, y in lst]
            e0 = es[0][1]
            if all(e.val == e0.val for _, e in es): ents.append(e0); continue
            if e0.kind != "el": return set()
            ents.append(Ent(e0.kind, e0.start, e0.count, Phi(tuple((self.guards(s.facts, b.facts), e.val) for b, e in es)), e0.k, e0.K))
        return {(lst[0][2].n - lst[0][1].n, tuple(ents))}
    def leaf_type(self, key):
        """Integer type of a leaf of the state, by the declared types."""
        c, path = key
        if c[0] == "h": ti = c[2]
        else:
            fr = self.frames.get(c[0])
            if fr is None or not isinstance(c[1], int): return None
            ti = fr.body["locals"][c[1]]
        for e in path:
            t = self.ty(ti)
            if e[0] != "f": return None
            if t["k"] == "adt" and t["variants"] and not t["enum"] and e[1] < len(t["variants"][0][2]): ti = t["variants"][0][2][e[1]][1]
            elif t["k"] == "tuple" and e[1] < len(t["of"]): ti = t["of"][e[1]]
            else: return None
        n = self.tn(ti)
        return n if n in INTS else None
    def local_ty(self, key, x, y):
        ty = self.leaf_type(key)
        if ty: return ty
        for p in (x, y):
            a = p.as_atom()
            if a and a[2] in BOUNDS and a[1] != "k": return a[2]
        (c, path) = key
        if all(BOUNDS.get(a[2], (None,))[0] is not None and BOUNDS[a[2]][0] >= 0 for p in (x, y) for a in p.atoms()) and all(v >= 0 for p in (x, y) for v in p.m.values()): return "nat"
        return "any"
    def finish(self, outs, k, K, uid, st0):
        """Outcomes that leave a summarised loop: k becomes the number of completed iterations."""
        res = []
        backs = [o[1] for o in outs if o[0] == "back"]
        evs = []
        mark = ("@", uid)
        for b in backs:
            i = b.ev.index(mark)
            tail = b.ev[i + 1:]
            evs.append((tail, b))
        if self.opts.get("conc") and any(t for t, _ in evs): evs = [t + (self.facts_event(st0, b),) for t, b in evs]
        else: evs = [t for t, _ in evs]
        evs = list(dict.fromkeys(evs))
        for o in outs:
            if o[0] == "back": continue
            s = o[-1].copy()
            i = s.ev.index(mark)
            q = ("a", "k", "nat", (uid, "q"))
            mid = ()
            if any(e for e in evs):
                mid = (("loop", q, K, tuple(self.at(e, k, Poly.atom(q)) for e in evs)),)
            s.ev = s.ev[:i] + mid + s.ev[i + 1:]
            val = self.exit_value(s, k, K)
            if val is not None:
                s = self.subst_state(s, k, val)
            if s is None: continue
            res.append((o[0], o[1], s) if o[0] == "exit" else (o[0], s))
        return res
    @staticmethod
    def facts_event(st0, b):
        """What an iteration decided, as an event."""
        f, g = st0.facts, b.facts
        return ("facts", tuple(p for p in g.ge if p not in f.ge), tuple(p for p in g.ne if p not in f.ne),
                tuple((t, v) for t, v in g.b.items() if f.b.get(t) is not v), tuple((t, v) for t, v in g.disc.items() if f.disc.get(t) != v))
    def exit_value(self, s, k, K):
        cands = []
        for g in s.facts.ge:
            r = g.coeff_of(k)
            if r is None: continue
            c, rest = r
            if c.is_const() and abs(c.value()) == 1:
                v = -rest if c.value() == 1 else rest
                if v not in cands: cands.append(v)
            elif c.m:
                v = (-rest).divide(c)
                if v is not None and v not in cands: cands.append(v)
        cands.sort(key=lambda p: (not p.is_const(), repr(p)))
        for v in cands:
            if s.facts.entails_eq(K - v): return v
        return None
    def subst_state(self, s, k, val):
        f = lambda a: val if a == k else None
        memo = {}
        cells = {}
        for c, v in s.cells.items():
            c2 = deep(c, f, memo) if c[0] == "h" else c
            cells[c2] = deep(v, f, memo)
        facts = s.facts.map(lambda x: deep(x, f, memo))
        s2 = State(cells, facts, deep(s.ev, f, memo), s.hist)
        if any(p.is_const() and p.value() < 0 for p in facts.ge): return None
        facts.ge = tuple(p for p in facts.ge if not p.is_const())
        return s2

def it_is_small(s): return True
def rounds_left(form): return (form[3] if len(form) > 3 else 0) < 8
