"""Abstract values."""
from poly import *
import itertools
_uid = itertools.count()
def fresh_id(): return next(_uid)

class V:
    """Immutable value with structural equality; _f names the fields."""
    __slots__ = ("_h",)
    _f = ()
    def key(self): return tuple(getattr(self, f) for f in self._f)
    def __eq__(self, o): return type(self) is type(o) and (self is o or self.key() == o.key())
    def __ne__(self, o): return not self == o
    def __hash__(self):
        try: return self._h
        except AttributeError:
            self._h = hash((type(self).__name__,) + self.key())
            return self._h
    def __repr__(self): return type(self).__name__ + "(" + ", ".join(f"{f}={getattr(self, f)!r}" for f in self._f) + ")"

def vclass(name, fields):
    fs = fields.split()
    ns = {"__slots__": tuple(fs), "_f": tuple(fs)}
    src = "def __init__(self, %s):\n%s" % (", ".join(fs), "".join(f" self.{f} = {f}\n" for f in fs) or " pass\n")
    exec(src, {}, ns)
    return type(name, (V,), ns)

# boolean conditions: kind in True False ge eq op not and or
class Cond(V):
    __slots__ = ("k", "a")
    _f = ("k", "a")
    def __init__(self, k, a=None): self.k, self.a = k, a
    def __repr__(self):
        if self.k in ("T", "F"): return self.k
        if self.k == "ge": return f"[{self.a!r} >= 0]"
        if self.k == "eq": return f"[{self.a!r} == 0]"
        if self.k == "not": return f"!{self.a!r}"
        return f"{self.k}{self.a!r}"
TRUE, FALSE = Cond("T"), Cond("F")
def cge(p):
    if p.is_const(): return TRUE if p.value() >= 0 else FALSE
    return Cond("ge", p)
def ceq(p):
    if p.is_const(): return TRUE if p.value() == 0 else FALSE
    # canonical sign
    if list(sorted(p.m.items(), key=lambda kv: (len(kv[0]), repr(kv[0]))))[-1][1] < 0: p = -p
    return Cond("eq", p)
def cnot(c):
    if c.k == "T": return FALSE
    if c.k == "F": return TRUE
    if c.k == "not": return c.a
    if c.k == "ge": return cge(-c.a - 1)
    if c.k == "and": return cor(cnot(c.a[0]), cnot(c.a[1]))
    if c.k == "or": return cand(cnot(c.a[0]), cnot(c.a[1]))
    return Cond("not", c)
def cand(a, b):
    if a.k == "F" or b.k == "F": return FALSE
    if a.k == "T": return b
    if b.k == "T": return a
    return a if a == b else Cond("and", (a, b))
def cor(a, b):
    if a.k == "T" or b.k == "T": return TRUE
    if a.k == "F": return b
    if b.k == "F": return a
    return a if a == b else Cond("or", (a, b))
def cop(t): return Cond("op", t)

Bits = vclass("Bits", "ty b")                 # b: tuple of 0 | 1 | (atom, i)
Agg = vclass("Agg", "ty v f")                 # ty: type name, v: variant index, f: fields
Op = vclass("Op", "t ty")                     # opaque value: term, type name
OpV = vclass("OpV", "t ty v")                 # opaque enum seen as variant v
Ref = vclass("Ref", "c p")                    # place: cell, path
Seq = vclass("Seq", "n base log ety")         # length, base term/('fill', value)/None, log of entries, element type name
Ent = vclass("Ent", "kind start count val k K")  # kind: el enc copy fill alt; repeated for k in 0..K if k is not None
VecV = vclass("VecV", "seq cap")
Mx = vclass("Mx", "kind val")                 # Mutex / RwLock contents
At = vclass("At", "val ty")                   # atomic
Arc = vclass("Arc", "obj")                    # strong reference to heap object
Weak = vclass("Weak", "obj")
Guard = vclass("Guard", "kind place uid")
Clo = vclass("Clo", "inst f ty")              # closure / coroutine with captured fields
Coro = vclass("Coro", "inst up state saved ty") # future of an async body: captured values, state, locals kept across awaits
Fn = vclass("Fn", "callee")                   # function item
Map = vclass("Map", "kind term log")          # hash map/set: opaque base and operations
Phi = vclass("Phi", "alts")                    # ((guards, value), ...): the value depends on which guards hold
Unk = vclass("Unk", "n why")                  # unknown value
UNIT = Agg("()", 0, ())

def unknown_atom(ty, why=""): return Poly.atom(("a", "unk", ty, fresh_id(), why))
def has_unknown(v):
    """Does the value depend on something the analysis does not know?"""
    found = []
    def f(t):
        if isinstance(t, tuple) and len(t) > 1 and t[0] == "a" and t[1] in ("unk",): found.append(t)
        if isinstance(t, Unk): found.append(t)
    visit(v, f)
    return found
def visit(v, f):
    f(v)
    if isinstance(v, Poly):
        for k in v.m:
            for a in k: visit(a, f)
    elif isinstance(v, V):
        for x in v.key(): visit(x, f)
    elif isinstance(v, (tuple, frozenset)):
        for x in v: visit(x, f)

def deep(v, fa, memo=None):
    """Substitute atoms: fa(atom tuple) -> Poly or None."""
    if memo is None: memo = {}
    try:
        if v in memo: return memo[v]
    except TypeError: pass
    r = v
    if isinstance(v, Poly):
        def g(a):
            x = fa(a)
            if x is not None: return x
            b = deep_t(a, fa, memo)
            return Poly.atom(b) if b != a else None
        r = v.subst(g)
    elif isinstance(v, Cond):
        if v.k == "ge": r = cge(deep(v.a, fa, memo))
        elif v.k == "eq": r = ceq(deep(v.a, fa, memo))
        elif v.k == "not": r = cnot(deep(v.a, fa, memo))
        elif v.k in ("and", "or"): r = (cand if v.k == "and" else cor)(deep(v.a[0], fa, memo), deep(v.a[1], fa, memo))
        elif v.k == "op": r = cop(deep_t(v.a, fa, memo))
    elif isinstance(v, V):
        vals = v.key()
        new = tuple(deep(x, fa, memo) for x in vals)
        if any(a is not b for a, b in zip(vals, new)): r = type(v)(*new)
    elif isinstance(v, tuple):
        r = deep_t(v, fa, memo)
    memo[v] = r
    return r
def deep_t(t, fa, memo):
    if not isinstance(t, tuple): return deep(t, fa, memo) if isinstance(t, (V, Poly)) else t
    new = tuple(deep_t(x, fa, memo) if isinstance(x, tuple) else (deep(x, fa, memo) if isinstance(x, (V, Poly)) else x) for x in t)
    return new if any(a is not b for a, b in zip(t, new)) else t
