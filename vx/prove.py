"""Comparing abstract values: proof over all points of a path, or a point where they differ."""
import random, sys
from interp import *

import os
SEED = int(os.environ.get("VERIF_SEED", "1") or 1)
class UnknownValue(Exception): pass
class Unsat(Exception): pass

CONVERTED = {"transmute", "cast"}     # functions of other values that are not evaluated
DERIVED = {"bits", "wrap", "div"}

def mentions_atom(p, k):
    hit = []
    visit(p, lambda t: hit.append(1) if t == k else None)
    return bool(hit)
class Env:
    """One point: a value for every atom (chosen on demand), consistent for equal terms."""
    it = None
    pivot = None
    def __init__(self, rng, it=None): self.rng, self.v, self.bind, self.it = rng, {}, {}, it
    def key(self, a): return (a[1], a[2]) + tuple(self.term(x) for x in a[3:])
    def atom(self, a):
        if a in self.bind: return self.bind[a]
        k = a[1]
        if k == "unk": raise UnknownValue(a)
        if k == "bits": return self.bits(a[2], a[3])
        if k == "wrap":
            v = self.poly(a[3]) % (1 << WIDTH[a[2]])
            if BOUNDS[a[2]][0] < 0 and v > BOUNDS[a[2]][1]: v -= 1 << WIDTH[a[2]]
            return v
        if k == "div":
            d = self.poly(a[4])
            if d == 0: raise Unsat()
            return self.poly(a[3]) // d
        if k.startswith("op") and len(a) == 5:
            x, y = self.poly(a[3]), self.poly(a[4])
            if k in ("opctlz", "opcttz", "opctpop"): return bit_count(k[2:], x, y)
            w = WIDTH[a[2]]; m = (1 << w) - 1
            if k == "opShl": v = (x << (y % w)) & m
            elif k == "opShr": v = (x & m) >> (y % w) if BOUNDS[a[2]][0] == 0 else x >> (y % w)
            elif k in ("opDiv", "opRem"):
                if y == 0: raise Unsat()
                q = abs(x) // abs(y)
                if (x < 0) != (y < 0): q = -q
                v = q if k == "opDiv" else x - q * y
            else: v = None
            if v is not None:
                if BOUNDS[a[2]][0] < 0 and v > BOUNDS[a[2]][1]: v -= 1 << w
                return v
        kk = self.key(a)
        if kk not in self.v: self.v[kk] = self.pick(a, kk)
        return self.v[kk]
    def pick(self, a, kk):
        lo, hi = bounds(a)
        k = a[1]
        r = self.rng
        if self.pivot and (k in ("len", "cap", "newcap", "cp", "k") or a[2] in ("u32", "usize")) and k != "size" and r.random() < .7:
            c = self.pivot + r.choice([-1, 0, 0, 1] if k == "k" else [0, 1, 1, 2, 5])
        elif self.pivot and k == "size" and r.random() < .4: c = self.pivot + r.choice([0, 1, 2])
        elif k == "size": c = r.choice([0, 1, 1, 2, 3, 5])
        elif k == "cp": c = r.choice([0, 1, 2, 3, 4])
        elif k == "k": c = r.choice([0, 1, 2, 3])
        elif k in ("len", "cap", "newcap"): c = r.choice([0, 1, 2, 3, 5, 8, 13, 30, 60])
        elif a[2] in ("u32", "usize"): c = r.choice([0, 1, 2, 3, 4, 5, 7, 11, 19, 2**32 - 1] if a[2] == "u32" else [0, 1, 2, 3, 5, 8, 13])
        elif hi is not None: c = r.choice([0, 1, 2, 3, hi, lo, r.randint(lo, hi), r.randint(lo, hi)])
        else: c = r.choice([0, 1, 2, 3, 7])
        if lo is not None: c = max(lo, c)
        if hi is not None: c = min(hi, c)
        return c
    def bits(self, ty, bs):
        v = 0
        for i, b in enumerate(bs):
            if self.bit(b): v |= 1 << i
        if BOUNDS[ty][0] < 0 and v > BOUNDS[ty][1]: v -= 1 << WIDTH[ty]
        return v
    def bit(self, b):
        if not isinstance(b, tuple): return b
        if b[0] == "not": return 1 - self.bit(b[1])
        if b[0] == "and": return self.bit(b[1]) & self.bit(b[2])
        if b[0] == "or": return self.bit(b[1]) | self.bit(b[2])
        if b[0] == "xor": return self.bit(b[1]) ^ self.bit(b[2])
        p, ty, i = b
        return (self.poly(p) >> i) & 1
    def poly(self, p):
        t = 0
        for m, c in p.m.items():
            x = c
            for a in m: x *= self.atom(a)
            t += x
        return t
    def term(self, t):
        if isinstance(t, Poly): return self.poly(t)
        if isinstance(t, Seq): return self.seqkey(t)
        if isinstance(t, V): return self.val(t)
        if isinstance(t, tuple):
            if len(t) > 2 and t[0] == "a" and isinstance(t[1], str) and isinstance(t[2], str): return ("at", self.atom(t))
            if t and t[0] in CONVERTED: raise UnknownValue(t)
            return tuple(self.term(x) for x in t)
        return t
    def seqkey(self, q):
        n = self.poly(q.n)
        return ("seq", n, tuple(self.elem(q, i) for i in self.positions(n)))
    def positions(self, n):
        """Elements looked at: all of a short sequence, else its ends and those near the number the point is chosen around."""
        if n <= 40: return range(n)
        c = self.pivot or 0
        return sorted(set(range(24)) | set(range(n - 8, n)) | {i for i in range(c - 2, c + 3) if 0 <= i < n})
    def cond(self, c):
        k = c.k
        if k == "T": return True
        if k == "F": return False
        if k == "ge": return self.poly(c.a) >= 0
        if k == "eq": return self.poly(c.a) == 0
        if k == "not": return not self.cond(c.a)
        if k == "and": return self.cond(c.a[0]) and self.cond(c.a[1])
        if k == "or": return self.cond(c.a[0]) or self.cond(c.a[1])
        if isinstance(c.a, tuple) and c.a and c.a[0] == "unkb": raise UnknownValue(c.a)
        t = ("b", self.term(c.a))
        if t not in self.v: self.v[t] = self.rng.random() < .5
        return self.v[t]
    def guard(self, g):
        if g[0] == "ge": return self.poly(g[1]) >= 0
        if g[0] == "ne": return self.poly(g[1]) != 0
        if g[0] == "b": return self.cond(cop(g[1])) == g[2]
        if g[0] == "disc":
            t = ("disc", self.term(g[1]))
            if t not in self.v:
                if len(g) > 3: self.v[t] = self.rng.choice(list(g[3]))
                else: raise UnknownValue(g)
            return self.v[t] == g[2]
        raise UnknownValue(g)
    def val(self, v):
        if isinstance(v, Poly): return self.poly(v)
        if isinstance(v, Cond): return self.cond(v)
        if isinstance(v, Unk): raise UnknownValue(v)
        if isinstance(v, Phi):
            for gs, x in v.alts:
                if all(self.guard(g) for g in gs): return self.val(x)
            raise Unsat()
        if isinstance(v, Op):
            if isinstance(v.t, tuple) and v.t and v.t[0] in ("unk", "decmix"): raise UnknownValue(v)
            if isinstance(v.t, tuple) and v.t and v.t[0] == "b2f":
                # inverse of the bits of a float
                b = v.t[1]
                x = self.poly(b)
                back = self.floats().get(x)
                return back if back is not None else ("f", x, v.ty)
            t = self.term(v.t)
            ti = self.it.tyi(v.ty) if self.it else None
            if ti is not None:
                ty = self.it.ty(ti)
                if ty["k"] in ("param", "alias") and self.atom(("a", "size", "size", v.ty)) == 0: return ("only", v.ty)
                if ty["k"] == "adt" and ty["enum"] and ty["variants"]:
                    d = ("disc", t)
                    if d not in self.v: self.v[d] = self.rng.randrange(len(ty["variants"]))
                    return self.val(self.it.as_variant(v, self.v[d]))
            return ("op", t, v.ty)
        if isinstance(v, Agg): return ("agg", base_ty(v.ty), v.v, tuple(self.val(x) for x in v.f))
        if isinstance(v, VecV): return ("vec", self.seqkey(v.seq))
        if isinstance(v, Seq): return self.seqkey(v)
        if isinstance(v, Ref): return ("ref", self.term(v.c), self.term(v.p))
        return (type(v).__name__,) + tuple(self.term(x) for x in v.key())
    def floats(self):
        out = {}
        for k, x in self.v.items():
            if k[0] == "f2b": out[x] = k[2]
        return out
    def elem(self, q, i):
        for e in reversed(q.log):
            if e.k is None:
                s, n = self.poly(e.start), self.poly(e.count)
                if s <= i < s + n: return self.ent_elem(e, i - s)
            else:
                K = self.poly(P(e.K))
                js = range(K - 1, -1, -1)
                if K > 40 and e.kind != "many":
                    # the repetitions that may cover i, from a start that moves evenly
                    r = e.start.coeff_of(e.k)
                    if r is not None and not any(e.k in m for m in e.count.m) and not any(mentions_atom(x, e.k) for x in (r[0], r[1], e.count)):
                        a, b, c = self.poly(r[0]), self.poly(r[1]), self.poly(e.count)
                        if a > 0 and c > 0: js = range(min(K - 1, (i - b) // a), max(-1, -(-(i - b - c + 1) // a) - 1), -1)
                        elif c <= 0: js = ()
                if len(js) > 400: raise UnknownValue(e)
                old = self.bind.get(e.k)
                try:
                    for j in js:
                        self.bind[e.k] = j
                        s, n = self.poly(e.start), self.poly(e.count)
                        if e.kind == "many":
                            inner = e.val[0]
                            r = self.elem(Seq(q.n, None, (inner,), q.ety), i) if self.covers(inner, i) else None
                            if r is not None: return r
                            continue
                        if s <= i < s + n: return self.ent_elem(e, i - s)
                finally:
                    if old is None: self.bind.pop(e.k, None)
                    else: self.bind[e.k] = old
        b = q.base
        if b is None: raise UnknownValue(q)
        if b[0] == "fill": return self.val(b[1])
        if b[0] == "view": return self.elem(b[1], self.poly(b[2]) + i)
        if b[0] in ("unk",): raise UnknownValue(q)
        if q.ety is not None and self.it: return self.val(self.it.mk(("el", b, P(i)), q.ety))
        return ("el", self.term(b), i)
    def covers(self, e, i):
        try: self.elem(Seq(P(0), None, (e,), None), i); return True
        except UnknownValue: return False
    def ent_elem(self, e, j):
        if e.kind in ("el", "fill"): return self.val(e.val)
        if e.kind == "copy": return self.elem(e.val[0], self.poly(e.val[1]) + j)
        if e.kind == "enc": return ("enc", e.val[0], self.val(e.val[1]), j)
        raise UnknownValue(e)
    # ---- satisfying a path
    def satisfy(self, facts, extra=()):
        """Adjusts choices until the facts hold; False if that fails."""
        for t, v in facts.b.items():
            self.v[("b", self.term(t))] = v
        for t, v in facts.disc.items():
            if isinstance(v, int): self.v[("disc", self.term(t))] = v
        cons = list(facts.ge) + list(extra)
        for rnd in range(60):
            bad = None
            for p in cons:
                if self.poly(p) < 0: bad = ("ge", p); break
            if bad is None:
                for p in facts.ne:
                    if self.poly(p) == 0: bad = ("ne", p); break
            if bad is None:
                for t, v in facts.b.items():
                    if self.v.get(("b", self.term(t))) is not v: self.v[("b", self.term(t))] = v
                return True
            kind, p = bad
            atoms = [a for a in p.atoms() if self.free(a)]
            self.rng.shuffle(atoms)
            fixed = False
            for a in atoms:
                r = p.coeff_of(a)
                if r is None: continue
                try: c = self.poly(r[0]); rest = self.poly(r[1])
                except UnknownValue: continue
                if c == 0: continue
                lo, hi = bounds(a)
                cur = self.atom(a)
                if kind == "ge":
                    need = -(-(-rest) // c) if c > 0 else (rest // -c)
                    slack = self.rng.choice([0, 0, 0, 1, 2])
                    val = need + slack if c > 0 else need - slack
                else: val = cur + self.rng.choice([1, -1, 2])
                if lo is not None and val < lo: val = lo if kind == "ne" or c * lo + rest >= 0 else None
                if val is not None and hi is not None and val > hi: val = hi if kind == "ne" or c * hi + rest >= 0 else None
                if val is None: continue
                self.v[self.key(a)] = val
                fixed = True
                break
            if not fixed: return False
        return False
    def free(self, a):
        return a[1] not in ("bits", "wrap", "div", "unk") and not a[1].startswith("op") and a not in self.bind

def base_ty(n): return n

def hints(*xs):
    """Numbers around which the behaviour may change: constants that occur in the values compared."""
    out, todo, n = set(), list(xs), 0
    while todo and n < 3000:
        x = todo.pop(); n += 1
        if isinstance(x, bool): continue
        if isinstance(x, int):
            if 3 < abs(x) < 1 << 33: out.add(abs(x))
        elif isinstance(x, Poly): todo += [y for m, c in x.m.items() for y in (m, c)]
        elif isinstance(x, tuple):
            if len(x) > 3 and x[1] == "bits":
                z = [i for i, b in enumerate(x[3]) if b == 0]
                out.add(1 << z[0] if z and z[0] > 0 else 1 << len(x[3]) if not z and 0 < len(x[3]) < 32 else 1 << 31)
            else: todo += x
        elif isinstance(x, list): todo += x
        elif hasattr(x, "__dict__"): todo += list(vars(x).values())
        elif hasattr(x, "__slots__"): todo += [getattr(x, a, None) for a in x.__slots__]
    small = sorted(v for v in out if v < 1 << 20)
    if len(small) > 6: small = small[:3] + small[-3:]
    return tuple(small or sorted(out)[:2])
def points(it, facts, n=80, seed=SEED, extra=(), budget=400, near=()):
    """Points on the path."""
    rng = random.Random(seed)
    got = 0
    for _ in range(budget):
        if got >= n: return
        e = Env(rng, it)
        if near and rng.random() < .4: e.pivot = rng.choice(near)
        try:
            if not e.satisfy(facts, extra): continue
        except (Unsat, UnknownValue): continue
        got += 1
        yield e

# ---- proof
def eq(it, st, a, b):
    """a == b on this path: True, False (definitely different somewhere: caller confirms), None unknown. Forks."""
    a, b = it.phi(st, a), it.phi(st, b)
    if isinstance(a, Poly) and isinstance(b, Poly):
        if a == b or st.facts.entails_eq(a - b): return True
        x, y = a.as_atom(), b.as_atom()
        for ty in (x[2] if x else None, y[2] if y else None):
            if ty in WIDTH and (x and x[1] == "bits" or y and y[1] == "bits"):
                if it.to_bits(a, ty) == it.to_bits(b, ty): return True
        if x and y and x[1] == y[1] and x[2] == y[2] and len(x) == len(y) and x[1] not in ("unk",):
            if all(eqt(it, st, p, q) for p, q in zip(x[3:], y[3:])): return True
        return False
    if isinstance(a, Cond) and isinstance(b, Cond):
        if a == b: return True
        return it.decide(st, a) == it.decide(st, b)
    if isinstance(a, Unk) or isinstance(b, Unk): return None
    if isinstance(a, Op) and isinstance(b, Op):
        if a == b: return True
        ti = it.tyi(a.ty)
        # a type without slots has one value
        if a.ty == b.ty and ti is not None and it.ty(ti)["k"] in ("param", "alias") and st.facts.entails_eq(it.size_of(a.ty)): return True
        if eqt(it, st, a.t, b.t): return True
        return False
    if isinstance(a, Op) and isinstance(b, Agg) or isinstance(a, Agg) and isinstance(b, Op):
        if isinstance(a, Agg): a, b = b, a
        ti = it.tyi(a.ty)
        if ti is not None and it.ty(ti)["k"] == "adt":
            if it.variant(st, a) != b.v: return False
            a = it.as_variant(a, b.v)
            return eq(it, st, a, b)
        return None
    if isinstance(a, Agg) and isinstance(b, Agg):
        if a.v != b.v or len(a.f) != len(b.f): return False
        r = True
        for x, y in zip(a.f, b.f):
            z = eq(it, st, x, y)
            if z is not True:
                if z is False: return False
                r = None
        return r
    if isinstance(a, VecV) and isinstance(b, VecV): return eq(it, st, a.seq, b.seq)
    if isinstance(a, Seq) and isinstance(b, Seq): return eq_seq(it, st, a, b)
    if type(a) is type(b) and a == b: return True
    if isinstance(a, Ref) and isinstance(b, Ref):
        if a.c == b.c and len(a.p) == len(b.p) and all(eqt(it, st, x, y) for x, y in zip(a.p, b.p)): return True
        return False
    return None
def eqt(it, st, a, b):
    if a == b: return True
    if isinstance(a, Poly) and isinstance(b, Poly): return st.facts.entails_eq(a - b) or eq(it, st, a, b) is True
    if isinstance(a, V) and isinstance(b, V): return eq(it, st, a, b) is True
    if isinstance(a, tuple) and isinstance(b, tuple) and len(a) == len(b): return all(eqt(it, st, x, y) for x, y in zip(a, b))
    return False
def alpha(log):
    """Entries with canonical bound variables."""
    out = []
    for i, e in enumerate(log):
        if e.k is not None:
            n = ("a", "k", "nat", ("bound", i))
            e = deep(e, lambda a: Poly.atom(n) if a == e.k else None)
            e = Ent(e.kind, e.start, e.count, e.val, n, e.K)
        out.append(e)
    return tuple(out)
def fold(q, it):
    """Joins single entries with the repeated entry that continues them (peeled iterations)."""
    log = list(q.log)
    changed = True
    while changed:
        changed = False
        for i in range(len(log) - 1):
            a, b = log[i], log[i + 1]
            if b.k is not None and a.k is None and a.kind == b.kind and b.kind != "many":
                k1 = Poly.atom(b.k) - 1
                prev = [it.at(x, b.k, P(-1)) for x in (b.start, b.count, b.val)]
                if prev == [a.start, a.count, a.val]:
                    log[i:i + 2] = [Ent(b.kind, it.at(b.start, b.k, k1), it.at(b.count, b.k, k1), it.at(b.val, b.k, k1), b.k, P(b.K) + 1)]
                    changed = True; break
            if a.k is not None and b.k is None and a.kind == b.kind and a.kind != "many":
                K = P(a.K)
                if [it.at(x, a.k, K) for x in (a.start, a.count, a.val)] == [b.start, b.count, b.val]:
                    log[i:i + 2] = [Ent(a.kind, a.start, a.count, a.val, a.k, K + 1)]
                    changed = True; break
    return Seq(q.n, q.base, tuple(log), q.ety)
def eq_seq(it, st, a, b):
    a, b = fold(a, it), fold(b, it)
    if not st.facts.entails_eq(a.n - b.n): return False
    if a == b: return True
    if a.base == b.base and alpha(a.log) == alpha(b.log): return True
    if a.base == b.base and len(a.log) == len(b.log) and all(x.kind == y.kind and (x.k is None) == (y.k is None) and eqt(it, st, x.start, y.start) and eqt(it, st, x.count, y.count) and eqt(it, st, x.val, y.val) and (x.k is None or eqt(it, st, P(x.K), P(y.K))) for x, y in zip(alpha(a.log), alpha(b.log))): return True
    if st.facts.entails_eq(a.n): return True
    # element by element
    if a.n.is_const() and a.n.value() <= 64:
        r = True
        for j in range(a.n.value()):
            x = eq(it, st, it.seq_get(st, a, P(j)), it.seq_get(st, b, P(j)))
            if x is False: return False
            if x is None: r = None
        return r
    i = Poly.atom(("a", "k", "nat", ("elem", st.hist.get("n", 0))))
    s = st.copy(); s.hist = dict(st.hist); s.hist["n"] = s.hist.get("n", 0) + 1
    s.facts = s.facts.with_ge(a.n - i - 1).with_ge(i)
    if s.facts.contradictory(): return True
    r = split(it, s, lambda x: eq(it, x, it.seq_get(x, a, i), it.seq_get(x, b, i)))
    return True if r is True else r

def split(it, st, f, limit=400):
    """f on every refinement of the path that it asks for: True if all true, False if some false, else None."""
    work, res, n = [st], True, 0
    while work:
        s = work.pop(); n += 1
        if n > limit: return None
        try: r = f(s.copy())
        except Fork as fk:
            for alt in fk.alts:
                x = it.refine(s, alt)
                if x is not None: work.append(x)
            continue
        except Stop: continue
        except Undecided: r = None
        if r is False: return False
        if r is None: res = None
    return res

class Verdict:
    __slots__ = ("status", "why", "point")
    def __init__(self, status, why="", point=None): self.status, self.why, self.point = status, why, point
PROVED, REFUTED, OPEN = "proved", "refuted", "open"

def same(it, st, got, want, extra_note=""):
    """got == want everywhere on the path?"""
    if st.facts.contradictory(): return Verdict(PROVED)
    r = split(it, st, lambda s: eq(it, s, got, want))
    if r is True: return Verdict(PROVED)
    return refute(it, st, lambda e: e.val(got) != e.val(want), "%s instead of %s" % (short(got), short(want)), near=hints(got, want))

def holds(it, st, cond):
    r = split(it, st, lambda s: it.decide(s, cond))
    if r is True: return Verdict(PROVED)
    return refute(it, st, lambda e: not e.cond(cond), "not " + short(cond), near=hints(cond))

def refute(it, st, differs, why, extra=(), near=()):
    unknown = 0
    if near is not None: near = tuple(sorted(set(near or ()) | set(hints(*st.facts.ge))))
    for e in points(it, st.facts, extra=extra, near=near or ()):
        try:
            if differs(e): return Verdict(REFUTED, why, show_point(e))
        except UnknownValue: unknown += 1
        except Unsat: pass
        if unknown > 20: break
    return Verdict(OPEN, why)

def show_point(e):
    out = {}
    for k, v in list(e.v.items())[:30]:
        if isinstance(k, tuple) and k[0] in ("size", "cp", "t", "len", "cap", "k", "newcap"):
            out[show(k[2:] if len(k) > 3 else k[2])[:60] if k[0] != "size" else "SIZE(%s)" % (k[2],)] = v
    return out
def short(v, n=300):
    s = repr(v)
    return s if len(s) <= n else s[:n] + "..."
