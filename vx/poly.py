"""Integer polynomials over opaque atoms, and a small polyhedral domain over their monomials.

An atom is a tuple ('a', kind, type, ...) standing for an unknown integer; its type gives its bounds.
"""
from fractions import Fraction

BOUNDS = {
    "u8": (0, 2**8 - 1), "u16": (0, 2**16 - 1), "u32": (0, 2**32 - 1), "u64": (0, 2**64 - 1), "u128": (0, 2**128 - 1),
    "i8": (-2**7, 2**7 - 1), "i16": (-2**15, 2**15 - 1), "i32": (-2**31, 2**31 - 1), "i64": (-2**63, 2**63 - 1),
    "i128": (-2**127, 2**127 - 1), "isize": (-2**63, 2**63 - 1),
    # lengths and positions are bounded by the address space (slices of u32: 2**61 elements)
    "usize": (0, 2**64 - 1), "pos": (0, 2**62), "size": (0, 2**31), "nat": (0, None), "bool": (0, 1), "char": (0, 0x10FFFF), "any": (None, None),
    "len32": (0, 2**61),
}
WIDTH = {"u8": 8, "i8": 8, "u16": 16, "i16": 16, "u32": 32, "i32": 32, "u64": 64, "i64": 64, "u128": 128, "i128": 128, "usize": 64, "isize": 64, "bool": 1, "char": 32}

def bit_count(k, x, w):
    if k == "ctpop": return bin(x).count("1")
    if k == "ctlz": return w - x.bit_length()
    return w if x == 0 else (x & -x).bit_length() - 1
def bounds(atom):
    return BOUNDS.get(atom[2], (None, None))

_key = repr

class Poly:
    __slots__ = ("m", "_h", "_k")
    def __init__(self, m):
        self.m = m            # dict: tuple of atoms (sorted) -> nonzero int
        self._h = None
    @staticmethod
    def const(c):
        return Poly({(): c} if c else {})
    @staticmethod
    def atom(a):
        return Poly({(a,): 1})
    def __hash__(self):
        if self._h is None:
            self._h = hash(frozenset(self.m.items()))
        return self._h
    def __eq__(self, o):
        return isinstance(o, Poly) and self.m == o.m
    def __ne__(self, o):
        return not self == o
    def __add__(self, o):
        o = P(o)
        m = dict(self.m)
        for k, v in o.m.items():
            s = m.get(k, 0) + v
            if s: m[k] = s
            else: m.pop(k, None)
        return Poly(m)
    __radd__ = __add__
    def __neg__(self):
        return Poly({k: -v for k, v in self.m.items()})
    def __sub__(self, o):
        return self + (-P(o))
    def __rsub__(self, o):
        return P(o) - self
    def __mul__(self, o):
        o = P(o)
        m = {}
        for k1, v1 in self.m.items():
            for k2, v2 in o.m.items():
                k = tuple(sorted(k1 + k2, key=_key)) if k1 and k2 else (k1 or k2)
                s = m.get(k, 0) + v1 * v2
                if s: m[k] = s
                else: m.pop(k, None)
        return Poly(m)
    __rmul__ = __mul__
    def is_const(self):
        return not self.m or (len(self.m) == 1 and () in self.m)
    def value(self):
        return self.m.get((), 0)
    def as_atom(self):
        if len(self.m) == 1:
            (k, v), = self.m.items()
            if v == 1 and len(k) == 1:
                return k[0]
        return None
    def atoms(self):
        return {a for k in self.m for a in k}
    def subst(self, f):
        """f: atom -> Poly or None (None: keep)."""
        out = Poly({})
        changed = False
        for k, v in self.m.items():
            t = Poly.const(v)
            for a in k:
                r = f(a)
                if r is None: r = Poly.atom(a)
                elif not changed: changed = True
                t = t * r
            out = out + t
        return out if changed else self
    def divide(self, d):
        """Exact division by a polynomial; None if not divisible (single leading-term division)."""
        if not d.m: return None
        if d.is_const():
            c = d.value()
            if all(v % c == 0 for v in self.m.values()):
                return Poly({k: v // c for k, v in self.m.items()})
            return None
        if len(d.m) == 1:
            (dk, dv), = d.m.items()
            out = {}
            for k, v in self.m.items():
                kk = list(k)
                for a in dk:
                    if a in kk: kk.remove(a)
                    else: return None
                if v % dv: return None
                out[tuple(kk)] = v // dv
            return Poly(out)
        # general: repeated leading term division
        rem, q = self, Poly({})
        lead = max(d.m, key=lambda k: (len(k), _key(k)))
        for _ in range(40):
            if not rem.m: return q
            cand = None
            for k in rem.m:
                kk = list(k); ok = True
                for a in lead:
                    if a in kk: kk.remove(a)
                    else: ok = False; break
                if ok and rem.m[k] % d.m[lead] == 0 and (cand is None or (len(k), _key(k)) > (len(cand[0]), _key(cand[0]))):
                    cand = (k, tuple(kk))
            if cand is None: return None
            t = Poly({cand[1]: rem.m[cand[0]] // d.m[lead]})
            q = q + t
            rem = rem - t * d
        return None
    def coeff_of(self, atom):
        """self = c*atom + r with atom not in c, r; None if nonlinear in atom."""
        c, r = {}, {}
        for k, v in self.m.items():
            n = k.count(atom)
            if n == 0: r[k] = v
            elif n == 1:
                kk = list(k); kk.remove(atom); c[tuple(kk)] = v
            else: return None
        return Poly(c), Poly(r)
    def __repr__(self):
        if not self.m: return "0"
        out = []
        for k, v in sorted(self.m.items(), key=lambda kv: (len(kv[0]), repr(kv[0]))):
            s = "*".join(show_atom(a) for a in k)
            out.append(s if v == 1 and s else ("-" + s if v == -1 and s else (str(v) + ("*" + s if s else ""))))
        return " + ".join(out).replace("+ -", "- ")

def show_atom(a):
    return show(a)

def show(t):
    if isinstance(t, tuple):
        if t and t[0] == "a":
            rest = t[3:]
            if t[1] == "size": return "SIZE(" + str(t[3]) + ")"
            if t[1] in ("p", "t") and len(rest) == 1: return show(rest[0])
            return t[1] + "(" + ",".join(show(x) for x in rest) + ")"
        if t and t[0] == "p": return str(t[1])
        if t and t[0] == "fld": return show(t[1]) + "." + str(t[-1])
        return "(" + ",".join(show(x) for x in t) + ")"
    return str(t)

def P(x):
    if isinstance(x, Poly): return x
    return Poly.const(int(x))

ZERO, ONE = Poly.const(0), Poly.const(1)

class Lin:
    """Emptiness of a conjunction of linear constraints over monomials (Fourier-Motzkin)."""
    LIMIT = 600
    @staticmethod
    def infeasible(cons):
        """cons: list of dicts var->Fraction/int with () constant; each >= 0. True if empty (rationals)."""
        cons = [dict(c) for c in cons]
        # use equalities first: pairs c, -c
        work = []
        seen = set()
        for c in cons:
            vs = {k: v for k, v in c.items() if k != () and v}
            k0 = c.get((), 0)
            if not vs:
                if k0 < 0: return True
                continue
            work.append((vs, k0))
        work = Lin._norm(work)
        if work is None: return True
        while True:
            vars_ = {}
            for vs, _ in work:
                for v, c in vs.items():
                    p, n = vars_.get(v, (0, 0))
                    vars_[v] = (p + (c > 0), n + (c < 0))
            if not vars_: return False
            v = min(vars_, key=lambda x: (vars_[x][0] * vars_[x][1] - vars_[x][0] - vars_[x][1]))
            pos = [c for c in work if c[0].get(v, 0) > 0]
            neg = [c for c in work if c[0].get(v, 0) < 0]
            rest = [c for c in work if not c[0].get(v, 0)]
            if len(pos) * len(neg) + len(rest) > Lin.LIMIT: return False
            for p, pk in pos:
                for n, nk in neg:
                    a, b = p[v], -n[v]
                    d = {}
                    for k, c in p.items():
                        if k != v: d[k] = c * b
                    for k, c in n.items():
                        if k != v:
                            s = d.get(k, 0) + c * a
                            if s: d[k] = s
                            else: d.pop(k, None)
                    k0 = pk * b + nk * a
                    if not d:
                        if k0 < 0: return True
                        continue
                    rest.append((d, k0))
            work = Lin._norm(rest)
            if work is None: return True
    @staticmethod
    def _norm(work):
        """Integer-tighten, drop duplicates keeping the tightest constant."""
        from math import gcd
        best = {}
        for vs, k0 in work:
            g = 0
            for c in vs.values(): g = gcd(g, abs(c))
            if g > 1:
                vs = {k: c // g for k, c in vs.items()}
                k0 = k0 // g if isinstance(k0, int) else k0
                k0 = (k0 // 1)
            key = frozenset(vs.items())
            if key not in best or k0 < best[key][1]: best[key] = (vs, k0)
        for key, (vs, k0) in best.items():
            nk = frozenset((k, -c) for k, c in vs.items())
            if nk in best and best[nk][1] + k0 < 0: return None
        return list(best.values())

class Facts:
    """Immutable path facts: linear constraints, disequalities and facts about opaque conditions."""
    __slots__ = ("ge", "ne", "b", "disc", "_cache")
    def __init__(self, ge=(), ne=(), b=None, disc=None):
        self.ge, self.ne, self.b, self.disc = ge, ne, b or {}, disc or {}
        self._cache = {}
    def with_ge(self, p):
        if p.is_const() and p.value() >= 0: return self
        if p in self.ge: return self
        return Facts(self.ge + (p,), self.ne, self.b, self.disc)
    def with_eq(self, p):
        return self.with_ge(p).with_ge(-p)
    def with_ne(self, p):
        if p in self.ne or -p in self.ne: return self
        f = Facts(self.ge, self.ne + (p,), self.b, self.disc)
        # sharpen p >= 0 to p >= 1
        if f.entails(p, raw=True): return f.with_ge(p - 1)
        if f.entails(-p, raw=True): return f.with_ge(-p - 1)
        return f
    def with_b(self, t, v):
        if self.b.get(t, v) != v: return self.with_ge(P(-1))
        d = dict(self.b); d[t] = v
        return Facts(self.ge, self.ne, d, self.disc)
    def overlay(self, ge, ne, b, disc):
        """The facts of one pass of a loop on top of those of the path: what each pass decides anew replaces what the last one left."""
        db, dd = dict(self.b), dict(self.disc)
        db.update(b); dd.update(disc)
        f = Facts(self.ge, self.ne, db, dd)
        for g in ge: f = f.with_ge(g)
        for g in ne: f = f.with_ne(g)
        return f
    def with_disc(self, t, v, yes=True):
        d = dict(self.disc)
        o = d.get(t)
        if yes:
            if isinstance(v, int) and (isinstance(o, int) and o != v or isinstance(o, tuple) and v in o[1]): return self.with_ge(P(-1))
            if isinstance(v, int) or not isinstance(o, int): d[t] = v
        elif isinstance(o, int):
            if o == v: return self.with_ge(P(-1))
        else: d[t] = ("not", (d[t][1] if isinstance(d.get(t), tuple) else frozenset()) | {v})
        return Facts(self.ge, self.ne, self.b, d)
    def map(self, f):
        return Facts(tuple(f(p) for p in self.ge), tuple(f(p) for p in self.ne), {f(t): v for t, v in self.b.items()}, {f(t): v for t, v in self.disc.items()})
    # -- queries
    def _cons(self, extra):
        cons = list(self.ge) + list(extra)
        # relevance: monomials connected to extra
        want = set()
        for e in extra: want |= set(e.m) - {()}
        for e in extra:
            for a in e.atoms(): want.add((a,))
        picked = list(extra)
        rest = list(self.ge)
        prods = set()
        for rnd in range(4):
            new = []
            atoms_w = {a for k in want for a in k}
            keep = []
            for c in rest:
                if any(k in want or any(a in atoms_w for a in k) for k in c.m if k): new.append(c)
                else: keep.append(c)
            rest = keep
            if not new and rnd: break
            picked += new
            for c in new: want |= set(c.m) - {()}
        atoms = {a for c in picked for a in c.atoms()}
        monos = {k for c in picked for k in c.m if len(k) > 1}
        # products of a nonnegative atom with a linear fact, when they share a monomial
        nn = [a for a in {a for k in monos for a in k} if (bounds(a)[0] or 0) >= 0 and bounds(a)[0] is not None]
        extra_p = []
        lin = [c for c in picked]
        for a in atoms:
            lo, hi = bounds(a)
            if lo is not None: lin.append(Poly({(a,): 1, **({(): -lo} if lo else {})}))
            if hi is not None: lin.append(Poly({(a,): -1, (): hi}))
        if monos and len(lin) < 60:
            for s in nn:
                sp = Poly.atom(s)
                for c in list(picked) + [Poly.atom(a) for a in atoms if (bounds(a)[0] or 0) >= 0 and bounds(a)[0] is not None]:
                    if c is extra[0] and len(extra) == 1 and False: continue
                    if any(len(k) > 1 for k in c.m): continue
                    pr = c * sp
                    if any(k in monos for k in pr.m): extra_p.append(pr)
        out = [c.m for c in lin] + [c.m for c in extra_p]
        for c in extra_p:
            for k in c.m:
                if len(k) > 1 and k not in monos and all((bounds(a)[0] or 0) >= 0 and bounds(a)[0] is not None for a in k):
                    out.append({k: 1}); monos.add(k)
        for k in monos:
            if all((bounds(a)[0] or 0) >= 0 and bounds(a)[0] is not None for a in k): out.append({k: 1})
        return out
    def empty_with(self, *extra):
        """True if the facts together with extra >= 0 are contradictory."""
        key = ("e",) + extra
        if key not in self._cache:
            self._cache[key] = Lin.infeasible(self._cons(extra))
        return self._cache[key]
    def entails(self, p, raw=False):
        """p >= 0 on every integer point?"""
        if p.is_const(): return p.value() >= 0
        if self.empty_with(-p - 1): return True
        return False
    def entails_eq(self, p):
        if p.is_const(): return p.value() == 0
        return self.entails(p) and self.entails(-p)
    def entails_ne(self, p):
        if p.is_const(): return p.value() != 0
        if p in self.ne or -p in self.ne: return True
        return self.entails(p - 1) or self.entails(-p - 1)
    def contradictory(self):
        key = "contra"
        if key not in self._cache:
            r = any(p.is_const() and p.value() < 0 for p in self.ge)
            if not r and self.ge:
                # check the newest constraint against the others
                r = self.empty_with(self.ge[-1])
                if not r and len(self.ge) > 1: r = self.empty_with(self.ge[-2])
            if not r:
                for p in self.ne:
                    if p.is_const() and p.value() == 0 or self.entails_eq(p): r = True; break
            self._cache[key] = r
        return self._cache[key]
