"""Relational numeric domain: conjunctions of polynomial inequalities over symbolic quantities.

Entailment is decided on the linearisation (every monomial one unknown, strengthened by products of inequalities with
non-negative quantities) by an exact rational simplex; emptiness of the linearisation is emptiness of the set.  A member of
a set can be exhibited by enumerating small (and extreme) values, used only to report a violation with concrete numbers."""
from fractions import Fraction as F
from itertools import count
from math import gcd, lcm

_ids = count(1)


class Sym:
    __slots__ = ("id", "name", "int", "lo", "hi", "exact", "derived")

    def __init__(self, name, lo=None, hi=None, isint=True, exact=True, derived=False):
        self.id = next(_ids); self.name = name; self.int = isint; self.lo = lo; self.hi = hi; self.exact = exact; self.derived = derived
    def __repr__(self): return self.name
    def __lt__(self, o): return self.id < o.id


class Poly:
    """immutable polynomial: {sorted tuple of Syms: coefficient}"""
    __slots__ = ("m", "_h", "_i", "_n", "_s")

    def __init__(self, m):
        self.m = {k: v for k, v in m.items() if v != 0}
        self._h = self._i = self._n = self._s = None
    @staticmethod
    def of(x):
        if isinstance(x, Poly): return x
        if isinstance(x, Sym): return Poly({(x,): 1})
        return Poly({(): x})
    def __hash__(self):
        if self._h is None: self._h = hash(frozenset(self.m.items()))
        return self._h
    def __eq__(self, o): return isinstance(o, Poly) and self.m == o.m
    def __add__(self, o):
        o = Poly.of(o); r = dict(self.m)
        for k, v in o.m.items(): r[k] = r.get(k, 0) + v
        return Poly(r)
    def __neg__(self): return Poly({k: -v for k, v in self.m.items()})
    def __sub__(self, o): return self + (-Poly.of(o))
    def __mul__(self, o):
        o = Poly.of(o); r = {}
        for k1, v1 in self.m.items():
            for k2, v2 in o.m.items():
                k = tuple(sorted(k1 + k2)); r[k] = r.get(k, 0) + v1 * v2
        return Poly(r)
    def const(self):
        if not self.m: return 0
        if len(self.m) == 1 and () in self.m: return self.m[()]
        return None
    def syms(self):
        if self._s is None: self._s = frozenset(s for k in self.m for s in k)
        return self._s
    def degree(self): return max((len(k) for k in self.m), default=0)
    def subst(self, s, p):
        if not any(s in k for k in self.m): return self
        r = Poly({})
        for k, v in self.m.items():
            t = Poly({tuple(x for x in k if x is not s): v})
            for x in k:
                if x is s: t = t * p
            r = r + t
        return r
    def interval(self):
        lo = hi = 0
        for k, v in self.m.items():
            a, b = 1, 1
            for s in k:
                sl, sh = s.lo, s.hi
                if a is None or b is None or sl is None or sh is None:
                    # only the sign can be kept for half-open factors
                    if a is not None and sl is not None and a >= 0 and sl >= 0:
                        a, b = a * sl, None
                    else: a = b = None
                else:
                    c = (a * sl, a * sh, b * sl, b * sh); a, b = min(c), max(c)
            if v < 0: a, b = (None if b is None else b * v), (None if a is None else a * v)
            else: a, b = (None if a is None else a * v), (None if b is None else b * v)
            lo = None if lo is None or a is None else lo + a
            hi = None if hi is None or b is None else hi + b
        return lo, hi
    def eval(self, env):
        r = 0
        for k, v in self.m.items():
            t = v
            for s in k: t = t * env[s]
            r += t
        return r
    def isint(self):
        if self._i is None: self._i = all((v.__class__ is int or F(v).denominator == 1) and all(s.int for s in k) for k, v in self.m.items())
        return self._i
    def __repr__(self):
        if not self.m: return "0"
        out = []
        for k, v in sorted(self.m.items(), key=lambda x: (-len(x[0]), [s.id for s in x[0]])):
            t = "*".join(s.name for s in k)
            if not k: out.append("%s" % v)
            elif v == 1: out.append(t)
            elif v == -1: out.append("-" + t)
            else: out.append("%s*%s" % (v, t))
        return " + ".join(out).replace("+ -", "- ")


ZERO = Poly({}); ONE = Poly({(): 1})


def simplex_feasible(rows, limit=4000):
    """rows: list of (dict var->coef, const) meaning sum + const >= 0, vars free.  Exact; True/False, True when the pivot limit is hit."""
    T = []; free = {}
    ids = {}
    for r, c in rows:
        if not r:
            if c < 0: return False
            continue
        den = 1
        for v in r.values():
            if v.__class__ is F: den = lcm(den, v.denominator)
        if c.__class__ is F: den = lcm(den, c.denominator)
        d = {}
        for k, v in r.items():
            i = ids.get(k)
            if i is None: i = ids[k] = -1 - len(ids)
            d[i] = int(v * den)
        T.append([den, d, int(c * den)])
    # free variables have negative numbers, slacks their row number; a basic free variable imposes nothing and its row is dropped
    basis = list(range(len(T)))

    def pivot(i, j):
        den, row, b = T[i]
        p = row[j]
        sg = -1 if p > 0 else 1
        nrow = {k: sg * v for k, v in row.items() if k != j}
        nrow[basis[i]] = -sg * den
        nb = sg * b; nd = p if p > 0 else -p
        if nd != 1:
            g = gcd(nd, nb)
            if g != 1:
                for v in nrow.values():
                    g = gcd(g, v)
                    if g == 1: break
                if g > 1: nrow = {k: v // g for k, v in nrow.items()}; nb //= g; nd //= g
        T[i] = [nd, nrow, nb]; basis[i] = j
        for r in range(len(T)):
            if r == i: continue
            d, rr, c0 = T[r]
            k = rr.get(j)
            if k is None: continue
            if nd == 1: out = dict(rr)
            else: out = {x: v * nd for x, v in rr.items()}
            del out[j]
            for x, v in nrow.items():
                y = out.get(x, 0) + k * v
                if y: out[x] = y
                elif x in out: del out[x]
            c0 = c0 * nd + k * nb; d *= nd
            if d != 1:
                g = gcd(d, c0)
                if g != 1:
                    for v in out.values():
                        g = gcd(g, v)
                        if g == 1: break
                    if g > 1: out = {x: v // g for x, v in out.items()}; c0 //= g; d //= g
            T[r] = [d, out, c0]
    for v in range(-1, -1 - len(ids), -1):
        i = None
        for r in range(len(T)):
            if v in T[r][1] and (i is None or len(T[r][1]) < len(T[i][1])): i = r
        if i is None: continue   # without influence
        pivot(i, v)
        del T[i]; del basis[i]
    for _ in range(limit):
        i = None
        for r in range(len(T)):
            if T[r][2] < 0 and (i is None or basis[r] < basis[i]): i = r
        if i is None: return True
        j = min((x for x, v in T[i][1].items() if v > 0), default=None)
        if j is None: return False
        pivot(i, j)
    return True


class System:
    """a conjunction p >= 0"""

    def __init__(self, cons): self.cons = cons

    @staticmethod
    def normal(p):
        """integer tightening"""
        if p._n is None: p._n = System._normal(p)
        return p._n
    @staticmethod
    def _normal(p):
        if not p.isint(): return p
        g = 0
        for k, v in p.m.items():
            if k: g = gcd(g, abs(int(v)))
        if g > 1:
            c = int(p.m.get((), 0))
            r = {k: int(v) // g for k, v in p.m.items() if k}
            r[()] = c // g if c >= 0 else -((-c + g - 1) // g)
            return Poly(r)
        return p


def relevant(cons, goal_syms):
    """constraints connected with the symbols"""
    syms = set(goal_syms); out = []; rest = list(cons); ch = True
    while ch:
        ch = False; keep = []
        for c in rest:
            if c.syms() & syms: out.append(c); syms |= c.syms(); ch = True
            else: keep.append(c)
        rest = keep
    return out, syms


_cache = {}


def empty(cons, extra=()):
    """True when the conjunction (with extra) certainly has no member"""
    allc = [System.normal(c) for c in cons]
    ex = [System.normal(c) for c in extra]
    for c in ex + allc:
        k = c.const()
        if k is not None and k < 0: return True
    if ex:
        rel, syms = relevant(allc, {s for c in ex for s in c.syms()})
        sys_ = ex + rel
    else:
        sys_ = allc; syms = {s for c in sys_ for s in c.syms()}
    key = (frozenset(sys_),)
    if key in _cache: return _cache[key]
    seen = set(); base = []
    for c in sys_:
        if c not in seen: seen.add(c); base.append(c)
    for s in syms:
        if s.lo is not None: base.append(Poly({(s,): 1, (): -s.lo}))
        if s.hi is not None: base.append(Poly({(s,): -1, (): s.hi}))
    def lin(cs):
        return [({k: v for k, v in c.m.items() if k}, c.m.get((), 0)) for c in cs]
    r = not simplex_feasible(lin(base))
    mons = {k for c in base for k in c.m if len(k) > 1}
    if not r and mons:
        # products with non-negative quantities: for every monomial, inequalities about one factor times the other factors
        nonneg = {s for s in syms if s.lo is not None and s.lo >= 0}
        for c in base:
            ks = [k for k in c.m if k]
            if len(ks) == 1 and len(ks[0]) == 1 and c.m[ks[0]] > 0 and c.m.get((), 0) <= 0: nonneg.add(ks[0][0])
        cur = list(base); have = set(cur); done = set()
        for rnd in range(2):
            new = []
            for M in sorted(mons, key=lambda k: [x.id for x in k]):
                for s in set(M):
                    l = list(M); l.remove(s)
                    if not all(x in nonneg for x in l): continue
                    mult = Poly({tuple(l): 1})
                    for c in cur if rnd == 0 else base:
                        if s not in c.syms() or c.degree() > 1 or (c, mult) in done: continue
                        done.add((c, mult))
                        pc = System.normal(c * mult)
                        if pc not in have: have.add(pc); new.append(pc)
            cur += new
            if not simplex_feasible(lin(cur)): r = True; break
            if len(cur) > 300: break
            mons = {k for c in cur for k in c.m if len(k) > 1}
    _cache[key] = r
    return r


def entails(cons, g):
    """cons => g >= 0"""
    k = g.const()
    if k is not None: return k >= 0
    lo, _ = g.interval()
    if lo is not None and lo >= 0: return True
    neg = (-g) - 1 if g.isint() else (-g) - F(1, 1000000)
    return empty(cons, [neg])


BIG = 2 ** 64


def witness(cons, syms, budget=60000, strict=()):
    """assignment of small or extreme values satisfying every constraint; None when none was found"""
    order = []
    rest = set(syms)
    cons = [c for c in cons if c.syms()]
    for c in cons: rest |= c.syms()
    # order symbols: most constrained first
    cnt = {s: sum(1 for c in cons if s in c.syms()) for s in rest}
    order = sorted(rest, key=lambda s: (-cnt[s], s.id))
    def dom(s):
        if s.int: v = [0, 1, 2, 3, 4, 5, -1, -2, -3, -5, -8]
        else: v = [F(0), F(1, 2), F(1), F(3, 2), F(2), F(5, 2), F(-1, 2), F(-1), F(-3, 2), F(3)]
        if s.hi is not None and s.int: v += [s.hi, s.hi - 1, s.hi - 2]
        if s.lo is not None and s.int: v += [s.lo, s.lo + 1]
        out = []
        for x in v:
            if (s.lo is None or x >= s.lo) and (s.hi is None or x <= s.hi) and x not in out: out.append(x)
        return out
    level = {s: i for i, s in enumerate(order)}
    by = [[] for _ in order]
    for c in cons: by[max(level[s] for s in c.syms())].append(c)
    steps = [0]
    env = {}
    def go(i):
        if i == len(order): return True
        s = order[i]
        vals = dom(s)
        # a symbol that the constraints of this level fix is tried at the fixed values first
        for c in by[i]:
            if any(k.count(s) > 1 for k in c.m): continue
            a = b = 0
            for k, v in c.m.items():
                t = v
                for x in k:
                    if x is not s: t = t * env[x]
                if s in k: a += t
                else: b += t
            if a != 0:
                x = F(-b) / F(a)
                for y in ([x] if not s.int else [x.numerator // x.denominator, x.numerator // x.denominator + 1]):
                    if (s.lo is None or y >= s.lo) and (s.hi is None or y <= s.hi) and y not in vals: vals.append(y)
        for x in vals:
            steps[0] += 1
            if steps[0] > budget: return False
            env[s] = x
            if all(c.eval(env) > 0 if c in strict else c.eval(env) >= 0 for c in by[i]) and go(i + 1): return True
        env.pop(s, None)
        return False
    return dict(env) if go(0) else None
