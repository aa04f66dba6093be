"""Abstract interpretation of functions over the relational domain of poly.py.

Scalars are polynomials over symbolic inputs, pointers are an array object plus an element offset, class objects are records of
fields found by access path.  Paths through a function are kept apart (joined where nothing distinguishes them), calls into the
repository are analysed in their calling context, loops are summarised by their induction variables: a symbolic iteration number
with every variable that changes by the same amount in each iteration expressed through it, monotone variables bounded by their
initial value and all others unknown.  A symbol is 'exact' when every value admitted by the constraints really occurs."""
from fractions import Fraction as F
from itertools import count
from .poly import Sym, Poly, ZERO, ONE, entails, empty, witness, relevant
from .prog import walk

_obj = count(1); _frame = count(1)
M64 = 2 ** 64


class Unsupported(Exception): pass


class Arr:
    """array or object identity"""
    __slots__ = ("id", "name", "size", "unit", "cls", "input", "const", "erange")
    def __init__(self, name, size=None, unit=None, cls=None, input=False, const=False):
        self.erange = None        # range of its elements
        self.const = const        # its elements stay as they are (a const argument without aliases)
        self.id = next(_obj); self.name = name; self.size = size; self.unit = unit; self.cls = cls; self.input = input
    def __repr__(self): return self.name


class Ptr:
    __slots__ = ("o", "off")
    def __init__(self, o, off): self.o = o; self.off = off
    def __eq__(self, x): return isinstance(x, Ptr) and x.o is self.o and x.off == self.off
    def __hash__(self): return hash((self.o.id, self.off))
    def __repr__(self): return "&%s[%r]" % (self.o.name, self.off)


class Obj:
    __slots__ = ("o",)
    def __init__(self, o): self.o = o
    def __eq__(self, x): return isinstance(x, Obj) and x.o is self.o
    def __hash__(self): return hash(("O", self.o.id))
    def __repr__(self): return "<%s>" % self.o.name


class Ref:
    """reference to a location"""
    __slots__ = ("loc",)
    def __init__(self, loc): self.loc = loc
    def __eq__(self, x): return isinstance(x, Ref) and x.loc == self.loc
    def __hash__(self): return hash(("R", self.loc))


class FnV:
    __slots__ = ("key", "lam", "frame")
    def __init__(self, key, lam=None, frame=None): self.key = key; self.lam = lam; self.frame = frame
    def __eq__(self, x): return isinstance(x, FnV) and x.key == self.key
    def __hash__(self): return hash(("F", self.key))


class State:
    __slots__ = ("env", "mem", "fields", "cons", "strict", "choices", "approx", "facts", "log", "size", "wr")
    def __init__(self):
        self.env = {}; self.mem = {}; self.fields = {}; self.cons = []; self.strict = frozenset(); self.choices = {}; self.approx = False; self.facts = (); self.log = (); self.size = {}; self.wr = frozenset()
    def copy(self):
        s = State.__new__(State)
        s.env = dict(self.env); s.mem = dict(self.mem); s.fields = dict(self.fields); s.cons = list(self.cons); s.strict = self.strict; s.choices = dict(self.choices)
        s.approx = self.approx; s.facts = self.facts; s.log = self.log; s.size = dict(self.size); s.wr = self.wr
        return s
    def add(self, p, strict=False):
        if p.const() is not None and p.const() >= 0 and not strict: return self
        if p not in self.cons: self.cons.append(p)
        if strict: self.strict = self.strict | {p}
        return self


SIZES = {"char": 1, "unsigned char": 1, "signed char": 1, "bool": 1, "short": 2, "unsigned short": 2, "int": 4, "unsigned int": 4, "long": 8, "unsigned long": 8,
         "long long": 8, "unsigned long long": 8, "float": 4, "double": 8}


def base(t):
    t = t.strip()
    while True:
        if t.startswith("const "): t = t[6:]
        elif t.startswith("volatile "): t = t[9:]
        elif t.endswith(" const"): t = t[:-6]
        elif t.endswith("&"): t = t.rstrip("&").strip()
        else: break
    return t


def trange(t):
    t = base(t)
    if t not in SIZES or t in ("float", "double"): return None
    b = SIZES[t] * 8
    if t == "bool": return (0, 1)
    if t.startswith("unsigned"): return (0, 2 ** b - 1)
    return (-2 ** (b - 1), 2 ** (b - 1) - 1)


def isfloat(t): return base(t) in ("float", "double", "long double")
def isptr(t): return base(t).endswith("*") or base(t).endswith("* const")
def pointee(t):
    t = base(t)
    if t.endswith("const"): t = t[:-5].strip()
    return base(t[:-1]) if t.endswith("*") else None


class Out:
    def __init__(self): self.n = []; self.b = []; self.c = []; self.r = []


class Interp:
    maxdeg = 4
    MAXSTATES = 40
    MAXDEPTH = 6
    wrap_add = False          # model wrap-around of unsigned additions and products too

    def __init__(self, prog, calls=None):
        self.p = prog; self.rec = True
        self.obl = {}           # (loc, text) -> [proved, violated list, undecided list]
        self.calls = calls or {}
        self.depth = 0; self.stack = []
        self.throws = []
        self.on_call = None; self.on_iter = None      # on_iter(function, loop, state at the head, states after an iteration, iteration number)
        self.steps = 0
        self.lost = 0; self.addr = None
        self.funcs = set()

    # ---------- obligations
    def require(self, f, node, st, g, what):
        """g >= 0 must hold"""
        if not self.rec: return
        key = ("%s:%s" % (f.file, node.get("l", f.line)), what)
        o = self.obl.setdefault(key, [0, [], [], f.q])
        if entails(st.cons, g): o[0] += 1; return
        neg = (-g) - 1 if g.isint() else -g
        rel, syms = relevant(st.cons + [neg], neg.syms())
        if neg not in rel: rel.append(neg)
        bad = sorted({s.name for s in syms if not s.exact})
        if not st.approx and not bad:
            w = witness([c for c in rel], syms, strict=st.strict)
            if w is not None:
                o[1].append({s.name: (int(v) if F(v).denominator == 1 else float(v)) for s, v in w.items() if not s.name.startswith("#")}); return
            o[2].append("no member found"); return
        o[2].append("depends on " + ", ".join(bad[:4]) if bad else "joined paths")

    # ---------- values
    def fresh(self, name, t=None, exact=False, data=False):
        r = trange(t) if t else None
        if t and isfloat(t): return Poly.of(Sym(name, isint=False, exact=exact))
        if r is None: return Poly.of(Sym(name, exact=exact))
        return Poly.of(Sym(name, r[0], r[1], exact=exact))

    def unknown(self, name, t, exact=False):
        if t is None: return None
        if isptr(t):
            return Ptr(Arr(name), ZERO)
        if base(t).endswith("]") and "(" not in t and self.dim(t): return Ptr(Arr(name, size=Poly.of(self.dim(t))), ZERO)
        if isfloat(t) or trange(t) is not None: return self.fresh(name, t, exact)
        return Obj(Arr(name, cls=base(t)))

    def length(self, st, o):
        """number of elements of an array object / container"""
        if o.id in st.size: return st.size[o.id]
        if o.size is not None: return o.size
        if o.cls and not o.cls.startswith(("std::shared_ptr", "std::unique_ptr", "boost::shared")) and ("vector<" in o.cls or "set<" in o.cls or "map<" in o.cls or "basic_string" in o.cls or "deque<" in o.cls or "list<" in o.cls):
            s = Poly.of(Sym("%s.size()" % o.name, 0, 2 ** 40, exact=o.input))
            st.size[o.id] = s
            return s
        return None

    # ---------- locations
    def load(self, f, st, loc, t, name="?"):
        k = loc[0]
        if k == "v":
            v = st.env.get(loc[1])
            if isinstance(v, Ref): return self.load(f, st, v.loc, t, name)
            if v is None and t is not None:
                v = self.unknown(name, t); st.env[loc[1]] = v
            return v
        if k == "f":
            key = (loc[1].id, loc[2]); v = st.fields.get(key)
            if isinstance(v, Ref): return self.load(f, st, v.loc, t, name)
            if v is None:
                nm = "%s.%s" % (loc[1].name, loc[2])
                v = self.unknown(nm, t, exact=loc[1].input)
                if isinstance(v, (Ptr, Obj)): v.o.input = loc[1].input
                st.fields[key] = v
            return v
        if k == "e":
            p = loc[1]; key = (p.o.id, p.off); v = st.mem.get(key)
            if v is None:
                nm = "%s[%r]" % (p.o.name, p.off)
                if t is None: return None
                v = self.unknown(nm, t, exact=p.o.input and p.o.id not in st.wr) if p.o.erange is None else Poly.of(Sym(nm, *p.o.erange, exact=p.o.input))
                if isinstance(v, (Ptr, Obj)): v.o.input = p.o.input
                if not isfloat(t):
                    st.mem[key] = v
                    self.instantiate(st, p)
                    v = st.mem[key]
            return v
        return None

    def store(self, f, st, loc, v, t=None, node=None):
        k = loc[0]
        if k == "v":
            o = st.env.get(loc[1])
            if isinstance(o, Ref): return self.store(f, st, o.loc, v, t, node)
            st.env[loc[1]] = v
        elif k == "f":
            o = st.fields.get((loc[1].id, loc[2]))
            if isinstance(o, Ref): return self.store(f, st, o.loc, v, t, node)
            st.fields[(loc[1].id, loc[2])] = v
            st.log = st.log + (("f", loc[1], loc[2], v, "%s:%s" % (f.file, (node or {}).get("l", 0)), f.key),)
        elif k == "e":
            p = loc[1]
            if p.o.id not in st.wr: st.wr = st.wr | {p.o.id}
            for key in [key for key in st.mem if key[0] == p.o.id and key[1] != p.off]:
                d = key[1] - p.off
                if d.const() is not None: continue
                if entails(st.cons, d - 1) or entails(st.cons, -d - 1): continue
                del st.mem[key]
            if t is None or not isfloat(t): st.mem[(p.o.id, p.off)] = v
            if st.facts: st.facts = tuple(x for x in st.facts if p.o not in x["objs"])
            if t is None or not isfloat(t) or p.o.input: st.log = st.log + (("e", p.o, p.off, v, "%s:%s" % (f.file, (node or {}).get("l", 0)), f.key),)

    def access(self, f, node, st, p, write=False, n=None):
        """element access through a pointer: obligations"""
        if node is self.addr: return
        sz = self.length(st, p.o)
        if sz is None: return
        self.require(f, node, st, p.off, "index of %s is not negative" % p.o.name)
        self.require(f, node, st, sz - p.off - 1, "index of %s is below its length" % p.o.name)

    def span(self, f, node, st, p, n, what):
        """n elements from p on are accessed"""
        sz = self.length(st, p.o)
        if sz is None or n is None: return
        if entails(st.cons, -n): return
        st = st.copy().add(n - 1)
        self.require(f, node, st, p.off, "start of %s in %s is not negative" % (what, p.o.name))
        self.require(f, node, st, sz - p.off - n, "end of %s in %s is within its length" % (what, p.o.name))

    # ---------- facts about all elements
    def instantiate(self, st, p):
        for fc in st.facts:
            if p.o not in fc["objs"]: continue
            for (oid, idx), sym in fc["elems"].items():
                if oid != p.o.id: continue
                k = fc["k"]
                d = idx - Poly.of(k)
                if k in d.syms(): continue
                kk = p.off - d
                if not (entails(st.cons, kk) and entails(st.cons, fc["n"] - kk - 1)): continue
                ren = {}
                ok = True
                for (o2, i2), s2 in fc["elems"].items():
                    i3 = i2.subst(k, kk)
                    key = (o2, i3)
                    if key not in st.mem: st.mem[key] = Poly.of(Sym(s2.name.replace(k.name, repr(kk)), s2.lo, s2.hi, s2.int, s2.exact))
                    v = st.mem[key]
                    if not isinstance(v, Poly): ok = False; break
                    ren[s2] = v
                if not ok: continue
                for c in fc["cons"]:
                    for s2, v in ren.items(): c = c.subst(s2, v)
                    st.add(c.subst(k, kk))
                break

    # ---------- arithmetic
    def prune(self, sts): return [s for s in sts if not empty(s.cons)]

    def fork(self, st, p, q=None):
        """states with p >= 0 and with its integer complement; infeasible ones left out"""
        n = -p - 1
        for q, r in ((p, True), (n, False)):
            if entails(st.cons, q):
                if len(q.syms()) == 1 and q.degree() == 1 and q not in st.cons: st = st.copy().add(q)     # made explicit: bounds of single quantities help with products
                return [(st, r)]
        a = st.copy().add(p); b = st.copy().add(n)
        return [(a, True), (b, False)]

    def fit(self, st, v, t, check_high=True):
        """value v converted to integer type t"""
        r = trange(t)
        if r is None or not isinstance(v, Poly): return [(st, v)]
        w = r[1] - r[0] + 1
        k = (int(v.m.get((), 0)) + w // 2) // w
        if k and v.const() is None: v = v - k * w      # conversions are modulo w: the nearest representative, so that one more wrap is enough
        lo, hi = v.interval()
        out = [(st, v)]
        if lo is None or lo < r[0]:
            nxt = []
            for s, x in out:
                for s2, ok in self.fork(s, x - r[0]): nxt.append((s2, x if ok else x + w))
            out = nxt
        if check_high and (hi is None or hi > r[1]):
            nxt = []
            for s, x in out:
                for s2, ok in self.fork(s, Poly.of(r[1]) - x): nxt.append((s2, x if ok else x - w))
            out = nxt
        return out

    @staticmethod
    def offset(p):
        """address arithmetic is modulo 2^64: a wrapped index is a negative one"""
        c = p.m.get((), 0)
        return p - 2 ** 64 if c > 2 ** 63 else p + 2 ** 64 if c < -2 ** 63 else p

    def arith(self, st, op, a, b, t):
        if isinstance(a, Ptr) and isinstance(b, Poly) and op in ("+", "-"): return [(st, Ptr(a.o, self.offset(a.off + b if op == "+" else a.off - b)))]
        if isinstance(b, Ptr) and isinstance(a, Poly) and op == "+": return [(st, Ptr(b.o, self.offset(b.off + a)))]
        if isinstance(a, Ptr) and isinstance(b, Ptr) and op == "-":
            return [(st, a.off - b.off if a.o is b.o else self.fresh("#ptrdiff", t))]
        if not isinstance(a, Poly) or not isinstance(b, Poly): return [(st, self.unknown("#v", t) if t else None)]
        fl = isfloat(t) if t else False
        r = trange(t) if t else None
        if op in ("+", "-", "*"):
            v = a + b if op == "+" else a - b if op == "-" else a * b
            if v.degree() > self.maxdeg or (fl and v.degree() > 1): return [(st, self.fresh("#real" if fl else "#product", t))]
            if fl or r is None: return [(st, v)]
            if r[0] == 0 and op == "*" and self.wrap_add and not entails(st.cons, Poly.of(r[1]) - v):
                if not all(x.exact for x in v.syms()): return [(st, self.fresh("#product", t))]
                return [(st.copy().add(Poly.of(r[1]) - v), v), (st.copy().add(v - r[1] - 1), self.fresh("#product", t))]
            if r[0] == 0: return self.fit(st, v, t, check_high=(self.wrap_add and op == "+") or v.m.get((), 0) > r[1] // 2)
            return [(st, v)]
        if op == "/":
            c = b.const()
            if fl or not (a.isint() and b.isint()):
                if c not in (None, 0): return [(st, a * F(1, 1) * Poly.of(F(1) / F(c)))]
                return [(st, self.fresh("#real", t))]
            if a.const() is not None and c: q = abs(int(a.const())) // abs(int(c)); return [(st, Poly.of(q if (a.const() < 0) == (c < 0) else -q))]
            if c is not None and c > 0:
                out = []
                for s, pos in self.fork(st, a):
                    q = Sym("(%r)/%d" % (a, c), 0 if pos else None, None if pos else 0, exact=all(x.exact for x in a.syms()), derived=True)
                    P = Poly.of(q)
                    if pos: s.add(a - P * c); s.add(P * c + (c - 1) - a)
                    else: s.add(P * c - a); s.add(a - P * c + (c - 1))
                    out.append((s, P))
                return out
            # division by a quantity: exact when it divides the polynomial
            if len(b.m) == 1:
                (k, cv), = b.m.items()
                if all(self._divides(k, m) and F(v) % F(cv) == 0 for m, v in a.m.items()):
                    out = {}
                    for m, v in a.m.items():
                        l = list(m)
                        for s_ in k: l.remove(s_)
                        out[tuple(l)] = F(v) / F(cv) if F(v) % F(cv) else int(F(v) / F(cv))
                    return [(st, Poly(out))]
            out = []
            for s, pos in self.fork(st, a):
                if not pos: out.append((s, self.fresh("#quotient", t))); continue
                for s2, ok in self.fork(s, b - 1):
                    if not ok:
                        if entails(s2.cons, b): continue        # division by zero: nothing follows
                        out.append((s2, self.fresh("#quotient", t))); continue
                    q = Poly.of(Sym("(%r)/(%r)" % (a, b), 0, None, exact=all(x.exact for x in a.syms() | b.syms()), derived=True))
                    if (q * b).degree() > 4: out.append((s2, self.fresh("#quotient", t))); continue
                    s2 = s2.copy(); s2.add(a - q * b); s2.add(q * b + b - 1 - a)
                    out.append((s2, q))
            return out
        if op == "%":
            c = b.const()
            if a.const() is not None and c: return [(st, Poly.of(int(a.const()) % int(c) if a.const() >= 0 else -((-int(a.const())) % int(c))))]
            v = self.fresh("#mod", t)
            s = next(iter(v.syms()))
            if entails(st.cons, a):
                s.lo = 0
                if c: s.hi = c - 1; s.exact = all(x.exact for x in a.syms()) and False
                else: st = st.copy().add(b - v - 1)
            return [(st, v)]
        return [(st, self.fresh("#" + op, t) if t else None)]

    @staticmethod
    def _divides(k, m):
        l = list(m)
        for s in k:
            if s not in l: return False
            l.remove(s)
        return True

    # ---------- conditions
    def cond(self, f, e, st):
        """-> (states where true, states where false)"""
        if e is None: return [st], []
        k = e.get("k")
        if e.get("cv") is not None and k != "Call": return ([st], []) if e["cv"] else ([], [st])
        if k == "Cast": 
            if base(f.type(e)) == "bool" or trange(f.type(e)) is not None:
                pass
        if k == "Un" and e["op"] == "!":
            a, b = self.cond(f, e["a"], st); return b, a
        if k == "Bin" and e["op"] == "&&":
            T, Fa = [], []
            a, b = self.cond(f, e["a"], st)
            Fa += b
            for s in a:
                c, d = self.cond(f, e["b"], s); T += c; Fa += d
            return T, Fa
        if k == "Bin" and e["op"] == "||":
            T, Fa = [], []
            a, b = self.cond(f, e["a"], st)
            T += a
            for s in b:
                c, d = self.cond(f, e["b"], s); T += c; Fa += d
            return T, Fa
        if k == "Bin" and e["op"] in ("<", "<=", ">", ">=", "==", "!="):
            T, Fa = [], []
            lt = f.types[e["lt"]] if e.get("lt", -1) >= 0 else ""
            for s, a in self.ev(f, e["a"], st):
                for s2, b in self.ev(f, e["b"], s):
                    r = trange(lt)
                    xs = [(s2, a, b)]
                    if r is not None and r[0] == 0:   # operands converted to the unsigned type
                        xs = [(s4, a2, b2) for s3, a2 in self.fit(s2, a, lt) for s4, b2 in self.fit(s3, b, lt)]
                    for s3, x, y in xs:
                        c, d = self.compare(f, e, e["op"], s3, x, y, isfloat(lt)); T += c; Fa += d
            return T, Fa
        if k == "Call" and (e.get("q") or "").rsplit("::", 1)[-1] in ("isnan", "isfinite", "isinf", "__builtin_isnan", "mifi_isnan", "isNaN"):
            xs = self.ev(f, e["a"][0], st) if e.get("a") else [(st, None)]
            T, Fa = [], []
            for s, v in xs:
                a, b = self.free(s, (e["q"].rsplit("::", 1)[-1], v)); T += a; Fa += b
            return T, Fa
        T, Fa = [], []
        for s, v in self.ev(f, e, st):
            if isinstance(v, Poly):
                c = v.const()
                if c is not None: (T if c else Fa).append(s); continue
                c, d = self.compare(f, e, "!=", s, v, ZERO, not v.isint()); T += c; Fa += d
            elif isinstance(v, (Ptr, Obj)) and (isptr(f.type(e)) or "_ptr<" in f.type(e) or "shared_array<" in f.type(e) or base(f.type(e)) == "bool"):
                a, b = self.free(s, ("null", v)); T += a; Fa += b
            else:
                a, b = self.free(s, None); T += a; Fa += b
        return T, Fa

    def free(self, st, key):
        """condition about data: both outcomes"""
        if key is not None and key in st.choices:
            return ([st], []) if st.choices[key] else ([], [st])
        a = st.copy(); b = st.copy()
        if key is not None: a.choices[key] = True; b.choices[key] = False
        return [a], [b]

    def compare(self, f, e, op, st, a, b, real):
        if isinstance(a, Ptr) and isinstance(b, Ptr):
            if a.o is b.o: a, b, real = a.off, b.off, False
            else: return self.free(st, ("ptr", op, a, b))
        elif isinstance(a, Ptr) or isinstance(b, Ptr):
            p = a if isinstance(a, Ptr) else b
            x, y = self.free(st, ("null", p))     # null tests
            return (y, x) if op == "==" else (x, y)
        if not isinstance(a, Poly) or not isinstance(b, Poly): return self.free(st, None)
        d = a - b
        real = real or not d.isint()
        if op in (">", ">="): d = -d; op = {">": "<", ">=": "<="}[op]
        c = d.const()
        if c is not None:
            r = {"<": c < 0, "<=": c <= 0, "==": c == 0, "!=": c != 0}[op]
            return ([st], []) if r else ([], [st])
        if real:
            if op == "<" or op == "<=":
                t = st.copy().add(-d, strict=(op == "<")); g = st.copy().add(d, strict=(op == "<="))
                return self.prune([t]), self.prune([g])
            eq = st.copy().add(d).add(-d)
            ne = st.copy()
            key = ("eq", d)
            if key in st.choices: 
                t, g = ([eq], []) if st.choices[key] else ([], [ne])
            else:
                eq.choices[key] = True; ne.choices[key] = False
                t, g = self.prune([eq]), [ne]
            return (t, g) if op == "==" else (g, t)
        if op in ("<", "<="):
            p = -d - 1 if op == "<" else -d
            T, Fa = [], []
            for s, ok in self.fork(st, p): (T if ok else Fa).append(s)
            return T, Fa
        # equality of integers
        lt = entails(st.cons, -d - 1) or entails(st.cons, d - 1)
        if lt: return ([], [st]) if op == "==" else ([st], [])
        if entails(st.cons, d) and entails(st.cons, -d): return ([st], []) if op == "==" else ([], [st])
        eq = st.copy().add(d).add(-d)
        ne = [s for s in (st.copy().add(d - 1), st.copy().add(-d - 1))]
        ne = self.prune(ne)
        eqs = [self.solve(x) for x in self.prune([eq])]
        return (eqs, ne) if op == "==" else (ne, eqs)

    def solve(self, st):
        """use equalities to eliminate loop counters and derived symbols"""
        return st

    # ---------- expressions
    def evs(self, f, es, st):
        out = [(st, [])]
        for e in es:
            out = [(s2, vs + [v]) for s, vs in out for s2, v in self.ev(f, e, s)]
        return out

    def ev(self, f, e, st):
        if e is None: return [(st, None)]
        self.steps += 1
        if self.steps > self.limit: raise Unsupported("too large")
        k = e.get("k"); t = f.type(e)
        if e.get("cv") is not None and k not in ("Call", "Asg") and not (k == "Un" and e["op"] in ("++", "--", "p++", "p--")):
            v = e["cv"]
            if v < 0 and trange(t) is not None and trange(t)[0] == 0: v += 2 ** (SIZES[base(t)] * 8)
            return [(st, Poly.of(v))]
        if e.get("null") and k != "Call": return [(st, None)]
        if k == "Flt": return [(st, Poly.of(F(e["v"]).limit_denominator(10 ** 6) if e["v"] == e["v"] and abs(e["v"]) != float("inf") else F(0)) if e["v"] == e["v"] and abs(e["v"]) < 1e30 else self.fresh("#real", "double"))]
        if k in ("Ref", "Mem", "Idx", "This") or (k == "Un" and e["op"] == "*"):
            if k == "This": return [(st, st.env.get((self.stack[-1][1], "this")))]
            if k == "Ref" and e.get("dk") == "func": return [(st, FnV(e["f"]))]
            if k == "Ref" and e.get("dk") == "global":
                key = ("g", e["g"])
                if key not in st.env:
                    g = self.p.globs.get(e["g"]) or {}
                    v = None
                    i = g.get("i")
                    if g.get("const") and i is not None and i.get("cv") is not None: v = Poly.of(i["cv"])
                    st.env[key] = v if v is not None else self.unknown(e["n"], t)
                return [(st, st.env[key])]
            out = []
            for s, loc in self.lv(f, e, st):
                if loc is None: out.append((s, self.unknown("#v", t))); continue
                v = self.load(f, s, loc, t, e.get("n", "?"))
                out.append((s, v))
            return out
        if k == "Bin":
            op = e["op"]
            if op == ",":
                return [x for s, _ in self.ev(f, e["a"], st) for x in self.ev(f, e["b"], s)]
            if op in ("&&", "||", "<", "<=", ">", ">=", "==", "!="):
                T, Fa = self.cond(f, e, st)
                return [(s, ONE) for s in T] + [(s, ZERO) for s in Fa]
            out = []
            for s, a in self.ev(f, e["a"], st):
                for s2, b in self.ev(f, e["b"], s):
                    r = trange(t)
                    if r is not None and r[0] == 0 and isinstance(a, Poly) and isinstance(b, Poly):
                        for s3, a2 in self.fit(s2, a, t):
                            for s4, b2 in self.fit(s3, b, t): out += self.arith(s4, op, a2, b2, t)
                    else: out += self.arith(s2, op, a, b, t)
            return out
        if k == "Un":
            op = e["op"]
            if op in ("++", "--", "p++", "p--"):
                out = []
                for s, loc in self.lv(f, e["a"], st):
                    if loc is None: out.append((s, self.unknown("#v", t))); continue
                    old = self.load(f, s, loc, f.type(e["a"]), e["a"].get("n", "?"))
                    tt = f.type(e["a"])
                    for s2, new in self.arith(s, "+" if "+" in op else "-", old, ONE, tt):
                        self.store(f, s2, loc, new, tt, e)
                        out.append((s2, old if op[0] == "p" else new))
                return out
            if op == "&":
                out = []
                x = e["a"]
                while x.get("k") in ("Cast", "Tmp"): x = x["e"]
                old, self.addr = self.addr, x      # only an address is formed
                try: locs = self.lv(f, x, st)
                finally: self.addr = old
                for s, loc in locs:
                    if loc is None: out.append((s, self.unknown("#p", t))); continue
                    if loc[0] == "e": out.append((s, loc[1])); continue
                    v = self.load(f, s, loc, f.type(e["a"]), e["a"].get("n", "?"))
                    out.append((s, v if isinstance(v, (Obj, FnV)) else Ref(loc)))
                return out
            if op == "!":
                T, Fa = self.cond(f, e, st)
                return [(s, ONE) for s in T] + [(s, ZERO) for s in Fa]
            out = []
            for s, v in self.ev(f, e["a"], st):
                if op == "-" and isinstance(v, Poly):
                    out += self.fit(s, -v, t) if (trange(t) or (1,))[0] == 0 else [(s, -v)]
                elif op == "+": out.append((s, v))
                else: out.append((s, self.unknown("#v", t)))
            return out
        if k == "Asg":
            out = []
            lt = f.type(e["a"])
            for s, b in self.ev(f, e["b"], st):
                for s2, loc in self.lv(f, e["a"], s):
                    if e["op"] != "=":
                        old = self.load(f, s2, loc, lt, e["a"].get("n", "?")) if loc is not None else None
                        res = self.arith(s2, e["op"][:-1], old, b, lt)
                    else: res = [(s2, b)]
                    for s3, v in res:
                        for s4, v2 in (self.fit(s3, v, lt, self.wrap_add) if e["op"] != "=" and isinstance(v, Poly) and v.isint() else self.convert(f, s3, v, lt, e["b"])):
                            if loc is not None: self.store(f, s4, loc, v2, lt, e)
                            out.append((s4, v2))
            return out
        if k == "Cond":
            T, Fa = self.cond(f, e["c"], st)
            return [x for s in T for x in self.ev(f, e["a"], s)] + [x for s in Fa for x in self.ev(f, e["b"], s)]
        if k == "Cast":
            out = []
            for s, v in self.ev(f, e["e"], st): out += self.convert(f, s, v, t, e["e"])
            return out
        if k == "Tmp": return self.ev(f, e["e"], st)
        if k == "Call": return self.call(f, e, st)
        if k == "Ctor": return self.ctor(f, e, st)
        if k == "New":
            if e.get("arr"):
                return [(s, Ptr(Arr("new@%s" % e["l"], size=n if isinstance(n, Poly) else None, unit=1), ZERO)) for s, n in self.ev(f, e.get("sz"), st)]
            if e.get("e") is not None:
                return [(s, v if v is not None else self.unknown("new", t)) for s, v in self.ev(f, e["e"], st)]
            return [(st, Obj(Arr("new@%s" % e["l"], cls=f.types[e["at"]])))]
        if k == "Lambda": return [(st, FnV(e["f"], e, self.stack[-1][1]))]
        if k == "Throw":
            out = []
            for s, _ in (self.ev(f, e["e"], st) if False else [(st, None)]): self.throws.append((s, f, e))
            return []
        if k == "Zero": return [(st, ZERO)] if trange(t) is not None or isfloat(t) else [(st, None)]
        if k == "Init":
            if "[" in t:
                return [(st, Ptr(Arr("init@%s" % e["l"], size=Poly.of(self.dim(t))), ZERO))]
            if len(e.get("a", ())) == 1: return self.ev(f, e["a"][0], st)
            o = Arr("init@%s" % e["l"], cls=base(t))
            out = []
            for s, vs in self.evs(f, e.get("a", ()), st):
                for n, v in zip(e.get("fl") or (), vs):
                    if v is not None: s.fields[(o.id, n)] = v
                out.append((s, Obj(o)))
            return out
        if k == "Sizeof": return [(st, self.unknown("#sizeof", t))]
        if k in ("Str", "Typeid", "Opaque", "Null", "Delete"): return [(st, None)]
        if k == "StmtE": return [(st, self.unknown("#v", t))]
        return [(st, self.unknown("#v", t) if t else None)]

    @staticmethod
    def dim(t):
        import re
        m = re.search(r"\[(\d+)\]", t)
        return int(m.group(1)) if m else 0

    def convert(self, f, st, v, t, e=None):
        """implicit or explicit conversion of a value to type t"""
        if isinstance(v, Poly):
            if trange(t) is not None:
                if not v.isint():
                    out = []
                    for s, pos in ([(st, True)] if entails(st.cons, v) else [(st.copy().add(v), True), (st.copy().add(-v, strict=True), False)]):
                        if empty(s.cons): continue
                        out += [(s2, q) for s2, q in self.rounded(s, v, "floor" if pos else "ceil")]
                    return out
                if e is not None and base(f.type(e)) == base(t): return [(st, v)]
                return self.fit(st, v, t)
            return [(st, v)]
        if isinstance(v, Ptr) and isptr(t) and v.o.unit is None and v.o.size is not None and pointee(t) in SIZES:
            es = SIZES[pointee(t)]     # raw bytes from malloc become elements
            o = v.o
            if all(F(c) % es == 0 for c in o.size.m.values()):
                o.size = Poly({k: int(c) // es for k, c in o.size.m.items()}); o.unit = es
        return [(st, v)]

    def rounded(self, st, a, how):
        if isinstance(a, Poly) and a.isint(): return [(st, a)]
        if not isinstance(a, Poly): return [(st, self.fresh("#int", "int"))]
        q = Sym("%s(%r)" % (how, a), -2 ** 31, 2 ** 31 - 1, exact=all(x.exact for x in a.syms()), derived=True)
        P = Poly.of(q); s = st.copy()
        if how == "floor": s.add(a - P); s.add(P + 1 - a, strict=True)
        elif how == "ceil": s.add(P - a); s.add(a + 1 - P, strict=True)
        else: s.add(a - P + F(1, 2)); s.add(P - a + F(1, 2))
        return [(s, P)]

    # ---------- locations of expressions
    def lv(self, f, e, st):
        """-> [(state, location or None)]"""
        if e is None: return [(st, None)]
        k = e.get("k")
        if k == "Ref" and e.get("dk") in ("param", "local", "slocal", "tls"):
            key = self.var(st, e["id"])
            v = st.env.get(key)
            if isinstance(v, Ref): return [(st, v.loc)]
            return [(st, ("v", key))]
        if k == "Ref" and e.get("dk") == "global": return [(st, ("v", ("g", e["g"])))]
        if k == "Mem":
            if e.get("dk") == "func": return [(st, None)]
            out = []
            for s, b in self.ev(f, e["b"], st):
                if isinstance(b, Ref): b = self.load(f, s, b.loc, None)
                if isinstance(b, Ptr):
                    b = self.load(f, s, ("e", b), pointee(f.type(e["b"])) or base(f.type(e["b"])))
                if isinstance(b, Obj): out.append((s, ("f", b.o, e["n"])))
                else: out.append((s, None))
            return out
        if k == "Idx":
            out = []
            at = f.type(e["a"])
            for s, a in self.ev(f, e["a"], st):
                for s2, i in self.ev(f, e["i"], s):
                    if isinstance(a, Ptr) and isinstance(i, Poly):
                        p = Ptr(a.o, self.offset(a.off + i))
                        self.access(f, e, s2, p)
                        out.append((s2, ("e", p)))
                    else: out.append((s2, None))
            return out
        if k == "Un" and e["op"] == "*":
            out = []
            for s, a in self.ev(f, e["a"], st):
                if isinstance(a, Ptr):
                    self.access(f, e, s, a); out.append((s, ("e", a)))
                elif isinstance(a, Ref): out.append((s, a.loc))
                elif isinstance(a, Obj): out.append((s, ("o", a)))
                else: out.append((s, None))
            return [(s, l) if not (l and l[0] == "o") else (s, self.objloc(s, l[1])) for s, l in out]
        if k == "Un" and e["op"] in ("++", "--"):
            return [x for s, _ in self.ev(f, e, st) for x in self.lv(f, e["a"], s)]
        if k == "Asg":
            return [x for s, _ in self.ev(f, e, st) for x in self.lv(f, e["a"], s)]
        if k == "Cast": return self.lv(f, e["e"], st)
        if k == "Tmp": return self.lv(f, e["e"], st)
        if k == "Cond":
            T, Fa = self.cond(f, e["c"], st)
            return [x for s in T for x in self.lv(f, e["a"], s)] + [x for s in Fa for x in self.lv(f, e["b"], s)]
        if k == "Call":
            return self.call(f, e, st, want_loc=True)
        out = []
        for s, v in self.ev(f, e, st):
            if isinstance(v, Obj): out.append((s, self.objloc(s, v)))
            elif v is not None:
                key = ("tmp", next(_frame)); s.env[key] = v; out.append((s, ("v", key)))
            else: out.append((s, None))
        return out

    def objloc(self, st, v):
        key = ("obj", v.o.id)
        st.env[key] = v
        return ("v", key)

    def var(self, st, i):
        fr = self.stack[-1][1]
        return (fr, i)

    # ---------- calls
    def ctor(self, f, e, st):
        a = [x for x in e.get("a", ()) if x is not None]
        cls = e.get("cls", "")
        if e.get("cm") in ("copy", "move") and len(a) == 1: return self.copyval(f, self.ev(f, a[0], st), cls)
        short = cls.split("<")[0]
        if short in ("std::shared_ptr", "std::unique_ptr", "boost::shared_ptr", "boost::shared_array") and a:
            return self.ev(f, a[0], st)
        out = []
        if short in ("std::vector",):
            for s, vs in self.evs(f, a, st):
                o = Arr("vector@%s" % e["l"], cls=cls)
                vs = [v for v, x in zip(vs, a) if not ("allocator" in f.type(x))]
                if not vs: s.size[o.id] = ZERO
                elif isinstance(vs[0], Poly) and trange(f.type(a[0])) is not None: s.size[o.id] = vs[0]
                elif len(vs) == 2 and isinstance(vs[0], Ptr) and isinstance(vs[1], Ptr) and vs[0].o is vs[1].o:
                    s.size[o.id] = vs[1].off - vs[0].off
                    s.fields[(o.id, "#from")] = Obj(vs[0].o)
                out.append((s, Obj(o)))
            return out
        kk = e.get("f")
        if kk in self.p.fns and self.depth < self.MAXDEPTH:
            g = self.p.fns[kk]
            for s, vs in self.evargs(f, g, a, st):
                o = Arr("%s@%s" % (short.split("::")[-1], e["l"]), cls=cls)
                for s2, _ in self.inline(g, vs, Obj(o), s, ctor=True): out.append((s2, Obj(o)))
            return out
        for s, vs in self.evs(f, a, st): out.append((s, Obj(Arr("%s@%s" % (short.split("::")[-1], e["l"]), cls=cls))))
        return out

    def copyval(self, f, xs, cls):
        out = []
        for s, v in xs:
            if isinstance(v, Obj) and not cls.startswith(("std::shared_ptr", "std::unique_ptr", "boost::shared")) and ("vector<" in cls or "set<" in cls):
                o = Arr("copy of " + v.o.name, cls=v.o.cls or cls, input=v.o.input)
                n = self.length(s, v.o)
                if n is not None: s.size[o.id] = n
                for (oid, k), x in list(s.mem.items()):
                    if oid == v.o.id: s.mem[(o.id, k)] = x
                for (oid, k), x in list(s.fields.items()):
                    if oid == v.o.id: s.fields[(o.id, k)] = x
                s.fields.setdefault((o.id, "#from"), Obj(v.o))
                v = Obj(o)
            out.append((s, v))
        return out

    def evargs(self, f, g, a, st):
        """arguments for an analysed call; reference parameters are bound to locations"""
        out = [(st, [])]
        for i, x in enumerate(a):
            t = g.types[g.params[i]["t"]] if i < len(g.params) else ""
            nxt = []
            for s, vs in out:
                if t.endswith("&") and not t.endswith("&&") and (trange(t) is not None or isfloat(t) or isptr(t)) and not t.startswith("const "):
                    for s2, loc in self.lv(f, x, s): nxt.append((s2, vs + [Ref(loc) if loc is not None else None]))
                else:
                    for s2, v in self.ev(f, x, s):
                        for s3, v2 in self.convert(f, s2, v, t, x): nxt.append((s3, vs + [v2]))
            out = nxt
        return out

    def inline(self, g, vs, this, st, ctor=False, lam=None):
        if any(k == g.key for k, _, _ in self.stack) or g.body is None: return [(st, self.unknown("#result of " + g.name, g.ret if not lam else None))]
        fr = next(_frame)
        self.funcs.add(g.key)
        self.stack.append((g.key, fr, g)); self.depth += 1
        try:
            st0 = st; mk = self.mark()
            st = st.copy()
            if this is not None: st.env[(fr, "this")] = this
            if lam is not None:
                host = lam.frame
                for c in lam.lam.get("caps", ()):
                    if c.get("k") == "this": st.env[(fr, "this")] = st.env.get((host, "this"))
                    elif "id" in c:
                        if c["k"] == "ref":
                            v = st.env.get((host, c["id"]))
                            st.env[(fr, c["id"])] = v if isinstance(v, Ref) else Ref(("v", (host, c["id"])))
                        else: st.env[(fr, c["id"])] = st.env.get((host, c["id"]))
            for prm, v in zip(g.params, vs):
                if v is None: v = self.unknown(prm["n"], g.types[prm["t"]])
                st.env[(fr, prm["id"])] = v
            sts = [st]
            for i in g.d.get("inits", ()):
                if not isinstance(this, Obj) or i.get("e") is None: continue
                nxt = []
                for s in sts:
                    if i.get("f"):
                        for s2, v in self.ev(g, i["e"], s):
                            if v is not None: s2 = s2.copy(); s2.fields[(this.o.id, i["f"])] = v
                            nxt.append(s2)
                    else:
                        b = self.p.fns.get(i["e"].get("f")) if i["e"].get("k") == "Ctor" else None
                        if b is None or b.body is None: nxt.append(s); continue
                        for s2, vs2 in self.evs(g, i["e"].get("a", ()), s): nxt += [s3 for s3, _ in self.inline(b, vs2, this, s2)]
                sts = self.joins(nxt)
            o = self.block(g, g.body, sts)
            res = [(s, v) for s, v in o.r] + [(s, None) for s in o.n]
            out = []
            for s, v in res:
                if isinstance(v, Ref):
                    v = self.load(g, s, v.loc, None)
                for k in [k for k in s.env if k[0] == fr]: del s.env[k]
                out.append((s, v))
            if len(out) > 1 and all(v is None or isinstance(v, Poly) and v.const() is not None for _, v in out) and len({v for _, v in out}) == 1:
                return [(s, out[0][1]) for s in self.joins(self.collapse([st0], [s for s, _ in out], mk))]
            return self.join(out)
        finally:
            self.stack.pop(); self.depth -= 1

    def call(self, f, e, st, want_loc=False):
        q = e.get("q") or ""
        n = q.rsplit("::", 1)[-1]
        a = e.get("a", ())
        op = e.get("op")
        ret = f.type(e)
        def done(xs):
            if not want_loc: return xs
            out = []
            for s, v in xs:
                if isinstance(v, Ref): out.append((s, v.loc))
                elif isinstance(v, Obj): out.append((s, self.objloc(s, v)))
                else: out.append((s, None))
            return out
        h = self.calls.get(n)
        if h is not None:
            r = h(self, f, e, st)
            if r is not None: return done(r)
        if e.get("nr") or n in ("exit", "abort", "_exit"): self.lost += 1; return []
        # arithmetic library functions
        if n in ("floor", "ceil", "lround", "lroundf", "round", "rint", "lrint", "floorf", "ceilf", "roundf", "nearbyint") and len(a) == 1 and not e.get("rp"):
            how = "floor" if n.startswith("floor") else "ceil" if n.startswith("ceil") else "round"
            return done([x for s, v in self.ev(f, a[0], st) for x in self.rounded(s, v, how)])
        if n in ("min", "max", "fmin", "fmax") and len(a) == 2 and not e.get("rp"):
            out = []
            for s, vs in self.evs(f, a, st):
                if all(isinstance(v, Poly) for v in vs):
                    x, y = vs; d = x - y
                    if not d.isint():
                        out.append((s.copy().add(d), x if "max" in n else y)); out.append((s.copy().add(-d), y if "max" in n else x))
                    else:
                        for s2, ge in self.fork(s, d): out.append((s2, x if ge == ("max" in n) else y))
                else: out.append((s, self.unknown("#" + n, ret)))
            return done([(s, v) for s, v in out if not empty(s.cons)])
        if n in ("abs", "fabs", "labs", "fabsf") and len(a) == 1 and not e.get("rp"):
            out = []
            for s, v in self.ev(f, a[0], st):
                if isinstance(v, Poly):
                    if v.isint():
                        for s2, ge in self.fork(s, v): out.append((s2, v if ge else -v))
                    else:
                        out.append((s.copy().add(v), v)); out.append((s.copy().add(-v, strict=True), -v))
                else: out.append((s, self.unknown("#abs", ret)))
            return done(out)
        if n in ("clamp",) and len(a) == 3: pass
        if n == "malloc": return done([(s, Ptr(Arr("malloc@%s" % e["l"], size=v if isinstance(v, Poly) else None), ZERO)) for s, v in self.ev(f, a[0], st)])
        if n == "calloc":
            return done([(s, Ptr(Arr("calloc@%s" % e["l"], size=(vs[0] * vs[1]) if all(isinstance(v, Poly) for v in vs) else None), ZERO)) for s, vs in self.evs(f, a, st)])
        if n in ("make_shared", "make_unique") and q.startswith(("std::", "boost::")):
            cls = ret[ret.index("<") + 1:ret.rindex(">")].strip() if "<" in ret else ""
            if cls.startswith("const "): cls = cls[6:]
            cs = [g for g in self.p.fns.values() if g.d.get("cls") == cls and g.name == cls.rsplit("::", 1)[-1] and len(g.params) == len(a) and g.body is not None] if self.depth < self.MAXDEPTH else []
            out = []
            for s, vs in self.evargs(f, cs[0], a, st) if len(cs) == 1 else self.evs(f, a, st):
                o = Arr("%s@%s" % (cls.rsplit("::", 1)[-1], e["l"]), cls=cls)
                if len(cs) == 1: out += [(s2, Obj(o)) for s2, _ in self.inline(cs[0], vs, Obj(o), s, ctor=True)]
                else: out.append((s, Obj(o)))
            return done(out)
        if n == "make_shared_array": return done([(s, Ptr(Arr("array@%s" % e["l"], size=v if isinstance(v, Poly) else None, unit=1), ZERO)) for s, v in self.ev(f, a[0], st)])
        if n in ("memcpy", "memmove", "memset"):
            out = []
            for s, vs in self.evs(f, a, st):
                nb = vs[2]
                for i, w in ((0, "the written part"), (1, "the part read")):
                    if n == "memset" and i: continue
                    p = vs[i]
                    if isinstance(p, Ptr) and isinstance(nb, Poly):
                        es = SIZES.get(pointee(self.ptype(f, a[i])) or "", 1)
                        if all(F(c) % es == 0 for c in nb.m.values()):
                            self.span(f, e, s, p, Poly({k: int(c) // es for k, c in nb.m.items()}), w)
                out.append((s, vs[0]))
            return done(out)
        if q.startswith("std::") and n in ("copy", "fill", "fill_n", "copy_n", "transform", "reverse", "sort", "replace", "for_each", "accumulate"):
            out = []
            for s, vs in self.evs(f, a, st):
                cnt = None
                if n in ("fill_n", "copy_n"):
                    cnt = vs[1]
                    if isinstance(vs[0], Ptr): self.span(f, e, s, vs[0], cnt if isinstance(cnt, Poly) else None, "the range")
                elif len(vs) >= 2 and isinstance(vs[0], Ptr) and isinstance(vs[1], Ptr) and vs[0].o is vs[1].o:
                    cnt = vs[1].off - vs[0].off
                    self.span(f, e, s, vs[0], cnt, "the range")
                if isinstance(cnt, Poly) and n in ("copy", "copy_n", "transform") and len(vs) > 2 and isinstance(vs[2], Ptr):
                    if n == "transform" and len(vs) == 5 and isinstance(vs[3], Ptr):
                        self.span(f, e, s, vs[2], cnt, "the second range"); self.span(f, e, s, vs[3], cnt, "the destination")
                    else: self.span(f, e, s, vs[2], cnt, "the destination")
                for v in vs:
                    if isinstance(v, Ptr): self.forget(s, v.o)
                out.append((s, self.unknown("#it", ret)))
            return done(out)
        if q == "std::distance":
            out = []
            for s, vs in self.evs(f, a, st):
                out += self.arith(s, "-", vs[1], vs[0], ret)
            return done(out)
        # methods of containers, smart pointers and arrays
        if e.get("this") is not None and not e.get("rp"):
            r = self.stdmethod(f, e, st, q, n, op, a, ret, want_loc)
            if r is not None: return r
        if op == "()" and e.get("this") is not None:
            out = []; ok = True
            for s, v in self.ev(f, e["this"], st):
                if isinstance(v, FnV) and v.key in self.p.fns and self.depth < self.MAXDEPTH:
                    g = self.p.fns[v.key]
                    for s2, vs in self.evargs(f, g, a, s): out += self.inline(g, vs, None, s2, lam=v if v.lam is not None else None)
                else: ok = False
            if ok: return done(out)
        if not e.get("f") and e.get("c") is not None:
            out = []
            for s, v in self.ev(f, e["c"], st):
                if isinstance(v, FnV) and v.key in self.p.fns and self.depth < self.MAXDEPTH:
                    g = self.p.fns[v.key]
                    for s2, vs in self.evargs(f, g, a, s): out += self.inline(g, vs, None, s2)
                else:
                    for s2, vs in self.evs(f, a, s): self.havoc(f, s2, a, vs, None); out.append((s2, self.unknown("#result", ret)))
            return done(out)
        # repository functions
        ks = self.p.callee_keys(f, e)
        if e.get("rp") and len(ks) == 1 and self.depth < self.MAXDEPTH:
            g = self.p.fns[next(iter(ks))]
            if self.follow(g):
                out = []
                ths = self.ev(f, e["this"], st) if e.get("this") is not None else [(st, None)]
                for s, th in ths:
                    if isinstance(th, Ref): th = self.load(f, s, th.loc, None)
                    if isinstance(th, Ptr): th = self.load(f, s, ("e", th), base(g.d.get("cls") or ""))
                    for s2, vs in self.evargs(f, g, a, s):
                        out += self.inline(g, vs, th if isinstance(th, Obj) else None, s2)
                out2 = []
                for s, v in out:
                    out2.append((s, v if v is not None else self.unknown("#%s()" % n, ret)))
                return done(out2)
        # unknown function
        out = []
        ths = self.ev(f, e["this"], st) if e.get("this") is not None else [(st, None)]
        for s, th in ths:
            for s2, vs in self.evs(f, a, s):
                pure = (e.get("mc") == 1 or n.startswith(("get", "find", "has", "is"))) and e.get("rp")
                key = None
                if not pure and n in ("find", "count", "lower_bound", "upper_bound") and q.startswith("std::") and isinstance(th, Obj): pure = True
                if pure and isinstance(th, (Obj, type(None))):
                    key = ("call", e.get("f"), th.o.id if th else 0, sum(1 for x in s2.log if x[0] == "c" and isinstance(th, Obj) and x[1] is th.o), tuple(x if isinstance(x, (Poly, Ptr, Obj)) else ("?", id(x)) for x in vs))
                    if all(isinstance(x, (Poly, Ptr, Obj)) for x in vs) and key in s2.env:
                        out.append((s2, s2.env[key])); continue
                if not pure: self.havoc(f, s2, a, vs, e)
                v = self.unknown("%s()" % n, ret, exact=False)
                if isinstance(v, (Obj, Ptr)) and isinstance(th, Obj): v.o.input = th.o.input
                if isinstance(v, Poly) and isfloat(ret): pass
                if key is not None: s2.env[key] = v
                out.append((s2, v))
        return done(out)

    def ptype(self, f, e):
        t = f.type(e)
        while e is not None and e.get("k") == "Cast":
            e = e.get("e"); t = f.type(e) if e is not None else t
        return t

    def follow(self, g): return True

    def forget(self, st, o):
        if o.const: return
        if o.id not in st.wr: st.wr = st.wr | {o.id}
        for key in [k for k in st.mem if k[0] == o.id]: del st.mem[key]
        if st.facts: st.facts = tuple(x for x in st.facts if o not in x["objs"])

    def havoc(self, f, st, a, vs, e):
        """an unknown function may write through pointers and references"""
        for x, v in zip(a, vs):
            if isinstance(v, Ptr): self.forget(st, v.o)
            elif isinstance(v, Ref): self.store(f, st, v.loc, self.unknown("#out", None) or Poly.of(Sym("#out", exact=False)), None, e)
            elif isinstance(v, Obj) and "const" not in f.type(x)[:6] and not (x.get("k") in ("Ctor", "Tmp")):
                self.forget(st, v.o); st.size.pop(v.o.id, None)
                for key in [k for k in st.fields if k[0] == v.o.id]: del st.fields[key]
            if x is not None and x.get("k") == "Ref" and x.get("dk") in ("local", "param") and isinstance(v, Poly) and e is not None:
                wt = None
                ks = self.p.decls.get(e.get("f")) or self.p.fns.get(e.get("f"))
                i = list(a).index(x)
                if ks is not None and i < len(ks.params): wt = ks.types[ks.params[i]["t"]]
                if (wt is not None and wt.endswith("&") and not wt.startswith("const ")) :
                    self.store(f, st, ("v", self.var(st, x["id"])), self.unknown("#" + x["n"], f.type(x)), None, e)

    CONT = ("vector<", "set<", "basic_string", "deque<", "array<", "list<", "map<")

    def stdmethod(self, f, e, st, q, n, op, a, ret, want_loc):
        tt = f.type(e["this"])
        arr = any(x in tt for x in ("shared_array<", "unique_ptr<")) and ("[]" in tt or "shared_array" in tt)
        sp = "_ptr<" in tt and not arr
        if op == "->" or (op == "*" and not a) and sp or (n == "get" and not a and (arr or sp)) or (n == "data" and not a):
            out = self.ev(f, e["this"], st)
            if n == "data": out = [(s, Ptr(v.o, ZERO) if isinstance(v, Obj) else v) for s, v in out]
            if op == "*" and want_loc:
                return [(s, self.objloc(s, v) if isinstance(v, Obj) else None) for s, v in out]
            return out if not want_loc else [(s, self.objloc(s, v) if isinstance(v, Obj) else None) for s, v in out]
        if n in ("operator bool",) or e.get("conv"):
            if "_Bit_reference" in tt and not want_loc: return [(s, v if isinstance(v, Poly) else self.fresh("#bool", "bool")) for s, v in self.ev(f, e["this"], st)]
            return None
        if "vector<bool" in tt and (op == "[]" or n == "at"): ret = "bool"
        short = q.split("::")
        cont = any(x in tt for x in self.CONT)
        if op == "[]" or n == "at" or n in ("front", "back") and not a:
            if "map<" in tt.split("vector<")[0].split("set<")[0] and op == "[]":
                out = []
                for s, th in self.ev(f, e["this"], st):
                    for s2, i in self.ev(f, a[0], s):
                        if isinstance(th, Obj):
                            loc = ("f", th.o, "[%s]" % (i if isinstance(i, (Poly, Obj)) else "?"))
                            out.append((s2, loc))
                        else: out.append((s2, None))
                return out if want_loc else [(s, self.load(f, s, l, ret) if l else self.unknown("#v", ret)) for s, l in out]
            out = []
            for s, th in self.ev(f, e["this"], st):
                for s2, i in (self.ev(f, a[0], s) if a else [(s, ZERO)]):
                    if isinstance(th, Obj): b = Ptr(th.o, ZERO)
                    elif isinstance(th, Ptr): b = th
                    else: b = None
                    if b is None or not isinstance(i, Poly): out.append((s2, None)); continue
                    if n == "back":
                        ln = self.length(s2, b.o)
                        if ln is None: out.append((s2, None)); continue
                        i = ln - 1
                    for s3, i2 in (self.fit(s2, i, "unsigned long") if cont and a else [(s2, i)]):
                        p = Ptr(b.o, b.off + i2)
                        if n == "at":
                            ln = self.length(s3, b.o)
                            if ln is not None: s3 = s3.copy().add(ln - i2 - 1)
                            self.lost += 1
                            if empty(s3.cons): continue
                        else: self.access(f, e, s3, p)
                        out.append((s3, ("e", p)))
            if want_loc: return out
            return [(s, self.load(f, s, l, base(ret)) if l else self.unknown("#v", ret)) for s, l in out]
        if n in ("size", "length") and not a and cont:
            out = []
            for s, th in self.ev(f, e["this"], st):
                v = self.length(s, th.o) if isinstance(th, (Obj, Ptr)) else None
                out.append((s, v if v is not None else self.fresh("#size", ret)))
            return out
        if n == "empty" and not a and cont:
            out = []
            for s, th in self.ev(f, e["this"], st):
                v = self.length(s, th.o) if isinstance(th, Obj) else None
                if v is None: out.append((s, self.fresh("#empty", "bool"))); continue
                for s2, pos in self.fork(s, v - 1): out.append((s2, ZERO if pos else ONE))
            return out
        if n in ("begin", "cbegin", "end", "cend") and cont:
            out = []
            for s, th in self.ev(f, e["this"], st):
                if isinstance(th, Obj):
                    ln = self.length(s, th.o)
                    out.append((s, Ptr(th.o, ZERO if "begin" in n else ln) if ln is not None else None))
                else: out.append((s, None))
            return out
        if n in ("resize", "reserve", "push_back", "emplace_back", "clear", "insert", "erase", "assign", "pop_back", "emplace") and cont:
            out = []
            for s, th in self.ev(f, e["this"], st):
                for s2, vs in self.evs(f, a, s):
                    if isinstance(th, Obj):
                        o = th.o
                        s2 = s2.copy()
                        ln = self.length(s2, o)
                        if n == "resize" and isinstance(vs[0], Poly): s2.size[o.id] = vs[0]
                        elif n == "clear": s2.size[o.id] = ZERO; self.forget(s2, o); s2.fields.pop((o.id, "#from"), None)
                        elif n in ("push_back", "emplace_back") and ln is not None:
                            if vs and isinstance(vs[0], (Poly, Obj)): s2.mem[(o.id, ln)] = vs[0]
                            s2.size[o.id] = ln + 1
                        elif n == "reserve": pass
                        else:
                            self.forget(s2, o); s2.size.pop(o.id, None); o2 = o
                            s2.size[o.id] = Poly.of(Sym("#size of " + o.name, 0, 2 ** 40, exact=False))
                            if n == "assign" and len(vs) == 2 and isinstance(vs[0], Ptr): s2.fields[(o.id, "#from")] = Obj(vs[0].o)
                        s2.log = s2.log + (("c", o, n, tuple(vs), "%s:%s" % (f.file, e.get("l", 0)), f.key),)
                    out.append((s2, self.unknown("#it", ret) if base(ret) != "void" else None))
            return out if not want_loc else [(s, None) for s, _ in out]
        if op == "=" and len(a) == 1 and e.get("this") is not None:
            out = []
            for s, v in self.copyval(f, self.ev(f, a[0], st), tt):
                for s2, loc in self.lv(f, e["this"], s):
                    if loc is not None: self.store(f, s2, loc, v, None, e)
                    out.append((s2, v))
            return out if not want_loc else [(s, None) for s, _ in out]
        if n == "reset" and (arr or sp):
            out = []
            for s, v in (self.ev(f, a[0], st) if a else [(st, None)]):
                for s2, loc in self.lv(f, e["this"], s):
                    if loc is not None: self.store(f, s2, loc, v, None, e)
                    out.append((s2, None))
            return out
        return None

    # ---------- statements
    def join(self, xs):
        """leave out duplicates among (state, value) pairs that nothing but path conditions distinguishes"""
        if len(xs) <= 1: return xs
        groups = {}
        for s, v in xs:
            groups.setdefault(self.sig(s, v), []).append((s, v))
        out = []
        for g in groups.values():
            while len(g) > 1:
                merged = None
                for i in range(len(g)):
                    for j in range(i + 1, len(g)):
                        m = self.merge(g[i][0], g[j][0], len(xs) > self.MAXSTATES)
                        if m is not None: merged = (i, j, m); break
                    if merged: break
                if not merged: break
                i, j, m = merged
                v = g[i][1]
                if isinstance(v, Poly) and not v.isint() and g[j][1] != v: v = self.fresh("#real", "double")
                g = [x for n, x in enumerate(g) if n not in (i, j)] + [(m, v)]
            out += g
        if len(out) > 4 * self.MAXSTATES: raise Unsupported("too many paths")
        return out

    def collapse(self, entry, outs, mark):
        """outs are all the states some code leaves behind when started from the states entry (before it ran: mark from self.mark()).  When nothing
        but path conditions distinguishes them and no execution was lost, they cover exactly the executions of the entry states."""
        if len(outs) <= 1 and not (outs and len(outs[0].cons) > len(entry[0].cons)): return outs
        if mark != (len(self.throws), self.lost) or len(entry) != 1 or not outs: return outs
        e = entry[0]
        sg = self.sig(outs[0], None)
        if any(self.sig(o, None) != sg for o in outs[1:]): return outs
        s = outs[0]
        old = set()
        for o in outs:
            for d in (o.env, o.fields, o.mem, o.size):
                for k, v in d.items():
                    if isinstance(v, Ptr): v = v.off
                    if isinstance(v, Poly) and v.isint():
                        for x in v.syms():
                            if x.derived: old.add(x)
            for fc in o.facts: old |= {x for c in fc["cons"] for x in c.syms()} | fc["n"].syms()
        if old:
            have = {x for c in e.cons for x in c.syms()}
            for d in (e.env, e.fields, e.mem, e.size):
                for v in d.values():
                    if isinstance(v, Ptr): v = v.off
                    if isinstance(v, Poly): have |= v.syms()
            if not old <= have: return outs
        r = s.copy()
        for o in outs[1:]:
            for dn in ("env", "fields", "mem"):
                d = getattr(r, dn); o2 = getattr(o, dn)
                for k, x in list(d.items()):
                    if isinstance(x, Poly) and not x.isint() and o2.get(k) != x: d[k] = self.fresh("#real", "double")
            r.facts = tuple(x for x in r.facts if x in o.facts); r.wr = r.wr | o.wr
        r.cons = list(e.cons); r.strict = e.strict; r.choices = dict(e.choices); r.approx = e.approx
        return [r]

    def mark(self): return (len(self.throws), self.lost)

    def joins(self, sts): return [s for s, _ in self.join([(s, None) for s in sts])]

    def sig(self, s, v):
        def n(x):
            if isinstance(x, Poly) and not x.isint(): return "real"
            return x
        return (frozenset((k, n(x)) for k, x in s.env.items() if not (k[0] in ("obj", "tmp"))), frozenset((k, n(x)) for k, x in s.fields.items()),
                frozenset((k, n(x)) for k, x in s.mem.items()), frozenset(s.size.items()), s.log, n(v) if isinstance(v, (Poly, Ptr, Obj)) else None, len(s.facts))

    def merge(self, a, b, force):
        ca, cb = set(a.cons), set(b.cons)
        da, db = ca - cb, cb - ca
        approx = a.approx or b.approx
        if da or db:
            comp = False
            if len(da) == 1 and len(db) == 1:
                x, y = next(iter(da)), next(iter(db))
                if x + y == Poly.of(-1) or (x + y == ZERO and not x.isint()): comp = True
            elif not da or not db: comp = not (da and db) and (not da or not db) and force is False and False
            if not comp:
                if not force:
                    # conditions on data only
                    if all(not x.isint() for x in da | db): approx = approx or False; comp = True
                    else: return None
                else: approx = True
        s = a.copy()
        s.cons = [c for c in a.cons if c in cb]
        s.strict = a.strict & b.strict
        s.choices = {k: v for k, v in a.choices.items() if b.choices.get(k, None) is v}
        s.approx = approx
        for dn in ("env", "fields", "mem"):
            d = getattr(s, dn); o = getattr(b, dn)
            for k, x in list(d.items()):
                y = o.get(k)
                if isinstance(x, Poly) and not x.isint() and y != x: d[k] = self.fresh("#real", "double")
        s.facts = tuple(x for x in a.facts if x in b.facts)
        s.wr = a.wr | b.wr
        return s

    def block(self, f, n, sts):
        """execute statement n from the given states"""
        o = Out()
        if n is None: o.n = sts; return o
        k = n.get("k")
        if not sts: return o
        if k == "Comp":
            cur = sts
            for x in n.get("s", ()):
                if not cur: break
                r = self.block(f, x, cur)
                o.b += r.b; o.c += r.c; o.r += r.r
                cur = r.n
            self.leave(cur + o.b + o.c, [v["id"] for x in n.get("s", ()) if x is not None and x.get("k") == "Decl" for v in x.get("v", ())])
            o.n = self.joins(cur); return o
        if k == "Expr":
            for s in sts: o.n += [x for x, _ in self.ev(f, n["e"], s)]
            o.n = self.joins(o.n)
            return o
        if k == "Decl":
            cur = sts
            for v in n.get("v", ()):
                nxt = []
                for s in cur: nxt += self.decl(f, v, s)
                cur = nxt
            o.n = cur; return o
        if k == "If":
            cur = sts; mk = self.mark()
            sts = [x.copy() for x in sts]
            if n.get("i") is not None: cur = self.block(f, n["i"], cur).n
            T, E = [], []
            for s in cur:
                if n.get("cvd") is not None:
                    for s2 in self.decl(f, n["cvd"], s):
                        a, b = self.cond(f, n["c"], s2); T += a; E += b
                else:
                    a, b = self.cond(f, n["c"], s); T += a; E += b
            T = self.joins(T); E = self.joins(E)
            r = self.block(f, n.get("t"), T)
            r2 = self.block(f, n.get("e"), E) if n.get("e") is not None else None
            o.n = r.n + (r2.n if r2 else E)
            if not (r.b or r.c or r.r or r2 and (r2.b or r2.c or r2.r)): o.n = self.collapse(sts, o.n, mk)
            o.b = r.b + (r2.b if r2 else []); o.c = r.c + (r2.c if r2 else []); o.r = r.r + (r2.r if r2 else [])
            o.n = self.joins(o.n); o.c = self.joins(o.c)
            return o
        if k == "Ret":
            for s in sts:
                if n.get("e") is None: o.r.append((s, None)); continue
                rt = f.types[f.d["ret"]] if f.d.get("ret", -1) >= 0 and not f.d.get("lam") else None
                if rt and rt.endswith("&") and not rt.startswith("const "):
                    for s2, loc in self.lv(f, n["e"], s):
                        v = self.load(f, s2, loc, None) if loc else None
                        o.r.append((s2, v if isinstance(v, Obj) else (Ref(loc) if loc else None)))
                    continue
                for s2, v in self.ev(f, n["e"], s):
                    for s3, v2 in (self.convert(f, s2, v, rt, n["e"]) if rt else [(s2, v)]): o.r.append((s3, v2))
            return o
        if k in ("For", "While", "Do"): return self.loop(f, n, sts)
        if k == "RFor": return self.rloop(f, n, sts)
        if k == "Break": o.b = sts; return o
        if k == "Continue": o.c = sts; return o
        if k == "Switch": return self.switch(f, n, sts)
        if k in ("Case", "Default", "Label"): return self.block(f, n.get("s"), sts)
        if k == "Null": o.n = sts; return o
        if k == "Omp": return self.block(f, n.get("b"), sts)
        if k == "Try":
            r = self.block(f, n["b"], [s.copy() for s in sts])
            o.n = list(r.n); o.b = r.b; o.c = r.c; o.r = r.r
            for h in n.get("h", ()):
                hs = []
                for s in sts:
                    s = s.copy(); s.approx = True
                    self.forget_assigned(f, n["b"], s)
                    hs.append(s)
                r = self.block(f, h["b"], hs)
                o.n += r.n; o.b += r.b; o.c += r.c; o.r += r.r
            o.n = self.joins(o.n)
            return o
        raise Unsupported("statement " + str(k))

    def forget_assigned(self, f, body, st):
        for i in self.assigned(body):
            key = self.var(st, i)
            v = st.env.get(key)
            if isinstance(v, Poly): st.env[key] = Poly.of(Sym("#caught", None, None, isint=v.isint(), exact=False))
            elif isinstance(v, Ptr): st.env[key] = Ptr(Arr("?"), ZERO)

    def decl(self, f, v, st):
        key = self.var(st, v["id"]); t = f.types[v["t"]]
        if v.get("vsz") is not None:
            return [(self.setv(s, key, Ptr(Arr(v["n"], size=n if isinstance(n, Poly) else None, unit=1), ZERO))) for s, n in self.ev(f, v["vsz"], st)]
        if "[" in t and "]" in t and v.get("asz") is not None:
            # arrays of constant size; of the inner dimensions only the element array is tracked
            import re
            dims = [int(x) for x in re.findall(r"\[(\d+)\]", t)]
            o = Arr(v["n"], size=Poly.of(dims[0]), unit=1)
            if len(dims) > 1: o.unit = ("rows", tuple(dims[1:]))
            return [self.setv(st, key, Ptr(o, ZERO))]
        if v.get("i") is None:
            if v.get("cls"):
                o = Arr(v["n"], cls=v["cls"]); st.env[key] = Obj(o)
                if any(x in v["cls"] for x in self.CONT): st.size[o.id] = ZERO
            else: st.env[key] = self.unknown(v["n"], t)
            return [st]
        if v.get("ref"):
            out = []
            for s, loc in self.lv(f, v["i"], st):
                if loc is None: s.env[key] = self.unknown(v["n"], t)
                else:
                    x = self.load(f, s, loc, base(t), v["n"])
                    s.env[key] = x if isinstance(x, Obj) else Ref(loc)
                out.append(s)
            return out
        out = []
        for s, x in self.ev(f, v["i"], st):
            if isinstance(x, Ref) and not isptr(t): x = self.load(f, s, x.loc, t)
            for s2, y in self.convert(f, s, x, t, v["i"]):
                if y is None: y = self.unknown(v["n"], t)
                if isinstance(y, Ptr) and y.o.name.startswith(("malloc@", "new@", "array@", "calloc@")): y.o.name = v["n"]
                if isinstance(y, Obj) and "@" in y.o.name: y.o.name = v["n"]
                s2 = s2 if s2 is not s or True else s2
                s2.env[key] = y; out.append(s2)
        return out

    def leave(self, sts, ids):
        """variables going out of scope"""
        fr = self.stack[-1][1]
        for s in sts:
            for i in ids: s.env.pop((fr, i), None)

    def setv(self, s, k, v):
        s.env[k] = v; return s

    def switch(self, f, n, sts):
        o = Out()
        body = n["b"].get("s", ()) if n["b"].get("k") == "Comp" else [n["b"]]
        labels = []     # (position, const or None)
        flat = []
        for x in body:
            y = x
            while y is not None and y.get("k") in ("Case", "Default"):
                labels.append((len(flat), y["v"].get("cv") if y["k"] == "Case" else None)); y = y.get("s")
            flat.append(y)
        for s in sts:
            for s2, v in self.ev(f, n["c"], s):
                rest = [s2]
                enter = []
                for pos, c in labels:
                    if c is None: continue
                    nxt = []
                    for r in rest:
                        if isinstance(v, Poly): T, E = self.compare(f, n, "==", r, v, Poly.of(c), False)
                        else: T, E = self.free(r, None)
                        enter += [(pos, x) for x in T]; nxt += E
                    rest = nxt
                d = [pos for pos, c in labels if c is None]
                if d: enter += [(d[0], x) for x in rest]
                else: o.n += rest
                for pos, x in enter:
                    cur = [x]
                    for y in flat[pos:]:
                        if not cur: break
                        r = self.block(f, y, cur)
                        o.n += r.b; o.c += r.c; o.r += r.r; cur = r.n
                    o.n += cur
        o.n = self.joins(o.n)
        return o

    # ---------- loops
    def assigned(self, n):
        """ids of variables assigned below n"""
        out = set()
        for x in walk(n):
            k = x.get("k")
            tgt = None
            if k == "Asg": tgt = x["a"]
            elif k == "Un" and x.get("op") in ("++", "--", "p++", "p--", "&"): tgt = x["a"]
            elif k == "Call": 
                for y in (x.get("a") or ()):
                    if y is not None and y.get("k") == "Ref" and y.get("dk") in ("local", "param"): out.add(y["id"])
                if x.get("op") == "=" and x.get("this") is not None: tgt = x["this"]
                if x.get("op") in ("++", "--", "+=", "-=") and x.get("this") is not None: tgt = x["this"]
            if tgt is not None:
                while tgt is not None and tgt.get("k") in ("Cast",): tgt = tgt.get("e")
                if tgt is not None and tgt.get("k") == "Ref" and "id" in tgt: out.add(tgt["id"])
        return out

    def loop(self, f, n, sts):
        o = Out()
        cur = sts
        if n["k"] == "For" and n.get("i") is not None:
            r = self.block(f, n["i"], cur); cur = r.n
        ids = [v["id"] for v in n["i"].get("v", ())] if n["k"] == "For" and n.get("i") is not None and n["i"].get("k") == "Decl" else []
        for s in cur:
            mk = self.mark(); s0 = s.copy()
            r = self.loop1(f, n, s, 0)
            self.leave(r.n + [s0], ids)
            if not r.r: r.n = self.collapse([s0], r.n, mk)
            o.n += r.n; o.r += r.r
        o.n = self.joins(o.n)
        return o

    def body_once(self, f, n, st):
        """one iteration from the loop head: (Out with .n = states at the back edge, states leaving by the condition)"""
        o = Out(); leave = []
        if n["k"] == "Do":
            r = self.block(f, n["b"], [st])
            o.r += r.r; brk = r.b
            ends = self.joins(r.n + r.c)
            T = []
            for s in ends:
                a, b = self.cond(f, n["c"], s); T += a; leave += b
            o.n = T; o.b = brk
            return o, leave
        T = [st]
        if n.get("c") is not None:
            T, leave = self.cond(f, n["c"], st)
            if n.get("cvd") is not None: T, leave = [st], [st.copy()]
        T = self.joins(T)
        r = self.block(f, n["b"], T)
        o.r += r.r; o.b = r.b
        ends = self.joins(r.n + r.c)
        if n.get("n") is not None:
            e2 = []
            for s in ends: e2 += [x for x, _ in self.ev(f, n["n"], s)]
            ends = e2
        o.n = self.joins(ends)
        return o, leave

    def loop1(self, f, n, st, depth):
        o = Out()
        parts = [n["b"]] + [n[k] for k in ("c", "n") if n.get(k) is not None]
        ids = set()
        for x in parts: ids |= self.assigned(x)
        declared = {v["id"] for x in walk(n["b"]) if x.get("k") == "Decl" for v in x.get("v", ())}
        ids -= declared
        # also captured / aliased variables of outer frames: references
        fr = self.stack[-1][1]
        keys = []
        for i in sorted(ids):
            k = (fr, i); v = st.env.get(k)
            if isinstance(v, Ref) and v.loc[0] == "v": k = v.loc[1]; v = st.env.get(k)
            if v is not None: keys.append(k)
        # numbers in memory that the loop updates in place, such as a counter behind a pointer
        w = self.written(f, n, st)
        cells = [("mem", oid, off) for (oid, off), v in st.mem.items() if isinstance(v, Poly) and v.isint() and off.const() is not None and w is not None and any(o.id == oid for o in w)]
        seen = set(st.cons)
        # pass 1: strides
        rec, self.rec = self.rec, False
        nth = len(self.throws)
        oblog = self.on_call; self.on_call = None
        try:
            h = st.copy(); head = {}
            h.choices = {}; h.log = ()
            self.dirty(f, n, h)
            for k in keys:
                v = h.env[k]
                if isinstance(v, Poly):
                    s = Sym("#h%s" % (k[1],), None, None, isint=v.isint(), exact=True, derived=True)
                    iv = self.rangeof(f, n, k)
                    if iv: s.lo, s.hi = iv
                    h.env[k] = Poly.of(s); head[k] = s
                elif isinstance(v, Ptr):
                    s = Sym("#h%s" % (k[1],), None, None, derived=True)
                    h.env[k] = Ptr(v.o, Poly.of(s)); head[k] = s
                else: h.env[k] = None if not isinstance(v, Obj) else v
            for k in cells:
                s = Sym("#h%d" % k[1], 0 if entails(st.cons, st.mem[k[1:]]) else None, None, exact=True, derived=True)
                h.mem[k[1:]] = Poly.of(s); head[k] = s
            entry_syms = set()
            for c in st.cons: entry_syms |= c.syms()
            for v in st.env.values():
                if isinstance(v, Poly): entry_syms |= v.syms()
                elif isinstance(v, Ptr): entry_syms |= v.off.syms()
            for v in list(st.fields.values()) + list(st.mem.values()) + list(st.size.values()):
                if isinstance(v, Poly): entry_syms |= v.syms()
            for v in st.env.values():
                if isinstance(v, (Ptr, Obj)) and v.o.size is not None: entry_syms |= v.o.size.syms()
            h1 = h.copy()
            r1, _ = self.body_once(f, n, h)
            ends = [s for s in r1.n if not empty(s.cons)]
        finally:
            self.rec = rec; del self.throws[nth:]; self.on_call = oblog
        stride = {}; mono = {}; count = {}
        split = None
        for k, hs in head.items():
            ds = []
            for s in ends:
                v = s.env.get(k) if k[0] != "mem" else s.mem.get(k[1:])
                if isinstance(v, Ptr) and isinstance(st.env.get(k), Ptr) and v.o is st.env[k].o: v = v.off
                ds.append(v - Poly.of(hs) if isinstance(v, Poly) else None)
            if not ds: stride[k] = ZERO; continue
            if k[0] == "mem" and not all(d is not None and d.const() is not None and d.const() >= 0 for d in ds): continue
            ds = [self.simplify(s, d) if d is not None else None for s, d in zip(ends, ds)]
            if all(d is not None and d == ds[0] for d in ds) and ds[0].syms() <= entry_syms:
                stride[k] = ds[0]
            else:
                if all(d is not None for d in ds):
                    if len({d for d in ds}) > 1 and all(d.syms() <= entry_syms for d in ds) and split is None:
                        split = self.splitter(st, ends, ds, entry_syms)
                    up = all(entails(s.cons, d) for s, d in zip(ends, ds)); dn = all(entails(s.cons, -d) for s, d in zip(ends, ds))
                    mono[k] = (up, dn)
                    cs = {d.const() for d in ds}
                    if len(cs) == 2 and None not in cs and 0 in cs:
                        # one of two outcomes per iteration; when only data tells them apart, any number of iterations may have counted
                        cnt = [set(s.cons) for s in ends]
                        exact = not any(c[1] for c in count.values()) and all(not x.isint() for c in cnt for x in c ^ cnt[0])
                        count[k] = (next(c for c in cs if c), exact)
        if split is not None and depth < 4:
            for part in (split, -split - 1):
                s = st.copy().add(part)
                if empty(s.cons): continue
                r = self.loop1(f, n, s, depth + 1)
                o.n += r.n; o.r += r.r
            return o
        # pass 2
        kap = Sym("k%d" % n.get("l", 0), 0, 2 ** 62, derived=True)
        K = Poly.of(kap)
        h = st.copy(); h.choices = {}
        self.dirty(f, n, h)
        vary = set()
        def varies(nv, off): vary.update(x for x in nv.syms() if off is None or x not in off.syms())
        for k in keys:
            v = st.env[k]
            off = v.off if isinstance(v, Ptr) else v
            if k in stride:
                nv = off + stride[k] * K
            elif k in count:
                nv = self.counted(f, k, h, off, count[k], K); varies(nv, off)
            elif isinstance(off, Poly):
                s = Sym("#%s" % self.nameof(f, k), None, None, isint=off.isint(), exact=False, derived=True)
                iv = self.rangeof(f, n, k)
                if iv and off.isint(): s.lo, s.hi = iv
                nv = Poly.of(s); vary.add(s)
                up, dn = mono.get(k, (False, False))
                if up: h.add(nv - off)
                if dn: h.add(off - nv)
            else: nv = None
            if isinstance(v, Ptr) and nv is not None: h.env[k] = Ptr(v.o, nv)
            elif isinstance(v, Obj): h.env[k] = v if k not in (()) else v
            else: h.env[k] = nv
            # no wrap-around happened in the iterations before
            if isinstance(v, Poly) and isinstance(nv, Poly) and k in stride and off.isint():
                iv = self.rangeof(f, n, k)
                if iv:
                    lo, hi = nv.interval()
                    if lo is None or lo < iv[0]: h.add(nv - iv[0])
                    if (hi is None or hi > iv[1]) and self.wrap_add: h.add(Poly.of(iv[1]) - nv)
        for k in cells:
            off = st.mem[k[1:]]
            if k in stride: h.mem[k[1:]] = off + stride[k] * K
            elif k in count: h.mem[k[1:]] = self.counted(f, k, h, off, count[k], K); varies(h.mem[k[1:]], off)
        # a loop running until two quantities meet does not pass the meeting point
        self.meeting(f, n, h, st, kap)
        if empty(h.cons):
            h = st.copy(); kap = None
        if kap is not None: kap.exact = self.passes(f, n, h, kap, vary, h1, r1)
        if kap is not None and self.rec and not self.peeled and any(v.int and not v.exact for v in vary):
            # the first iteration by itself, where the quantities without pattern still have known values
            self.peeled = True
            nth = len(self.throws); oc = self.on_call; self.on_call = None
            try: self.body_once(f, n, st.copy())
            finally: self.peeled = False; del self.throws[nth:]; self.on_call = oc
        hc = h.copy()
        prev = st.log
        hc.log = ()
        r2, leave = self.body_once(f, n, hc)
        if self.on_iter is not None and self.rec and kap is not None: self.on_iter(f, n, h, r2.n, kap)
        for s in r2.n + leave + r2.b + [x for x, _ in r2.r]: s.log = prev + s.log
        o.r += [(s, v) for s, v in r2.r if not empty(s.cons)]
        o.n += [s for s in r2.b if not empty(s.cons)]
        facts = self.loopfacts(st, h, r2.n, kap) if kap is not None and not r2.b and n["k"] != "Do" else None
        modified = bool(r2.n)
        freev = [k for k in keys if k not in stride and not any(mono.get(k, (False, False))) and isinstance(st.env.get(k), (Poly, Ptr))
                 and not (isinstance(st.env[k], Poly) and (not st.env[k].isint() or self.isreal(f, k)))]
        if kap is not None and freev and n["k"] != "Do" and n.get("c") is not None and len(r2.n) <= 12:
            # a variable without pattern: its value after the last iteration is the one this iteration gave it
            for s in leave:
                z = self.subst(s.copy(), kap, ZERO)
                for k in freev: z.env[k] = st.env[k]
                if not empty(z.cons): o.n.append(z)
            for s in r2.n:
                if empty(s.cons): continue
                rec, self.rec = self.rec, False
                try: _, L = self.cond(f, n["c"], s.copy())
                finally: self.rec = rec
                if facts is not None:
                    for x in L: x.facts = x.facts + (dict(facts, n=K + 1),)
                o.n += [x for x in L if not empty(x.cons)]
            o.n = self.joins(o.n)
            return o
        # leaving by the condition: at once, or after an iteration in which it still held
        for s in leave:
            if kap is None or kap not in {x for c in s.cons for x in c.syms()} | {x for v in s.env.values() if isinstance(v, (Poly, Ptr)) for x in (v.syms() if isinstance(v, Poly) else v.off.syms())}:
                if n["k"] == "Do" or modified:
                    if not empty(s.cons): o.n.append(s)
                elif not empty(s.cons): o.n.append(s)
                continue
            if n["k"] == "Do":
                if not empty(s.cons): o.n.append(s)
                continue
            z = self.subst(s.copy(), kap, ZERO)
            if not empty(z.cons): o.n.append(z)
            if n.get("c") is None: continue
            # previous iteration: condition held at k-1
            pc = self.prevcond(f, n, h, kap, vary)
            for extra in pc:
                s1 = s.copy().add(K - 1)
                for c in extra: s1.add(c)
                if empty(s1.cons): continue
                s1 = self.elim(s1, kap)
                if facts is not None:
                    fc = dict(facts); 
                    kv = s1.fields.pop(("#kap", kap.id), None)
                    fc["n"] = kv if kv is not None else K
                    s1.facts = s1.facts + (fc,)
                s1.fields.pop(("#kap", kap.id), None)
                o.n.append(s1)
        return o

    def counted(self, f, k, h, off, c, K):
        q = Poly.of(Sym("count" if k[0] == "mem" else "count of %s" % self.nameof(f, k), 0, None, exact=c[1], derived=True))
        h.add(K - q)
        return off + q * c[0]

    def nameof(self, f, k):
        fr, i = k
        g = next((g for _, r, g in self.stack if r == fr), f)
        for prm in g.params:
            if prm["id"] == i: return prm["n"]
        for x in walk(g.body):
            if x.get("k") == "Decl":
                for v in x.get("v", ()):
                    if v["id"] == i: return v["n"]
        return str(i)

    def rangeof(self, f, n, k):
        t = self.vartype(k)
        return trange(t) if t else None

    def isreal(self, f, k):
        t = self.vartype(k)
        return bool(t) and isfloat(t)

    def vartype(self, k):
        fr, i = k
        g = next((g for _, r, g in self.stack if r == fr), None)
        if g is None: return None
        c = getattr(self, "_vt", None)
        if c is None: c = self._vt = {}
        if g.key not in c:
            m = {prm["id"]: g.types[prm["t"]] for prm in g.params}
            for x in walk(g.body):
                if x.get("k") in ("Decl",):
                    for v in x.get("v", ()): m[v["id"]] = g.types[v["t"]]
                elif x.get("k") == "If" and x.get("cvd") is not None: m[x["cvd"]["id"]] = g.types[x["cvd"]["t"]]
            c[g.key] = m
        return c[g.key].get(i)

    def dirty(self, f, n, st):
        """memory the loop may write is unknown at its head"""
        w = self.written(f, n, st)
        if w is None:
            const = {v.o.id for v in st.env.values() if isinstance(v, (Obj, Ptr)) and v.o.const}
            st.mem = {k: v for k, v in st.mem.items() if k[0] in const}; st.facts = tuple(x for x in st.facts if all(o.const for o in x["objs"]))
            st.fields = {k: v for k, v in st.fields.items() if isinstance(v, (Obj, Ptr))}
            st.size = {k: v for k, v in st.size.items() if k in const}
            st.wr = st.wr | {v.o.id for v in st.env.values() if isinstance(v, (Obj, Ptr))} - const
            return
        for o, how in w.items():
            self.forget(st, o)
            if how:
                old = st.size.get(o.id)
                if old is None and o.size is None: continue
                v = Poly.of(Sym("#size of " + o.name, 0, 2 ** 40, exact=False))
                st.size[o.id] = v
                if how == "grow": st.add(v - (old if old is not None else o.size))
        ids = {o.id for o in w}
        st.fields = {k: v for k, v in st.fields.items() if isinstance(v, (Obj, Ptr)) or k[0] not in ids}

    def written(self, f, n, st):
        """objects written through in the loop: how their length changes; None when that is not clear"""
        out = {}
        def put(os, how=None):
            for o in os: out[o] = "any" if "any" in (how, out.get(o)) else how or out.get(o)
        def reach(o):
            """o and everything found from it"""
            todo = [o]; seen = {o}
            while todo:
                x = todo.pop()
                for d in (st.fields, st.mem):
                    for k, v in d.items():
                        if k[0] == x.id and isinstance(v, (Obj, Ptr)) and v.o not in seen: seen.add(v.o); todo.append(v.o)
            return seen
        def root(b):
            """-> (objects, known) the expression b refers to"""
            while b is not None and b.get("k") in ("Idx", "Mem", "Un", "Call", "Cast", "Bin", "Tmp"):
                kk = b.get("k")
                if kk == "Mem" and b["b"].get("k") == "This":
                    v = st.env.get((self.stack[-1][1], "this"))
                    if not isinstance(v, Obj): return None
                    m = st.fields.get((v.o.id, b["n"]))
                    return {m.o} if isinstance(m, (Obj, Ptr)) else {v.o}
                b = b.get("a") if kk in ("Idx", "Un", "Bin") else b.get("b") if kk == "Mem" else b.get("e") if kk in ("Cast", "Tmp") else (b.get("this") if b.get("this") is not None else None)
                if isinstance(b, list): b = b[0] if b else None
            if b is None: return None
            if b.get("k") == "This":
                v = st.env.get((self.stack[-1][1], "this"))
                return reach(v.o) if isinstance(v, Obj) else None
            if b.get("k") == "Ref" and "id" in b:
                v = st.env.get((self.stack[-1][1], b["id"]))
                if isinstance(v, Ref): v = self.load(f, st, v.loc, None)
                return {v.o} if isinstance(v, (Ptr, Obj)) else set()      # or declared inside the loop
            return None
        for k2 in ("b", "c", "n"):
            if n.get(k2) is None: continue
            for x in walk(n[k2]):
                tgt = None; deep = False
                if x.get("k") == "Asg": tgt = x["a"]
                elif x.get("k") == "Un" and x.get("op") in ("++", "--", "p++", "p--"): tgt = x["a"]
                elif x.get("k") == "Call":
                    nm = (x.get("q") or "").rsplit("::", 1)[-1]
                    if x.get("op") in ("=", "+=", "-=", "++", "--") and x.get("this") is not None: tgt = x["this"]
                    elif x.get("this") is not None and not x.get("mc") and x.get("op") not in ("[]", "->", "*", "()") and nm not in ("at", "begin", "end", "get", "find", "front", "back", "size", "data"):
                        tgt = x["this"]; deep = bool(x.get("rp"))
                    for y in x.get("a", ()):
                        if y is None: continue
                        t = f.type(y)
                        if isptr(t) and not t.startswith("const ") and not (pointee(t) or "").startswith("const "):
                            r = root(y)
                            if r is None: return None
                            put(r if pointee(t) in SIZES else {z for o in r for z in reach(o)}, None if pointee(t) in SIZES else "any")
                        elif y.get("k") in ("Ref", "Mem") and trange(t) is None and not isfloat(t) and x.get("rp"):
                            ks = self.p.decls.get(x.get("f")) or self.p.fns.get(x.get("f"))
                            i = list(x["a"]).index(y)
                            wt = ks.types[ks.params[i]["t"]] if ks is not None and i < len(ks.params) else ""
                            if wt.endswith("&") and not wt.startswith("const "):
                                r = root(y)
                                if r is None: return None
                                put({z for o in r for z in reach(o)}, "any")
                if tgt is None: continue
                while tgt is not None and tgt.get("k") in ("Cast", "Tmp"): tgt = tgt.get("e")
                if tgt is None: continue
                if tgt.get("k") == "Ref" and not deep and x.get("k") != "Call": continue
                r = root(tgt)
                if r is None: return None
                how = None
                if x.get("k") == "Call":
                    if nm in ("push_back", "emplace_back"): how = "grow"
                    elif deep or nm in ("resize", "clear", "insert", "erase", "assign", "pop_back", "emplace", "swap", "operator=", "reset") or x.get("op") in ("=", "+="): how = "any"
                put({z for o in r for z in reach(o)} if deep else r, how)
        return out

    def simplify(self, st, d):
        """rewrite with equalities among the constraints so that loop-invariant differences become visible"""
        cs = set(st.cons)
        for c in st.cons:
            if -c in cs:
                for k, v in c.m.items():
                    if len(k) == 1 and abs(v) == 1 and k[0] in d.syms() and k[0].name.startswith("k"):
                        s = k[0]
                        rest = c - Poly({k: v})
                        d = d.subst(s, -rest if v == 1 else rest); break
        return d

    def splitter(self, st, ends, ds, entry_syms):
        """a condition on quantities fixed before the loop that tells end states with different strides apart"""
        for i in range(len(ends)):
            for j in range(len(ends)):
                if ds[i] == ds[j]: continue
                for c in ends[i].cons:
                    if not c.isint() or not c.syms() or not c.syms() <= entry_syms: continue
                    if entails(st.cons, c) or entails(st.cons, -c - 1): continue
                    if entails(ends[j].cons, -c - 1): return c
        for i in range(len(ends)):
            for c in ends[i].cons:
                if c.isint() and c.syms() and c.syms() <= entry_syms and not entails(st.cons, c) and not entails(st.cons, -c - 1): return c
        return None

    def subst(self, st, s, p):
        """replace symbol s by p everywhere"""
        st.cons = [c.subst(s, p) for c in st.cons]; st.strict = frozenset(c.subst(s, p) for c in st.strict)
        def r(v):
            if isinstance(v, Poly): return v.subst(s, p)
            if isinstance(v, Ptr): return Ptr(v.o, v.off.subst(s, p))
            return v
        st.env = {k: r(v) for k, v in st.env.items()}; st.fields = {k: r(v) for k, v in st.fields.items()}
        st.mem = {(k[0], k[1].subst(s, p)): r(v) for k, v in st.mem.items()}
        st.size = {k: r(v) for k, v in st.size.items()}
        return st

    def elim(self, st, kap):
        """when the constraints fix the iteration number, use its value"""
        for c in st.cons:
            v = c.m.get((kap,))
            if v in (1, -1) and not any(kap in k and len(k) > 1 for k in c.m):
                rest = c - Poly({(kap,): v})
                val = -rest if v == 1 else rest
                if kap in val.syms(): continue
                d = Poly.of(kap) - val
                if entails(st.cons, d) and entails(st.cons, -d):
                    st = self.subst(st, kap, val)
                    st.fields[("#kap", kap.id)] = val
                    st.cons = [c for c in st.cons if c.const() is None or c.const() < 0]
                    if not entails(st.cons, val): st.add(val)
                    return st
        return st

    def passes(self, f, n, h, kap, vary, h1, r1):
        """does the loop condition in one iteration imply that the iterations before were executed to their end, so that no iteration number is an artefact?"""
        if n["k"] == "Do": return False
        head = set(h1.cons)
        for s in r1.b + [x for x, _ in r1.r]:
            new = [c for c in s.cons if c not in head]
            data = any(not c.isint() or any(not x.exact for x in c.syms()) for c in new) or set(s.choices) - set(h1.choices)
            if not data and not empty(s.cons): return False     # left for a reason that is not in the data
        if n.get("c") is None: return True
        rec, self.rec = self.rec, False
        nth = len(self.throws); oc = self.on_call; self.on_call = None
        try: T, _ = self.cond(f, n["c"], h.copy().add(Poly.of(kap) - 1))
        finally: self.rec = rec; del self.throws[nth:]; self.on_call = oc
        pcs = self.prevcond(f, n, h, kap, vary)
        for s in T:
            if empty(s.cons): continue
            if not any(all(entails(s.cons, c) for c in extra if c.isint() and all(x.exact for x in c.syms())) for extra in pcs): return False
        return True

    def prevcond(self, f, n, h, kap, vary=()):
        """conjunctions under which the loop condition held one iteration earlier"""
        rec, self.rec = self.rec, False
        nth = len(self.throws)
        oc = self.on_call; self.on_call = None
        try:
            hh = self.subst(h.copy(), kap, Poly.of(kap) - 1)
            hh.choices = {}
            old = set()
            for v in vary:      # quantities without fixed stride had another value then
                s = Sym(v.name, v.lo, v.hi, v.int, exact=False, derived=True); old.add(s)
                hh = self.subst(hh, v, Poly.of(s))
            base_ = set(hh.cons)
            T, _ = self.cond(f, n["c"], hh)
            out = []
            for s in T: out.append([c for c in s.cons if c not in base_] + [c for c in base_ if kap in c.syms() and not (c.syms() & old)])
            return out or [[]]
        finally:
            self.rec = rec; del self.throws[nth:]; self.on_call = oc

    def meeting(self, f, n, h, st, kap):
        c = n.get("c")
        if c is None or n["k"] == "Do": return
        for x in walk(c):
            if x.get("k") == "Bin" and x.get("op") == "!=" or x.get("k") == "Call" and x.get("op") == "!=":
                a, b = (x["a"], x["b"]) if x["k"] == "Bin" else ((x.get("this") or x["a"][0]), x["a"][-1])
                if a.get("k") not in ("Ref", "Mem", "Int") and a.get("cv") is None or b.get("k") not in ("Ref", "Mem", "Int") and b.get("cv") is None: continue
                rec, self.rec = self.rec, False
                try:
                    va, vb = self.ev(f, a, h.copy())[0][1], self.ev(f, b, h.copy())[0][1]
                    wa, wb = self.ev(f, a, st.copy())[0][1], self.ev(f, b, st.copy())[0][1]
                finally: self.rec = rec
                def num(p, q):
                    if isinstance(p, Ptr) and isinstance(q, Ptr) and p.o is q.o: return p.off - q.off
                    if isinstance(p, Poly) and isinstance(q, Poly): return p - q
                    return None
                d = num(va, vb); d0 = num(wa, wb)
                if d is None or d0 is None: continue
                step = d.m.get((kap,), 0)
                if any(kap in k and len(k) > 1 for k in d.m): continue
                if step == 1 and entails(st.cons, -d0): h.add(-d)
                elif step == -1 and entails(st.cons, d0): h.add(d)

    def loopfacts(self, st, h, ends, kap):
        """what every completed iteration established about the elements it looked at"""
        if not ends: return None
        base_ = set(h.cons)
        elems = None; common = None
        def elemsof(s):
            return {k: next(iter(v.syms())) for k, v in s.mem.items() if k not in h.mem and isinstance(v, Poly) and len(v.m) == 1 and v.degree() == 1 and kap in k[1].syms()}
        for s in ends:
            el = elemsof(s); cs = {c for c in s.cons if c not in base_}
            elems = el if elems is None else {k: v for k, v in elems.items() if el.get(k) is v}
            common = cs if common is None else {c for c in common if c in cs or entails(s.cons, c)}
        if not elems or not common: return None
        syms = set(elems.values())
        keep = []
        known = {x for c in st.cons for x in c.syms()} | {kap} | syms | self.fixed
        for v in list(st.env.values()) + list(st.fields.values()) + list(st.size.values()) + list(st.mem.values()):
            if isinstance(v, Poly): known |= v.syms()
        for c in common:
            if c.syms() & syms and c.syms() <= known: keep.append(c)
        if not keep: return None
        objs = set()
        byid = {}
        for v in list(st.env.values()) + list(st.fields.values()) + list(ends[0].fields.values()) + list(ends[0].env.values()):
            if isinstance(v, (Ptr, Obj)): byid[v.o.id] = v.o
        for (oid, _), s in elems.items():
            if oid in byid: objs.add(byid[oid])
        return {"k": kap, "elems": elems, "cons": keep, "objs": frozenset(objs), "n": None}

    def rloop(self, f, n, sts):
        o = Out()
        for st in sts:
            for s, c in self.ev(f, n["r"], st):
                ln = self.length(s, c.o) if isinstance(c, Obj) else None
                keys = [(self.stack[-1][1], i) for i in sorted(self.assigned(n["b"]) - {v["id"] for x in walk(n["b"]) if x.get("k") == "Decl" for v in x.get("v", ())})]
                h = s.copy(); h.choices = {}
                self.dirty(f, n, h)
                for k in keys:
                    v = h.env.get(k)
                    if isinstance(v, Ref): continue
                    if isinstance(v, Poly): h.env[k] = Poly.of(Sym("#%s" % self.nameof(f, k), *(self.rangeof(f, n, k) or (None, None)), isint=v.isint(), exact=False))
                    elif isinstance(v, Ptr): h.env[k] = Ptr(v.o, Poly.of(Sym("#off", exact=False)))
                if ln is not None: h.add(ln - 1)
                t = f.types[n["v"]["t"]]
                if isinstance(c, Obj):
                    kap = Sym("k%d" % n.get("l", 0), 0, 2 ** 62, derived=True); K = Poly.of(kap)
                    if ln is not None: h.add(ln - K - 1)
                    p = Ptr(c.o, K)
                    x = self.load(f, h, ("e", p), base(t))
                else: kap = None; x = self.unknown(n["v"]["n"], t)
                h0 = h.copy()
                if kap is not None: h0.mem = {k: v for k, v in h0.mem.items() if k[0] != c.o.id}
                h.env[(self.stack[-1][1], n["v"]["id"])] = x
                if not empty(h.cons):
                    prev = h.log; h.log = ()
                    r = self.block(f, n["b"], [h])
                    ends = self.joins(r.n + r.c)
                    if self.on_iter is not None and self.rec and kap is not None: self.on_iter(f, n, h, ends, kap)
                    for s2 in ends + r.b + [y for y, _ in r.r]: s2.log = prev + s2.log
                    o.r += r.r
                    o.n += r.b
                    if ends:
                        x2 = s.copy(); self.dirty(f, n, x2)
                        for k in keys:
                            if k in x2.env and not isinstance(x2.env[k], Ref): x2.env[k] = h0.env.get(k)
                        x2.log = ends[0].log
                        if kap is not None and not r.b and ln is not None:
                            fc = self.loopfacts(s, h0, ends, kap)
                            if fc is not None:
                                fc["n"] = ln; x2.facts = x2.facts + (fc,)
                        if ln is not None: x2.add(ln - 1)
                        o.n.append(x2)
                z = s.copy()
                if ln is not None:
                    z.add(-ln)
                    if not empty(z.cons): o.n.append(z)
                else: o.n.append(z)
        o.n = self.joins(o.n)
        return o

    # ---------- entry
    limit = 2000000
    peeled = False
    fixed = frozenset()      # symbols that stand for the same value everywhere

    def run(self, f, bind, this=None, setup=None):
        """analyse f with the parameter values bind: list aligned with the parameters"""
        self.steps = 0
        fr = next(_frame)
        self.stack = [(f.key, fr, f)]; self.depth = 0; self.throws = []
        self.funcs.add(f.key)
        st = State()
        if this is not None: st.env[(fr, "this")] = this
        for prm, v in zip(f.params, bind): st.env[(fr, prm["id"])] = v if v is not None else self.unknown(prm["n"], f.types[prm["t"]])
        sts = setup(st, fr) if setup else [st]
        o = self.block(f, f.body, sts)
        return [(s, None) for s in o.n] + o.r
