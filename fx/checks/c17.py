"""C17: a request outside of a dimension is rejected."""
from fractions import Fraction as F
from ..absint import Interp, Arr, Ptr, Obj, Unsupported, trange, isfloat, base
from ..poly import Sym, Poly, ZERO, entails, empty, witness, relevant
from ..prog import walk

LEVEL = "other"
N = "MetNoFimex::"
SB = N + "SliceBuilder"
U64 = "unsigned long"


class Forall:
    """an obligation about all elements of some arrays: proved at the exits through what the loops established, violated by an iteration that completes with a
    bad element"""
    def __init__(self, it, arrays, goal, what):
        self.it = it; self.arrays = arrays; self.goal = goal; self.what = what
        self.iters = []       # verdicts of the loops over the arrays: True proved, None unknown, str counterexample
        it.on_iter = self.iteration

    def elems(self, f, st, idx): return [self.it.load(f, st, ("e", Ptr(o, idx)), U64) for o in self.arrays]

    def counter(self, st, g):
        neg = -g - 1
        rel, syms = relevant(st.cons + [neg], neg.syms())
        if neg not in rel: rel.append(neg)
        if st.approx or any(not s.exact for s in syms): return None
        w = witness(list(rel), syms, strict=st.strict)
        return None if w is None else {s.name: int(v) for s, v in w.items() if not s.name.startswith("#") and F(v).denominator == 1}

    def iteration(self, f, n, h, ends, kap):
        ids = {o.id for o in self.arrays}
        ends = [s for s in ends if not empty(s.cons)]
        idx = {k[1] for s in ends for k in s.mem if k[0] in ids and kap in k[1].syms()}
        if not idx: return     # another loop
        K = Poly.of(kap)
        if K not in idx:
            if len(idx) > 1: self.iters.append(None); return
            K = idx.pop()
        good = []; bad = []
        for s in ends:
            s = s.copy()
            g = self.goal(*self.elems(f, s, K))
            if entails(s.cons, g): good.append((s, g)); continue
            bad.append((s, self.counter(s, g)))
        if not bad: self.iters.append(True); return
        if any(w is None for _, w in bad): self.iters.append(None); return
        # an iteration that only notes the problem, to be looked at later
        def flags(s): return {k: v.const() for k, v in s.env.items() if isinstance(v, Poly) and isinstance(h.env.get(k), Poly) and v != h.env[k] and v.const() is not None}
        if any(flags(b) for b, _ in bad): self.iters.append(None); return
        self.iters.append("%s:%s: %s" % (f.file, n.get("l", f.line), bad[0][1]))

    def at_exit(self, f, st):
        """True proved, None undecided, str violated"""
        st = st.copy()
        i = Poly.of(Sym("i", 0, 2 ** 40))
        n = self.it.length(st, self.arrays[0])
        st.add(n - i - 1)
        if empty(st.cons): return True
        g = self.goal(*self.elems(f, st, i))
        if entails(st.cons, g): return True
        if any(x is None for x in self.iters): return None
        if any(x is True for x in self.iters): return self.missed(f, st)
        if self.iters: return self.iters[-1]
        if self.it.throws: return None      # rejected in a way that is not followed
        w = self.counter(st, g)
        return None if w is None else "nothing rejects %s" % w

    def missed(self, f, st):
        """an element at the ends that no loop looked at"""
        ids = {o.id for o in self.arrays}
        fcs = [x for x in st.facts if any(k[0] in ids for k in x["elems"])]
        if len(fcs) < sum(1 for x in self.iters if x is True): return None
        n = self.it.length(st, self.arrays[0])
        for i in (ZERO, n - 1):
            s = st.copy(); s.add(n - 2)
            if empty(s.cons): continue
            out = True
            for x in fcs:
                for (oid, idx), _ in x["elems"].items():
                    if oid not in ids: continue
                    d = idx - Poly.of(x["k"])
                    if x["k"] in d.syms(): out = False; break
                    kk = i - d
                    if not (entails(s.cons, -kk - 1) or entails(s.cons, kk - x["n"])): out = False
            if not out: continue
            w = self.counter(s, self.goal(*self.elems(f, s, i)))
            if w is not None: return "nothing looks at element %r: %s" % (i, w)
        return None


def members(p, cls):
    """fields behind the accessors of a slice builder"""
    out = {}
    for acc in ("getDimensionStartPositions", "getDimensionSizes", "getMaxDimensionSizes"):
        f = next((g for g in p.fns.values() if g.q == cls + "::" + acc and g.body is not None), None)
        if f is None: return None
        it = Interp(p); th = Obj(Arr("this", cls=cls, input=True))
        rs = it.run(f, [], this=th)
        names = set()
        for s, v in rs:
            for (oid, n), x in s.fields.items():
                if oid == th.o.id and x == v: names.add(n)
        if len(names) != 1: return None
        out[acc] = names.pop()
    return [out[a] for a in ("getDimensionStartPositions", "getDimensionSizes", "getMaxDimensionSizes")]


def flagfield(p, cls):
    """the field of the slice builder that says which dimensions may grow"""
    names = set()
    for f in p.fns.values():
        if f.d.get("cls") != cls or f.body is None: continue
        for x in walk(f.body):
            if x.get("k") == "Mem" and "vector<bool" in f.type(x) and (x.get("b") or {}).get("k") == "This": names.add(x["n"])
    return names.pop() if len(names) == 1 else None


def inputs(it, f):
    b = [it.unknown(x["n"], f.types[x["t"]], exact=True) for x in f.params]
    for x, v in zip(f.params, b):
        if isinstance(v, (Ptr, Obj)): v.o.input = True; v.o.const = f.types[x["t"]].startswith("const ") and not isinstance(v, Ptr)
    return b


def builder(p, res, und):
    """every method of the slice builder keeps all slices inside of their dimensions, and changes nothing when it throws"""
    mem = members(p, SB); flag = flagfield(p, SB)
    if mem is None or flag is None: und.append("the members of SliceBuilder were not recognised"); return 0, 0
    nf = no = 0
    for f in sorted((g for g in p.fns.values() if g.d.get("cls") == SB and g.body is not None), key=lambda g: (g.file, g.line)):
        if f.name.startswith("~") or f.d.get("const"): continue
        ctor = f.name == "SliceBuilder"
        it = Interp(p); it.wrap_add = True
        this = Obj(Arr("this", cls=SB, input=not ctor))
        nf += 1
        def obj(s, n):
            v = s.fields.get((this.o.id, n))
            if v is None: v = it.load(f, s, ("f", this.o, n), "std::vector<bool>" if n == flag else "std::vector<unsigned long>")
            return v if isinstance(v, Obj) else None
        def inside(g, s, line, log, loop):
            """the elements stored on the way"""
            nonlocal no
            os = [obj(s, n) for n in mem]
            if any(o is None for o in os): und.append("%s: members not followed" % g.q); return
            idx = []
            for x in log:
                if x[0] == "e" and any(x[1] is o.o for o in os) and x[2] not in idx: idx.append(x[2])
            for i in idx:
                kept = [(o.o.id, i) in s.mem for o in os]
                stored = [any(x[0] == "e" and x[1] is o.o and x[2] == i for x in log) for o in os]
                if any(st_ and not k for st_, k in zip(stored, kept)): continue      # belongs to a loop looked at by itself
                if (ctor or loop) and not all(stored): continue
                s1 = s.copy()
                a, b, m = [it.load(g, s1, ("e", Ptr(o.o, i)), U64) for o in os]
                if not all(isinstance(v, Poly) for v in (a, b, m)): und.append("%s: value not followed" % g.q); continue
                if not all(stored):       # together with what held before
                    old = Poly.of(Sym("old", 0, 2 ** 64 - 1, exact=True)); old2 = Poly.of(Sym("old2", 0, 2 ** 64 - 1, exact=True))
                    s1.add((m if not stored[2] else old) - (a if not stored[0] else old2 if not stored[2] else old2) - (b if not stored[1] else Poly.of(Sym("old3", 0, 2 ** 64 - 1, exact=True))))
                u = obj(s1, flag)
                if u is not None:
                    uv = it.load(g, s1, ("e", Ptr(u.o, i)), "bool")
                    if isinstance(uv, Poly):
                        s1.add(-uv)
                if empty(s1.cons): no += 1; continue
                no += 1
                it.require(g, {"l": line}, s1, m - a - b, "the slice stored by %s() ends inside of its dimension" % f.name)
        it.on_iter = lambda g, n, h, ends, kap: [inside(g, s, n.get("l", g.line), s.log, True) for s in ends if not empty(s.cons)]
        try: rs = it.run(f, inputs(it, f), this=this)
        except (Unsupported, RecursionError) as e: und.append("%s: %s" % (f.q, e)); continue
        for s, _ in rs:
            if not empty(s.cons): inside(f, s, last(s, f), s.log, False)
        if not ctor:
            own = set()
            for s, g, e in it.throws:
                if empty(s.cons): continue
                no += 1
                own = {this.o.id} | {v.o.id for (oid, n), v in s.fields.items() if oid == this.o.id and isinstance(v, (Obj, Ptr))}
                for x in s.log:
                    if x[1].id in own and not (x[0] == "c" and x[2] == "reserve"):
                        res.violation("%s:%s:changed before throw" % (f.file, f.q), ["%s: %s() has changed %s when it rejects the request at %s:%s" % (x[4], f.q, x[1].name, g.file, e.get("l", 0))])
                        break
        collect(it, res, und)
    return nf, no


def last(s, f):
    for x in reversed(s.log):
        if x[0] == "e": return int(x[4].rsplit(":", 1)[1])
    return f.line


def growth(p, res, und):
    """a dimension may grow only when the caller asked for that and the dimension is unlimited"""
    n = 0
    for f in sorted((g for g in p.fns.values() if g.d.get("cls") == SB and g.name == "SliceBuilder" and g.body is not None), key=lambda g: g.line):
        ask = [i for i, x in enumerate(f.params) if base(f.types[x["t"]]) in ("bool", "_Bool")]
        if len(ask) != 1: continue
        it = Interp(p, calls={"init": skip}); it.wrap_add = True
        b = inputs(it, f)
        U = Poly.of(Sym("isUnlimited()", 0, 1, exact=True)); it.fixed = frozenset(U.syms())
        it.calls["isUnlimited"] = lambda it, f, e, st: [(s, U) for s, _ in (it.ev(f, e["this"], st) if e.get("this") is not None else [(st, None)])]
        seen = []
        def flags(g, node, h, ends, kap):
            for s in ends:
                if empty(s.cons): continue
                for x in s.log:
                    if "vector<bool" not in (x[1].cls or ""): continue
                    if x[0] == "e": v = x[3]
                    elif x[0] == "c" and x[2] in ("push_back", "emplace_back"): v = x[3][0] if x[3] else None
                    else: continue
                    if not isinstance(v, Poly): und.append("%s: a flag was not followed" % f.q); continue
                    seen.append(1)
                    it.require(g, {"l": int(x[4].rsplit(":", 1)[1])}, s, U - v, "a dimension accepted to grow is unlimited")
                    it.require(g, {"l": int(x[4].rsplit(":", 1)[1])}, s, b[ask[0]] - v, "a dimension accepted to grow was requested to")
        it.on_iter = flags
        try: it.run(f, b, this=Obj(Arr("this", cls=SB)))
        except (Unsupported, RecursionError) as e: und.append("%s: %s" % (f.q, e)); continue
        if not seen: und.append("%s: the flags of unlimited dimensions were not found" % f.q)
        n += 1
        collect(it, res, und)
    return n


def collect(it, res, und):
    for (loc, what), (ok, viol, un, fq) in sorted(it.obl.items()):
        if "inside of" not in what and "accepted" not in what and " range " not in what and "destination" not in what: continue
        if viol: res.violation("%s:%s:%s" % (loc.split(":")[0], fq, what), ["%s: %s: %s does not hold, for example for %s" % (loc, fq, what, viol[0])])
        elif un: und.append("%s %s: %s (%s)" % (loc, fq, what, un[0]))


def slices(p, res, und):
    """DataImpl::slice() copies only when start + size <= original size in every dimension"""
    n = 0
    done = set()
    for f in sorted((g for g in p.fns.values() if g.name == "slice" and (g.d.get("cls") or "").startswith(N + "DataImpl") and g.body is not None and len(g.params) == 3), key=lambda g: g.key):
        it = Interp(p, calls={"recursiveCopyMultiDimData": skip}); it.wrap_add = True
        b = inputs(it, f)
        fa = Forall(it, [v.o for v in b], lambda o, s, z: o - s - z, "start + size within every dimension")
        try: rs = it.run(f, b, this=Obj(Arr("this", cls=f.d["cls"], input=True)))
        except (Unsupported, RecursionError) as e: und.append("%s: %s" % (f.q, e)); continue
        n += 1
        verdict(f, [fa.at_exit(f, s) for s, _ in rs if not empty(s.cons)], "every copied slice lies inside of the data", res, und)
    return n


def skip(it, f, e, st): return [(s, None) for s, _ in it.evs(f, e["a"], st)]


def verdict(f, vs, what, res, und):
    bad = [v for v in vs if isinstance(v, str)]
    if bad: res.violation("%s:%s:%s" % (f.file, f.q, what), ["%s:%s: %s: %s does not hold, for example %s" % (f.file, f.line, f.q, what, bad[0])])
    elif any(v is None for v in vs): und.append("%s: %s" % (f.q, what))


def datasize(it, o, sym):
    """the number of values of a data object that is an argument"""
    def h(it, f, e, st):
        if e.get("this") is None or e.get("a"): return None
        xs = it.ev(f, e["this"], st)
        if all(isinstance(v, Obj) and v.o is o for _, v in xs): return [(s, sym) for s, _ in xs]
        return None
    return h


def copies(p, res, und):
    """copies into and out of data arrays stay inside, for all positions"""
    n = 0
    L = lambda nm: Poly.of(Sym(nm, 0, 2 ** 40))
    for f in sorted((g for g in p.fns.values() if (g.d.get("cls") or "").startswith(N + "DataImpl") and g.body is not None and g.name in ("copyData",)), key=lambda g: g.key):
        if len(f.params) != 5: und.append("%s: its parameters have changed" % f.q); continue
        it = Interp(p); it.wrap_add = True
        b = inputs(it, f)
        b[2] = L("otherSize"); b[1] = Ptr(Arr("otherData", size=b[2], input=True), ZERO)
        this = Obj(Arr("this", cls=f.d["cls"], input=True)); ln = L("size()")
        def setup(st, fr):
            for nm, t in fieldtypes(p, f.d["cls"]).items():
                if "shared_array<" in t or "[]>" in t: st.fields[(this.o.id, nm)] = Ptr(Arr("theData", size=ln, input=True), ZERO)
                elif trange(t) is not None: st.fields[(this.o.id, nm)] = ln
            return [st]
        try: rs = it.run(f, b, this=this, setup=setup)
        except (Unsupported, RecursionError) as e: und.append("%s: %s" % (f.q, e)); continue
        n += 1
        for s, _ in rs:
            if empty(s.cons): continue
            it.require(f, {"l": f.line}, s, b[2] - b[3], "an accepted first position lies inside of the source")
            it.require(f, {"l": f.line}, s, ln - b[0], "an accepted first position lies inside of the target")
        if not it.obl: und.append("%s: no copy found" % f.q)
        collect(it, res, und)
    # a slice of data at a position
    for f in p.fns.values():
        if f.q != N + "createDataSlice" or f.body is None: continue
        if len(f.params) != 4: und.append("%s: its parameters have changed" % f.q); continue
        it = Interp(p); it.wrap_add = True
        b = inputs(it, f); sz = L("data.size()")
        it.calls["size"] = datasize(it, b[1].o, sz)
        try: rs = it.run(f, b)
        except (Unsupported, RecursionError) as e: und.append("%s: %s" % (f.q, e)); continue
        n += 1
        for s, _ in rs:
            if not empty(s.cons): it.require(f, {"l": f.line}, s, sz - b[2] - b[3], "an accepted part of the data lies inside of the data")
        collect(it, res, und)
    return n


def fieldtypes(p, cls):
    out = {}
    for f in p.fns.values():
        if f.d.get("cls") != cls or f.body is None: continue
        for i in f.d.get("inits", ()):
            if i.get("f") and i.get("e") is not None: out.setdefault(i["f"], f.type(i["e"]))
        for x in walk(f.body):
            if x.get("k") == "Mem" and (x.get("b") or {}).get("k") == "This" and x.get("dk") != "func": out[x["n"]] = f.type(x)
    return out


def memory(p, res, und):
    """the part of in-memory data at a position of the unlimited dimension"""
    n = 0
    for f in p.fns.values():
        if f.q != N + "CDMReader::getDataSliceFromMemory" or f.body is None or len(f.params) != 2 or trange(f.types[f.params[1]["t"]]) is None: continue
        it = Interp(p); it.wrap_add = True
        b = inputs(it, f)
        sz = Poly.of(Sym("size of the data", 0, 2 ** 40)); S = Poly.of(Sym("size of a slice", 0, 2 ** 40))
        def size(it, f, e, st):
            if e.get("this") is None or e.get("a") or "Data" not in f.type(e["this"]): return None
            return [(s, sz) for s, _ in it.ev(f, e["this"], st)]
        def prod(it, f, e, st): return [(s, S) for s, _ in it.evs(f, e["a"], st)]
        seen = []
        def cut(it, f, e, st):
            out = []
            for s, vs in it.evs(f, e["a"], st):
                if len(vs) != 4 or not all(isinstance(v, Poly) for v in vs[2:]): und.append("%s: the part cut out was not followed" % f.q)
                elif not empty(s.cons):
                    seen.append(1)
                    it.require(f, e, s, sz - b[1] * S - S, "the accepted position lies inside of the data")
                out.append((s, Obj(Arr("part"))))
            return out
        it.calls.update(size=size, product=prod, createDataSlice=cut)
        try: it.run(f, b, this=Obj(Arr("this", cls=f.d["cls"], input=True)))
        except (Unsupported, RecursionError) as e: und.append("%s: %s" % (f.q, e)); continue
        if not seen: und.append("%s: no part of the data is cut out" % f.q)
        n += 1
        collect(it, res, und)
    return n


def reduce_(p, res, und):
    """the extractor accepts only positions inside of the dimension"""
    n = 0
    Lmax = 2 ** 40
    for f in sorted((g for g in p.fns.values() if g.d.get("cls") == N + "CDMExtractor" and g.name in ("reduceDimension", "reduceDimensionStartEnd") and g.body is not None), key=lambda g: g.line):
        L = Poly.of(Sym("length of the dimension", 0, Lmax))
        it = Interp(p); it.wrap_add = True; it.fixed = frozenset(L.syms())
        def length(it, f, e, st): return [(s, s.env.get("#dim", L)) for s, _ in (it.ev(f, e["this"], st) if e.get("this") is not None else [(st, None)])]
        def setlength(it, f, e, st):
            out = []
            for s, vs in it.evs(f, e["a"], st):
                s = s.copy(); s.env["#dim"] = vs[0] if isinstance(vs[0], Poly) else it.fresh("#length", U64); out.append((s, None))
            return out
        it.calls.update(getLength=length, setLength=setlength)
        b = inputs(it, f)
        types = [f.types[x["t"]] for x in f.params]
        if len(b) == 2 and isinstance(b[1], Obj) and "set<" in types[1]:
            fa = Forall(it, [b[1].o], lambda x: L - x - 1, "")
            try: rs = it.run(f, b, this=Obj(Arr("this", cls=f.d["cls"], input=True)))
            except (Unsupported, RecursionError):
                it.follow = lambda g: g.file == f.file; it.obl.clear(); fa.iters.clear()
                try: rs = it.run(f, b, this=Obj(Arr("this", cls=f.d["cls"], input=True)))
                except (Unsupported, RecursionError) as e: und.append("%s: %s" % (f.q, e)); continue
            n += 1
            verdict(f, [fa.at_exit(f, s) for s, _ in rs if not empty(s.cons)], "every selected position lies inside of the dimension", res, und)
        elif len(b) == 3 and isinstance(b[1], Poly) and isinstance(b[2], Poly):
            def inner(it, f, e, st):
                if len(e.get("a", ())) != 2: return None
                return skip(it, f, e, st)
            it.calls["reduceDimension"] = inner
            try: rs = it.run(f, b, this=Obj(Arr("this", cls=f.d["cls"], input=True)))
            except (Unsupported, RecursionError) as e: und.append("%s: %s" % (f.q, e)); continue
            n += 1
            for s, _ in rs:
                if empty(s.cons): continue
                if f.name == "reduceDimension": it.require(f, {"l": f.line}, s, L - b[1] - b[2], "an accepted range lies inside of the dimension")
                else:
                    for s2, pos in it.fork(s, b[2] - 1):
                        if empty(s2.cons): continue
                        it.require(f, {"l": f.line}, s2, L - b[2] - 1 if pos else L - b[1] + b[2], "the accepted end lies inside of the dimension")
            collect(it, res, und)
        else: und.append("%s: its parameters have changed" % f.q)
    return n


def check(ctx, res):
    p = ctx.core
    und = []
    nf, no = builder(p, res, und)
    ns = slices(p, res, und); nc = copies(p, res, und); nr = reduce_(p, res, und); nm = memory(p, res, und); ng = growth(p, res, und)
    res.need("slice_builder_methods", nf, 1); res.count("slice_builder_obligations", no)
    res.count("slice_functions", ns); res.count("copy_functions", nc); res.count("extractor_functions", nr); res.count("memory_functions", nm); res.count("growth_constructors", ng); res.count("undecided", len(und))
    res.samples = und
    res.explanation = EXPL


EXPL = """All methods of the slice builder, the slicing and copying methods of in-memory data and the index selections of the extractor are evaluated for
arbitrary arguments by a path-sensitive relational abstract interpretation that models the wrap-around of unsigned arithmetic. At every normal exit the accepted
range, taken as unbounded integers, must lie inside of the dimension (for all dimensions, through what each completed loop iteration established), and no member
may have been changed on a path that ends in a throw. A violation comes with values that pass all checks on the path."""
