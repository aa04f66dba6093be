"""Storage-ownership analysis: which array storage a value may refer to, and through which values a function writes.

Abstract value: set of (path, atom).  path: fields below the value where the storage hangs ((): the value itself or anywhere in it).
atom: ("S", source)  storage that belongs to a data source (a reader's data or a variable of a data model)
      ("P", i, path) storage reachable from parameter i (-1: this) at function entry
Everything else (fresh allocations, values) carries no atom."""
import re
from collections import defaultdict, deque
from .cfg import CFG
from .prog import walk, children

E0 = frozenset()
ARITH = re.compile(r"^(?:const |volatile )*(?:unsigned |signed )*(?:char|short|int|long|long long|float|double|long double|bool|size_t|__int128)(?: int)?(?: const)?$")
VALT = re.compile(r"^(?:const )?std::(?:__cxx11::)?(?:basic_string<char.*>|string|vector<(?:unsigned |signed )?(?:char|short|int|long|long long|float|double|bool|std::basic_string<char>|std::__cxx11::basic_string<char>)(?:, std::allocator<.*>)?>|(?:set|map)<(?:std::basic_string<char>|int|unsigned long|long)(?:, (?:std::basic_string<char>|int|long|unsigned long|double|float))?(?:, std::less<.*>)?>)$")
DEPTH = 3
# std algorithms: positions of the ranges they write to
STDW = {"copy": [2], "copy_n": [2], "copy_if": [2], "copy_backward": [2], "move_backward": [2], "fill": [0], "fill_n": [0], "reverse": [0], "rotate": [0], "sort": [0], "stable_sort": [0],
        "partial_sort": [0], "nth_element": [0], "replace": [0], "replace_if": [0], "iota": [0], "swap_ranges": [0, 2], "generate": [0], "generate_n": [0], "unique": [0], "remove": [0], "remove_if": [0],
        "iter_swap": [0, 1], "swap": [0, 1], "partial_sum": [2], "adjacent_difference": [2], "replace_copy": [2], "replace_copy_if": [2], "reverse_copy": [2], "random_shuffle": [0], "shuffle": [0],
        "uninitialized_copy": [2], "uninitialized_fill": [0], "merge": [4], "memcpy": [0], "memmove": [0], "memset": [0]}
DEREF = re.compile(r"::(operator\[\]|operator\*|operator->|get|data|begin|end|cbegin|cend|rbegin|rend|front|back|at|find|lower_bound|upper_bound|base|operator\+|operator\+\+|operator--|operator-|operator\+=|operator-=|str|c_str|lock|value|operator typename .*)$")
ABSORB = re.compile(r"::(push_back|push_front|emplace|emplace_back|emplace_front|insert|assign|operator=|reset|swap|operator\(\)|insert_or_assign|try_emplace)$")


def isval(t):
    """a type whose values carry no storage of their own"""
    t = t.strip()
    return bool(ARITH.match(t)) or bool(VALT.match(t)) or t in ("void", "") or t.startswith("enum ")


def strip(e):
    while e is not None and e.get("k") in ("Cast", "Tmp"): e = e.get("e")
    return e


def cut(p): return p[:DEPTH]


def sel(val, fld):
    """value of .fld of an object with this value"""
    out = set()
    for path, a in val:
        if not path:
            out.add((path, (a[0], a[1], cut(a[2] + (fld,))) if a[0] == "P" else a))
        elif path[0] == fld: out.add((path[1:], a))
    return frozenset(out)


def put(val, fld): return frozenset((cut((fld,) + path), a) for path, a in val)


class Alias:
    def __init__(self, prog, source, held=(), opaque=None):
        """source(f, call) -> name of the data source a call returns storage of, or None; held: fields whose storage belongs to a data model"""
        self.p = prog; self.source = source; self.held = held
        self.opaque = opaque or (lambda f: False)
        self.ret = defaultdict(lambda: E0)
        self.outs = defaultdict(dict)       # f -> {param: value added to it}
        self.exitv = defaultdict(dict)      # f -> {reference parameter: its value at the end}
        self.writes = defaultdict(dict)     # f -> {("P", i, path): site text}
        self.fieldS = defaultdict(lambda: E0)
        self.glob = defaultdict(lambda: E0)
        self.capenv = {}                    # lambda key -> {var: value}
        self.reads = defaultdict(set)       # field / global / lambda key -> functions depending on it
        self.violations = {}
        self.wsites = {}
        self.dep = defaultdict(set)
        self.cfgs = {}
        self.callers = defaultdict(set)
        self.size = 0

    # ---- which types can carry array storage
    CORE = re.compile(r"MetNoFimex::(?:Data|DataImpl<[^<>]*(?:<[^<>]*>)?>|StringData|NativeData)(?![\w:])")
    ARR = re.compile(r"(?:^|[<, (])(?:const )?(?:unsigned |signed )?(?:char|short|int|long|long long|float|double|std::basic_string<char>)(?: const)? ?(?:\[\]|\*|\(\*\)|\[\d+\])")

    def carrier(self, t):
        c = self.__dict__.setdefault("_carr", {})
        if t not in c:
            c[t] = False          # recursion guard
            c[t] = self._carrier(t)
        return c[t]

    def _carrier(self, t):
        if isval(t): return True
        if self.CORE.search(t) or self.ARR.search(t) or t.startswith("void *") or t.startswith("const void *"): return True
        b = t.replace("const ", "").rstrip("&* ")
        if b in self.p.recs: return self.carrier_cls(b)
        return any(self.carrier_cls(x) for x in set(re.findall(r"[A-Za-z_][\w:]*", b)) | set(re.findall(r"[A-Za-z_][\w:]*<[^<>]*>", b)) if x in self.p.recs)

    def carrier_cls(self, cls):
        c = self.__dict__.setdefault("_ccls", {})
        if cls not in c:
            c[cls] = False
            r = self.p.recs[cls]
            if self.opaque(r): return False
            c[cls] = any(not isval(r["_types"][x["t"]]) and self.carrier(r["_types"][x["t"]]) for x in r.get("fields", ())) or any(b in self.p.recs and b != cls and self.carrier_cls(b) for b in r.get("allbases", ()))
        return c[cls]

    def run(self, only=None):
        cg = self.p.callgraph()
        for k, s in cg.items():
            for o in s: self.callers[o].add(k)
        fns = [f for f in self.p.fns.values() if f.body is not None and (only is None or f.key in only)]
        # bottom-up-ish order: callees first
        order, seen = [], set()
        for f in fns:
            st = [(f.key, iter(sorted(cg.get(f.key, ()))))] if f.key not in seen else []
            seen.add(f.key)
            while st:
                k, it = st[-1]
                for o in it:
                    if o not in seen:
                        seen.add(o); st.append((o, iter(sorted(cg.get(o, ()))))); break
                else:
                    order.append(k); st.pop()
        self.work = deque(k for k in order if k in self.p.fns and self.p.fns[k].body is not None and (only is None or k in only))
        self.inq = set(self.work)
        n = 0
        self.final = False
        while self.work:
            k = self.work.popleft(); self.inq.discard(k)
            n += 1
            if n > 60000: raise RuntimeError("alias analysis does not converge")
            self.analyse(self.p.fns[k])
        self.final = True
        for f in fns: self.analyse(f)
        self.rounds = n
        return self

    def push(self, k):
        if not getattr(self, "final", False) and k not in self.inq and k in self.p.fns and self.p.fns[k].body is not None:
            self.inq.add(k); self.work.append(k)

    def changed(self, f):
        for c in self.callers[f.key]: self.push(c)
        if f.d.get("host"): self.push(f.d["host"])

    # ---- one function
    def cfg(self, f):
        if f.key not in self.cfgs:
            self.cfgs[f.key] = CFG(f.body, lambda x: False, f.d.get("inits", ()))
        return self.cfgs[f.key]

    def analyse(self, f):
        g = self.cfg(f)
        env0 = {}
        self.cap = set()
        for i, prm in enumerate(f.params):
            t = f.types[prm["t"]]
            if isval(t) or not self.carrier(t): continue
            env0[prm["id"]] = self.copyval(t, frozenset([((), ("P", i, ()))]))
        if f.d.get("lam") is not None:
            ce = self.capenv.get(f.key, {})
            for v, val in ce.items(): env0.setdefault(v, val)
        self.trys = any(n.kind == "dispatch" for n in g.nodes)
        inenv = {g.entry.id: env0}
        work = deque([g.entry]); inw = {g.entry.id}
        steps = 0
        allenv = {}
        while work:
            n = work.popleft(); inw.discard(n.id)
            steps += 1
            env = dict(inenv[n.id])
            self.node(f, n, env)
            for v, val in env.items():
                if allenv.get(v, E0) != val: allenv[v] = allenv.get(v, E0) | val
            emp = {t: self.empties(f, n.x, t) for t in (True, False)} if n.kind == "branch" else {}
            for lab, m in n.succ + ([(None, n.exc)] if n.exc else []):
                old = inenv.get(m.id)
                drop = emp.get(lab, ()) if isinstance(lab, bool) else ()
                if old is None:
                    inenv[m.id] = dict(env); new = True
                    for v in drop: inenv[m.id][v] = E0
                else:
                    new = False
                    for v, val in env.items():
                        if v in drop: continue
                        o = old.get(v, E0)
                        if not val <= o: old[v] = o | val; new = True
                if new and m.id not in inw: inw.add(m.id); work.append(m)
        if g.exit.id in inenv: self.finish(f, inenv[g.exit.id])
        # handlers: without exception edges the state at a catch is the union of everything
        for n in g.nodes:
            if n.kind == "dispatch" and n.id not in inenv:
                inenv[n.id] = dict(allenv); work.append(n); inw.add(n.id)
        while work:
            n = work.popleft(); inw.discard(n.id)
            env = dict(inenv[n.id])
            self.node(f, n, env)
            for _, m in n.succ:
                old = inenv.get(m.id)
                if old is None: inenv[m.id] = dict(env); new = True
                else:
                    new = False
                    for v, val in env.items():
                        o = old.get(v, E0)
                        if not val <= o: old[v] = o | val; new = True
                if new and m.id not in inw: inw.add(m.id); work.append(m)
        if g.exit.id in inenv: self.finish(f, inenv[g.exit.id])

    SIZE = re.compile(r"MetNoFimex::(Data|DataImpl<.*>|StringData|NativeData)::size$")

    def inits(self, f):
        """locals that are given a value once, where they are declared"""
        r = self.__dict__.setdefault("_inits", {})
        if f.key not in r:
            d, n = {}, defaultdict(int)
            for x in walk(f.body):
                if x.get("i") is not None and "id" in x and not x.get("ref"): d[x["id"]] = x["i"]
                t = None
                if x.get("k") == "Asg": t = strip(x["a"])
                elif x.get("k") == "Un" and ("++" in x["op"] or "--" in x["op"] or x["op"] == "&"): t = strip(x["a"])
                elif x.get("k") == "Call" and x.get("op") in ("=", "+=", "-=", "++", "--"): t = strip(x.get("this"))
                if t is not None and t.get("k") == "Ref" and "id" in t: n[t["id"]] += 1
            r[f.key] = {i: e for i, e in d.items() if not n[i]}
        return r[f.key]

    def empties(self, f, c, truth, sub=None, depth=0):
        """variables that hold no elements (or nothing at all) when the condition c has this truth value"""
        c = strip(c)
        if c is None or depth > 6: return set()
        k = c.get("k")
        rec = lambda x, t: self.empties(f, x, t, sub, depth + 1)
        if k == "Un" and c.get("op") == "!": return rec(c["a"], not truth)
        if k == "Bin" and c["op"] in ("&&", "||"):
            p, q = rec(c["a"], truth), rec(c["b"], truth)
            return p | q if (c["op"] == "&&") == truth else p & q
        if k == "Bin" and c["op"] in ("==", "!=", "<", "<=", ">", ">="):
            a, b, op = strip(c["a"]), strip(c["b"]), c["op"]
            if a is None or b is None: return set()
            if "cv" in a: a, b = b, a; op = {"<": ">", ">": "<", "<=": ">=", ">=": "<="}.get(op, op)
            if "cv" not in b: return set()
            if (op, b["cv"]) in (("==", 0), ("<", 1), ("<=", 0)): return self.sized(f, a, sub) if truth else set()
            if (op, b["cv"]) in (("!=", 0), (">", 0), (">=", 1)): return self.sized(f, a, sub) if not truth else set()
            return set()
        if k == "Ref" and "id" in c:
            i = self.inits(f).get(c["id"]) if sub is None else None
            if i is not None and not self.carrier_ptr(f.type(c)):
                r = rec(i, truth)
                if r: return r
                return self.sized(f, i, sub) if not truth else set()
            if not truth and self.carrier_ptr(f.type(c)):
                v = self.subst(c, sub)
                return {v} if v is not None else set()
            return set()
        if k == "Call":
            if not truth:
                r = self.sized(f, c, sub)
                if r: return r
                if "operator bool" in (c.get("q") or ""):
                    t = strip(c.get("this")); v = self.subst(t, sub) if t is not None else None
                    if v is not None: return {v}
            g = self.p.fns.get(c.get("f")) if not c.get("v") else None
            if g is not None and g.body is not None and sub is None:
                rets = [x for x in walk(g.body) if x.get("k") == "Ret"]
                st = g.body.get("s") or []
                if len(rets) == 1 and len(st) == 1 and rets[0].get("e") is not None:
                    m = {}
                    for prm, a in zip(g.params, c.get("a", ())):
                        a = strip(a)
                        while a is not None and a.get("k") == "Ctor" and len(a.get("a") or ()) == 1: a = strip(a["a"][0])
                        if a is not None and a.get("k") == "Call" and a.get("op") in ("*", "->"): a = strip(a.get("this"))
                        if a is not None and a.get("k") == "Ref" and "id" in a and not a.get("g"): m[prm["id"]] = a["id"]
                    return self.empties(g, rets[0]["e"], truth, m, depth + 1)
        return set()

    @staticmethod
    def carrier_ptr(t): return "shared_ptr" in t or "*" in t

    def subst(self, t, sub):
        if t is None or t.get("k") != "Ref" or "id" not in t or t.get("g"): return None
        return t["id"] if sub is None else sub.get(t["id"])

    def sized(self, f, x, sub):
        """x is the number of elements of which variables"""
        x = strip(x)
        if x is not None and x.get("k") == "Ref" and sub is None and "id" in x: x = strip(self.inits(f).get(x["id"]))
        if x is None or x.get("k") != "Call" or not self.SIZE.search(x.get("q") or ""): return set()
        t = strip(x.get("this"))
        if t is not None and t.get("k") == "Call" and t.get("op") in ("->", "*"): t = strip(t.get("this") if t.get("this") is not None else (t.get("a") or [None])[0])
        elif t is not None and t.get("k") == "Un" and t.get("op") == "*": t = strip(t["a"])
        v = self.subst(t, sub)
        return {v} if v is not None else set()

    def copyval(self, t, v, depth=0): return v
    def elem(self, v): return v

    def finish(self, f, env):
        """values of reference parameters when the function ends"""
        rf = self.refs(f)
        for i, prm in enumerate(f.params):
            if prm["id"] not in rf or prm["id"] not in env or f.types[prm["t"]].startswith("const "): continue
            val = env[prm["id"]]
            old = self.exitv[f.key].get(i)
            if old is None or not val <= old:
                self.exitv[f.key][i] = (old or E0) | val; self.changed(f)

    def node(self, f, n, env):
        k, x = n.kind, n.x
        if k == "decl": self.decl(f, x, env)
        elif k in ("eval", "branch"): self.ev(f, x, env)
        elif k == "switch": self.ev(f, x["c"], env)
        elif k == "rdecl":
            v = x["v"]
            val = self.elem(self.ev(f, x["r"], env))
            env[v["id"]] = val if v.get("ref") else self.copyval(f.type(v), val) if not isval(f.type(v)) else E0
        elif k == "ret":
            if x.get("e") is not None:
                val = self.ev(f, x["e"], env)
                rt = f.ret if not f.d.get("lam") else "?"
                if not isval(rt) and not val <= self.ret[f.key]:
                    self.ret[f.key] |= val; self.changed(f)
        elif k == "init":
            val = self.ev(f, x["e"], env)
            if x.get("f"):
                if not isval(f.types[x["t"]] if isinstance(x.get("t"), int) else ""): self.out(f, -1, put(val, x["f"]), x.get("q"), val)
            else: self.out(f, -1, val, None, E0)     # base class / delegated constructor

    def decl(self, f, v, env):
        i = v.get("i")
        val = self.ev(f, i, env) if i is not None else E0
        if not v.get("ref") and isval(f.type(v)): val = E0
        if v.get("static"):
            key = v.get("g") or "static:%s:%s" % (f.key, v["n"])
            self.gstore(f, key, val); env[v["id"]] = self.glob[key]
        else:
            env[v["id"]] = val
            if i is not None and not v.get("ref") and not re.search(r"shared_ptr<|shared_array<|\*", f.type(v)) and self.carrier(f.type(v)) and not isval(f.type(v)):
                self.holds_copy(f, {"k": "Ref", "id": v["id"]}, i, env)

    def gstore(self, f, key, val):
        val = frozenset((p, a) for p, a in val if a[0] == "S")
        if not val <= self.glob[key]:
            self.glob[key] |= val
            for k in self.reads["g:" + key]: self.push(k)

    def out(self, f, i, val, q, raw):
        """val is added to the object parameter i refers to"""
        if i >= 0 or val:
            old = self.outs[f.key].get(i, E0)
            val = frozenset(x for x in val if not (x[1][0] == "P" and x[1][1] == i and not x[0]))
            if not val <= old: self.outs[f.key][i] = old | val; self.changed(f)
        if q: self.fstore(q, raw)

    def fstore(self, q, val):
        s = frozenset((p, a) for p, a in val if a[0] == "S")
        if not s <= self.fieldS[q]:
            self.fieldS[q] |= s
            for k in self.reads["f:" + q]: self.push(k)

    # ---- writes
    def write(self, f, node, val, how, chain=()):
        for path, a in val:
            if a[0] == "S":
                if self.final:
                    key = "%s:%s" % (f.file, f.q.replace("MetNoFimex::", ""))
                    self.violations.setdefault((key, re.sub(r"<[^<>]*(<[^<>]*>)?[^<>]*>", "", how.split(",")[0].split(" at ")[0]), a[1]), (f, node, how, a[1]))
            elif a[0] == "P":
                key = a
                if key not in self.writes[f.key]:
                    self.writes[f.key][key] = "%s at %s" % (how.split(" via ")[0] if len(how) > 150 else how, f.loc(node)); self.changed(f)
        if self.final and val: self.wsites[(f.key, id(node))] = f

    def assign(self, f, node, lhs, val, env, compound=False):
        e = strip(lhs)
        if e is None: return
        k = e.get("k"); t = f.type(e)
        if k == "Ref":
            vid = e.get("id")
            if e.get("g"):
                self.gstore(f, e["g"], val)
                return
            if vid is None: return
            if vid in self.refs(f):
                if isval(t): self.write(f, node, env.get(vid, E0), "assignment through the reference '%s'" % e["n"])
                else:
                    env[vid] = val
                    tgt = self.reftarget(f).get(vid)
                    if tgt is not None: self.absorb(f, tgt, val, env)
                return
            if compound: return
            if not isval(t):
                env[vid] = val
                for hk in [h for h, ids in env.items() if isinstance(h, tuple) and vid in ids]: env[hk] = env[hk] - {vid}
            return
        if k == "Cond":
            self.assign(f, node, e["a"], val, env, True); self.assign(f, node, e["b"], val, env, True); return
        if isval(t) and (k in ("Idx", "Un") or (k == "Call" and k)):
            self.write(f, node, self.ev(f, e, env), "assignment to an element of '%s'" % name(e))
            return
        if k == "Mem":
            if isval(t):
                return
            self.absorb(f, e["b"], put(val, e["n"]), env, e.get("q"), val)
            return
        # element of a container of storage objects
        self.absorb(f, e, val, env)

    def refs(self, f):
        r = self.__dict__.setdefault("_refs", {})
        if f.key not in r:
            s = {p["id"] for p in f.params if "&" in f.types[p.get("ot", p["t"])] or "&" in f.types[p["t"]]}
            for x in walk(f.body):
                if x.get("ref") and "id" in x: s.add(x["id"])
            if f.d.get("lam") is not None:
                s |= {c["id"] for c in f.d["lam"].get("caps", ()) if c.get("k") == "ref" and "id" in c}
            r[f.key] = s
        return r[f.key]

    def reftarget(self, f):
        r = self.__dict__.setdefault("_reft", {})
        if f.key not in r:
            r[f.key] = {x["id"]: x["i"] for x in walk(f.body) if x.get("ref") and "id" in x and x.get("i") is not None}
        return r[f.key]

    def pidx(self, f, vid):
        for i, p in enumerate(f.params):
            if p["id"] == vid: return i
        return None

    def absorb(self, f, e, val, env, q=None, raw=E0):
        """val becomes reachable from the object e"""
        if not val: return
        e = strip(e)
        if e is None: return
        k = e.get("k")
        if q and (f.file, q): 
            # field store: remembered for the class when the object is this (or hangs off this)
            if self.rooted(e): self.fstore(q, raw)
        if k == "This":
            self.out(f, -1, val, None, E0); return
        if k == "Ref":
            vid = e.get("id")
            if e.get("g"): self.gstore(f, e["g"], val); return
            if vid is None: return
            env[vid] = env.get(vid, E0) | val
            if vid in self.refs(f) or "*" in f.type(e) or "shared_ptr" in f.type(e):
                i = self.pidx(f, vid)
                if i is not None: self.out(f, i, val, None, E0)
            return
        if k == "Mem":
            if self.rooted(e): self.fstore(e.get("q") or "", val)
            self.absorb(f, e.get("b"), put(val, e["n"]), env); return
        if k == "Call":
            if e.get("this") is not None and DEREF.search(e.get("q") or ""): self.absorb(f, e["this"], val, env)
            return
        if k in ("Un", "Idx"): self.absorb(f, e.get("a"), val, env); return

    def retain(self, f, target, src, env):
        """the variable src has been stored below this: from here on it is storage the object keeps"""
        t = strip(target)
        if not self.rooted(t) or t.get("k") == "This": return
        x = strip(src)
        while x is not None and x.get("k") == "Call" and (x.get("q") or "").startswith(("std::move", "std::forward")): x = strip(x["a"][0])
        if x is not None and x.get("k") in ("Ctor", "Init") and not x.get("rp"):
            for y in (x.get("a") or []): self.retain(f, target, y, env)
            return
        if x is None or x.get("k") != "Ref" or x.get("g") or "id" not in x: return
        ty = f.type(x)
        atom = ((), ("R", name(t)))
        for hk, ids in list(env.items()):
            if isinstance(hk, tuple) and hk[1] == x["id"]:
                for i in ids:
                    for v in self.copies(f, i): env[v] = env.get(v, E0) | {atom}
        if not (re.search(r"shared_ptr<|shared_array<", ty) and self.carrier(ty)): return
        for v in self.copies(f, x["id"]): env[v] = env.get(v, E0) | {atom}

    # ---- local objects whose fields hold (share) the storage of other local variables: env[("H", object, field)] = variables
    def shared_vars(self, f, x):
        x = strip(x)
        while x is not None and x.get("k") == "Call" and (x.get("q") or "").startswith(("std::move", "std::forward")): x = strip(x["a"][0])
        if x is None: return E0
        if x.get("k") == "Ref" and "id" in x and not x.get("g"):
            ty = f.type(x)
            return frozenset([x["id"]]) if re.search(r"shared_ptr<|shared_array<", ty) and self.carrier(ty) else E0
        if x.get("k") == "Init" or (x.get("k") == "Ctor" and not x.get("rp")):
            out = E0
            for y in x.get("a") or children(x): out |= self.shared_vars(f, y)
            return out
        if x.get("k") == "Ctor":
            keep = {a[1] for _, a in self.outs[x["f"]].get(-1, E0) if a[0] == "P" and not a[2]}
            out = E0
            for i, y in enumerate(x.get("a") or ()):
                if i in keep: out |= self.shared_vars(f, y)
            return out
        return E0

    def holds(self, f, target, src, env):
        """target.field = src for a local object"""
        t = strip(target)
        if t is not None and t.get("k") == "Ref" and not re.search(r"shared_ptr<|shared_array<|\*", f.type(t)): self.holds_copy(f, t, src, env)
        if t is None or t.get("k") != "Mem": return
        b = strip(t.get("b"))
        if b is None or b.get("k") != "Ref" or "id" not in b or b.get("g"): return
        env[("H", b["id"], t["n"])] = self.shared_vars(f, src)

    def holds_copy(self, f, target, src, env):
        t, x = strip(target), strip(src)
        if t is None or t.get("k") != "Ref" or "id" not in t or t.get("g"): return
        for hk in [k for k in env if isinstance(k, tuple) and k[1] == t["id"]]: env[hk] = E0
        if x is not None and x.get("k") == "Ref" and "id" in x:
            for hk in [k for k in env if isinstance(k, tuple) and k[1] == x["id"]]: env[("H", t["id"], hk[2])] = env[hk]
        else: env[("H", t["id"], "")] = self.shared_vars(f, src)

    def copies(self, f, vid):
        """variables of f that may name the same object as variable vid"""
        r = self.__dict__.setdefault("_copies", {})
        if f.key not in r:
            g = defaultdict(set)
            def src(x):
                x = strip(x)
                if x is not None and x.get("k") == "Ctor" and len(x.get("a") or ()) == 1 and "shared_ptr" in x.get("cls", ""): return src(x["a"][0])
                return x["id"] if x is not None and x.get("k") == "Ref" and "id" in x else None
            for x in walk(f.body):
                if x.get("i") is not None and "id" in x and src(x["i"]) is not None: g[x["id"]].add(src(x["i"])); g[src(x["i"])].add(x["id"])
                l, rr = None, None
                if x.get("k") == "Asg": l, rr = src(x["a"]), src(x["b"])
                elif x.get("k") == "Call" and x.get("op") == "=" and x.get("this") is not None and x.get("a"): l, rr = src(x["this"]), src(x["a"][0])
                if l is not None and rr is not None: g[l].add(rr); g[rr].add(l)
            r[f.key] = g
        seen, st = {vid}, [vid]
        while st:
            for o in r[f.key].get(st.pop(), ()):
                if o not in seen: seen.add(o); st.append(o)
        return seen

    def rooted(self, e):
        e = strip(e)
        while e is not None:
            k = e.get("k")
            if k == "This": return True
            if k == "Mem": e = strip(e.get("b"))
            elif k == "Call" and e.get("this") is not None and DEREF.search(e.get("q") or ""): e = strip(e["this"])
            elif k in ("Un", "Idx"): e = strip(e.get("a"))
            else: return False
        return False

    # ---- expressions
    def ev(self, f, e, env):
        if e is None: return E0
        k = e.get("k")
        m = getattr(self, "e_" + k, None) if k else None
        if m:
            v = m(f, e, env)
            return v if v and (k in ("Lambda", "This") or self.carrier(f.type(e))) else E0
        out = E0
        for c in children(e): self.ev(f, c, env)
        return out

    def e_Ref(self, f, e, env):
        if e.get("g"):
            self.reads["g:" + e["g"]].add(f.key)
            return self.glob[e["g"]]
        return env.get(e.get("id"), E0)

    def e_This(self, f, e, env):
        if f.d.get("lam") is not None: return env.get("this", frozenset([((), ("P", -1, ()))]))
        return frozenset([((), ("P", -1, ()))])

    def e_Mem(self, f, e, env):
        b = self.ev(f, e.get("b"), env)
        if e.get("dk") == "func": return b
        q = e.get("q") or ""
        if q in self.held: return frozenset([((), ("S", self.held[q]))])
        if e.get("g"): return self.glob[e["g"]]
        self.reads["f:" + q].add(f.key)
        return sel(b, e["n"]) | self.fieldS[q]

    def e_Cast(self, f, e, env):
        return self.ev(f, e.get("e"), env)
    e_Tmp = e_Cast

    def e_Idx(self, f, e, env):
        v = self.ev(f, e["a"], env); self.ev(f, e.get("b"), env)
        return v

    def e_Un(self, f, e, env):
        v = self.ev(f, e["a"], env)
        if e["op"] in ("++", "--", "p++", "p--", "++p", "--p") or "++" in e["op"] or "--" in e["op"]:
            if isval(f.type(e["a"])): self.assign(f, e, e["a"], E0, env, True)
            return v
        if e["op"] in ("*", "&"): return v
        return E0

    def e_Bin(self, f, e, env):
        a = self.ev(f, e["a"], env); b = self.ev(f, e["b"], env)
        if e["op"] in ("+", "-") and "*" in f.type(e): return a | b
        if e["op"] == ",": return b
        return E0

    def e_Asg(self, f, e, env):
        v = self.ev(f, e["b"], env)
        a = strip(e["a"])
        if e["op"] == "=": self.assign(f, e, a, v, env); self.retain(f, a, e["b"], env); self.holds(f, a, e["b"], env)
        else:
            if isval(f.type(a)): self.assign(f, e, a, E0, env, True)
        return self.ev(f, a, env)

    def e_Cond(self, f, e, env):
        self.ev(f, e["c"], env)
        return self.ev(f, e["a"], env) | self.ev(f, e["b"], env)

    def e_New(self, f, e, env):
        if e.get("arr"):
            for c in children(e): self.ev(f, c, env)
            return E0
        return self.ev(f, e.get("e"), env)

    def e_Init(self, f, e, env):
        out = E0
        for c in children(e): out |= self.ev(f, c, env)
        return out

    def e_Lambda(self, f, e, env):
        ce = self.capenv.setdefault(e["f"], {})
        new = False; out = set()
        ids = {c.get("id"): c for c in e.get("caps", ())}
        for i, c in ids.items():
            if c.get("k") == "this": val = self.e_This(f, e, env); i = "this"
            else: val = self.ev(f, c["e"], env) if c.get("e") is not None else env.get(i, E0)
            if not val <= ce.get(i, E0): ce[i] = ce.get(i, E0) | val; new = True
        if new: self.push(e["f"])
        return E0

    def lambda_effects(self, f, key, env, node):
        """writes of a lambda through captured variables count for the host (captured values are the host's atoms)"""
        for a, s in list(self.writes[key].items()):
            if a[1] == -1 or a[1] < len(self.p.fns[key].params): continue

    # ---- calls
    def sub(self, val, args):
        out = set()
        for path, a in val:
            if a[0] != "P": out.add((path, a)); continue
            src = args.get(a[1], E0)
            for fld in a[2]: src = sel(src, fld)
            for p2, a2 in src: out.add((cut(path + p2), a2))
        return frozenset(out)

    def apply(self, f, e, key, args, argx, env, tgts=(1,)):
        """effects of calling repo function key; returns the result value"""
        g = self.p.fns[key]
        for a, site in list(self.writes[key].items()):
            src = args.get(a[1], E0)
            for fld in a[2]: src = sel(src, fld)
            if src: self.write(f, e, src, "%s, which writes to it: %s" % (g.q.replace("MetNoFimex::", "") + "()", site))
        for i, val in list(self.exitv[key].items()):
            x = strip(argx.get(i))
            if x is None: continue
            v = self.sub(val, args)
            if x.get("k") == "Ref" and "id" in x and not x.get("g"):
                if len(tgts) == 1: env[x["id"]] = v
                else: env[x["id"]] = env.get(x["id"], E0) | v
            elif not v <= args.get(i, E0): self.absorb(f, x, v, env)
        for i, val in list(self.outs[key].items()):
            if i == -1:
                for _, a in val:
                    if a[0] == "P" and a[1] >= 0 and not a[2] and argx.get(a[1]) is not None: self.retain(f, argx.get(-1) if argx.get(-1) is not None else {"k": "Mem", "n": "this", "b": {"k": "This"}}, argx[a[1]], env)
            v = self.sub(val, args)
            if not v: continue
            x = argx.get(i)
            if x is not None: self.absorb(f, x, v, env)
            elif i == -1 and not e.get("k") == "Ctor": self.absorb(f, {"k": "This"}, v, env)
        return self.sub(self.ret[key], args)

    def e_Ctor(self, f, e, env):
        av = [self.ev(f, a, env) for a in e.get("a", ())]
        cls = e.get("cls", "")
        if isval(cls): return E0
        key = e["f"]
        if key in self.p.fns and self.p.fns[key].body is not None:
            args = {i: v for i, v in enumerate(av)}; argx = {i: a for i, a in enumerate(e["a"])}
            args[-1] = E0
            g = self.p.fns[key]
            for a, site in list(self.writes[key].items()):
                if a[1] < 0: continue
                src = args.get(a[1], E0)
                for fld in a[2]: src = sel(src, fld)
                if src: self.write(f, e, src, "the constructor of %s, which writes to it: %s" % (cls.replace("MetNoFimex::", ""), site))
            for i, val in list(self.outs[key].items()):
                if i >= 0 and i in argx:
                    v = self.sub(val, args)
                    if v: self.absorb(f, argx[i], v, env)
            return self.sub(self.outs[key].get(-1, E0), args)
        self.ext_functor(f, e, av, env)
        out = E0
        for a, v in zip(e.get("a", ()), av):
            if not isval(f.type(a)) : out |= v
        # containers copied from a range of plain values
        return out

    def functors(self, f, x):
        return self.p.functor_args(f, {"a": [x]})

    def ext_functor(self, f, e, av, env):
        """a functor handed to external code is called with elements of the other arguments"""
        rng = E0
        for a, v in zip(e.get("a", ()), av):
            if a is not None and not self.functors(f, a): rng |= v
        for a, v in zip(e.get("a", ()), av):
            if a is None: continue
            for key in self.functors(f, a):
                g = self.p.fns[key]
                args = {i: rng for i in range(len(g.params)) if not isval(g.types[g.params[i]["t"]])}
                args[-1] = v
                self.apply(f, e, key, args, {}, env)

    @staticmethod
    def plain(t):
        """an iterator, pointer or reference to plain values (numbers, strings)"""
        return isval(t) or not re.search(r"MetNoFimex::(?!shared_array)\w*(?:CDM|Variable|Attribute|Dimension|Coordinate)", t)

    MS = re.compile(r"^(?:std|boost)::(?:make_shared|make_unique|allocate_shared)")

    def e_Call(self, f, e, env):
        th = self.ev(f, e["this"], env) if e.get("this") is not None else E0
        av = [self.ev(f, a, env) for a in e.get("a", ())]
        if e.get("c") is not None: self.ev(f, e["c"], env)
        q = e.get("q") or ""
        key = e.get("f")
        src = self.source(f, e)
        targets = set()
        if key:
            if e.get("v"): targets = {x for x in self.p.transitive_overriders(key) if x in self.p.fns}
            elif key in self.p.fns: targets = {key}
        else:
            targets = self.p.callee_keys(f, e)
        if e.get("op") == "=" and e.get("this") is not None and key and not targets and e.get("a") and not isval(f.type(e["this"])):
            # copy assignment the compiler provides
            self.assign(f, e, e["this"], av[0], env); self.retain(f, e["this"], e["a"][0], env)
            self.holds(f, e["this"], e["a"][0], env)
            return av[0]
        if not key or targets or (e.get("rp") and not self.MS.match(q)):
            args = {i: v for i, v in enumerate(av)}; args[-1] = th
            argx = {i: a for i, a in enumerate(e.get("a", ()))}
            if e.get("this") is not None: argx[-1] = e["this"]
            out = E0
            for k in targets: out |= self.apply(f, e, k, args, argx, env, targets)
            if src == "fresh": out = E0
            elif src: out = frozenset([((), ("S", src))])
            return out
        # make_shared<T>(...)
        ctors = self.p.make_shared_ctor(f, e)
        if ctors:
            out = E0
            for ck in ctors:
                args = {i: v for i, v in enumerate(av)}; args[-1] = E0
                out |= self.sub(self.outs[ck].get(-1, E0), args)
            return out
        # external function
        base = re.sub(r"^std::", "", re.sub(r"<.*>$", "", q)).split("::")[-1]
        if (q.startswith("std::") and q.count("::") == 1) or (e.get("ec") and base in STDW):
            pos = STDW.get(base)
            if base == "transform": pos = [len(av) - 2]
            if base == "move" and len(av) == 3: pos = [2]
            if pos:
                for i in pos:
                    if i < len(av) and av[i] and self.plain(f.type(e["a"][i])): self.write(f, e, av[i], "std::%s into it" % base)
                self.ext_functor(f, e, av, env)
                return av[pos[0]] if pos[0] < len(av) else E0
        elif e.get("ec"):
            for i in e.get("wp", ()):
                if i < len(av) and av[i] and not isval(f.type(e["a"][i])): self.write(f, e, av[i], "%s() may write to it" % q)
        elif e.get("this") is not None and base in ("read", "readsome", "get", "getline") and "stream" in q and av: self.write(f, e, av[0], "%s into it" % q)
        if e.get("op") == "=" and e.get("this") is not None and not e.get("mc"):
            t = f.type(e["this"])
            v = av[0] if av else E0
            if isval(t):
                # assignment of strings etc.: a write when the target is an element of an array
                x = strip(e["this"])
                if x.get("k") in ("Idx", "Un", "Call"): self.write(f, e, th, "assignment to an element of '%s'" % name(x))
                elif x.get("k") == "Ref" and x.get("id") in self.refs(f): self.write(f, e, th, "assignment through the reference '%s'" % x["n"])
                return th
            self.assign(f, e, e["this"], v, env)
            if e.get("a"):
                self.retain(f, e["this"], e["a"][0], env)
                self.holds(f, e["this"], e["a"][0], env)
            return v
        if e.get("op") in ("++", "--", "+=", "-=") and e.get("this") is not None: return th
        self.ext_functor(f, e, av, env)
        if e.get("this") is not None:
            if ABSORB.search(re.sub(r"<.*>$", "", q)):
                v = E0
                for a, x in zip(e.get("a", ()), av):
                    if not isval(f.type(a)): v |= x
                if base in ("assign", "reset"): self.assign(f, e, e["this"], v, env)
                elif v: self.absorb(f, e["this"], v, env)
                for a in e.get("a", ()): self.retain(f, e["this"], a, env)
                return th | v
            if isval(f.type(e)) and e.get("op") not in ("[]", "*") and base not in ("at", "front", "back"): return E0
            return th
        if isval(f.type(e)): 
            return E0
        out = E0
        for a, v in zip(e.get("a", ()), av): out |= v
        return out


def name(e):
    e = strip(e)
    while e is not None:
        k = e.get("k")
        if k in ("Ref", "Mem"): return e["n"]
        if k == "Call":
            if e.get("this") is not None: e = strip(e["this"]); continue
            return (e.get("q") or "?").split("::")[-1]
        if k in ("Idx", "Un"): e = strip(e["a"]); continue
        break
    return "?"
