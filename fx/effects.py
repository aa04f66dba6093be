"""Write-effect analysis: which objects a function may modify, seen from its parameters, this and the static variables, and under which locks.

Builds on the value abstraction of alias.py.  Additional atoms:
  ("S", name)      a static or global variable (or something it owns)
  ("V", r, name)   a variable shared by the threads of the parallel region r
  ("D", r, atom)   a part of atom that belongs to one iteration of the parallel loop of region r"""
import re
from collections import defaultdict
from .alias import Alias, strip, isval, sel, put, name, cut, E0
from .prog import walk, children
from .locks import LockAnalysis

PTR = re.compile(r"shared_ptr<|unique_ptr<|weak_ptr<|shared_array<|\*|&")
SYNC = re.compile(r"mutex|Mutex|omp_lock_t|omp_nest_lock_t|atomic|once_flag|ScopedLock|ScopedUnlock|lock_guard|unique_lock|condition_variable")
ACCESS = re.compile(r"::(operator\*|operator->|get|data|begin|end|cbegin|cend|rbegin|rend|crbegin|crend|front|back|at|find|lower_bound|upper_bound|equal_range|base|str|c_str|lock|value|count|size|empty|operator bool|rdbuf|good|fail|eof|first|second|native_handle|what)$")
ITER = re.compile(r"(^|::)(__normal_iterator|_Rb_tree_(const_)?iterator|_List_iterator|_Deque_iterator|reverse_iterator|move_iterator|istream_iterator|istreambuf_iterator|tokenizer|token_iterator|back_insert_iterator)|iterator")


CONT = re.compile(r"^std::(__cxx11::)?(vector|list|deque|set|map|multimap|multiset|unordered_map|unordered_set|pair|array|tuple|valarray)<")
ISPTR = re.compile(r"^(const )?(std|boost)::(shared_ptr|unique_ptr|weak_ptr|shared_array|function)<|[*&]( const)?$|iterator")


class LocksAt(LockAnalysis):
    """must-held locks at every call and assignment of every function entered without locks"""
    def __init__(self, prog, mt):
        self.at = {}
        LockAnalysis.__init__(self, prog, lambda c: None, mt)

    def ev(self, f, ctx, e, L, env):
        if e is None or ctx[1]: return LockAnalysis.ev(self, f, ctx, e, L, env)
        r = LockAnalysis.ev(self, f, ctx, e, L, env)
        # inside one full expression locks do not change except through temporaries; take what holds throughout
        for S in [L] + list(r[0]):
            for x in walk(e):
                i = id(x)
                o = self.at.get(i)
                S2 = frozenset(S)
                self.at[i] = S2 if o is None else o & S2
        return r


class Effects(Alias):
    def __init__(self, prog, locks, boundary=(), interest=None, exempt=()):
        Alias.__init__(self, prog, lambda f, c: None)
        self.locks = locks
        self.boundary = boundary           # functions whose effects on their own object are checked at that function
        self.exempt = exempt               # functions whose effects are not counted
        self.interest = interest           # locations whose reads matter (None: no reads)
        self.eff = defaultdict(dict)       # f -> {(kind, atom, loc, locks): site}
        self.region_eff = {}               # (region, kind, atom, loc, locks) -> (f, node, text)

    def carrier(self, t): return True

    # ---- parallel regions
    def regions(self, f):
        r = self.__dict__.setdefault("_regions", {})
        if f.key not in r:
            out = []
            for x in walk(f.body) if f.body is not None else ():
                if x.get("k") == "Omp" and "parallel" in (x.get("d") or ""): out.append(self.region(f, x))
            r[f.key] = out
        return r[f.key]

    def region(self, f, x):
        inside = {id(y) for y in walk(x)}
        declared = {y["id"] for y in walk(x) if "id" in y and ("i" in y or y.get("cls") is not None or "n" in y) and y.get("k") not in ("Ref",) and "dk" not in y}
        for y in walk(x):
            if y.get("k") == "Decl":
                for v in y["v"]: declared.add(v["id"])
            if y.get("v") is not None and isinstance(y.get("v"), dict) and "id" in y["v"]: declared.add(y["v"]["id"])
        private = set()
        loopv = set()
        for y in walk(x):
            if y.get("k") == "Omp":
                for c in ("private", "firstprivate", "lastprivate", "reduction"):
                    for v in y.get(c, ()): private.add(v["id"] if isinstance(v, dict) else v)
                if "for" in (y.get("d") or "").split(): loopv |= self.loopvars(y)
        private |= loopv
        # variables computed from the loop variable; a quotient or a remainder alone does not tell the iterations apart
        dep = set(loopv)
        ops = {y["op"] for y in walk(x) if y.get("k") == "Bin" and y["op"] in ("%", "/") and self.mentions(y["a"], loopv)}
        lossy = len(ops) == 1
        while True:
            n = len(dep)
            for y in walk(x):
                if y.get("k") == "Decl":
                    for v in y["v"]:
                        if v.get("i") is not None and self.mentions(v["i"], dep, lossy): dep.add(v["id"])
                elif y.get("k") == "Asg":
                    a = strip(y["a"])
                    if a is not None and a.get("k") == "Ref" and a.get("id") in declared and self.mentions(y["b"], dep, lossy): dep.add(a["id"])
                elif y.get("v") is not None and isinstance(y.get("v"), dict) and y.get("r") is not None and "id" in y["v"] and self.mentions(y["r"], dep, lossy): dep.add(y["v"]["id"])
            if len(dep) == n: break
        return {"x": x, "in": inside, "declared": declared, "private": private, "dep": dep, "lossy": lossy, "id": "%s:%s" % (f.q.replace("MetNoFimex::", ""), f.file), "line": x["l"], "f": f}

    @staticmethod
    def loopvars(omp):
        b = omp.get("b")
        while b is not None and b.get("k") == "Comp": b = (b.get("s") or [None])[0]
        out = set()
        if b is not None and b.get("k") == "For":
            i = b.get("i")
            for y in walk(i) if i is not None else ():
                if y.get("k") == "Decl":
                    for v in y["v"]: out.add(v["id"])
                elif y.get("k") == "Asg":
                    a = strip(y["a"])
                    if a is not None and a.get("k") == "Ref" and "id" in a: out.add(a["id"])
        elif b is not None and b.get("v") is not None and isinstance(b["v"], dict): out.add(b["v"].get("id"))
        return out

    @staticmethod
    def mentions(e, ids, lossy=False):
        if e is None: return False
        if not lossy: return any(y.get("k") == "Ref" and y.get("id") in ids for y in walk(e))
        st = [e]
        while st:
            y = st.pop()
            if y is None: continue
            if y.get("k") == "Ref" and y.get("id") in ids: return True
            if y.get("k") == "Bin" and y["op"] in ("%", "/"): continue
            st.extend(children(y))
        return False

    def region_of(self, f, node):
        for r in self.regions(f):
            if id(node) in r["in"]: return r
        return None

    # ---- recording
    def write(self, f, node, val, how="", loc=None, kind="W", locks=None, site=None):
        if not val: return
        L = self.locks.at.get(id(node), frozenset()) if locks is None else locks
        r = self.region_of(f, node)
        for path, a in val:
            if path: continue
            d, par = None, frozenset()
            while a[0] == "D":
                if isinstance(a[1], tuple): par |= a[1][1]
                else: d = a[1]
                a = a[2]
            st = site or "%s (%s)" % (f.loc(node), f.q.replace("MetNoFimex::", ""))
            if a[0] in ("P", "S"):
                key = (kind, ("D", ("par", par), a) if par else a, loc, L)
                if key not in self.eff[f.key]: self.eff[f.key][key] = st; self.changed(f)
            if r is not None and d != r["id"] and (self.final):
                self.region_eff.setdefault((r["id"], kind, loc if a[0] != "V" else "variable '%s'%s" % (a[2], "" if loc is None or loc == "variable '%s'" % a[2] else " (%s)" % loc), L), (f, node, st, r))

    def loc_of(self, f, e, depth=0):
        """name of the location an lvalue denotes"""
        e = strip(e)
        while e is not None:
            k = e.get("k")
            if k == "Mem":
                if e.get("dk") == "func" or (e.get("q") or "").startswith("std::"): e = strip(e.get("b")); continue
                return (e.get("q") or e["n"]).replace("MetNoFimex::", "")
            if k == "Ref":
                if e.get("g"): return "static " + e.get("n", "?")
                i = self.reftarget(f).get(e.get("id"))
                if i is None and depth < 4 and (ISPTR.search(f.type(e)) or ITER.search(f.type(e))): i = self.inits(f).get(e.get("id"))
                if i is not None and strip(i) is not None and strip(i).get("k") in ("Mem", "Idx", "Call", "Un", "Ctor", "Ref") and depth < 6:
                    l = self.loc_of(f, i, depth + 1)
                    if l != "?": return l
                return "variable '%s'" % e["n"]
            if k == "Call":
                if e.get("this") is not None: e = strip(e["this"]); continue
                if e.get("op") in ("<<", ">>") and e.get("a"): e = strip(e["a"][0]); continue
                return "result of " + (e.get("q") or "?").split("::")[-1]
            if k in ("Idx", "Un"): e = strip(e["a"]); continue
            if k == "Ctor" and len(e.get("a") or ()) == 1: e = strip(e["a"][0]); continue
            if k == "This": return "*this"
            break
        return "?"

    # ---- assignment
    def assign(self, f, node, lhs, val, env, compound=False):
        e = strip(lhs)
        if e is None: return
        k = e.get("k"); t = f.type(e)
        if k == "Cond":
            self.assign(f, node, e["a"], val, env, True); self.assign(f, node, e["b"], val, env, True); return
        if SYNC.search(t): return
        if k == "Ref":
            vid = e.get("id")
            if e.get("dk") == "tls": return
            if e.get("g"):
                self.write(f, node, frozenset([((), ("S", e["g"]))]), loc="static " + e["n"]); return
            if vid is None: return
            r = self.region_of(f, node)
            if vid in self.refs(f):
                if ISPTR.search(re.sub(r" ?&$", "", t)): self.ptrvar(f, node, e, env)
                else: self.write(f, node, env.get(vid, E0), loc=self.loc_of(f, e))
            elif r is not None and vid not in r["declared"] and vid not in r["private"]:
                self.write(f, node, frozenset([((), ("V", r["id"], e["n"]))]), loc="variable '%s'" % e["n"])
            if not compound and not isval(t):
                if vid in self.refs(f): env[vid] = env.get(vid, E0) | val
                else: env[vid] = val
            return
        if k == "Mem":
            self.write(f, node, self.ev(f, e.get("b"), env), loc=self.loc_of(f, e))
            if not isval(t) and not compound: self.absorb(f, e["b"], put(val, e["n"]), env, e.get("q"), val)
            return
        if k == "Un" and e.get("op") == "*" and ISPTR.search(t) and self.ptrparam(f, e["a"]) is not None:
            self.ptrvar(f, node, e, env)
            if not compound: self.absorb(f, e, val, env)
            return
        self.write(f, node, self.own(f, e, self.ev(f, e, env)), loc=self.loc_of(f, e))
        if not isval(t) and not compound: self.absorb(f, e, val, env)

    def ptrparam(self, f, x):
        x = strip(x)
        return self.pidx(f, x.get("id")) if x is not None and x.get("k") == "Ref" and x.get("id") is not None else None

    def root(self, f, e):
        """the variable an lvalue is a part of (by value), if it is a local object"""
        e = strip(e)
        while e is not None:
            k = e.get("k")
            if k == "Ref":
                if e.get("g") or e.get("id") is None or e["id"] in self.refs(f) or ISPTR.search(f.type(e)): return None
                return e
            if k == "Mem" and not e.get("arrow") and not ISPTR.search(f.type(strip(e.get("b"))) if strip(e.get("b")) is not None else "*"): e = strip(e.get("b"))
            elif k == "Idx" and not ISPTR.search(f.type(strip(e["a"]))): e = strip(e["a"])
            elif k == "Call" and e.get("op") in ("<<", ">>"): e = strip(e["this"] if e.get("this") is not None else e["a"][0])
            else: return None
        return None

    def own(self, f, e, val):
        """writing a part of a local object is only visible to others when the parallel region shares the variable"""
        x = self.root(f, e)
        if x is None: return val
        return frozenset(y for y in val if y[1][0] == "V" and y[1][2] == x["n"])

    def slots(self, f, x, v, env):
        """what is written through an iterator: the container it was taken from"""
        y = strip(x)
        while y is not None and y.get("k") in ("Ctor", "Bin", "Call"):
            if y["k"] == "Ctor" and len(y.get("a", ())) == 1: y = strip(y["a"][0])
            elif y["k"] == "Bin" and y.get("op") in ("+", "-"): y = strip(y["a"])
            elif y["k"] == "Call" and y.get("op") in ("+", "-"): y = strip(y["this"] if y.get("this") is not None else y["a"][0])
            elif y["k"] == "Call" and y.get("this") is not None and re.search(r"::(c?r?begin|c?r?end|data|get|insert|find|front|back)$", re.sub(r"<.*>$", "", y.get("q") or "")):
                c = strip(y["this"])
                if c is not None and not ISPTR.search(f.type(c)):
                    if c.get("k") == "Mem": return self.ev(f, c.get("b"), env) if self.root(f, c) is None else self.own(f, c, v)
                    return self.own(f, c, self.ev(f, c, env))
                break
            else: break
        return v

    def ptrvar(self, f, node, x, env, locks=None, site=None, depth=0):
        """a pointer variable (not what it points to) is given a new value through a reference to it"""
        x = strip(x)
        if x is None or depth > 5: return
        if x.get("k") == "Mem": self.write(f, node, self.ev(f, x.get("b"), env), loc=self.loc_of(f, x), locks=locks, site=site)
        elif x.get("k") == "Ref":
            if x.get("g"): self.write(f, node, frozenset([((), ("S", x["g"]))]), loc="static " + x["n"], locks=locks, site=site); return
            vid = x.get("id")
            if vid in self.refs(f):
                i = self.pidx(f, vid)
                if i is not None: self.qeff(f, node, i, locks, site)
                else:
                    t = self.reftarget(f).get(vid)
                    if t is not None: self.ptrvar(f, node, t, env, locks, site, depth + 1)
                return
            if re.search(r"\* ?(const )?\*", f.type(x)) and self.pidx(f, vid) is not None: self.qeff(f, node, self.pidx(f, vid), locks, site); return
            r = self.region_of(f, node)
            if r is not None and vid is not None and vid not in r["declared"] and vid not in r["private"]:
                self.write(f, node, frozenset([((), ("V", r["id"], x["n"]))]), loc="variable '%s'" % x["n"], locks=locks, site=site)
        elif x.get("k") == "Un" and x.get("op") == "&": self.ptrvar(f, node, x["a"], env, locks, site, depth + 1)
        elif x.get("k") == "Un" and x.get("op") == "*" and self.ptrparam(f, x["a"]) is not None: self.qeff(f, node, self.ptrparam(f, x["a"]), locks, site)
        elif x.get("k") in ("Idx", "Un", "Call"): self.write(f, node, self.ev(f, x, env), loc=self.loc_of(f, x), locks=locks, site=site)

    def qeff(self, f, node, i, locks, site):
        L = self.locks.at.get(id(node), frozenset()) if locks is None else locks
        key = ("W", ("Q", i), None, L)
        if key not in self.eff[f.key]: self.eff[f.key][key] = site or "%s (%s)" % (f.loc(node), f.q.replace("MetNoFimex::", "")); self.changed(f)

    def fstore(self, q, val): pass
    def gstore(self, f, key, val): pass
    def retain(self, f, target, src, env): pass

    # ---- expressions
    def e_Ref(self, f, e, env):
        if e.get("dk") in ("func", "enum", "tls"): return E0
        if e.get("g"):
            t = f.type(e)
            if SYNC.search(t) or re.match(r"_ZSt|std::|stderr|stdout|stdin|environ|errno", e.get("g", "")): return E0
            self.read(f, e, frozenset([((), ("S", e["g"]))]), "static " + e["n"])
            return frozenset([((), ("S", e["g"]))])
        v = env.get(e.get("id"), E0)
        r = self.region_of(f, e)
        if r is not None and e.get("id") is not None and e["id"] not in r["declared"] and e["id"] not in r["private"]:
            v = v | {((), ("V", r["id"], e["n"]))}
        return v

    def read(self, f, node, val, loc):
        if self.interest is not None and loc in self.interest: self.write(f, node, val, loc=loc, kind="R")

    def e_Mem(self, f, e, env):
        b = self.ev(f, e.get("b"), env)
        if e.get("dk") == "func": return b
        if e.get("g"): return frozenset([((), ("S", e["g"]))])
        self.read(f, e, b, self.loc_of(f, e))
        return sel2(b, e["n"])

    def e_Idx(self, f, e, env):
        v = self.ev(f, e["a"], env); self.ev(f, e.get("b"), env)
        return self.part(f, e, e.get("b"), v)

    def part(self, f, e, index, v):
        return self.mark(f, e, [index], v) if v and index is not None else v

    def mark(self, f, e, idx, v):
        """the parts of v selected by the expressions idx"""
        r = self.region_of(f, e)
        if r is not None:
            if any(self.mentions(i, r["dep"], r["lossy"]) for i in idx): return frozenset((p, a if a[0] == "D" and a[1] == r["id"] else ("D", r["id"], a)) for p, a in v)
        elif f.key in self.parfns():
            js = frozenset(j for j, ids in self.pardeps(f).items() if any(self.mentions(i, ids) for i in idx))
            if js: return frozenset((p, a if a[0] == "D" else ("D", ("par", js), a)) for p, a in v)
        return v

    def parfns(self):
        """functions called from the body of a parallel loop, which may be given the loop variable"""
        if not hasattr(self, "_parfns"):
            out, work = set(), []
            for f in self.p.fns.values():
                if f.body is None: continue
                for x in walk(f.body):
                    if x.get("k") == "Omp" and "parallel" in (x.get("d") or ""):
                        for y in walk(x):
                            if y.get("k") in ("Call", "Ctor"): work += [(k, 0) for k in self.keys(f, y)]
            while work:
                k, d = work.pop()
                if k in out or k not in self.p.fns or self.p.fns[k].body is None: continue
                out.add(k)
                if d < 2:
                    for y in walk(self.p.fns[k].body):
                        if y.get("k") in ("Call", "Ctor"): work += [(q, d + 1) for q in self.keys(self.p.fns[k], y)]
            self._parfns = out
        return self._parfns

    def keys(self, f, y):
        if y.get("f"): return [] if y.get("v") else [y["f"]]
        return list(self.p.callee_keys(f, y)) if y.get("k") == "Call" else []

    def pardeps(self, f):
        c = self.__dict__.setdefault("_pardeps", {})
        if f.key not in c:
            c[f.key] = {}
            for j, prm in enumerate(f.params):
                if isval(f.types[prm["t"]]): c[f.key][j] = self.derived(f.body, {prm["id"]})
        return c[f.key]

    def derived(self, body, dep):
        dep = set(dep)
        while True:
            n = len(dep)
            for y in walk(body):
                if y.get("k") == "Decl":
                    for v in y["v"]:
                        if v.get("i") is not None and self.mentions(v["i"], dep): dep.add(v["id"])
                elif y.get("k") == "Asg":
                    a = strip(y["a"])
                    if a is not None and a.get("k") == "Ref" and a.get("id") is not None and self.mentions(y["b"], dep): dep.add(a["id"])
            if len(dep) == n: return dep

    def e_Bin(self, f, e, env):
        a = self.ev(f, e["a"], env); b = self.ev(f, e["b"], env)
        if e["op"] in ("+", "-") and "*" in f.type(e):
            return self.part(f, e, e["b"], a) | self.part(f, e, e["a"], b)
        if e["op"] == ",": return b
        return E0

    def e_Un(self, f, e, env):
        v = self.ev(f, e["a"], env)
        if "++" in e["op"] or "--" in e["op"]:
            self.assign(f, e, e["a"], E0, env, True)
            return v
        if e["op"] in ("*", "&"): return v
        return E0

    def e_Asg(self, f, e, env):
        v = self.ev(f, e["b"], env)
        a = strip(e["a"])
        self.assign(f, e, a, v, env, e["op"] != "=")
        return self.ev(f, a, env)

    def copyval(self, t, v, depth=0):
        """what a by-value copy of an object of type t still shares with the original"""
        if not v or isval(t): return E0
        if ISPTR.search(t): return v
        b = t.replace("const ", "").rstrip("& ")
        r = self.p.recs.get(b)
        if r is None:
            if CONT.match(b) and not self.holds_ptr(b): return E0
            return frozenset(x if x[0] else (("*",), x[1]) for x in v) if CONT.match(b) else frozenset(x for x in v if x[0])
        out = set(x for x in v if x[0])
        top = frozenset(x for x in v if not x[0])
        for c in [b] + list(r.get("allbases", ())):
            rc = self.p.recs.get(c)
            if rc is None: continue
            for fl in rc.get("fields", ()):
                ft = rc["_types"][fl["t"]]
                if isval(ft): continue
                s = sel2(top, fl["n"])
                if ISPTR.search(ft): out |= put(s, fl["n"])
                elif depth < 2 and (CONT.match(ft) or ft.replace("const ", "") in self.p.recs): out |= put(self.copyval(ft, s, depth + 1), fl["n"])
        return frozenset(out)

    def holds_ptr(self, t, depth=0):
        """does a value of this type hold pointers to other objects"""
        if re.search(r"_ptr<|shared_array<|\*|&|std::function<", t): return True
        for n in set(re.findall(r"[A-Za-z_][\w:]*(?:\(anonymous namespace\)::[\w:]*)*", t)):
            r = self.p.recs.get(n)
            if r is None: continue
            if depth > 3: return True
            for c in [n] + list(r.get("allbases", ())):
                rc = self.p.recs.get(c)
                if rc is not None and any(not isval(rc["_types"][fl["t"]]) and self.holds_ptr(rc["_types"][fl["t"]], depth + 1) for fl in rc.get("fields", ())): return True
        return False

    def decl(self, f, v, env):
        i = v.get("i")
        val = self.ev(f, i, env) if i is not None else E0
        t = f.type(v)
        if v.get("static"): env[v["id"]] = E0; return
        if not v.get("ref") and isval(t): val = E0
        env[v["id"]] = val

    def e_Ctor(self, f, e, env):
        cls = e.get("cls", "")
        if e.get("cm") in ("copy", "move") and e.get("a"):
            key = e["f"]
            v = self.ev(f, e["a"][0], env)
            if not (key in self.p.fns and self.p.fns[key].body is not None and not self.p.fns[key].d.get("imp")):
                return self.copyval(f.type(e), v)
        av = [self.ev(f, a, env) for a in e.get("a", ())]
        if isval(cls): return E0
        key = e["f"]
        if key in self.p.fns and self.p.fns[key].body is not None:
            args = dict(enumerate(av)); args[-1] = E0
            argx = dict(enumerate(e["a"]))
            self.apply_eff(f, e, key, args, frozenset(), argx, env)
            for i, val in list(self.outs[key].items()):
                if i >= 0 and i in argx:
                    v = self.sub(val, args)
                    if v: self.absorb(f, argx[i], v, env)
            return self.sub(self.outs[key].get(-1, E0), args)
        self.ext_functor(f, e, av, env)
        out = E0
        for a, v in zip(e.get("a", ()), av):
            if a is not None and (PTR.search(f.type(a)) or ITER.search(f.type(a))): out |= v
        if CONT.match(cls): out = frozenset(x if x[0][:1] == ("*",) else (("*",) + x[0], x[1]) for x in out)
        return out

    def sub(self, val, args, f=None, e=None, argx=None):
        out = set()
        for path, a in val:
            if a[0] == "D" and isinstance(a[1], tuple):
                v = self.sub(frozenset([(path, a[2])]), args, f, e, argx)
                out |= self.mark(f, e, [argx[j] for j in a[1][1] if argx.get(j) is not None], v) if argx is not None else v
                continue
            if a[0] != "P": out.add((path, a)); continue
            src = args.get(a[1], E0)
            for fld in a[2]: src = sel2(src, fld)
            for p2, a2 in src: out.add((cut(path + p2), a2))
        return frozenset(out)

    def apply_eff(self, f, e, key, args, extra=frozenset(), argx=None, env=None):
        if key in self.exempt: return
        L = self.locks.at.get(id(e), frozenset()) | extra
        for (kind, a, loc, l2), site in list(self.eff[key].items()):
            par = None
            if a[0] == "D": par, a = a[1][1], a[2]
            if a[0] == "S": v = frozenset([((), a)])
            elif a[0] == "Q":
                if argx is not None and argx.get(a[1]) is not None: self.ptrvar(f, e, argx[a[1]], env, L | l2, site)
                continue
            else:
                if a[1] == -1 and key in self.boundary: continue
                v = args.get(a[1], E0)
                for fld in a[2]: v = sel2(v, fld)
            if v and argx is not None and a[0] == "P" and not a[2] and argx.get(a[1]) is not None:
                v = self.own(f, argx[a[1]], v)
                if loc is None or loc.startswith("variable '") or loc.startswith("result of ") or loc in ("?", "*this"): loc = self.loc_of(f, argx[a[1]])
            if v and par and argx is not None: v = self.mark(f, e, [argx[j] for j in par if argx.get(j) is not None], v)
            if v and loc is not None and loc.startswith("CDMVariable::"):
                # the variable of the model selected by the name of this iteration
                r = self.region_of(f, e)
                if r is not None and any(x is not None and self.mentions(x, r["dep"], r["lossy"]) for x in e.get("a", ())):
                    v = frozenset((p_, x if x[0] == "D" else ("D", r["id"], x)) for p_, x in v)
            if v: self.write(f, e, v, loc=loc, kind=kind, locks=L | l2, site=site)

    def apply(self, f, e, key, args, argx, env, tgts=(1,)):
        self.apply_eff(f, e, key, args, frozenset(), argx, env)
        for i, val in list(self.exitv[key].items()):
            x = strip(argx.get(i))
            if x is None: continue
            v = self.sub(val, args, f, e, argx)
            if x.get("k") == "Ref" and "id" in x and not x.get("g"):
                env[x["id"]] = env.get(x["id"], E0) | v
            elif not v <= args.get(i, E0): self.absorb(f, x, v, env)
        for i, val in list(self.outs[key].items()):
            v = self.sub(val, args, f, e, argx)
            if not v: continue
            x = argx.get(i)
            if x is not None: self.absorb(f, x, v, env)
            elif i == -1 and not e.get("k") == "Ctor": self.absorb(f, {"k": "This"}, v, env)
        return self.sub(self.ret[key], args, f, e, argx)

    def finish(self, f, env): pass
    def elem(self, v): return elem(v)

    def push(self, k):
        if self.only is None or k in self.only: Alias.push(self, k)

    def run(self, only=None):
        self.only = only
        return Alias.run(self, only)

    def explain(self, key, match, depth=0, seen=None):
        """call chain to an effect accepted by match"""
        seen = seen if seen is not None else set()
        if key in seen or depth > 15: return None
        seen.add(key)
        f = self.p.fns[key]
        mine = [(k, s) for k, s in self.eff[key].items() if match(k, s)]
        if not mine: return None
        for k in sorted(self.p.callgraph().get(key, ())):
            if k in self.p.fns and any(match(kk, s) and s == mine[0][1] for kk, s in self.eff[k].items()):
                r = self.explain(k, lambda kk, s: s == mine[0][1] and match(kk, s), depth + 1, seen)
                if r: return [f.q.replace("MetNoFimex::", "")] + r
        return [f.q.replace("MetNoFimex::", ""), mine[0][1]]

    def e_Call(self, f, e, env):
        th = self.ev(f, e["this"], env) if e.get("this") is not None else E0
        av = [self.ev(f, a, env) for a in e.get("a", ())]
        if e.get("c") is not None: self.ev(f, e["c"], env)
        q = e.get("q") or ""
        key = e.get("f")
        targets = set()
        if key:
            if e.get("v"): targets = {x for x in self.p.transitive_overriders(key) if x in self.p.fns}
            elif key in self.p.fns: targets = {key}
        else: targets = self.p.callee_keys(f, e)
        if e.get("op") == "=" and e.get("this") is not None and all(self.p.fns[k].d.get("imp") for k in targets) and av and key:
            self.assign(f, e, e["this"], self.copyval(f.type(e["this"]), av[0]), env)
            return th
        if not key and not targets and e.get("c") is not None:
            # an unknown function: may modify what its parameters allow
            m = re.search(r"\(\*(?: ?const)?\)\((.*)\)$|std::function<[^(]*\((.*)\)>", f.type(strip(e["c"])) if strip(e["c"]) is not None else "")
            ps = split_params(m.group(1) or m.group(2) or "") if m else []
            for i, (t, a, v) in enumerate(zip(ps, e.get("a", ()), av)):
                if re.search(r"[*&]$", t) and not t.startswith("const ") and v and a is not None: self.write(f, e, self.own(f, a, v), loc=self.loc_of(f, a))
        if not key or targets or (e.get("rp") and not self.MS.match(q)):
            args = dict(enumerate(av)); args[-1] = th
            argx = dict(enumerate(e.get("a", ())))
            if e.get("this") is not None: argx[-1] = e["this"]
            out = E0
            for k in targets: out |= self.apply(f, e, k, args, argx, env, targets)
            return out
        ctors = self.p.make_shared_ctor(f, e)
        if ctors:
            out = E0
            for ck in ctors:
                args = dict(enumerate(av)); args[-1] = E0
                self.apply_eff(f, e, ck, args)
                out |= self.sub(self.outs[ck].get(-1, E0), args)
            return out
        bq = re.sub(r"<.*>$", "", q)
        base = bq.split("::")[-1]
        if base == "call_once":
            for a, v in zip(e["a"][1:], av[1:]):
                for kk in self.functors(f, a): self.apply_eff(f, e, kk, {-1: v}, frozenset([("ONCE", self.loc_of(f, e["a"][0]))]))
            return E0
        if e.get("ec"):
            for i in e.get("wp", ()):
                if i < len(av) and av[i] and not SYNC.search(f.type(e["a"][i])): self.write(f, e, av[i], loc=self.loc_of(f, e["a"][i]))
            self.ext_functor(f, e, av, env)
            if isval(f.type(e)): return E0
            return union([v for a, v in zip(e["a"], av) if not re.match(r"(const )?char|const ", f.type(a)) and "*" in f.type(a)])
        if q.startswith("std::") and q.count("::") == 1:
            from .alias import STDW
            pos = STDW.get(base)
            if base == "transform": pos = [len(av) - 2]
            if base == "move" and len(av) == 3: pos = [2]
            if base == "getline": pos = [0, 1]
            for i in pos or ():
                if i < len(av) and av[i]: self.write(f, e, self.slots(f, e["a"][i], av[i], env), loc=self.loc_of(f, e["a"][i]))
            self.ext_functor(f, e, av, env)
            if pos and len(pos) == 1 and "back_insert" not in f.type(e["a"][pos[0]]) and pos[0] < len(av): return av[pos[0]]
            return E0 if isval(f.type(e)) and "&" not in f.type(e) else union(av)
        if e.get("op") == "=" and e.get("this") is not None and not e.get("mc"):
            self.assign(f, e, e["this"], self.copyval(f.type(e["this"]), av[0]) if av else E0, env)
            return th
        self.ext_functor(f, e, av, env)
        if e.get("this") is not None:
            t = f.type(e["this"])
            x = strip(e["this"])
            acc = ACCESS.search(bq) or e.get("mc") or SYNC.search(t)
            if e.get("op") == "[]":
                acc = not re.search(r"std::(unordered_)?map<", t)
                if e.get("a"): return_v = self.part(f, e, e["a"][0], th)
                return_v = elem(return_v)
                if acc: return return_v
            if ITER.search(t) and x is not None and x.get("k") == "Ref": acc = True      # a local iterator
            if not acc:
                if self.root(f, x) is not None: self.write(f, e, self.own(f, x, th), loc=self.loc_of(f, x))
                elif x is not None and x.get("k") == "Mem": self.write(f, e, self.ev(f, x.get("b"), env), loc=self.loc_of(f, x))
                else: self.write(f, e, th, loc=self.loc_of(f, e["this"]))
                v = E0
                for a, y in zip(e.get("a", ()), av):
                    if a is not None and not isval(f.type(a)) and PTR.search(f.type(a)): v |= y
                if base in ("reset",) and x is not None: self.assign(f, e, x, v, env)
                elif v: self.absorb(f, e["this"], v, env)
            if isval(f.type(e)) and e.get("op") not in ("[]", "*") and base not in ("at", "front", "back"): return E0
            if e.get("op") == "[]": return return_v
            return elem(th) if ACCESS.search(bq) else th
        # free operator or other external function
        if e.get("op") in (">>", "<<") and av:
            if e["op"] == ">>":
                for i in (0, 1):
                    if i < len(av) and av[i]: self.write(f, e, av[i], loc=self.loc_of(f, e["a"][i]))
            return av[0]
        if isval(f.type(e)): return E0
        return union(av)


def split_params(t):
    out, d, cur = [], 0, ""
    for ch in t:
        if ch in "<(": d += 1
        elif ch in ">)": d -= 1
        if ch == "," and d == 0: out.append(cur.strip()); cur = ""
        else: cur += ch
    return out + [cur.strip()] if cur.strip() else out


def elem(v):
    """the elements of a container with this value"""
    return frozenset((x[0][1:], x[1]) if x[0][:1] == ("*",) else x for x in v)


def union(av):
    out = E0
    for v in av: out |= v
    return out


def sel2(val, fld):
    out = set()
    for path, a in val:
        if not path:
            d = []
            while a[0] == "D": d.append(a[1]); a = a[2]
            if a[0] == "P": a = (a[0], a[1], cut(a[2] + (fld,)))
            for r in d: a = ("D", r, a)
            out.add((path, a))
        elif path[0] == fld: out.add((path[1:], a))
    return frozenset(out)
