"""Whole-program view over the extracted facts."""
import json, os, re, pickle
from collections import defaultdict
from . import extract as X
from .extract import AnalysisError


class N(dict):
    """AST node: a dict with attribute access for the short keys."""
    __slots__ = ()
    __getattr__ = dict.get


def _hook(d):
    return N(d)


class Fn:
    __slots__ = ("d", "key", "q", "name", "file", "line", "tu", "types", "_lam")

    def __init__(self, d, tu, types):
        self.d = d; self.key = d["key"]; self.q = d["q"]; self.name = d["n"]; self.file = d["file"]; self.line = d["l"]
        self.tu = tu; self.types = types; self._lam = None

    @property
    def body(self): return self.d.get("body")
    @property
    def params(self): return self.d["params"]
    @property
    def cls(self): return self.d.get("cls")
    def type(self, node):
        t = node.get("t") if isinstance(node, dict) else node
        return self.types[t] if isinstance(t, int) and t >= 0 else ""
    @property
    def ret(self): return self.types[self.d["ret"]]
    def __repr__(self): return "<Fn %s %s:%d>" % (self.q, self.file, self.line)
    def loc(self, node=None):
        return "%s:%s" % (self.file, node.get("l", self.line) if node is not None else self.line)


EXPR_CHILD = ("this", "c", "a", "b", "e", "i", "sz", "ch")


def children(n):
    """direct sub-expressions/statements of a node, in (approximate) evaluation order; does not enter lambda bodies."""
    k = n.get("k")
    if k == "Lambda":
        for c in n.get("caps", ()):
            if "e" in c and c["e"] is not None:
                yield c["e"]
        return
    if k in ("Asg",):
        if n["b"] is not None: yield n["b"]
        if n["a"] is not None: yield n["a"]
        return
    for key, v in n.items():
        if isinstance(v, dict):
            if "k" in v or key in ("v", "cvd"):
                yield v
        elif isinstance(v, list):
            for x in v:
                if isinstance(x, dict):
                    yield x


def walk(n):
    """pre-order over all nodes below n (lambda bodies excluded)."""
    if n is None:
        return
    st = [n]
    while st:
        x = st.pop()
        yield x
        st.extend(reversed(list(children(x))))


def post(n):
    """post-order (evaluation order) over expression nodes."""
    if n is None:
        return
    for c in children(n):
        yield from post(c)
    yield n


def lambdas_in(n):
    for x in walk(n):
        if x.get("k") == "Lambda":
            yield x


class Program:
    def __init__(self, rels=None):
        facts = X.extract(rels)
        self.tus = sorted(facts)
        self.fns = {}
        self.decls = {}
        self.recs = {}
        self.enums = {}
        self.globs = {}
        self.overriders = defaultdict(set)
        self.lambda_fns = {}
        for rel in self.tus:
            pk = facts[rel][:-5] + ".pkl"
            data = None
            if os.path.exists(pk) and os.path.getmtime(pk) >= os.path.getmtime(facts[rel]):
                try:
                    with open(pk, "rb") as f:
                        data = pickle.load(f)
                except Exception:
                    data = None
            if data is None:
                with open(facts[rel]) as f:
                    data = json.load(f, object_hook=_hook)
                try:
                    tmp = pk + ".%d" % os.getpid()
                    with open(tmp, "wb") as f:
                        pickle.dump(data, f, protocol=4)
                    os.rename(tmp, pk)
                except OSError:
                    pass
            types = [x for x in data if x["rk"] == "types"][0]["types"]
            for x in data:
                rk = x["rk"]
                if rk == "fn":
                    if x["key"] not in self.fns:
                        self.fns[x["key"]] = Fn(x, rel, types)
                elif rk == "decl":
                    if x["key"] not in self.decls:
                        self.decls[x["key"]] = Fn(x, rel, types)
                elif rk == "rec":
                    if x["cls"] not in self.recs:
                        x["_types"] = types
                        self.recs[x["cls"]] = x
                elif rk == "enum":
                    self.enums.setdefault(x["q"] if "(unnamed" not in x["q"] and "(anonymous" not in x["q"] else x["file"] + ":" + str(x["l"]), x)
                elif rk == "glob":
                    if x["g"] not in self.globs:
                        x["_types"] = types; x["_tu"] = rel
                        self.globs[x["g"]] = x
        # lambdas become functions of their own
        for f in list(self.fns.values()):
            self._lambdas(f, f)
        for f in list(self.fns.values()) + list(self.decls.values()):
            for o in f.d.get("ov", ()):
                self.overriders[o].add(f.key)
        for r in self.recs.values():
            for m in r.get("methods", ()):
                for o in m.get("ov", ()):
                    self.overriders[o].add(m["key"])
        self._trans = {}
        self.by_q = defaultdict(list)
        for f in self.fns.values():
            self.by_q[f.q].append(f)
        self.callops = defaultdict(list)   # class name -> operator() keys
        self.ctors = defaultdict(list)
        for f in self.fns.values():
            if f.name == "operator()" and f.cls: self.callops[f.cls].append(f.key)
            if f.d.get("ctor"): self.ctors[f.cls].append(f.key)
        self.addr_taken = defaultdict(set)  # function type -> keys
        for f in self.fns.values():
            self._addr(f)
        for g in self.globs.values():
            if g.get("i"):
                for x in walk(g["i"]):
                    if x.get("k") == "Ref" and x.get("dk") == "func":
                        self.addr_taken[g["_types"][x["t"]]].add(x["f"])

    def _lambdas(self, f, host):
        roots = [f.body] + [i["e"] for i in f.d.get("inits", ()) if i.get("e")]
        for root in roots:
            if root is None:
                continue
            for lam in lambdas_in(root):
                key = lam["f"]
                if key in self.lambda_fns and self.lambda_fns[key] is not None:
                    if self.lambda_fns[key].d.get("host") == host.key:
                        continue
                d = N(rk="fn", key=key, q=host.q + "::lambda", n="operator()", file=host.file, l=lam["l"], ret=0, params=lam["params"], body=lam["body"],
                      cls=lam["cls"], host=host.key, lam=lam, ec=0)
                lf = Fn(d, host.tu, host.types)
                self.fns.setdefault(key, lf)
                self.lambda_fns[key] = lf
                self._lambdas(lf, host)

    def _addr(self, f):
        roots = [f.body] + [i["e"] for i in f.d.get("inits", ()) if i.get("e")]
        for root in roots:
            for x in walk(root) if root else ():
                if x.get("k") == "Ref" and x.get("dk") == "func":
                    # callee positions are not emitted as Ref (direct callees are resolved)
                    self.addr_taken[f.type(x)].add(x["f"])

    # ---- call resolution
    def transitive_overriders(self, key):
        if key in self._trans: return self._trans[key]
        seen, st = {key}, [key]
        while st:
            k = st.pop()
            for o in self.overriders.get(k, ()):
                if o not in seen:
                    seen.add(o); st.append(o)
        self._trans[key] = seen
        return seen

    def indirect_names(self, f, c):
        """names of all functions (also external ones) whose address is taken and whose type matches an indirect call"""
        ce = c.get("c")
        if ce is None: return set()
        t = f.type(ce).replace(" ", ""); t2 = t.replace("(*)", "", 1)
        out = set()
        for ft, ks in self.addr_taken.items():
            n = ft.replace(" ", "")
            if n == t or n == t2: out |= ks
        return out

    FUNCTOR_STD = re.compile(r"^(std|boost)::")

    def callee_keys(self, f, c):
        """possible repo-function targets of a Call/Ctor/Tmp/Delete node in function f"""
        k = c.get("k")
        out = set()
        if k == "Call":
            key = c.get("f")
            if key:
                if c.get("v"):
                    out |= {x for x in self.transitive_overriders(key) if x in self.fns}
                elif key in self.fns:
                    out.add(key)
                if key not in self.fns and not (c.get("rp") and not c.get("v")):
                    out |= self.functor_args(f, c)
                    out |= self.make_shared_ctor(f, c)
                elif key not in self.fns and c.get("v") is None:
                    out |= self.functor_args(f, c)
            else:
                ce = c.get("c")
                if ce is not None and not (ce.get("k") == "Ref" and ce.get("dk") == "global" and ce.get("g") not in self.globs):
                    t = f.type(ce)
                    t2 = t.replace("(*)", "", 1).replace("  ", " ")
                    for ft, ks in self.addr_taken.items():
                        if ft == t or ft == t2 or ft.replace(" ", "") == t2.replace(" ", ""):
                            out |= {x for x in ks if x in self.fns}
        elif k == "Ctor":
            if c["f"] in self.fns: out.add(c["f"])
            elif self.FUNCTOR_STD.match(c.get("q", "")): out |= self.functor_args(f, c) if "function" in c.get("cls", "") else set()
        elif k == "Tmp":
            if c["dt"] in self.fns: out.add(c["dt"])
        return out

    def functor_args(self, f, c):
        out = set()
        for a in c.get("a", ()):
            if a is None: continue
            x = a
            while x.get("k") in ("Cast", "Tmp") or (x.get("k") == "Ctor" and len(x.get("a", ())) == 1 and x.get("cm") in ("copy", "move")):
                x = x["e"] if x["k"] in ("Cast", "Tmp") else x["a"][0]
                if x is None: break
            if x is None: continue
            if x.get("k") == "Lambda" and x["f"] in self.fns: out.add(x["f"])
            elif x.get("k") == "Ref" and x.get("dk") == "func": out |= {y for y in (self.transitive_overriders(x["f"]) if x.get("vm") else {x["f"]}) if y in self.fns}
            elif x.get("k") == "Un" and x.get("op") == "&" and x["a"].get("k") == "Ref" and x["a"].get("dk") == "func":
                r = x["a"]; out |= {y for y in (self.transitive_overriders(r["f"]) if r.get("vm") else {r["f"]}) if y in self.fns}
            else:
                t = f.type(x).replace("const ", "").rstrip(" &*")
                for ck in self.callops.get(t, ()): out |= {y for y in self.transitive_overriders(ck) if y in self.fns}
                # boost::bind / std::bind objects etc.: their own arguments were handled at the bind call
        return out

    MS = re.compile(r"^(?:std|boost)::(?:make_shared|make_unique|allocate_shared)")

    def make_shared_ctor(self, f, c):
        if not self.MS.match(c.get("q", "")): return set()
        t = f.type(c)
        m = re.match(r"^(?:std|boost)::(?:shared_ptr|unique_ptr)<(.*)>$", t)
        if not m: return set()
        cls = m.group(1).split(", std::default_delete")[0].strip()
        n = len(c.get("a", ()))
        ks = [k for k in self.ctors.get(cls, ()) if len(self.fns[k].params) >= n]
        return set(ks)

    def calls(self, f, root=None):
        """all call-like nodes in f's body (and ctor initialisers)"""
        roots = [root] if root is not None else [i["e"] for i in f.d.get("inits", ()) if i.get("e")] + [f.body]
        for r in roots:
            for x in walk(r):
                if x.get("k") in ("Call", "Ctor", "Tmp"):
                    yield x

    def callgraph(self):
        if hasattr(self, "_cg"): return self._cg
        cg = {}
        for f in self.fns.values():
            s = set()
            for c in self.calls(f): s |= self.callee_keys(f, c)
            for x in walk(f.body):
                if "dt" in x and x["dt"] in self.fns: s.add(x["dt"])
            cg[f.key] = s
        self._cg = cg
        return cg

    def reachable(self, keys):
        cg = self.callgraph(); seen = set(keys); st = list(keys)
        while st:
            k = st.pop()
            for o in cg.get(k, ()):
                if o not in seen: seen.add(o); st.append(o)
        return seen

    def find(self, q, n=None):
        r = self.by_q.get(q, [])
        return r

    def subclasses(self, q):
        return [r for r in self.recs.values() if q in r.get("allbases", ()) and r["cls"] != q]
