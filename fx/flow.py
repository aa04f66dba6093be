"""Label flow: which stored field / member a value comes from, by abstract execution of the structured AST.
Values are sets of atoms: ("s",str) and ("i",int) constants, ("lab",path) provenance, ("obj",path) reference to an abstract object.
Branches on constants are decided, all others take both sides; containers are collapsed to one element; objects are named by
allocation site and call string."""
from .prog import walk

EMPTY = frozenset()


def labs(v): return {a[1] for a in v if a[0] == "lab"}
def objs(v): return {a[1] for a in v if a[0] == "obj"}
def consts(v): return {a for a in v if a[0] in ("s", "i")}


class Stop(Exception): pass


class Thrown(Stop): pass


class Frame:
    __slots__ = ("f", "id", "this", "alias", "rets", "lvl")

    def __init__(self, f, fid, this):
        self.f = f; self.id = fid; self.this = this; self.alias = {}; self.rets = set(); self.lvl = {}


class Flow:
    def __init__(self, prog, hook, inline, maxdepth=10):
        self.p = prog; self.hook = hook; self.inline = inline; self.maxdepth = maxdepth
        self.env = {}
        self.roots = set()       # symbolic roots: reading an unset path below gives its label
        self.undecided = 0
        self.depth = 0
        self.steps = 0
        self.frames = []
        self.inlined = set()
        self.visited = set()     # functions executed
        self.loops = []          # number of guards where the enclosing loops begin, None: a call
        self.guards = []         # undecided conditions under which the current statement runs

    # ---- memory
    def symbolic(self, path): return path[:1] in self.roots or path[:2] in self.roots

    def load(self, path):
        out = {("obj", path)}
        v = self.env.get(path)
        if v: out |= v
        if self.symbolic(path) and (not v or not any(a[0] in ("lab",) for a in v)): out.add(("lab", path))
        return frozenset(out)

    def store(self, path, v, strong=False):
        v = frozenset(a for a in v if a != ("obj", path))
        if strong: self.env[path] = v
        else: self.env[path] = self.env.get(path, EMPTY) | v

    def collect(self, v, seen=None):
        """all labels reachable from a value (through objects)"""
        seen = set() if seen is None else seen
        out = set()
        for a in v:
            if a[0] == "lab": out.add(a[1])
            elif a[0] == "obj" and a[1] not in seen:
                seen.add(a[1])
                n = len(a[1])
                for q, w in list(self.env.items()):
                    if q[:n] == a[1]: out |= self.collect(w, seen)
        return out

    def leaves(self, root, seen=None):
        """member suffix -> labels of everything stored below root"""
        seen = seen or set()
        out = {}
        if root in seen: return out
        seen = seen | {root}
        n = len(root)
        for q, w in list(self.env.items()):
            if q[:n] != root: continue
            suf = q[n:]
            l = labs(w)
            c = consts(w)
            if l or c: out.setdefault(suf, set()).update(l); out.setdefault(("const",) + suf, set()).update(c)
            for o in objs(w):
                for s2, l2 in self.leaves(o, seen).items():
                    if s2[:1] == ("const",): out.setdefault(("const",) + suf + s2[1:], set()).update(l2)
                    else: out.setdefault(suf + s2, set()).update(l2)
        return out

    # ---- execution
    def call_fn(self, f, this, args, site, argnodes=None, caller=None):
        """args: values; returns the value"""
        fid = (self.frames[-1].id if self.frames else ()) + (site,)
        fr = Frame(f, fid, this)
        if self.depth >= self.maxdepth: return frozenset().union(*args) if args else EMPTY
        self.inlined.add(f.key)
        for prm, v in zip(f.params, args):
            path = ("v", fid, prm["id"])
            t = f.types[prm["t"]]
            o = objs(v)
            if (t.endswith("&") or t.endswith("*")) and o and t.endswith("&"): fr.alias[prm["id"]] = set(o)
            if not (t.endswith("&") and o): self.store(path, v, strong=True)
            fr.lvl[prm["id"]] = self.undecided
        self.frames.append(fr); self.depth += 1
        save = self.undecided; ng = len(self.guards)
        self.visited.add(f.key); self.loops.append(None)
        try:
            if f.d.get("ctor"):
                for i in f.d.get("inits", ()):
                    e = i.get("e")
                    if e is None: continue
                    if i.get("f"):
                        for t in this: self.store(t + (i["f"],), self.ev(fr, e))
                    else:
                        x = e
                        while x.get("k") in ("Tmp", "Cast"): x = x["e"]
                        if x.get("k") == "Ctor" and x.get("f") in self.p.fns:
                            self.call_fn(self.p.fns[x["f"]], this, [self.ev(fr, a) for a in x.get("a", ()) if a is not None], ("base", e.get("l")))
                        else: self.ev(fr, e)
            if f.body is not None:
                try: self.ex(fr, f.body)
                except Stop: pass
        finally:
            self.frames.pop(); self.depth -= 1; self.undecided = save; del self.guards[ng:]; self.loops.pop()
        return frozenset(fr.rets)

    def truth(self, v):
        c = consts(v)
        if len(c) == 1:
            a = next(iter(c))
            return bool(a[1]) if a[0] == "i" else True
        return None

    def both(self, thunks):
        """several alternatives of which any may run; Stop only if all stop"""
        stops = 0
        self.undecided += 1
        for t in thunks:
            lvl = self.undecided
            try: t()
            except Stop: stops += 1
            self.undecided = lvl
        self.undecided -= 1
        if stops == len(thunks): raise Stop()

    def ex(self, fr, s):
        if s is None: return
        self.steps += 1
        if self.steps > 400000: raise RuntimeError("label flow: too many steps")
        k = s["k"]
        if k == "Comp":
            for c in s["s"]: self.ex(fr, c)
        elif k == "Expr":
            e = s["e"]
            self.ev(fr, e)
            if e is not None and (e.get("k") == "Throw" or e.get("nr")): raise Thrown()
        elif k == "Decl":
            for v in s["v"]: self.decl(fr, v)
        elif k == "If":
            if s.get("i"): self.ex(fr, s["i"])
            if s.get("cvd"): self.decl(fr, s["cvd"])
            cv = self.ev(fr, s["c"])
            t = self.truth(cv)
            if t is True: self.ex(fr, s["t"])
            elif t is False: self.ex(fr, s.get("e"))
            else:
                g = self.guard(fr, s["c"])
                n = len(self.guards)
                ended = {}
                def arm(i, b):
                    del self.guards[n:]
                    self.guards.append(g)
                    try: self.ex(fr, b)
                    except Stop as x:
                        ended[i] = x
                        raise
                    finally: del self.guards[n:]
                self.both([lambda: arm(0, s["t"]), lambda: arm(1, s.get("e"))])
                if len(ended) == 1 and not isinstance(next(iter(ended.values())), Thrown): self.guards.append(g)
        elif k in ("While", "Do", "For"):
            if s.get("i"): self.ex(fr, s["i"])
            ng = len(self.guards)
            self.loops.append(ng)
            for _ in range(2):
                del self.guards[ng:]
                if k != "Do" and s.get("cvd"): self.decl(fr, s["cvd"])
                if k != "Do" and s.get("c") is not None: self.ev(fr, s["c"])
                try: self.ex(fr, s["b"])
                except Stop: pass
                if s.get("n"): self.ev(fr, s["n"])
                if k == "Do": self.ev(fr, s["c"])
            if k != "Do" and s.get("c") is not None: self.ev(fr, s["c"])
            del self.guards[ng:]; self.loops.pop()
        elif k == "RFor":
            rv = self.ev(fr, s["r"])
            v = s["v"]
            ng = len(self.guards)
            self.loops.append(ng)
            for _ in range(2):
                self.bind(fr, v, rv)
                try: self.ex(fr, s["b"])
                except Stop: pass
                del self.guards[ng:]
            self.loops.pop()
        elif k == "Switch":
            c = consts(self.ev(fr, s["c"]))
            body = s["b"]["s"] if s["b"] is not None and s["b"]["k"] == "Comp" else [s["b"]]
            groups = []   # (values, statements)
            for st in body:
                vals = None
                x = st
                while x is not None and x["k"] in ("Case", "Default"):
                    vals = vals or []
                    vals.append(x["v"].get("cv") if x["k"] == "Case" else "default")
                    x = x["s"]
                if vals is not None: groups.append((vals, [x]))
                elif groups: groups[-1][1].append(st)
            def run(i):
                def go():
                    try:
                        for j in range(i, len(groups)):
                            for st in groups[j][1]: self.ex(fr, st)
                    except StopIteration: pass
                return go
            want = None
            if len(c) == 1:
                val = next(iter(c))[1]
                want = [i for i, g in enumerate(groups) if val in g[0]] or [i for i, g in enumerate(groups) if "default" in g[0]]
                if want: self.swrun(run(want[0]))
            else:
                alts = [(lambda i=i: self.swrun(run(i))) for i in range(len(groups))]
                if not any("default" in g[0] for g in groups): alts.append(lambda: None)
                if alts: self.both(alts)
        elif k == "Break": raise Brk()
        elif k == "Continue": raise Stop()
        elif k == "Ret":
            if s.get("e") is not None:
                fr.rets |= self.ev(fr, s["e"])
            raise Stop()
        elif k == "Try":
            self.both([lambda: self.ex(fr, s["b"])] + [(lambda h=h: self.ex(fr, h["b"])) for h in s["h"]])
        elif k in ("Omp",): self.ex(fr, s.get("b"))
        elif k == "Label": self.ex(fr, s["s"])
        elif k in ("Case", "Default"): self.ex(fr, s["s"])

    def guard(self, fr, c):
        """(text, location, labels involved, is it a mere presence test)"""
        lab = set()
        for x in walk(c):
            if x.get("k") in ("Ref", "Mem", "Call"):
                try: lab |= self.collect(self.ev(fr, x)) if x.get("k") != "Call" or x.get("this") is not None else set()
                except Stop: pass
        return (fr.f.loc(c), frozenset(lab), presence(c))

    def swrun(self, go):
        try: go()
        except Brk: pass

    def bind(self, fr, v, val):
        """(re)define a variable"""
        vid = v["id"]
        t = fr.f.types[v["t"]]
        path = ("v", fr.id, vid)
        fr.lvl[vid] = self.undecided
        o = objs(val)
        if v.get("ref") and o:
            fr.alias[vid] = set(o)
        else:
            fr.alias.pop(vid, None)
            n = len(path)
            for q in [q for q in self.env if q[:n] == path]: del self.env[q]
            self.store(path, val, strong=True)

    def decl(self, fr, v):
        val = self.ev(fr, v["i"]) if v.get("i") is not None else EMPTY
        self.bind(fr, v, val)

    # ---- expressions
    def lv(self, fr, e):
        """paths an lvalue expression may denote (None: not an lvalue)"""
        if e is None: return None
        k = e.get("k")
        if k == "Ref":
            if e.get("dk") in ("param", "local", "slocal"):
                for g in reversed(self.frames):          # captured variables of enclosing frames
                    if e["id"] in g.alias: return set(g.alias[e["id"]])
                    if ("v", g.id, e["id"]) in self.env or e["id"] in g.lvl: return {("v", g.id, e["id"])}
                return {("v", fr.id, e["id"])}
            if e.get("dk") == "global": return {("g", e["g"])}
            return None
        if k == "This": return set(fr.this) if fr.this else None
        if k == "Mem":
            if e.get("dk") in ("func",): return None
            b = self.base(fr, e.get("b"))
            if b is None: return None
            return {x + (e["n"],) for x in b}
        if k in ("Cast", "Tmp"): return self.lv(fr, e["e"])
        if k == "Un" and e.get("op") in ("*",): return self.base(fr, e["a"])
        if k == "Idx": self.ev(fr, e["i"]); return self.base(fr, e["a"])
        if k == "Call" and e.get("op") in ("->", "*") and e.get("this") is not None and not e.get("a"): return self.base(fr, e["this"])
        return None

    def base(self, fr, e):
        """objects that e denotes or points to"""
        l = self.lv(fr, e)
        if l is not None:
            out = set(l)
            for x in l: out |= objs(self.env.get(x, EMPTY))
            return out
        o = objs(self.ev(fr, e))
        return o or None

    def ev(self, fr, e):
        if e is None: return EMPTY
        k = e.get("k")
        if k == "Str": return frozenset({("s", e.get("v", ""))})
        if k in ("Ref", "Mem", "This", "Idx"):
            if k == "Ref" and e.get("dk") == "enum": return frozenset({("i", e.get("cv"))})
            if e.get("cv") is not None and k == "Ref" and e.get("dk") == "global": return frozenset({("i", e["cv"])})
            if k == "Ref" and e.get("dk") == "global":
                s = self.gstr(e["g"])
                if s is not None: return frozenset({("s", s)})
            if k == "Ref" and e.get("dk") == "func": return frozenset({("fn", e["f"])})
            l = self.lv(fr, e)
            if l is None: return EMPTY
            return frozenset().union(*[self.load(x) for x in l]) if l else EMPTY
        if k == "Un":
            if e["op"] == "&":
                l = self.lv(fr, e["a"])
                if l is not None: return frozenset(("obj", x) for x in l) | frozenset().union(*[self.env.get(x, EMPTY) for x in l])
                return self.ev(fr, e["a"])
            if e["op"] == "*":
                l = self.lv(fr, e)
                return frozenset().union(*[self.load(x) for x in l]) if l else EMPTY
            v = self.ev(fr, e["a"])
            if e["op"] == "!":
                t = self.truth(v)
                return EMPTY if t is None else frozenset({("i", int(not t))})
            if e["op"] == "-" and e.get("cv") is not None: return frozenset({("i", e["cv"])})
            return frozenset(a for a in v if a[0] == "lab") if e["op"] not in ("+",) else v
        if k == "Asg":
            v = self.ev(fr, e["b"])
            self.assign(fr, e["a"], v, e["op"] == "=")
            return v
        if k == "Bin":
            a = self.ev(fr, e["a"])
            if e["op"] in ("&&", "||"):
                t = self.truth(a)
                if t is not None and t == (e["op"] == "||"): return frozenset({("i", int(t))})
                b = self.ev(fr, e["b"])
                tb = self.truth(b)
                if tb is None: return EMPTY
                if t is None: return frozenset({("i", int(tb))}) if tb == (e["op"] == "||") else EMPTY
                return frozenset({("i", int(tb))})
            b = self.ev(fr, e["b"])
            if e["op"] in ("==", "!=", "<", ">", "<=", ">="): return self.compare(e["op"], a, b)
            return frozenset(x for x in a | b if x[0] in ("lab", "obj"))
        if k == "Cond":
            t = self.truth(self.ev(fr, e["c"]))
            if t is True: return self.ev(fr, e["a"])
            if t is False: return self.ev(fr, e["b"])
            self.undecided += 1
            r = self.ev(fr, e["a"]) | self.ev(fr, e["b"])
            self.undecided -= 1
            return r
        if k == "Cast":
            v = self.ev(fr, e["e"])
            return v
        if k == "Tmp": return self.ev(fr, e["e"])
        if k in ("Int", "Zero") or (e.get("cv") is not None and k != "Call"):
            return frozenset({("i", e.get("cv", 0))})
        if k == "Ctor": return self.ctor(fr, e)
        if k == "Init": return self.aggregate(fr, e, e.get("fl"), [self.ev(fr, a) for a in e.get("a", ())])
        if k == "New": return self.ev(fr, e.get("e")) if e.get("e") else EMPTY
        if k == "Call": return self.call(fr, e)
        if k == "Lambda": return frozenset({("fn", e["f"])})
        if k == "Throw":
            self.ev(fr, e.get("e"))
            return EMPTY
        if k == "Other":
            out = EMPTY
            for c in e.get("ch", ()): out |= self.ev(fr, c)
            return out
        return EMPTY

    def compare(self, op, a, b):
        ca, cb = consts(a), consts(b)
        if len(ca) == 1 and len(cb) == 1:
            x, y = next(iter(ca)), next(iter(cb))
            if x[0] == y[0] and x[1] is not None and y[1] is not None:
                r = {"==": x[1] == y[1], "!=": x[1] != y[1], "<": x[1] < y[1], ">": x[1] > y[1], "<=": x[1] <= y[1], ">=": x[1] >= y[1]}[op]
                return frozenset({("i", int(r))})
        return EMPTY

    def gstr(self, g):
        x = self.p.globs.get(g)
        if x is None or x.get("i") is None: return None
        e = x["i"]
        while e is not None and e.get("k") in ("Cast", "Tmp", "Ctor"):
            a = [y for y in (e.get("a", ()) if e["k"] == "Ctor" else [e["e"]]) if y is not None]
            e = a[0] if a else None
        return e.get("v") if e is not None and e.get("k") == "Str" else None

    def temp(self, fr, e, tag): return ("t", fr.id, id(e), tag)

    def aggregate(self, fr, e, names, vals):
        if not names and len(vals) == 1: return vals[0]
        t = self.temp(fr, e, "agg")
        for i, v in enumerate(vals):
            self.store(t + (names[i] if names and i < len(names) else str(i),), v, strong=self.undecided == 0)
        return frozenset({("obj", t)})

    TUPLE = ("std::tuple<", "std::pair<")

    def ctor(self, fr, e):
        args = [a for a in e.get("a", ()) if a is not None]
        vals = [self.ev(fr, a) for a in args]
        cls = e.get("cls", "")
        if e.get("cm") in ("copy", "move") and vals: return vals[0]
        h = self.hook(self, fr, e, None, vals)
        if h is not None: return h
        if e.get("f") in self.p.fns and self.inline(self.p.fns[e["f"]]):
            t = self.temp(fr, e, "obj")
            self.call_fn(self.p.fns[e["f"]], {t}, vals, id(e))
            return frozenset({("obj", t)})
        if cls.startswith("std::tuple") or cls.startswith("std::pair"):
            if len(vals) > 1: return self.aggregate(fr, e, ["first", "second"] if cls.startswith("std::pair") else None, vals)
        return frozenset().union(*vals) if vals else EMPTY

    def assign(self, fr, lhs, v, strong=False):
        l = self.lv(fr, lhs)
        if l is None:
            if lhs.get("k") == "Call": l = objs(self.ev(fr, lhs))
            elif lhs.get("k") == "Cond":
                self.assign(fr, lhs["a"], v); self.assign(fr, lhs["b"], v); return
        for x in l or ():
            st = False
            if strong and len(l) == 1 and x[0] == "v" and len(x) == 3 and lhs.get("k") == "Ref" and x[1] == fr.id:
                st = fr.lvl.get(x[2], 0) == self.undecided
            self.store(x, v, strong=st)

    OUTLAST = ("std::copy", "std::copy_n", "std::transform", "std::move", "std::copy_backward")
    NOLAB = ("size", "length", "empty", "count", "end", "cend", "max_size", "capacity")

    def call(self, fr, e):
        th = self.ev(fr, e["this"]) if e.get("this") is not None else None
        args = [self.ev(fr, a) for a in e.get("a", ())]
        q = e.get("q") or ""
        name = q.split("::")[-1]
        h = self.hook(self, fr, e, th, args)
        if h is not None: return h
        op = e.get("op")
        if op in ("==", "!=", "<", ">", "<=", ">="):
            vals = ([th] if th is not None else []) + args
            if len(vals) == 2: return self.compare(op, vals[0], vals[1])
        if op == "=" and e.get("this") is not None and args and not (e.get("f") in self.p.fns and self.inline(self.p.fns[e["f"]])):
            self.assign(fr, e["this"], args[0], True)
            return th
        if op == "()" or (e.get("f") is None and e.get("c") is not None):
            fns = {a[1] for a in (th or EMPTY) | (self.ev(fr, e["c"]) if e.get("c") is not None else EMPTY) if a[0] == "fn"}
            out = EMPTY
            for k in fns:
                if k in self.p.fns: out |= self.call_fn(self.p.fns[k], fr.this, args, id(e))
            if fns: return out
        keys = self.p.callee_keys(fr.f, e)
        tgt = [self.p.fns[k] for k in keys if k in self.p.fns and self.inline(self.p.fns[k])]
        if tgt and len(keys) <= 4 and e.get("f") is not None and (e["f"] in keys or e.get("v")):
            this = self.base(fr, e["this"]) if e.get("this") is not None else None
            if e.get("this") is not None and not this: this = {self.temp(fr, e, "this")}
            out = EMPTY
            if e.get("v") and e["f"] in self.p.fns: tgt = [self.p.fns[e["f"]]] if self.inline(self.p.fns[e["f"]]) else tgt
            for g in tgt: out |= self.call_fn(g, this, args, id(e))
            return out
        # containers and other externals
        if e.get("this") is not None and not e.get("rp"):
            tt = fr.f.type(e["this"])
            b = self.base(fr, e["this"])
            if op == "[]" or name in ("at", "front", "back"):
                ismap = "map<" in tt
                if b:
                    if ismap:
                        for x in b: self.store(x + ("first",), args[0] if args else EMPTY)
                        return frozenset().union(*[self.load(x + ("second",)) for x in b])
                    return frozenset().union(*[self.load(x) for x in b])
                return th
            if name in ("push_back", "emplace_back", "insert", "push_front", "emplace", "assign", "append", "reset", "operator+="):
                v = frozenset().union(*args) if args else EMPTY
                if "map<" in tt and len(args) == 2:
                    for x in b or (): self.store(x + ("first",), args[0]); self.store(x + ("second",), args[1])
                elif name in ("emplace_back", "emplace") and len(args) > 1:
                    v = self.aggregate(fr, e, None, args)
                    for x in b or (): self.store(x, v)
                else:
                    for x in b or (): self.store(x, v)
                return th
            if name in self.NOLAB: return EMPTY
            if op in ("<<", "+="):
                for x in b or (): self.store(x, args[0] if args else EMPTY)
                return th
            return th | frozenset(a for v in args for a in v if a[0] == "lab")
        if name in ("make_tuple", "make_pair", "tie"):
            return self.aggregate(fr, e, ["first", "second"] if name == "make_pair" else None, args)
        if q == "std::get" and args:
            import re
            m = re.match(r"_ZSt3getILm(\d+)E", e.get("f") or "")
            if m:
                b = self.base(fr, e["a"][0]) or set()
                i = m.group(1)
                if "pair<" in fr.f.type(e["a"][0]): i = {"0": "first", "1": "second"}[i]
                return frozenset().union(*[self.load(x + (i,)) for x in b]) if b else EMPTY
        if q in self.OUTLAST and len(args) >= 2 and q != "std::move":
            src = frozenset().union(*args[:-1])
            lab = frozenset(a for a in src if a[0] == "lab") | frozenset(("lab", l) for l in self.collect(src))
            for x in objs(args[-1]):
                self.store(x, lab)
                self.written(x, lab)
            return args[-1]
        out = frozenset().union(*args) if args else EMPTY
        if th is not None: out |= th
        lab = frozenset(("lab", l) for l in labs(out))
        for a, v in zip(e.get("a", ()), args):
            if a is not None and a.get("k") == "Un" and a.get("op") == "&":
                for x in objs(v): self.store(x, lab)
        if th is not None and e.get("rp") and not e.get("mc"):
            for x in self.base(fr, e["this"]) or (): self.store(x, lab)
        return frozenset(a for a in out if a[0] != "i")

    def written(self, path, lab): pass


class Brk(Stop): pass


def presence(c):
    """tests of the form: x, !x, x > 0, x != 0, x.size() > 0, !x.empty(), it == end"""
    while c is not None and (c.get("k") in ("Cast", "Tmp") or (c.get("k") == "Un" and c.get("op") == "!") or (c.get("k") == "Call" and c.get("conv"))):
        c = c.get("e") if c["k"] in ("Cast", "Tmp") else c.get("a") if c["k"] == "Un" else c.get("this")
    if c is None: return True
    if c.get("k") in ("Ref", "Mem"): return True
    if c.get("k") == "Ctor" and len(c.get("a", ())) == 1: return presence(c["a"][0])
    if c.get("k") == "Bin" and c.get("op") in ("&&", "||"): return presence(c["a"]) and presence(c["b"])
    if c.get("k") == "Bin" and c.get("op") in ("==", "!=", ">", "<", ">=", "<="):
        z = lambda x: x is not None and (x.get("cv") == 0 or x.get("null") or x.get("k") in ("Null", "Zero"))
        if c["op"] in (">", "!=", "==") and z(c["b"]): return True
        if c["op"] in ("<", "!=", "==") and z(c["a"]): return True
        if c["op"] == ">=" and c["b"] is not None and c["b"].get("cv") == 1: return True
        return False
    if c.get("k") == "Call":
        n = (c.get("q") or "").split("::")[-1]
        if n in ("empty", "size", "get", "hasData") or n.endswith("_size") or n.startswith("has_"): return True
        if c.get("op") in ("==", "!=") and any(y.get("k") == "Call" and (y.get("q") or "").split("::")[-1] in ("end", "cend") for y in walk(c)): return True
    return False
