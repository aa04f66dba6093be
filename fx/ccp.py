"""Conditional constant propagation: specialises a function for given values of some of its inputs and reports which
statements stay reachable and which values it may return.  Values: int/float, ("s", str), ("f", key), ("g", global), tuples
("rec", ...) for aggregates, TOP for anything unknown."""
from .cfg import CFG
import re
from .prog import walk, N, children

TOP = ("top",)


def path(n):
    """canonical text of an access expression (None when it is not one)"""
    if n is None: return None
    k = n.get("k")
    if k == "Ref":
        if n.get("dk") in ("param", "local", "slocal"): return "v%d" % n["id"]
        if n.get("dk") == "global": return "g:" + n["g"]
        return None
    if k == "This": return "this"
    if k == "Mem":
        b = path(n.get("b"))
        return None if b is None else b + "." + n["n"]
    if k == "Cast": return path(n.get("e"))
    if k == "Un" and n.get("op") == "*":
        return path(n["a"])
    if k == "Call" and n.get("f") is not None:
        q = n.get("q") or ""
        if n.get("op") in ("->", "*") and n.get("this") is not None: return path(n["this"])
        if n.get("this") is not None:
            b = path(n["this"])
            if b is None: return None
            if q.endswith("::get") and not n.get("a"): return b
            a = [path(x) or (str(x.get("cv")) if x is not None and x.get("cv") is not None else None) for x in n.get("a", ())]
            if any(x is None for x in a): return None
            return "%s.%s(%s)" % (b, q.split("::")[-1], ",".join(a))
    return None


def isstr(c):
    return c.startswith("std::basic_string<") or c.startswith("std::__cxx11::basic_string<") or c == "std::string"


class CCP:
    handlers = False    # also follow exception edges into handlers
    pin = True          # values given to run() are not forgotten by assignments of unknown values
    on_call = None      # on_call(fn, call, this value, argument values): every call evaluated at depth 0

    def __init__(self, prog, maxdepth=4, follow=None, builtin=None):
        self.p = prog; self.maxdepth = maxdepth
        self.cfgs = {}
        self.memo = {}
        self.exits = {}
        self.edges = {}
        self.follow = follow or (lambda fn: True)
        self.builtin = builtin

    def cfg(self, f):
        if f.key not in self.cfgs:
            self.cfgs[f.key] = CFG(f.body, maythrow=lambda n: self.handlers, inits=f.d.get("inits", ()))
        return self.cfgs[f.key]

    def gval(self, g):
        """constant value of a global"""
        x = self.p.globs.get(g)
        if x is None or not x.get("const"): return TOP
        if x.get("i") is None: return TOP
        return self.const_of(x["i"], x)

    def const_of(self, e, g=None):
        """value of a constant initialiser"""
        if e is None: return TOP
        if e.get("cv") is not None: return e["cv"]
        k = e.get("k")
        if k == "Str": return ("s", e.get("v", ""))
        if k == "Flt": return e["v"]
        if k == "Un" and e.get("op") == "-":
            v = self.const_of(e["a"]); return -v if isinstance(v, (int, float)) else TOP
        if k in ("Ctor", "Cast", "Tmp"):
            if k == "Ctor" and e.get("f") in self.p.fns and e.get("cm") not in ("copy", "move"):
                return self.record(e["f"], [self.const_of(x) for x in e.get("a", ())])
            a = e.get("a") if k == "Ctor" else [e.get("e")]
            a = [x for x in (a or ()) if x is not None and not (x.get("k") == "Ctor" and "allocator" in x.get("cls", ""))]
            if k == "Ctor" and not a and isstr(e.get("cls", "")): return ("s", "")
            if len(a) >= 1:
                v = self.const_of(a[0])
                if len(a) == 1 or (k == "Ctor" and isstr(e.get("cls", "")) and isinstance(v, tuple) and v[0] == "s"): return v
            return TOP
        if k == "Init":
            return ("rec", tuple(zip(e.get("fl") or range(99), (self.const_of(x) for x in e.get("a", ())))))
        if k == "Ref" and e.get("dk") == "global": return self.gval(e["g"])
        if k == "Ref" and e.get("dk") == "func": return ("f", e["f"])
        if k == "Un" and e.get("op") == "&": return self.const_of(e["a"])
        return TOP

    def record(self, key, args):
        """value of an object made by a constructor that only initialises members"""
        g = self.p.fns[key]
        env = {"v%d" % prm["id"]: v for prm, v in zip(g.params, args)}
        ctx = {"seed": set(env), "depth": self.maxdepth, "calls": []}
        out = tuple((i["f"], self.ev(g, i["e"], env, ctx)) for i in g.d.get("inits", ()) if i.get("f"))
        if not out or (g.body is not None and g.body.get("s")): return TOP
        return ("rec", out)

    # -- expression evaluation
    def ev(self, f, e, env, ctx):
        if e is None: return TOP
        k = e.get("k")
        if k == "Ref" and e.get("dk") in ("param", "local", "slocal") and ("v%d" % e["id"]) in env: return env["v%d" % e["id"]]
        if k in ("Mem", "Call"):
            pt = path(e)
            if pt is not None and pt in env:
                return env[pt]
        if k == "Call":
            return self.ev_call(f, e, env, ctx)
        if k == "Asg":
            r = self.ev(f, e["b"], env, ctx)
            v = r
            if e["op"] != "=": v = self.binop(e["op"][:-1], self.ev(f, e["a"], env, ctx), r, {})
            self.assign(e["a"], v, env, ctx)
            return v
        if k == "Un":
            if e["op"] in ("++", "--", "p++", "p--"):
                self.assign(e["a"], TOP, env, ctx); return TOP
            v = self.ev(f, e["a"], env, ctx)
            if e["op"] == "&":
                if isinstance(v, tuple) and v[0] == "f": return v
                return TOP
            if e["op"] == "*": return v if isinstance(v, tuple) and v[0] == "f" else TOP
            if v == TOP: return e["cv"] if e.get("cv") is not None else TOP
            if e["op"] == "!": return int(not v) if isinstance(v, (int, float)) else TOP
            if e["op"] == "-" and isinstance(v, (int, float)): return -v
            return TOP
        if k == "Bin":
            a = self.ev(f, e["a"], env, ctx); 
            if e["op"] == "&&":
                if a == 0: return 0
                b = self.ev(f, e["b"], env, ctx)
                if b == 0 and isinstance(b, int): return 0
                return 1 if a not in (TOP, 0) and b not in (TOP, 0) else TOP
            if e["op"] == "||":
                if a != TOP and a: return 1
                b = self.ev(f, e["b"], env, ctx)
                if b != TOP and b: return 1
                return 0 if a == 0 and b == 0 else TOP
            b = self.ev(f, e["b"], env, ctx)
            return self.binop(e["op"], a, b, e)
        if k == "Cond":
            c = self.ev(f, e["c"], env, ctx)
            if c != TOP: return self.ev(f, e["a"] if c else e["b"], env, ctx)
            a = self.ev(f, e["a"], env, ctx); b = self.ev(f, e["b"], env, ctx)
            return a if a == b else TOP
        if k == "Cast": return self.ev(f, e["e"], env, ctx)
        if k == "Tmp": return self.ev(f, e["e"], env, ctx)
        if k == "Ctor":
            a = [x for x in e.get("a", ()) if x is not None]
            vs = [self.ev(f, x, env, ctx) for x in a]
            if self.on_call is not None and ctx["depth"] == 0: self.on_call(f, e, None, vs)
            if e.get("cls", "").startswith(("std::basic_regex", "std::__cxx11::basic_regex")) and vs and isinstance(vs[0], tuple) and vs[0][0] == "s": return ("re", vs[0][1])
            if e.get("f") in self.p.fns and e.get("cm") not in ("copy", "move"): return self.record(e["f"], vs)
            if len(vs) == 1 and (e.get("cm") in ("copy", "move") or isstr(e.get("cls", "")) or e.get("cls", "").startswith("std::function")): return vs[0]
            if isstr(e.get("cls", "")):
                if not vs: return ("s", "")
                if isinstance(vs[0], tuple) and vs[0][0] == "s" and len(vs) == 2 and vs[1] == TOP: return vs[0]
            return TOP
        if k == "Lambda": return ("f", e["f"])
        if k == "Ref" and e.get("dk") == "func": return ("f", e["f"])
        if k == "Ref" and e.get("dk") == "global":
            if e.get("cv") is not None: return e["cv"]
            return self.gval(e["g"])
        if e.get("cv") is not None: return e["cv"]
        if k == "Str": return ("s", e.get("v", ""))
        if k == "Flt": return e["v"]
        if e.get("null") or k == "Null": return 0
        if k == "Init": return ("rec", tuple(zip(e.get("fl") or range(99), [self.ev(f, x, env, ctx) for x in e.get("a", ())])))
        if k == "Mem":
            b = self.ev(f, e.get("b"), env, ctx)
            if isinstance(b, tuple) and b[0] == "rec":
                for fl, v in b[1]:
                    if fl == e["n"]: return v
            return TOP
        if k != "Lambda":
            for c in children(e): self.ev(f, c, env, ctx)
        return TOP

    def binop(self, op, a, b, e):
        if a == TOP or b == TOP: return e["cv"] if e.get("cv") is not None else TOP
        try:
            if op == "==": return int(a == b)
            if op == "!=": return int(a != b)
            if isinstance(a, tuple) or isinstance(b, tuple): return TOP
            if op == "<": return int(a < b)
            if op == "<=": return int(a <= b)
            if op == ">": return int(a > b)
            if op == ">=": return int(a >= b)
            if op == "+": return a + b
            if op == "-": return a - b
            if op == "*": return a * b
            if op == "&": return a & b
            if op == "|": return a | b
        except TypeError:
            pass
        return TOP

    def assign(self, lhs, v, env, ctx):
        pt = path(lhs)
        if pt is None: return
        if v == TOP and pt in ctx["seed"]: return
        for k in [k for k in env if k.startswith(pt + ".")]:
            if k not in ctx["seed"]: env.pop(k)
        env[pt] = v

    def ev_call(self, f, e, env, ctx):
        th = self.ev(f, e["this"], env, ctx) if e.get("this") is not None else None
        args = [self.ev(f, a, env, ctx) for a in e.get("a", ())]
        if e.get("c") is not None: self.ev(f, e["c"], env, ctx)
        q = e.get("q") or ""
        if self.on_call is not None and ctx["depth"] == 0: self.on_call(f, e, th, args)
        if self.builtin is not None:
            r = self.builtin(q, e, th, args)
            if r is not None: return r
        op = e.get("op")
        vals = ([th] if th is not None else []) + args
        if op == "+" and len(vals) == 2 and q.startswith("std::") and isinstance(vals[1], tuple) and vals[1][0] == "s" and len(vals[1][1]) > 1:
            if isinstance(vals[0], tuple) and vals[0][0] == "s": return ("s", vals[0][1] + vals[1][1])
            if vals[0] == TOP: return ("sfx", vals[1][1])       # unknown text with a known end
        if any(isinstance(v, tuple) and v[0] == "sfx" for v in vals) and not e.get("rp"): return TOP
        if op in ("==", "!=") and len(vals) == 2 and vals[0] != TOP and vals[1] != TOP and (q.startswith("std::") or not e.get("rp")):
            return int((vals[0] == vals[1]) == (op == "=="))
        if q in ("strcmp", "std::strcmp", "strcasecmp") and len(args) == 2 and TOP not in args:
            a, b = args
            if isinstance(a, tuple) and isinstance(b, tuple) and a[0] == b[0] == "s":
                x, y = (a[1], b[1]) if q != "strcasecmp" else (a[1].lower(), b[1].lower())
                return (x > y) - (x < y)
        if all(isinstance(a, tuple) and a[0] == "s" for a in args[:2]) and args:
            if q in ("strlen", "std::strlen"): return len(args[0][1])
            if q in ("strncmp", "std::strncmp", "strncasecmp") and len(args) == 3 and isinstance(args[2], int):
                x, y = args[0][1][:args[2]], args[1][1][:args[2]]
                if q == "strncasecmp": x, y = x.lower(), y.lower()
                return (x > y) - (x < y)
        if isinstance(th, tuple) and th[0] == "s":
            if q.endswith("::size") or q.endswith("::length"): return len(th[1])
            if q.endswith("::compare") and len(args) == 1 and isinstance(args[0], tuple) and args[0][0] == "s": return (th[1] > args[0][1]) - (th[1] < args[0][1])
            r = strop(q.rsplit("::", 1)[-1], th[1], args)
            if r is not None: return r
        if q in ("std::regex_match", "std::regex_search") and args:
            rx = [a for a in args if isinstance(a, tuple) and a[0] == "re"]
            if len(rx) == 1 and isinstance(args[0], tuple) and args[0][0] == "s":
                try: m = (re.fullmatch if q.endswith("match") else re.search)(rx[0][1], args[0][1])
                except re.error: return TOP
                if len(e["a"]) >= 3 and "match_results" in f.type(e["a"][1]):
                    self.assign(e["a"][1], ("match",) + tuple((None if m is None else m.group(i)) for i in range(re.compile(rx[0][1]).groups + 1)), env, ctx)
                return int(m is not None)
            for a in e.get("a", ()):
                if a is not None and "match_results" in f.type(a): self.assign(a, TOP, env, ctx)
            return TOP
        if op in ("|", "&", "^") and len(vals) == 2 and all(isinstance(v, int) for v in vals) and q.startswith("std::"):
            return vals[0] | vals[1] if op == "|" else vals[0] & vals[1] if op == "&" else vals[0] ^ vals[1]
        if isinstance(th, tuple) and th[0] == "match" and q.endswith("::size"): return len(th) - 1
        if isinstance(th, tuple) and th[0] == "match" and q.endswith("::empty"): return 0
        if isinstance(th, tuple) and th[0] == "match" and op == "[]" and args and isinstance(args[0], int) and args[0] + 1 < len(th):
            g0 = th[1 + args[0]]
            return ("rec", (("matched", int(g0 is not None)), ("str", ("s", g0 or ""))))
        if isinstance(th, tuple) and th[0] == "rec" and q.startswith("std::") and q.endswith("::str") and dict(th[1]).get("str"): return dict(th[1])["str"]
        if op == "=" and len(vals) == 2 and e.get("this") is not None:
            self.assign(e["this"], vals[1], env, ctx)
            return vals[1]
        if q.endswith("::c_str") or q.endswith("::data"):
            return th if th is not None else TOP
        if q.endswith("string2lowerCase") and args and isinstance(args[0], tuple) and args[0][0] == "s": return ("s", args[0][1].lower())
        if q.endswith("::empty") and isinstance(th, tuple) and th[0] == "s": return int(not th[1])
        # user code with some constant argument
        for a in e.get("a", ()):
            # arguments passed by reference / pointer may be modified
            if a is not None and a.get("k") == "Un" and a.get("op") == "&": self.assign(a["a"], TOP, env, ctx)
        ks = self.p.callee_keys(f, e)
        if not ks or ctx["depth"] >= self.maxdepth: return TOP
        if len(ks) > 1: return TOP
        kk = next(iter(ks))
        g = self.p.fns[kk]
        if not self.follow(g): return TOP
        if all(a == TOP for a in args) and g.params and th in (None, TOP): return TOP
        for prm, a in zip(g.params, e.get("a", ())):
            t = g.types[prm["t"]]
            if t.endswith("&") and not t.startswith("const ") and a is not None: self.assign(a, TOP, env, ctx)
        seed = {}
        for prm, v in zip(g.params, args):
            if v != TOP: seed["v%d" % prm["id"]] = v
        if th not in (None, TOP) and isinstance(th, tuple) and th[0] == "rec":
            for fl, v in th[1]:
                if v != TOP: seed["this.%s" % fl] = v
        rets, vis = self.run(g, seed, ctx["depth"] + 1)
        mk = (g.key, tuple(sorted((k, repr(v)) for k, v in seed.items())), ctx["depth"] + 1)
        if mk in self.exits and self.exits[mk] is None and g.body is not None: ctx["dead"] = True
        ex = self.exits.get(mk) or {}
        for prm, a in zip(g.params, e.get("a", ())):
            # results handed back through reference parameters
            t = g.types[prm["t"]]
            if t.endswith("&") and not t.startswith("const ") and a is not None and ("v%d" % prm["id"]) in ex:
                self.assign(a, ex["v%d" % prm["id"]], env, ctx)
        ctx["calls"].append((e, g, seed, vis))
        if len(rets) == 1: return next(iter(rets))
        return TOP

    def exit_env(self, f, seed):
        """state at the normal exit of the specialised function; None when it cannot be reached"""
        self.run(f, seed)
        return self.exits.get((f.key, tuple(sorted((k, repr(v)) for k, v in seed.items())), 0))

    def exit_from(self, f, seed, pred):
        """True when, in the specialised function, the normal exit can be reached from a node accepted by pred; None when there is no such node"""
        _, vis = self.run(f, seed)
        taken, ex = self.edges[(f.key, tuple(sorted((k, repr(v)) for k, v in seed.items())), 0)]
        st = [n.id for n, _ in vis if pred(n)]
        if not st: return None
        seen = set(st)
        while st:
            i = st.pop()
            if i == ex: return True
            for j in taken.get(i, ()):
                if j not in seen: seen.add(j); st.append(j)
        return ex in seen

    # -- whole function
    def run(self, f, seed, depth=0):
        """returns (set of returned values, list of (node, calls) reachable)"""
        mk = (f.key, tuple(sorted((k, repr(v)) for k, v in seed.items())), depth)
        if mk in self.memo: return self.memo[mk]
        self.memo[mk] = ({TOP}, [])
        if f.body is None: return self.memo[mk]
        g = self.cfg(f)
        env0 = dict(seed)
        ctx = {"seed": set(seed) if self.pin and depth == 0 else set(), "depth": depth, "calls": []}
        instate = {g.entry.id: env0}
        work = [g.entry]; rets = set(); visited = {}
        returned = {}; taken = {}
        hastry = any(x.get("k") == "Try" for x in walk(f.body))
        n_iter = 0
        while work:
            n = work.pop(); n_iter += 1
            if n_iter > 20000: break
            env = dict(instate[n.id])
            ctx["calls"] = []
            visited[n.id] = (n, ctx["calls"])
            ctx["dead"] = False
            succ = self.step(f, n, env, ctx, returned)
            if ctx["dead"] and not hastry: succ = []
            taken[n.id] = [m.id for m in succ]
            outs = [(m, env) for m in succ]
            if self.handlers and n.exc is not None: outs += [(n.exc, env), (n.exc, instate[n.id])]
            for m, env in outs:
                old = instate.get(m.id)
                if old is None: instate[m.id] = dict(env); work.append(m)
                else:
                    ch = False
                    for k2 in list(old):
                        if k2 not in env or env[k2] != old[k2]:
                            if k2 in ctx["seed"] and k2 not in env: continue
                            if old[k2] != TOP: old[k2] = TOP; ch = True
                    for k2 in env:
                        if k2 not in old: pass
                    if ch: work.append(m)
        for v in returned.values(): rets.add(v)
        if not rets: rets = {TOP} if "noreturn" not in ctx else set()
        res = (rets, list(visited.values()))
        self.memo[mk] = res
        self.exits[mk] = instate.get(g.exit.id)
        self.edges[mk] = (taken, g.exit.id)
        return res

    def step(self, f, n, env, ctx, returned):
        k = n.kind; x = n.x
        if k == "decl":
            vk = "v%d" % x["id"]
            if vk not in ctx["seed"]:
                env[vk] = self.ev(f, x["i"], env, ctx) if x.get("i") is not None else TOP
            elif x.get("i") is not None: self.ev(f, x["i"], env, ctx)
        elif k == "eval": self.ev(f, x, env, ctx)
        elif k == "init":
            self.ev(f, x["e"], env, ctx)
        elif k == "branch":
            v = self.ev(f, x, env, ctx)
            if v != TOP and not isinstance(v, float):
                truth = bool(v) if not isinstance(v, tuple) else True
                return [m for lab, m in n.succ if lab == truth or lab not in (True, False)]
        elif k == "switch":
            v = self.ev(f, x["c"], env, ctx)
            if v != TOP:
                hit = [m for lab, m in n.succ if isinstance(lab, tuple) and lab[0] == "case" and lab[1] == v]
                if hit: return hit
                return [m for lab, m in n.succ if lab in ("default", "nodefault")]
        elif k == "ret":
            v = self.ev(f, x["e"], env, ctx) if x.get("e") is not None else TOP
            old = returned.get(n.id)
            if old is not None and old != v: v = TOP
            returned[n.id] = v
        elif k == "rdecl":
            env["v%d" % x["v"]["id"]] = TOP
        return [m for _, m in n.succ]


NPOS = 2**64 - 1


def strop(op, s, args):
    """std::string operations on constants"""
    a = [x[1] if isinstance(x, tuple) and x[0] == "s" else x for x in args]
    if any(x == TOP or not isinstance(x, (int, str)) for x in a): return None
    n = lambda x: len(s) if x == NPOS or x == -1 else x
    if op == "compare" and len(a) == 3 and isinstance(a[2], str) and isinstance(a[0], int) and a[0] <= len(s):
        x = s[a[0]:a[0] + n(a[1])]
        return (x > a[2]) - (x < a[2])
    if op == "substr" and a and isinstance(a[0], int) and a[0] <= len(s): return ("s", s[a[0]:a[0] + (n(a[1]) if len(a) > 1 else len(s))])
    if op in ("find", "rfind") and a and isinstance(a[0], str):
        if op == "find": r = s.find(a[0], *(a[1:2]))
        elif len(a) > 1 and n(a[1]) < len(s): r = s.rfind(a[0], 0, n(a[1]) + len(a[0]))
        else: r = s.rfind(a[0])
        return r if r >= 0 else NPOS
    return None


def subexprs(n):
    """expression roots of a CFG node"""
    x = n.x
    if x is None: return []
    if n.kind == "decl": return [x["i"]] if x.get("i") is not None else []
    if n.kind in ("eval", "branch"): return [x]
    if n.kind == "switch": return [x["c"]]
    if n.kind == "ret": return [x["e"]] if x.get("e") is not None else []
    if n.kind == "init": return [x["e"]]
    return []
