"""Fate of an error status: path-sensitive propagation of 'this library call failed' from the call to every exit of the function.

A status is represented by the symbol E: a non-zero integer of unknown value and sign.
Outcomes of a failing call S in function f, along each CFG path:
   throw     - an exception (or process exit by a noreturn checker) leaves f
   ret       - f returns the status itself (f becomes a status source for its callers)
   untested  - f continues or ends normally although no branch ever established that the status is an error
   tested    - f ends normally after a branch established the error (tolerated), with the set of results of S read on that path
"""
from collections import defaultdict
from .prog import walk, children
from .cfg import CFG
from .extract import AnalysisError

E = "E"


def unwrap(e):
    while e is not None and e.get("k") in ("Cast", "Tmp", "Paren"): e = e.get("e")
    return e


class StatusAnalysis:
    def __init__(self, ctx, is_source, err_arg, ext_checkers, scope):
        """is_source(q) -> bool: external call returns a status; err_arg(q) -> True if last int* argument receives it"""
        self.p, self.exc = ctx.core, ctx.exc
        self.is_source, self.err_arg, self.ext_checkers, self.scope = is_source, err_arg, ext_checkers, scope
        self.cfgs = {}
        self.sums = {}
        self.busy = set()
        self.wrappers = {}        # fn key -> set of originating library functions
        self.Sval = E
        self.bools = {}           # wrappers that answer with a truth value: fn key -> what they return when the library call fails
        self.scalars = set()      # places of arithmetic type

    def cfg(self, f):
        if f.key not in self.cfgs:
            self.cfgs[f.key] = CFG(f.body, lambda x: bool(self.exc.expr_types(f, x)) if x is not None else False, f.d.get("inits", ()))
        return self.cfgs[f.key]

    # ---- summaries: what does g do when parameter i holds an error
    def summary(self, g, i):
        """-> (may_return, returned values set, thrown)"""
        key = (g.key, i)
        if key in self.sums: return self.sums[key]
        if key in self.busy or g.body is None or i >= len(g.params): return (True, {None})
        self.busy.add(key)
        out = self.explore(g, self.cfg(g).entry, {g.params[i]["id"]: E}, None, set())
        self.busy.discard(key)
        rets = {o[1] for o in out if o[0] == "normal"}
        r = (bool(rets), rets)
        self.sums[key] = r
        return r

    # ---- places
    def place(self, e):
        e = unwrap(e)
        if e is None: return None
        k = e.get("k")
        if k == "Ref" and "id" in e: return ("v", e["id"])
        if k == "Mem":
            b = unwrap(e.get("b") or e.get("e"))
            if b is None or b.get("k") == "This": return ("m", e.get("n"))
            bp = self.place(b)
            return bp + (e.get("n"),) if bp else None
        if k == "Un" and e["op"] in ("&", "*"): return self.place(e["a"])
        if k == "Idx": return self.place(e["a"])
        return None

    def out_places(self, f, c):
        """places the call writes on success"""
        out = set()
        g = self.p.fns.get(c.get("f")) or self.p.decls.get(c.get("f"))
        for i, a in enumerate(c.get("a", ())):
            if a is None: continue
            x = unwrap(a)
            if x is None: continue
            if x.get("k") == "Un" and x["op"] == "&":
                pl = self.place(x["a"])
                if pl:
                    out.add(pl)
                    if scalar(f.type(x["a"])): self.scalars.add(pl)
            elif g is not None and i < len(g.params) and g.types[g.params[i]["t"]].endswith("&") and not g.types[g.params[i]["t"]].startswith("const"):
                pl = self.place(x)
                if pl:
                    out.add(pl)
                    if scalar(f.type(x)): self.scalars.add(pl)
        return out

    # ---- expression evaluation
    def ev(self, f, e, st):
        """st: dict(env, S, outs, tested, killed(bool), reads(list)) ; returns abstract value"""
        if e is None: return None
        if st["throw"]: return None
        k = e.get("k")
        if e is st["S"]:
            for c in children(e): self.ev(f, c, st)
            st["seen"] = True
            st["outs"] = set(st["S_outs"])
            if st["errvar"] is not None:
                st["env"][st["errvar"]] = E
                return None
            return self.Sval
        if k == "Lambda": return None
        if k == "Asg":
            v = self.ev(f, e["b"], st)
            a = unwrap(e["a"])
            pl = self.place(a)
            if e["op"] != "=":
                self.ev(f, e["a"], st)
                if pl and pl[0] == "v" and len(pl) == 2:
                    old = st["env"].get(pl[1])
                    if e["op"] == "|=" and (v == E or old == E): v = E
                    else: v = None
                    st["env"][pl[1]] = v
                return v
            if a is not None and a.get("k") == "Idx": self.ev(f, a.get("b"), st)
            if pl:
                st["outs"].discard(pl)
                if pl[0] == "v" and len(pl) == 2: st["env"][pl[1]] = v
                elif v == E: st["env"][pl] = E          # kept in a member
            return v
        if k == "Bin":
            op = e["op"]
            if op in ("&&", "||"):
                a0 = self.ev(f, e["a"], st)
                a = self.truth(a0)
                if op == "&&" and a is False: return self.tag(("c", 0), a0)
                if op == "||" and a is True: return self.tag(("c", 1), a0)
                save = dict(st["env"])
                b0 = self.ev(f, e["b"], st)
                b = self.truth(b0)
                if a is None: st["env"] = {x: y for x, y in st["env"].items() if save.get(x) == y}
                if a is not None and b is not None: return self.tag(self.tag(("c", int(b)), a0), b0)
                return None
            a, b = self.ev(f, e["a"], st), self.ev(f, e["b"], st)
            if op == ",": return b
            return self.cmp(op, a, b)
        if k == "Un":
            op = e["op"]
            if op == "&":
                # address taken: may be overwritten
                pl = self.place(e["a"])
                if pl: st["outs"].discard(pl)
                return None
            v = self.ev(f, e["a"], st)
            if op == "!":
                t = self.truth(v)
                return None if t is None else self.tag(("c", int(not t)), v)
            if op in ("++", "--", "p++", "p--"):
                pl = self.place(e["a"])
                if pl and pl[0] == "v" and len(pl) == 2: st["env"][pl[1]] = None
                return None
            if op == "-" and isinstance(v, tuple): return ("c", -v[1])
            if op == "-" and v == E: return E
            return None
        if k == "Cond":
            a = self.truth(self.ev(f, e["c"], st))
            if a is True: return self.ev(f, e["a"], st)
            if a is False: return self.ev(f, e["b"], st)
            x, y = self.ev(f, e["a"], st), self.ev(f, e["b"], st)
            return x if x == y else None
        if k in ("Cast", "Paren"):
            v = self.ev(f, e.get("e"), st)
            if v == E and f.type(e) == "bool": return ("c", 1, "S")
            return v
        if k in ("Ref", "Mem"):
            pl = self.place(e)
            if k == "Mem":
                b = e.get("b") or e.get("e")
                if b is not None and pl is None: self.ev(f, b, st)
            if pl and pl in st["outs"] and pl in self.scalars: st["reads"].append((pl, e.get("l")))
            if "cv" in e: return ("c", e["cv"])
            if pl and pl[0] == "v" and len(pl) == 2: return st["env"].get(pl[1])
            if pl: return st["env"].get(pl)
            return None
        if k == "Call" or k == "Ctor":
            return self.call(f, e, st)
        if k == "Throw":
            self.ev(f, e.get("e"), st)
            return None
        if "cv" in e and k != "Idx":
            return ("c", e["cv"])
        vals = [self.ev(f, c, st) for c in children(e)]
        if k == "Tmp" or len(vals) == 1 and k in ("StmtE",): return vals[0] if vals else None
        return None

    def call(self, f, e, st):
        if e.get("this") is not None: tv = self.ev(f, e["this"], st)
        else: tv = None
        if e.get("c") is not None: self.ev(f, e["c"], st)
        g = self.p.fns.get(e.get("f"))
        gd = g or self.p.decls.get(e.get("f"))
        vals = []
        for i, a in enumerate(e.get("a", ())):
            if a is not None and gd is not None and i < len(gd.params):
                t = gd.types[gd.params[i]["t"]]
                pl = self.place(a)
                if pl and pl in st["outs"] and t.endswith("&") and not t.startswith("const"):
                    st["outs"].discard(pl); vals.append(None); continue
            vals.append(self.ev(f, a, st))
            if st["throw"]: return None
        q = e.get("q") or ""
        # std::atomic<int> and friends
        if e.get("op") == "=" and e.get("this") is not None:
            pl = self.place(e["this"])
            if pl: st["outs"].discard(pl)
            if pl and pl[0] == "v" and len(pl) == 2: st["env"][pl[1]] = vals[0] if vals else None
            return vals[0] if vals else None
        if "operator" in q and e.get("this") is not None and not vals and not e.get("op"): return tv      # conversion operator
        if e.get("k") == "Ctor":
            # single-argument conversion keeps the value
            return vals[0] if len(vals) == 1 and g is None else None
        if E in vals:
            if q.split("::")[-1] in self.ext_checkers:
                st["throw"] = True; return None
            if g is not None:
                rs = None
                for i, v in enumerate(vals):
                    if v != E: continue
                    r = self.summary(g, i)
                    if not r[0]:
                        st["throw"] = True; st["thrown"] = set(self.exc.sum.get(g.key, {})); return None
                    rs = r[1]
                if rs is not None and len(rs) == 1:
                    v = next(iter(rs))
                    if v is not None: return v
                return None
        if e.get("nr"): st["throw"] = True
        return None

    def truth(self, v):
        if v == E: return True
        if isinstance(v, tuple) and v[0] == "c": return bool(v[1])
        return None

    def cmp(self, op, a, b):
        if a == E and isinstance(b, tuple) and b[0] == "c":
            if b[1] == 0:
                if op == "==": return ("c", 0, "S")
                if op == "!=": return ("c", 1, "S")
            return None
        if b == E and isinstance(a, tuple): return self.cmp(op, b, a) if op in ("==", "!=") else None
        if isinstance(a, tuple) and isinstance(b, tuple) and a[0] == "c" and b[0] == "c":
            x, y = a[1], b[1]
            r = {"==": x == y, "!=": x != y, "<": x < y, ">": x > y, "<=": x <= y, ">=": x >= y}.get(op)
            return None if r is None else self.tag(self.tag(("c", int(r)), a), b)
        return None

    @staticmethod
    def tag(v, src):
        """a truth value computed from the status counts as the status"""
        return v[:2] + ("S",) if src == E or isinstance(src, tuple) and len(src) == 3 else v

    @staticmethod
    def mentions(f, e, env, S):
        """does evaluating e look at the status"""
        for x in walk(e):
            if x is S: return True
            if x.get("k") == "Ref":
                v = env.get(x.get("id"))
                if v == E or isinstance(v, tuple) and len(v) == 3: return True
        return False

    # ---- path exploration
    def explore(self, f, start, env0, S, outs0, errvar=None):
        """-> set of outcomes ('normal', returned value, tested, reads) / ('throw',)"""
        g = self.cfg(f)
        res = set()
        self.trace = {}
        st0 = (start.id, tuple(sorted((str(k), v, k) for k, v in env0.items())), S is None, frozenset(), False, frozenset())
        seen = set()
        work = [(start, dict(env0), S is None, frozenset(), False, frozenset())]
        while work:
            n, env, seenS, outs, tested, reads = work.pop()
            key = (n.id, tuple(sorted(((str(k), str(v)) for k, v in env.items() if v is not None))), seenS, outs, tested, reads)
            if key in seen: continue
            seen.add(key)
            if len(seen) > 60000: raise AnalysisError("status analysis: too many paths in " + f.q)
            st = {"env": dict(env), "S": S if not seenS else None, "S_outs": outs0, "outs": set(outs), "throw": False, "thrown": None, "seen": seenS, "reads": [], "errvar": errvar}
            if n.kind == "exit":
                continue
            if n.kind == "excexit":
                res.add(("throw",)); continue
            val = None
            if n.kind in ("eval", "branch"): val = self.ev(f, n.x, st)
            elif n.kind == "switch": val = self.ev(f, n.x["c"], st)
            elif n.kind == "init": val = self.ev(f, n.x["e"], st)
            elif n.kind == "decl":
                v = n.x
                st["outs"].discard(("v", v["id"]))
                if v.get("i") is not None:
                    val = self.ev(f, v["i"], st)
                    st["env"][v["id"]] = val
                    if val is None: st["env"].pop(v["id"], None)
                else: st["env"].pop(v["id"], None)
            elif n.kind == "ret":
                val = self.ev(f, n.x.get("e"), st) if n.x.get("e") is not None else None
            elif n.kind == "dtor":
                st["env"].pop(n.x.get("id"), None)
            reads2 = reads | frozenset(st["reads"])
            nt = tested
            if st["throw"]:
                th = st["thrown"]
                if n.exc is not None: work.append((n.exc, st["env"], True, frozenset(st["outs"]), ("thrown", frozenset(th or ())), reads2))
                else: res.add(("throw",))
                continue
            o2 = frozenset(st["outs"])
            if n.kind == "ret":
                rv = val if (val == E or isinstance(val, tuple)) else None
                if isinstance(val, tuple) and len(val) == 2 and tested is True and returns_bool(f): rv = val + ("S",)
                res.add(("normal", rv, bool(tested), reads2, n.line, bool(outs0) and not o2 and not reads2, o2))
                continue
            if n.kind == "dispatch":
                types = tested[1] if isinstance(tested, tuple) else None
                for lab, m in n.succ:
                    if lab == "uncaught": work.append((m, st["env"], st["seen"], o2, tested, reads2)); continue
                    h = lab[1]
                    if types:
                        ht = f.types[h["t"]].replace("const ", "") if "t" in h else None
                        if ht is None or any(self.exc.sub(t, ht) for t in types):
                            work.append((m, st["env"], st["seen"], o2, "caught" if types else tested, reads2))
                            if ht is None: break
                            # all types caught?
                            if all(self.exc.sub(t, ht) for t in types): break
                    else: work.append((m, st["env"], st["seen"], o2, tested, reads2))
                continue
            if not n.succ and n.exc is None and n.kind not in ("exit",):
                # noreturn (throw statement without handler is excexit via n.exc)
                res.add(("throw",)); continue
            t = self.truth(val) if n.kind == "branch" else None
            live = st["seen"]
            for lab, m in n.succ:
                env2, tt = st["env"], tested
                if n.kind == "branch" and live and self.mentions(f, n.x, env, S):
                    if t is not None:
                        if lab != t: continue
                        tt = tested or True
                    else:
                        b = unwrap(n.x)
                        # equality with a specific error code
                        if b is not None and b.get("k") == "Bin" and b["op"] in ("==", "!="):
                            if (b["op"] == "==") == bool(lab): tt = tested or True
                elif t is not None and lab in (True, False):
                    if lab != t: continue
                if n.kind == "switch" and live and val == E:
                    if isinstance(lab, tuple) and lab[0] == "case":
                        if lab[1] == 0: continue
                        tt = tested or True
                if m.kind == "exit":
                    res.add(("normal", "void", bool(tt), reads2, n.line, bool(outs0) and not o2 and not reads2, o2)); continue
                work.append((m, env2, st["seen"], o2, tt, reads2))
            if n.exc is not None:
                # the evaluation may also throw for another reason: the operation fails, which is fine once S has failed
                if S is None or st["seen"] and not seenS is False and seenS:
                    work.append((n.exc, env, seenS, outs, tested, reads))
                else:
                    res.add(("throw",))
        return res

    # ---- all sources
    def source_calls(self, f):
        for c in self.p.calls(f):
            if c.get("k") != "Call": continue
            q = c.get("q") or ""
            n = q.split("::")[-1]
            if not c.get("rp"):
                if self.is_source(n): yield c, n, None
                elif self.err_arg(n):
                    ev = None
                    for a in c.get("a", ()):
                        x = unwrap(a)
                        if x is not None and x.get("k") == "Un" and x["op"] == "&" and f.type(x["a"]) == "int":
                            pl = self.place(x["a"])
                            if pl and pl[0] == "v": ev = pl[1]
                    yield c, n, ev
            elif c.get("f") in self.wrappers:
                yield c, "|".join(sorted(self.wrappers[c["f"]])), None

    def node_of(self, f, c):
        g = self.cfg(f)
        out = []
        for n in g.nodes:
            if n.id not in g.reach: continue
            x = n.x
            if n.kind in ("eval", "branch", "ret", "switch", "decl", "init"):
                root = {"decl": lambda: x.get("i"), "ret": lambda: x.get("e"), "switch": lambda: x["c"], "init": lambda: x["e"]}.get(n.kind, lambda: x)()
                if root is not None and any(y is c for y in walk(root)): out.append(n)
        return out

    def run(self, judge):
        """judge(f, call, libname, outcomes, errvar) is called for every source site in scope"""
        todo = [f for f in self.p.fns.values() if self.scope(f) and f.body is not None]
        done = set()
        n = 0
        while todo:
            f = todo.pop()
            for c, name, ev in list(self.source_calls(f)):
                if (f.key, id(c)) in done: continue
                done.add((f.key, id(c)))
                outs = self.out_places(f, c)
                nodes = self.node_of(f, c)
                oc = set()
                self.Sval = self.bools.get(c.get("f"), E)
                for nd in nodes:
                    oc |= self.explore(f, nd, {}, c, outs, ev)
                self.Sval = E
                n += 1
                if returns_bool(f):
                    # a predicate that answers the same whenever the call fails: its callers have to look at the answer
                    ans = {o[1] for o in oc if o[0] == "normal"}
                    if len(ans) == 1 and all(isinstance(a, tuple) and len(a) == 3 for a in ans) and self.bools.get(f.key, next(iter(ans))) in ans:
                        self.bools[f.key] = next(iter(ans))
                        oc = {("normal", E) + o[2:] if o[0] == "normal" else o for o in oc}
                if any(o[0] == "normal" and o[1] == E for o in oc):
                    self.wrappers.setdefault(f.key, set()).update(name.split("|"))
                    todo = list({g.key: g for g in todo + [g for g in self.p.fns.values() if self.scope(g) and g.body is not None]}.values())
                judge(f, c, name, oc, ev)
        return n


def scalar(t):
    t = t.replace("const ", "").strip()
    return t in ("int", "long", "unsigned long", "unsigned int", "double", "float", "short", "char", "long long", "unsigned long long", "size_t", "bool", "unsigned char", "unsigned short")


def returns_bool(f):
    return f.d.get("ret", -1) >= 0 and not f.d.get("lam") and f.types[f.d["ret"]] == "bool"
