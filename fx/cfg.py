"""Control-flow graphs from the structured AST, with RAII destructors, exception edges and OpenMP region markers."""
from .prog import walk, N


class Node:
    __slots__ = ("id", "kind", "x", "succ", "exc", "line", "fn")

    def __init__(self, id, kind, x, line):
        self.id = id; self.kind = kind; self.x = x; self.succ = []; self.exc = None; self.line = line

    def __repr__(self): return "<%d %s l%s>" % (self.id, self.kind, self.line)


class Scope:
    __slots__ = ("parent", "vars", "kind", "node")

    def __init__(self, parent, kind="block"):
        self.parent = parent; self.vars = []; self.kind = kind


class CFG:
    """maythrow(expr_or_var_node) -> bool decides exception edges."""

    def __init__(self, body, maythrow=None, inits=(), want_dtor=None):
        self.nodes = []
        self.maythrow = maythrow or (lambda n: True)
        self.want_dtor = want_dtor or (lambda v: v.get("dt") is not None)
        self.entry = self.new("entry", None, 0)
        self.exit = self.new("exit", None, 0)
        self.excexit = self.new("excexit", None, 0)
        self.dang = [(self.entry, None)]
        self.brk, self.cont, self.trys = [], [], []
        self.scopes = []      # list of ("var", v) / ("mark",) / ("try", dispatchnode)
        self.unwind_cache = {}
        self.chain = None     # persistent linked list: (item, parent) from innermost
        self.labels = {}; self.gotos = []
        for i in inits:
            if i.get("e") is not None:
                self.add("init", i, i.get("l", 0), [i["e"]])
        self.stmt(body)
        self.jump_to(self.exit)
        for lab, d in self.gotos:
            if lab in self.labels:
                for n, l in d: n.succ.append((l, self.labels[lab]))
        self.prune()

    def prune(self):
        seen = {self.entry.id}; st = [self.entry]
        while st:
            n = st.pop()
            for _, m in n.succ + ([("exc", n.exc)] if n.exc else []):
                if m.id not in seen: seen.add(m.id); st.append(m)
        self.reach = seen

    # -- building blocks
    def new(self, kind, x, line):
        n = Node(len(self.nodes), kind, x, line)
        self.nodes.append(n)
        return n

    def attach(self, n):
        for d, lab in self.dang: d.succ.append((lab, n))
        self.dang = [(n, None)]
        return n

    def jump_to(self, target):
        for d, lab in self.dang: d.succ.append((lab, target))
        self.dang = []

    def add(self, kind, x, line, throwers):
        n = self.attach(self.new(kind, x, line))
        if not self.dang_reachable(): return n
        if any(t is not None and self.maythrow(t) for t in throwers):
            n.exc = self.unwind(self.chain)
        return n

    def dang_reachable(self): return True

    def unwind(self, chain):
        """node that performs unwinding from this chain position"""
        if chain is None: return self.excexit
        item, parent, uid = chain
        if uid in self.unwind_cache: return self.unwind_cache[uid]
        if item[0] == "var":
            n = self.new("dtor", item[1], item[1].get("l", 0))
            self.unwind_cache[uid] = n
            n.succ.append((None, self.unwind(parent)))
        elif item[0] == "omp":
            n = self.new("omp_out", item[1], item[1].get("l", 0))
            self.unwind_cache[uid] = n
            n.succ.append((None, self.unwind(parent)))
        elif item[0] == "try":
            n = item[1]
            self.unwind_cache[uid] = n
        else:
            n = self.unwind(parent)
            self.unwind_cache[uid] = n
        return n

    _uid = 0

    def push(self, *item):
        CFG._uid += 1
        self.chain = (item, self.chain, CFG._uid)

    def pop_to(self, chain, emit=True):
        """leave scopes down to 'chain', emitting destructor nodes on the normal path"""
        c = self.chain
        while c is not chain:
            item, parent, _ = c
            if emit and self.dang:
                if item[0] == "var": self.attach(self.new("dtor", item[1], item[1].get("l", 0)))
                elif item[0] == "omp": self.attach(self.new("omp_out", item[1], item[1].get("l", 0)))
            c = parent
        self.chain = chain

    def leave(self, chain, target_list=None, target=None):
        """emit dtors from the current chain to 'chain' and jump; keeps self.chain"""
        save = self.chain
        self.pop_to(chain)
        self.chain = save
        if target is not None: self.jump_to(target)
        else:
            target_list.extend(self.dang); self.dang = []

    # -- statements
    def stmt(self, s):
        if s is None: return
        if not self.dang and s["k"] not in ("Case", "Default", "Comp", "Label", "Switch"):
            # unreachable code: still skip
            if s["k"] not in ("For", "While", "Do", "If", "Try"): return
            return
        k = s["k"]
        m = getattr(self, "s_" + k, None)
        if m: m(s)
        else:
            self.add("eval", s, s.get("l", 0), [s])

    def s_Comp(self, s):
        base = self.chain
        for c in s["s"]: self.stmt(c)
        self.pop_to(base)

    def s_Null(self, s): pass

    def s_Expr(self, s):
        self.full(s["e"])

    def full(self, e):
        """a full expression evaluated for its effects"""
        if e is None: return
        self.add("eval", e, e.get("l", 0), [e])
        if e.get("k") == "Throw" or (e.get("k") == "Call" and e.get("nr")):
            self.dang = []

    def s_Decl(self, s):
        for v in s["v"]: self.decl(v)

    def decl(self, v):
        self.add("decl", v, v.get("l", 0), [v.get("i")])
        if self.want_dtor(v) and not v.get("static") and not v.get("ref"):
            self.push("var", v)
        elif v.get("ref") and v.get("i") is not None and any(x.get("k") == "Tmp" for x in walk(v["i"])):
            self.push("var", v)

    def cond(self, e):
        """evaluate e as a condition: returns (true_dangling, false_dangling)"""
        k = e.get("k")
        if k == "Bin" and e["op"] == "&&":
            t1, f1 = self.cond(e["a"])
            self.dang = t1
            t2, f2 = self.cond(e["b"])
            return t2, f1 + f2
        if k == "Bin" and e["op"] == "||":
            t1, f1 = self.cond(e["a"])
            self.dang = f1
            t2, f2 = self.cond(e["b"])
            return t1 + t2, f2
        if k == "Un" and e["op"] == "!":
            t, f = self.cond(e["a"])
            return f, t
        n = self.add("branch", e, e.get("l", 0), [e])
        cv = e.get("cv")
        self.dang = []
        if cv is not None and k in ("Int",):
            return ([(n, True)], []) if cv else ([], [(n, False)])
        return [(n, True)], [(n, False)]

    def s_If(self, s):
        base = self.chain
        if s.get("i"): self.stmt(s["i"])
        if s.get("cvd"): self.decl(s["cvd"])
        t, f = self.cond(s["c"])
        self.dang = t
        self.stmt(s["t"])
        out = self.dang
        self.dang = f
        if s.get("e"): self.stmt(s["e"])
        self.dang = out + self.dang
        self.pop_to(base)

    def loop(self, s, cond, body, inc, do=False, head_decl=None):
        head = self.new("loop", s, s.get("l", 0))
        base = self.chain
        brk, cont = [], []
        self.brk.append((brk, base)); self.cont.append((cont, base))
        if not do:
            self.attach(head)
            if head_decl: self.decl(head_decl)
            if cond is not None: t, f = self.cond(cond)
            else: t, f = self.dang, []
            self.dang = t
            if isinstance(body, list):
                for b in body: self.stmt(b)
            else: self.stmt(body)
            self.pop_to(base)
            self.dang += cont
            if inc is not None and self.dang: self.full(inc)
            self.jump_to(head)
            self.dang = f + brk
        else:
            self.attach(head)
            self.stmt(body)
            self.dang += cont
            if self.dang:
                t, f = self.cond(cond)
                self.dang = t
                self.jump_to(head)
            else: f = []
            self.dang = f + brk
        self.brk.pop(); self.cont.pop()
        self.chain = base

    def s_While(self, s): self.loop(s, s["c"], s["b"], None, head_decl=s.get("cvd"))
    def s_Do(self, s): self.loop(s, s["c"], s["b"], None, do=True)

    def s_For(self, s):
        base = self.chain
        if s.get("i"): self.stmt(s["i"])
        self.loop(s, s.get("c"), s["b"], s.get("n"))
        self.pop_to(base)

    def s_RFor(self, s):
        base = self.chain
        self.add("eval", s["r"], s["l"], [s["r"]])
        head = self.attach(self.new("rfor", s, s["l"]))
        self.dang = [(head, True)]
        brk, cont = [], []
        self.brk.append((brk, base)); self.cont.append((cont, base))
        self.add("rdecl", s, s["l"], [])
        if self.want_dtor(s["v"]) and not s["v"].get("ref"): self.push("var", s["v"])
        self.stmt(s["b"])
        self.pop_to(base)
        self.dang += cont
        self.jump_to(head)
        self.dang = [(head, False)] + brk
        self.brk.pop(); self.cont.pop()
        self.chain = base

    def s_Switch(self, s):
        base = self.chain
        sw = self.add("switch", s, s["l"], [s["c"]])
        self.dang = []
        brk = []
        self.brk.append((brk, base))
        self.sw = getattr(self, "sw", [])
        self.sw.append((sw, [False]))
        self.stmt_in_switch(s["b"])
        _, hasdef = self.sw.pop()
        self.brk.pop()
        if not hasdef[0]: brk.append((sw, "nodefault"))
        self.dang = self.dang + brk
        self.chain = base

    def stmt_in_switch(self, b):
        if b is None: return
        if b["k"] == "Comp":
            base = self.chain
            for c in b["s"]: self.stmt(c)
            self.pop_to(base)
        else: self.stmt(b)

    def s_Case(self, s):
        sw, _ = self.sw[-1]
        self.dang = self.dang + [(sw, ("case", s["v"].get("cv"), s["v"]))]
        self.stmt(s["s"])

    def s_Default(self, s):
        sw, h = self.sw[-1]
        h[0] = True
        self.dang = self.dang + [(sw, "default")]
        self.stmt(s["s"])

    def s_Break(self, s):
        l, ch = self.brk[-1]
        self.leave(ch, target_list=l)

    def s_Continue(self, s):
        l, ch = self.cont[-1]
        self.leave(ch, target_list=l)

    def s_Ret(self, s):
        self.add("ret", s, s["l"], [s.get("e")])
        self.leave(None, target=self.exit)

    def s_Label(self, s):
        n = self.attach(self.new("label", s, s["l"])); self.labels[s["n"]] = n
        self.stmt(s["s"])

    def s_Goto(self, s):
        self.gotos.append((s["n"], self.dang)); self.dang = []

    def s_Try(self, s):
        base = self.chain
        disp = self.new("dispatch", s, s["l"])
        self.push("try", disp)
        self.stmt(s["b"])
        self.pop_to(base)
        out = self.dang
        catchall = False
        for h in s["h"]:
            hn = self.new("catch", h, h["l"])
            disp.succ.append((("h", h), hn))
            self.dang = [(hn, None)]
            if "t" not in h: catchall = True
            b2 = self.chain
            self.stmt(h["b"])
            self.pop_to(b2)
            out = out + self.dang
        if not catchall:
            disp.succ.append(("uncaught", self.unwind(base)))
        self.dang = out

    def s_Omp(self, s):
        if s.get("b") is None: return
        base = self.chain
        self.attach(self.new("omp_in", s, s["l"]))
        self.push("omp", s)
        self.stmt(s["b"])
        self.pop_to(base)

    def s_OtherS(self, s): pass
