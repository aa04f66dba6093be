"""Context-sensitive lockset analysis (entry lockset x argument bindings), path-sensitive in the lockset,
with RAII guards, exceptional paths and OpenMP critical sections."""
import re
from collections import defaultdict
from .prog import post, walk
from .cfg import CFG

ACQ = {"omp_set_lock": 0, "omp_set_nest_lock": 0, "pthread_mutex_lock": 0}
REL = {"omp_unset_lock": 0, "omp_unset_nest_lock": 0, "pthread_mutex_unlock": 0}
M_ACQ = re.compile(r"^std::(recursive_|timed_|shared_)?mutex::lock(_shared)?$|^std::unique_lock<.*>::lock$|^std::mutex::lock$|^std::__mutex_base::lock$")
M_REL = re.compile(r"^std::(recursive_|timed_|shared_)?mutex::unlock(_shared)?$|^std::unique_lock<.*>::unlock$")
STD_GUARD = re.compile(r"^std::(lock_guard|unique_lock|scoped_lock|shared_lock)<")
RECURSIVE = re.compile(r"recursive|nest_lock")


def strip_ptr(e):
    while e is not None:
        k = e.get("k")
        if k == "Un" and e["op"] in ("&", "*"): e = e["a"]
        elif k == "Cast": e = e["e"]
        elif k == "Tmp": e = e["e"]
        elif k == "Ctor" and e.get("cm") in ("copy", "move") and e["a"]: e = e["a"][0]
        elif k == "Call" and e.get("op") in ("->", "*") and e.get("this") is not None: e = e["this"]
        elif k == "Call" and (e.get("q") or "").endswith("::get") and e.get("this") is not None and "ptr" in e["q"]: e = e["this"]
        else: break
    return e


class LockAnalysis:
    def __init__(self, prog, is_target, maythrow_fn=None):
        """is_target(call) -> label or None for calls whose held locks we want to know."""
        self.p = prog
        self.is_target = is_target
        self.varinit = {}
        self.cfgs = {}
        self.memo = {}
        self.sites = defaultdict(set)       # (fnkey, node id, label) -> set of locksets
        self.site_node = {}
        self.edges = {}                     # (held, acquired) -> witness
        self.problems = {}                  # (kind, fn, line, lock) -> witness
        self.parent = {}
        self.maythrow_fn = maythrow_fn
        self.relevant()

    def label(self, f, x):
        lab = self.is_target(x)
        if lab or x.get("f") is not None: return lab
        for nm in self.p.indirect_names(f, x):
            lab = self.is_target({"q": nm, "ec": 1, "k": "Call"})
            if lab:
                x["q"] = "(indirect) " + nm
                return lab
        return None

    # ---- relevance
    def relevant(self):
        cg = self.p.callgraph()
        rev = defaultdict(set)
        for a, bs in cg.items():
            for b in bs: rev[b].add(a)
        seed = set()
        for f in self.p.fns.values():
            for x in ([f.body] if f.body is not None else []):
                for n in walk(x):
                    k = n.get("k")
                    if k == "Call":
                        q = n.get("q") or ""
                        if q in ACQ or q in REL or M_ACQ.match(q) or M_REL.match(q) or self.label(f, n): seed.add(f.key)
                    elif k == "Omp" and n.get("d") == "critical": seed.add(f.key)
                    elif "cls" in n and STD_GUARD.match(n.get("cls", "")): seed.add(f.key)
            for i in f.d.get("inits", ()):
                for n in walk(i.get("e")):
                    if n.get("k") == "Call" and self.is_target(n): seed.add(f.key)
        seen = set(seed); st = list(seed)
        while st:
            k = st.pop()
            for a in rev[k]:
                if a not in seen: seen.add(a); st.append(a)
        self.rel = seen

    def cfg(self, f):
        c = self.cfgs.get(f.key)
        if c is None:
            p = self.p

            def mt(e):
                if self.maythrow_fn: return self.maythrow_fn(f, e)
                return True
            c = CFG(f.body, mt, f.d.get("inits", ()))
            self.cfgs[f.key] = c
            vi = {}
            roots = [f.body]
            for r in roots:
                for n in walk(r):
                    if n.get("k") == "Decl":
                        for v in n["v"]: vi[v["id"]] = v
            self.varinit[f.key] = vi
        return c

    # ---- lock naming
    def name(self, f, e, env):
        e = strip_ptr(e)
        if e is None: return None
        k = e.get("k")
        if k == "This": return env.get("this") or ("T", f.cls)
        if k == "Ref":
            dk = e.get("dk")
            if dk in ("global", "slocal"): return ("G", e["g"])
            if e.get("id") in env: return env[e["id"]]
            v = self.varinit.get(f.key, {}).get(e.get("id"))
            if v is not None and v.get("i") is not None and (v.get("ref") or "*" in f.type(v)):
                return self.name(f, v["i"], env)
            if v is not None and v.get("cls"):
                o = self.obj(f, v.get("cls"), v.get("i"), env)
                if o: return o
            return ("V", f.key, e.get("id"), e.get("n"))
        if k == "Mem":
            if e.get("dk") == "global": return ("G", e["g"])
            b = self.name(f, e["b"], env)
            if b is not None and b[0] == "O":
                for fn_, nm in b[2]:
                    if fn_ == e["n"]: return nm
                return ("M", b, e["n"])
            if b is not None and b[0] in ("G", "M"): return ("M", b, e["n"])
            if b is not None and b[0] == "F" and strip_ptr(e["b"]).get("k") == "This" and "this" in env: return ("M", b, e["n"])
            return ("F", e["q"])
        if k == "Call":
            ks = self.p.callee_keys(f, e)
            names = set()
            for kk in ks:
                g = self.p.fns[kk]
                for n in walk(g.body):
                    if n.get("k") == "Ret" and n.get("e") is not None:
                        self.cfg(g)
                        names.add(self.name(g, n["e"], self.bind(f, e, g, env)))
            if len(names) == 1: return names.pop()
            return ("C", e.get("q"))
        if k == "Idx": return self.name(f, e["a"], env)
        return None

    def obj(self, f, cls, init, env):
        """abstract object of a guard class constructed by init"""
        if init is None: return None
        c = init
        while c is not None and c.get("k") in ("Tmp", "Cast"): c = c["e"]
        if c is None: return None
        if STD_GUARD.match(cls or ""):
            if c.get("k") == "Ctor" and c["a"]:
                return ("O", cls, tuple(("mtx%d" % i, self.name(f, a, env)) for i, a in enumerate(c["a"]) if a is not None and "mutex" in f.type(a).lower() or i == 0))
            return None
        if c.get("k") == "Ctor" and c.get("f") in self.p.fns:
            g = self.p.fns[c["f"]]
            b = self.bind(f, c, g, env)
            fl = []
            for i in g.d.get("inits", ()):
                if i.get("f") and i.get("e") is not None:
                    nm = self.name(g, i["e"], b)
                    if nm is not None and nm[0] in ("G", "F", "M", "O"): fl.append((i["f"], nm))
            return ("O", cls, tuple(fl))
        return None

    def bind(self, f, call, g, env):
        b = {}
        for p_, a in zip(g.params, call.get("a", ())):
            if a is None: continue
            t = g.types[p_["t"]]
            if "utex" in t or "lock" in t.lower():
                nm = self.name(f, a, env)
                if nm is not None: b[p_["id"]] = nm
        if call.get("this") is not None and g.cls:
            nm = self.name(f, call["this"], env)
            if nm is not None and nm[0] in ("G", "O", "M", "F"):
                t = g.cls.lower()
                if "mutex" in t or "lock" in t: b["this"] = nm
        return b

    # ---- exploration
    def run(self, roots, maxiter=60):
        self.work = []
        self.callers = defaultdict(set)
        for k in roots:
            if k in self.rel: self.request(k, frozenset(), {}, None)
        n = 0
        while self.work:
            ctx = self.work.pop()
            self.inwork.discard(ctx)
            n += 1
            if n > 400000: raise RuntimeError("lock analysis does not terminate")
            self.process(ctx)
        self.n_steps = n

    inwork = set()

    def request(self, key, locks, env, caller):
        ctx = (key, locks, tuple(sorted(env.items(), key=repr)))
        if caller is not None: self.callers[ctx].add(caller)
        if ctx not in self.memo:
            self.memo[ctx] = (frozenset(), frozenset())
            self.parent.setdefault(ctx, caller)
            if ctx not in self.inwork: self.inwork.add(ctx); self.work.append(ctx)
        return self.memo[ctx]

    def process(self, ctx):
        key, locks, envt = ctx
        f = self.p.fns[key]
        env = dict(envt)
        g = self.cfg(f)
        seen = set()
        st = [(g.entry, locks)]
        nex, eex = set(), set()
        while st:
            n, L = st.pop()
            if (n.id, L) in seen: continue
            seen.add((n.id, L))
            if n is g.exit: nex.add(L); continue
            if n is g.excexit: eex.add(L); continue
            outs, excs = self.transfer(f, ctx, n, L, env)
            for _, m in n.succ:
                for o in outs: st.append((m, o))
            if n.exc is not None:
                for o in excs: st.append((n.exc, o))
        new = (frozenset(nex), frozenset(eex))
        if new != self.memo[ctx]:
            self.memo[ctx] = new
            for c in self.callers[ctx]:
                if c not in self.inwork: self.inwork.add(c); self.work.append(c)

    def acquire(self, f, ctx, line, L, nm, recursive=False):
        if nm is None: return L
        if nm in L and not recursive:
            self.problems.setdefault(("reacquire", f.key, line, nm), ctx)
        for h in L:
            if h != nm: self.edges.setdefault((h, nm), (f, line, ctx))
        return L | {nm}

    def release(self, f, ctx, line, L, nm):
        if nm is None: return L
        if nm not in L:
            self.problems.setdefault(("release-unheld", f.key, line, nm), ctx)
        return L - {nm}

    def transfer(self, f, ctx, n, L, env):
        k = n.kind
        if k in ("eval", "branch", "ret", "switch", "init"):
            e = n.x
            if k == "ret": e = e.get("e")
            elif k == "switch": e = e["c"]
            elif k == "init": e = e["e"]
            return self.ev(f, ctx, e, L, env)
        if k == "decl":
            v = n.x
            outs, excs = self.ev(f, ctx, v.get("i"), L, env)
            cls = v.get("cls") or ""
            if STD_GUARD.match(cls) and v.get("i") is not None and not any("defer_lock" in f.type(a) or "try_to_lock" in f.type(a) for a in (v["i"].get("a") or ()) if a is not None):
                o = self.obj(f, cls, v["i"], env)
                if o:
                    new = set()
                    for S in outs:
                        for _, nm in o[2]: S = self.acquire(f, ctx, n.line, S, nm, RECURSIVE.search(cls) is not None)
                        new.add(S)
                    outs = new
            return outs, excs
        if k == "dtor":
            v = n.x
            cls = v.get("cls") or ""
            if STD_GUARD.match(cls):
                o = self.obj(f, cls, v.get("i"), env)
                S = L
                for _, nm in (o[2] if o else ()):
                    S = S - {nm}
                return {S}, set()
            dt = v.get("dt")
            if dt in self.p.fns and dt in self.rel:
                o = self.obj(f, cls, v.get("i"), env)
                b = {"this": o} if o else {}
                a, x = self.request(dt, L, b, ctx)
                return set(a), set(x)
            # smart pointer to a guard object
            if v.get("i") is not None and ("ptr<" in cls or "optional<" in cls):
                for x in walk(v["i"]):
                    if x.get("k") == "Ctor" and x.get("f") in self.p.fns:
                        rc = self.p.recs.get(x["cls"])
                        if rc and rc.get("dt") in self.rel and ("Lock" in x["cls"] or "Unlock" in x["cls"]):
                            o = self.obj(f, x["cls"], x, env)
                            a, xx = self.request(rc["dt"], L, {"this": o} if o else {}, ctx)
                            return set(a), set(xx)
            return {L}, set()
        if k == "omp_in":
            if n.x.get("d") == "critical":
                return {self.acquire(f, ctx, n.line, L, ("OMP", n.x.get("name") or "<unnamed>"))}, set()
            return {L}, set()
        if k == "omp_out":
            if n.x.get("d") == "critical":
                return {self.release(f, ctx, n.line, L, ("OMP", n.x.get("name") or "<unnamed>"))}, set()
            return {L}, set()
        return {L}, set()

    def ev(self, f, ctx, e, L, env):
        """evaluate expression; returns (normal locksets, exceptional locksets)"""
        outs = {L}
        excs = {L}
        if e is None: return outs, excs
        tmps = []
        for x in post(e):
            k = x.get("k")
            if k == "Call":
                q = x.get("q") or ""
                nm = None
                if q in ACQ:
                    nm = self.name(f, x["a"][ACQ[q]], env)
                    outs = {self.acquire(f, ctx, x["l"], S, nm, "nest" in q) for S in outs}; continue
                if q in REL:
                    nm = self.name(f, x["a"][REL[q]], env)
                    outs = {self.release(f, ctx, x["l"], S, nm) for S in outs}; continue
                if M_ACQ.match(q) or M_REL.match(q):
                    nm = self.name(f, x["this"], env)
                    nms = [b for _, b in nm[2]] if nm and nm[0] == "O" else [nm]
                    for y in nms:
                        if M_ACQ.match(q): outs = {self.acquire(f, ctx, x["l"], S, y, bool(RECURSIVE.search(q))) for S in outs}
                        else: outs = {self.release(f, ctx, x["l"], S, y) for S in outs}
                    continue
                lab = self.label(f, x)
                if lab:
                    sk = (f.key, id(x))
                    self.site_node[sk] = (f, x, lab)
                    for S in outs:
                        if S not in self.sites[sk]:
                            self.sites[sk].add(S)
                            self.parent.setdefault(("site", sk, S), ctx)
                    excs |= outs
                    continue
            if k in ("Call", "Ctor"):
                ks = [kk for kk in self.p.callee_keys(f, x) if kk in self.rel]
                if ks:
                    no, ne = set(), set()
                    for kk in ks:
                        g = self.p.fns[kk]
                        if kk == x.get("f") or (x.get("v")):
                            self.cfg(g)
                            b = self.bind(f, x, g, env)
                            if k == "Ctor":
                                o = self.obj(f, x["cls"], x, env)
                                if o and ("ock" in x["cls"] or "utex" in x["cls"]): b["this"] = o
                        else: b = {}
                        for S in outs:
                            a, xx = self.request(kk, S, b, ctx)
                            no |= a; ne |= xx
                    # external callee with functor arguments may also not call them
                    if x.get("f") not in self.p.fns: no |= outs
                    excs |= ne | outs
                    outs = no
            elif k == "Tmp":
                tmps.append(x)
        for x in reversed(tmps):
            if x["dt"] in self.rel:
                o = self.obj(f, x["cls"], x["e"], env)
                no = set()
                for S in outs:
                    a, xx = self.request(x["dt"], S, {"this": o} if o else {}, ctx)
                    no |= a
                outs = no
        return outs, excs

    # ---- reporting
    def chain(self, ctx, limit=12):
        out = []
        while ctx is not None and len(out) < limit:
            f = self.p.fns[ctx[0]]
            out.append("%s (%s:%d) with locks {%s}" % (f.q, f.file, f.line, ", ".join(sorted(map(show, ctx[1])))))
            ctx = self.parent.get(ctx)
        return list(reversed(out))


def show(nm):
    if nm is None: return "?"
    if nm[0] == "G": return nm[1]
    if nm[0] == "M": return show(nm[1]) + "." + nm[2]
    if nm[0] in ("F", "C"): return nm[1] or "?"
    if nm[0] == "OMP": return "omp critical(" + nm[1] + ")"
    if nm[0] == "O": return "guard"
    return str(nm[1:])


def base(nm):
    """owner object of a mutex name: strips the implementation member"""
    while nm and nm[0] == "M": nm = nm[1]
    return nm


def roots(prog):
    """functions callable from outside the library with no lock held"""
    called = set()
    for a, bs in prog.callgraph().items(): called |= {b for b in bs if b != a}
    out = set()
    mcls = {r["cls"] for r in prog.recs.values() if any("omp_lock_t" in r["_types"][x["t"]] or "omp_nest_lock_t" in r["_types"][x["t"]] for x in r.get("fields", ()))}
    mcls |= {r["cls"] for r in prog.recs.values() for x in r.get("fields", ()) if r["_types"][x["t"]].rstrip(" &*") in mcls and r["_types"][x["t"]][-1] in "&*"}
    for f in prog.fns.values():
        if f.key in prog.lambda_fns or f.cls in mcls: continue
        d = f.d
        if f.key not in called: out.add(f.key); continue
        if d.get("ec") and not d.get("int"): out.add(f.key); continue
        if d.get("acc") in ("private", "protected"): continue
        dec = prog.decls.get(f.key)
        files = {f.file} | ({dec.file} if dec else set())
        if any(x.startswith("include/") for x in files) and not d.get("int"): out.add(f.key); continue
        if d.get("ov"): out.add(f.key); continue
    return out
