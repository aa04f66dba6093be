"""C06: no exception leaves a C entry point or C callback; failure paths return the failure result."""
from ..prog import walk, post
from ..cfg import CFG
from ..extract import AnalysisError
LEVEL = "other"
PROG, BUSY = None, set()


def callbacks(p):
    """functions whose address is handed to an external C function"""
    out = {}
    for f in p.fns.values():
        for c in p.calls(f):
            if c["k"] == "Call" and c.get("ec") and not c.get("rp"):
                for a in c.get("a", ()):
                    x = a
                    while x is not None and (x.get("k") == "Cast" or (x.get("k") == "Un" and x["op"] == "&")): x = x.get("e") or x.get("a")
                    if x is not None and x.get("k") == "Ref" and x.get("dk") == "func" and x["f"] in p.fns: out[x["f"]] = (c["q"], f)
    return out


def ev(f, e, env):
    """abstract value: ('c', n) constant, ('null',), ('empty',) empty string, ('nan',), None unknown"""
    if e is None: return None
    if e.get("null") or e.get("k") == "Null": return ("null",)
    if "cv" in e: return ("c", e["cv"])
    k = e.get("k")
    if k == "Ref":
        if e.get("id") in env: return env[e["id"]]
        if e.get("dk") == "global" and ("EMPTY" in e["n"]): return ("empty",)
    if k == "Str": return ("empty",) if e.get("v") == "" else ("str",)
    if k == "Cast": return ev(f, e["e"], env)
    if k == "Cond":
        a, b = ev(f, e["a"], env), ev(f, e["b"], env)
        return a if a == b else None
    if k in ("Ctor", "Call"):
        args = [a for a in e.get("a", ()) if a is not None]
        vs = [ev(f, a, env) for a in args]
        if "empty" in [v[0] for v in vs if v]: return ("empty",)
        if any(w in (e.get("q") or "") for w in ("nan", "NaN")): return ("nan",)
        g = PROG.fns.get(e.get("f")) if k == "Call" else None
        if g is not None and g.body is not None and g.key not in BUSY:
            # a helper that returns one fixed value
            BUSY.add(g.key)
            rs = {ev(g, x["e"], {}) for x in walk(g.body) if x.get("k") == "Ret" and x.get("e") is not None}
            BUSY.discard(g.key)
            if len(rs) == 1: return rs.pop()
    if k == "Flt": return ("nan",) if e.get("v") is None else ("flt",)
    return None


def returns(p, f, exc):
    """-> (values returned on paths without failure, [(value, line)] returned after a catch handler was entered)"""
    g = CFG(f.body, lambda x: bool(exc.expr_types(f, x)) if x is not None else False, f.d.get("inits", ()))
    okv, bad = set(), {}
    seen = set(); st = [(g.entry, None, ())]
    while st:
        n, h, envt = st.pop()
        key = (n.id, h, envt)
        if key in seen: continue
        seen.add(key)
        if len(seen) > 200000: raise AnalysisError("path explosion in " + f.q)
        env = dict(envt)
        h2 = h
        if n.kind == "catch": h2 = n.line
        elif n.kind == "decl":
            env[n.x["id"]] = ev(f, n.x.get("i"), env) if n.x.get("i") is not None else None
        elif n.kind in ("eval", "branch"):
            for x in post(n.x):
                if x.get("k") == "Asg" and x["a"].get("k") == "Ref" and "id" in x["a"]:
                    env[x["a"]["id"]] = ev(f, x["b"], env) if x["op"] == "=" else None
                elif x.get("k") == "Un" and x["op"] in ("++", "--", "p++", "p--") and x["a"].get("k") == "Ref": env[x["a"].get("id")] = None
        elif n.kind == "ret":
            v = ev(f, n.x.get("e"), env)
            if h2 is None: okv.add(v)
            else: bad.setdefault(v, (h2, n.line))
        et = tuple(sorted((k, v) for k, v in env.items() if v is not None))
        for lab, m in n.succ:
            if n.kind == "branch" and n.x.get("k") == "Ref" and n.x.get("id") in env and env[n.x["id"]] and env[n.x["id"]][0] == "c":
                if bool(env[n.x["id"]][1]) != lab: continue
            st.append((m, h2, et))
        if n.exc is not None: st.append((n.exc, h2, tuple(sorted((k, v) for k, v in dict(envt).items() if v is not None))))
    return okv, bad


def answering(p, fs):
    """the entry points and callbacks, and the helpers whose result they return"""
    out, todo = {}, list(fs)
    while todo:
        f = todo.pop(0)
        if f.key in out: continue
        out[f.key] = f
        if f.body is None: continue
        for x in walk(f.body):
            if x.get("k") != "Ret" or x.get("e") is None: continue
            e = x["e"]
            while e is not None and e.get("k") in ("Cast", "Paren", "Tmp"): e = e.get("e")
            if e is not None and e.get("k") == "Call":
                for k in p.callee_keys(f, e):
                    g = p.fns.get(k)
                    if g is not None and g.ret == f.ret and g.file.startswith(("src/", "modules/")): todo.append(g)
    return list(out.values())


def check(ctx, res):
    global PROG
    p, exc = ctx.core, ctx.exc
    PROG = p
    api = [f for f in p.fns.values() if f.d.get("ec") and f.tu.endswith((".cc", ".cpp"))]
    cbs = callbacks(p)
    nh = 0
    for f in api + [p.fns[k] for k in cbs]:
        thrown = exc.inner.get(f.key, {})
        for t in sorted(thrown):
            via = "" if f.d.get("ec") else " (passed to %s in %s)" % (cbs[f.key][0], cbs[f.key][1].q)
            res.violation("escape|%s|%s" % (f.q, t), ["%s:%d: exception %s can leave %s%s" % (f.file, f.line, t, f.q, via)] + ["  " + x for x in exc.path(f, t)])
            break
    for f in answering(p, api + [p.fns[k] for k in cbs]):
        if f.ret == "void" or f.body is None or not any(x.get("k") == "Try" for x in walk(f.body)): continue
        okv, bad = returns(p, f, exc)
        nh += 1
        ptr = f.ret.endswith("*")
        for v, (hl, rl) in bad.items():
            if ptr: good = v in (("null",), ("empty",))
            elif f.ret in ("double", "float"): good = v is not None and v[0] in ("nan", "flt") and v not in okv
            elif f.ret.startswith("unsigned"): good = v == ("c", 0)
            elif v is None or v[0] != "c": good = False
            elif ("c", 0) in okv: good = v[1] != 0             # status function: 0 is success
            else: good = v[1] < 0 or (v[1] == 0 and v not in okv)   # a count or an id: never negative on success
            if not good:
                res.violation("failure-as-success|%s" % f.q, ["%s:%d: %s returns %s after the exception handler at line %d; that is not a failure result (normal results: %s)" % (f.file, rl, f.q, v, hl, sorted(map(str, okv)))])
        if len(res.samples) < 10: res.samples.append("%s: normal %s, after handler %s" % (f.q, sorted(map(str, okv)), sorted(map(str, bad))))
    res.need("c_entry_points", len(api), 36)
    res.need("c_callbacks", len(cbs), 2)
    res.need("functions_with_handlers", nh, 12)
    res.count("functions_in_effect_analysis", len(exc.sum))
    res.explanation = ("Interprocedural exception-effect analysis (throw expressions, calls by class hierarchy, try/catch filtering with the exception hierarchy, throwing standard functions) for every extern \"C\" function "
                       "defined in C++ and every function handed to a C library; plus constant propagation of the value returned on each path that passes a catch handler.")
    res.assumptions = ["std::bad_alloc is not considered", "external functions throw only as listed in fx/exc.py"]
