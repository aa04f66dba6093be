"""C04: a failing netCDF call is always reported."""
from ..status import StatusAnalysis, E
from ..prog import walk
from ..extract import AnalysisError
LEVEL = "other"
# library functions without a status
NOSTATUS = {"nc_strerror", "nc_inq_libvers"}
# releasing: nothing can be done about a failure
RELEASE = {"nc_close", "nc_free_string", "nc_abort"}
# asking whether something exists, or which format a file has: the only failures that may be an answer
PROBE = {"nc_inq_attid", "nc_inq_att", "nc_inq_format", "nc_inq_format_extended", "nc_inq_grp_ncid", "nc_inq_ncid"}


def describe(o):
    if o[0] == "throw": return "throws"
    return "returns %s%s" % (o[1], " after testing the status" if o[2] else " without testing the status")


def judge_common(res, tag, f, c, name, oc, defaults=False):
    bad = []
    for o in sorted(oc, key=str):
        if o[0] != "normal" or o[1] == E: continue
        if not o[2] and defaults and o[5]: continue      # every result of the call was replaced by a default
        if not o[2]: bad.append(("ignored", "the status of %s is ignored on a path that ends at line %s" % (name, o[4])))
        elif defaults and unset(f, o[6]): bad.append(("unset", "after %s has failed the operation ends normally at line %s without a value for %s" % (name, o[4], unset(f, o[6]))))
        elif o[3]: bad.append(("result-used", "after %s has failed its result %s is used at line %s" % (name, sorted(o[3])[0][0], sorted(o[3])[0][1])))
    return bad


def unset(f, outs):
    """results of the failed call that outlive the function: its reference or pointer parameters and members of its object"""
    prm = {q["id"]: q["n"] for q in f.params if f.types[q["t"]].endswith(("&", "*"))}
    for pl in sorted(outs, key=str):
        if pl[0] == "m": return "member %s" % pl[1]
        if pl[0] == "v" and len(pl) == 2 and pl[1] in prm: return "parameter %s" % prm[pl[1]]
    return None


def check(ctx, res):
    p = ctx.core
    sa = StatusAnalysis(ctx, lambda n: n.startswith("nc_") and n not in NOSTATUS, lambda n: False, set(), lambda f: True)
    sites = [0]

    def judge(f, c, name, oc, ev):
        sites[0] += 1
        names = set(name.split("|"))
        if len(res.samples) < 12: res.samples.append("%s:%s %s in %s: %s" % (f.file, c["l"], name, f.q, ", ".join(sorted({describe(o) for o in oc}))))
        if names <= RELEASE: return
        for kind, text in judge_common(res, "C04", f, c, name, oc):
            res.violation("%s|%s|%s" % (kind, f.q, name), "%s:%s: in %s %s" % (f.file, c["l"], f.q, text))
        if not names <= PROBE:
            for o in oc:
                if o[0] == "normal" and o[1] != E and o[2]:
                    res.violation("tolerated|%s|%s" % (f.q, name), "%s:%s: %s continues normally (line %s) although %s failed" % (f.file, c["l"], f.q, o[4], name))
    n = sa.run(judge)
    res.need("netcdf_status_sites", n, 60)
    handlers(ctx, res, sa)
    res.explanation = ("For every call of a netCDF function that returns a status, all CFG paths from the call are explored under the assumption that the status is an arbitrary non-zero value (through checker functions and status-returning wrappers): "
                       "each must end in an exception, return the status, or establish by a branch that the call failed and not use its results; only existence and format probes may be tolerated that way. "
                       "Every catch handler in the netCDF code that a netCDF failure can reach must lead to an exception leaving the function (flag variables set in the handler are tracked).")
    res.assumptions = ["NC_NOERR is 0 and every other value is a failure", "a status stored in an object member is not followed further"]


def failing_functions(ctx, sa):
    """functions out of which a netCDF failure may be thrown (exception types)"""
    p, exc = ctx.core, ctx.exc
    base = {f.key for f in p.fns.values() if any(True for _ in sa.source_calls(f))}
    cg = p.callgraph()
    rev = {}
    for a, bs in cg.items():
        for b in bs: rev.setdefault(b, set()).add(a)
    seen = set(base); st = list(base)
    while st:
        k = st.pop()
        for a in rev.get(k, ()):
            if a not in seen: seen.add(a); st.append(a)
    return {k for k in seen if exc.sum.get(k)}


def handlers(ctx, res, sa):
    p, exc = ctx.core, ctx.exc
    fail = failing_functions(ctx, sa)
    nh = 0
    for f in p.fns.values():
        if not f.file.startswith("src/io/netcdf/") or f.body is None or f.d.get("dtor"): continue
        g = None
        for s in walk(f.body):
            if s.get("k") != "Try": continue
            thrown = set()
            for c in p.calls(f, s["b"]):
                ks = p.callee_keys(f, c)
                for k in ks & fail: thrown |= set(exc.sum[k])
            if not thrown: continue
            g = g or sa.cfg(f)
            for h in s["h"]:
                ht = f.types[h["t"]].replace("const ", "") if "t" in h else None
                if ht is not None and not any(exc.sub(t, ht) for t in thrown): continue
                nh += 1
                for n in g.nodes:
                    if n.kind == "catch" and n.x is h and n.id in g.reach:
                        ln = swallowed(sa, f, n)
                        if ln: res.violation("swallowed|%s|%s" % (f.q, ht or "..."), "%s:%s: the handler for %s in %s can end in a normal return (line %s), although a netCDF failure reaches it" % (f.file, h["l"], ht or "...", f.q, ln))
    res.need("handlers_reached_by_netcdf_failures", nh, 3)


def swallowed(sa, f, n):
    """line of a normal exit reachable from the handler, following flag variables"""
    oc = explore_flags(sa, f, n)
    return oc


def explore_flags(sa, f, start):
    g = sa.cfg(f)
    work = [(start, {})]
    seen = set()
    while work:
        n, env = work.pop()
        key = (n.id, tuple(sorted((k, str(v)) for k, v in env.items())))
        if key in seen: continue
        seen.add(key)
        if len(seen) > 60000: raise AnalysisError("handler analysis: too many paths in " + f.q)
        if n.kind == "exit": return n.line or "end"
        if n.kind == "excexit": continue
        st = {"env": dict(env), "S": None, "S_outs": set(), "outs": set(), "throw": False, "thrown": None, "seen": True, "reads": [], "errvar": None}
        val = None
        if n.kind in ("eval", "branch"): val = flag_ev(sa, f, n.x, st)
        elif n.kind == "decl":
            v = n.x
            val = sa.ev(f, v["i"], st) if v.get("i") is not None else None
            st["env"].pop(v["id"], None)
            if val is not None and val != E: st["env"][v["id"]] = val
        elif n.kind == "ret":
            return n.line
        if st["throw"]: continue
        t = sa.truth(val) if n.kind == "branch" else None
        env2 = {k: v for k, v in st["env"].items() if v is not None}
        if not n.succ and n.exc is None: continue
        for lab, m in n.succ:
            if t is not None and lab in (True, False) and lab != t: continue
            if m.kind == "exit": return n.line or "end"
            work.append((m, env2))
        if n.exc is not None: work.append((n.exc, env))
    return None


GROW = ("push_back", "emplace_back", "push_front", "insert", "emplace", "append", "push")


def flag_ev(sa, f, e, st):
    # a saved exception_ptr, a message or a counter is a set flag
    for x in walk(e):
        if x.get("k") == "Call" and x.get("op") in ("=", "+=") and x.get("this") is not None and any(y.get("k") == "Call" and ("current_exception" in (y.get("q") or "") or "make_exception_ptr" in (y.get("q") or "") or (y.get("q") or "").endswith("::what")) for y in walk(x)):
            pl = sa.place(x["this"])
            if pl and pl[0] == "v":
                st["env"][pl[1]] = ("c", 1)
                return None
        if x.get("k") == "Call" and x.get("this") is not None and (x.get("q") or "").split("::")[-1] in GROW:
            pl = sa.place(x["this"])
            if pl and pl[0] == "v" and len(pl) == 2: st["env"][pl[1]] = ("c", 1)
        if x.get("k") == "Un" and x["op"] in ("++", "p++") or x.get("k") == "Asg" and x["op"] == "+=" or x.get("k") == "Call" and x.get("op") == "++":
            pl = sa.place(x.get("a") if x.get("k") != "Call" else x.get("this"))
            if pl and pl[0] == "v" and len(pl) == 2:
                st["env"][pl[1]] = ("c", 1)
                return None
    # is a container or message empty
    y, neg = e, False
    while y is not None and (y.get("k") in ("Cast", "Paren", "Tmp") or y.get("k") == "Un" and y["op"] == "!"):
        if y.get("k") == "Un": neg = not neg; y = y["a"]
        else: y = y.get("e")
    if y is not None and y.get("k") == "Call" and y.get("this") is not None and (y.get("q") or "").split("::")[-1] in ("empty", "size"):
        pl = sa.place(y["this"])
        if pl and pl[0] == "v" and len(pl) == 2 and st["env"].get(pl[1]) == ("c", 1):
            v = int((y["q"].endswith("size")) != neg)
            return ("c", v)
    return sa.ev(f, e, st)
