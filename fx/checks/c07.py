"""C07: no exception leaves an OpenMP region (the runtime would terminate the process)."""
from ..prog import walk
from ..status import StatusAnalysis
from .c04 import explore_flags
LEVEL = "other"


def check(ctx, res):
    p, exc = ctx.core, ctx.exc
    n = nh = 0
    sa = StatusAnalysis(ctx, lambda q: False, lambda q: False, set(), lambda f: True)
    for f in sorted(p.fns.values(), key=lambda f: (f.file, f.line)):
        if f.body is None: continue
        for s in walk(f.body):
            if s.get("k") != "Omp" or s.get("b") is None: continue
            n += 1
            t = exc.stmt_types(f, s["b"])
            if len(res.samples) < 12: res.samples.append("%s:%d %s in %s: %s" % (f.file, s["l"], s.get("d"), f.q, "nothing escapes" if not t else sorted(t)))
            for ty in sorted(t):
                w = t[ty]
                lines = ["%s:%d: exception %s can leave the OpenMP '%s' region in %s" % (f.file, s["l"], ty, s.get("d"), f.q), "  %s:%s %s" % (f.file, w[1], w[2])]
                if w[2].startswith("call "):
                    for g in p.by_q.get(w[2][5:], ()):
                        if ty in exc.sum.get(g.key, {}): lines += ["    " + x for x in exc.path(g, ty)]; break
                res.violation("omp-escape|%s|%s" % (f.q, ty), lines)
        nh += reported(res, sa, f)
    res.count("failures_caught_inside_regions", nh)
    res.need("openmp_regions", n, 8)
    res.count("functions_in_effect_analysis", len(exc.sum))
    res.explanation = ("Exception-effect analysis: for every OpenMP region found by the compiler in the build configuration, the set of exception types that can leave its structured block (after try/catch filtering inside it) must be empty. "
                       "From every catch handler inside of a region, and from every branch inside of it that finds a kernel has answered MIFI_ERROR, no path may lead to a normal end of the function "
                       "(flags, saved exceptions, counters and collected messages set there are followed).")
    res.assumptions = ["std::bad_alloc is not considered", "external functions throw only as listed in fx/exc.py", "functions called only through C function pointers do not throw"]


def failing_edges(g, inside):
    """(node to start from, what failed) inside of the region"""
    for n in g.nodes:
        if n.id not in g.reach: continue
        if n.kind == "catch" and id(n.x) in inside: yield n, "the exception caught at line %s" % n.line
        if n.kind == "branch" and id(n.x) in inside:
            e = n.x
            while e.get("k") in ("Cast", "Paren"): e = e["e"]
            if e.get("k") == "Bin" and e["op"] in ("==", "!="):
                a, b = e["a"], e["b"]
                if b.get("cv") != -1: a, b = b, a
                while a.get("k") in ("Cast", "Paren"): a = a["e"]
                if b.get("cv") == -1 and a.get("k") == "Call":
                    for lab, m in n.succ:
                        if lab == (e["op"] == "=="): yield m, "the failure of the call tested at line %s" % n.line


def reported(res, sa, f):
    """a failure caught inside of a region is reported after it"""
    regions = [s for s in walk(f.body) if s.get("k") == "Omp" and "parallel" in (s.get("d") or "") and s.get("b") is not None]
    if not regions: return 0
    g = sa.cfg(f)
    inside = {id(x): s for s in regions for x in walk(s["b"])}
    k = 0
    for n, what in failing_edges(g, inside):
        k += 1
        ln = explore_flags(sa, f, n)
        if ln: res.violation("unreported|%s" % f.q, "%s:%s: %s inside of the parallel region of %s is not reported: the function can end normally (line %s)" % (f.file, n.line, what, f.q, ln))
    return k
