"""C03: udunits calls hold the unit lock, converter evaluations exclude each other."""
from .lockcommon import analysis, common_lock, report_unlocked, leaks, show
LEVEL = "other"
# releasing an object the caller exclusively owns touches no shared library state
EXEMPT = {"ut_free", "cv_free"}


def is_target(c):
    q = c.get("q") or ""
    if not c.get("ec") or c.get("rp") or q in EXEMPT: return None
    if q.startswith("ut_"): return "ut"
    if q.startswith("cv_"): return "cv"
    return None


def check(ctx, res):
    a = analysis(ctx, is_target)
    lock = common_lock(a, {"ut"})
    n = report_unlocked(a, res, {"ut"}, lock, "units library")
    cv = 0
    for sk, ls in a.sites.items():
        f, x, lab = a.site_node[sk]
        if lab != "cv": continue
        cv += 1
        own = {nm for L in ls for nm in L}
        for L in ls:
            # an evaluation is protected by the unit lock or by the converter critical section
            if not (lock in L or any(nm[0] == "OMP" or nm[0] == "G" or nm[0] == "M" for nm in L)):
                res.violation("unlocked|%s|%s" % (f.q, x["q"]), ["%s:%s: %s evaluates a converter (%s) without any process-wide lock" % (f.file, x["l"], f.q, x["q"])] + ["  reached by: " + c for c in a.chain(a.parent.get(("site", sk, L)))])
    leaks(a, res, lambda nm: nm == lock)
    # converters that are shared between threads (methods of converter objects): one common lock
    shared = {}
    for sk, ls in a.sites.items():
        f, x, lab = a.site_node[sk]
        if lab == "cv" and f.cls and x.get("a") and x["a"][0] is not None and x["a"][0].get("k") == "Mem":
            shared[sk] = set.intersection(*[set(L) for L in ls]) if ls else set()
    if shared:
        common = set.intersection(*shared.values())
        if not common:
            res.violation("converter-locks-differ", ["evaluations of shared converters do not have a common lock: " + "; ".join("%s:%s %s" % (a.site_node[s][0].file, a.site_node[s][1]["l"], sorted(map(show, v))) for s, v in shared.items())])
    res.need("unit_call_sites", n, 12)
    res.need("converter_call_sites", cv, 3)
    res.count("contexts", len(a.memo))
    res.count("entry_points", a.nroots)
    res.explanation = ("Same lockset dataflow as C01 for ut_*/cv_* calls. Rule: each ut_* call holds %s in every reaching lockset; each cv_* evaluation holds that lock or a process-wide critical section, "
                       "and all evaluations of converter members share one lock." % show(lock))
    res.assumptions = ["ut_free/cv_free of an exclusively owned object touch no shared state"]
