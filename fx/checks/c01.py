"""C01: every netCDF library call holds the one process-wide netCDF lock."""
from .lockcommon import analysis, common_lock, report_unlocked, leaks, show, base
LEVEL = "other"
# nc_strerror is a pure table lookup, nc_inq_libvers returns a constant string
EXEMPT = {"nc_strerror", "nc_inq_libvers"}


def is_target(c):
    q = c.get("q") or ""
    if c.get("ec") and q.startswith("nc_") and q not in EXEMPT and not c.get("rp"): return "nc"
    return None


def check(ctx, res):
    a = analysis(ctx, is_target)
    lock = common_lock(a, {"nc"})
    n = report_unlocked(a, res, {"nc"}, lock, "netCDF library")
    leaks(a, res, lambda nm: nm == lock)
    for (kind, fk, line, nm), c in a.problems.items():
        if kind == "release-unheld" and nm == lock:
            ch = a.chain(c)
            res.violation("release-unheld|%s" % "|".join(x.split(" (")[0] for x in ch[-3:-1]), ["lock %s released while not held" % show(nm)] + ["  reached by: " + x for x in ch])
    res.need("netcdf_call_sites", n, 60)
    res.count("contexts", len(a.memo))
    res.count("entry_points", a.nroots)
    res.count("lock_relevant_functions", len(a.rel))
    res.count("distinct_site_locksets", sum(len(v) for v in a.sites.values()))
    # call sites never reached from any entry point would not be covered
    tot = sum(1 for f in ctx.core.fns.values() for c in ctx.core.calls(f) if c["k"] == "Call" and is_target(c))
    res.count("netcdf_call_sites_in_source", tot)
    res.explanation = ("Path- and context-sensitive lockset dataflow from every entry point (public functions, virtual overrides, extern \"C\", uncalled functions) "
                       "with the empty lockset; locks followed through RAII guards, unlock guards, function results, omp critical, exceptional edges; virtual calls by class hierarchy. "
                       "Rule: each nc_* call site has lock %s in every lockset that reaches it; lock not held at any exit of an entry point." % show(lock))
    res.assumptions = ["OpenMP/std mutex primitives work", "nc_strerror is thread-safe", "memory exhaustion is not considered"]
