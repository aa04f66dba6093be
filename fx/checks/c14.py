"""C14: raw resources are released exactly once on every path (ownership typestate, see fx/resource.py)."""
from ..prog import walk
from ..nullness import SMART
from ..resource import Resources, strip

LEVEL = "other"


def unload_order(R, f):
    """(node, state, call, members reset before) for each dlclose in a destructor"""
    g = R.cfg(f)
    out, seen, work = [], set(), [(g.entry, frozenset())]
    while work:
        n, st = work.pop()
        if (n.id, st) in seen: continue
        seen.add((n.id, st))
        if isinstance(n.x, dict) and n.kind in ("eval", "decl", "branch", "ret"):
            for x in walk(n.x):
                if x.get("k") != "Call": continue
                t = strip(x.get("this")) if x.get("this") is not None else None
                if t is not None and t.get("k") == "Mem" and (x.get("op") == "=" or (x.get("q") or "").endswith("::reset")): st = st | {t["n"]}
                if x.get("q") == "dlclose": out.append((n, st, x, st))
        for _, m in n.succ: work.append((m, st))
        if n.exc is not None: work.append((n.exc, st))
    return out


def check(ctx, res):
    R = Resources(ctx, lambda f: f.file.startswith("src/") or f.file.startswith("include/fimex"))
    fns = R.run()
    p = R.p
    res.need("functions", len(fns), 1500)
    res.need("acquisition_sites", len(R.sites), 60)
    res.count("functions_returning_ownership", len(R.acq))
    res.count("functions_taking_ownership", len(R.consumes))
    res.need("members_released_by_destructors", len(R.releasing), 3)
    res.count("truncated_functions", R.notes.get("truncated", 0) + R.notes.get("capped", 0))
    for k, (f, node, rid, what) in sorted(R.violations.items()):
        res.violation(k, ["%s: %s: %s" % (f.loc(node), f.q, what)])
    # a class whose destructor releases a member must not be copied member by member
    n = 0
    for f in fns:
        for r in [f.body] + [i.get("e") for i in f.d.get("inits", ())]:
            for x in walk(r) if r is not None else ():
                if x.get("k") == "Ctor" and x.get("cls") in R.ownercls:
                    n += 1
                    if x.get("cm") == "copy" and x.get("f") not in p.fns:
                        res.violation("%s:%s:copy of %s" % (f.file, f.q, x["cls"]), ["%s: %s copies a %s member by member; both copies release the same resource" % (f.loc(x), f.q, x["cls"])])
    # code of a plugin library is not run after the library has been closed
    for f in fns:
        if not f.name.startswith("~") or not f.cls or f.cls not in p.recs: continue
        r = p.recs[f.cls]
        smart = {x["n"] for x in r.get("fields", ()) if SMART.match(r["_types"][x["t"]])}
        for _n, _st, x, cleared in unload_order(R, f):
            for m in sorted(smart - cleared):
                res.violation("%s:%s:%s outlives the library" % (f.file, f.q, m), ["%s: %s closes the plugin library while the member %s, an object of that library, still has to be destroyed" % (f.loc(x), f.q, m)])
    # objects handed to C callers need a C function that takes them back
    taken = {}
    for f in fns:
        if f.d.get("ec"):
            for i, rel in R.consumes.get(f.key, {}).items():
                if "delete" in rel: taken[f.types[f.params[i]["t"]].replace("const ", "").replace(" ", "")] = f.q
    given = 0
    for f in fns:
        if f.d.get("ec") and "delete" in R.acq.get(f.key, ()):
            given += 1
            if f.ret.replace("const ", "").replace(" ", "") not in taken:
                res.violation("%s:%s:never taken back" % (f.file, f.q), ["%s: %s returns an object of type %s that no function of the C interface deletes" % (f.loc(), f.q, f.ret)])
    res.count("objects_given_to_c_callers", given)
    res.count("constructions_of_owning_classes", n)
    res.samples = ["%s: %s" % (f.loc(node), nm) for f, node, nm in sorted(R.sites.values(), key=lambda t: (t[0].file, t[1].get("l", 0))) if nm != "new"][:12]
    res.explanation = ("Path-sensitive ownership typestate of every raw resource (heap blocks, FILE, DIR, plugins, GRIB handles, netCDF ids, XML objects and strings, unit and projection objects): "
                       "each acquisition is followed through local aliases, returns, smart pointers (with the release function of their deleter), members released by destructors and parameters taken over, "
                       "to every exit of the function including exceptional ones; reported are leaks, double releases, uses after release, releases with the wrong function, members left marked as held, and copies of owning classes.")
    res.assumptions = ["memory exhaustion is not considered", "resources stored in containers or through pointers into memory of others are taken over by them", "external functions borrow their arguments unless listed"]
