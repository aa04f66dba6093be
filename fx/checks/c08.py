"""C08: what concurrent reads and parallel loops share is modified only under a common lock."""
import re
from collections import defaultdict
from ..effects import Effects, LocksAt
from ..locks import show
from ..prog import walk
LEVEL = "other"
BASE = "MetNoFimex::CDMReader"
BUILDER = "MetNoFimex::CoordSysBuilder::listCoordinateSystems"
METHODS = ("getData", "getDataSlice", "getScaledData", "getScaledDataSlice", "getScaledDataInUnit", "getScaledDataSliceInUnit")


def check(ctx, res):
    p = ctx.core
    e = ctx.exc
    cache = {}

    def mt(f, x):
        if x is None: return False
        k = (f.key, id(x))
        if k not in cache: cache[k] = bool(e.expr_types(f, x))
        return cache[k]
    la = LocksAt(p, mt)
    la.run([f.key for f in p.fns.values() if f.body is not None])
    src = set()
    for f in list(p.decls.values()) + list(p.fns.values()):
        if f.q.startswith(BASE + "::") and f.q.rsplit("::", 1)[1] in METHODS: src |= {k for k in p.transitive_overriders(f.key)} | {f.key}
    entries = [p.fns[k] for k in src if k in p.fns and p.fns[k].body is not None]
    hosts = [f for f in p.fns.values() if f.body is not None and any(x.get("k") == "Omp" and "parallel" in (x.get("d") or "") for x in walk(f.body))]
    # the coordinate systems of a reader are listed before data can be read through them; later calls find everything in place
    exempt = set()
    for f in list(p.decls.values()) + list(p.fns.values()):
        if f.q == BUILDER: exempt |= set(p.transitive_overriders(f.key)) | {f.key}
    only = set(p.reachable([f.key for f in entries] + [f.key for f in hosts]))
    a = Effects(p, la, src, None, exempt).run(only)
    locs, vars_ = collect(a, entries)
    wr = {l for l, effs in locs.items() if any(x[0] == "W" for x in effs)}
    a = Effects(p, la, src, wr, exempt).run(only)
    locs, vars_ = collect(a, entries)
    nw = prot = 0
    for loc, effs in sorted(locs.items(), key=lambda x: str(x[0])):
        if not any(x[0] == "W" for x in effs): continue
        nw += 1
        common = frozenset.intersection(*[x[1] for x in effs])
        if common:
            prot += 1
            res.samples.append("%s: %d accesses, all under %s" % (loc, len(effs), ", ".join(sorted(show(l) if l[0] != "ONCE" else "call_once" for l in common))))
            continue
        bad = sorted(effs, key=lambda x: (x[0] != "W", len(x[1]), x[2], x[3]))
        w = bad[0]
        other = next((x for x in bad if x[2] != w[2] and not (x[1] & w[1])), None)
        text = ["%s: %s is modified%s, in %s" % (w[2].split(" ")[0], loc, held(w[1]), w[3])]
        ch = a.explain(w[4], lambda k, s: k[2] == loc and s == w[2])
        if ch: text.append("reached through " + " -> ".join(ch))
        if other: text.append("%s while %s it%s, in %s" % (other[2].split(" ")[0], "another thread modifies" if other[0] == "W" else "another thread reads", held(other[1]), other[3]))
        res.violation("%s:%s" % (re.sub(r":\d+$", "", w[2].split(" ")[0]), loc), text)
    nv = 0
    for (r, loc), effs in sorted(vars_.items()):
        if not any(x[0] == "W" for x in effs): continue
        nv += 1
        if frozenset.intersection(*[x[1] for x in effs]): prot += 1; continue
        w = sorted((x for x in effs if x[0] == "W"), key=lambda x: (len(x[1]), x[2]))[0]
        res.violation("%s:%s" % (r, loc), ["%s: %s is shared by the iterations of the parallel loop in %s and modified%s" % (w[2].split(" ")[0], loc, r, held(w[1]))])
    res.need("concurrent_entry_points", len(entries), 10)
    res.need("functions_with_parallel_regions", len(hosts), 1)
    res.count("functions_reached", len(only))
    res.count("locations_modified_during_reads", nw)
    res.count("shared_loop_variables_modified", nv)
    res.count("modified_under_a_common_lock", prot)
    res.count("function_analyses", a.rounds)
    res.assumptions.append("the effects of CoordSysBuilder::listCoordinateSystems on the data model of its reader are not counted: they happen at its first call, which precedes reading")
    res.explanation = ("For every function reachable from a data method of a reader or from a parallel loop, the modifications and reads of storage that outlives the call (members reachable from this, static variables, "
                       "variables shared by the loop) are summarised with the locks certainly held; loop iterations own what they declare, their private variables and the elements selected by the loop variable. "
                       "Obligation: all accesses to a location that is modified share one lock.")


def held(L):
    return " with no lock held" if not L else " holding " + ", ".join(sorted(show(l) if l[0] != "ONCE" else "call_once" for l in L))


def collect(a, entries):
    locs, vars_ = defaultdict(list), defaultdict(list)
    for f in entries:
        for (kind, at, loc, L), site in a.eff[f.key].items():
            if at[0] == "D": at = at[2]
            if at[0] == "S" or at[1] == -1: locs[loc].append((kind, L, site, f.q.replace("MetNoFimex::", ""), f.key))
    for (r, kind, loc, L), (f, node, st, reg) in a.region_eff.items():
        if loc and loc.startswith("variable '"): vars_[r, loc].append((kind, L, st))
        else: locs[loc].append((kind, L, st, "the parallel region in " + f.q.replace("MetNoFimex::", ""), f.key))
    return locs, vars_
