"""C09: no code writes through storage that belongs to a data source."""
import re
from ..alias import Alias
from ..extract import AnalysisError

LEVEL = "other"
BASE = "MetNoFimex::CDMReader"
HELD = {"MetNoFimex::CDMVariable": "the data of a variable", "MetNoFimex::CDMAttribute": "the data of an attribute"}


def check(ctx, res):
    p = ctx.core
    src = {}
    for q in ("getData", "getDataSlice", "getScaledData", "getScaledDataSlice", "getScaledDataInUnit", "getScaledDataSliceInUnit"):
        for f in list(p.decls.values()) + list(p.fns.values()):
            if f.q == BASE + "::" + q and f.ret.endswith("shared_ptr<MetNoFimex::Data>"):
                for k in p.transitive_overriders(f.key): src[k] = "reader " + q
    if len(src) < 10: raise AnalysisError("only %d reader data methods found" % len(src))
    held = {}
    # the places where a data model keeps its variables and attributes
    for r in p.recs.values():
        if r["cls"] not in ("MetNoFimex::CDM", "MetNoFimex::CDMImpl"): continue
        for fl in r.get("fields", ()):
            for cls, what in HELD.items():
                if re.search(cls + r"(?!\w)", r["_types"][fl["t"]]): held[r["cls"] + "::" + fl["n"]] = what
    if len(held) < 2: raise AnalysisError("the fields of the data model that hold variables and attributes were not found")
    opaque = {"MetNoFimex::CDM", "MetNoFimex::CDMImpl", BASE, "MetNoFimex::CDMWriter"}
    a = Alias(p, lambda f, c: ("fresh" if c.get("f") in src else None), held, lambda r: bool(opaque & ({r["cls"]} | set(r.get("allbases", ()))))).run()
    for k, what in src.items():
        f = p.fns.get(k)
        if f is None or f.body is None: continue
        for path, at in a.ret.get(k, ()):
            if at[0] == "S": w = at[1] + " of the data model"
            elif at[0] == "R": w = "'%s', which the reader keeps" % at[1]
            elif at[1] == -1: w = "'%s', which the reader keeps" % ".".join(at[2])
            else: continue
            res.violation("%s:%s:%s" % (f.file, f.q.replace("MetNoFimex::", ""), w), ["%s: %s hands out the storage of %s: a caller that modifies its result changes what the reader returns later" % (f.loc(f.d), f.q, w)])
    readers = {c for c, r in p.recs.items() if c == BASE or BASE in r.get("allbases", ())}
    nargs = 0
    for f in p.fns.values():
        if f.body is None or f.q.rsplit("::", 1)[0] not in readers: continue
        for i, prm in enumerate(f.params):
            if not re.search(r"shared_ptr<(const )?MetNoFimex::Data>|^const MetNoFimex::Data &", f.types[prm["t"]]): continue
            nargs += 1
            for at, site in a.writes.get(f.key, {}).items():
                if at[1] == i: res.violation("%s:%s:argument %s" % (f.file, f.q.replace("MetNoFimex::", ""), prm["n"]), ["%s: %s modifies the data its caller passed as '%s'" % (f.loc(f.d), f.q, prm["n"]), site])
    res.need("data_arguments_of_readers", nargs, 1)
    for (key, how, s), (f, node, full, s2) in sorted(a.violations.items(), key=lambda x: x[0]):
        res.violation("%s:%s:%s" % (key, s, how[:80]), ["%s: %s modifies storage of %s" % (f.loc(node), f.q, s2), full])
    res.count("analysed_functions", sum(1 for f in p.fns.values() if f.body is not None))
    res.need("reader_data_methods", len(src), 10)
    res.need("functions_writing_through_a_parameter", sum(1 for k in a.writes if a.writes[k]), 20)
    res.count("write_sites_through_tracked_storage", len(a.wsites))
    res.count("function_analyses", a.rounds)
    res.explanation = ("Every value is abstracted to the set of storage it may share (data of a variable or attribute of a data model, storage reachable from a parameter or from this), through calls, "
                       "virtual dispatch, lambdas, typed accessors and constructors. Obligations: no result of a reader data method shares storage with a data model or with anything reachable from the reader; "
                       "no write goes through storage of a data model; no member function of a reader writes through a data argument. Empty data carries no storage.")
