"""C16: results of lookups that may fail are checked before they are used (typestate analysis, see fx/nullness.py)."""
from collections import defaultdict
from ..nullness import Nullness

LEVEL = "other"

# Sites where the presence is guaranteed by something outside the function; each confirmed by reading.
# (file, lookup): (number of sites, reason)
LEDGER = {
    ("src/AggregationReader.cc", "getUnlimitedDim"): (2, "coordinate values and joined variables are only collected for readers with an unlimited dimension, which is then also in the aggregation"),
    ("src/CDMInterpolator.cc", "findAxisOfType"): (3, "systems selected by findBestCoordinateSystemsAndProjectionVars(false) have Lat and Lon axes"),
    ("src/CDMProcessor.cc", "dynamic_pointer_cast"): (1, "the type follows from the name of the transformation, tested before"),
    ("src/CDMProcessor.cc", "find"): (2, "findBestHorizontalCoordinateSystems only puts ids of the map in the list of variables"),
    ("src/CDMTimeInterpolator.cc", "find"): (2, "changeTimeAxis fills both maps for the same axis"),
    ("src/CDMVerticalInterpolator.cc", "getGeoZAxis"): (1, "the template system has been tested with isSimpleZAxis when it was set"),
    ("src/NcmlAggregationReader.cc", "null"): (1, "only empty for an empty document id, with which no document can be opened"),
    ("src/c_fimex.cc", "dynamic_cast"): (2, "slice builders with a coordinate system are created with that type"),
    ("src/coordSys/WRFCoordSysBuilder.cc", "null"): (6, "the axis exists when the dimension of that name exists, and dimensions of variables exist"),
    ("src/coordSys/WRFCoordSysBuilder.cc", "parameter"): (1, "the only caller dereferences the reader before"),
    ("src/coordSys/verticalTransform/PressureIntegrationToAltitudeConverter.cc", "getGeoZAxis"): (1, "converters are created for systems with vertical transformation, which have a vertical axis"),
    ("src/io/felt/FeltCDMReader2.cc", "find"): (1, "level dimensions are created for all level types of the same arrays"),
    ("src/io/grib/GribApiCDMWriter_Impl2.cc", "findCompleteCoordinateSystemFor"): (1, "levels are only set for variables taken from a complete coordinate system"),
    ("src/io/grib/GribApiCDMWriter_ImplAbstract.cc", "getTimeAxis"): (1, "more than one reference time only with a time axis"),
    ("src/io/grib/GribCDMIndexer.cc", "operator[]"): (1, "the tested node is the first one of the set"),
    ("src/io/grib/GribCDMIndexer.cc", "find"): (1, "an entry is made for each variable"),
    ("src/io/grib/GribCDMReader.cc", "null"): (1, "the buffer is allocated under the same condition under which it is used"),
    ("src/io/netcdf/NetCDF_CDMWriter.cc", "find"): (2, "all variables of the model have been defined, and attributes exist only for variables of the model"),
}


def check(ctx, res):
    p = ctx.core
    an = Nullness(p, lambda f: f.file.startswith("src/") or f.file.startswith("include/fimex"))
    fns = an.run()
    res.need("functions", len(fns), 1500)
    res.need("lookups", len(an.sources), 200)
    res.count("presence_tests", len(an.checked))
    res.count("functions_that_may_return_null", len(an.maynull))
    res.count("predicates_implying_presence", len(an.pred))
    res.count("assumptions_checked_at_callers", sum(map(len, an.reqkeys.values())) + sum(map(len, an.requires.values())))
    groups = defaultdict(list)
    for k, (f, node, v, nm, what) in an.reports.items():
        lk = "parameter" if isinstance(v[1], int) else v[1]
        groups[(f.file, lk)].append((f, node, v, nm, what))
    acc = 0
    for g, rs in sorted(groups.items()):
        n, why = LEDGER.get(g, (0, ""))
        if len(rs) <= n:
            acc += len(rs); continue
        for f, node, v, nm, what in rs:
            key = "%s:%s:%s:%s" % (f.file, f.q.replace("MetNoFimex::", ""), nm, g[1])
            res.violation(key, ["%s: %s uses the result of %s (%s), which may be absent, without a check%s" % (f.loc(node), f.q, g[1], nm, ": " + what if what else ""),
                                "state on some path: %s" % v[0]] + (["(%d sites of this kind in the file are accepted: %s)" % (n, why)] if n else []))
    res.count("accepted_by_invariant", acc)
    res.samples = ["%s:%s" % (p.fns[k].loc(), nm) for k, l, nm in sorted(an.sources, key=str)[:12]]
    res.explanation = ("Forward typestate analysis of all functions: results of failable lookups (container and algorithm searches, dynamic casts, C functions that may return NULL, "
                       "functions of the library that may return null, attributes fetched by reference) may be absent until tested; the branches of tests, predicates (also inferred ones), "
                       "boolean flags and container sizes refine the state; using a possibly absent result is a violation. What internal functions assume about their arguments is checked at their callers.")
    res.assumptions = ["the invariants listed in fx/checks/c16.py (confirmed by reading) hold",
                       "data arrays returned by readers are not tracked: a reader returning no data is a separate contract",
                       "pointers stored in members are assumed present unless fetched by a lookup in the same function"]
