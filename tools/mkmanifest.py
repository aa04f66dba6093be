#!/usr/bin/env python3
"""writes MANIFEST.json; a property is claimed when fx/checks/<id>.py exists and it is listed in CLAIMED"""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CLAIMED = {
 "C01": ("interprocedural path- and context-sensitive lockset dataflow", "all paths and schedules over the modelled language subset; trusts the lock primitives and class-hierarchy call resolution"),
 "C02": ("lock-order graph and re-acquisition analysis over interprocedural locksets", "all contexts and paths; member locks identified per class"),
 "C03": ("interprocedural lockset dataflow", "as C01, for the units library"),
 "C04": ("status-typestate path analysis over every netCDF call site, plus handler obligation analysis", "every path from each call site inside the analysed functions; tolerated probes are listed with reasons in the checker"),
 "C05": ("status-typestate path analysis over every GRIB library call site", "as C04, for eccodes; out-values are tracked to their uses"),
 "C06": ("interprocedural exception-effect analysis of every C entry point and callback", "all exception types except memory exhaustion; external functions by a table of what they throw"),
 "C08": ("interprocedural effect analysis with access paths and locksets, over concurrent entry points and parallel loops", "all interleavings; locations by class and access path (containers as one element), ownership inside loops by declaration, private clauses and loop-variable indexing; coordinate-system listing excluded"),
 "C09": ("interprocedural storage-ownership (may-alias) dataflow with write effects", "all functions and call chains of the library; objects by access path of depth 3, containers as one element; what a reader keeps is everything reachable from it"),
 "C10": ("conditional constant propagation over every type dispatch table, with cross-table agreement", "all element types through every table found; table entries are resolved to callee template arguments and library functions"),
 "C11": ("label-flow (provenance) abstract execution of index writers and readers", "per stored field, per element type; containers as one element; conditional storage is reported unless it is a presence test"),
 "C12": ("comparison of Fortran bind(C) declarations, calls and enumerators with the C prototypes and enums", "all bound functions, actual arguments and constants found; Fortran by a purpose-built parser of the module sources"),
 "C13": ("conditional constant propagation of name tables and dispatches for every name and code", "all documented names and codes plus an unknown one, through every table and dispatch found"),
 "C15": ("context-sensitive file-effect analysis with constant propagation of open modes", "all call chains from every read entry point of the library and its Python module; file types enumerated from the factories' own literals plus near misses"),
 "C14": ("path-sensitive ownership typestate with inferred ownership transfer", "every acquisition site to every normal and exceptional exit; memory exhaustion excluded; storage in containers or foreign memory counts as handed over"),
 "C16": ("typestate dataflow of failable lookups with inferred predicates, postconditions and caller obligations", "every lookup site of the library on every path; invariants between objects that keep a few sites safe are listed with reasons in the checker; data arrays returned by readers are not tracked"),
 "C17": ("path-sensitive relational abstract interpretation with wrap-around unsigned arithmetic; exit obligations and element-wise loop facts", "all paths for all argument values up to 2^64-1 (data lengths below 2^40); an obligation the domain cannot decide is listed in the evidence and raises no alarm"),
 "C18": ("path-sensitive relational abstract interpretation of the kernels over symbolic sizes", "all paths and loop iterations for every size (dimensions 0..2^20, element counts below 2^31); real arithmetic for positions; an obligation the domain cannot decide is listed in the evidence and raises no alarm"),
 "C07": ("exception-effect analysis of every OpenMP region", "as C06"),
}
NA = {
 "C19": "equality with a mathematical definition up to rounding quantifies over floating-point values; no sound static argument in reach bounds them",
 "C20": "round-trip equality of conversions quantifies over floating-point values, external unit tables and calendars",
}
ids = [json.loads(l)["id"] for l in open(os.path.join(HERE, "properties.jsonl"))]
m = {"version": 1, "setup_cmd": "./setup.sh", "checks": [], "not_applicable": []}
for i in ids:
    if i in CLAIMED:
        m["checks"].append({"property": i, "quick_cmd": "./check.sh %s" % i, "thorough_cmd": "./check.sh %s --tier thorough" % i,
                            "technique": CLAIMED[i][0], "level": "other", "level_note": CLAIMED[i][1]})
    else:
        m["not_applicable"].append({"property": i, "reason": NA[i]})
with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1); f.write("\n")
