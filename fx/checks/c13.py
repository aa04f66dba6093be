"""C13: method names -> codes -> implementations (conditional constant propagation of every dispatch for every name and code)."""
import os, re
from ..prog import walk, Program
from ..ccp import CCP, TOP, path, subexprs
from ..extract import AnalysisError, compile_commands, REPO
LEVEL = "other"

H = "MIFI_INTERPOL_"
HNAMES = {"nearestneighbor": "NEAREST_NEIGHBOR", "bilinear": "BILINEAR", "bicubic": "BICUBIC", "coord_nearestneighbor": "COORD_NN", "coord_kdtree": "COORD_NN_KD"}
for k in ("sum", "mean", "median", "max", "min"):
    HNAMES["forward_" + k] = "FORWARD_" + k.upper()
    HNAMES["forward_undef_" + k] = "FORWARD_UNDEF_" + k.upper()
VNAMES = {"linear": "LIN", "linear_weak_extra": "LIN_WEAK_EXTRA", "linear_no_extra": "LIN_NO_EXTRA", "linear_const_extra": "LIN_CONST_EXTRA", "log": "LOG", "loglog": "LOGLOG", "nearestneighbor": "NN"}
TNAMES = {x.lower(): x for x in ("PRESSURE", "HEIGHT", "ALTITUDE", "DEPTH")}
FWD = [k + n for k in ("FORWARD_", "FORWARD_UNDEF_") for n in ("SUM", "MEAN", "MEDIAN", "MAX", "MIN")]
# what implements a method: construct -> the codes it implements
TOK_H = {"mifi_get_values_f": ["NEAREST_NEIGHBOR", "COORD_NN", "COORD_NN_KD"], "mifi_get_values_bilinear_f": ["BILINEAR"], "mifi_get_values_bicubic_f": ["BICUBIC"],
         "CachedNNInterpolation": ["NEAREST_NEIGHBOR", "COORD_NN", "COORD_NN_KD"], "CachedInterpolation": ["BILINEAR", "BICUBIC"], "CachedForwardInterpolation": FWD,
         "changeProjectionByProjectionParameters": ["NEAREST_NEIGHBOR", "BILINEAR", "BICUBIC"], "changeProjectionByProjectionParametersToLatLonTemplate": ["NEAREST_NEIGHBOR", "BILINEAR", "BICUBIC"],
         "changeProjectionByCoordinates": ["COORD_NN", "COORD_NN_KD"], "changeProjectionByForwardInterpolation": FWD,
         "fastTranslatePointsToClosestInputCell": ["COORD_NN"], "flannTranslatePointsToClosestInputCell": ["COORD_NN_KD"]}
for k in ("Sum", "Mean", "Median", "Max", "Min"): TOK_H["Agg" + k] = ["FORWARD_" + k.upper(), "FORWARD_UNDEF_" + k.upper()]
TOK_V = {"mifi_get_values_linear_f": ["LIN"], "mifi_get_values_linear_weak_extrapol_f": ["LIN_WEAK_EXTRA"], "mifi_get_values_linear_no_extrapol_f": ["LIN_NO_EXTRA"],
         "mifi_get_values_linear_const_extrapol_f": ["LIN_CONST_EXTRA"], "mifi_get_values_log_f": ["LOG"], "mifi_get_values_log_log_f": ["LOGLOG"], "mifi_get_values_nearest_f": ["NN"]}
TOK_T = {"findPressureConverter": ["PRESSURE"], "getPressureConverter": ["PRESSURE"], "getHeightConverter": ["HEIGHT"], "getAltitudeConverter": ["ALTITUDE"], "getDepthConverter": ["DEPTH"],
         '"hPa"': ["PRESSURE"], '"pressure"': ["PRESSURE"], '"height"': ["HEIGHT"], '"height above ground"': ["HEIGHT"], '"height_above_msl"': ["ALTITUDE"], '"depth"': ["DEPTH"], '"up"': ["HEIGHT", "ALTITUDE"], '"down"': ["DEPTH"]}
FAMS = [("H", re.compile(r"(?:^|::)MIFI_INTERPOL_(\w+)$"), TOK_H, "MIFI_INTERPOL_"), ("V", re.compile(r"(?:^|::)MIFI_VINT_METHOD_(\w+)$"), TOK_V, "MIFI_VINT_METHOD_"),
        ("T", re.compile(r"(?:^|::)MIFI_VINT_(?!METHOD_)(\w+)$"), TOK_T, "MIFI_VINT_")]


def enum_consts(p, f):
    """scrutinee path -> family -> code names it is compared with"""
    out = {}
    def add(pt, e):
        if pt is None or e is None: return
        for x in walk(e):
            if x.get("k") == "Ref" and x.get("dk") == "enum":
                for fam, rx, _, _ in FAMS:
                    m = rx.search(x.get("q") or x.get("n") or "")
                    if m: out.setdefault((pt, fam), {})[m.group(1)] = x.get("cv")
    def addt(e, v):
        if e is None or v is None or v.get("cv") is None: return
        while e.get("k") == "Cast": e = e["e"]
        nm = e.get("n") or ""
        if re.search(r"(?i)vert\w*type|^vtype", nm) and path(e) is not None: out.setdefault((path(e), "T"), {})[v["cv"]] = v["cv"]
    for x in walk(f.body):
        if x.get("k") == "Switch":
            pt = path(x["c"])
            for y in walk(x["b"]):
                if y.get("k") == "Case": add(pt, y.get("v")); addt(x["c"], y.get("v"))
        elif x.get("k") == "Bin" and x["op"] in ("==", "!="):
            add(path(x["a"]), x["b"]); add(path(x["b"]), x["a"]); addt(x["a"], x["b"]); addt(x["b"], x["a"])
    return out


def tokens(p, f, nodes, tok, depth=0, skip=None):
    """token -> location over the visited nodes, entering specialised callees"""
    out = {}
    for nd, calls in nodes:
        if skip is not None and nd.id in skip: continue
        for r in subexprs(nd):
            for x in walk(r):
                k = x.get("k"); nm = None
                if k == "Ref" and x.get("dk") == "func": nm = x["n"]
                elif k == "Call" and x.get("q"):
                    q = x["q"]
                    nm = q.split("::")[-1]
                    if q.startswith("std::make_shared") or q.startswith("std::make_unique"):
                        m = re.search(r"shared_ptr<(?:MetNoFimex::)?([\w:]+)>|unique_ptr<(?:MetNoFimex::)?([\w:]+)", f.type(x))
                        if m: nm = (m.group(1) or m.group(2)).split("::")[-1]
                elif k == "New" and x.get("at") is not None: nm = f.types[x["at"]].replace("struct ", "").split("::")[-1]
                elif k == "Ctor": nm = x.get("cls", "").split("::")[-1]
                elif k == "Str": nm = '"%s"' % x.get("v", "")
                if nm in tok: out.setdefault(nm, f.loc(x))
        if depth < 3:
            for e, g, seed, vis in calls:
                if g.file.startswith("src/") :
                    for t, l in tokens(p, g, vis, tok, depth + 1).items(): out.setdefault(t, l)
    return out


def check(ctx, res):
    p = ctx.core
    en = {}
    for e in p.enums.values():
        for fam, rx, _, pre in FAMS:
            for k, v in e["vals"].items():
                m = rx.search(k)
                if m: en.setdefault(fam, {})[m.group(1)] = v
    try:
        txt = open(os.path.join(REPO, "include/fimex/mifi_constants.h")).read()
        en.setdefault("T", {}).update({k: int(v) for k, v in re.findall(r"#\s*define\s+MIFI_VINT_(?!METHOD)(\w+)\s+\(?(\d+)\)?", txt) if k in TNAMES.values()})
    except OSError: pass
    if len(set(en.get("T", {}).values())) != len(en.get("T", {})): res.violation("const|T", "two vertical types have the same code")
    for fam in "HVT":
        if not en.get(fam): raise AnalysisError("method constants not found")
    ccp = CCP(p)

    # 1. names to codes: functions of one string
    nn = 0
    def horizontal(f):
        nonlocal nn
        prm = "v%d" % f.params[0]["id"]
        unknown = en["H"]["UNKNOWN"]
        probes = set()
        for n in HNAMES: probes |= {n + "x", n[:-1], n.upper(), "x" + n}
        probes |= {"", "no_such_method", "forward_", "forward_undef_"}
        for n, c in HNAMES.items():
            r = ccp.run(f, {prm: ("s", n)})[0]
            if len(r) == 1 and TOP not in r:
                nn += 1
                v = next(iter(r))
                if v != en["H"][c]:
                    res.violation("name|%s" % n, "%s: %s maps the method name '%s' to %s, not to MIFI_INTERPOL_%s" % (f.loc(), f.q, n, rev("H", v), c))
        for n in sorted(probes - set(HNAMES)):
            r = ccp.run(f, {prm: ("s", n)})[0]
            if len(r) == 1 and TOP not in r:
                nn += 1
                v = next(iter(r))
                if v != unknown: res.violation("unknownname|%s" % n, "%s: %s accepts the unknown method name '%s' as %s" % (f.loc(), f.q, n, rev("H", v)))
    def rev(fam, v):
        for k, x in en[fam].items():
            if x == v: return {"H": "MIFI_INTERPOL_", "V": "MIFI_VINT_METHOD_", "T": "MIFI_VINT_"}[fam] + k
        return str(v)
    for f in p.by_q.get("mifi_string_to_interpolation_method", []): horizontal(f)
    for f in p.fns.values():
        if f.cls == "MetNoFimex::CDMVerticalInterpolator" and f.name == "CDMVerticalInterpolator" and len(f.params) == 3 and f.body is not None:
            pt, pm = "v%d" % f.params[1]["id"], "v%d" % f.params[2]["id"]
            def vertical(names, prm, other, oval, field, fam):
                nonlocal nn
                for n, c in names.items():
                    env = ccp.exit_env(f, {prm: ("s", n), other: ("s", oval)})
                    if env is None:
                        nn += 1
                        res.violation("vname|%s" % n, "%s: the documented name '%s' is rejected" % (f.loc(), n)); continue
                    v = next((x for k, x in env.items() if k.endswith("." + field) or k.endswith("." + field + "_")), TOP)
                    if v == TOP: continue
                    nn += 1
                    if v != en[fam][c]: res.violation("vname|%s|%s" % (field, n), "%s: the name '%s' selects %s instead of %s" % (f.loc(), n, rev(fam, v), rev(fam, en[fam][c])))
                probes = set()
                for n in names: probes |= {n + "x", n[:-1], n.upper()}
                for n in sorted((probes | {"", "no_such_method"}) - set(names)):
                    env = ccp.exit_env(f, {prm: ("s", n), other: ("s", oval)})
                    nn += 1
                    if env is not None:
                        v = next((x for k, x in env.items() if k.endswith("." + field) or k.endswith("." + field + "_")), TOP)
                        if v != TOP: res.violation("vunknown|%s|%s" % (field, n), "%s: the unknown name '%s' is accepted as %s" % (f.loc(), n, rev(fam, v)))
                        else:
                            known = ccp.exit_env(f, {prm: ("s", next(iter(names))), other: ("s", oval)})
                            kv = next((x for k, x in (known or {}).items() if k.endswith("." + field)), TOP)
                            if kv != TOP: res.violation("vunknown|%s|%s" % (field, n), "%s: the unknown name '%s' is not rejected" % (f.loc(), n))
            vertical(TNAMES, pt, pm, "linear", "verticalType", "T")
            vertical(VNAMES, pm, pt, "pressure", "verticalInterpolationMethod", "V")
    res.count("name_obligations", nn)

    # 2. codes to implementations
    tables = []
    for f in p.fns.values():
        if f.body is None or not f.file.startswith("src/") or f.file.startswith("src/binSrc"): continue
        for (pt, fam), cs in enum_consts(p, f).items():
            tables.append((f, pt, fam))
        # entry points, also when a helper makes the selection
        if must_accept(f):
            for prm in f.params:
                if f.types[prm["t"]].replace("const ", "") == "int" and re.search(r"(?i)method|functype|type", prm.get("n") or ""):
                    t = (f, "v%d" % prm["id"], "T" if "getConverter" in f.q else "H")
                    if t not in tables: tables.append(t)
    dispatch = {(f.key, pt): fam for f, pt, fam in tables}
    nobl = 0; used = []
    for f, pt, fam in tables:
        tok = {x: t for n, x, t in [(a, a, c) for a, b, c, d in FAMS]}[fam]
        codes = {k: v for k, v in en[fam].items() if k != "UNKNOWN"}
        bad_codes = [-999, 999]
        vis = {c: ccp.run(f, {pt: v})[1] for c, v in codes.items()}
        reach = {}
        for c, nodes in vis.items():
            for nd, _ in nodes: reach.setdefault(nd.id, set()).add(c)
        common = {i for i, s in reach.items() if len(s) == len(codes)}
        got = {}
        for c in codes:
            # constructs reached by every code do not distinguish, but specialised callees do
            own = tokens(p, f, [(nd, ()) for nd, _ in vis[c]], tok, skip=common)
            for nd, calls in vis[c]:
                for e, g, seed, v2 in calls:
                    if g.file.startswith("src/") and nd.id not in common:
                        for t, l in tokens(p, g, v2, tok, 1).items(): own.setdefault(t, l)
            got[c] = own
        # a specialised callee reached by every code (a helper that makes the selection)
        if True:
            sub = {c: {} for c in codes}
            for c in codes:
                for nd, calls in vis[c]:
                    if nd.id not in common: continue
                    for e, g, seed, v2 in calls:
                        if g.file.startswith("src/"):
                            for t, l in tokens(p, g, v2, tok, 1).items(): sub[c].setdefault(t, l)
            for c in codes:
                for t, l in sub[c].items():
                    if not all(t in sub[d] for d in codes): got[c].setdefault(t, l)
        if not any(got.values()): continue
        used.append("%s (%s:%d)" % (f.q, f.file, f.line))
        def isdisp(n, pt=pt):
            if n.kind == "switch": return path(n.x["c"]) == pt
            return n.kind == "branch" and any(path(y) == pt for y in walk(n.x))
        for c in codes:
            nobl += 1
            ex = ccp.exit_env(f, {pt: codes[c]})
            if not got[c]:
                other = {nd.id for nd, _ in ccp.run(f, {pt: 999})[1]}
                own = [nd for nd, _ in vis[c] if nd.id not in common and nd.id not in other and any(y.get("k") in ("Call", "Asg", "New", "Ctor") for r in subexprs(nd) for y in walk(r))]
                if own: continue      # an implementation this table does not know
                if ccp.exit_from(f, {pt: codes[c]}, isdisp):
                    # no implementation selected and no error
                    res.violation("impl|%s|%s" % (f.q, c), "%s: %s selects no implementation for %s and does not reject it" % (f.loc(), f.q, rev(fam, codes[c])))
                elif c in must_accept(f):
                    res.violation("reject|%s|%s" % (f.q, c), "%s: %s rejects %s" % (f.loc(), f.q, rev(fam, codes[c])))
                continue
            for t, l in sorted(got[c].items()):
                if c not in tok[t]:
                    res.violation("impl|%s|%s" % (f.q, c), "%s: %s is implemented with %s, which implements %s" % (l, rev(fam, codes[c]), t, "/".join(tok[t])))
            if ex is None: res.violation("reject|%s|%s" % (f.q, c), "%s: %s rejects %s" % (f.loc(), f.q, rev(fam, codes[c])))
            # the code handed on to the next dispatch is the same code
            for nd, calls in vis[c]:
                for e, g, seed, v2 in calls:
                    for prm in g.params:
                        k2 = "v%d" % prm["id"]
                        if dispatch.get((g.key, k2)) == fam and k2 in seed and seed[k2] != codes[c]:
                            res.violation("forward|%s|%s" % (f.q, c), "%s: %s hands %s on to %s as %s" % (f.loc(e), f.q, rev(fam, codes[c]), g.q, rev(fam, seed[k2])))
        # unknown codes are rejected (a member that only ever holds checked codes needs no further rejection)
        if fam == "H" or pt.startswith("v"):
            for b in bad_codes + ([en[fam]["UNKNOWN"]] if "UNKNOWN" in en[fam] else []):
                nobl += 1
                if ccp.exit_from(f, {pt: b}, isdisp):
                    res.violation("unknowncode|%s" % f.q, "%s: %s does not reject an unknown method code" % (f.loc(), f.q))
        # propagation of undefined values
        for c in codes:
            if fam == "H" and c.startswith("FORWARD"):
                ex = ccp.exit_env(f, {pt: codes[c]})
                v = (ex or {}).get("this.undefAggr", TOP)
                if v != TOP:
                    nobl += 1
                    if bool(v) != c.startswith("FORWARD_UNDEF"): res.violation("undef|%s" % c, "%s: %s %s undefined values" % (f.loc(), rev(fam, codes[c]), "propagates" if v else "does not propagate"))
    res.count("dispatch_functions", len(used))
    res.count("dispatch_obligations", nobl)
    res.samples = used

    res.count("handed_on_codes", handing_on(p, res, en, tables, rev))
    res.count("aggregation", aggregation(p, res, en, tables))

    # 3. python names of the codes
    npy = 0
    try:
        cc = [r for r in compile_commands() if r.startswith("modules/python/")]
        py = Program(cc) if cc else None
    except AnalysisError:
        py = None
    if py is not None:
        for f in py.fns.values():
            if f.body is None: continue
            for x in walk(f.body):
                if x.get("k") == "Call" and (x.get("q") or "").startswith("pybind11::enum_<") and x["q"].endswith("::value"):
                    a = x.get("a") or []
                    if len(a) < 2 or a[0] is None or a[0].get("k") != "Str" or a[1].get("cv") is None: continue
                    if "InterpolationMethod" not in x["q"]: continue
                    n = a[0]["v"].upper()
                    if n in en["H"]:
                        npy += 1
                        if en["H"][n] != a[1]["cv"]: res.violation("python|" + n, "%s: the Python name %s stands for %s" % (f.loc(x), a[0]["v"], rev("H", a[1]["cv"])))
    res.count("python_names", npy)
    if nn + nobl < 20: raise AnalysisError("the method tables were not recognised")
    res.explanation = ("the name tables are specialised for every documented name and for near-miss names (must select the method of that name, resp. be rejected); every function that distinguishes method codes is "
                       "specialised for every code and for unknown codes: the kernels, aggregators, classes and helpers reached for a code must be those of that method, the code handed on must be the same one, and unknown codes must not reach the normal exit")
    res.assumptions = ["the correspondence between method names, codes and kernels is the one their names state (documented in mifi_constants.h, interpolation.h)", "comparison of C strings behaves as specified by the C library"]


NAMELIKE = {"H": re.compile(r"(?i)method|functype"), "V": re.compile(r"(?i)method"), "T": re.compile(r"(?i)vert\w*type|^vtype")}


def handing_on(p, res, en, tables, rev):
    """functions that do not select themselves hand the code on unchanged, by argument or by member, to those that do"""
    role = {}
    def add(f, i, fam):
        ch = (f.key, i) not in role
        role[(f.key, i)] = fam
        return ch
    for f, pt, fam in tables:
        for i, prm in enumerate(f.params):
            if pt == "v%d" % prm["id"]: add(f, i, fam)
    mem = {}
    for f, pt, fam in tables:
        if "." in pt: mem[pt.rsplit(".", 1)[1]] = fam
    src = [f for f in p.fns.values() if f.body is not None and f.file.startswith(("src/", "include/")) and not f.file.startswith("src/binSrc")]
    isint = lambda t: t.replace("const ", "").rstrip(" &") in ("int", "unsigned int", "long", "short")
    def refs(f, e, seen=()):
        """integer parameters and members the value of e is made of"""
        out = set()
        for x in walk(e):
            if x.get("k") == "Ref" and x.get("dk") == "param": out.add(("p", x["id"]))
            elif x.get("k") == "Mem": out.add(("m", x["n"]))
            elif x.get("k") == "Ref" and x.get("dk") == "local" and x["id"] not in seen:
                for y in walk(f.body):
                    if y.get("id") == x["id"] and y.get("i") is not None: out |= refs(f, y["i"], seen + (x["id"],))
                    elif y.get("k") == "Asg" and path(y["a"]) == "v%d" % x["id"]: out |= refs(f, y["b"], seen + (x["id"],))
        return out
    calls = {}
    for f in src:
        cs = []
        for x in walk(f.body):
            if x.get("k") in ("Call", "Ctor", "New") and x.get("a"):
                ks = p.callee_keys(f, x)
                if ks: cs.append((x, ks))
        calls[f.key] = cs
    cand = {}
    ch = True
    while ch:
        ch = False
        for f in src:
            for x, ks in calls[f.key]:
                for k in ks:
                    g = p.fns.get(k)
                    for i, a in enumerate(x["a"]):
                        fam = role.get((k, i))
                        if fam is None or a is None: continue
                        r = refs(f, a)
                        for j, prm in enumerate(f.params):
                            if isint(f.types[prm["t"]]) and (("p", prm["id"]) in r or NAMELIKE[fam].search(prm.get("n") or "")):
                                if (f.key, j) not in cand: cand[(f.key, j)] = fam
                                if add(f, j, fam): ch = True
                        for kind, n in r:
                            if kind == "m" and NAMELIKE[fam].search(n) and n not in mem: mem[n] = fam; ch = True
            for x in walk(f.body):
                if x.get("k") == "Asg" and x.get("op") == "=" and x["a"].get("k") == "Mem" and x["a"]["n"] in mem:
                    fam = mem[x["a"]["n"]]
                    r = refs(f, x["b"])
                    for j, prm in enumerate(f.params):
                        if isint(f.types[prm["t"]]) and ("p", prm["id"]) in r:
                            cand.setdefault((f.key, j), fam)
                            if add(f, j, fam): ch = True
            for it in f.d.get("inits", ()) or ():
                if it.get("m") in mem and it.get("e") is not None:
                    r = refs(f, it["e"])
                    for j, prm in enumerate(f.params):
                        if isint(f.types[prm["t"]]) and ("p", prm["id"]) in r:
                            cand.setdefault((f.key, j), mem[it["m"]])
                            if add(f, j, mem[it["m"]]): ch = True
    n = 0
    for (key, j), fam in sorted(cand.items()):
        f = p.fns[key]
        pt = "v%d" % f.params[j]["id"]
        codes = {k: v for k, v in en[fam].items() if k != "UNKNOWN"}
        for c, v in sorted(codes.items()):
            got = []
            ccp = CCP(p, maxdepth=1)
            def on(fn, e, th, args):
                if fn is not f: return
                for k in p.callee_keys(f, e) or ():
                    for i, a in enumerate(args):
                        if role.get((k, i)) == fam: got.append((e, p.fns[k], a))
            ccp.on_call = on
            ex = ccp.exit_env(f, {pt: v})
            for e, g, a in got:
                n += 1
                if a != TOP and a != v:
                    res.violation("forward|%s|%s" % (f.q, c), "%s: %s hands %s on to %s as %s" % (f.loc(e), f.q, rev(fam, v), g.q, rev(fam, a)))
            for q, x in (ex or {}).items():
                if "." in q and q.rsplit(".", 1)[1] in mem and mem[q.rsplit(".", 1)[1]] == fam and x != TOP:
                    n += 1
                    if x != v: res.violation("forward|%s|%s" % (f.q, c), "%s: %s keeps %s as %s in %s" % (f.loc(), f.q, rev(fam, v), rev(fam, x), q.rsplit(".", 1)[1]))
    # a code that comes from somewhere else although the object was given one
    for f in src:
        for x, ks in calls[f.key]:
            for k in ks:
                for i, a in enumerate(x["a"]):
                    fam = role.get((k, i))
                    if fam is None or a is None or a.get("cv") is not None: continue
                    e = a
                    while e.get("k") in ("Cast", "Tmp") and e.get("e") is not None: e = e["e"]
                    n += 1
                    if e.get("k") == "Call" and not refs(f, e) & ({("m", q) for q in mem} | {("p", prm["id"]) for prm in f.params}) and any(r.get("k") == "Mem" and r["n"] in mem and mem[r["n"]] == fam for r in walk(f.body)):
                        res.violation("forward|%s" % f.q, "%s: %s is called with a code that is not the one %s was given" % (f.loc(x), p.fns[k].q, f.q))
    return n


def aggregation(p, res, en, tables):
    """an aggregator is copied as itself, and undefined values reach it exactly when they are to be propagated"""
    n = 0
    own = {}
    for f in p.fns.values():
        if f.body is None or f.cls is None: continue
        cls = f.cls.split("::")[-1]
        if cls not in TOK_H or not cls.startswith("Agg"): continue
        if f.name == "clone":
            own[cls] = f
            n += 1
            for x in walk(f.body):
                t = (x.get("ty") if isinstance(x.get("ty"), str) else None) or f.type(x)
                t = t.replace("const ", "").rstrip(" *").split("::")[-1] if x.get("k") in ("New", "Ctor") else None
                if t in TOK_H and t.startswith("Agg") and t != cls:
                    res.violation("clone|" + cls, "%s: the copy of %s is a %s" % (f.loc(x), cls, t))
    for r, d in p.recs.items():
        cls = r.split("::")[-1]
        if cls.startswith("Agg") and cls in TOK_H and own and cls not in own:
            bases = [b.split("::")[-1] for b in d.get("allbases", ())]
            if any(b in own for b in bases): res.violation("clone|" + cls, "%s inherits the copy function of %s" % (cls, ", ".join(b for b in bases if b in own)))
    # the members that the constructor sets exactly for the forward_undef methods
    flags = None
    for f, pt, fam in tables:
        if fam != "H" or f.cls is None or f.name != f.cls.split("::")[-1] or f.name != "CachedForwardInterpolation": continue
        ccp = CCP(p)
        for c in FWD:
            ex = ccp.exit_env(f, {pt: en["H"][c]}) or {}
            ok = {q for q, v in ex.items() if q.startswith("this.") and v != TOP and not isinstance(v, tuple) and bool(v) == c.startswith("FORWARD_UNDEF")}
            flags = ok if flags is None else flags & ok
    for f in p.fns.values():
        if not flags: break
        if f.body is None or (f.cls or "").split("::")[-1] != "CachedForwardInterpolation": continue
        push = lambda nd: any(y.get("k") == "Call" and (y.get("q") or "").endswith("::push") for r in subexprs(nd) for y in walk(r))
        if not any(y.get("k") == "Call" and (y.get("q") or "").endswith("::push") for y in walk(f.body)): continue
        for undef in (0, 1):
            for nan in (0, 1):
                bi = lambda q, e, th, args: nan if re.search(r"(^|::|_)isnan$", q) else (1 - nan if re.search(r"isfinite$", q) else None)
                vis = CCP(p, builtin=bi).run(f, {q: undef for q in flags})[1]
                n += 1
                got = any(push(nd) for nd, _ in vis)
                if got != bool(undef or not nan):
                    res.violation("undef|values", "%s: %s values are %s the aggregation %s propagation of undefined values" % (f.loc(), "undefined" if nan else "defined", "passed to" if got else "kept from", "with" if undef else "without"))
    return n


def must_accept(f):
    # the general entry point documents all methods
    if f.q == "MetNoFimex::CDMInterpolator::changeProjection" and len(f.params) >= 6: return {"NEAREST_NEIGHBOR", "BILINEAR", "BICUBIC", "COORD_NN", "COORD_NN_KD"} | set(FWD)
    if f.q.endswith("CachedForwardInterpolation::CachedForwardInterpolation"): return set(FWD)
    if f.q.endswith("reproject_f"): return {"NEAREST_NEIGHBOR", "BILINEAR", "BICUBIC"}
    if f.q.endswith("createCachedInterpolation"): return {"NEAREST_NEIGHBOR", "BILINEAR", "BICUBIC", "COORD_NN", "COORD_NN_KD"}
    if f.q.endswith("VerticalTransformation::getConverter"): return set(TNAMES.values())
    return set()
