"""C10: every type table of the program uses the element type that belongs to the data type (conditional constant
propagation of each table function for each data type; agreement of inverse tables)."""
import os, re
from ..prog import walk
from ..ccp import CCP, TOP, path, subexprs
from ..extract import REPO, AnalysisError
LEVEL = "other"

# the data model: what each data type stores (the names are the definition)
ELEM = {"CDM_CHAR": "char", "CDM_SHORT": "short", "CDM_INT": "int", "CDM_FLOAT": "float", "CDM_DOUBLE": "double", "CDM_UCHAR": "unsigned char",
        "CDM_USHORT": "unsigned short", "CDM_UINT": "unsigned int", "CDM_INT64": "long long", "CDM_UINT64": "unsigned long long", "CDM_STRINGS": "std::string"}
NUMERIC = [k for k in ELEM if k != "CDM_STRINGS"]
# netCDF external types (netcdf.h)
NC = {"NC_BYTE": 1, "NC_CHAR": 2, "NC_SHORT": 3, "NC_INT": 4, "NC_FLOAT": 5, "NC_DOUBLE": 6, "NC_UBYTE": 7, "NC_USHORT": 8, "NC_UINT": 9, "NC_INT64": 10, "NC_UINT64": 11, "NC_STRING": 12}
CDM2NC = {"CDM_CHAR": "NC_BYTE", "CDM_STRING": "NC_CHAR", "CDM_SHORT": "NC_SHORT", "CDM_INT": "NC_INT", "CDM_FLOAT": "NC_FLOAT", "CDM_DOUBLE": "NC_DOUBLE", "CDM_UCHAR": "NC_UBYTE",
          "CDM_USHORT": "NC_USHORT", "CDM_UINT": "NC_UINT", "CDM_INT64": "NC_INT64", "CDM_UINT64": "NC_UINT64", "CDM_STRINGS": "NC_STRING"}
NCSUF = {"schar": "char", "short": "short", "int": "int", "float": "float", "double": "double", "uchar": "unsigned char", "ubyte": "unsigned char", "ushort": "unsigned short", "uint": "unsigned int",
         "longlong": "long long", "ulonglong": "unsigned long long", "string": "std::string"}
NCFN = re.compile(r"^nc_(?:put|get)_(?:att|var\w?\w?|vara)_(\w+)$")
# netCDF default fill values
FILL = {"CDM_CHAR": -127, "CDM_SHORT": -32767, "CDM_INT": -2147483647, "CDM_UCHAR": 255, "CDM_USHORT": 65535, "CDM_UINT": 4294967295,
        "CDM_INT64": -9223372036854775806, "CDM_UINT64": -2, "CDM_FLOAT": 9.969209968386869e+36, "CDM_DOUBLE": 9.969209968386869e+36}

ARR = re.compile(r"std::shared_ptr<((?:unsigned |signed )?[a-z_ ]+|std::(?:__cxx11::)?basic_string<char[^\[\]]*>|std::string) ?\[\]>")
IMPL = re.compile(r"MetNoFimex::DataImpl<((?:unsigned )?[a-z_ ]+|std::(?:__cxx11::)?basic_string<char[^\[\]]*>|std::string)>")
KNOWN = set(ELEM.values())


def norm(t):
    t = t.strip().replace("const ", "")
    if t.startswith("std::") and "string" in t: return "std::string"
    return t


def type_ev(ts):
    out = set()
    for rx in (ARR, IMPL):
        for m in rx.finditer(ts):
            t = norm(m.group(1))
            if t in KNOWN: out.add(t)
    return out


class Table:
    pass


def consts_in(f, dt_type):
    """scrutinee path -> set of constants it is compared with"""
    out = {}
    for x in walk(f.body):
        if x.get("k") == "Switch":
            pt = path(x["c"])
            if pt is None: continue
            t = f.type(x["c"]).replace("const ", "")
            vals = {y["v"].get("cv") for y in walk(x["b"]) if y.get("k") == "Case" and y.get("v")}
            out.setdefault((pt, t), set()).update(v for v in vals if v is not None)
        elif x.get("k") == "Bin" and x["op"] in ("==", "!="):
            for a, b in ((x["a"], x["b"]), (x["b"], x["a"])):
                if b.get("cv") is not None and path(a):
                    out.setdefault((path(a), f.type(a).replace("const ", "")), set()).add(b["cv"])
    return out


def check(ctx, res):
    p = ctx.core
    en = p.enums.get("MetNoFimex::CDMDataType")
    if not en: raise AnalysisError("enum MetNoFimex::CDMDataType not found")
    vals = en["vals"]
    for nme in list(ELEM) + ["CDM_STRING", "CDM_NAT"]:
        if nme not in vals: res.violation("enum|" + nme, "%s: data type %s is missing from the data model" % (en["file"], nme))
    if len(set(vals.values())) != len(vals): res.violation("enum|values", "two data types have the same value")
    byval = {v: k for k, v in vals.items()}
    ccp = CCP(p)

    # --- 1. DataImpl<T>::getDataType
    n = 0
    for f in p.fns.values():
        if f.name == "getDataType" and f.cls and IMPL.match(f.cls) or (f.name == "getDataType" and f.cls and f.cls.startswith("MetNoFimex::DataImpl<")):
            t = norm(f.cls[len("MetNoFimex::DataImpl<"):-1])
            rets, _ = ccp.run(f, {})
            for r in rets:
                if r == TOP: continue
                n += 1
                nm = byval.get(r)
                if ELEM.get(nm) != t:
                    res.violation("gettype|%s" % t, "%s: data stored as %s reports the data type %s" % (f.loc(), t, nm))
    res.count("element_type_reports", n)

    # --- 2. dispatch tables
    tables = []
    for f in p.fns.values():
        if f.body is None: continue
        for (pt, t), cs in consts_in(f, None).items():
            if t == "MetNoFimex::CDMDataType":
                hit = [byval[c] for c in cs if c in byval and byval[c] in NUMERIC]
                if len(hit) >= 6: tables.append((f, pt, "cdm"))
            elif t == "int" and f.file.startswith("src/io/netcdf/"):
                hit = [c for c in cs if c in NC.values()]
                # a netCDF type table names most of the external types and nothing else
                if len(hit) >= 6 and all(0 <= c <= 12 for c in cs): tables.append((f, pt, "nc"))
    obligations = 0
    seen_tables = []
    for f, pt, kind in tables:
        if kind == "cdm": dom = {nme: vals[nme] for nme in list(ELEM) + ["CDM_STRING"] if nme in vals}
        else: dom = {nme: NC[CDM2NC[nme]] for nme in list(ELEM) + ["CDM_STRING"]}
        reach = {}
        vis = {}
        for nme, v in dom.items():
            _, nodes = ccp.run(f, {pt: v})
            vis[nme] = nodes
            for nd, _c in nodes: reach.setdefault(nd.id, set()).add(nme)
        # what happens for no type at all is the default treatment, not a treatment of the type
        _, nodes = ccp.run(f, {pt: vals["CDM_NAT"] if kind == "cdm" else 0})
        dflt = {nd.id for nd, _c in nodes}
        evid = {nme: (set(), set(), {}) for nme in dom}   # types, nc suffixes, protobuf fields
        for nme in dom:
            for nd, calls in vis[nme]:
                if len(reach[nd.id]) == len(dom) or nd.id in dflt: continue
                collect(p, f, nd, evid[nme])
        # only a table if most types carry evidence
        have = [nme for nme in NUMERIC if evid[nme][0] or evid[nme][1]]
        if len(have) < 6: continue
        seen_tables.append("%s (%s:%d)" % (f.q, f.file, f.line))
        for nme in dom:
            want = ELEM.get(nme)
            types, suf, _ = evid[nme]
            if nme == "CDM_STRING":
                bad = types - {"char", "std::string"}
                if bad and not (types & {"char", "std::string"}):
                    res.violation("table|%s|%s" % (f.q, nme), "%s: %s handles %s with element type %s" % (f.loc(), f.q, nme, ", ".join(sorted(bad))))
                continue
            obligations += 1
            if not types and not suf:
                if nme in NUMERIC:
                    res.violation("missing|%s|%s" % (f.q, nme), "%s: %s handles %d numeric data types but not %s" % (f.loc(), f.q, len(have), nme))
                continue
            if types and want not in types:
                res.violation("table|%s|%s" % (f.q, nme), "%s: %s handles %s with element type %s, expected %s" % (f.loc(), f.q, nme, ", ".join(sorted(types)), want))
            elif suf and want not in {NCSUF[x] for x in suf if x in NCSUF}:
                if nme == "CDM_STRINGS": continue
                res.violation("table|%s|%s" % (f.q, nme), "%s: %s transfers %s with the netCDF accessor for %s" % (f.loc(), f.q, nme, ", ".join(sorted(suf))))
    res.count("dispatch_tables", len(seen_tables))
    res.count("table_obligations", obligations)
    if len(seen_tables) < 5: raise AnalysisError("only %d type tables recognised" % len(seen_tables))
    res.samples += seen_tables[:8]

    # --- 3. inverse tables
    inv = 0
    inv += roundtrip(p, ccp, res, vals, "MetNoFimex::datatype2string", "MetNoFimex::string2datatype", "its name", list(ELEM) + ["CDM_STRING"])
    inv += roundtrip(p, ccp, res, vals, "MetNoFimex::datatype_cdm2ncml", "MetNoFimex::datatype_ncml2cdm", "its NcML name", list(ELEM) + ["CDM_STRING"])
    inv += roundtrip(p, ccp, res, vals, "MetNoFimex::cdmDataType2ncType", "MetNoFimex::ncType2cdmDataType", "the netCDF type", list(ELEM) + ["CDM_STRING"], {k: NC[v] for k, v in CDM2NC.items()})
    # default fill values
    nf = 0
    for f in p.by_q.get("MetNoFimex::defaultFillValue_", []):
        prm = "v%d" % f.params[0]["id"]
        got = {nme: ccp.run(f, {prm: vals.get(nme)}) for nme in list(FILL) + ["CDM_NAT"]}
        ends = lambda nme: {nd.id for nd, _c in got[nme][1] if nd.kind == "ret"}
        own = [nme for nme in FILL if one(got[nme][0]) is not None]
        for nme, want in FILL.items():
            rets, _ = got[nme]
            if len(own) >= 6 and nme not in own and ends(nme) and ends(nme) <= ends("CDM_NAT"): res.violation("fill|" + nme, "%s: data type %s has no default fill value" % (f.loc(), nme))
            if len(rets) == 1 and TOP not in rets:
                nf += 1
                r = next(iter(rets))
                if r != want and not (nme == 'CDM_UINT64' and r == 2**64 - 2): res.violation("fill|" + nme, "%s: the default fill value of %s is %s; netCDF uses %s" % (f.loc(), nme, r, want))
    inv += nf
    res.count("inverse_table_entries", inv)

    # --- 4. binary index
    protobuf(p, ccp, res, vals, byval)

    res.explanation = ("each function that distinguishes at least six data types (or netCDF types) is specialised for every type by conditional constant propagation; the element types "
                       "of arrays, containers, template callees and typed netCDF accessors reached only for that type must include the type's element type, every numeric type must be handled, and "
                       "inverse tables (name, NcML name, netCDF type, index enum, index fields) must invert each other")
    res.assumptions += ["the element type belonging to each CDM data type is fixed by its name", "netCDF type codes and default fill values as in netcdf.h"]


def collect(p, f, nd, ev, depth=0):
    types, suf, _ = ev
    if nd.kind == "decl": types |= type_ev(f.type(nd.x))
    for r in subexprs(nd): collect_expr(p, f, r, ev, depth)


def collect_expr(p, f, r, ev, depth):
    types, suf, _ = ev
    for x in walk(r):
        types |= type_ev(f.type(x))
        if x.get("k") == "Ctor": types |= type_ev(x.get("cls", ""))
        if x.get("k") == "New" and x.get("arr"):
            t = norm(f.types[x["at"]])
            if t in KNOWN: types.add(t)
        if x.get("k") == "Call" and x.get("q"):
            m = NCFN.match(x["q"])
            if m and m.group(1) in NCSUF: suf.add(m.group(1))
            if depth < 2 and not x.get("v"):
                for kk in p.callee_keys(f, x):
                    g = p.fns[kk]
                    ta = {norm(t) for t in g.d.get("targs", ())} & KNOWN
                    if ta: types |= ta
                    elif g.body is not None and (g.q.count("createData") == 0) and g.file == f.file and sum(1 for _ in walk(g.body)) < 120:
                        for y in walk(g.body):
                            if y.get("k") in ("Call", "Ctor", "Ref", "New") : types |= type_ev(g.type(y))
                        collect_expr(p, g, g.body, ev, depth + 1)


def one(rets):
    return next(iter(rets)) if len(rets) == 1 and TOP not in rets else None


def roundtrip(p, ccp, res, vals, fq, gq, what, names, fixed=None):
    fs, gs = [[x for x in p.by_q.get(q, []) if len(x.params) == 1] for q in (fq, gq)]
    if not fs or not gs: return 0
    f, g = fs[0], gs[0]
    n = 0
    for nme in names:
        if nme not in vals: continue
        y = one(ccp.run(f, {"v%d" % f.params[0]["id"]: vals[nme]})[0])
        if y is None: continue
        n += 1
        if fixed is not None and y != fixed[nme]:
            res.violation("map|%s|%s" % (fq, nme), "%s: %s maps %s to %s, expected %s" % (f.loc(), fq, nme, y, fixed[nme]))
        back = one(ccp.run(g, {"v%d" % g.params[0]["id"]: y})[0])
        if back is None: continue
        if back != vals[nme]:
            inv = [k for k, v in vals.items() if v == back]
            res.violation("inverse|%s|%s" % (fq, nme), "%s: %s is converted to %s %s, which %s converts back to %s" % (f.loc(), nme, what, show(y), gq, inv[0] if inv else back))
    if fixed is not None:
        inv = {v: k for k, v in fixed.items()}
        for v, nme in inv.items():
            back = one(ccp.run(g, {"v%d" % g.params[0]["id"]: v})[0])
            if back is not None and back != vals[nme]:
                res.violation("map|%s|%s" % (gq, nme), "%s: %s maps netCDF type %d to %s, expected %s" % (g.loc(), gq, v, [k for k, x in vals.items() if x == back], nme))
    return n


def show(v):
    if isinstance(v, tuple) and v[0] == "s": return repr(v[1])
    if isinstance(v, tuple) and v[0] == "rec": return "{%s}" % ", ".join(show(x) for _, x in v[1])
    return str(v)


ACC = re.compile(r"^fimex_index::CDMData::(set_|mutable_|add_|clear_)?(\w+?)(_size)?$")
WIDTH = {"char": 1, "unsigned char": 1, "short": 2, "unsigned short": 2, "int": 4, "unsigned int": 4, "float": 4, "double": 8, "long": 8, "unsigned long": 8, "long long": 8, "unsigned long long": 8,
         "int8_t": 1, "uint8_t": 1, "int16_t": 2, "uint16_t": 2, "int32_t": 4, "uint32_t": 4, "int64_t": 8, "uint64_t": 8}


def protobuf(p, ccp, res, vals, byval):
    # enum values in the schema
    path_ = os.path.join(REPO, "src/protobuf/cdm.proto")
    n = 0
    if os.path.exists(path_):
        txt = re.sub(r"//[^\n]*", "", open(path_).read())
        m = re.search(r"enum\s+CDMDataType\s*\{([^}]*)\}", txt)
        if m:
            pv = {a: int(b) for a, b in re.findall(r"(\w+)\s*=\s*(\d+)\s*;", m.group(1))}
            for k, v in vals.items():
                n += 1
                if k not in pv: res.violation("proto|" + k, "src/protobuf/cdm.proto: data type %s has no index value" % k)
                elif pv[k] != v: res.violation("proto|" + k, "src/protobuf/cdm.proto: data type %s is stored as %d but is %d in the data model" % (k, pv[k], v))
    res.count("index_enum_entries", n)
    dom = {k: v for k, v in vals.items()}
    wr, rd = {}, {}
    for f in p.fns.values():
        if f.body is None or "rotobuf" not in f.file: continue
        for (pt, t), cs in consts_in(f, None).items():
            if t != "MetNoFimex::CDMDataType" or len(cs) < 6: continue
            reach, vis = {}, {}
            for nme, v in dom.items():
                _, nodes = ccp.run(f, {pt: v})
                vis[nme] = nodes
                for nd, _c in nodes: reach.setdefault(nd.id, set()).add(nme)
            for nme in dom:
                for nd, _c in vis[nme]:
                    if len(reach[nd.id]) == len(dom): continue
                    for r in subexprs(nd):
                        for x in fields(p, f, r):
                            q, node, fn = x
                            m = ACC.match(q)
                            if not m: continue
                            d = wr if m.group(1) in ("set_", "mutable_", "add_") else rd
                            d.setdefault(nme, {})[m.group(2)] = (fn.loc(node), fn.type(node))
    k = 0
    for nme in dom:
        if nme == "CDM_NAT": continue
        w, r = set(wr.get(nme, ())), set(rd.get(nme, ()))
        if not wr or not rd: continue
        k += 1
        if not w: res.violation("index|%s|write" % nme, "values of type %s are not written to the index" % nme)
        elif not r: res.violation("index|%s|read" % nme, "values of type %s are not read from the index" % nme)
        elif not (w & r): res.violation("index|%s" % nme, "values of type %s are written to index field %s (%s) but read from %s (%s)" % (nme, "/".join(sorted(w)), wr[nme][min(w)][0], "/".join(sorted(r)), rd[nme][min(r)][0]))
        for fld in w & r:
            m = re.search(r"RepeatedField<([\w ]+)>", wr[nme][fld][1])
            if m and nme in ELEM and nme != "CDM_STRINGS":
                ft, et = m.group(1), ELEM[nme]
                isf = lambda t: t in ("float", "double")
                if WIDTH.get(ft, 8) < WIDTH[et] or isf(ft) != isf(et):
                    res.violation("index|%s|width" % nme, "%s: values of type %s are stored in index field %s of type %s, which cannot hold them" % (wr[nme][fld][0], nme, fld, ft))
    res.count("index_field_pairs", k)


def fields(p, f, r, depth=0):
    for x in walk(r):
        if x.get("k") == "Call" and x.get("q"):
            yield x["q"], x, f
            if depth < 1 and not x["q"].startswith("fimex_index"):
                for kk in p.callee_keys(f, x):
                    g = p.fns[kk]
                    if g.file == f.file and g.body is not None: yield from fields(p, g, g.body, depth + 1)
