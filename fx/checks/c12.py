"""C12: the bind(C) declarations, the calls made through them and the repeated constants of the Fortran modules agree with the C interface."""
import os, re, itertools
from ..extract import REPO, AnalysisError
from .. import fortran as F
LEVEL = "other"

CINT = {"int": 4, "unsigned int": 4, "long": 8, "unsigned long": 8, "long long": 8, "unsigned long long": 8, "size_t": 8, "short": 2, "unsigned short": 2, "char": 1, "signed char": 1, "unsigned char": 1, "bool": 1}
CREAL = {"float": 4, "double": 8}
# a Fortran constant <prefix><X> repeats the C constant <c prefix><X> of this enumeration
ENUMS = [("AXIS_", "MetNoFimex::CoordinateAxis::AxisType", ""), ("INTERPOL_", "mifi_interpol_method", "MIFI_INTERPOL_"),
         ("CDM_", "MetNoFimex::CDMDataType", "CDM_"), ("LOGLEVEL_", "MetNoFimex::Logger::LogLevel", "")]


def cclass(p, t):
    """C type -> (class, size, pointee, const)"""
    t = t.strip()
    if t.endswith("*"):
        inner = t[:-1].strip()
        return ("ptr", 8, inner, inner.startswith("const ") and not inner.endswith("*"))
    if "(*)" in t: return ("ptr", 8, "fn", False)
    b = t.replace("const ", "").strip()
    if b == "void": return ("void", 0, None, False)
    if b in CINT: return ("int", CINT[b], None, False)
    if b in CREAL: return ("real", CREAL[b], None, False)
    if b.replace("enum ", "") in p.enums: return ("int", 4, None, False)
    return (b, None, None, False)


def lcs(a, b):
    best = 0
    for i in range(len(a)):
        for j in range(len(b)):
            k = 0
            while i + k < len(a) and j + k < len(b) and a[i + k] == b[j + k]: k += 1
            best = max(best, k)
    return best


def score(a, b):
    if set(re.split(r"_", a)) & set(re.split(r"_", b)) - {"", "c", "n", "my"}: return max(3, lcs(a.replace("_", ""), b.replace("_", ""))) + (3 if a == b else 0)
    a, b = a.replace("_", ""), b.replace("_", "")
    if not a or not b: return 0
    if a == b: return len(a) + 3
    n = lcs(a, b)
    return n if n >= 3 else 0


def order_swapped(names, cnames, classes):
    """a permutation of arguments of the same class that fits the names clearly better than the given order"""
    best = None
    for i, j in itertools.combinations(range(len(names)), 2):
        if classes[i] != classes[j] or not names[i] or not names[j]: continue
        now = score(names[i], cnames[i]) + score(names[j], cnames[j])
        swp = score(names[i], cnames[j]) + score(names[j], cnames[i])
        if swp >= now + 3: best = (i, j)
    return best


def actual_name(a):
    m = re.findall(r"[a-z_]\w*", re.sub(r"'[^']*'|\"[^\"]*\"", "", a))
    m = [x for x in m if x not in ("trim", "c_loc", "c_null_char", "this", "adjustl", "len", "size", "int", "c_int", "kind", "real")]
    return m[-1] if m else ""


# the operations of the high-level interface and the C functions that perform them
OPERATIONS = {"open": ["mifi_new_io_reader"], "interpolate": ["mifi_new_cdminterpolator"], "interpolate_lonlat": ["mifi_new_lonlat_interpolator"],
              "close": ["mifi_free_slicebuilder", "mifi_free_cdm_reader"], "dimensions_size": ["mifi_get_dimension_number"], "file_dimname": ["mifi_get_dimension_name"],
              "get_dimsize": ["mifi_get_dimension_size"], "file_ulim_dimname": ["mifi_get_unlimited_dimension_name"],
              "get_reftime": ["mifi_get_unique_forecast_reference_time"], "variables_size": ["mifi_get_variable_number"], "get_varname": ["mifi_get_variable_name"],
              "get_vartype": ["mifi_get_variable_type"], "get_dimensions": ["mifi_new_slicebuilder", "mifi_slicebuilder_ndims"], "get_dimname": ["mifi_slicebuilder_dimname"],
              "get_proj4": ["mifi_slicebuilder_get_proj4"], "get_var_longitude": ["mifi_get_var_longitude"], "get_var_latitude": ["mifi_get_var_latitude"],
              "get_dimension_start_size": ["mifi_slicebuilder_get_start_size"], "get_axistypes": ["mifi_slicebuilder_get_axistype"],
              "reduce_dimension": ["mifi_slicebuilder_set_dim_start_size"], "read": ["mifi_fill_scaled_double_dataslice"], "write": ["mifi_write_scaled_double_dataslice"]}
# the selecting arguments of the two-dimensional interface and the dimension each of them selects in
SELECTS = {"step": "dimname_t", "rel": "dimname_r", "level": "dimname_z"}


def values(p, res, mods, bound, procs, iface, tbp, params):
    """what the procedures hand on: values unchanged, positions shifted, each to the parameter it belongs to"""
    nval = nop = 0
    cstem = lambda n: re.sub(r"_cpy$", "", n)
    # every operation of the high-level interface performs its C function
    reach = {}
    def called(name, seen=()):
        if name in reach: return reach[name]
        if name in seen or name not in procs: return set()
        out = set()
        for no, s in procs[name][1].stmts:
            for n, act, st, _ in F.calls(s):
                if n in bound: out.add(cstem(bound[n][1].name))
                elif st and s[st - 1] == "%": out |= called(tbp[n][0], seen + (name,)) if n in tbp else set()
                else: out |= called(n, seen + (name,))
        if not seen: reach[name] = out
        return out
    for op, want in sorted(OPERATIONS.items()):
        if op not in tbp: continue
        nop += 1
        impl, line = tbp[op]
        if impl not in procs: continue
        miss = [w for w in want if w not in called(impl)]
        if miss: res.violation("operation|" + op, "%s:%d: the operation %s is implemented by %s, which never calls %s" % (procs[impl][0].path, line, op, impl, miss[0]))
    # explicit interfaces repeat the procedures they describe
    for n, (m, u) in sorted(iface.items()):
        if n not in procs: continue
        m2, v = procs[n]
        nop += 1
        where = "%s:%d" % (m.path, u.line)
        if u.args != v.args:
            res.violation("interface|%s|order" % n, "%s: the interface of %s lists the arguments (%s), the procedure (%s)" % (where, n, ", ".join(u.args), ", ".join(v.args))); continue
        for a in u.args + ([u.result] if u.kind == "function" else []):
            d, e = u.decls.get(a), v.decls.get(a)
            if d is None or e is None: continue
            nval += 1
            if m.kindof(d) != m2.kindof(e) or bool(d["optional"]) != bool(e["optional"]) or (d["dim"] or "").count(",") != (e["dim"] or "").count(",") or bool(d["dim"]) != bool(e["dim"]) or d["alloc"] != e["alloc"] or d["intent"] != e["intent"]:
                res.violation("interface|%s|%s" % (n, a), "%s: argument %s of %s is declared differently in its interface and in the procedure" % (where, a, n))
    for m in mods:
        for u in m.units:
            if u.bind is not None or u.in_interface: continue
            lookup = lambda n: (procs.get(n) or (None, None))[1]
            handed = set(); allocs = []
            for no, s, env, loops in F.Flow(m, u, m.params, lookup).run():
                ev = lambda x: F.Eval(x, env, m.params).value()
                where = "%s:%d (%s)" % (m.path, no, u.name)
                def bounds(L):
                    """value of a linear form at the first and the last round of the loops it depends on"""
                    out = []
                    for which in (0, 1):
                        v = F.Lin(L)
                        for at in L.atoms() & set(loops):
                            b = loops[at][which]
                            if b is None: v = None; break
                            k = v.pop(at); v = F.lin_add(v, F.Lin({x: y * k for x, y in b.items()}))
                        out.append(v)
                    return out
                for n, act, st, _ in F.calls(s):
                    if n == "allocate":
                        for a in act:
                            mm = re.match(r"^(\w+)\s*\((.*)\)$", a)
                            if mm: allocs.append((mm.group(1), ev(mm.group(2)), where))
                        continue
                    if n in u.decls and u.decls[n]["dim"] and len(act) == 1 and ":" not in act[0] and u.decls[n]["base"] != "character":
                        L = ev(act[0])
                        if L is not None and L.atoms() & set(loops):
                            lo = bounds(L)[0]
                            if lo is not None and not lo.atoms() and lo.const() < 1 and not re.search(r"\d:", u.decls[n]["dim"]):
                                res.violation("subscript|%s|%s" % (u.name, n), "%s: %s is indexed from %d, but its elements are counted from one" % (where, n, lo.const()))
                        continue
                    isb = n in bound
                    istbp = bool(st) and s[st - 1] == "%" and n in tbp and tbp[n][0] in procs
                    if not isb and not istbp and n not in procs: continue
                    g = bound[n][0] if isb else procs[tbp[n][0] if istbp else n][1]
                    names = list(g.args)
                    if istbp: names = names[1:]
                    cn = [(x.get("n") or "").lower() for x in bound[n][1].params] if isb else names
                    pairs = []
                    for i, a in enumerate(act):
                        mm = re.match(r"^(\w+)\s*=(?!=)\s*(.*)$", a)
                        if mm and mm.group(1) in names: pairs.append((names.index(mm.group(1)), mm.group(2)))
                        elif i < len(names): pairs.append((i, a))
                    if not isb:
                        cl = []
                        for i, a in pairs:
                            d = g.decls.get(names[i]); cl.append((m.kindof(d) if d else None, bool(d and d["dim"])))
                        sw = order_swapped([actual_name(a) if not re.match(r"^[\"'\d]", a) else "" for _, a in pairs], [names[i] for i, _ in pairs], cl)
                        if sw: res.violation("hand on|%s|%s|order" % (u.name, n), "%s: %s and %s are passed to %s in the opposite order of its arguments %s and %s" % (where, pairs[sw[0]][1], pairs[sw[1]][1], n, names[pairs[sw[0]][0]], names[pairs[sw[1]][0]]))
                        for i, a in pairs:
                            d, e = g.decls.get(names[i]), u.decls.get(a)
                            if d is None or e is None: continue
                            k1, k2 = m.kindof(d), m.kindof(e)
                            if None not in k1 + k2 and k1 != k2: res.violation("hand on|%s|%s|%s|kind" % (u.name, n, names[i]), "%s: %s (%s of %d bytes) is passed to %s as %s (%s of %d bytes)" % ((where, a) + k2 + (n, names[i]) + k1))
                            if e["dim"]: handed.add(a)
                    for i, a in pairs:
                        mm = re.match(r"^c_loc\s*\(\s*(\w+)", a)
                        if mm: handed.add(mm.group(1))
                        d = g.decls.get(names[i])
                        if d is None or d["base"] not in ("integer", "real") or d["dim"] or d["intent"] in ("out", "inout"): continue
                        L = ev(a)
                        if L is None: continue
                        nval += 1
                        at = L.atoms()
                        role = cn[i] if i < len(cn) else names[i]
                        if isb and role in ("pos", "position"):
                            if at == {"pos"} and "pos" in u.args and L.key() != (("", -1), ("pos", 1)):
                                res.violation("call|%s|%s|pos" % (u.name, n), "%s: the one-based position is passed to %s as '%s', which expects a zero-based position" % (where, bound[n][1].name, a))
                            continue
                        if not isb and role == "pos":
                            lo, hi = bounds(L)
                            if at & set(loops) and lo is not None and not lo.atoms() and lo.const() < 1:
                                res.violation("hand on|%s|%s|pos" % (u.name, n), "%s: %s is called with positions from %d on, but they are counted from one" % (where, n, lo.const()))
                            elif at & set(loops) and hi is not None and len(hi.atoms()) == 1 and hi.const() > 0:
                                res.violation("hand on|%s|%s|pos" % (u.name, n), "%s: %s is called with positions up to %d beyond the last" % (where, n, hi.const()))
                            continue
                        dummies = at & set(u.args)
                        counted = {x for x in at if re.match(r"^(size|product|len)\(", x)}
                        if (dummies or counted) and not (len(at) == 1 and L.const() == 0 and L[next(iter(at))] == 1):
                            res.violation("hand on|%s|%s|%s|value" % (u.name, n, names[i]), "%s: %s is not handed on unchanged to %s: '%s'" % (where, ", ".join(sorted(dummies or counted)), bound[n][1].name if isb else n, a))
                    if istbp and tbp[n][0] == tbp.get("reduce_dimension", ("",))[0] or (isb and bound[n][1].name == "mifi_slicebuilder_set_dim_start_size"):
                        by = {names[i]: a for i, a in pairs}
                        for arg, dim in SELECTS.items():
                            if arg not in u.args: continue
                            for par, a in by.items():
                                L = ev(a) if g.decls.get(par, {}).get("base") == "integer" else None
                                if L is None or arg not in L.atoms(): continue
                                if par != "start": res.violation("hand on|%s|%s|%s" % (u.name, n, arg), "%s: %s selects a position, but is passed to %s as %s" % (where, arg, n, par)); continue
                                dl = ev(re.sub(r"^trim\s*\((.*)\)$", r"\1", by.get(g.args[1] if len(g.args) > 1 else "", "")))
                                got = {re.match(r"^\w+:(\w+)#", x).group(1) for x in (dl.atoms() if dl else ()) if re.match(r"^\w+:(\w+)#", x)}
                                if got and got != {dim}: res.violation("hand on|%s|%s|%s" % (u.name, n, arg), "%s: %s is applied to the dimension %s instead of %s" % (where, arg, sorted(got)[0], dim))
            for a, L, where in allocs:
                if a in handed and L is not None and len(L.atoms()) == 1 and L.const() < 0:
                    res.violation("length|%s|%s" % (u.name, a), "%s: %s has %d element(s) less than the C function fills" % (where, a, -L.const()))
    res.count("handed_on_values", nval)
    res.count("operations_and_interfaces", nop)


def check(ctx, res):
    p = ctx.core
    base = os.path.join(REPO, "modules/F90")
    files = [f for f in sorted(os.listdir(base)) if f.lower().endswith(".f90") and not re.search(r"(?i)test|example", f)]
    mods = []
    for f in files:
        with open(os.path.join(base, f), errors="replace") as fh: mods.append(F.Module("modules/F90/" + f, fh.read()))
    nb = nargs = ncalls = nactual = nconst = 0
    bound = {}
    for m in mods:
        for u in m.units:
            if u.bind is None or not u.in_interface: continue
            nb += 1
            where = "%s:%d" % (m.path, u.line)
            c = p.fns.get(u.bind) or p.decls.get(u.bind)
            if c is None or "c_fimex" not in c.file:
                res.violation("bind|%s|missing" % u.name, "%s: %s is bound to %s, which the C interface does not declare" % (where, u.name, u.bind)); continue
            own = u.name[2:] if u.name.startswith("c_") else u.name
            if own != u.bind and not (u.bind.startswith(own + "_") or own in u.bind):
                alt = [n for n in (own, own + "_cpy") if n in p.fns or n in p.decls]
                if alt: res.violation("bind|%s|name" % u.name, "%s: %s is bound to %s instead of %s" % (where, u.name, u.bind, alt[0]))
            bound[u.name] = (u, c)
            cp = [(x.get("n") or "", c.types[x["t"]]) for x in c.params]
            if len(cp) != len(u.args):
                res.violation("bind|%s|count" % u.name, "%s: %s passes %d arguments to %s, which takes %d (%s:%d)" % (where, u.name, len(u.args), u.bind, len(cp), c.file, c.line)); continue
            classes = []
            for a, (cn, ct) in zip(u.args, cp):
                nargs += 1
                d = u.decls.get(a)
                cc = cclass(p, ct)
                classes.append((cc[0], cc[2]))
                if d is None:
                    res.violation("bind|%s|%s|undeclared" % (u.name, a), "%s: argument %s of %s is not declared" % (where, a, u.name)); continue
                k, sz = m.kindof(d)
                if k is None: continue
                bad = None
                byval = d["value"]
                if cc[0] == "ptr":
                    if byval:
                        if k != "ptr": bad = "is passed by value"
                    else:
                        pc = cclass(p, cc[2]) if cc[2] not in ("fn", "void", "const void") else None
                        if pc is not None:
                            if k == "char":
                                if cc[2].replace("const ", "") not in ("char", "signed char", "unsigned char"): bad = "is a character"
                            elif k == "ptr":
                                if pc[0] != "ptr": bad = "is a pointer passed by reference (needs VALUE)"
                            elif pc[0] not in ("int", "real"): bad = "is a reference to a number"
                            elif k != pc[0] or (sz and pc[1] and sz != pc[1]): bad = "is a reference to a %s of %s bytes" % (k, sz)
                        if cc[3] and d["intent"] in ("out", "inout"): bad = bad or "is declared to be modified"
                        if not cc[3] and d["intent"] == "in" and k in ("int", "real", "char"): bad = bad or "is declared INTENT(IN) although C modifies it"
                else:
                    if not byval: bad = "is passed by reference (needs VALUE)"
                    elif k != cc[0] or (sz and cc[1] and sz != cc[1]): bad = "is a %s of %s bytes" % (k, sz)
                if bad:
                    res.violation("bind|%s|%s" % (u.name, a), "%s: argument %s of %s %s, but %s takes '%s %s' (%s:%d)" % (where, a, u.name, bad, u.bind, ct, cn, c.file, c.line))
            sw = order_swapped([a for a in u.args], [n.lower() for n, _ in cp], classes)
            if sw: res.violation("bind|%s|order" % u.name, "%s: arguments %s and %s of %s are in the opposite order of %s(%s)" % (where, u.args[sw[0]], u.args[sw[1]], u.name, u.bind, ", ".join(n for n, _ in cp)))
            # result
            rc = cclass(p, c.ret)
            if u.kind == "subroutine":
                if rc[0] != "void": res.violation("bind|%s|result" % u.name, "%s: %s is bound as a subroutine, but %s returns %s" % (where, u.name, u.bind, c.ret))
            else:
                d = u.decls.get(u.result)
                if d is None: res.violation("bind|%s|result" % u.name, "%s: the result of %s is not declared" % (where, u.name))
                else:
                    k, sz = m.kindof(d)
                    if k is not None and (k != rc[0] or (sz and rc[1] and sz != rc[1])):
                        res.violation("bind|%s|result" % u.name, "%s: the result of %s is a %s of %s bytes, but %s returns %s" % (where, u.name, k, sz, u.bind, c.ret))

    procs = {u.name: (m, u) for m in mods for u in m.units if u.bind is None and not u.in_interface}
    iface = {u.name: (m, u) for m in mods for u in m.units if u.bind is None and u.in_interface}
    tbp = {k: v for m in mods for k, v in m.tbp.items()}
    params = {k: v for m in mods for k, v in m.params.items()}
    for m in mods:
        for k, v in params.items(): m.params.setdefault(k, v)

    # opaque pointer types of variables and components
    ptypes = {}
    def var_types(u):
        loc = {}
        for no, s in u.stmts:
            mm = re.match(r"^(?:if\s*\(.*?\)\s*)?([\w%]+)\s*=\s*(\w+)\s*\(", s)
            if mm and mm.group(2) in bound and bound[mm.group(2)][1].ret.endswith("*"):
                loc.setdefault(mm.group(1), set()).add(bound[mm.group(2)][1].ret)
            mm = re.match(r"^([\w%]+)\s*=\s*([\w%]+)$", s)
            if mm and mm.group(2) in loc: loc.setdefault(mm.group(1), set()).update(loc[mm.group(2)])
        return loc
    comp = {}
    for m in mods:
        for u in m.units:
            ptypes[id(u)] = var_types(u)
            for v, t in ptypes[id(u)].items():
                if "%" in v: comp.setdefault(v.split("%")[-1], set()).update(t)

    for m in mods:
        for u in m.units:
            if u.bind is not None: continue
            for no, s in u.stmts:
                for name, act, _, _ in F.calls(s):
                    if name not in bound: continue
                    bu, c = bound[name]
                    ncalls += 1
                    where = "%s:%d (%s)" % (m.path, no, u.name)
                    cp = [((x.get("n") or "").lower(), c.types[x["t"]]) for x in c.params]
                    # keyword arguments
                    pos = list(range(len(act)))
                    vals = []
                    for i, a in enumerate(act):
                        mm = re.match(r"^(\w+)\s*=\s*(?!=)(.*)$", a)
                        if mm and mm.group(1) in bu.args: pos[i] = bu.args.index(mm.group(1)); vals.append(mm.group(2))
                        else: vals.append(a)
                    if len(vals) != len(cp): continue      # reported above or by the compiler
                    cur = dict(zip(pos, vals))
                    act = [cur[i] for i in range(len(cp)) if i in cur]
                    if len(act) != len(cp): continue
                    classes = [(cclass(p, t)[0], cclass(p, t)[2]) for _, t in cp]
                    sw = order_swapped([actual_name(a) for a in act], [n for n, _ in cp], classes)
                    if sw: res.violation("call|%s|%s|order" % (u.name, name), "%s: %s and %s are passed to %s in the opposite order of its parameters (%s)" % (where, act[sw[0]], act[sw[1]], bu.bind, ", ".join(n for n, _ in cp)))
                    for i, a in enumerate(act):
                        nactual += 1
                        cn, ct = cp[i]
                        cc = cclass(p, ct)
                        if cc[0] == "ptr" and re.match(r"^(this|fio|\w+)(%\w+)*$", a):
                            ty = ptypes[id(u)].get(a) or comp.get(a.split("%")[-1] if "%" in a else "", set())
                            if ty and ct not in ty and cc[2] not in ("void",):
                                res.violation("call|%s|%s|%d" % (u.name, name, i), "%s: %s holds a '%s' but %s takes '%s'" % (where, a, sorted(ty)[0], bu.bind, ct))
                        if cc[0] == "ptr" and cc[2] == "const char":
                            ok = bool(re.search(r"//\s*c_null_char$", a)) or a == "c_null_char"
                            if not ok and re.match(r"^\w+$", a):
                                asg = [x for n, x in u.stmts if re.match(r"^%s\s*=" % a, x)]
                                ok = bool(asg) and all(re.search(r"//\s*c_null_char$", x) for x in asg)
                                if ok and u.decls.get(a, {}).get("dim"): ok = True
                            mm = re.match(r"^(\w+)\s*\(", a)
                            if not ok and mm and mm.group(1) in procs:
                                asg = [x for n, x in procs[mm.group(1)][1].stmts if re.match(r"^%s\s*=(?!=)" % procs[mm.group(1)][1].result, x)]
                                ok = bool(asg) and all(re.search(r"//\s*c_null_char$", x) for x in asg)
                            if not ok: res.violation("call|%s|%s|%d|nul" % (u.name, name, i), "%s: the string %s passed to %s is not terminated with C_NULL_CHAR" % (where, a, bu.bind))
                            mm = re.match(r"^(\w+)\s*//\s*c_null_char$", a)
                            if mm and u.decls.get(mm.group(1), {}).get("base") == "character" and not u.decls[mm.group(1)]["dim"]:
                                if u.decls[mm.group(1)]["len"] not in ("1", ":") and not u.decls[mm.group(1)].get("alloc"):
                                    res.violation("call|%s|%s|%d|blanks" % (u.name, name, i), "%s: the string %s is passed to %s with its trailing blanks" % (where, mm.group(1), bu.bind))
                        mm = re.match(r"^c_loc\s*\(\s*(\w+)", a)
                        if mm and cc[0] == "ptr":
                            d = u.decls.get(mm.group(1))
                            pc = cclass(p, cc[2])
                            if d is not None and pc[0] in ("int", "real"):
                                k, sz = m.kindof(d)
                                if k is not None and (k != pc[0] or (sz and sz != pc[1])):
                                    res.violation("call|%s|%s|%d|elem" % (u.name, name, i), "%s: %s is an array of %s of %s bytes, but %s takes '%s'" % (where, mm.group(1), k, sz, bu.bind, ct))
                        # output buffer with its length
                        if cc[0] == "ptr" and cc[2] == "char" and i + 1 < len(cp) and cclass(p, cp[i + 1][1])[0] == "int" and cp[i + 1][0] in ("n", "len", "size", "length"):
                            d = u.decls.get(a)
                            ln = act[i + 1]
                            mm = re.match(r"^len\s*\(\s*(\w+)\s*\)$", ln)
                            if mm:
                                if mm.group(1) != a: res.violation("call|%s|%s|%d|len" % (u.name, name, i), "%s: the length of %s is passed for the buffer %s" % (where, mm.group(1), a))
                            elif d is not None and d["base"] == "character" and re.match(r"^\d+$", d["len"] or "") and re.match(r"^\d+$", ln):
                                if int(ln) > int(d["len"]): res.violation("call|%s|%s|%d|len" % (u.name, name, i), "%s: %s has %s characters but %s is passed as its length" % (where, a, d["len"], ln))

    values(p, res, mods, bound, procs, iface, tbp, params)

    # constants
    for m in mods:
        for en in m.enums:
            for n, (v, line) in en.items():
                for fp, q, cpx in ENUMS:
                    if n.upper().startswith(fp):
                        ce = p.enums.get(q)
                        if ce is None: raise AnalysisError("enumeration %s not found" % q)
                        cv = {k.upper(): x for k, x in ce["vals"].items()}
                        want = (cpx + n[len(fp):]).upper()
                        nconst += 1
                        if want not in cv:
                            res.violation("const|" + n, "%s:%d: %s repeats a constant that %s does not have" % (m.path, line, n, q))
                        elif v != cv[want]:
                            res.violation("const|" + n, "%s:%d: %s = %s, but the C constant %s of %s is %d" % (m.path, line, n, v, want, q, cv[want]))
    res.count("fortran_files", len(mods))
    res.need("bound_functions", nb, 10)
    res.count("bound_arguments", nargs)
    res.count("wrapper_calls", ncalls)
    res.count("actual_arguments", nactual)
    res.need("constants", nconst, 10)
    res.explanation = ("every bind(C) declaration of the Fortran modules compared with the C prototype (count, kind, size, passing mode, constness, result); every call through them: opaque pointer "
                       "type, termination of strings, element type of arrays, buffer length, order, one-based positions; every enumerator compared with the C enumeration it repeats")
    res.samples = ["%s -> %s(%s) %s" % (n, c.name, ", ".join(c.types[x["t"]] for x in c.params), c.ret) for n, (u, c) in sorted(bound.items())]
    res.assumptions = ["LP64 sizes (size_t = long = long long = 8 bytes); signed and unsigned integers of the same size are interchangeable",
                       "argument order of equally typed arguments is decided by the names on both sides"]
