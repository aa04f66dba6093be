"""Failable lookups: forward typestate analysis of pointers and iterators that may be absent (null / past the end).
A value coming from a failable lookup is 'maybe'; tests refine it; using a 'maybe' or 'absent' value is reported."""
import re
from collections import defaultdict
from .cfg import CFG
from .prog import walk, post, children
from .ccp import path

MAYBE, ABSENT, OK = "maybe", "absent", "ok"
SMART = re.compile(r"^(const )?(std|boost)::(__\w+::)?(shared_ptr|unique_ptr|scoped_ptr|__shared_ptr|shared_array)<")
FIND = re.compile(r"^(std::(__cxx11::|__debug::)?(map|set|multimap|multiset|unordered_map|unordered_set|unordered_multimap)<?.*::find|std::(__cxx11::)?(map|set|unordered_map|unordered_set|multimap|multiset)::find|std::(find|find_if|find_if_not|adjacent_find|search|max_element_x))$")
DYNP = re.compile(r"^(std|boost)::dynamic_pointer_cast$")
CNULL = {"fopen", "getenv", "opendir", "popen", "xmlGetProp", "xmlParseFile", "xmlReadFile", "xmlReadMemory", "xmlReadIO", "xmlReadDoc", "xmlXPathNewContext", "xmlXPathEvalExpression",
         "xmlXPathEval", "xmlReaderForFile", "xmlReaderForIO", "xmlReaderForMemory", "grib_handle_new_from_file", "grib_handle_new_from_message", "grib_handle_new_from_message_copy",
         "grib_handle_new_from_samples", "grib_handle_clone", "grib_iterator_new", "grib_nearest_new", "grib_keys_iterator_new", "ut_parse", "ut_get_converter", "ut_read_xml",
         "ut_get_unit_by_name", "pj_init_plus", "proj_create", "proj_create_crs_to_crs", "proj_normalize_for_visualization", "proj_context_create", "strchr", "strstr", "strrchr", "dlopen", "dlsym"}


CREQ = re.compile(r"^(std::)?(fread|fwrite|fseek|ftell|fgets|fgetc|fclose|fputs|fprintf|strlen|strcmp|strncmp|strcpy|strncpy|atoi|atof|grib_get_\w+|grib_set_\w+|grib_is_\w+|codes_get_\w+|codes_set_\w+)$")


def unwrap(e):
    while e is not None:
        k = e.get("k")
        if k in ("Tmp",): e = e.get("e")
        elif k == "Cast" and e.get("ck") != "dyn": e = e.get("e")
        elif k == "Ctor" and e.get("cm") in ("copy", "move") and e.get("a"): e = e["a"][0]
        elif k == "Ctor" and len(e.get("a", ())) == 2 and SMART.match(e.get("cls", "")) and e["a"][0] is not None and "shared_array" not in e["cls"] and not SMART.match(e["a"][0].get("cls", "")) and e["a"][0].get("k") in ("Call", "Ref", "Mem", "Cast"): e = e["a"][0]   # pointer and deleter
        elif k == "Ctor" and len([x for x in e.get("a", ()) if x is not None]) == 1 and (SMART.match(e.get("cls", "")) or "_iterator" in e.get("cls", "")): e = e["a"][0]   # converting construction
        elif k == "Call" and (e.get("q") or "") in ("std::move", "std::forward") and e.get("a"): e = e["a"][0]
        else: break
    return e


LOOKUPQ = re.compile(r"(::find|::at|::operator\[\]|^std::find(_if)?(_not)?)$")


def ekey(e):
    """canonical text of a side-effect free access or lookup expression"""
    e = unwrap(e)
    if e is None: return None
    k = e.get("k")
    if k in ("Ref", "Mem", "This"):
        if k == "Mem":
            b = ekey(e.get("b"))
            return None if b is None else b + "." + e["n"]
        return path(e) or (str(e["cv"]) if e.get("cv") is not None else None)
    if e.get("cv") is not None: return "#%s" % e["cv"]
    if k == "Str": return repr(e.get("v"))
    if k == "Un" and e.get("op") == "*": return ekey(e["a"])
    if k == "Cast" and e.get("ck") == "dyn":
        b = ekey(e.get("e"))
        return None if b is None else "dyn%s(%s)" % (e.get("t"), b)
    if k == "Ctor" and isstrcls(e.get("cls", "")) and len(e.get("a", ())) >= 1: return ekey(e["a"][0])
    if k == "Call" and e.get("f") is not None:
        q = e.get("q") or ""
        if e.get("op") in ("->", "*") and e.get("this") is not None and not e.get("a"): return ekey(e["this"])
        if q.endswith("::get") and e.get("this") is not None and not e.get("a"): return ekey(e["this"])
        if e.get("op") in ("=", "++", "--", "+=", "-="): return None
        parts = []
        if e.get("this") is not None:
            if not e.get("mc") and not LOOKUPQ.search(q): return None
            parts.append(ekey(e["this"]))
        elif not e.get("rp") and not LOOKUPQ.search(q) and not DYNP.match(q): return None
        for a in e.get("a", ()):
            if a is None: continue
            if a.get("k") == "Default": continue
            parts.append(ekey(a))
        if any(x is None for x in parts): return None
        nm = re.sub(r"<.*>", "", q).split("::")[-1]
        if nm == "operator[]" and "XPathNodeSet" in q: nm = "at"
        if DYNP.match(q): nm += "%s" % e.get("t")
        if e.get("this") is not None: return "%s.%s(%s)" % (parts[0], nm, ",".join(parts[1:]))
        return "%s(%s)" % (nm, ",".join(parts))
    return None


def isstrcls(c): return "basic_string" in c


def isnull(e):
    e = unwrap(e)
    if e is None: return False
    if e.get("null") or e.get("k") == "Null": return True
    if e.get("k") == "Ctor" and SMART.match(e.get("cls", "")) and not [x for x in e.get("a", ()) if x is not None and not isnull(x)]: return True
    if e.get("k") == "Init" and not e.get("a"): return True
    return False


PRED = {"hasUnlimitedDim": lambda o, a: [o + ".getUnlimitedDim()"],
        "isSimpleSpatialGridded": lambda o, a: [o + ".getGeoXAxis()", o + ".getGeoYAxis()"],
        "hasProjection": lambda o, a: [o + ".getProjection()"],
        "hasVerticalTransformation": lambda o, a: [o + ".getVerticalTransformation()", o + ".getGeoZAxis()"]}
# CoordinateAxis::AxisType name -> the geographic getter that also finds it
GEO = {"Lon": "getGeoXAxis", "GeoX": "getGeoXAxis", "Lat": "getGeoYAxis", "GeoY": "getGeoYAxis", "Time": "getTimeAxis",
       "GeoZ": "getGeoZAxis", "Height": "getGeoZAxis", "Depth": "getGeoZAxis", "Pressure": "getGeoZAxis"}
OPTIONAL = {"MetNoFimex::CoordinateSystem::getProjection", "MetNoFimex::CoordinateSystem::getVerticalTransformation"}
STATES = (MAYBE, ABSENT, OK, "param")
DATA = re.compile(r"shared_ptr<(const )?MetNoFimex::Data>|shared_array<")
CSMAP = re.compile(r"shared_ptr<const MetNoFimex::CoordinateSystem>")


class Nullness:
    def __init__(self, prog, scope=lambda f: True):
        self.p = prog; self.scope = scope
        self.cfgs = {}
        self.mayidx = set()     # functions returning the position of something that may not have been found
        self.maynull = {}       # fn key -> reason
        self.pred = {}          # fn key -> key templates that are present when the function returns true
        self.post = {}          # fn key -> key templates that are present when the function returns
        self.requires = {}      # fn key -> {param index: line}
        self.reqkeys = {}       # fn key -> {lookup on a parameter that the callers must have checked: (line, lookup)}
        self.reports = {}
        self.sources = set()
        self.checked = set()
        self.tok = {}

    def ptrtype(self, t):
        t = t.replace("const ", "").strip()
        if DATA.search(t): return False
        return t.endswith("*") or bool(SMART.match(t))

    def cfg(self, f):
        if f.key not in self.cfgs: self.cfgs[f.key] = CFG(f.body, maythrow=lambda n: True, inits=f.d.get("inits", ()))
        return self.cfgs[f.key]

    # -- is the value of e possibly absent?  returns (state, reason, alias) or None when nothing is known
    def val(self, f, e, env):
        e = unwrap(e)
        if e is None: return None
        if isnull(e): return (ABSENT, "null", None)
        k = e.get("k")
        key = ekey(e)
        if key is not None:
            v = env.get(key)
            if v is not None and v[0] in STATES: return v
            if v is not None: return None
        if k == "Cast" and e.get("ck") == "dyn" and not e.get("ref") and f.type(e).rstrip().endswith("*"):
            return self.src(f, e, "dynamic_cast", key)
        if k == "Call":
            q = e.get("q") or ""
            if q.endswith("::get") and e.get("this") is not None and not e.get("a"): return self.val(f, e["this"], env)
            if e.get("op") == "=" and e.get("this") is not None and e.get("a"): return self.val(f, e["a"][0], env)
            if not e.get("rp") and (FIND.match(re.sub(r"<.*>", "", q)) or q.split("<")[0] in ("std::find", "std::find_if", "std::find_if_not", "std::lower_bound", "std::upper_bound")):
                return self.src(f, e, q.split("::")[-1], key)
            if q == "std::distance" and len(e.get("a", ())) == 2 or e.get("op") == "-" and len(self.operands(e)) == 2 and "_iterator" in f.type(unwrap(self.operands(e)[1]) or {}):
                a_, b_ = self.operands(e) if e.get("op") == "-" else (e["a"][1], e["a"][0])
                v = self.val(f, a_, env)
                return (v[0], "position of " + v[1].replace("position of ", ""), v[2] or ekey(a_)) if v is not None and v[0] in (MAYBE, ABSENT) else None
            if e.get("rp") and e.get("f") in self.mayidx: return (MAYBE, "position of " + (q.split("::")[-1]), key)
            if DYNP.match(q): return self.src(f, e, "dynamic_pointer_cast", key)
            if not e.get("rp") and q in CNULL: return self.src(f, e, q, key)
            if q in OPTIONAL and not self.csmap(f, e.get("this"), env): return self.src(f, e, q.split("::")[-1], key)
            if e.get("rp") and self.ptrtype(f.type(e)):
                if e.get("this") is not None:
                    nm = q.split("::")[-1]
                    if nm in ("getGeoXAxis", "getGeoYAxis", "getProjection") and self.csmap(f, e["this"], env):
                        return (OK, "", None)
                    if nm in ("operator[]", "at") and "XPathNodeSet" in q and e.get("a"):
                        o = ekey(e["this"]); i = e["a"][0]
                        n = env.get("%s#size" % o)
                        if n is not None and i is not None and isinstance(i.get("cv"), int) and n[1] > i["cv"]: return (OK, "", None)
                for kk in self.p.callee_keys(f, e):
                    if kk in self.maynull: return self.src(f, e, q.split("::")[-1], key)
            return None
        if k == "Cond":
            ta, tb = self.refine(f, e["c"], env)
            a, b = self.val(f, e["a"], ta), self.val(f, e["b"], tb)
            for x in (a, b):
                if x is not None and x[0] in (MAYBE, ABSENT): return (MAYBE, x[1], None)
            return a or b
        if k == "Asg" and e["op"] == "=": return self.val(f, e["b"], env)
        return None

    @staticmethod
    def operands(e): return ([e["this"]] if e.get("this") is not None else []) + list(e.get("a", ()))

    def csmap(self, f, o, env):
        """o is a coordinate system kept in a map from the id of its horizontal coordinates: these have horizontal axes (Lat/Lon or GeoX/GeoY) by construction"""
        o = unwrap(o)
        if o is None: return False
        if o.get("k") == "Call" and o.get("op") in ("->", "*"): return self.csmap(f, o["this"], env)
        if o.get("k") == "Mem" and o.get("n") == "second": return bool(CSMAP.search(f.type(o)))
        k = ekey(o)
        return k is not None and env.get(k) is not None and env[k][0] == "csmap"

    def src(self, f, e, nm, key):
        self.sources.add((f.key, e.get("l"), nm))
        return (MAYBE, nm, key)

    def setst(self, env, key, st, reason, alias=None):
        env[key] = (st, reason, alias)
        if alias: env[alias] = (st, reason, None)

    # -- refinement of env by a condition: (env if true, env if false)
    def refine(self, f, e, env):
        e = unwrap(e)
        if e is None: return env, env
        k = e.get("k")
        if k == "Un" and e["op"] == "!":
            t, fl = self.refine(f, e["a"], env); return fl, t
        if k == "Call" and e.get("op") == "!" and (e.get("this") is not None or e.get("a")):
            t, fl = self.refine(f, e["this"] if e.get("this") is not None else e["a"][0], env); return fl, t
        if k == "Bin" and e["op"] in ("&&", "||"):
            t1, f1 = self.refine(f, e["a"], env)
            if e["op"] == "&&":
                t2, f2 = self.refine(f, e["b"], t1); return t2, self.join(f1, f2)
            t2, f2 = self.refine(f, e["b"], f1); return self.join(t1, t2), f2
        if k == "Asg" and e["op"] == "=": return self.refine(f, e["a"], env)
        if k == "Call" and e.get("op") == "=" and e.get("this") is not None: return self.refine(f, e["this"], env)
        pair = None
        if k == "Bin" and e["op"] in ("==", "!=", "<", ">", "<=", ">="): pair = (e["a"], e["b"], e["op"])
        if k == "Call" and e.get("op") in ("==", "!="):
            vs = ([e["this"]] if e.get("this") is not None else []) + list(e.get("a", ()))
            if len(vs) == 2: pair = (vs[0], vs[1], e["op"])
        if pair:
            a, b, op = pair
            for x in (a, b):
                kx = ekey(x)
                if kx is not None and env.get(kx) is not None and env[kx][0] in (MAYBE, ABSENT) and str(env[kx][1]).startswith("position of"):
                    y = unwrap(b if x is a else a)
                    if y is not None and isinstance(y.get("cv"), int) and op in ("==", "!="): continue       # not a comparison with the size
                    env = dict(env); env.pop(kx)
            sz = self.sizes(f, a, b, op, env)
            if sz is not None: return sz
            if op in ("==", "!="):
                for x, y in ((a, b), (b, a)):
                    y0 = unwrap(y)
                    if isnull(y) or self.isend(f, y0, env) or (k == "Call" and y0 is not None and y0.get("k") == "Int" and y0.get("cv") == 0 and self.ptrtype(f.type(unwrap(x)))):
                        r = self.test(f, x, env)
                        if r is not None:
                            t, fl = r
                            return (fl, t) if op == "==" else (t, fl)
                    # comparison of a boolean result with true/false
                    y2 = unwrap(y)
                    if y2 is not None and y2.get("cv") in (0, 1) and not isnull(y):
                        x2 = unwrap(x)
                        if x2 is not None and (x2.get("k") == "Call" or (x2.get("k") == "Ref" and (env.get(ekey(x2)) or ("",))[0] == "flag")):
                            t, fl = self.refine(f, x, env)
                            return (t, fl) if (op == "==") == (y2["cv"] == 1) else (fl, t)
                fa, fb = (env.get(ekey(z) or "") for z in (a, b))
                if fa is not None and fb is not None and fa[0] == "flag" and fb[0] == "flag":
                    eq = dict(env)
                    m = ("flag", (fa[1][0] + fb[1][0], fa[1][1] + fb[1][1]))
                    eq[ekey(a)] = m; eq[ekey(b)] = m
                    return (eq, env) if op == "==" else (env, eq)
                # equality of two pointers / iterators: nothing is known afterwards
                n = dict(env)
                for x in (a, b):
                    kx = ekey(x)
                    if kx in n and n[kx] is not None and n[kx][0] in (MAYBE, ABSENT) and op == "==": n.pop(kx)
                return (n, env) if op == "==" else (env, n)
            return env, env
        if k == "Call" and (e.get("conv") or (e.get("q") or "").endswith("::operator bool")) and e.get("this") is not None: return self.refine(f, e["this"], env)
        r = self.test(f, e, env)
        if r is not None: return r
        if k == "Call":
            q = e.get("q") or ""
            nm = re.sub(r"<.*>", "", q).split("::")[-1]
            facts = []
            o = ekey(e["this"]) if e.get("this") is not None else None
            args = [ekey(a) for a in e.get("a", ())]
            if o and nm in PRED: facts += PRED[nm](o, args)
            if o and nm == "hasAxisType" and args and args[0]:
                facts.append("%s.findAxisOfType(%s)" % (o, args[0]))
                a0 = unwrap(e["a"][0])
                g = GEO.get(a0.get("n")) if a0.get("k") == "Ref" else None
                if g: facts.append("%s.%s()" % (o, g))
            if nm == "hasTypeInAxes" and all(args): facts.append("findTypeInAxes(%s)" % ",".join(args))
            if o and nm == "empty":
                t, fl = dict(env), dict(env)
                fl[o + "#size"] = ("size", max(1, (env.get(o + "#size") or ("size", 0))[1]))
                return t, fl
            if o and nm in ("count",) and args and args[0]: facts.append("%s.find(%s)" % (o, args[0]))
            ks = self.p.callee_keys(f, e) if e.get("rp") else ()
            if len(ks) == 1:
                kk = next(iter(ks))
                g = self.p.fns[kk]
                for tm in self.pred.get(kk, ()):
                    s_ = tm
                    okk = True
                    def sub(m):
                        nonlocal okk
                        if m.group(0) == "this":
                            if o is None: okk = False
                            return o or ""
                        i = int(m.group(1))
                        if i >= len(args) or args[i] is None: okk = False; return ""
                        return args[i]
                    s_ = re.sub(r"\bP(\d+)\b|\bthis\b", sub, s_)
                    if okk: facts.append(s_)
            if nm == "getAttribute" and len(args) == 3 and args[2] and e.get("rp"):
                t, fl = dict(env), dict(env)
                t[args[2]] = (OK, "", None); fl[args[2]] = (ABSENT, "getAttribute", None)
                return t, fl
            if facts:
                t = dict(env)
                for x in facts:
                    old = env.get(x)
                    self.setst(t, x, OK, "", None)
                    # locals already holding this lookup
                    for a_, b_ in env.items():
                        if b_ is not None and len(b_) > 2 and b_[2] == x: t[a_] = (OK, "", x)
                return t, env
            # a predicate we cannot interpret that gets the value itself
            used = {ekey(x) for x in list(e.get("a", ())) + ([e["this"]] if e.get("this") is not None else [])}
            used = {u for u in used if u in env and env[u] is not None and env[u][0] in (MAYBE, ABSENT)}
            if used:
                n = dict(env)
                for u in used: n.pop(u)
                return n, n
        return env, env

    def test(self, f, x, env):
        """x tested for presence"""
        x = unwrap(x)
        if x is None: return None
        pt = ekey(x)
        st = env.get(pt) if pt is not None else None
        if st is not None and st[0] == "flag":
            t, fl = st[1]
            t2, f2 = dict(env), dict(env)
            for src_, dst in ((t, t2), (fl, f2)):
                for a, b in src_: dst[a] = b
            return t2, f2
        if x.get("k") == "Asg": x = x["a"]; pt = ekey(x)
        if x.get("k") == "Call" and x.get("op") == "=" and x.get("this") is not None: pt = ekey(x["this"])
        v = self.val(f, x, env)
        if v is None or pt is None: return None
        if v[0] not in STATES: return None
        self.checked.add((f.key, v[1], x.get("l")))
        t, fl = dict(env), dict(env)
        self.setst(t, pt, OK, "", v[2] if v[2] != pt else None)
        self.setst(fl, pt, ABSENT, v[1], v[2] if v[2] != pt else None)
        for a_, b_ in env.items():
            if b_ is not None and len(b_) > 2 and b_[2] == pt:
                t[a_] = (OK, "", pt); fl[a_] = (ABSENT, v[1], pt)
        return t, fl

    def sizeof(self, f, e, env):
        e = unwrap(e)
        if e is None: return None
        if e.get("k") == "Call" and e.get("this") is not None and (e.get("q") or "").split("::")[-1] in ("size", "length"): return ekey(e["this"])
        k = ekey(e)
        if k is not None and env.get(k) is not None and env[k][0] == "sizeof": return env[k][1]
        return None

    def sizes(self, f, a, b, op, env):
        """comparison of the size of a container with something"""
        o, c, o2 = self.sizeof(f, a, env), b, op
        if o is None:
            o, c = self.sizeof(f, b, env), a
            o2 = {"<": ">", ">": "<", "<=": ">=", ">=": "<="}.get(op, op)
        if o is None: return None
        cu = unwrap(c)
        n = cu.get("cv") if cu is not None else None
        t, fl = dict(env), dict(env)
        def up(en, m):
            en[o + "#size"] = ("size", max(m, (env.get(o + "#size") or ("size", 0))[1]))
        if isinstance(n, int):
            if o2 == "==": up(t, n); (up(fl, 1) if n == 0 else None)
            elif o2 == "!=": up(fl, n); (up(t, 1) if n == 0 else None)
            elif o2 == ">": up(t, n + 1)
            elif o2 == ">=": up(t, n)
            elif o2 == "<": up(fl, n)
            elif o2 == "<=": up(fl, n + 1)
            return t, fl
        ck = ekey(c)
        if ck is not None:
            yes = t if o2 == ">" else fl if o2 == "<=" else None
            if o2 in ("!=",): yes = t        # loop idiom i != size
            if yes is not None: yes["%s.at(%s)" % (o, ck)] = (OK, "", None)
        return t, fl

    def isend(self, f, y, env):
        if y is None: return False
        if y.get("k") == "Call":
            q = (y.get("q") or "").split("::")[-1]
            return q in ("end", "cend", "rend")
        pt = ekey(y)
        if pt is not None and env.get(pt) is not None and env[pt][0] == "end": return True
        return y.get("k") in ("Ref", "Mem") and "end" in (y.get("n") or "").lower()

    def join(self, a, b):
        if a is b: return a
        out = {}
        for k, x in a.items():
            y = b.get(k)
            if x == y: out[k] = x; continue
            if x is None or y is None: continue
            if x[0] == "size" and y[0] == "size": out[k] = ("size", min(x[1], y[1])); continue
            if x[0] not in STATES or y[0] not in STATES: continue
            bad = [z for z in (x, y) if z[0] in (MAYBE, ABSENT)]
            al = x[2] if x[2] == y[2] else None
            if bad: out[k] = (MAYBE, bad[0][1], al)
            else: out[k] = (OK, "", al) if OK in (x[0], y[0]) and x[0] == y[0] else (x if x[0] == "param" else y)
        return out

    # -- uses
    def deref(self, f, x):
        """expression whose value is dereferenced by node x"""
        k = x.get("k")
        if k == "Un" and x.get("op") == "*": return x["a"]
        if k == "Mem" and x.get("ar"): return x["b"]
        if k == "Call" and x.get("op") in ("->", "*") and x.get("this") is not None and not x.get("a"): return x["this"]
        if k == "Call" and x.get("this") is not None and not x.get("op"):
            t = f.type(x["this"]).replace("const ", "").rstrip()
            if t.endswith("*"): return x["this"]
        if k == "Idx": return x["a"]
        return None

    def cuses(self, f, x):
        """arguments that must be present: positions, C strings and handles of C libraries"""
        k = x.get("k")
        if k == "Idx": return [x["b"]] if x.get("b") is not None else []
        if k == "Call" and x.get("op") == "[]":
            vs = self.operands(x)
            return vs[1:2] if len(vs) == 2 and "map<" not in (x.get("q") or "") else []
        a = list(x.get("a", ()))
        if k == "Ctor" and isstrcls(x.get("cls", "")) and a and a[0] is not None and f.type(a[0]).replace("const ", "").rstrip().endswith("char *"): return a[:1]
        if k == "Call" and not x.get("rp"):
            q = x.get("q") or ""
            if q == "dlsym" and a: return a[:1]
            if q == "grib_handle_new_from_file" and len(a) > 1: return a[1:2]
            if CREQ.match(q) and a: return [y for y in a if y is not None and f.type(y).rstrip().endswith("*")]
            if isstrcls(q) and q.split("::")[-1] in ("assign", "append", "operator=", "operator+=", "operator+") : return [y for y in a[:1] if y is not None and f.type(y).replace("const ", "").rstrip().endswith("char *")]
            if q.split("<")[0] == "std::operator<<" and len(a) == 2 and a[1] is not None and f.type(a[1]).replace("const ", "").rstrip().endswith("char *"): return a[1:2]
            if x.get("f") is None and x.get("c") is not None: return [x["c"]]
        return []

    def use(self, f, node, base, env, what=""):
        v = self.val(f, base, env)
        if v is None: return
        b = unwrap(base)
        if b is not None and (b.get("k") == "Int" or isinstance(b.get("cv"), int) and node.get("op") == "[]"): return
        if b is not None and b.get("k") == "This": return
        if v[0] == "param":
            self.requires.setdefault(f.key, {}).setdefault(v[1], node.get("l")); return
        if v[0] in (MAYBE, ABSENT): self.report(f, node, v, base, what)

    def liftable(self, f):
        """functions that only this library can call: what they assume about their parameters is checked at the calls"""
        if f.key in self._lift: return self._lift[f.key]
        d = self.p.decls.get(f.key)
        r = not f.d.get("v") and not f.d.get("ov") and "lam" not in f.d and f.d.get("acc") in (None, "none", "private", "protected") and not (d is not None and d.file.startswith("include/")) \
            and not f.file.startswith("include/") and not f.key in self.taken and not f.d.get("ec")
        self._lift[f.key] = r
        return r

    def report(self, f, node, v, base, what):
        key = v[2] or ekey(base)
        if key is not None and "(" in key and "dyn" not in key and self.liftable(f):
            ids = {"v%d" % p_["id"]: "P%d" % i for i, p_ in enumerate(f.params) if "id" in p_}
            toks = re.findall(r"(?<![\w.#'])v\d+\b", key)
            if toks and all(t in ids for t in toks) and not re.search(r"\bthis\b", key):
                tm = re.sub(r"(?<![\w.#'])v\d+\b", lambda m: ids[m.group(0)], key)
                self.reqkeys.setdefault(f.key, {}).setdefault(tm, (node.get("l"), v[1]))
                return
        b = unwrap(base)
        nm = b.get("n") if b is not None and b.get("k") in ("Ref", "Mem") else (b.get("q") or b.get("k") if b is not None else "?")
        self.reports.setdefault((f.key, nm, v[1]), (f, node, v, nm, what))

    def kill(self, env, pt):
        """drop everything known about pt and expressions built from it"""
        r = self.tok.get(pt)
        if r is None: r = self.tok[pt] = re.compile(r"(?<![\w.])" + re.escape(pt) + r"(?!\w)")
        out = {}
        for a, b in env.items():
            if r.search(a): continue
            if b is not None and len(b) > 2 and b[2] and r.search(b[2]): b = (b[0], b[1], None)
            if b is not None and b[0] == "flag" and any(r.search(x) for s_ in b[1] for x, _ in s_): continue
            if b is not None and b[0] == "sizeof" and r.search(b[1]): continue
            out[a] = b
        return out

    def mutated(self, env, pt):
        """object pt changed: lookups in it are forgotten, pt itself stays what it is"""
        keep = env.get(pt)
        # the presence of pt is not affected by a change of what it refers to
        out = {}
        pre = (pt + ".", pt + "#")
        r = self.tok.get(pt)
        if r is None: r = self.tok[pt] = re.compile(r"(?<![\w.])" + re.escape(pt) + r"(?!\w)")
        for a, b in env.items():
            if a != pt and r.search(a): continue
            out[a] = b
        return out

    # -- evaluation with effects, in evaluation order
    def ev(self, f, e, env):
        """returns env after evaluating e"""
        if e is None: return env
        k = e.get("k")
        if k == "Bin" and e["op"] in ("&&", "||"):
            env = self.ev(f, e["a"], env)
            t, fl = self.refine(f, e["a"], env)
            env2 = self.ev(f, e["b"], t if e["op"] == "&&" else fl)
            return self.join(env2, fl if e["op"] == "&&" else t)
        if k == "Cond":
            env = self.ev(f, e["c"], env)
            t, fl = self.refine(f, e["c"], env)
            return self.join(self.ev(f, e["a"], t), self.ev(f, e["b"], fl))
        for c in children(e): env = self.ev(f, c, env)
        d = self.deref(f, e)
        for x in self.cuses(f, e): self.use(f, e, x, env, "handed to %s" % (e.get("q") or e.get("cls") or "?").split("<")[0] if e.get("k") in ("Call", "Ctor") else "")
        if d is not None:
            self.use(f, e, d, env)
            pt = ekey(d)
            if pt is not None and env.get(pt) is not None and env[pt][0] in (MAYBE, ABSENT):
                env = dict(env); env[pt] = (OK, "", None)      # reported once
        if k == "Asg":
            pt = ekey(e["a"])
            if pt is not None: env = self.assign(f, pt, e["b"] if e["op"] == "=" else None, env, f.type(e["a"]))
        elif k == "Un" and e["op"] in ("++", "--", "p++", "p--", "&"):
            pt = ekey(e["a"])
            if pt is not None and not (e["op"] == "&" and unwrap(e["a"]).get("k") not in ("Ref", "Mem")):
                env = self.kill(env, pt) if any(pt in x for x in env) else env
        elif k == "Call":
            if e.get("op") == "=" and e.get("this") is not None:
                pt = ekey(e["this"])
                if pt is not None: env = self.assign(f, pt, e["a"][0] if e.get("a") else None, env)
            elif e.get("this") is not None and not e.get("mc"):
                q = e.get("q") or ""
                nm = re.sub(r"<.*>", "", q).split("::")[-1]
                pt = ekey(e["this"])
                if pt is not None and e.get("op") not in ("->", "*", "==", "!=", "[]") and nm not in ("get", "find", "begin", "end", "at", "front", "back", "operator bool", "operator[]"):
                    if e.get("op") in ("++", "--", "+=", "-=") or nm in ("reset", "swap"):
                        if nm == "reset" and e.get("a"): env = self.assign(f, pt, e["a"][0], env)
                        elif nm == "reset": env = self.kill(env, pt); env[pt] = (ABSENT, "reset", None)
                        else: env = self.kill(env, pt)
                    else: env = self.mutated(env, pt)
                elif pt is not None and nm == "operator[]" and "map<" in q and e.get("a"):
                    a0 = ekey(e["a"][0])
                    if a0: env = dict(env); env["%s.find(%s)" % (pt, a0)] = (OK, "", None)
            th = ekey(e["this"]) if e.get("this") is not None else None
            if th is not None and th in env and env[th] is not None and len(env[th]) > 1 and env[th][1] == "getAttribute" and e.get("op") != "=": self.use(f, e, e["this"], env, "attribute used although it may not exist")
            isga = (e.get("q") or "").endswith("CDM::getAttribute") and len(e.get("a", ())) == 3
            for i, a in enumerate(e.get("a", ())):
                pt = ekey(a)
                if pt is not None and env.get(pt) is not None and len(env[pt]) > 1 and env[pt][1] == "getAttribute" and not isga: self.use(f, e, a, env, "attribute used although it may not exist")
            if isga:
                pt = ekey(e["a"][2])
                if pt is not None:
                    self.sources.add((f.key, e.get("l"), "getAttribute"))
                    env = self.kill(env, pt); env[pt] = (MAYBE, "getAttribute", None)
                    return env
            fn = self.p.fns.get(e.get("f")) or self.p.decls.get(e.get("f"))
            req = {}
            posts = ()
            ks = self.p.callee_keys(f, e) if e.get("rp") else ()
            if len(ks) == 1:
                kk = next(iter(ks))
                req = self.requires.get(kk, {})
                posts = self.post.get(kk, ())
                for tm, (ln, lk) in sorted(self.reqkeys.get(kk, {}).items()):
                    args = [ekey(a) for a in e.get("a", ())]
                    idx = [int(m) for m in re.findall(r"\bP(\d+)\b", tm)]
                    if any(i >= len(args) for i in idx): continue
                    what = "required by %s, which uses it unchecked (line %s)" % ((e.get("q") or "").replace("MetNoFimex::", ""), ln)
                    if any(args[i] is None for i in idx):
                        if lk in ("getGeoXAxis", "getGeoYAxis", "getProjection") and all(self.csmap(f, e["a"][i], env) for i in idx): continue
                        self.report(f, e, (MAYBE, lk, None), e["a"][idx[0]], what); continue
                    key = re.sub(r"\bP(\d+)\b", lambda m: args[int(m.group(1))], tm)
                    v = env.get(key)
                    if v is not None and v[0] == OK: continue
                    if lk in ("getGeoXAxis", "getGeoYAxis", "getProjection") and all(self.csmap(f, e["a"][i], env) for i in idx): continue
                    self.report(f, e, (MAYBE, lk, key), e["a"][idx[0]], what)
            for i, a in enumerate(e.get("a", ())):
                if a is None or e.get("op") in ("==", "!="): continue
                if i in req: self.use(f, e, a, env, "passed to %s which dereferences it (line %s)" % ((e.get("q") or "").replace("MetNoFimex::", ""), req[i]))
                pt = ekey(a)
                if pt is None: continue
                if fn is not None and i < len(fn.params):
                    t = fn.types[fn.params[i]["t"]]
                    if t.endswith("&") and not t.startswith("const ") and e.get("f") not in self.maynull and not (e.get("q") or "").endswith("hasTypeInAxes"): env = self.kill(env, pt)
                elif not e.get("rp") and a.get("k") == "Ref" and (e.get("q") or "").split("::")[-1] in ("swap", "tie", "advance"): env = self.kill(env, pt)
            if e.get("rp") and not e.get("mc") and e.get("this") is not None and any(p_.startswith("this.") for p_ in env):
                own = (unwrap(e["this"]) or {}).get("k") == "This"
                env = {a: b for a, b in env.items() if not a.startswith("this.") or not own and "(" not in a and b is not None and (b[0] == OK or b[0] in (MAYBE, ABSENT) and b[1] in CNULL)}
            if posts: env = self.after(f, e, posts, env)
        elif k == "Ctor":
            fn = self.p.fns.get(e.get("f")) or self.p.decls.get(e.get("f"))
            req = self.requires.get(e.get("f"), {})
            for i, a in enumerate(e.get("a", ())):
                if a is not None and i in req: self.use(f, e, a, env, "passed to the constructor of %s which dereferences it (line %s)" % ((e.get("cls") or "").replace("MetNoFimex::", ""), req[i]))
                if a is not None and fn is not None and i < len(fn.params):
                    pt = ekey(a); t = fn.types[fn.params[i]["t"]]
                    if pt is not None and t.endswith("&") and not t.startswith("const "): env = self.kill(env, pt)
        return env

    def after(self, f, e, posts, env):
        """env after a call that only returns when these are present"""
        args = list(e.get("a", ()))
        o = ekey(e["this"]) if e.get("this") is not None else None
        for tm in sorted(posts):
            m = re.match(r"^#P(\d+)(true|false)$", tm)
            if m:
                i = int(m.group(1))
                if i < len(args) and args[i] is not None: env = self.refine(f, args[i], env)[0 if m.group(2) == "true" else 1]
                continue
            m = re.match(r"^P(\d+)$", tm)
            if m:
                i = int(m.group(1))
                if i < len(args) and args[i] is not None:
                    r = self.test(f, args[i], env)
                    if r is not None: env = r[0]
                continue
            ks = [ekey(a) for a in args]
            idx = [int(x) for x in re.findall(r"\bP(\d+)\b", tm)]
            if any(i >= len(ks) or ks[i] is None for i in idx) or (re.search(r"\bthis\b", tm) and o is None): continue
            key = re.sub(r"\bP(\d+)\b", lambda q: ks[int(q.group(1))], tm)
            if o is not None: key = re.sub(r"\bthis\b", lambda q: o, key)
            env = dict(env)
            env[key] = (OK, "", None)
            for a_, b_ in list(env.items()):
                if b_ is not None and len(b_) > 2 and b_[2] == key: env[a_] = (OK, "", key)
        return env

    def assign(self, f, pt, rhs, env, ty=""):
        v = None
        if rhs is not None:
            v = self.val(f, rhs, env) if ty not in ("bool", "const bool") else None
            if v is not None and v[0] not in STATES: v = None
            rk = ekey(rhs)
            if v is not None and v[0] == "param": v = None if rk is None else v
            if v is None: v = self.flag(f, rhs, env, ty or f.type(rhs))
            if v is None:
                r = unwrap(rhs)
                if r is not None and r.get("k") == "Call" and (r.get("q") or "").split("::")[-1] in ("end", "cend"): v = ("end", "", None)
                elif self.sizeof(f, rhs, env) is not None: v = ("sizeof", self.sizeof(f, rhs, env), None)
                elif self.csmap(f, rhs, env): v = ("csmap", "", None)
                else: v = (OK, "", None)
            if len(v) > 2 and v[0] in STATES and v[2] is None and rk is not None and v[0] in (MAYBE, OK) and rk != pt: v = (v[0], v[1], rk)
        env = self.kill(env, pt)
        if v is not None:
            if len(v) > 2 and v[2] and re.search(r"(?<![\w.])" + re.escape(pt) + r"(?!\w)", v[2]): v = (v[0], v[1], None)
            env[pt] = v
        return env

    def flag(self, f, rhs, env, ty):
        """a boolean that holds the result of a test"""
        r = unwrap(rhs)
        if r is None: return None
        if ty not in ("bool", "const bool", "int", "const int"): return None
        if r.get("k") not in ("Bin", "Call", "Un", "Ref", "Mem", "Cast"): return None
        a, b = self.refine(f, r, env)
        da = tuple((k, v) for k, v in a.items() if env.get(k) != v)
        db = tuple((k, v) for k, v in b.items() if env.get(k) != v)
        if not da and not db: return None
        return ("flag", (da, db))

    # -- one function
    def analyse(self, f):
        g = self.cfg(f)
        env0 = {}
        for i, pr in enumerate(f.params):
            t = f.types[pr["t"]]
            if "id" in pr and (self.ptrtype(t.rstrip(" &").replace("const ", ""))): env0["v%d" % pr["id"]] = ("param", i, None)
            elif "id" in pr and t in ("bool", "const bool"): env0["v%d" % pr["id"]] = ("flag", ((("#P%dtrue" % i, (OK, "", None)),), (("#P%dfalse" % i, (OK, "", None)),)))
        instate = {g.entry.id: env0}
        work = [g.entry]
        rets = []
        trues = []
        ends = {}
        n_it = 0
        while work:
            n = work.pop()
            n_it += 1
            if n_it > 8000: break
            env = dict(instate[n.id])
            pre = env
            outs = None
            x = n.x
            if n.kind == "decl":
                env = self.ev(f, x.get("i"), env)
                pt = "v%d" % x["id"]
                if x.get("i") is not None: env = self.assign(f, pt, x["i"], env, f.types[x["t"]])
                else: env = self.kill(env, pt)
            elif n.kind == "eval": env = self.ev(f, x, env)
            elif n.kind == "init": env = self.ev(f, x["e"], env)
            elif n.kind == "ret":
                env = self.ev(f, x.get("e"), env)
                if x.get("e") is not None:
                    v = self.val(f, x["e"], env)
                    if v is not None and v[0] in (MAYBE, ABSENT): rets.append((n.line, v))
                    ce = unwrap(x["e"])
                    if f.ret == "bool" or f.ret == "int":
                        if ce is not None and ce.get("cv") is not None:
                            if ce["cv"]: trues.append(env)
                        else: trues.append(self.refine(f, x["e"], env)[0])
            elif n.kind == "switch":
                env = self.ev(f, x["c"], env)
                if self.exhaustive(f, x["c"], n): outs = [(m, env) for lab, m in n.succ if lab != "nodefault"]
            elif n.kind == "branch":
                env = self.ev(f, x, env)
                t, fl = self.refine(f, x, env)
                outs = []
                for lab, m in n.succ: outs.append((m, t if lab is True else fl if lab is False else env))
            elif n.kind == "rdecl":
                env = self.kill(env, "v%d" % x["v"]["id"])
            if outs is None: outs = [(m, env) for _, m in n.succ]
            for m, en in outs:
                if m is g.exit: ends[n.id] = ends[n.id] and self.join(ends[n.id], en) if n.id in ends and outs[0][0] is outs[-1][0] else en
            if n.exc is not None: outs = outs + [(n.exc, pre)]
            for m, en in outs:
                old = instate.get(m.id)
                if old is None: instate[m.id] = en; work.append(m)
                else:
                    j = self.join(old, en)
                    if j != old: instate[m.id] = j; work.append(m)
        if f.d.get("ctor") or f.q.split("::")[-1] == f.q.split("::")[-2 if "::" in f.q else -1]:
            for en in ends.values():
                for kk, v in en.items():
                    if kk.startswith("this.") and "(" not in kk and v is not None and v[0] in (MAYBE, ABSENT) and v[1] in CNULL:
                        self.reports.setdefault((f.key, kk[5:], v[1]), (f, None, v, kk[5:], "the constructor finishes with a member that may be absent"))
        self.last_trues = trues
        self.last_ends = list(ends.values())
        return rets

    def exhaustive(self, f, c, n):
        """all values of the enumeration have a case"""
        t = f.type(unwrap(c) or {}).replace("const ", "").replace("enum ", "").strip()
        en = self.p.enums.get(t)
        if en is None: return False
        have = {lab[1] for lab, _ in n.succ if isinstance(lab, tuple) and lab[0] == "case"}
        return bool(have) and set(en["vals"].values()) <= have

    def present(self, f, envs):
        """templates of what is present in all the environments"""
        ids = {"v%d" % p_["id"]: "P%d" % i for i, p_ in enumerate(f.params) if "id" in p_}
        common = None
        for en in envs:
            oks = set()
            for k, v in en.items():
                if v is None or v[0] != OK: continue
                ks = {k} | ({v[2]} if len(v) > 2 and v[2] else set())
                for kk in ks:
                    if kk.startswith("#P"): oks.add(kk); continue
                    toks = re.findall(r"(?<![\w.#'])v\d+\b", kk)
                    if all(t in ids for t in toks) and (toks or "this" in kk) and ("(" in kk or kk in ids):
                        oks.add(re.sub(r"(?<![\w.#'])v\d+\b", lambda m: ids[m.group(0)], kk))
            common = oks if common is None else common & oks
        return common or set()

    def predicates(self, fns):
        for f in fns:
            self.analyse(f)
            if f.ret in ("bool", "int") and self.last_trues:
                c = {x for x in self.present(f, self.last_trues) if not x.startswith("#P")}
                if c: self.pred[f.key] = c
            if self.last_ends and f.params:
                c = self.present(f, self.last_ends)
                if c: self.post[f.key] = c

    def run(self):
        fns = [f for f in self.p.fns.values() if f.body is not None and self.scope(f)]
        rev = self.rev = defaultdict(set)
        self._lift = {}
        self.taken = {k for ks in self.p.addr_taken.values() for k in ks}
        for a, bs in self.p.callgraph().items():
            for b in bs: rev[b].add(a)
        work = {f.key for f in fns if self.ptrtype(f.ret)}
        for rnd in range(8):
            new = set()
            for k in sorted(work):
                if k in self.maynull: continue
                f = self.p.fns[k]
                r = self.analyse(f)
                if r:
                    self.maynull[k] = "may return null at line %d" % r[0][0]
                    new |= {c for c in rev[k] if c in self.p.fns and self.ptrtype(self.p.fns[c].ret) and self.scope(self.p.fns[c]) and self.p.fns[c].body is not None}
            work = new
            if not new: break
        for f in fns:
            if self.ptrtype(f.ret) or f.ret.replace("const ", "") not in ("unsigned long", "int", "long", "unsigned int", "size_t"): continue
            if any(v is not None and str(v[1]).startswith("position of") for _, v in self.analyse(f)): self.mayidx.add(f.key)
        self.predicates(fns)
        self.requires = {}
        for rnd in range(4):                # what the callees require
            n = (sum(map(len, self.requires.values())), sum(map(len, self.reqkeys.values())))
            self.reports = {}; self.sources = set(); self.checked = set()
            for f in fns: self.analyse(f)
            if rnd and n == (sum(map(len, self.requires.values())), sum(map(len, self.reqkeys.values()))): break
        return fns
