"""C11: what an index writer stores, the index reader restores into the same attribute (label-flow analysis of writer and reader)."""
import re
from ..flow import Flow, labs, objs, consts, EMPTY
from ..ccp import CCP, TOP
from ..extract import AnalysisError
from ..prog import walk

ENTITY = ("MetNoFimex::CDMAttribute", "MetNoFimex::CDMVariable", "MetNoFimex::CDMDimension", "MetNoFimex::GridDefinition", "MetNoFimex::CDMNamedEntity",
          "MetNoFimex::GribFileMessage")
PB = "fimex_index::"
MSG = ("msg",)
SRC = ("src",)


INTW = {"char": 1, "signed char": 1, "unsigned char": 1, "short": 2, "unsigned short": 2, "int": 4, "unsigned int": 4, "long": 8, "unsigned long": 8, "long long": 8, "unsigned long long": 8}
FLTW = {"float": 4, "double": 8, "long double": 16}


def arith(t):
    t = t.replace("const ", "").rstrip(" &")
    return t if t in INTW or t in FLTW else None


def loses(a, b):
    """does a conversion from type a to type b lose values (other than by sign)"""
    if a in INTW and b in INTW: return INTW[b] < INTW[a]
    if a in FLTW: return b in INTW or FLTW[b] < FLTW[a]
    return False


PBT = {"double": "double", "float": "float", "int32": "int", "sint32": "int", "sfixed32": "int", "uint32": "unsigned int", "fixed32": "unsigned int",
       "int64": "long", "sint64": "long", "sfixed64": "long", "uint64": "unsigned long", "fixed64": "unsigned long"}


# positions in a table of the same index and sizes, which 32 bits hold by design of the stored format
BOUNDED = {("GribChunk", "file_index"), ("GribChunk", "message_size"), ("CDMAttribute", "name"), ("CDMDimension", "name"), ("CDMDimension", "length"), ("CDMVariable", "name"),
           ("CDMVariable", "shape"), ("CDMData", "strings")}


def representation(p, res, keys, types):
    """stored values may not pass through a type that is narrower than both where they come from and where they end up"""
    n = 0
    for k in sorted(keys):
        f = p.fns[k]
        if f.body is None: continue
        def plain(e):
            while e is not None and e.get("k") in ("Tmp",): e = e.get("e")
            return e
        narrowed = {}
        def squeezed(e):
            """(wide, narrow) if the value of e has gone through a narrower type"""
            e = plain(e)
            if e is None: return None
            if e.get("k") == "Ref" and e.get("id") in narrowed: return narrowed[e["id"]]
            if e.get("k") == "Cast" and e.get("e") is not None and "cv" not in e["e"]:
                a, b = arith(f.type(e["e"])), arith(f.type(e))
                if a and b and loses(a, b): return (a, b)
                return squeezed(e["e"])
            return None
        for x in walk(f.body):
            if "id" in x and x.get("i") is not None and not x.get("ref") and arith(f.type(x)):
                i = plain(x["i"]); a = arith(f.type(i))
                if a and "cv" not in i and i.get("k") not in ("Bin", "Cond") and loses(a, arith(f.type(x))): narrowed[x["id"]] = (a, arith(f.type(x)))
            elif x.get("k") == "Asg" and x.get("op") == "=" and plain(x["a"]).get("k") == "Ref" and arith(f.type(x["a"])):
                i = plain(x["b"]); a = arith(f.type(i))
                if a and "cv" not in i and i.get("k") not in ("Bin", "Cond") and loses(a, arith(f.type(x["a"]))) and "id" in plain(x["a"]): narrowed[plain(x["a"])["id"]] = (a, arith(f.type(x["a"])))
        def sink(e, t, x):
            nonlocal n
            n += 1
            t = arith(t) if t != "text" else t
            s = squeezed(e)
            if t is None: return
            if s is not None and (t == "text" or (t not in INTW or s[1] in INTW) and (INTW.get(t) or FLTW.get(t)) > (INTW.get(s[1]) or FLTW.get(s[1])) or (t in FLTW and s[1] in INTW)):
                res.violation("%s representation" % f.q.replace("MetNoFimex::", ""), "%s: a stored value of type %s is squeezed through %s" % (f.loc(x), s[0], s[1]))
            e = plain(e)
            while e is not None and e.get("k") == "Cast": e = plain(e.get("e"))
            if t in FLTW and e is not None and e.get("k") == "Call" and "XmlConstCharPtr::" in (e.get("q") or "") and arith(f.type(e)) in INTW:
                res.violation("%s representation" % f.q.replace("MetNoFimex::", ""), "%s: a stored value of type %s is read as an integer" % (f.loc(x), t))
        for x in walk(f.body):
            kk = x.get("k")
            if kk == "Asg" and x.get("op") == "=": sink(x["b"], f.type(x["a"]), x)
            elif "id" in x and x.get("i") is not None: sink(x["i"], f.type(x), x)
            elif kk in ("Call", "Ctor"):
                g = p.fns.get(x.get("f")) or p.decls.get(x.get("f"))
                m = re.match(PB + r"(?:\w+::)*(\w+)::(?:set_|add_)(\w+)$", x.get("q") or "")
                if m and PBT.get(types.get(m.groups())) and len(x.get("a", ())) in (1, 2) and x["a"][-1] is not None:
                    a = x["a"][-1]; t = PBT[types[m.groups()]]
                    sink(a, t, x)
                    o = plain(a)
                    while o.get("k") == "Cast" and o.get("e") is not None: o = plain(o["e"])
                    if "cv" not in o and arith(f.type(o)) and loses(arith(f.type(o)), t) and not (m.groups() in BOUNDED and t in INTW and INTW[t] >= 4) and o.get("k") not in ("Bin", "Cond"):
                        res.violation("%s field %s" % (f.q.replace("MetNoFimex::", ""), ".".join(m.groups())), "%s: a value of type %s is stored in the field %s of type %s" % (f.loc(x), f.type(o), ".".join(m.groups()), t))
                    continue
                text = "basic_string" in f.type(x) and kk == "Call" and x.get("this") is None
                for i, a in enumerate(x.get("a", ())):
                    if a is None: continue
                    if text: sink(a, "text", x)
                    elif g is not None and i < len(g.params): sink(a, g.types[g.params[i]["t"]], x)
            elif kk == "Init":
                r = p.recs.get(f.type(x).replace("const ", ""))
                if r is not None:
                    for a, fl in zip(x.get("a") or [], r.get("fields", ())): sink(a, r["_types"][fl["t"]], x)
    return n


class PFlow(Flow):
    def __init__(self, p, files, dtype=None, wmap=None):
        super().__init__(p, hook, lambda f: f.file in files or f.cls in ENTITY)
        self.W = {}                 # message field path -> labels written into it
        self.dtype = dtype
        self.wmap = wmap            # for readers: field path -> source labels, used to name attribute namespaces
        self.roots = {MSG, SRC}
        self.readfields = set()
        self.order = {}             # functions that turn the order of elements round
        self.bad = {}               # field or member -> conditions under which alone it is written / restored

    def written(self, path, lab):
        if path[:1] == MSG: self.W.setdefault(path, set()).update(l[1] for l in lab); self.guarded(path)

    def element(self, path):
        """an element is added to a repeated field: within one round of the loop that may not depend on the data"""
        if not self.loops or self.loops[-1] is None: return
        for g in self.guards[self.loops[-1]:]:
            if g[1]: self.bad.setdefault(path, set()).add(g[0])

    def guarded(self, path):
        for g in self.guards:
            if g[1] and not g[2]: self.bad.setdefault(path, set()).add(g[0])

    def store(self, path, v, strong=False):
        for g in self.guards:
            if g[1] and not g[2]:
                for l in labs(v) | (self.collect(v) if path[:1] == SRC else set()):
                    if l[:1] == MSG: self.bad.setdefault(l, set()).add(g[0])
        super().store(path, v, strong)

    def nskey(self, v):
        out = set()
        for l in self.collect(v) | labs(v):
            if l[:1] == MSG and self.wmap is not None: out |= {x for x in self.wmap.get(l, ()) if x[:1] == SRC} if l[-1] != "strings" else set()
            else: out.add(l)
        return "ns:" + ",".join(sorted("/".join(map(str, x)) for x in out))


def atbegin(x):
    while x is not None and x.get("k") in ("Tmp", "Cast", "Ctor"): x = x.get("e") if x.get("k") != "Ctor" else (x.get("a") or [None])[0]
    return x is not None and x.get("k") == "Call" and (x.get("q") or "").split("::")[-1] in ("begin", "cbegin")


def hook(fl, fr, e, th, args):
    q = e.get("q") or ""
    name = q.split("::")[-1]
    if e.get("k") == "Ctor": return None
    if q.startswith(PB) and e.get("this") is not None:
        base = {o for o in (objs(th) | (fl.base(fr, e["this"]) or set())) if o[:1] == MSG}
        if not base: return None
        cls = q.split("::")[1]
        for pre in ("set_allocated_", "set_", "add_", "mutable_", "clear_", "has_", "release_"):
            if name.startswith(pre) and (cls, name[len(pre):]) in fl.pbfields:
                fld = name[len(pre):]; break
        else:
            pre = ""; fld = name
            if name.endswith("_size") and (cls, name[:-5]) in fl.pbfields: return EMPTY
            if (cls, fld) not in fl.pbfields: return EMPTY
        paths = {b + (fld,) for b in base}
        if pre == "add_":
            for x in paths: fl.element(x)
        if pre in ("set_", "add_", "set_allocated_") and args:
            for x in paths: fl.W.setdefault(x, set()).update(fl.collect(args[-1]) | labs(args[-1])); fl.guarded(x)
            return EMPTY
        if pre in ("clear_", "has_"): return EMPTY
        if pre in ("add_", "mutable_", "release_"): return frozenset(("obj", x) for x in paths)
        out = set()
        for x in paths:
            fl.readfields.add(x)
            out.add(("lab", x))
            if fl.pbtypes.get((cls, fld)) in {c for c, _ in fl.pbfields}: out.add(("obj", x))
            if fld == "data_type" and fl.dtype is not None: out.add(("i", fl.dtype))
        for a in args: out |= {("lab", l) for l in fl.collect(a) | labs(a)}
        return frozenset(out)
    if q.startswith("google::protobuf::") and e.get("this") is not None:
        base = {o for o in (objs(th) | (fl.base(fr, e["this"]) or set())) if o[:1] == MSG}
        if name in ("Add", "AddAllocated"):
            for x in base: fl.element(x)
        if name in ("Add", "AddAllocated", "Set", "operator=") and args:
            for x in base: fl.W.setdefault(x, set()).update(fl.collect(args[-1]) | labs(args[-1])); fl.guarded(x)
            return EMPTY
        if name in ("Reserve", "size", "empty", "Clear", "Resize"): return EMPTY
        return th
    if q.startswith("google::protobuf::RepeatedFieldBackInserter") or q.startswith("google::protobuf::RepeatedPtrFieldBackInserter"): return args[0] if args else EMPTY
    if (name == "push_front" or (name == "insert" and len(e.get("a", ())) == 2 and atbegin(e["a"][0]))) and any(l[:1] in (MSG, SRC) for a in args for l in fl.collect(a) | labs(a)):
        fl.order.setdefault(fr.f.q, fr.f.loc(e))
    if name in ("rbegin", "crbegin", "rend", "crend") and any(l[:1] in (MSG, SRC) for l in fl.collect(th) | labs(th) | objs(th)): fl.order.setdefault(fr.f.q, fr.f.loc(e))
    if q.startswith("MetNoFimex::StringListBuilder::"):
        b = fl.base(fr, e["this"]) or set()
        if name == "add":
            l = frozenset(("lab", x) for x in fl.collect(args[0]) | labs(args[0]))
            for x in b: fl.store(x, l)
            return l
        if name == "strings": return frozenset().union(*[fl.env.get(x, EMPTY) for x in b]) if b else EMPTY
    if q.startswith("MetNoFimex::CDM::"):
        if name == "globalAttributeNS": return frozenset({("lab", ("globalNS",))})
        if name == "getDimensions": return frozenset({("obj", SRC + ("dim",))})
        if name == "getVariables": return frozenset({("obj", SRC + ("var",))})
        if name == "getAttributes" and args: return frozenset({("obj", SRC + ("att:" + fl.nskey(args[0]),))})
        if name in ("addDimension", "addVariable", "addAttribute", "addOrReplaceAttribute"):
            key = {"addDimension": "dim", "addVariable": "var"}.get(name) or "att:" + fl.nskey(args[0])
            fl.store(SRC + (key,), args[-1])
            return EMPTY
    if q == "MetNoFimex::Data::getDataType" and fl.dtype is not None:
        return frozenset({("i", fl.dtype)}) | frozenset(("lab", x) for x in labs(th))
    if q == "MetNoFimex::Data::size": return EMPTY
    if q.startswith("MetNoFimex::Data::as"): return frozenset(a for a in th if a[0] in ("lab", "obj"))
    return None


def pbfields(p):
    """(class, field) pairs of the generated messages, from the accessors that are called anywhere"""
    import re, glob, os
    from ..extract import REPO
    out = set(); types = {}
    for fn in sorted(glob.glob(os.path.join(REPO, "src/**/*.proto"), recursive=True)):
        cur = None
        for line in open(fn):
            line = line.split("//")[0]
            m = re.match(r"\s*message\s+(\w+)", line)
            if m: cur = m.group(1); continue
            if re.match(r"\s*enum\s", line): cur = None
            if "}" in line: cur = None
            m = re.match(r"\s*(repeated\s+|optional\s+)?([\w.]+)\s+(\w+)\s*=\s*\d+\s*;", line)
            if m and cur: out.add((cur, m.group(3))); types[(cur, m.group(3))] = m.group(2).split(".")[-1]
    return out, types


def one(p, res, what, wf, rf, wargs, rargs, files, dtypes, fields, types, root):
    """compares a writer and a reader; *args: function -> list of values"""
    nobl = 0
    for dt in dtypes:
        fw = PFlow(p, files, dt); fw.pbfields = fields; fw.pbtypes = types
        if dt is not None: fw.env[SRC + ("var", "datatype")] = frozenset({("i", dt), ("lab", SRC + ("var", "datatype"))})
        fw.call_fn(wf, None, wargs, "root")
        W = fw.W
        if not W: raise AnalysisError("%s: the writer stores nothing that the analysis understands" % what)
        frd = PFlow(p, files, dt, W); frd.pbfields = fields; frd.pbtypes = types
        frd.roots = {MSG}
        frd.call_fn(rf, None, rargs, "root")
        R = {}
        for s, l in frd.leaves(SRC).items():
            if s[:1] == ("const",): continue
            for x in l: R.setdefault(x, set()).add(SRC + s)
        for fld in sorted(W):
            src = {x for x in W[fld] if x[:1] == SRC}
            got = R.get(fld, set())
            nobl += 1
            if fld[-1] == "data_type":       # the type of the data itself selects the code that restores it (control dependence, decided by C10)
                src = {x for x in src if x[-1] != "data"}
                if fld not in frd.readfields: got = set(); src = src or {SRC + ("data type",)}
            name = "/".join(fld[1:])
            tag = "" if dt is None else " (data type code %d)" % dt
            show = lambda s: ", ".join(sorted("/".join(map(str, x[1:])) for x in s)) or "nothing"
            if src - got:
                res.violation("%s %s" % (what, name), "%s: field %s is written from {%s}, but the reader restores {%s} from it%s (%s, %s)" % (what, name, show(src), show(got), tag, wf.loc(), rf.loc()))
            elif got - src and fld[-1] not in ("data_type", "strings"):
                res.violation("%s %s" % (what, name), "%s: field %s is written from {%s}, but the reader also uses it for {%s}%s (%s, %s)" % (what, name, show(src), show(got - src), tag, wf.loc(), rf.loc()))
        res._seenw = getattr(res, "_seenw", set()) | set(W)
        res._seenr = getattr(res, "_seenr", set()) | frd.readfields
        for who, fl, fn in (("writer", fw, wf), ("reader", frd, rf)):
            for x, gs in sorted(fl.bad.items()):
                res.violation("%s %s conditional in %s" % (what, "/".join(map(str, x[1:])), who), "%s: the %s handles %s only under a condition on the data at %s (%s)" % (what, who, "/".join(map(str, x[1:])), ", ".join(sorted(gs)), fn.loc()))
            res._visited |= fl.visited
        if len(fw.order) + len(frd.order) == 1:
            for q, loc in list(fw.order.items()) + list(frd.order.items()):
                res.violation("%s order of elements in %s" % (what, q.replace("MetNoFimex::", "")), "%s: the elements of a list are turned round at %s, and not turned back" % (what, loc))
        if len(res.samples) < 10:
            for fld in sorted(W)[:10]: res.samples.append("%s: %s <- %s" % (what, "/".join(fld[1:]), sorted("/".join(map(str, y)) for y in W[fld])[:3]))
    return nobl


def protobuf(p, res):
    fields, types = pbfields(p)
    n = 0
    w = [f for f in p.fns.values() if f.q == "MetNoFimex::ProtobufCDM::writeCDM"]; r = [f for f in p.fns.values() if f.q == "MetNoFimex::ProtobufCDM::readCDM"]
    if len(w) != 1 or len(r) != 1: raise AnalysisError("index reader/writer not found")
    cdmobj = frozenset({("obj", SRC)}); msg = frozenset({("obj", MSG + ("CDM",))})
    files = {f.file for f in w + r}
    dts = [v for k, v in p.enums["MetNoFimex::CDMDataType"]["vals"].items()] if "MetNoFimex::CDMDataType" in p.enums else None
    nat = p.enums["MetNoFimex::CDMDataType"]["vals"].get("CDM_NAT")    # no values are stored for it
    if not dts: raise AnalysisError("CDMDataType not found")
    n += one(p, res, "data-model index", w[0], r[0], [msg, cdmobj], [cdmobj, msg], files, sorted(d for d in dts if d != nat), fields, types, "CDM")
    wg = [f for f in p.fns.values() if f.name == "writeGribIndex"]; rg = [f for f in p.fns.values() if f.name == "readGribIndex"]
    if len(wg) != 1 or len(rg) != 1: raise AnalysisError("GRIB index reader/writer not found")
    gobj = frozenset({("obj", SRC)}); gm = frozenset({("obj", MSG + ("GribIndex",))})
    files = {f.file for f in wg + rg}
    n += one(p, res, "GRIB index", wg[0], rg[0], [gm, gobj], [gobj, gm], files, [None], fields, types, "GribIndex")
    # every field that is read is written
    msgs = {c for c, _ in fields}
    def leaf(x):
        cls = x[1]
        for f in x[2:-1]: cls = types.get((cls, f))
        return types.get((cls, x[-1])) not in msgs
    for x in sorted(res._seenr - res._seenw):
        if leaf(x): res.violation("field %s never written" % "/".join(x[1:]), "the reader uses the stored field %s, which the writer never stores" % "/".join(x[1:]))
    for c, f in sorted(fields):
        n += 1
        if types[(c, f)] not in msgs and f not in {x[-1] for x in res._seenw | res._seenr}:
            res.violation("field %s.%s unused" % (c, f), "no writer stores and no reader uses %s.%s" % (c, f))
    return n, len(fields)


# ---------------------------------------------------------------- XML form of the GRIB index
class XW(Flow):
    def __init__(self, p, files, edition):
        super().__init__(p, xw_hook, lambda f: f.file in files or f.cls in ENTITY)
        self.stack = []
        self.W = {}
        self.roots = {("this",)}
        self.elements = set()
        self.env[("this", "edition_")] = frozenset({("i", edition), ("lab", ("this", "edition_"))})
        self.cond = {}


def xw_hook(fl, fr, e, th, args):
    q = e.get("q") or ""
    if e.get("k") == "Ctor": return None
    c = [next((a[1] for a in consts(v) if a[0] == "s"), None) for v in args]
    if q in ("xmlTextWriterStartElement",) and len(args) >= 2:
        fl.stack.append(c[1]); fl.elements.add(c[1]); return EMPTY
    if q == "xmlTextWriterEndElement":
        if fl.stack: fl.stack.pop()
        return EMPTY
    if q in ("xmlTextWriterWriteAttribute",) and len(args) >= 3:
        el = fl.stack[-1] if fl.stack else None
        fl.W.setdefault((el, c[1]), [set(), set()])
        fl.W[(el, c[1])][0] |= fl.collect(args[2]) | labs(args[2])
        fl.W[(el, c[1])][1] |= {a[1] for a in args[2] if a[0] == "via"}
        for g in fl.guards:
            if g[1]: fl.cond.setdefault((el, c[1]), set()).add((g[0], g[2]))
        return EMPTY
    if e.get("rp") and e.get("this") is None and e.get("f") in fl.p.fns and not fl.inline(fl.p.fns[e["f"]]) and args and labs(args[0]):
        return frozenset(a for a in frozenset().union(*args) if a[0] in ("lab", "via")) | {("via", q)}
    return None


class XR(Flow):
    def __init__(self, p, files, elem, attr):
        super().__init__(p, xr_hook, lambda f: f.file in files or f.cls in ENTITY)
        self.cur = "elem"; self.elem = "gribMessage"; self.E = elem; self.A = attr
        self.bad = {}

    def store(self, path, v, strong=False):
        if path[:1] == ("this",) and any(a[0] == "lab" for a in v):
            for g in self.guards:
                if g[1] and not g[2]: self.bad.setdefault(path, set()).add(g[0])
        super().store(path, v, strong)


def xr_hook(fl, fr, e, th, args):
    q = e.get("q") or ""
    if e.get("k") == "Ctor":
        if e.get("cls", "").endswith("XmlConstCharPtr") or e.get("cls", "").endswith("XmlCharPtr"): return args[0] if args else EMPTY
        return None
    if q == "xmlTextReaderRead": fl.cur = "elem"; fl.elem = fl.E; return EMPTY
    if q in ("xmlTextReaderMoveToNextAttribute", "xmlTextReaderMoveToFirstAttribute"): fl.cur = "attr"; return EMPTY
    if q in ("xmlTextReaderConstName", "xmlTextReaderName"):
        if fl.cur == "elem": return frozenset({("s", fl.elem)})
        return frozenset({("s", fl.A if fl.elem == fl.E else "\0")})
    if q in ("xmlTextReaderConstValue", "xmlTextReaderValue"):
        return frozenset({("lab", ("xml", fl.E, fl.A))}) if fl.cur == "attr" and fl.elem == fl.E else EMPTY
    if "XmlConstCharPtr::" in q or "XmlCharPtr::" in q:
        if e.get("op") in ("==", "!="): return fl.compare(e["op"], th, args[0])
        if q.endswith("::empty"): return EMPTY
        return frozenset(a for a in th if a[0] in ("lab", "s"))
    if e.get("op") in ("==", "!=") and len(args) == 2: return fl.compare(e["op"], args[0], args[1])
    if e.get("rp") and e.get("this") is None and e.get("f") in fl.p.fns and not fl.inline(fl.p.fns[e["f"]]) and args and labs(args[0]):
        return frozenset(a for a in frozenset().union(*args) if a[0] in ("lab", "via")) | {("via", q)}
    return None


IDENT = ("type2string",)


def xml(p, res):
    w = [f for f in p.fns.values() if f.q == "MetNoFimex::GribFileMessage::toString"]
    r = [f for f in p.fns.values() if f.q == "MetNoFimex::GribFileMessage::GribFileMessage" and f.params and "xmlTextReader" in f.types[f.params[0]["t"]]]
    if len(w) != 1 or len(r) != 1: raise AnalysisError("XML index reader/writer not found")
    w, r = w[0], r[0]
    files = {w.file, r.file}
    this = ("this",)
    n = 0
    written = {}; elems = {}; cond = {}
    for ed in (1, 2):
        fl = XW(p, files, ed)
        fl.call_fn(w, {this}, [], "root")
        elems[ed] = fl.elements; res._visited |= fl.visited
        for k, g in fl.cond.items(): cond.setdefault(k, set()).update(g)
        for k, (l, v) in fl.W.items():
            x = written.setdefault(k, [set(), set()]); x[0] |= {t for t in l if t[:1] == ("this",)}; x[1] |= v
    if len(written) < 20: raise AnalysisError("only %d stored XML attributes recognised" % len(written))
    pairs = set()
    none = XR(p, files, "\0none", "\0none")
    none.call_fn(r, {this}, [EMPTY, EMPTY], "root")
    res._visited |= none.visited
    for (el, at), (src, vw) in sorted(written.items(), key=str):
        if el is None or at is None:
            raise AnalysisError("an XML attribute is written with a name or element the analysis cannot determine")
        if not src: continue          # constants written for backward compatibility
        rd = XR(p, files, el, at)
        rd.call_fn(r, {this}, [EMPTY, EMPTY], "root")
        got = set(); vr = set()
        for s, l in rd.leaves(this).items():
            if s[:1] != ("const",) and ("xml", el, at) in l: got.add(("this",) + s)
        for pth, v in rd.env.items():
            if any(a == ("lab", ("xml", el, at)) for a in v): vr |= {a[1] for a in v if a[0] == "via"}
        n += 1
        show = lambda s: ", ".join(sorted(".".join(x[1:]) for x in s)) or "nothing"
        if src != got:
            res.violation("XML index %s/@%s" % (el, at), "the GRIB XML index stores %s in attribute %s of element %s (%s), but the reader restores %s from it (%s)" % (show(src), at, el, w.loc(), show(got), r.loc()))
        for x, gs in rd.bad.items():
            res.violation("XML index %s/@%s conditional in reader" % (el, at), "the reader restores %s only under a condition on the data at %s" % (".".join(x[1:]), sorted(gs)))
        for loc, pres in sorted(cond.get((el, at), ())):
            dflt = all(consts(none.env.get(x, EMPTY)) for x in src)
            if not pres or not dflt:
                res.violation("XML index %s/@%s conditional in writer" % (el, at), "attribute %s/@%s is only written under the condition at %s, and the reader has no default for %s" % (el, at, loc, show(src)))
        vw = {x for x in vw if x.split("::")[-1] not in IDENT}; vr = {x for x in vr if x.split("::")[-1] not in IDENT}
        for a in vw:
            for b in vr: pairs.add((a, b))
        if vw and not vr: res.violation("XML index %s/@%s encoding" % (el, at), "attribute %s/@%s is encoded by %s but not decoded" % (el, at, sorted(vw)))
        if vr and not vw: res.violation("XML index %s/@%s decoding" % (el, at), "attribute %s/@%s is decoded by %s but not encoded" % (el, at, sorted(vr)))
        if len(res.samples) < 12: res.samples.append("XML %s/@%s <-> %s" % (el, at, show(src)))
    # edition is carried by the element name
    for ed in (1, 2):
        for el in sorted(x for x in elems[ed] - elems[3 - ed] if x):
            rd = XR(p, files, el, "\0none")
            rd.call_fn(r, {this}, [EMPTY, EMPTY], "root")
            c = {a[1] for a in consts(rd.env.get(("this", "edition_"), EMPTY))}
            n += 1
            if c != {ed}: res.violation("XML index edition %d" % ed, "messages of edition %d are stored with element %s, which the reader restores as edition %s (%s)" % (ed, el, sorted(c), r.loc()))
    # the converters are inverse to each other
    for a, b in sorted(pairs):
        fa, fb = p.by_q[a][0], p.by_q[b][0]
        enc, dec = CCP(p), CCP(p)
        for v in range(0, 256):
            rets, _ = enc.run(fa, {"v%d" % fa.params[0]["id"]: v})
            texts = {x for x in rets if isinstance(x, tuple) and x[0] == "s"}
            for t in texts:
                back, _ = dec.run(fb, {"v%d" % fb.params[0]["id"]: t})
                n += 1
                if back != {v}: res.violation("%s/%s" % (a, b), "%s(%d) gives '%s', which %s turns into %s" % (a, v, t[1], b, sorted(map(str, back))))
    return n, len(written)


def check(ctx, res):
    p = ctx.core
    res._visited = set()
    n, nf = protobuf(p, res)
    m, na = xml(p, res)
    res.count("value_conversions", representation(p, res, res._visited, pbfields(p)[1]))
    res.need("binary_index_obligations", n, 20)
    res.need("xml_index_obligations", m, 15)
    res.count("message_fields", nf)
    res.count("xml_attributes", na)
    res.explanation = ("label-flow abstract execution of each index writer and reader: for every stored field, the members its value is taken from must be the members the reader "
                       "restores from it; the binary index is analysed once per element data type, the XML index once per (element, attribute); value encodings are checked to be inverse")
    res.assumptions += ["protobuf accessors and libxml2 text reader/writer behave as documented", "containers are treated as one element; their order is only decided for insertion at the front and reverse iteration"]
