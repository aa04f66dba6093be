"""Ownership typestate of raw resources (C handles, heap blocks, library objects): acquired -> released or handed over, exactly once on every path.

Path-sensitive exploration of each function: the state maps places to resources and resources to
  H held here, M held by a raw member of the object under construction, G held by a member whose destructor flag is not set yet,
  P parameter (not ours unless some path takes it over), R released, T handed over."""
import re
from collections import defaultdict
from .cfg import CFG
from .prog import walk, children
from .nullness import SMART

XF = {"xmlFree"}
ACQ = {}
for names, rel in [
    ("fopen fdopen freopen tmpfile", {"fclose"}), ("popen", {"pclose"}), ("opendir fdopendir", {"closedir"}),
    ("malloc calloc realloc strdup strndup", {"free"}), ("dlopen", {"dlclose"}), ("open creat dup dup2 socket", {"close"}),
    ("grib_handle_new_from_file grib_handle_new_from_message grib_handle_new_from_message_copy grib_handle_new_from_samples grib_handle_new_from_partial_message_copy grib_handle_clone grib_new_from_file codes_handle_new_from_file codes_handle_clone codes_handle_new_from_message codes_handle_new_from_message_copy codes_handle_new_from_samples", {"grib_handle_delete", "codes_handle_delete"}),
    ("grib_iterator_new codes_grib_iterator_new", {"grib_iterator_delete", "codes_grib_iterator_delete"}), ("grib_nearest_new codes_grib_nearest_new", {"grib_nearest_delete", "codes_grib_nearest_delete"}),
    ("grib_keys_iterator_new codes_keys_iterator_new", {"grib_keys_iterator_delete", "codes_keys_iterator_delete"}), ("grib_index_new grib_index_new_from_file", {"grib_index_delete"}),
    ("xmlReadFile xmlReadMemory xmlReadIO xmlReadDoc xmlReadFd xmlParseFile xmlParseMemory xmlParseDoc xmlNewDoc xmlCopyDoc", {"xmlFreeDoc"}), ("xmlXPathNewContext", {"xmlXPathFreeContext"}),
    ("xmlXPathEvalExpression xmlXPathEval xmlXPathCompiledEval", {"xmlXPathFreeObject"}),
    ("xmlGetProp xmlGetNsProp xmlNodeGetContent xmlNodeListGetString xmlTextReaderName xmlTextReaderValue xmlTextReaderGetAttribute xmlTextReaderReadString xmlTextReaderReadInnerXml xmlStrdup xmlCharStrdup xmlEncodeEntitiesReentrant xmlEncodeSpecialChars xmlBuildURI", XF),
    ("xmlReaderForFile xmlReaderForIO xmlReaderForMemory xmlReaderForDoc xmlNewTextReader xmlNewTextReaderFilename", {"xmlFreeTextReader"}),
    ("xmlBufferCreate xmlBufferCreateSize", {"xmlBufferFree"}), ("xmlNewTextWriterMemory xmlNewTextWriterFilename xmlNewTextWriter", {"xmlFreeTextWriter"}),
    ("ut_parse ut_get_unit_by_name ut_get_unit_by_symbol ut_clone ut_offset ut_offset_by_time ut_scale ut_multiply ut_divide ut_invert ut_raise ut_root ut_new_base_unit", {"ut_free"}),
    ("ut_get_converter cv_combine cv_get_scale cv_get_offset", {"cv_free"}), ("ut_read_xml ut_new_system", {"ut_free_system"}),
    ("proj_create proj_create_crs_to_crs proj_create_crs_to_crs_from_pj proj_normalize_for_visualization proj_get_source_crs proj_get_target_crs proj_clone", {"proj_destroy"}),
    ("proj_context_create proj_context_clone", {"proj_context_destroy"}), ("pj_init pj_init_plus pj_init_plus_ctx pj_latlong_from_proj", {"pj_free"})]:
    for n in names.split(): ACQ[n] = rel
# resource delivered through an out argument: name -> (argument, releasers)
ACQ_OUT = {"nc_open": (2, {"nc_close", "nc_abort"}), "nc_create": (2, {"nc_close", "nc_abort"}), "nc_open_mem": (4, {"nc_close", "nc_abort"}), "nc_open_par": (4, {"nc_close", "nc_abort"}), "nc_create_par": (4, {"nc_close", "nc_abort"}),
           "xmlDocDumpMemory": (1, XF), "xmlDocDumpFormatMemory": (1, XF), "xmlDocDumpMemoryEnc": (1, XF)}
RELEASERS = {r for s in ACQ.values() for r in s} | {r for _, s in ACQ_OUT.values() for r in s} | {"delete", "delete[]"}
# external functions that take over an argument
TAKES = {"fdopen": 0, "realloc": 0, "xmlDocSetRootElement": 1, "xmlAddChild": 1}
ESCAPES = re.compile(r"^std::.*(push_back|push_front|emplace\w*|insert|make_pair|make_tuple|operator=|pair|tuple)$")
CAP = 400


def strip(e):
    while e is not None:
        k = e.get("k")
        if k in ("Cast", "Tmp"): e = e.get("e")
        elif k == "Ctor" and e.get("cm") in ("copy", "move") and len(e.get("a", ())) == 1: e = e["a"][0]
        elif k == "Call" and (e.get("q") or "") in ("std::move", "std::forward") and e.get("a"): e = e["a"][0]
        else: break
    return e


def place(e):
    """text naming a variable or (nested) member; None for anything else"""
    e = strip(e)
    if e is None: return None
    k = e.get("k")
    if k == "Ref": return "v%d" % e["id"] if "id" in e else ("g:" + e["g"] if e.get("g") else None)
    if k == "This": return "this"
    if k == "Mem":
        b = place(e.get("b"))
        return None if b is None else b + "." + e["n"]
    if k == "Call" and e.get("op") in ("->", "*") and e.get("this") is not None and not e.get("a"): return place(e["this"])
    if k == "Call" and (e.get("q") or "").endswith("::get") and e.get("this") is not None and not e.get("a"): return place(e["this"])
    if k == "Un" and e.get("op") == "*": return None
    return None


class Resources:
    def __init__(self, ctx, scope):
        self.p, self.exc, self.scope = ctx.core, ctx.exc, scope
        self.cfgs = {}
        self.acq = {}          # repo functions returning an owned resource -> releasers
        self.consumes = defaultdict(dict)   # repo function -> {param: releasers}
        self.alias = defaultdict(set)       # repo function -> params its result may be
        self.nullthrow = {}                 # repo function -> params that are null whenever it throws
        self._relm = {}; self._via = {}
        self.gres = {}                   # variables of static storage that hold a raw resource
        self.deleter_fns = set()            # functions and lambdas used as deleters
        self.violations = {}
        self.sites = {}
        self.notes = defaultdict(int)
        self.owners()

    # -- classes whose destructor releases a member
    statics = frozenset()

    def owners(self):
        self.releasing = defaultdict(set)      # field q -> releasers
        self.guards = defaultdict(set)         # field q -> flag field names
        self.ownercls = set()
        for f in self.p.fns.values():
            if not f.name.startswith("~") or f.body is None or not f.cls: continue
            fns, st = {f.key}, [f.key]
            while st:
                for k in self.p.callgraph().get(st.pop(), ()):
                    if k not in fns and self.p.fns[k].cls == f.cls: fns.add(k); st.append(k)
            for k in fns:
                g = self.p.fns[k]
                if g.body is None: continue
                for nm, a, cond in self.guarded(g.body, frozenset()):
                    a = self.via(g, a)
                    if a is not None and a.get("k") == "Mem" and a.get("q"):
                        self.releasing[a["q"]].add(nm); self.ownercls.add(f.cls)
                        self.guards[a["q"]] |= cond - {a["n"]}
            # flags tested by an early return
            mine = {q.rsplit("::", 1)[1]: q for q in self.releasing if q.rsplit("::", 1)[0] == f.cls}
            if mine:
                g = self.cfg(f)
                can = self.can_release(f, g, set(mine))
                for n in g.nodes:
                    if n.kind != "branch" or not self.own_flag(f, n.x): continue
                    for mem, q in mine.items():
                        if n.id in can[mem] and any(m.id not in can[mem] for _, m in n.succ):
                            self.guards[q] |= {x["n"] for x in walk(n.x) if x.get("k") == "Mem"} - {mem}

    def via(self, g, a):
        """the member whose value the expression is, also when it has been taken into a local variable"""
        a = strip(a)
        if a is None or a.get("k") != "Ref" or a.get("dk") != "local" or g.body is None: return a
        key = (g.key, a.get("id"))
        if key in self._via: return self._via[key] or a
        src = []
        for y in walk(g.body):
            if y.get("id") == a.get("id") and y.get("k") != "Ref" and "t" in y and y.get("i") is not None: src.append(y["i"])
            elif y.get("k") == "Asg" and y.get("op") == "=" and (strip(y["a"]) or {}).get("k") == "Ref" and strip(y["a"]).get("id") == a.get("id"): src.append(y["b"])
            elif y.get("k") == "Call" and (y.get("q") or "").split("<")[0] in ("std::swap", "std::exchange") and len(y.get("a", ())) == 2 and y["q"].split("<")[0] == "std::swap":
                x = [strip(z) or {} for z in y["a"]]
                for i in (0, 1):
                    if x[i].get("k") == "Ref" and x[i].get("id") == a.get("id"): src.append(x[1 - i])
        mems = []
        for i in src:
            i = strip(i)
            if i is not None and i.get("k") == "Call" and (i.get("q") or "").split("<")[0] == "std::exchange" and i.get("a"): i = strip(i["a"][0])
            if i is None or i.get("null") or i.get("k") == "Null" or i.get("cv") == 0: continue
            mems.append(i)
        r = mems[0] if mems and all(m.get("k") == "Mem" and (m.get("b") or {}).get("k") == "This" and m.get("n") == mems[0].get("n") for m in mems) else None
        self._via[key] = r
        return r or a

    def relmembers(self, key, seen=()):
        """members of its own object that a method releases, itself or through other methods"""
        if key in self._relm: return self._relm[key]
        g = self.p.fns[key]
        out = set()
        if g.body is not None:
            for nm, a in self.releases(g, g.body):
                a = self.via(g, a)
                if a is not None and a.get("k") == "Mem" and (a.get("b") or {}).get("k") == "This": out.add(a["n"])
            for k in self.p.callgraph().get(key, ()):
                if k != key and k not in seen and self.p.fns[k].cls == g.cls: out |= self.relmembers(k, seen + (key,))
        self._relm[key] = out
        return out

    def guarded(self, s, cond):
        """(releaser, argument, members in the enclosing conditions)"""
        if s is None: return
        nm, a = self.relname(s)
        if nm: yield nm, a, cond
        if s.get("k") == "If":
            yield from self.guarded(s["c"], cond)
            inner = cond | {x["n"] for x in walk(s["c"]) if x.get("k") == "Mem"}
            yield from self.guarded(s.get("t"), inner)
            yield from self.guarded(s.get("e"), inner)
            return
        for c in children(s): yield from self.guarded(c, cond)

    def relname(self, x):
        """name of the releaser called by node x, with the released expression"""
        k = x.get("k")
        if k == "Delete": return ("delete[]" if x.get("arr") else "delete"), x.get("e")
        if k == "Call":
            q = x.get("q")
            if q is None and x.get("c") is not None:
                c = strip(x["c"])
                if c is not None and c.get("k") == "Ref": q = c.get("n")
            if q is not None:
                q = re.sub(r"^std::", "", q)
                if q in RELEASERS and x.get("a"): return q, x["a"][0]
        return None, None

    def releases(self, f, root):
        for x in walk(root):
            nm, a = self.relname(x)
            if nm: yield nm, a

    def deleters(self, f, d):
        """set of releasers a deleter object calls; None if unknown"""
        d = strip(d)
        if d is None: return None
        k = d.get("k")
        if k == "Un" and d.get("op") in ("&", "*"): return self.deleters(f, d["a"])
        if k == "Ref" and d.get("dk") == "func":
            q = re.sub(r"^std::", "", d.get("q") or "")
            if q in RELEASERS: return {q}
            g = self.p.fns.get(d.get("f"))
            return self.body_rel(g) if g is not None else None
        if k == "Ref" and d.get("n") in RELEASERS: return {d["n"]}
        if k == "Lambda":
            g = self.p.fns.get(d.get("f"))
            if g is not None: self.deleter_fns.add(g.key)
            return self.body_rel(g) if g is not None else None
        return self.deleter_type(f.type(d))

    def deleter_type(self, t):
        t = t.replace("const ", "").strip(" &*")
        for kk in self.p.callops.get(t, ()):
            g = self.p.fns.get(kk)
            if g is not None and g.body is not None:
                self.deleter_fns.add(g.key)
                return self.body_rel(g)
        return None

    def body_rel(self, g, depth=0):
        if g.body is None: return None
        out = {nm for nm, _ in self.releases(g, g.body)}
        if depth < 3:
            for k in self.p.callgraph().get(g.key, ()):
                out |= self.body_rel(self.p.fns[k], depth + 1) or set()
        return out

    def cfg(self, f):
        if f.key not in self.cfgs:
            self.cfgs[f.key] = CFG(f.body, lambda x: bool(self.exc.expr_types(f, x)) if x is not None else False, f.d.get("inits", ()))
        return self.cfgs[f.key]

    # -- state helpers: st = [env dict place->rid, res dict rid->(status, releasers frozenset), pend frozenset]
    def viol(self, f, node, rid, what):
        if not self.final: return
        key = "%s:%s:%s" % (f.file, f.q.replace("MetNoFimex::", ""), what.split(";")[0])
        self.violations.setdefault(key, (f, node, rid, what))

    def rid(self, st, pl): return st[0].get(pl) if pl is not None else None

    def new(self, f, node, rel, nm, st):
        rid = ("a", id(node))
        self.sites[(f.key, id(node))] = (f, node, nm)
        self.name[rid] = (nm, node.get("l"))
        # acquired again in a loop
        st[1][rid] = ("H", frozenset(rel))
        return rid

    def release(self, f, node, nm, rid, st, pl):
        s, rel = st[1].get(rid, ("?", frozenset()))
        what, ln = self.name.get(rid, ("parameter", f.line))
        if s == "S": st[2] = frozenset(st[2] | {(rid[1], rid[1].split(":")[-1], "")})
        if s == "R": self.viol(f, node, rid, "%s acquired at line %s is released twice" % (what, ln) if rid[0] == "a" else "member %s is released twice" % rid[1] if rid[0] == "m" else "argument is released twice")
        elif s == "T" and rid[0] == "a": self.viol(f, node, rid, "%s acquired at line %s is released although it has been handed over" % (what, ln))
        elif s == "T" and rid[0] == "p": self.viol(f, node, rid, "argument is released although it has been handed over")
        elif s in ("H", "M", "G") and nm not in rel: self.viol(f, node, rid, "%s acquired at line %s is released with %s" % (what, ln, nm))
        if s == "P" or (s == "?" and rid[0] == "p"): self.consumes[f.key].setdefault(rid[1], set()).add(nm)
        st[1][rid] = ("R", rel)

    def handover(self, f, node, rid, st, rels=None, what=""):
        """rels: releasers the new owner will use (None: unknown)"""
        s, rel = st[1].get(rid, ("?", frozenset()))
        if s == "S": return
        if s == "P":
            if not rels or "?" in rels: return          # remembered somewhere: not ours to release
            self.consumes[f.key].setdefault(rid[1], set()).update(rels)
        elif s in ("H", "M", "G"):
            if rels is not None and not (set(rels) & set(rel)) and "?" not in rels:
                nm, ln = self.name.get(rid, ("?", 0))
                self.viol(f, node, rid, "%s acquired at line %s is handed to an owner that %s" % (nm, ln, "uses " + "/".join(sorted(rels)) if rels else "does not release it"))
        elif s == "R": self.viol(f, node, rid, "released resource is handed to an owner")
        st[1][rid] = ("T", rel)

    def store(self, f, node, lhs, rid, st):
        """assignment of a tracked value (or None) to a place"""
        e = strip(lhs)
        pl = place(e)
        sp = self.static_place(e)
        if sp is not None:
            if any(t[0] == sp for t in st[2]): st[2] = frozenset(t for t in st[2] if t[0] != sp)
            elif st[1].get(("s", sp), ("",))[0] == "S": st[1][("s", sp)] = ("H", st[1][("s", sp)][1])
            elif sp in self.gres and "#null:" + sp not in st[0] and rid != ("s", sp):
                self.viol(f, node, rid, "the resource held by %s is lost: it is overwritten without having been released" % e.get("n"))
            st[0].pop("#null:" + sp, None)
            if rid is not None and st[1].get(rid, ("",))[0] == "H" and sp.startswith("g:"): self.gres.setdefault(sp, set()).update(st[1][rid][1])
        if pl is not None:
            old = st[0].get(pl)
            if old is not None and old != rid and st[1].get(old, ("",))[0] == "H" and not any(k != pl and v == old for k, v in st[0].items()):
                nm, ln = self.name.get(old, ("?", 0))
                self.viol(f, node, old, "%s acquired at line %s is overwritten while held" % (nm, ln))
            st[0].pop(pl, None)
        if e is not None and e.get("k") == "Mem":
            q = e.get("q") or ""
            self.clear_pending(f, e, st)
            if rid is None: return
            if q in self.releasing:
                if f.d.get("ctor") and (e.get("b") or {}).get("k") == "This":
                    s, rel = st[1].get(rid, ("?", frozenset()))
                    if s == "P": self.consumes[f.key].setdefault(rid[1], set()).update(self.releasing[q]); st[1][rid] = ("M", frozenset(self.releasing[q]))
                    elif s == "H": st[1][rid] = ("M", rel)
                    st[0][pl] = rid
                    return
                self.handover(f, node, rid, st, self.releasing[q]); return
            if (e.get("b") or {}).get("k") == "This":
                s, rel = st[1].get(rid, ("?", frozenset()))
                if s == "H":
                    nm, ln = self.name.get(rid, ("?", 0))
                    if not f.cls or not any(r.startswith(f.cls + "::") for r in ()):
                        self.viol(f, node, rid, "%s acquired at line %s is kept in the member %s, which is never released" % (nm, ln, e["n"]))
                if s != "P": st[1][rid] = ("T", rel)
                return
            if pl is not None and re.match(r"^v\d+\.", pl) and self.islocal(f, e):
                st[0][pl] = rid; return
            if rid is not None: self.handover(f, node, rid, st, None)
            return
        if e is not None and e.get("k") == "Ref":
            if rid is None: return
            if "id" in e and e["id"] not in self.statics: st[0][pl] = rid
            else: self.handover(f, node, rid, st, None)
            return
        if rid is not None:
            if f.d.get("ec") and e is not None and e.get("k") == "Un" and e.get("op") == "*" and "delete[]" in st[1].get(rid, ("", ()))[1]:
                self.viol(f, node, rid, "an array acquired with new[] is given to the C caller, who can only free() it")
            self.handover(f, node, rid, st, None)

    def islocal(self, f, e):
        while e is not None and e.get("k") == "Mem":
            if e.get("ar"): return False
            e = strip(e.get("b"))
        return e is not None and e.get("k") == "Ref" and e.get("dk") == "local"

    def clear_pending(self, f, e, st):
        q, n = e.get("q") or "", e.get("n")
        base = place(e.get("b"))
        if st[2]:
            keep = set()
            for (b, fld, fq) in st[2]:
                if b == base and (fld == n or n in self.guards.get(fq, ())): continue
                keep.add((b, fld, fq))
            st[2] = frozenset(keep)
        # a destructor flag set for a member resource
        for pl, rid in list(st[0].items()):
            if isinstance(rid, tuple) and st[1].get(rid, ("",))[0] == "G" and pl.rsplit(".", 1)[0] == base and n in self.gflag.get(rid, ()):
                st[1][rid] = ("T", st[1][rid][1])

    # -- expressions: returns the resource that is the value of e
    def ev(self, f, e, st):
        if e is None: return None
        k = e.get("k")
        if k in ("Ref", "Mem"):
            if k == "Mem" and e.get("b") is not None: self.ev(f, e["b"], st)
            r = self.rid(st, place(e))
            return r
        if k in ("Cast", "Tmp"):
            return self.ev(f, e.get("e"), st)
        if k == "Lambda":
            for c in children(e):
                r = self.ev(f, c, st)
                if r is not None: self.handover(f, e, r, st, None)
            # captured resources may be released by the lambda
            g = self.p.fns.get(e.get("f"))
            if g is not None:
                for nm, a in self.releases(g, g.body):
                    r = self.rid(st, place(a))
                    if r is not None: self.handover(f, e, r, st, None)
            return None
        if k == "Asg":
            r = self.ev(f, e["b"], st)
            a = strip(e["a"])
            if a is not None and a.get("k") not in ("Ref",):
                for c in children(a): self.use(f, c, st)
            if e["op"] == "=": self.store(f, e, e["a"], r, st)
            return r
        if k == "New":
            for c in children(e):
                self.ev(f, c, st)
            if e.get("pl"): return None
            return self.new(f, e, {"delete[]"} if e.get("arr") else {"delete"}, "new", st)
        if k == "Delete":
            nm, a = self.relname(e)
            r = self.ev(f, a, st)
            self.do_release(f, e, nm, a, r, st)
            return None
        if k == "Un":
            r = self.ev(f, e["a"], st)
            if e["op"] == "*" and r is not None: self.useof(f, e, r, st)
            if e["op"] == "&": return None
            return r if e["op"] in ("++", "p++") else None
        if k == "Bin":
            self.ev(f, e["a"], st); self.ev(f, e["b"], st)
            return None
        if k == "Cond":
            self.ev(f, e["c"], st)
            a = self.ev(f, e["a"], st); b = self.ev(f, e["b"], st)
            return a if a is not None else b
        if k == "Call": return self.call(f, e, st)
        if k == "Ctor": return self.ctor(f, e, st)
        if k == "Idx":
            r = self.ev(f, e["a"], st); self.ev(f, e.get("b"), st)
            if r is not None: self.useof(f, e, r, st)
            return None
        out = None
        for c in children(e): out = self.ev(f, c, st)
        return None

    def use(self, f, c, st):
        r = self.ev(f, c, st)
        if r is not None: self.useof(f, c, r, st)

    def useof(self, f, node, rid, st):
        if st[1].get(rid, ("",))[0] == "R":
            nm, ln = self.name.get(rid, ("argument", f.line))
            self.viol(f, node, rid, "%s acquired at line %s is used after its release" % (nm, ln))

    def static_place(self, x):
        x = strip(x)
        if x is None or x.get("k") != "Ref": return None
        if x.get("g"): return "g:" + x["g"]
        return "v%d" % x["id"] if x.get("id") in self.statics else None

    def do_release(self, f, e, nm, a, r, st):
        pl = place(a)
        x = strip(a)
        sp = self.static_place(x)
        if r is None and sp is not None: st[2] = frozenset(st[2] | {(sp, x.get("n"), "")})
        if r is not None: self.release(f, e, nm, r, st, pl)
        elif x is not None and x.get("k") == "Mem" and x.get("q") in self.releasing and not f.name.startswith("~"):
            b = place(x.get("b"))
            if b is not None:
                st[0]["#rel:%s.%s" % (b, x["n"])] = True
                st[2] = frozenset(st[2] | {(b, x["n"], x["q"])})
                # the flag has been cleared before
                if any((b, g) in self.cleared(st) for g in self.guards.get(x["q"], ())): st[2] = frozenset(t for t in st[2] if t != (b, x["n"], x["q"]))

    def cleared(self, st): return {tuple(k[5:].rsplit(".", 1)) for k in st[0] if k.startswith("#clr:")}

    def call(self, f, e, st):
        q = e.get("q")
        if q is None and e.get("c") is not None:
            c = strip(e["c"])
            if c is not None and c.get("k") == "Ref": q = c.get("n")
        q0 = re.sub(r"^std::", "", q or "")
        args = list(e.get("a", ()))
        if q0 in ("move", "forward", "swap"):
            for a in args: st[0].pop("own:%s" % place(a), None)
        if e.get("this") is not None and SMART.match(f.type(e["this"]).replace("const ", "")):
            own = "own:%s" % place(e["this"])
            if own in st[0]:
                last = re.sub(r"<.*>", "", q or "").split("::")[-1]
                _, r, prev = st[0][own]
                if last in ("swap",) or e.get("op") == "=" or last == "reset" and args and args[0].get("k") != "Default":
                    st[0].pop(own)
                    if (last == "reset" or e.get("op") == "=") and r in st[1] and st[1][r][0] == "T": st[1][r] = ("R", st[1][r][1])
                elif last == "reset":
                    st[0].pop(own)
                    if r in st[1] and st[1][r][0] == "T": st[1][r] = ("R", st[1][r][1])
                    return None
                elif last == "release":
                    st[0].pop(own)
                    if prev in ("H", "M", "G") and r in st[1]: st[1][r] = (prev, st[1][r][1])
                    return r
        nm, ra = self.relname(e)
        if nm:
            r = self.ev(f, ra, st)
            for a in args[1:]: self.ev(f, a, st)
            if nm == "nc_close" or r is None: self.do_release(f, e, nm, ra, r, st)
            else: self.release(f, e, nm, r, st, place(ra))
            return None
        th = self.ev(f, e["this"], st) if e.get("this") is not None else None
        if e.get("op") in ("->", "*") and e.get("this") is not None and not args: return None
        if q0.endswith("::get") and e.get("this") is not None: return None
        if e.get("op") == "=" and e.get("this") is not None and args:
            r = self.ev(f, args[0], st)
            if r is not None:
                t = f.type(e["this"])
                if SMART.match(t.replace("const ", "")) or not e.get("rp"): self.handover(f, e, r, st, None)
                else: self.handover(f, e, r, st, None)
            x = strip(e["this"])
            if x is not None and x.get("k") == "Mem": self.clear_pending(f, x, st)
            return None
        rs = [self.ev(f, a, st) for a in args]
        out = None
        if not e.get("rp"):
            if q0 in ACQ:
                out = self.new(f, e, ACQ[q0], q0, st)
            if q0 in ACQ_OUT:
                i, rel = ACQ_OUT[q0]
                if i < len(args): self.acq_out(f, e, args[i], rel, q0, st)
            if q0 in TAKES and TAKES[q0] < len(rs) and rs[TAKES[q0]] is not None: self.handover(f, e, rs[TAKES[q0]], st, None)
        short = re.sub(r"<.*>", "", q or "").split("::")[-1]
        tt = f.type(e["this"]).replace("const ", "") if e.get("this") is not None else ""
        if short == "reset" and SMART.match(tt) and rs:
            if rs[0] is not None: self.smart(f, e, tt, args, rs, st)
            return None
        ks = self.p.callee_keys(f, e)
        for i, r in enumerate(rs):
            if r is None: continue
            c = set()
            for kk in ks:
                g = self.p.fns[kk]
                if i in self.consumes.get(kk, {}): c |= self.consumes[kk][i]
                if i in self.alias.get(kk, ()): out = r
            if c: self.handover(f, e, r, st, c)
            else:
                self.useof(f, e, r, st)
                if not e.get("ec") and not e.get("rp") and ESCAPES.match(re.sub(r"<.*>", "", q or "")): self.handover(f, e, r, st, None)
                # objects given to a foreign C++ library belong to it
                if e.get("this") is not None and not e.get("rp") and not re.match(r"^(std|boost)::", q or "") and self.name.get(r, ("",))[0] == "new": self.handover(f, e, r, st, None)
        if f.name.startswith("~"):
            for kk in ks:
                if self.p.fns[kk].cls == f.cls:
                    for n_ in self.relmembers(kk):
                        if ("m", n_) in st[1]: st[1][("m", n_)] = ("T", st[1][("m", n_)][1])
        if out is None and ks:
            rel = set()
            for kk in ks: rel |= self.acq.get(kk, set())
            if rel: out = self.new(f, e, rel, (q or "").split("::")[-1], st)
        return out

    def acq_out(self, f, e, a, rel, nm, st):
        a = strip(a)
        tgt = strip(a["a"]) if a is not None and a.get("k") == "Un" and a["op"] == "&" else None
        rid = self.new(f, e, rel, nm, st)
        if tgt is None:
            self.handover(f, e, rid, st, None)     # pointer argument: given to the caller
            return
        pl = place(tgt)
        if tgt.get("k") == "Mem":
            q = tgt.get("q") or ""
            base = place(tgt.get("b"))
            if q in self.releasing:
                was = (base, tgt["n"], q) in st[2]
                if base == "this" and not f.d.get("ctor") and not was and "#rel:this." + tgt["n"] not in st[0] and not self.from_ctor(f) and not any("#is0:this." + x_ in st[0] for x_ in self.guards.get(q, set()) | {tgt["n"]}):
                    self.viol(f, e, rid, "%s at line %s overwrites the member %s, which may still hold a resource" % (nm, e.get("l"), tgt["n"]))
                st[2] = frozenset(t for t in st[2] if t != (base, tgt["n"], q))
                g = self.guards.get(q, set())
                if g and not was:
                    st[1][rid] = ("G", frozenset(rel)); self.gflag[rid] = g
                    if pl is not None: st[0][pl] = rid
                else: st[1][rid] = ("T", frozenset(rel))
                return
            if (tgt.get("b") or {}).get("k") == "This":
                self.viol(f, e, rid, "%s acquired at line %s is kept in the member %s, which is never released" % (nm, e.get("l"), tgt["n"]))
            st[1][rid] = ("T", frozenset(rel)); return
        if pl is not None: st[0][pl] = rid
        else: st[1][rid] = ("T", frozenset(rel))

    def smart(self, f, e, cls, args, rs, st):
        """a smart pointer takes over rs[0]"""
        m = re.search(r"(shared_ptr|unique_ptr|scoped_ptr|shared_array|scoped_array)<(.*)>", cls)
        kind, targ = (m.group(1), m.group(2)) if m else ("shared_ptr", "")
        ds = [a for a in args[1:] if a is not None and not (a.get("k") == "Default")]
        if ds: rel = self.deleters(f, ds[0])
        elif kind == "unique_ptr" and "," in targ and "default_delete" not in targ:
            rel = self.deleter_type(targ.rsplit(",", 1)[1].strip())
        else:
            rel = {"delete[]"} if kind in ("shared_array", "scoped_array") or targ.split(",")[0].strip().endswith("[]") else {"delete"}
        r = rs[0]
        self.taken = (r, st[1].get(r, ("?",))[0])
        if rel is not None and not rel:
            if st[1].get(r, ("",))[0] == "P": return      # an observer with a deleter that does nothing
        if rel and rel & {"fclose", "pclose"} and kind == "shared_ptr" and st[1].get(r, ("",))[0] == "H" and ("#nn:%r" % (r,)) not in st[0]:
            self.viol(f, e, r, "%s (line %s) may have failed when it is given to a shared_ptr, which then calls %s with a null pointer" % (self.name[r] + ("/".join(sorted(rel)),)))
        self.handover(f, e, r, st, rel)

    def ctor(self, f, e, st):
        args = list(e.get("a", ()))
        rs = [self.ev(f, a, st) for a in args]
        cls = e.get("cls", "")
        if SMART.match(cls) and rs and rs[0] is not None:
            self.smart(f, e, cls, args, rs, st); return None
        if e.get("cm") in ("copy", "move") and len(rs) == 1: return rs[0]
        for i, r in enumerate(rs):
            if r is None: continue
            c = self.consumes.get(e.get("f"), {}).get(i)
            if c: self.handover(f, e, r, st, c)
            else:
                self.useof(f, e, r, st)
                if ESCAPES.match(re.sub(r"<.*>", "", e.get("q") or "")): self.handover(f, e, r, st, None)
        return None

    # -- branches
    def refine(self, f, x, st, truth):
        """st after condition x has the given truth; None if infeasible"""
        e = strip(x)
        if e is None: return st
        if e.get("k") == "Call" and e.get("op") == "!": return self.refine(f, e["this"] if e.get("this") is not None else e["a"][0], st, not truth)
        tgt, present = None, truth
        if e.get("k") == "Bin" and e["op"] in ("==", "!="):
            for a, b in ((e["a"], e["b"]), (e["b"], e["a"])):
                b = strip(b)
                if b is not None and (b.get("null") or b.get("k") == "Null" or b.get("cv") == 0):
                    tgt = a; present = truth if e["op"] == "!=" else not truth
        elif e.get("k") == "Bin" and e["op"] in ("<", ">=") and strip(e["b"]) is not None and strip(e["b"]).get("cv") == 0:
            tgt = e["a"]; present = truth if e["op"] == ">=" else not truth
        elif e.get("k") in ("Ref", "Mem"): tgt = e
        elif e.get("k") == "Asg": tgt = e["a"]
        if tgt is None: return st
        t = strip(tgt)
        if t is not None and t.get("k") == "Asg": t = strip(t["a"])
        # status of an out-argument acquisition tested directly: nc_open(...) != 0 -> not acquired
        if t is not None and t.get("k") == "Call" and t.get("q") in ACQ_OUT and e.get("k") == "Bin":
            rid = ("a", id(t))
            if present and rid in st[1]:
                st = [dict(st[0]), dict(st[1]), st[2]]; st[1].pop(rid)
                for k in [k for k, v in st[0].items() if v == rid]: st[0].pop(k)
            return st
        pl = place(t)
        r = st[0].get(pl) if pl else None
        if isinstance(r, tuple):
            if r[0] == "s" and isinstance(r[1], tuple):     # a status variable of an acquisition
                rid = r[1]
                if e.get("k") == "Bin" and e["op"] in ("==", "!=") or e.get("k") == "Ref":
                    if present and rid in st[1]:
                        st = [dict(st[0]), dict(st[1]), st[2]]; st[1].pop(rid)
                        for k in [k for k, v in st[0].items() if v == rid]: st[0].pop(k)
                return st
            if present and st[1].get(r, ("",))[0] == "H":
                st = [dict(st[0]), dict(st[1]), st[2]]; st[0]["#nn:%r" % (r,)] = True
            if not present:
                st = [dict(st[0]), dict(st[1]), st[2]]
                st[1].pop(r, None)
                for k in [k for k, v in st[0].items() if v == r]: st[0].pop(k)
        elif pl and not present and self.static_place(t) is not None:
            st = [dict(st[0]), dict(st[1]), st[2]]; st[0]["#null:" + pl] = True
        if t is not None and t.get("k") == "Mem" and not present and e.get("k") in ("Mem", "Bin") and place(t.get("b")) is not None:
            st = [dict(st[0]), dict(st[1]), st[2]]; st[0]["#is0:%s.%s" % (place(t["b"]), t["n"])] = True
        return st

    def freeze(self, st): return (frozenset(st[0].items()), frozenset(st[1].items()), st[2])

    def analyse(self, f):
        g = self.cfg(f)
        self.name, self.gflag = {}, {}
        self.statics = {v["id"] for s_ in walk(f.body) if s_.get("k") == "Decl" for v in s_["v"] if v.get("static")}
        env, res = {}, {}
        for i, pr in enumerate(f.params):
            t = f.types[pr["t"]]
            if "id" in pr and t.rstrip().endswith("*") and not SMART.match(t):
                env["v%d" % pr["id"]] = ("p", i); res[("p", i)] = ("P", frozenset())
        dmem = set()
        if f.name.startswith("~") and f.cls:
            for q in self.releasing:
                c_, n_ = q.rsplit("::", 1)
                if c_ == f.cls:
                    env["this." + n_] = ("m", n_); res[("m", n_)] = ("D", frozenset(self.releasing[q])); dmem.add(n_)
        canrel = self.can_release(f, g, dmem) if dmem else {}
        init = self.freeze([env, res, frozenset()])
        seen = defaultdict(set)
        work = [(g.entry, init)]
        seen[g.entry.id].add(init)
        ends = []
        steps = 0
        while work:
            n, fz = work.pop()
            steps += 1
            if steps > 20000: self.notes["truncated"] += 1; break
            st = [dict(fz[0]), dict(fz[1]), fz[2]]
            x = n.x
            outs = None
            if n is g.exit or n is g.excexit:
                ends.append((n, st)); continue
            if n.kind == "decl":
                self.taken = None
                r = self.ev(f, x.get("i"), st)
                pl = "v%d" % x["id"]
                st[0].pop("own:" + pl, None)
                i = strip(x.get("i"))
                sp = self.static_place(i) if r is None else None
                if sp in self.gres and f.types[x["t"]].rstrip().endswith("*") if sp is not None and "t" in x else False:
                    r = ("s", sp); self.name[r] = (i.get("n"), f.line)
                    if "#null:" + sp in st[0]: r = None
                    else: st[1][r] = ("S", frozenset(self.gres[sp]))
                if self.taken and not x.get("static") and i is not None and i.get("k") == "Ctor" and SMART.match(i.get("cls", "")):
                    st[0]["own:" + pl] = ("o",) + self.taken
                if x.get("static"):
                    if r is not None: self.handover(f, x, r, st, None)
                else:
                    old = st[0].pop(pl, None)
                    if r is not None: st[0][pl] = r
                    i = strip(x.get("i"))
                    if i is not None and i.get("k") == "Call" and i.get("q") in ACQ_OUT: st[0][pl] = ("s", ("a", id(i)))
            elif n.kind == "eval":
                self.ev(f, x, st)
                if x.get("k") == "Asg":
                    i = strip(x["b"]); pl = place(x["a"])
                    if pl and i is not None and i.get("k") == "Call" and i.get("q") in ACQ_OUT: st[0][pl] = ("s", ("a", id(i)))
                    self.flagset(f, x, st)
            elif n.kind == "init":
                r = self.ev(f, x["e"], st)
                if x.get("f") and x.get("q"):
                    fake = {"k": "Mem", "n": x["f"], "q": x["q"], "ar": 1, "b": {"k": "This"}, "l": x.get("l")}
                    if r is not None: self.store(f, x, fake, r, st)
            elif n.kind == "ret":
                r = self.ev(f, x.get("e"), st)
                if r is not None:
                    s, rel = st[1].get(r, ("?", frozenset()))
                    if s in ("H",):
                        self.acq.setdefault(f.key, set()).update(rel); st[1][r] = ("T", rel)
                    elif s == "P" and r[0] == "p": self.alias[f.key].add(r[1])
                    elif s == "R": self.useof(f, x, r, st)
                e_ = strip(x.get("e"))
                if e_ is not None and e_.get("k") == "Call" and e_.get("q") in ACQ_OUT: pass
            elif n.kind == "switch": self.ev(f, x["c"], st)
            elif n.kind == "branch":
                self.ev(f, x, st)
                outs = []
                for lab, m in n.succ: outs.append((m, self.refine(f, x, st, lab) if lab in (True, False) else st))
                if dmem and strip(x) is not None and strip(x).get("k") in ("Mem", "Un") and not self.own_flag(f, x):
                    y, neg = strip(x), False
                    while y is not None and y.get("k") == "Un" and y.get("op") == "!": y, neg = strip(y["a"]), not neg
                    if y is not None and y.get("k") == "Mem" and (y.get("b") or {}).get("k") == "This":     # another member that is null
                        outs = [(m, self.not_held(s2, dmem, canrel, m) if lab is neg else s2) for (lab, _), (m, s2) in zip(n.succ, outs)]
                if dmem and self.own_flag(f, x): outs = [(m, self.not_held(s2, dmem, canrel, m)) for m, s2 in outs]
            elif n.kind == "dtor" or n.kind == "rdecl": pass
            if outs is None: outs = [(m, st) for _, m in n.succ]
            if n.exc is not None:
                es = [dict(fz[0]), dict(fz[1]), fz[2]]
                for r, (s, rel) in st[1].items():
                    if r in es[1] and s in ("R", "T"): es[1][r] = (s, rel)
                for y in walk(x.get("e") if n.kind in ("init", "ret") else x.get("i") if n.kind == "decl" else x):
                    if y.get("k") != "Call": continue
                    if y.get("q") == "ut_get_status":      # an error status of the units library means that nothing was returned
                        us = [r for r in es[1] if r[0] == "a" and self.name[r][0].startswith("ut_")]
                        if us: es[1].pop(max(us, key=lambda r: self.name[r][1]))
                    for kk in self.p.callee_keys(f, y) if y.get("rp") else ():
                        for i in self.nullthrow.get(kk, ()):
                            if i < len(y.get("a", ())):
                                r = self.rid(es, place(y["a"][i]))
                                if r is not None: es[1].pop(r, None)
                    # acquired inside the throwing expression and handed over there: the new owner releases it
                # releases of members inside the expression count even when a later part throws
                if n.kind != "branch": es[2] = st[2] if len(st[2]) > len(es[2]) else es[2]
                outs = outs + [(n.exc, es)]
            for m, s2 in outs:
                z = self.freeze(s2)
                if z not in seen[m.id]:
                    if len(seen[m.id]) > CAP: self.notes["capped"] += 1; continue
                    seen[m.id].add(z); work.append((m, z))
        ex = [st for n, st in ends if n is g.excexit]
        if ex:
            nt = {i for i in range(len(f.params)) if ("p", i) in res and not any(("p", i) in st[1] for st in ex)}
            if nt: self.nullthrow[f.key] = nt
        if f.d.get("ctor"):
            for n, st in ends:
                if n is not g.exit: continue
                for k, v in st[0].items():
                    if k.startswith("own:") and any(p_.startswith("this.") and r_ == v[1] and "%s::%s" % (f.cls, p_[5:]) in self.releasing for p_, r_ in st[0].items()):
                        self.viol(f, f.body, v[1], "%s (line %s) is released by a local object although the destructor releases it, too" % self.name.get(v[1], ("argument", f.line)))
        cons = self.consumes.get(f.key, {})
        for n, st in ends:
            how = "an exception leaves" if n is g.excexit else "leaving"
            for r, (s, rel) in st[1].items():
                nm, ln = self.name.get(r, ("argument", f.line))
                if s == "H":
                    self.viol(f, f.body, r, "%s acquired at line %s is not released; %s %s" % (nm, ln, how, f.name))
                elif s == "G": self.viol(f, f.body, r, "%s acquired at line %s: the flag that makes the destructor release it is not set; %s %s" % (nm, ln, how, f.name))
                elif s == "D" and n is g.exit: self.viol(f, f.body, r, "member %s is not released on every path through the destructor" % r[1])
                elif s == "M" and n is g.excexit:
                    self.viol(f, f.body, r, "%s (line %s) is held by a member and lost; an exception leaves the constructor" % (nm, ln))
                elif s == "P" and r[1] in cons and (not f.d.get("lam") or f.key in self.deleter_fns):
                    self.viol(f, f.body, r, "argument %d is taken over on some paths but not released; %s %s" % (r[1], how, f.name))
            for (b, n_, q) in st[2]:
                if not q: self.viol(f, f.body, None, "%s is released but still refers to the released object; %s %s" % (n_, how, f.name))
                else: self.viol(f, f.body, None, "member %s is released but stays marked as held, so it is released again; %s %s" % (n_, how, f.name))

    def from_ctor(self, f):
        return any(f.key in self.p.callgraph().get(k, ()) for k, g in self.p.fns.items() if g.d.get("ctor") and g.cls == f.cls)

    def own_flag(self, f, x):
        """a test of a plain member of the object (a flag), or of a member against a constant"""
        x = strip(x)
        while x is not None and x.get("k") == "Un" and x.get("op") == "!": x = strip(x["a"])
        if x is not None and x.get("k") == "Bin" and x["op"] in ("==", "!=", "<", ">", "<=", ">="):
            for a, b in ((x["a"], x["b"]), (x["b"], x["a"])):
                a, b = strip(a), strip(b)
                if a is not None and a.get("k") == "Mem" and (a.get("b") or {}).get("k") == "This" and b is not None and (b.get("cv") is not None or b.get("null") or b.get("k") in ("Null", "Un", "Ref", "Int")): return True
            return False
        return x is not None and x.get("k") == "Mem" and (x.get("b") or {}).get("k") == "This" and not f.type(x).rstrip().endswith("*")

    def can_release(self, f, g, dmem):
        """member -> ids of the CFG nodes from which a release of it can be reached"""
        out = {}
        pred = defaultdict(set)
        for n in g.nodes:
            for _, m in n.succ: pred[m.id].add(n.id)
            if n.exc is not None: pred[n.exc.id].add(n.id)
        for mem in dmem:
            work = []
            for n in g.nodes:
                if n.x is None or not isinstance(n.x, dict): continue
                hit = False
                for y in walk(n.x):
                    nm, a = self.relname(y)
                    a = self.via(f, a)
                    if nm and a is not None and a.get("k") == "Mem" and a.get("n") == mem: hit = True
                    if y.get("k") == "Call" and y.get("rp") and any(self.p.fns[k].cls == f.cls and mem in self.relmembers(k) for k in self.p.callee_keys(f, y)): hit = True
                if hit: work.append(n.id)
            seen = set(work)
            while work:
                for k in pred[work.pop()]:
                    if k not in seen: seen.add(k); work.append(k)
            out[mem] = seen
        return out

    def not_held(self, st, dmem, canrel, m):
        drop = [n for n in dmem if ("m", n) in st[1] and st[1][("m", n)][0] == "D" and m.id not in canrel[n]]
        if not drop: return st
        st = [dict(st[0]), dict(st[1]), st[2]]
        for n in drop: st[1].pop(("m", n))
        return st

    def flagset(self, f, x, st):
        a = strip(x["a"])
        if a is None or a.get("k") != "Mem": return
        base = place(a.get("b"))
        if base is None: return
        b = strip(x["b"])
        k = "#clr:%s.%s" % (base, a["n"])
        if b is not None and b.get("cv") == 0: st[0][k] = True
        else: st[0].pop(k, None)

    def run(self):
        fns = [f for f in self.p.fns.values() if f.body is not None and self.scope(f)]
        self.final = False
        for rnd in range(6):
            before = (len(self.acq), sum(len(v) for v in self.consumes.values()), sum(len(v) for v in self.alias.values()), len(self.nullthrow))
            for f in fns: self.analyse(f)
            if before == (len(self.acq), sum(len(v) for v in self.consumes.values()), sum(len(v) for v in self.alias.values()), len(self.nullthrow)): break
        self.final = True; self.notes.clear()
        for f in fns: self.analyse(f)
        # classes that release a member must not be copied member by member
        return fns
