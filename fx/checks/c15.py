"""C15: reading never modifies its input.  Context-sensitive effect analysis: from every read entry point, along all calls, with
constant propagation of the open-mode arguments; no file-modifying operation may be reached."""
import re
from ..ccp import CCP, TOP
from ..prog import walk
from ..extract import AnalysisError

NC_WRITE = 1
# external operations which modify the file system whatever their arguments are
MODIFY = re.compile(r"^(nc_(create\w*|__create\w*|_create\w*|redef|_?_?enddef_create|def_(?!var_endian_query)\w+|put_\w+|rename_\w+|del_\w+|copy_\w+|set_fill|insert_\w+|delete\w*|abort)"
    r"|creat(64)?|unlink(at)?|rename(at2?)?|truncate(64)?|ftruncate(64)?|rmdir|mkdir(at)?|link(at)?|symlink(at)?|chmod|fchmod|chown|utimes?|utimensat|futimens|mkstemps?|mknod|posix_fallocate"
    r"|system|popen|exec[lv]\w*|posix_spawnp?|xmlSave(?!ToBuffer|ToIO)\w*|xmlNewTextWriterFilename|htmlSaveFile\w*|xmlOutputBufferCreateFilename|xmlDocDump|xmlDocFormatDump|H5Fcreate|H5Dwrite|H5Awrite"
    r"|(std|boost)::filesystem::(remove|remove_all|rename|resize_file|copy|copy_file|create_director\w+|create_\w*link|permissions|last_write_time)"
    r"|grib_write_message|grib_index_write|codes_write_message)$")
OSTREAM = re.compile(r"^std::basic_(ofstream|fstream|filebuf)<")
IOS_OUT, IOS_APP, IOS_TRUNC = 16, 1, 32          # libstdc++ values
WRITER_API = ("MetNoFimex::CDMWriter",)
READ_CLASSES = ("MetNoFimex::CDMReader", "MetNoFimex::ChunkReader", "MetNoFimex::ChunkReaderFactory", "MetNoFimex::XMLInput", "MetNoFimex::IoFactory")


def cstr(v): return v[1] if isinstance(v, tuple) and v[0] == "s" else None


class Effects:
    def __init__(self, prog, res):
        self.p = prog; self.res = res
        self.sites = {}
        self.reads = set()
        self.nctx = 0

    # -- what one call does: None (not a file operation), "read", or a text naming the modification
    def effect(self, f, e, args):
        k = e.get("k")
        if k == "Ctor":
            cls = e.get("cls", "")
            if OSTREAM.match(cls) and args and e.get("cm") not in ("copy", "move"):
                return self.stream(cls, args[1] if len(args) > 1 else None)
            if cls.startswith("std::basic_ifstream<") and args and e.get("cm") not in ("copy", "move"):
                return self.instream(args[1] if len(args) > 1 else None)
            return None
        q = e.get("q") or ""
        if e.get("rp"): return None
        n = q if "filesystem" in q else q.split("::")[-1]
        nargs = len(e.get("a", ()))
        if e.get("this") is not None and q.endswith("::open"):
            t = f.type(e["this"]).replace("const ", "")
            if OSTREAM.match(t): return self.stream(t, args[1] if len(args) > 1 else None)
            if t.startswith("std::basic_ifstream<"): return self.instream(args[1] if len(args) > 1 else None)
            return None
        if e.get("this") is not None: return None
        if n in ("nc_open", "nc_open_par", "nc__open", "nc__open_mp", "nc_open_mem"):
            m = args[1] if len(args) > 1 else TOP
            if isinstance(m, int): return "opens a netCDF file writable (%s with mode %d)" % (n, m) if m & NC_WRITE else "read"
            return "opens a netCDF file with a mode that may allow writing"
        if n in ("fopen", "fopen64", "freopen", "fdopen", "gzopen"):
            m = cstr(args[1]) if len(args) > 1 else None
            if m is None: return "opens a file with %s and a mode that may allow writing" % n
            return "read" if m.startswith("r") and "+" not in m else "opens a file with %s(\"%s\")" % (n, m)
        if n in ("open", "open64", "openat") and e.get("ec"):
            i = 2 if n == "openat" else 1
            m = args[i] if len(args) > i else TOP
            if isinstance(m, int): return "read" if m & 3 == 0 and not m & (0o100 | 0o1000) else "opens a file with %s and flags %d" % (n, m)
            return "opens a file with %s and flags that may allow writing" % n
        if n == "mmap" and len(args) > 3:
            if isinstance(args[2], int) and (not args[2] & 2 or (isinstance(args[3], int) and args[3] & 2)): return "read"
            return "maps a file writable"
        if n == "remove" and nargs == 1 and "filesystem" not in q: return "deletes a file (remove)"
        if n == "rename" and nargs != 2: return None
        if "filesystem" not in q and not e.get("ec"): return None
        if MODIFY.match(n): return "calls %s" % n
        return None

    def stream(self, cls, mode):
        if mode is None or mode is TOP or not isinstance(mode, int): return "opens an output stream (%s)" % cls.split("<")[0].split("basic_")[1]
        if "ofstream" in cls or mode & (IOS_OUT | IOS_APP | IOS_TRUNC): return "opens an output stream (%s)" % cls.split("<")[0].split("basic_")[1]
        return "read"

    def instream(self, mode):
        if mode is None: return "read"
        if isinstance(mode, int): return "read" if not mode & (IOS_OUT | IOS_APP | IOS_TRUNC) else "opens an input stream for writing"
        return "opens an input stream with a mode that may allow writing"

    def candidates(self):
        """functions containing file operations, and everything that can call them"""
        import collections
        seed = set()
        for f in self.p.fns.values():
            for c in self.p.calls(f):
                if c.get("k") in ("Call", "Ctor") and self.effect(f, c, [TOP] * max(4, len(c.get("a", ())))) is not None: seed.add(f.key)
                if c.get("k") == "Ctor" and OSTREAM.match(c.get("cls", "")): seed.add(f.key)
        rev = collections.defaultdict(set)
        for a, bs in self.p.callgraph().items():
            for b in bs: rev[b].add(a)
        rel = set(seed); st = list(seed)
        while st:
            k = st.pop()
            for a in rev[k]:
                if a not in rel: rel.add(a); st.append(a)
        self.seed, self.rel = seed, rel


def type_names(p, match):
    """file type names: the literals the factories' type matching compares with, and unusual relatives of them"""
    names = set()
    for k in p.reachable(match):
        f = p.fns[k]
        for x in walk(f.body):
            if x.get("k") == "Str" and re.match(r"^[A-Za-z]\w*$", x.get("v", "")): names.add(x["v"])
    base = set(names) | {"", "netcdf", "nc", "unknown"}
    out = set(base)
    for n in ("nc", "netcdf", "nc4", "grib", "felt", "ncml"): out |= {n + s for s in ("+r", "+w", "+", "+ro", "r", "w", "rw", "_rw", "-rw", "/rw", "+x")}
    return sorted(x for x in out if not x.endswith("+rw"))


def check(ctx, res):
    p = ctx.full
    E = Effects(p, res)
    E.candidates()

    def derives(cls, bases):
        r = p.recs.get(cls)
        return cls in bases or (r is not None and any(b in r.get("allbases", ()) for b in bases))

    # methods introduced by the read-write interface itself: the explicit write access
    rwroots = set()
    for cls in ("MetNoFimex::CDMReaderWriter",):
        r = p.recs.get(cls)
        if r is None: raise AnalysisError("class CDMReaderWriter not found")
        for m in r.get("methods", ()):
            if not m.get("ov"): rwroots.add(m["key"])
    rw = set()
    for k in rwroots: rw |= p.transitive_overriders(k)
    iof = p.recs.get("MetNoFimex::IoFactory")
    if iof is None: raise AnalysisError("class IoFactory not found")
    cr, match, wapi = set(), set(), set()
    for m in iof.get("methods", ()):
        n = m["n"] if "n" in m else ""
        for k in p.transitive_overriders(m["key"]):
            f = p.fns.get(k) or p.decls.get(k)
            nm = f.name if f else n
            if nm == "createReader": cr.add(k)
            elif nm == "matchFileTypeName": match.add(k)
            elif nm in ("createWriter", "createReaderWriter"): wapi.add(k)
    if not cr or not match: raise AnalysisError("reader factories not found")
    names = type_names(p, {k for k in match if k in p.fns})

    ccp = CCP(p, maxdepth=4)
    ccp.handlers = True
    ccp.pin = False
    roots = []
    for f in p.fns.values():
        if f.d.get("host"): continue
        if f.key in rw or f.key in wapi: continue
        cls = f.cls or ""
        if f.key in cr:
            roots.append((f, "factory")); continue
        if cls and derives(cls, READ_CLASSES):
            if derives(cls, WRITER_API): continue
            if (f.d.get("ctor") or f.d.get("dtor")) and derives(cls, ("MetNoFimex::CDMReaderWriter",)): continue   # opened in either mode: reached with its arguments
            roots.append((f, "read interface"))
        elif re.match(r"^std::shared_ptr<MetNoFimex::CDMReader>$", f.ret) and not derives(cls, WRITER_API + ("MetNoFimex::IoFactory",)): roots.append((f, "returns a reader"))
        elif re.search(r"::CDMFileReaderFactory::create$", f.q): roots.append((f, "read interface"))
        elif f.d.get("ec") and re.match(r"^mifi_new_\w*reader\w*$", f.name) and not re.search(r"_rw|writ", f.name): roots.append((f, "C interface"))
        elif f.d.get("ec") and re.match(r"^mifi_(get|fill|nc_get|read|new)_?\w*$", f.name) and not re.search(r"_rw|writ", f.name): roots.append((f, "C interface"))
    res.need("read_entry_points", len(roots), 150)

    parent = {}
    seen = set()
    work = []

    def request(fn, vals, par):
        if fn.key not in E.rel: return
        if vals and isinstance(vals[0], tuple) and vals[0][0] == "sfx":
            if vals[0][1].endswith("+rw"):
                for n in names: _req(fn, [("s", n + vals[0][1])] + list(vals[1:]), par)
                return
            vals = [TOP] + list(vals[1:])
        if fn.key in cr and (not vals or vals[0] is TOP or vals[0] == TOP):
            for n in names: _req(fn, [("s", n)] + list(vals[1:]), par)
            return
        _req(fn, vals, par)

    def _req(fn, vals, par):
        seed = {}
        for prm, v in zip(fn.params, vals):
            if v != TOP and not (isinstance(v, tuple) and v[0] in ("f", "rec", "g")): seed["v%d" % prm["id"]] = v
        key = (fn.key, tuple(sorted((k, repr(v)) for k, v in seed.items())))
        if key in seen: return
        seen.add(key); parent[key] = par
        work.append((fn, seed, key))

    for f, why in roots: request(f, [TOP] * len(f.params), None)
    sites = {}; readsites = set(); ncalls = 0
    cur = [None]

    def on_call(f, e, th, args):
        nonlocal ncalls
        fn, seed, key = cur[0]
        ncalls += 1
        eff = E.effect(f, e, args)
        if eff == "read": readsites.add((f.file, e.get("l"))); return
        if eff is not None:
            sites.setdefault((f.q, eff), (f, e, key)); return
        for kk in p.callee_keys(f, e):
            g = p.fns[kk]
            direct = kk == e.get("f") or e.get("v") or p.MS.match(e.get("q") or "")
            request(g, args if direct else [TOP] * len(g.params), (key, e.get("l")))

    ccp.on_call = on_call
    n = 0
    while work:
        fn, seed, key = work.pop()
        cur[0] = (fn, seed, key)
        n += 1
        if n > 60000: raise AnalysisError("too many contexts")
        ccp.memo.pop((fn.key, key[1], 0), None)
        _, vis = ccp.run(fn, seed)
        for node, _c in vis:
            x = node.x
            if isinstance(x, dict):
                for y in walk(x) if node.kind in ("decl", "eval", "dtor") else ():
                    for dk in (y.get("dt"),):
                        if isinstance(dk, str) and dk in p.fns: request(p.fns[dk], [], (key, node.line))
    for (q, eff), (f, e, key) in sorted(sites.items(), key=lambda kv: kv[0]):
        chain = []
        k = key
        while k is not None and len(chain) < 25:
            fn = p.fns[k[0]]
            cons = ", ".join("%s=%s" % (prm["n"], v[1:-1] if v.startswith("(") else v) for prm in fn.params for kk, v in k[1] if kk == "v%d" % prm["id"])
            par = parent[k]
            chain.append("%s (%s:%s)%s%s" % (fn.q, fn.file, fn.line, " with " + cons if cons else "", "" if par is None else "  <- called at line %s of" % par[1]))
            k = par[0] if par else None
        res.violation("%s: %s" % (q, eff), ["%s: %s %s on a read path" % (f.loc(e), q, eff)] + ["  " + c for c in chain])
    res.count("contexts", n)
    res.count("calls_examined", ncalls)
    res.count("file_type_names", len(names))
    res.need("read_only_open_sites", len(readsites), 4)
    res.samples = ["%s:%s" % x for x in sorted(readsites)]
    res.explanation = ("every call reachable from a read entry point (readers, chunk readers, XML inputs, reader factories, C functions) was examined in every constant context; "
                       "none of them modifies a file; the listed sites open files read-only")
    res.assumptions += ["external libraries asked to open or read a file read-only do not modify it", "a file type ending in +rw is the explicit read-write mode"]
