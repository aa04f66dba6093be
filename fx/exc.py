"""Exception-effect analysis: which exception types may leave a function / statement (memory exhaustion excluded)."""
import re
from collections import defaultdict
from .prog import walk, children

ANY = "*"          # an exception of unknown type

# external functions that may throw something other than std::bad_alloc, with the type they throw
THROWING = [
    (re.compile(r"::at$"), "std::out_of_range"),
    (re.compile(r"^std::(__cxx11::)?(basic_string|basic_string_view)<?.*::(substr|compare|erase|insert|replace)$"), None),  # see special()
    (re.compile(r"^std::(__cxx11::)?sto(i|l|ul|ll|ull|f|d|ld)$"), "std::logic_error"),
    (re.compile(r"^boost::lexical_cast$"), "boost::bad_lexical_cast"),
    (re.compile(r"^(std|boost)::any_cast$"), "std::bad_cast"),
    (re.compile(r"^std::get$"), None),
    (re.compile(r"^std::regex_(search|match|replace)$"), "std::runtime_error"),
    (re.compile(r"^boost::(throw_exception|posix_time::|gregorian::|filesystem::|iostreams::|interprocess::|shared_array|uuids)"), ANY),
    (re.compile(r"^std::filesystem::"), "std::system_error"),
    (re.compile(r"^pybind11::"), ANY),
]
# derived-from facts for external exception types
STD_BASES = {
    "std::out_of_range": ["std::logic_error", "std::exception"], "std::invalid_argument": ["std::logic_error", "std::exception"],
    "std::length_error": ["std::logic_error", "std::exception"], "std::domain_error": ["std::logic_error", "std::exception"],
    "std::logic_error": ["std::exception"], "std::runtime_error": ["std::exception"], "std::range_error": ["std::runtime_error", "std::exception"],
    "std::ios_base::failure": ["std::runtime_error", "std::exception"], "std::system_error": ["std::runtime_error", "std::exception"],
    "std::bad_cast": ["std::exception"], "std::bad_alloc": ["std::exception"], "std::regex_error": ["std::runtime_error", "std::exception"],
    "boost::bad_lexical_cast": ["std::bad_cast", "std::exception"], "std::bad_function_call": ["std::exception"], "std::overflow_error": ["std::runtime_error", "std::exception"],
}


class ExcAnalysis:
    def __init__(self, prog):
        self.p = prog
        self.bases = dict((k, set(v)) for k, v in STD_BASES.items())
        for r in prog.recs.values():
            self.bases[r["cls"]] = set(r.get("allbases", ()))
        self.sum = {}            # fn key -> dict type -> witness (fn, line, text)
        self.captured = set()    # types a handler stored with std::current_exception
        self.recapture = False
        self.rethrowers = set()
        self.solve()

    def sub(self, t, handler):
        """is exception type t caught by handler type"""
        if t == handler: return True
        if t in self.bases:
            b = set(self.bases[t])
            for x in list(b): b |= set(STD_BASES.get(x, ()))
            if handler in b: return True
        return False

    def external(self, f, c):
        """exception types thrown by an external call"""
        q = c.get("q")
        if q is None:
            # indirect call
            return set()
        if c.get("nx") or c.get("ec"): return set()
        nm = re.sub(r"<[^<>]*>", "", q)
        for rx, t in THROWING:
            if rx.search(nm):
                if t is None: continue
                return {t}
        if q.endswith("::substr") and "string" in q:
            a = c.get("a", ())
            if a and a[0] is not None and a[0].get("cv") == 0: return set()
            return {"std::out_of_range"}
        if c.get("k") == "Ctor" and re.match(r"^std::(__cxx11::)?basic_regex", nm):
            a = c.get("a", ())
            # a constant pattern is fixed at build time
            if a and all(x is None or x.get("k") in ("Str", "Int", "Ref") and (x.get("k") != "Ref" or x.get("cv") is not None) for x in a): return set()
            return {"std::regex_error"}
        return set()

    def expr_types(self, f, n, ctx=None):
        """exceptions thrown by evaluating expression n (types -> witness)"""
        out = {}
        for x in walk(n):
            k = x.get("k")
            if k == "Throw":
                if x.get("e") is None:
                    for t, w in (ctx if ctx is not None else {ANY: None}).items(): out.setdefault(t, w or (f, x["l"], "rethrow"))
                else:
                    t = f.types[x["tt"]]
                    t = t.replace("const ", "")
                    if t not in self.bases and x.get("bases"): self.bases[t] = set(x["bases"])
                    out.setdefault(t, (f, x["l"], "throw " + t))
            elif k in ("Call", "Ctor", "Tmp"):
                q = x.get("q")
                if q == "std::current_exception":
                    # an exception stored for later: whatever the enclosing handler may have caught
                    new = {t for t in (ctx if ctx is not None else {ANY: None}) if t not in self.captured}
                    if new: self.captured |= new; self.recapture = True
                    continue
                if q == "std::rethrow_exception":
                    self.rethrowers.add(f.key)
                    for t in self.captured: out.setdefault(t, (f, x["l"], "rethrow of a stored exception"))
                    continue
                if k == "Call" and x.get("nx") and x.get("f") not in self.p.fns: continue
                ks = self.p.callee_keys(f, x)
                for kk in ks:
                    for t, w in self.sum.get(kk, {}).items():
                        out.setdefault(t, (f, x["l"], "call " + self.p.fns[kk].q))
                if k == "Call" or k == "Ctor":
                    if x.get("f") not in self.p.fns:
                        for t in self.external(f, x): out.setdefault(t, (f, x["l"], "call " + (x.get("q") or "?")))
                    if k == "Call" and x.get("f") is None and not ks:
                        t = f.type(x["c"]) if x.get("c") is not None else ""
                        # a plain function pointer that can only hold functions from outside the program is a C library hook
                        if "(" not in t or "<" in t: out.setdefault(ANY, (f, x["l"], "call through a function object of type " + t))
                    if k == "Call" and x.get("op") == "()" and (x.get("q") or "").startswith("std::function"):
                        out.setdefault(ANY, (f, x["l"], "call of a stored std::function"))
            elif k == "Cast" and x.get("ck") == "dyn" and x.get("ref"):
                out.setdefault("std::bad_cast", (f, x["l"], "dynamic_cast to reference"))
        return out

    def stmt_types(self, f, s, ctx=None):
        """exceptions leaving statement s"""
        out = {}
        if s is None: return out
        k = s.get("k")
        if k == "Try":
            body = self.stmt_types(f, s["b"], ctx)
            rest = dict(body)
            for h in s["h"]:
                caught = {}
                if "t" not in h:
                    caught = rest; rest = {}
                    hctx = caught
                else:
                    ht = f.types[h["t"]].replace("const ", "")
                    caught = {t: w for t, w in rest.items() if self.sub(t, ht)}
                    rest = {t: w for t, w in rest.items() if not self.sub(t, ht)}
                    hctx = caught
                hx = self.stmt_types(f, h["b"], hctx) if (caught or "t" not in h or self.ho) else {}
                for t, w in hx.items(): out.setdefault(t, w)
            for t, w in rest.items(): out.setdefault(t, w)
            return out
        if k in ("Expr",):
            return self.expr_types(f, s["e"], ctx)
        if k == "Omp":
            # an exception leaving a parallel region terminates the process; it does not propagate
            if s.get("d", "").startswith("parallel") or "for" in s.get("d", ""): return {}
            return self.stmt_types(f, s.get("b"), ctx)
        for key, c in s.items():
            cs = c if isinstance(c, list) else [c]
            for x in cs:
                if not isinstance(x, dict): continue
                if x.get("k") in STMTS:
                    r = self.stmt_types(f, x, ctx)
                elif key in ("v", "cvd") and x.get("k") not in ("Int",) and "id" in x:
                    r = self.expr_types(f, x["i"], ctx) if x.get("i") is not None else {}
                    if x.get("dt") in self.sum and not self.nx(x.get("dt")):
                        for t, w in self.sum[x["dt"]].items(): r.setdefault(t, (f, x["l"], "destructor"))
                elif "k" in x:
                    r = self.expr_types(f, x, ctx)
                else: r = {}
                for t, w in r.items(): out.setdefault(t, w)
        return out

    ho = True

    def nx(self, key):
        fn = self.p.fns.get(key)
        return bool(fn and fn.d.get("nx"))

    def fn_types(self, f):
        out = {}
        for i in f.d.get("inits", ()):
            if i.get("e") is not None:
                for t, w in self.expr_types(f, i["e"]).items(): out.setdefault(t, w)
        if f.body is not None:
            for t, w in self.stmt_types(f, f.body).items(): out.setdefault(t, w)
        return out

    def solve(self):
        p = self.p
        cg = p.callgraph()
        rev = defaultdict(set)
        for a, bs in cg.items():
            for b in bs: rev[b].add(a)
        self.sum = {k: {} for k in p.fns}
        self.inner = {}
        work = list(p.fns)
        inw = set(work)
        while work:
            k = work.pop(); inw.discard(k)
            f = p.fns[k]
            new = self.fn_types(f)
            if self.recapture:
                self.recapture = False
                for c in self.rethrowers - inw: inw.add(c); work.append(c)
            self.inner[k] = new
            if f.d.get("nx"): new = {}
            if set(new) != set(self.sum[k]):
                merged = dict(self.sum[k])
                for t, w in new.items(): merged.setdefault(t, w)
                if set(merged) != set(self.sum[k]):
                    self.sum[k] = merged
                    for c in rev[k]:
                        if c not in inw: inw.add(c); work.append(c)

    def path(self, f, t, seen=None):
        """call chain witness for exception t leaving f"""
        out, seen = [], set()
        cur = f
        while True:
            w = self.inner.get(cur.key, {}).get(t)
            if w is None or cur.key in seen: break
            seen.add(cur.key)
            out.append("%s:%s (%s) %s" % (cur.file, w[1], cur.q, w[2]))
            if not w[2].startswith("call "): break
            nxt = None
            for c in self.p.calls(cur):
                if c.get("l") == w[1]:
                    for kk in self.p.callee_keys(cur, c):
                        if t in self.sum.get(kk, {}) : nxt = self.p.fns[kk]; break
                if nxt: break
            if nxt is None: break
            cur = nxt
        return out


STMTS = {"Comp", "Decl", "If", "While", "Do", "For", "RFor", "Switch", "Case", "Default", "Break", "Continue", "Null", "Ret", "Try", "Omp", "Label", "Goto", "OtherS", "Expr"}
