"""C05: a failing GRIB library call is always reported."""
from ..status import StatusAnalysis, E, unwrap
from ..prog import walk
from .c04 import judge_common, describe, swallowed
LEVEL = "other"
PTR = ("grib_handle_", "codes_handle_", "grib_context_", "grib_iterator_", "codes_iterator_", "grib_multi_handle_new", "grib_index_new", "grib_get_error_message", "grib_get_api_version")
STATUS_IN_PTR = {"grib_handle_delete", "codes_handle_delete", "grib_iterator_delete", "codes_iterator_delete"}
RELEASE = STATUS_IN_PTR | {"grib_multi_handle_delete", "grib_index_delete"}
NOSTATUS = {"grib_check", "codes_check"}
# the data itself and the encoded message: there is no default for these
BULK = ("_array", "_message", "_message_copy", "_data", "_elements")
WRITE = ("grib_set", "codes_set", "grib_write", "codes_write", "grib_multi")


def check(ctx, res):
    p = ctx.core

    def status(n):
        if not n.startswith(("grib_", "codes_")) or n in NOSTATUS or n in RELEASE: return False
        return not n.startswith(PTR)

    def errarg(n):
        return n.startswith(("grib_handle_new_from_file", "codes_handle_new_from_file", "grib_iterator_new", "codes_iterator_new", "grib_index_new", "codes_index_new"))
    sa = StatusAnalysis(ctx, status, errarg, {"grib_check", "codes_check"}, lambda f: True)
    cnt = {"wrap": 0, "err": 0}

    def judge(f, c, name, oc, ev):
        if len(res.samples) < 12: res.samples.append("%s:%s %s in %s: %s" % (f.file, c["l"], name, f.q, ", ".join(sorted({describe(o) for o in oc}))))
        if errarg(name):
            cnt["err"] += 1
            # either the error variable or the returned handle must be tested
            if handle_tested(sa, f, c): return
        if c.get("rp"): cnt["wrap"] += 1
        for kind, text in judge_common(res, "C05", f, c, name, oc, True):
            res.violation("%s|%s|%s" % (kind, f.q, name), "%s:%s: in %s %s" % (f.file, c["l"], f.q, text))
        if any(n.startswith(WRITE) or n.endswith(BULK) for n in name.split("|")):
            for o in oc:
                if o[0] == "normal" and o[1] != E and o[2]:
                    res.violation("write-tolerated|%s|%s" % (f.q, name), "%s:%s: %s continues normally (line %s) although %s failed" % (f.file, c["l"], f.q, o[4], name))
    n = sa.run(judge)
    res.need("grib_status_sites", n, 120)
    handlers(ctx, res, sa, status)
    res.count("sites_through_status_returning_wrappers", cnt["wrap"])
    res.count("error_argument_sites", cnt["err"])
    res.explanation = ("For every call of a GRIB library function that yields a status (as result or through its error argument), all CFG paths from the call are explored under the assumption that the status is an arbitrary non-zero value, "
                       "through checker functions and status-returning wrappers: each path must end in an exception or in the library's fatal check, return the status, or establish by a branch that the call failed (generally or with a specific code) "
                       "and then not use scalar results of the failed call; failed set operations and failed retrievals of the data or the message may not be tolerated. "
                       "No catch handler of the GRIB code that the exception of a failed GRIB call can reach may end in a normal return.")
    res.assumptions = ["GRIB_SUCCESS is 0", "grib_check/codes_check of the library does not return for a non-zero status (it reports and exits)"]


def handlers(ctx, res, sa, status):
    """exceptions thrown because of a GRIB status may not be swallowed inside of the GRIB code"""
    p, exc = ctx.core, ctx.exc
    thrown, base = set(), set()
    for f in p.fns.values():
        if not f.file.startswith("src/io/grib/") or f.body is None: continue
        src = {id(c) for c, _, _ in sa.source_calls(f)}
        if not src: continue
        for c in p.calls(f):
            if any(id(x) in src for a in c.get("a", ()) if a is not None for x in walk(a)) or c.get("f") in p.fns:
                g = p.fns.get(c.get("f"))
                if g is None or g.body is None: continue
                for i, prm in enumerate(g.params):
                    if g.types[prm["t"]].replace("const ", "") not in ("int", "long"): continue
                    if not sa.summary(g, i)[0] and exc.sum.get(g.key): thrown |= set(exc.sum[g.key]); base.add(f.key)
        if f.key not in base:
            # a status tested and turned into an exception in place
            for x in walk(f.body):
                if x.get("k") == "Throw": base.add(f.key); thrown |= {t for t in exc.sum.get(f.key, {}) if t == "std::runtime_error"}
    rev = {}
    for a, bs in p.callgraph().items():
        for b in bs: rev.setdefault(b, set()).add(a)
    fail, st = set(base), list(base)
    while st:
        for a in rev.get(st.pop(), ()):
            if a not in fail: fail.add(a); st.append(a)
    n = 0
    for f in p.fns.values():
        if not f.file.startswith("src/io/grib/") or f.body is None or f.d.get("dtor"): continue
        for s in walk(f.body):
            if s.get("k") != "Try": continue
            if not any(p.callee_keys(f, c) & fail for c in p.calls(f, s["b"])): continue
            for h in s["h"]:
                n += 1
                ht = f.types[h["t"]].replace("const ", "") if "t" in h else None
                if ht is not None and not any(exc.sub(t, ht) for t in thrown): continue
                for nd in sa.cfg(f).nodes:
                    if nd.kind == "catch" and nd.x is h and nd.id in sa.cfg(f).reach:
                        ln = swallowed(sa, f, nd)
                        if ln: res.violation("swallowed|%s|%s" % (f.q, ht or "..."), "%s:%s: the handler for %s in %s can end in a normal return (line %s), although the exception for a failed GRIB call reaches it" % (f.file, h["l"], ht or "...", f.q, ln))
    res.count("handlers_around_grib_calls", n)
    res.coverage["exceptions_for_grib_failures"] = sorted(thrown)


def handle_tested(sa, f, c):
    """is the returned handle (directly or as smart pointer variable/member) compared with null afterwards"""
    pl = None
    for x in walk(f.body):
        if x.get("k") == "Decl":
            for v in x["v"]:
                if v.get("i") is not None and any(y is c for y in walk(v["i"])): pl = ("v", v["id"])
        elif x.get("k") == "Asg" and any(y is c for y in walk(x["b"])): pl = sa.place(x["a"])
        elif x.get("k") == "Call" and x.get("op") == "=" and any(y is c for a in x.get("a", ()) if a is not None for y in walk(a)):
            pl = sa.place(x["this"]) if x.get("this") is not None else sa.place(x["a"][0])
    if pl is None: return False
    for n in sa.cfg(f).nodes:
        if n.kind == "branch" and any(sa.place(y) == pl for y in walk(n.x) if y.get("k") in ("Ref", "Mem")): return True
    return False
