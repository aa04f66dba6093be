from ..locks import LockAnalysis, roots, show, base
from collections import Counter, defaultdict


def analysis(ctx, is_target):
    p = ctx.core
    e = ctx.exc
    cache = {}

    def mt(f, x):
        if x is None: return False
        k = (f.key, id(x))
        if k not in cache: cache[k] = bool(e.expr_types(f, x))
        return cache[k]
    a = LockAnalysis(p, is_target, mt)
    r = roots(p)
    a.run(r)
    a.nroots = len(r & a.rel)
    return a


def is_global(nm):
    b = base(nm)
    return b is not None and (b[0] == "G" or nm[0] == "OMP")


def common_lock(a, labels):
    """the process-wide lock held at most of the call sites with these labels"""
    cnt = Counter()
    for sk, ls in a.sites.items():
        if a.site_node[sk][2] not in labels: continue
        for L in ls:
            for nm in L:
                if is_global(nm): cnt[nm] += 1
    return cnt.most_common(1)[0][0] if cnt else None


def report_unlocked(a, res, labels, lock, what):
    n = 0
    for sk, ls in a.sites.items():
        f, x, lab = a.site_node[sk]
        if lab not in labels: continue
        n += 1
        for L in ls:
            if lock is None or lock not in L:
                ch = a.chain(a.parent.get(("site", sk, L)))
                res.violation("unlocked|%s|%s" % (f.q, x["q"]),
                              ["%s:%s: %s calls %s without holding %s" % (f.file, x["l"], f.q, x["q"], show(lock)),
                               "rule: every %s call must hold one process-wide lock; locks held: {%s}" % (what, ", ".join(sorted(map(show, L))))] +
                              ["  reached by: " + c for c in ch])
        if len(res.samples) < 8: res.samples.append("%s:%s %s in %s under %s" % (f.file, x["l"], x["q"], f.q, [sorted(map(show, L)) for L in ls]))
    return n


def leaks(a, res, lock_filter):
    """locks still held when an entry point returns or throws"""
    for ctx, (n, e) in a.memo.items():
        if a.parent.get(ctx) is not None or ctx[1]: continue
        f = a.p.fns[ctx[0]]
        for kind, S in (("normal return", n), ("exception", e)):
            for L in S:
                for nm in L:
                    if lock_filter(nm):
                        res.violation("leak|%s|%s" % (f.q, show(nm)), ["%s:%d: %s can end by %s with lock %s still held" % (f.file, f.line, f.q, kind, show(nm))])
