"""C18: array kernels stay inside their arrays, for every size."""
import re
from ..absint import Interp, Arr, Ptr, Obj, Unsupported, isptr, isfloat, trange
from ..poly import Sym, Poly, ZERO

LEVEL = "other"

# the documented sizes of the array arguments, in terms of the other arguments (by position)
R = "MetNoFimex::reproject::"
FIELD = "infield[ix*iy*iz] outvalues[iz] x y ix iy iz"
LINE = "infieldA[n] infieldB[n] outfield[n] n a b x"
SPEC = {
    "mifi_get_values_f": FIELD, "mifi_get_values_bilinear_f": FIELD, "mifi_get_values_bicubic_f": FIELD,
    "mifi_get_values_nearest_f": LINE, "mifi_get_values_linear_f": LINE, "mifi_get_values_linear_d": LINE, "mifi_get_values_linear_weak_extrapol_f": LINE,
    "mifi_get_values_linear_no_extrapol_f": LINE, "mifi_get_values_linear_const_extrapol_f": LINE, "mifi_get_values_log_f": LINE, "mifi_get_values_log_log_f": LINE,
    "mifi_fill2d_f": "nx ny field[nx*ny] relaxCrit corrEff maxLoop nChanged[1]",
    "mifi_creepfill2d_f": "nx ny field[nx*ny] repeat setWeight nChanged[1]",
    "mifi_creepfillval2d_f": "nx ny field[nx*ny] defaultVal repeat setWeight nChanged[1]",
    "mifi_griddistance": "nx ny lonVals[nx*ny] latVals[nx*ny] gridDistX[nx*ny] gridDistY[nx*ny]",
    "mifi_compute_vertical_velocity": "nx ny nz dx dy gridDistX[nx*ny] gridDistY[nx*ny] ap[nz] b[nz] zs[nx*ny] ps[nx*ny] u[nx*ny*nz] v[nx*ny*nz] t[nx*ny*nz] w[nx*ny*nz]",
    "mifi_points2position": "points[n] n axis[num] num axis_type",
    "mifi_bad2nanf": "pos[n] pos+n badVal", "mifi_nanf2bad": "pos[n] pos+n badVal", "mifi_nand2bad": "pos[n] pos+n badVal",
    "mifi_atmosphere_ln_pressure": "n p0 lev[n] pressure[n]",
    "mifi_atmosphere_sigma_pressure": "n ptop ps sigma[n] pressure[n]",
    "mifi_atmosphere_pressure_sigma": "n ptop ps pressure[n] sigma[n]",
    "mifi_atmosphere_hybrid_sigma_pressure": "n p0 ps a[n] b[n] pressure[n]",
    "mifi_atmosphere_hybrid_sigma_ap_pressure": "n ps ap[n] b[n] pressure[n]",
    "mifi_atmosphere_hybrid_height": "n orog a[n] b[n] height[n]",
    "mifi_barometric_pressure": "n P_b h[n] T_b pressure[n]",
    "mifi_barometric_standard_pressure": "n h[n] pressure[n]",
    "mifi_barometric_height": "n P_b p[n] T_b height[n]",
    "mifi_barometric_standard_altitude": "n p[n] altitude[n]",
    "mifi_ocean_s_g1_z": "n h h_c zeta sigma[n] C[n] z[n]",
    "mifi_ocean_s_g2_z": "n h h_c zeta sigma[n] C[n] z[n]",
    "mifi_omega_to_vertical_wind": "n omega[n] p[n] t[n] w[n]",
    "mifi_omega_to_vertical_wind_f": "n omega[n] p[n] t[n] w[n]",
    "mifi_vertical_wind_to_omega": "n w[n] p[n] t[n] omega[n]",
    R + "reproject_f": "{0..3} projIn infield[ix*iy*iz] xIn[ix] yIn[iy] t1 t2 ix iy iz projOut outfield[ox*oy*iz] xOut[ox] yOut[oy] t3 t4 ox oy",
    R + "get_vector_reproject_matrix_points": "projIn projOut metric x[ox*oy] y[ox*oy] ox oy",
    R + "get_vector_reproject_matrix_field": "projIn projOut x[ox*oy] y[ox*oy] ox oy",
    R + "get_vector_reproject_matrix": "projIn projOut x[ox] y[oy] t1 t2 ox oy",
    R + "vector_reproject_values_by_matrix_f": "matrix=MetNoFimex::reproject::Matrix(sx,sy) u[sx*sy*oz] v[sx*sy*oz] oz",
    R + "vector_reproject_direction_by_matrix_f": "matrix=MetNoFimex::reproject::Matrix(sx,sy) angle[sx*sy*oz] oz",
    R + "vector_reproject_values_f": "projIn projOut u[ox*oy*oz] v[ox*oy*oz] x[ox] y[oy] t1 t2 ox oy oz",
    R + "reproject_values": "projIn projOut x[num] y[num] num",
    "MetNoFimex::CachedVectorReprojection::reprojectValues": "this=MetNoFimex::CachedVectorReprojection(m=MetNoFimex::reproject::Matrix(ox,oy)) u[size] v[size] size",
    "MetNoFimex::CachedVectorReprojection::reprojectDirectionValues": "this=MetNoFimex::CachedVectorReprojection(m=MetNoFimex::reproject::Matrix(ox,oy)) angle[size] size",
    R + "reproject_axes": "projIn projOut xIn[ix] yIn[iy] ix iy x[ix*iy] y[ix*iy]",
}
# array arguments of library functions: position of the array and of its length
EXTERN = {"proj_trans_generic": ((2, 4), (5, 7)), "pj_transform": ((4, 2), (5, 2), (6, 2))}
MAXDIM = 2 ** 20


def split(s):
    """comma separated parts outside of brackets"""
    out = [""]; d = 0
    for c in s:
        d += (c in "([") - (c in ")]")
        if c == "," and d == 0: out.append("")
        else: out[-1] += c
    return [x for x in out if x]


def cases(spec):
    """a parameter {0..n} selects a variant: the kernel is analysed once for every value (in parallel), and once for all larger values"""
    m = re.search(r"{0\.\.(\d+)}", spec)
    return int(m.group(1)) + 1 if m else 1


def bind(f, spec, case=None):
    """parameter values for the documented sizes: (values or None, objects to construct [(parameter or "this", class, arguments)])"""
    words = spec.split()
    this = words.pop(0) if words[0].startswith("this=") else None
    if len(words) != len(f.params): return None
    used = set()
    for m in re.finditer(r"\[([\w*]+)\]", spec): used |= {x for x in m.group(1).split("*") if not x.isdigit()}
    for w in words:
        if "+" in w: used.add(w.split("+")[1])
    def leaves(w):
        for x in split(w[w.index("(") + 1:-1]):
            if "=" in x and "(" in x: leaves(x)
            elif re.match(r"\w+$", x): used.add(x)
    for w in words + ([this] if this else []):
        if "=" in w and "(" in w: leaves(w)
    env = {}
    for u in used:
        m = re.search(r"\b%s>=(\d+)" % u, spec)
        env[u] = Poly.of(Sym(u, int(m.group(1)) if m else 0, MAXDIM))
    words = [re.sub(r">=\d+$", "", w) for w in words]
    def array(w, name=None):
        nm, sz = re.match(r"(\w+)\[(.*)\]$", w).groups()
        n = Poly.of(1)
        for x in sz.split("*"): n = n * (env[x] if x in env else Poly.of(int(x)))
        env["&" + nm] = Arr(name or nm, size=n, unit=1, input=True)
        return Ptr(env["&" + nm], ZERO)
    def plan(w):
        cls, args = re.match(r"\w+=([\w:]+)\((.*)\)$", w).groups()
        return cls, [plan(x) if "=" in x else array(x) if "[" in x else env.get(x) for x in split(args)]
    out = [None] * len(words); build = []
    if this: build.append(("this",) + plan(this))
    for i, w in enumerate(words):
        t = f.types[f.params[i]["t"]]
        if w in env: out[i] = env[w]
        elif w[0] == "{":
            out[i] = Poly.of(case) if case is not None and case < cases(spec) - 1 else Poly.of(Sym(f.params[i]["n"], case or 0, 2 ** 31 - 1))
        elif "=" in w: build.append((i,) + plan(w))
        elif "[" in w: out[i] = array(w, f.params[i]["n"])
        elif isfloat(t): out[i] = Poly.of(Sym(f.params[i]["n"], isint=False))
        elif trange(t) is not None and "&" not in t:
            r = trange(t); out[i] = Poly.of(Sym(f.params[i]["n"], r[0], r[1]))
    for i, w in enumerate(words):
        if "+" in w:
            nm, n = w.split("+"); out[i] = Ptr(env["&" + nm], env[n])
    return out, build


def extern(it, f, e, st):
    out = []
    n = (e.get("q") or "").rsplit("::", 1)[-1]
    for s, vs in it.evs(f, e["a"], st):
        for a, c in EXTERN[n]:
            if a < len(vs) and isinstance(vs[a], Ptr) and isinstance(vs[c], Poly): it.span(f, e, s, vs[a], vs[c], "the part %s() transforms" % n)
        it.havoc(f, s, e["a"], vs, e)
        if trange(f.type(e)) is not None and isinstance(vs[EXTERN[n][0][1]], Poly) and trange(f.type(e))[0] == 0:
            r = Poly.of(Sym("result of " + n, 0, None, exact=True))       # number of points transformed
            s = s.copy().add(vs[EXTERN[n][0][1]] - r)
        else: r = it.fresh("result of " + n, f.type(e), exact=True)
        out.append((s, r))
    return out


TIME = 420   # seconds for one kernel; what takes longer is reported as not analysed


def kernel(p, f, case=None):
    """analyse one kernel: ({(location, obligation): (proved, violations, undecided, function)}, reason it was not analysed, functions analysed, steps)"""
    b = bind(f, SPEC[f.q], case)
    if b is None: return {}, "its parameters have changed", 0, 0
    b, build = b
    it = Interp(p, calls={k: extern for k in EXTERN})
    def make(st, name, cls, args):
        """the states in which an object has been constructed"""
        c = next((g for g in p.fns.values() if g.d.get("cls") == cls and g.name == cls.rsplit("::", 1)[-1] and len(g.params) == len(args) and g.body is not None), None)
        if c is None: raise Unsupported("constructor of %s not found" % cls)
        sts = [(st, [])]
        for a, prm in zip(args, c.params):
            nxt = []
            for s, vs in sts:
                if isinstance(a, tuple): nxt += [(s2, vs + [o]) for s2, o in make(s, prm["n"], *a)]
                else: nxt.append((s, vs + [a if a is not None else it.unknown(prm["n"], c.types[prm["t"]], exact=True)]))
            sts = nxt
        out = []
        for s, vs in sts:
            o = Obj(Arr(name, cls=cls))
            out += [(s2, o) for s2, _ in it.inline(c, vs, o, s)]
        return out
    def setup(st, fr):
        sts = [st]
        for i, cls, args in build:
            nxt = []
            for s in sts:
                for s2, o in make(s, "this" if i == "this" else f.params[i]["n"], cls, args):
                    s2.env[(fr, "this" if i == "this" else f.params[i]["id"])] = o
                    nxt.append(s2)
            sts = nxt
        return it.joins(sts)
    why = None
    try: it.run(f, b, setup=setup)
    except (Unsupported, RecursionError) as e: why = str(e)
    except TimeoutError: why = "took too long"
    return {k: (v[0], [str(x) for x in v[1][:3]], [str(x) for x in v[2][:3]], v[3]) for k, v in it.obl.items()}, why, len(it.funcs), it.steps


def pool(todo, job, jobs=8):
    """run job(x) for every x in todo in child processes: {x: result or error text}"""
    import os, pickle, select, signal, time, traceback
    out = {}; run = {}
    todo = list(todo)
    while todo or run:
        while todo and len(run) < jobs:
            x = todo.pop(0)
            r, w = os.pipe()
            pid = os.fork()
            if pid == 0:
                os.close(r)
                def late(*a): raise TimeoutError()
                signal.signal(signal.SIGALRM, late); signal.alarm(TIME)
                t0 = time.time()
                try: v = job(x) + (time.time() - t0,)
                except BaseException: v = ({}, "internal error: " + traceback.format_exc()[-1500:], 0, 0, 0)
                with os.fdopen(w, "wb") as fo: pickle.dump(v, fo)
                os._exit(0)
            os.close(w); run[r] = (x, pid, b"")
        for r in select.select(list(run), [], [])[0]:
            d = os.read(r, 1 << 20)
            x, pid, buf = run[r]
            if d: run[r] = (x, pid, buf + d); continue
            os.close(r); os.waitpid(pid, 0); del run[r]
            out[x] = pickle.loads(buf) if buf else ({}, "the analysis ended early", 0, 0, 0)
    return out


FIRST = (R + "reproject_f", "mifi_fill2d_f")


def check(ctx, res, only=None, verbose=False):
    p = ctx.core
    fns = {f.q: f for f in p.fns.values() if f.q in SPEC and f.body is not None and (not only or f.q in only)}
    order = [(q, k if cases(SPEC[q]) > 1 else None) for q in [q for q in FIRST if q in fns] + [q for q in sorted(fns) if q not in FIRST] for k in range(cases(SPEC[q]))]
    rs = pool(order, lambda x: kernel(p, fns[x[0]], x[1]))
    obl = {}; bad = []; inl = 0
    for q, case in order:
        o, why, nf, steps, t = rs[(q, case)]
        inl += nf
        if verbose: print("%-50s %5.1fs steps %d %s" % (q, t, steps, why or ""), flush=True)
        if why: bad.append("%s (%s)" % (q, why))
        for k, (ok, viol, und, fq) in o.items():
            x = obl.setdefault(k, [0, [], [], fq])
            x[0] += ok; x[1] += [(q, w) for w in viol]; x[2] += [(q, w) for w in und]
    und = []
    for (loc, what), (ok, viol, undec, fq) in sorted(obl.items()):
        if viol:
            res.violation("%s:%s:%s" % (loc.split(":")[0], fq, what), ["%s: %s: %s does not hold, for example for %s with %s" % (loc, fq, what, viol[0][0], viol[0][1])])
        elif undec: und.append("undecided: %s %s: %s" % (loc, fq, what))
        if verbose and (viol or undec): print(loc, fq, what, "proved", ok, "violated", len(viol), viol[:1], "undecided", len(undec), undec[:1])
    res.need("kernels", len(fns), 1 if only else 20)
    res.count("kernel_calls_analysed", len(order) - len(bad)); res.count("functions_inlined", inl); res.count("obligations", len(obl))
    res.count("obligations_proved", len(obl) - len(und) - len(res.violations)); res.count("obligations_undecided", len(und))
    res.samples = bad + und
    res.explanation = EXPL


EXPL = """Every listed kernel is evaluated over symbolic sizes (each dimension any integer from 0 to 2^20, arrays exactly as long as documented) by a
path-sensitive relational abstract interpretation: values are linear/polynomial expressions over the sizes, loops are summarised by their induction
variables, helper functions, lambdas, virtual methods and constructors are inlined, and every element access, block copy and call that receives a
pointer with a length is an obligation 0 <= index < size decided by rational linear arithmetic over products of sizes. An obligation is reported only
with concrete sizes on a path whose conditions are all exact; what the domain cannot decide is listed as undecided and does not raise an alarm."""
