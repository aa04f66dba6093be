"""Builds the extractor, obtains compile commands, extracts facts for all TUs of /repo (content-hash cached)."""
import hashlib, json, os, shlex, subprocess, sys, tempfile, fcntl
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.path.realpath(os.environ.get("FX_REPO", "/repo"))
CACHE = os.environ.get("FX_CACHE", os.path.join(VERIF, ".cache"))
LLVM = "/usr/lib/llvm-18"


class AnalysisError(Exception):
    pass


def sha(*parts):
    h = hashlib.sha256()
    for p in parts:
        if isinstance(p, str):
            p = p.encode()
        h.update(p)
        h.update(b"\0")
    return h.hexdigest()


def read(p):
    with open(p, "rb") as f:
        return f.read()


def build_tool():
    srcdir = os.path.join(VERIF, "tools", "fxast")
    src = os.path.join(srcdir, "fxast.cpp")
    th = sha(read(src), read(os.path.join(srcdir, "include", "omp.h")))[:16]
    os.makedirs(CACHE, exist_ok=True)
    exe = os.path.join(CACHE, "fxast-" + th)
    with open(os.path.join(CACHE, "tool.lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        if not os.path.exists(exe):
            tmp = exe + ".tmp"
            cmd = ["g++", "-std=c++17", "-O1", "-fno-rtti", "-I" + LLVM + "/include", "-D_GNU_SOURCE", "-D__STDC_CONSTANT_MACROS",
                   "-D__STDC_FORMAT_MACROS", "-D__STDC_LIMIT_MACROS", src, "-o", tmp, "-L" + LLVM + "/lib",
                   "-l:libclang-cpp.so.18.1", "-l:libLLVM-18.so", "-Wl,-rpath," + LLVM + "/lib"]
            r = subprocess.run(cmd, capture_output=True, text=True)
            if r.returncode != 0:
                raise AnalysisError("cannot build fxast: " + r.stderr[-2000:])
            os.rename(tmp, exe)
    return exe, th


def configured_build():
    """A configured build tree with generated headers: /repo/_build, or a private one when that is missing."""
    b = os.path.join(REPO, "_build")
    if os.path.exists(os.path.join(b, "build.ninja")) and os.path.exists(os.path.join(b, "src", "cdm.pb.h")):
        return b
    b = os.path.join(CACHE, "build")
    if not os.path.exists(os.path.join(b, "build.ninja")):
        cmd = ["cmake", "-S", REPO, "-B", b, "-G", "Ninja", "-DCMAKE_BUILD_TYPE=RelWithDebInfo", "-DBUILD_TESTING=ON",
               "-DCMAKE_PROJECT_TOP_LEVEL_INCLUDES=/opt/vp/fimex/skip-mi.cmake", "-DCMAKE_MAKE_PROGRAM=/usr/bin/ninja",
               "-DPython_EXECUTABLE=/usr/bin/python3.12", "-DPYTHON_EXECUTABLE=/usr/bin/python3.12", "-DENABLE_NETCDF=ON",
               "-DENABLE_FELT=ON", "-DENABLE_PROTOBUF=ON", "-DENABLE_ECCODES=ON", "-DENABLE_LOG4CPP=ON", "-DENABLE_FIMEX_OMP=ON",
               "-DENABLE_FORTRAN=ON", "-DENABLE_PYTHON=ON"]
        env = dict(os.environ, CC="/usr/bin/gcc", CXX="/usr/bin/g++", FC="/usr/bin/gfortran")
        r = subprocess.run(cmd, capture_output=True, text=True, env=env)
        if r.returncode:
            raise AnalysisError("cmake failed: " + r.stderr[-2000:])
    r = subprocess.run(["ninja", "-C", b, "src/cdm.pb.h", "src/io/grib/grib_index.pb.h"], capture_output=True, text=True)
    if r.returncode:
        raise AnalysisError("cannot generate headers: " + r.stdout[-2000:])
    return b


def compile_commands():
    b = configured_build()
    r = subprocess.run(["ninja", "-C", b, "-t", "compdb"], capture_output=True, text=True)
    if r.returncode:
        raise AnalysisError("ninja -t compdb failed: " + r.stderr)
    out = {}
    for e in json.loads(r.stdout):
        o = e.get("output", "")
        f = e["file"]
        if not o.endswith(".o") or not f.endswith((".cc", ".c", ".cpp")):
            continue
        if not f.startswith("/"):
            f = os.path.normpath(os.path.join(e["directory"], f))
        f = os.path.realpath(f)
        if not f.startswith(REPO + "/") or "/_build/" in f or f.startswith(b):
            continue
        rel = os.path.relpath(f, REPO)
        if rel.startswith("test/") or "binSrc" in rel or "/test" in rel:
            continue
        if rel in out:
            continue
        toks = shlex.split(e["command"])
        args, i = [], 1
        while i < len(toks):
            t = toks[i]
            if t in ("-o", "-MT", "-MF", "-MQ"):
                i += 2
                continue
            if t in ("-c", "-MD", "-MMD", "-g") or t.startswith("-O") or t.startswith("-W"):
                i += 1
                continue
            if t == toks[-1] or os.path.realpath(os.path.join(e["directory"], t)) == f:
                i += 1
                continue
            if t in ("-isystem", "-I", "-D", "-idirafter", "-include"):
                args += [t, toks[i + 1]]
                i += 2
                continue
            args.append(t)
            i += 1
        args += ["-I" + os.path.join(VERIF, "tools", "fxast", "include"), "-resource-dir", LLVM + "/lib/clang/18", "-w"]
        out[rel] = (e["directory"], args)
    return out


_hcache = {}


def fhash(p):
    if p not in _hcache:
        try:
            _hcache[p] = sha(read(p))[:20]
        except OSError:
            _hcache[p] = "missing"
    return _hcache[p]


def extract(rels=None):
    """-> {rel: path to facts json}; rels: iterable of TU paths relative to the repo or None for all."""
    exe, th = build_tool()
    cc = compile_commands()
    if rels is not None:
        miss = [r for r in rels if r not in cc]
        if miss:
            raise AnalysisError("translation units not found in the build: %s" % miss)
        cc = {r: cc[r] for r in rels}
    fdir = os.path.join(CACHE, "facts")
    os.makedirs(fdir, exist_ok=True)
    res, todo = {}, []
    for rel, (d, args) in cc.items():
        base = os.path.join(fdir, sha(th, d, " ".join(args), rel)[:24])
        ok = False
        try:
            with open(base + ".deps") as f:
                dep = json.load(f)
            ok = all(fhash(p) == h for p, h in dep.items()) and os.path.exists(base + ".json")
        except (OSError, ValueError):
            ok = False
        if ok:
            res[rel] = base + ".json"
        else:
            todo.append((rel, d, args, base))

    def one(t):
        rel, d, args, base = t
        fd, tmp = tempfile.mkstemp(dir=fdir, suffix=".tmp")
        os.close(fd)
        r = subprocess.run([exe, tmp, REPO, d, os.path.join(REPO, rel)] + args, capture_output=True, text=True, cwd=d)
        if r.returncode != 0:
            os.unlink(tmp)
            return rel, None, r.stderr
        with open(tmp) as f:
            data = json.load(f)
        deps = [x for x in data if x["rk"] == "deps"][0]["deps"]
        os.rename(tmp, base + ".json")
        with open(base + ".deps", "w") as f:
            json.dump({p: fhash(p) for p in deps}, f)
        return rel, base + ".json", ""

    if todo:
        with ThreadPoolExecutor(max_workers=min(8, os.cpu_count() or 4)) as ex:
            for rel, p, err in ex.map(one, todo):
                if p is None:
                    raise AnalysisError("cannot parse %s:\n%s" % (rel, err[-3000:]))
                res[rel] = p
    return res


if __name__ == "__main__":
    import time
    t = time.time()
    r = extract()
    print("extracted %d translation units in %.1fs" % (len(r), time.time() - t))
