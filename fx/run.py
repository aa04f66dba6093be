"""Entry point:  python3 -m fx.run <property> [--tier quick|thorough]"""
import importlib, json, os, sys, time, traceback
from .extract import AnalysisError, VERIF, REPO, compile_commands
from . import prog as P


class Result:
    def __init__(self, pid):
        self.pid = pid
        self.violations = {}      # key -> text lines
        self.coverage = {}
        self.samples = []
        self.assumptions = []
        self.explanation = ""

    def violation(self, key, text):
        """key identifies the failing construct without line numbers"""
        self.violations.setdefault(key, text if isinstance(text, list) else [text])

    def count(self, name, n): self.coverage[name] = n

    def need(self, name, n, minimum):
        self.coverage[name] = n
        if n < minimum:
            raise AnalysisError("rule instances vanished: %s = %d, expected at least %d" % (name, n, minimum))


class Ctx:
    """lazily built analyses shared by a check run"""

    def __init__(self, tier):
        self.tier = tier
        self._core = None
        self._exc = None

    @property
    def core(self):
        if self._core is None:
            rels = sorted(r for r in compile_commands() if r.startswith("src/"))
            if len(rels) < 120: raise AnalysisError("only %d translation units found" % len(rels))
            self._core = P.Program(rels)
        return self._core

    @property
    def full(self):
        """the library and its Python module"""
        rels = sorted(r for r in compile_commands() if r.startswith(("src/", "modules/python/")))
        if len(rels) < 120: raise AnalysisError("only %d translation units found" % len(rels))
        self._core = P.Program(rels)
        return self._core

    @property
    def exc(self):
        if self._exc is None:
            from .exc import ExcAnalysis
            self._exc = ExcAnalysis(self.core)
        return self._exc


def known_findings(pid):
    p = os.path.join(VERIF, "known_findings.json")
    if not os.path.exists(p): return {}
    with open(p) as f:
        d = json.load(f)
    return {x["key"]: x for x in d.get("findings", []) if x["property"] == pid}


def main(argv):
    pid = argv[0]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in argv: tier = argv[argv.index("--tier") + 1]
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    try:
        mod = importlib.import_module("fx.checks." + pid.lower())
        res = Result(pid)
        ctx = Ctx(tier)
        mod.check(ctx, res)
    except AnalysisError as e:
        print("ANALYSIS-ERROR property=%s %s" % (pid, e))
        return 3
    except Exception:
        traceback.print_exc()
        print("ANALYSIS-ERROR property=%s internal error" % pid)
        return 3
    known = known_findings(pid)
    new = {k: v for k, v in res.violations.items() if k not in known}
    for k in sorted(res.violations):
        if k in known: print("KNOWN-FINDING: property=%s %s" % (pid, known[k]["what"]))
    cov = dict(res.coverage)
    if ctx._core is not None:
        cov["translation_units"] = len(ctx._core.tus)
        cov["functions_in_scope"] = len(ctx._core.fns)
    cov["explanation"] = res.explanation
    cov["samples"] = res.samples[:12]
    cov["known_findings_seen"] = sorted(k for k in res.violations if k in known)
    ev = {"property": pid, "tier": tier, "seed": seed, "level": getattr(mod, "LEVEL", "other"), "coverage": cov,
          "assumptions": res.assumptions, "wall_s": round(time.time() - t0, 2), "violations": len(new)}
    with open(os.path.join(VERIF, "evidence", pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    if new:
        rp = os.path.join(VERIF, "evidence", pid + ".violations.json")
        with open(rp, "w") as f:
            json.dump(new, f, indent=1)
        for k in sorted(new):
            print("-- %s" % k)
            for l in new[k]: print("   " + l)
        print("VIOLATION property=%s replay=%s" % (pid, rp))
        return 1
    print("OK property=%s: %s (%.1fs)" % (pid, ", ".join("%s=%s" % (a, b) for a, b in res.coverage.items() if isinstance(b, int)), time.time() - t0))
    return 0


if __name__ == "__main__":
    sys.exit(main(sys.argv[1:]))
