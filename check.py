#!/usr/bin/env python3
"""check.py <property id>: decide one property on /repo's current tree.

exit 0  every obligation discharged (known findings are printed, not hidden)
exit 1  'VIOLATION property=<id> replay=<path>' for each kind of violation
exit 2  the analysis could not be carried out (a vanished anchor, a tree that does not compile, an engine error)
"""
import importlib, json, os, sys, time, traceback

VERIF = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(VERIF, "sa"))
sys.setrecursionlimit(100000)
import ir


class Ctx:
    def __init__(self, pid, tier, seed):
        self.pid, self.tier, self.seed = pid, tier, seed
        self.obligations = 0
        self.violations = []          # (key, text)
        self.cover = {}
        self.rules = []
        self.samples = []
        self.assume = []
        self.trusted = []
        self.level = "other"
        self.notes = []
        self.undecided = {}

    def ok(self, what=None, n=1):
        self.obligations += n
        if what and len(self.samples) < 12: self.samples.append(what)

    def bad(self, key, text):
        """One undischarged obligation.  key identifies the construct independent of line numbers."""
        self.obligations += 1
        if key not in [k for k, _ in self.violations]: self.violations.append((key, text))

    def undec(self, key, text=""):
        """An obligation the analysis can neither discharge nor refute; recorded, and the level lowered."""
        self.obligations += 1
        self.undecided.setdefault(key, text)

    def need(self, n, at_least, what):
        self.cover[what] = n
        if n < at_least:
            raise ir.Broken("only %d %s analysed, at least %d expected" % (n, what, at_least))

    def rule(self, text): self.rules.append(text)


def known(pid):
    out = {}
    p = os.path.join(VERIF, "known-findings.txt")
    if os.path.exists(p):
        for l in open(p):
            l = l.rstrip("\n")
            if l.startswith("known: property=%s " % pid):
                key, _, what = l[len("known: property=%s " % pid):].partition(" :: ")
                out[key] = what
    return out


FORMS = [("C++17", ["-std=c++17", "-Wno-register"]), ("no assertions", ["-DNDEBUG"]), ("C++17, no assertions", ["-std=c++17", "-Wno-register", "-DNDEBUG"])]


def deeper(mod, ctx):
    """Repeat the analysis on other forms of the same source."""
    import api, inv, life
    base = list(ir.BASE_FLAGS); done = []
    if mod.__name__[-3:] in ("c07", "c17", "c20"): return       # these go through the forms that matter to them anyway
    for name, flags in FORMS:
        ir.BASE_FLAGS[:] = base + flags
        for m in (api._m, life._ops, life._built, life._saved, life._loaded): m.clear()
        ctx.__dict__.pop("_refuted", None)
        inv.DEADLINE += 300
        n, u, v = ctx.obligations, set(ctx.undecided), {k for k, _ in ctx.violations}
        mod.run(ctx)
        done.append("%s: %d obligations, %d more undecided, %d more violations" % (name, ctx.obligations - n, len(set(ctx.undecided) - u), len({k for k, _ in ctx.violations} - v)))
    ir.BASE_FLAGS[:] = base
    ctx.cover["forms of the source analysed"] = ["C++14 with assertions"] + done


def main():
    if len(sys.argv) < 2:
        print(__doc__); return 2
    pid = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--thorough" in sys.argv: tier = "thorough"
    seed = int(os.environ.get("VERIF_SEED", "1"))
    t0 = time.time()
    ctx = Ctx(pid, tier, seed)
    try:
        mod = importlib.import_module("checks." + pid.lower())
        mod.run(ctx)
        if tier == "thorough": deeper(mod, ctx)
    except ir.Broken as e:
        print("BROKEN property=%s %s" % (pid, e)); return 2
    except Exception:
        traceback.print_exc(); print("BROKEN property=%s internal error" % pid); return 2
    kn = known(pid)
    new = [(k, t) for k, t in ctx.violations if k not in kn]
    old = [(k, t) for k, t in ctx.violations if k in kn]
    ev = os.environ.get("SURF_EV") or os.path.join(VERIF, "evidence"); os.makedirs(ev, exist_ok=True)
    cov = dict(ctx.cover)
    cov["obligations"] = ctx.obligations
    cov["discharged"] = ctx.obligations - len(ctx.violations) - len(ctx.undecided)
    if ctx.undecided:
        cov["undecided"] = [{"key": k, "text": t} for k, t in list(ctx.undecided.items())[:40]]
        if ctx.level == "proof": ctx.level = "other"
    cov["rules"] = ctx.rules
    cov["samples"] = ctx.samples
    cov["checker_cmd"] = "python3 check.py " + pid
    cov["trusted_base"] = ["clang 18 front end and the LLVM canonicalisation passes named in sa/ir.py", "sa/*.py of this directory"] + ctx.trusted
    cov["explanation"] = (mod.__doc__ or "").strip()
    if new: cov["violations"] = [{"key": k, "text": t} for k, t in new]
    if old: cov["known_findings"] = [k for k, _ in old]
    json.dump({"property": pid, "tier": tier, "seed": seed, "level": ctx.level, "coverage": cov, "assumptions": ctx.assume,
               "wall_s": round(time.time() - t0, 2), "violations": len(new)}, open(os.path.join(ev, pid + ".json"), "w"), indent=1)
    for k, t in old:
        print("KNOWN-FINDING: property=%s %s" % (pid, kn[k]))
    rp = os.path.join(ev, pid + ".violations.txt")
    if os.path.exists(rp): os.unlink(rp)
    if new:
        with open(rp, "w") as f:
            for k, t in new: f.write("%s\n    %s\n" % (k, t))
        for k, t in new[:12]: print("  %s\n      %s" % (k[:200], t[:400]))
        print("VIOLATION property=%s replay=%s" % (pid, rp))
        return 1
    for k, t in list(ctx.undecided.items())[:6]: print("undecided: %s  %s" % (k[:150], t[:200]))
    print("ok property=%s obligations=%d undecided=%d %s" % (pid, ctx.obligations, len(ctx.undecided), " ".join("%s=%s" % (k, v) for k, v in ctx.cover.items() if isinstance(v, int))))
    return 0


if __name__ == "__main__":
    sys.exit(main())
