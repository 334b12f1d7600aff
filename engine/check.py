"""Driver shared by all checks: runs one rule module, writes evidence, decides the exit code."""
import importlib
import json
import os
import sys
import time
import traceback

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
EVID = os.environ.get("VERIF_EVID") or os.path.join(ROOT, "evidence")
KNOWN = os.path.join(ROOT, "KNOWN_FINDINGS.md")


class Ctx:
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.obl = []          # dicts
        self.scope = {}        # measured counts
        self.notes = []
        self.assume = []
        self.rules = {}
        self.functions = set()
        self.unknown = {}

    # a rule is one sentence; obligations refer to it by name
    def rule(self, name, text):
        self.rules[name] = text

    def ok(self, rule, site, what):
        self.obl.append({"rule": rule, "site": site, "status": "holds", "what": what})

    def bad(self, rule, key, site, what, path=None):
        for o in self.obl:
            if o["status"] == "violated" and o.get("key") == "%s:%s" % (rule, key) and o["site"] == site and o["what"] == what:
                return
        self.obl.append({"rule": rule, "key": "%s:%s" % (rule, key), "site": site, "status": "violated", "what": what,
                         "path": path or []})

    def skip(self, rule, site, why):
        self.obl.append({"rule": rule, "site": site, "status": "undecided", "what": why})

    def count(self, name, n=1):
        self.scope[name] = self.scope.get(name, 0) + n

    def used(self, interp):
        for f in interp.fn_seen:
            self.functions.add(interp.fns[f]["q"])
        for k, v in interp.unknown.items():
            self.unknown[k] = self.unknown.get(k, 0) + v


def known(prop):
    out = {}
    try:
        with open(KNOWN) as f:
            for line in f:
                line = line.strip().lstrip("-* ").strip()
                if line.startswith("known: property=%s " % prop):
                    rest = line[len("known: property=%s " % prop):]
                    if rest.startswith("key="):
                        k, _, text = rest[4:].partition(" ")
                        out[k] = text
    except OSError:
        pass
    return out


def main(argv):
    prop = argv[0]
    tier = "thorough" if "--thorough" in argv or os.environ.get("VERIF_TIER") == "thorough" else "quick"
    try:
        seed = int(os.environ.get("VERIF_SEED", "1"))
    except ValueError:
        seed = 1
    t0 = time.time()
    sys.setrecursionlimit(20000)
    ctx = Ctx(prop, tier, seed)
    try:
        from . import load as loader
        mod = importlib.import_module("rules." + prop.lower())
        prog = loader.load() if getattr(mod, "NEEDS_CPP", True) else None
        mod.run(ctx, prog)
    except Exception:
        traceback.print_exc()
        print("ERROR property=%s the analysis did not finish" % prop)
        return 2
    bad = [o for o in ctx.obl if o["status"] == "violated"]
    good = [o for o in ctx.obl if o["status"] == "holds"]
    und = [o for o in ctx.obl if o["status"] == "undecided"]
    kn = known(prop)
    listed, fresh = [], []
    for o in bad:
        (listed if o["key"] in kn else fresh).append(o)
    seen = {o["key"] for o in listed}
    stale = [k for k in kn if k not in seen]
    per_rule = {}
    for o in ctx.obl:
        r = per_rule.setdefault(o["rule"], {"rule": ctx.rules.get(o["rule"], ""), "holds": 0, "violated": 0, "undecided": 0})
        r[o["status"]] += 1
    os.makedirs(EVID, exist_ok=True)
    cov = {
        "explanation": getattr(mod, "EXPLAIN", "static analysis of the extracted program"),
        "obligations": len(ctx.obl),
        "discharged": len(good),
        "undecided": len(und),
        "rules": per_rule,
        "scope": ctx.scope,
        "functions_analysed": sorted(ctx.functions),
        "undecided_items": [{k: o[k] for k in ("rule", "site", "what")} for o in und[:40]],
        "samples": [{k: o[k] for k in ("rule", "site", "what")} for o in sample(good)],
        "opaque_constructs": dict(sorted(ctx.unknown.items(), key=lambda x: -x[1])[:20]),
        "known_findings_matched": sorted(seen),
        "known_findings_not_seen": stale,
    }
    if prog is not None:
        cov["translation_units"] = prog["tus"]
        cov["functions_extracted"] = len(prog["functions"])
        cov["source_digest"] = prog["key"]
    ev = {"property": prop, "tier": tier, "seed": seed, "level": "other", "coverage": cov,
          "wall_s": round(time.time() - t0, 3), "assumptions": ctx.assume,
          "violations": len(fresh)}
    path = os.path.join(EVID, prop + ".json")
    with open(path, "w") as f:
        json.dump(ev, f, indent=1, sort_keys=True)
        f.write("\n")
    for o in listed:
        print("KNOWN-FINDING: property=%s %s [%s] %s" % (prop, kn[o["key"]], o["site"], o["what"]))
    for n in ctx.notes:
        print("note: " + n)
    print("%s: %d obligations, %d hold, %d undecided, %d violated (%d listed), %d functions, %.1fs" % (
        prop, len(ctx.obl), len(good), len(und), len(bad), len(listed), len(ctx.functions), time.time() - t0))
    for o in und[:40]:
        print("  undecided %s %s: %s" % (o["rule"], o["site"], o["what"]))
    if fresh:
        rp = os.path.join(EVID, prop + ".violation.json")
        with open(rp, "w") as f:
            json.dump({"property": prop, "violations": fresh,
                       "replay": "cd /verif && python3 check.py %s" % prop}, f, indent=1, default=str)
            f.write("\n")
        for o in fresh:
            print("  %s: [%s] %s" % (o["site"], o["rule"], o["what"]))
            print("     key %s" % o["key"])
            for p in o["path"][:12]:
                print("       via %s" % p)
        print("VIOLATION property=%s replay=%s" % (prop, rp))
        return 1
    if not good:
        print("ERROR property=%s nothing was analysed" % prop)
        return 2
    return 0


def sample(good):
    out, seen = [], {}
    for o in good:
        if seen.setdefault(o["rule"], 0) < 3:
            seen[o["rule"]] += 1
            out.append(o)
    return out
