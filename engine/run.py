#!/usr/bin/env python3
"""run.py <property id> [--tier quick|thorough]

Analyses /repo's current source for one property, writes evidence/<id>.json and
exits 0 (holds), 1 (VIOLATION line printed) or 2 (no answer)."""
import argparse
import importlib
import json
import os
import sys
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.setrecursionlimit(20000)
import facts  # noqa: E402

EVID = os.environ.get("CARDS_EVIDENCE") or os.path.join(facts.VERIF, "evidence")
KNOWN = os.path.join(facts.VERIF, "known_findings.txt")


class Result:
    def __init__(self, prop, tier):
        self.prop = prop
        self.tier = tier
        self.violations = {}
        self.coverage = {}
        self.assumptions = []
        self.rules = []

    def rule(self, text):
        self.rules.append(text)

    def violation(self, key, message, where, path=None, **extra):
        key = " ".join(str(x) for x in key) if isinstance(key, (tuple, list)) else str(key)
        if key not in self.violations:
            d = {"key": key, "message": message, "where": where}
            if path:
                d["path"] = path
            d.update(extra)
            self.violations[key] = d

    def from_engine(self, eng, prefix=""):
        for k, v in eng.violations.items():
            kk = " ".join(str(x) for x in k) if isinstance(k, tuple) else str(k)
            self.violation(prefix + kk, v["message"], v["where"] + " in " + v["function"], v["path"])
        c = self.coverage
        c["paths_states_explored"] = c.get("paths_states_explored", 0) + eng.nstates
        c["functions_entered"] = c.get("functions_entered", 0) + len(eng.visited_fns)
        c["call_sites_visited"] = c.get("call_sites_visited", 0) + len(eng.visited_calls)

    def count(self, name, n=1):
        self.coverage[name] = self.coverage.get(name, 0) + n

    def obligation(self, text):
        self.coverage.setdefault("obligations_list", []).append(text)


def known():
    out = {}
    if os.path.exists(KNOWN):
        for line in open(KNOWN):
            line = line.strip()
            if line.startswith("known: property="):
                rest = line[len("known: property="):]
                pid, key, what = (rest.split(" | ") + ["", ""])[:3]
                out[(pid.strip(), key.strip())] = what.strip()
    return out


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    a = ap.parse_args()
    t0 = time.time()
    tier = a.tier if a.tier in ("quick", "thorough") else "quick"
    res = Result(a.prop, tier)
    os.makedirs(EVID, exist_ok=True)
    rc = 0
    try:
        mod = importlib.import_module("checks." + a.prop.lower())
        prog = facts.Program(with_gui=getattr(mod, "GUI", False))
        mod.check(prog, res)
        res.coverage.setdefault("translation_units", len(prog.tus))
        res.coverage.setdefault("functions_in_program", len(prog.fns))
    except Exception as e:  # no answer
        traceback.print_exc()
        print("ERROR property=%s %s: %s" % (a.prop, type(e).__name__, e))
        return 2
    kn = known()
    new = []
    for k, v in res.violations.items():
        if (a.prop, k) in kn:
            v["known"] = True
            print("KNOWN-FINDING: property=%s %s (%s)" % (a.prop, kn[(a.prop, k)], v["where"]))
        else:
            new.append(v)
    if "obligations_list" in res.coverage:
        ol = res.coverage.pop("obligations_list")
        res.coverage["obligations_checked"] = len(ol)
        res.coverage["obligation_samples"] = ol[:40]
    res.coverage["explanation"] = ("static analysis of the current source, nothing executed; rules: " +
                                   " | ".join(res.rules))
    ev = {"property": a.prop, "tier": tier, "seed": int(os.environ.get("VERIF_SEED", "1") or 1),
          "level": "other", "coverage": res.coverage, "assumptions": res.assumptions,
          "violations": len(new), "wall_s": round(time.time() - t0, 3)}
    with open(os.path.join(EVID, a.prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1, sort_keys=True, default=str)
    rp = os.path.join(EVID, a.prop + ".violation.json")
    if os.path.exists(rp):
        os.remove(rp)
    if new:
        with open(rp, "w") as f:
            json.dump(new, f, indent=1, default=str)
        for v in new:
            print("%s: %s [%s]" % (v["where"], v["message"], v["key"]))
            for p in v.get("path") or []:
                if isinstance(p, dict):
                    print("    via %s (%s:%s) lines %s" % (p["function"], p["file"], p["line"],
                                                          ",".join(map(str, p["branches"][-8:]))))
                else:
                    print("    %s" % (p,))
        print("VIOLATION property=%s replay=%s" % (a.prop, rp))
        rc = 1
    else:
        print("OK property=%s %s" % (a.prop, {k: v for k, v in res.coverage.items()
                                              if isinstance(v, int)}))
    return rc


if __name__ == "__main__":
    sys.exit(main())
