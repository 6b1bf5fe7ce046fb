#!/usr/bin/env python3
"""check.py <ID> [--tier quick|thorough] : decides one property of /verif/properties.jsonl from /repo's sources."""
import sys, os, json, time, argparse, importlib, traceback
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
VERIF = os.path.dirname(HERE)
from ista.build import AnalysisBroken, REPO
from ista.model import Program
from ista.report import Report

sys.setrecursionlimit(20000)


def load_known():
    p = os.path.join(VERIF, "known-findings.json")
    if not os.path.exists(p):
        return {}
    with open(p) as f:
        d = json.load(f)
    r = {}
    for k in d.get("findings", []):
        r.setdefault(k["property"], {})[k["fingerprint"]] = k
    return r


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("id")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("-v", action="store_true")
    a = ap.parse_args()
    t0 = time.time()
    pid = a.id
    evd = os.path.join(VERIF, "evidence")
    os.makedirs(evd, exist_ok=True)
    try:
        mod = importlib.import_module("rules." + pid)
        P = Program(getattr(mod, "SCOPE", "core") if a.tier == "quick" else getattr(mod, "SCOPE_THOROUGH", getattr(mod, "SCOPE", "core")))
        R = Report(pid)
        mod.run(P, R)
        extra = {}
        if a.tier == "thorough" and hasattr(mod, "thorough"):
            extra = mod.thorough(P, R) or {}
        R.finish()
    except AnalysisBroken as e:
        print("ANALYSIS-BROKEN property=%s: %s" % (pid, e))
        return 3
    except Exception:
        traceback.print_exc()
        print("ANALYSIS-BROKEN property=%s: internal error" % pid)
        return 3
    known = load_known().get(pid, {})
    new = []
    for fp, v in R.viol.items():
        if fp in known:
            print("KNOWN-FINDING: property=%s %s" % (pid, known[fp].get("what", v["message"])))
        else:
            new.append(v)
    from collections import Counter
    cnt = Counter(o[0] for o in R.obs)
    okc = Counter(o[0] for o in R.obs if o[3])
    samples = []
    seen = Counter()
    for o in R.obs:
        if seen[o[0]] < 12:
            seen[o[0]] += 1
            samples.append("%s: %s %s -> %s" % (o[0], o[1], o[2], "ok" if o[3] else "VIOLATED"))
    ev = dict(property=pid, tier=a.tier, seed=int(os.environ.get("VERIF_SEED", "1") or 1), level="other",
              coverage=dict(
                  explanation="Static analysis of the current sources of %s: %d translation units, %d functions with bodies, "
                              "lowered to typed control-flow graphs; %d obligations generated and decided by the rules below." %
                              (REPO, len(P.tus), len(P.funcs), len(R.obs)),
                  translation_units=len(P.tus), functions=len(P.funcs), source_key=P.key,
                  obligations=len(R.obs), discharged=sum(1 for o in R.obs if o[3]),
                  rules=[dict(rule=r, text=t, instances=cnt[r], holding=okc[r]) for r, t in R.rules.items()],
                  samples=samples, notes=R.notes, known_findings=[v["fingerprint"] for v in R.viol.values() if v["fingerprint"] in known],
                  **extra),
              assumptions=getattr(mod, "ASSUME", []), wall_s=round(time.time() - t0, 2), violations=len(new))
    with open(os.path.join(evd, pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    rp = os.path.join(evd, pid + ".violations.json")
    if new:
        with open(rp, "w") as f:
            json.dump(new, f, indent=1)
    elif os.path.exists(rp):
        os.unlink(rp)
    for v in new:
        print("%s: [%s] %s" % (v["where"], v["rule"], v["message"]))
        if v["function"]:
            print("    in %s" % v["function"])
        for s in v["path"]:
            print("    " + s)
        for s in v.get("also", [])[:6]:
            print("    also at " + s)
        if a.v:
            print("    fingerprint: " + v["fingerprint"])
        print("    rule: " + R.rules[v["rule"]])
    print("property=%s obligations=%d discharged=%d units=%d functions=%d known=%d new=%d %.1fs" % (
        pid, len(R.obs), ev["coverage"]["discharged"], len(P.tus), len(P.funcs), len(R.viol) - len(new), len(new), time.time() - t0))
    if new:
        print("VIOLATION property=%s replay=%s" % (pid, os.path.relpath(rp, VERIF)))
        return 1
    return 0


if __name__ == "__main__":
    sys.exit(main())
