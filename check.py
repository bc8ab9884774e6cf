#!/usr/bin/env python3
"""check.py PROPERTY [--tier quick|thorough]   decides one property on /repo's current tree.
exit 0: holds; exit 1 + VIOLATION line: broken; exit 2: the check could not be carried out."""
import argparse
import concurrent.futures as cf
import json
import os
import re
import shutil
import sys
import tempfile
import time
import traceback

sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "lib"))
import zv
import specs


def short(s, n=300):
    s = str(s)
    return s if len(s) <= n else s[:n] + "..."


def load_findings():
    p = os.path.join(zv.VERIF, "known_findings.json")
    return json.load(open(p))["findings"] if os.path.exists(p) else []


def matches(f, v):
    for k, pat in f["match"].items():
        if not re.search(pat, str(v.get(k, ""))):
            return False
    return True


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("property")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--only", help="run only this harness or rule")
    a = ap.parse_args()
    pid = a.property
    tier = "thorough" if a.tier == "thorough" else "quick"
    spec = specs.PROPS[pid]
    t0 = time.time()
    deadline = t0 + (840 if tier == "quick" else 6 * 3600)
    os.makedirs(zv.EVID, exist_ok=True)
    os.makedirs(zv.BUILD, exist_ok=True)
    tmp = tempfile.mkdtemp(prefix="run_", dir=zv.BUILD)
    violations, errors, samples = [], [], []
    cov = {"harnesses": {}, "rules": {}, "functions_analysed": []}
    obligations = discharged = 0
    funcs = set()
    try:
        with cf.ThreadPoolExecutor(max_workers=zv.JOBS) as pool:
            prog = zv.Program(tmp)
            hs = [h for h in spec.get("harnesses", []) if not a.only or h.name == a.only]
            if hs:
                res, err = zv.run_harnesses(hs, tier, prog, pool, deadline)
                if err:
                    errors.append(str(err))
                for name, m in sorted(res.items()):
                    n = m["n"]
                    ob = sum(m["checks"].values()) + n["memory_obligations"] + n["shift_obligations"] + n["div_obligations"]
                    bad = sum(v["count"] for v in m["violations"].values())
                    obligations += ob
                    discharged += ob - min(ob, bad)
                    funcs |= m["functions"]
                    cov["harnesses"][name] = {
                        "shards": m["shards"], "abstract_states_split": n["forks"], "abstract_traces": n["paths"],
                        "instructions_interpreted": n["instructions"], "memory_access_obligations": n["memory_obligations"],
                        "memory_access_sites": n["memory_sites"], "shift_obligations": n["shift_obligations"],
                        "division_obligations": n["div_obligations"], "exception_raises_followed": n["throws"],
                        "loop_widenings": n["widenings"], "assertion_obligations": m["checks"], "reachability_witnesses": sorted(m["covers_hit"])}
                    violations += list(m["violations"].values())
                    for i in m["inconclusive"]:
                        errors.append("%s: analysis inconclusive: %s" % (name, i))
                    if not m["violations"] and not m["inconclusive"] and not err:
                        miss = m["covers"] - m["covers_hit"]
                        if miss:
                            errors.append("%s: reachability witnesses not reached (vacuous analysis): %s" % (name, sorted(miss)))
                        if not m["functions"] and not m["covers"]:
                            errors.append("%s: nothing of the runtime was analysed" % name)
                        bad = set(m["externals"]) - specs.EXTERNAL_OK
                        if bad:
                            errors.append("%s: unmodelled external functions %s" % (name, sorted(bad)))
            for rule in spec.get("rules", []):
                if a.only and rule.__name__ != a.only:
                    continue
                r = rule(prog, pool, tier)
                cov["rules"][rule.__name__] = r["coverage"]
                obligations += r["sites"]
                discharged += r["sites"] - min(r["sites"], len(r["violations"]))
                if r["sites"] < r.get("min_sites", 1):
                    errors.append("rule %s matched %d sites, expected at least %d (analysis anchor vanished)" % (rule.__name__, r["sites"], r.get("min_sites", 1)))
                for v in r["violations"]:
                    v.setdefault("kind", "rule")
                    v.setdefault("harness", rule.__name__)
                    v.setdefault("definite", True)
                    v.setdefault("count", 1)
                    violations.append(v)
                funcs |= set(r.get("functions", []))
                samples += r.get("samples", [])
                errors += r.get("errors", [])
    except zv.CheckError as e:
        errors.append(str(e))
    except Exception:
        errors.append(traceback.format_exc())
    finally:
        shutil.rmtree(tmp, ignore_errors=True)

    known = [f for f in load_findings() if f["property"] == pid and f["status"] == "known"]
    new, seen_known = [], {}
    for v in violations:
        k = next((f for f in known if matches(f, v)), None)
        if k is not None:
            seen_known[k["id"]] = k
        else:
            new.append(v)
    for k in known:
        if k["id"] in seen_known:
            print("KNOWN-FINDING: property=%s %s" % (pid, k["what"]))
    cov["functions_analysed"] = [short(f, 160) for f in sorted(funcs)[:1000]]
    cov["function_count"] = len(funcs)
    cov["obligations"] = obligations
    cov["discharged"] = discharged
    cov["checker_cmd"] = "python3 check.py %s --tier %s" % (pid, tier)
    cov["trusted_base"] = specs.TRUSTED
    cov["samples"] = samples[:20]
    cov["explanation"] = spec["explanation"]
    cov["known_findings_seen"] = sorted(seen_known)
    if errors:
        cov["errors"] = [short(e, 600) for e in errors[:10]]
    ev = {"property": pid, "tier": tier, "seed": int(os.environ.get("VERIF_SEED", "1")), "level": spec["level"], "coverage": cov,
          "assumptions": spec.get("assumptions", []) + specs.ASSUMPTIONS, "wall_s": round(time.time() - t0, 2), "violations": len(new)}
    with open(os.path.join(zv.EVID, pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    for e in errors[:8]:
        print("CHECK-ERROR: %s" % short(e, 1500), file=sys.stderr)
    if new:
        new.sort(key=lambda v: (not v["definite"], v["kind"]))
        rp = os.path.join(zv.EVID, pid + ".violation.json")
        with open(rp, "w") as f:
            json.dump({"property": pid, "violations": new}, f, indent=1)
        for v in new[:5]:
            print("%s: [%s] %s\n    in %s\n    found by %s%s" % (v["loc"], v["kind"], short(v["msg"]), short(v.get("function", "?"), 160),
                  v["harness"], " (%d abstract states)" % v["count"] if v["count"] > 1 else ""))
            if v.get("stack"):
                print("    call path: " + " <- ".join(short(x, 100) for x in v["stack"].strip().split("\n")[1:5]))
            if v.get("path"):
                print("    condition: " + short(v["path"][-300:], 300))
        print("VIOLATION property=%s replay=%s" % (pid, rp))
        return 1
    if errors:
        return 2
    print("OK property=%s obligations=%d functions=%d wall=%.1fs" % (pid, obligations, len(funcs), time.time() - t0))
    return 0


if __name__ == "__main__":
    sys.exit(main())
