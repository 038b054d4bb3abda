#!/usr/bin/env python3
"""check.py <PROPERTY> [quick|thorough]: decides one property of BitLib statically.
exit 0 held / exit 1 with a VIOLATION line / exit 2 the analysis is broken."""
import os, sys, time
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import common as C
import props as P


def main():
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    spec = P.PROPS[prop]
    work = C.Work(prop)
    try:
        return decide(prop, tier, seed, spec, work, t0)
    except C.Broken as e:
        print("ANALYSIS-BROKEN property=%s %s" % (prop, e))
        return 2
    finally:
        work.close()


def decide(prop, tier, seed, spec, work, t0):
    th = tier == "thorough"
    total = spec.get("budget", (240, 3000))[1 if th else 0]
    findings, results, notes, rules = [], [], [], []
    jobs = spec.get("suites", [])
    for j in jobs:
        work.start_ir(j["h"], j["cfg"])
    C.tool_path()
    stop = os.environ.get("VP_STOP")  # development only: stop at the first suite with a finding
    for i, j in enumerate(jobs):
        if stop and findings:
            break
        left = total - (time.time() - t0)
        dl = max(10, left / max(1, len(jobs) - i) * 2 if i + 1 < len(jobs) else left)
        r = C.run_suite(work, j["h"], j["cfg"], j["s"], tier, seed, j["cap"][1 if th else 0], min(dl, max(10, left)), j.get("W", 0))
        results.append(r)
        if r["fatal"]:
            raise C.Broken("%s/%s: %s" % (j["s"], j["cfg"], "; ".join(r["fatal"])[:600]))
        if not r["obligations"]:
            raise C.Broken("%s/%s: nothing was analysed (%d selected)" % (j["s"], j["cfg"], r["selected"]))
        for f in r["findings"]:
            if spec.get("kinds") and f["kind"] not in spec["kinds"]:
                continue
            f["suite"] = j["s"] + "/" + j["cfg"]
            findings.append(f)
        print("analysed %s/%s: %d partitions of %d (%d sizes by enumeration, %d undecided, %d skipped), %d paths, %d functions, obligations %d discharged %d, %d loops summarised, %.1fs"
              % (j["s"], j["cfg"], r["selected"], r["generated"], r["fallback"], r["undecided"], r["skipped"], r["paths"], len(r["funcs"]), r["obligations"], r["discharged"], r["accel"], r["wall"]), flush=True)
        for u in sorted(r["unknownWhy"])[:4]:
            print("  not decided: " + u[:220])
    for lint in spec.get("lints", []):
        lr = lint(work, tier, seed)
        rules.append({k: lr[k] for k in lr if k != "findings"})
        findings += lr["findings"]
        print("rule %s: %d instances (%s), %d findings" % (lr["rule"], lr["instances"], lr.get("of", ""), len(lr["findings"])), flush=True)
        if lr["instances"] < lr.get("min", 1):
            raise C.Broken("rule %s matched only %d instances" % (lr["rule"], lr["instances"]))
    # a suite in which nothing could be decided gives no answer
    for r in results:
        if r["undecided"] >= r["selected"] - r["skipped"] and not findings:
            raise C.Broken("%s/%s: no partition could be decided: %s" % (r["suite"], r["cfg"], "; ".join(sorted(r["unknownWhy"])[:3])[:500]))
    known = C.load_known()
    uniq, knownhit = {}, {}
    for f in findings:
        sig = C.signature(f)
        f["sig"] = sig
        hit = [k for k in known if k[0] == prop and k[1] == sig]
        if hit:
            knownhit[sig] = hit[0]
        else:
            uniq.setdefault((f["kind"], f["where"], f.get("func", "")), f)
    for sig, k in sorted(knownhit.items()):
        print("KNOWN-FINDING: property=%s %s %s" % (prop, sig, k[2]))
    viol = list(uniq.values())
    cov = coverage(prop, tier, spec, results, rules, findings)
    C.write_evidence(prop, tier, seed, spec.get("level", "other"), cov, time.time() - t0, len(viol), spec.get("assumptions", P.ASSUME))
    if viol:
        path = C.write_replay(prop, viol)
        for f in viol[:12]:
            print("  %s at %s in %s: %s" % (f["kind"], C.repo_rel(f["where"]), f.get("func", "")[:120], f["what"][:400]))
            if f.get("path"):
                print("     " + f["path"][:500])
        print("VIOLATION property=%s replay=%s" % (prop, path))
        return 1
    print("HELD property=%s %.1fs" % (prop, time.time() - t0))
    return 0


def coverage(prop, tier, spec, results, rules, findings):
    ob = sum(r["obligations"] for r in results) + sum(x["instances"] for x in rules)
    di = sum(r["discharged"] for r in results) + sum(x["instances"] - x.get("bad", 0) for x in rules)
    kinds = {}
    for r in results:
        for k, (a, b) in r["byKind"].items():
            p = kinds.setdefault(k, [0, 0])
            p[0] += a
            p[1] += b
    funcs = sorted(set().union(*[r["funcs"] for r in results])) if results else []
    cov = {
        "explanation": spec["explain"],
        "obligations": ob, "discharged": di,
        "obligations_by_kind": {k: {"obligations": v[0], "discharged": v[1]} for k, v in sorted(kinds.items())},
        "suites": [{"suite": r["suite"], "configuration": r["cfg"], "partitions_possible": r["generated"], "partitions_analysed": r["selected"] - r["skipped"], "partitions_undecided": r["undecided"], "partitions_decided_by_size_enumeration": r["fallback"],
                    "abstract_paths": r["paths"], "instructions_interpreted": r["steps"], "loops_summarised": r["accel"], "seconds": round(r["wall"], 2)} for r in results],
        "functions_analysed": len(funcs), "function_sample": funcs[:40],
        "samples": [s for r in results for s in r["samples"][:2]][:12],
        "undecided": sorted(set(u for r in results for u in r["unknownWhy"]))[:20],
        "rules": rules,
    }
    return cov


if __name__ == "__main__":
    sys.exit(main())
