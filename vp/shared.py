"""Lint over the IR: which variables with static storage duration the instantiated code of
BitLib owns, and whether every instruction that may write one is guarded, locked or atomic."""
import json, os
import common as C

MODULES = [("algo", "scalar"), ("algo", "hwy"), ("vec", "scalar"), ("vec", "hwy"), ("prim", "scalar")]


def lint(work, tier, seed):
    for h, c in MODULES:
        work.start_ir(h, c)
    kinds, open_, findings, funcs, vars_, acc = {}, set(), {}, 0, 0, 0
    for h, c in MODULES:
        r = C.sh([C.tool_path(), "--bc", work.get_ir(h, c), "--shared-state", os.path.join(C.REPO, "include")])
        if r.returncode:
            raise C.Broken("shared state of %s/%s: %s" % (h, c, r.stdout[-400:]))
        d = json.loads(r.stdout)
        funcs, vars_, acc = funcs + d["functions"], vars_ + d["variables"], acc + d["accesses"]
        open_ |= set(d["open"])
        for k, n in d["kinds"].items():
            kinds[k] = kinds.get(k, 0) + n
        for f in d["findings"]:
            f["suite"] = "%s/%s" % (h, c)
            findings.setdefault((f["where"], f["what"]), f)
    return {"rule": "every write to a variable with static storage duration is part of a guarded initialisation, under a lock, atomic or to thread-local storage",
            "of": "%d functions, %d variables, %d accesses" % (funcs, vars_, acc), "instances": funcs + vars_, "min": 500, "bad": len(findings),
            "variables_by_kind": kinds, "not_followed": sorted(open_), "findings": list(findings.values())}
