"""Shared parts of the checks: building the analyser, lowering /repo's headers to
LLVM IR, running an analysis suite, judging its result and writing evidence."""
import fcntl, hashlib, json, os, re, subprocess, sys, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VP_REPO", "/repo")
BUILD = os.path.join(VERIF, "build")
EVID = os.path.join(VERIF, "evidence")
CLANG = "clang++-18"
OPT = "opt-18"
JOBS = str(min(8, os.cpu_count() or 4))


class Broken(Exception):
    """The analysis itself cannot give an answer (exit 2)."""


def sh(cmd, timeout=600, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout, **kw)


def tool():
    """Path of the abstract interpreter; builds it when it is missing or older than its sources."""
    os.makedirs(BUILD, exist_ok=True)
    exe = os.path.join(BUILD, "vpa")
    with open(os.path.join(BUILD, ".lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        r = sh(["make", "-C", os.path.join(VERIF, "tool"), "-j8"], timeout=900)
        if r.returncode or not os.path.exists(exe):
            raise Broken("cannot build the analyser:\n" + r.stdout[-3000:])
    return exe


# instruction sets the vector code is lowered for besides SSE2
VECTOR = {"avx2": (256, ["-march=haswell", "-maes", "-mpclmul"]), "avx512": (512, ["-march=skylake-avx512"])}
INC = ["-I" + os.path.join(REPO, "include"), "-I" + os.path.join(REPO, "utils")]


class Work:
    """Scratch directory of one run."""

    def __init__(self, prop):
        self.dir = os.path.join(BUILD, "run", prop + "." + str(os.getpid()))
        os.makedirs(self.dir, exist_ok=True)
        self.ir = {}

    def close(self):
        for root, dirs, files in os.walk(self.dir, topdown=False):
            for f in files:
                os.unlink(os.path.join(root, f))
            os.rmdir(root)

    # -- IR of one harness under one configuration -------------------------
    def start_ir(self, harness, cfg):
        """cfg: scalar | hwy, optionally with '+raw' (raw word pointers instead of vector iterators)."""
        key = (harness, cfg)
        if key in self.ir:
            return
        out = os.path.join(self.dir, "%s_%s.bc" % (harness.replace(":", "_"), cfg))
        d = []
        harness, _, group = harness.partition(":")
        if group:  # one group of entry points only
            d += ["-DVP_ONLY", "-DVP_G_" + group]
        if cfg.startswith("hwy"):
            d.append("-DBITLIB_HWY")
        d += VECTOR.get(cfg.partition("+")[2], (0, []))[1]
        if "+raw" not in cfg:
            d.append("-DVP_VECITER")
        src = os.path.join(VERIF, "harness", harness + ".cpp")
        log = open(out + ".log", "w")
        cmd = [CLANG, "-std=c++17", "-O1", "-Xclang", "-disable-llvm-passes", "-g", "-w", "-emit-llvm", "-c"] + d + INC + [src, "-o", out + ".raw"]
        self.ir[key] = (subprocess.Popen(cmd, stdout=log, stderr=log), out, cmd)

    def get_ir(self, harness, cfg):
        self.start_ir(harness, cfg)
        p, out, cmd = self.ir[(harness, cfg)]
        if p is not None:
            if p.wait(timeout=600):
                raise Broken("the headers do not compile for %s/%s:\n%s" % (harness, cfg, open(out + ".log").read()[:3000]))
            r = sh([OPT, "-passes=sroa", out + ".raw", "-o", out])
            if r.returncode:
                raise Broken("opt failed: " + r.stdout[:1000])
            self.ir[(harness, cfg)] = (None, out, cmd)
        return out


def run_suite(work, harness, cfg, suite, tier, seed, cap, deadline, width=0):
    ir = work.get_ir(harness, cfg)
    out = os.path.join(work.dir, "res.json")
    cmd = [tool_path(), "--bc", ir, "--suite", suite, "--cfg", cfg.split("+")[0], "--tier", tier, "--seed", str(seed), "--jobs", JOBS,
           "--cap", str(cap), "--deadline", str(deadline), "--out", out]
    cmd += ["--vec", str(VECTOR.get(cfg.partition("+")[2], (128, []))[0])]
    if width:
        cmd += ["-W", str(width)]
    r = sh(cmd, timeout=deadline * 2 + 300)
    try:
        d = json.load(open(out))
    except Exception:
        raise Broken("analyser gave no result for %s/%s (rc=%s): %s" % (suite, cfg, r.returncode, r.stdout[-500:]))
    os.unlink(out)
    agg = {k: 0 for k in ("cases", "skipped", "fallback", "undecided", "paths", "obligations", "discharged", "unknown", "steps", "accel", "subsumed")}
    res = {"suite": suite, "cfg": cfg, "generated": d["generated"], "selected": d["total"], "wall": d["wall"], "findings": [], "funcs": set(), "unknownWhy": set(),
           "undecidedCases": [], "narrowings": set(), "samples": [], "byKind": {}, "fatal": []}
    for w in d["workers"]:
        if "fatal" in w:
            res["fatal"].append(w["fatal"])
            continue
        for k in agg:
            agg[k] += w[k]
        res["findings"] += w["findings"]
        res["funcs"] |= set(w["funcs"])
        res["unknownWhy"] |= set(w["unknownWhy"])
        res["narrowings"] |= set(w["narrowings"])
        res["undecidedCases"] += w["undecidedCases"]
        res["samples"] += w["samples"]
        for k, (a, b) in w["byKind"].items():
            p = res["byKind"].setdefault(k, [0, 0])
            p[0] += a
            p[1] += b
    res.update(agg)
    return res


_tool = None


def tool_path():
    global _tool
    if _tool is None:
        _tool = tool()
    return _tool


def repo_rel(where):
    return where.replace(REPO + "/", "")


def load_known():
    """known_findings.txt: 'known: property=<id> <signature>' suppresses exactly that signature;
    'fixed: ...' lines are history and suppress nothing."""
    known = []
    p = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(p):
        for ln in open(p):
            m = re.match(r"known: property=(\S+) sig=(\S+)(?:\s+(.*))?$", ln.strip())
            if m:
                known.append((m.group(1), m.group(2), m.group(3) or ""))
    return known


def signature(f):
    """Identity of a finding: kind, function and file (line numbers shift with unrelated edits)."""
    fn = re.sub(r"<.*", "", f["func"]).split("(")[0].split(" ")[-1]
    file = os.path.basename(f["where"].split(":")[0])
    return "%s/%s/%s" % (f["kind"], file, fn or "-")


def write_evidence(prop, tier, seed, level, coverage, wall, violations, assumptions):
    os.makedirs(EVID, exist_ok=True)
    ev = {"property": prop, "tier": tier, "seed": seed, "level": level, "coverage": coverage, "assumptions": assumptions, "wall_s": round(wall, 2), "violations": violations}
    tmp = os.path.join(EVID, prop + ".json.%d.tmp" % os.getpid())
    with open(tmp, "w") as f:
        json.dump(ev, f, indent=1, sort_keys=True)
        f.write("\n")
    os.replace(tmp, os.path.join(EVID, prop + ".json"))


def write_replay(prop, findings):
    d = os.path.join(BUILD, "replay")
    os.makedirs(d, exist_ok=True)
    p = os.path.join(d, prop + ".json")
    with open(p, "w") as f:
        json.dump({"property": prop, "findings": findings}, f, indent=1)
        f.write("\n")
    return p
