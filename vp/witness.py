"""Type-level witnesses: small programs the compiler must accept or reject against
/repo's current headers.  Nothing is run; the deciding step is the type checker."""
import os, re, subprocess
from concurrent.futures import ThreadPoolExecutor
import common as C

PRE = "".join("#include <%s>\n" % h for h in ("cstdint", "vector", "array", "sstream", "functional", "type_traits", "algorithm", "string_view", "iterator", "limits")) + '#include "bitlib/bitlib.hpp"\n'
WORDS = (("uint8_t", "uint32_t"), ("uint16_t", "uint8_t"), ("uint32_t", "uint64_t"), ("uint64_t", "uint32_t"))


def load(prop):
    """Entries (kind, description, function, file, code, control) of one property."""
    ent, cur, on = [], None, False
    for ln in open(os.path.join(C.VERIF, "harness", "witness.txt")):
        if ln.startswith("## "):
            on = ln.split()[1] == prop
            cur = None
            continue
        if ln.startswith("#") and not ln.startswith("#include"):
            continue
        m = re.match(r"(bad|ok) (.*)$", ln)
        if m:
            d, fn, file = [x.strip() for x in m.group(2).split(" | ")]
            cur = [m.group(1), d, fn, file, "", None]
            if on:
                ent.append(cur)
        elif cur is not None and ln.strip() == "--":
            cur[5] = ""
        elif cur is not None:
            cur[4 if cur[5] is None else 5] += ln
    return ent


def diag(err, fallback):
    """First error located in /repo, else the first error."""
    locs = re.findall(r"^(\S+?):(\d+):(?:\d+:)? (?:fatal )?(?:error|note|  required)[^:]*:? ?(.*)$", err, re.M)
    errs = re.findall(r"^(\S+?):(\d+):(?:\d+:)? (?:fatal )?error: (.*)$", err, re.M)
    msg = errs[0][2] if errs else err.strip()[:200]
    for f, l, _ in errs + locs:
        if f.startswith(C.REPO + "/"):
            return "%s:%s" % (f, l), msg
    m = re.search(r"in instantiation of .*? requested here", err)
    return fallback, msg


def locate(file):
    for root, _, fs in os.walk(os.path.join(C.REPO, "include")):
        if file in fs:
            return os.path.join(root, file)
    return os.path.join(C.REPO, "include", file)


def variants(tier):
    v = [("clang++ c++17", [C.CLANG, "-std=c++17"], True), ("clang++ c++17 BITLIB_HWY", [C.CLANG, "-std=c++17", "-DBITLIB_HWY"], True), ("g++ c++17", ["g++", "-std=c++17"], False), ("clang++ c++20", [C.CLANG, "-std=c++20"], False)]
    if tier == "thorough":
        v += [("g++ c++20", ["g++", "-std=c++20"], False), ("clang++ c++23", [C.CLANG, "-std=c++23"], False)]
    return v


def run(prop, work, tier, seed):
    ents = load(prop)
    findings, n, programs = [], 0, 0
    hasbad = any(e[0] == "bad" for e in ents)
    judged = False  # the rejections have been examined with one compiler
    for vi, (name, cc, full) in enumerate(variants(tier)):
        if judged and not full and not any(e[0] == "ok" for e in ents):
            continue
        pre = os.path.join(work.dir, "pre%d.hpp" % vi)
        with open(pre, "w") as f:
            f.write(PRE)
        base = cc + ["-w"] + C.INC
        pch = pre + (".pch" if "clang" in cc[0] else ".gch")
        r = C.sh(base + ["-x", "c++-header", pre, "-o", pch], timeout=300)
        n += 1
        if r.returncode and prop != "T02":
            continue  # that the headers compile everywhere is T02's obligation
        if r.returncode:
            where, msg = diag(r.stdout, locate("bitlib.hpp"))
            findings.append(dict(kind="rejects-valid", where=where, func="#include <bitlib/bitlib.hpp>", what="the library's headers do not compile with %s: %s" % (name, msg), path=""))
            continue
        inc = ["-include-pch", pch] if "clang" in cc[0] else ["-include", pre]

        def comp(job):
            k, code = job
            src = os.path.join(work.dir, "x%d_%d.cpp" % (vi, k))
            with open(src, "w") as f:
                f.write(code)
            try:
                r = C.sh(base + inc + ["-fsyntax-only", src], timeout=300)
            except subprocess.TimeoutExpired:
                return None, "timeout"
            os.unlink(src)
            return r.returncode, r.stdout

        jobs = []
        # non-clang variants: all snippets for one word type share one translation unit (each in its own namespace)
        for e in ents:
            for W, V in WORDS:
                s = lambda c: c.replace("%W", "std::" + W).replace("%V", "std::" + V)
                if e[0] == "ok":
                    jobs.append((e, W, True, s(e[4])))
                elif not judged:
                    jobs.append((e, W, False, s(e[4])))
                    if e[5]:
                        jobs.append((e, W, None, s(e[5])))
        if judged:
            # one translation unit per word type; split only when it is rejected
            joined, single = [], []
            for W, V in WORDS:
                mine = [j for j in jobs if j[1] == W]
                for k in range(0, len(mine), 12):
                    joined.append(mine[k:k + 12])
            code = ["".join("namespace w%d {\n%s}\n" % (i, j[3]) for i, j in enumerate(b) if "#include" not in j[3]) for b in joined]
            with ThreadPoolExecutor(int(C.JOBS)) as ex:
                res = list(ex.map(comp, enumerate(code)))
            for b, (rc, out) in zip(joined, res):
                if rc == 0:
                    n += len(b)
                    programs += len(b)
                else:
                    single += b
            jobs = single
        judged = True
        with ThreadPoolExecutor(int(C.JOBS)) as ex:
            res = list(ex.map(comp, ((1000 + i, j[3]) for i, j in enumerate(jobs))))
        for (e, W, want, code), (rc, out) in zip(jobs, res):
            if rc is None:
                raise C.Broken("the compiler timed out on '%s'" % e[1])
            programs += 1
            n += 1
            if (rc == 0) == (want is not False):
                continue
            if want is None:
                where, msg = diag(out, locate(e[3]))
                findings.append(dict(kind="rejects-valid", where=where, func=e[2], what="control of '%s' (%s) rejected by %s: %s" % (e[1], W, name, msg), path=code.strip()))
            elif want:
                where, msg = diag(out, locate(e[3]))
                findings.append(dict(kind="rejects-valid", where=where, func=e[2], what="%s (%s) rejected by %s: %s" % (e[1], W, name, msg), path=code.strip()))
            else:
                findings.append(dict(kind="accepts-invalid", where=locate(e[3]), func=e[2], what="%s (%s) accepted by %s" % (e[1], W, name), path=code.strip()))
    return dict(rule="witness programs: valid uses accepted%s" % (", violating programs rejected with an accepted control" if hasbad else ""), instances=n, bad=len(findings), of="%d snippets, %d compilations" % (len(ents), programs), min=0 if findings else 20, findings=findings,
                variants=[v[0] for v in variants(tier)], snippets=["%s: %s" % (e[0], e[1]) for e in ents])


def lint(prop):
    return lambda work, tier, seed: run(prop, work, tier, seed)
