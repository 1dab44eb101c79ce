"""P23: every header of the library is accepted on its own, in every documented configuration, by both compilers; every operation that the
probes name instantiates in every configuration; and no header emits a strong symbol, so that any number of translation units may include it.
The deciding step is the type checker of the compiler (-fsyntax-only) or the linkage of the emitted IR; nothing is linked or run."""
import os, re, shutil, tempfile
from concurrent.futures import ThreadPoolExecutor
import driver
CONF = [("default", []), ("no printing", ["-DTHEORETICA_NO_PRINT"]), ("no namespace alias", ["-DTHEORETICA_NO_NAMESPACE_ALIAS"]), ("exceptions only", ["-DTHEORETICA_ONLY_EXCEPTIONS"]),
        ("exceptions and errno, no printing", ["-DTHEORETICA_THROW_EXCEPTIONS", "-DTHEORETICA_NO_PRINT"]), ("single precision", ["-DTHEORETICA_FLOAT_PREC"]),
        ("extended precision", ["-DTHEORETICA_LONG_DOUBLE_PREC"]), ("no x86 code", ["-DTHEORETICA_DISABLE_X86"]), ("branchless", ["-DTHEORETICA_BRANCHLESS"]), ("row-first matrices", ["-DTHEORETICA_ROW_FIRST"]), ("OpenMP", ["-fopenmp"])]
INST = [("printing enabled", ["-DPROBE_PRINT"]), ("exceptions only", ["-DTHEORETICA_ONLY_EXCEPTIONS"]), ("exceptions and errno", ["-DTHEORETICA_THROW_EXCEPTIONS"]), ("single precision", ["-DTHEORETICA_FLOAT_PREC"]),
        ("extended precision", ["-DTHEORETICA_LONG_DOUBLE_PREC"]), ("branchless", ["-DTHEORETICA_BRANCHLESS"]), ("row-first matrices", ["-DTHEORETICA_ROW_FIRST"]), ("x86 code, OpenMP", ["-DPROBE_X86", "-fopenmp"])]


def first_error(s):
    m = re.search(r"^(\S+): (?:fatal )?error: (.*)$", s, re.M)
    return (m.group(1), m.group(2)) if m else ("", s.strip()[:200])


def headers(thorough=False, seed=1):
    R = os.path.join(driver.REPO, "src")
    hs = sorted(os.path.relpath(os.path.join(d, f), R) for d, _, fs in os.walk(R) for f in fs if f.endswith(".h"))
    jobs = [(h, n, c, "clang++", "14") for h in hs for n, c in CONF]
    for cc, st in (("g++", "14"), ("g++", "17"), ("clang++", "17")):
        jobs += [(h, n, c, cc, st) for h in (hs if thorough else ["theoretica.h", "theoretica_mini.h", "utility.h"]) for n, c in CONF]
    tmp = tempfile.mkdtemp(prefix="vp_hdr_")
    viol = []; ok = 0; und = []

    def one(j):
        h, n, c, cc, st = j
        r = driver.run([cc, "-std=c++" + st, "-fsyntax-only", "-w", "-I", R, "-x", "c++", "-"] + c, input='#include "%s"\n' % h)
        return j, r

    def odr(nc):
        n, c = nc
        src = os.path.join(tmp, re.sub(r"\W", "_", n) + ".cpp")
        open(src, "w").write("".join('#include "%s"\n' % h for h in (["theoretica.h", "utility.h"] if "-DTHEORETICA_NO_PRINT" not in c else ["theoretica.h"])))
        r = driver.run(["clang++", "-std=c++14", "-w", "-O0", "-S", "-emit-llvm", "-I", R, src, "-o", src + ".ll"] + c)
        if r.returncode: return n, None, r.stderr
        bad = []
        for ln in open(src + ".ll"):
            m = re.match(r"define (?!linkonce_odr|internal|available_externally|weak)(?:dso_local )?.*?(@[\w.$]+)\(", ln)
            if m and "GLOBAL__sub" not in ln: bad.append(m.group(1))
            m = re.match(r"(@[\w.$]+) = (?:dso_local )?(?:local_unnamed_addr )?(?:thread_local )?(?:global|constant) ", ln)
            if m and "llvm." not in m.group(1): bad.append(m.group(1))
        return n, bad, ""
    try:
        seen = set()
        with ThreadPoolExecutor(8) as ex:
            for (h, n, c, cc, st), r in ex.map(one, jobs):
                if r.returncode == 0: ok += 1; continue
                w, e = first_error(r.stderr)
                key = (h, e)
                if key in seen: continue
                seen.add(key)
                viol.append(dict(section="self-contained", label=h, where=w.replace(R, "src") or h, what="including only %s (%s, %s, C++%s) does not compile: %s" % (h, n, cc, st, e)))
            for n, bad, err in ex.map(odr, CONF):
                if bad is None: und.append("linkage (%s): %s" % (n, first_error(err)[1])); continue
                if not bad: ok += 1
                else: viol.append(dict(section="linkage", label=n, where="src", what="headers define strong symbols, two translation units including them cannot be linked (%s): %s" % (n, ", ".join(sorted(set(bad))[:5]))))
        return dict(rule="self-contained headers in %d configurations; no strong symbol defined in a header" % len(CONF), obligations=len(jobs) + len(CONF), discharged=ok, violations=viol, undecided=und, reached=hs, samples=["%s: accepted alone in %d configurations" % (h, len(CONF)) for h in hs[:3]])
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def instantiate(thorough=False, seed=1):
    P = os.path.join(driver.VERIF, "probes"); R = os.path.join(driver.REPO, "src")
    tmp = tempfile.mkdtemp(prefix="vp_inst_")
    jobs = []; viol = []; ok = 0
    try:
        for p in sorted(os.listdir(P)):
            if not re.match(r"P\d+_\w+\.cpp$", p) or p.startswith("P25"): continue   # P25 switches the error mode itself
            head, secs = driver.parse_probe(os.path.join(P, p))
            f = os.path.join(tmp, p)
            open(f, "w").write(driver.tu_text(os.path.join(P, p), head, secs))
            for n, c in INST:
                for cc in (("clang++", "g++") if thorough else ("clang++",)): jobs.append((p, f, n, c, cc))
            if not thorough: jobs.append((p, f, "default", [], "g++"))

        def one(j):
            p, f, n, c, cc = j
            return j, driver.run([cc, "-std=c++14", "-fsyntax-only", "-w", "-I", R, "-I", P, f] + c)
        seen = set()
        with ThreadPoolExecutor(8) as ex:
            for (p, f, n, c, cc), r in ex.map(one, jobs):
                if r.returncode == 0: ok += 1; continue
                # only an error inside the library's own code is an alarm: a call the probes make may legitimately have changed
                inlib = [(m.group(1), m.group(2)) for m in re.finditer(r"^(\S+): (?:fatal )?error: (.*)$", r.stderr, re.M) if "/src/" in m.group(1) and driver.REPO in m.group(1)]
                w, e = inlib[0] if inlib else first_error(r.stderr)
                # does the same probe compile in the reference configuration (clang, default)?  otherwise it is not about the configuration
                base = driver.run(["clang++", "-std=c++14", "-fsyntax-only", "-w", "-I", R, "-I", P, f])
                if base.returncode: continue
                key = (n, cc, w)
                if key in seen: continue
                seen.add(key)
                viol.append(dict(section="instantiation", label="%s %s" % (os.path.splitext(p)[0], n), where=w.replace(R, "src"), what="the operations of %s compile by default but not with %s (%s): %s" % (p, n, cc, e)))
        return dict(rule="every operation named by the probes type-checks in %d configurations" % len(INST), obligations=len(jobs), discharged=ok, violations=viol, undecided=[], reached=[], samples=["%s: %s" % (j[0], j[2]) for j in jobs[:4]])
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


if __name__ == "__main__":
    import time
    for f in (headers, instantiate):
        t = time.time(); r = f()
        for v in r["violations"]: print(v["where"], v["label"], v["what"])
        print(f.__name__, r["obligations"], r["discharged"], r["undecided"], "%.1fs" % (time.time() - t))
