"""P25: the same sites of the same functions report the same code in the three error modes.  Every probe translation unit is compiled
(not optimised, not linked) once per mode; in the IR of each library function the reports are read off: the code handed to the errno
mapping, the stores to errno, the code handed to the exception's constructor, the throws."""
import os, re, shutil, tempfile
from collections import Counter
from concurrent.futures import ThreadPoolExecutor
import driver
MODES = [("errno", []), ("errno and exceptions", ["-DTHEORETICA_THROW_EXCEPTIONS"]), ("exceptions only", ["-DTHEORETICA_ONLY_EXCEPTIONS"])]


def reports(ll):
    out = {}; cur = None
    for ln in open(ll):
        if ln.startswith("define "):
            m = re.search(r"(@\"[^\"]*\"|@[\w.$]+)\(", ln)
            nm = m.group(1).strip('@"') if m else ""
            cur = None
            if re.match(r"_Z(Z*N?K?N?K?)10theoretica", nm) or re.match(r"_ZZ?NK?10theoretica", nm):
                if "14math_exception" not in nm and "th_errcode_to_errno" not in nm: cur = out.setdefault(nm, dict(map=[], loc=0, exc=[], throw=0, other=[]))
        elif cur is not None:
            if ln == "}\n": cur = None; continue
            if "call" not in ln and "invoke" not in ln: continue
            m = re.search(r"@_ZN10theoretica19th_errcode_to_errnoENS_12MATH_ERRCODEE\(i32 [\w ]*?(%?[-\w.]+)\)", ln)
            if m: cur["map"].append(m.group(1) if m.group(1)[0] != "%" else "?")
            if "@__errno_location(" in ln: cur["loc"] += 1
            m = re.search(r"@_ZN10theoretica14math_exceptionC[12]ENS_12MATH_ERRCODE\w*\(.*?, i32 (?:noundef )?(%?[-\w.]+),", ln)
            if m: cur["exc"].append(m.group(1) if m.group(1)[0] != "%" else "?")
            if "@__cxa_throw(" in ln:
                cur["throw"] += 1
                if "@_ZTIN10theoretica14math_exceptionE" not in ln: cur["other"].append("throws something else than math_exception")
    return out


def modes(thorough=False, seed=1):
    P = os.path.join(driver.VERIF, "probes"); R = os.path.join(driver.REPO, "src")
    tmp = tempfile.mkdtemp(prefix="vp_err_")
    jobs = []; viol = []; und = []; ok = 0; ob = 0; reached = set()
    try:
        for p in sorted(os.listdir(P)):
            if not re.match(r"P\d+_\w+\.cpp$", p) or p.startswith("P25"): continue
            head, secs = driver.parse_probe(os.path.join(P, p))
            f = os.path.join(tmp, p)
            open(f, "w").write(driver.tu_text(os.path.join(P, p), head, secs))
            for k, (n, c) in enumerate(MODES): jobs.append((p, f, k, n, c))

        def one(j):
            p, f, k, n, c = j
            ll = "%s.%d.ll" % (f, k)
            r = driver.run(["clang++", "-std=c++14", "-O0", "-w", "-S", "-emit-llvm", "-I", R, "-I", P, f, "-o", ll] + c)
            if r.returncode: return j, None, r.stderr
            q = reports(ll); os.remove(ll)
            return j, q, ""
        res = {}
        with ThreadPoolExecutor(8) as ex:
            for (p, f, k, n, c), q, err in ex.map(one, jobs):
                if q is None:
                    m = re.search(r"error: (.*)", err); ob += 1; und.append("%s (%s): %s" % (p, n, m.group(1) if m else "")); continue
                for nm, r in q.items(): res.setdefault(nm, [None] * 3)[k] = r
        dem = driver.run(["c++filt"], input="\n".join(res)).stdout.split("\n")
        sites = 0
        for nm, d in zip(res, dem):
            rs = res[nm]
            if None in rs or not any(r["map"] or r["loc"] or r["exc"] or r["throw"] for r in rs): continue
            reached.add(d); ob += 1
            a, b, c = rs
            what = None
            if any(r["other"] for r in rs): what = [x for r in rs for x in r["other"]][0]
            elif a["throw"]: what = "throws although exceptions are disabled"
            elif a["loc"] > len(a["map"]): what = "accesses errno outside an error report"
            elif c["loc"]: what = "writes errno although only exceptions are enabled"
            elif b["loc"] > len(b["map"]): what = "accesses errno outside an error report (exceptions enabled)"
            elif Counter(a["map"]) != Counter(b["map"]): what = "reports %s with errno but %s with errno and exceptions" % (a["map"], b["map"])
            elif Counter(b["map"]) != Counter(b["exc"]) or b["throw"] != len(b["exc"]): what = "sets errno for %s but throws %s" % (b["map"], b["exc"])
            elif Counter(a["map"]) != Counter(c["exc"]) or c["throw"] != len(c["exc"]): what = "reports %s with errno but throws %s with exceptions only" % (a["map"], c["exc"])
            sites += len(a["map"])
            if what: viol.append(dict(section="modes", label=d[:120], where=d[:160], what="%s: %s" % (d[:160], what)))
            else: ok += 1
        return dict(rule="same report sites and codes per function in the three error modes (%d functions, %d sites)" % (len(reached), sites), obligations=ob, discharged=ok, violations=viol, undecided=und, reached=sorted(reached), samples=["%s: same reports in three modes" % d[:80] for d in sorted(reached)[:4]])
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


if __name__ == "__main__":
    import time
    t = time.time(); r = modes()
    for v in r["violations"]: print(v["what"])
    print(r["rule"], r["obligations"], r["discharged"], r["undecided"], "%.1fs" % (time.time() - t))
