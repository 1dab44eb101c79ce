#!/usr/bin/env python3-vt
"""check.py <property> [--thorough]: decide one property on /repo's current tree by static analysis.
exit 0: every decided obligation holds; exit 1 + VIOLATION lines: an obligation is refuted; exit 2: the analysis lost its footing."""
import sys, os, json, time, glob, argparse, subprocess
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, "engine"))
import driver
from collections import Counter

REG = json.load(open(os.path.join(HERE, "registry.json")))
EVID = os.path.join(HERE, "evidence")


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop"); ap.add_argument("--thorough", action="store_true"); ap.add_argument("--only"); ap.add_argument("-v", action="store_true")
    a = ap.parse_args()
    t0 = time.time()
    pid = a.prop
    reg = REG[pid]
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    tier = "thorough" if a.thorough else "quick"
    known = json.load(open(os.path.join(HERE, "known_findings.json")))["findings"]
    known = [k for k in known if k["property"] == pid]
    # the unmodified library header has to be analysable at all
    pre = subprocess.run(["clang++", "-std=c++14", "-fsyntax-only", "-Wno-everything", "-I" + driver.REPO + "/src", "-include", driver.REPO + "/src/theoretica.h", "-x", "c++", "/dev/null"],
                         stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if pre.returncode:
        print("analysis-broken: theoretica.h does not compile\n" + pre.stdout[:800])
        return 2
    results = []
    for grp in reg.get("probes", []):
        files = [os.path.join(HERE, "probes", grp["file"])]
        defs = list(grp.get("defs", []))
        if a.thorough: defs.append("-DTHOROUGH")
        rs = driver.run_probes(files, defs=defs, seed=seed, budget=60.0 if a.thorough else 15.0, maxcases=8000 if a.thorough else 1500, only=a.only)
        for r in rs: r["config"] = grp.get("name", "")
        results += rs
    structural = []
    for mod in reg.get("rules", []):
        m = __import__(mod["module"])
        structural.append(getattr(m, mod["func"])(thorough=a.thorough, seed=seed))
    viol = []; kn = []; und = []; proved = 0; vac = 0; total = 0; cases = 0; fns = 0; ins = 0; samples = []; analysed = set()

    def report(section, label, kind, where, what):
        for k in known:
            if k["section"] == section and k.get("label", label) == label and k.get("kind", kind) == kind:
                kn.append((k, what)); return
        viol.append(dict(section=section, label=label, kind=kind, where=where, what=what))
    for r in results:
        sec = r["name"] + (("@" + r["config"]) if r["config"] else "")
        if r["status"] == "nocompile":
            total += 1
            report(sec, "compile", "compile", r["anchor"], "%s: the operation no longer instantiates: %s" % (r["desc"], r["detail"]))
            continue
        if r["status"] != "ok":
            total += 1
            und.append("%s: %s" % (sec, r["detail"])); continue
        fns += r.get("functions", 0); ins += r.get("instructions", 0)
        analysed.update(r.get("reached", []))
        for c in r["checks"]:
            total += 1; cases += c["cases"]
            if c["verdict"] == "proved": proved += 1
            elif c["verdict"] == "vacuous": vac += 1; proved += 1
            elif c["verdict"] == "undecided": und.append("%s/%s (%s): %s" % (sec, c["label"], c["kind"], c["why"]))
            elif c["verdict"] == "refuted":
                report(sec, c["label"], c["kind"], r["anchor"], "%s: obligation \"%s\" (%s) fails %s" % (r["desc"], c["label"], c["kind"], c["why"]))
            if len(samples) < 12 and c["kind"] == "eq": samples.append("%s/%s: %s" % (sec, c["label"], c["verdict"]))
    rules = []
    for s in structural:
        total += s["obligations"]; proved += s["discharged"]; rules.append(s["rule"])
        und += s.get("undecided", [])
        analysed.update(s.get("reached", []))
        samples += s.get("samples", [])[:6]
        for v in s["violations"]: report(v["section"], v["label"], v.get("kind", "rule"), v["where"], v["what"])
    os.makedirs(EVID, exist_ok=True)
    code = 0
    for k, what in kn: print("KNOWN-FINDING: property=%s %s" % (pid, k["what"]))
    replay = os.path.join(EVID, "%s.violations.txt" % pid)
    if viol:
        with open(replay, "w") as f:
            f.write("property %s, tree %s\nreplay: python3-vt %s/check.py %s\n\n" % (pid, driver.REPO, HERE, pid))
            for v in viol: f.write("%s\n  section %s, label %s\n  %s\n\n" % (v["where"], v["section"], v["label"], v["what"]))
        for v in viol[:25]:
            print("%s: [%s/%s] %s" % (v["where"], v["section"], v["label"], v["what"][:900]))
        print("VIOLATION property=%s replay=%s" % (pid, replay))
        code = 1
    else:
        if os.path.exists(replay): os.remove(replay)
        if total == 0 or proved < 0.5 * total:
            print("analysis-broken: only %d of %d obligations could be decided" % (proved, total))
            code = 2
    ev = dict(property=pid, tier=tier, seed=seed, level="proof", wall_s=round(time.time() - t0, 2),
              coverage=dict(obligations=total, discharged=proved, checker_cmd="python3-vt check.py %s%s" % (pid, " --thorough" if a.thorough else ""),
                            trusted_base=["clang 18 front end and opt's semantics-preserving IR normalisation", "engine/vg.py, engine/decide.py (algebraic value numbering; GF(p), p a 127-bit prime, fingerprints)",
                                          "exact real arithmetic in place of IEEE rounding", "declared axioms of the opaque elementary functions"],
                            explanation=reg.get("explanation", ""), undecided=len(und), undecided_list=und[:40], vacuous=vac, gate_cases=cases, probe_functions=fns, ir_instructions=ins,
                            sections=len(results), rules=rules, samples=samples, repo_functions_reached=len(analysed), repo_functions_sample=sorted(analysed)[:60]),
              violations=len(viol), assumptions=reg.get("assumptions", []))
    json.dump(ev, open(os.path.join(EVID, pid + ".json"), "w"), indent=1)
    print("%s %s: %d obligations, %d discharged, %d undecided, %d known findings, %d violations, %.1fs" % (pid, tier, total, proved, len(und), len(kn), len(viol), time.time() - t0))
    for u in und[:200 if a.v else 8]: print("  undecided: " + u[:300])
    return code


if __name__ == "__main__":
    sys.exit(main())
