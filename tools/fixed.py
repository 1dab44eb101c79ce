#!/usr/bin/env python3
"""Development aid: rewrites the "fixed" list of known_findings.json from /repo's fix: commits (never run by a check)."""
import json, os, re, subprocess
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BASE = "dab04b4"
SUBJ = [("P23", r"does not include|it does not include|undeclared when|namespace alias|real is not double"), ("P22", r"tables were only|constants"), ("P25", r"math_exception|what\(\)"),
        ("P11", r"depend only on their own generator"), ("P07", r"out of bounds|past the end|first element of|empty|size of the other operand|larger size|non-triangular|did not check|different size|wrote past"),
        ("P09", r"recursed|null base|reported as a division|converted -inf")]
DIRS = [("autodiff", "P01"), ("algebra/distance", "P27"), ("algebra/transform", "P21"), ("algebra/algebra", None), ("algebra", "P04"), ("complex", "P03"), ("core/dataset", "P18"), ("core", "P26"), ("optimization", "P10"),
        ("calculus/ode", "P13"), ("calculus", "P12"), ("polynomial", "P14"), ("interpolation", "P15"), ("pseudorandom/p", "P16"), ("pseudorandom", "P17"), ("statistics/distr", "P19"), ("statistics", "P18"), ("signal", "P20")]


def prop(s, files):
    f = files[0][4:]
    for p, r in SUBJ[:4]:
        if re.search(r, s): return p
    if f.startswith("algebra/") and re.search(SUBJ[4][1], s): return "P07"
    if f.startswith("core/") and re.search(SUBJ[5][1], s): return "P09"
    for d, p in DIRS:
        if f.startswith(d): return p or ("P05" if re.search(r"solve|LU|lu\b|cholesky|eigen|triangular", s) else "P04")
    return "P26"


out = []
for l in subprocess.run(["git", "-C", "/repo", "log", "--reverse", "--format=%h %s", BASE + ".."], text=True, capture_output=True).stdout.splitlines():
    h, s = l.split(" ", 1)
    if not s.startswith("fix: "): continue
    fs = subprocess.run(["git", "-C", "/repo", "show", "--format=", "--name-only", h], text=True, capture_output=True).stdout.split()
    out.append("fixed: property=%s %s %s" % (prop(s, fs), h, s[5:]))
k = json.load(open(H + "/known_findings.json"))
k["fixed"] = out
json.dump(k, open(H + "/known_findings.json", "w"), indent=1)
print(len(out))
