"""P22: the values the compiler puts in the initialisers of the library's constants and quadrature tables,
read from the IR of a translation unit that only names them, against the definition evaluated to 60 digits."""
import os, re, struct, subprocess, tempfile, shutil
from concurrent.futures import ThreadPoolExecutor
import mpmath as mp
import driver
mp.mp.dps = 60
CONST = dict(PHI=lambda: (1 + mp.sqrt(5)) / 2, INVPHI=lambda: (mp.sqrt(5) - 1) / 2, PI=lambda: mp.pi, PI2=lambda: mp.pi / 2, PI4=lambda: mp.pi / 4, PIDOUBLE=lambda: 2 * mp.pi,
             TAU=lambda: 2 * mp.pi, INVPI=lambda: 1 / mp.pi, SQRTPI=lambda: mp.sqrt(mp.pi), E=lambda: mp.e, LOG2E=lambda: 1 / mp.log(2), LOG210=lambda: mp.log(10) / mp.log(2),
             LOG10E=lambda: 1 / mp.log(10), LN2=lambda: mp.log(2), LN10=lambda: mp.log(10), DEG2RAD=lambda: mp.pi / 180, RAD2DEG=lambda: 180 / mp.pi, SQRT2=lambda: mp.sqrt(2),
             INVSQR2=lambda: 1 / mp.sqrt(2), SQRT3=lambda: mp.sqrt(3))
MANT = dict(float=24, double=53, x86_fp80=64)
# macro -> (constant that carries it, C type, override)
CFG = [("ALGEBRA_ELEMENT_TOL", "real"), ("ALGEBRA_EIGEN_TOL", "real"), ("ALGEBRA_EIGEN_ITER", "real"), ("CORE_TAYLOR_ORDER", "int"), ("CALCULUS_INTEGRAL_STEPS", "int"), ("CALCULUS_INTEGRAL_TOL", "real"),
       ("OPTIMIZATION_TOL", "real"), ("OPTIMIZATION_BISECTION_ITER", "unsigned"), ("OPTIMIZATION_GOLDENSECTION_ITER", "unsigned"), ("OPTIMIZATION_HALLEY_ITER", "unsigned"),
       ("OPTIMIZATION_NEWTON_ITER", "unsigned"), ("OPTIMIZATION_STEFFENSEN_ITER", "unsigned"), ("OPTIMIZATION_CHEBYSHEV_ITER", "unsigned"), ("OPTIMIZATION_OSTROWSKI_ITER", "unsigned"),
       ("OPTIMIZATION_JARRAT_ITER", "unsigned"), ("STATISTICS_TRYANDCATCH_ITER", "unsigned"), ("CALCULUS_DERIV_STEP", "real"), ("OPTIMIZATION_MINGRAD_GAMMA", "real"),
       ("OPTIMIZATION_MINGRAD_TOLERANCE", "real"), ("OPTIMIZATION_MINGRAD_ITER", "unsigned"), ("STATISTICS_RAND_PREC", "uint64_t"), ("STATISTICS_METROPOLIS_DEPTH", "unsigned")]


def fnum(ty, tok):
    """an LLVM floating-point literal as an exact rational"""
    if tok.startswith("0xK"):
        v = int(tok[3:], 16); se = v >> 64; m = v & ((1 << 64) - 1); s = -1 if se >> 15 else 1; e = se & 0x7fff
        if e == 0x7fff: return None
        return s * mp.mpf(m) * mp.mpf(2) ** (e - 16383 - 63)
    if tok.startswith("0x"):
        d = struct.unpack(">d", bytes.fromhex(tok[2:].rjust(16, "0")))[0]
        return mp.mpf(d) if d == d and abs(d) != float("inf") else None
    return mp.mpf(float(tok))


def globals_of(src, defs, tmp, tag, O="-O1"):
    p = os.path.join(tmp, tag + ".cpp"); ll = os.path.join(tmp, tag + ".ll")
    open(p, "w").write(src)
    r = driver.run(["clang++", "-std=c++14", O, "-Wno-everything", "-S", "-emit-llvm", "-I" + os.path.join(driver.REPO, "src")] + defs + [p, "-o", ll])
    if r.returncode: return None, r.stderr
    out = {}
    for ln in open(ll):
        m = re.match(r"@(\w+) = .*?(?:constant|global) (.*)$", ln)
        if not m: continue
        nm, rest = m.group(1), m.group(2)
        z = re.match(r"\[(\d+) x (\w+)\] \[(.*)\]", rest)
        if z: out[nm] = (z.group(2), [fnum(z.group(2), e.split()[1]) for e in z.group(3).split(", ")])
        else:
            z = re.match(r"(float|double|x86_fp80) (\S+?),", rest)
            if z: out[nm] = (z.group(1), fnum(z.group(1), z.group(2)))
            else:
                z = re.match(r"(i\d+) (-?\d+),", rest)
                if z: out[nm] = (z.group(1), int(z.group(2)))
                elif re.match(r"(\[.*\]|float|double|i\d+) zeroinitializer", rest): out[nm] = ("zero", 0)
    return out, ""


def ulps(ty, got, want):
    if got is None: return mp.inf
    if want == 0: return mp.mpf(0) if got == 0 else mp.inf
    e = mp.floor(mp.log(abs(want), 2))
    return abs(got - want) / mp.mpf(2) ** (e - MANT[ty] + 1)


def family(name, n):
    """exact nodes and weights by Newton iteration on the three-term recurrence at 60 digits"""
    def ev(x):
        p0, p1 = mp.mpf(1), dict(legendre=x, laguerre=1 - x, hermite=2 * x)[name]
        for k in range(1, n):
            p0, p1 = p1, dict(legendre=lambda: ((2 * k + 1) * x * p1 - k * p0) / (k + 1), laguerre=lambda: ((2 * k + 1 - x) * p1 - k * p0) / (k + 1), hermite=lambda: 2 * x * p1 - 2 * k * p0)[name]()
        return p1, p0            # P_n, P_{n-1}

    def der(x):
        p, q = ev(x)
        return dict(legendre=lambda: n * (x * p - q) / (x * x - 1), laguerre=lambda: n * (p - q) / x, hermite=lambda: 2 * n * q)[name]()
    import numpy as np
    J = np.zeros((n, n))
    for k in range(n):
        if name == "laguerre": J[k, k] = 2 * k + 1
        if k: J[k, k - 1] = J[k - 1, k] = dict(legendre=k / np.sqrt(4.0 * k * k - 1), laguerre=k, hermite=np.sqrt(k / 2.0))[name]
    xs = []
    for g in np.linalg.eigvalsh(J):
        x = mp.mpf(float(g))
        for _ in range(8): x = x - ev(x)[0] / der(x)
        xs.append(x)
    ws = []
    for x in xs:
        d = der(x)
        ws.append(dict(legendre=lambda: 2 / ((1 - x * x) * d * d), laguerre=lambda: 1 / (x * d * d), hermite=lambda: mp.mpf(2) ** (n + 1) * mp.factorial(n) * mp.sqrt(mp.pi) / (d * d))[name]())
    return xs, ws


def constants(thorough=False, seed=1):
    viol = []; und = []; samples = []; ob = 0; ok = 0
    tmp = tempfile.mkdtemp(prefix="vp_const_")

    def bad(sec, label, where, what): viol.append(dict(section=sec, label=label, kind="rule", where=where, what=what))
    try:
        head = '#include "core/constants.h"\nusing namespace theoretica;\n'
        for mode, defs, lim in (("double", [], 1), ("float", ["-DTHEORETICA_FLOAT_PREC"], 1), ("long double", ["-DTHEORETICA_LONG_DOUBLE_PREC"], 2)):
            g, err = globals_of(head + "".join('extern "C" { extern const real c_%s; const real c_%s = %s; }\n' % (n, n, n) for n in CONST) + 'extern "C" { extern const real c_eps; const real c_eps = MACH_EPSILON; }\n', defs, tmp, "c" + mode.replace(" ", ""))
            if g is None: und.append("constants (%s): %s" % (mode, err[:200])); ob += len(CONST); continue
            for n, f in list(CONST.items()) + [("eps", None)]:
                ob += 1
                ty, v = g.get("c_" + n, (None, None))
                if ty is None or ty == "zero": bad("constants", n, "src/core/constants.h", "%s has no constant value in %s precision" % (n, mode)); continue
                if mode == "double" and ty != "double" or mode == "float" and ty != "float" or mode == "long double" and ty != "x86_fp80":
                    bad("constants", n, "src/core/constants.h", "real is %s in %s precision" % (ty, mode)); continue
                if n == "eps": good = v == mp.mpf(2) ** (1 - MANT[ty]); d = 0
                else: d = ulps(ty, v, f()); good = d <= lim
                if good: ok += 1
                else: bad("constants", n, "src/core/constants.h", "%s = %s in %s precision, but its definition is %s (off by %s units in the last place)" % (n, mp.nstr(v, 25), mode, mp.nstr(f() if f else mp.mpf(2) ** (1 - MANT[ty]), 25), mp.nstr(d, 5)))
        samples.append("PI, E, ... in three precisions: within 1 ulp (2 for long double) of the 60-digit value")
        # quadrature tables
        names = ["%s_%s_%d" % (f, k, n) for f in ("legendre", "laguerre", "hermite") for k in ("roots", "weights") for n in (2, 4, 8, 16)]
        g, err = globals_of('#include "calculus/gauss.h"\nusing namespace theoretica;\n' + "".join('extern "C" { extern const double* u_%s; const double* u_%s = (const double*) tables::%s; }\n' % (n, n, n) for n in names), [], tmp, "tab", "-O0")
        if g is None: und.append("quadrature tables: " + err[:200]); ob += len(names)
        else:
            tabs = {}
            for k, v in g.items():
                m = re.match(r"_Z\w*?6tables\w*?\d((?:legendre|laguerre|hermite)_(?:roots|weights)_\d+)E?$", k)
                if m: tabs[m.group(1)] = v
            fams = {}
            for f in ("legendre", "laguerre", "hermite"):
                for n in (2, 4, 8, 16):
                    xs, ws = family(f, n)
                    rx, rw = tabs.get("%s_roots_%d" % (f, n)), tabs.get("%s_weights_%d" % (f, n))
                    if rx is None or rw is None or len(rx[1]) != n or len(rw[1]) != n:
                        ob += 1; bad("tables", "%s %d" % (f, n), "src/calculus/gauss.h", "the table of %d %s nodes is missing or has the wrong size" % (n, f)); continue
                    left = list(range(n))
                    for i in range(n):
                        # a rule may list its nodes in any order: match every entry with one exact node, each once
                        ob += 2
                        j = min(left, key=lambda q: abs(xs[q] - rx[1][i]))
                        left.remove(j)
                        dx, dw = ulps("double", rx[1][i], xs[j]), ulps("double", rw[1][i], ws[j])
                        if dx <= 2: ok += 1
                        else: bad("tables", "%s_roots_%d[%d]" % (f, n, i), "src/calculus/gauss.h", "%s_roots_%d[%d] = %s, but the root is %s (off by %s ulp)" % (f, n, i, mp.nstr(rx[1][i], 20), mp.nstr(xs[j], 22), mp.nstr(dx, 5)))
                        if dw <= 2: ok += 1
                        else: bad("tables", "%s_weights_%d[%d]" % (f, n, i), "src/calculus/gauss.h", "%s_weights_%d[%d] = %s, but the weight of that root is %s (off by %s ulp)" % (f, n, i, mp.nstr(rw[1][i], 20), mp.nstr(ws[j], 22), mp.nstr(dw, 5)))
            samples.append("Gauss tables: every node and weight within 2 ulp of the 60-digit value")
        # configuration macros reach their constant, one at a time
        def one(k):
            n, t = CFG[k]
            val = 37 + k
            g, err = globals_of(head + "".join('extern "C" { extern const %s c_%s; const %s c_%s = %s; }\n' % (tt, nn, tt, nn, nn) for nn, tt in CFG), ["-DTHEORETICA_%s=%d" % (n, val)], tmp, "m%d" % k)
            return n, val, g, err
        base, err = globals_of(head + "".join('extern "C" { extern const %s c_%s; const %s c_%s = %s; }\n' % (tt, nn, tt, nn, nn) for nn, tt in CFG), [], tmp, "base")
        with ThreadPoolExecutor(8) as ex:
            for n, val, g, err in ex.map(one, range(len(CFG))):
                if g is None or base is None: ob += 1; und.append("macro %s: %s" % (n, err[:200])); continue
                ob += 1
                got = g.get("c_" + n, (None, None))[1]
                others = [m for m, _ in CFG if m != n and g.get("c_" + m) != base.get("c_" + m)]
                if got != val: bad("macros", n, "src/core/constants.h", "defining THEORETICA_%s as %d leaves %s = %s" % (n, val, n, got))
                elif others: bad("macros", n, "src/core/constants.h", "defining THEORETICA_%s also changes %s" % (n, ", ".join(others)))
                else: ok += 1
        # the defaults are usable: positive tolerances and steps, at least one iteration
        for n, t in CFG:
            ob += 1
            v = (base or {}).get("c_" + n, (None, None))[1]
            if v is not None and (v > 0 or n == "OPTIMIZATION_MINGRAD_GAMMA" and v < 0) and (t == "real" and (v < 1 or "ITER" in n) or t != "real"): ok += 1
            elif base is not None: bad("macros", n + " default", "src/core/constants.h", "the default of %s is %s" % (n, v))
        return dict(rule="compile-time value of every constant, quadrature node, weight and configuration constant equals its definition", obligations=ob, discharged=ok, violations=viol, undecided=und,
                    reached=["theoretica::" + n for n in CONST] + ["theoretica::tables::" + n for n in names], samples=samples)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


if __name__ == "__main__":
    r = constants()
    for v in r["violations"]: print(v["label"], v["what"])
    print(r["obligations"], r["discharged"], r["undecided"])
