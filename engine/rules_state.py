"""P11: no hidden state.  (1) In the inlined IR of every probe, no store reaches a variable with static storage that belongs to the library,
except its own guarded one-time initialisation; (2) no static local is initialised from the arguments of the first call, found by AST
matching over all code, instantiated or not; (3) no library function calls an impure function of the environment."""
import os, re, shutil, tempfile
from concurrent.futures import ThreadPoolExecutor
import driver, llparse
from rules_omp import Region, basis, UNK
IMPURE = re.compile(r"^@(time|clock|clock_gettime|gettimeofday|rand|srand|random|drand48|getenv|setenv|getpid|_ZNSt13random_device\w*|_ZNSt6chrono\w*3now\w*|setlocale|fesetround|fopen|system)$")
OWN = re.compile(r"^@_Z(Z?N?K?|ZN|ZNK|N|NK|L|NL|ZNL?)*10theoretica|^@\w*10theoretica")


def guarded(fn):
    """blocks between a successful guard acquisition and its release"""
    out = set(); succ = {}
    for b, il in fn.blocks.items():
        t = il[-1] if il else None
        s = []
        if t is not None:
            if t.op == "br": s = [t.a[0]]
            elif t.op == "condbr": s = [t.a[1], t.a[2]]
            elif t.op == "switch": s = [t.a[1]] + [x[1] for x in t.a[2]]
        keys = fn.blocks
        succ[b] = [x if x in keys else ("%" + x if "%" + x in keys else x.lstrip("%")) for x in s]

    def isc(i, n): return i.op in ("call", "invoke") and i.a[0] == ("g", n)
    for b, il in fn.blocks.items():
        if not any(isc(i, "@__cxa_guard_acquire") for i in il): continue
        best = None
        for s in succ[b]:
            seen = set(); level = [s]; d = 0; found = None
            while level:
                nxt = []
                for x in level:
                    if x in seen or x == b or x not in fn.blocks: continue
                    seen.add(x)
                    if any(isc(i, "@__cxa_guard_release") for i in fn.blocks[x]):
                        if found is None: found = d
                        continue
                    nxt += succ[x]
                level = nxt; d += 1
            if found is not None and (best is None or found < best[0]): best = (found, seen)
        if best: out |= best[1]
    return out


def dependent(mod, fn, v, seen=None):
    """the value is computed from an argument of the function or from an input of the probe"""
    defs = fn.__dict__.get("_vpdefs")
    if defs is None:
        defs = {i.res: i for il in fn.blocks.values() for i in il if i.res}
        fn._vpdefs = defs
    work = [v]; seen = set()
    while work:
        x = work.pop()
        if isinstance(x, (list, tuple)):
            if len(x) == 2 and x[0] == "r":
                if x[1] in seen: continue
                seen.add(x[1])
                d = defs.get(x[1])
                if d is None: return True                      # a parameter
                if d.op in ("call", "invoke") and d.a[0][0] == "g" and re.match(r"@(IN|INU|UF\w|UI1)$", d.a[0][1]): return True
                work.append(d.a)
            else: work += list(x)
    return False


def own(mod, b):
    if b[0] != "global": return False
    g = mod.globals.get(b[1])
    return bool(g) and "theoretica" in b[1] and not b[1].startswith("@_ZGV") and not b[1].startswith("@_ZTV")


def scan(t):
    mod = llparse.parse_module(t)
    viol = []; und = 0; n = 0; fns = 0
    for nm, fn in mod.funcs.items():
        if not any(k in nm for k in ("theoretica", "probe_")): continue
        fns += 1
        R = Region(mod, fn)
        g = None
        for b, il in fn.blocks.items():
            for i in il:
                a = None
                if i.op == "store": a = i.a[2]
                elif i.op in ("call", "invoke") and i.a[0][0] == "g":
                    c = i.a[0][1]
                    if IMPURE.match(c): viol.append((nm, "calls %s" % c[1:], i.line)); continue
                    if c.startswith(("@llvm.memcpy", "@llvm.memset", "@llvm.memmove", "@memcpy", "@memset")): a = i.a[1][0][1]
                    else: continue
                elif i.op == "unsupported" and ("atomicrmw" in i.line or "cmpxchg" in i.line) and re.search(r"@_Z\w*10theoretica\w*", i.line):
                    viol.append((nm, "updates %s" % re.search(r"@(_Z\w*10theoretica\w*)", i.line).group(1), i.line)); continue
                if a is None: continue
                n += 1
                v = R.val(a)
                if v is UNK or v.root is None: und += 1; continue
                r = basis(v.root)
                if own(mod, r):
                    if g is None: g = guarded(fn)
                    if b in g and not (i.op == "store" and dependent(mod, fn, i.a[1])): continue
                    viol.append((nm, "writes %s" % r[1][1:], i.line))
    return viol, und, n, fns


QUERY = r"""
set output diag
set bind-root false
m varDecl(isStaticLocal(), isExpansionInFileMatching("%(S)s/"), hasInitializer(expr(anyOf(declRefExpr(to(parmVarDecl())), cxxThisExpr(), hasDescendant(declRefExpr(to(parmVarDecl(unless(hasAncestor(lambdaExpr())))))), hasDescendant(cxxThisExpr()))))).bind("staticlocal")
m varDecl(anyOf(hasStaticStorageDuration(), hasThreadStorageDuration()), isExpansionInFileMatching("%(S)s/"), unless(isConstexpr())).bind("inventory")
"""


def hidden(thorough=False, seed=1):
    P = os.path.join(driver.VERIF, "probes"); S = os.path.join(driver.REPO, "src")
    tmp = tempfile.mkdtemp(prefix="vp_state_")
    viol = []; und = []; ob = 0; ok = 0; reached = set(); stores = 0; unres = 0; nf = 0
    try:
        q = os.path.join(tmp, "all.cpp"); open(q, "w").write('#include "theoretica.h"\n#include "utility.h"\n')
        qs = os.path.join(tmp, "q"); open(qs, "w").write(QUERY % dict(S=re.escape(S)))
        r = driver.run(["clang-query", "-f", qs, q, "--", "-std=c++14", "-w", "-I" + S])
        parts = re.split(r"^(\d+) match(?:es)?\.$", r.stdout, flags=re.M)
        if r.returncode or len(parts) < 5: ob += 1; und.append("AST query: %s" % (r.stderr or r.stdout)[:200])
        else:
            for m in re.finditer(r"^(\S+?):(\d+):\d+: note: \"staticlocal\" binds here\n(.*)\n", r.stdout, re.M):
                ob += 1
                w = "%s:%s" % (m.group(1).replace(S, "src"), m.group(2))
                viol.append(dict(section="static locals", label=w, where=w, what="static local keeps a value of the arguments of the first call: %s" % m.group(3).strip()))
            inv = re.findall(r"^(\S+?):(\d+):\d+: note: \"inventory\" binds here\n(.*)\n", r.stdout, re.M)
            ob += 1; ok += 1
        files = sorted(p for p in os.listdir(P) if re.match(r"P\d+_\w+\.cpp$", p) and not p.startswith("P25"))

        def one(p):
            head, secs = driver.parse_probe(os.path.join(P, p))
            f = os.path.join(tmp, p)
            open(f, "w").write(driver.tu_text(os.path.join(P, p), head, secs))
            r = driver.run(["clang++", "-std=c++14", "-O2", "-Xclang", "-disable-llvm-passes", "-fno-rtti", "-fno-exceptions", "-Wno-everything", "-S", "-emit-llvm", "-I" + S, "-I" + P, f, "-o", f + ".ll"])
            if r.returncode: return p, None, r.stderr[:200]
            t = open(f + ".ll").read()
            # the variables and functions of the library stay visible as such: no inlining, only promotion of locals and of pointers to their origin
            r = driver.run(["opt", "-S", "-passes=function(sroa,early-cse,instcombine<no-verify-fixpoint>,simplifycfg),cgscc(inline,function(sroa,early-cse,instcombine<no-verify-fixpoint>,simplifycfg)),globaldce", "-inline-threshold=225", f + ".ll", "-o", f + ".o.ll"])
            if r.returncode: return p, None, r.stderr[:200]
            try: return p, scan(open(f + ".o.ll").read()), ""
            except Exception as e: return p, None, "%r" % e
            finally:
                for x in (f + ".ll", f + ".o.ll"):
                    if os.path.exists(x): os.remove(x)
        from concurrent.futures import ProcessPoolExecutor
        with ThreadPoolExecutor(8) as ex:
            res = list(ex.map(one, files))
        seen = set()
        for p, v, err in res:
            ob += 1
            if v is None: und.append("%s: %s" % (p, err)); continue
            vs, u, n, fns = v
            stores += n; unres += u; nf += fns
            if not vs: ok += 1
            for fn, what, line in vs:
                d = driver.run(["c++filt", fn.strip('@"')]).stdout.strip()
                if what.split()[0] == "writes": what = "writes " + driver.run(["c++filt", what.split()[1]]).stdout.strip()
                if what in seen: continue
                seen.add(what)
                viol.append(dict(section="hidden state", label=what[:100], where=d[:120], what="%s %s" % (d[:140], what)))
        return dict(rule="no store to library variables of static storage (%d functions, %d stores, %d unresolved addresses), no static local initialised from arguments, no impure environment call" % (nf, stores, unres), obligations=ob, discharged=ok, violations=viol, undecided=und, reached=["%s:%s" % (a.replace(S, "src"), b) for a, b, c in inv][:60] if len(parts) >= 5 else [], samples=["static variable %s" % c.strip()[:60] for a, b, c in (inv if len(parts) >= 5 else [])[:4]])
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


if __name__ == "__main__":
    import time
    t = time.time(); r = hidden()
    for v in r["violations"][:20]: print(v["what"])
    for v in r["undecided"][:20]: print("  ?", v)
    print(r["rule"], r["obligations"], r["discharged"], r["reached"][:40], "%.1fs" % (time.time() - t))
