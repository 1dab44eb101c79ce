"""P24: the parallel regions of the library are free of data races.  Every region is an outlined function in the OpenMP IR; each write in it
must go to memory private to the thread (stack, thread-local, errno), or to shared memory at an address that is affine in the work-shared
iteration index with a stride that keeps iterations apart; memory written that way may only be read at the address of the same iteration."""
import os, re, shutil, tempfile
from concurrent.futures import ThreadPoolExecutor
import driver, llparse
SYNC = ("@__kmpc_critical", "@__kmpc_reduce", "@__kmpc_reduce_nowait", "@__kmpc_single", "@__kmpc_master", "@__kmpc_masked", "@__kmpc_ordered", "@__kmpc_omp_task", "@omp_set_lock")
SHARE = ("@__kmpc_for_static_init", "@__kmpc_dispatch_next", "@__kmpc_dispatch_init")


class Aff:
    """root + coef * I + off ; root: None for numbers; ivar: known; """
    __slots__ = ("root", "c", "o")

    def __init__(self, root, c, o): self.root, self.c, self.o = root, c, o
    def __repr__(self): return "%s+%s*I+%s" % (self.root, self.c, self.o)


UNK = None


class Region:
    def __init__(self, mod, fn):
        self.m, self.f = mod, fn
        self.defs = {}
        for b, il in fn.blocks.items():
            for i in il:
                if i.res: self.defs[i.res] = i
        self.memo = {}
        self.shared_bounds = set()
        self.calls = set()
        for il in fn.blocks.values():
            for i in il:
                if i.op == "call" and i.a[0][0] == "g":
                    self.calls.add(i.a[0][1])
                    if i.a[0][1].startswith(SHARE):
                        for t, v in i.a[1]:
                            if v[0] == "r" and v[1] in self.defs and self.defs[v[1]].op == "alloca": self.shared_bounds.add(v[1])
        self.workshare = any(c.startswith(SHARE) for c in self.calls)

    def val(self, v):
        k = v[0]
        if k == "i": return Aff(None, 0, v[1])
        if k == "g": return Aff(("global", v[1]), 0, 0)
        if k == "null": return Aff(("null",), 0, 0)
        if k == "cgep":
            return self.gep(v[1], v[2])
        if k == "r":
            n = v[1]
            if n in self.memo: return self.memo[n]
            self.memo[n] = UNK
            self.memo[n] = r = self.ev(n)
            return r
        return UNK

    def gep(self, t, args):
        b = self.val(args[0][1])
        if b is UNK or b.root is None: return UNK
        c, o = b.c, b.o
        cur = t
        for k, (at, iv) in enumerate(args[1:]):
            x = self.val(iv)
            if k and self.m.resolve(cur).k == "struct":
                if x is UNK or x.c: return UNK
                off, cur = self.m.field(self.m.resolve(cur), x.o); o += off; continue
            if k: cur = self.m.resolve(cur).b
            if x is UNK or x.root is not None: return Aff((b.root, "?") if not isinstance(b.root, tuple) or b.root[-1] != "?" else b.root, None, None)
            s = self.m.size(cur)
            if c is None or x.c is None: return Aff(b.root, None, None)
            c += s * x.c; o += s * x.o
        return Aff(b.root, c, o)

    def ev(self, n):
        i = self.defs.get(n)
        if i is None: return Aff(("param", n), 0, 0)
        op = i.op
        if op == "alloca": return Aff(("alloca", n), 0, 0)
        if op == "getelementptr": return self.gep(i.a[0], i.a[1])
        if op in ("zext", "sext", "trunc", "bitcast", "addrspacecast", "ptrtoint", "inttoptr"): return self.val(i.a[1])
        if op == "freeze": return self.val(i.a[0])
        if op == "load":
            p = self.val(i.a[0])
            if i.a[0][0] == "r" and i.a[0][1] in self.shared_bounds: return Aff(None, 1, 0)
            if p is UNK or p.root is None: return UNK
            if p.root[0] == "alloca": return self.stored(p, i)
            if p.c == 0 and i.ty.k == "ptr": return Aff(("deref", p.root, p.o), 0, 0)
            return Aff(("value", p.root, p.c, p.o), 0, 0) if i.ty.k == "ptr" else UNK
        if op in ("add", "sub", "mul", "shl", "or"):
            a, b = self.val(i.a[0]), self.val(i.a[1])
            if a is UNK or b is UNK or a.c is None or b.c is None: return UNK
            if op in ("add", "or"):
                if a.root is not None and b.root is not None: return UNK
                return Aff(a.root or b.root, a.c + b.c, a.o + b.o)
            if op == "sub":
                if b.root is not None: return UNK
                return Aff(a.root, a.c - b.c, a.o - b.o)
            if a.root is not None or b.root is not None: return UNK
            if op == "mul":
                if a.c and b.c: return UNK
                return Aff(None, a.c * b.o + b.c * a.o, a.o * b.o)
            if b.c == 0: return Aff(None, a.c << b.o, a.o << b.o)
            return UNK
        if op == "phi":
            ini = None; step = None
            for v, lb in i.a:
                # increment of the same phi?
                if v[0] == "r" and v[1] in self.defs:
                    d = self.defs[v[1]]
                    if d.op == "add" and (d.a[0] == ("r", n) and d.a[1][0] == "i" or d.a[1] == ("r", n) and d.a[0][0] == "i"):
                        step = d.a[1][1] if d.a[1][0] == "i" else d.a[0][1]; continue
                    if d.op == "getelementptr" and d.a[1][0][1] == ("r", n) and len(d.a[1]) == 2 and d.a[1][1][1][0] == "i":
                        step = self.m.size(d.a[0]) * d.a[1][1][1][1]; continue
                x = self.val(v)
                if x is UNK: return UNK
                if ini is not None and (ini.root, ini.c, ini.o) != (x.root, x.c, x.o): return self.join(ini, x)
                ini = x
            if ini is None: return UNK
            if step is None: return ini
            # an induction that starts at the work-shared lower bound and advances with the iteration
            if ini.c is not None and ini.c == step: return ini
            return Aff(ini.root, None, None) if ini.root is not None else UNK
        if op == "select":
            a, b = self.val(i.a[1]), self.val(i.a[2])
            if a is UNK or b is UNK: return UNK
            return a if (a.root, a.c, a.o) == (b.root, b.c, b.o) else self.join(a, b)
        if op == "call":
            cal = i.a[0]
            nm = cal[1] if cal[0] == "g" else ""
            if nm == "@__errno_location": return Aff(("errno",), 0, 0)
            if nm.startswith("@llvm.threadlocal"): return Aff(("tls",), 0, 0)
            if nm in ("@_Znwm", "@_Znam", "@malloc"): return Aff(("alloca", n), 0, 0)
            if nm.startswith("@llvm.umin") or nm.startswith("@llvm.umax"): return UNK
            return UNK
        return UNK

    def join(self, a, b):
        if a.root is not None and a.root == b.root: return Aff(a.root, None, None)
        pr = [x for x in (a, b) if x.root is not None and not private(x.root)]
        if a.root is None or b.root is None: return UNK
        return Aff(("alloca", "join"), 0, 0) if not pr else UNK

    def stored(self, p, ins):
        """pointer read back from the stack: the unique value stored there"""
        vals = []
        for il in self.f.blocks.values():
            for j in il:
                if j.op == "store":
                    q = self.val(j.a[2])
                    if q is not UNK and q.root == p.root: vals.append((q, j))
                elif j.op == "call" and any(v[0] == "r" and (lambda z: z is not UNK and z.root == p.root)(self.val(v)) for t, v in j.a[1]) and not (j.a[0][0] == "g" and j.a[0][1].startswith(("@llvm.lifetime",))):
                    return UNK
        if len(vals) == 1 and (vals[0][0].c, vals[0][0].o) == (p.c, p.o): return self.val(vals[0][1].a[1])
        return UNK


def private(root):
    return root[0] in ("alloca", "errno", "tls", "null") or (len(root) == 2 and root[1] == "?" and isinstance(root[0], tuple) and private(root[0]))


def basis(root):
    while isinstance(root, tuple) and len(root) == 2 and root[1] == "?": root = root[0]
    return root


def effects(mod, name, depth=0, seen=None):
    """does a called function write anything but its own stack, errno and thread-local memory?  returns list of descriptions, or None if unknown"""
    seen = seen or set()
    if name in seen or depth > 12: return []
    seen.add(name)
    f = mod.funcs.get(name)
    if f is None: return []
    R = Region(mod, f)
    out = []
    for il in f.blocks.values():
        for i in il:
            if i.op == "store":
                a = R.val(i.a[2])
                if a is not UNK and a.root is not None:
                    b = basis(a.root)
                    if b[0] == "global":
                        g = mod.globals.get(b[1])
                        if g and not g.get("tls"): out.append("%s writes the global %s" % (name[1:60], b[1][:60]))
            elif i.op in ("call", "invoke") and i.a[0][0] == "g": out += effects(mod, i.a[0][1], depth + 1, seen)
    return out


def region(mod, fn):
    """-> (violations, undecided, writes)"""
    R = Region(mod, fn)
    viol = []; und = []; writes = {}; n = 0
    sync = [c for c in R.calls if c.startswith(SYNC)]
    reads = []
    for il in fn.blocks.values():
        for i in il:
            acc = None
            if i.op == "store": acc = (i.a[2], mod.size(i.a[0]), i)
            elif i.op == "call" and i.a[0][0] == "g" and i.a[0][1].startswith(("@llvm.memcpy", "@llvm.memset", "@llvm.memmove", "@memcpy", "@memset")):
                ln = R.val(i.a[1][2][1])
                acc = (i.a[1][0][1], ln.o if ln is not UNK and ln.root is None and ln.c == 0 else None, i)
                if "mem" in i.a[0][1] and "set" not in i.a[0][1]: reads.append((i.a[1][1][1], acc[1]))
            elif i.op == "load": reads.append((i.a[0], mod.size(i.ty)))
            elif i.op in ("call", "invoke"):
                if i.a[0][0] == "g":
                    nm = i.a[0][1]
                    for e in effects(mod, nm): viol.append("calls a function that keeps shared state: " + e)
                    if nm in mod.funcs or nm in mod.decls:
                        for t, v in i.a[1]:
                            if t.k == "ptr" and not nm.startswith(("@__kmpc", "@llvm.")):
                                a = R.val(v)
                                if a is UNK or a.root is not None and not private(a.root): und.append("passes shared memory to %s" % nm[:60])
                continue
            if acc is None: continue
            n += 1
            a = R.val(acc[0])
            line = acc[2].line.split(", !")[0][:120]
            if a is UNK or a.root is None: und.append("address of write not resolved: " + line); continue
            b = basis(a.root)
            if private(b): continue
            if b[0] == "global" and mod.globals.get(b[1], {}).get("tls"): continue
            if sync: und.append("write in a synchronised region: " + line); continue
            if not R.workshare: viol.append("every thread executes the write: " + line); continue
            if a.c is None or a.root != b: und.append("index of write not affine: " + line); continue
            sz = acc[1]
            if a.c == 0: viol.append("all iterations write the same shared location (%s): %s" % (desc(b), line)); continue
            if sz is None or abs(a.c) < sz: viol.append("writes of different iterations overlap (%s): %s" % (desc(b), line)); continue
            writes.setdefault(b, []).append((a.c, a.o, sz, line))
    for b, ws in writes.items():
        c = ws[0][0]
        lo = min(w[1] for w in ws); hi = max(w[1] + w[2] for w in ws)
        if any(w[0] != c for w in ws) or hi - lo > abs(c): viol.append("iterations write overlapping ranges of %s: %s" % (desc(b), ws[0][3]))
        for v, sz in reads:
            a = R.val(v)
            if a is UNK or a.root is None: continue
            if basis(a.root) == b:
                if a.c is None: und.append("reads the written memory at an unresolved index")
                elif a.c != c or a.o < lo or a.o + sz > hi and a.o + sz - lo > abs(c): viol.append("reads %s at another iteration's element while it is being written" % desc(b))
    return viol, und, n


def desc(b):
    return {"param": "a shared variable", "deref": "memory of a shared object", "global": "a global variable", "value": "memory reached through a shared table"}.get(b[0], str(b[0]))


def races(thorough=False, seed=1):
    P = os.path.join(driver.VERIF, "probes"); S = os.path.join(driver.REPO, "src")
    tmp = tempfile.mkdtemp(prefix="vp_omp_")
    viol = []; und = []; ob = 0; ok = 0; reached = []; nw = 0
    try:
        others = [f for d, _, fs in os.walk(S) for f in fs if f.endswith(".h") and f != "parallel.h" and re.search(r"(#\s*pragma|_Pragma\s*\(\s*\")\s*omp", open(os.path.join(d, f), errors="replace").read())]
        files = sorted(p for p in os.listdir(P) if re.match(r"P\d+_\w+\.cpp$", p) and not p.startswith("P25")) if (others or thorough) else ["P24_parallel.cpp"]

        def one(p):
            head, secs = driver.parse_probe(os.path.join(P, p))
            f = os.path.join(tmp, p)
            open(f, "w").write(driver.tu_text(os.path.join(P, p), head, secs))
            r = driver.run(["clang++", "-std=c++14", "-O2", "-fopenmp", "-Xclang", "-disable-llvm-passes", "-fno-rtti", "-fno-exceptions", "-Wno-everything", "-S", "-emit-llvm", "-I" + S, "-I" + P, f, "-o", f + ".ll"])
            if r.returncode: return p, None, r.stderr[:200]
            t = open(f + ".ll").read()
            if ".omp_outlined" not in t: return p, "", ""
            keep = ",".join(sorted(set(re.findall(r"^define .*?@([\w.$]*omp_outlined[\w.$]*)\(", t, re.M)) | {"probe_" + s.name for s in secs}))
            r = driver.run(["opt", "-S", "-passes=default<O2>", "-inline-threshold=100000", "-inlinehint-threshold=100000", "-vectorize-loops=false", "-vectorize-slp=false", "-unroll-runtime=false", f + ".ll", "-o", f + ".o.ll"])
            if r.returncode: return p, None, r.stderr[:200]
            return p, open(f + ".o.ll").read(), ""
        with ThreadPoolExecutor(8) as ex: res = list(ex.map(one, files))
        for p, t, err in res:
            if t is None: ob += 1; und.append("%s: %s" % (p, err)); continue
            if not t: continue
            try: mod = llparse.parse_module(t)
            except Exception as e: ob += 1; und.append("%s: parse %r" % (p, e)); continue
            for nm, fn in mod.funcs.items():
                if "omp_outlined" not in nm: continue
                ob += 1
                d = driver.run(["c++filt", re.sub(r"\.omp_outlined.*", "", nm.strip('@"'))]).stdout.strip()
                reached.append(d)
                try: v, u, n = region(mod, fn)
                except Exception as e: v, u, n = [], ["internal %r" % e], 0
                nw += n
                if v: viol.append(dict(section="races", label=d[:120], where="src/algebra/parallel.h" if "parallel::" in d else d[:120], what="%s: %s" % (d[:140], v[0])))
                elif u: und.append("%s: %s" % (d[:100], u[0]))
                else: ok += 1
        return dict(rule="writes of every OpenMP region are private or indexed by the work-shared iteration (%d regions, %d writes)" % (len(reached), nw), obligations=ob, discharged=ok, violations=viol, undecided=und, reached=sorted(set(reached)), samples=["%s: no shared write" % x[:90] for x in reached[:4]])
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


if __name__ == "__main__":
    import time
    t = time.time(); r = races()
    for v in r["violations"][:20]: print(v["what"])
    for v in r["undecided"][:20]: print("  ?", v)
    print(r["rule"], r["obligations"], r["discharged"], "%.1fs" % (time.time() - t))
