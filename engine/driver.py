"""Driver: probe TU -> LLVM IR of /repo's current headers -> normalisation -> value graph -> obligations."""
from fractions import Fraction
import os, re, subprocess, sys, tempfile, time, json, hashlib, threading
from concurrent.futures import ProcessPoolExecutor, as_completed
HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
sys.path.insert(0, HERE)
REPO = os.environ.get("VP_REPO", "/repo")
import llparse, vg, decide, bounds, math
from vg import Unknown

CXX = "clang++"
BASE = ["-std=c++14", "-O2", "-funroll-loops", "-ffp-contract=off", "-Xclang", "-disable-llvm-passes", "-fno-rtti",
        "-fno-exceptions", "-fno-vectorize", "-Wno-everything", "-ferror-limit=3", "-S", "-emit-llvm"]
SAN = ["-fsanitize=array-bounds,shift,integer-divide-by-zero,vla-bound,float-cast-overflow,return", "-fsanitize-trap=all", "-D_GLIBCXX_ASSERTIONS"]
OPT = ["-passes=default<O3>", "-inline-threshold=1000000", "-inlinehint-threshold=1000000", "-unroll-threshold=1000000", "-unroll-max-upperbound=128",
       "-unroll-full-max-count=100000", "-unroll-allow-remainder=false", "-unroll-runtime=false", "-vectorize-loops=false", "-vectorize-slp=false", "-unroll-count=0"]
OPT.pop()
# theoretica functions that are uninterpreted (their own bodies are the subject of other probes)
OPQ = {"sqrt": "sqrt", "sin": "sin", "cos": "cos", "tan": "tan", "exp": "exp", "ln": "ln", "log2": "log2", "log10": "log10", "atan": "atan",
       "asin": "asin", "acos": "acos", "powf": "powf", "cbrt": "cbrt"}


def mangle(nm):
    if nm.startswith("_Z"): return "@" + nm
    return "@_ZN10theoretica%d%sEd" % (len(nm), nm) + ("d" if nm in ("powf", "atan2") else "i" if nm == "root" else "")


class Section:
    def __init__(self, name, anchor, desc, text, line, opts):
        self.name, self.anchor, self.desc, self.text, self.line, self.opts = name, anchor, desc, text, line, opts


def parse_probe(path):
    """// --- name | anchor | description [| key=value ...]   starts a section"""
    head = []; secs = []
    cur = None
    for i, ln in enumerate(open(path), 1):
        m = re.match(r"// --- (\S+)\s*\|\s*([^|]*)\|\s*([^|]*)(?:\|(.*))?$", ln.rstrip("\n"))
        if m:
            opts = dict(x.split("=", 1) for x in (m.group(4) or "").split())
            cur = Section(m.group(1), m.group(2).strip(), m.group(3).strip(), [], i, opts)
            secs.append(cur)
            continue
        (cur.text if cur else head).append((i, ln))
    # also=MACRO: the same obligations in the configuration with the macro defined
    for s in list(secs):
        for mac in [x for x in s.opts.get("also", "").split(",") if x]:
            o = dict(s.opts); o.pop("also"); o["def"] = ",".join(x for x in (o.get("def"), mac) if x)
            secs.append(Section(s.name + "_" + mac.replace("THEORETICA_", "").split("=")[0].lower(), s.anchor, s.desc + " (" + mac + ")", s.text, s.line, o))
    return head, secs


def tu_text(path, head, secs):
    out = []
    for i, ln in head: out.append(ln)
    for s in secs:
        out.append('#line %d "%s"\n' % (s.line + 1, os.path.basename(path)))
        out.append("extern \"C\" void probe_%s() {\n" % s.name if s.opts.get("raw") != "1" else "")
        body = "".join(l for _, l in s.text)
        out.append(body)
        if s.opts.get("raw") != "1": out.append("}\n")
    return "".join(out)


def run(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, **kw)


def compile_tu(path, head, secs, tmp, tag, defs):
    src = os.path.join(tmp, tag + ".cpp")
    with open(src, "w") as f: f.write(tu_text(path, head, secs))
    ll = os.path.join(tmp, tag + ".ll")
    r = run([CXX] + BASE + SAN + defs + ["-I" + os.path.join(REPO, "src"), "-I" + os.path.join(VERIF, "probes"), src, "-o", ll])
    if r.returncode: return None, r.stderr
    return ll, ""


def make_opaque(text, opaque):
    """turn the definitions of the opaque functions into declarations"""
    want = set(opaque)
    out = []
    skip = False
    for ln in text.split("\n"):
        if skip:
            if ln == "}": skip = False
            continue
        if ln.startswith("define "):
            m = re.search(r'(@"[^"]*"|@[-a-zA-Z$._0-9]+)\(', ln)
            if m and m.group(1) in want:
                par = re.findall(r"(double|float|i\d+|ptr)\b(?: [^,%]*)?%", ln[m.end():])
                out.append("declare double %s(%s) memory(none) nounwind willreturn" % (m.group(1), ", ".join(par)))
                skip = True
                continue
        out.append(ln)
    return "\n".join(out)


# x87 instructions used by the library on its default platform, by their architectural meaning
X87 = """
declare double @vp_sqrt(double) memory(none) nounwind willreturn
declare double @vp_sin(double) memory(none) nounwind willreturn
declare double @vp_cos(double) memory(none) nounwind willreturn
declare double @vp_log2(double) memory(none) nounwind willreturn
declare double @vp_exp2(double) memory(none) nounwind willreturn
define double @vp_x_fsqrt(double %x) { %r = call double @vp_sqrt(double %x) ret double %r }
define double @vp_x_fsin(double %x) { %r = call double @vp_sin(double %x) ret double %r }
define double @vp_x_fcos(double %x) { %r = call double @vp_cos(double %x) ret double %r }
define double @vp_x_fabs(double %x) { %c = fcmp oge double %x, 0.0 %m = fneg double %x %r = select i1 %c, double %x, double %m ret double %r }
define double @vp_x_fyl2x(double %x, double %y) { %l = call double @vp_log2(double %x) %r = fmul double %y, %l ret double %r }
define double @vp_x_f2xm1(double %x) { %l = call double @vp_exp2(double %x) %r = fsub double %l, 1.0 ret double %r }
define { double, double } @vp_x_fsincos(double %x) { %s = call double @vp_sin(double %x) %c = call double @vp_cos(double %x) %a = insertvalue { double, double } undef, double %c, 0 %b = insertvalue { double, double } %a, double %s, 1 ret { double, double } %b }
"""
X87OM = {"@vp_sqrt": "sqrt", "@vp_sin": "sin", "@vp_cos": "cos", "@vp_log2": "log2", "@vp_exp2": "exp2"}


def model_x87(t):
    t, n = re.subn(r'asm (?:sideeffect )?"(fsqrt|fsin|fcos|fabs|fyl2x|f2xm1|fsincos)", "[^"]*"\(([^)]*)\)', r'@vp_x_\1(\2)', t)
    return t + "\n".join(_ll(l) for l in X87.split("\n")) if n else t


def _ll(line):
    if not line.startswith("define"): return line
    h, b = line.split(" { %", 1)
    b = "%" + b.rsplit(" }", 1)[0]
    b = re.sub(r" (?=%\w+ = )", "\n", b).replace(" ret ", "\nret ")
    return h + " {\n" + b + "\n}"


def normalise(ll, opaque, timeout=240, fold=(), unroll=None):
    t = open(ll).read()
    t = make_opaque(model_x87(t), opaque)
    # fold=f: occurrences of f with literal arguments are constants for the compiler, the others stay uninterpreted
    folds = []
    for sym, f in opaque.items():
        if f in fold and re.search(r"^declare [^\n]*%s\(" % re.escape(sym), t, re.M):
            t = re.sub(r"^declare [^\n]*%s\([^\n]*\n" % re.escape(sym), "", t, flags=re.M).replace(sym + "(", "@llvm.%s.f64(" % f)
            folds.append((sym, f))
    for f in sorted({f for _, f in folds}): t += "\ndeclare double @llvm.%s.f64(double)\n" % f
    # keep only what the probes reach: internalise everything but the probes
    a = ll + ".1"
    open(a, "w").write(t)
    b = ll + ".2"
    keep = ",".join(sorted(set(re.findall(r"^define .*@(probe_\w+)\(", t, re.M))))
    r = run(["opt", "-S", "-passes=internalize,globaldce", "-internalize-public-api-list=" + keep, a, "-o", b], timeout=timeout)
    if r.returncode: return None, r.stderr
    open(ll + ".reach", "w").write(open(b).read())
    reached = re.findall(r"^define .*?@(_ZN?K?10theoretica[\w.]*)\(", open(b).read(), re.M)
    reached += re.findall(r"^define .*?@(_ZNK?10theoretica[\w.]*)\(", open(b).read(), re.M)
    c = ll + ".3"
    for src, dst in ((b, c), (c, b)):
        r = run(["opt", "-S"] + [o if unroll is None or not o.startswith("-unroll-threshold") else "-unroll-threshold=" + unroll for o in OPT] + [src, "-o", dst], timeout=timeout)
        if r.returncode: return None, r.stderr
    if folds:
        t = open(b).read()
        for sym, f in folds: t = t.replace("@llvm.%s.f64(" % f, sym + "(")
        open(b, "w").write(t)
    return b, sorted(set(reached))


LIB = re.compile(r"_Z(?:Z?N?K?)*10theoretica")


def thresholds(text):
    """integers that the reached library functions compare, divide, mask or narrow their values with: sizes beyond them take other paths"""
    out = {}
    fn = None; probe = False
    for ln in text.split("\n"):
        if ln.startswith("define "):
            m = re.search(r'@"?([\w.$]+)"?\(', ln)
            fn = m.group(1) if m and LIB.match(m.group(1)) and "th_errcode" not in ln else None
            probe = "@probe_" in ln
        elif fn is None:
            # default arguments are written by the caller
            m = re.search(r"call [^@]*@\"?([\w.$]+)\"?\((.*)\)", ln) if probe else None
            if m and LIB.match(m.group(1)):
                for c in re.findall(r"\bi(?:32|64) (?:noundef |signext |zeroext )*(\d+)(?=,|$)", m.group(2)): out.setdefault(-int(c), m.group(1))
        else:
            m = re.search(r" = (?:icmp (?:eq|ne|[us][lg][te]) i(?:32|64|16|8)|(?:and|lshr|shl|urem|srem|udiv|sdiv)(?: exact| nuw| nsw)* i(?:32|64)) (?:%[\w.]+, (-?\d+)|(-?\d+), %[\w.]+)", ln)
            if m:
                c = int(m.group(1) or m.group(2))
                if re.search(r" = lshr| = shl", ln): c = 1 << (c & 63)
                out.setdefault(c, fn)
            m = re.search(r" = fcmp \w+ double (?:%[\w.]+, )?([-+.\de]+)", ln)
            if m and "." in m.group(1):
                try:
                    v = float(m.group(1))
                    if v == int(v): out.setdefault(int(v), fn)
                except (ValueError, OverflowError): pass
            m = re.search(r" = trunc i(?:64|32) %[\w.]+ to i(8|16)\b", ln)
            if m: out.setdefault(1 << int(m.group(1)), fn)
            m = re.match(r"\s+i(?:32|64) (\d+), label ", ln)
            if m: out.setdefault(int(m.group(1)), fn)
    return out


def real_thresholds(text):
    """real constants that the reached library functions compare their values with"""
    import struct
    out = set()
    fn = None
    for ln in text.split("\n"):
        if ln.startswith("define "):
            m = re.search(r'@"?([\w.$]+)"?\(', ln)
            fn = m.group(1) if m and LIB.match(m.group(1)) else None
        elif fn and " = fcmp " in ln:
            for c in re.findall(r"(0x[0-9A-F]{16}|-?\d+\.\d+e[-+]\d+)", ln):
                out.add(struct.unpack(">d", bytes.fromhex(c[2:]))[0] if c.startswith("0x") else float(c))
    return {c for c in out if math.isfinite(c)} | {float(c) for c in thresholds(text) if 2 <= abs(c) < 1 << 20}


def around(sec, consts, known):
    """range=lo:hi  the obligations hold on the whole range: look on both sides of the constants the code compares with"""
    lo, hi = (float(x) for x in sec.opts["range"].split(":"))
    for c in sorted(consts | {-c for c in consts}):
        if abs(c) < 1e-6: continue
        w = min(max(0.02, abs(c) / 64), abs(c) / 2)
        for a, b in ((c - w, math.nextafter(c, -math.inf)), (math.nextafter(c, math.inf), c + w)):
            if lo <= a and b <= hi and not any(r["x0"][0] <= a and b <= r["x0"][1] for r in known): yield {"x0": (a, b)}


def grown(sec, th, default):
    """sizes around the thresholds that the default size of the section does not reach"""
    hi = int(sec.opts["grow"])
    want = {}
    for c, fn in sorted(th.items()):
        if c < 0:
            c = -c
            if c <= 2 * default + 2: continue
        for n in (c, c + 1, c + 2, c + 3, 2 * c, 2 * c + 1):
            if default < n <= hi: want.setdefault(n, fn)
        # transforms of a power of two: thresholds may be on the size or on its logarithm
        if sec.opts.get("pow2") == "1" and 0 < c < 20 and default < 1 << c <= hi: want.setdefault(1 << c, fn)
    if sec.opts.get("pow2") == "1": want = {1 << (n - 1).bit_length(): fn for n, fn in sorted(want.items()) if default < 1 << (n - 1).bit_length() <= hi}
    return want


def analyse_section(args):
    """worker: one section, returns dict"""
    path, head, sec, defs, opq, budget, maxcases, seed = args
    res = {}
    th = []

    def go():
        res.update(_analyse(path, head, sec, defs, opq, budget, maxcases, seed))
    threading.stack_size(1 << 29)
    t = threading.Thread(target=go); t.start(); t.join()
    if not res:
        res.update(dict(name=sec.name, status="error", detail="internal", checks=[]))
    return res


def fixed_inputs(sec):
    """x3=1/2: the section is about this value of IN(3)"""
    return {int(k[1:]): Fraction(v) for k, v in sec.opts.items() if re.match(r"x\d+$", k)}


def boxes(sec):
    """box=0:lo:hi,1:lo:hi;0:lo:hi,...  the boxes of inputs the section is about (; separates boxes; lo/hi are doubles; hi- is the double below hi)"""
    for b in sec.opts["box"].split(";"):
        r = {}
        for p in b.split(","):
            k, lo, hi = p.split(":")
            def num(x):
                y = float(x.rstrip("-+")) if x[-1] in "-+" else float(x)
                return math.nextafter(y, -math.inf) if x[-1] == "-" else math.nextafter(y, math.inf) if x[-1] == "+" else y
            r["x" + k] = (num(lo), num(hi))
        yield r


def boxed(mod, om, fn, sec, seed, t0, consts=frozenset()):
    """interval abstract interpretation over boxes of inputs"""
    res = []
    bounds.DEG = int(sec.opts.get("deg", 8))
    bxs = list(boxes(sec))
    own = len(bxs)
    if "range" in sec.opts: bxs += list(around(sec, consts, bxs))[:24]
    for ib, bx in enumerate(bxs):
        first = len(res)
        nm = "; ".join("%s in [%.17g, %.17g]" % (k, a, b) for k, (a, b) in sorted(bx.items()))
        B = vg.Builder(mod, om)
        B.g.box = {k: vg.IV.mpf([a, b]) for k, (a, b) in bx.items()}
        B.fixed = fixed_inputs(sec)
        B.maxpeel = int(sec.opts.get("peel", B.maxpeel))
        try:
            B.run(fn)
        except (Unknown, RecursionError) as e:
            res.append(dict(fn=fn.name[1:], kind="build", label=nm, verdict="undecided", why=str(e), cases=0))
        except Exception as e:
            if os.environ.get("VG_DEBUG"): raise
            res.append(dict(fn=fn.name[1:], kind="build", label=nm, verdict="undecided", why="internal %s %s" % (type(e).__name__, str(e)[:100]), cases=0))
        # one obligation for all the traps
        tr = [ck for ck in B.checks if ck.kind in ("trap", "unreach")]
        cs = [ck for ck in B.checks if ck.kind not in ("trap", "unreach")]
        if tr:
            c = B.g.FALSE
            for ck in tr: c = B.g.bor(c, ck.cond)
            cs.append(vg.Check("trap", "none of %d traps: %s" % (len(tr), ", ".join(sorted({ck.label for ck in tr}))), (), c, tr[0].fn))
        for ck in cs:
            try:
                if time.time() - t0 > 300.0: raise Unknown("time budget of the section")
                if ck.cond == B.g.FALSE: v, n, why = "proved", 0, "unreachable"
                elif ck.kind in ("near", "trap"):
                    if ck.kind != "near": ck.args = (B.g.fc(Fraction(1)), B.g.fc(Fraction(0)), B.g.fc(Fraction(0)))
                    v, n, why = bounds.decide_near(B.g, ck, bx, gaps=sec.opts.get("gaps") == "1")
                else: raise Unknown("kind of obligation")
            except (Unknown, RecursionError) as e:
                v, n, why = "undecided", 0, str(e)
            except Exception as e:
                if os.environ.get("VG_DEBUG"): raise
                v, n, why = "undecided", 0, "internal %s %s" % (type(e).__name__, str(e)[:100])
            res.append(dict(fn=fn.name[1:], kind=ck.kind, label="%s (%s)" % (ck.label, nm), verdict=v, why=why, cases=n))
        # boxes around constants of the code come in addition to the section's own: what they leave open is not an obligation
        if ib >= own: res[first:] = [r for r in res[first:] if r["verdict"] != "undecided"]
    return res


def specialised(mod, om, fn, sec, seed, tries=6, limit=60.0):
    """the general analysis lost its way: refute, if possible, from single entry states"""
    t0 = time.time()
    for s in range(tries):
        if time.time() - t0 > limit: break
        B = vg.Builder(mod, om)
        B.spec = s
        B.decider = decide.Decider(B.g, budget=1.0, maxcases=100, seed=seed, wit=False)
        B.prune = sec.opts.get("prune") == "1"
        B.fixed = fixed_inputs(sec)
        B.maxpeel = int(sec.opts.get("peel", B.maxpeel))
        try:
            B.run(fn)
        except (Unknown, RecursionError): pass
        except Exception:
            if os.environ.get("VG_DEBUG"): raise
        D = decide.Decider(B.g, budget=5.0, maxcases=200, seed=seed)
        bad = []
        for ck in B.checks:
            try:
                v, n, why = D.decide(ck)
            except (Unknown, RecursionError): continue
            except Exception:
                if os.environ.get("VG_DEBUG"): raise
                continue
            if v == "refuted": bad.append(dict(fn=fn.name[1:], kind=ck.kind, label=ck.label, verdict=v, why="entry state %d: %s" % (s, why), cases=n))
        if bad: return bad
    return []


def _analyse(path, head, sec, defs, opq, budget, maxcases, seed):
    t0 = time.time()
    sys.setrecursionlimit(400000)
    out = dict(name=sec.name, anchor=sec.anchor, desc=sec.desc, file=os.path.basename(path), line=sec.line, checks=[], status="ok", detail="")
    with tempfile.TemporaryDirectory(prefix="vg_") as tmp:
        d = list(defs)
        if "def" in sec.opts: d += ["-D" + x for x in sec.opts["def"].split(",")]
        if "n" in sec.opts and not any(x.startswith("-DVP_N=") for x in d): d.append("-DVP_N=" + sec.opts["n"])
        ll, err = compile_tu(path, head, [sec], tmp, sec.name, d)
        if ll is None:
            out.update(status="nocompile", detail=err.strip()[:600])
            return out
        names = dict(opq)
        if "noopaque" in sec.opts:
            for x in sec.opts["noopaque"].split(","): names.pop(x, None) if x != "all" else names.clear()
        if "opaque" in sec.opts:
            for x in sec.opts["opaque"].split(","): names[x] = x
        om = {mangle(k): v for k, v in names.items()}
        om.update(X87OM)
        try:
            ll2, err = normalise(ll, om, fold=sec.opts.get("fold", "").split(","), unroll=sec.opts.get("unroll"))
        except subprocess.TimeoutExpired:
            ll2, err = None, "normalisation timeout"
        if ll2 is None:
            out.update(status="undecided", detail="normalise: " + err[:200])
            return out
        out["reached"] = err
        if "grow" in sec.opts: out["thresholds"] = thresholds(open(ll + ".reach").read())
        consts = real_thresholds(open(ll + ".reach").read()) if "range" in sec.opts else frozenset()
        text = open(ll2).read()
    try:
        mod = llparse.parse_module(text)
    except Exception as e:
        out.update(status="undecided", detail="parse: %r" % (e,))
        return out
    nfun = 0; nins = 0
    for fn in mod.funcs.values():
        if not fn.name.startswith("@probe_"): continue
        nfun += 1
        nins += sum(len(b) for b in fn.blocks.values())
        if "box" in sec.opts:
            out["checks"] += boxed(mod, om, fn, sec, seed, t0, consts)
            continue
        B = vg.Builder(mod, om)
        B.decider = decide.Decider(B.g, budget=3.0, maxcases=300, seed=seed, wit=False)
        B.prune = sec.opts.get("prune") == "1"
        B.fixed = fixed_inputs(sec)
        B.maxpeel = int(sec.opts.get("peel", B.maxpeel))
        unk = None
        try:
            B.run(fn)
        except Unknown as e:
            unk = str(e)
        except RecursionError:
            unk = "recursion"
        except Exception as e:
            unk = "internal %s %r" % (type(e).__name__, str(e)[:100])
            if os.environ.get("VG_DEBUG"): raise
        if unk:
            out["checks"].append(dict(fn=fn.name[1:], kind="build", label="", verdict="undecided", why=unk, cases=0))
        if unk or os.environ.get("VG_SPEC"):
            out["checks"] += specialised(mod, om, fn, sec, seed)
        D = decide.Decider(B.g, budget=budget, maxcases=maxcases, seed=seed)
        seen = {}
        for ck in B.checks:
            try:
                if time.time() - t0 > 200.0: raise Unknown("time budget of the section")
                v, n, why = D.decide(ck)
            except Unknown as e:
                v, n, why = "undecided", 0, str(e)
            except RecursionError:
                v, n, why = "undecided", 0, "recursion"
            except Exception as e:
                if os.environ.get("VG_DEBUG"): raise
                v, n, why = "undecided", 0, "internal %s %s" % (type(e).__name__, str(e)[:100])
            out["checks"].append(dict(fn=fn.name[1:], kind=ck.kind, label=ck.label, verdict=v, why=why, cases=n))
    out["functions"] = nfun; out["instructions"] = nins; out["wall"] = round(time.time() - t0, 2)
    return out


def run_probes(files, defs=(), opq=OPQ, budget=20.0, maxcases=1500, seed=1, jobs=8, only=None):
    work = []
    for f in files:
        head, secs = parse_probe(f)
        for s in secs:
            if only and not re.search(only, s.name): continue
            work.append((f, head, s, list(defs), opq, budget, maxcases, seed))
    out = []
    with ProcessPoolExecutor(max_workers=jobs) as ex:
        more = []
        for w, r in zip(work, ex.map(analyse_section, work)):
            out.append(r)
            if "grow" in w[2].opts: more.append((w, r))
        # sections parametrised by a size VP_N are repeated at the sizes where the library's code changes path
        extra = []
        for w, r in more:
            s = w[2]
            if r.get("thresholds") is None: continue
            g = grown(s, r["thresholds"], int(s.opts["n"]))
            for n in sorted(g)[:16] + sorted(g)[16:][-6:]:
                o = dict(s.opts); o.pop("grow")
                o["def"] = ",".join(x for x in o.get("def", "").split(",") if x and not x.startswith("VP_N=")) 
                o["def"] = ",".join(x for x in (o["def"], "VP_N=%d" % n) if x)
                if n > 24: o.setdefault("unroll", "100"); o["peel"] = str(20 * n + 100)
                extra.append(w[:2] + (Section(s.name, s.anchor, s.desc + " (size %d, threshold in %s)" % (n, g[n][:60]), s.text, s.line, o),) + w[3:])
        for r in ex.map(analyse_section, extra):
            r["name"] += "@" + next((x for x in re.findall(r"size (\d+)", r.get("desc", ""))), "")
            out.append(r)
    return out


if __name__ == "__main__":
    import argparse
    ap = argparse.ArgumentParser()
    ap.add_argument("files", nargs="+"); ap.add_argument("--only"); ap.add_argument("-v", action="store_true")
    a = ap.parse_args()
    t0 = time.time()
    for r in run_probes(a.files, only=a.only):
        from collections import Counter
        c = Counter(x["verdict"] for x in r["checks"])
        print("%-28s %s %s (%ss)" % (r["name"], r["status"], dict(c), r.get("wall")), r["detail"][:500])
        for x in r["checks"]:
            if x["verdict"] in ("refuted", "undecided") or a.v:
                print("    %-9s %-6s %-40s cases=%d %s" % (x["verdict"], x["kind"], x["label"], x["cases"], x["why"][:300]))
    print("%.1fs" % (time.time() - t0))
