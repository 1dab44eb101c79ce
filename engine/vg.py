"""Algebraic value numbering over SSA (gated value graph).

build():  one forward dataflow pass over the acyclic, normalised IR of a probe function.  Every SSA value
          gets a node of a hash-consed value graph; control-flow joins become gated (ite) nodes, memory is
          a dataflow fact (object, offset) -> node.
decide(): every obligation (equality of two nodes, reachability of a trap, ...) is decided in the domain
          "rational functions over uninterpreted inputs, modulo the ring axioms and the declared axioms of the
          elementary functions".  Membership is decided by fingerprints in GF(2^127-628107969) (random interpretation,
          Gulwani & Necula 2004); gate conditions are never evaluated on data: the analysis case-splits over the
          sign of each gate expression and all cases have to agree.
A non-equal case becomes a reported violation only when a point of the value graph exhibits it (refutation
witness); otherwise the obligation is "undecided" and stays quiet.
"""
import time, math, random, sys, hashlib, zlib, mpmath
from fractions import Fraction
from llparse import *

sys.setrecursionlimit(200000)
PR = (1 << 127) - 628107969     # prime, 63 mod 64, 2 mod 3; every prime below 67 is a quadratic residue


class Unknown(Exception):
    pass


class Split(Exception):
    def __init__(self, what):
        self.what = what


# ------------------------------------------------------------------ constants
KNOWN = {
    "pi": math.pi, "sqrt2": math.sqrt(2), "sqrtpi": math.sqrt(math.pi), "e": math.e, "ln2": math.log(2), "ln10": math.log(10),
    "phi": (1 + 5 ** .5) / 2, "sqrt3": 3 ** .5, "log2e": 1 / math.log(2),
}
KCOMB = []
for pw in [(("pi", 1),), (("pi", 2),), (("sqrt2", 1),), (("sqrtpi", 1),), (("sqrt2", 1), ("sqrtpi", 1)), (("e", 1),), (("ln2", 1),), (("ln10", 1),), (("phi", 1),), (("sqrt3", 1),),
           (("sqrtpi", 3),), (("ln10", 1), ("ln2", -1)), (("sqrt2", 1), ("sqrtpi", -1)), (("ln2", 1), ("pi", 1)), (("ln2", 1), ("pi", -1)), (("sqrt2", 1), ("ln2", 1)), (("e", 2),)]:
    for s in (1, -1):
        v = 1.0; nm = []
        for x, k in pw:
            v *= KNOWN[x] ** (k * s); nm += [(x, 1 if k * s > 0 else -1)] * abs(k)
        KCOMB.append((tuple(nm), v))


def _simple(x, lim=2000):
    """simple rational close (few ulps) to the double x, or None"""
    f = Fraction(x)
    if f.denominator == 1:
        return f
    g = f.limit_denominator(lim)
    if g != 0 and abs(f - g) <= abs(f) * Fraction(1, 1 << 51):
        return g
    return None


_cc = {}


def classify_const(fr):
    """double constant -> (rational, [(symbol, power)])"""
    if fr in _cc:
        return _cc[fr]
    r = None
    g = _simple(fr)
    if g is not None:
        r = (g, ())
    else:
        x = float(fr)
        for names, v in KCOMB:
            q = x / v
            if not (1e-6 < abs(q) < 1e6):
                continue
            h = Fraction(q).limit_denominator(200)
            if h != 0 and abs(float(h) - q) <= abs(q) * 2e-15:
                r = (h, names)
                break
        if r is None:
            r = (fr, ())
    _cc[fr] = r
    return r


# ------------------------------------------------------------------ graph
NUMK = ("c", "in", "ite", "fadd", "fsub", "fmul", "fdiv", "fneg", "app")
IV = mpmath.iv
IV.prec = 200


def _pos(f):
    def h(x):
        if not x.a > 0: return None
        return f(x)
    return h


NUMFN = {"sqrt": lambda x: IV.sqrt(x) if x.a >= 0 else None, "exp": IV.exp, "sin": IV.sin, "cos": IV.cos, "ln": _pos(IV.log), "log": _pos(IV.log), "log2": _pos(lambda x: IV.log(x) / IV.log(2)), "exp2": lambda x: IV.exp(x * IV.log(2))}


class Graph:
    def __init__(self):
        self.nodes = []
        self.idx = {}
        self.sup = []     # support: frozenset of atom ids or None lazily
        self.TRUE = self.mk(("bc", True))
        self.FALSE = self.mk(("bc", False))
        self.UNDEF = self.mk(("undef",))
        self.consts = set(); self.nums = {}; self.box = {}

    def mk(self, t):
        i = self.idx.get(t)
        if i is None:
            i = len(self.nodes)
            self.idx[t] = i
            self.nodes.append(t)
        return i

    # booleans
    def bnot(self, a):
        t = self.nodes[a]
        if t[0] == "bc": return self.FALSE if t[1] else self.TRUE
        if t[0] == "not": return t[1]
        return self.mk(("not", a))

    def band(self, a, b):
        if a == self.TRUE: return b
        if b == self.TRUE: return a
        if a == self.FALSE or b == self.FALSE: return self.FALSE
        if a == b: return a
        if self.bnot(a) == b: return self.FALSE
        return self.mk(("and", a, b))

    def bor(self, a, b):
        if a == self.FALSE: return b
        if b == self.FALSE: return a
        if a == self.TRUE or b == self.TRUE: return self.TRUE
        if a == b: return a
        if self.bnot(a) == b: return self.TRUE
        na, nb = self.nodes[a], self.nodes[b]
        # (x & c) | (x & !c) = x
        if na[0] == "and" and nb[0] == "and":
            A, B = {na[1], na[2]}, {nb[1], nb[2]}
            for x in A & B:
                ra = (A - {x} or {x}).copy().pop(); rb = (B - {x} or {x}).copy().pop()
                if self.bnot(ra) == rb:
                    return x
        return self.mk(("or", a, b))

    def ite(self, c, a, b):
        if c == self.TRUE: return a
        if c == self.FALSE: return b
        if a == b: return a
        if a == self.UNDEF: return b
        if b == self.UNDEF: return a
        if a == self.TRUE and b == self.FALSE: return c
        if a == self.FALSE and b == self.TRUE: return self.bnot(c)
        t = self.nodes[c]
        if t[0] == "not":
            return self.mk(("ite", t[1], b, a))
        return self.mk(("ite", c, a, b))

    def isbool(self, a):
        return self.nodes[a][0] in ("bc", "not", "and", "or", "icmp", "fcmp")

    def ic(self, v, bits):
        if bits == 1:
            return self.TRUE if v & 1 else self.FALSE
        return self.mk(("ic", v & ((1 << bits) - 1), bits))

    def fc(self, fr):
        if isinstance(fr, tuple):
            return self.mk(fr)
        self.consts.add(fr)
        return self.mk(("c", fr))

    def num(self, a):
        """enclosure of a node whose leaves are all constants, or None"""
        if a in self.nums: return self.nums[a]
        st = [a]
        while st:
            x = st[-1]
            if x in self.nums: st.pop(); continue
            t = self.nodes[x]
            r = None
            if t[0] == "c": r = IV.mpf(t[1].numerator) / IV.mpf(t[1].denominator)
            elif t[0] == "in": r = self.box.get(t[1])
            elif t[0] in ("fadd", "fsub", "fmul", "fdiv", "fneg") or t[0] == "app" and t[1] in NUMFN or t[0] == "ite" and self.box:
                ch = t[2:] if t[0] in ("app", "ite") else t[1:]
                todo = [y for y in ch if y not in self.nums]
                if todo and not any(self.nums.get(y, 1) is None for y in ch): st.append(todo[0]); continue
                v = [self.nums.get(y) for y in ch]
                if not any(y is None for y in v):
                    try:
                        if t[0] == "fadd": r = v[0] + v[1]
                        elif t[0] == "fsub": r = v[0] - v[1]
                        elif t[0] == "fmul": r = v[0] * v[1]
                        elif t[0] == "fneg": r = -v[0]
                        elif t[0] == "ite": r = IV.mpf([min(v[0].a, v[1].a), max(v[0].b, v[1].b)])
                        elif t[0] == "fdiv": r = v[0] / v[1] if v[1].a > 0 or v[1].b < 0 else None
                        else: r = NUMFN[t[1]](*v)
                        if r is not None and not (r.a > -1e300 and r.b < 1e300): r = None
                    except Exception: r = None
            self.nums[x] = r; st.pop()
        return self.nums[a]

    def support(self, a):
        """atoms and opaque applications below a (ids)"""
        seen = set(); out = set(); st = [a]
        while st:
            x = st.pop()
            if x in seen: continue
            seen.add(x)
            t = self.nodes[x]
            if t[0] in ("in", "iin", "app", "iapp"):
                out.add(x)
            for y in t[1:]:
                pass
            st.extend(self.children(t))
        return out

    def children(self, t):
        k = t[0]
        if k in ("bc", "undef", "ic", "c", "nan", "inf", "in", "iin", "clash", "uninit"): return ()
        if k in ("app", "iapp"): return t[2:] if k == "app" else t[3:]
        if k == "ibin": return (t[3], t[4])
        if k == "icmp": return (t[3], t[4])
        if k == "fcmp": return (t[2], t[3])
        if k == "cast": return (t[4],)
        if k == "ptr": return (t[2],)
        if k == "agg": return t[1:]
        if k in ("ctz",): return (t[3],)
        return t[1:]


def s64(v, bits):
    v &= (1 << bits) - 1
    return v - (1 << bits) if v >> (bits - 1) else v


def iop(op, bits, a, b):
    M = (1 << bits) - 1
    if op == "add": return (a + b) & M
    if op == "sub": return (a - b) & M
    if op == "mul": return (a * b) & M
    if op == "and": return a & b
    if op == "or": return a | b
    if op == "xor": return a ^ b
    if op == "shl": return (a << b) & M if b < bits else 0
    if op == "lshr": return a >> b if b < bits else 0
    if op == "ashr": return (s64(a, bits) >> min(b, bits - 1)) & M
    if op == "udiv": return a // b if b else 0
    if op == "urem": return a % b if b else 0
    if op == "sdiv":
        x, y = s64(a, bits), s64(b, bits)
        if y == 0: return 0
        q = abs(x) // abs(y)
        return (q if (x < 0) == (y < 0) else -q) & M
    if op == "srem":
        x, y = s64(a, bits), s64(b, bits)
        if y == 0: return 0
        r = abs(x) % abs(y)
        return (-r if x < 0 else r) & M
    if op == "umin": return min(a, b)
    if op == "umax": return max(a, b)
    if op == "smin": return a if s64(a, bits) < s64(b, bits) else b
    if op == "smax": return a if s64(a, bits) > s64(b, bits) else b
    if op == "usub.sat": return max(0, a - b)
    if op == "uadd.sat": return min(M, a + b)
    raise Unknown("iop " + op)


def submasks(m):
    r = [0]
    for b in range(m.bit_length()):
        if m >> b & 1: r += [x | 1 << b for x in r]
    return r


def icmpv(pred, bits, a, b):
    if pred[0] == "s":
        a, b = s64(a, bits), s64(b, bits)
    p = pred[-2:]
    if pred == "eq": return a == b
    if pred == "ne": return a != b
    return {"lt": a < b, "le": a <= b, "gt": a > b, "ge": a >= b}[p]


class Check:
    __slots__ = ("kind", "label", "args", "cond", "fn")

    def __init__(self, kind, label, args, cond, fn):
        self.kind, self.label, self.args, self.cond, self.fn = kind, label, args, cond, fn


CHECK_FNS = {"@EQ": "eq", "@EQI": "eqi", "@ISNAN": "nan", "@FIN": "fin", "@UNREACH": "unreach", "@NEAR": "near"}
TRAPS = ("@llvm.ubsantrap", "@llvm.trap", "@_ZSt21__glibcxx_assert_failPKciS0_S0_", "@abort", "@_ZSt20__throw_length_errorPKc",
         "@_ZSt24__throw_out_of_range_fmtPKcz", "@_ZSt20__throw_out_of_rangePKc", "@_ZSt17__throw_bad_allocv",
         "@_ZSt28__throw_bad_array_new_lengthv", "@_ZSt25__throw_bad_function_callv", "@exit", "@_ZSt9terminatev", "@__assert_fail")

# opaque (uninterpreted) functions with declared axioms: mangled name -> short name
OPAQUE = {}


# A specialised analysis starts from one entry state (constants for the inputs, a fixed interpretation of the probe
# functions) instead of all of them: what it refutes is refuted, what it accepts says nothing.
def spec_in(s, k):
    if s == 0: return Fraction(8 * k + 9 + 3 * k % 7, 8)
    if s == 1: return Fraction(2 * k + 1, 32)
    if s == 2: return Fraction(40 - 9 * k - (k * k) % 5, 8)
    h = zlib.crc32(b"in%d,%d" % (s, k))
    return Fraction(h % 129 - 64, 16 if s % 2 else 32)


def spec_nat(s, k): return (k + 2, k + 1, 3)[s] if s < 3 else zlib.crc32(b"n%d,%d" % (s, k)) % 7


def spec_uf(s, name, args): return Fraction(zlib.crc32(("%d%s%s" % (s, name, args)).encode()) % 97 - 48, 16) if s % 2 == 0 else sum((Fraction(zlib.crc32(("%d%s%d" % (s, name, i)).encode()) % 31 - 15, 8) * a ** (i + 1) for i, a in enumerate(args)), Fraction(1, 4))


class Builder:
    def __init__(self, mod, opaque):
        self.m = mod; self.g = Graph(); self.opaque = opaque
        self.checks = []; self.nobj = 0; self.objsize = {}; self.depth = 0; self.undecided = []
        self.globmem = {}
        self.maxpeel = 400
        self.decider = None; self.prune = False; self.spec = None; self.fixed = {}; self.feasmemo = {}; self.feastime = 0.0; self.nalloc = 0

    # --------------------------------------------------------- operands
    def newobj(self, kind, size):
        self.nobj += 1
        b = "%s#%d" % (kind, self.nobj)
        self.objsize[b] = size
        return b

    def ptr(self, base, off=0):
        return self.g.mk(("ptr", base, self.g.ic(off, 64)))

    def val(self, env, ty, v):
        g = self.g
        k = v[0]
        if k == "r": 
            if v[1] not in env:
                raise Unknown("use of value defined in an unanalysed cycle: " + v[1])
            return env[v[1]]
        if k == "i":
            t = self.m.resolve(ty)
            return g.ic(v[1], t.a)
        if k == "f":
            return g.fc(v[1])
        if k == "g":
            return self.ptr(v[1])
        if k == "null": return self.ptr("null")
        if k in ("undef", "poison"): return g.UNDEF
        if k == "zero": return self.zero(ty)
        if k == "cgep": return self.gep(env, v[1], v[2])
        if k == "ccast":
            x = self.val(env, v[2], v[3])
            return self.cast(v[1], v[2], x, v[4])
        if k == "cbin":
            t = self.m.resolve(v[2])
            return self.ibin(v[1], t.a, self.val(env, v[2], v[3]), self.val(env, v[2], v[4]))
        if k == "agg":
            return g.mk(("agg",) + tuple(self.val(env, t, x) for t, x in v[1]))
        if k == "splat":
            t = self.m.resolve(ty)
            return g.mk(("agg",) + tuple(self.val(env, t.b, v[1]) for _ in range(t.a)))
        if k == "str":
            return g.mk(("strc", v[1]))
        raise Unknown("operand " + str(v)[:80])

    def zero(self, ty):
        t = self.m.resolve(ty)
        if t.k == "int": return self.g.ic(0, t.a)
        if t.k == "fp": return self.g.fc(Fraction(0))
        if t.k == "ptr": return self.ptr("null")
        if t.k == "struct": return self.g.mk(("agg",) + tuple(self.zero(x) for x in t.a))
        if t.k in ("arr", "vec"): return self.g.mk(("agg",) + tuple(self.zero(t.b) for _ in range(t.a)))
        raise Unknown("zero")

    # lift over ite
    def lift(self, f, *xs):
        """apply f to nodes, distributing over ite arguments (bounded); equal gates are taken together"""
        return self.lift_(f, xs, {})

    def lift_(self, f, xs, asm):
        g = self.g
        for i, x in enumerate(xs):
            t = g.nodes[x]
            while t[0] == "ite" and (t[1] in asm or g.bnot(t[1]) in asm):
                v = asm[t[1]] if t[1] in asm else not asm[g.bnot(t[1])]
                x = t[2] if v else t[3]
                t = g.nodes[x]
            if x != xs[i]: xs = xs[:i] + (x,) + xs[i + 1:]
            if t[0] == "ite":
                a = self.lift_(f, xs[:i] + (t[2],) + xs[i + 1:], {**asm, t[1]: True})
                b = self.lift_(f, xs[:i] + (t[3],) + xs[i + 1:], {**asm, t[1]: False})
                return g.ite(t[1], a, b)
        return f(*xs)

    def ibin(self, op, bits, a, b):
        g = self.g
        ta, tb = g.nodes[a], g.nodes[b]
        if a == g.UNDEF or b == g.UNDEF: return g.UNDEF
        if bits == 1:
            if op == "and": return g.band(a, b)
            if op == "or": return g.bor(a, b)
            if op in ("xor", "add", "sub"): return g.ite(a, g.bnot(b), b)
            if op == "mul": return g.band(a, b)
        if ta[0] == "ic" and tb[0] == "ic":
            if op in ("udiv", "sdiv", "urem", "srem") and tb[1] == 0:
                return g.UNDEF
            return g.ic(iop(op, bits, ta[1], tb[1]), bits)
        if tb[0] == "ic":
            c = tb[1]
            if c == 0 and op in ("add", "sub", "or", "xor", "shl", "lshr", "ashr"): return a
            if c == 0 and op in ("mul", "and"): return b
            if c == 1 and op in ("mul", "udiv", "sdiv"): return a
        if ta[0] == "ic":
            if ta[1] == 0 and op in ("add", "or", "xor"): return b
            if ta[1] == 0 and op in ("mul", "and"): return a
        if ta[0] == "ptr" or tb[0] == "ptr":
            # ptrtoint arithmetic
            if ta[0] == "ptr" and tb[0] == "ptr" and op == "sub" and ta[1] == tb[1]:
                return self.ibin("sub", 64, ta[2], tb[2])
            if ta[0] == "ptr" and op in ("add", "sub"):
                return g.mk(("ptr", ta[1], self.ibin(op, 64, ta[2], b)))
            if tb[0] == "ptr" and op == "add":
                return g.mk(("ptr", tb[1], self.ibin(op, 64, tb[2], a)))
        if (ta[0] == "ite" and (tb[0] in ("ic", "ptr", "ite"))) or (tb[0] == "ite" and ta[0] in ("ic", "ptr")):
            if self.leaves(a) * self.leaves(b) <= 64:
                return self.lift(lambda x, y: self.ibin(op, bits, x, y), a, b)
        if op in ("add", "mul", "and", "or", "xor") and a > b:
            a, b = b, a
        return g.mk(("ibin", op, bits, a, b))

    def leaves(self, x, lim=100):
        t = self.g.nodes[x]
        if t[0] != "ite" or lim <= 0: return 1
        return self.leaves(t[2], lim // 2) + self.leaves(t[3], lim // 2)

    def icmp(self, pred, bits, a, b):
        g = self.g
        ta, tb = g.nodes[a], g.nodes[b]
        if a == g.UNDEF or b == g.UNDEF: return g.UNDEF
        if bits == 1 and pred in ("eq", "ne"):
            x = g.ite(a, b, g.bnot(b))
            return x if pred == "eq" else g.bnot(x)
        if bits == 1 and ta[0] != "ic":
            raise Unknown("icmp i1 " + pred)
        if ta[0] == "ic" and tb[0] == "ic":
            return g.TRUE if icmpv(pred, bits, ta[1], tb[1]) else g.FALSE
        if ta[0] == "ptr" and tb[0] == "ptr":
            if ta[1] == tb[1]:
                return self.icmp(pred, 64, ta[2], tb[2])
            if pred == "eq": return g.FALSE
            if pred == "ne": return g.TRUE
            if "null" in (ta[1], tb[1]):
                # non-null objects compare above null
                gt = tb[1] == "null"
                return g.TRUE if (("gt" in pred or "ge" in pred) == gt) else g.FALSE
            # distinct objects: order unspecified -> opaque
            return g.mk(("icmp", pred, 64, a, b))
        if a == b:
            return g.TRUE if pred in ("eq", "ule", "uge", "sle", "sge") else g.FALSE
        if (ta[0] == "ite" and tb[0] in ("ic", "ptr", "ite")) or (tb[0] == "ite" and ta[0] in ("ic", "ptr")):
            if self.leaves(a) * self.leaves(b) <= 64:
                return self.lift(lambda x, y: self.icmp(pred, bits, x, y), a, b)
        if pred == "ne":
            return g.bnot(self.icmp("eq", bits, a, b))
        if pred in ("ugt", "uge", "sgt", "sge"):
            inv = {"ugt": "ule", "uge": "ult", "sgt": "sle", "sge": "slt"}[pred]
            return g.bnot(self.icmp(inv, bits, a, b))
        return g.mk(("icmp", pred, bits, a, b))

    def fcmp(self, pred, a, b):
        g = self.g
        ta, tb = g.nodes[a], g.nodes[b]
        if a == g.UNDEF or b == g.UNDEF: return g.UNDEF
        if pred == "true": return g.TRUE
        if pred == "false": return g.FALSE
        if ta[0] == "c" and tb[0] == "c":
            x, y = ta[1], tb[1]
            p = pred[1:]
            r = {"lt": x < y, "gt": x > y, "le": x <= y, "ge": x >= y, "eq": x == y, "ne": x != y}.get(p)
            if pred == "ord": r = True
            if pred == "uno": r = False
            return g.TRUE if r else g.FALSE
        if ta[0] == "nan" or tb[0] == "nan": return g.TRUE if pred[0] == "u" else g.FALSE
        if (ta[0] == "inf" or tb[0] == "inf") and ta[0] in ("c", "inf") and tb[0] in ("c", "inf"):
            x, y = (float(t[1]) if t[0] == "c" else -math.inf if t[1] else math.inf for t in (ta, tb))
            r = {"lt": x < y, "gt": x > y, "le": x <= y, "ge": x >= y, "eq": x == y, "ne": x != y}.get(pred[1:])
            if pred == "ord": r = True
            if pred == "uno": r = False
            return g.TRUE if r else g.FALSE
        if ta[0] in NUMK and tb[0] in NUMK:
            x = g.num(a)
            y = g.num(b) if x is not None else None
            if y is not None:
                if pred == "ord": return g.TRUE
                if pred == "uno": return g.FALSE
                if x.b < y.a or y.b < x.a:
                    lt = bool(x.b < y.a)
                    return g.TRUE if {"lt": lt, "le": lt, "gt": not lt, "ge": not lt, "eq": False, "ne": True}[pred[1:]] else g.FALSE
                if g.box:
                    if x.a >= y.b and pred[1:] in ("lt", "ge"): return g.TRUE if pred[1:] == "ge" else g.FALSE
                    if x.b <= y.a and pred[1:] in ("gt", "le"): return g.TRUE if pred[1:] == "le" else g.FALSE
        return g.mk(("fcmp", pred, a, b))

    def fbin(self, op, a, b):
        g = self.g
        if a == g.UNDEF or b == g.UNDEF: return g.UNDEF
        ta, tb = g.nodes[a], g.nodes[b]
        if ta[0] == "c" and tb[0] == "c" and op != "frem":
            x, y = ta[1], tb[1]
            if op == "fadd": return g.fc(x + y)
            if op == "fsub": return g.fc(x - y)
            if op == "fmul": return g.fc(x * y)
            if op == "fdiv" and y != 0: return g.fc(x / y)
            if op == "fdiv" and x == 0: return g.mk(("nan",))
            if op == "fdiv" and self.spec is not None: return g.mk(("inf", 1 if x < 0 else 0))
        if ta[0] == "nan" or tb[0] == "nan": return g.mk(("nan",))
        if (ta[0] == "inf" or tb[0] == "inf") and ta[0] in ("c", "inf") and tb[0] in ("c", "inf") and op != "frem":
            x, y = (float(t[1]) if t[0] == "c" else -math.inf if t[1] else math.inf for t in (ta, tb))
            if op == "fdiv" and y == 0:
                if self.spec is not None: return a
            else:
                r = x + y if op == "fadd" else x - y if op == "fsub" else x * y if op == "fmul" else x / y
                return g.mk(("nan",)) if r != r else g.fc(Fraction(r)) if math.isfinite(r) else g.mk(("inf", 1 if r < 0 else 0))
        if op in ("fadd", "fmul") and a > b:
            a, b = b, a
        return g.mk((op, a, b))

    def cast(self, op, t1, x, t2):
        g = self.g
        if x == g.UNDEF: return x
        t1 = self.m.resolve(t1); t2 = self.m.resolve(t2)
        t = g.nodes[x]
        if op in ("ptrtoint", "inttoptr", "addrspacecast"):
            if op == "inttoptr" and t[0] == "ic":
                return self.ptr("abs", t[1]) if t[1] else self.ptr("null")
            return x
        if op == "bitcast":
            if t1.k == t2.k: return x
            if t[0] == "ic" and t2.k == "fp":
                import struct
                if t2.a == 64:
                    d = struct.unpack("<d", struct.pack("<Q", t[1]))[0]
                    if d != d: return g.mk(("nan",))
                    if math.isinf(d): return g.mk(("inf", 1 if d < 0 else 0))
                    return g.fc(Fraction(d))
            if t[0] == "c" and t2.k == "int" and t2.a == 64:
                import struct
                return g.ic(struct.unpack("<Q", struct.pack("<d", float(t[1])))[0], 64)
            if t[0] == "cast" and t[1] == "bitcast":
                return t[4]
            return g.mk(("cast", "bitcast", 0, t2.a, x))
        if op in ("fptrunc", "fpext"):
            return x      # exact-real semantics
        if t[0] == "ite" and self.leaves(x) <= 64:
            return self.lift(lambda y: self.cast(op, t1, y, t2), x)
        if op in ("uitofp", "sitofp"):
            if t1.a == 1:
                return g.ite(x, g.fc(Fraction(1 if op == "uitofp" else -1)), g.fc(Fraction(0)))
            if t[0] == "ic":
                return g.fc(Fraction(t[1] if op == "uitofp" else s64(t[1], t1.a)))
            return g.mk(("cast", op, t1.a, 0, x))
        if op in ("fptoui", "fptosi"):
            if t[0] == "c":
                f = t[1]
                v = int(f) if f >= 0 else -int(-f)
                return g.ic(v, t2.a)
            if g.box and t[0] in NUMK:
                e = g.num(x)
                if e is not None:
                    lo, hi = int(mpmath.mpf(e.a)), int(mpmath.mpf(e.b))
                    if lo == hi: return g.ic(lo, t2.a)
            return g.mk(("cast", op, 0, t2.a, x))
        # int casts
        if t1.a == 1 and op in ("zext", "sext"):
            return g.ite(x, g.ic(1 if op == "zext" else -1, t2.a), g.ic(0, t2.a))
        if t[0] == "ic":
            if op == "sext": return g.ic(s64(t[1], t1.a), t2.a)
            return g.ic(t[1], t2.a)
        if op == "trunc" and t2.a == 1:
            return self.icmp("ne", t1.a, self.ibin("and", t1.a, x, g.ic(1, t1.a)), g.ic(0, t1.a))
        if op == "trunc" and t[0] == "cast" and t[1] in ("zext", "sext") and t[2] == t2.a:
            return t[4]
        if op == "trunc" and t[0] == "ptr":
            return g.mk(("cast", op, t1.a, t2.a, x))
        return g.mk(("cast", op, t1.a, t2.a, x))

    def gep(self, env, ty, args):
        g = self.g
        base = self.val(env, args[0][0], args[0][1])
        t = ty
        idx = []
        off_c = 0
        dyn = []
        for j, (at, av) in enumerate(args[1:]):
            x = self.val(env, at, av)
            bits = self.m.resolve(at).a
            n = g.nodes[x]
            if j == 0:
                sz = self.m.size(t)
            else:
                rt = self.m.resolve(t)
                if rt.k == "struct":
                    o, t = self.m.field(rt, n[1])
                    off_c += o
                    continue
                t = rt.b
                sz = self.m.size(t)
            if n[0] == "ic":
                off_c += s64(n[1], bits) * sz
            else:
                if bits < 64:
                    x = self.cast("sext", ity(bits), x, ity(64))
                dyn.append(self.ibin("mul", 64, x, g.ic(sz, 64)))
        o = g.ic(off_c, 64)
        for d in dyn:
            o = self.ibin("add", 64, d, o)

        def add(p):
            t = g.nodes[p]
            if t[0] == "ptr":
                return g.mk(("ptr", t[1], self.ibin("add", 64, t[2], o)))
            if p == g.UNDEF: return p
            raise Unknown("gep base " + str(t)[:60])
        return self.lift(add, base)

    # --------------------------------------------------------- memory
    def ginit(self, base):
        if base in self.globmem:
            return self.globmem[base]
        out = {}
        gl = self.m.globals.get(base)
        if gl and gl.get("init") is not None:
            self.objsize[base] = self.m.size(gl["ty"])

            def put(off, ty, v):
                t = self.m.resolve(ty)
                if v[0] == "zero":
                    for o in range(self.m.size(ty)):
                        out[off + o] = (1, "z")
                    return
                if t.k == "struct" and v[0] == "agg":
                    for i, (et, ev) in enumerate(v[1]):
                        o, _ = self.m.field(t, i)
                        put(off + o, et, ev)
                    return
                if t.k in ("arr", "vec"):
                    sz = self.m.size(t.b)
                    if v[0] == "agg":
                        for i, (et, ev) in enumerate(v[1]):
                            put(off + i * sz, et, ev)
                        return
                    if v[0] == "str":
                        bs = unescape(v[1])
                        for i, c in enumerate(bs):
                            out[off + i] = (1, self.g.ic(c, 8))
                        return
                out[off] = (self.m.size(ty), self.val({}, ty, v))
            put(0, gl["ty"], gl["init"])
        elif gl and gl.get("ext"):
            try:
                self.objsize[base] = self.m.size(gl["ty"])
            except Exception:
                pass
        self.globmem[base] = out
        return out

    def mget(self, mem, base):
        if base in mem: return mem[base]
        if base.startswith("@"): return self.ginit(base)
        return {}

    def bounds(self, base, off, size, cond, what):
        if base == "null":
            self.checks.append(Check("trap", "null pointer %s" % what, (), cond, self.fn.name))
            return False
        s = self.objsize.get(base)
        if s is not None and (off < 0 or off + size > s):
            self.checks.append(Check("trap", "out-of-bounds %s at byte %d of %d-byte object" % (what, off, s), (), cond, self.fn.name))
            return False
        return True

    def show(self, n, d):
        t = self.g.nodes[n]
        if d == 0: return "..."
        return "(" + " ".join(self.show(x, d - 1) if isinstance(x, int) and i >= {"ibin": 3, "cast": 4, "ite": 1, "icmp": 3}.get(t[0], 99) else str(x) for i, x in enumerate(t)) + ")"

    def enum_off(self, t):
        """pointer whose offset depends on one index of small range: a gate per value of the index"""
        g = self.g
        best = None; seen = set(); st = [t[2]]
        while st:
            n = st.pop()
            if n in seen: continue
            seen.add(n)
            u = g.nodes[n]
            if u[0] == "ic": continue
            if u[0] == "ibin":
                c = g.nodes[u[4]]
                if u[1] == "urem" and c[0] == "ic" and 0 < c[1] <= 32: r = tuple(range(c[1]))
                elif u[1] == "and" and g.nodes[u[3]][0] == "ic" and 0 < bin(g.nodes[u[3]][1]).count("1") <= 5: r = tuple(submasks(g.nodes[u[3]][1]))
                elif u[1] == "and" and c[0] == "ic" and 0 < bin(c[1]).count("1") <= 5: r = tuple(k for k in submasks(c[1]))
                elif u[1] == "lshr" and c[0] == "ic" and u[2] - 5 <= c[1] < u[2]: r = tuple(range(1 << (u[2] - c[1])))
                elif u[1] in ("add", "sub", "mul", "shl"): st += [u[3], u[4]]; continue
                else: return None
                if best not in (None, (n, u[2], r)): return None
                best = (n, u[2], r)
            elif u[0] == "cast" and u[1] in ("zext", "sext", "trunc"): st.append(u[4])
            else: return None
        if best is None: return None
        n, w, r = best

        def sub(x, c):
            if x == n: return c
            u = g.nodes[x]
            if u[0] == "ibin": return self.ibin(u[1], u[2], sub(u[3], c), sub(u[4], c))
            if u[0] == "cast": return self.cast(u[1], ity(u[2]), sub(u[4], c), ity(u[3]))
            return x
        o = sub(t[2], g.ic(r[-1], w))
        for k in r[-2::-1]:
            o = g.ite(self.icmp("eq", w, n, g.ic(k, w)), sub(t[2], g.ic(k, w)), o)
        return g.mk(("ptr", t[1], o))

    def enum_obj(self, t, size):
        """pointer at an arbitrary offset of a small object: a gate per element, anything else is out of bounds"""
        g = self.g
        s = self.objsize.get(t[1])
        if not s or not size or s // size > 16: return None
        o = g.ic(s, 64)
        for k in range(0, s - size + 1, size):
            o = g.ite(self.icmp("eq", 64, t[2], g.ic(k, 64)), g.ic(k, 64), o)
        return g.mk(("ptr", t[1], o))

    def load(self, mem, p, ty, cond):
        g = self.g
        t = g.nodes[p]
        if p == g.UNDEF:
            return g.UNDEF
        if t[0] == "ite":
            return g.ite(t[1], self.load(mem, t[2], ty, g.band(cond, t[1])), self.load(mem, t[3], ty, g.band(cond, g.bnot(t[1]))))
        if t[0] != "ptr":
            raise Unknown("load via " + str(t)[:60])
        on = g.nodes[t[2]]
        if on[0] == "ite":
            return g.ite(on[1], self.load(mem, g.mk(("ptr", t[1], on[2])), ty, g.band(cond, on[1])),
                         self.load(mem, g.mk(("ptr", t[1], on[3])), ty, g.band(cond, g.bnot(on[1]))))
        rt = self.m.resolve(ty)
        size = self.m.size(ty)
        if on[0] != "ic":
            q = self.enum_off(t)
            if q is None: q = self.enum_obj(t, size)
            if q is None: raise Unknown("load at symbolic offset " + self.show(t[2], 4))
            return self.load(mem, q, ty, cond)
        off = s64(on[1], 64)
        if not self.bounds(t[1], off, size, cond, "read"):
            return g.UNDEF
        if rt.k in ("struct", "arr", "vec"):
            if rt.k == "struct":
                return g.mk(("agg",) + tuple(self.load(mem, self.ptr(t[1], off + self.m.field(rt, i)[0]), x, cond) for i, x in enumerate(rt.a)))
            sz = self.m.size(rt.b)
            return g.mk(("agg",) + tuple(self.load(mem, self.ptr(t[1], off + i * sz), rt.b, cond) for i in range(rt.a)))
        d = self.mget(mem, t[1])
        e = d.get(off)
        if e is not None and e[1] != "z" and e[0] == size:
            n = e[1]
            return self.coerce(n, rt, size)
        if e is not None and e[1] == "z" and all(d.get(off + i) == (1, "z") for i in range(size)):
            return self.zero(ty)
        # bytes
        if rt.k == "int" and e is not None and all(d.get(off + i, (0, 0))[0] == 1 for i in range(size)):
            r = g.ic(0, rt.a)
            for i in range(size):
                b = d[off + i][1]
                b = g.ic(0, 8) if b == "z" else b
                w = self.cast("zext", ity(8), b, rt)
                r = self.ibin("or", rt.a, r, self.ibin("shl", rt.a, w, g.ic(8 * i, rt.a)))
            return r
        # narrower load inside a wider integer entry, or wide load over entries
        for o in range(off - 15, off + 1):
            e = d.get(o)
            if e and e[1] != "z" and o + e[0] >= off + size and rt.k == "int":
                wide = self.coerce(e[1], ity(e[0] * 8), e[0])
                sh = self.ibin("lshr", e[0] * 8, wide, g.ic((off - o) * 8, e[0] * 8))
                return self.cast("trunc", ity(e[0] * 8), sh, rt)
        if rt.k == "int" and size in (2, 4, 8, 16):
            # assemble from aligned smaller entries
            parts = []
            o = off
            ok = True
            while o < off + size:
                e = d.get(o)
                if e is None: ok = False; break
                sz2 = e[0]
                n = g.ic(0, 8) if e[1] == "z" else self.coerce(e[1], ity(sz2 * 8), sz2)
                parts.append((o - off, sz2, n))
                o += sz2
            if ok and o == off + size:
                r = g.ic(0, rt.a)
                for po, sz2, n in parts:
                    r = self.ibin("or", rt.a, r, self.ibin("shl", rt.a, self.cast("zext", ity(sz2 * 8), n, rt), g.ic(8 * po, rt.a)))
                return r
        if not any(o < off + size and o + e[0] > off for o, e in d.items()):
            # never written
            if t[1].startswith("stack") or t[1].startswith("heap"):
                return g.mk(("uninit", t[1], off))
            return self.atom_mem(t[1], off, rt)
        raise Unknown("mixed-size load from %s+%d" % (t[1], off))

    def atom_mem(self, base, off, rt):
        if rt.k == "fp": return self.g.mk(("in", "mem:%s+%d" % (base, off)))
        if rt.k == "int":
            return self.g.mk(("iin", "mem:%s+%d" % (base, off), rt.a))
        if rt.k == "ptr": return self.ptr("*%s+%d" % (base, off))
        raise Unknown("load of unknown memory")

    def coerce(self, n, rt, size):
        g = self.g
        t = g.nodes[n]
        if t[0] == "ite":
            return g.ite(t[1], self.coerce(t[2], rt, size), self.coerce(t[3], rt, size))
        isf = t[0] in ("c", "nan", "inf", "in", "fadd", "fsub", "fmul", "fdiv", "fneg", "app", "frem") or (t[0] == "cast" and (t[1] in ("uitofp", "sitofp") or (t[1] == "bitcast" and False)))
        isi = t[0] in ("ic", "iin", "ibin", "iapp") or (t[0] == "cast" and t[1] in ("trunc", "zext", "sext", "fptoui", "fptosi"))
        if rt.k == "fp" and isi: return self.cast("bitcast", ity(size * 8), n, rt)
        if rt.k == "int" and isf: return self.cast("bitcast", FL["double"], n, rt)
        if rt.k == "int" and rt.a == 8 and g.isbool(n): return self.cast("zext", ity(1), n, rt)
        if rt.k == "ptr" and t[0] == "ic" and t[1] == 0: return self.ptr("null")
        return n

    def store(self, mem, p, ty, v, cond):
        g = self.g
        t = g.nodes[p]
        if p == g.UNDEF: return
        if t[0] == "ptr" and g.nodes[t[2]][0] not in ("ic", "ite"):
            q = self.enum_off(t)
            if q is None: q = self.enum_obj(t, self.m.size(ty))
            if q is None: raise Unknown("store at symbolic offset")
            p = q; t = g.nodes[p]
        if t[0] == "ite" or (t[0] == "ptr" and g.nodes[t[2]][0] == "ite"):
            # weak update: enumerate leaves with their gate
            leaves = []

            def walk(x, c):
                t = g.nodes[x]
                if t[0] == "ite":
                    walk(t[2], g.band(c, t[1])); walk(t[3], g.band(c, g.bnot(t[1])))
                elif t[0] == "ptr" and g.nodes[t[2]][0] == "ite":
                    o = g.nodes[t[2]]
                    walk(g.mk(("ptr", t[1], o[2])), g.band(c, o[1]))
                    walk(g.mk(("ptr", t[1], o[3])), g.band(c, g.bnot(o[1])))
                else:
                    leaves.append((x, c))
            walk(p, g.TRUE)
            if len(leaves) > 64: raise Unknown("store fan-out")
            if self.m.resolve(ty).k not in ("fp", "int", "ptr"): raise Unknown("aggregate store via gated pointer")
            acc = {}
            for x, c in leaves:
                acc.setdefault(x, []).append(c)
            for x, cs in acc.items():
                c = g.FALSE
                for y in cs: c = g.bor(c, y)
                old = self.load(mem, x, ty, g.band(cond, c))
                self.store(mem, x, ty, g.ite(c, v, old), g.band(cond, c))
            return
        if t[0] != "ptr": raise Unknown("store via " + str(t)[:60])
        on = g.nodes[t[2]]
        if on[0] != "ic": raise Unknown("store at symbolic offset")
        off = s64(on[1], 64)
        size = self.m.size(ty)
        if not self.bounds(t[1], off, size, cond, "write"):
            return
        rt = self.m.resolve(ty)
        vt = g.nodes[v]
        if rt.k == "struct" and vt[0] == "agg":
            for i, x in enumerate(rt.a):
                self.store(mem, self.ptr(t[1], off + self.m.field(rt, i)[0]), x, vt[1 + i], cond)
            return
        if rt.k in ("arr", "vec") and vt[0] == "agg":
            sz = self.m.size(rt.b)
            for i in range(rt.a):
                self.store(mem, self.ptr(t[1], off + i * sz), rt.b, vt[1 + i], cond)
            return
        if rt.k in ("vec", "struct", "arr"): raise Unknown("aggregate store")
        d = dict(self.mget(mem, t[1]))
        self.clear(d, off, size)
        d[off] = (size, v)
        mem[t[1]] = d

    def clear(self, d, off, size):
        for o in range(off - 15, off + size):
            e = d.get(o)
            if e is not None and o + e[0] > off and o < off + size:
                del d[o]
                # keep the bytes outside the written range of split integer entries as zero bytes if they were zero
        return d

    def gated(self, mem, args, cond, f):
        """apply a bulk memory operation whose pointers or length are gated: one copy per gate, then merge"""
        g = self.g
        leaves = [([], g.TRUE)]

        def walk(x, c, out):
            t = g.nodes[x]
            if t[0] == "ite":
                walk(t[2], g.band(c, t[1]), out); walk(t[3], g.band(c, g.bnot(t[1])), out)
            elif t[0] == "ptr" and g.nodes[t[2]][0] == "ite":
                o = g.nodes[t[2]]
                walk(g.mk(("ptr", t[1], o[2])), g.band(c, o[1]), out)
                walk(g.mk(("ptr", t[1], o[3])), g.band(c, g.bnot(o[1])), out)
            else: out.append((x, c))
        for a in args:
            nl = []
            for pre, c in leaves:
                out = []
                walk(a, c, out)
                nl += [(pre + [x], c2) for x, c2 in out if c2 != g.FALSE and g.band(cond, c2) != g.FALSE]
            leaves = nl
            if len(leaves) > 64: raise Unknown("bulk copy fan-out")
        if not leaves: return
        es = []
        for xs, c in leaves:
            m2 = dict(mem)
            f(m2, xs, g.band(cond, c))
            es.append((None, c, m2))
        r = self.merge(es)
        mem.clear(); mem.update(r)

    def isgated(self, *xs):
        g = self.g
        return any(g.nodes[x][0] == "ite" or (g.nodes[x][0] == "ptr" and g.nodes[g.nodes[x][2]][0] == "ite") for x in xs)

    def memset(self, mem, p, v, n, cond):
        g = self.g
        if self.isgated(p, n):
            return self.gated(mem, [p, n], cond, lambda m, a, c: self.memset(m, a[0], v, a[1], c))
        t = g.nodes[p]
        if t[0] != "ptr" or g.nodes[t[2]][0] != "ic" or g.nodes[n][0] != "ic":
            raise Unknown("memset")
        off = s64(g.nodes[t[2]][1], 64); ln = g.nodes[n][1]
        if ln == 0: return
        if not self.bounds(t[1], off, ln, cond, "write"): return
        d = dict(self.mget(mem, t[1]))
        self.clear(d, off, ln)
        vn = g.nodes[v]
        if vn[0] != "ic": raise Unknown("memset value")
        for i in range(ln):
            d[off + i] = (1, "z") if vn[1] == 0 else (1, v)
        mem[t[1]] = d

    def memcpy(self, mem, p, q, n, cond):
        g = self.g
        if self.isgated(p, q, n):
            return self.gated(mem, [p, q, n], cond, lambda m, a, c: self.memcpy(m, a[0], a[1], a[2], c))
        tp, tq, tn = g.nodes[p], g.nodes[q], g.nodes[n]
        if tn[0] != "ic": raise Unknown("memcpy length")
        ln = tn[1]
        if ln == 0: return
        if tp[0] != "ptr" or tq[0] != "ptr" or g.nodes[tp[2]][0] != "ic" or g.nodes[tq[2]][0] != "ic":
            raise Unknown("memcpy pointers")
        po, qo = s64(g.nodes[tp[2]][1], 64), s64(g.nodes[tq[2]][1], 64)
        if not self.bounds(tq[1], qo, ln, cond, "read") or not self.bounds(tp[1], po, ln, cond, "write"):
            return
        src = dict(self.mget(mem, tq[1]))
        d = dict(self.mget(mem, tp[1]))
        ent = [(o, e) for o, e in src.items() if o >= qo and o + e[0] <= qo + ln]
        self.clear(d, po, ln)
        for o, e in ent:
            d[o - qo + po] = e
        mem[tp[1]] = d

    # --------------------------------------------------------- functions
    def run(self, fn):
        self.fn = fn
        self.exec_fn(fn, [], {}, self.g.TRUE)

    def exec_fn(self, fn, args, mem, cond0):
        g = self.g
        self.depth += 1
        if self.depth > 60: raise Unknown("call depth")
        env = {}
        for (t, nm), a in zip(fn.params, args):
            env[nm] = a
        entry = fn.order[0]
        rets = []
        if not hasattr(fn, "succ"):
            fn.succ = {b: succs(fn.blocks[b]) for b in fn.order}
            fn.plans = {}
        self.region(fn, env, frozenset(fn.order), entry, [(None, cond0, mem, None)], rets)
        self.depth -= 1
        if not rets:
            return None, mem, False
        v = None
        for _, c, _m, x in rets:
            v = x if v is None else (g.ite(c, x, v) if x is not None else None)
        mem = self.merge([(b, c, m_) for b, c, m_, _ in rets])
        return v, mem, True

    def region(self, fn, env, blocks, entry, ins, rets):
        """dataflow over one region; loops are peeled until their back edge is refuted by the (constant) loop counter"""
        g = self.g
        key = (blocks, entry)
        plan = fn.plans.get(key)
        if plan is None:
            plan = scc_order(fn, blocks, entry)
            fn.plans[key] = plan
        edges = {entry: ins}
        out = []
        for comp in plan:
            if len(comp) == 1 and (comp[0] == entry or comp[0] not in fn.succ[comp[0]]):
                b = comp[0]
                es = [e for e in edges.get(b, []) if e[1] != g.FALSE]
                if not es: continue
                for tgt, e in self.block(fn, env, b, es, rets):
                    if tgt in blocks and tgt != entry: edges.setdefault(tgt, []).append(e)
                    else: out.append((tgt, e))
                continue
            cs = frozenset(comp)
            heads = [b for b in comp if any(e[1] != g.FALSE for e in edges.get(b, []))]
            if not heads: continue
            if len(heads) > 1: raise Unknown("irreducible loop in " + fn.name)
            h = heads[0]
            cur = [e for e in edges[h] if e[1] != g.FALSE]
            defs = [i.res for b in comp for i in fn.blocks[b] if i.res is not None]
            n = 0
            while cur:
                n += 1
                if n > self.maxpeel: raise Unknown("loop with a data-dependent trip count in %s" % fn.name)
                nxt = []
                for tgt, e in self.region(fn, env, cs, h, cur, rets):
                    if tgt == h:
                        if e[1] != g.FALSE: nxt.append(e)
                        continue
                    d = dict(e[3]) if e[3] else {}
                    for r in defs:
                        if r in env and r not in d: d[r] = env[r]
                    e = (e[0], e[1], e[2], d)
                    if tgt in blocks and tgt != entry: edges.setdefault(tgt, []).append(e)
                    else: out.append((tgt, e))
                cur = nxt
        return out

    def block(self, fn, env, b, es, rets):
        g = self.g
        c = g.FALSE
        if es[0][0] is None and len(es) == 1: c = es[0][1]
        else:
            for e in es: c = g.bor(c, e[1])
        cond = c
        mem = self.merge(es) if es[0][0] is not None else es[0][2]
        phivals = []
        for ins in fn.blocks[b]:
            if ins.op != "phi": break
            inc = {}
            for v, lb in ins.a:
                inc[lb] = v
            val = None
            for e in es:
                iv = inc[e[0]]
                if iv[0] == "r" and e[3] and iv[1] in e[3]: x = e[3][iv[1]]
                elif iv[0] == "r" and iv[1] not in env: x = g.UNDEF
                else: x = self.val(env, ins.ty, iv)
                val = x if val is None else g.ite(e[1], x, val)
            phivals.append((ins.res, val))
        if any(e[3] for e in es):
            keys = set()
            for e in es:
                if e[3]: keys.update(e[3])
            for k in keys:
                val = None
                for e in es:
                    x = e[3].get(k, g.UNDEF) if e[3] else env.get(k, g.UNDEF)
                    val = x if val is None else g.ite(e[1], x, val)
                env[k] = val
        for r, v in phivals: env[r] = v
        o = []
        for ins in fn.blocks[b]:
            op = ins.op
            if op == "phi": continue
            if op == "br":
                o.append((ins.a[0], (b, cond, mem, None))); break
            if op == "condbr":
                c = self.val(env, ity(1), ins.a[0])
                if c == g.UNDEF: c = g.FALSE
                c1 = g.band(cond, c); c2 = g.band(cond, g.bnot(c))
                if self.prune and c1 != g.FALSE and c2 != g.FALSE and not (ins.a[1] == ins.a[2]):
                    if not self.feas(c1): c1, c2 = g.FALSE, cond
                    elif not self.feas(c2): c1, c2 = cond, g.FALSE
                o.append((ins.a[1], (b, c1, mem, None)))
                o.append((ins.a[2], (b, c2, dict(mem), None)))
                break
            if op == "switch":
                x = self.val(env, ins.ty, ins.a[0])
                bits = self.m.resolve(ins.ty).a
                rest = cond
                tgt = {}
                for cv, lb in ins.a[2]:
                    ci = self.icmp("eq", bits, x, self.val(env, ins.ty, cv))
                    tgt.setdefault(lb, []).append(g.band(cond, ci))
                    rest = g.band(rest, g.bnot(ci))
                tgt.setdefault(ins.a[1], []).append(rest)
                for lb, cs in tgt.items():
                    c = g.FALSE
                    for y in cs: c = g.bor(c, y)
                    o.append((lb, (b, c, dict(mem), None)))
                break
            if op == "ret":
                v = None if ins.a[0] is None else self.val(env, ins.ty, ins.a[0])
                rets.append((b, cond, mem, v))
                break
            if op == "unreachable":
                break
            self.ins(env, mem, cond, ins)
        return o

    def merge(self, es):
        g = self.g
        if len(es) == 1:
            return dict(es[0][2])
        out = {}
        bases = set()
        for e in es: bases.update(e[2])
        for base in bases:
            ds = [self.mget(e[2], base) for e in es]
            if all(d is ds[0] for d in ds):
                out[base] = ds[0]; continue
            offs = set()
            for d in ds: offs.update(d)
            r = {}
            for o in offs:
                ents = [d.get(o) for d in ds]
                if all(e == ents[0] for e in ents):
                    r[o] = ents[0]; continue
                sizes = {e[0] for e in ents if e and e[1] != "z"}
                if len(sizes) > 1 or any(e is None for e in ents):
                    # location not (equally) defined on every edge
                    if len(sizes) == 1 and all(e is None or e[1] != "z" for e in ents):
                        sz = sizes.pop()
                        val = None
                        for (p_, ec, *_r), e in zip(es, ents):
                            x = e[1] if e else g.UNDEF
                            val = x if val is None else g.ite(ec, x, val)
                        r[o] = (sz, val)
                    elif len(sizes) > 1:
                        r[o] = (max(sizes), g.mk(("clash", base, o, len(g.nodes))))
                    elif not sizes:
                        r[o] = (1, "z")
                    else:
                        sz = sizes.pop()
                        ok = True
                        val = None
                        for (p_, ec, *_r), e, d in zip(es, ents, ds):
                            if e is None: x = g.UNDEF
                            elif e[1] == "z":
                                x = self.zlike(ents, sz)
                            else: x = e[1]
                            val = x if val is None else g.ite(ec, x, val)
                        r[o] = (sz, val)
                    continue
                if not sizes:
                    # bytes
                    if all(e == (1, "z") for e in ents): r[o] = (1, "z")
                    else: r[o] = ents[0]
                    continue
                sz = sizes.pop()
                val = None
                for (p_, ec, *_r), e in zip(es, ents):
                    x = self.zlike(ents, sz) if e[1] == "z" else e[1]
                    val = x if val is None else g.ite(ec, x, val)
                r[o] = (sz, val)
            # drop byte entries shadowed by a merged wide entry
            for o in sorted(r):
                if o in r and r[o][0] > 1:
                    for k in range(1, r[o][0]):
                        if o + k in r and r[o + k][0] == 1:
                            del r[o + k]
            out[base] = r
        return out

    def zlike(self, ents, sz):
        g = self.g
        for e in ents:
            if e and e[1] != "z":
                n = e[1]
                while g.nodes[n][0] == "ite": n = g.nodes[n][2]
                t = g.nodes[n]
                if t[0] == "ptr": return self.ptr("null")
                if t[0] in ("c", "nan", "inf", "in", "fadd", "fsub", "fmul", "fdiv", "fneg", "app", "frem") or (t[0] == "cast" and t[1] in ("uitofp", "sitofp")):
                    return g.fc(Fraction(0))
        return g.ic(0, sz * 8)

    def ins(self, env, mem, cond, ins):
        g = self.g
        op = ins.op
        r = None
        if op in ("fadd", "fsub", "fmul", "fdiv", "frem"):
            if self.m.resolve(ins.ty).k == "vec":
                a, b = (self.val(env, ins.ty, x) for x in ins.a)
                r = g.mk(("agg",) + tuple(self.fbin(op, x, y) for x, y in zip(g.nodes[a][1:], g.nodes[b][1:])))
            else:
                r = self.fbin(op, self.val(env, ins.ty, ins.a[0]), self.val(env, ins.ty, ins.a[1]))
        elif op in BIN:
            t = self.m.resolve(ins.ty)
            if t.k == "vec": raise Unknown("vector op")
            r = self.ibin(op, t.a, self.val(env, ins.ty, ins.a[0]), self.val(env, ins.ty, ins.a[1]))
        elif op == "fneg":
            a = self.val(env, ins.ty, ins.a[0])
            r = g.UNDEF if a == g.UNDEF else self.fneg(a)
        elif op == "icmp":
            t = self.m.resolve(ins.a[1])
            if t.k == "vec": raise Unknown("vector icmp")
            r = self.icmp(ins.a[0], 64 if t.k == "ptr" else t.a, self.val(env, t, ins.a[2]), self.val(env, t, ins.a[3]))
        elif op == "fcmp":
            t = self.m.resolve(ins.a[1])
            if t.k == "vec": raise Unknown("vector fcmp")
            r = self.fcmp(ins.a[0], self.val(env, t, ins.a[2]), self.val(env, t, ins.a[3]))
        elif op in CAST:
            r = self.cast(op, ins.a[0], self.val(env, ins.a[0], ins.a[1]), ins.ty)
        elif op == "select":
            c = self.val(env, ins.a[3], ins.a[0])
            if self.prune and g.nodes[c][0] not in ("bc", "undef"):
                if not self.feas(g.band(cond, c)): c = g.FALSE
                elif not self.feas(g.band(cond, g.bnot(c))): c = g.TRUE
            r = g.ite(c, self.val(env, ins.ty, ins.a[1]), self.val(env, ins.ty, ins.a[2]))
        elif op == "freeze":
            r = self.val(env, ins.ty, ins.a[0])
        elif op == "alloca":
            n = 1
            if ins.a[1] is not None:
                cn = g.nodes[self.val(env, ity(64), ins.a[1])]
                if cn[0] != "ic": raise Unknown("dynamic alloca")
                n = cn[1]
            r = self.ptr(self.newobj("stack", self.m.size(ins.a[0]) * n))
        elif op == "load":
            r = self.load(mem, self.val(env, PTR, ins.a[0]), ins.ty, cond)
        elif op == "store":
            self.store(mem, self.val(env, PTR, ins.a[2]), ins.a[0], self.val(env, ins.a[0], ins.a[1]), cond)
        elif op == "getelementptr":
            r = self.gep(env, ins.a[0], ins.a[1])
        elif op == "extractvalue":
            a = self.val(env, ins.ty, ins.a[0])
            for i in ins.a[1]:
                a = self.lift(lambda x: g.UNDEF if x == g.UNDEF else g.nodes[x][1 + i], a)
            r = a
        elif op == "insertvalue":
            a = self.val(env, ins.ty, ins.a[0]); b = self.val(env, ins.a[1], ins.a[2])
            r = self.insertv(ins.ty, a, b, ins.a[3])
        elif op == "extractelement":
            a = self.val(env, ins.ty, ins.a[0]); i = g.nodes[self.val(env, ity(64), ins.a[1])]
            r = g.nodes[a][1 + i[1]] if a != g.UNDEF else a
        elif op == "insertelement":
            a = self.val(env, ins.ty, ins.a[0]); t = self.m.resolve(ins.ty)
            b = self.val(env, t.b, ins.a[1]); i = g.nodes[self.val(env, ity(64), ins.a[2])][1]
            els = [g.UNDEF] * t.a if a == g.UNDEF else list(g.nodes[a][1:])
            els[i] = b
            r = g.mk(("agg",) + tuple(els))
        elif op in ("call", "invoke"):
            r = self.call(env, mem, cond, ins)
        elif op == "unsupported":
            raise Unknown("instruction " + ins.line[:80])
        else:
            raise Unknown("op " + op)
        if ins.res is not None:
            env[ins.res] = r

    def fneg(self, a):
        g = self.g
        t = g.nodes[a]
        if t[0] == "c": return g.fc(-t[1])
        if t[0] == "nan": return a
        if t[0] == "inf": return g.mk(("inf", 0 if t[1] else 1))
        if t[0] == "fneg": return t[1]
        return g.mk(("fneg", a))

    def insertv(self, ty, a, b, idx):
        g = self.g
        t = self.m.resolve(ty)
        subs = t.a if t.k == "struct" else [t.b] * t.a
        els = [g.UNDEF] * len(subs) if a == g.UNDEF else list(g.nodes[a][1:])
        if len(idx) == 1: els[idx[0]] = b
        else: els[idx[0]] = self.insertv(subs[idx[0]], els[idx[0]], b, idx[1:])
        return g.mk(("agg",) + tuple(els))

    def label(self, mem, p):
        g = self.g
        t = g.nodes[p]
        if t[0] == "ite":
            return self.label(mem, t[2])
        if t[0] == "ptr" and t[1].startswith("@"):
            gl = self.m.globals.get(t[1])
            if gl and gl["init"] and gl["init"][0] == "str":
                return unescape(gl["init"][1])[g.nodes[t[2]][1]:].split(b"\0")[0].decode()
        return "?"

    def fabs(self, x):
        g = self.g
        return g.ite(self.fcmp("olt", x, g.fc(Fraction(0))), self.fneg(x), x)

    def call(self, env, mem, cond, ins):
        g = self.g
        callee, cargs, _ = ins.a
        if callee[0] == "r":
            p = g.nodes[self.val(env, PTR, callee)]
            if p[0] == "ptr" and p[1].startswith("@"):
                name = p[1]
            elif p[0] == "undef":
                return g.UNDEF
            else:
                raise Unknown("indirect call")
        elif callee[0] == "g":
            name = callee[1]
        else:
            raise Unknown("callee")
        if name.startswith("@llvm."):
            return self.intrin(env, mem, cond, name, ins, cargs)
        args = [self.val(env, t, v) for t, v in cargs if t.k != "metadata"]
        if name in CHECK_FNS:
            self.checks.append(Check(CHECK_FNS[name], self.label(mem, args[0]), tuple(args[1:]), cond, self.fn.name))
            return g.UNDEF
        if name == "@IN":
            n = g.nodes[args[0]]
            if n[0] != "ic": raise Unknown("IN index")
            if n[1] in self.fixed: return g.fc(self.fixed[n[1]])
            if self.spec is not None: return g.fc(spec_in(self.spec, n[1]))
            return g.mk(("in", "x%d" % n[1]))
        if name == "@INU":
            n = g.nodes[args[0]]
            if self.spec is not None: return g.ic(spec_nat(self.spec, n[1]), 64)
            return g.mk(("iin", "n%d" % n[1], 64))
        if name.startswith("@UF"):      # uninterpreted real functions of the probes
            if self.spec is not None and all(g.nodes[a][0] in ("c", "ic") for a in args): return g.fc(spec_uf(self.spec, name, [g.nodes[a][1] for a in args]))
            return g.mk(("app", name[1:]) + tuple(args))
        if name.startswith("@REF_"):    # the mathematical function itself
            return self.opaque_app(name[5:], args)
        if name.startswith("@UI"):      # uninterpreted integer functions
            return g.mk(("iapp", name[1:], 64) + tuple(args))
        if name == "@ASSUME_TRAPOK":
            return g.UNDEF
        if name in self.opaque:
            return self.opaque_app(self.opaque[name], args)
        for tr in TRAPS:
            if name == tr:
                self.checks.append(Check("trap", "%s (%s)" % (name[1:40], self.trapinfo(mem, name, args)), (), cond, self.fn.name))
                return g.UNDEF
        if name in ("@_Znwm", "@_Znam", "@malloc"):
            self.nalloc = 0
            return self.alloc(args[0], cond)
        if name in ("@_ZdlPv", "@_ZdaPv", "@free", "@_ZdlPvm", "@_ZdaPvm"):
            return g.UNDEF
        if name in ("@memcpy", "@memmove"):
            self.memcpy(mem, args[0], args[1], args[2], cond); return args[0]
        if name == "@memset":
            self.memset(mem, args[0], self.cast("trunc", ity(32), args[1], ity(8)), args[2], cond); return args[0]
        if name == "@bcmp" or name == "@memcmp":
            raise Unknown("memcmp")
        if name == "@__errno_location":
            self.objsize["errno"] = 4
            return self.ptr("errno")
        if name in ("@__cxa_guard_acquire",):
            raise Unknown("dynamic initialisation of a static local")
        if name in ("@_ZNSt8functionIFddEED2Ev", "@_ZNSt9exceptionD2Ev"):
            return g.UNDEF
        if name[1:] in LIBM:
            return self.opaque_app(LIBM[name[1:]], args)
        f = self.m.funcs.get(name)
        if f is not None:
            v, m2, ok = self.exec_fn(f, args, mem, cond)
            mem.clear(); mem.update(m2)
            return v if v is not None else g.UNDEF
        raise Unknown("call to unmodelled function " + name)

    def alloc(self, x, cond):
        """one object per feasible value of the requested size"""
        g = self.g
        n = g.nodes[x]
        if n[0] == "ite":
            c1 = g.band(cond, n[1]); c2 = g.band(cond, g.bnot(n[1]))
            if not self.feas(c1, True): return self.alloc(n[3], c2)
            if not self.feas(c2, True): return self.alloc(n[2], c1)
            self.nalloc += 1
            if self.nalloc > 6: raise Unknown("gated allocation size")
            return g.ite(n[1], self.alloc(n[2], c1), self.alloc(n[3], c2))
        if n[0] != "ic": raise Unknown("symbolic allocation size")
        if n[1] > 1 << 40: return self.ptr("null")
        return self.ptr(self.newobj("heap", n[1]))

    def feas(self, cond, force=False):
        """False when the path condition is contradictory"""
        g = self.g
        if cond == g.FALSE: return False
        if self.decider is None or not (self.prune or force) or cond == g.TRUE: return True
        r = self.feasmemo.get(cond)
        if r is None:
            if self.feastime > 60: return True
            t0 = time.time()
            try:
                v = self.decider.decide(Check("trap", "", (), cond, ""))[0]
            except Exception:
                v = "undecided"
            self.feastime += time.time() - t0
            r = self.feasmemo[cond] = v not in ("proved", "vacuous")
        return r

    def trapinfo(self, mem, name, args):
        try:
            return ", ".join(self.label(mem, a) for a in args if self.g.nodes[a][0] == "ptr")[:160]
        except Exception:
            return ""

    def opaque_app(self, nm, args):
        g = self.g
        if any(a == g.UNDEF for a in args): return g.UNDEF
        if nm == "fabs": return self.fabs(args[0])
        if nm == "sqrt" and g.nodes[args[0]][0] == "c" and g.nodes[args[0]][1] >= 0:
            q = g.nodes[args[0]][1]
            r = Fraction(math.isqrt(q.numerator), math.isqrt(q.denominator))
            if r * r == q: return g.mk(("c", r))
        return g.mk(("app", nm) + tuple(args))

    def intrin(self, env, mem, cond, name, ins, cargs):
        g = self.g
        base = name[6:]
        if base.startswith(("lifetime", "dbg", "assume", "experimental.noalias", "invariant", "donothing", "stacksave", "stackrestore", "prefetch")):
            return g.UNDEF
        args = [self.val(env, t, v) for t, v in cargs if t.k != "metadata"]
        t0 = self.m.resolve(cargs[0][0]) if cargs else None
        if base.startswith("ubsantrap") or base == "trap":
            code = g.nodes[args[0]][1] if args else -1
            self.checks.append(Check("trap", "undefined behaviour (%s)" % UBSAN.get(code, "kind %d" % code), (), cond, self.fn.name))
            return g.UNDEF
        if t0 is not None and t0.k == "vec": raise Unknown("vector intrinsic")
        if base.startswith("fabs"): return self.fabs(args[0])
        if base.startswith("fmuladd") or base.startswith("fma."):
            return self.fbin("fadd", self.fbin("fmul", args[0], args[1]), args[2])
        if base.startswith(("maxnum", "maximum")): return g.ite(self.fcmp("olt", args[0], args[1]), args[1], args[0])
        if base.startswith(("minnum", "minimum")): return g.ite(self.fcmp("olt", args[1], args[0]), args[1], args[0])
        if base.startswith("copysign"):
            m_ = self.fabs(args[0])
            return g.ite(self.fcmp("olt", args[1], g.fc(Fraction(0))), self.fneg(m_), m_)
        for nm in ("sqrt", "sin", "cos", "exp2", "exp", "log2", "log10", "log", "pow", "floor", "ceil", "trunc", "round", "rint", "nearbyint"):
            if base.startswith(nm + ".f"):
                return self.opaque_app({"log": "ln", "pow": "powr"}.get(nm, nm), args)
        if base.startswith("powi."):
            n = g.nodes[args[1]]
            if n[0] == "ic":
                e = s64(n[1], 32)
                r = g.fc(Fraction(1))
                for _ in range(abs(e)): r = self.fbin("fmul", r, args[0])
                return r if e >= 0 else self.fbin("fdiv", g.fc(Fraction(1)), r)
        for nm in ("umin", "umax", "smin", "smax", "usub.sat", "uadd.sat"):
            if base.startswith(nm + "."):
                a, b = args
                if g.nodes[a][0] == "ic" and g.nodes[b][0] == "ic":
                    return g.ic(iop(nm, t0.a, g.nodes[a][1], g.nodes[b][1]), t0.a)
                if nm in ("umin", "umax", "smin", "smax"):
                    c = self.icmp(nm[0] + "lt", t0.a, a, b)
                    return g.ite(c, a, b) if nm[1:] == "min" else g.ite(c, b, a)
                if nm == "usub.sat":
                    return g.ite(self.icmp("ult", t0.a, a, b), g.ic(0, t0.a), self.ibin("sub", t0.a, a, b))
        if base.startswith("abs."):
            return g.ite(self.icmp("slt", t0.a, args[0], g.ic(0, t0.a)), self.ibin("sub", t0.a, g.ic(0, t0.a), args[0]), args[0])
        if base.startswith(("fshl.", "fshr.")):
            a, b, s = args
            sn = g.nodes[s]
            if sn[0] == "ic":
                k = sn[1] % t0.a
                if k == 0: return a if base.startswith("fshl") else b
                if base.startswith("fshr"): k = t0.a - k
                return self.ibin("or", t0.a, self.ibin("shl", t0.a, a, g.ic(k, t0.a)), self.ibin("lshr", t0.a, b, g.ic(t0.a - k, t0.a)))
            W = t0.a
            if base.startswith("fshl"):
                k = self.ibin("and", W, s, g.ic(W - 1, W))
                inv = self.ibin("and", W, self.ibin("sub", W, g.ic(0, W), s), g.ic(W - 1, W))
            else:
                inv = self.ibin("and", W, s, g.ic(W - 1, W))
                k = self.ibin("and", W, self.ibin("sub", W, g.ic(0, W), s), g.ic(W - 1, W))
            z = self.icmp("eq", W, k, g.ic(0, W))
            sh = self.ibin("or", W, self.ibin("shl", W, a, k), self.ibin("lshr", W, b, inv))
            return g.ite(z, a if base.startswith("fshl") else b, sh)
        if base.startswith(("ctlz", "cttz", "ctpop", "bswap", "bitreverse")):
            nm = base.split(".")[0]
            n = g.nodes[args[0]]
            if n[0] == "ic":
                return g.ic(bitfn(nm, n[1], t0.a), t0.a)
            return g.mk(("iapp", nm, t0.a, args[0]))
        if ".with.overflow" in base:
            op = base.split(".")[0]
            bits = t0.a
            a, b = args
            r = self.ibin(op[1:], bits, a, b)
            na, nb = g.nodes[a], g.nodes[b]
            if na[0] == "ic" and nb[0] == "ic":
                x, y = (na[1], nb[1]) if op[0] == "u" else (s64(na[1], bits), s64(nb[1], bits))
                z = {"add": x + y, "sub": x - y, "mul": x * y}[op[1:]]
                lo, hi = (0, (1 << bits) - 1) if op[0] == "u" else (-(1 << (bits - 1)), (1 << (bits - 1)) - 1)
                return g.mk(("agg", r, g.FALSE if lo <= z <= hi else g.TRUE))
            if op == "uadd": return g.mk(("agg", r, self.icmp("ult", bits, r, a)))
            if op == "usub": return g.mk(("agg", r, self.icmp("ult", bits, a, b)))
            w = ity(bits * 2)
            ext = "zext" if op[0] == "u" else "sext"
            wide = self.ibin(op[1:], bits * 2, self.cast(ext, ity(bits), a, w), self.cast(ext, ity(bits), b, w))
            back = self.cast(ext, ity(bits), r, w)
            return g.mk(("agg", r, g.bnot(self.icmp("eq", bits * 2, wide, back))))
        if base.startswith("memset"):
            self.memset(mem, args[0], args[1], args[2], cond); return g.UNDEF
        if base.startswith(("memcpy", "memmove")):
            self.memcpy(mem, args[0], args[1], args[2], cond); return g.UNDEF
        if base.startswith("is.fpclass"):
            mask = g.nodes[args[1]][1]
            nan = self.fcmp("uno", args[0], args[0])
            if mask == 3: return nan
            if mask == 1020: return g.bnot(nan)
        if base.startswith("objectsize") or base.startswith("is.constant"):
            return g.ic(0, 64)
        if base.startswith("fptosi.sat") or base.startswith("fptoui.sat"):
            return self.cast("fptosi" if "fptosi" in base else "fptoui", t0, args[0], ins.ty)
        if base.startswith("expect"):
            return args[0]
        raise Unknown("intrinsic " + name)


UBSAN = {0: "add overflow", 1: "builtin unreachable", 2: "cfi", 3: "divide by zero / division overflow", 4: "dynamic type cache miss",
         5: "float cast overflow", 6: "function type mismatch", 7: "implicit conversion", 8: "invalid builtin", 9: "invalid objc cast",
         10: "load invalid value", 11: "missing return", 12: "mul overflow", 13: "negate overflow", 14: "nullability arg", 15: "nullability return",
         16: "nonnull arg", 17: "nonnull return", 18: "array index out of bounds", 19: "pointer overflow", 20: "shift out of bounds",
         21: "sub overflow", 22: "type mismatch", 23: "alignment assumption", 24: "vla bound not positive"}
LIBM = {"sqrt": "sqrt", "sin": "sin", "cos": "cos", "tan": "tan", "exp": "exp", "log": "ln", "log2": "log2", "log10": "log10", "pow": "powr", "floor": "floor",
        "ceil": "ceil", "trunc": "trunc", "fabs": "fabs", "atan": "atan", "asin": "asin", "acos": "acos", "atan2": "atan2", "cbrt": "cbrt", "round": "round"}


def bitfn(nm, v, bits):
    if nm == "ctlz": return bits - v.bit_length()
    if nm == "cttz": return bits if v == 0 else (v & -v).bit_length() - 1
    if nm == "ctpop": return bin(v).count("1")
    if nm == "bswap": return int.from_bytes(v.to_bytes(bits // 8, "little"), "big")
    if nm == "bitreverse": return int(bin(v)[2:].rjust(bits, "0")[::-1], 2)
    raise Unknown(nm)


def unescape(s):
    if s.startswith("c"): s = s[1:]
    s = s[1:-1]
    out = bytearray()
    i = 0
    while i < len(s):
        if s[i] == "\\":
            if s[i + 1] == "\\":
                out.append(92); i += 2
            else:
                out.append(int(s[i + 1:i + 3], 16)); i += 3
        else:
            out.append(ord(s[i])); i += 1
    return bytes(out)


def succs(blk):
    if not blk: return []
    t = blk[-1]
    if t.op == "br": return [t.a[0]]
    if t.op == "condbr": return [t.a[1], t.a[2]]
    if t.op == "switch": return [t.a[1]] + [l for _, l in t.a[2]]
    if t.op == "invoke": return list(t.a[2])
    return []


def scc_order(fn, blocks, entry):
    """SCCs of the region (edges into entry removed) in topological order (iterative Tarjan)"""
    idx = {}; low = {}; onst = set(); st = []; res = []
    cnt = 0
    work = [(entry, iter(fn.succ[entry]))]
    idx[entry] = low[entry] = 0; cnt = 1; st.append(entry); onst.add(entry)
    while work:
        v, it = work[-1]
        adv = False
        for w in it:
            if w not in blocks or w == entry: continue
            if w not in idx:
                idx[w] = low[w] = cnt; cnt += 1
                st.append(w); onst.add(w)
                work.append((w, iter(fn.succ[w])))
                adv = True
                break
            elif w in onst:
                low[v] = min(low[v], idx[w])
        if adv: continue
        work.pop()
        if work: low[work[-1][0]] = min(low[work[-1][0]], low[v])
        if low[v] == idx[v]:
            comp = []
            while True:
                w = st.pop(); onst.discard(w); comp.append(w)
                if w == v: break
            res.append(comp)
    res.reverse()
    return res
