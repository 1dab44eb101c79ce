"""Decision part of the algebraic value numbering (see vg.py).

A case is a list of gate decisions.  In every case each obligation is looked up in the domain of rational
functions modulo the declared axioms (fingerprints in GF(2^127-628107969)).  Gates are not evaluated on data: an
undecided gate splits the case on the sign of the gate expression."""
import os, math, random, hashlib, time, zlib
from fractions import Fraction
import mpmath
from mpmath import mp, mpf
from vg import *

mp.dps = 40
NAN, PINF, NINF, SING, UND = "nan", "+inf", "-inf", "sing", "undef"
TOK_ = (NAN, PINF, NINF, SING, UND)
HALF = (PR + 1) // 4
NEG, ZERO, POS = 1, 2, 4
FLIP = {0: 0, 1: 4, 2: 2, 4: 1, 3: 6, 6: 3, 5: 5, 7: 7}


def _tab(f):
    T = [[0] * 8 for _ in range(8)]
    for a in range(8):
        for b in range(8):
            for x in (1, 2, 4):
                for y in (1, 2, 4):
                    if a & x and b & y: T[a][b] |= f(x, y)
    return T


SADD = _tab(lambda x, y: x if y == ZERO or x == y else y if x == ZERO else 7)
SMUL = _tab(lambda x, y: ZERO if ZERO in (x, y) else POS if x == y else NEG)


def inv(x):
    return pow(x, PR - 2, PR)


def prf(seed, *a):
    h = hashlib.blake2b(repr((seed,) + a).encode(), digest_size=16).digest()
    return int.from_bytes(h, "big") % PR


CBI = pow(3, -1, PR - 1)      # cubing is a bijection


def icbrt(n):
    r = round(n ** (1 / 3)) if n < 1 << 900 else 0
    for z in (r - 1, r, r + 1):
        if z ** 3 == n: return z
    return r


PRED = {"lt": NEG, "le": NEG | ZERO, "gt": POS, "ge": POS | ZERO, "eq": ZERO, "ne": NEG | POS}


INF = float("inf")
SWP = {"eq": "eq", "ne": "ne", "ult": "ugt", "ugt": "ult", "ule": "uge", "uge": "ule", "slt": "sgt", "sgt": "slt", "sle": "sge", "sge": "sle"}
NEGP = {"eq": "ne", "ne": "eq", "ult": "uge", "uge": "ult", "ugt": "ule", "ule": "ugt", "slt": "sge", "sge": "slt", "sgt": "sle", "sle": "sgt"}


def fdn(x): return x if x in (INF, -INF) else math.nextafter(x, -INF)
def fup(x): return x if x in (INF, -INF) else math.nextafter(x, INF)


def fout(q):
    """floats around the exact constant (or around the mathematical constant a literal stands for)"""
    try: x = float(q)
    except OverflowError: return (1.7e308, INF) if q > 0 else (-INF, -1.7e308)
    if Fraction(x) == q and (q.denominator <= 1 << 20) and abs(q) < 1 << 50: return x, x
    d = abs(x) * 1e-15 + 1e-300
    return x - d, x + d


def exadd(x, y, rnd):
    r = x + y
    return r if r in (INF, -INF) or Fraction(r) == Fraction(x) + Fraction(y) else rnd(r)


def exmul(ps, sel, rnd):
    x, y = sel(ps, key=lambda q: imul(*q))
    r = imul(x, y)
    return r if r in (INF, -INF) or r == 0 and 0 in (x, y) or INF in (abs(x), abs(y)) or Fraction(r) == Fraction(x) * Fraction(y) else rnd(r)


def imul(x, y): return 0.0 if x == 0 or y == 0 else x * y


class Env:
    """one case under one seed"""

    def __init__(self, ctx, seed, decs=()):
        self.c = ctx; self.g = ctx.g; self.seed = seed
        self.memo = {}
        self.signs = []          # (fingerprint, allowed)
        self.snodes = []
        self.idec = {}           # opaque integer comparisons
        self.over = {}           # imposed atom values
        self.zero = []
        self.decs = []
        self.badsqrt = False
        self.guess = False       # a root was taken without knowing the sign of its square root expression
        self.bnd = []            # (value, lo, hi): terms in an open interval
        self.roots = {}          # square roots taken so far
        self.ang = set()         # angles
        self.reg = {}            # inverse trigonometric values
        self.lns = {}            # logarithms
        self.itof = {}; self.xors = {}; self.xork = {}
        self.ivk = None
        self.fpo = frozenset()   # terms truncated without knowing their range
        self.nn = set()          # values of structurally nonnegative terms
        for d in decs:
            self.add(d)

    def fork(self, d):
        e = Env.__new__(Env)
        e.c, e.g, e.seed = self.c, self.g, self.seed
        e.memo = {k: v for k, v in self.memo.items() if not isinstance(v, Split)}
        e.signs = list(self.signs); e.snodes = list(self.snodes); e.idec = dict(self.idec); e.over = dict(self.over); e.zero = list(self.zero)
        e.decs = list(self.decs); e.badsqrt = self.badsqrt; e.guess = self.guess; e.nn = set(self.nn); e.roots = dict(self.roots); e.ang = set(self.ang); e.bnd = list(self.bnd); e.reg = dict(self.reg); e.lns = dict(self.lns); e.itof = dict(self.itof); e.xors = dict(self.xors); e.xork = dict(self.xork)
        e.ivk = None; e.fpo = self.fpo
        e.add(d)
        return e

    def add(self, d):
        self.decs.append(d)
        if d[0] == "s":
            _, a, b, al = d
            self.memo = {k: v for k, v in self.memo.items() if not isinstance(v, Split)}
            x, y = self.ev(a), self.ev(b)
            if x in TOK_ or y in TOK_:
                return
            e = (x - y) % PR
            if al == ZERO and e != 0:
                if self.impose(a, b):
                    return
            self.signs.append((e, al)); self.snodes.append((a, b))
            if self.guess: self.refresh()
            if self.fpo:
                for x in self.fpo:
                    lo, hi = self.iv(x, 8)
                    if hi - lo < 12 and abs(lo) < 1e9:
                        dep = self.c.users(x)
                        self.memo = {k: v for k, v in self.memo.items() if k not in dep}
                        self.fpo = self.fpo - {x}; self.ivk = None
                        new = []
                        for (e, al), (a, b) in zip(self.signs, self.snodes):
                            if a in dep or b in dep:
                                try:
                                    u, v = self.ev(a), self.ev(b)
                                    if u not in TOK_ and v not in TOK_: e = (u - v) % PR
                                except Split: pass
                            new.append((e, al))
                        self.signs = new
                        for q, r in self.idec.items():
                            t = self.g.nodes[q]
                            try: u, v = self.ev(t[3]), self.ev(t[4])
                            except Split: continue
                            if u != UND and v != UND and u[0] == v[0] == "i" and icmpv(t[1], t[2], u[1], v[1]) != r: raise Singular()
                        break
        else:
            self.idec[d[1]] = d[2]
            t = self.g.nodes[d[1]]
            if t[1] == "eq" and d[2]:
                for u, v in ((t[3], t[4]), (t[4], t[3])):
                    z = self.ev(v)
                    if self.g.nodes[u][0] == "iin" and u not in self.over and z[0] == "i":
                        self.over[u] = z[1]; self.memo = {}
                        break
        self.memo = {k: v for k, v in self.memo.items() if not isinstance(v, Split)}

    def refresh(self):
        """a sign became known after roots were taken: redo the roots"""
        self.memo = {}; self.roots = {}; self.guess = False
        new = []
        for (e, al), (a, b) in zip(self.signs, self.snodes):
            try:
                x, y = self.ev(a), self.ev(b)
                if x not in TOK_ and y not in TOK_: e = (x - y) % PR
            except Split:
                pass
            new.append((e, al))
        self.signs = new

    def impose(self, a, b):
        """make a-b = 0 by choosing one atom; generic values elsewhere"""
        g = self.g
        sup = [x for x in (g.support(a) | g.support(b))]
        used = set()
        for za, zb in self.zero:
            used |= self.c.sup(za) | self.c.sup(zb)
        cand = [x for x in sup if x not in self.over]
        cand.sort(key=lambda x: (x in used, g.nodes[x][0] != "in", x))
        for x in cand:
            if g.nodes[x][0] not in ("in", "app", "uninit"): continue
            # skip atoms that occur below an opaque application in the support (non linear)
            vals = []
            ok = True
            old = dict(self.over)
            for k in (0, 1, 2):
                self.over = dict(old); self.over[x] = prf(self.seed, "imp", x, k)
                sm = self.memo; self.memo = {}
                try:
                    p, q = self.ev(a), self.ev(b)
                except Split:
                    ok = False
                self.memo = sm
                if not ok or p in TOK_ or q in TOK_:
                    ok = False; break
                vals.append((self.over[x], (p - q) % PR))
            self.over = old
            if not ok: continue
            (x0, e0), (x1, e1), (x2, e2) = vals
            if (e1 - e0) % PR == 0: continue
            sl = (e1 - e0) * inv((x1 - x0) % PR) % PR
            if (e0 + sl * (x2 - x0) - e2) % PR != 0: continue
            r = (x0 - e0 * inv(sl)) % PR
            self.over = dict(old); self.over[x] = r
            self.memo = {}
            try:
                good = True
                for za, zb in self.zero + [(a, b)]:
                    p, q = self.ev(za), self.ev(zb)
                    if p in TOK_ or q in TOK_ or (p - q) % PR: good = False; break
            except Split:
                good = False
            if good:
                self.zero.append((a, b))
                self.memo = {}
                return True
            self.over = old
            self.memo = {}
        return False

    def infeasible(self):
        """the decided signs contradict each other: a sum of two or three of them is a constant of the wrong sign"""
        for d in self.decs:
            if d[0] != "s": continue
            (l1, h1), (l2, h2) = self.iv(d[1], 8), self.iv(d[2], 8)
            al = (POS if h1 > l2 else 0) | (NEG if l1 < h2 else 0) | (ZERO if l1 <= h2 and l2 <= h1 else 0)
            if l1 > h1 or l2 > h2 or not al & d[3]: return True
        hc = []                                 # decided comparisons as h + c > 0 (or >= 0), h free of additive constants
        for d in self.decs:
            if d[0] != "s": continue
            a = self.memo.get(d[1]); b = self.memo.get(d[2])
            if not isinstance(a, int) or not isinstance(b, int): continue
            al = d[3]
            t = self.g.nodes[d[2]]; t1 = self.g.nodes[d[1]]
            if t[0] == "c": h, c = a, -t[1]
            elif t1[0] == "c": h, c = -b % PR, t1[1]
            else: h, c = (a - b) % PR, 0
            if al and not al & NEG: hc.append((h, c, al == POS))
            if al and not al & POS: hc.append((-h % PR, -c, al == NEG))
        hc = list(dict.fromkeys(hc))[:40]
        def low(m, h, c, st):
            o = m.get(h)
            if o is None or (c, not st) < (o[0], not o[1]): m[h] = (c, st)
        s1 = {}; s2 = {}
        for h, c, st in hc:
            if h == 0 and (c < 0 or c == 0 and st): return True
            low(s1, h, c, st)
        hs = list(s1.items())
        for i, (h, (c, st)) in enumerate(hs):
            for h2, (c2, t2) in hs[:i]: low(s2, (h + h2) % PR, c + c2, st or t2)
        for m in (s1, s2):
            for h, (c, st) in m.items():
                o = s1.get(-h % PR) if m is s1 else s2.get(-h % PR) or s1.get(-h % PR)
                if o and (c + o[0] < 0 or c + o[0] == 0 and (st or o[1])): return True
                if h == 0 and (c < 0 or c == 0 and st): return True
        if len(hs) <= 16:
            for i, (h, (c, st)) in enumerate(hs):
                if not h: continue
                iv = pow(h, PR - 2, PR)
                for h2, (c2, t2) in hs[:i]:
                    r = self.c.smallrat(-h2 * iv % PR, 64)
                    if r is not None and r > 0 and (c * r + c2 < 0 or c * r + c2 == 0 and (st or t2)): return True
        fs = []
        for e, al in self.signs:
            if al and not al & NEG: fs.append((e, al == POS))
            if al and not al & POS: fs.append((-e % PR, al == NEG))
        for v, lo, hi in self.bnd:
            fs.append(((v - lo) % PR, True)); fs.append(((hi - v) % PR, True))
        fs = list(dict.fromkeys(fs))[:48]

        def bad(e, strict):
            q = self.c.smallrat(e, 1 << 30)
            return q is not None and (q < 0 or q == 0 and strict)
        n = len(fs)
        for i in range(n):
            if bad(*fs[i]): return True
            for j in range(i):
                e = (fs[i][0] + fs[j][0]) % PR; st = fs[i][1] or fs[j][1]
                if bad(e, st): return True
                for k in range(j):
                    if bad((e + fs[k][0]) % PR, st or fs[k][1]): return True
        return False

    # -------------------------------------------------------------- evaluation
    def ev(self, n):
        r = self.memo.get(n)
        if r is not None:
            if isinstance(r, Split): raise r
            return r
        try:
            r = self.ev0(n)
        except Split as s:
            self.memo[n] = s
            raise
        self.memo[n] = r
        if isinstance(r, int) and self.g.nodes[n][0] in ("fadd", "fmul") and self.c.nonneg(n): self.nn.add(r)
        return r

    def ev0(self, n):
        g = self.g
        t = g.nodes[n]
        k = t[0]
        if k == "bc": return ("b", t[1])
        if k == "ic": return ("i", t[1])
        if k == "c": return self.c.const(self.seed, t[1])
        if k == "in":
            if n in self.over: return self.over[n]
            return prf(self.seed, "in", t[1])
        if k == "uninit":
            return prf(self.seed, "uninit", t[1], t[2])
        if k == "nan": return NAN
        if k == "inf": return NINF if t[1] else PINF
        if k == "undef": return UND
        if k == "clash": raise Unknown("clashing memory layouts")
        if k in ("fadd", "fsub", "fmul", "fdiv"):
            return self.arith(k, self.real(t[1]), self.real(t[2]))
        if k == "fneg":
            a = self.real(t[1])
            if a in TOK_: return {PINF: NINF, NINF: PINF}.get(a, a)
            return -a % PR
        if k == "frem":
            a, b = self.real(t[1]), self.real(t[2])
            if a in TOK_ or b in TOK_: return NAN
            return prf(self.seed, "frem", a, b)
        if k == "app":
            if n in self.over: return self.over[n]
            if t[1] == "sqrt":
                u = g.nodes[t[2]]
                if u[0] == "fmul" and u[1] == u[2] and self.c.nonneg(u[1]): return self.ev(u[1])
            return self.app(t[1], [self.anyv(x) for x in t[2:]])
        if k == "ite":
            try:
                c = self.bool(t[1])
            except Split as s:
                a = self.ev(t[2]); b = self.ev(t[3])
                if a == b: return a
                raise s
            return self.ev(t[2] if c else t[3])
        if k == "not": return ("b", not self.bool(t[1]))
        if k in ("and", "or"):
            w = k == "or"
            try:
                a = self.bool(t[1])
            except Split as s:
                b = self.bool(t[2])
                if b == w: return ("b", w)
                raise s
            if a == w: return ("b", w)
            return ("b", self.bool(t[2]))
        if k == "fcmp":
            return ("b", self.fcmp(t[1], t[2], t[3]))
        if k == "icmp":
            return ("b", self.icmp(n, t))
        if k == "iin":
            if n in self.over: return ("i", self.over[n])
            return ("o", prf(self.seed, "iin", t[1]) & ((1 << t[2]) - 1))
        if k == "iapp":
            args = [self.anyv(x) for x in t[3:]]
            if t[1] in ("ctlz", "cttz", "ctpop", "bswap", "bitreverse") and args[0][0] == "i":
                return ("i", bitfn(t[1], args[0][1], t[2]))
            if t[1].startswith("UI"):
                return ("o", prf(self.seed, "ui", t[1], tuple(x[1] if isinstance(x, tuple) else x for x in args)) & ((1 << t[2]) - 1))
            return ("o", prf(self.seed, "iapp", t[1], tuple(args)) & ((1 << t[2]) - 1))
        if k == "ibin":
            a, b = self.ev(t[3]), self.ev(t[4])
            if a == UND or b == UND: return UND
            if a[0] == "i" and b[0] == "i":
                if t[1] in ("udiv", "sdiv", "urem", "srem") and b[1] == 0: return UND
                return ("i", iop(t[1], t[2], a[1], b[1]))
            if a[0] == "p" or b[0] == "p":
                if a[0] == "p" and b[0] == "p" and t[1] == "sub" and a[1] == b[1] and a[2][0] == "i" and b[2][0] == "i":
                    return ("i", iop("sub", 64, a[2][1], b[2][1]))
                if a[0] == "p" and b[0] == "i" and t[1] in ("add", "sub") and a[2][0] == "i":
                    return ("p", a[1], ("i", iop(t[1], 64, a[2][1], b[1])))
                if b[0] == "p" and a[0] == "i" and t[1] == "add" and b[2][0] == "i":
                    return ("p", b[1], ("i", iop("add", 64, b[2][1], a[1])))
                raise Unknown("pointer arithmetic")
            return self.ring(t, a, b)
        if k == "cast":
            return self.cast(t)
        if k == "ptr":
            return ("p", t[1], self.ev(t[2]))
        if k == "agg": return ("agg",) + tuple(self.ev(x) for x in t[1:])
        raise Unknown("node " + k)

    def ring(self, t, a, b):
        """integer terms over opaque integers: fingerprints in Z/2^w, non-ring operators are atoms over canonical operands"""
        _, op, w, na, nb = t
        m = (1 << w) - 1
        x, y = a[1], b[1]
        if op in ("or", "xor") and (self.c.kz(na, w) | self.c.kz(nb, w)) & m == m: op = "add"
        if op in ("add", "sub", "mul"):
            r = iop(op, w, x, y)
            if op != "mul":
                if a[0] == "o" and b[0] == "i" and x in self.itof: self.itof.setdefault(r, (self.itof[x] + (s64(y, w) if op == "add" else -s64(y, w))) % PR)
                elif op == "add" and a[0] == "i" and b[0] == "o" and y in self.itof: self.itof.setdefault(r, (self.itof[y] + s64(x, w)) % PR)
            return self.oi(r, w)
        if op == "shl" and b[0] == "i":
            return self.oi(iop("mul", w, x, 1 << y), w) if y < w else UND
        if op == "xor":
            sx = self.xors.get((w, x), frozenset([x]) if a[0] == "o" else frozenset()); kx = self.xork.get((w, x), 0) if a[0] == "o" else x
            sy = self.xors.get((w, y), frozenset([y]) if b[0] == "o" else frozenset()); ky = self.xork.get((w, y), 0) if b[0] == "o" else y
            st = sx ^ sy; k = kx ^ ky
            if not st: return ("i", k)
            if len(st) == 1 and k == 0: return ("o", next(iter(st)))
            r = prf(self.seed, "xor", w, k, tuple(sorted(st))) & m
            self.xors[(w, r)] = st; self.xork[(w, r)] = k
            return ("o", r)
        if op in ("and", "or"):
            if x == y: return a
            if op == "and":
                for o, c in ((a, b), (b, a)):
                    if o[0] == "o" and c[0] == "i":
                        k = c[1]
                        if k & (k + 1) == 0: return self.low(o[1], k.bit_length(), w)
                        k = ~k & m
                        if k & (k + 1) == 0: return self.oi((o[1] - self.low(o[1], k.bit_length(), w)[1]) & m, w)
            if x > y: x, y = y, x
        if op == "lshr" and b[0] == "i": return ("o", prf(self.seed, "ibin", "lshr", w, x, y) & m)
        return ("o", prf(self.seed, "ibin", op, w, x, y) & m)

    def low(self, x, k, w):
        """x mod 2^k = x - 2^k (x >> k)"""
        return self.oi((x - (prf(self.seed, "ibin", "lshr", w, x, k) << k)) & ((1 << w) - 1), w)

    def oi(self, r, w):
        if w >= 32 and (r < (1 << (w // 4)) or r > (1 << w) - (1 << (w // 4))): return ("i", r)
        return ("o", r)

    def cast(self, t):
        _, op, b1, b2, x = t
        v = self.ev(x)
        if v == UND: return UND
        if op in ("trunc", "zext"):
            if v[0] == "i" or op == "trunc": return (v[0], v[1] & ((1 << b2) - 1))
            if self.g.nodes[x][0] == "cast" and self.g.nodes[x][1] == "trunc" and self.g.nodes[x][2] == b2:
                return self.low(self.ev(self.g.nodes[x][4])[1], b1, b2)
            r = prf(self.seed, op, b2, v) & ((1 << b2) - 1)
            if v[1] in self.itof: self.itof.setdefault(r, self.itof[v[1]])
            return ("o", r)
        if op == "sext":
            if v[0] == "i": return ("i", s64(v[1], b1) & ((1 << b2) - 1))
            r = prf(self.seed, op, b2, v) & ((1 << b2) - 1)
            if v[1] in self.itof: self.itof.setdefault(r, self.itof[v[1]])
            return ("o", r)
        if op in ("uitofp", "sitofp"):
            if v[0] == "i": return (v[1] if op == "uitofp" else s64(v[1], b1)) % PR
            if v[1] in self.itof: return self.itof[v[1]]
            u = self.g.nodes[x]
            while u[0] == "cast" and u[1] == "zext": v = self.ev(u[4]); u = self.g.nodes[u[4]]; op = "uitofp"
            return prf(self.seed, op, v)
        if op in ("fptoui", "fptosi"):
            if v in TOK_: return UND
            q = self.c.smallrat(v)
            if q is not None:
                z = int(q) if q >= 0 else -int(-q)
                return ("i", z & ((1 << b2) - 1))
            z = self.itrunc(x)
            if z is not None: return ("i", z & ((1 << b2) - 1))
            self.fpo = self.fpo | {x}
            o = prf(self.seed, "fptoi", v) & ((1 << b2) - 1)
            f = prf(self.seed, "itofp", v)
            self.itof[o] = f
            self.bnd.append(((v - f) % PR, -1, 1))      # |x - trunc(x)| < 1
            return ("o", o)
        if op == "bitcast":
            if isinstance(v, tuple): return prf(self.seed, "bits", v)
            return ("o", prf(self.seed, "bits", v) & ((1 << 64) - 1))
        raise Unknown("cast " + op)

    def itrunc(self, x):
        """truncation of a real term which is known to lie in a short interval: one case per integer"""
        lo, hi = self.iv(x, 8)
        if not (-1e9 < lo and hi < 1e9 and hi - lo < 12): return None
        c = lambda k: self.g.mk(("c", Fraction(k)))
        if lo >= 0 or (hi > 0 and self.fcmp("oge", x, c(0))): sg, a, b = 1, max(lo, 0.0), hi
        else: sg, a, b = -1, max(-hi, 0.0), -lo
        a, b = int(a), int(b)
        while a < b:
            m = (a + b + 1) // 2
            if self.fcmp("oge" if sg > 0 else "ole", x, c(sg * m)): a = m
            else: b = m - 1
        return sg * a

    def real(self, n):
        v = self.ev(n)
        if isinstance(v, tuple):
            raise Unknown("real use of " + str(self.g.nodes[n])[:60])
        return v

    def anyv(self, n):
        return self.ev(n)

    def bool(self, n):
        v = self.ev(n)
        if v == UND: return False
        if v[0] == "b": return v[1]
        if v[0] == "i": return bool(v[1])
        raise Unknown("boolean use of " + str(self.g.nodes[n])[:60])

    def arith(self, op, a, b):
        if a in TOK_ or b in TOK_:
            if a == UND or b == UND: return UND
            if a == SING or b == SING: return SING
            if a == NAN or b == NAN: return NAN
            if op == "fdiv" and a not in TOK_: return 0
            if op in ("fadd", "fsub"):
                if a in TOK_ and b in TOK_: return SING
                if a in TOK_: return a
                if op == "fadd": return b
                return {PINF: NINF, NINF: PINF}[b]
            return SING
        if op == "fadd": return (a + b) % PR
        if op == "fsub": return (a - b) % PR
        if op == "fmul": return a * b % PR
        if b == 0:
            return SING
        return a * inv(b) % PR

    def sqrt(self, x):
        if x == 0: return 0
        q = self.c.smallrat(x)
        if q is not None and q > 0:
            n, d = math.isqrt(q.numerator), math.isqrt(q.denominator)
            if n * n == q.numerator and d * d == q.denominator: return n * inv(d) % PR
        r = self.roots.get(x)
        if r is not None: return r
        s = pow(x, HALF, PR)
        if s * s % PR == x:
            r = self.absval(s)                   # sqrt(f^2) = |f| when the sign of f is known
        if r is None:
            for u, ru in list(self.roots.items())[-16:]:
                w = x * inv(u) % PR
                f = pow(w, HALF, PR)
                if f * f % PR != w: continue
                f = self.absval(f)
                if f is not None: r = ru * f % PR; break
        if r is None:
            if s * s % PR == x: r = s; self.guess = True
            else:
                self.badsqrt = True
                r = prf(self.seed, "nsq", x)
        self.roots[x] = r
        return r

    def absval(self, f):
        """|f| when the sign of f is known in this case, else None"""
        if f in self.nn: return f
        if PR - f in self.nn: return PR - f
        q = self.c.smallrat(f)
        if q is not None: return f if q >= 0 else PR - f
        if not self.signs: return None
        for v in (f, inv(f)):
            sg = self.signval(v)
            if not sg & NEG: return f
            if not sg & POS: return PR - f
        return None

    def signval(self, e):
        """signs of the value e allowed by the decided gates"""
        al = 7
        for f, s in self.signs:
            if f == e: al &= s
            elif (f + e) % PR == 0: al &= FLIP[s]
            else:
                d = self.c.constsign(self.seed, (e - f) % PR)
                if d == POS and not (s & NEG): al &= POS
                elif d == NEG and not (s & POS): al &= NEG
                d = self.c.constsign(self.seed, (e + f) % PR)
                if d == POS and not (s & POS): al &= POS
                elif d == NEG and not (s & NEG): al &= NEG
        return al or 7

    def cbrt(self, x):
        if x == 0: return 0
        q = self.c.smallrat(x)
        if q is not None:
            n, d = icbrt(abs(q.numerator)), icbrt(q.denominator)
            if n ** 3 == abs(q.numerator) and d ** 3 == q.denominator: return (n if q > 0 else -n) * inv(d) % PR
        return pow(x, CBI, PR)

    def invtrig(self, v):
        """(sin v, cos v) when v is +-(inverse trigonometric value) + k pi/2"""
        p2 = self.c.sym(self.seed, "pi") * inv(2) % PR
        for k in (0, 1, -1, 2, -2):
            w = (v - k * p2) % PR
            sg = 1
            if w not in self.reg and PR - w in self.reg: w = PR - w; sg = -1
            if w == 0: s, c = 0, 1
            elif w in self.reg:
                t = self.reg[w]
                if t[0] == "asin": s, c = t[1], self.sqrt((1 - t[1] * t[1]) % PR)
                elif t[0] == "acos": s, c = self.sqrt((1 - t[1] * t[1]) % PR), t[1]
                elif t[0] == "atan":
                    h = self.sqrt((1 + t[1] * t[1]) % PR)
                    if h == 0: return None
                    c = inv(h); s = t[1] * c % PR
                else:
                    h = self.sqrt((t[1] * t[1] + t[2] * t[2]) % PR)
                    if h == 0: return None
                    s, c = t[1] * inv(h) % PR, t[2] * inv(h) % PR
                s = sg * s
            else: continue
            # shift by k quarter turns
            for _ in range(k % 4): s, c = c, -s
            return s % PR, c % PR
        return None

    def app(self, nm, args):
        s = self.seed
        if any(a == UND for a in args): return UND
        if any(a == SING for a in args): return SING
        if not nm.startswith("UF") and any(a == NAN for a in args): return NAN
        if not nm.startswith("UF") and any(a in TOK_ for a in args): return SING
        x = args[0] if args else 0
        if nm == "sqrt": return self.sqrt(x)
        if nm == "cbrt": return self.cbrt(x)
        if nm in ("sin", "cos", "tan"):
            if x == 0: return 1 if nm == "cos" else 0
            sc = self.invtrig(x)
            if sc is not None:
                if nm == "tan": return sc[0] * inv(sc[1]) % PR if sc[1] else SING
                return sc[0] if nm == "sin" else sc[1]
            sc = self.c.unity(s, x)
            if sc is not None:
                if nm == "tan": return sc[0] * inv(sc[1]) % PR if sc[1] else SING
                return sc[0] if nm == "sin" else sc[1]
            p2 = self.c.sym(s, "pi") * inv(2) % PR
            for j in (0, 1, -1, 2, -2, 3, -3, 4, -4):          # x = +-(an angle seen before) + j quarter turns
                cx = (x - j * p2) % PR
                sg = 1 if cx in self.ang else -1 if PR - cx in self.ang else 0
                if sg: break
            else:
                self.ang.add(x); cx = x; sg = 1; j = 0
            if sg < 0: cx = PR - cx
            t = prf(s, "trig", cx)
            d = inv(1 + t * t)
            si = sg * 2 * t * d % PR
            co = (1 - t * t) * d % PR
            for _ in range(j % 4): si, co = co, -si % PR
            if nm == "sin": return si
            if nm == "cos": return co
            return si * inv(co) % PR if co else SING
        if nm == "atan2":
            y, z = x, args[1]
            if y == 0 and z == 0: return SING
            r = prf(s, "atan2", y, z)
            self.reg[r] = ("atan2", y, z)
            return r
        if nm == "powf":
            if x == 0: return prf(s, "app", nm, tuple(args))
            if x == 1: return 1
            return self.app("exp", [args[1] * self.app("ln", [x]) % PR])
        if nm == "exp2":
            if x == 0: return 1
            return self.app("exp", [x * self.c.sym(s, "ln2") % PR])
        if nm == "exp":
            if x == 0: return 1
            for L, z in self.lns.items():
                q = self.c.smallrat(x * inv(L) % PR)
                if q is not None and q.denominator in (1, 2, 3) and abs(q.numerator) <= 24:
                    b = z if q.denominator == 1 else self.sqrt(z) if q.denominator == 2 else self.cbrt(z)
                    b = pow(b, abs(q.numerator), PR)
                    return b if q > 0 else inv(b)
            if x > PR - x: return inv(prf(s, "exp", PR - x))
            return prf(s, "exp", x)
        if nm in ("ln", "log2", "log10"):
            if x == 1: return 0
            if x == 0: return SING
            y = inv(x)
            r = prf(s, "ln", min(x, y))
            self.lns[r] = min(x, y)
            if x > y: r = -r % PR
            if nm == "log2": r = r * inv(self.c.sym(s, "ln2")) % PR
            if nm == "log10": r = r * inv(self.c.sym(s, "ln10")) % PR
            return r
        if nm in ("asin", "atan", "acos"):
            if x == 0 and nm != "acos": return 0
            base = "asin" if nm == "acos" else nm
            sg = 1
            cx = x
            if x > PR - x: cx = PR - x; sg = -1
            r = 0 if cx == 0 else sg * prf(s, base, cx) % PR
            if r: self.reg[r] = (base, x)
            if nm == "acos":
                r = (self.c.sym(s, "pi") * inv(2) - r) % PR
                self.reg[r] = ("acos", x)
            return r
        if nm in ("floor", "ceil", "trunc", "round"):
            q = self.c.smallrat(x)
            if q is not None:
                return {"floor": math.floor, "ceil": math.ceil, "trunc": math.trunc, "round": lambda z: math.floor(abs(z) + Fraction(1, 2)) * (1 if z >= 0 else -1)}[nm](q) % PR
        return prf(s, "app", nm, tuple(args))

    def resolve(self, n):
        while self.g.nodes[n][0] == "ite":
            t = self.g.nodes[n]
            n = t[2] if self.bool(t[1]) else t[3]
        return n

    def fcmp(self, pred, a, b):
        try: a, b = self.resolve(a), self.resolve(b)
        except Split:
            self.real(a); self.real(b)       # both branches may agree
        na, nb = self.g.nodes[a], self.g.nodes[b]
        if na[0] == "app" and nb[0] == "app" and na[1] == nb[1] == "sqrt" and self.c.nonneg(na[2]) and self.c.nonneg(nb[2]):
            return self.fcmp(pred, na[2], nb[2])
        if pred in ("oeq", "une"):               # sqrt(u) is null where u is
            for u, v, w in ((na, nb, b), (nb, na, a)):
                if u[0] == "app" and u[1] == "sqrt" and v == ("c", Fraction(0)): return self.fcmp(pred, u[2], w)
        x, y = self.real(a), self.real(b)
        if UND in (x, y): return False
        if NAN in (x, y): return pred == "uno" or pred[0] == "u"
        if SING in (x, y):
            if pred == "ord": return True
            if pred == "uno": return False
            raise Singular()
        if pred == "ord": return True
        if pred == "uno": return False
        want = PRED[pred[1:]]
        if x in TOK_ or y in TOK_:
            if x == y: sg = ZERO
            elif x == PINF or y == NINF: sg = POS
            else: sg = NEG
            return bool(sg & want)
        e = (x - y) % PR
        al = self.signof(e, a, b)
        if al & ~want == 0: return True
        if al & want == 0: return False
        raise Split(("s", a, b, (al & want, al & ~want)))

    def signof(self, e, a, b):
        if e == 0: return ZERO
        al = POS | NEG | ZERO
        al &= self.c.static_sign(a, b)
        cs = self.c.constsign(self.seed, e)
        if cs is not None: return cs
        for f, s in self.signs:
            if f == e: al &= s
            elif (f + e) % PR == 0: al &= FLIP[s]
            else:
                q = self.c.smallrat(e * inv(f) % PR) if f else None
                if q is not None:
                    al &= s if q > 0 else FLIP[s]
                    continue
                d = self.c.constsign(self.seed, (e - f) % PR)      # e = f + d
                if d == POS and not (s & NEG): al &= POS
                elif d == NEG and not (s & POS): al &= NEG
                d = self.c.constsign(self.seed, (e + f) % PR)      # e = -f + d
                if d == POS and not (s & POS): al &= POS
                elif d == NEG and not (s & NEG): al &= NEG
        for v, lo, hi in self.bnd:
            q = self.c.smallrat((e - v) % PR)
            if q is not None:
                if lo + q >= 0: al &= POS
                if hi + q <= 0: al &= NEG
            q = self.c.smallrat((e + v) % PR)
            if q is not None:
                if -hi + q >= 0: al &= POS
                if -lo + q <= 0: al &= NEG
        if al & (al - 1):
            za, zb = self.g.nodes[a] == ("c", Fraction(0)), self.g.nodes[b] == ("c", Fraction(0))
            if zb: al &= self.sgn(a, 5) or 7
            elif za: al &= FLIP[self.sgn(b, 5) or 7]
            else: al &= SADD[self.sgn(a, 4) or 7][FLIP[self.sgn(b, 4) or 7]]
        if al & (al - 1):
            (l1, h1), (l2, h2) = self.iv(a, 8), self.iv(b, 8)
            if l1 > h2: al &= POS
            elif l1 >= h2: al &= POS | ZERO
            if h1 < l2: al &= NEG
            elif h1 <= l2: al &= NEG | ZERO
        if not al: raise Singular()          # contradictory decisions: the case is empty
        return al

    # -------------------------------------------------------------- intervals
    def ivfacts(self):
        """bounds of terms implied by the decided comparisons with constants (by fingerprint)"""
        f = {}
        for d in self.decs:
            if d[0] != "s": continue
            for u, w, al in ((d[1], d[2], d[3]), (d[2], d[1], FLIP[d[3]])):
                t = self.g.nodes[w]
                if t[0] != "c": continue
                v = self.memo.get(u)
                if not isinstance(v, int): continue
                lo, hi = f.get(v, (-INF, INF))
                cl, ch = fout(t[1])
                if not al & NEG: lo = max(lo, cl)
                if not al & POS: hi = min(hi, ch)
                f[v] = (lo, hi)
        return f

    def iv(self, n, depth):
        """enclosure of the real value of node n in this case (outward rounded)"""
        key = (len(self.decs), len(self.zero))
        if self.ivk != key: self.ivk = key; self.ivm = {}; self.ivf = self.ivfacts()
        r = self.ivm.get(n)
        if r is not None and r[2] >= depth: return r[:2]
        t = self.g.nodes[n]; k = t[0]
        lo, hi = -INF, INF
        if k == "c": lo, hi = fout(t[1])
        elif k == "nan" or k == "inf" or k == "undef": return lo, hi
        elif depth > 0:
            if k in ("fadd", "fsub"):
                (a, b), (c, d) = self.iv(t[1], depth - 1), self.iv(t[2], depth - 1)
                if k == "fsub": c, d = -d, -c
                if a > -INF and c > -INF: lo = exadd(a, c, fdn)
                if b < INF and d < INF: hi = exadd(b, d, fup)
            elif k == "fmul":
                a, b = self.iv(t[1], depth - 1)
                if t[1] == t[2]:
                    lo = 0.0 if a <= 0 <= b else max(0.0, fdn(min(a * a, b * b)))
                    hi = fup(max(a * a, b * b))
                else:
                    c, d = self.iv(t[2], depth - 1)
                    ps = [(x, y) for x in (a, b) for y in (c, d)]
                    lo, hi = exmul(ps, min, fdn), exmul(ps, max, fup)
                    if a >= 0 and c >= 0 or b <= 0 and d <= 0: lo = max(lo, 0.0)
                    if a >= 0 and d <= 0 or b <= 0 and c >= 0: hi = min(hi, 0.0)
            elif k == "fdiv":
                (a, b), (c, d) = self.iv(t[1], depth - 1), self.iv(t[2], depth - 1)
                if c > 0 or d < 0:
                    ps = [x / y if abs(y) < INF else 0.0 for x in (a, b) for y in (c, d) if abs(x) < INF]
                    if abs(a) < INF and abs(b) < INF: lo, hi = fdn(min(ps)), fup(max(ps))
                    if a >= 0 and c > 0 or b <= 0 and d < 0: lo = max(lo, 0.0)
                    if a >= 0 and d < 0 or b <= 0 and c > 0: hi = min(hi, 0.0)
                    if abs(a) < INF and a > 0 and 0 < c and d < INF: lo = max(lo, fdn(a / d))
            elif k == "fneg":
                a, b = self.iv(t[1], depth - 1); lo, hi = -b, -a
            elif k == "ite":
                try: lo, hi = self.iv(self.resolve(n), depth)
                except (Split, Singular):
                    (a, b), (c, d) = self.iv(t[2], depth - 1), self.iv(t[3], depth - 1)
                    if not any(self.g.nodes[x][0] in ("nan", "inf", "undef") for x in t[2:4]): lo, hi = min(a, c), max(b, d)
            elif k == "app":
                if t[1] == "sqrt":
                    a, b = self.iv(t[2], depth - 1)
                    lo = fdn(math.sqrt(a)) if a > 0 else 0.0
                    if lo < 0: lo = 0.0
                    if 0 <= b < INF: hi = fup(math.sqrt(b))
                elif t[1] in ("sin", "cos", "tanh"): lo, hi = -1.0, 1.0
                elif t[1] == "exp":
                    a, b = self.iv(t[2], depth - 1)
                    lo = 1.0 if a >= 0 else 0.0
                    if b <= 0: hi = 1.0
            elif k == "cast" and t[1] in ("uitofp", "sitofp") and (self.memo.get(t[4]) or "?")[0] == "i":
                z = self.memo[t[4]][1]
                lo, hi = fout(Fraction(z if t[1] == "uitofp" else s64(z, t[2])))
            elif k == "cast" and t[1] == "uitofp":
                m = self.iub(t[4], t[2]); lo, hi = 0.0, fup(float(m))
        v = self.memo.get(n)
        if isinstance(v, int):
            f = self.ivf.get(v)
            if f: lo, hi = max(lo, f[0]), min(hi, f[1])
            f = self.ivf.get(-v % PR)
            if f: lo, hi = max(lo, -f[1]), min(hi, -f[0])
            if k == "in" and len(self.ivf) < 60:
                for w, (a, b) in self.ivf.items():
                    q = self.c.smallrat((v - w) % PR)           # v = w + q
                    if q:
                        c, d = fout(q)
                        if a > -INF: lo = max(lo, exadd(a, c, fdn))
                        if b < INF: hi = min(hi, exadd(b, d, fup))
        self.ivm[n] = (lo, hi, depth)
        return lo, hi

    def iub(self, n, w):
        """upper bound of an unsigned integer term"""
        m = (1 << w) - 1
        t = self.g.nodes[n]
        b = m & ~self.c.kz(n, w)
        if t[0] == "ibin" and t[1] == "urem" and self.g.nodes[t[4]][0] == "ic" and self.g.nodes[t[4]][1]: b = min(b, self.g.nodes[t[4]][1] - 1)
        if t[0] == "cast" and t[1] == "zext": b = min(b, self.iub(t[4], t[2]))
        if t[0] == "ite": b = min(b, max(self.iub(t[2], w), self.iub(t[3], w)))
        return b

    def sgn(self, n, depth):
        """sign domain: allowed signs of node n in this case"""
        v = self.memo.get(n)
        if isinstance(v, Split): return 7
        if v is None:
            try: v = self.ev(n)
            except Split: return 7
        if isinstance(v, tuple) or v in TOK_: return 7
        if v == 0: return ZERO
        cs = self.c.constsign(self.seed, v)
        if cs is not None: return cs
        al = 7
        r = self.c.nonneg(n)
        if r: al = POS if r == 2 else POS | ZERO
        for f, s in self.signs:
            if f == v: al &= s
            elif f + v == PR: al &= FLIP[s]
            else:
                d = self.c.constsign(self.seed, (v - f) % PR)      # v = f + d
                if d == POS and not (s & NEG): al &= POS
                elif d == NEG and not (s & POS): al &= NEG
                else:
                    d = self.c.constsign(self.seed, (v + f) % PR)  # v = -f + d
                    if d == POS and not (s & POS): al &= POS
                    elif d == NEG and not (s & NEG): al &= NEG
        if depth == 0 or not al & (al - 1): return al
        t = self.g.nodes[n]
        k = t[0]
        if k == "fadd": al &= SADD[self.sgn(t[1], depth - 1)][self.sgn(t[2], depth - 1)]
        elif k == "fsub": al &= SADD[self.sgn(t[1], depth - 1)][FLIP[self.sgn(t[2], depth - 1)]]
        elif k in ("fmul", "fdiv"): al &= SMUL[self.sgn(t[1], depth - 1)][self.sgn(t[2], depth - 1)]
        elif k == "fneg": al &= FLIP[self.sgn(t[1], depth - 1)]
        elif k == "ite":
            try: al &= self.sgn(self.resolve(n), depth)
            except Split: al &= self.sgn(t[2], depth - 1) | self.sgn(t[3], depth - 1)
        return al

    def icmp(self, n, t):
        _, pred, bits, a, b = t
        x, y = self.ev(a), self.ev(b)
        if x == UND or y == UND: return False
        if x[0] == "i" and y[0] == "i":
            return icmpv(pred, bits, x[1], y[1])
        if x[0] == "p" and y[0] == "p" and x[1] == y[1]:
            return icmpv(pred, 64, x[2][1], y[2][1])
        if x[0] == "p" or y[0] == "p":
            raise Unknown("pointer comparison")
        if x[1] == y[1]: return pred in ("eq", "ule", "sle", "uge", "sge")
        if n in self.idec: return self.idec[n]
        if y[0] == "i" or x[0] == "i":
            c, v, pr, m = (y[1], x, pred, a) if y[0] == "i" else (x[1], y, SWP[pred], b)
            lo, hi = 0, self.iub(m, bits)
            ne = set()
            for q, r in self.idec.items():
                u = self.g.nodes[q]
                if u[2] != bits: continue
                for p1, p2, pp in ((u[3], u[4], u[1]), (u[4], u[3], SWP[u[1]])):
                    z = self.g.nodes[p2]
                    if z[0] != "ic" or self.memo.get(p1) != v: continue
                    if not r: pp = NEGP[pp]
                    if pp == "eq": lo, hi = max(lo, z[1]), min(hi, z[1])
                    elif pp == "ne": ne.add(z[1])
                    elif pp == "ult": hi = min(hi, z[1] - 1)
                    elif pp == "ule": hi = min(hi, z[1])
                    elif pp == "ugt": lo = max(lo, z[1] + 1)
                    elif pp == "uge": lo = max(lo, z[1])
            while lo in ne: lo += 1
            while hi in ne: hi -= 1
            if lo > hi: raise Singular()
            if pr[0] == "s" and hi < 1 << (bits - 1) and c < 1 << (bits - 1): pr = "u" + pr[1:]
            if pr[0] == "s" and hi < 1 << (bits - 1) and c >= 1 << (bits - 1): return pr in ("sgt", "sge")
            if pr in ("eq", "ne"):
                if c < lo or c > hi or c in ne: return pr == "ne"
                if lo == hi == c: return pr == "eq"
            elif pr[0] == "u":
                f = {icmpv(pr, bits, e, c) for e in (lo, hi)}
                if len(f) == 1: return f.pop()
        raise Split(("i", n, None, (True, False)))


class Singular(Exception):
    pass


class Ctx:
    """per probe function: the graph plus per-seed constant tables"""

    def __init__(self, g, ints=None):
        self.usr = {}; self._uni = {}
        self.g = g
        self._c = {}; self._sup = {}; self._rat = {}; self._ss = {}
        self._sym = {}
        self.ints = ints or {}
        self._diff = {}

    def users(self, x):
        """terms which depend on the truncation of x"""
        r = self.usr.get(x)
        if r is None:
            r = set()
            for n, t in enumerate(self.g.nodes):
                if (t[0] == "cast" and t[1] in ("fptosi", "fptoui") and t[4] == x) or any(y in r for y in self.g.children(t)): r.add(n)
            self.usr[x] = r
        return r

    def sup(self, n):
        if n not in self._sup: self._sup[n] = self.g.support(n)
        return self._sup[n]

    def sym(self, seed, nm):
        k = (seed, nm)
        if k in self._sym: return self._sym[k]
        if nm == "sqrt2": r = pow(2, HALF, PR)
        elif nm == "sqrt3":
            r = pow(3, HALF, PR)
        elif nm == "sqrtpi":
            q = prf(seed, "sqrtpi"); r = q * q % PR      # a quadratic residue, so that sqrt(pi) is this root
        elif nm == "pi":
            r = self.sym(seed, "sqrtpi"); r = r * r % PR
        elif nm == "phi":
            r = (1 + pow(5, HALF, PR)) * inv(2) % PR
        elif nm == "log2e":
            r = inv(self.sym(seed, "ln2"))
        else: r = prf(seed, "sym", nm)
        self._sym[k] = r
        return r

    def unity(self, seed, x):
        """sine and cosine of a rational multiple of pi with a small denominator"""
        k = (seed, x)
        if k not in self._uni:
            r = None
            q = self.smallrat(x * inv(self.sym(seed, "pi")) % PR)
            if q is not None and q.denominator in (1, 2, 3, 4, 6, 8, 16, 32):
                h = inv(2); d = q.denominator
                if d in (3, 6): c1, s1, n = pow(3, HALF, PR) * h % PR, h, q.numerator * (6 // d) % 12
                else:
                    c1 = 0; s1 = 1; e = 2                  # half angles from pi / 2
                    while e < max(d, 4):
                        z = pow((1 + c1) * h % PR, HALF, PR)
                        s1 = s1 * inv(2 * z) % PR; c1 = z; e *= 2
                    n = q.numerator * (e // d) % (2 * e)
                if (c1 * c1 + s1 * s1) % PR == 1:
                    c, v = 1, 0
                    for _ in range(n): c, v = (c * c1 - v * s1) % PR, (c * s1 + v * c1) % PR
                    r = (v, c)
            self._uni[k] = r
        return self._uni[k]

    def const(self, seed, fr):
        k = (seed, fr)
        if k in self._c: return self._c[k]
        q, syms = classify_const(fr)
        r = q.numerator % PR * inv(q.denominator % PR) % PR
        for nm, pw in syms:
            v = self.sym(seed, nm)
            r = r * (v if pw == 1 else inv(v)) % PR
        self._c[k] = r
        return r

    def intval(self, seed, nm, bits):
        if nm in self.ints: return self.ints[nm] & ((1 << bits) - 1)
        return prf(seed, "iin", nm) & ((1 << bits) - 1)

    def kz(self, n, w, depth=0):
        """bits known to be zero"""
        m = (1 << w) - 1
        t = self.g.nodes[n]
        if t[0] == "ic": return ~t[1] & m
        if depth > 6: return 0
        if t[0] == "ibin":
            if t[1] in ("shl", "lshr") and self.g.nodes[t[4]][0] == "ic":
                k = self.g.nodes[t[4]][1]; z = self.kz(t[3], w, depth + 1)
                if k >= w: return 0
                return ((z << k) | ((1 << k) - 1)) & m if t[1] == "shl" else (z >> k) | (m ^ (m >> k))
            if t[1] == "and": return self.kz(t[3], w, depth + 1) | self.kz(t[4], w, depth + 1)
            if t[1] in ("or", "xor"): return self.kz(t[3], w, depth + 1) & self.kz(t[4], w, depth + 1)
        if t[0] == "cast" and t[1] == "zext": return (m ^ ((1 << t[2]) - 1)) | self.kz(t[4], t[2], depth + 1)
        if t[0] == "ite": return self.kz(t[2], w, depth + 1) & self.kz(t[3], w, depth + 1)
        return 0

    def smallrat(self, x, lim=1 << 40):
        """rational reconstruction with |num|,|den| < 2^40 (spurious with probability 2^-46)"""
        if lim != 1 << 40: self._rat.pop(x, None)
        if x in self._rat: return self._rat[x]
        r0, r1, s0, s1 = PR, x, 0, 1
        while r1 >= lim:
            q = r0 // r1
            r0, r1, s0, s1 = r1, r0 - q * r1, s1, s0 - q * s1
        r = None
        if 0 < abs(s1) < lim:
            r = Fraction(r1, s1)
        if lim == 1 << 40: self._rat[x] = r
        return r

    def constsign(self, seed, e):
        """sign of e when e is recognisably a constant"""
        q = self.smallrat(e)
        if q is not None:
            return ZERO if q == 0 else POS if q > 0 else NEG
        y = (e << 56) % PR                       # a sum of double constants (spurious with probability 2^-54)
        if y >> 72 == 0: return POS
        if (PR - y) >> 72 == 0: return NEG
        if seed not in self._diff:
            d = {}
            cs = sorted(self.g.consts)[:120]
            vals = [(c, self.const(seed, c)) for c in cs] + [(Fraction(0), 0)]
            for c1, v1 in vals:
                for c2, v2 in vals:
                    for s in (1, -1):
                        z = c1 + s * c2
                        if z: d[(v1 + s * v2) % PR] = POS if z > 0 else NEG
            self._diff[seed] = d
        return self._diff[seed].get(e)

    def nonneg(self, n, depth=0):
        """2: positive, 1: nonnegative, 0: unknown"""
        if n in self._ss: return self._ss[n]
        self._ss[n] = 0
        t = self.g.nodes[n]
        k = t[0]
        r = 0
        if k == "c": r = 2 if t[1] > 0 else 1 if t[1] == 0 else 0
        elif k == "inf": r = 0 if t[1] else 2
        elif k == "fmul":
            if t[1] == t[2]: r = 1
            else:
                a, b = self.nonneg(t[1]), self.nonneg(t[2])
                r = min(a, b)
        elif k == "fdiv": r = min(self.nonneg(t[1]), self.nonneg(t[2]))
        elif k == "fadd":
            a, b = self.nonneg(t[1]), self.nonneg(t[2])
            r = max(a, b) if a and b else 0
        elif k == "app":
            if t[1] == "exp": r = 2
            elif t[1] == "sqrt": r = 2 if self.nonneg(t[2]) == 2 else 1
        elif k == "cast" and t[1] == "uitofp": r = 1
        elif k == "ite":
            # |x|
            c = self.g.nodes[t[1]]
            if c[0] == "fcmp" and c[1] in ("olt", "ole", "ult", "ule") and self.g.nodes[c[3]] == ("c", Fraction(0)) and c[2] == t[3] and self.g.nodes[t[2]] == ("fneg", t[3]):
                r = 1
            else:
                r = min(self.nonneg(t[2]), self.nonneg(t[3]))
        self._ss[n] = r
        return r

    def static_sign(self, a, b):
        """signs of a-b allowed by structural sign facts"""
        al = 7
        for x, y, f in ((a, b, False), (b, a, True)):
            ty = self.g.nodes[y]
            if ty[0] == "c" and ty[1] <= 0 or (ty[0] == "fneg" and self.nonneg(ty[1])):
                r = self.nonneg(x)
                m = 7
                if r == 2 or (r == 1 and ty[0] == "c" and ty[1] < 0): m = POS
                elif r == 1: m = POS | ZERO
                al &= FLIP[m] if f else m
        return al or 7


# ------------------------------------------------------------------ points of the value graph (refutation only)
class Point:
    def __init__(self, g, vals, hp=False, salt=0):
        self.g = g; self.v = vals; self.hp = hp; self.salt = vals.get("#salt", salt)
        self.memo = {}

    def ev(self, n):
        r = self.memo.get(n)
        if r is None:
            r = self.ev0(n)
            self.memo[n] = r
        return r

    def num(self, fr):
        q, syms = classify_const(fr)
        if not self.hp:
            return float(fr)
        r = mpf(q.numerator) / q.denominator
        for nm, pw in syms:
            v = MPSYM[nm]
            r = r * v if pw == 1 else r / v
        return r

    def ev0(self, n):
        g = self.g
        t = g.nodes[n]
        k = t[0]
        if k == "bc": return t[1]
        if k == "ic": return t[1]
        if k == "c": return self.num(t[1])
        if k == "in":
            x = self.v.get(t[1], 0.5)
            return mpf(x) if self.hp else x
        if k == "uninit":
            x = 1.2345678e3 + (zlib.crc32(repr((t[1], t[2])).encode()) % 1000)
            return mpf(x) if self.hp else x
        if k == "nan": return NAN
        if k == "inf": return NINF if t[1] else PINF
        if k == "undef": return UND
        if k in ("fadd", "fsub", "fmul", "fdiv"):
            return self.arith(k, self.ev(t[1]), self.ev(t[2]))
        if k == "fneg":
            a = self.ev(t[1])
            if a in TOK_: return {PINF: NINF, NINF: PINF}.get(a, a)
            return -a
        if k == "frem":
            a, b = self.ev(t[1]), self.ev(t[2])
            if a in TOK_ or b in TOK_ or b == 0: return NAN
            return mpmath.fmod(a, b) if self.hp else math.fmod(a, b)
        if k == "app": return self.app(t[1], [self.ev(x) for x in t[2:]])
        if k == "ite":
            return self.ev(t[2] if self.truth(t[1]) else t[3])
        if k == "not": return not self.truth(t[1])
        if k == "and": return self.truth(t[1]) and self.truth(t[2])
        if k == "or": return self.truth(t[1]) or self.truth(t[2])
        if k == "fcmp":
            a, b = self.ev(t[2]), self.ev(t[3])
            p = t[1]
            if UND in (a, b): return False
            if NAN in (a, b): return p == "uno" or p[0] == "u"
            if p == "ord": return True
            if p == "uno": return False
            if SING in (a, b): raise Singular()
            if a == b: s = ZERO
            elif a == PINF or b == NINF: s = POS
            elif a == NINF or b == PINF: s = NEG
            else: s = POS if a > b else NEG
            return bool(s & PRED[p[1:]])
        if k == "icmp":
            a, b = self.ev(t[3]), self.ev(t[4])
            if UND in (a, b): return False
            if isinstance(a, tuple) and isinstance(b, tuple) and a[0] == b[0]:
                a, b = a[1], b[1]
            if isinstance(a, tuple) or isinstance(b, tuple): raise Unknown("pointer comparison")
            return icmpv(t[1], t[2], a, b)
        if k == "iin": return self.v.get(t[1], 0) & ((1 << t[2]) - 1)
        if k == "iapp":
            a = [self.ev(x) for x in t[3:]]
            if UND in a: return UND
            if t[1] in ("ctlz", "cttz", "ctpop", "bswap", "bitreverse"): return bitfn(t[1], a[0], t[2])
            return prf(self.salt, t[1], tuple(str(x) for x in a)) & ((1 << t[2]) - 1)
        if k == "ibin":
            a, b = self.ev(t[3]), self.ev(t[4])
            if UND in (a, b): return UND
            if isinstance(a, tuple) or isinstance(b, tuple):
                if isinstance(a, tuple) and isinstance(b, tuple) and t[1] == "sub" and a[0] == b[0]: return iop("sub", 64, a[1], b[1])
                if isinstance(a, tuple) and isinstance(b, int) and t[1] in ("add", "sub"): return (a[0], iop(t[1], 64, a[1], b))
                raise Unknown("pointer arithmetic")
            if t[1] in ("udiv", "sdiv", "urem", "srem") and b == 0: return UND
            return iop(t[1], t[2], a, b)
        if k == "cast":
            _, op, b1, b2, x = t
            v = self.ev(x)
            if v == UND: return UND
            if op in ("trunc", "zext"): return v & ((1 << b2) - 1)
            if op == "sext": return s64(v, b1) & ((1 << b2) - 1)
            if op in ("uitofp", "sitofp"):
                z = v if op == "uitofp" else s64(v, b1)
                return mpf(z) if self.hp else float(z)
            if op in ("fptoui", "fptosi"):
                if v in TOK_: return UND
                z = int(v)
                if op == "fptoui" and not (0 <= z < 1 << b2): return UND
                if op == "fptosi" and not (-(1 << (b2 - 1)) <= z < 1 << (b2 - 1)): return UND
                return z & ((1 << b2) - 1)
            if op == "bitcast":
                import struct
                if isinstance(v, int) and not isinstance(v, bool) and b2 == 64:
                    d = struct.unpack("<d", struct.pack("<Q", v))[0]
                    if d != d: return NAN
                    if math.isinf(d): return PINF if d > 0 else NINF
                    return mpf(d) if self.hp else d
                if v in TOK_: raise Unknown("bits of nan")
                return struct.unpack("<Q", struct.pack("<d", float(v)))[0]
        if k == "ptr": return (t[1], self.ev(t[2]))
        raise Unknown("node " + k)

    def truth(self, n):
        v = self.ev(n)
        if v == UND: return False
        return bool(v)

    def arith(self, op, a, b):
        if a in TOK_ or b in TOK_:
            if UND in (a, b): return UND
            if SING in (a, b): return SING
            if NAN in (a, b): return NAN
            if op == "fdiv" and a not in TOK_: return mpf(0) if self.hp else 0.0
            if op in ("fadd", "fsub"):
                if a in TOK_ and b in TOK_: return SING
                if a in TOK_: return a
                return b if op == "fadd" else {PINF: NINF, NINF: PINF}[b]
            return SING
        try:
            if op == "fadd": return a + b
            if op == "fsub": return a - b
            if op == "fmul": return a * b
            if b == 0: return SING
            return a / b
        except OverflowError:
            return SING

    def app(self, nm, a):
        if UND in a: return UND
        if SING in a: return SING
        if nm.startswith("UF"):
            if any(x in TOK_ for x in a): return NAN
            if self.salt % 3 == 1:        # an arbitrary function: independent values at distinct points
                s = (prf(self.salt, nm, tuple("%.9g" % float(x) for x in a)) % 1000003 / 1000003.0 - 0.5) * (8 if self.salt & 4 else 3)
                return mpf(s) if self.hp else s
            h = prf(7, nm) % 1000 / 1000.0
            s = 0.3 + h
            if self.salt:
                r = random.Random("%d %s" % (self.salt, nm))
                s = r.uniform(-2, 2)
                for i, x in enumerate(a):
                    z = float(x)
                    s += r.uniform(-3, 3) * z + r.uniform(-1, 1) * math.sin(r.uniform(0, 4) * z + r.uniform(0, 6))
                return mpf(s) if self.hp else s
            for i, x in enumerate(a):
                z = float(x)
                s += (0.7 + h * (i + 1)) * z + (1 - h) * math.sin((1 + i * 0.7 + h) * z) * 0.4
            if len(a) > 1: s += 0.2 * float(a[0]) * float(a[1])
            return mpf(s) if self.hp else s
        if NAN in a: return NAN
        if any(x in TOK_ for x in a): return SING
        M = mpmath if self.hp else math
        x = a[0] if a else 0
        try:
            if nm == "sqrt": return M.sqrt(x) if x >= 0 else NAN
            if nm == "sin": return M.sin(x)
            if nm == "cos": return M.cos(x)
            if nm == "tan": return M.tan(x)
            if nm == "exp": return M.exp(x)
            if nm == "exp2": return M.power(2, x) if self.hp else 2.0 ** x
            if nm in ("ln", "log2", "log10"):
                if x < 0: return NAN
                if x == 0: return SING
                r = M.log(x)
                return r if nm == "ln" else r / M.log(2 if nm == "log2" else 10)
            if nm == "atan": return M.atan(x)
            if nm == "atan2": return M.atan2(a[0], a[1])
            if nm in ("asin", "acos"):
                if abs(x) > 1: return NAN
                return getattr(M, nm)(x)
            if nm in ("powr", "powf"):
                if x <= 0: return SING
                return M.power(x, a[1]) if self.hp else x ** a[1]
            if nm == "root":
                n = a[1][1] if isinstance(a[1], tuple) else int(a[1])
                n -= (1 << 32) if n >> 31 else 0
                if n == 0 or x < 0 and n % 2 == 0: return NAN
                if x == 0: return x if n > 0 else SING
                r = abs(x) ** (mpf(1) / n if self.hp else 1. / n)
                return r if x >= 0 else -r
            if nm == "cbrt":
                r = abs(x) ** (mpf(1) / 3 if self.hp else 1 / 3.)
                return r if x >= 0 else -r
            if nm == "floor": return M.floor(x) if self.hp else float(math.floor(x))
            if nm == "ceil": return M.ceil(x) if self.hp else float(math.ceil(x))
            if nm == "trunc": return (M.floor(x) if x >= 0 else M.ceil(x)) if self.hp else float(math.trunc(x))
            if nm == "round":
                z = abs(x) + (mpf(1) / 2 if self.hp else .5)
                z = M.floor(z)
                return z * (1 if x >= 0 else -1)
        except (OverflowError, ValueError, ZeroDivisionError):
            return SING
        # unknown real function: fixed smooth interpretation
        h = prf(7, nm) % 1000 / 1000.0
        s = 0.3 + h
        for i, z in enumerate(a):
            s += (0.7 + h * (i + 1)) * float(z) + math.sin((1 + i + h) * float(z)) * 0.4
        return mpf(s) if self.hp else s


MPSYM = {"pi": mp.pi, "sqrt2": mpmath.sqrt(2), "sqrtpi": mpmath.sqrt(mp.pi), "e": mpmath.e, "ln2": mpmath.log(2), "ln10": mpmath.log(10),
         "phi": (1 + mpmath.sqrt(5)) / 2, "sqrt3": mpmath.sqrt(3), "log2e": 1 / mpmath.log(2)}
MPSYM = {k: +v for k, v in MPSYM.items()}


def differs(a, b, tol):
    """None: cannot compare here, else bool"""
    if a == UND or b == UND: return True
    if SING in (a, b): return None
    if a in TOK_ or b in TOK_:
        return a != b
    d = abs(a - b)
    return bool(d > tol * (1 + abs(a) + abs(b)))


def holds_at(g, ck, vals, hp, tol):
    """True: holds / not reached, False: violated, None: cannot tell at this point"""
    P_ = Point(g, vals, hp)
    try:
        if not P_.truth(ck.cond): return True
        if ck.kind in ("trap", "unreach"): return False
        a = [P_.ev(x) for x in ck.args]
    except (Singular, Unknown, OverflowError, TypeError, ValueError):
        return None
    if ck.kind == "eq":
        d = differs(a[0], a[1], tol)
        return None if d is None else not d
    if ck.kind == "eqi":
        if UND in a: return False
        return a[0] == a[1]
    if ck.kind == "nan":
        return a[0] in (NAN,)
    if ck.kind == "fin":
        return a[0] not in TOK_
    return None


def describe(g, ck, vals, names):
    P_ = Point(g, vals, False)
    try:
        out = [P_.ev(x) for x in ck.args]
    except Exception:
        out = []
    return "at {%s}: %s" % (", ".join("%s=%.17g" % (k, vals[k]) if isinstance(vals[k], float) else "%s=%s" % (k, vals[k]) for k in names),
                            " vs ".join(str(x) for x in out) if out else "reached")


class Decider:
    def __init__(self, g, budget=30.0, maxcases=1500, seed=1, wit=True):
        self.wit = wit
        self.g = g; self.ctx = Ctx(g); self.budget = budget; self.maxcases = maxcases; self.seed = seed
        self.base = {}

    def leaf(self, env, ck):
        """None = obligation holds in this case; else reason"""
        if not env.bool(ck.cond): return None
        if ck.kind in ("trap", "unreach"): return "reached"
        vs = [env.ev(x) for x in ck.args]
        if ck.kind == "eq":
            a, b = vs
            if UND in vs: return "undefined value"
            if SING in vs: return None if a == b else "singular"
            if a != b and all(self.g.nodes[x][0] == "c" for x in ck.args):
                p, q = (self.g.nodes[x][1] for x in ck.args)
                if abs(p - q) <= Fraction(1, 10 ** 13) * max(abs(p), abs(q)): return None       # folded by the compiler in double precision
            if os.environ.get("VG_SHOW"): print("SHOW", a, "||", b, "| facts", [(d, [self.g.nodes[x] for x in d[1:3] if isinstance(x, int)]) for d in env.decs])
            return None if a == b else "normal forms differ"
        if ck.kind == "eqi":
            if UND in vs: return "undefined value"
            a, b = vs
            a = ("i", int(a[1])) if a[0] == "b" else a
            b = ("i", int(b[1])) if b[0] == "b" else b
            return None if a == b or a[0] in "io" and b[0] in "io" and a[1] == b[1] else "values differ"
        if ck.kind == "nan":
            return None if vs[0] == NAN else "not NaN"
        if ck.kind == "fin":
            return None if vs[0] not in TOK_ else "not finite"
        return "?"

    def decide(self, ck):
        t0 = time.time()
        g = self.g
        if ck.cond == g.FALSE: return ("vacuous", 0, "")
        if ck.kind in ("eq", "eqi") and ck.args[0] == ck.args[1] and ck.args[0] != g.UNDEF:
            return ("proved", 1, "congruent")
        sup = set()
        for x in ck.args + (ck.cond,): sup |= g.support(x)
        hasint = any(g.nodes[x][0] == "iin" for x in sup)
        nseeds = 6 if hasint else 1
        n = 0
        und = None
        tried = 0; done = 0
        for rnd in range(nseeds):
            sd = self.seed * 1000 + rnd
            stack = [Env(self.ctx, sd)]
            while stack:
                env = stack.pop()
                n += 1
                if n > self.maxcases or time.time() - t0 > self.budget:
                    w = self.witness(ck, sup, []) if tried < 3 else None
                    tried += 1
                    if w: return ("refuted", n, w)
                    return ("undecided", n, "case budget")
                try:
                    r = self.leaf(env, ck)
                except Split as s:
                    kind, a, b, opts = s.what
                    for al in opts:
                        try:
                            stack.append(env.fork((kind, a, b, al) if kind == "s" else ("i", a, al)))
                        except Split as s2:
                            und = "nested gate"
                        except Singular:
                            pass
                    continue
                except Singular:
                    continue
                done += 1
                if r is None and env.guess and not env.badsqrt:
                    # the sign of a root was chosen: the obligation has to hold for other choices as well
                    good = 0
                    for k in range(1, 30):
                        try:
                            e2 = Env(self.ctx, sd + 104729 * k, env.decs)
                            r2 = self.leaf(e2, ck)
                        except (Split, Singular):
                            continue
                        if e2.badsqrt: continue
                        if r2 is not None: r = r2; break
                        good += 1
                        if good == 5: break
                    if r is not None:
                        if tried < 12:
                            tried += 1
                            w = self.witness(ck, sup, env.decs)
                            if w: return ("refuted", n, w + " [%s]" % r)
                        und = und or "sign of a root"
                        continue
                if r is None: continue
                if env.infeasible(): continue
                # try further interpretations (square roots need residues)
                ok = False
                if env.badsqrt or True:
                    for k in range(1, 40 if env.badsqrt else 2):
                        try:
                            e2 = Env(self.ctx, sd + 7919 * k, env.decs)
                            if self.leaf(e2, ck) is None:
                                ok = env.badsqrt or e2.badsqrt
                                if ok: break
                        except (Split, Singular):
                            pass
                if ok: continue
                if tried < 12:
                    tried += 1
                    w = self.witness(ck, sup, env.decs)
                    if w: return ("refuted", n, w + " [%s]" % r)
                und = und or r
        if und:
            return ("undecided", n, und)
        if not done:
            # every case was singular: nothing has been compared
            w = self.witness(ck, sup, [])
            if w: return ("refuted", n, w + " [singular]")
        return ("proved", n, "")

    # refutation ------------------------------------------------------------
    def witness(self, ck, sup, decs):
        if not self.wit: return None
        g = self.g
        for d in decs:
            if d[0] == "s": sup = sup | self.ctx.sup(d[1]) | self.ctx.sup(d[2])
            else: sup = sup | self.ctx.sup(d[1])
        rn = random.Random(zlib.crc32(repr((self.seed, ck.label, len(decs))).encode()))
        seen = set(); st = list(sup)
        atoms = {}; ufs = False
        while st:
            x = st.pop()
            if x in seen: continue
            seen.add(x)
            t = g.nodes[x]
            if t[0] == "in": atoms[t[1]] = None
            elif t[0] == "iin": atoms[t[1]] = t[2]
            elif t[0] == "app" and t[1].startswith("UF"): ufs = True
            st.extend(g.children(t))
        reals = sorted(k for k, b in atoms.items() if b is None)
        ints = sorted((k, b) for k, b in atoms.items() if b is not None)
        cs = [float(c) for c in g.consts if abs(c) < 1e6][:60] + [0.0, 1.0, -1.0]
        ics = sorted({t[1] for t in g.nodes if t[0] == "ic"})[:200]
        zer = [(d[1], d[2]) for d in decs if d[0] == "s"]
        names = reals + [k for k, _ in ints]
        N = 300 if not names else 500
        # words whose halves are extreme drive the carries of multi-word arithmetic
        ext = []
        if any(b == 64 for _, b in ints):
            hv = [0, 1, 0xffffffff, 0x80000000, 2, 0xfffffffe, 3]
            ext = [(i << 32) | j for i in hv for j in hv]
            N += 400
        for it in range(N if names or ufs else 1):
            mode = it % 7
            vals = {"#salt": it} if ufs and it else {}
            for k in reals:
                if mode == 0: v = rn.uniform(-1, 1)
                elif mode == 1: v = rn.uniform(-4, 4)
                elif mode == 2: v = float(rn.randint(-4, 4))
                elif mode == 3: v = rn.uniform(0.05, 3)
                elif mode == 4: v = rn.choice(cs) if rn.random() < .5 else rn.uniform(-3, 3)
                elif mode == 5: v = math.copysign(10 ** rn.uniform(-8, 5), rn.uniform(-1, 1))
                else: v = rn.choice([0.0, 1.0, -1.0, 2.0, 0.5, rn.uniform(-2, 2)])
                vals[k] = v
            if mode == 6 and reals and it % 2:
                reals2 = list(reals); 
                k0 = rn.choice(reals2); 
                for k in reals2:
                    if rn.random() < .4: vals[k] = vals[k0]
            for k, b in ints:
                r = rn.random()
                if r < .4: v = rn.getrandbits(b)
                elif r < .6 and ics: v = rn.choice(ics) + rn.choice((-1, 0, 0, 1))
                elif r < .8: v = rn.randint(0, 70)
                else: v = 1 << rn.randrange(b)
                if ext and b == 64 and it >= 500: v = rn.choice(ext) if it % 3 else rn.choice(ext[:3] + ext[7:10] + ext[14:17])
                vals[k] = v & ((1 << b) - 1)
            pts = [vals]
            if zer and it < 250:
                p2 = self.project(dict(vals), decs, reals, rn)
                if p2 is not None: pts.append(p2)
            for v in pts:
                h = holds_at(g, ck, v, False, 1e-6)
                if h is False:
                    if holds_at(g, ck, v, True, 1e-9) is False:
                        return describe(g, ck, v, names)
        return None

    def project(self, vals, decs, reals, rn):
        """move a point towards the decided gate signs (one pass, secant steps)"""
        g = self.g
        # how far to step past a boundary: coarse first, then within narrow regions
        mag = rn.choice([None, None, 1e-2, 1e-4, 1e-6, 1e-9])
        for _ in range(2 if mag is None else 5):
            bad = False
            for d in decs:
                if d[0] != "s": continue
                _, a, b, al = d

                def f(v):
                    P_ = Point(g, v)
                    try:
                        x, y = P_.ev(a), P_.ev(b)
                    except (Singular, Unknown, TypeError, OverflowError):
                        return None
                    if x in TOK_ or y in TOK_: return None
                    return x - y
                e = f(vals)
                if e is None: return None
                s = ZERO if e == 0 else POS if e > 0 else NEG
                if s & al: continue
                bad = True
                cand = [g.nodes[x][1] for x in self.ctx.sup(a) | self.ctx.sup(b) if g.nodes[x][0] == "in"]
                cand += [k for k in reals if k not in cand]
                rn.shuffle(cand)
                done = False
                for k in cand[:4]:
                    x0 = vals[k]
                    v = dict(vals)
                    x1 = x0 + 0.5
                    e0 = e
                    for _i in range(12):
                        v[k] = x1
                        e1 = f(v)
                        if e1 is None or e1 == e0: break
                        if e1 == 0: break
                        x0, x1, e0 = x1, x1 - e1 * (x1 - x0) / (e1 - e0), e1
                        if not abs(x1) < 1e30: break
                    else:
                        e1 = None
                    if e1 is None or e1 != 0 and abs(e1) > 1e-9 * max(1.0, 1e-3 * abs(x1)): continue
                    if al == ZERO:
                        if e1 == 0:
                            vals = v; done = True; break
                        # snap
                        for cnd in (round(x1), round(x1 * 2) / 2):
                            v[k] = float(cnd)
                            if f(v) == 0: vals = dict(v); done = True; break
                        if done: break
                        continue
                    sc = max(1.0, abs(x1))
                    for step in (0.37, -0.37, 1.5, -1.5, 0.1 * sc, -0.1 * sc) if mag is None else (mag * sc, -mag * sc):
                        v[k] = x1 + step
                        z = f(v)
                        if z is None: continue
                        s = ZERO if z == 0 else POS if z > 0 else NEG
                        if s & al: vals = dict(v); done = True; break
                    if done: break
                if not done and al != ZERO:
                    # no crossing along one axis: descend towards the wanted sign along several
                    v = dict(vals); ev = e; w = 1 if al & POS else -1
                    for k in cand[:6]:
                        best = (ev * w, v[k])
                        for c in (0.0, 1e-12, 1e-7, -1e-7, 1e-3, 1.0, -1.0, 10.0, -10.0, 1e3, -1e3, 1e7, -1e7):
                            v2 = dict(v); v2[k] = c
                            z = f(v2)
                            if z is not None and z * w > best[0]: best = (z * w, c)
                        v[k] = best[1]; ev = best[0] * w
                        s = ZERO if ev == 0 else POS if ev > 0 else NEG
                        if s & al: vals = v; done = True; break
                if not done: return None
            if not bad: return vals
        return vals
