"""Interval abstract interpretation of a value graph over a box of inputs (centred forms with interval derivatives, outward rounding,
bisection).  Decides NEAR(value, reference, tolerance): |value - reference| <= tolerance for every point of the box."""
import math, time
import numpy as np
from vg import Unknown, s64

INF = np.inf


def dn(x): return np.nextafter(x, -INF)
def up(x): return np.nextafter(x, INF)


def pad(lo, hi, n=4):
    for _ in range(n): lo = dn(lo); hi = up(hi)
    return lo, hi


class I:
    """vector of intervals"""
    __slots__ = ("lo", "hi")

    def __init__(self, lo, hi): self.lo = lo; self.hi = hi


def cst(fr, n):
    f = float(fr)
    from fractions import Fraction
    if Fraction(f) == fr: a = b = f
    else: a = math.nextafter(f, -INF); b = math.nextafter(f, INF)
    return I(np.full(n, a), np.full(n, b))


def fix(lo, hi):
    lo = np.where(np.isnan(lo), -INF, lo); hi = np.where(np.isnan(hi), INF, hi)
    return I(lo, hi)


def add(a, b): return fix(dn(a.lo + b.lo), up(a.hi + b.hi))
def sub(a, b): return fix(dn(a.lo - b.hi), up(a.hi - b.lo))
def neg(a): return I(-a.hi, -a.lo)


def mul(a, b):
    with np.errstate(all="ignore"):
        p = np.stack([a.lo * b.lo, a.lo * b.hi, a.hi * b.lo, a.hi * b.hi])
        # 0 * inf counts as 0 (an unbounded factor times an exact zero)
        z = np.stack([(a.lo == 0) | (b.lo == 0), (a.lo == 0) | (b.hi == 0), (a.hi == 0) | (b.lo == 0), (a.hi == 0) | (b.hi == 0)])
        p = np.where(z, 0.0, p)
    lo, hi = p.min(0), p.max(0)
    exact = ((a.lo == 0) & (a.hi == 0)) | ((b.lo == 0) & (b.hi == 0))
    return fix(np.where(exact, 0.0, dn(lo)), np.where(exact, 0.0, up(hi)))


def sqr(a):
    with np.errstate(all="ignore"):
        p, q = a.lo * a.lo, a.hi * a.hi
    hi = np.maximum(p, q); lo = np.where((a.lo <= 0) & (a.hi >= 0), 0.0, np.minimum(p, q))
    return fix(np.where(lo > 0, dn(lo), 0.0), up(hi))


def inv(a):
    bad = (a.lo <= 0) & (a.hi >= 0)
    with np.errstate(all="ignore"):
        lo, hi = dn(1.0 / a.hi), up(1.0 / a.lo)
    # one-sided: [0, h] -> [1/h, inf]
    lo = np.where(bad, np.where((a.lo == 0) & (a.hi > 0), dn(1.0 / np.where(a.hi > 0, a.hi, 1)), -INF), lo)
    hi = np.where(bad, np.where((a.hi == 0) & (a.lo < 0), up(1.0 / np.where(a.lo < 0, a.lo, -1)), INF), hi)
    return fix(lo, hi)


def div(a, b):
    return mul(a, inv(b))


def meet(a, b):
    lo = np.maximum(a.lo, b.lo); hi = np.minimum(a.hi, b.hi)
    e = lo > hi
    return I(np.where(e, a.lo, lo), np.where(e, a.hi, hi))


def hull(a, b): return I(np.minimum(a.lo, b.lo), np.maximum(a.hi, b.hi))


def mono(f, dom_lo=-INF, dom_hi=INF):
    def h(a):
        with np.errstate(all="ignore"):
            lo = f(np.maximum(a.lo, dom_lo)); hi = f(np.minimum(a.hi, dom_hi))
        lo, hi = pad(lo, hi)
        out = (a.lo < dom_lo) | (a.hi > dom_hi)
        return fix(np.where(out, -INF, lo), np.where(out, INF, hi))
    return h


def trig(f, peak):
    """f in {sin, cos}; maxima at peak + 2k pi"""
    def h(a):
        with np.errstate(all="ignore"):
            x, y = f(a.lo), f(a.hi)
            w = 2 * math.pi
            kmax = np.floor((a.hi - peak) / w + 1e-12) - np.ceil((a.lo - peak) / w - 1e-12) >= 0
            kmin = np.floor((a.hi - peak - math.pi) / w + 1e-12) - np.ceil((a.lo - peak - math.pi) / w - 1e-12) >= 0
        lo, hi = pad(np.minimum(x, y), np.maximum(x, y))
        lo = np.where(kmin, -1.0, np.maximum(lo, -1.0)); hi = np.where(kmax, 1.0, np.minimum(hi, 1.0))
        big = ~((np.abs(a.lo) < 1e8) & (np.abs(a.hi) < 1e8))
        return fix(np.where(big, -1.0, lo), np.where(big, 1.0, hi))
    return h


_sp = {}


def _special():
    if not _sp:
        import scipy.special as sp
        _sp["lg"] = sp.gammaln; _sp["dg"] = sp.digamma
    return _sp


def lg_at(x):
    v = _special()["lg"](x)
    e = 1e-14 * (np.abs(v) + 1)
    return v - e, v + e


XM = 1.4616321449683622


def lngamma(a):
    """ln Gamma on x > 0: convex, minimum near XM"""
    with np.errstate(all="ignore"):
        x1, x2 = lg_at(np.maximum(a.lo, 1e-300)); y1, y2 = lg_at(a.hi)
    lo = np.where((a.lo <= XM + 1e-9) & (a.hi >= XM - 1e-9), -0.12148629053585, np.minimum(x1, y1))
    hi = np.maximum(x2, y2)
    out = a.lo <= 0
    return fix(np.where(out, -INF, lo), np.where(out, INF, hi))


def digamma(a):
    with np.errstate(all="ignore"):
        x = _special()["dg"](np.maximum(a.lo, 1e-300)); y = _special()["dg"](a.hi)
    e = 1e-12
    out = a.lo <= 0
    return fix(np.where(out, -INF, x - e * (np.abs(x) + 1)), np.where(out, INF, y + e * (np.abs(y) + 1)))


def one(a): return I(np.ones_like(a.lo), np.ones_like(a.lo))


F_sin = trig(np.sin, math.pi / 2); F_cos = trig(np.cos, 0.0)
F_exp = mono(np.exp); F_ln = mono(np.log, 5e-324); F_sqrt = mono(np.sqrt, 0.0); F_atan = mono(np.arctan)
DEG = 8


def kc(v):
    lo = hi = v
    for _ in range(3): lo = math.nextafter(lo, -INF); hi = math.nextafter(hi, INF)
    return lambda a: I(np.full_like(a.lo, lo), np.full_like(a.lo, hi))


def scal(a, v):
    """multiple by an exact double"""
    p, q = a.lo * v, a.hi * v
    return fix(dn(np.minimum(p, q)), up(np.maximum(p, q)))


def divn(a, n):
    return fix(dn(a.lo / n), up(a.hi / n))


def expc(a):
    r = F_exp(a)
    return I(np.maximum(r.lo, 0.0), r.hi)


def isz(a): return not (a.lo.any() or a.hi.any())


# -- jets: lists of enclosures of Taylor coefficients
def jadd(a, b): return [add(p, q) for p, q in zip(a, b)]
def jsub(a, b): return [sub(p, q) for p, q in zip(a, b)]
def jneg(a): return [neg(p) for p in a]


def zeros(a): return I(np.zeros_like(a.lo), np.zeros_like(a.lo))


def prod(al, ah, bl, bh):
    """interval products of arrays; an exact zero annihilates"""
    p = al * bl; q = al * bh; r = ah * bl; t = ah * bh
    lo = np.fmin(np.fmin(p, q), np.fmin(r, t)); hi = np.fmax(np.fmax(p, q), np.fmax(r, t))
    # 0 * inf is nan: that corner is 0
    nn = np.isnan(p) | np.isnan(q) | np.isnan(r) | np.isnan(t)
    if nn.any(): lo = np.where(nn, np.fmin(lo, 0.0), lo); hi = np.where(nn, np.fmax(hi, 0.0), hi)
    z = ((al == 0) & (ah == 0)) | ((bl == 0) & (bh == 0))
    return np.where(z, 0.0, np.nextafter(lo, -INF)), np.where(z, 0.0, np.nextafter(hi, INF))


def total(lo, hi):
    """sum over the first axis, outward"""
    n = lo.shape[0]
    sl, sh = lo.sum(0), hi.sum(0)
    if n > 1:
        e = 2.3e-16 * n
        sl = sl - e * np.abs(lo).sum(0); sh = sh + e * np.abs(hi).sum(0)
    return fix(sl, sh)


def jmul(a, b):
    n = len(a)
    al = np.array([x.lo for x in a]); ah = np.array([x.hi for x in a]); bl = np.array([x.lo for x in b]); bh = np.array([x.hi for x in b])
    lo, hi = prod(al[:, None], ah[:, None], bl[None], bh[None])
    out = []
    for k in range(n):
        i = np.arange(k + 1)
        out.append(total(lo[i, k - i], hi[i, k - i]))
    return out


def jsqr(a):
    r = jmul(a, a)
    r[0] = sqr(a[0])
    return r


def jdiv(a, b):
    n = len(a); r = inv(b[0])
    if all(isz(x) for x in b[1:]): return [mul(x, r) for x in a]
    bl = np.array([x.lo for x in b]); bh = np.array([x.hi for x in b])
    out = [mul(a[0], r)]
    ol = np.zeros_like(bl); oh = np.zeros_like(bl)
    ol[0] = out[0].lo; oh[0] = out[0].hi
    for k in range(1, n):
        lo, hi = prod(bl[1:k + 1], bh[1:k + 1], ol[k - 1::-1], oh[k - 1::-1])
        v = mul(sub(a[k], total(lo, hi)), r)
        out.append(v); ol[k] = v.lo; oh[k] = v.hi
    return out


def jsqrt(a):
    y0 = F_sqrt(a[0]); r = inv(scal(y0, 2.0)); out = [y0]
    for k in range(1, len(a)):
        s = a[k]
        for i in range(1, k): s = sub(s, mul(out[i], out[k - i]))
        out.append(mul(s, r))
    return out


def jexp(a):
    out = [expc(a[0])]
    for k in range(1, len(a)):
        s = zeros(a[0])
        for i in range(1, k + 1):
            if not isz(a[i]): s = add(s, mul(scal(a[i], float(i)), out[k - i]))
        out.append(divn(s, float(k)))
    return out


def jln(a):
    out = [F_ln(a[0])]; r = inv(a[0])
    for k in range(1, len(a)):
        s = zeros(a[0])
        for i in range(1, k):
            if not isz(a[k - i]): s = add(s, mul(scal(out[i], float(i)), a[k - i]))
        out.append(mul(sub(a[k], divn(s, float(k))), r))
    return out


def jsc(a):
    S = [F_sin(a[0])]; C = [F_cos(a[0])]
    for k in range(1, len(a)):
        s = zeros(a[0]); c = zeros(a[0])
        for i in range(1, k + 1):
            if isz(a[i]): continue
            w = scal(a[i], float(i))
            s = add(s, mul(w, C[k - i])); c = sub(c, mul(w, S[k - i]))
        S.append(divn(s, float(k))); C.append(divn(c, float(k)))
    return S, C


def jint(d, a, y0):
    """y with y' = d a'"""
    out = [y0]
    for k in range(1, len(a)):
        s = zeros(a[0])
        for i in range(1, k + 1):
            if not isz(a[i]): s = add(s, mul(scal(a[i], float(i)), d[k - i]))
        out.append(divn(s, float(k)))
    return out


def jone(a):
    r = [zeros(x) for x in a]
    r[0] = one(r[0])
    return r


def jatan(a): return jint(jdiv(jone(a), jadd(jone(a), jsqr(a))), a, F_atan(a[0]))
def jasin(a): return jint(jdiv(jone(a), jsqrt(jsub(jone(a), jsqr(a)))), a, mono(np.arcsin, -1.0, 1.0)(a[0]))


def jacos(a):
    r = jasin(a)
    return [neg(mono(lambda x: -np.arccos(x), -1.0, 1.0)(a[0]))] + [neg(x) for x in r[1:]]


def jscale(f, v):
    k = lambda a: kc(v)(a)
    return lambda a: [mul(k(x), x) for x in f(a)]


def jmeet0(j, v):
    j[0] = meet(j[0], v)
    return j


def jcbrt(a):
    """y^3 = a:  3 y^2 y' = a'"""
    y0 = mono(np.cbrt)(a[0]); out = [y0]; r = inv(scal(sqr(y0), 3.0)); n = len(a)
    for k in range(1, n):
        # coefficient k of y^3 with y_k = 0
        t = out + [zeros(y0)] * (n - len(out))
        c = jmul(jmul(t[:k + 1], t[:k + 1]), t[:k + 1])[k]
        out.append(mul(sub(a[k], c), r))
    return out


def jlngamma(a):
    """composition with enclosures of the polygamma functions (each monotone on x > 0)"""
    import scipy.special as sp
    n = len(a); x = a[0]
    co = [lngamma(x), digamma(x)]
    for k in range(2, n):
        with np.errstate(all="ignore"):
            u, v = sp.polygamma(k - 1, np.maximum(x.lo, 1e-300)), sp.polygamma(k - 1, x.hi)
        lo, hi = np.minimum(u, v), np.maximum(u, v)
        e = 1e-10
        f = float(math.factorial(k))
        bad = x.lo <= 0
        co.append(fix(np.where(bad, -INF, lo / f - e * np.abs(lo / f)), np.where(bad, INF, hi / f + e * np.abs(hi / f))))
    h = [zeros(x)] + a[1:]
    r = [co[-1]] + [zeros(x) for _ in range(n - 1)]
    for k in range(n - 2, -1, -1):
        r = jmul(r, h)
        r[0] = add(r[0], co[k])
    return r


def jexpm1(a):
    r = jexp(a)
    return [mono(np.expm1)(a[0])] + r[1:]


def jsinh(a):
    e = jexp(a); f = jexp(jneg(a))
    return jmeet0([scal(sub(p, q), 0.5) for p, q in zip(e, f)], mono(np.sinh)(a[0]))


def jtanh(a):
    e = jexp([scal(x, -2.0) for x in a]); o = jone(a)
    return jmeet0(jdiv(jsub(o, e), jadd(o, e)), mono(np.tanh)(a[0]))


FN = {"sqrt": jsqrt, "exp": jexp, "exp2": lambda a: jexp([mul(kc(math.log(2))(x), x) for x in a]), "sin": lambda a: jsc(a)[0], "cos": lambda a: jsc(a)[1],
      "ln": jln, "log2": jscale(jln, 1 / math.log(2)), "log10": jscale(jln, 1 / math.log(10)), "atan": jatan, "asin": jasin, "acos": jacos, "cbrt": jcbrt,
      "sinh": jsinh, "tanh": jtanh, "expm1": jexpm1, "lngamma": jlngamma}


class Eval:
    """one sweep over the graph for a vector of cells: Taylor coefficients over the cell and at its centre"""
    def __init__(self, g, name, lo, hi, forced):
        self.g = g; self.name = name; self.n = len(lo)
        self.lo = lo; self.hi = hi; self.forced = forced
        self.c = (lo + hi) / 2
        self.h = I(dn(lo - self.c), up(hi - self.c))
        hm = np.maximum(-self.h.lo, self.h.hi)
        self.hp = [None]
        p = one(self.h)
        for k in range(1, DEG + 2):
            m = up(np.maximum(np.abs(p.lo), np.abs(p.hi)) * hm)
            p = I(np.where(k % 2 == 0, 0.0, -m), m)
            self.hp.append(p)
        self.memo = {}; self.rng = {}
        self.open = {}        # decision node -> mask of cells where it is undecided

    def range(self, x):
        """enclosure over the cell: direct meets centred form"""
        if x not in self.rng:
            J, C = self.memo[x]
            s = C[0]
            for k in range(1, DEG + 1):
                if not isz(C[k]): s = add(s, mul(C[k], self.hp[k]))
            if not isz(J[DEG + 1]): s = add(s, mul(J[DEG + 1], self.hp[DEG + 1]))
            self.rng[x] = meet(J[0], s)
            J = list(J); J[0] = self.rng[x]
            self.memo[x] = (J, C)
        return self.rng[x]

    def zj(self, v, w=None):
        """constant: jets over the cell and at the centre"""
        z = zeros(v)
        return ([v] + [z] * (DEG + 1), [v if w is None else w] + [z] * DEG)

    def run(self, root):
        g = self.g
        st = [root]
        while st:
            x = st[-1]
            if x in self.memo: st.pop(); continue
            t = g.nodes[x]
            if t[0] == "ite":
                # the branches some cell needs
                if t[1] not in self.memo: st.append(t[1]); continue
                c = self.memo[t[1]]
                todo = [y for y, v in ((t[2], 0), (t[3], 1)) if y not in self.memo and ((c[1] != v).any() or (c[2] != v).any())]
            elif t[0] in ("and", "or"):
                if t[1] not in self.memo: st.append(t[1]); continue
                c = self.memo[t[1]]; v = 0 if t[0] == "and" else 1
                todo = [t[2]] if t[2] not in self.memo and ((c[1] != v).any() or (c[2] != v).any()) else []
            else:
                todo = [y for y in g.children(t) if y not in self.memo]
            if todo: st.extend(todo); continue
            with np.errstate(all="ignore"):
                self.memo[x] = self.node(x, t)
            st.pop()
        return self.memo[root]

    def node(self, x, t):
        k = t[0]; m = self.memo
        if k == "c": return self.zj(cst(t[1], self.n))
        if k == "in":
            z = zeros(self.h); o = one(self.h)
            return ([I(self.lo, self.hi), o] + [z] * DEG, [I(self.c, self.c), o] + [z] * (DEG - 1))
        if k == "fneg": return tuple(jneg(a) for a in m[t[1]])
        if k in ("fadd", "fsub"):
            f = jadd if k == "fadd" else jsub
            return tuple(f(a, b) for a, b in zip(m[t[1]], m[t[2]]))
        if k == "fmul":
            if t[1] == t[2]: return tuple(jsqr(a) for a in m[t[1]])
            return tuple(jmul(a, b) for a, b in zip(m[t[1]], m[t[2]]))
        if k == "fdiv":
            self.range(t[2])
            return tuple(jdiv(a, b) for a, b in zip(m[t[1]], m[t[2]]))
        if k == "app":
            if t[1] not in FN and t[1] != "floor" or len(t) != 3: raise Unknown("no enclosure of " + t[1])
            self.range(t[2])
            if t[1] == "floor": return self.step(x, t[2], np.floor)
            return tuple(FN[t[1]](a) for a in m[t[2]])
        if k == "cast":
            op = t[1]
            if op in ("fptosi", "fptoui"): return self.step(x, t[4], np.trunc)
            if op in ("sitofp", "uitofp", "sext", "zext", "trunc"): return m[t[4]]
            raise Unknown("cast " + op)
        if k == "ic": return self.zj(cst(s64(t[1], t[2]), self.n))
        if k == "ibin":
            a, b = m[t[3]], m[t[4]]
            f = {"add": add, "sub": sub, "mul": mul}.get(t[1])
            if f is None: raise Unknown("integer operation " + t[1])
            def r(v): return I(np.ceil(v.lo), np.floor(v.hi))
            return self.zj(r(f(a[0][0], b[0][0])), r(f(a[1][0], b[1][0])))
        if k == "bc":
            v = np.full(self.n, 1.0 if t[1] else 0.0)
            return ("b", v, v)
        if k == "fcmp": return self.cmp(x, t[1], t[2], t[3])
        if k == "icmp": return self.cmp(x, {"eq": "oeq", "ne": "une"}.get(t[1], "o" + t[1][1:]), t[3], t[4])
        if k == "not":
            a = m[t[1]]
            return ("b", 1 - a[1], 1 - a[2])
        if k in ("and", "or"):
            if t[2] not in m: return m[t[1]]
            a, b = m[t[1]], m[t[2]]
            f = np.minimum if k == "and" else np.maximum
            return ("b", f(a[1], b[1]), f(a[2], b[2]))
        if k == "ite":
            c = m[t[1]]
            if t[2] not in m: return m[t[3]]
            if t[3] not in m: return m[t[2]]
            a, b = m[t[2]], m[t[3]]
            if isinstance(a[0], str):
                return ("b",) + tuple(np.where(c[i] == 1, a[i], np.where(c[i] == 0, b[i], np.where(a[i] == b[i], a[i], 0.5))) for i in (1, 2))
            def pick(cc, p, q):
                h = hull(p, q)
                return I(np.where(cc == 1, p.lo, np.where(cc == 0, q.lo, h.lo)), np.where(cc == 1, p.hi, np.where(cc == 0, q.hi, h.hi)))
            out = []
            for i in (0, 1):
                und = (c[1 + i] != 0) & (c[1 + i] != 1)
                J = []
                for j, (p, q) in enumerate(zip(a[i], b[i])):
                    d = pick(c[1 + i], p, q)
                    if j: d = I(np.where(und, -INF, d.lo), np.where(und, INF, d.hi))
                    J.append(d)
                out.append(J)
            # where the cell is undecided the centred form is void
            und = (c[1] != 0) & (c[1] != 1)
            if und.any():
                d = out[0][DEG + 1]
                out[0][DEG + 1] = I(np.where(und, -INF, d.lo), np.where(und, INF, d.hi))
            return tuple(out)
        if k == "inf":
            v = np.full(self.n, -INF if t[1] else INF)
            return self.zj(I(v, v))
        if k in ("nan", "undef", "uninit"):
            z = I(np.full(self.n, -INF), np.full(self.n, INF))
            return ([z] * (DEG + 2), [z] * (DEG + 1))
        raise Unknown("node " + k)

    def relevant(self, roots):
        """decision node -> cells where its open outcome matters to a root"""
        g = self.g; m = self.memo
        mask = {}; order = []; seen = set()
        for r in roots:       # postorder
            st = [(r, 0)]
            while st:
                x, done = st.pop()
                if done: order.append(x); continue
                if x in seen or x not in m: continue
                seen.add(x); st.append((x, 1))
                st.extend((y, 0) for y in g.children(g.nodes[x]) if y in m and y not in seen)
        full = np.ones(self.n, bool)
        for r in roots: mask[r] = full
        out = {}
        def give(y, w):
            if y in m and w.any(): mask[y] = mask[y] | w if y in mask else w
        for x in reversed(order):
            w = mask.get(x)
            if w is None: continue
            t = g.nodes[x]
            if x in self.open:
                u = self.open[x][0] & w
                if u.any(): out[x] = u
            if t[0] == "ite":
                c = m[t[1]][1]
                give(t[1], w & (c != 0) & (c != 1)); give(t[2], w & (c != 0)); give(t[3], w & (c != 1))
            elif t[0] in ("and", "or") and t[1] in m and t[2] in m:
                v = 0 if t[0] == "and" else 1
                give(t[1], w & (m[t[2]][1] != v)); give(t[2], w & (m[t[1]][1] != v))
            else:
                for y in g.children(t): give(y, w)
        return out

    def cmp(self, x, pred, a, b):
        def tri(p, q):
            un = np.full(self.n, 0.5)
            r = pred[1:] if pred not in ("ord", "uno") else pred
            if r == "ord": return np.ones(self.n)
            if r == "uno": return np.zeros(self.n)
            if r in ("gt", "ge"): p, q = q, p; r = {"gt": "lt", "ge": "le"}[r]
            if r == "lt": return np.where(p.hi < q.lo, 1.0, np.where(p.lo >= q.hi, 0.0, un))
            if r == "le": return np.where(p.hi <= q.lo, 1.0, np.where(p.lo > q.hi, 0.0, un))
            e = np.where((p.hi < q.lo) | (q.hi < p.lo), 0.0, np.where((p.lo == p.hi) & (q.lo == q.hi) & (p.lo == q.lo), 1.0, un))
            return e if r == "eq" else 1 - e
        v = tri(self.range(a), self.range(b)); c = tri(self.memo[a][1][0], self.memo[b][1][0])
        f = self.forced.get(x)
        if f is not None: v = np.where((v == 0.5) & ~np.isnan(f), f, v); c = np.where(~np.isnan(f), v, c)
        u = v == 0.5
        if u.any(): self.open[x] = (u, None, None)
        return ("b", v, c)

    def step(self, x, a, f):
        r = self.range(a); ce = self.memo[a][1][0]
        lo, hi = f(r.lo), f(r.hi); clo, chi = f(ce.lo), f(ce.hi)
        fo = self.forced.get(x)
        if fo is not None:
            w = ~np.isnan(fo) & (lo <= fo) & (fo <= hi)
            lo = np.where(w, fo, lo); hi = np.where(w, fo, hi); clo = np.where(w, fo, clo); chi = np.where(w, fo, chi)
        u = lo != hi
        if u.any(): self.open[x] = (u, lo, hi)
        d = I(np.where(u, -INF, 0.0), np.where(u, INF, 0.0))
        z = zeros(d)
        return ([I(lo, hi)] + [d] * (DEG + 1), [I(clo, chi)] + [z] * DEG)


def decide_near(g, ck, box, budget=60.0, maxcells=100000, gaps=False):
    """-> verdict, number of cells, why"""
    v, r, tol = ck.args
    names = sorted({g.nodes[s][1] for x in (v, r, tol, ck.cond) for s in g.support(x) if g.nodes[s][0] == "in"})
    if len(names) > 1: return "undecided", 0, "several inputs"
    if not names: names = ["x0"]; box = {"x0": (0.0, 0.0)}
    name = names[0]
    if name not in box: return "undecided", 0, "no bounds for " + name
    a, b = box[name]
    diff = g.mk(("fsub", v, r))
    ax = np.linspace(a, b, 17)
    ax[0] = a; ax[-1] = b
    lo, hi = ax[:-1].copy(), ax[1:].copy()
    W = max(b - a, 1e-300)
    forced = {}
    done = 0; t0 = time.time(); worst = 0.0; ngap = 0; wgap = 0.0
    while len(lo):
        if time.time() - t0 > budget or done + len(lo) > maxcells:
            return "undecided", done, "not within tolerance near %s=%.17g" % (name, lo[0])
        E = Eval(g, name, lo, hi, forced)
        C = E.run(ck.cond); E.run(diff); E.run(tol)
        D = E.range(diff); T = E.range(tol); Dc = E.memo[diff][1][0]; Tc = E.memo[tol][1][0]
        n = E.n
        off = C[1] == 0
        m = np.maximum(np.abs(D.lo), np.abs(D.hi))
        good = off | (m <= T.lo)
        bad = (C[2] == 1) & ((Dc.lo > Tc.hi) | (-Dc.hi > Tc.hi)) & ~good
        if bad.any():
            # confirmed by an evaluation at the point, with no decision fixed
            pt = ((lo + hi) / 2)[np.nonzero(bad)[0][:64]]
            P = Eval(g, name, pt, pt, {})
            C2 = P.run(ck.cond); P.run(diff); P.run(tol)
            D2 = P.memo[diff][1][0]; T2 = P.memo[tol][1][0]
            b2 = (C2[2] == 1) & ((D2.lo > T2.hi) | (-D2.hi > T2.hi))
            if b2.any():
                j = int(np.nonzero(b2)[0][0])
                return "refuted", done + n, "at %s=%.17g: off by %.6g, tolerance %.3g" % (name, pt[j], (D2.lo[j] + D2.hi[j]) / 2, T2.hi[j])
        ok = good & ~off
        if ok.any(): worst = max(worst, float(m[ok].max()))
        done += int(good.sum())
        bi = np.nonzero(~good)[0]
        if not len(bi): break
        # small cells with open decisions: one copy per outcome; the others: bisected
        isopen = np.zeros(n, bool); first = np.full(n, -1)
        rel = E.relevant([diff, tol, ck.cond])
        for x in sorted(rel):
            u = rel[x]
            first[u & ~isopen] = x; isopen |= u
        L, H, S, FV = [], [], [], []
        nfix = sum((~np.isnan(f)).astype(int) for f in forced.values()) if forced else np.zeros(n, int)
        for j in bi:
            if isopen[j] and hi[j] - lo[j] < W / 30 / 16.0 ** nfix[j]:
                x = int(first[j]); _, l2, h2 = E.open[x]
                opts = (0.0, 1.0) if l2 is None else ((l2[j], h2[j]) if h2[j] - l2[j] == 1 else None)
                if opts is not None:
                    for o in opts: L.append(lo[j]); H.append(hi[j]); S.append(j); FV.append((x, o))
                    continue
            mid = (lo[j] + hi[j]) / 2
            if gaps and (isopen[j] or nfix[j]) and hi[j] - lo[j] < 1e-9 * W and wgap < 1e-6 * W:
                ngap += 1; wgap += hi[j] - lo[j]
                continue
            if not (lo[j] < mid < hi[j]): return "undecided", done, "not within tolerance at %s=%.17g" % (name, lo[j])
            L += [lo[j], mid]; H += [mid, hi[j]]; S += [j, j]; FV += [None, None]
        S = np.array(S, int)
        nf = {x: f[S] for x, f in forced.items()}
        for i, fv in enumerate(FV):
            if fv is not None:
                if fv[0] not in nf: nf[fv[0]] = np.full(len(S), np.nan)
                nf[fv[0]][i] = fv[1]
        forced = nf; lo = np.array(L); hi = np.array(H)
    return "proved", done, "|difference| <= %.3g on %d cells%s" % (worst, done, ", but for %d coincidences of total width %.2g" % (ngap, wgap) if ngap else "")
