"""Parser for the subset of textual LLVM IR (LLVM 18, opaque pointers) that the
fixed normalisation pipeline emits.  It resolves types and constant operands; it
does not interpret anything."""
import re, struct
from fractions import Fraction


class IRError(Exception):
    pass


# ---------------------------------------------------------------- types
class Ty:
    __slots__ = ("k", "a", "b")

    def __init__(self, k, a=None, b=None):
        self.k, self.a, self.b = k, a, b

    def __repr__(self):
        return "Ty(%s,%s,%s)" % (self.k, self.a, self.b)


VOID = Ty("void"); PTR = Ty("ptr"); LABEL = Ty("label"); META = Ty("metadata"); TOKEN = Ty("token")
FL = {"double": Ty("fp", 64), "float": Ty("fp", 32), "x86_fp80": Ty("fp", 80), "half": Ty("fp", 16), "fp128": Ty("fp", 128)}
INTS = {}


def ity(n):
    if n not in INTS:
        INTS[n] = Ty("int", n)
    return INTS[n]


TOK = re.compile(r'''\s*(?:
  (?P<str>c?"(?:[^"\\]|\\.)*") |
  (?P<lident>%"(?:[^"\\]|\\.)*"|%[-a-zA-Z$._0-9]+) |
  (?P<gident>@"(?:[^"\\]|\\.)*"|@[-a-zA-Z$._0-9]+) |
  (?P<meta>!"(?:[^"\\]|\\.)*"|![-a-zA-Z$._0-9]*) |
  (?P<attr>\#[0-9]+) |
  (?P<num>-?[0-9]+\.[0-9]*(?:[eE][-+]?[0-9]+)?|0x[KLMHR]?[0-9A-Fa-f]+|-?[0-9]+) |
  (?P<word>[a-zA-Z_$.][-a-zA-Z$._0-9]*) |
  (?P<dots>\.\.\.) |
  (?P<p>[=,(){}\[\]<>*:|])
)''', re.X)


def tokenize(s):
    out = []
    i = 0
    n = len(s)
    while i < n:
        m = TOK.match(s, i)
        if not m:
            if s[i:].strip() == "":
                break
            raise IRError("tok: " + s[i:i + 60])
        out.append((m.lastgroup, m.group(m.lastgroup)))
        i = m.end()
    return out


PARAM_ATTRS = {"noundef", "nonnull", "zeroext", "signext", "nocapture", "readonly", "readnone", "writeonly", "noalias",
               "returned", "inreg", "nofree", "immarg", "swiftself", "nest", "allocptr", "dead_on_unwind", "writable", "allocalign", "noext"}


class P:
    """token stream"""

    def __init__(self, toks, mod):
        self.t, self.i, self.m = toks, 0, mod

    def peek(self, o=0):
        return self.t[self.i + o][1] if self.i + o < len(self.t) else None

    def kind(self, o=0):
        return self.t[self.i + o][0] if self.i + o < len(self.t) else None

    def next(self):
        v = self.t[self.i]
        self.i += 1
        return v[1]

    def eat(self, x):
        if self.peek() == x:
            self.i += 1
            return True
        return False

    def need(self, x):
        if not self.eat(x):
            raise IRError("expected %r got %r in %r" % (x, self.peek(), " ".join(t[1] for t in self.t)[:200]))

    def skip_paren(self):
        if self.peek() == "(":
            d = 0
            while True:
                v = self.next()
                if v == "(":
                    d += 1
                elif v == ")":
                    d -= 1
                    if d == 0:
                        return

    # type
    def ty(self):
        t = self.ty0()
        while True:
            if self.peek() == "(" and t.k != "fnty_done" and self._is_fnty():
                self.skip_paren()
                t = Ty("fn", t)
            elif self.peek() == "*":
                self.next()
                t = PTR
            else:
                return t

    def _is_fnty(self):
        # after a type, '(' starts a function type only in call instructions with explicit fn types; decided by caller
        return False

    def ty0(self):
        k, v = self.t[self.i]
        if k == "word":
            self.i += 1
            if v == "void": return VOID
            if v == "ptr":
                if self.peek() == "addrspace":
                    self.next(); self.skip_paren()
                return PTR
            if v == "label": return LABEL
            if v == "metadata": return META
            if v == "token": return TOKEN
            if v in FL: return FL[v]
            if v == "opaque": return Ty("opaque")
            if v[0] == "i" and v[1:].isdigit(): return ity(int(v[1:]))
            raise IRError("type " + v)
        if k == "lident":
            self.i += 1
            return Ty("named", v)
        if v == "[":
            self.i += 1
            n = int(self.next()); self.need("x"); e = self.ty(); self.need("]")
            return Ty("arr", n, e)
        if v == "{":
            self.i += 1
            fs = []
            if not self.eat("}"):
                while True:
                    fs.append(self.ty())
                    if self.eat("}"): break
                    self.need(",")
            return Ty("struct", fs, False)
        if v == "<":
            self.i += 1
            if self.peek() == "{":
                t = self.ty0()
                self.need(">")
                return Ty("struct", t.a, True)
            n = int(self.next()); self.need("x"); e = self.ty(); self.need(">")
            return Ty("vec", n, e)
        raise IRError("type? %r" % v)

    def attrs(self):
        while True:
            v = self.peek()
            if v in PARAM_ATTRS:
                self.next()
                continue
            if v in ("align",):
                self.next()
                if self.peek() == "(":
                    self.skip_paren()
                else:
                    self.next()
                continue
            if v in ("dereferenceable", "dereferenceable_or_null", "sret", "byval", "range", "nofpclass", "captures", "elementtype", "byref", "preallocated", "inalloca", "memory", "initializes"):
                self.next()
                self.skip_paren()
                continue
            return

    # operand value of given type
    def val(self, ty):
        k, v = self.t[self.i]
        self.i += 1
        if k == "lident":
            return ("r", v)
        if k == "gident":
            return ("g", v)
        if k == "num":
            if ty.k == "fp":
                return ("f", parse_fp(v, ty))
            return ("i", int(v))
        if v == "true": return ("i", 1)
        if v == "false": return ("i", 0)
        if v in ("null",): return ("null",)
        if v in ("undef", "poison"): return (v,)
        if v == "zeroinitializer": return ("zero",)
        if k == "str": return ("str", v)
        if v == "getelementptr":
            while self.peek() in ("inbounds", "nuw", "nusw", "inrange"):
                if self.next() == "inrange":
                    self.skip_paren()
            self.need("(")
            t = self.ty(); self.need(",")
            args = []
            while True:
                if self.peek() == "inrange": self.next()
                at = self.ty(); args.append((at, self.val(at)))
                if self.eat(")"): break
                self.need(",")
            return ("cgep", t, args)
        if v in ("bitcast", "inttoptr", "ptrtoint", "trunc", "zext", "sext", "addrspacecast"):
            self.need("(")
            t = self.ty(); x = self.val(t); self.need("to"); t2 = self.ty(); self.need(")")
            return ("ccast", v, t, x, t2)
        if v in ("add", "sub", "mul", "xor", "shl", "and", "or"):
            while self.peek() in ("nuw", "nsw", "exact", "disjoint"):
                self.next()
            self.need("(")
            t = self.ty(); x = self.val(t); self.need(","); t2 = self.ty(); y = self.val(t2); self.need(")")
            return ("cbin", v, t, x, y)
        if v == "[" or v == "{" or v == "<":
            close = {"[": "]", "{": "}", "<": ">"}[v]
            if v == "<" and self.peek() == "{":
                self.next(); close = "}"
            els = []
            if not self.eat(close):
                while True:
                    t = self.ty(); els.append((t, self.val(t)))
                    if self.eat(close): break
                    self.need(",")
            if v == "<" and close == "}":
                self.need(">")
            return ("agg", els)
        if v == "asm":
            raise IRError("inline asm")
        if v in ("dso_local_equivalent", "no_cfi"):
            return self.val(ty)
        if v == "splat":
            self.need("("); t = self.ty(); x = self.val(t); self.need(")")
            return ("splat", x)
        if k == "meta":
            return ("meta",)
        raise IRError("value? %r" % v)


def parse_fp(v, ty):
    if v.startswith("0x"):
        if v[2] in "KLMHR":
            if v[2] == "K":
                b = int(v[3:], 16)
                mant = b & ((1 << 64) - 1); e = (b >> 64) & 0x7fff; s = b >> 79
                if e == 0x7fff:
                    return ("inf", s) if mant == 1 << 63 else ("nan",)
                x = Fraction(mant) * Fraction(2) ** (e - 16383 - 63)
                return -x if s else x
            raise IRError("fp const " + v)
        d = struct.unpack(">d", bytes.fromhex(v[2:].rjust(16, "0")))[0]
    else:
        d = float(v)
    if d != d: return ("nan",)
    if d in (float("inf"), float("-inf")): return ("inf", 1 if d < 0 else 0)
    return Fraction(d)


class Ins:
    __slots__ = ("op", "res", "ty", "a", "line")

    def __init__(self, op, res, ty, a, line=""):
        self.op, self.res, self.ty, self.a, self.line = op, res, ty, a, line


class Fn:
    def __init__(self, name):
        self.name = name; self.params = []; self.blocks = {}; self.order = []; self.ret = VOID; self.attrs = ""


class Module:
    def __init__(self):
        self.types = {}; self.globals = {}; self.funcs = {}; self.decls = {}

    # layout
    def resolve(self, t):
        while t.k == "named":
            t = self.types[t.a]
        return t

    def align(self, t):
        t = self.resolve(t)
        if t.k == "int":
            return max(1, min(16 if t.a > 64 else 8, 1 << ((t.a + 7) // 8 - 1).bit_length()))
        if t.k == "ptr": return 8
        if t.k == "fp": return {64: 8, 32: 4, 80: 16, 16: 2, 128: 16}[t.a]
        if t.k == "arr": return self.align(t.b)
        if t.k == "vec": return self.size(t)
        if t.k == "struct": return 1 if t.b or not t.a else max(self.align(x) for x in t.a)
        raise IRError("align %r" % t)

    def size(self, t):
        t = self.resolve(t)
        if t.k == "int":
            s = (t.a + 7) // 8
            a = self.align(t)
            return (s + a - 1) // a * a
        if t.k == "ptr": return 8
        if t.k == "fp": return {64: 8, 32: 4, 80: 16, 16: 2, 128: 16}[t.a]
        if t.k == "arr": return t.a * self.size(t.b)
        if t.k == "vec": return t.a * self.size(t.b)
        if t.k == "struct":
            o = 0
            for x in t.a:
                if not t.b:
                    a = self.align(x); o = (o + a - 1) // a * a
                o += self.size(x)
            if not t.b:
                a = self.align(t); o = (o + a - 1) // a * a
            return o
        raise IRError("size %r" % t)

    def field(self, t, i):
        o = 0
        for j, x in enumerate(t.a):
            if not t.b:
                a = self.align(x); o = (o + a - 1) // a * a
            if j == i:
                return o, x
            o += self.size(x)
        raise IRError("field")


BIN = {"fadd", "fsub", "fmul", "fdiv", "frem", "add", "sub", "mul", "udiv", "sdiv", "urem", "srem", "shl", "lshr", "ashr", "and", "or", "xor"}
CAST = {"trunc", "zext", "sext", "fptrunc", "fpext", "uitofp", "sitofp", "fptoui", "fptosi", "ptrtoint", "inttoptr", "bitcast", "addrspacecast"}
FLAGS = {"nuw", "nsw", "exact", "fast", "nnan", "ninf", "nsz", "arcp", "contract", "afn", "reassoc", "disjoint", "nneg", "inbounds", "nusw", "samesign"}


def parse_module(text):
    m = Module()
    lines = text.split("\n")
    i = 0
    n = len(lines)
    while i < n:
        ln = lines[i]
        s = ln.strip()
        i += 1
        if not s or s[0] in ";!" or s.startswith(("source_filename", "target", "attributes", "module asm", "$", "^")):
            continue
        if s[0] == "%" and " = type " in s:
            nm, rest = s.split(" = type ", 1)
            m.types[nm] = P(tokenize(rest), m).ty()
            continue
        if s[0] == "@":
            parse_global(m, s)
            continue
        if s.startswith("declare"):
            mm = re.search(r'@("(?:[^"\\]|\\.)*"|[-a-zA-Z$._0-9]+)\(', s)
            if mm:
                m.decls["@" + mm.group(1)] = s
            continue
        if s.startswith("define"):
            body = []
            while True:
                l2 = lines[i]; i += 1
                if l2 == "}":
                    break
                body.append(l2)
            f = parse_fn(m, s, body)
            m.funcs[f.name] = f
            continue
    return m


def parse_global(m, s):
    mm = re.match(r'(@"(?:[^"\\]|\\.)*"|@[-a-zA-Z$._0-9]+) = (.*)$', s)
    name, rest = mm.group(1), mm.group(2)
    toks = tokenize(rest)
    p = P(toks, m)
    const = None
    ext = False
    while p.i < len(p.t):
        v = p.peek()
        if v in ("external", "extern_weak", "available_externally"):
            ext = True
        if v == "alias" or v == "ifunc":
            m.globals[name] = {"const": False, "ty": PTR, "init": None, "alias": True}
            return
        if v in ("global", "constant"):
            const = v == "constant"
            p.next()
            break
        if v in ("thread_local", "addrspace"):
            p.next()
            if p.peek() == "(":
                p.skip_paren()
            continue
        p.next()
    t = p.ty()
    init = None
    if p.i < len(p.t) and p.peek() not in (",",) and not ext:
        try:
            init = p.val(t)
        except IRError:
            init = None
    m.globals[name] = {"const": const, "ty": t, "init": init, "ext": ext, "text": s, "tls": "thread_local" in rest}


LABEL_RE = re.compile(r'^("(?:[^"\\]|\\.)*"|[-a-zA-Z$._0-9]+):')


def parse_fn(m, head, body):
    mm = re.search(r'(@"(?:[^"\\]|\\.)*"|@[-a-zA-Z$._0-9]+)\(', head)
    f = Fn(mm.group(1))
    f.head = head
    pre = head[:mm.start()]
    p = P(tokenize(head[mm.end() - 1:]), m)
    p.need("(")
    idx = 0
    if not p.eat(")"):
        while True:
            if p.peek() == "...":
                p.next()
            else:
                t = p.ty(); p.attrs()
                nm = None
                if p.kind() == "lident":
                    nm = p.next()
                f.params.append((t, nm if nm else "%" + str(idx)))
                idx += 1
            if p.eat(")"): break
            p.need(",")
    # return type: last type before name
    cur = None
    first = True
    buf = []
    # join continuation lines (switch tables)
    joined = []
    acc = None
    for l in body:
        s = l.strip()
        if acc is not None:
            acc += " " + s
            if s.startswith("]") or s.endswith("]"):
                joined.append(acc); acc = None
            continue
        if s.startswith("switch ") and "]" not in s:
            acc = l
            continue
        joined.append(l)
    for l in joined:
        if not l.strip() or l.lstrip().startswith(";"):
            continue
        ml = LABEL_RE.match(l)
        if ml:
            cur = "%" + ml.group(1)
            f.blocks[cur] = []
            f.order.append(cur)
            continue
        if cur is None:
            cur = "%" + str(idx)
            # entry label may be unnamed: next number after params
            f.blocks[cur] = []
            f.order.append(cur)
        try:
            ins = parse_ins(m, strip_comment(l))
        except IRError as e:
            ins = Ins("unsupported", None, VOID, (str(e),), l.strip())
            r = re.match(r'\s*(%"[^"]*"|%[-a-zA-Z$._0-9]+) = ', l)
            if r:
                ins.res = r.group(1)
        if ins is not None:
            f.blocks[cur].append(ins)
    return f


def strip_comment(l):
    if ";" not in l:
        return l
    out = ""
    q = False
    for ch in l:
        if ch == '"':
            q = not q
        if ch == ";" and not q:
            break
        out += ch
    return out


def parse_ins(m, l):
    s = l.strip()
    if not s: return None
    # drop trailing metadata
    toks = tokenize(s)
    # cut ", !tbaa !8" etc.
    d = 0
    cut = len(toks)
    for j, (k, v) in enumerate(toks):
        if v in "([{<" and k == "p": d += 1
        elif v in ")]}>" and k == "p": d -= 1
        elif k == "meta" and d == 0 and j > 0 and toks[j - 1][1] == ",":
            cut = j - 1
            break
    toks = toks[:cut]
    p = P(toks, m)
    res = None
    if p.kind() == "lident" and p.peek(1) == "=":
        res = p.next(); p.next()
    op = p.next()
    if op in ("tail", "musttail", "notail"):
        op = p.next()
    if op in BIN:
        while p.peek() in FLAGS: p.next()
        t = p.ty(); a = p.val(t); p.need(","); b = p.val(t)
        return Ins(op, res, t, (a, b), s)
    if op == "fneg":
        while p.peek() in FLAGS: p.next()
        t = p.ty(); a = p.val(t)
        return Ins(op, res, t, (a,), s)
    if op in ("icmp", "fcmp"):
        while p.peek() in FLAGS: p.next()
        pr = p.next(); t = p.ty(); a = p.val(t); p.need(","); b = p.val(t)
        return Ins(op, res, ity(1), (pr, t, a, b), s)
    if op in CAST:
        while p.peek() in FLAGS: p.next()
        t = p.ty(); a = p.val(t); p.need("to"); t2 = p.ty()
        return Ins(op, res, t2, (t, a), s)
    if op == "select":
        while p.peek() in FLAGS: p.next()
        ct = p.ty(); c = p.val(ct); p.need(","); t = p.ty(); a = p.val(t); p.need(","); t2 = p.ty(); b = p.val(t2)
        return Ins(op, res, t, (c, a, b, ct), s)
    if op == "phi":
        while p.peek() in FLAGS: p.next()
        t = p.ty()
        inc = []
        while True:
            p.need("["); v = p.val(t); p.need(","); lb = p.next(); p.need("]")
            inc.append((v, lb))
            if not p.eat(","): break
        return Ins(op, res, t, inc, s)
    if op == "br":
        if p.eat("label"):
            return Ins("br", None, VOID, (p.next(),), s)
        t = p.ty(); c = p.val(t); p.need(","); p.need("label"); a = p.next(); p.need(","); p.need("label"); b = p.next()
        return Ins("condbr", None, VOID, (c, a, b), s)
    if op == "switch":
        t = p.ty(); c = p.val(t); p.need(","); p.need("label"); dflt = p.next(); p.need("[")
        cases = []
        while not p.eat("]"):
            ct = p.ty(); cv = p.val(ct); p.need(","); p.need("label"); cases.append((cv, p.next()))
        return Ins("switch", None, t, (c, dflt, cases), s)
    if op == "ret":
        t = p.ty()
        return Ins("ret", None, t, (None if t.k == "void" else p.val(t),), s)
    if op == "unreachable":
        return Ins(op, None, VOID, (), s)
    if op == "alloca":
        if p.peek() == "inalloca": p.next()
        t = p.ty()
        cnt = None
        if p.eat(","):
            if p.peek() != "align":
                ct = p.ty(); cnt = p.val(ct)
        return Ins(op, res, PTR, (t, cnt), s)
    if op == "load":
        while p.peek() in ("volatile", "atomic"): p.next()
        t = p.ty(); p.need(","); pt = p.ty(); a = p.val(pt)
        return Ins(op, res, t, (a,), s)
    if op == "store":
        while p.peek() in ("volatile", "atomic"): p.next()
        t = p.ty(); v = p.val(t); p.need(","); pt = p.ty(); a = p.val(pt)
        return Ins(op, None, VOID, (t, v, a), s)
    if op == "getelementptr":
        while p.peek() in FLAGS: p.next()
        t = p.ty(); p.need(",")
        args = []
        while True:
            at = p.ty(); args.append((at, p.val(at)))
            if not p.eat(","): break
        return Ins(op, res, PTR, (t, args), s)
    if op in ("call", "invoke"):
        while p.peek() in FLAGS: p.next()
        # cc / ret attrs
        while p.peek() in ("fastcc", "coldcc", "ccc", "tailcc", "swiftcc") or p.peek() == "cc":
            p.next()
        p.attrs()
        t = p.ty()
        if p.peek() == "(":   # explicit function type
            p.skip_paren()
        if p.peek() == "asm":
            return Ins("asm", res, t, (), s)
        callee = p.val(PTR)
        p.need("(")
        args = []
        if not p.eat(")"):
            while True:
                at = p.ty(); p.attrs()
                if at.k == "metadata":
                    # skip metadata operand
                    d = 0
                    while not (d == 0 and p.peek() in (",", ")")):
                        v = p.next()
                        if v == "(": d += 1
                        if v == ")": d -= 1
                    args.append((at, ("meta",)))
                else:
                    args.append((at, p.val(at)))
                if p.eat(")"): break
                p.need(",")
        extra = None
        if op == "invoke":
            while p.peek() not in ("to",): p.next()
            p.next(); p.need("label"); a = p.next(); p.need("unwind"); p.need("label"); b = p.next()
            extra = (a, b)
        return Ins(op, res, t, (callee, args, extra), s)
    if op == "extractvalue":
        t = p.ty(); a = p.val(t)
        idx = []
        while p.eat(","):
            idx.append(int(p.next()))
        return Ins(op, res, t, (a, idx), s)
    if op == "insertvalue":
        t = p.ty(); a = p.val(t); p.need(","); t2 = p.ty(); b = p.val(t2)
        idx = []
        while p.eat(","):
            idx.append(int(p.next()))
        return Ins(op, res, t, (a, t2, b, idx), s)
    if op == "freeze":
        t = p.ty(); a = p.val(t)
        return Ins(op, res, t, (a,), s)
    if op == "extractelement":
        t = p.ty(); a = p.val(t); p.need(","); t2 = p.ty(); b = p.val(t2)
        return Ins(op, res, t, (a, b), s)
    if op == "insertelement":
        t = p.ty(); a = p.val(t); p.need(","); t2 = p.ty(); b = p.val(t2); p.need(","); t3 = p.ty(); c = p.val(t3)
        return Ins(op, res, t, (a, b, c), s)
    if op == "shufflevector":
        t = p.ty(); a = p.val(t); p.need(","); t2 = p.ty(); b = p.val(t2); p.need(","); t3 = p.ty(); c = p.val(t3)
        return Ins(op, res, t3, (t, a, b, c), s)
    if op == "fence":
        return None
    raise IRError("instr " + s[:100])
