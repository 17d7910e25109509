"""Parser for the textual LLVM IR (LLVM 18, opaque pointers) that clang emits
for the library.  Function bodies are parsed lazily.  Standard library only."""
import re
import struct
from fractions import Fraction


# ----------------------------------------------------------------- types
class T:
    __slots__ = ("k", "n", "el", "fields", "packed", "_size", "_align", "_offs", "name")

    def __init__(self, k, n=0, el=None, fields=None, packed=False, name=None):
        self.k, self.n, self.el, self.fields, self.packed, self.name = k, n, el, fields, packed, name
        self._size = self._align = self._offs = None

    def __repr__(self):
        return {"int": "i%d" % self.n, "arr": "[%d x %r]" % (self.n, self.el), "vec": "<%d x %r>" % (self.n, self.el),
                "struct": self.name or "{%s}" % ", ".join(map(repr, self.fields or []))}.get(self.k, self.k)


VOID, PTR, FLOAT, DOUBLE, LABEL, META = T("void"), T("ptr"), T("float"), T("double"), T("label"), T("meta")
_ints = {}


def IntT(n):
    if n not in _ints:
        _ints[n] = T("int", n)
    return _ints[n]


def align_of(t):
    if t._align is None:
        k = t.k
        if k == "int":
            a = 1
            while a * 8 < t.n and a < 16:
                a *= 2
        elif k == "float":
            a = 4
        elif k in ("ptr", "double"):
            a = 8
        elif k == "arr":
            a = align_of(t.el)
        elif k == "vec":
            a = 1
            while a < size_of(t):
                a *= 2
        elif k == "struct":
            a = 1 if t.packed or not t.fields else max(align_of(f) for f in t.fields)
        else:
            a = 1
        t._align = a
    return t._align


def size_of(t):
    """allocation size in bytes"""
    if t._size is None:
        k = t.k
        if k == "int":
            s = (t.n + 7) // 8
            a = align_of(t)
            s = (s + a - 1) // a * a
        elif k == "float":
            s = 4
        elif k in ("ptr", "double"):
            s = 8
        elif k == "x86_fp80":
            s = 16
        elif k in ("arr", "vec"):
            s = t.n * size_of(t.el)
        elif k == "struct":
            offs, s = [], 0
            for f in t.fields:
                a = 1 if t.packed else align_of(f)
                s = (s + a - 1) // a * a
                offs.append(s)
                s += size_of(f)
            a = align_of(t)
            s = (s + a - 1) // a * a
            t._offs = offs
        else:
            s = 0
        t._size = s
    return t._size


def field_offset(t, i):
    size_of(t)
    return t._offs[i]


# ----------------------------------------------------------------- lexer
TOK = re.compile(r'''
   (?P<ws>\s+)
 | (?P<cstr>c"(?:[^"\\]|\\.)*")
 | (?P<name>[%@](?:"(?:[^"\\]|\\.)*"|[-a-zA-Z$._0-9]+))
 | (?P<comdat>\$(?:"(?:[^"\\]|\\.)*"|[-a-zA-Z$._0-9]+))
 | (?P<meta>!(?:[-a-zA-Z$._0-9]+|"(?:[^"\\]|\\.)*")?)
 | (?P<attr>\#\d+)
 | (?P<str>"(?:[^"\\]|\\.)*")
 | (?P<hex>0x[KLMHR]?[0-9A-Fa-f]+)
 | (?P<num>-?\d+\.\d+(?:[eE][-+]?\d+)?|-?\d+)
 | (?P<dots>\.\.\.)
 | (?P<id>[a-zA-Z_][-a-zA-Z0-9_.$]*)
 | (?P<p>[][(){}<>,=*:|])
''', re.X)


def lex(s):
    out, i, n = [], 0, len(s)
    while i < n:
        m = TOK.match(s, i)
        if not m:
            raise SyntaxError("lex: %r" % s[i:i + 60])
        i = m.end()
        if m.lastgroup != "ws":
            out.append(m.group())
    return out


class Cur:
    __slots__ = ("t", "i", "mod")

    def __init__(self, toks, mod):
        self.t, self.i, self.mod = toks, 0, mod

    def peek(self, k=0):
        j = self.i + k
        return self.t[j] if j < len(self.t) else None

    def next(self):
        x = self.t[self.i]
        self.i += 1
        return x

    def accept(self, x):
        if self.peek() == x:
            self.i += 1
            return True
        return False

    def expect(self, x):
        y = self.next()
        if y != x:
            raise SyntaxError("expected %r got %r in %s" % (x, y, " ".join(self.t)))


INT_RE = re.compile(r"i\d+$")


def parse_type(c):
    x = c.next()
    if INT_RE.match(x):
        t = IntT(int(x[1:]))
    elif x == "ptr":
        t = PTR
        if c.peek() == "addrspace":
            c.i += 4
    elif x == "float":
        t = FLOAT
    elif x == "double":
        t = DOUBLE
    elif x == "void":
        t = VOID
    elif x == "x86_fp80":
        t = T("x86_fp80")
    elif x == "label":
        t = LABEL
    elif x == "metadata":
        t = META
    elif x == "[":
        n = int(c.next())
        c.expect("x")
        el = parse_type(c)
        c.expect("]")
        t = T("arr", n, el)
    elif x == "{":
        t = T("struct", fields=_tlist(c, "}"))
    elif x == "<":
        if c.peek() == "{":
            c.next()
            t = T("struct", fields=_tlist(c, "}"), packed=True)
            c.expect(">")
        else:
            n = int(c.next())
            c.expect("x")
            el = parse_type(c)
            c.expect(">")
            t = T("vec", n, el)
    elif x[0] == "%":
        t = c.mod.named_type(x)
    elif x == "opaque":
        t = T("opaque")
    else:
        raise SyntaxError("type? %r in %s" % (x, " ".join(c.t)))
    while c.peek() == "(":  # function type
        d, c.i = 1, c.i + 1
        while d:
            y = c.next()
            d += (y == "(") - (y == ")")
        t = T("fn", el=t)
    return t


def _tlist(c, end):
    fs = []
    if c.accept(end):
        return fs
    while True:
        fs.append(parse_type(c))
        if c.accept(end):
            return fs
        c.expect(",")


# ----------------------------------------------------------------- operands
class Const:
    """parsed constant: kind in int,fp,null,undef,zero,global,agg,str,gep,cast,local"""
    __slots__ = ("k", "v", "t")

    def __init__(self, k, v, t):
        self.k, self.v, self.t = k, v, t

    def __repr__(self):
        return "%s:%r" % (self.k, self.v)


def fp_const(tok, t):
    if tok.startswith("0x"):
        if tok[2] == "K":
            se, man = int(tok[3:7], 16), int(tok[7:], 16)
            e = se & 0x7FFF
            if e == 0x7FFF:
                return ("nan", None) if man << 1 & (2**64 - 1) else ("inf", -1 if se & 0x8000 else 1)
            v = Fraction(man) * (Fraction(2) ** (e - 16383 - 63))
            return ("num", -v if se & 0x8000 else v)
        if tok[2] in "LMHR":
            return ("special", tok)
        d = struct.unpack(">d", bytes.fromhex(tok[2:].rjust(16, "0")))[0]
    else:
        d = float(tok)
    if d != d:
        return ("nan", None)
    if d in (float("inf"), float("-inf")):
        return ("inf", 1 if d > 0 else -1)
    return ("num", Fraction(d))


FLAGS = {"nuw", "nsw", "exact", "inbounds", "volatile", "atomic", "tail", "musttail", "notail", "fast", "nnan", "ninf",
         "nsz", "arcp", "contract", "reassoc", "afn", "nneg", "disjoint", "inrange"}
PATTR = {"noundef", "nonnull", "zeroext", "signext", "noalias", "nocapture", "readonly", "readnone", "writeonly",
         "returned", "immarg", "inreg", "nofree", "nest", "noreturn", "nounwind", "unnamed_addr", "local_unnamed_addr",
         "dso_local", "dso_preemptable", "internal", "private", "external", "linkonce_odr", "linkonce", "weak_odr",
         "weak", "appending", "hidden", "protected", "common", "available_externally", "fastcc", "ccc", "coldcc",
         "swiftself", "mustprogress", "dead_on_unwind", "dead_on_return", "writable", "thread_local", "externally_initialized", "allocptr"}


def skip_attrs(c):
    while True:
        x = c.peek()
        if x is None:
            return
        if x in PATTR:
            c.i += 1
            if x == "thread_local" and c.peek() == "(":
                c.i += 3
        elif x == "align":
            c.i += 1
            if c.peek() == "(":
                c.i += 3
            else:
                c.i += 1
        elif x in ("dereferenceable", "dereferenceable_or_null", "sret", "byval", "byref", "preallocated", "inalloca",
                   "elementtype", "nofpclass", "memory", "allocsize", "range", "initializes", "captures"):
            c.i += 1
            if c.accept("("):
                d = 1
                while d:
                    y = c.next()
                    d += (y == "(") - (y == ")")
        else:
            return


def parse_value(c, t):
    x = c.next()
    ch = x[0]
    if ch == "%":
        return Const("local", x, t)
    if ch == "@":
        return Const("global", x[1:].strip('"'), t)
    if x in ("true", "false"):
        return Const("int", 1 if x == "true" else 0, t)
    if x == "null":
        return Const("null", None, t)
    if x in ("undef", "poison"):
        return Const("undef", None, t)
    if x == "zeroinitializer":
        return Const("zero", None, t)
    if x == "none":
        return Const("zero", None, t)
    if t.k in ("float", "double"):
        if x.startswith("0x") or ch.isdigit() or ch == "-":
            return Const("fp", fp_const(x, t), t)
    if t.k == "x86_fp80" and x.startswith("0x"):
        return Const("fp", fp_const(x, t), t)
    if t.k == "int" and (ch.isdigit() or ch == "-"):
        return Const("int", int(x) & ((1 << t.n) - 1), t)
    if x.startswith('c"'):
        return Const("str", cstr(x), t)
    if x in ("[", "{", "<"):
        packed = False
        if x == "<" and c.peek() == "{":
            c.next()
            packed = True
        end = {"[": "]", "{": "}", "<": ">"}[x]
        if packed:
            end = "}"
        vals = []
        if not c.accept(end):
            while True:
                et = parse_type(c)
                vals.append(parse_value(c, et))
                if c.accept(end):
                    break
                c.expect(",")
        if packed:
            c.expect(">")
        return Const("agg", vals, t)
    if x == "getelementptr":
        while c.peek() in FLAGS:
            c.next()
        c.expect("(")
        bt = parse_type(c)
        c.expect(",")
        args = []
        while True:
            while c.peek() in FLAGS:
                c.next()
            at = parse_type(c)
            args.append(parse_value(c, at))
            if c.accept(")"):
                break
            c.expect(",")
        return Const("gep", (bt, args), t)
    if x in ("ptrtoint", "inttoptr", "bitcast", "trunc", "zext", "sext", "addrspacecast"):
        c.expect("(")
        st = parse_type(c)
        v = parse_value(c, st)
        c.expect("to")
        dt = parse_type(c)
        c.expect(")")
        return Const("cast", (x, v, dt), t)
    if x in ("add", "sub", "mul", "xor", "and", "or", "shl"):
        while c.peek() in FLAGS:
            c.next()
        c.expect("(")
        at = parse_type(c)
        a = parse_value(c, at)
        c.expect(",")
        bt = parse_type(c)
        b = parse_value(c, bt)
        c.expect(")")
        return Const("binop", (x, a, b), t)
    if x == "asm":
        return Const("undef", None, t)
    raise SyntaxError("value? %r (%r) in %s" % (x, t, " ".join(c.t[:60])))


def cstr(tok):
    s, out, i = tok[2:-1], bytearray(), 0
    while i < len(s):
        if s[i] == "\\":
            if s[i + 1] == "\\":
                out.append(92)
                i += 2
            else:
                out.append(int(s[i + 1:i + 3], 16))
                i += 3
        else:
            out += s[i].encode("latin1")
            i += 1
    return bytes(out)


# ----------------------------------------------------------------- instructions
class Inst:
    __slots__ = ("op", "dst", "t", "a", "x", "dbg", "flags")

    def __init__(self, op, dst):
        self.op, self.dst = op, dst
        self.t = self.a = self.x = self.dbg = None
        self.flags = ()

    def __repr__(self):
        return "%s=%s %r %r" % (self.dst, self.op, self.a, self.x)


BIN = {"add", "sub", "mul", "udiv", "sdiv", "urem", "srem", "shl", "lshr", "ashr", "and", "or", "xor", "fadd", "fsub",
       "fmul", "fdiv", "frem"}
CAST = {"trunc", "zext", "sext", "fptrunc", "fpext", "fptoui", "fptosi", "uitofp", "sitofp", "ptrtoint", "inttoptr",
        "bitcast"}
DBG_RE = re.compile(r", !dbg !(\d+)")
META_RE = re.compile(r"(?:, ![a-zA-Z.]+ !\d+)+\s*$")
ATTRG_RE = re.compile(r"\)\s*#\d+")


def parse_inst(line, mod):
    m = DBG_RE.search(line)
    dbg = int(m.group(1)) if m else None
    line = META_RE.sub("", line)
    toks = lex(line)
    c = Cur(toks, mod)
    dst = None
    if c.peek(1) == "=" and c.peek()[0] == "%":
        dst = c.next()
        c.next()
    op = c.next()
    if op in ("tail", "musttail", "notail"):
        op = c.next()
    I = Inst(op, dst)
    I.dbg = dbg
    fl = []
    while c.peek() in FLAGS:
        fl.append(c.next())
    I.flags = tuple(fl)
    if op in BIN:
        I.t = parse_type(c)
        a = parse_value(c, I.t)
        c.expect(",")
        b = parse_value(c, I.t)
        I.a = (a, b)
    elif op == "fneg":
        I.t = parse_type(c)
        I.a = (parse_value(c, I.t),)
    elif op in ("icmp", "fcmp"):
        I.x = c.next()
        I.t = parse_type(c)
        a = parse_value(c, I.t)
        c.expect(",")
        I.a = (a, parse_value(c, I.t))
    elif op in CAST:
        st = parse_type(c)
        v = parse_value(c, st)
        c.expect("to")
        I.t = parse_type(c)
        I.a = (v,)
    elif op == "load":
        I.t = parse_type(c)
        c.expect(",")
        pt = parse_type(c)
        I.a = (parse_value(c, pt),)
    elif op == "store":
        vt = parse_type(c)
        v = parse_value(c, vt)
        c.expect(",")
        pt = parse_type(c)
        I.t = vt
        I.a = (v, parse_value(c, pt))
    elif op == "alloca":
        I.t = parse_type(c)
        I.x = None
        if c.accept(",") and c.peek() != "align":
            nt = parse_type(c)
            I.x = parse_value(c, nt)
    elif op == "getelementptr":
        I.t = parse_type(c)
        c.expect(",")
        args = []
        while True:
            at = parse_type(c)
            args.append(parse_value(c, at))
            if not c.accept(","):
                break
        I.a = tuple(args)
    elif op == "phi":
        I.t = parse_type(c)
        prs = []
        while True:
            c.expect("[")
            v = parse_value(c, I.t)
            c.expect(",")
            prs.append((v, c.next()))
            c.expect("]")
            if not c.accept(","):
                break
        I.a = tuple(prs)
    elif op == "select":
        ct = parse_type(c)
        cv = parse_value(c, ct)
        c.expect(",")
        I.t = parse_type(c)
        a = parse_value(c, I.t)
        c.expect(",")
        parse_type(c)
        I.a = (cv, a, parse_value(c, I.t))
    elif op == "br":
        if c.peek() == "label":
            c.next()
            I.x = (c.next(),)
            I.a = ()
        else:
            ct = parse_type(c)
            I.a = (parse_value(c, ct),)
            c.expect(",")
            c.expect("label")
            l1 = c.next()
            c.expect(",")
            c.expect("label")
            I.x = (l1, c.next())
    elif op == "switch":
        I.t = parse_type(c)
        v = parse_value(c, I.t)
        c.expect(",")
        c.expect("label")
        dflt = c.next()
        c.expect("[")
        cases = []
        while not c.accept("]"):
            kt = parse_type(c)
            k = parse_value(c, kt)
            c.expect(",")
            c.expect("label")
            cases.append((k.v, c.next()))
        I.a = (v,)
        I.x = (dflt, cases)
    elif op == "ret":
        I.t = parse_type(c)
        I.a = () if I.t is VOID else (parse_value(c, I.t),)
    elif op in ("call", "invoke"):
        skip_attrs(c)
        I.t = parse_type(c)
        if I.t.k == "fn":
            I.t = I.t.el
        skip_attrs(c)
        if c.peek() == "asm":
            I.x = Const("undef", "asm", PTR)
            I.a = ()
            return I
        callee = parse_value(c, PTR)
        I.x = callee
        c.expect("(")
        args = []
        if not c.accept(")"):
            while True:
                if c.peek() == "metadata":
                    # debug intrinsics: ignore
                    I.a = ()
                    return I
                at = parse_type(c)
                skip_attrs(c)
                args.append(parse_value(c, at))
                if c.accept(")"):
                    break
                c.expect(",")
        I.a = tuple(args)
        if op == "invoke":
            while c.peek() != "to":
                c.next()
            c.next()
            c.expect("label")
            I.flags = (c.next(),)
    elif op == "extractvalue":
        at = parse_type(c)
        v = parse_value(c, at)
        idx = []
        while c.accept(","):
            idx.append(int(c.next()))
        I.t, I.a, I.x = at, (v,), idx
    elif op == "insertvalue":
        at = parse_type(c)
        v = parse_value(c, at)
        c.expect(",")
        et = parse_type(c)
        e = parse_value(c, et)
        idx = []
        while c.accept(","):
            idx.append(int(c.next()))
        I.t, I.a, I.x = at, (v, e), idx
    elif op == "extractelement":
        at = parse_type(c)
        v = parse_value(c, at)
        c.expect(",")
        it = parse_type(c)
        I.t, I.a = at, (v, parse_value(c, it))
    elif op == "insertelement":
        at = parse_type(c)
        v = parse_value(c, at)
        c.expect(",")
        et = parse_type(c)
        e = parse_value(c, et)
        c.expect(",")
        it = parse_type(c)
        I.t, I.a = at, (v, e, parse_value(c, it))
    elif op == "freeze":
        I.t = parse_type(c)
        I.a = (parse_value(c, I.t),)
    elif op == "unreachable":
        I.a = ()
    else:
        I.a = ()
        I.x = line
    return I


LABEL_RE = re.compile(r'^("(?:[^"\\]|\\.)*"|[-a-zA-Z$._0-9]+):')
IGN = ("call void @llvm.dbg.", "call void @llvm.lifetime", "#dbg_")


class Block:
    __slots__ = ("name", "insts", "phis", "succ")


class Func:
    def __init__(self, mod, name, header, lines):
        self.mod, self.name, self.header, self.lines = mod, name, header, lines
        self._parsed = False
        self.sub = None
        m = re.search(r"!dbg !(\d+)", header)
        if m:
            self.sub = int(m.group(1))

    @property
    def is_decl(self):
        return self.lines is None

    def _hdr(self):
        h = META_RE.sub("", self.header.split(" !dbg ")[0].rstrip("{ "))
        c = Cur(lex(h), self.mod)
        c.next()
        skip_attrs(c)
        self.ret = parse_type(c)
        skip_attrs(c)
        n = c.next()
        c.expect("(")
        self.args = []
        self.vararg = False
        if not c.accept(")"):
            k = 0
            while True:
                if c.accept("..."):
                    self.vararg = True
                    c.expect(")")
                    break
                at = parse_type(c)
                save = c.i
                byval = None
                while c.peek() not in (",", ")", None) and c.peek()[0] != "%":
                    x = c.peek()
                    if x in ("byval", "sret"):
                        c.next()
                        c.expect("(")
                        bt = parse_type(c)
                        c.expect(")")
                        if x == "byval":
                            byval = bt
                        continue
                    i0 = c.i
                    skip_attrs1(c)
                    if c.i == i0:
                        c.i += 1
                nm = None
                if c.peek() and c.peek()[0] == "%":
                    nm = c.next()
                else:
                    nm = "%%%d" % k
                self.args.append((nm, at, byval))
                k += 1
                if c.accept(")"):
                    break
                c.expect(",")

    def parse(self):
        if self._parsed:
            return self
        self._parsed = True
        self._hdr()
        self.blocks = {}
        self.order = []
        if self.lines is None:
            return self
        nargs = len([a for a in self.args])
        cur = None
        i = 0
        lines = self.lines

        def newblock(nm):
            b = Block()
            b.name, b.insts, b.phis, b.succ = nm, [], [], ()
            self.blocks[nm] = b
            self.order.append(nm)
            return b
        n = len(lines)
        while i < n:
            ln = lines[i]
            i += 1
            s = ln.strip()
            if not s or s[0] == ";":
                continue
            if ln[0] != " ":
                m = LABEL_RE.match(ln)
                if m:
                    cur = newblock("%" + m.group(1))
                    continue
            if any(g in s for g in IGN):
                continue
            if s.startswith("switch") or (" switch " in s and s.endswith("[")):
                while "]" not in s:
                    s += " " + lines[i].strip()
                    i += 1
                # debug may follow the bracket
            if cur is None:
                cur = newblock("%%%d" % nargs if not any(a[0].strip("%").isalpha() for a in self.args) else "%entry")
            I = parse_inst(s, self.mod)
            if I.op == "phi":
                cur.phis.append(I)
            else:
                cur.insts.append(I)
            if I.op == "br":
                cur.succ = I.x
            elif I.op == "switch":
                cur.succ = tuple(dict.fromkeys([I.x[0]] + [l for _, l in I.x[1]]))
            elif I.op == "invoke":
                cur.succ = (I.flags[0],)
        # entry block implicit name
        self.entry = self.order[0]
        self._wto()
        self._liveness()
        return self

    def _liveness(self):
        """names live on entry to each block (phi results included)"""
        def uses(x, out):
            if isinstance(x, Const):
                if x.k == "local":
                    out.add(x.v)
                elif isinstance(x.v, (list, tuple, Const)):
                    uses(x.v, out)
            elif isinstance(x, (list, tuple)):
                for y in x:
                    uses(y, out)
        gen, kill, edge, phid = {}, {}, {}, {}
        for nm, b in self.blocks.items():
            g, k = set(), set()
            for I in b.insts:
                u = set()
                for part in (I.a, I.x, I.flags):
                    uses(part, u)
                g |= u - k
                if I.dst:
                    k.add(I.dst)
            gen[nm], kill[nm] = g, k
            phid[nm] = {P.dst for P in b.phis}
            for P in b.phis:
                for c, l in P.a:
                    u = set()
                    uses(c, u)
                    edge.setdefault((l, nm), set()).update(u)
        live = {nm: set() for nm in self.blocks}
        change = True
        order = sorted(self.blocks, key=lambda b: -self.prio.get(b, 0))
        while change:
            change = False
            for nm in order:
                out = set()
                for w in self.blocks[nm].succ:
                    if w in live:
                        out |= (live[w] - phid[w]) | edge.get((nm, w), set())
                n = gen[nm] | (out - kill[nm]) | phid[nm]
                if n != live[nm]:
                    live[nm] = n
                    change = True
        self.live = live

    def _wto(self):
        """priority of each block = position in a reverse post-order in which
        loop bodies are contiguous (so a loop is exhausted before its exits)."""
        bl = self.blocks
        # tarjan-based weak topological order (Bourdoncle)
        dfn = {b: 0 for b in bl}
        stack = []
        num = [0]
        import sys
        sys.setrecursionlimit(100000)

        def component(v):
            part = []
            for w in bl[v].succ:
                if w in dfn and dfn[w] == 0:
                    visit(w, part)
            part.insert(0, v)
            return part

        def visit(v, partition):
            stack.append(v)
            num[0] += 1
            dfn[v] = num[0]
            head = dfn[v]
            loop = False
            for w in bl[v].succ:
                if w not in dfn:
                    continue
                mn = visit(w, partition) if dfn[w] == 0 else dfn[w]
                if mn <= head:
                    head = mn
                    loop = True
            if head == dfn[v]:
                dfn[v] = float("inf")
                el = stack.pop()
                if loop:
                    while el != v:
                        dfn[el] = 0
                        el = stack.pop()
                    partition.insert(0, component(v))
                else:
                    partition.insert(0, v)
            return head
        part = []
        visit(self.entry, part)
        prio = {}
        self.loop_heads = set()

        def flat(p):
            for e in p:
                if isinstance(e, list):
                    self.loop_heads.add(e[0])
                    flat(e)
                else:
                    prio[e] = len(prio)
        flat(part)
        self.prio = prio
        self.wto = part


def skip_attrs1(c):
    skip_attrs(c)


class Module:
    def __init__(self, text):
        self.types = {}
        self.type_src = {}
        self.globals = {}
        self.gsrc = {}
        self.funcs = {}
        self.meta = {}
        self._meta_cache = {}
        lines = text.split("\n")
        i, n = 0, len(lines)
        while i < n:
            ln = lines[i]
            if ln.startswith("define "):
                j = i + 1
                while lines[j] != "}":
                    j += 1
                nm = re.search(r'@("(?:[^"\\]|\\.)*"|[-a-zA-Z$._0-9]+)\s*\(', ln).group(1).strip('"')
                self.funcs[nm] = Func(self, nm, ln, lines[i + 1:j])
                i = j + 1
                continue
            if ln.startswith("declare "):
                nm = re.search(r'@("(?:[^"\\]|\\.)*"|[-a-zA-Z$._0-9]+)\s*\(', ln).group(1).strip('"')
                self.funcs[nm] = Func(self, nm, ln, None)
            elif ln.startswith("!"):
                m = re.match(r"!(\d+) = (.*)$", ln)
                if m:
                    self.meta[int(m.group(1))] = m.group(2)
            elif ln.startswith("%"):
                nm, src = ln.split(" = type ", 1)
                self.type_src[nm] = src
            elif ln.startswith("@"):
                m = re.match(r'@("(?:[^"\\]|\\.)*"|[-a-zA-Z$._0-9]+) = (.*)$', ln)
                self.gsrc[m.group(1).strip('"')] = m.group(2)
            i += 1

    def named_type(self, nm):
        t = self.types.get(nm)
        if t is None:
            t = T("struct", fields=[], name=nm)
            self.types[nm] = t
            src = self.type_src.get(nm)
            if src is not None and src != "opaque":
                b = parse_type(Cur(lex(src), self))
                t.fields, t.packed = b.fields, b.packed
        return t

    def get_global(self, name):
        """-> dict(type, init Const|None, const, internal)"""
        g = self.globals.get(name)
        if g is None:
            src = self.gsrc[name]
            m = re.match(r"alias ", src)
            src = META_RE.sub("", src)
            toks = lex(src)
            c = Cur(toks, self)
            while c.peek() not in ("global", "constant", "alias"):
                c.next()
            kind = c.next()
            t = parse_type(c)
            init = None
            if kind == "alias":
                c.expect(",")
                pt = parse_type(c)
                init = parse_value(c, pt)
                g = dict(type=t, init=init, const=True, alias=True, src=src)
            else:
                if c.peek() not in (None, ","):
                    init = parse_value(c, t)
                g = dict(type=t, init=init, const=(kind == "constant"), alias=False, src=src)
            self.globals[name] = g
        return g

    # ---------------- debug info
    def _attr(self, mid, key):
        s = self.meta.get(mid, "")
        m = re.search(r"\b%s: (!?[^,)]+|\"[^\"]*\")" % key, s)
        if not m:
            return None
        v = m.group(1)
        return v

    def loc(self, dbg):
        """-> 'file:line' for a !dbg id"""
        if dbg is None:
            return "?"
        r = self._meta_cache.get(dbg)
        if r is None:
            s = self.meta.get(dbg, "")
            m = re.search(r"line: (\d+)", s)
            line = m.group(1) if m else "?"
            r = "%s:%s" % (self.scope_file(dbg), line)
            self._meta_cache[dbg] = r
        return r

    def scope_file(self, mid):
        seen = 0
        while mid is not None and seen < 40:
            seen += 1
            s = self.meta.get(mid, "")
            m = re.search(r"\bfile: !(\d+)", s)
            if m:
                f = self.meta.get(int(m.group(1)), "")
                fn = re.search(r'filename: "([^"]*)"', f)
                return short(fn.group(1)) if fn else "?"
            m = re.search(r"\bscope: !(\d+)", s)
            mid = int(m.group(1)) if m else None
        return "?"


def short(p):
    for pre in ("/repo/", "/verif/"):
        if p.startswith(pre):
            return p[len(pre):]
    return p
