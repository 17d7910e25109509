"""Gated value-graph analysis of LLVM IR.

An abstract interpretation in which every program value is kept in a canonical
form: integers are constants or vectors of BDD bits, pointers are guarded sets
of (region, offset), floating-point values are guarded sets of rational
functions over uninterpreted atoms.  Control-flow joins merge states under BDD
guards (gated SSA), so no path is ever enumerated; a loop is peeled until the
guard of its back edge is false.  Calls are expanded at the call site.
"""
import math
import struct
from fractions import Fraction

import irparse as ir
from irparse import size_of, field_offset
from bdd import BDD
from poly import (RF, rf_const, rf_atom, rf_add, rf_mul, rf_inv, rf_neg, rf_eq, p_mul, p_add, p_isconst, p_cval,
                  p_atom, p_key, p_scale, content_mono, div_mono, lead, SQ, F0, F1, TOL, TooBig, rf_norm)
from theory import lin_feasible


FMAX = Fraction(3.4028234e38)


class Nonterminating(Exception):
    def __init__(self, msg, loc, trace):
        Exception.__init__(self, msg)
        self.loc, self.trace = loc, trace


class AnalysisError(Exception):
    pass


class Undef:
    def __repr__(self):
        return "undef"


UNDEF = Undef()
NAN = ("nan",)
PINF = ("inf", 1)
NINF = ("inf", -1)


class BV:
    __slots__ = ("b",)

    def __init__(self, b):
        self.b = b

    def __repr__(self):
        return "BV%d" % len(self.b)


class FV:
    """guarded set of float leaves: RF | NAN | inf | UNDEF | ('bits', tuple)"""
    __slots__ = ("it",)

    def __init__(self, it):
        self.it = it


class PV:
    """guarded set of pointers (region, offset); region 0 = null, str = function"""
    __slots__ = ("it",)

    def __init__(self, it):
        self.it = it


class PI:
    """pointer as integer: guarded pointer set (byte granular)"""
    __slots__ = ("p",)

    def __init__(self, p):
        self.p = p


class Agg:
    __slots__ = ("v",)

    def __init__(self, v):
        self.v = v


NULL = (0, 0)


class Region:
    __slots__ = ("id", "size", "name", "kind", "fn")

    def __init__(self, i, size, name, kind):
        self.id, self.size, self.name, self.kind = i, size, name, kind


class Mem:
    """copy-on-write memory"""
    __slots__ = ("r", "own", "g0")

    def __init__(self, g0):
        self.r = {}
        self.own = set()
        self.g0 = g0

    def fork(self):
        m = Mem(self.g0)
        m.r = dict(self.r)
        self.own = set()
        return m

    def get(self, rid):
        c = self.r.get(rid)
        return c if c is not None else self.g0.get(rid)

    def w(self, rid):
        if rid not in self.own:
            c = self.r.get(rid)
            self.r[rid] = dict(self.g0.get(rid, {}) if c is None else c)
            self.own.add(rid)
        return self.r[rid]


def f32_bits(fr):
    try:
        d = float(fr)
    except OverflowError:
        d = math.inf if fr > 0 else -math.inf
    try:
        return struct.unpack("<I", struct.pack("<f", d))[0]
    except OverflowError:
        return 0x7F800000 if d > 0 else 0xFF800000


_snap = {}


def snap(fr):
    """The literal a single-precision constant stands for: the fraction with a small denominator that rounds to the
    same float, when there is one (1/6 for 0.166666667F), so that cancellations over the reals are exact."""
    r = _snap.get(fr)
    if r is None:
        r = fr
        if fr.denominator > 4096:
            q = fr.limit_denominator(1000)
            if q and f32_bits(q) == f32_bits(fr):
                r = q
        _snap[fr] = r
    return r


def bits_f32(u):
    e = (u >> 23) & 255
    if e == 255:
        if u & 0x7FFFFF:
            return NAN
        return NINF if u >> 31 else PINF
    return rf_const(snap(Fraction(struct.unpack("<f", struct.pack("<I", u))[0])))


def f64_bits(fr):
    return struct.unpack("<Q", struct.pack("<d", float(fr)))[0]


class Engine:
    def __init__(self, mod, opts=None):
        self.mod = mod
        self.B = BDD()
        self.opts = opts or {}
        self.atoms = []          # list of (kind, name, args)
        self.atom_pos = set()    # atoms known > 0
        self.atom_nn = set()     # atoms known >= 0
        self.uf = {}
        self.signs = {}          # support -> list of (poly, z, n)
        self.var_atom = {}       # bdd var index -> (poly, 'z'|'n')
        self.mag = {}            # bits[:31] -> FV
        self.rfbits = {}
        self.feas_cache = {}
        self.opq = {}
        self.regions = {}
        self.nreg = 0
        self.gregion = {}
        self.g0 = {}             # initial contents of globals
        self.viol = []
        self.vseen = set()
        self.obl = {}            # obligation id -> count
        self.accesses = 0
        self.funcs_seen = {}
        self.stack = []
        self.depth = 0
        self.steps = 0
        self.max_visits = self.opts.get("max_visits", 300000)
        self.prims = {}
        self.zero_at = None      # degenerate run (k, j): the k-th unknown real is zero (j None) or equal to the j-th one
        self.nreal = 0
        self.div0 = 0            # feasible divisions by zero met in a degenerate run
        self.reals = []
        self.ext = {}
        self.sites = set()
        self.dead = set()
        self.kindsel = None
        SQ.clear()
        self.loops_seen = {}
        self.eps = {}
        self.effects = None
        self.fp_class = dict(ZERO=0, NORMAL=2, INF=3, NAN=4)
        self.install()
        install_math(self)

    # ------------------------------------------------------------ reporting
    def where(self, I):
        loc = self.mod.loc(I.dbg) if I is not None else "?"
        return loc

    def report(self, kind, I, msg, pc=None):
        loc = self.where(I)
        trace = [self.mod.loc(s) for s in self.stack]
        # nearest repo location
        rl = loc
        key = (kind, rl, msg.split(" when ")[0])
        if key in self.vseen:
            return
        self.vseen.add(key)
        self.viol.append(dict(kind=kind, loc=loc, msg=msg, trace=trace[::-1][:8],
                              cond=self.describe(pc) if pc is not None else None))

    def describe(self, g):
        if g in (0, 1):
            return "always" if g else "never"
        for c in self.B.cubes(g):
            cube = self.cube_cons(c)
            if cube is None:
                continue
            if not self.cube_feasible(c):
                continue
            out = []
            for p, op in cube[0]:
                out.append("%s %s 0" % (self.pstr(p), op))
            for nm, v in cube[1]:
                out.append("%s=%d" % (nm, v))
            return " and ".join(out[:12]) or "always"
        return "?"

    def astr(self, a):
        k, n, args = self.atoms[a]
        if k == "sym":
            return n
        return "%s(%s)" % (n, ", ".join(self.rstr(x) if isinstance(x, RF) else str(x) for x in args))

    def pstr(self, p):
        if not p:
            return "0"
        out = []
        for m, c in sorted(p.items(), key=lambda kv: repr(kv[0]))[:12]:
            s = "*".join(self.astr(a) + ("^%d" % e if e != 1 else "") for a, e in m)
            cf = "%.6g" % float(c) if abs(c) < 10**300 else "huge"
            out.append(cf if not s else (s if c == 1 else ("-" + s if c == -1 else cf + "*" + s)))
        return " + ".join(out).replace("+ -", "- ") + (" + ..." if len(p) > 12 else "")

    def rstr(self, r):
        if r is UNDEF:
            return "<uninitialised>"
        if r == NAN:
            return "NaN"
        if isinstance(r, tuple):
            return ("+inf" if r[1] == 1 else "-inf") if r[0] == "inf" else "<bits>"
        if p_isconst(r.d):
            return self.pstr(p_scale(r.n, 1 / p_cval(r.d)))
        return "(%s)/(%s)" % (self.pstr(r.n), self.pstr(r.d))

    # ------------------------------------------------------------ atoms
    def new_sym(self, name):
        self.atoms.append(("sym", name, ()))
        return len(self.atoms) - 1

    def uf_atom(self, name, args):
        """args: RFs"""
        for a in self.uf.get((name, len(args)), ()):
            if all(rf_eq(x, y) for x, y in zip(self.atoms[a][2], args)):
                return a
        self.atoms.append(("uf", name, tuple(args)))
        a = len(self.atoms) - 1
        self.uf.setdefault((name, len(args)), []).append(a)
        if name == "exp":
            self.atom_pos.add(a)
        if name == "sqrt":
            self.atom_nn.add(a)
            r = args[0]
            if p_isconst(r.d):
                SQ[a] = p_scale(r.n, 1 / p_cval(r.d))
        return a

    # ------------------------------------------------------------ sign conditions
    def poly_sign(self, p):
        """-> (neg, zero) guards of a polynomial"""
        B = self.B
        if p_isconst(p):
            c = p_cval(p)
            return (1 if c < 0 else 0, 1 if c == 0 else 0)
        g = content_mono([p])
        neg, zero = 0, 0
        if g:
            p = div_mono(p, g)
            for a, e in g:
                n, z = self.atom_sign(a)
                zero = B.OR(zero, z)
                if e % 2:
                    neg = B.XOR(neg, n)
            if p_isconst(p):
                if p_cval(p) < 0:
                    neg = B.NOT(neg)
            else:
                n, z = self.base_sign(p)
                zero = B.OR(zero, z)
                neg = B.XOR(neg, n)
            return B.AND(neg, B.NOT(zero)), zero
        return self.base_sign(p)

    def atom_sign(self, a):
        if a in self.atom_pos:
            return 0, 0
        k, nm, args = self.atoms[a]
        if k == "uf" and nm == "sqrt":
            n, z = self.rf_sign(args[0])
            return 0, z
        return self.base_sign(p_atom(a))

    def base_sign(self, p):
        B = self.B
        lc = p[lead(p)]
        flip = lc < 0
        q = {m: c / lc for m, c in p.items()}
        sup = frozenset(q)
        ent = None
        for poly, z, n in self.signs.get(sup, ()):
            if all(abs(poly[m] - q[m]) <= TOL * abs(q[m]) for m in sup):
                ent = (z, n)
                break
        if ent is None:
            z = B.new_var()
            n = B.new_var()
            self.var_atom[B.var[z]] = (q, "z")
            self.var_atom[B.var[n]] = (q, "n")
            self.signs.setdefault(sup, []).append((q, z, n))
            ent = (z, n)
        z, n = ent
        nz = B.NOT(z)
        neg = B.AND(nz, B.NOT(n) if flip else n)
        return neg, z

    def rf_sign(self, r):
        n, z = self.poly_sign(r.n)
        if p_isconst(r.d):
            return (n, z) if p_cval(r.d) > 0 else (self.B.AND(self.B.NOT(n), self.B.NOT(z)), z)
        dn, dz = self.poly_sign(r.d)
        return self.B.AND(self.B.XOR(n, dn), self.B.NOT(z)), z

    # ------------------------------------------------------------ feasibility
    def cube_cons(self, cube):
        """cube -> ([(poly, op)], [(bitname,val)])"""
        per, bits = {}, []
        for v, val in cube.items():
            a = self.var_atom.get(v)
            if a is None:
                bits.append((self.B.names[v], val))
            else:
                k = p_key(a[0])
                per.setdefault(k, [a[0], None, None])[1 if a[1] == "z" else 2] = val
        cons = []
        for p, z, n in per.values():
            if z == 1:
                op = "=="
            elif z == 0:
                op = "!=" if n is None else ("<" if n else ">")
            else:
                op = "<=" if n else ">="
            cons.append((p, op))
        return cons, bits

    def cube_feasible(self, cube):
        key = frozenset((v, x) for v, x in cube.items() if v in self.var_atom)
        r = self.feas_cache.get(key)
        if r is None:
            r = self._cube_feasible(cube)
            self.feas_cache[key] = r
        return r

    def _cube_feasible(self, cube):
        cons, _ = self.cube_cons(cube)
        if not cons:
            return True
        if any(op == "==" for _, op in cons) and any(sum(e for _, e in m) > 1 for p, _ in cons for m in p):
            cons = self.eliminate(cons)
            if cons is None:
                return False
        eqs, ine = [], []
        sgn = {}
        monos = set()
        for p, op in cons:
            c = {m: x for m, x in p.items() if m != ()}
            k = p.get((), F0)
            monos.update(c)
            if len(p) == 1:
                (m, x), = p.items()
                if len(m) == 1 and m[0][1] == 1:
                    sgn[m[0][0]] = op if x > 0 else {"<": ">", ">": "<", "<=": ">=", ">=": "<="}.get(op, op)
            if op == "==":
                eqs.append((c, k))
            elif op in ("<", "<="):
                ine.append(({m: -x for m, x in c.items()}, -k, op == "<"))
            elif op in (">", ">="):
                ine.append((c, k, op == ">"))
        # sign facts for monomials
        extra = set()
        for m in list(monos):
            for a, e in m:
                extra.add(((a, 1),))
        for m in monos | extra:
            s, strict, known = 1, True, True
            for a, e in m:
                if a in self.atom_pos:
                    continue
                if a in self.atom_nn:
                    strict = False
                    continue
                op = sgn.get(a)
                if e % 2 == 0:
                    if op not in ("<", ">", "!="):
                        strict = False
                    continue
                if op in (">", ">="):
                    strict = strict and op == ">"
                elif op in ("<", "<="):
                    s = -s
                    strict = strict and op == "<"
                else:
                    known = False
                    break
            if known:
                ine.append(({m: Fraction(s)}, F0, strict))
        # product facts: for a bounded atom a in [lo,hi] times sign-known rest (McCormick style)
        if not lin_feasible(eqs, ine):
            return False
        # p != 0 with p pinned to zero by equalities
        for p, op in cons:
            if op == "!=":
                c = {m: x for m, x in p.items() if m != ()}
                k = p.get((), F0)
                if not lin_feasible(eqs, ine + [(c, k, True)]) and \
                        not lin_feasible(eqs, ine + [({m: -x for m, x in c.items()}, -k, True)]):
                    return False
        return self.product_feasible(cons, eqs, ine, monos)

    def eliminate(self, cons):
        """use linear equalities to remove symbols; None when a constraint becomes a false constant"""
        cons = list(cons)
        for _ in range(8):
            for k, (p, op) in enumerate(cons):
                if op != "==":
                    continue
                piv = None
                for m, c in p.items():
                    if len(m) == 1 and m[0][1] == 1 and self.atoms[m[0][0]][0] == "sym" and \
                            not any(m[0][0] == x for m2 in p if m2 != m for x, _ in m2):
                        piv = (m, c)
                        break
                if piv is not None:
                    break
            else:
                return cons
            m, c = piv
            at = m[0][0]
            r = p_scale({q: v for q, v in p.items() if q != m}, -1 / c)
            out = []
            if at in self.atom_pos:
                out.append((r, ">"))
            elif at in self.atom_nn:
                out.append((r, ">="))
            for j, (q, o) in enumerate(cons):
                if j != k:
                    out.append((self.subst(q, at, r) if any(x == at for mm in q for x, _ in mm) else q, o))
            cons = []
            for q, o in out:
                if not q or p_isconst(q):
                    v = q.get((), F0) if q else F0
                    if not {"==": v == 0, "!=": v != 0, "<": v < 0, "<=": v <= 0, ">": v > 0, ">=": v >= 0}[o]:
                        return None
                else:
                    cons.append((q, o))
        return cons

    def product_feasible(self, cons, eqs, ine, monos):
        """second try: multiply pairs of linear constraints (degree-2 relaxations)"""
        if len(cons) > 24:
            return True
        deg2 = [m for m in monos if sum(e for _, e in m) >= 2]
        if not deg2:
            return True
        lin = []
        for p, op in cons:
            if op in ("==", "!="):
                continue
            d = max(sum(e for _, e in m) for m in p)
            if d <= 1:
                q = p if op in (">", ">=") else p_scale(p, Fraction(-1))
                lin.append((q, op in ("<", ">")))
        want = set(deg2)
        more = []
        for i in range(len(lin)):
            for j in range(i, len(lin)):
                r = p_mul(lin[i][0], lin[j][0])
                if any(m in want for m in r):
                    more.append(({m: x for m, x in r.items() if m != ()}, r.get((), F0), lin[i][1] and lin[j][1]))
        if not more or len(more) > 60:
            return True
        return lin_feasible(eqs, ine + more, 600)

    def feasible(self, g, maxcubes=4000, strict=False):
        if g == 0:
            return False
        if g == 1:
            return True
        r = self.feas_cache.get(g)
        if r is None:
            r = False
            n = 0
            for c in self.B.cubes(g):
                n += 1
                if n > maxcubes:
                    if strict:
                        raise AnalysisError("too many cells in a verdict")
                    if maxcubes < 4000:
                        return True
                    r = True
                    break
                if self.cube_feasible(c):
                    r = True
                    break
            self.feas_cache[g] = r
        return r

    # ------------------------------------------------------------ constructors
    def fconst(self, x):
        return FV(((1, rf_const(x)),))

    def fleaf(self, l):
        return FV(((1, l),))

    def fdedupe(self, items):
        d = {}
        for g, l in items:
            if g == 0:
                continue
            k = l.key() if isinstance(l, RF) else l
            o = d.get(k)
            d[k] = (g if o is None else self.B.OR(o[0], g), l)
        return FV(tuple(d.values()))

    def fop1(self, a, f, pc):
        return self.fdedupe([(g, f(l)) for g, l in a.it])

    def fop2(self, a, b, f, pc):
        if len(a.it) == 1 and len(b.it) == 1:
            return FV(((1, f(a.it[0][1], b.it[0][1])),))
        B = self.B
        out = []
        for g1, l1 in a.it:
            for g2, l2 in b.it:
                g = B.AND(g1, g2)
                if g and B.AND(g, pc):
                    out.append((g, f(l1, l2)))
        if len(out) > 400:
            out = [(g, l) for g, l in out if self.feasible(B.AND(g, pc))]
        r = self.fdedupe(out)
        if len(r.it) > 64:
            it = [(g, l) for g, l in r.it if self.feasible(B.AND(g, pc))]
            r = FV(tuple(it))
        if len(r.it) > 3000:
            raise AnalysisError("too many gated leaves")
        return r

    def fop2z(self, op, a, b, f, pc):
        """product and quotient where a zero divisor or an infinite operand meets an unknown one: separated by its sign"""
        B = self.B
        out = []
        for g1, l1 in a.it:
            for g2, l2 in b.it:
                g = B.AND(g1, g2)
                if not g or not B.AND(g, pc):
                    continue
                u = None
                if op == "fdiv" and isinstance(l2, RF) and l2.isconst() and l2.cval() == 0 and self.feasible(B.AND(g, pc)):
                    self.div0 += 1
                if op == "fdiv" and isinstance(l1, RF) and not l1.isconst() and isinstance(l2, RF) and l2.isconst() and l2.cval() == 0:
                    u, s, z = l1, 1, NAN
                elif isinstance(l1, tuple) and l1[0] == "inf" and isinstance(l2, RF) and not l2.isconst():
                    u, s, z = l2, l1[1], (NAN if op == "fmul" else l1)
                elif op == "fmul" and isinstance(l2, tuple) and l2[0] == "inf" and isinstance(l1, RF) and not l1.isconst():
                    u, s, z = l1, l2[1], NAN
                if u is None:
                    out.append((g, f(l1, l2)))
                    continue
                lt, eq, _ = self.leaf_cmp(u, rf_const(0))
                gt = B.AND(B.NOT(lt), B.NOT(eq))
                for c, v in ((lt, ("inf", -s)), (gt, ("inf", s)), (eq, z)):
                    c = B.AND(g, c)
                    if c and B.AND(c, pc):
                        out.append((c, v))
        return self.fdedupe(out)

    def l_add(self, a, b, s=1):
        if isinstance(a, RF) and isinstance(b, RF):
            return rf_add(a, b, s)
        if a is UNDEF or b is UNDEF:
            return UNDEF
        if a == NAN or b == NAN:
            return NAN
        if a[0:1] == ("bits",) if isinstance(a, tuple) else False:
            return self.l_opq("fadd" if s == 1 else "fsub", a, b)
        if isinstance(b, tuple) and b[0] == "bits":
            return self.l_opq("fadd" if s == 1 else "fsub", a, b)
        ia = a[1] if isinstance(a, tuple) else 0
        ib = b[1] * s if isinstance(b, tuple) else 0
        if ia and ib:
            return a if ia == ib else NAN
        return PINF if (ia or ib) > 0 else NINF

    def l_opq(self, name, *ls):
        key = (name,) + tuple(l.key() if isinstance(l, RF) else l for l in ls)
        a = self.opq.get(key)
        if a is None:
            a = self.new_sym("%s#%d" % (name, len(self.opq)))
            self.opq[key] = a
        return rf_atom(a)

    def l_mul(self, a, b):
        if isinstance(a, RF) and isinstance(b, RF):
            return rf_mul(a, b)
        if a is UNDEF or b is UNDEF:
            return UNDEF
        if a == NAN or b == NAN:
            return NAN
        for x, y in ((a, b), (b, a)):
            if isinstance(x, tuple) and x[0] == "inf":
                if isinstance(y, RF):
                    if y.isconst():
                        c = y.cval()
                        return NAN if c == 0 else (x if c > 0 else ("inf", -x[1]))
                elif y[0] == "inf":
                    return ("inf", x[1] * y[1])
                return self.l_opq("fmul", a, b)
        return self.l_opq("fmul", a, b)

    def l_div(self, a, b):
        if isinstance(a, RF) and isinstance(b, RF):
            if b.isconst() and b.cval() == 0:
                if a.isconst():
                    c = a.cval()
                    return NAN if c == 0 else (PINF if c > 0 else NINF)
                return self.l_opq("div0", a)
            return rf_mul(a, rf_inv(b))
        if a is UNDEF or b is UNDEF:
            return UNDEF
        if a == NAN or b == NAN:
            return NAN
        if isinstance(b, tuple) and b[0] == "inf" and isinstance(a, RF):
            return rf_const(0)
        if isinstance(a, tuple) and a[0] == "inf" and isinstance(b, RF) and b.isconst():
            c = b.cval()
            return a if c >= 0 else ("inf", -a[1])
        if isinstance(a, tuple) and a[0] == "inf" and isinstance(b, tuple) and b[0] == "inf":
            return NAN
        return self.l_opq("fdiv", a, b)

    def l_neg(self, a):
        if isinstance(a, RF):
            return rf_neg(a)
        if isinstance(a, tuple) and a[0] == "inf":
            return ("inf", -a[1])
        if isinstance(a, tuple) and a[0] == "bits":
            return ("bits", a[1][:31] + (self.B.NOT(a[1][31]),))
        return a

    # -------- float <-> bits
    def leaf_bits(self, l, w=32):
        """-> tuple of bits"""
        if isinstance(l, RF):
            if l.isconst():
                u = f32_bits(l.cval()) if w == 32 else f64_bits(l.cval())
                return tuple((u >> i) & 1 for i in range(w))
            k = (l.key(), w)
            b = self.rfbits.get(k)
            if b is None:
                # magnitude bits are shared between r and -r
                k2 = (rf_neg(l).key(), w)
                o = self.rfbits.get(k2)
                if o is not None:
                    mg = o[:w - 1]
                else:
                    mg = tuple(self.B.new_var("mag%d" % i) for i in range(w - 1))
                neg, z = self.rf_sign(l)
                b = mg + (neg,)
                self.rfbits[k] = b
            return b
        if l is UNDEF:
            return tuple(0 for _ in range(w))
        if l == NAN:
            u = 0x7FC00000 if w == 32 else 0x7FF8 << 48
        elif l[0] == "inf":
            u = (0x7F800000 if w == 32 else 0x7FF << 52) | ((1 << (w - 1)) if l[1] < 0 else 0)
        else:
            return l[1]
        return tuple((u >> i) & 1 for i in range(w))

    def fv_bits(self, f, w=32):
        B = self.B
        if len(f.it) == 1:
            bits = self.leaf_bits(f.it[0][1], w)
        else:
            acc = [0] * w
            for g, l in f.it:
                lb = self.leaf_bits(l, w)
                for i in range(w):
                    if lb[i]:
                        acc[i] = B.OR(acc[i], B.AND(g, lb[i]))
            bits = tuple(acc)
        if any(x > 1 for x in bits[:w - 1]):
            self.mag.setdefault(bits[:w - 1], f)
        return self.mkint(bits)

    def bits_fv(self, v, w=32):
        B = self.B
        if isinstance(v, int):
            if w == 32:
                return self.fleaf(bits_f32(v))
            d = struct.unpack("<d", struct.pack("<Q", v))[0]
            if d != d:
                return self.fleaf(NAN)
            if d in (math.inf, -math.inf):
                return self.fleaf(PINF if d > 0 else NINF)
            return self.fconst(Fraction(d))
        b = v.b
        src = self.mag.get(b[:w - 1])
        if src is not None:
            s = b[w - 1]
            out = []
            for g, l in src.it:
                if isinstance(l, RF):
                    neg, z = self.rf_sign(l)
                elif l is UNDEF or l == NAN:
                    out.append((g, l))
                    continue
                elif l[0] == "inf":
                    neg = 1 if l[1] < 0 else 0
                else:
                    neg = l[1][w - 1]
                same = B.NOT(B.XOR(s, neg))
                out.append((B.AND(g, same), l))
                out.append((B.AND(g, B.NOT(same)), self.l_neg(l)))
            return self.fdedupe(out)
        return self.fleaf(("bits", b))

    # ------------------------------------------------------------ integers
    def mkint(self, bits):
        u = 0
        for i, x in enumerate(bits):
            if x > 1:
                return BV(tuple(bits))
            if x:
                u |= 1 << i
        return u

    def tobits(self, v, w):
        if isinstance(v, BV):
            return v.b if len(v.b) == w else tuple(v.b[:w]) + (0,) * (w - len(v.b))
        if v is UNDEF:
            return (0,) * w
        if isinstance(v, PI):
            raise AnalysisError("pointer used as integer")
        return tuple((v >> i) & 1 for i in range(w))

    def bit(self, v):
        if isinstance(v, BV):
            return v.b[0]
        if v is UNDEF:
            return 0
        return v & 1

    def add_bits(self, a, b, cin=0):
        B = self.B
        out, c, cp = [], cin, cin
        for x, y in zip(a, b):
            s = B.XOR(x, y)
            out.append(B.XOR(s, c))
            cp = c
            c = B.OR(B.AND(x, y), B.AND(c, s)) if c else B.AND(x, y)
        return out, c, cp   # sum, carry out, carry into msb

    def ult_bits(self, a, b):
        B = self.B
        lt = 0
        for x, y in zip(a, b):     # lsb to msb
            e = B.NOT(B.XOR(x, y))
            lt = B.ite(e, lt, B.AND(B.NOT(x), y))
        return lt

    def eq_bits(self, a, b):
        B = self.B
        e = 1
        for x, y in zip(a, b):
            e = B.AND(e, B.NOT(B.XOR(x, y)))
            if e == 0:
                return 0
        return e

    def enum_int(self, v, pc, limit=300):
        """-> list of (guard, const)"""
        if isinstance(v, int):
            return [(1, v)]
        B = self.B
        out = []
        todo = [(pc, 0, 0)]
        bits = v.b
        while todo:
            g, i, val = todo.pop()
            if i == len(bits):
                out.append((g, val))
                if len(out) > limit:
                    return None
                continue
            g1 = B.AND(g, bits[i])
            g0 = B.AND(g, B.NOT(bits[i]))
            if g1:
                todo.append((g1, i + 1, val | (1 << i)))
            if g0:
                todo.append((g0, i + 1, val))
        return out

    def from_enum(self, items, w):
        if len(items) == 1:
            return items[0][1]
        B = self.B
        bits = []
        for i in range(w):
            x = 0
            for g, c in items:
                if (c >> i) & 1:
                    x = B.OR(x, g)
            bits.append(x)
        return self.mkint(bits)

    def int_binop(self, op, a, b, w, flags, I, pc):
        M = (1 << w) - 1
        if a is UNDEF or b is UNDEF:
            return UNDEF
        if isinstance(a, PI) or isinstance(b, PI):
            return self.pi_op(op, a, b, w, I, pc)
        if isinstance(a, int) and isinstance(b, int):
            sa = a - (1 << w) if a >> (w - 1) else a
            sb = b - (1 << w) if b >> (w - 1) else b
            if op == "add":
                r = sa + sb
                if "nsw" in flags and not (-(1 << (w - 1)) <= r < (1 << (w - 1))):
                    self.report("ub", I, "signed overflow in addition", pc)
                return (a + b) & M
            if op == "sub":
                r = sa - sb
                if "nsw" in flags and not (-(1 << (w - 1)) <= r < (1 << (w - 1))):
                    self.report("ub", I, "signed overflow in subtraction", pc)
                return (a - b) & M
            if op == "mul":
                r = sa * sb
                if "nsw" in flags and not (-(1 << (w - 1)) <= r < (1 << (w - 1))):
                    self.report("ub", I, "signed overflow in multiplication", pc)
                return (a * b) & M
            if op in ("udiv", "urem", "sdiv", "srem"):
                if b == 0:
                    self.report("ub", I, "integer division by zero", pc)
                    return UNDEF
                if op == "udiv":
                    return a // b
                if op == "urem":
                    return a % b
                q = abs(sa) // abs(sb)
                if (sa < 0) != (sb < 0):
                    q = -q
                return (q if op == "sdiv" else sa - q * sb) & M
            if op in ("shl", "lshr", "ashr"):
                if b >= w:
                    self.report("ub", I, "shift by %d >= width %d" % (b, w), pc)
                    return UNDEF
                if op == "shl":
                    return (a << b) & M
                if op == "lshr":
                    return a >> b
                return (sa >> b) & M
            return {"and": a & b, "or": a | b, "xor": a ^ b}[op]
        B = self.B
        if op in ("and", "or", "xor"):
            x, y = self.tobits(a, w), self.tobits(b, w)
            f = {"and": B.AND, "or": B.OR, "xor": B.XOR}[op]
            return self.mkint([f(p, q) for p, q in zip(x, y)])
        if op in ("add", "sub"):
            x, y = self.tobits(a, w), self.tobits(b, w)
            if op == "sub":
                y = [B.NOT(q) for q in y]
            s, c, cp = self.add_bits(x, y, 1 if op == "sub" else 0)
            if "nsw" in flags:
                ov = B.AND(pc, B.XOR(c, cp))
                if ov and self.feasible(ov):
                    self.report("ub", I, "signed overflow in %s" % op, ov)
            return self.mkint(s)
        if op in ("shl", "lshr", "ashr"):
            if isinstance(b, int):
                if b >= w:
                    self.report("ub", I, "shift by %d >= width %d" % (b, w), pc)
                    return UNDEF
                x = self.tobits(a, w)
                if op == "shl":
                    r = (0,) * b + x[:w - b]
                elif op == "lshr":
                    r = x[b:] + (0,) * b
                else:
                    r = x[b:] + (x[-1],) * b
                return self.mkint(r)
            x = list(self.tobits(a, w))
            y = b.b
            lg = (w - 1).bit_length()
            big = 0
            for q in y[lg:]:
                big = B.OR(big, q)
            big = B.AND(big, pc)
            if big and self.feasible(big):
                self.report("ub", I, "shift amount out of range", big)
            fill = x[-1] if op == "ashr" else 0
            for k in range(lg):
                sh = 1 << k
                if op == "shl":
                    z = [0] * min(sh, w) + x[:max(0, w - sh)]
                else:
                    z = x[sh:] + [fill] * min(sh, w)
                x = [B.ite(y[k], p, q) for p, q in zip(z, x)]
            return self.mkint(x)
        if op == "mul":
            for p, q in ((a, b), (b, a)):
                if isinstance(q, int):
                    x = self.tobits(p, w)
                    if q == 0:
                        return 0
                    if bin(q).count("1") <= 3 and "nsw" not in flags:
                        acc = None
                        for k in range(w):
                            if (q >> k) & 1:
                                t = (0,) * k + tuple(x[:w - k])
                                acc = t if acc is None else self.add_bits(acc, t)[0]
                        return self.mkint(acc)
        if op in ("udiv", "urem") and isinstance(b, int) and b and b & (b - 1) == 0:
            k = b.bit_length() - 1
            x = self.tobits(a, w)
            return self.mkint(x[k:] + (0,) * k) if op == "udiv" else self.mkint(x[:k] + (0,) * (w - k))
        if op in ("sdiv", "srem") and isinstance(b, int) and 0 < b < (1 << (w - 1)) and b & (b - 1) == 0:
            k = b.bit_length() - 1
            x = self.tobits(a, w)
            y = self.add_bits(x, (x[-1],) * k + (0,) * (w - k))[0]      # round towards zero
            q = tuple(y[k:]) + (y[-1],) * k
            if op == "sdiv":
                return self.mkint(q)
            sh = (0,) * k + q[:w - k]
            return self.mkint(self.add_bits(x, [B.NOT(t) for t in sh], 1)[0])
        r = self.table_op(op, a, b, w, flags, I, pc)
        if r is not None:
            return r
        if op == "mul" and (isinstance(a, int) or isinstance(b, int)):
            c, v = (a, b) if isinstance(a, int) else (b, a)
            n = w
            x = self.tobits(v, w)
            if "nsw" in flags:        # double width, signed
                n = 2 * w
                x = x + (x[-1],) * w
                if c >> (w - 1):
                    c -= 1 << w
            acc = (0,) * n
            for k in range(n):
                if (c >> k) & 1 and not (c < 0 and k == n - 1):
                    acc = self.add_bits(acc, (0,) * k + tuple(x[:n - k]))[0]
                elif c < 0 and k == n - 1:
                    acc = self.add_bits(acc, [B.NOT(t) for t in (0,) * k + tuple(x[:n - k])], 1)[0]
            acc = tuple(acc)
            if n > w:
                ov = 0
                for t in acc[w:]:
                    ov = B.OR(ov, B.XOR(t, acc[w - 1]))
                ov = B.AND(ov, pc)
                if ov and self.feasible(ov):
                    self.report("ub", I, "signed overflow in mul", ov)
            return self.mkint(acc[:w])
        ea, eb = self.enum_int(a, pc, 64), self.enum_int(b, pc, 64)
        if ea and eb and len(ea) * len(eb) <= 400:
            out = []
            for g1, c1 in ea:
                for g2, c2 in eb:
                    g = B.AND(B.AND(g1, g2), pc)
                    if g:
                        r = self.int_binop(op, c1, c2, w, flags, I, g)
                        if r is UNDEF:
                            r = 0
                        out.append((g, r))
            return self.from_enum(out, w) if out else 0
        return self.opaque_int(op, (a, b), w)

    def bits_table(self, bits, vs):
        """truth table of a bit vector over the ordered variables vs (first = most significant index bit)"""
        B = self.B
        n = 1 << len(vs)
        out = [0] * n
        for k, f in enumerate(bits):
            if f == 0:
                continue
            if f == 1:
                m = 1 << k
                for i in range(n):
                    out[i] |= m
                continue
            m = 1 << k
            level = [f]
            for v in vs:
                nl = []
                for g in level:
                    if B.var[g] == v:
                        nl.append(B.lo[g])
                        nl.append(B.hi[g])
                    else:
                        nl.append(g)
                        nl.append(g)
                level = nl
            for i, g in enumerate(level):
                if g:
                    out[i] |= m
        return out

    def table_bits(self, vals, vs, w):
        B = self.B
        res = []
        for k in range(w):
            level = [(v >> k) & 1 for v in vals]
            for v in reversed(vs):
                level = [B.mk(v, level[2 * i], level[2 * i + 1]) for i in range(len(level) // 2)]
            res.append(level[0])
        return res

    def table_op(self, op, a, b, w, flags, I, pc, limit=11):
        """exact result of mul/div/rem over few decision variables"""
        B = self.B
        sup = set()
        for v in (a, b):
            if isinstance(v, BV):
                for f in v.b:
                    if f > 1:
                        sup |= B.support(f)
                        if len(sup) > limit:
                            return None
        vs = sorted(sup)
        x, y = self.bits_table(self.tobits(a, w), vs), self.bits_table(self.tobits(b, w), vs)
        M, H = (1 << w) - 1, 1 << (w - 1)
        out, bad, zero = [], [], []
        for p, q in zip(x, y):
            sp, sq = p - (1 << w) if p & H else p, q - (1 << w) if q & H else q
            ov = z = 0
            if op == "mul":
                r = sp * sq
                ov = int(not -H <= r < H)
            elif q == 0:
                r, z = 0, 1
            elif op == "udiv":
                r = p // q
            elif op == "urem":
                r = p % q
            else:
                t = abs(sp) // abs(sq)
                if (sp < 0) != (sq < 0):
                    t = -t
                r = t if op == "sdiv" else sp - t * sq
            out.append(r & M)
            bad.append(ov)
            zero.append(z)
        if "nsw" in flags and any(bad):
            g = B.AND(pc, self.table_bits(bad, vs, 1)[0])
            if g and self.feasible(g):
                self.report("ub", I, "signed overflow in %s" % op, g)
        if any(zero):
            g = B.AND(pc, self.table_bits(zero, vs, 1)[0])
            if g and self.feasible(g):
                self.report("ub", I, "integer division by zero", g)
        return self.mkint(self.table_bits(out, vs, w))

    def vkey(self, v):
        if isinstance(v, BV):
            return ("bv",) + v.b
        if isinstance(v, FV):
            return ("fv",) + tuple((g, l.key() if isinstance(l, RF) else l) for g, l in v.it)
        if isinstance(v, PV):
            return ("pv",) + v.it
        return v

    def opaque_int(self, op, args, w):
        key = (op, w) + tuple(self.vkey(x) for x in args)
        r = self.opq.get(key)
        if r is None:
            r = BV(tuple(self.B.new_var("%s_%d" % (op, i)) for i in range(w)))
            self.opq[key] = r
        return r

    def pi_op(self, op, a, b, w, I, pc):
        if isinstance(a, PI) and isinstance(b, PI) and op == "sub":
            out = []
            for g1, (r1, o1) in a.p.it:
                for g2, (r2, o2) in b.p.it:
                    g = self.B.AND(g1, g2)
                    if not self.B.AND(g, pc):
                        continue
                    if r1 != r2:
                        raise AnalysisError("subtraction of pointers to different regions at " + self.where(I))
                    out.append((g, (o1 - o2) & ((1 << w) - 1)))
            return self.from_enum(out, w)
        p, k = (a, b) if isinstance(a, PI) else (b, a)
        if isinstance(k, int):
            sk = k - (1 << w) if k >> (w - 1) else k
            if op == "add" or (op == "sub" and p is a):
                if op == "sub":
                    sk = -sk
                return PI(PV(tuple((g, (r, o + sk)) for g, (r, o) in p.p.it)))
            if op == "and":
                # low bits of aligned regions / functions
                if k < 16:
                    return self.from_enum([(g, (o & k)) for g, (r, o) in p.p.it], w)
        raise AnalysisError("unsupported pointer-integer arithmetic %s at %s" % (op, self.where(I)))

    def icmp(self, pred, a, b, t, I, pc):
        B = self.B
        if a is UNDEF or b is UNDEF:
            self.report("uninit", I, "comparison of an uninitialised value", pc)
            return 0
        if isinstance(a, PI):
            a = a.p
        if isinstance(b, PI):
            b = b.p
        if isinstance(a, PV) or isinstance(b, PV):
            if isinstance(a, int):
                a = PV(((1, (0, a)),))
            if isinstance(b, int):
                b = PV(((1, (0, b)),))
            r = 0
            for g1, (r1, o1) in a.it:
                for g2, (r2, o2) in b.it:
                    g = B.AND(g1, g2)
                    if not g:
                        continue
                    same = r1 == r2
                    if pred == "eq":
                        v = same and o1 == o2
                    elif pred == "ne":
                        v = not (same and o1 == o2)
                    else:
                        if not same:
                            if B.AND(g, pc) and 0 not in (r1, r2):
                                self.report("ub", I, "relational comparison of pointers to different objects", g)
                            x, y = (0 if r1 == 0 else 1), (0 if r2 == 0 else 1)
                            if x == y:
                                x, y = r1, r2
                        else:
                            x, y = o1, o2
                        v = {"ugt": x > y, "uge": x >= y, "ult": x < y, "ule": x <= y, "sgt": x > y, "sge": x >= y,
                             "slt": x < y, "sle": x <= y}[pred]
                    if v:
                        r = B.OR(r, g)
            return self.mkint((r,))
        w = t.n
        if isinstance(a, int) and isinstance(b, int):
            if pred[0] == "s":
                a = a - (1 << w) if a >> (w - 1) else a
                b = b - (1 << w) if b >> (w - 1) else b
            p = pred.lstrip("us") if pred not in ("eq", "ne") else pred
            return int({"eq": a == b, "ne": a != b, "gt": a > b, "ge": a >= b, "lt": a < b, "le": a <= b}[p])
        x, y = self.tobits(a, w), self.tobits(b, w)
        if pred == "eq":
            return self.mkint((self.eq_bits(x, y),))
        if pred == "ne":
            return self.mkint((B.NOT(self.eq_bits(x, y)),))
        if pred[0] == "s":
            x = x[:-1] + (B.NOT(x[-1]),)
            y = y[:-1] + (B.NOT(y[-1]),)
        p = pred[1:]
        if p == "lt":
            r = self.ult_bits(x, y)
        elif p == "gt":
            r = self.ult_bits(y, x)
        elif p == "le":
            r = B.NOT(self.ult_bits(y, x))
        else:
            r = B.NOT(self.ult_bits(x, y))
        return self.mkint((r,))

    # ------------------------------------------------------------ float compare
    def leaf_cmp(self, a, b):
        """-> (lt, eq, unordered) guards"""
        B = self.B
        if a is UNDEF or b is UNDEF:
            return None
        if a == NAN or b == NAN:
            return 0, 0, 1
        # a real-valued leaf stands for a finite value: it lies strictly inside the extreme finite floats
        if isinstance(a, RF) and isinstance(b, RF):
            ca, cb = a.isconst(), b.isconst()
            if cb and not ca and abs(b.cval()) >= FMAX:
                return int(b.cval() > 0), 0, 0
            if ca and not cb and abs(a.cval()) >= FMAX:
                return int(a.cval() < 0), 0, 0
        if isinstance(a, RF) and isinstance(b, RF):
            n = p_add(p_mul(a.n, b.d), p_mul(b.n, a.d), -1)
            if p_isconst(a.d) and p_isconst(b.d):
                lt, eq = self.poly_sign(n)
            else:
                lt, eq = self.rf_sign(rf_norm(n, p_mul(a.d, b.d)))
            return lt, eq, 0
        ba = isinstance(a, tuple) and a[0] == "bits"
        bb = isinstance(b, tuple) and b[0] == "bits"
        if not ba and not bb:
            ia = a[1] if isinstance(a, tuple) else 0
            ib = b[1] if isinstance(b, tuple) else 0
            return int(ia < ib), int(ia == ib), 0
        x, y = self.leaf_bits(a), self.leaf_bits(b)
        nx, ny = self.bits_isnan(x), self.bits_isnan(y)
        un = B.OR(nx, ny)
        zx = self.eq_bits(x[:31], (0,) * 31)
        zy = self.eq_bits(y[:31], (0,) * 31)
        eq = B.OR(self.eq_bits(x, y), B.AND(zx, zy))
        eq = B.AND(eq, B.NOT(un))
        # sign-magnitude order
        mlt = self.ult_bits(x[:31], y[:31])
        mgt = self.ult_bits(y[:31], x[:31])
        sx, sy = x[31], y[31]
        lt = B.ite(sx, B.ite(sy, mgt, 1), B.ite(sy, 0, mlt))
        lt = B.AND(B.AND(lt, B.NOT(eq)), B.NOT(un))
        return lt, eq, un

    def bits_isnan(self, x):
        B = self.B
        e = 1
        for q in x[23:31]:
            e = B.AND(e, q)
        m = 0
        for q in x[:23]:
            m = B.OR(m, q)
        return B.AND(e, m)

    def fcmp(self, pred, a, b, I, pc):
        B = self.B
        r = 0
        for g1, l1 in a.it:
            for g2, l2 in b.it:
                g = B.AND(g1, g2)
                if not B.AND(g, pc):
                    continue
                t = self.leaf_cmp(l1, l2)
                if t is None:
                    gg = B.AND(g, pc)
                    if self.feasible(gg):
                        self.report("uninit", I, "comparison of an uninitialised float", gg)
                    continue
                lt, eq, un = t
                p = pred
                if p == "true":
                    v = 1
                elif p == "false":
                    v = 0
                elif p == "ord":
                    v = B.NOT(un)
                elif p == "uno":
                    v = un
                else:
                    q = p[1:]
                    gt = B.AND(B.NOT(B.OR(lt, eq)), B.NOT(un))
                    v = {"eq": eq, "ne": B.OR(lt, gt), "lt": lt, "le": B.OR(lt, eq), "gt": gt, "ge": B.OR(gt, eq)}[q]
                    if p[0] == "u":
                        v = B.OR(v, un)
                r = B.OR(r, B.AND(g, v))
        return self.mkint((r,))

    # ------------------------------------------------------------ merging
    def merge(self, g1, v1, g2, v2, t=None):
        """value equal to v1 under g1, v2 under g2 (disjoint)"""
        if v1 is v2:
            return v1
        if v1 is UNDEF and not isinstance(v2, FV):
            return v2
        if v2 is UNDEF and not isinstance(v1, FV):
            return v1
        B = self.B
        if isinstance(v1, FV) or isinstance(v2, FV):
            if v1 is UNDEF:
                v1 = self.fleaf(UNDEF)
            if v2 is UNDEF:
                v2 = self.fleaf(UNDEF)
            if not (isinstance(v1, FV) and isinstance(v2, FV)):
                # float vs raw integer bits of the same cell
                if isinstance(v1, FV):
                    v2 = self.bits_fv(v2)
                else:
                    v1 = self.bits_fv(v1)
            if len(v1.it) == 1 and len(v2.it) == 1 and isinstance(v1.it[0][1], RF) and isinstance(v2.it[0][1], RF) \
                    and v1.it[0][1].key() == v2.it[0][1].key():
                return v1
            return self.fdedupe([(B.AND(g1, g), l) for g, l in v1.it] + [(B.AND(g2, g), l) for g, l in v2.it])
        if isinstance(v1, PI) or isinstance(v2, PI):
            p1 = v1.p if isinstance(v1, PI) else PV(((1, (0, v1)),))
            p2 = v2.p if isinstance(v2, PI) else PV(((1, (0, v2)),))
            return PI(self.merge(g1, p1, g2, p2))
        if isinstance(v1, PV) or isinstance(v2, PV):
            if isinstance(v1, int):
                v1 = PV(((1, (0, v1)),))
            if isinstance(v2, int):
                v2 = PV(((1, (0, v2)),))
            d = {}
            for g, l in [(B.AND(g1, g), l) for g, l in v1.it] + [(B.AND(g2, g), l) for g, l in v2.it]:
                if g:
                    d[l] = B.OR(d.get(l, 0), g)
            if len(d) == 1:
                return PV(((1, next(iter(d))),))
            return PV(tuple((g, l) for l, g in d.items()))
        if isinstance(v1, Agg):
            return Agg([self.merge(g1, x, g2, y) for x, y in zip(v1.v, v2.v)])
        if isinstance(v1, int) and isinstance(v2, int) and v1 == v2:
            return v1
        w = len(v1.b) if isinstance(v1, BV) else len(v2.b) if isinstance(v2, BV) else max(v1.bit_length(),
                                                                                      v2.bit_length(), 1)
        if not isinstance(v1, BV) and not isinstance(v2, BV):
            w = t or 64
        elif isinstance(v1, BV) and isinstance(v2, BV):
            w = max(len(v1.b), len(v2.b))
        x, y = self.tobits(v1, w), self.tobits(v2, w)
        # outside g1 or g2 the value is never used, so the second alternative may stand there
        return self.mkint([p if p == q else (B.OR(B.AND(g1, p), B.AND(g2, q)) if p < 2 and q < 2 else B.ite(g1, p, q))
                           for p, q in zip(x, y)])

    def merge_mem(self, g1, m1, g2, m2):
        if m1 is m2:
            return m1
        out = Mem(self.g0)
        for rid in m1.r.keys() | m2.r.keys():
            a, b = m1.get(rid), m2.get(rid)
            if a is b or b is None:
                out.r[rid] = a
            elif a is None:
                out.r[rid] = b
            else:
                keys = a.keys() | b.keys()
                diff = [o for o in keys if a.get(o) is not b.get(o)]
                if not diff:
                    out.r[rid] = a
                    continue
                res = dict(a)
                conf = self._conflicts(a, b, diff)
                if conf:
                    a, b = self._explode(a, conf), self._explode(b, conf)
                    keys = a.keys() | b.keys()
                    diff = [o for o in keys if a.get(o) is not b.get(o) and a.get(o) != b.get(o)]
                    res = dict(a)
                for o in diff:
                    ca, cb = a.get(o), b.get(o)
                    if ca is None:
                        res[o] = (cb[0], self.merge(g1, UNDEF, g2, cb[1], cb[0] * 8))
                    elif cb is None:
                        res[o] = (ca[0], self.merge(g1, ca[1], g2, UNDEF, ca[0] * 8))
                    else:
                        v = self.merge(g1, ca[1], g2, cb[1], ca[0] * 8)
                        res[o] = ca if v is ca[1] else (ca[0], v)
                out.r[rid] = res
        return out

    def _conflicts(self, a, b, diff):
        """byte ranges where the two cell layouts disagree"""
        iv = []
        for o in diff:
            for x in (a, b):
                if o in x:
                    iv.append((o, o + x[o][0]))
        iv.sort()
        comp = []
        for lo, hi in iv:
            if comp and lo < comp[-1][1]:
                comp[-1][1] = max(comp[-1][1], hi)
            else:
                comp.append([lo, hi])
        out = []
        for lo, hi in comp:
            la = {(o, a[o][0]) for o in range(lo - 15, hi) if o in a and o + a[o][0] > lo}
            lb = {(o, b[o][0]) for o in range(lo - 15, hi) if o in b and o + b[o][0] > lo}
            if la and lb and la != lb:
                # one side a refinement by absence only is not a conflict
                if all((o, n) in lb or all(o + n <= p or p + q <= o for p, q in lb) for o, n in la) and \
                        all((o, n) in la or all(o + n <= p or p + q <= o for p, q in la) for o, n in lb):
                    continue
                out.append((lo, hi))
        return out

    def _explode(self, cells, ranges):
        out = {}
        for o, c in cells.items():
            s, v = c
            if isinstance(v, (PV, PI)) or not any(o < hi and lo < o + s for lo, hi in ranges):
                out[o] = c
                continue
            if v is UNDEF:
                continue
            w = self.val_bits(v, s * 8)
            for k in range(s):
                out[o + k] = (1, self.mkint(w[k * 8:k * 8 + 8]))
        return out

    def val_bits(self, v, w):
        if isinstance(v, FV):
            r = self.fv_bits(v, w)
            return self.tobits(r, w)
        if isinstance(v, BV):
            return v.b + (0,) * (w - len(v.b))
        return self.tobits(v, w)

    # ------------------------------------------------------------ memory access
    def new_region(self, mem, size, name, kind):
        self.nreg += 1
        r = Region(self.nreg, size, name, kind)
        self.regions[r.id] = r
        mem.r[r.id] = {}
        mem.own.add(r.id)
        return r.id

    def check_access(self, leaf, size, I, g, pc, what):
        rid, off = leaf
        self.accesses += 1
        gg = self.B.AND(g, pc)
        if gg == 0:
            return False
        bad = None
        if rid == 0:
            bad = "%s through a null pointer" % what
        elif isinstance(rid, str):
            bad = "%s through a function pointer" % what
        else:
            R = self.regions[rid]
            if rid in self.dead:
                bad = "%s of %s after its lifetime ended" % (what, R.name)
            elif off < 0 or off + size > R.size:
                bad = "%s of %d bytes at offset %d of '%s' (%d bytes)" % (what, size, off, R.name, R.size)
            elif what == "write" and R.kind == "const":
                bad = "write to constant '%s'" % R.name
        if bad:
            if self.feasible(gg):
                self.report("memory", I, bad, gg)
            return False
        return True

    def load(self, mem, ptr, t, I, pc):
        if isinstance(ptr, PI):
            ptr = ptr.p
        if ptr is UNDEF:
            self.report("uninit", I, "load through an uninitialised pointer", pc)
            return self.undef_of(t)
        if t.k in ("struct", "arr", "vec"):
            out = []
            if t.k == "struct":
                for i, f in enumerate(t.fields):
                    out.append(self.load(mem, self.padd(ptr, field_offset(t, i)), f, I, pc))
            else:
                es = size_of(t.el)
                for i in range(t.n):
                    out.append(self.load(mem, self.padd(ptr, i * es), t.el, I, pc))
            return Agg(out)
        size = size_of(t)
        res, rg = None, 0
        multi = len(ptr.it) > 1
        for g, leaf in ptr.it:
            if not self.check_access(leaf, size, I, g, pc, "read"):
                continue
            if t.k in ("float", "double") and self.holds_pointer(mem, leaf, size):
                gg = self.B.AND(g, pc)
                if self.feasible(gg):
                    self.report("memory", I, "the bytes of a pointer read as a %s at offset %d of '%s'"
                                % (t.k, leaf[1], self.regions[leaf[0]].name), gg)
                continue
            v = self.load1(mem, leaf, size, t)
            if res is None:
                res, rg = v, g
            else:
                res = self.merge(rg, res, g, v, t.n if t.k == "int" else None)
                rg = self.B.OR(rg, g)
        if res is None:
            return self.undef_of(t)
        return res

    def holds_pointer(self, mem, leaf, size):
        cells = mem.get(leaf[0])
        if not cells:
            return False
        for o in range(leaf[1] - 7, leaf[1] + size):
            c = cells.get(o)
            if c is not None and o + c[0] > leaf[1] and isinstance(c[1], (PV, PI)):
                return True
        return False

    def undef_of(self, t):
        if t.k in ("float", "double"):
            return self.fleaf(UNDEF)
        return UNDEF

    def load1(self, mem, leaf, size, t):
        rid, off = leaf
        cells = mem.get(rid)
        if cells is None:
            cells = {}
        c = cells.get(off)
        if c is not None and c[0] == size:
            return self.coerce(c[1], t, size)
        # assemble from bytes
        bits, any_def = [], False
        k = 0
        while k < size:
            o = off + k
            hit = None
            for s in range(0, 16):
                cc = cells.get(o - s)
                if cc is not None and cc[0] > s:
                    hit = (o - s, cc)
                    break
            if hit is None:
                bits += [0] * 8
                k += 1
                continue
            any_def = True
            base, (cs, v) = hit
            if isinstance(v, (PV, PI)):
                raise AnalysisError("partial read of a pointer")
            vb = self.val_bits(v, cs * 8)
            a = o - base
            n = min(cs - a, size - k)
            bits += list(vb[a * 8:(a + n) * 8])
            k += n
        if not any_def:
            return self.undef_of(t)
        return self.coerce(self.mkint(bits), t, size)

    def coerce(self, v, t, size):
        if v is UNDEF:
            return self.undef_of(t)
        if t.k in ("float", "double"):
            if isinstance(v, FV):
                return v
            if isinstance(v, (PV, PI)):
                raise AnalysisError("pointer read as float")
            return self.bits_fv(v, size * 8)
        if t.k == "ptr":
            if isinstance(v, PI):
                return v.p
            if isinstance(v, int):
                return PV(((1, (0, v)),))
            return v
        if t.k == "int":
            if isinstance(v, FV):
                v = self.fv_bits(v, size * 8)
            if isinstance(v, PV):
                return PI(v)
            if isinstance(v, PI):
                return v
            if isinstance(v, int):
                return v & ((1 << t.n) - 1)
            if len(v.b) > t.n:
                return self.mkint(v.b[:t.n])
            if len(v.b) < t.n:
                return self.mkint(v.b + (0,) * (t.n - len(v.b)))
            return v
        return v

    def store(self, mem, ptr, v, t, I, pc):
        if isinstance(ptr, PI):
            ptr = ptr.p
        if ptr is UNDEF:
            self.report("uninit", I, "store through an uninitialised pointer", pc)
            return
        if t.k in ("struct", "arr", "vec"):
            if v is UNDEF:
                return
            if t.k == "struct":
                for i, f in enumerate(t.fields):
                    self.store(mem, self.padd(ptr, field_offset(t, i)), v.v[i], f, I, pc)
            else:
                es = size_of(t.el)
                for i in range(t.n):
                    self.store(mem, self.padd(ptr, i * es), v.v[i], t.el, I, pc)
            return
        size = size_of(t)
        if t.k in ("float", "double") and v is UNDEF:
            v = self.fleaf(UNDEF)
        single = len(ptr.it) == 1
        for g, leaf in ptr.it:
            if not self.check_access(leaf, size, I, g, pc, "write"):
                continue
            if single:
                self.store1(mem, leaf, size, v)
            else:
                gg = self.B.AND(g, pc)
                old = self.load1(mem, leaf, size, t)
                ng = self.B.AND(self.B.NOT(g), pc)
                if ng == 0:
                    self.store1(mem, leaf, size, v)
                else:
                    self.store1(mem, leaf, size, self.merge(gg, v, ng, old, t.n if t.k == "int" else None))

    def store1(self, mem, leaf, size, v):
        rid, off = leaf
        cells = mem.w(rid)
        if self.effects is not None:
            self.effects.append((rid, off, size))
        c = cells.get(off)
        if c is None or c[0] != size:
            for o in range(off - 15, off + size):
                c = cells.get(o)
                if c is None or o + c[0] <= off:
                    continue
                if o >= off and o + c[0] <= off + size:
                    del cells[o]
                    continue
                if isinstance(c[1], (PV, PI)):
                    del cells[o]
                    continue
                vb = self.val_bits(c[1], c[0] * 8) if c[1] is not UNDEF else None
                del cells[o]
                for k in range(c[0]):
                    if not (off <= o + k < off + size):
                        cells[o + k] = (1, self.mkint(vb[k * 8:k * 8 + 8]) if vb is not None else UNDEF)
        cells[off] = (size, v)

    def padd(self, p, k):
        if k == 0:
            return p
        if p is UNDEF:
            return p
        return PV(tuple((g, (r, o + k)) for g, (r, o) in p.it))

    # ------------------------------------------------------------ constants / globals
    def global_ptr(self, name, mem):
        if name in self.mod.funcs:
            return PV(((1, ("@" + name, 0)),))
        rid = self.gregion.get(name)
        if rid is None:
            g = self.mod.get_global(name)
            if g["alias"]:
                return self.const(g["init"], mem)
            self.nreg += 1
            rid = self.nreg
            R = Region(rid, size_of(g["type"]), name, "const" if g["const"] else "global")
            self.regions[rid] = R
            self.gregion[name] = rid
            self.g0[rid] = {}
            m = Mem(self.g0)
            m.r[rid] = {}
            m.own.add(rid)
            if g["init"] is not None:
                self.init_const(m, rid, 0, g["type"], g["init"])
            self.g0[rid] = m.r[rid]
        return PV(((1, (rid, 0)),))

    def init_const(self, m, rid, off, t, c):
        if c.k == "zero":
            if t.k == "struct":
                for i, f in enumerate(t.fields):
                    self.init_const(m, rid, off + field_offset(t, i), f, c)
            elif t.k in ("arr", "vec"):
                for i in range(t.n):
                    self.init_const(m, rid, off + i * size_of(t.el), t.el, c)
            else:
                m.r[rid][off] = (size_of(t), self.zero(t))
        elif c.k == "agg":
            if t.k == "struct":
                for i, f in enumerate(t.fields):
                    self.init_const(m, rid, off + field_offset(t, i), f, c.v[i])
            else:
                for i in range(t.n):
                    self.init_const(m, rid, off + i * size_of(t.el), t.el, c.v[i])
        elif c.k == "str":
            for i, ch in enumerate(c.v):
                m.r[rid][off + i] = (1, ch)
        elif c.k == "undef":
            pass
        else:
            m.r[rid][off] = (size_of(t), self.const(c, m))

    def zero(self, t):
        if t.k in ("float", "double", "x86_fp80"):
            return self.fconst(0)
        if t.k == "ptr":
            return PV(((1, NULL),))
        if t.k == "int":
            return 0
        if t.k == "struct":
            return Agg([self.zero(f) for f in t.fields])
        return Agg([self.zero(t.el) for _ in range(t.n)])

    def const(self, c, mem):
        k = c.k
        if k == "int":
            return c.v
        if k == "fp":
            if c.v[0] == "num":
                return self.fconst(snap(c.v[1]))
            if c.v[0] == "nan":
                return self.fleaf(NAN)
            if c.v[0] == "inf":
                return self.fleaf(("inf", c.v[1]))
            raise AnalysisError("unsupported constant %r" % (c.v,))
        if k == "null":
            return PV(((1, NULL),))
        if k == "global":
            return self.global_ptr(c.v, mem)
        if k == "undef":
            return self.undef_of(c.t) if c.t.k not in ("struct", "arr", "vec") else \
                Agg([self.const(ir.Const("undef", None, f), mem) for f in
                     (c.t.fields if c.t.k == "struct" else [c.t.el] * c.t.n)])
        if k == "zero":
            return self.zero(c.t)
        if k == "agg":
            return Agg([self.const(x, mem) for x in c.v])
        if k == "gep":
            bt, args = c.v
            return self.gep(bt, [self.const(a, mem) for a in args], [a.t for a in args], None, 1)
        if k == "cast":
            op, v, dt = c.v
            x = self.const(v, mem)
            if op == "ptrtoint":
                return PI(x)
            if op == "inttoptr":
                return x.p if isinstance(x, PI) else PV(((1, (0, x)),))
            return x
        if k == "binop":
            return self.int_binop(c.v[0], self.const(c.v[1], mem), self.const(c.v[2], mem), c.t.n, (), None, 1)
        raise AnalysisError("const kind %s" % k)

    def gep(self, bt, args, ats, I, pc):
        p = args[0]
        if isinstance(p, PI):
            p = p.p
        if p is UNDEF:
            return UNDEF
        cur = bt
        off = 0
        sym = []      # list of (guarded ints, scale, bound)
        for n, (ix, it) in enumerate(zip(args[1:], ats[1:])):
            if ix is UNDEF:
                self.report("uninit", I, "uninitialised index", pc)
                ix = 0
            if n == 0:
                sc = size_of(bt)
                bound = None
            elif cur.k == "struct":
                off += field_offset(cur, ix)
                cur = cur.fields[ix]
                continue
            else:
                bound = cur.n
                cur = cur.el
                sc = size_of(cur)
            w = it.n
            if isinstance(ix, int):
                s = ix - (1 << w) if ix >> (w - 1) else ix
                off += s * sc
            elif isinstance(ix, PI):
                raise AnalysisError("pointer index")
            else:
                e = self.enum_int(ix, pc, 300)
                if e is None:
                    self.report("memory", I, "index not bounded by the analysis", pc)
                    e = [(1, 0)]
                sym.append([(g, ((c - (1 << w)) if c >> (w - 1) else c) * sc) for g, c in e])
        if off:
            p = self.padd(p, off)
        for s in sym:
            d = {}
            for g, (r, o) in p.it:
                for g2, k in s:
                    gg = self.B.AND(g, g2)
                    if gg and self.B.AND(gg, pc):
                        d[(r, o + k)] = self.B.OR(d.get((r, o + k), 0), gg)
            p = PV(tuple((g, l) for l, g in d.items()))
        return p

    # ------------------------------------------------------------ execution
    def init_globals(self):
        """run static initialisers of the analysed units"""
        mem = Mem(self.g0)
        if "llvm.global_ctors" in self.mod.gsrc:
            g = self.mod.get_global("llvm.global_ctors")
            if g["init"] is not None and g["init"].k == "agg":
                for e in g["init"].v:
                    fn = e.v[1].v
                    _, mem, _ = self.call(fn, [], mem, 1, None)
        return mem

    def val(self, c, env, mem):
        if c.k == "local":
            v = env.get(c.v)
            if v is None:
                return self.undef_of(c.t)
            if isinstance(v, BV) and c.t.k == "int" and len(v.b) != c.t.n:      # joined constants carry no width
                return self.mkint(tuple(v.b[:c.t.n]) + (0,) * (c.t.n - len(v.b)))
            return v
        if c.k == "int":
            return c.v
        return self.const(c, mem)

    def call(self, name, args, mem, pc, I):
        """-> (ret, mem, pc)"""
        prim = self.prims.get(name)
        if prim is not None:
            r = prim(self, args, mem, pc, I)
            if r is not NotImplemented:
                return r
        F = self.mod.funcs.get(name)
        if F is None or F.is_decl:
            h = self.ext.get(name)
            if h is None and name.startswith("llvm."):
                h = self.ext.get(".".join(name.split(".")[:2]))
            if h is None:
                raise AnalysisError("call to unmodelled external function %s at %s" % (name, self.where(I)))
            return h(self, args, mem, pc, I)
        F.parse()
        self.funcs_seen[name] = self.funcs_seen.get(name, 0) + 1
        if self.depth > 60:
            raise AnalysisError("call depth (recursion?) in %s" % name)
        self.depth += 1
        self.stack.append(I.dbg if I is not None else None)
        try:
            return self._exec(F, args, mem, pc)
        finally:
            self.depth -= 1
            self.stack.pop()

    def _exec(self, F, args, mem, pc):
        B = self.B
        env = {}
        for (nm, t, byval), v in zip(F.args, args):
            env[nm] = v
        pend = {F.entry: [(pc, env, mem, None)]}
        pc0 = pc
        rets = []
        frame = []
        visits = 0
        prio = F.prio
        while pend:
            bn = min(pend, key=prio.__getitem__)
            ents = pend.pop(bn)
            blk = F.blocks[bn]
            visits += 1
            if visits > self.max_visits:
                if len(ents) == 1 and ents[0][0] == pc0:
                    raise Nonterminating("loop does not terminate in %s" % short_name(F.name),
                                         self.where(blk.insts[-1]), [self.mod.loc(x) for x in self.stack][::-1][:8])
                for ent in ents:        # exact (bit-level) condition under which the loop is still running
                    for cube in B.cubes(ent[0]):
                        if not any(v in self.var_atom for v in cube):
                            raise Nonterminating("loop still running after %d steps in %s for some input" % (
                                visits, short_name(F.name)), self.where(blk.insts[-1]),
                                [self.mod.loc(x) for x in self.stack][::-1][:8])
                        break
                raise AnalysisError("loop not bounded by the analysis in %s (%s)" % (
                    F.name, self.where(blk.insts[-1])))
            # phis per entry
            prepared = []
            for (g, e, m, pred) in ents:
                if blk.phis:
                    vals = []
                    for P in blk.phis:
                        for c, l in P.a:
                            if l == pred:
                                vals.append((P.dst, self.val(c, e, m)))
                                break
                        else:
                            raise AnalysisError("phi without edge %s in %s" % (pred, F.name))
                    for d, v in vals:
                        e[d] = v
                prepared.append((g, e, m))
            g, env, mem = prepared[0]
            live = F.live[bn]
            for (g2, e2, m2) in prepared[1:]:
                ne = {}
                for k, v in env.items():
                    if k not in live:
                        continue
                    w = e2.get(k)
                    if w is None or w is v:
                        ne[k] = v
                    else:
                        ne[k] = self.merge(g, v, g2, w)
                for k, v in e2.items():
                    if k not in env and k in live:
                        ne[k] = v
                env = ne
                mem = self.merge_mem(g, mem, g2, m2)
                g = B.OR(g, g2)
            pc = g
            for I in blk.insts:
                op = I.op
                self.steps += 1
                if op == "br":
                    if len(I.x) == 1:
                        pend.setdefault(I.x[0], []).append((pc, env, mem, bn))
                        break
                    cv = self.val(I.a[0], env, mem)
                    if cv is UNDEF:
                        self.report("uninit", I, "branch on an uninitialised value", pc)
                        cv = 0
                    self.branch(pend, [(self.bit(cv), I.x[0]), (None, I.x[1])], pc, env, mem, bn, I)
                    break
                elif op == "switch":
                    v = self.val(I.a[0], env, mem)
                    if v is UNDEF:
                        self.report("uninit", I, "switch on an uninitialised value", pc)
                        v = 0
                    w = I.t.n
                    alts, rest = [], 1
                    for k, lab in I.x[1]:
                        c = self.eq_bits(self.tobits(v, w), self.tobits(k, w)) if not isinstance(v, int) else int(v == k)
                        alts.append((c, lab))
                    alts.append((None, I.x[0]))
                    self.branch(pend, alts, pc, env, mem, bn, I)
                    break
                elif op == "ret":
                    rets.append((pc, self.val(I.a[0], env, mem) if I.a else None, mem,
                                 F.ret.n if F.ret.k == "int" else None))
                    break
                elif op == "unreachable":
                    break
                elif op in ("call", "invoke"):
                    cal = I.x
                    if cal.k == "global":
                        targets = [(1, cal.v)]
                    elif cal.k == "undef":
                        continue
                    else:
                        pv = self.val(cal, env, mem)
                        if isinstance(pv, PI):
                            pv = pv.p
                        targets = []
                        if pv is UNDEF:
                            self.report("memory", I, "call through an uninitialised function pointer", pc)
                        else:
                            for g, (r, o) in pv.it:
                                gg = B.AND(g, pc)
                                if gg == 0:
                                    continue
                                if not isinstance(r, str):
                                    if self.feasible(gg):
                                        self.report("memory", I, "call through an invalid function pointer", gg)
                                    continue
                                targets.append((g, r[1:]))
                    av = [self.val(a, env, mem) for a in I.a]
                    if not targets:
                        pc = 0
                        break
                    if len(targets) == 1:
                        r, mem, pc = self.call(targets[0][1], av, mem, pc if len(targets) == 1 and targets[0][0] == 1
                                               else B.AND(pc, targets[0][0]), I)
                    else:
                        r, m0, p0 = None, None, 0
                        for g, nm in targets:
                            r1, m1, p1 = self.call(nm, av, mem.fork(), B.AND(pc, g), I)
                            if p1 == 0:
                                continue
                            if m0 is None:
                                r, m0, p0 = r1, m1, p1
                            else:
                                if r1 is not None:
                                    r = self.merge(p0, r, p1, r1, I.t.n if I.t.k == "int" else None)
                                m0 = self.merge_mem(p0, m0, p1, m1)
                                p0 = B.OR(p0, p1)
                        mem, pc = m0, p0
                    if pc == 0:
                        break
                    if I.dst:
                        env[I.dst] = r
                    if op == "invoke":
                        pend.setdefault(I.flags[0], []).append((pc, env, mem, bn))
                        break
                elif op == "alloca":
                    n = 1
                    if I.x is not None:
                        n = self.val(I.x, env, mem)
                        if not isinstance(n, int):
                            raise AnalysisError("variable-length array")
                    rid = self.new_region(mem, size_of(I.t) * n, "%s%s" % (short_name(F.name), I.dst), "stack")
                    frame.append(rid)
                    env[I.dst] = PV(((1, (rid, 0)),))
                else:
                    env[I.dst] = self.inst(I, env, mem, pc)
            else:
                raise AnalysisError("block without terminator")
        if not rets:
            return None, mem, 0
        pc, rv, mem, rw = rets[0]
        for (g2, v2, m2, w2) in rets[1:]:
            if rv is not None:
                rv = self.merge(pc, rv, g2, v2, w2)
            mem = self.merge_mem(pc, mem, g2, m2)
            pc = B.OR(pc, g2)
        for rid in frame:
            mem.r.pop(rid, None)
            self.dead.add(rid)
        return rv, mem, pc

    def branch(self, pend, alts, pc, env, mem, bn, I):
        B = self.B
        live = []
        rest = pc
        prune = self.opts.get("prune", True)
        for c, lab in alts:
            if c is not None and c > 1 and prune:
                # conditions that are contradictory (or trivially true) on their own
                if not self.feasible(c, 48):
                    c = 0
                elif not self.feasible(B.NOT(c), 48):
                    c = 1
            g = rest if c is None else B.AND(rest, c)
            if c is not None:
                rest = B.AND(rest, B.NOT(c))
            if g:
                live.append((g, lab))
        if len(live) > 1 and self.opts.get("prune", True):
            l2 = [(g, lab) for g, lab in live if self.feasible(g)]
            if len(l2) == 1:
                live = [(pc, l2[0][1])]      # the other edges are impossible: the condition adds nothing to pc
            elif l2:
                live = l2
        # same target from several cases: merge guards
        d = {}
        for g, lab in live:
            d[lab] = B.OR(d.get(lab, 0), g)
        first = True
        for lab, g in d.items():
            if first:
                pend.setdefault(lab, []).append((g, env if len(d) == 1 else dict(env), mem if len(d) == 1 else mem.fork(),
                                                 bn))
            else:
                pend.setdefault(lab, []).append((g, dict(env), mem.fork(), bn))
            first = False

    def inst(self, I, env, mem, pc):
        op = I.op
        if op == "load":
            return self.load(mem, self.val(I.a[0], env, mem), I.t, I, pc)
        if op == "store":
            self.store(mem, self.val(I.a[1], env, mem), self.val(I.a[0], env, mem), I.t, I, pc)
            return None
        if op == "getelementptr":
            return self.gep(I.t, [self.val(a, env, mem) for a in I.a], [a.t for a in I.a], I, pc)
        if op in ("fadd", "fsub", "fmul", "fdiv"):
            a, b = self.val(I.a[0], env, mem), self.val(I.a[1], env, mem)
            f = {"fadd": self.l_add, "fsub": lambda x, y: self.l_add(x, y, -1), "fmul": self.l_mul,
                 "fdiv": self.l_div}[op]
            if self.zero_at is not None and op in ("fdiv", "fmul"):
                return self.fop2z(op, a, b, f, pc)
            if op == "fdiv":
                return self.fdiv(a, b, I, pc)
            return self.fop2(a, b, f, pc)
        if op == "fneg":
            return self.fop1(self.val(I.a[0], env, mem), self.l_neg, pc)
        if op == "icmp":
            return self.icmp(I.x, self.val(I.a[0], env, mem), self.val(I.a[1], env, mem), I.t, I, pc)
        if op == "fcmp":
            return self.fcmp(I.x, self.val(I.a[0], env, mem), self.val(I.a[1], env, mem), I, pc)
        if op in ir.BIN:
            return self.int_binop(op, self.val(I.a[0], env, mem), self.val(I.a[1], env, mem), I.t.n, I.flags, I, pc)
        if op in ir.CAST:
            return self.cast(I, self.val(I.a[0], env, mem), I.a[0].t, I.t, pc)
        if op == "select":
            c = self.val(I.a[0], env, mem)
            x, y = self.val(I.a[1], env, mem), self.val(I.a[2], env, mem)
            cb = self.bit(c)
            if cb == 1:
                return x
            if cb == 0:
                return y
            return self.merge(cb, x, self.B.NOT(cb), y, I.t.n if I.t.k == "int" else None)
        if op == "phi":
            raise AnalysisError("phi")
        if op == "freeze":
            return self.val(I.a[0], env, mem)
        if op == "extractvalue":
            v = self.val(I.a[0], env, mem)
            for k in I.x:
                v = v.v[k]
            return v
        if op == "insertvalue":
            def ins(a, idx, e):
                vs = list(a.v)
                vs[idx[0]] = e if len(idx) == 1 else ins(vs[idx[0]], idx[1:], e)
                return Agg(vs)
            return ins(self.val(I.a[0], env, mem), I.x, self.val(I.a[1], env, mem))
        if op == "extractelement":
            return self.val(I.a[0], env, mem).v[self.val(I.a[1], env, mem)]
        if op == "insertelement":
            vs = list(self.val(I.a[0], env, mem).v)
            vs[self.val(I.a[2], env, mem)] = self.val(I.a[1], env, mem)
            return Agg(vs)
        raise AnalysisError("unsupported instruction %s at %s" % (op, self.where(I)))

    def fdiv(self, a, b, I, pc):
        return self.fop2(a, b, self.l_div, pc)

    def cast(self, I, v, st, dt, pc):
        op = I.op
        if v is UNDEF:
            return self.undef_of(dt)
        if op == "trunc":
            if isinstance(v, int):
                return v & ((1 << dt.n) - 1)
            if isinstance(v, PI):
                raise AnalysisError("truncated pointer")
            return self.mkint(v.b[:dt.n])
        if op == "zext":
            if isinstance(v, int):
                return v
            return self.mkint(v.b + (0,) * (dt.n - len(v.b)))
        if op == "sext":
            if isinstance(v, int):
                return (v - (1 << st.n) if v >> (st.n - 1) else v) & ((1 << dt.n) - 1)
            return self.mkint(v.b + (v.b[-1],) * (dt.n - len(v.b)))
        if op in ("fptrunc", "fpext"):
            if len(v.it) == 1 and isinstance(v.it[0][1], RF) and v.it[0][1].isconst():
                return self.fconst(snap(v.it[0][1].cval()))
            return v
        if op in ("sitofp", "uitofp"):
            def cv(c):
                if op == "sitofp" and c >> (st.n - 1):
                    c -= 1 << st.n
                return rf_const(c)
            if isinstance(v, int):
                return FV(((1, cv(v)),))
            e = self.enum_int(v, pc, 64)
            if e is not None:
                return self.fdedupe([(g, cv(c)) for g, c in e])
            key = (op, st.n) + v.b
            a = self.opq.get(key)
            if a is None:
                a = self.new_sym("%s#%d" % (op, len(self.opq)))
                self.opq[key] = a
            return self.fleaf(rf_atom(a))
        if op in ("fptosi", "fptoui"):
            out = []
            w = dt.n
            allc = True
            for g, l in v.it:
                if isinstance(l, RF) and l.isconst():
                    c = l.cval()
                    n = int(c)
                    lo, hi = (-(1 << (w - 1)), (1 << (w - 1)) - 1) if op == "fptosi" else (0, (1 << w) - 1)
                    if not lo <= n <= hi:
                        if self.feasible(self.B.AND(g, pc)):
                            self.report("ub", I, "float to integer conversion out of range", g)
                        n = lo
                    out.append((g, n & ((1 << w) - 1)))
                else:
                    allc = False
            if allc:
                return self.from_enum(out, w)
            if len(v.it) == 1:
                return self.opaque_int(op, (v,), w)
            res, rg = None, 0
            for g, l in v.it:
                if isinstance(l, RF) and l.isconst():
                    x = int(l.cval()) & ((1 << w) - 1)
                else:
                    x = self.opaque_int(op, (self.fleaf(l),), w)
                res = x if res is None else self.merge(rg, res, g, x, w)
                rg = self.B.OR(rg, g)
            return res
        if op == "ptrtoint":
            return PI(v)
        if op == "inttoptr":
            if isinstance(v, PI):
                return v.p
            if isinstance(v, int):
                return PV(((1, (0, v)),))
            raise AnalysisError("integer to pointer")
        if op == "bitcast":
            if st.k == dt.k:
                return v
            if st.k in ("float", "double"):
                return self.fv_bits(v, size_of(st) * 8)
            if dt.k in ("float", "double"):
                return self.bits_fv(v, size_of(dt) * 8)
        raise AnalysisError("cast %s" % op)

    # ------------------------------------------------------------ externals
    def cstring(self, mem, p):
        rid, off = p.it[0][1]
        out = bytearray()
        while True:
            v = self.load1(mem, (rid, off), 1, ir.IntT(8))
            if not v:
                break
            out.append(v)
            off += 1
        return out.decode()

    def install(self):
        E = self.ext

        def noop(e, a, m, pc, I):
            return None, m, pc
        for n in ("llvm.dbg", "llvm.lifetime", "llvm.assume", "llvm.stacksave", "llvm.stackrestore",
                  "_ZNSt8ios_base4InitC1Ev", "__cxa_atexit", "llvm.donothing", "llvm.experimental"):
            E[n] = noop

        def memcpy(e, a, m, pc, I):
            d, s, n = a[0], a[1], a[2]
            if not isinstance(n, int):
                en = e.enum_int(n, pc, 64)
                if en is None:
                    e.report("memory", I, "copy length not bounded", pc)
                    return None, m, pc
                raise AnalysisError("symbolic memcpy length")
            if d is UNDEF or s is UNDEF:
                e.report("uninit", I, "copy through uninitialised pointer", pc)
                return None, m, pc
            if len(s.it) == 1 and len(d.it) == 1:
                (gs, sl), (gd, dl) = s.it[0], d.it[0]
                if n and e.check_access(sl, n, I, 1, pc, "read") and e.check_access(dl, n, I, 1, pc, "write"):
                    src = dict(m.get(sl[0]) or {})
                    todo = []
                    k = 0
                    while k < n:
                        c = src.get(sl[1] + k)
                        if c is not None and k + c[0] <= n:
                            todo.append((k, c[0], c[1]))
                            k += c[0]
                        else:
                            v = e.load1(m, (sl[0], sl[1] + k), 1, ir.IntT(8))
                            todo.append((k, 1, v))
                            k += 1
                    for k, sz, v in todo:
                        e.store1(m, (dl[0], dl[1] + k), sz, v)
                        if v is UNDEF and sz == 1:
                            m.w(dl[0]).pop(dl[1] + k, None)
                return None, m, pc
            for k in range(n):
                v = e.load(m, e.padd(s, k), ir.IntT(8), I, pc)
                e.store(m, e.padd(d, k), v, ir.IntT(8), I, pc)
            return None, m, pc
        E["llvm.memcpy"] = memcpy
        E["llvm.memmove"] = memcpy

        def memset(e, a, m, pc, I):
            d, v, n = a[0], a[1], a[2]
            if not isinstance(n, int):
                raise AnalysisError("symbolic memset length")
            if d is UNDEF:
                e.report("uninit", I, "fill through uninitialised pointer", pc)
                return None, m, pc
            for g, dl in d.it:
                if n and e.check_access(dl, n, I, g, pc, "write"):
                    for k in range(n):
                        e.store1(m, (dl[0], dl[1] + k), 1, v)
            return None, m, pc
        E["llvm.memset"] = memset

        def ufn(name):
            def f(e, a, m, pc, I):
                return e.fop1(a[0], lambda l: e.l_uf(name, l), pc), m, pc
            return f
        E["llvm.fabs"] = lambda e, a, m, pc, I: (e.fabs(a[0], pc), m, pc)
        E["fabsf"] = E["llvm.fabs"]
        E["fabs"] = E["llvm.fabs"]
        for n in ("sqrtf", "sqrt", "expf", "logf", "sinf", "cosf", "tanf", "llvm.sqrt"):
            E[n] = ufn(n.replace("llvm.", "").rstrip("f") if n != "llvm.sqrt" else "sqrt")

        # ---- analysis intrinsics
        def vf_real(e, a, m, pc, I):
            e.nreal += 1
            v = e.fconst(0)
            if e.zero_at is None or e.nreal - 1 != e.zero_at[0]:
                v = e.fleaf(rf_atom(e.new_sym(e.cstring(m, a[0]))))
            elif e.zero_at[1] is not None:
                v = e.reals[e.zero_at[1]]
            e.reals.append(v)
            return v, m, pc
        E["vf_real"] = vf_real

        def vf_buf(e, a, m, pc, I):
            rid = e.new_region(m, a[0], e.cstring(m, a[1]), "buffer")
            return PV(((1, (rid, 0)),)), m, pc
        E["vf_buf"] = vf_buf

        def vf_int(w):
            def f(e, a, m, pc, I):
                nm = e.cstring(m, a[0])
                return BV(tuple(e.B.new_var("%s[%d]" % (nm, i)) for i in range(w))), m, pc
            return f
        for w in (8, 16, 32, 64):
            E["vf_u%d" % w] = vf_int(w)
        E["vf_bool"] = vf_int(1)

        def vf_fbits(e, a, m, pc, I):
            nm = e.cstring(m, a[0])
            # order: sign, exponent, then mantissa from the top
            bits = [None] * 32
            for i in range(31, -1, -1):
                bits[i] = e.B.new_var("%s[%d]" % (nm, i))
            return e.fleaf(("bits", tuple(bits))), m, pc
        E["vf_fbits"] = vf_fbits

        def vf_pair(e, a, m, pc, I):
            """two interleaved 32-bit unknowns"""
            nm = e.cstring(m, a[0])
            x, y = [], []
            for i in range(32):
                x.append(e.B.new_var("%s.a[%d]" % (nm, i)))
                y.append(e.B.new_var("%s.b[%d]" % (nm, i)))
            e.store(m, a[1], BV(tuple(x)), ir.IntT(32), I, pc)
            e.store(m, a[2], BV(tuple(y)), ir.IntT(32), I, pc)
            return None, m, pc
        E["vf_pair32"] = vf_pair

        def vf_fpair(e, a, m, pc, I):
            """two arbitrary floats, any of the 2^32 bit patterns each, interleaved"""
            nm = e.cstring(m, a[0])
            x, y = [None] * 32, [None] * 32
            for i in range(31, -1, -1):
                x[i] = e.B.new_var("%s.a[%d]" % (nm, i))
                y[i] = e.B.new_var("%s.b[%d]" % (nm, i))
            e.store(m, a[1], e.fleaf(("bits", tuple(x))), ir.FLOAT, I, pc)
            e.store(m, a[2], e.fleaf(("bits", tuple(y))), ir.FLOAT, I, pc)
            return None, m, pc
        E["vf_fpair"] = vf_fpair

        def vf_assume(e, a, m, pc, I):
            return None, m, e.B.AND(pc, e.bit(a[0]))
        E["vf_assume"] = vf_assume

        def vf_check(e, a, m, pc, I):
            nm = e.cstring(m, a[1])
            e.obl[nm] = e.obl.get(nm, 0) + 1
            if a[0] is UNDEF:
                e.report("law", I, "%s: verdict depends on an uninitialised value" % nm, pc)
                return None, m, pc
            bad = e.B.AND(pc, e.B.NOT(e.bit(a[0])))
            if bad and e.feasible(bad, 20000, True):
                e.report("law", I, "%s: does not hold when %s" % (nm, e.describe(bad)), bad)
            return None, m, pc
        E["vf_check"] = vf_check

        def vf_eq(e, a, m, pc, I):
            nm = e.cstring(m, a[2])
            e.obl[nm] = e.obl.get(nm, 0) + 1
            e.check_eq(a[0], a[1], nm, I, pc)
            return None, m, pc
        E["vf_eq"] = vf_eq

        def vf_eq_int(e, a, m, pc, I):
            nm = e.cstring(m, a[2])
            e.obl[nm] = e.obl.get(nm, 0) + 1
            if a[0] is UNDEF or a[1] is UNDEF:
                e.report("law", I, "%s: uninitialised value" % nm, pc)
                return None, m, pc
            x, y = e.tobits(a[0], 64), e.tobits(a[1], 64)
            bad = e.B.AND(pc, e.B.NOT(e.eq_bits(x, y)))
            if bad and e.feasible(bad, 20000, True):
                e.report("law", I, "%s: values differ when %s" % (nm, e.describe(bad)), bad)
            return None, m, pc
        E["vf_eq_int"] = vf_eq_int

        def vf_isnan(e, a, m, pc, I):
            r = 0
            for g, l in a[0].it:
                if l == NAN:
                    r = e.B.OR(r, g)
                elif isinstance(l, tuple) and l[0] == "bits":
                    r = e.B.OR(r, e.B.AND(g, e.bits_isnan(l[1])))
            return e.mkint((r,)), m, pc
        E["vf_isnan"] = vf_isnan

        def vf_undefd(e, a, m, pc, I):
            """leave the object bytes unspecified"""
            rid, off = a[0].it[0][1]
            cells = m.w(rid)
            for o in [o for o in cells if off <= o < off + a[1]]:
                del cells[o]
            return None, m, pc
        E["vf_forget"] = vf_undefd

        def vf_same(e, a, m, pc, I):
            """bytewise equality of two objects of the same size"""
            nm = e.cstring(m, a[3])
            e.obl[nm] = e.obl.get(nm, 0) + 1
            e.check_same(m, a[0], a[1], a[2], nm, I, pc)
            return None, m, pc
        E["vf_same"] = vf_same

        def vf_havoc(e, a, m, pc, I):
            """every real-valued cell of the object takes an arbitrary finite value"""
            rid, off = a[0].it[0][1]
            cells = m.w(rid)
            nm = e.cstring(m, a[2])
            n = 0
            for o in sorted(o for o in cells if off <= o < off + a[1]):
                sz, v = cells[o]
                if isinstance(v, FV):
                    cells[o] = (sz, e.fleaf(rf_atom(e.new_sym("%s@%d" % (nm, o - off)))))
                    n += 1
            if n == 0:
                raise AnalysisError("nothing to generalise in %s" % nm)
            return None, m, pc
        E["vf_havoc"] = vf_havoc

        def vf_same_ctl(e, a, m, pc, I):
            nm = e.cstring(m, a[3])
            e.obl[nm] = e.obl.get(nm, 0) + 1
            e.check_same(m, a[0], a[1], a[2], nm, I, pc, skip_reals=True)
            return None, m, pc
        E["vf_same_ctl"] = vf_same_ctl

        def vf_snap(e, a, m, pc, I):
            return memcpy(e, a, m, pc, I)
        E["vf_snapshot"] = vf_snap

    def fabs(self, v, pc):
        out = []
        B = self.B
        for g, l in v.it:
            if isinstance(l, RF):
                neg, z = self.rf_sign(l)
                out.append((B.AND(g, neg), rf_neg(l)))
                out.append((B.AND(g, B.NOT(neg)), l))
            elif isinstance(l, tuple) and l[0] == "inf":
                out.append((g, PINF))
            elif isinstance(l, tuple) and l[0] == "bits":
                out.append((g, ("bits", l[1][:31] + (0,))))
            else:
                out.append((g, l))
        return self.fdedupe(out)

    CONSTF = {"sqrt": lambda x: math.sqrt(x) if x >= 0 else None, "exp": math.exp, "log": lambda x: math.log(x) if x > 0
              else None, "sin": math.sin, "cos": math.cos, "tan": math.tan, "exp2": lambda x: 2.0**x,
              "log2": lambda x: math.log2(x) if x > 0 else None}

    def l_uf(self, name, l):
        if l is UNDEF:
            return UNDEF
        if l == NAN:
            return NAN
        if isinstance(l, RF):
            if l.isconst() and name in self.CONSTF:
                try:
                    c = self.CONSTF[name](float(l.cval()))
                except OverflowError:
                    c = None
                if c is not None:
                    return rf_const(Fraction(c))
                if name == "sqrt":
                    return NAN
            if name == "exp":
                lm = max(l.n, key=lambda m: repr(m))
                if l.n[lm] < 0:
                    return rf_inv(rf_atom(self.uf_atom("exp", [rf_neg(l)])))
            if name == "cos":
                lm = max(l.n, key=lambda m: repr(m))
                if l.n[lm] < 0:
                    l = rf_neg(l)
            return rf_atom(self.uf_atom(name, [l]))
        return self.l_opq("uf_" + name, l)

    # ------------------------------------------------------------ verdicts
    def check_eq(self, a, b, nm, I, pc):
        B = self.B
        for g1, l1 in a.it:
            for g2, l2 in b.it:
                g = B.AND(B.AND(g1, g2), pc)
                if g == 0:
                    continue
                if self.leaf_equal(l1, l2):
                    continue
                n = 0
                for cube in B.cubes(g):
                    n += 1
                    if n > 3000:
                        raise AnalysisError("too many cells in %s" % nm)
                    if not self.cube_feasible(cube):
                        continue
                    if self.equal_in_cube(l1, l2, cube):
                        continue
                    cons, bits = self.cube_cons(cube)
                    cond = " and ".join(["%s %s 0" % (self.pstr(p), op) for p, op in cons] +
                                        ["%s=%d" % x for x in bits][:8]) or "always"
                    self.report("law", I, "%s: code computes %s, expected %s when %s" % (
                        nm, self.rstr(l1), self.rstr(l2), cond), None)
                    self.viol[-1]["value"] = l1[0] if isinstance(l1, tuple) else None
                    break

    def leaf_equal(self, a, b):
        if isinstance(a, RF) and isinstance(b, RF):
            return rf_eq(a, b)
        if a is UNDEF or b is UNDEF:
            return False
        if isinstance(a, RF) or isinstance(b, RF):
            return False
        return a == b

    def subst(self, p, a, r):
        """replace atom a by poly r in poly p"""
        out = {}
        for m, c in p.items():
            e = 0
            rest = []
            for x, k in m:
                if x == a:
                    e = k
                else:
                    rest.append((x, k))
            t = {tuple(rest): c}
            for _ in range(e):
                t = p_mul(t, r)
            out = p_add(out, t)
        return out

    def equal_in_cube(self, a, b, cube):
        if not (isinstance(a, RF) and isinstance(b, RF)):
            if isinstance(a, tuple) and isinstance(b, tuple) and "bits" in (a[0], b[0]):
                x, y = self.leaf_bits(a), self.leaf_bits(b)
                for p, q in zip(x, y):
                    d = self.B.XOR(p, q)
                    for v, val in cube.items():
                        d = self.B.cofactor(d, v, val)
                    if d != 0:
                        return False
                return True
            return False
        cons, _ = self.cube_cons(cube)
        x, y = a, b
        eqs = [p for p, op in cons if op == "=="]
        # bounded elimination
        done = set()
        while eqs:
            p = eqs.pop()
            if not p or p_isconst(p):
                continue
            piv = None
            for m, c in sorted(p.items(), key=repr):
                if len(m) == 1 and m[0][1] == 1 and not any(
                        (m[0][0] in dict(m2)) for m2 in p if m2 != m) and self.atoms[m[0][0]][0] == "sym":
                    piv = (m, c)
                    break
            if piv is None:
                continue
            (m, c) = piv
            at = m[0][0]
            r = p_scale({k: v for k, v in p.items() if k != m}, -1 / c)
            x = rf_norm(self.subst(x.n, at, r), self.subst(x.d, at, r)) if self.subst(x.d, at, r) else x
            y = rf_norm(self.subst(y.n, at, r), self.subst(y.d, at, r)) if self.subst(y.d, at, r) else y
            eqs = [self.subst(q, at, r) for q in eqs]
        if rf_eq(x, y):
            return True
        # difference equals a multiple of an equality
        if not (p_isconst(x.d) and p_isconst(y.d)):
            d = p_add(p_mul(x.n, y.d), p_mul(y.n, x.d), -1)
        else:
            d = p_add(x.n, y.n, -1)
        from poly import p_divexact
        for p, op in cons:
            if op == "==" and p_divexact(d, p) is not None:
                return True
        return False

    def _undef_guard(self, c):
        if c is None or c[1] is UNDEF:
            return 1
        r = 0
        for g, l in c[1].it:
            if l is UNDEF:
                r = self.B.OR(r, g)
        return r

    def check_same(self, m, p, q, n, nm, I, pc, skip_reals=False):
        r1, o1 = p.it[0][1]
        r2, o2 = q.it[0][1]
        c1, c2 = m.get(r1), m.get(r2)
        offs = {o - o1 for o in c1 if o1 <= o < o1 + n} | {o - o2 for o in c2 if o2 <= o < o2 + n}
        for k in sorted(offs):
            a, b = c1.get(o1 + k), c2.get(o2 + k)
            if a is b:
                continue
            if (a is None or a[1] is UNDEF) and (b is None or b[1] is UNDEF):
                continue
            if isinstance((a or b)[1], FV) and ((a is None or isinstance(a[1], FV)) and (b is None or isinstance(b[1], FV))) \
                    and (a is None or b is None or a[0] == b[0]):
                u1 = self._undef_guard(a)
                u2 = self._undef_guard(b)
                bad = self.B.AND(pc, self.B.XOR(u1, u2))
                if bad and self.feasible(bad):
                    self.report("law", I, "%s: byte %d is indeterminate on one side" % (nm, k), bad)
                    continue
                if a is None or b is None:
                    continue
                if not skip_reals:
                    self.check_eq(a[1], b[1], nm + " (byte %d)" % k, I, self.B.AND(pc, self.B.NOT(u1)))
                continue
            if skip_reals and a is not None and b is not None and isinstance(a[1], FV) and isinstance(b[1], FV):
                continue
            if a is None or b is None or a[0] != b[0]:
                if a is not None and b is not None:
                    s = max(a[0], b[0])
                    x = self.load1(m, (r1, o1 + k), s, ir.IntT(8 * s))
                    y = self.load1(m, (r2, o2 + k), s, ir.IntT(8 * s))
                    if self.vkey(x) == self.vkey(y):
                        continue
                self.report("law", I, "%s: byte %d differs" % (nm, k), pc)
                continue
            x, y = a[1], b[1]
            if isinstance(x, FV) and isinstance(y, FV):
                self.check_eq(x, y, nm + " (byte %d)" % k, I, pc)
            elif isinstance(x, (PV,)) and isinstance(y, PV):
                for g1, l1 in x.it:
                    for g2, l2 in y.it:
                        g = self.B.AND(self.B.AND(g1, g2), pc)
                        if g and l1 != l2 and self.feasible(g):
                            self.report("law", I, "%s: pointer at byte %d differs" % (nm, k), g)
            elif self.vkey(x) != self.vkey(y):
                if isinstance(x, (int, BV)) and isinstance(y, (int, BV)):
                    bad = self.B.AND(pc, self.B.NOT(self.eq_bits(self.tobits(x, 8 * a[0]), self.tobits(y, 8 * a[0]))))
                    if not (bad and self.feasible(bad)):
                        continue
                self.report("law", I, "%s: byte %d differs" % (nm, k), pc)


def short_name(n):
    return n


def _ff(name):
    return "_ZN5qlibs6ffmath%d%sEf" % (len(name), name)


def install_math(e, full=False):
    """elementary functions become uninterpreted symbols; their own accuracy is
    outside this analysis"""
    def ufn(name):
        def f(en, a, m, pc, I):
            if all(isinstance(l, tuple) and l[0] == "bits" for _, l in a[0].it):
                return NotImplemented
            return en.fop1(a[0], lambda l: en.l_uf(name, l), pc), m, pc
        return f
    for n in ("sqrt", "rSqrt", "exp", "log", "sin", "cos", "tan", "exp2", "log2", "exp10", "log10", "asin", "acos",
              "atan", "sinh", "cosh", "tanh", "tgamma", "lgamma", "cbrt", "floor", "ceil", "trunc", "rounding"):
        e.prims[_ff(n)] = ufn(n)

    def powf(en, a, m, pc, I):
        def f(x, y):
            if isinstance(x, RF) and isinstance(y, RF):
                if x.isconst() and y.isconst() and x.cval() > 0:
                    return rf_const(Fraction(float(x.cval()) ** float(y.cval())))
                return rf_atom(en.uf_atom("pow", [x, y]))
            return en.l_opq("pow", x, y)
        return en.fop2(a[0], a[1], f, pc), m, pc
    e.prims["_ZN5qlibs6ffmath3powEff"] = powf

    def classify(en, a, m, pc, I):
        # enumerators: see ffmath.hpp ; values resolved from the body for bit-level floats
        if any(isinstance(l, tuple) and l[0] == "bits" for _, l in a[0].it):
            return NotImplemented
        out = []
        B = en.B
        for g, l in a[0].it:
            if isinstance(l, RF):
                if l.isconst():
                    return NotImplemented if len(a[0].it) == 1 else _mix(en, a[0], m, pc, I)
                neg, z = en.rf_sign(l)
                out.append((B.AND(g, z), en.fp_class["ZERO"]))
                out.append((B.AND(g, B.NOT(z)), en.fp_class["NORMAL"]))
            elif l == NAN:
                out.append((g, en.fp_class["NAN"]))
            elif l is UNDEF:
                continue
            else:
                out.append((g, en.fp_class["INF"]))
        out = [(g, c) for g, c in out if g]
        return en.from_enum(out, 32), m, pc

    def _mix(en, v, m, pc, I):
        out = []
        B = en.B
        for g, l in v.it:
            if isinstance(l, RF):
                if l.isconst():
                    c = l.cval()
                    out.append((g, en.fp_class["ZERO"] if c == 0 else en.fp_class["NORMAL"]))
                else:
                    neg, z = en.rf_sign(l)
                    out.append((B.AND(g, z), en.fp_class["ZERO"]))
                    out.append((B.AND(g, B.NOT(z)), en.fp_class["NORMAL"]))
            elif l == NAN:
                out.append((g, en.fp_class["NAN"]))
            elif l is not UNDEF:
                out.append((g, en.fp_class["INF"]))
        out = [(g, c) for g, c in out if g]
        return en.from_enum(out, 32), m, pc
    e.prims["_ZN5qlibs6ffmath8classifyEf"] = classify
