"""Vectorised abstract interpreter for the numeric kernels of the library.

Abstract value of a float/integer expression, per lane (= per piece of the input domain):
  * an interval [lo, hi] in the concrete machine arithmetic (binary32 rounding is monotone, so the rounded
    end points are exact bounds) plus a may-be-NaN flag and a "-0 impossible" flag;
  * an affine form  a + sum_k b_k*eps_k + [-e, e]  over one noise symbol per input, which keeps the linear
    correlation with the input and accounts for every rounding error (e = inf when unknown).
Both are intersected after each operation (reduced product).  Control flow is merged: a lane whose branch
condition is undetermined goes both ways and is joined again; loops are iterated on the joined states.
Nothing is executed and no path is enumerated; a lane always describes all inputs of its piece."""
import time

import numpy as np

INF = np.inf
U = 2.0 ** -24
TINY = 2.0 ** -150
I62 = 1 << 62


class Unsupported(Exception):
    pass


class Budget(Exception):
    pass


DBL = False             # the operation at hand is one of binary64: no rounding to binary32


def f32(x):
    if DBL:
        return x
    return x.astype(np.float32).astype(np.float64)


def up32(x):
    """smallest binary32 >= x (x float64)"""
    if DBL:
        return x
    y = x.astype(np.float32)
    bad = y.astype(np.float64) < x
    if bad.any():
        y = np.where(bad, np.nextafter(y, np.float32(INF)), y)
    return y.astype(np.float64)


def dn32(x):
    if DBL:
        return x
    y = x.astype(np.float32)
    bad = y.astype(np.float64) > x
    if bad.any():
        y = np.where(bad, np.nextafter(y, np.float32(-INF)), y)
    return y.astype(np.float64)


def fbits(x):
    return x.astype(np.float32).view(np.uint32).astype(np.int64)


def bfloat(i):
    return i.astype(np.uint32).view(np.float32).astype(np.float64)


FALSE1 = np.zeros(1, bool)
TRUE1 = np.ones(1, bool)
Z1 = np.zeros(1)
NS0 = np.zeros(1, np.int64)


class V:
    """abstract value; w = 0 for binary32, otherwise the integer width"""
    __slots__ = ("w", "lo", "hi", "nan", "nz", "pz", "a", "b", "e", "src", "ns", "d")

    def __init__(self, w, lo, hi, nan=None, nz=None, a=None, b=None, e=None, src=None, pz=None):
        self.w, self.lo, self.hi, self.nan, self.nz, self.a, self.b, self.e, self.src = w, lo, hi, nan, nz, a, b, e, src
        self.pz = FALSE1 if pz is None else pz      # +0 impossible (nz: -0 impossible)
        self.d = False                              # a binary64 value
        self.ns = NS0                               # sign of a value that is certainly NaN (0: unknown)

    def plus(self):
        """sign bit certainly clear"""
        return (self.lo > 0) | ((self.lo >= 0) & self.nz)

    def minus(self):
        return (self.hi < 0) | ((self.hi <= 0) & self.pz)


class B:
    """truth value: may be true / may be false"""
    __slots__ = ("t", "f")

    def __init__(self, t, f):
        self.t, self.f = t, f


class Ptr:
    __slots__ = ("obj", "off")

    def __init__(self, obj, off):
        self.obj, self.off = obj, off          # off: int or V




class Dom:
    def __init__(self, K):
        self.K = K
        self.spare = []       # unused noise symbols
        self.ub = None        # lanes in which an undefined operation may happen
        self.ubwhat = {}
        self.mask = TRUE1

    # ------------------------------------------------------------ construction
    def fconst(self, x):
        v = np.array([float(x) if DBL else float(np.float32(x))])
        if np.isnan(v[0]):
            return V(0, np.array([INF]), np.array([-INF]), TRUE1, TRUE1, Z1, [Z1] * self.K, np.array([INF]))
        neg0 = v[0] == 0 and np.signbit(v[0])
        e = Z1 if np.isfinite(v[0]) else np.array([INF])
        return V(0, v, v, FALSE1, FALSE1 if neg0 else TRUE1, np.where(np.isfinite(v), v, 0.0), [Z1] * self.K, e,
                 pz=TRUE1 if neg0 or v[0] != 0 else FALSE1)

    def iconst(self, x, w):
        if w >= 64 and x >= 1 << 63:
            x -= 1 << 64
        v = np.array([x], np.int64)
        return V(w, v, v, None, None, v.astype(float), [Z1] * self.K, Z1)

    def top(self, w):
        if w == 0:
            return V(0, np.array([-INF]), np.array([INF]), TRUE1, FALSE1, Z1, [Z1] * self.K, np.array([INF]))
        if w >= 64:
            return V(w, np.array([-(1 << 62)], np.int64), np.array([1 << 62], np.int64), None, None, Z1, [Z1] * self.K, np.array([INF]))
        return V(w, np.array([-(1 << (w - 1))], np.int64), np.array([(1 << (w - 1)) - 1], np.int64), None, None, Z1,
                 [Z1] * self.K, np.array([INF]))

    # ------------------------------------------------------------ normal forms
    def mkf(self, lo, hi, nan, nz, a, b, e, pz=FALSE1):
        e = np.where(np.isnan(e) | np.isnan(a), INF, e)
        for x in b:
            if np.isnan(x).any():
                e = np.where(np.isnan(x), INF, e)
        bad = ~np.isfinite(e) | ~np.isfinite(a)
        if bad.any():
            e = np.where(bad, INF, e)
            a = np.where(bad, 0.0, a)
            b = [np.where(bad, 0.0, x) for x in b]
        r = e
        for x in b:
            r = r + np.abs(x)
        r = r * (1 + 1e-14) + np.abs(a) * 1e-15
        l2, h2 = up32(a - r), dn32(a + r)
        emp = lo > hi
        nlo = np.maximum(lo, l2)
        nhi = np.minimum(hi, h2)
        cross = nlo > nhi
        lo = np.where(cross, lo, nlo)
        hi = np.where(cross, hi, nhi)
        s = (lo == hi) & np.isfinite(lo)
        if s.any():
            a = np.where(s, lo, a)
            b = [np.where(s, 0.0, x) for x in b]
            e = np.where(s, 0.0, e)
        z = (lo > 0) | (hi < 0) | emp
        return V(0, lo, hi, nan, nz | z, a, b, e, pz=pz | z)

    def mki(self, w, lo, hi, a, b, e):
        """raw range of a width-w integer; reduced modulo 2^w into a representable range if needed"""
        e = np.where(np.isnan(e) | np.isnan(a), INF, e)
        if w < 64:
            m = 1 << w
            big = (hi - lo) >= m
            if big.any():
                lo = np.where(big, -(m >> 1), lo)
                hi = np.where(big, (m >> 1) - 1, hi)
                e = np.where(big, INF, e)
            out = (lo < -(m >> 1)) | (hi >= m)
            if out.any():
                k = np.where(out, np.floor_divide(lo + (m >> 1), m), 0)
                lo = lo - k * m
                hi = hi - k * m
                a = a - k * float(m)
        bad = ~np.isfinite(e)
        if bad.any():
            a = np.where(bad, 0.0, a)
            b = [np.where(bad, 0.0, x) for x in b]
        else:
            r = e
            for x in b:
                r = r + np.abs(x)
            r = r * (1 + 1e-14) + np.abs(a) * 1e-15
            ok = (np.abs(a) < 2.0 ** 52) & (r < 2.0 ** 52)
            if ok.any():
                l2 = np.where(ok, np.ceil(np.where(ok, a - r, 0)), -2.0 ** 61).astype(np.int64)
                h2 = np.where(ok, np.floor(np.where(ok, a + r, 0)), 2.0 ** 61).astype(np.int64)
                nlo, nhi = np.maximum(lo, l2), np.minimum(hi, h2)
                cross = nlo > nhi
                lo, hi = np.where(cross, lo, nlo), np.where(cross, hi, nhi)
        s = lo == hi
        if s.any():
            a = np.where(s, lo.astype(float), a)
            b = [np.where(s, 0.0, x) for x in b]
            e = np.where(s, 0.0, e)
        return V(w, lo, hi, None, None, a, b, e)

    def signed(self, v):
        w = v.w
        if w >= 64:
            return v
        m = 1 << w
        if ((v.lo >= -(m >> 1)) & (v.hi < (m >> 1))).all():
            return v
        k = np.floor_divide(v.lo + (m >> 1), m)
        lo, hi, a = v.lo - k * m, v.hi - k * m, v.a - k * float(m)
        bad = hi >= (m >> 1)
        lo = np.where(bad, -(m >> 1), lo)
        hi = np.where(bad, (m >> 1) - 1, hi)
        return V(w, lo, hi, None, None, a, v.b, np.where(bad, INF, v.e))

    def unsigned(self, v):
        w = v.w
        if w >= 64:
            if (v.lo >= 0).all():
                return v
            neg = v.hi < 0
            mix = (v.lo < 0) & (v.hi >= 0)
            lo = np.where(neg, I62, np.where(mix, 0, v.lo))
            hi = np.where(neg | mix, (1 << 63) - 1, v.hi)
            return V(w, lo, hi, None, None, v.a, v.b, np.where(neg | mix, INF, v.e))
        m = 1 << w
        if ((v.lo >= 0) & (v.hi < m)).all():
            return v
        k = np.floor_divide(v.lo, m)
        lo, hi, a = v.lo - k * m, v.hi - k * m, v.a - k * float(m)
        bad = hi >= m
        lo = np.where(bad, 0, lo)
        hi = np.where(bad, m - 1, hi)
        return V(w, lo, hi, None, None, a, v.b, np.where(bad, INF, v.e))

    def flag_ub(self, cond, what):
        c = cond & self.mask
        if c.any():
            self.ub = c if self.ub is None else (self.ub | c)
            self.ubwhat[what] = self.ubwhat.get(what, 0) + 1

    # ------------------------------------------------------------ float arithmetic
    def rnd(self, lo, hi):
        m = np.maximum(np.abs(lo), np.abs(hi))
        m = np.where(lo > hi, 0.0, m)
        return m * (2.0 ** -53 if DBL else U) + TINY

    def emptyfix(self, x, y, lo, hi, nan):
        emp = (x.lo > x.hi) | (y.lo > y.hi)
        if emp.any():
            lo = np.where(emp, INF, lo)
            hi = np.where(emp, -INF, hi)
        return lo, hi, nan, emp

    @staticmethod
    def nsp(r, x, y):
        """an operation on a NaN returns that NaN, sign included (two NaNs: either)"""
        ex, ey = x.lo > x.hi, y.lo > y.hi
        if (ex | ey).any():
            r.ns = np.where(ex & ey, np.where(x.ns == y.ns, x.ns, 0), np.where(ex & ~y.nan, x.ns, np.where(ey & ~x.nan, y.ns, 0)))
        return r

    def fadd(self, x, y):
        return self.nsp(self.fadd_(x, y), x, y)

    def fmul(self, x, y):
        return self.nsp(self.fmul_(x, y), x, y)

    def fdiv(self, x, y):
        return self.nsp(self.fdiv_(x, y), x, y)

    def fadd_(self, x, y):
        lo, hi = f32(x.lo + y.lo), f32(x.hi + y.hi)
        nan = x.nan | y.nan | ((x.lo == -INF) & (y.hi == INF)) | ((x.hi == INF) & (y.lo == -INF))
        # inf + (-inf): the remaining values are bounded by the infinite operand
        lo = np.where(np.isnan(lo), -INF, lo)
        hi = np.where(np.isnan(hi), INF, hi)
        onlynan = ((x.lo == INF) & (y.hi == -INF)) | ((x.hi == -INF) & (y.lo == INF))
        lo = np.where(onlynan, INF, lo)
        hi = np.where(onlynan, -INF, hi)
        lo, hi, nan, _ = self.emptyfix(x, y, lo, hi, nan)
        nz = x.nz | y.nz
        exact = ((x.lo == 0) & (x.hi == 0)) | ((y.lo == 0) & (y.hi == 0))       # adding a zero does not round
        return self.mkf(lo, hi, nan, nz, x.a + y.a, [p + q for p, q in zip(x.b, y.b)], x.e + y.e + np.where(exact, 0.0, self.rnd(lo, hi)),
                        x.minus() & y.minus())

    def fneg(self, x):
        emp = x.lo > x.hi
        lo, hi = np.where(emp, INF, -x.hi), np.where(emp, -INF, -x.lo)
        r = V(0, lo, hi, x.nan, x.pz, -x.a, [-p for p in x.b], x.e, pz=x.nz)
        r.ns = -x.ns
        return r

    def fsub(self, x, y):
        if ((y.lo == 0) & (y.hi == 0) & y.nz & ~y.nan).all():
            return x                                # x - (+0) is x
        return self.nsp(self.fadd_(x, self.fneg(y)), x, y)

    def amul(self, x, y):
        """affine part of a product, without rounding"""
        a = x.a * y.a
        b = [x.a * q + y.a * p for p, q in zip(x.b, y.b)]
        rx = sum((np.abs(p) for p in x.b), np.zeros(1))
        ry = sum((np.abs(p) for p in y.b), np.zeros(1))
        quad = rx * ry
        for p, q in zip(x.b, y.b):
            d = p * q
            a = a + 0.5 * d
            quad = quad - np.abs(d) * 0.5
        e = quad + np.abs(x.a) * y.e + np.abs(y.a) * x.e + rx * y.e + ry * x.e + x.e * y.e
        e = e + 4e-16 * (np.abs(a) + rx * np.abs(y.a) + ry * np.abs(x.a))
        return a, b, e

    def fmul_(self, x, y):
        if x is y:
            return self.fsqr(x)
        with np.errstate(all="ignore"):
            c = [x.lo * y.lo, x.lo * y.hi, x.hi * y.lo, x.hi * y.hi]
            nan = x.nan | y.nan
            zx = (x.lo <= 0) & (x.hi >= 0)
            zy = (y.lo <= 0) & (y.hi >= 0)
            ix = (x.lo == -INF) | (x.hi == INF)
            iy = (y.lo == -INF) | (y.hi == INF)
            nan = nan | (zx & iy) | (zy & ix)
            c = [np.where(np.isnan(k), 0.0, k) for k in c]
            lo = f32(np.minimum(np.minimum(c[0], c[1]), np.minimum(c[2], c[3])))
            hi = f32(np.maximum(np.maximum(c[0], c[1]), np.maximum(c[2], c[3])))
            lo, hi, nan, emp = self.emptyfix(x, y, lo, hi, nan)
            a, b, e = self.amul(x, y)
            xp, xm, yp, ym = x.plus(), x.minus(), y.plus(), y.minus()
            return self.mkf(lo, hi, nan, (xp & yp) | (xm & ym), a, b, e + self.rnd(lo, hi), (xp & ym) | (xm & yp))

    def fsqr(self, x):
        with np.errstate(all="ignore"):
            m1, m2 = np.abs(x.lo), np.abs(x.hi)
            hi = f32(np.maximum(m1, m2) ** 2)
            lo = np.where((x.lo <= 0) & (x.hi >= 0), 0.0, f32(np.minimum(m1, m2) ** 2))
            emp = x.lo > x.hi
            lo, hi = np.where(emp, INF, lo), np.where(emp, -INF, hi)
            a, b, e = self.amul(x, x)
            return self.mkf(lo, hi, x.nan, TRUE1 | emp, a, b, e + self.rnd(lo, hi))

    def fdiv_(self, x, y):
        with np.errstate(all="ignore"):
            zy = (y.lo <= 0) & (y.hi >= 0)
            zx = (x.lo <= 0) & (x.hi >= 0)
            ix = (x.lo == -INF) | (x.hi == INF)
            iy = (y.lo == -INF) | (y.hi == INF)
            c = [x.lo / y.lo, x.lo / y.hi, x.hi / y.lo, x.hi / y.hi]
            c = [np.where(np.isnan(k), 0.0, k) for k in c]
            lo = f32(np.minimum(np.minimum(c[0], c[1]), np.minimum(c[2], c[3])))
            hi = f32(np.maximum(np.maximum(c[0], c[1]), np.maximum(c[2], c[3])))
            # a divisor that touches zero from one side only, without -0
            pos = zy & (y.lo >= 0) & y.nz
            plo = np.where(x.lo >= 0, f32(x.lo / y.hi), -INF)
            phi = np.where(x.hi <= 0, f32(x.hi / y.hi), INF)
            plo = np.where(np.isnan(plo), 0.0, plo)
            phi = np.where(np.isnan(phi), 0.0, phi)
            lo = np.where(zy, np.where(pos, plo, -INF), lo)
            hi = np.where(zy, np.where(pos, phi, INF), hi)
            nan = x.nan | y.nan | (zx & zy) | (ix & iy)
            lo, hi, nan, emp = self.emptyfix(x, y, lo, hi, nan)
            ok = ~zy & np.isfinite(y.lo) & np.isfinite(y.hi) & ~emp
            l, h = np.where(ok, y.lo, 1.0), np.where(ok, y.hi, 1.0)
            # chord of 1/t between l and h
            al = -1.0 / (l * h)
            s = 2.0 / np.sqrt(l * h) * np.sign(l)
            ends = 1.0 / l + 1.0 / h
            mid, dev = 0.5 * (ends + s), 0.5 * np.abs(ends - s) + 4e-16 * np.abs(ends)
            ra = mid + al * y.a
            rb = [al * p for p in y.b]
            re = np.abs(al) * y.e + dev + 4e-16 * np.abs(al * y.a)
            # the recurrence of rounding in the reciprocal form is avoided: use the exact quotient when y is a point
            q = V(0, None, None, None, None, ra, rb, np.where(ok, re, INF))
            a, b, e = self.amul(x, q)
            pt = ok & (l == h)
            a = np.where(pt, x.a / l, a)
            b = [np.where(pt, p / l, k) for p, k in zip(x.b, b)]
            e = np.where(pt, x.e / np.abs(l) + 4e-16 * np.abs(x.a / l), e)
            xp, xm, yp, ym = x.plus(), x.minus(), y.plus(), y.minus()
            return self.mkf(lo, hi, nan, (xp & yp) | (xm & ym), a, b, e + self.rnd(lo, hi), (xp & ym) | (xm & yp))

    def msqrt(self, x, rel):
        """any function within rel of the square root, exact at 0 and infinity, NaN for negative arguments"""
        emp = x.lo > x.hi
        neg = x.hi < 0
        l, h = np.maximum(np.where(emp, 0.0, x.lo), 0.0), np.maximum(np.where(emp, 0.0, x.hi), 0.0)
        rl, rh = np.sqrt(l), np.sqrt(h)
        lo, hi = up32(rl * (1 - rel)), dn32(rh * (1 + rel))
        nan = x.nan | (x.lo < 0)
        dead = emp | neg
        ok = (l > 0) & np.isfinite(h) & ~dead & (x.lo >= 0)
        l1, h1 = np.where(ok, l, 1.0), np.where(ok, h, 1.0)
        r1, r2 = np.sqrt(l1), np.sqrt(h1)
        al = 1.0 / (r1 + r2)                               # chord slope; largest distance at t = 1/(4 al^2)
        off0, off1 = r1 - al * l1, 1.0 / (4.0 * al)
        mid, dev = 0.5 * (off0 + off1), 0.5 * np.abs(off1 - off0)
        e = np.where(ok, np.abs(al) * x.e + dev + r2 * (rel + 1e-15), INF)
        return self.mkf(np.where(dead, INF, lo), np.where(dead, -INF, hi), nan, TRUE1 | emp, np.where(ok, mid + al * x.a, 0.0),
                        [np.where(ok, al * p, 0.0) for p in x.b], e)

    def mrsqrt(self, x, rel):
        """any function within rel of the reciprocal square root of a positive number; anything else unknown"""
        ok = (x.lo > 0) & np.isfinite(x.hi) & ~x.nan & (x.lo <= x.hi)
        l1, h1 = np.where(ok, x.lo, 1.0), np.where(ok, x.hi, 1.0)
        f1, f2 = 1 / np.sqrt(l1), 1 / np.sqrt(h1)
        al = np.where(h1 > l1, (f2 - f1) / np.where(h1 > l1, h1 - l1, 1.0), -0.5 * f1 / l1)
        t = (-0.5 / al) ** (2.0 / 3)                       # tangent point of the convex function
        off0, off1 = np.maximum(f1 - al * l1, f2 - al * h1), 1 / np.sqrt(t) - al * t
        mid, dev = 0.5 * (off0 + off1), 0.5 * np.abs(off0 - off1)
        e = np.where(ok, np.abs(al) * x.e + dev + f1 * (rel + 1e-14), INF)
        lo, hi = np.where(ok, up32(f2 * (1 - rel)), -INF), np.where(ok, dn32(f1 * (1 + rel)), INF)
        return self.mkf(lo, hi, ~ok, ok, np.where(ok, mid + al * x.a, 0.0), [np.where(ok, al * p, 0.0) for p in x.b], e)

    # contracts of the Q16.16 kernel: correctly rounded product, quotient and root, overflow marker where not representable
    def fxout(self, lo, hi, a, b, e):
        """result in raw units known as a real range lo..hi and an affine form, rounded within e already"""
        out = ~((lo >= -2147483647.4) & (hi <= 2147483647.4))
        l = np.where(out, -2147483648.0, np.ceil(np.where(out, 0, lo) - 1e-6))
        h = np.where(out, 2147483647.0, np.floor(np.where(out, 0, hi) + 1e-6))
        return self.mki(32, l.astype(np.int64), h.astype(np.int64), np.where(out, 0.0, a), [np.where(out, 0.0, p) for p in b], np.where(out, INF, e))

    def fxmul(self, x, y, half=0.5):
        x, y = self.signed(x), self.signed(y)
        c = [p.astype(float) * q.astype(float) / 65536.0 for p in (x.lo, x.hi) for q in (y.lo, y.hi)]
        lo, hi = np.minimum.reduce(c), np.maximum.reduce(c)
        if x is y:
            lo = np.where((x.lo <= 0) & (x.hi >= 0), 0.0, lo)
        with np.errstate(all="ignore"):
            a, b, e = self.amul(x, y)
        return self.fxout(lo - half, hi + half, a / 65536.0, [p / 65536.0 for p in b], e / 65536.0 + half)

    def fxdiv(self, x, y, half=0.5):
        x, y = self.signed(x), self.signed(y)
        zy = (y.lo <= 0) & (y.hi >= 0)
        l, h = np.where(zy, 1, y.lo).astype(float), np.where(zy, 1, y.hi).astype(float)
        c = [p.astype(float) * 65536.0 / q for p in (x.lo, x.hi) for q in (l, h)]
        lo, hi = np.minimum.reduce(c), np.maximum.reduce(c)
        al = -1.0 / (l * h)
        s = 2.0 / np.sqrt(l * h) * np.sign(l)
        ends = 1.0 / l + 1.0 / h
        mid, dev = 0.5 * (ends + s), 0.5 * np.abs(ends - s) + 4e-16 * np.abs(ends)
        with np.errstate(all="ignore"):
            q = V(0, None, None, None, None, mid + al * y.a, [al * p for p in y.b], np.abs(al) * y.e + dev + 4e-16 * np.abs(al * y.a))
            a, b, e = self.amul(x, q)
            pt = l == h
            a = np.where(pt, x.a / l, a)
            b = [np.where(pt, p / l, k) for p, k in zip(x.b, b)]
            e = np.where(pt, x.e / np.abs(l) + 4e-16 * np.abs(x.a / l), e)
        lo, hi = np.where(zy, -INF, lo - half), np.where(zy, INF, hi + half)
        return self.fxout(lo, hi, a * 65536.0, [p * 65536.0 for p in b], e * 65536.0 + half)

    def fxfun(self, x, f, df, convex, lim, tol, rel):
        """a monotone increasing function of fixed curvature on the arguments inside lim, within tol + rel"""
        x = self.signed(x)
        ok = (x.lo >= lim[0]) & (x.hi <= lim[1])
        l, h = np.where(ok, x.lo, lim[0]) / 65536.0, np.where(ok, x.hi, lim[0]) / 65536.0
        fl, fh = f(l) * 65536.0, f(h) * 65536.0
        d = np.where(h > l, h - l, 1.0)
        al = np.where(h > l, (fh - fl) / d, 0.0)              # raw units per unit
        t = np.where(h > l, df(al / 65536.0, l), l)
        t = np.minimum(np.maximum(t, l), h)
        off0, off1 = fl - al * l, f(t) * 65536.0 - al * t
        mid, dev = 0.5 * (off0 + off1), 0.5 * np.abs(off0 - off1) * 1.001 + 1e-9 * np.abs(fh)
        err = tol + rel * np.abs(fh)
        a = mid + al * x.a / 65536.0
        e = dev + np.abs(al) * x.e / 65536.0 + err
        lo, hi = np.where(ok, fl - err, -INF), np.where(ok, fh + err, INF)
        return self.fxout(lo, hi, a, [al * p / 65536.0 for p in x.b], np.where(ok, e, INF))

    def fxsqrt(self, x, tol):
        return self.fxfun(x, np.sqrt, lambda al, l: np.where(al > 0, 0.25 / np.maximum(al, 1e-12) ** 2, l), False, (0, 2147483647), tol, 0.0)

    def freshen(self, x):
        """give the unexplained part of a value a noise symbol of its own, so that it can cancel against itself later"""
        if self.spare and np.isfinite(x.e).any() and not isinstance(x.b, tuple):
            k = self.spare.pop(0)
            fin = np.isfinite(x.e)
            x.b = list(x.b)
            x.b[k] = x.b[k] + np.where(fin, x.e, 0.0)
            x.e = np.where(fin, 0.0, x.e)

    def fxexp(self, x, tol, rel):
        self.freshen(x)
        return self.fxfun(x, np.exp, lambda al, l: np.where(al > 0, np.log(np.maximum(al, 1e-12)), l), True, (-681390, 681390), tol, rel)

    def fabs(self, x):
        emp = x.lo > x.hi
        pos, neg = x.lo >= 0, x.hi <= 0
        l = np.where(pos, x.lo, np.where(neg, -x.hi, 0.0))
        h = np.maximum(np.abs(x.lo), np.abs(x.hi))
        l, h = np.where(emp, INF, l), np.where(emp, -INF, h)
        s = np.where(pos, 1.0, np.where(neg, -1.0, 0.0))
        ok = (pos | neg) & ~emp
        r = self.mkf(np.abs(l), h, x.nan, TRUE1 | emp, np.where(ok, x.a * s, 0.0), [p * s for p in x.b], np.where(ok, x.e, INF))
        r.ns = NS0 + 1
        return r

    def fcmp(self, pred, x, y):
        emp = (x.lo > x.hi) | (y.lo > y.hi)
        nan = x.nan | y.nan
        if pred in ("true", "false"):
            t = np.ones(1, bool) if pred == "true" else np.zeros(1, bool)
            return B(t, ~t)
        if pred in ("ord", "uno"):
            t, f = ~emp, nan | emp
            return B(t, f) if pred == "ord" else B(f, t)
        k = pred[1:]
        base = {"lt": (x.lo < y.hi, ~(x.hi < y.lo)), "le": (x.lo <= y.hi, ~(x.hi <= y.lo)),
                "gt": (x.hi > y.lo, ~(x.lo > y.hi)), "ge": (x.hi >= y.lo, ~(x.lo >= y.hi)),
                "eq": ((x.lo <= y.hi) & (y.lo <= x.hi), ~((x.lo == x.hi) & (y.lo == y.hi) & (x.lo == y.lo))),
                "ne": (~((x.lo == x.hi) & (y.lo == y.hi) & (x.lo == y.lo)), (x.lo <= y.hi) & (y.lo <= x.hi))}[k]
        t, f = base
        # numeric outcomes exist only when neither operand is certainly NaN
        t, f = t & ~emp, f & ~emp
        if k in ("eq", "ne", "lt", "le", "gt", "ge") and not (np.isinf(x.lo).all() or np.isinf(y.lo).all()):
            d = V(0, None, None, None, None, x.a - y.a, None, x.e + y.e)
            r = d.e
            for p, q in zip(x.b, y.b):
                r = r + np.abs(p - q)
            r = r * (1 + 1e-14) + 1e-15 * (np.abs(x.a) + np.abs(y.a))
            with np.errstate(all="ignore"):
                sp, sn = (d.a - r > 0), (d.a + r < 0)          # certainly x > y, certainly x < y (apart from NaN)
            same = (d.a == 0) & ((d.e == 0) | (x is y))
            for p, q in zip(x.b, y.b):
                same = same & (p == q)
            if same.any():                                     # identical exact forms: the values are equal
                t = t & ~(same if k in ("lt", "gt", "ne") else FALSE1)
                f = f & ~(same if k in ("le", "ge", "eq") else FALSE1)
            if k in ("lt", "le"):
                t, f = t & ~sp, f & ~sn
            elif k in ("gt", "ge"):
                t, f = t & ~sn, f & ~sp
            elif k == "eq":
                t = t & ~(sp | sn)
            else:
                f = f & ~(sp | sn)
        if pred[0] == "o":
            f = f | nan | emp
        else:
            t = t | nan | emp
        return B(t, f)

    # ------------------------------------------------------------ integer arithmetic
    def iadd(self, x, y, sgn=1):
        if sgn > 0:
            lo, hi = x.lo + y.lo, x.hi + y.hi
        else:
            lo, hi = x.lo - y.hi, x.hi - y.lo
        return self.mki(x.w, lo, hi, x.a + sgn * y.a, [p + sgn * q for p, q in zip(x.b, y.b)],
                        x.e + y.e + 1e-16 * (np.abs(x.a) + np.abs(y.a)))

    def imul(self, x, y):
        x, y = self.small(x), self.small(y)
        cf = [p.astype(float) * q.astype(float) for p in (x.lo, x.hi) for q in (y.lo, y.hi)]
        big = np.maximum.reduce([np.abs(c) for c in cf]) > 2.0 ** 61
        c = [p * q for p in (x.lo, x.hi) for q in (y.lo, y.hi)]
        lo, hi = np.minimum.reduce(c), np.maximum.reduce(c)
        if big.any():
            lo, hi = np.where(big, -I62, lo), np.where(big, I62, hi)
        with np.errstate(all="ignore"):
            a, b, e = self.amul(x, y)
        return self.mki(x.w, lo, hi, a, b, np.where(big, INF, e))

    def small(self, v):
        """the representative with the smaller magnitude"""
        s = self.signed(v)
        return s if (np.abs(s.lo) <= np.abs(v.lo)).all() else v

    def ishift(self, op, x, y):
        w = x.w
        y = self.unsigned(y)
        self.flag_ub((y.hi >= w) | (y.lo < 0), "shift amount out of range")
        if not (y.lo == y.hi).all():
            # hull over the possible amounts
            k0, k1 = int(max(0, y.lo.min())), int(min(w - 1, y.hi.max()))
            res, acc = None, None
            for k in range(k0, k1 + 1):
                sel = (y.lo <= k) & (k <= y.hi)
                r = self.ishift(op, x, self.iconst(k, w))
                res, acc = (r, sel) if res is None else (self.join(res, r, acc, sel), acc | sel)
            return self.top(w) if res is None else res
        k = np.clip(y.lo, 0, w - 1)
        p = np.left_shift(np.int64(1), np.minimum(k, 62))
        if op == "shl":
            big = (np.maximum(np.abs(x.lo), np.abs(x.hi)).astype(float) * p) > 2.0 ** 61
            lo, hi = np.where(big, -I62, x.lo * np.where(big, 1, p)), np.where(big, I62, x.hi * np.where(big, 1, p))
            return self.mki(w, lo, hi, x.a * p, [q * p for q in x.b], np.where(big, INF, x.e * p))
        x = self.unsigned(x) if op == "lshr" else self.signed(x)
        lo, hi = np.right_shift(x.lo, k), np.right_shift(x.hi, k)
        h = np.where(p > 1, 0.5 * (1 - 1.0 / p), 0.0)
        return self.mki(w, lo, hi, x.a / p - h, [q / p for q in x.b], x.e / p + h)

    @staticmethod
    def fill(d):
        d = d | (d >> 1)
        d = d | (d >> 2)
        d = d | (d >> 4)
        d = d | (d >> 8)
        d = d | (d >> 16)
        return d | (d >> 32)

    def ibit(self, op, x, y):
        w = x.w
        x, y = self.unsigned(x), self.unsigned(y)
        if y.src is not None and x.src is None:
            x, y = y, x
        sy = y.lo == y.hi
        if not sy.all():
            sx = x.lo == x.hi
            if not sy.any() and sx.all():
                x, y, sy = y, x, sx
            elif not (sy | ~sx).all():
                def pick(c, p, q):
                    return V(w, np.where(c, p.lo, q.lo), np.where(c, p.hi, q.hi), None, None, np.where(c, p.a, q.a),
                             [np.where(c, u, v) for u, v in zip(p.b, q.b)], np.where(c, p.e, q.e))
                c = ~sy & sx
                x, y = pick(c, y, x), pick(c, x, y)
                sy = y.lo == y.hi
        r = self.ibit1(op, x, V(w, y.lo, y.lo, None, None, y.a, y.b, y.e))
        if sy.all():
            return r
        hi = self.fill(x.hi | y.hi)
        if op == "and":
            lo, hi = np.zeros_like(hi), np.minimum(x.hi, y.hi)
        elif op == "or":
            lo = np.maximum(x.lo, y.lo)
        else:
            lo = np.zeros_like(hi)
        return self.mki(w, np.where(sy, r.lo, lo), np.where(sy, r.hi, hi), np.where(sy, r.a, 0.0),
                        [np.where(sy, p, 0.0) for p in r.b], np.where(sy, r.e, INF))

    def ibit1(self, op, x, y):
        w = x.w
        m = y.lo
        full = (1 << w) - 1 if w < 63 else (1 << 62) - 1 + (1 << 62)
        if op == "and":
            if x.src is not None and x.src[0] == "fbits" and w == 32 and (m == 0x7FFFFFFF).all():
                fa = self.fabs(x.src[1])
                r = self.bits_of(fa)
                r.src = ("absbits", fa)
                return r
        low = self.fill(x.lo ^ x.hi)
        ml = m & low
        lb = ml & -ml
        if op == "and":
            base = x.lo & ~low & m
            cont = (ml == 0) | ((ml + lb) == (low + 1))
            lo = np.where(cont, x.lo & m, base)
            hi = np.where(cont, x.hi & m, base | ml)
            # x & m = x - (x & ~m); the dropped low bits lie in [0, lb-1]
            drop = np.where(ml == 0, 0, lb - 1).astype(float)
            off = (x.lo & ~low & ~m & full).astype(float)
            e = np.where(cont & (ml != 0), x.e + drop / 2, np.where(ml == 0, INF, INF))
            return self.mki(w, lo, hi, x.a - off - drop / 2, x.b, e)
        if op == "or":
            base = (x.lo & ~low) | m
            dis = ml == 0
            lo = np.where(dis, x.lo | m, np.maximum(x.lo, base))
            hi = np.where(dis, x.hi | m, base | low)
            off = ((m & ~x.lo) if True else 0).astype(float)
            return self.mki(w, lo, hi, x.a + off, x.b, np.where(dis, x.e, INF))
        base = (x.lo & ~low) ^ (m & ~low)
        same, rev = ml == 0, ml == low
        lo = np.where(same, x.lo ^ m, np.where(rev, x.hi ^ m, base))
        hi = np.where(same, x.hi ^ m, np.where(rev, x.lo ^ m, base | low))
        a = np.where(same, x.a + ((x.lo ^ m) - x.lo), ((x.lo ^ m) + x.lo) - x.a)
        sg = np.where(same, 1.0, -1.0)
        return self.mki(w, lo, hi, a, [sg * q for q in x.b], np.where(same | rev, x.e, INF))

    def idiv(self, op, x, y):
        w = x.w
        if op[0] == "u":
            x, y = self.unsigned(x), self.unsigned(y)
        else:
            x, y = self.signed(x), self.signed(y)
        self.flag_ub((y.lo <= 0) & (y.hi >= 0), "division by zero")
        zero = (y.lo <= 0) & (y.hi >= 0)
        l, h = np.where(zero, 1, y.lo), np.where(zero, 1, y.hi)

        def tdiv(p, q):
            r = np.abs(p) // np.abs(q)
            return np.where((p < 0) != (q < 0), -r, r)
        c = [tdiv(p, q) for p in (x.lo, x.hi) for q in (l, h)]
        lo, hi = np.minimum.reduce(c), np.maximum.reduce(c)
        lo, hi = np.where(zero, -I62 if op[0] == "s" else 0, lo), np.where(zero, I62, hi)
        pt = (l == h) & ~zero
        lf = np.where(pt, l, 1).astype(float)
        sg = np.where((x.lo >= 0) == (lf > 0), 1.0, np.where((x.hi <= 0) | (x.lo >= 0), -1.0, 0.0))
        sure = (x.lo >= 0) | (x.hi <= 0)
        sg = np.where(sure, np.where((x.lo >= 0) == (lf > 0), 1.0, -1.0), 0.0)
        a = x.a / lf - sg * 0.5
        e = np.where(pt, x.e / np.abs(lf) + np.where(sure, 0.5, 1.0), INF)
        q = self.mki(w, lo, hi, a, [p / lf for p in x.b], e)
        if op in ("udiv", "sdiv"):
            return q
        # remainder
        m = self.imul(q, y)
        r = self.iadd(x, m, -1)
        mx = np.maximum(np.abs(l), np.abs(h)) - 1
        lo = np.where(x.lo >= 0, 0, -mx)
        hi = np.where(x.hi <= 0, 0, mx)
        hi = np.where(x.lo >= 0, np.minimum(hi, x.hi), hi)
        lo2, hi2 = np.maximum(r.lo, lo), np.minimum(r.hi, hi)
        bad = lo2 > hi2
        return self.mki(w, np.where(bad, lo, lo2), np.where(bad, hi, hi2), r.a, r.b, r.e)

    def icmp(self, pred, x, y):
        if pred in ("eq", "ne"):
            x, y = self.unsigned(x), self.unsigned(y)
            t = (x.lo <= y.hi) & (y.lo <= x.hi)
            f = ~((x.lo == x.hi) & (y.lo == y.hi) & (x.lo == y.lo))
            return B(t, f) if pred == "eq" else B(f, t)
        if pred[0] == "u":
            x, y = self.unsigned(x), self.unsigned(y)
        else:
            x, y = self.signed(x), self.signed(y)
        k = pred[1:]
        t, f = {"lt": (x.lo < y.hi, x.hi >= y.lo), "le": (x.lo <= y.hi, x.hi > y.lo),
                "gt": (x.hi > y.lo, x.lo <= y.hi), "ge": (x.hi >= y.lo, x.lo < y.hi)}[k]
        return B(t, f)

    # ------------------------------------------------------------ conversions
    def bits_of(self, x):
        emp = x.lo > x.hi
        lo_, hi_ = np.where(emp, 0.0, x.lo), np.where(emp, 0.0, x.hi)
        l, h = fbits(lo_ + 0.0), fbits(hi_ + 0.0)
        S = 0x80000000
        neg = (hi_ < 0) | ((hi_ <= 0) & (lo_ < 0) & x.pz)
        pos = (lo_ > 0) | ((lo_ >= 0) & x.nz)
        # entirely negative: bits decrease with the value
        h = np.where(neg & (hi_ == 0), S, h)
        lo = np.where(pos, l, np.where(neg, h, 0))
        hi = np.where(pos, h, np.where(neg, l, np.maximum(h, np.where(lo_ < 0, l, S))))
        # exactly zero
        zz = (lo_ == 0) & (hi_ == 0) & ~pos & ~emp
        hi = np.where(zz, S, hi)
        lo = np.where(zz & x.pz, S, lo)
        # NaN payload
        n = x.nan | emp
        sn = n & ~emp
        hi = np.where(sn, 0xFFFFFFFF, hi)
        lo = np.where(emp, np.where(x.ns < 0, 0xFF800001, 0x7F800001), lo)
        hi = np.where(emp, np.where(x.ns > 0, 0x7FFFFFFF, 0xFFFFFFFF), hi)
        sm = (pos | neg) & ~n & ((lo >> 23) == (hi >> 23)) & ((lo & 0x7F800000) != 0x7F800000)
        with np.errstate(all="ignore"):
            ex = ((lo >> 23) & 0xFF)
            sc = np.ldexp(1.0, np.where(sm, np.maximum(ex, 1) - 150, 0).astype(np.int32)) * np.where(neg, -1.0, 1.0)
            ref = np.where(neg, hi_, lo_)       # value whose bits are lo
            c1 = (pos | neg) & ~n & (((hi >> 23) - (lo >> 23)) == 1) & ((hi & 0x7F800000) != 0x7F800000)
            off = np.zeros_like(sc)
            if c1.any():
                # two adjacent octaves: chord of the concave piecewise linear map
                far = np.where(neg, lo_, hi_)
                sc = np.where(c1, (far - ref) / np.where(c1, hi - lo, 1), sc)
                p = (hi >> 23) << 23
                off = np.where(c1, p - lo - (bfloat(np.where(c1, p, 0)) - ref) / sc, 0.0)
                sm = sm | c1
            a = lo + (x.a - np.where(sm, ref, 0.0)) / sc + 0.5 * off
            b = [p / sc for p in x.b]
            e = np.where(sm, x.e / np.abs(sc) + 0.5 * np.abs(off) + np.where(c1, 1e-6, 0.0), INF)
        r = self.mki(32, lo, hi, a, b, e)
        r.src = ("fbits", x)
        return r

    def float_of(self, v):
        if v.src is not None:
            return v.src[1]
        v = self.unsigned(v)
        l, h = v.lo, v.hi
        P, S, N = 0x7F800000, 0x80000000, 0xFF800000
        haspos = l <= P
        hasneg = (h >= S) & (l <= N)
        nan = ((h > P) & (l < S)) | (h > N)
        plo, phi = bfloat(np.where(haspos, l, 0)), bfloat(np.where(haspos, np.minimum(h, P), 0))
        nlo, nhi = bfloat(np.where(hasneg, np.minimum(h, N), S)), bfloat(np.where(hasneg, np.maximum(l, S), S))
        lo = np.where(haspos, plo, INF)
        hi = np.where(haspos, phi, -INF)
        lo = np.where(hasneg, np.minimum(lo, nlo), lo)
        hi = np.where(hasneg, np.maximum(hi, nhi), hi)
        nz = ~((l <= S) & (h >= S))
        sm = ((l >> 23) == (h >> 23)) & ((l & P) != P)
        ex = (l >> 23) & 0xFF
        sc = np.ldexp(1.0, np.where(sm, np.maximum(ex, 1) - 150, 0).astype(np.int32)) * np.where(l >= S, -1.0, 1.0)
        c1 = (((h >> 23) - (l >> 23)) == 1) & ((h & P) != P) & ((l & P) != P) & ((l < S) == (h < S))
        ref = bfloat(np.where(sm | c1, l, 0))
        off = np.zeros_like(sc)
        if c1.any():
            far = bfloat(np.where(c1, h, 0))
            sc = np.where(c1, (far - ref) / np.where(c1, h - l, 1), sc)
            p = (h >> 23) << 23
            off = np.where(c1, bfloat(np.where(c1, p, 0)) - ref - sc * (p - l), 0.0)
            sm = sm | c1
        with np.errstate(all="ignore"):
            a = ref + sc * (v.a - l) + 0.5 * off
        e = v.e * np.abs(sc) + 0.5 * np.abs(off) + np.where(c1, 1e-15 * np.abs(ref), 0.0)
        r = self.mkf(lo, hi, nan, nz, a, [p * sc for p in v.b], np.where(sm, e, INF), ~((l <= 0) & (h >= 0)))
        r.ns = np.where((l > P) & (h < S), 1, np.where(l > N, -1, 0))
        return r

    def ftoi(self, x, w, signed):
        lim_lo, lim_hi = (-(2.0 ** (w - 1)), 2.0 ** (w - 1)) if signed else (0.0, 2.0 ** w)
        bad = x.nan | (x.lo > x.hi) | (np.trunc(x.lo) < lim_lo) | (np.trunc(x.hi) >= lim_hi)
        self.flag_ub(bad, "float to integer conversion out of range")
        cl = -(2.0 ** 61)
        lo = np.trunc(np.clip(np.where(bad, 0.0, x.lo), cl, -cl)).astype(np.int64)
        hi = np.trunc(np.clip(np.where(bad, 0.0, x.hi), cl, -cl)).astype(np.int64)
        t = self.top(w)
        lo, hi = np.where(bad, t.lo, lo), np.where(bad, t.hi, hi)
        sg = np.where(x.lo >= 0, 0.5, np.where(x.hi <= 0, -0.5, 0.0))
        e = x.e + np.where(sg == 0, 1.0, 0.5)
        return self.mki(w, lo, hi, x.a - sg, x.b, np.where(bad, INF, e))

    def itof(self, v, signed):
        v = self.signed(v) if signed else self.unsigned(v)
        lo, hi = f32(v.lo.astype(float)) + 0.0, f32(v.hi.astype(float)) + 0.0
        e = v.e + np.where(np.maximum(np.abs(lo), np.abs(hi)) < 2.0 ** 24, 0.0, self.rnd(lo, hi))
        return self.mkf(lo, hi, FALSE1, TRUE1, v.a, v.b, e)

    # ------------------------------------------------------------ joins
    def join(self, x, y, sx, sy):
        """per lane: x where only sx, y where only sy, hull where both"""
        if x is y:
            return x
        if isinstance(x, B):
            return B((x.t & sx) | (y.t & sy), (x.f & sx) | (y.f & sy))
        if isinstance(x, Ptr):
            if isinstance(x.off, int) and x.off == y.off and x.obj == y.obj:
                return x
            raise Unsupported("join of pointers")
        if x.d and not DBL:
            return self.dbl(self.join, x, y, sx, sy)
        both = sx & sy
        oy = sy & ~sx
        if x.w == 0:
            lo = np.where(both, np.minimum(x.lo, y.lo), np.where(oy, y.lo, x.lo))
            hi = np.where(both, np.maximum(x.hi, y.hi), np.where(oy, y.hi, x.hi))
            nan = np.where(both, x.nan | y.nan, np.where(oy, y.nan, x.nan))
            nz = np.where(both, x.nz & y.nz, np.where(oy, y.nz, x.nz))
            pz = np.where(both, x.pz & y.pz, np.where(oy, y.pz, x.pz))
            ex = both & (x.lo > x.hi)           # only NaN on one side: keep the other affine form
            ey = both & (y.lo > y.hi)
        else:
            if not ((x.lo == y.lo) & (x.hi == y.hi)).all():
                x, y = self.small(x), self.small(y)
            lo = np.where(both, np.minimum(x.lo, y.lo), np.where(oy, y.lo, x.lo))
            hi = np.where(both, np.maximum(x.hi, y.hi), np.where(oy, y.hi, x.hi))
            ex = ey = both & False
        takey = oy | ex
        mix = both & ~ex & ~ey
        a, b, e = np.where(takey, y.a, x.a), [np.where(takey, q, p) for p, q in zip(x.b, y.b)], np.where(takey, y.e, x.e)
        if mix.any():
            # centre the joined form between the two
            d = np.abs(x.a - y.a)
            bb = []
            for p, q in zip(x.b, y.b):
                d = d + np.abs(p - q)
                bb.append(0.5 * (p + q))
            # [c1-e1,c1+e1] u [c2-e2,c2+e2] within mid +- (d/2 + max(e))
            with np.errstate(all="ignore"):
                e2 = 0.5 * d + np.maximum(x.e, y.e)
            inf = ~np.isfinite(x.e) | ~np.isfinite(y.e)
            e2 = np.where(inf, INF, e2)
            a = np.where(mix, 0.5 * (x.a + y.a), a)
            b = [np.where(mix, k, z) for k, z in zip(bb, b)]
            e = np.where(mix, e2, e)
        if x.w == 0:
            r = self.mkf(lo, hi, nan, nz, a, b, e, pz)
            r.ns = np.where(both, np.where(x.ns == y.ns, x.ns, 0), np.where(oy, y.ns, x.ns))
            return r
        return self.mki(x.w, lo, hi, a, b, e)

    def dbl(self, f, *a):
        """an operation on binary64 values"""
        global DBL
        DBL = True
        try:
            r = f(*a)
        finally:
            DBL = False
        if isinstance(r, V) and r.w == 0:
            r.d = True
        return r

    def ftrunc(self, x):
        lo, hi = f32(x.lo), f32(x.hi)
        return self.mkf(lo, hi, x.nan, x.nz & ~((lo <= 0) & (hi >= 0)) | (lo > 0) | (hi < 0), x.a, x.b, x.e + self.rnd(lo, hi))

    def fext(self, x):
        r = V(0, x.lo, x.hi, x.nan, x.nz, x.a, x.b, x.e, pz=x.pz)
        r.ns = x.ns
        return r

    def select(self, c, x, y):
        return self.join(x, y, c.t, c.f)


# Contracts of callees that are proved on their own (property of the elementary functions, property of the special
# values) and used instead of the body where the caller is analysed modularly: name -> method, relative error
SUMMARY = {}
FROZEN = set()          # variables that no code of the library ever writes or takes the address of


def frozen(text):
    """global variables used by nothing but loads"""
    import re
    names = re.findall(r"^@([\w.$]+) = (?:[\w() ]*)global ", text, re.M)
    bad = set()
    for l in text.splitlines():
        if "@" not in l or l.startswith("@") and " global " in l:
            continue
        l2 = re.sub(r" = load [^@]*, ptr @[\w.$]+", "", l)
        bad.update(re.findall(r"@([\w.$]+)", l2))
    return set(names) - bad


# ==================================================================== interpreter
class Interp:
    def __init__(self, mod, dom, n, max_steps=400000, widen=None):
        self.widen = widen
        self.mod, self.D, self.n = mod, dom, n
        self.steps = 0
        self.max_steps = max_steps
        self.mem = {}             # (object, offset) -> value: the memory of the current program point
        self.owned = True
        self.ginits = {}
        self.deadline = None
        self.nobj = 0
        self.funcs = set()
        self._consts = {}

    def const(self, c, env):
        k = c.k
        if k == "local":
            return env[c.v]
        key = id(c)
        v = self._consts.get(key)
        if v is None:
            v = self._const(c)
            self._consts[key] = v
        return v

    def _const(self, c):
        k, t = c.k, c.t
        if k == "int":
            if t.k == "int" and t.n == 1:
                return B(np.array([bool(c.v)]), np.array([not c.v]))
            return self.D.iconst(c.v, t.n)
        if k == "fp":
            kind, x = c.v
            val = float("nan") if kind == "nan" else x * INF if kind == "inf" else float(x)
            return self.D.dbl(self.D.fconst, val) if t.k == "double" else self.D.fconst(val)
        if k in ("undef", "poison"):
            if t.k == "float":
                return self.D.top(0)
            if t.k == "int":
                return self.D.top(t.n) if t.n > 1 else B(TRUE1, TRUE1)
            return None
        if k == "zero" and t.k == "float":
            return self.D.fconst(0.0)
        if k == "global":
            return Ptr(("g", c.v), 0)
        if k == "null":
            return Ptr(None, 0)
        if k == "gep":
            return self.constgep(c)
        raise Unsupported("constant %s" % k)

    def constgep(self, c):
        raise Unsupported("constant getelementptr")

    # ---- memory
    def ginit(self, name):
        g = self.mod.get_global(name)
        if not g["const"]:
            if name not in FROZEN:
                raise Unsupported("mutable global %s" % name)
        import irparse
        out = {}

        def put(c, t, off):
            if t.k == "arr":
                es = irparse.size_of(t.el)
                if c.k == "zero":
                    for i in range(t.n):
                        put(type(c)("zero", None, t.el), t.el, off + i * es)
                elif c.k == "str":
                    bs = c.v if isinstance(c.v, (bytes, list, tuple)) else bytes(c.v, "latin1")
                    for i, b in enumerate(bs):
                        out[off + i] = ("i", b if isinstance(b, int) else ord(b), 8)
                else:
                    for i, x in enumerate(c.v):
                        put(x, t.el, off + i * es)
            elif t.k == "float":
                if c.k == "zero":
                    out[off] = ("f", 0.0)
                else:
                    kind, x = c.v
                    out[off] = ("f", float("nan") if kind == "nan" else x * INF if kind == "inf" else float(x))
            elif t.k == "int":
                out[off] = ("i", 0 if c.k == "zero" else c.v, t.n)
            else:
                raise Unsupported("global of type %r" % t)
        put(g["init"], g["type"], 0)
        return out, irparse.size_of(g["type"])

    def load(self, p, t, mask):
        D = self.D
        if p.obj is None:
            D.flag_ub(np.ones(1, bool), "null access")
            return D.top(0 if t.k == "float" else t.n)
        if p.obj[0] == "g":
            key = p.obj[1]
            if key not in self.ginits:
                self.ginits[key] = self.ginit(key)
            cells, size = self.ginits[key]
            import irparse
            es = irparse.size_of(t)
            if isinstance(p.off, int):
                lo = hi = np.array([p.off])
            else:
                lo, hi = p.off.lo, p.off.hi
            D.flag_ub((lo < 0) | (hi > size - es), "constant table index out of bounds")
            offs = sorted(cells)
            lo, hi = np.clip(lo, 0, size - es), np.clip(hi, 0, size - es)
            vals = np.array([cells[o][1] for o in offs], float if t.k == "float" else np.int64)
            if t.k == "float":
                vals = f32(vals)
            i0, i1 = lo // es, hi // es
            mn, mx = vals[i0].copy(), vals[i1].copy()
            span = int((i1 - i0).max()) if i0.size else 0
            for s in range(span + 1):
                idx = np.minimum(i0 + s, i1)
                mn, mx = np.minimum(mn, vals[idx]), np.maximum(mx, vals[idx])
            inf = np.where(mn == mx, 0.0, INF)
            if t.k == "float":
                return D.mkf(mn, mx, FALSE1, FALSE1, mn, [Z1] * D.K, inf)
            return D.mki(t.n, mn, mx, mn.astype(float), [Z1] * D.K, inf)
        if not isinstance(p.off, int):
            v, vm = None, None
            for (o, k), x in self.mem.items():
                if o == p.obj:
                    here = (p.off.lo <= k) & (k <= p.off.hi)
                    if not here.any():
                        continue
                    if not isinstance(x, V) or x.w != (0 if t.k == "float" else t.n):
                        raise Unsupported("variable offset into a local object")
                    v, vm = (x, here) if v is None else (D.join(v, x, vm, here), vm | here)
            return v if v is not None else D.top(0 if t.k == "float" else t.n)
        v = self.mem.get((p.obj, p.off))
        if v is None:
            return self.D.top(0 if t.k == "float" else t.n)
        w = 0 if t.k == "float" else t.n
        if isinstance(v, V) and v.w != w:
            if w == 0 and v.w == 32:
                return D.float_of(v)
            if w == 32 and v.w == 0:
                return D.bits_of(v)
            raise Unsupported("load with another type")
        return v

    def own(self):
        if not self.owned:
            self.mem, self.owned = dict(self.mem), True

    def store(self, p, v, mask):
        if p.obj is None or p.obj[0] == "g":
            raise Unsupported("store outside local objects")
        self.own()
        if isinstance(p.off, int):
            self.mem[(p.obj, p.off)] = v
            return
        # one of several elements: each may keep its value
        for (o, k), x in list(self.mem.items()):
            if o == p.obj:
                here = (p.off.lo <= k) & (k <= p.off.hi)
                if here.any():
                    if not isinstance(x, V) or not isinstance(v, V) or x.w != v.w:
                        raise Unsupported("variable offset into a local object")
                    self.mem[(o, k)] = self.D.join(x, v, TRUE1, here)

    def join_mem(self, x, y, sx, sy):
        """the memory after a merge; a cell written on one side only is indeterminate on the other, where nothing may read it"""
        if x is y:
            return x
        out = dict(x)
        for k, v in y.items():
            u = x.get(k)
            if u is None:
                out[k] = v
            elif u is not v:
                if isinstance(u, V) and isinstance(v, V) and u.w != v.w:
                    u = self.D.float_of(u) if (u.w, v.w) == (32, 0) else self.D.bits_of(u) if (u.w, v.w) == (0, 32) else None
                    if u is None:
                        raise Unsupported("merge of different types")
                out[k] = self.D.join(u, v, sx, sy)
        return out

    # ---- functions
    def call(self, name, args, mask, depth=0):
        import irparse
        D = self.D
        if depth > 60:
            raise Unsupported("call depth")
        fn = self.mod.funcs.get(name)
        if name in SUMMARY:
            return getattr(D, SUMMARY[name][0])(*args, *SUMMARY[name][1:])
        if fn is None or fn.is_decl:
            return self.intrinsic(name, args, mask)
        self.funcs.add(name)
        fn.parse()
        if not hasattr(fn, "loopmax"):
            self.loopinfo(fn)
        env = {}
        for (nm, t, byval), v in zip(fn.args, args):
            env[nm] = v
        pend = {fn.entry: [mask, {}, self.mem]}        # block -> mask, phi values, memory
        back = {}                                      # loop head -> same, arriving over back edges
        retv, retm, retmem = None, None, None
        trips = {}
        while pend or back:
            best, bk = None, None
            for b in pend:
                if best is None or fn.prio[b] < best:
                    best, bk = fn.prio[b], (b, False)
            for b in back:
                p = fn.loopmax[b] + 0.5
                if best is None or p < best:
                    best, bk = p, (b, True)
            b, isb = bk
            m, phis, self.mem = (back if isb else pend).pop(b)
            self.owned = False
            blk = fn.blocks[b]
            if not isb:
                trips[b] = 0
            elif self.widen is not None:
                # widening: after that many rounds the carried values become unknown; one more round is then a fixpoint
                trips[b] += 1
                if trips[b] > self.widen + 1:
                    continue
                if trips[b] == self.widen + 1:
                    phis = {k: D.join(v, D.top(v.w), m, m) if isinstance(v, V) else B(m, m) if isinstance(v, B) else v for k, v in phis.items()}
                    if any(isinstance(v, Ptr) for v in phis.values()) or self.stores_in(fn, b):
                        raise Unsupported("widening of a loop that writes memory")
            env.update(phis)
            D.mask = m
            self.steps += 1
            if self.steps > self.max_steps:
                raise Budget("step limit")
            if self.deadline is not None and time.time() > self.deadline:
                raise Budget("time limit")
            for I in blk.insts:
                op = I.op
                if op == "br":
                    if not I.a:
                        self.edge(fn, env, b, I.x[0], m, pend, back)
                    else:
                        c = self.const(I.a[0], env)
                        mt, mf = m & c.t, m & c.f
                        if mt.any():
                            self.edge(fn, env, b, I.x[0], mt, pend, back)
                        if mf.any():
                            self.edge(fn, env, b, I.x[1], mf, pend, back)
                elif op == "switch":
                    v = self.const(I.a[0], env)
                    rest = m
                    for k, l in I.x[1]:
                        c = D.icmp("eq", v, D.iconst(k, v.w))
                        mk = m & c.t
                        if mk.any():
                            self.edge(fn, env, b, l, mk, pend, back)
                        rest = rest & c.f
                    if rest.any():
                        self.edge(fn, env, b, I.x[0], rest, pend, back)
                elif op == "ret":
                    v = self.const(I.a[0], env) if I.a else None
                    if retm is None:
                        retv, retm, retmem = v, m, self.mem
                    else:
                        if v is not None:
                            retv = D.join(retv, v, retm, m)
                        retmem = self.join_mem(retmem, self.mem, retm, m)
                        retm = retm | m
                elif op == "unreachable":
                    D.flag_ub(m, "unreachable code reached")
                elif op == "call":
                    if I.x.k != "global":
                        raise Unsupported("indirect call")
                    r = self.call(I.x.v, [self.const(x, env) for x in I.a], m, depth + 1)
                    D.mask = m
                    if I.dst:
                        env[I.dst] = r
                else:
                    r = self.inst(I, env, m)
                    if I.dst:
                        env[I.dst] = r
        if retm is None:
            raise Unsupported("function %s never returns" % name)
        self.mem, self.owned = retmem, False
        return retv

    def stores_in(self, fn, head):
        return any(I.op == "store" or (I.op == "call" and not str(getattr(I.x, "v", "")).startswith("llvm."))
                   for b, blk in fn.blocks.items() if b in fn.prio and fn.prio[head] <= fn.prio[b] <= fn.loopmax[head] for I in blk.insts)

    def loopinfo(self, fn):
        fn.loopmax = {}

        def walk(p):
            mx = -1
            for e in p:
                if isinstance(e, list):
                    k = walk(e)
                    fn.loopmax[e[0]] = k
                    mx = max(mx, k)
                else:
                    mx = max(mx, fn.prio[e])
            return mx
        walk(fn.wto)

    def edge(self, fn, env, src, dst, m, pend, back):
        blk = fn.blocks[dst]
        isback = fn.prio[src] >= fn.prio[dst]
        tab = back if isback else pend
        vals = {}
        for P in blk.phis:
            for c, l in P.a:
                if l == src:
                    vals[P.dst] = self.const(c, env)
                    break
        old = tab.get(dst)
        if old is None:
            tab[dst] = [m, vals, self.mem]
        else:
            om, ov, omem = old
            tab[dst] = [om | m, {k: self.D.join(ov[k], v, om, m) for k, v in vals.items()}, self.join_mem(omem, self.mem, om, m)]

    def inst(self, I, env, m):
        D, op = self.D, I.op
        A = I.a
        if op in ("fadd", "fsub", "fmul", "fdiv") and I.t.k == "double":
            return D.dbl(getattr(D, op), self.const(A[0], env), self.const(A[1], env))
        if op == "fneg" and I.t.k == "double":
            return D.dbl(D.fneg, self.const(A[0], env))
        if op == "fpext":
            return D.dbl(D.fext, self.const(A[0], env))
        if op == "fptrunc" and I.t.k == "float":
            return D.ftrunc(self.const(A[0], env))
        if op in ("sitofp", "uitofp") and I.t.k == "double" and isinstance(self.const(A[0], env), V):
            return D.dbl(D.itof, self.const(A[0], env), op == "sitofp")
        if op in ("fadd", "fsub", "fmul", "fdiv"):
            if I.t.k != "float":
                raise Unsupported("floating type %r" % I.t)
            return getattr(D, op)(self.const(A[0], env), self.const(A[1], env))
        if op == "fneg":
            return D.fneg(self.const(A[0], env))
        if op == "fcmp":
            return D.fcmp(I.x, self.const(A[0], env), self.const(A[1], env))
        if op == "icmp":
            x, y = self.const(A[0], env), self.const(A[1], env)
            if isinstance(x, B):
                if I.x == "eq":
                    return B((x.t & y.t) | (x.f & y.f), (x.t & y.f) | (x.f & y.t))
                if I.x == "ne":
                    return B((x.t & y.f) | (x.f & y.t), (x.t & y.t) | (x.f & y.f))
                raise Unsupported("icmp on i1")
            if isinstance(x, Ptr):
                raise Unsupported("pointer comparison")
            return D.icmp(I.x, x, y)
        if op in ("add", "sub", "mul", "shl", "lshr", "ashr", "and", "or", "xor", "udiv", "sdiv", "urem", "srem"):
            x, y = self.const(A[0], env), self.const(A[1], env)
            if isinstance(x, B):
                if op == "and":
                    return B(x.t & y.t, x.f | y.f)
                if op == "or":
                    return B(x.t | y.t, x.f & y.f)
                if op == "xor":
                    return B((x.t & y.f) | (x.f & y.t), (x.t & y.t) | (x.f & y.f))
                raise Unsupported("%s on i1" % op)
            if op in ("add", "sub"):
                r = self.nsw(I, D.iadd(self.pick(I, x), self.pick(I, y), 1 if op == "add" else -1), op, x, y)
                return r
            if op == "mul":
                return self.nsw(I, D.imul(x, y), op, x, y)
            if op in ("shl", "lshr", "ashr"):
                return D.ishift(op, x, y)
            if op in ("and", "or", "xor"):
                return D.ibit(op, x, y)
            return D.idiv(op, x, y)
        if op == "select":
            return D.select(self.const(A[0], env), self.const(A[1], env), self.const(A[2], env))
        if op in ("zext", "sext", "trunc"):
            v = self.const(A[0], env)
            if isinstance(v, B):
                one = 1 if op == "zext" else -1
                if I.t.k == "int" and I.t.n == 1:
                    return v
                lo = np.where(v.f, min(0, one), one)
                hi = np.where(v.t, max(0, one), 0)
                if one < 0:
                    lo = np.where(v.t, -1, 0)
                    hi = np.where(v.f, 0, -1)
                return D.mki(I.t.n, lo.astype(np.int64), hi.astype(np.int64), Z1, [Z1] * D.K, np.array([INF]))
            if op == "zext":
                v = D.unsigned(v)
            elif op == "sext":
                v = D.signed(v)
            elif I.t.n == 1:
                u = D.ibit("and", v, D.iconst(1, v.w))
                return B(u.hi >= 1, u.lo <= 0)
            return D.mki(I.t.n, v.lo, v.hi, v.a, v.b, v.e)
        if op == "bitcast":
            v = self.const(A[0], env)
            if isinstance(v, V):
                if v.w == 32 and I.t.k == "float":
                    return D.float_of(v)
                if v.w == 0 and I.t.k == "int":
                    return D.bits_of(v)
            return v
        if op in ("fptosi", "fptoui"):
            return D.ftoi(self.const(A[0], env), I.t.n, op == "fptosi")
        if op in ("sitofp", "uitofp"):
            v = self.const(A[0], env)
            if isinstance(v, B):
                return D.mkf(np.where(v.f, 0.0, 1.0), np.where(v.t, 1.0, 0.0), FALSE1, TRUE1, Z1, [Z1] * D.K, np.array([INF]))
            if I.t.k != "float":
                raise Unsupported("floating type %r" % I.t)
            return D.itof(v, op == "sitofp")
        if op == "freeze":
            return self.const(A[0], env)
        if op == "alloca":
            self.nobj += 1
            return Ptr(("l", self.nobj), 0)
        if op == "load":
            return self.load(self.const(A[0], env), I.t, m)
        if op == "store":
            self.store(self.const(A[1], env), self.const(A[0], env), m)
            return None
        if op == "getelementptr":
            return self.gep(I, env)
        raise Unsupported("instruction %s" % op)

    def pick(self, I, v):
        return self.D.signed(v) if "nsw" in I.flags else v

    def nsw(self, I, r, op, x, y):
        return r

    def gep(self, I, env):
        import irparse
        D = self.D
        p = self.const(I.a[0], env)
        t = I.t
        off = p.off
        first = True
        for c in I.a[1:]:
            ix = self.const(c, env)
            if first:
                es, first = irparse.size_of(t), False
            elif t.k == "struct":
                off = self.oadd(off, irparse.field_offset(t, int(ix.lo[0])))
                t = t.fields[int(ix.lo[0])]
                continue
            else:
                t = t.el
                es = irparse.size_of(t)
            ix = D.signed(ix)
            if ix.lo.size == 1 and ix.lo[0] == ix.hi[0]:
                off = self.oadd(off, int(ix.lo[0]) * es)
            else:
                v = V(64, ix.lo * es, ix.hi * es, None, None, Z1, [Z1] * D.K, np.array([INF]))
                off = self.oadd(off, v)
        return Ptr(p.obj, off)

    def oadd(self, o, d):
        if isinstance(o, int) and isinstance(d, int):
            return o + d
        D = self.D
        if isinstance(o, int):
            o = D.iconst(o, 64)
        if isinstance(d, int):
            d = D.iconst(d, 64)
        r = V(64, o.lo + d.lo, o.hi + d.hi, None, None, Z1, [Z1] * D.K, np.array([INF]))
        if r.lo.size == 1 and r.lo[0] == r.hi[0]:
            return int(r.lo[0])
        return r

    def intrinsic(self, name, args, mask):
        D = self.D
        if name.startswith("llvm.fabs"):
            return D.fabs(args[0])
        if name.startswith(("llvm.lifetime", "llvm.dbg", "llvm.assume", "llvm.experimental.noalias")):
            return None
        if name.startswith("llvm.memcpy"):
            dst, src, n = args[0], args[1], args[2]
            if not (n.lo == n.hi).all() or dst.obj is None or dst.obj[0] == "g" or not isinstance(dst.off, int) or not isinstance(src.off, int):
                raise Unsupported("memcpy")
            n = int(n.lo[0])
            self.own()
            if src.obj[0] == "g":
                key = src.obj[1]
                if key not in self.ginits:
                    self.ginits[key] = self.ginit(key)
                for o, c in self.ginits[key][0].items():
                    if src.off <= o < src.off + n:
                        self.mem[(dst.obj, dst.off + o - src.off)] = D.fconst(c[1]) if c[0] == "f" else D.iconst(c[1], c[2])
            else:
                for k, v in list(self.mem.items()):
                    if k[0] == src.obj and src.off <= k[1] < src.off + n:
                        self.mem[(dst.obj, dst.off + k[1] - src.off)] = v
            return None
        if name.startswith(("llvm.smax", "llvm.smin", "llvm.umax", "llvm.umin")):
            x, y = args
            cvt = D.signed if name[5] == "s" else D.unsigned
            x, y = cvt(x), cvt(y)
            f = np.maximum if "max" in name else np.minimum
            return D.mki(x.w, f(x.lo, y.lo), f(x.hi, y.hi), Z1, [Z1] * D.K, np.array([INF]))
        if name.startswith("llvm.abs"):
            x = D.signed(args[0])
            pos, neg = x.lo >= 0, x.hi <= 0
            lo = np.where(pos, x.lo, np.where(neg, -x.hi, 0))
            hi = np.maximum(np.abs(x.lo), np.abs(x.hi))
            s = np.where(pos, 1.0, np.where(neg, -1.0, 0.0))
            return D.mki(x.w, lo, hi, x.a * s, [p * s for p in x.b], np.where(pos | neg, x.e, INF))
        raise Unsupported("call to %s" % name)
