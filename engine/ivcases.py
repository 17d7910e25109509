"""Cases of the interval/affine analysis: function, input domain, reference, tolerance."""
import numpy as np
from scipy import special as sp

CASES = []
FMAX, FMIN, SUB = 3.4028234663852886e38, 1.1754943508222875e-38, 1.401298464324817e-45
INF = np.inf
PI = float(np.float32(np.pi))
PI2 = float(np.float32(2 * np.pi))


def case(group, fn, dom, check, **kw):
    dl = [dom] if isinstance(dom, tuple) else list(dom)
    if NAN in dl:
        for s in (1, -1):
            case(group, fn, [("nan", s) if x == NAN else x for x in dl], check, **kw)
        return
    d = dict(group=group, fn=fn, dom=[dom] if isinstance(dom, tuple) else list(dom), check=check, **kw)
    k = sum(1 for c in CASES if c["group"] == group and c["fn"] == fn)
    d["name"] = "%s/%s.%d" % (group, fn, k)
    CASES.append(d)


def approx(group, fn, dom, ref, **kw):
    case(group, fn, dom, "approx", ref=ref, **kw)


def lin(a, b, n):
    return ("lin", a, b, n)


def bits(a, b, n):
    return ("bits", a, b, n)


def pts(*x):
    return ("pts", x)


def fc(x):
    return ("const", x)


def ic(n, w=64):
    return ("const", n, w)


NAN = ("nan",)

# ------------------------------------------------------------------------------- elementary functions
G = "elem"
for s in (1, -1):
    approx(G, "recip", bits(s * 2.0**-125, s * 2.0**125, 10000), lambda x: 1 / x, rel=3e-3)
    approx(G, "cbrt", bits(s * FMIN, s * FMAX, 20000), np.cbrt, rel=4e-5)
    approx(G, "rCbrt", bits(s * FMIN, s * FMAX, 20000), lambda x: 1 / np.cbrt(x), rel=3e-6, budget=2000000)
    approx(G, "atan", bits(s * 1e-3, s * FMAX, 4000), np.arctan, abs=7e-3)
    approx(G, "asinh", bits(s * 1e-3, s * FMAX, 20000), np.arcsinh, abs=2e-5)
approx(G, "sqrt", bits(FMIN, FMAX, 20000), np.sqrt, rel=3e-6)
approx(G, "rSqrt", bits(FMIN, FMAX, 20000), lambda x: 1 / np.sqrt(x), rel=2e-3)
for f, r in (("sin", np.sin), ("cos", np.cos)):
    approx(G, f, lin(-20, 20, 4000), r, abs=1.1e-3)
    approx(G, f, lin(-1000, 1000, 100000), r, abs=1.4e-3)
approx(G, "tan", lin(-1.5, 1.5, 4000), np.tan, abs=2e-3, rel=1.4e-2)
for k in (1, 2, -1, -2):
    approx(G, "tan", lin(k * np.pi - 1.5, k * np.pi + 1.5, 3000), np.tan, abs=3e-3, rel=2.0e-2)
approx(G, "asin", lin(-1, 1, 2000), np.arcsin, abs=1.3e-2)
approx(G, "acos", lin(-1, 1, 2000), np.arccos, abs=1.3e-2)
approx(G, "atan", lin(-1, 1, 2000), np.arctan, abs=7e-3)
approx(G, "exp2", lin(-125.99, 127.5, 20000), np.exp2, rel=1e-6)
approx(G, "exp2", lin(127.5, 127.9999, 2000), np.exp2, rel=1e-5)
approx(G, "exp", lin(-87.3, 88.0, 20000), np.exp, rel=1e-5)
approx(G, "exp10", lin(-37.9, 38.2, 20000), lambda x: np.exp2(x * 3.321928094887362), rel=1e-5)
approx(G, "expm1", lin(-87, 0, 8000), np.expm1, abs=5e-7)
approx(G, "expm1", lin(0, 88.0, 20000), np.expm1, abs=5e-7, rel=1e-5)
approx(G, "log2", bits(FMIN, FMAX, 20000), np.log2, abs=1e-5)
approx(G, "log", bits(FMIN, FMAX, 20000), np.log, abs=1.2e-5)
approx(G, "log10", bits(FMIN, FMAX, 20000), np.log10, abs=8e-6)
approx(G, "log1p", bits(1e-3, 1e30, 10000), np.log1p, abs=1e-5)
approx(G, "log1p", lin(-0.999, 0.001, 2000), np.log1p, abs=1e-5)
for ex in (2.0, 0.5, -1.0, 3.5, 1.0, -0.25, 3.0, -2.0, 1.0 / 3, 0.1, 4.0):
    approx(G, "pow", [bits(1e-8, 1e8, 4000), fc(ex)], lambda x, ex=ex: np.power(x, float(np.float32(ex))), rel=1.5e-4)
for ba in (10.0, 0.3, 1.5, 7.0, 0.02, 1.0001):
    approx(G, "pow", [fc(ba), lin(-20, 20, 4000)], lambda x, ba=ba: np.power(float(np.float32(ba)), x), rel=1.5e-4)
approx(G, "pow", [fc(2.0), lin(-100, 100, 8000)], np.exp2, rel=1e-5)
approx(G, "sinh", lin(-87, 87, 20000), np.sinh, abs=1e-6, rel=1e-5)
approx(G, "cosh", lin(-87, 87, 20000), np.cosh, abs=1e-6, rel=1e-5)
approx(G, "tanh", lin(-30, 30, 8000), np.tanh, abs=1e-6)
approx(G, "asinh", lin(-0.01, 0.01, 100), np.arcsinh, abs=1e-6)
approx(G, "acosh", bits(1, FMAX, 20000), np.arccosh, abs=2e-5)
approx(G, "atanh", lin(-0.999, 0.999, 4000), np.arctanh, abs=1e-5)
for sx in (1, -1):
    for sy in (1, -1):
        approx(G, "atan2", [bits(sy * 0.05, sy * 20, 150), bits(sx * 0.05, sx * 20, 150)], np.arctan2, abs=7.5e-3, budget=1500000, cost=9)
for c in (1e-36, 1e-20, 1e-5, 0.3, 1.7, 1e5, 1e20, 3e38):
    for s in (1, -1):
        for t in (1, -1):
            approx(G, "atan2", [bits(t * 1e-37, t * FMAX, 3000), fc(s * c)], lambda y, c=s * c: np.arctan2(y, float(np.float32(c))), abs=7.5e-3)
            approx(G, "atan2", [fc(s * c), bits(t * 1e-37, t * FMAX, 3000)], lambda x, c=s * c: np.arctan2(float(np.float32(c)), x), abs=7.5e-3)
approx(G, "atan2", [fc(0.0), bits(1e-37, FMAX, 500)], lambda x: 0 * x, abs=1e-6)
approx(G, "atan2", [fc(0.0), bits(-1e-37, -FMAX, 500)], lambda x: 0 * x + np.pi, abs=1e-5)
approx(G, "atan2", [bits(1e-37, FMAX, 500), fc(0.0)], lambda x: 0 * x + np.pi / 2, abs=1e-5)
approx(G, "atan2", [bits(-1e-37, -FMAX, 500), fc(0.0)], lambda x: 0 * x - np.pi / 2, abs=1e-5)
for c in (1e-40, 1e-20, 0.3, 1.0, 1.7, 12.0, 1e20, 2e38):
    approx(G, "hypot", [bits(1e-38, 2e38, 4000), fc(c)], lambda x, c=c: np.hypot(x, float(np.float32(c))), rel=6e-6)
    approx(G, "hypot", [fc(-c), bits(-1e-38, -2e38, 4000)], lambda x, c=c: np.hypot(x, float(np.float32(c))), rel=6e-6)
approx(G, "hypot", [fc(0.0), bits(-FMIN, -FMAX, 2000)], np.abs, rel=4e-6)
approx(G, "erf", lin(-20, 20, 4000), sp.erf, abs=0.02)
approx(G, "erfc", lin(-20, 20, 4000), sp.erfc, abs=0.02)

# ------------------------------------------------------------------------------- wrapping and remainders
G = "wrap"
for f, m, l, h, e in (("wrapTo180", 360.0, -180.0, 180.0, 0), ("wrapTo360", 360.0, 0.0, 360.0, 0),
                      ("wrapToPi", PI2, -PI, PI, 0), ("wrapTo2Pi", PI2, 0.0, PI2, 0)):
    case(G, f, lin(-20 * m, 20 * m, 4000), "cong", mod=m, range=(l, h), abs=1e-6 * m, rel=2e-7)
    case(G, f, lin(-1000 * m, 1000 * m, 40000), "cong", mod=m, range=(l, h), abs=1e-6 * m, rel=2e-7)
    for k in range(0, 9):                # the ends of the interval: a positive multiple of the turn maps to the upper end
        if f == "wrapTo180":
            case(G, f, pts(180.0 + 360.0 * k), "eq", value=180.0)
            case(G, f, pts(-180.0 - 360.0 * k), "eq", value=-180.0)
            case(G, f, pts(360.0 * k, -360.0 * k), "zero")
        elif f == "wrapTo360":
            case(G, f, pts(360.0 * (k + 1)), "eq", value=360.0)
            case(G, f, pts(-360.0 * k), "zero")
    if f == "wrapToPi":
        case(G, f, pts(PI), "eq", value=PI)
        case(G, f, pts(-PI), "eq", value=-PI)
    if f == "wrapTo2Pi":
        case(G, f, pts(PI2, 2 * PI2), "eq", value=PI2)
        case(G, f, pts(-PI2, -2 * PI2), "zero")
for y in (1.0, 0.1, 3.0, 360.0, 1e-3, 7e5):
    yf = float(np.float32(y))
    case(G, "mod", [lin(-50 * y, 50 * y, 4000), fc(y)], "cong", mod=yf, range=(0.0, float(np.nextafter(np.float32(y), np.float32(0)))), abs=1e-6 * y, rel=2e-7)
    case(G, "mod", [lin(-50 * y, 50 * y, 4000), fc(-y)], "cong", mod=yf, range=(float(np.nextafter(np.float32(-y), np.float32(0))), 0.0), abs=1e-6 * y, rel=2e-7)
    case(G, "rem", [lin(0, 50 * y, 4000), fc(y)], "cong", mod=yf, range=(-1e-5 * y, y * (1 + 1e-5)), abs=1e-6 * y, rel=2e-7)
    case(G, "rem", [lin(-50 * y, 0, 4000), fc(y)], "cong", mod=yf, range=(-y * (1 + 1e-5), 1e-5 * y), abs=1e-6 * y, rel=2e-7)
    case(G, "rem", [lin(-50 * y, 0, 4000), fc(-y)], "cong", mod=yf, range=(-y * (1 + 1e-5), 1e-5 * y), abs=1e-6 * y, rel=2e-7)

# ------------------------------------------------------------------------------- mantissas, exponents, interpolation
def prv(x):
    return float(np.nextafter(np.float32(x), np.float32(-np.inf)))


def nxt(x):
    return float(np.nextafter(np.float32(x), np.float32(np.inf)))


G = "bitw"
for s in (1, -1):
    case(G, "rexp", bits(s * SUB, s * FMAX, 3000), "range", range=(0.5, prv(1.0)) if s > 0 else (-prv(1.0), -0.5))
    for e in list(range(-148, 129, 6)) + [-127, -126, -125, -149, 1, 0, 128]:
        lo, hi = 2.0**(e - 1) if e > -148 else None, 2.0**e
        if lo:
            case(G, "rexp_e", bits(s * lo, s * min(prv(hi) if hi < 2.0**128 else FMAX, FMAX), 20), "eq", value=float(e))
for n in (-149, -140, -127, -126, -100, -37, -1, 0, 1, 23, 100, 126, 127, 128, 150, 200, 254, 270):
    lo = max(FMIN, 2.0**(-126 - n))
    hi = min(FMAX, 2.0**(127.9 - n)) if 127.9 - n > -126 else None
    if hi and lo < hi:
        approx(G, "ldexp", [bits(lo, hi, 400), ic(n & 0xFFFFFFFF, 32)], lambda x, n=n: np.ldexp(x, n), rel=4e-7, abs=2e-45)
        approx(G, "ldexp", [bits(-lo, -hi, 400), ic(n & 0xFFFFFFFF, 32)], lambda x, n=n: np.ldexp(x, n), rel=4e-7, abs=2e-45)
    if n < 0:
        approx(G, "ldexp", [bits(SUB, min(FMAX, 2.0**(-126 - n)), 400), ic(n & 0xFFFFFFFF, 32)], lambda x, n=n: np.ldexp(x, n), abs=3e-45, rel=3e-7)
    if n > 0:
        approx(G, "ldexp", [bits(SUB, min(FMIN, 2.0**(127.9 - n)), 200), ic(n & 0xFFFFFFFF, 32)], lambda x, n=n: np.ldexp(x, n), rel=4e-7, abs=2e-45)
for n in (278, 300, 1000, 1 << 30, 0x7FFFFFFF):
    case(G, "ldexp", [bits(SUB, FMAX, 100), ic(n, 32)], "eq", value=INF)
    case(G, "ldexp", [bits(-SUB, -FMAX, 100), ic(n, 32)], "eq", value=-INF)
    case(G, "ldexp", [pts(0.0, -0.0), ic(n, 32)], "zero")
    case(G, "ldexp", [bits(SUB, FMAX, 100), ic(-n & 0xFFFFFFFF, 32)], "zero")
case(G, "ldexp", [NAN, ic(3, 32)], "nan")
case(G, "ldexp", [pts(INF), ic((-300) & 0xFFFFFFFF, 32)], "eq", value=INF)
case(G, "ldexp", [bits(SUB, FMAX, 100), ic(0x80000000, 32)], "zero")
for k in (0, 1, 2, 7, 100, 4095):
    approx(G, "frac", lin(float(k), prv(k + 1), 50), lambda x, k=k: x - k, abs=1e-7)
    approx(G, "frac", lin(-prv(k + 1), -float(k), 50), lambda x, k=k: x + k, abs=1e-7)
case(G, "frac", pts(8388608.0, 1e7, -3e9, 1e20, FMAX, -FMAX), "zero")
for c in (0.0, 1e-40, 3e-38, 1.0, -1.0, -2.5, 1e20, 1.7e38, 1.8e38, FMAX, -FMAX):
    for s in (1, -1):
        approx(G, "midpoint", [bits(s * 1e-36, s * FMAX, 600), fc(c)], lambda x, c=c: x / 2 + float(np.float32(c)) / 2, rel=2e-7, abs=max(abs(c) * 6e-8, 3e-38))
        approx(G, "midpoint", [fc(c), bits(s * 1e-36, s * FMAX, 600)], lambda x, c=c: x / 2 + float(np.float32(c)) / 2, rel=2e-7, abs=max(abs(c) * 6e-8, 3e-38))
for a, b in ((1.0, 2.0), (-1.0, 3.0), (5.0, -0.25), (-2.0, -7.0), (0.0, 10.0), (3.0, 3.0), (1e-3, 1e3), (-4.0, 0.0)):
    m = max(abs(a), abs(b))
    approx(G, "lerp", [fc(a), fc(b), lin(0.0, 1.0, 200)], lambda t, a=a, b=b: float(np.float32(a)) + t * (float(np.float32(b)) - float(np.float32(a))), abs=3e-7 * m)
    case(G, "lerp", [fc(a), fc(b), lin(0.0, 1.0, 2000)], "range", range=(float(np.float32(min(a, b))), float(np.float32(max(a, b)))))
    approx(G, "lerp", [fc(a), fc(b), lin(1.0, 5.0, 200)], lambda t, a=a, b=b: float(np.float32(a)) + t * (float(np.float32(b)) - float(np.float32(a))), abs=3e-6 * m)
    approx(G, "lerp", [fc(a), fc(b), lin(-4.0, 0.0, 200)], lambda t, a=a, b=b: float(np.float32(a)) + t * (float(np.float32(b)) - float(np.float32(a))), abs=3e-6 * m)
for b in (1.0, -2.5, 1e30, 1e-30):
    for s in (1, -1):
        case(G, "lerp", [bits(s * 1e-30, s * 1e30, 200), fc(b), fc(1.0)], "eq", value=float(np.float32(b)))
        approx(G, "lerp", [bits(s * 1e-30, s * 1e30, 200), fc(b), fc(0.0)], lambda x: x, rel=2e-7)
approx(G, "normalize", [lin(-10, 10, 200), fc(-3.0), fc(5.0)], lambda x: (x + 3) / 8, abs=1e-6)
approx(G, "map", [lin(-10, 10, 200), fc(-3.0), fc(5.0), fc(2.0), fc(-1.0)], lambda x: 2 - 3 * (x + 3) / 8, abs=2e-6)

# ------------------------------------------------------------------------------- orthogonal polynomials
G = "orth"


def ALEG(n, m):
    c = np.polynomial.legendre.leg2poly([0.0] * n + [1.0])
    d = np.polynomial.polynomial.polyder(c, m) if m else c
    return lambda x: np.maximum(1 - x * x, 0)**(m / 2) * np.polynomial.polynomial.polyval(x, d)


for n in range(0, 7):
    for m in range(0, n + 1):
        f = ALEG(n, m)
        t = 4e-5 * max(1.0, float(np.max(np.abs(f(np.linspace(-1, 1, 2001))))))
        approx(G, "assoc_legendre", [ic(n), ic(m), lin(-0.9995, 0.9995, 200)], f, abs=t)
        approx(G, "assoc_legendre", [ic(n), ic(m), pts(-1.0, 1.0)], f, abs=t)
        for s in (1, -1):
            case(G, "assoc_legendre", [ic(n), ic(m), lin(s * 0.9995, s * 1.0, 50)], "range",
                 range=(float(np.min(f(s * np.linspace(0.9995, 1, 200)))) - 2 * t, float(np.max(f(s * np.linspace(0.9995, 1, 200)))) + 2 * t))
for n, m in ((7, 0), (7, 3), (8, 8)):
    f = ALEG(n, m)
    approx(G, "assoc_legendre", [ic(n), ic(m), lin(-0.9995, 0.9995, 400)], f, abs=2e-4 * max(1.0, float(np.max(np.abs(f(np.linspace(-1, 1, 2001)))))))
for n in (0, 1, 2, 3, 5, 8):
    c = np.polynomial.legendre.leg2poly([0.0] * n + [1.0])
    approx(G, "legendre", [ic(n), lin(-1, 1, 200)], lambda x, c=c: np.polynomial.polynomial.polyval(x, c), abs=2e-5 if n < 8 else 1e-3)
    approx(G, "hermite", [ic(n), lin(-3, 3, 200)], lambda x, n=n: sp.eval_hermite(n, x), abs=2e-4 * float(np.max(np.abs(sp.eval_hermite(n, np.linspace(-3, 3, 999))))))
    approx(G, "laguerre", [ic(n), lin(0, 8, 400)], lambda x, n=n: sp.eval_laguerre(n, x), abs=2e-4 * float(np.max(np.abs(sp.eval_laguerre(n, np.linspace(0, 8, 999))))))
    approx(G, "assoc_laguerre", [ic(n), ic(2), lin(0, 8, 400)], lambda x, n=n: sp.eval_genlaguerre(n, 2, x),
           abs=2e-4 * float(np.max(np.abs(sp.eval_genlaguerre(n, 2, np.linspace(0, 8, 999))))))

# ------------------------------------------------------------------------------- special values and domains
G = "edge"
ONE = ("recip sqrt rSqrt cbrt rCbrt sin cos tan asin acos atan exp2 log2 exp expm1 exp10 log log1p log10 sinh cosh tanh asinh acosh "
       "atanh erf erfc tgamma lgamma factorial comp_ellint_1 comp_ellint_2 expint riemann_zeta floor ceil trunc rounding frac "
       "wrapToPi wrapTo2Pi wrapTo180 wrapTo360 absf sign").split()
for f in ONE:
    case(G, f, NAN, "nan")
for f in "rem mod atan2 beta comp_ellint_3 ellint_1 ellint_2 midpoint cyl_bessel_i cyl_bessel_j cyl_bessel_k cyl_neumann".split():
    case(G, f, [NAN, pts(0.5, 0.25)], "nan")
    case(G, f, [pts(0.5, 0.25), NAN], "nan")
case(G, "hypot", [NAN, pts(0.0, 1.0, -3.5)], "nan")
case(G, "hypot", [pts(0.0, 1.0, -3.5), NAN], "nan")
case(G, "hypot", [pts(INF, -INF), bits(SUB, FMAX, 50)], "eq", value=INF)
case(G, "hypot", [bits(SUB, FMAX, 50), pts(INF, -INF)], "eq", value=INF)
case(G, "hypot", [NAN, pts(INF, -INF)], "eq", value=INF)
case(G, "pow", [NAN, pts(0.5, 2.0, -1.0)], "nan")
case(G, "pow", [pts(0.5, 2.0, 3.0), NAN], "nan")
for f in "hermite laguerre legendre sph_bessel sph_neumann".split():
    for n in (0, 1, 2, 5):
        case(G, f, [ic(n), NAN], "nan")
for n, m in ((0, 0), (1, 0), (1, 1), (3, 1), (4, 2)):
    case(G, "assoc_legendre", [ic(n), ic(m), NAN], "nan")
    case(G, "assoc_laguerre", [ic(n), ic(m), NAN], "nan")
    for s in (1, -1):
        case(G, "assoc_legendre", [ic(n), ic(m), bits(s * 1.0000002, s * FMAX, 200)], "nan")
    case(G, "assoc_laguerre", [ic(n), ic(m), bits(-SUB, -FMAX, 300)], "nan")
    case(G, "assoc_legendre", [ic(m), ic(n + 1), lin(-1, 1, 20)], "zero") if n + 1 > m else None
for n in (0, 1, 4):
    case(G, "laguerre", [ic(n), bits(-SUB, -FMAX, 300)], "nan")
for f in ("sqrt", "rSqrt", "log2", "log", "log10"):
    case(G, f, bits(-SUB, -FMAX, 500), "nan")
    case(G, f, pts(-INF), "nan")
for f in ("sqrt", "log2", "log", "log10", "cbrt", "exp", "exp2", "exp10", "expm1", "log1p", "cosh", "sinh", "asinh", "acosh", "tgamma", "lgamma"):
    case(G, f, pts(INF), "eq", value=INF)
for f in ("cbrt", "sinh", "asinh"):
    case(G, f, pts(-INF), "eq", value=-INF)
case(G, "cosh", pts(-INF), "eq", value=INF)
case(G, "expm1", pts(-INF), "eq", value=-1.0)
for f in ("exp", "exp2", "exp10"):
    case(G, f, pts(-INF), "zero")
    case(G, f, pts(0.0, -0.0), "eq", value=1.0)
case(G, "sqrt", pts(0.0, -0.0), "zero")
case(G, "rSqrt", pts(0.0), "eq", value=INF)
case(G, "rCbrt", pts(0.0), "eq", value=INF)
for f in ("rSqrt", "recip", "rCbrt"):
    case(G, f, pts(INF), "zero")
for f in ("recip", "rCbrt"):
    case(G, f, pts(-INF), "zero")
for f in ("log2", "log", "log10"):
    case(G, f, pts(0.0, -0.0), "eq", value=-INF)
    case(G, f, pts(1.0), "zero")
case(G, "log1p", pts(-1.0), "eq", value=-INF)
case(G, "log1p", bits(-1.0000002, -FMAX, 300), "nan")
case(G, "log1p", pts(0.0), "zero")
case(G, "exp2", bits(128.0, FMAX, 300), "eq", value=INF)
case(G, "exp", bits(89.0, FMAX, 300), "eq", value=INF)
case(G, "expm1", bits(89.0, FMAX, 300), "eq", value=INF)
case(G, "exp10", bits(38.6, FMAX, 300), "eq", value=INF)
case(G, "exp2", bits(-126.0, -FMAX, 300), "range", range=(0.0, 1.2e-38))
case(G, "exp", bits(-87.3, -FMAX, 300), "range", range=(0.0, 1.3e-38))
case(G, "exp10", bits(-37.9, -FMAX, 300), "range", range=(0.0, 1.4e-38))
case(G, "expm1", bits(-88.0, -FMAX, 300), "eq", value=-1.0)
for f in ("asin", "acos"):
    for s in (1, -1):
        case(G, f, bits(s * 1.0000002, s * FMAX, 300), "nan")
        case(G, f, pts(s * INF), "nan")
case(G, "acosh", bits(SUB, 0.99999994, 300), "nan")
case(G, "acosh", bits(-SUB, -FMAX, 300), "nan")
case(G, "acosh", pts(0.0, -INF), "nan")
case(G, "acosh", pts(1.0), "zero")
for s in (1, -1):
    case(G, "atanh", bits(s * 1.0000002, s * FMAX, 300), "nan")
    case(G, "atanh", pts(s * 1.0), "eq", value=s * INF)
    case(G, "atan", pts(s * INF), "range", range=(s * np.pi / 2 - 1.5e-3, s * np.pi / 2 + 1.5e-3))
    approx(G, "tanh", bits(s * 12.0, s * FMAX, 300), np.sign, abs=1e-7)
    case(G, "tanh", pts(s * INF), "eq", value=s * 1.0)
    approx(G, "erf", bits(s * 7.0, s * FMAX, 300), np.sign, abs=1e-6)
    case(G, "erf", pts(s * INF), "eq", value=s * 1.0)
    case(G, "cosh", bits(s * 89.5, s * FMAX, 300), "eq", value=INF)
    case(G, "sinh", bits(s * 89.5, s * FMAX, 300), "eq", value=s * INF)
    for f in ("comp_ellint_1", "comp_ellint_2"):
        case(G, f, bits(s * 1.0000002, s * FMAX, 300), "nan")
    for f in ("ellint_1", "ellint_2", "comp_ellint_3"):
        case(G, f, [bits(s * 1.0000002, s * FMAX, 100), pts(0.5, -0.25)], "nan")
    case(G, "ellint_3", [bits(s * 1.0000002, s * FMAX, 100), pts(0.5, -0.25), fc(0.5)], "nan")
    case(G, "sign", bits(s * SUB, s * FMAX, 300), "eq", value=s * 1.0)
    case(G, "absf", pts(s * INF), "eq", value=INF)
case(G, "sign", pts(0.0, -0.0), "zero")
case(G, "erfc", bits(8.0, FMAX, 300), "range", range=(0.0, 1e-6))
for z in (0.0, -0.0):
    case(G, "pow", [bits(SUB, FMAX, 100), fc(z)], "eq", value=1.0)
    case(G, "pow", [bits(-SUB, -FMAX, 100), fc(z)], "eq", value=1.0)
    case(G, "pow", [pts(0.0, -0.0, INF, -INF), fc(z)], "eq", value=1.0)
    case(G, "pow", [NAN, fc(z)], "eq", value=1.0)
case(G, "pow", [fc(0.0), bits(SUB, FMAX, 300)], "zero")
case(G, "pow", [fc(0.0), bits(-SUB, -FMAX, 300)], "eq", value=INF)
case(G, "pow", [fc(1.0), lin(-1000, 1000, 100)], "eq", value=1.0)
case(G, "tgamma", pts(0.0), "eq", value=INF)
case(G, "tgamma", pts(-0.0), "eq", value=-INF)
case(G, "tgamma", pts(-INF), "nan")
case(G, "tgamma", bits(35.1, FMAX, 300), "eq", value=INF)
case(G, "tgamma", pts(*[-float(i) for i in range(1, 30)]), "nan")
case(G, "lgamma", pts(*[-float(i) for i in range(0, 30)]), "eq", value=INF)
case(G, "lgamma", pts(-INF), "eq", value=INF)
fact = [1.0]
for i in range(1, 35):
    fact.append(fact[-1] * i)
for i, v in enumerate(fact):
    if i < 34:
        approx(G, "factorial", lin(float(i), float(np.nextafter(np.float32(i + 1), np.float32(0))), 4), lambda x, v=v: v + 0 * x, rel=3e-7)
    else:
        approx(G, "factorial", pts(34.0), lambda x, v=v: v + 0 * x, rel=3e-7)
case(G, "factorial", bits(34.000004, FMAX, 100), "eq", value=INF)
case(G, "factorial", bits(-SUB, -FMAX, 300), "nan")
case(G, "riemann_zeta", pts(1.0), "eq", value=INF)
for nu in (0.0, 0.5, 1.0, 3.25):
    for f in ("cyl_bessel_i", "cyl_bessel_j", "cyl_bessel_k", "cyl_neumann"):
        case(G, f, [fc(nu), bits(-FMIN * 2, -1e30, 200)], "nan")
for f in ("cyl_bessel_i", "cyl_bessel_j", "cyl_bessel_k", "cyl_neumann"):
    case(G, f, [bits(-FMIN * 2, -1e30, 200), pts(0.5, 2.0)], "nan")
case(G, "cyl_bessel_k", [pts(0.0, 0.5, 1.0, 2.0), fc(0.0)], "eq", value=INF)
case(G, "cyl_neumann", [pts(0.0, 0.5, 1.0, 2.0), fc(0.0)], "eq", value=-INF)
for f in ("cyl_bessel_i", "cyl_bessel_j"):
    case(G, f, [fc(0.0), pts(0.0)], "eq", value=1.0)
    case(G, f, [pts(0.5, 1.0, 2.0), fc(0.0)], "zero")
for n in (0, 1, 3):
    for f in ("sph_bessel", "sph_neumann"):
        case(G, f, [ic(n), bits(-FMIN * 2, -1e30, 200)], "nan")
    case(G, "sph_bessel", [ic(n), pts(0.0)], "eq", value=0.0 if n else 1.0)
    case(G, "sph_neumann", [ic(n), pts(0.0)], "eq", value=-INF)



def EL3(k, nu, phi):
    """incomplete elliptic integral of the third kind by Gauss-Legendre quadrature"""
    k, nu, phi = np.broadcast_arrays(np.asarray(k, float), np.asarray(nu, float), np.asarray(phi, float))
    n = np.round(phi / np.pi)
    red = phi - n * np.pi

    def quad(p):
        t, w = np.polynomial.legendre.leggauss(60)
        th = 0.5 * p[..., None] * (t + 1)
        s2 = np.sin(th) ** 2
        return (0.5 * p[..., None] * w / ((1 - nu[..., None] * s2) * np.sqrt(1 - (k * k)[..., None] * s2))).sum(-1)
    return quad(red) + 2 * n * quad(np.full(phi.shape, np.pi / 2))


# ------------------------------------------------------------------------------- special functions
G = "spec"
approx(G, "tgamma", bits(1e-6, 11.99, 8000), sp.gamma, rel=5e-5)
approx(G, "tgamma", bits(11.99, 34.0, 4000), sp.gamma, rel=2e-4)
approx(G, "tgamma", lin(-0.95, -0.05, 1000), sp.gamma, rel=3e-2)
for k in range(1, 6):
    approx(G, "tgamma", lin(-k - 0.95, -k - 0.05, 1000), sp.gamma, rel=3e-2)
approx(G, "lgamma", bits(1e-30, 1.0, 4000), sp.gammaln, abs=2.5e-4)
approx(G, "lgamma", lin(1.0, 30.0, 4000), sp.gammaln, abs=2.5e-4)
approx(G, "lgamma", lin(30.0, 171.0, 4000), sp.gammaln, abs=2e-3)
for k in range(0, 6):
    approx(G, "lgamma", lin(-k - 0.95, -k - 0.05, 1000), sp.gammaln, abs=2e-2)
for b in (0.5, 1.0, 2.0, 3.5, 10.0):
    approx(G, "beta", [lin(0.05, 20.0, 4000), fc(b)], lambda x, b=b: sp.beta(x, b), rel=1e-3)
    approx(G, "beta", [fc(b), lin(0.05, 20.0, 4000)], lambda x, b=b: sp.beta(x, b), rel=1e-3)
approx(G, "comp_ellint_1", lin(-0.999, 0.999, 4000), lambda k: sp.ellipk(k * k), rel=5e-5)
approx(G, "comp_ellint_2", lin(-0.99, 0.99, 4000), lambda k: sp.ellipe(k * k), rel=2e-4)
for k in (0.0, 0.3, 0.7, 0.95):
    for a, b in ((-1.56, 1.56), (1.58, 4.6), (-4.6, -1.58)):
        approx(G, "ellint_1", [fc(k), lin(a, b, 1000)], lambda p, k=k: sp.ellipkinc(p, k * k), abs=1.5e-2)
        approx(G, "ellint_2", [fc(-k), lin(a, b, 1000)], lambda p, k=k: sp.ellipeinc(p, k * k), abs=1.5e-2)
for p in (0.3, 1.0, 1.5, 2.5, -1.0):
    approx(G, "ellint_1", [lin(-0.95, 0.95, 1000), fc(p)], lambda k, p=p: sp.ellipkinc(p, k * k), abs=1.5e-2)
    approx(G, "ellint_2", [lin(-0.95, 0.95, 1000), fc(p)], lambda k, p=p: sp.ellipeinc(p, k * k), abs=1.5e-2)
for nu in (0.2, -0.5, 0.6):
    approx(G, "comp_ellint_3", [lin(-0.95, 0.95, 500), fc(nu)], lambda k, nu=nu: EL3(k, nu, np.pi / 2), rel=1e-2)
    for p in (0.4, 1.2, 2.5):
        approx(G, "ellint_3", [lin(-0.9, 0.9, 200), fc(nu), fc(p)], lambda k, nu=nu, p=p: EL3(k, nu, p), abs=3e-2)
for k in (0.3, -0.8):
    approx(G, "comp_ellint_3", [fc(k), lin(-1, 0.9, 1000)], lambda nu, k=k: EL3(k, nu, np.pi / 2), rel=1e-2)
    for nu in (0.2, -0.5):
        for a, b in ((-1.56, 1.56), (1.58, 4.6), (-4.6, -1.58)):
            approx(G, "ellint_3", [fc(k), fc(nu), lin(a, b, 500)], lambda p, nu=nu, k=k: EL3(k, nu, p), abs=3e-2)
approx(G, "expint", bits(1e-4, 0.3, 1000), sp.expi, abs=1e-5, rel=1e-5)
approx(G, "expint", lin(0.3, 36.04, 4000), sp.expi, abs=1e-5, rel=5e-5)
approx(G, "expint", lin(36.05, 80, 4000), sp.expi, rel=2e-4)
approx(G, "expint", bits(-1e-4, -0.999, 1000), lambda x: -sp.exp1(-x), abs=1e-5)
approx(G, "riemann_zeta", lin(20.001, 60, 1000), sp.zeta, rel=5e-7)
for l, m in ((0, 0), (1, 0), (1, 1), (2, 0), (2, 1), (3, 2), (4, 1)):
    approx(G, "sph_legendre", [ic(l), ic(m), lin(0.05, 3.09, 1000)],
           lambda t, l=l, m=m: sp.lpmv(m, l, np.cos(t)) * np.sqrt((2 * l + 1) / (4 * np.pi) * sp.factorial(l - m) / sp.factorial(l + m)), abs=1.5e-2)
for nu in (0.0, 0.5, 1.0, 2.0, 3.3):
    b = float(np.sqrt(10 * (nu + 1))) - 1e-3
    approx(G, "cyl_bessel_j", [fc(nu), lin(0.01, b, 1000)], lambda x, nu=nu: sp.jv(float(np.float32(nu)), x), abs=2e-4)
    approx(G, "cyl_bessel_i", [fc(nu), lin(0.01, b, 1000)], lambda x, nu=nu: sp.iv(float(np.float32(nu)), x), abs=2e-4, rel=2e-4)
    approx(G, "cyl_bessel_j", [fc(nu), lin(1000.5, 1100, 1000)], lambda x, nu=nu: sp.jv(float(np.float32(nu)), x), abs=1e-4)
    approx(G, "cyl_neumann", [fc(nu), lin(1000.5, 1100, 1000)], lambda x, nu=nu: sp.yv(float(np.float32(nu)), x), abs=1e-4)
    approx(G, "cyl_bessel_k", [fc(nu), lin(0.05, 1.99, 500)], lambda x, nu=nu: sp.kv(float(np.float32(nu)), x), rel=2e-3, widen=150)
    approx(G, "cyl_bessel_k", [fc(nu), lin(2.01, 20, 500)], lambda x, nu=nu: sp.kv(float(np.float32(nu)), x), rel=2e-3, widen=150)
    approx(G, "cyl_neumann", [fc(nu), lin(0.05, 1.99, 500)], lambda x, nu=nu: sp.yv(float(np.float32(nu)), x), abs=2e-3, rel=5e-3, widen=150)
for n in (0, 1, 2):
    approx(G, "sph_neumann", [ic(n), lin(0.1, 1.99, 200)], lambda x, n=n: sp.spherical_yn(n, x), abs=2e-3, rel=1e-2, widen=150)

# further orders, branches and turns
for k in (6, 7, 9, 13, 14, 20, 21, 27, 30):
    approx(G, "tgamma", lin(-k - 0.95, -k - 0.05, 1000), sp.gamma, rel=3e-2)
    approx(G, "lgamma", lin(-k - 0.95, -k - 0.05, 1000), sp.gammaln, abs=2e-2)
for b in (0.5, 3.5, 25.0):
    approx(G, "beta", [lin(20.0, 60.0, 2000), fc(b)], lambda x, b=b: sp.beta(x, b), rel=5e-3)
for k in (0.3, 0.95):
    for a, b in ((4.8, 7.7), (7.9, 10.9), (-7.7, -4.8)):
        approx(G, "ellint_1", [fc(k), lin(a, b, 1000)], lambda p, k=k: sp.ellipkinc(p, k * k), abs=2e-2)
        approx(G, "ellint_2", [fc(-k), lin(a, b, 1000)], lambda p, k=k: sp.ellipeinc(p, k * k), abs=2e-2)
case(G, "comp_ellint_2", pts(1.0, -1.0), "eq", value=1.0)
case(G, "comp_ellint_3", [lin(-1, 1, 50), fc(1.0)], "eq", value=INF)
case(G, "expint", bits(-100.0, -180.0, 8), "range", range=(-1e-38, 0.0))
case(G, "expint", bits(-100.0, -FMAX, 200), "range", range=(-1e-38, 0.0), thorough=True)
approx(G, "riemann_zeta", bits(60.0, FMAX, 300), lambda x: 1 + 0 * x, rel=5e-7)


def negz(s):
    """functional equation, for negative arguments"""
    return 2 * (2 * np.pi) ** (s - 1) * np.sin(np.pi * s / 2) * sp.gamma(1 - s) * sp.zeta(1 - s)


for k in range(19, 30):
    approx(G, "riemann_zeta", lin(-k - 0.95, -k - 0.05, 500), negz, rel=2e-2, abs=1.0)
for l, m in ((5, 0), (5, 3), (6, 6), (2, 2), (3, 3), (8, 2), (7, 0)):
    approx(G, "sph_legendre", [ic(l), ic(m), lin(0.05, 3.09, 1000)],
           lambda t, l=l, m=m: sp.lpmv(m, l, np.cos(t)) * np.sqrt((2 * l + 1) / (4 * np.pi) * sp.factorial(l - m) / sp.factorial(l + m)), abs=2.5e-2)
for nu in (0.25, 4.0, 7.5, 10.0):
    b = float(np.sqrt(10 * (nu + 1))) - 1e-3
    approx(G, "cyl_bessel_j", [fc(nu), lin(0.01, b, 1000)], lambda x, nu=nu: sp.jv(float(np.float32(nu)), x), abs=2e-4)
    approx(G, "cyl_bessel_i", [fc(nu), lin(0.01, b, 1000)], lambda x, nu=nu: sp.iv(float(np.float32(nu)), x), abs=2e-4, rel=2e-4)
    approx(G, "cyl_bessel_k", [fc(nu), lin(2.01, 20, 500)], lambda x, nu=nu: sp.kv(float(np.float32(nu)), x), rel=2e-3, widen=150)
    approx(G, "cyl_bessel_k", [fc(nu), lin(0.5, 1.99, 500)], lambda x, nu=nu: sp.kv(float(np.float32(nu)), x), rel=2e-2 if nu < 1 else 2e-3, widen=150, thorough=True)
    approx(G, "cyl_neumann", [fc(nu), lin(0.5, 1.99, 500)], lambda x, nu=nu: sp.yv(float(np.float32(nu)), x), abs=2e-3, rel=2e-2 if nu < 1 else 5e-3, widen=150, thorough=True)
for nu in (0.0, 1.0, 3.3):
    approx(G, "cyl_bessel_k", [fc(nu), lin(20, 80, 500)], lambda x, nu=nu: sp.kv(float(np.float32(nu)), x), rel=2e-3, widen=150)

# ------------------------------------------------------------------------------- continued fractions and global series
G = "cfrac"


def win(fn, pre, at, w, n, ref, **kw):
    """narrow windows: the recurrences amplify the width of a piece too much for wide ones"""
    for a in at:
        approx(G, fn, pre + [lin(a, a * (1 + w), n)], ref, widen=150, **kw)


for n in (0, 1, 3, 2, 5):
    d = n in (2, 5)
    win("sph_bessel", [ic(n)], (0.1, 0.7, 1.9), 2e-5, 12, lambda x, n=n: sp.spherical_jn(n, x), abs=3e-4, rel=3e-3, thorough=d)
    win("sph_bessel", [ic(n)], (2.3, 4.1, 9.0, 33.0), 1e-6, 4, lambda x, n=n: sp.spherical_jn(n, x), abs=4e-4, rel=3e-3, thorough=d)
    win("sph_neumann", [ic(n)], (2.3, 4.1, 9.0, 33.0), 1e-6, 4, lambda x, n=n: sp.spherical_yn(n, x), abs=4e-4, rel=3e-3, thorough=d)
for nu in (0.0, 1.0, 3.3, 0.5, 2.0, 6.7):
    v, d = float(np.float32(nu)), nu in (0.5, 2.0, 6.7)
    lo = float(np.sqrt(10 * (nu + 1)))
    win("cyl_bessel_i", [fc(nu)], (lo * 1.01, lo * 1.7, 18.0, 40.0, 75.0), 1e-5, 12, lambda x, nu=v: sp.iv(nu, x), rel=4e-4, thorough=d)
    win("cyl_bessel_j", [fc(nu)], (lo * 1.01, lo * 1.7, 15.0, 50.0), 1e-6, 4, lambda x, nu=v: sp.jv(nu, x), abs=3e-4, thorough=d)
    win("cyl_neumann", [fc(nu)], (2.05, 3.3, 6.0, 17.0, 60.0), 1e-6, 4, lambda x, nu=v: sp.yv(nu, x), abs=3e-4, rel=3e-4, thorough=d)
win("expint", [], (-1.01, -1.3, -1.7, -2.4, -3.3, -4.6, -6.5, -9.0, -14.0, -22.0, -35.0, -55.0, -80.0), 2e-5, 12, lambda x: -sp.exp1(-x), rel=1e-4)
win("expint", [], np.arange(-1.5, -1.0, 0.01).tolist(), 0.007, 200, lambda x: -sp.exp1(-x), rel=1e-2, thorough=True)
win("riemann_zeta", [], (1.05, 2.0, 3.0, 5.0, 8.0, 13.0, 19.9), 1e-7, 2, sp.zeta, rel=1e-3)
win("riemann_zeta", [], (0.1,), 1e-7, 2, lambda x: -0.60303751985624 + 0 * x, rel=1e-3)
win("riemann_zeta", [], (-0.5, -1.5, -3.3, -7.6, -12.5, -18.5), 1e-7, 2, negz, rel=1e-2)


# ------------------------------------------------------------------------------- Q16.16 functions (raw units)
def fx(lo, hi, n):
    return ("int", int(round(lo * 65536)), int(round(hi * 65536)), n)


def R(f):
    return lambda *x: 65536.0 * f(*[np.asarray(v, float) / 65536.0 for v in x])


def fxa(group, fn, dom, f, **kw):
    approx(group, "fx_" + fn, dom, R(f), signed=True, **kw)


G = "fxc"
for s in (1, -1):
    for f in ("from", "set"):
        approx(G, "fx_" + f, bits(s * 2.0**-30, s * 32767.9, 8000), lambda x: 65536.0 * x, abs=0.501, rel=1.2e-7, signed=True)
    for f in ("fromd", "setd"):
        approx(G, "fx_" + f, bits(s * 2.0**-30, s * 32767.9, 8000), lambda x: 65536.0 * x, abs=0.501, signed=True)
    approx(G, "fx_fromd3", bits(s * 2.0**-30, s * 32767.9, 8000), lambda x: 65536.0 * x / 3.0, abs=0.501, signed=True)
for f in ("from", "set", "fromd", "setd"):
    case(G, "fx_" + f, pts(0.0, -0.0), "eq", value=0, signed=True)
approx(G, "fx_trip", ("int", -2147483520, 2147483520, 8000), lambda x: np.asarray(x, float), abs=0.75, rel=2.4e-7, signed=True)
approx(G, "fx_tripd", ("int", -2147483647, 2147483647, 8000), lambda x: np.asarray(x, float), abs=0.75, signed=True)
G = "fx"
fxa(G, "exp", fx(-10.39, 0, 4000), np.exp, abs=2.5)
fxa(G, "exp", fx(0, 10.39, 8000), np.exp, abs=2.5, rel=5e-5)
fxa(G, "sin", fx(-3.14159, 3.14159, 2000), np.sin, abs=520.0)
fxa(G, "sin", fx(-2, 2, 2000), np.sin, abs=4.0)
fxa(G, "sin", fx(-100, 100, 20000), np.sin, abs=520.0)
fxa(G, "cos", fx(-4.7, 1.57, 2000), np.cos, abs=520.0)
fxa(G, "cos", fx(-3.5, 0.4, 2000), np.cos, abs=5.0)
fxa(G, "cos", fx(-100, 100, 20000), np.cos, abs=520.0)
fxa(G, "tan", fx(-1.1, 0.4, 4000), np.tan, abs=12.0, rel=4e-4)
fxa(G, "tan", fx(0.4, 1.1, 4000), np.tan, abs=70.0, rel=4e-3)
fxa(G, "tan", fx(-1.5, 1.5, 4000), np.tan, abs=200.0, rel=0.09)
fxa(G, "atan", fx(-1, 1, 4000), np.arctan, abs=675.0)
fxa(G, "atan", fx(-32767, 32767, 40000), np.arctan, abs=675.0)
fxa(G, "asin", fx(-0.999, 0.999, 4000), np.arcsin, abs=700.0)
fxa(G, "acos", fx(-0.999, 0.999, 4000), np.arccos, abs=700.0)
for s in (1, -1):
    fxa(G, "asin", fx(s * 0.999 if s > 0 else -1, 1 if s > 0 else -0.999, 66), np.arcsin, abs=680.0)
    fxa(G, "acos", fx(s * 0.999 if s > 0 else -1, 1 if s > 0 else -0.999, 66), np.arccos, abs=680.0)
for c in (1.0, 0.01, 30.0, 5000.0, 30000.0):
    for s in (1, -1):
        k = int(round(c * 65536)) * s
        fxa(G, "atan2", [("const", k & 0xFFFFFFFF, 32), fx(c / 100, min(32767, c * 100), 4000)], lambda x, k=k: np.arctan2(k / 65536.0, x), abs=680.0)
        fxa(G, "atan2", [("const", k & 0xFFFFFFFF, 32), fx(-min(32767, c * 100), -c / 100, 4000)], lambda x, k=k: np.arctan2(k / 65536.0, x), abs=680.0)
        fxa(G, "atan2", [fx(c / 100, min(32767, c * 100), 4000), ("const", k & 0xFFFFFFFF, 32)], lambda y, k=k: np.arctan2(y, k / 65536.0), abs=680.0)
        fxa(G, "atan2", [fx(-min(32767, c * 100), -c / 100, 4000), ("const", k & 0xFFFFFFFF, 32)], lambda y, k=k: np.arctan2(y, k / 65536.0), abs=680.0)
case(G, "fx_atan2", [("int", 0, 0, 1), ("int", 0, 0, 1)], "range", range=(-205888, 205888), signed=True)
fxa(G, "log2", fx(1 / 65536.0, 1, 4000), np.log2, abs=2.0)
fxa(G, "log2", fx(1, 4, 4000), np.log2, abs=4.0)
for k in (4, 16, 64, 256, 1024, 4096, 16384):
    fxa(G, "log2", fx(k + 0.1 * k, k + 0.1 * k + 0.01, 40), np.log2, abs=4.0, budget=100000, time=30)
    fxa(G, "log2", fx(1.9 * k, 1.9 * k + 0.01, 40), np.log2, abs=4.0, budget=100000, time=30)
fxa(G, "log2", fx(4, 64, 20000), np.log2, abs=4.0, budget=3000000, thorough=True)
fxa(G, "log2", fx(64, 32767, 20000), np.log2, abs=4.0, budget=3000000, thorough=True)
fxa(G, "radToDeg", fx(-3.14158, 3.14158, 1000), np.degrees, abs=40.0)
fxa(G, "degToRad", fx(-180, 180, 1000), np.radians, abs=40.0)
for i in (1, 2, 3, 5, 8):
    lim = 32000.0**(1.0 / i)
    fxa(G, "pow", [fx(-lim, lim, 2000), ("const", i << 16, 32)], lambda x, i=i: x**i, abs=2.0, rel=1e-4 if i > 1 else 0.0)
case(G, "fx_pow", [("int", 0, 0, 1), ("int", 1, 10 << 16, 1000)], "eq", value=0, signed=True)
for i in list(range(0, 41)) + [63, 64, 100, 127, 128, 255, 256, 1000]:
    case(G, "fx_pow", [("int", 65536, 65536, 1), ("const", i << 16, 32)], "eq", value=65536, signed=True)
    case(G, "fx_pow", [("int", -65536, -65536, 1), ("const", i << 16, 32)], "eq", value=-65536 if i & 1 else 65536, signed=True)
for i in range(1, 15):
    case(G, "fx_pow", [("int", 131072, 131072, 1), ("const", i << 16, 32)], "eq", value=65536 << i, signed=True)
    case(G, "fx_pow", [("int", -131072, -131072, 1), ("const", i << 16, 32)], "eq", value=(-65536 if i & 1 else 65536) << i, signed=True)
for i in (10, 16, 17, 20, 24):
    lim = 30000.0**(1.0 / i)
    fxa(G, "pow", [fx(1.0, lim, 500), ("const", i << 16, 32)], lambda x, i=i: x**i, abs=20.0, rel=5e-4)
    fxa(G, "pow", [fx(-lim, -1.0, 500), ("const", i << 16, 32)], lambda x, i=i: x**i, abs=20.0, rel=5e-4)

G = "fxe"
fxa(G, "sinh", fx(-10.39, 10.39, 8000), np.sinh, abs=8.0, rel=7e-5)
fxa(G, "cosh", fx(-10.39, 10.39, 8000), np.cosh, abs=4.0, rel=7e-5)
fxa(G, "tanh", fx(-20, 20, 8000), np.tanh, abs=12.0)
fxa(G, "log", fx(1, 100, 4000), np.log, abs=8.0, extra=12)
fxa(G, "log", fx(100, 32767, 20000), np.log, abs=8.0, extra=12, budget=3000000)
fxa(G, "log", fx(0.01, 1, 4000), np.log, abs=8.0, extra=12)
fxa(G, "log", fx(1 / 65536.0, 0.01, 655), np.log, abs=500.0, extra=12)
for y in (0.5, 1.5, -1.0, -2.0, 2.25, -0.5):
    k = int(round(y * 65536))
    for lo, hi, t in ((0.2, 0.999, 20.0), (1.001, 8, 20.0)):
        fxa(G, "pow", [fx(lo, hi, 2000), ("const", k & 0xFFFFFFFF, 32)], lambda x, y=y: np.power(x, y), abs=t, rel=5e-4, extra=14)
        if y == round(y):
            fxa(G, "pow", [fx(-hi, -lo, 2000), ("const", k & 0xFFFFFFFF, 32)], lambda x, y=y: np.power(x, y), abs=t, rel=5e-4, extra=14)
for b in (2.0, 0.5, 7.0):
    k = int(round(b * 65536))
    fxa(G, "pow", [("const", k, 32), fx(-3.001, 3.001, 2000)], lambda y, b=b: np.power(b, y), abs=20.0, rel=5e-4, extra=14)
