"""Rational functions over uninterpreted atoms: the normal form of the
floating-point values (arithmetic read over the reals)."""
from fractions import Fraction

F0, F1 = Fraction(0), Fraction(1)
TOL = Fraction(1, 20000)     # relative tolerance on coefficients: 5e-5


# poly: dict mono -> Fraction ; mono: tuple of (atom, exp) sorted by atom
def p_const(c):
    return {(): Fraction(c)} if c else {}


def p_atom(a):
    return {((a, 1),): F1}


def p_add(a, b, s=1):
    if not b:
        return a
    r = dict(a)
    for m, c in b.items():
        v = r.get(m, F0) + (c if s == 1 else c * s)
        if v:
            r[m] = v
        else:
            r.pop(m, None)
    return r


def m_mul(x, y):
    if not x:
        return y
    if not y:
        return x
    d = dict(x)
    for a, e in y:
        n = d.get(a, 0) + e
        if n:
            d[a] = n
        else:
            d.pop(a)
    return tuple(sorted(d.items()))


SQ = {}   # atom -> poly : atom^2 rewrites to poly (square roots)
LIMIT = [4000]


class TooBig(Exception):
    pass


def p_mul(a, b):
    if not a or not b:
        return {}
    if len(a) * len(b) > LIMIT[0] * 8:
        raise TooBig("polynomial too large")
    r = {}
    for m1, c1 in a.items():
        for m2, c2 in b.items():
            m = m_mul(m1, m2)
            v = r.get(m, F0) + c1 * c2
            if v:
                r[m] = v
            else:
                r.pop(m, None)
    if SQ:
        r = reduce_sq(r)
    return r


def reduce_sq(p):
    again = True
    while again:
        again = False
        for m, c in list(p.items()):
            for a, e in m:
                if e >= 2 and a in SQ:
                    rest = tuple((x, k) if x != a else (x, k - 2) for x, k in m)
                    rest = tuple((x, k) for x, k in rest if k)
                    p = dict(p)
                    del p[m]
                    p = p_add(p, _mul_raw({rest: c}, SQ[a]))
                    again = True
                    break
            if again:
                break
    return p


def _mul_raw(a, b):
    r = {}
    for m1, c1 in a.items():
        for m2, c2 in b.items():
            m = m_mul(m1, m2)
            v = r.get(m, F0) + c1 * c2
            if v:
                r[m] = v
            else:
                r.pop(m, None)
    return r


def p_scale(a, k):
    return {m: c * k for m, c in a.items()} if k else {}


def p_isconst(a):
    return not a or (len(a) == 1 and () in a)


def p_cval(a):
    return a.get((), F0)


def p_key(a):
    return tuple(sorted(a.items()))


def lead(a):
    """leading monomial (graded by a fixed total order)"""
    return max(a, key=lambda m: (sum(e for _, e in m), m))


def content_mono(ps):
    """gcd monomial of all monomials in list of polys"""
    g = None
    for p in ps:
        for m in p:
            d = dict(m)
            if g is None:
                g = d
            else:
                g = {a: min(e, d[a]) for a, e in g.items() if a in d}
            if not g:
                return ()
    return tuple(sorted(g.items())) if g else ()


def div_mono(p, g):
    inv = tuple((a, -e) for a, e in g)
    return {m_mul(m, inv): c for m, c in p.items()}


def lexkey(m):
    return m


def _order(ms):
    atoms = sorted({a for m in ms for a, _ in m})
    idx = {a: i for i, a in enumerate(atoms)}

    def k(m):
        v = [0] * len(atoms)
        for a, e in m:
            v[idx[a]] = e
        return tuple(v)
    return k


def p_divexact(a, b, maxsteps=400):
    """a/b if b divides a exactly (lex order division), else None"""
    if not a:
        return {}
    if p_isconst(b):
        return p_scale(a, 1 / p_cval(b))
    k = _order(list(a) + list(b))
    lb = max(b, key=k)
    cb = b[lb]
    inv = tuple((x, -e) for x, e in lb)
    q, r = {}, dict(a)
    steps = 0
    while r:
        steps += 1
        if steps > maxsteps:
            return None
        la = max(r, key=k)
        m = m_mul(la, inv)
        if any(e < 0 for _, e in m):
            return None
        c = r[la] / cb
        q[m] = q.get(m, F0) + c
        for mb, c2 in b.items():
            mm = m_mul(m, mb)
            v = r.get(mm, F0) - c * c2
            if v:
                r[mm] = v
            else:
                r.pop(mm, None)
    return q


class RF:
    """num/den"""
    __slots__ = ("n", "d", "_key")

    def __init__(self, n, d=None):
        self.n = n
        self.d = d if d is not None else {(): F1}
        self._key = None

    def key(self):
        if self._key is None:
            self._key = (p_key(self.n), p_key(self.d))
        return self._key

    def isconst(self):
        return p_isconst(self.n) and p_isconst(self.d)

    def cval(self):
        return p_cval(self.n) / p_cval(self.d)


def rf_norm(n, d):
    if not n:
        return RF({}, {(): F1})
    if p_isconst(d):
        c = p_cval(d)
        return RF(p_scale(n, 1 / c) if c != 1 else n, {(): F1})
    g = content_mono([n, d])
    if g:
        n, d = div_mono(n, g), div_mono(d, g)
    if p_isconst(d):
        c = p_cval(d)
        return RF(p_scale(n, 1 / c) if c != 1 else n, {(): F1})
    q = p_divexact(n, d) if len(n) >= len(d) or True else None
    if q is not None:
        return RF(q, {(): F1})
    if not p_isconst(n):
        q = p_divexact(d, n)
        if q is not None:
            n, d = {(): F1}, q
    lc = d[lead(d)]
    if lc != 1:
        n, d = p_scale(n, 1 / lc), p_scale(d, 1 / lc)
    return RF(n, d)


def rf_const(c):
    return RF(p_const(c))


def rf_atom(a):
    return RF(p_atom(a))


def rf_add(a, b, s=1):
    if a.d == b.d:
        if p_isconst(a.d):
            return RF(p_add(a.n, b.n, s), a.d)
        return rf_norm(p_add(a.n, b.n, s), a.d)
    if not p_isconst(a.d) and not p_isconst(b.d):
        q = p_divexact(a.d, b.d)
        if q is not None:
            return rf_norm(p_add(a.n, p_mul(b.n, q), s), a.d)
        q = p_divexact(b.d, a.d)
        if q is not None:
            return rf_norm(p_add(p_mul(a.n, q), b.n, s), b.d)
    return rf_norm(p_add(p_mul(a.n, b.d), p_mul(b.n, a.d), s), p_mul(a.d, b.d))


def rf_mul(a, b):
    if p_isconst(a.d) and p_isconst(b.d):
        return RF(p_mul(a.n, b.n), {(): F1})
    # cross-cancel
    an, bd, bn, ad = a.n, b.d, b.n, a.d
    if not p_isconst(bd):
        q = p_divexact(an, bd)
        if q is not None:
            an, bd = q, {(): F1}
    if not p_isconst(ad):
        q = p_divexact(bn, ad)
        if q is not None:
            bn, ad = q, {(): F1}
    return rf_norm(p_mul(an, bn), p_mul(ad, bd))


def rf_inv(a):
    return rf_norm(a.d, a.n)


def rf_neg(a):
    return RF(p_scale(a.n, Fraction(-1)), a.d)


def rf_eq(a, b, tol=TOL):
    """equality up to relative coefficient tolerance"""
    if a.n == b.n and a.d == b.d:
        return True
    x, y = p_mul(a.n, b.d), p_mul(b.n, a.d)
    if tol == 0:
        return x == y
    if not x and not y:
        return True
    for m in set(x) | set(y):
        c, d = x.get(m, F0), y.get(m, F0)
        if c == d:
            continue
        s = max(abs(c), abs(d))
        if abs(c - d) <= tol * s:
            continue
        # residue of cancelled terms: negligible against the whole expression
        big = max([abs(v) for v in x.values()] + [abs(v) for v in y.values()])
        if abs(c - d) <= Fraction(1, 10**6) * big and (c == 0 or d == 0):
            continue
        return False
    return True
