"""Linear feasibility of a conjunction of polynomial sign conditions.
Monomials are treated as independent unknowns (with sign facts for squares and
for products of sign-known factors), so 'infeasible' is always right and
'feasible' may be pessimistic."""
from fractions import Fraction

F0 = Fraction(0)


def _norm(c, k, s):
    """normalise sum(c)+k >(s)/>= 0"""
    if not c:
        return None
    m = None
    for v in sorted(c, key=repr):
        m = abs(c[v])
        break
    if m != 1:
        c = {v: x / m for v, x in c.items()}
        k = k / m
    return c, k, s


def lin_feasible(eqs, ineqs, limit=1500):
    """eqs: list of (coef dict, const) ==0 ; ineqs: list of (coef, const, strict)"""
    eqs = [(dict(c), k) for c, k in eqs]
    ineqs = [(dict(c), k, s) for c, k, s in ineqs]
    while eqs:
        c, k = eqs.pop()
        c = {v: x for v, x in c.items() if x}
        if not c:
            if k != 0:
                return False
            continue
        v = min(c, key=lambda z: (len(repr(z)), repr(z)))
        a = c.pop(v)
        # v = -(c + k)/a

        def sub(c2, k2):
            b = c2.pop(v, F0)
            if b:
                f = -b / a
                for w, x in c.items():
                    n = c2.get(w, F0) + f * x
                    if n:
                        c2[w] = n
                    else:
                        c2.pop(w, None)
                k2 = k2 + f * k
            return c2, k2
        eqs = [sub(c2, k2) for c2, k2 in eqs]
        ineqs = [sub(c2, k2) + (s,) for c2, k2, s in ineqs]
    cons = {}

    def put(c, k, s):
        c = {v: x for v, x in c.items() if x}
        if not c:
            return (k > 0) if s else (k >= 0)
        r = _norm(c, k, s)
        key = tuple(sorted(r[0].items(), key=repr))
        o = cons.get(key)
        if o is None or r[1] < o[0] or (r[1] == o[0] and s and not o[1]):
            cons[key] = (r[1], s)
        return True
    for c, k, s in ineqs:
        if not put(c, k, s):
            return False
    while cons:
        pos, neg = {}, {}
        for key in cons:
            for v, x in key:
                d = pos if x > 0 else neg
                d[v] = d.get(v, 0) + 1
        vs = set(pos) | set(neg)
        v = min(vs, key=lambda z: (pos.get(z, 0) * neg.get(z, 0) - pos.get(z, 0) - neg.get(z, 0), repr(z)))
        P, N, R = [], [], {}
        for key, (k, s) in cons.items():
            d = dict(key)
            x = d.get(v)
            if x is None:
                R[key] = (k, s)
            elif x > 0:
                P.append((d, k, s))
            else:
                N.append((d, k, s))
        cons = R
        if len(P) * len(N) + len(cons) > limit:
            return True
        for d1, k1, s1 in P:
            for d2, k2, s2 in N:
                a, b = d1[v], -d2[v]
                c = {}
                for w, x in d1.items():
                    if w != v:
                        c[w] = x * b
                for w, x in d2.items():
                    if w != v:
                        n = c.get(w, F0) + x * a
                        if n:
                            c[w] = n
                        else:
                            c.pop(w, None)
                if not put(c, k1 * b + k2 * a, s1 or s2):
                    return False
    return True
