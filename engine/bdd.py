"""Reduced ordered binary decision diagrams: the canonical form of the guards
and of the bit-level integer values."""


class BDD:
    def __init__(self):
        self.var = [1 << 60, 1 << 60]
        self.lo = [0, 1]
        self.hi = [0, 1]
        self.uniq = {}
        self.cache = {}
        self.nvars = 0
        self.names = []

    def new_var(self, name=None):
        v = self.nvars
        self.nvars += 1
        self.names.append(name or "v%d" % v)
        return self.mk(v, 0, 1)

    def mk(self, v, lo, hi):
        if lo == hi:
            return lo
        k = (v, lo, hi)
        r = self.uniq.get(k)
        if r is None:
            r = len(self.var)
            self.var.append(v)
            self.lo.append(lo)
            self.hi.append(hi)
            self.uniq[k] = r
            if r > 4000000:
                raise MemoryError("BDD node limit")
        return r

    def ite(self, f, g, h):
        if f == 1:
            return g
        if f == 0:
            return h
        if g == h:
            return g
        if g == 1 and h == 0:
            return f
        k = (f, g, h)
        r = self.cache.get(k)
        if r is not None:
            return r
        var, lo, hi = self.var, self.lo, self.hi
        v = min(var[f], var[g], var[h])
        f0, f1 = (lo[f], hi[f]) if var[f] == v else (f, f)
        g0, g1 = (lo[g], hi[g]) if var[g] == v else (g, g)
        h0, h1 = (lo[h], hi[h]) if var[h] == v else (h, h)
        r = self.mk(v, self.ite(f0, g0, h0), self.ite(f1, g1, h1))
        self.cache[k] = r
        return r

    def AND(self, a, b):
        if a == b:
            return a
        if a > b:
            a, b = b, a
        return self.ite(a, b, 0)

    def OR(self, a, b):
        if a == b:
            return a
        if a > b:
            a, b = b, a
        return self.ite(a, 1, b)

    def NOT(self, a):
        return self.ite(a, 0, 1)

    def XOR(self, a, b):
        if a == b:
            return 0
        if a > b:
            a, b = b, a
        return self.ite(a, self.NOT(b), b)

    def IMP(self, a, b):
        return self.ite(a, b, 1)

    def cofactor(self, f, v, val):
        """restrict variable index v to val"""
        k = ("cof", f, v, val)
        r = self.cache.get(k)
        if r is not None:
            return r
        w = self.var[f]
        if w > v:
            r = f
        elif w == v:
            r = self.hi[f] if val else self.lo[f]
        else:
            r = self.mk(w, self.cofactor(self.lo[f], v, val), self.cofactor(self.hi[f], v, val))
        self.cache[k] = r
        return r

    def support(self, f):
        seen, sup, st = set(), set(), [f]
        while st:
            n = st.pop()
            if n < 2 or n in seen:
                continue
            seen.add(n)
            sup.add(self.var[n])
            st.append(self.lo[n])
            st.append(self.hi[n])
        return sup

    def cubes(self, f):
        """generate cubes as dict var->0/1"""
        stack = [(f, ())]
        while stack:
            n, c = stack.pop()
            if n == 0:
                continue
            if n == 1:
                yield dict(c)
                continue
            v = self.var[n]
            stack.append((self.hi[n], c + ((v, 1),)))
            stack.append((self.lo[n], c + ((v, 0),)))
