"""Reduced ordered BDDs over named atoms: the boolean lattice the reach conditions live in."""


class BDD:
    def __init__(self):
        self.names = []  # var index -> atom
        self.index = {}
        self.nodes = [None, None]  # id -> (var, lo, hi); 0 = false, 1 = true
        self.uniq = {}
        self.ite_memo = {}
        self.sup = {}

    def var(self, name):
        i = self.index.get(name)
        if i is None:
            i = self.index[name] = len(self.names)
            self.names.append(name)
        return self.mk(i, 0, 1)

    def mk(self, v, lo, hi):
        if lo == hi:
            return lo
        k = (v, lo, hi)
        r = self.uniq.get(k)
        if r is None:
            r = self.uniq[k] = len(self.nodes)
            self.nodes.append(k)
        return r

    def ite(self, f, g, h):
        if f == 1:
            return g
        if f == 0:
            return h
        if g == h:
            return g
        if g == 1 and h == 0:
            return f
        k = (f, g, h)
        r = self.ite_memo.get(k)
        if r is not None:
            return r
        N = self.nodes
        v = N[f][0]
        if g > 1 and N[g][0] < v:
            v = N[g][0]
        if h > 1 and N[h][0] < v:
            v = N[h][0]

        def co(x, b):
            if x > 1 and N[x][0] == v:
                return N[x][2 if b else 1]
            return x

        r = self.mk(v, self.ite(co(f, 0), co(g, 0), co(h, 0)), self.ite(co(f, 1), co(g, 1), co(h, 1)))
        self.ite_memo[k] = r
        return r

    def AND(self, a, b):
        return self.ite(a, b, 0)

    def OR(self, a, b):
        return self.ite(a, 1, b)

    def NOT(self, a):
        return self.ite(a, 0, 1)

    def XOR(self, a, b):
        return self.ite(a, self.NOT(b), b)

    def support(self, f):
        r = self.sup.get(f)
        if r is None:
            if f < 2:
                r = frozenset()
            else:
                v, lo, hi = self.nodes[f]
                r = self.support(lo) | self.support(hi) | {v}
            self.sup[f] = r
        return r

    def atoms(self, f):
        return {self.names[i] for i in self.support(f)}

    def restrict(self, f, v, val):
        memo = {}

        def go(x):
            if x < 2:
                return x
            r = memo.get(x)
            if r is None:
                a, lo, hi = self.nodes[x]
                if a > v:
                    r = x
                elif a == v:
                    r = hi if val else lo
                else:
                    r = self.mk(a, go(lo), go(hi))
                memo[x] = r
            return r

        return go(f)

    def exists(self, f, v):
        return self.OR(self.restrict(f, v, 0), self.restrict(f, v, 1))

    def rename(self, f, m, memo=None):
        """f with every atom replaced by m(atom); an atom mapped to None is quantified away"""
        memo = {} if memo is None else memo

        def go(x):
            if x < 2:
                return x
            r = memo.get(x)
            if r is None:
                v, lo, hi = self.nodes[x]
                a = m(self.names[v])
                lo, hi = go(lo), go(hi)
                r = memo[x] = self.OR(lo, hi) if a is None else self.ite(self.var(a), hi, lo)
            return r

        return go(f)

    def cube(self, f):
        """one satisfying assignment, short"""
        out = []
        while f > 1:
            v, lo, hi = self.nodes[f]
            if lo == 0 or hi == 1:
                out.append("+" + self.names[v])
                f = hi
            else:
                out.append("-" + self.names[v])
                f = lo
        return out

    def polar(self, f):
        """atoms with the polarities in which they matter, for messages"""
        out = set()
        seen = set()
        st = [f]
        while st:
            x = st.pop()
            if x < 2 or x in seen:
                continue
            seen.add(x)
            v, lo, hi = self.nodes[x]
            n = self.names[v]
            if hi and lo != 1:
                out.add("+" + n)
            if lo and hi != 1:
                out.add("-" + n)
            st += [lo, hi]
        return out


B = BDD()
B.enumof = {}  # variant atom -> (enum, all its variants)

