"""Reduced ordered binary decision diagrams: canonical form of guard conditions over opaque atoms."""


class BDD:
    def __init__(self):
        self.uniq = {}
        self.nodes = [None, None]          # 0 = False, 1 = True; others (var, lo, hi)
        self.vars = {}                     # atom -> index
        self.atoms = []
        self.memo = {}

    def var(self, atom):
        i = self.vars.get(atom)
        if i is None:
            i = len(self.atoms)
            self.vars[atom] = i
            self.atoms.append(atom)
        return self.mk(i, 0, 1)

    def mk(self, v, lo, hi):
        if lo == hi:
            return lo
        k = (v, lo, hi)
        n = self.uniq.get(k)
        if n is None:
            n = len(self.nodes)
            self.nodes.append(k)
            self.uniq[k] = n
        return n

    def top(self, n):
        return self.nodes[n][0] if n > 1 else 1 << 60

    def cof(self, n, v):
        if n > 1 and self.nodes[n][0] == v:
            return self.nodes[n][1], self.nodes[n][2]
        return n, n

    def ite(self, f, g, h):
        if f == 1:
            return g
        if f == 0:
            return h
        if g == h:
            return g
        if g == 1 and h == 0:
            return f
        k = (f, g, h)
        r = self.memo.get(k)
        if r is not None:
            return r
        v = min(self.top(f), self.top(g), self.top(h))
        f0, f1 = self.cof(f, v)
        g0, g1 = self.cof(g, v)
        h0, h1 = self.cof(h, v)
        r = self.mk(v, self.ite(f0, g0, h0), self.ite(f1, g1, h1))
        self.memo[k] = r
        return r

    def and_(self, a, b):
        return self.ite(a, b, 0)

    def or_(self, a, b):
        return self.ite(a, 1, b)

    def not_(self, a):
        return self.ite(a, 0, 1)

    def implies(self, a, b):
        return self.and_(a, self.not_(b)) == 0

    def all_(self, xs):
        r = 1
        for x in xs:
            r = self.and_(r, x)
        return r

    def any_(self, xs):
        r = 0
        for x in xs:
            r = self.or_(r, x)
        return r

    def support(self, n):
        seen, out, st = set(), set(), [n]
        while st:
            x = st.pop()
            if x <= 1 or x in seen:
                continue
            seen.add(x)
            v, lo, hi = self.nodes[x]
            out.add(v)
            st += [lo, hi]
        return [self.atoms[v] for v in sorted(out)]

    def inside(self, v):
        """All nodes occurring in a value, those in its guards included."""
        memo = self.__dict__.setdefault("insidememo", {})
        r = memo.get(v)
        if r is None:
            acc = {v}

            def walk(x, op):
                if isinstance(x, tuple):
                    if op in ("phi", "sum") and len(x) == 2 and isinstance(x[0], int):
                        for a in self.support(x[0]):
                            acc.update(self.inside(a))
                        walk(x[1], op)
                    else:
                        for y in x:
                            walk(y, op)
                elif hasattr(x, "op"):
                    acc.update(self.inside(x))
            if v.op == "bdd":
                for a in self.support(v.a[0]):
                    acc.update(self.inside(a))
            else:
                for x in v.a:
                    walk(x, v.op)
            memo[v] = r = frozenset(acc)
        return r

    def restrict(self, n, atom, val):
        v = self.vars.get(atom)
        if v is None:
            return n
        memo = {}

        def go(x):
            if x <= 1 or self.nodes[x][0] > v:
                return x
            if x in memo:
                return memo[x]
            w, lo, hi = self.nodes[x]
            r = (hi if val else lo) if w == v else self.mk(w, go(lo), go(hi))
            memo[x] = r
            return r
        return go(n)

    def exists(self, n, atom):
        return self.or_(self.restrict(n, atom, True), self.restrict(n, atom, False))

    def cubes(self, n, limit=64):
        """Disjoint cubes [(atom, bool)...] covering n."""
        out = []

        def go(x, acc):
            if len(out) > limit:
                return
            if x == 0:
                return
            if x == 1:
                out.append(list(acc))
                return
            v, lo, hi = self.nodes[x]
            go(lo, acc + [(self.atoms[v], False)])
            go(hi, acc + [(self.atoms[v], True)])
        go(n, [])
        return out

    def simplify(self, f, care):
        """Restrict f to the care set (Coudert-Madre restrict): smaller f equal to f on care."""
        memo = {}

        def go(f, c):
            if c == 1 or f <= 1:
                return f
            if c == 0:
                return 0
            k = (f, c)
            if k in memo:
                return memo[k]
            v = self.top(f)
            cv = self.top(c)
            if cv < v:
                c0, c1 = self.cof(c, cv)
                r = go(f, self.or_(c0, c1))
            else:
                f0, f1 = self.cof(f, v)
                c0, c1 = self.cof(c, v)
                if c0 == 0:
                    r = go(f1, c1)
                elif c1 == 0:
                    r = go(f0, c0)
                else:
                    r = self.mk(v, go(f0, c0), go(f1, c1))
            memo[k] = r
            return r
        return go(f, care)

    def constrain(self, f, c):
        """Generalised cofactor: depends only on f AND c, so it is canonical modulo the don't-cares of c."""
        memo = {}

        def go(f, c):
            if c == 1 or f <= 1:
                return f
            k = (f, c)
            if k in memo:
                return memo[k]
            v = min(self.top(f), self.top(c))
            f0, f1 = self.cof(f, v)
            c0, c1 = self.cof(c, v)
            if c0 == 0:
                r = go(f1, c1)
            elif c1 == 0:
                r = go(f0, c0)
            else:
                r = self.mk(v, go(f0, c0), go(f1, c1))
            memo[k] = r
            return r
        if f > 1 and self.and_(f, c) == 0:
            return 0
        if f > 1 and self.implies(c, f):
            return 1
        return go(f, c)
