"""Feasibility of conjunctions of linear conditions (Fourier-Motzkin elimination) over the monomials of the algebra.  Integer-valued forms are
tightened; numbers of points are at least one, steps are positive.  Everything else about non-linear monomials is left open."""
from fractions import Fraction as F
from math import gcd

WHOLE_NUMBERS = {'dim', 'round', 'int', 'floor', 'ceil', 'count', '//', 'slen'}
POSITIVE = {'dim', 'step', 'count'}
LIMIT = 4000


class Linear:
    def __init__(self, alg, integers=()):
        self.A, self.integers = alg, set(integers)      # names of parameters that are whole numbers
        self.zero = {}                                  # forms known to be zero

    def integer(self, k):
        kind, args, _ = self.A.atoms[k]
        if kind == 'param':
            return args[0] in self.integers
        return kind in WHOLE_NUMBERS and not (kind == 'round' and len(args) > 1 and args[1])

    def positive(self, m):
        return all(self.A.atoms[k][0] in POSITIVE or e % 2 == 0 for k, e in m)

    def form(self, r):
        """Coefficients by monomial; the sign is that of the value."""
        if len(r.d) == 1:
            (m, c), = r.d.items()
            if self.positive(m):
                return {k: v / c for k, v in r.n.items()}
        return {((('whole', self.A.rid(r)), 1),): F(1)}

    def tight(self, f, strict):
        """f > 0 or f >= 0, whole-numbered forms as f - 1 >= 0."""
        if all(isinstance(k, int) and self.integer(k) and e > 0 for m in f for k, e in m):
            den = 1
            for c in f.values():
                den = den * c.denominator // gcd(den, c.denominator)
            g = {m: c * den for m, c in f.items()}
            n = 0
            for m, c in g.items():
                if m:
                    n = gcd(n, int(c))
            if n:
                c0 = int(g.get((), 0)) - (1 if strict else 0)
                g = {m: F(int(c) // n) for m, c in g.items() if m}
                # sum + c0 / n >= 0 with a whole-numbered sum
                g[()] = F(c0 // n)
                return g, False
        return f, strict

    def constraints(self, cond, value):
        """Constraints of a condition ('>', i) or ('=', i) with a truth value; None for a disjunction."""
        kind, i = cond
        f = self.form(self.A.ratlist[i])
        neg = {m: -c for m, c in f.items()}
        if kind == '>':
            return [self.tight(f, True)] if value else [self.tight(neg, False)]
        return [(f, False), (neg, False)] if value else None

    def background(self, fs):
        monos = {m for f, s in fs for m in f if m}
        out = []
        for m in monos:
            if not all(isinstance(k, int) for k, e in m) or not self.positive(m):
                continue
            out.append(({m: F(1)}, True))
            for k, e in m:
                if self.A.atoms[k][0] == 'dim':
                    less = tuple((a, b - (a == k)) for a, b in m if b - (a == k))
                    if less in monos or not less:
                        out.append(self.tight({m: F(1), less: F(-1)}, False))
        return out

    def feasible(self, conds):
        """conds: {condition: truth value}."""
        cs, apart = [], []
        for c, v in conds.items():
            x = self.constraints(c, v)
            if x is None:
                apart.append(self.form(self.A.ratlist[c[1]]))
            else:
                cs += x
        for f in self.zero.values():
            cs += [(f, False), ({m: -c for m, c in f.items()}, False)]
        cs += self.background(cs + [(f, False) for f in apart])
        if not self.solve(cs):
            return False
        for f in apart:
            neg = {m: -c for m, c in f.items()}
            if not self.solve(cs + [self.tight(f, True)]) and not self.solve(cs + [self.tight(neg, True)]):
                return False
        return True

    def solve(self, cs):
        cs = [(dict(f), s) for f, s in cs]
        while True:
            rest = []
            for f, s in cs:
                f = {m: c for m, c in f.items() if c}
                if all(not m for m in f):
                    c = f.get((), F(0))
                    if c < 0 or s and c == 0:
                        return False
                else:
                    rest.append((f, s))
            if not rest:
                return True
            count = {}
            for f, s in rest:
                for m, c in f.items():
                    if m:
                        p = count.setdefault(m, [0, 0])
                        p[c < 0] += 1
            x = min(count, key=lambda m: (count[m][0] * count[m][1], str(m)))
            pos = [(f, s) for f, s in rest if f.get(x, 0) > 0]
            neg = [(f, s) for f, s in rest if f.get(x, 0) < 0]
            new = [(f, s) for f, s in rest if not f.get(x, 0)]
            seen = set()
            for f, s in pos:
                for g, t in neg:
                    a, b = -g[x], f[x]
                    h = {}
                    for m, c in f.items():
                        h[m] = h.get(m, 0) + a * c
                    for m, c in g.items():
                        h[m] = h.get(m, 0) + b * c
                    h.pop(x, None)
                    key = (tuple(sorted(((str(m), c) for m, c in h.items() if c))), s or t)
                    if key not in seen:
                        seen.add(key)
                        new.append((h, s or t))
            if len(new) > LIMIT:
                return True
            cs = new

    def equal(self, x, y):
        r = self.A.add(x, y, -1)
        self.zero[self.A.rid(r)] = self.form(r)

    def known(self, cond, given):
        if cond in given:
            return given[cond]
        if not self.feasible({**given, cond: True}):
            return False
        if not self.feasible({**given, cond: False}):
            return True
        return None
