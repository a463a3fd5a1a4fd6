"""Comparison of code with a reference definition, one path at a time, and a judgement of the difference.

The conditions the reference depends on are enumerated; code and reference are interpreted under the same truth values.  A difference between
the two normal forms is followed down to the places where they really differ.  It is a violation when it is a small edit made of understood
operations (another operand, another constant, another function of the same arguments, an operation more or less); forms that are built in
another way are not comparable."""
from .common import *
from .algebra import Alg, Rat, describe
from .fine import Fine, Measured
from fractions import Fraction as F

INTS = {'root', 'abs', 'pow', 'sum', 'max', 'min', 'median', 'phi', 'any', 'all', 'prod', 'argmax', 'argmin', 'int', 'slen', 'where', 'upto', 'columns', 'nansum', 'nancount',
        'nanmax', 'nanmin', 'nanmedian', 'count_nonzero', 'mean', 'std', 'var', 'curve'}
ATOMS = {'shift', 'sel', 'perm', 'each'}
LEAF = {'param', 'field', 'step', 'dim', 'const', 'ext', 'count', 'len'}


def children(A, k):
    """Arguments of an atom, each ('rat', Rat), ('atom', k) or ('val', x)."""
    kind, args, _ = A.atoms[k]

    def conv(x, top, i):
        if isinstance(x, tuple) and len(x) == 2 and x[0] == 'r' and isinstance(x[1], int):
            return ('rat', A.ratlist[x[1]])
        if top and isinstance(x, int) and not isinstance(x, bool):
            if kind in ATOMS and i == 0:
                return ('atom', x)
            if (kind in INTS or kind.startswith('cmp') and len(args) == 1) and not (kind in ('root', 'slen') and i > 0) and x < len(A.ratlist):
                return ('rat', A.ratlist[x])
        if isinstance(x, tuple):
            return ('tup', tuple(conv(y, False, j) for j, y in enumerate(x)))
        return ('val', x)
    return [conv(x, True, i) for i, x in enumerate(args)]


def reach(A, x, out):
    """Atoms a normal form is made of."""
    stack = [x]
    while stack:
        y = stack.pop()
        if isinstance(y, Rat):
            for p in (y.n, y.d):
                for m in p:
                    for k, e in m:
                        if k not in out:
                            out.add(k)
                            stack.extend(children(A, k))
        elif isinstance(y, tuple):
            if y[0] == 'atom':
                if y[1] not in out:
                    out.add(y[1])
                    stack.extend(children(A, y[1]))
            elif y[0] == 'rat':
                stack.append(y[1])
            elif y[0] == 'tup':
                stack.extend(y[1])
    return out


class Diff:
    def __init__(self, A, g, w):
        self.A, self.g, self.w = A, g, w
        self.out = []
        self.seen = set()
        self.rat(g, w)

    def leaf(self, g, w):
        k = (self.tok(g), self.tok(w))
        if k not in self.seen:
            self.seen.add(k)
            self.out.append((g, w))

    def tok(self, x):
        if isinstance(x, Rat):
            return ('r', self.A.rid(x))
        if isinstance(x, tuple) and x[0] == 'rat':
            return ('r', self.A.rid(x[1]))
        if isinstance(x, tuple) and x[0] == 'tup':
            return tuple(self.tok(y) for y in x[1])
        return x

    def rat(self, g, w):
        A = self.A
        if A.eq(g, w):
            return
        if g.d == w.d:
            gn = {m: c for m, c in g.n.items() if w.n.get(m) != c}
            wn = {m: c for m, c in w.n.items() if g.n.get(m) != c}
            if len(gn) == len(wn) == 1:
                return self.mono(next(iter(gn.items())), next(iter(wn.items())), g, w)
            if len(gn) == len(wn):
                sh = lambda m: tuple(sorted((A.atoms[k][0], e) for k, e in m))
                a, b = {}, {}
                for m, c in gn.items():
                    a.setdefault((sh(m), c), []).append((m, c))
                for m, c in wn.items():
                    b.setdefault((sh(m), c), []).append((m, c))
                if set(a) == set(b) and all(len(x) == 1 for x in list(a.values()) + list(b.values())):
                    for k in a:
                        self.mono(a[k][0], b[k][0], g, w)
                    return
                a2, b2 = {}, {}
                for x, y in ((a, a2), (b, b2)):
                    for (h, c), ms in x.items():
                        y.setdefault(h, []).extend(ms)
                if set(a2) == set(b2) and all(len(x) == 1 for x in list(a2.values()) + list(b2.values())):
                    for k in a2:
                        self.mono(a2[k][0], b2[k][0], g, w)
                    return
        elif g.n == w.n:
            return self.rat(Rat(g.d), Rat(w.d))
        pairs = self.renaming(g, w)
        if pairs is None:
            return self.leaf(g, w)
        for k1, k2 in pairs:
            self.atom(k1, k2)

    def renaming(self, g, w):
        """Atoms of g that have to be read as other atoms to get w."""
        A = self.A
        tops = lambda x: sorted({k for p in (x.n, x.d) for m in p for k, e in m})
        tg, tw = tops(g), tops(w)
        fg, fw = [k for k in tg if k not in tw], [k for k in tw if k not in tg]
        kind = lambda k: A.atoms[k][0]
        for x, y, f, swap in ((w, g, fw, False), (g, w, fg, True)):
            # a value instead of a parameter
            ps = [k for k in f if kind(k) in ('param', 'field', 'step')]
            if len(ps) == 1:
                cs = {abs(c / d) for c in list(y.n.values()) + list(y.d.values()) for d in list(x.n.values()) + list(x.d.values())}
                for c in sorted(cs)[:8]:
                    z = self.put(x, {}, {ps[0]: c})
                    if not z.n or not z.d:
                        continue
                    l = (('val', c), ('atom', ps[0]))
                    if A.eq(z, y):
                        self.leaf(*(l[::-1] if swap else l))
                        return []
                    n = len(self.out), set(self.seen)
                    p = self.renaming(y, z) if not swap else self.renaming(z, y)
                    if p is not None:
                        self.leaf(*(l[::-1] if swap else l))
                        return p
                    self.out, self.seen = self.out[:n[0]], n[1]

        def put(m):
            return A.eq(self.put(g, m), w)
        if len(fg) == len(fw) and 0 < len(fg) <= 4:
            import itertools
            best = None
            for q in itertools.permutations(fw):
                m = dict(zip(fg, q))
                if put(m):
                    n = sum(kind(a) != kind(b) for a, b in m.items())
                    if best is None or n < best[0]:
                        best = (n, m)
            if best:
                return list(best[1].items())
        if not fg and len(tg) <= 8:
            for a in tg:
                for b in tg:
                    if a < b and put({a: b, b: a}):
                        return [(a, b), (b, a)]
        if len(fg) <= 1 and len(fw) <= 1 and len(tg) <= 8:
            for a in (fg or tg):
                for b in (fw or tw):
                    if a != b and put({a: b}):
                        return [(a, b)]
        return None

    @staticmethod
    def put(g, m, values={}):
        def poly(p):
            out = {}
            for mono, c in p.items():
                d = {}
                for k, e in mono:
                    if k in values:
                        c = c * values[k] ** e
                        continue
                    d[m.get(k, k)] = d.get(m.get(k, k), 0) + e
                t = tuple(sorted((k, e) for k, e in d.items() if e))
                out[t] = out.get(t, 0) + c
            return {t: c for t, c in out.items() if c}
        return Rat(poly(g.n), poly(g.d))

    def mono(self, a, b, g, w):
        (m1, c1), (m2, c2) = a, b
        d1, d2 = dict(m1), dict(m2)
        l1 = [(k, e) for k, e in m1 if d2.get(k) != e]
        l2 = [(k, e) for k, e in m2 if d1.get(k) != e]
        if c1 == c2 and len(l1) == len(l2) == 1 and l1[0][1] == l2[0][1]:
            return self.atom(l1[0][0], l2[0][0])
        if not l1 and not l2:
            return self.leaf(('val', c1), ('val', c2))
        if len(l1) == len(l2) > 0 and sorted((self.A.atoms[k][0], e) for k, e in l1) == sorted((self.A.atoms[k][0], e) for k, e in l2) and len({self.A.atoms[k][0] for k, e in l1}) == len(l1):
            k2 = {self.A.atoms[k][0]: k for k, e in l2}
            for k, e in l1:
                self.atom(k, k2[self.A.atoms[k][0]])
            if c1 != c2:
                self.leaf(('val', c1), ('val', c2))
            return
        one = lambda c, l: Rat({tuple(l): c})
        self.leaf(one(c1, l1), one(c2, l2))

    def atom(self, k1, k2):
        if k1 == k2:
            return
        A = self.A
        x, y = A.atoms[k1], A.atoms[k2]
        c1, c2 = children(A, k1), children(A, k2)
        if x[0] == y[0] and len(c1) == len(c2) and (x[0] not in LEAF or x[0] == 'field' and c1[0][0] == c2[0][0] == 'rat' and c1[1:] == c2[1:]):
            n = len(self.out)
            for a, b in zip(c1, c2):
                self.any(a, b)
            if len(self.out) == n:
                self.leaf(('atom', k1), ('atom', k2)) if not self.seen else None
            return
        self.leaf(('atom', k1), ('atom', k2))

    def any(self, a, b):
        if self.tok(a) == self.tok(b):
            return
        if a[0] == b[0] == 'rat':
            return self.rat(a[1], b[1])
        if a[0] == b[0] == 'atom':
            return self.atom(a[1], b[1])
        if a[0] == b[0] == 'tup' and len(a[1]) == len(b[1]):
            for x, y in zip(a[1], b[1]):
                self.any(x, y)
            return
        self.leaf(a, b)

    def verdict(self, known, limit=3, new=2):
        """True: a small edit of understood operations; False: not comparable."""
        A = self.A
        G, W = reach(A, self.g, set()), reach(A, self.w, set())
        if any(A.atoms[k][0] in ('unk', 'rec', 'big') for k in G - W):
            return False
        big = 0
        for g, w in self.out:
            grown = False
            less = not isinstance(g, tuple) and not reach(A, g, set()) - W
            for x, whole in ((g, W), (w, G)):
                if x[0] == 'val' if isinstance(x, tuple) else False:
                    continue
                fresh = reach(A, x, set()) - whole
                if any(not known(A.atoms[k][0]) for k in fresh):
                    return False
                if isinstance(x, tuple) and x[0] == 'atom':
                    # another function of the same arguments counts as one
                    other = w if x is g else g
                    if isinstance(other, tuple) and other[0] == 'atom' and [self.tok(c) for c in children(A, x[1])] == [self.tok(c) for c in children(A, other[1])]:
                        continue
                n = len([k for k in fresh if A.atoms[k][0] not in LEAF])
                if n > new and not (less and x is w):
                    return False
                grown = grown or n > 0
            big += grown
        return bool(self.out) and big <= limit

    def text(self):
        f = lambda x: describe(self.A, x, 2)[:240] if isinstance(x, Rat) else describe(self.A, Rat({((x[1], 1),): F(1)}), 2)[:240] if x[0] == 'atom' else str(x[1])[:60] if x[0] == 'val' else (describe(self.A, x[1], 2)[:90] if x[0] == 'rat' else str(self.tok(x))[:60])
        return '; '.join(f'{f(g)} instead of {f(w)}' for g, w in self.out[:2])


class Paths(Measured):
    """Truth values of the conditions of the reference are given, by their normal form."""

    def __init__(self):
        self.given = {}
        self.alg = Alg()
        self.learn = False
        self.unresolved = 0
        self.busy = False

    def canon(self, t, st):
        if getattr(self, '_c', None) is None or self._c.st is not st:
            self._c = Fine(self.it, st, self.nd, alg=self.alg)
        c = self._c
        r = c.rat(t)
        k = c.single(r)
        kind, args, _ = self.alg.atoms[k] if k is not None else ('', (), False)
        if kind == 'cmp>=' and len(args) == 1:
            return (('>', self.alg.rid(self.alg.neg(self.alg.ratlist[args[0]]))), False)
        if kind == 'cmp>' and len(args) == 1:
            return (('>', args[0]), True)
        if kind == 'cmp!=' and len(args) == 1:
            return (('=', args[0]), False)
        if kind == 'cmp==' and len(args) == 1:
            return (('=', args[0]), True)
        # truthiness
        if r.n and self.alg.leading(r.n) < 0:
            r = self.alg.neg(r)
        return (('=', self.alg.rid(r)), False)

    def truth(self, t, st):
        r = super().truth(t, st)
        if r is not None or self.busy:
            return r
        if t.op == 'cmp' and t.a[0] in ('==', '!=') and any(self.infinite(x) for x in t.a[1:]):
            return t.a[0] == '!='
        if t.op not in ('cmp', 'call', 'mcall', 'param', 'field', 'bin', 'un'):
            return None
        if t.op in ('un',):
            return None
        self.busy = True
        try:
            k, pol = self.canon(t, st)
        finally:
            self.busy = False
        v = self.known(k)
        if v is not None:
            return v == pol
        if self.learn:
            self.given[k] = pol
            self.order.append(k)
            return True
        return None

    def known(self, k):
        """Truth of a condition that is given or follows from a given one."""
        if k in self.given:
            return self.given[k]
        kind, i = k
        A = self.alg
        x = A.ratlist[i]
        neg = A.rid(A.neg(x))
        if kind == '>':
            if self.given.get(('>', neg)) or self.given.get(('=', i)) or self.given.get(('=', neg)):
                return False
            if self.given.get(('>', neg)) is False and (self.given.get(('=', i)) is False or self.given.get(('=', neg)) is False):
                return True
        elif kind == '=':
            if self.given.get(('=', neg)) is not None:
                return self.given[('=', neg)]
            if self.given.get(('>', i)) or self.given.get(('>', neg)):
                return False
            if self.given.get(('>', i)) is False and self.given.get(('>', neg)) is False:
                return True
        return None

    def special(self):
        """The path is for values that meet by coincidence."""
        A = self.alg
        for kind, i in self.order:
            if kind == '=' and self.given[(kind, i)]:
                return True
            if kind == '>' and self.given[(kind, i)] is False and self.given.get(('>', A.rid(A.neg(A.ratlist[i])))) is False:
                return True
        return False

    def infinite(self, x):
        if x.op == 'un' and x.a[0] == '-':
            x = x.a[1]
        return x.op == 'ext' and x.a[0] in ('numpy.inf', 'math.inf') or x.op == 'const' and isinstance(x.a[0], float) and abs(x.a[0]) == float('inf')


def paths(make, limit=5, given=None):
    """make(given) -> hooks: one run for every combination of truth values of the conditions met (hooks.order)."""
    todo = [dict(given or {})]
    n = 0
    while todo and n < 2 ** limit:
        given = todo.pop()
        n += 1
        x = make(dict(given))
        yield x
        acc = dict(given)
        for k in [k for k in x.order if k not in given]:
            other = dict(acc)
            other[k] = not x.given[k]
            todo.append(other)
            acc[k] = x.given[k]
