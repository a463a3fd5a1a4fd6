"""A finer normal form for numeric terms (used to compare code with a reference written in Python and interpreted by the same engine).

Slices by constants and differences along an axis are pushed into elementwise arithmetic, so that a cropped product of arrays and the product
of cropped arrays have one form; orderings that a full reduction cannot see (ravel, transposition, sorting, reversal) are removed under it.
In a scenario without missing points the NaN-skipping functions are the ordinary ones."""
import ast
from fractions import Fraction as F
from .terms import *
from .terms import UNBOUND
from .algebra import Ctx, Alg, ALG, Rat, REDUCTIONS, TooBig
from .program import Module, FuncInfo
from .common import Hooks, Run, NONE

COMPOSITE = {'root', 'abs', 'pow', 'not'}
PERM_M = {'ravel', 'flatten', 'reshape', 'transpose'}
PERM_C = {'ravel', 'transpose', 'flip', 'flipud', 'fliplr', 'sort', 'rot90', 'reshape'}
FULL = {'sum', 'mean', 'max', 'min', 'std', 'var', 'ptp', 'median', 'quantile', 'percentile', 'amax', 'amin', 'prod', 'any', 'all', 'count_nonzero'}

WHOLE = mk('slice', NONE, NONE, NONE)


class Stop(Exception):
    pass


def nd(A):
    if not hasattr(A, 'ndims'):
        A.ndims = {}
    return A.ndims


class Fine(Ctx):
    def __init__(self, it, st, nd=None, nonan=True, **k):
        super().__init__(it, st, nd, **k)
        self.nonan = nonan

    # ---------------------------------------------------------------- bookkeeping
    def rat(self, t):
        r = super().rat(t)
        if len(r.n) == 1 and r.d == {(): F(1)}:
            (m, c), = r.n.items()
            if c == 1 and len(m) == 1 and m[0][1] == 1:
                k = m[0][0]
                A = self.alg
                if not A.atoms[k][2] and k not in nd(A):
                    d = self.dims(t)
                    if d:
                        nd(A)[k] = len(d)
        return r

    def single(self, r):
        if len(r.n) == 1 and r.d == {(): F(1)}:
            (m, c), = r.n.items()
            if c == 1 and len(m) == 1 and m[0][1] == 1:
                return m[0][0]
        return None

    # ---------------------------------------------------------------- distribution over elementwise arithmetic
    def dist(self, r, f, memo=None):
        A = self.alg
        memo = {} if memo is None else memo

        def one(k):
            if k in memo:
                return memo[k]
            kind, args, sc = A.atoms[k]
            if sc:
                v = Rat({((k, 1),): F(1)})
            elif kind == 'root':
                v = A.root(go(A.ratlist[args[0]]), args[1])
            elif kind == 'abs':
                v = A.fabs(go(A.ratlist[args[0]]))
            elif kind == 'pow':
                v = A.a('pow', tuple(A.rid(go(A.ratlist[x])) for x in args), False)
            elif kind.startswith('cmp') and len(args) == 1:
                v = A.a(kind, (A.rid(go(A.ratlist[args[0]])),), False)
            else:
                v = f(k)
                if v is None:
                    raise Stop()
            memo[k] = v
            return v

        def go(q):
            n, d = A.c(0), A.c(0)
            for p, which in ((q.n, 0), (q.d, 1)):
                acc = A.c(0)
                for m, c in p.items():
                    t = A.c(c)
                    for k, e in m:
                        t = A.mul(t, A.ipow(one(k), e))
                    acc = A.add(acc, t)
                if which:
                    d = acc
                else:
                    n = acc
            return A.div(n, d)
        return go(r)

    def leaves(self, r, out=None, seen=None):
        A = self.alg
        out = set() if out is None else out
        seen = set() if seen is None else seen
        for p in (r.n, r.d):
            for m in p:
                for k, e in m:
                    if k in seen:
                        continue
                    seen.add(k)
                    kind, args, sc = A.atoms[k]
                    if sc:
                        continue
                    if kind in ('root', 'abs', 'pow') or kind.startswith('cmp') and len(args) == 1:
                        for x in args[:1] if kind != 'pow' else args:
                            self.leaves(A.ratlist[x], out, seen)
                    else:
                        out.add(k)
        return out

    def shift(self, r, offs):
        """The elements left when offs[i] = (from the start, from the end) are cut off axis i."""
        if all(o == (0, 0) for o in offs):
            return r
        A = self.alg

        def f(k):
            kind, args, _ = A.atoms[k]
            if kind == 'shift':
                if len(args[1]) != len(offs):
                    return None
                return self.mkshift(args[0], tuple((a + c, b + d) for (a, b), (c, d) in zip(args[1], offs)))
            if nd(A).get(k) == len(offs):
                return self.mkshift(k, tuple(offs))
            return None
        try:
            return self.dist(r, f)
        except Stop:
            return None

    def mkshift(self, k, offs):
        A = self.alg
        x = A.a('shift', (k, offs), False)
        nd(A)[self.single(x)] = len(offs)
        return x

    def perm(self, r, name):
        A = self.alg

        def f(k):
            x = A.a('perm', (k, name), False)
            n = 1 if name == 'ravel' else 2 if name in ('row', 'col') else nd(A).get(k)
            if n:
                nd(A)[self.single(x)] = n
            return x
        try:
            return self.dist(r, f)
        except Stop:
            return None

    def unperm(self, r):
        """A reduction does not see the order of the elements, as long as all arrays are reordered the same way."""
        A = self.alg
        for _ in range(6):
            lv = self.leaves(r)
            tags = {A.atoms[k][1][1] if A.atoms[k][0] == 'perm' else None for k in lv}
            if len(tags) != 1 or tags == {None}:
                return r
            if next(iter(tags)).startswith('sort') and len(lv) > 1:
                return r
            r = self.dist(r, lambda k: Rat({((A.atoms[k][1][0], 1),): F(1)}))
        return r

    # ---------------------------------------------------------------- terms
    def rat0(self, t):
        A = self.alg
        if t.op == 'store' and self.nonan:
            m = self.rat(t.a[1]).const()
            if m == 0 and t.a[1].op != 'const':
                return self.rat(t.a[0])
        if t.op == 'ext' and t.a[0] in ('numpy.pi', 'math.pi', 'scipy.pi'):
            return A.a('const', ('pi',), True)
        if t.op == 'ext' and t.a[0] in ('numpy.nan', 'math.nan', 'numpy.NaN', 'numpy.NAN') or t.op == 'const' and isinstance(t.a[0], float) and t.a[0] != t.a[0]:
            return A.a('const', ('nan',), True)
        if t.op == 'call' and t.a[0].op == 'ext' and t.a[0].a[0] in ('float', 'builtins.float', 'numpy.float64') and len(t.a[1]) == 1 and is_const(t.a[1][0]) and str(t.a[1][0].a[0]).lower() == 'nan':
            return A.a('const', ('nan',), True)
        if t.op == 'store' and self.boolish(t.a[1]) and self.alg.scalar(self.rat(t.a[2])):
            return self.choose(t.a[1], t.a[2], t.a[0])
        if t.op == 'un' and t.a[0] in ('~', 'invert', 'not'):
            c = self.rat(t.a[1]).const()
            if c in (0, 1) and t.a[1].op != 'const':
                return A.c(1 - c)
            k = self.single(self.rat(t.a[1]))
            if k is not None:
                kind, args, sc = A.atoms[k]
                if kind == 'un' and args[0] in ('~', 'invert', 'not'):
                    x = args[1]
                    if x[0] == 'r':
                        return A.ratlist[x[1]]
                if kind in ('cmp>', 'cmp>='):
                    return A.a({'cmp>': 'cmp>=', 'cmp>=': 'cmp>'}[kind], (A.rid(A.neg(A.ratlist[args[0]])),), sc)
                if kind in ('cmp==', 'cmp!='):
                    return A.a({'cmp==': 'cmp!=', 'cmp!=': 'cmp=='}[kind], args, sc)
            return self.opaq(t, 'un', ('~', self.key(t.a[1])))
        if t.op == 'bin' and t.a[0] in ('&', '|'):
            x, y = self.rat(t.a[1]), self.rat(t.a[2])
            for a, b in ((x, y), (y, x)):
                if a.const() in (0, 1):
                    return (b if a.const() else a) if t.a[0] == '&' else (a if a.const() else b)
        if t.op == 'bin' and t.a[0] in ('@',):
            dx = self.dims(t.a[1])
            if dx is not None and len(dx) == 1 and self.dims(t.a[2]) is not None and len(self.dims(t.a[2])) == 1:
                return A.fsum(self.unperm(A.mul(self.rat(t.a[1]), self.rat(t.a[2]))), self.prod(dx), 'sum')
        if t.op == 'field' and t.a[1] == 'T':
            d = self.dims(t.a[0])
            if d is not None:
                r = self.perm(self.rat(t.a[0]), 'T' if len(d) > 1 else 'id') if len(d) > 1 else self.rat(t.a[0])
                if r is not None:
                    return r
        return super().rat0(t)

    def subscript(self, t):
        A = self.alg
        b, i = t.a
        if b.op == 'field' and b.a[1] == 'shape':
            return super().subscript(t)
        idx = list(i.a[0]) if i.op == 'tuple' else [i]
        g = self.grid(b, i)
        if g is not None:
            return g
        if self.boolish(i) and self.flattened(b) is not None and self.dims(self.flattened(b)) is None:
            return self.rat(mk('sub', self.flattened(b), self.unflatten(i, b, self.flattened(b))))
        d = self.dims(b)
        if d is not None and len(d) == 1 and len(idx) == 2 and any(x is WHOLE for x in idx) and any(is_const(x, None) or x.op == 'ext' and x.a[0] == 'numpy.newaxis' for x in idx):
            r = self.perm(self.rat(b), 'row' if idx[1] is WHOLE else 'col')
            if r is not None:
                return r
        if d is not None and b.op == 'bin' and len(idx) <= len(d) and all(x is WHOLE or is_const(x) and type(x.a[0]) is int for x in idx) and sum(x is not WHOLE for x in idx) == 1:
            k = next(j for j, x in enumerate(idx) if x is not WHOLE)
            try:
                e = self.at(b, k, len(d), idx[k].a[0])
            except LookupError:
                e = None
            if e is not None:
                return self.rat(e)
        if all(x.op == 'slice' for x in idx):
            # slices one after the other, at most one of them for each axis
            while b.op == 'sub' and self.dims(b.a[0]) is not None:
                inner = list(b.a[1].a[0]) if b.a[1].op == 'tuple' else [b.a[1]]
                if not all(x.op == 'slice' for x in inner):
                    break
                n = len(self.dims(b.a[0]))
                if max(len(idx), len(inner)) > n:
                    break
                idx, inner = idx + [WHOLE] * (n - len(idx)), inner + [WHOLE] * (n - len(inner))
                if not all(x is WHOLE or y is WHOLE for x, y in zip(idx, inner)):
                    break
                idx = [y if x is WHOLE else x for x, y in zip(idx, inner)]
                b = b.a[0]
                d = self.dims(b)
            while len(idx) > 1 and idx[-1] is WHOLE:
                idx.pop()
            if len(idx) == 1 and idx[0] is WHOLE:
                return self.rat(b)
            i = idx[0] if len(idx) == 1 else mk('tuple', tuple(idx))
            t = mk('sub', b, i)
        if d is not None and len(idx) <= len(d) and all(x.op == 'slice' for x in idx):
            offs = []
            flip = False
            for x, n in zip(idx, d):
                o = self.cut(x, n)
                if o is None:
                    offs = None
                    break
                offs.append(o)
            if offs is not None:
                offs += [(0, 0)] * (len(d) - len(offs))
                r = self.shift(self.rat(b), tuple(offs))
                if r is not None:
                    return r
            if len(idx) == 1 and len(d) == 1 and is_const(i.a[0], None) and is_const(i.a[1], None) and is_const(i.a[2], -1):
                r = self.perm(self.rat(b), 'flip0')
                if r is not None:
                    return r
        if d is not None and len(d) == 1 and len(idx) == 1 and i.op == 'slice':
            tag = self.key(i)

            def g(k):
                if nd(A).get(k) != 1:
                    return None
                x = A.a('sel', (k, tag), False)
                nd(A)[self.single(x)] = 1
                return x
            try:
                return self.dist(self.rat(b), g)
            except Stop:
                pass
        if len(idx) == 1 and self.boolish(i) or len(idx) == 1 and i.op in ('un', 'cmp', 'bin', 'call'):
            c = self.rat(i).const()
            if c == 1 and self.boolish(i):
                r = self.perm(self.rat(b), 'ravel') if d is None or len(d) != 1 else self.rat(b)
                if r is not None:
                    return r
            # selecting with a mask distributes over elementwise arithmetic
            if self.boolish(i):
                mk_ = self.key(i)

                def f(k):
                    kind, args, _ = A.atoms[k]
                    if nd(A).get(k) is None or d is None or nd(A)[k] != len(d):
                        return None
                    x = A.a('sel', (k, mk_), False)
                    nd(A)[self.single(x)] = 1
                    return x
                try:
                    r = self.dist(self.rat(b), f)
                    return r
                except Stop:
                    pass
        return super().subscript(t)

    def grid(self, b, i):
        """Coordinate matrices, as the coordinates along their axis."""
        if b.op == 'call' and b.a[0].op == 'ext' and b.a[0].a[0] == 'numpy.meshgrid' and len(b.a[1]) == 2 and is_const(i) and i.a[0] in (0, 1):
            kws = dict(b.a[2])
            ij = kws.pop('indexing', const('xy'))
            if set(kws) <= {'sparse', 'copy'} and is_const(ij) and ij.a[0] in ('xy', 'ij') and all(len(self.dims(x) or (0, 0)) == 1 for x in b.a[1]):
                r = self.rat(b.a[1][i.a[0]])
                return self.perm(r, 'col') if (ij.a[0] == 'ij') == (i.a[0] == 0) else self.perm(r, 'row')
        return None

    def everywhere(self, x):
        """A mask that is true at every point."""
        return self.nonan and self.rat(x).const() == 1

    def boolish(self, x):
        if super().boolish(x):
            return True
        return x.op == 'mcall' and x.a[1] == 'astype' and bool(x.a[2]) and x.a[2][0].op == 'ext' and x.a[2][0].a[0].split('.')[-1] in ('bool', 'bool_')

    def cut(self, s, n):
        """(elements cut off at the start, at the end) by a slice of an axis with n elements."""
        A = self.alg
        lo, hi, step = s.a
        if not (is_const(step, None) or is_const(step, 1)):
            return None
        a = b = 0
        if not is_const(lo, None):
            c = self.rat(lo).const()
            if c is None or c.denominator != 1 or c < 0:
                return None
            a = int(c)
        if not is_const(hi, None):
            r = self.rat(hi)
            c = r.const()
            if c is not None:
                if c.denominator != 1 or c >= 0:
                    return None
                b = -int(c)
            else:
                c = A.add(r, n, -1).const()
                if c is None or c.denominator != 1 or c > 0:
                    return None
                b = -int(c)
        return a, b

    def plain(self, n):
        if self.nonan and n.startswith('nan') and n[3:] in REDUCTIONS:
            return n[3:]
        return n

    def extcall(self, t, n, args, kws):
        A = self.alg
        pre = 'numpy.' if n.startswith('numpy.') else ''
        base = n[len(pre):]
        if pre and base in ('amax', 'amin'):
            base = base[1:]
        if pre and self.plain(base) != base:
            base = self.plain(base)
            n = pre + base
        if n == 'numpy.percentile' and len(args) == 2 and not kws and self.rat(args[1]).const() != 50:
            return self.opaq(t, 'quantile', (self.key(args[0]), ('r', A.rid(A.div(self.rat(args[1]), A.c(100))))))
        if self.nonan and n in ('numpy.isnan', 'math.isnan', 'numpy.isinf') and len(args) == 1:
            return A.c(0)
        if self.nonan and n in ('numpy.isfinite', 'math.isfinite') and len(args) == 1:
            return A.c(1)
        if self.nonan and n == 'numpy.nan_to_num' and args:
            return self.rat(args[0])
        if n in ('numpy.rad2deg', 'numpy.degrees', 'math.degrees') and len(args) == 1:
            return A.div(A.mul(self.rat(args[0]), A.c(180)), A.a('const', ('pi',), True))
        if n in ('numpy.deg2rad', 'numpy.radians', 'math.radians') and len(args) == 1:
            return A.div(A.mul(self.rat(args[0]), A.a('const', ('pi',), True)), A.c(180))
        if n in ('numpy.mod', 'numpy.remainder', 'operator.mod') and len(args) == 2:
            return self.opaq(t, '%', (self.key(args[0]), self.key(args[1])))
        if n in ('numpy.floor_divide',) and len(args) == 2:
            return self.opaq(t, '//', (self.key(args[0]), self.key(args[1])))
        if n in ('numpy.flatnonzero', 'numpy.nonzero') and len(args) == 1 and not kws and (n.endswith('nonzero') and len(self.dims(args[0]) or (0, 0)) == 1):
            w = mk('call', mk('ext', 'numpy.where'), tuple(args), ())
            return self.rat(mk('sub', w, const(0)) if n.endswith('flatnonzero') else w)
        if n in ('numpy.invert', 'numpy.logical_not') and len(args) == 1:
            return self.rat(mk('un', '~', args[0]))
        if n in ('numpy.logical_and', 'numpy.logical_or') and len(args) == 2:
            return self.rat(mk('bin', '&' if n.endswith('and') else '|', *args))
        if n in ('numpy.any', 'numpy.all', 'any', 'all') and len(args) == 1 and self.rat(args[0]).const() in (0, 1):
            return self.rat(args[0])
        if n == 'numpy.isfinite' and len(args) == 1:
            return self.rat(mk('un', '~', mk('call', mk('ext', 'numpy.isnan'), tuple(args), ())))
        if n == 'numpy.where' and len(args) == 3:
            return self.choose(*args)
        if n == 'numpy.diff' and args and set(kws) <= {'axis', 'n'}:
            d = self.dims(args[0])
            ax = kws.get('axis', args[2] if len(args) > 2 else const(-1))
            k = kws.get('n', args[1] if len(args) > 1 else const(1))
            if d is not None and is_const(ax) and is_const(k) and isinstance(ax.a[0], int) and k.a[0] in (1, 2) and -len(d) <= ax.a[0] < len(d):
                ax = ax.a[0] % len(d)
                r = self.rat(args[0])
                for _ in range(k.a[0]):
                    offs = [(0, 0)] * len(d)
                    offs[ax] = (1, 0)
                    hi = self.shift(r, tuple(offs))
                    offs[ax] = (0, 1)
                    lo = self.shift(r, tuple(offs))
                    if hi is None or lo is None:
                        return super().extcall(t, n, args, kws)
                    r = A.add(hi, lo, -1)
                return r
        if n in ('numpy.dot', 'numpy.vdot', 'numpy.inner') and len(args) == 2:
            d0, d1 = self.dims(args[0]), self.dims(args[1])
            if n == 'numpy.vdot' and d0 is not None or d0 is not None and d1 is not None and len(d0) == len(d1) == 1:
                return A.fsum(self.unperm(A.mul(self.rat(args[0]), self.rat(args[1]))), self.count(args[0]), 'sum')
        if pre and base in PERM_C and args and n != 'numpy.sort' or n == 'numpy.sort' and len(args) == 1 and set(kws) <= {'axis'}:
            d = self.dims(args[0])
            if d is not None:
                tag = base + ''.join(f',{self.key(x)}' for x in args[1:]) + ''.join(f',{k}={self.key(v)}' for k, v in sorted(kws.items()))
                if base in ('ravel',) and len(d) == 1:
                    return self.rat(args[0])
                x = self.rat(args[0])
                if base == 'sort' and len(d) > 1:
                    if not is_const(kws.get('axis', const(-1)), None):
                        return super().extcall(t, n, args, kws)
                    x = self.perm(x, 'ravel')
                if base == 'sort':
                    tag = 'sort'
                r = self.perm(x, tag) if x is not None else None
                if r is not None:
                    return r
        if n in ('numpy.outer', 'numpy.multiply.outer') and len(args) == 2 and all(len(self.dims(x) or (0, 0)) == 1 for x in args):
            col = self.perm(self.rat(args[0]), 'col')
            if col is not None:
                return A.mul(col, self.perm(self.rat(args[1]), 'row'))
        if n == 'numpy.column_stack' and len(args) == 1 and not kws:
            cols = self.columns(t)
            if cols is not None:
                x = A.a('columns', tuple(A.rid(y) for y in cols), False)
                nd(A)[self.single(x)] = 2
                return x
        if n in ('numpy.linalg.lstsq', 'scipy.linalg.lstsq') and len(args) >= 2:
            return self.opaq(t, 'lstsq', (self.key(args[0]), self.key(args[1])))
        if n in ('numpy.ones_like', 'numpy.zeros_like') and args:
            return A.c(int(n == 'numpy.ones_like'))
        if n == 'numpy.arange' and set(kws) <= {'dtype'} and (len(args) == 2 or len(args) == 3 and is_const(args[2], 1)):
            lo, hi = self.rat(args[0]), self.rat(args[1])
            x = A.a('upto', (A.rid(A.add(hi, lo, -1)),), False)
            nd(A)[self.single(x)] = 1
            return A.add(x, lo)
        if n == 'numpy.arange' and len(args) == 1 and set(kws) <= {'dtype'}:
            x = A.a('upto', (A.rid(self.rat(args[0])),), False)
            nd(A)[self.single(x)] = 1
            return x
        if n == 'numpy.interp' and len(args) == 3 and not kws:
            x, xs, ys = args
            xs, ys = self.presorted(xs, ys)
            return A.a('curve', (self.key(x), A.rid(xs), A.rid(ys)), self.isscalar(x))
        if n == 'numpy.average' and len(args) == 1 and not kws:
            return self.reduce(t, 'mean', args[0], (), {})
        if n in ('statistics.mean', 'statistics.fmean') and len(args) == 1:
            return self.reduce(t, 'mean', args[0], (), {})
        if n in ('scipy.stats.skew', 'scipy.stats.kurtosis') and args and (is_const(kws.get('axis', const(0)), None) or len(self.dims(args[0]) or (0, 0)) == 1) and set(kws) <= {'axis', 'bias', 'fisher', 'nan_policy'} and not is_const(kws.get('bias', TRUE), False) and len(args) == 1:
            x = self.unperm(self.rat(args[0]))
            cnt = self.count(args[0])
            m = A.div(A.fsum(x, cnt), cnt)
            mom = lambda q: A.div(A.fsum(A.ipow(A.add(x, m, -1), q), cnt), cnt)
            if n.endswith('skew'):
                return A.div(mom(3), A.ipow(A.root(mom(2)), 3))
            k = A.div(mom(4), A.ipow(mom(2), 2))
            return k if is_const(kws.get('fisher', TRUE), False) else A.add(k, A.c(3), -1)
        return super().extcall(t, n, args, kws)

    def columns(self, t):
        """Normal forms of the columns of a matrix; None if it is not understood."""
        if t.op == 'call' and t.a[0].op == 'ext' and t.a[0].a[0] == 'numpy.column_stack' and len(t.a[1]) == 1:
            x = t.a[1][0]
            if x.op in ('tuple', 'list'):
                p = x.a[0]
            else:
                h = self.it.h(self.st, x) if x.op == 'obj' else None
                if h is None or h.cls != 'list' or h.open:
                    return None
                p = h.fields['items']
            out = []
            for y in p:
                c = self.columns(y)
                if c is None:
                    return None
                out += c
            return out
        if t.op == 'call' and t.a[0].op == 'ext' and t.a[0].a[0] in ('numpy.ones', 'numpy.ones_like'):
            return [self.alg.c(1)]
        d = self.dims(t)
        if d is not None and len(d) == 1:
            return [self.rat(t)]
        return None

    def choose(self, m, a, b):
        """Elements of a where m holds, elements of b elsewhere."""
        A = self.alg
        c = self.rat(m).const()
        if c in (0, 1):
            return self.rat(a if c else b)
        x, y = self.rat(a), self.rat(b)
        if A.eq(x, y):
            return x
        ky = self.single(y)
        if ky is not None and A.atoms[ky][0] == 'where' and A.eq(A.ratlist[A.atoms[ky][1][1]], x) and x.n and A.atoms[self.single(x) or 0][1] == ('nan',):
            # NaN where either mask holds; comparisons with NaN do not hold
            m1, _, base = (A.ratlist[i] for i in A.atoms[ky][1])
            try:
                m2 = self.dist(self.rat(m), lambda k: base if k == ky else Rat({((k, 1),): F(1)}))
                k2 = self.single(m2)
                if k2 is not None and A.atoms[k2][0] in ('cmp>', 'cmp>=', 'cmp=='):
                    parts = set()
                    for r in (m1, m2):
                        k = self.single(r)
                        parts |= set(A.atoms[k][1]) if k is not None and A.atoms[k][0] == '|' else {('r', A.rid(r))}
                    either = A.a('|', tuple(sorted(parts, key=repr)), False)
                    return A.a('where', (A.rid(either), A.rid(x), A.rid(base)), False)
            except Stop:
                pass
        k = self.single(self.rat(m))
        if k is not None and A.atoms[k][0] == 'un' and A.atoms[k][1][0] in ('~', 'not') and A.atoms[k][1][1][0] == 'r':
            return A.a('where', (A.atoms[k][1][1][1], A.rid(y), A.rid(x)), False)
        return A.a('where', (A.rid(self.rat(m)), A.rid(x), A.rid(y)), False)

    def presorted(self, xs, ys):
        """Interpolation nodes do not depend on the order they were brought into."""
        if xs.op == 'sub' and ys.op == 'sub' and xs.a[1] is ys.a[1]:
            i = xs.a[1]
            if i.op == 'call' and i.a[0].op == 'ext' and i.a[0].a[0] == 'numpy.argsort' and len(i.a[1]) == 1 and i.a[1][0] is xs.a[0] or i.op == 'mcall' and i.a[1] == 'argsort' and not i.a[2] and i.a[0] is xs.a[0]:
                return self.rat(xs.a[0]), self.rat(ys.a[0])
        a, b = self.rat(xs), self.rat(ys)
        ta = {self.alg.atoms[k][1][1] if self.alg.atoms[k][0] == 'perm' else None for k in self.leaves(a) | self.leaves(b)}
        if len(ta) == 1 and ta <= {'flip0', 'flip', 'flipud'}:
            return self.unperm(a), self.unperm(b)
        return a, b

    def mcall(self, t, recv, name, args, kws):
        A = self.alg
        if name in ('ravel', 'flatten') and recv.op != 'obj':
            d = self.dims(recv)
            if d is not None:
                if len(d) == 1:
                    return self.rat(recv)
                r = self.perm(self.rat(recv), 'ravel')
                if r is not None:
                    return r
        if name == 'transpose' and not args and recv.op != 'obj' and self.dims(recv) is not None and len(self.dims(recv)) == 2:
            r = self.perm(self.rat(recv), 'T')
            if r is not None:
                return r
        if name == 'reshape' and recv.op != 'obj' and self.dims(recv) is not None and (len(args) == 1 and is_const(args[0], -1)):
            r = self.perm(self.rat(recv), 'ravel') if len(self.dims(recv)) > 1 else self.rat(recv)
            if r is not None:
                return r
        if name == 'dot' and len(args) == 1:
            return self.extcall(t, 'numpy.dot', (recv, args[0]), {})
        if name == '__getitem__' and len(args) == 1 and not kws:
            return self.rat(mk('sub', recv, args[0]))
        if name in ('any', 'all') and not args and self.rat(recv).const() in (0, 1):
            return self.rat(recv)
        return super().mcall(t, recv, name, args, kws)

    def reduce(self, t, name, x, args, kws):
        A = self.alg
        name = self.plain({'amax': 'max', 'amin': 'min'}.get(name, name))
        axis = kws.get('axis', args[0] if args else None)
        if (axis is None or is_const(axis, None)) and x.op in ('call', 'mcall'):
            # a reduction of a reduction along one axis
            inner = self.partial(x)
            if inner is not None:
                nm, y = inner
                nm = self.plain({'amax': 'max', 'amin': 'min'}.get(nm, nm))
                if nm == name and name in ('sum', 'max', 'min', 'mean') and self.dims(y) is not None:
                    return self.reduce(t, name, y, (), {})
        if (axis is None or is_const(axis, None)) and x.op not in ('comp', 'obj', 'tuple', 'list'):
            r = self.rat(x)
            u = self.unperm(r)
            m = self.measured(u)
            if m is not None:
                name, u = 'nan' + name, m
            if u is not r:
                # the same reduction of the plain elements
                saved = self.memo.get(x.uid)
                self.memo[x.uid] = u
                try:
                    return super().reduce(t, name, x, args, kws)
                finally:
                    self.memo[x.uid] = saved
        return super().reduce(t, name, x, args, kws)

    def measured(self, r):
        """If the elements of r are selected where the same elements are not NaN: all elements of r."""
        A = self.alg
        lv = self.leaves(r)
        if not lv or any(A.atoms[k][0] != 'sel' for k in lv):
            return None
        tags = {A.atoms[k][1][1] for k in lv}
        tag = next(iter(tags))
        if len(tags) != 1 or tag[0] != 'r':
            return None
        k = self.single(A.ratlist[tag[1]])
        if k is None or A.atoms[k][0] != 'un' or A.atoms[k][1][0] != '~' or A.atoms[k][1][1][0] != 'r':
            return None
        k = self.single(A.ratlist[A.atoms[k][1][1][1]])
        if k is None or A.atoms[k][0] != 'isnan':
            return None
        x = A.atoms[k][1][0]
        while isinstance(x, tuple) and len(x) == 1:
            x = x[0]
        if not (isinstance(x, tuple) and x[0] == 'r'):
            return None
        if self.leaves(A.ratlist[x[1]]) != {A.atoms[k][1][0] for k in lv}:
            return None
        return self.dist(r, lambda k: Rat({((A.atoms[k][1][0], 1),): F(1)}))

    def partial(self, x):
        """(name, array) of a reduction along one axis."""
        if x.op == 'mcall' and x.a[1] in REDUCTIONS:
            kws = dict(x.a[3])
            ax = kws.get('axis', x.a[2][0] if x.a[2] else None)
            return (x.a[1], x.a[0]) if ax is not None and is_const(ax) and isinstance(ax.a[0], int) and set(kws) <= {'axis'} else None
        if x.op == 'call' and x.a[0].op == 'ext' and x.a[0].a[0].startswith('numpy.') and x.a[0].a[0][6:] in REDUCTIONS and x.a[1]:
            kws = dict(x.a[2])
            ax = kws.get('axis', x.a[1][1] if len(x.a[1]) > 1 else None)
            return (x.a[0].a[0][6:], x.a[1][0]) if ax is not None and is_const(ax) and isinstance(ax.a[0], int) and set(kws) <= {'axis'} else None
        return None

    # ---------------------------------------------------------------- what a form is made of
    def vocabulary(self, r, out=None, seen=None):
        """Kinds of atoms a normal form is built from."""
        A = self.alg
        out = set() if out is None else out
        seen = set() if seen is None else seen
        stack = [r]
        while stack:
            x = stack.pop()
            if isinstance(x, Rat):
                for p in (x.n, x.d):
                    for m in p:
                        for k, e in m:
                            stack.append(('atom', k))
            elif isinstance(x, tuple) and len(x) == 2 and x[0] == 'atom' and isinstance(x[1], int):
                if x[1] in seen:
                    continue
                seen.add(x[1])
                kind, args, _ = A.atoms[x[1]]
                out.add(kind)
                if kind in ('shift', 'sel', 'perm', 'each'):
                    stack.append(('atom', args[0]))
                    stack.extend(args[1:])
                elif kind == 'curve':
                    stack.append(args[0])
                    stack.extend(A.ratlist[y] for y in args[1:])
                elif kind in ('root', 'abs', 'pow', 'sum', 'max', 'min', 'median', 'phi', 'any', 'all', 'prod', 'argmax', 'argmin', 'int', 'slen', 'where', 'upto', 'columns') or kind.startswith('cmp') and len(args) == 1:
                    stack.extend(A.ratlist[y] for y in (args[:1] if kind in ('root', 'slen') else args) if isinstance(y, int) and not isinstance(y, bool) and y < len(A.ratlist))
                else:
                    stack.extend(args)
            elif isinstance(x, tuple) and len(x) == 2 and x[0] == 'r' and isinstance(x[1], int):
                stack.append(A.ratlist[x[1]])
            elif isinstance(x, tuple):
                stack.extend(y for y in x if isinstance(y, (tuple, Rat)))
        return out


class Refs:
    """Reference definitions written in Python, interpreted by the same engine as the code under analysis."""

    def __init__(self, prog, text, name='reference'):
        m = Module.__new__(Module)
        m.name, m.path, m.rel, m.src = name, name, name, text
        m.tree = ast.parse(text)
        m.is_pkg = False
        m.syms, m.classes, m.funcs = {}, {}, {}
        for st in m.tree.body:
            m._bind(st)
        self.mod, self.prog = m, prog
        for f in m.funcs.values():
            prog.funcs[f.qual] = f

    def names(self):
        return list(self.mod.funcs)

    def fi(self, name):
        return self.mod.funcs[name]


class Measured(Hooks):
    """Nothing is missing."""
    force = None

    def truth(self, t, st):
        x = t
        while x.op == 'call' and x.a[0].op == 'ext' and x.a[0].a[0] in ('bool', 'int') and x.a[1]:
            x = x.a[1][0]
        if self.force and t in self.force:
            return self.force[t]
        y = None
        if x.op == 'call' and x.a[0].op == 'ext' and x.a[0].a[0] in ('numpy.any', 'any', 'numpy.max', 'numpy.sum', 'numpy.count_nonzero') and x.a[1]:
            y = x.a[1][0]
        elif x.op == 'mcall' and x.a[1] in ('any', 'max', 'sum'):
            y = x.a[0]
        if y is not None:
            while y.op in ('ro',) or y.op == 'mcall' and y.a[1] in ('ravel', 'copy'):
                y = y.a[0]
            if y.op == 'call' and y.a[0].op == 'ext' and y.a[0].a[0] == 'numpy.isnan':
                return False
        if x.op == 'call' and x.a[0].op == 'ext' and x.a[0].a[0] in ('numpy.all', 'all') and x.a[1]:
            y = x.a[1][0]
            if y.op == 'call' and y.a[0].op == 'ext' and y.a[0].a[0] == 'numpy.isfinite':
                return True
        if x.op == 'call' and x.a[0].op == 'ext' and x.a[0].a[0] in ('numpy.isnan', 'math.isnan'):
            return False
        if x.op == 'cmp' and x.a[0] in ('>', '!=', '==') and is_const(x.a[2], 0) and self.truth(x.a[1], st) is False and x.a[1].op in ('call', 'mcall'):
            return x.a[0] == '=='
        return self.ndim_truth(t, st)

    def implicit_raise(self, s):
        return False
