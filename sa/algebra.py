"""Algebraic normal form of value-flow terms.

Numeric terms are brought into the form numerator/denominator, both polynomials with rational coefficients over
*atoms*: fields, parameters, array dimensions, reductions (sum, max, min, ...) and opaque calls.  Reductions are linear
where mathematics says so (a sum over heights is expanded into moments; a mean is a sum divided by a count; additive
constants leave a maximum), roots and absolute values are simplified, array dimensions are inferred from how the
array was made.  Equality of two forms is decided exactly by cross multiplication.  Anything not understood is an
opaque atom, identified structurally.
"""
import hashlib
import math
from fractions import Fraction as F
from .terms import *
from .terms import UNBOUND
from .interp import strip_view
from .alias import kw

PRIME = (1 << 61) - 1

ELEMENTWISE = {'sin', 'cos', 'tan', 'arctan', 'arctan2', 'exp', 'log', 'log10', 'log2', 'log1p', 'isnan', 'isfinite', 'deg2rad', 'rad2deg', 'hypot', 'sqrt', 'mod', 'remainder', 'fmod', 'floor_divide', 'true_divide', 'divide', 'multiply', 'add', 'subtract', 'arcsin', 'arccos', 'sinh', 'cosh',
               'tanh', 'arcsinh', 'exp2', 'expm1', 'cbrt', 'trunc', 'round', 'around', 'fabs', 'isinf', 'sinc', 'logical_xor', 'bitwise_and', 'bitwise_or', 'bitwise_xor',
               'abs', 'absolute', 'floor', 'ceil', 'rint', 'sign', 'square', 'power', 'where', 'minimum', 'maximum', 'logical_not', 'logical_and', 'logical_or',
               'radians', 'degrees', 'nan_to_num', 'clip', 'real', 'imag', 'conj', 'negative', 'fft.fftshift', 'fft.ifftshift', 'fft.fft2', 'fft.ifft2', 'fft.fft',
               'sort', 'cumsum', 'flip', 'flipud', 'fliplr', 'copy', 'array', 'asarray', 'ascontiguousarray', 'zeros_like', 'ones_like', 'empty_like', 'full_like', 'invert'}
BINARY = {'where', 'arctan2', 'hypot', 'power', 'minimum', 'maximum', 'logical_and', 'logical_or', 'mod', 'remainder', 'fmod', 'floor_divide', 'true_divide', 'divide', 'multiply', 'add', 'subtract',
          'logical_xor', 'bitwise_and', 'bitwise_or', 'bitwise_xor'}
REDUCTIONS = {'sum', 'mean', 'max', 'min', 'std', 'var', 'median', 'any', 'all', 'argmax', 'argmin', 'prod', 'ptp', 'amax', 'amin',
              'nansum', 'nanmean', 'nanmax', 'nanmin', 'nanstd', 'nanvar', 'nanmedian', 'quantile', 'nanquantile', 'percentile', 'count_nonzero'}
SAME_SHAPE_CALLS = {'scipy.ndimage.gaussian_filter', 'scipy.ndimage.binary_dilation', 'scipy.ndimage.uniform_filter', 'scipy.ndimage.median_filter', 'scipy.ndimage.generic_filter'}
CASTS = {'float', 'numpy.float64', 'numpy.float32', 'numpy.double', 'builtins.float'}


class Rat:
    """num/den, polynomials: {monomial: coefficient}; monomial: sorted tuple of (atom, exponent)."""
    __slots__ = ('n', 'd')

    def __init__(self, n, d=None):
        self.n, self.d = n, d if d is not None else {(): F(1)}

    def const(self):
        if set(self.d) == {()} and (not self.n or set(self.n) == {()}):
            return self.n.get((), F(0)) / self.d[()]
        return None


def padd(a, b, s=1):
    r = dict(a)
    for m, c in b.items():
        v = r.get(m, 0) + s * c
        if v:
            r[m] = v
        else:
            r.pop(m, None)
    return r


def mmul(a, b):
    d = dict(a)
    for k, e in b:
        d[k] = d.get(k, 0) + e
    return tuple(sorted((k, e) for k, e in d.items() if e))


SIGNATURES = {
    'trapezoid': ('y', 'x', 'dx', 'axis'), 'quantile': ('a', 'q', 'axis'), 'polyfit': ('x', 'y', 'deg'), 'searchsorted': ('a', 'v', 'side'), 'linspace': ('start', 'stop', 'num'),
    'array_split': ('ary', 'indices_or_sections'), 'histogram': ('a', 'bins', 'range'), 'interp': ('x', 'xp', 'fp'), 'polyval': ('p', 'x'), 'gradient': None,
    'map_coordinates': ('input', 'coordinates', 'output', 'order', 'mode', 'cval', 'prefilter'), 'gaussian_filter': ('input', 'sigma', 'order', 'output', 'mode', 'cval', 'truncate'),
    'griddata': ('points', 'values', 'xi', 'method', 'fill_value', 'rescale'),
}
# arguments that have these values when left out
DEFAULTS = {
    'map_coordinates': {'output': None, 'order': 3, 'mode': 'constant', 'cval': 0, 'prefilter': True},
    'gaussian_filter': {'order': 0, 'output': None, 'mode': 'reflect', 'cval': 0, 'truncate': 4},
    'griddata': {'method': 'linear', 'fill_value': None, 'rescale': False},
    'linspace': {'endpoint': True, 'retstep': False, 'dtype': None, 'axis': 0}, 'searchsorted': {'side': 'left', 'sorter': None}, 'quantile': {'axis': None, 'method': 'linear'},
}


def positional(name, args, kws):
    """Arguments given by keyword brought into their position."""
    sg = SIGNATURES.get(name.split('.')[-1])
    args, kws = list(args), dict(kws)
    while sg and len(args) < len(sg) and sg[len(args)] in kws:
        args.append(kws.pop(sg[len(args)]))
    df = DEFAULTS.get(name.split('.')[-1], {})
    same = lambda v, d: is_const(v) and type(v.a[0]) in (type(d), int, float) and v.a[0] == d
    for k in [k for k, v in kws.items() if k in df and same(v, df[k])]:
        del kws[k]
    while sg and len(args) and len(args) <= len(sg) and sg[len(args) - 1] in df and same(args[-1], df[sg[len(args) - 1]]):
        args.pop()
    return tuple(args), kws


def square_part(n):
    """Largest s with s*s dividing n."""
    s, p = 1, 2
    while p * p <= n and p < 2000:
        while n % (p * p) == 0:
            n //= p * p
            s *= p
        p += 1
    r = math.isqrt(n)
    return s * r if r * r == n else s


class TooBig(Exception):
    pass


INTEGRAL = {'int', 'int64', 'int_', 'intp', 'i8', '<i8'}
NARROW = {'float32', 'float16', 'single', 'half', 'f4', 'f2', '<f4', '<f2', 'e', 'f'}


class Alg:
    def __init__(self):
        self.atoms = []              # (kind, args, scalar)
        self.bykey = {}
        self.rats = {}               # hash -> [(id, Rat)]
        self.nrats = 0
        self.ratlist = []
        self._means = {}

    # ---------------------------------------------------------------- polynomials
    def pmul(self, a, b):
        if len(a) * len(b) > 4000:
            raise TooBig()
        r = {}
        for m1, c1 in a.items():
            for m2, c2 in b.items():
                m = mmul(m1, m2)
                v = r.get(m, 0) + c1 * c2
                if v:
                    r[m] = v
                else:
                    r.pop(m, None)
        return r

    def reduce_poly(self, p):
        """Simplify powers of roots and absolute values; returns a Rat."""
        todo = False
        for m in p:
            for k, e in m:
                kind = self.atoms[k][0]
                if kind == 'root' and e >= self.atoms[k][1][1] or kind == 'abs' and e >= 2:
                    todo = True
        if not todo:
            return Rat(p)
        acc = Rat({})
        for m, c in p.items():
            t = Rat({(): c})
            for k, e in m:
                kind, args, _ = self.atoms[k]
                if kind == 'root' and e >= args[1]:
                    base = self.ratlist[args[0]]
                    t = self.mul(t, self.ipow(base, e // args[1]))
                    if e % args[1]:
                        t = self.mul(t, Rat({((k, e % args[1]),): F(1)}))
                elif kind == 'abs' and e >= 2:
                    base = self.ratlist[args[0]]
                    t = self.mul(t, self.ipow(base, e // 2 * 2))
                    if e % 2:
                        t = self.mul(t, Rat({((k, 1),): F(1)}))
                else:
                    t = self.mul(t, Rat({((k, e),): F(1)}))
            acc = self.add(acc, t)
        return acc

    def make(self, n, d):
        if not n:
            return Rat({})
        # monomial content
        def content(p):
            ms = list(p)
            common = dict(ms[0])
            for m in ms[1:]:
                dm = dict(m)
                common = {k: min(e, dm[k]) for k, e in common.items() if k in dm}
            return common
        cn, cd = content(n), content(d)
        g = {k: min(e, cd[k]) for k, e in cn.items() if k in cd}
        if g:
            inv = tuple((k, -e) for k, e in g.items())
            n = {mmul(m, inv): c for m, c in n.items()}
            d = {mmul(m, inv): c for m, c in d.items()}
        lead = d[min(d)]
        if lead != 1:
            n = {m: c / lead for m, c in n.items()}
            d = {m: c / lead for m, c in d.items()}
        if n == d:
            return Rat({(): F(1)})
        if len(d) > 1 and len(n) == len(d):
            # proportional?
            m0 = min(n)
            if set(n) == set(d):
                r = n[m0] / d[m0]
                if all(n[m] == r * d[m] for m in n):
                    return Rat({(): r})
        return Rat(n, d)

    def add(self, a, b, s=1):
        if a.d == b.d:
            return self.make(padd(a.n, b.n, s), a.d)
        return self.make(padd(self.pmul(a.n, b.d), self.pmul(b.n, a.d), s), self.pmul(a.d, b.d))

    def mul(self, a, b):
        n, d = self.pmul(a.n, b.n), self.pmul(a.d, b.d)
        rn = self.reduce_poly(n)
        rd = self.reduce_poly(d)
        if rn.n is n and rd.n is d:
            return self.make(n, d)
        return self.make(self.pmul(rn.n, rd.d), self.pmul(rn.d, rd.n))

    def inv(self, a):
        if not a.n:
            return Rat({((self.atom('div0', (), True), 1),): F(1)})
        return self.make(a.d, a.n)

    def div(self, a, b):
        return self.mul(a, self.inv(b))

    def neg(self, a):
        return Rat({m: -c for m, c in a.n.items()}, a.d)

    def ipow(self, a, k):
        if k < 0:
            return self.ipow(self.inv(a), -k)
        if k > 12:
            raise TooBig()
        r = Rat({(): F(1)})
        for _ in range(k):
            r = self.mul(r, a)
        return r

    def c(self, v):
        return Rat({(): F(v)} if v else {})

    def eq(self, a, b):
        if a.n == b.n and a.d == b.d:
            return True
        l = self.reduce_poly(self.pmul(a.n, b.d))
        r = self.reduce_poly(self.pmul(b.n, a.d))
        x = self.add(l, r, -1)
        return not x.n

    # ---------------------------------------------------------------- identity
    def val(self, k):
        h = hashlib.sha256(f'atom{k}'.encode()).digest()
        return int.from_bytes(h[:8], 'big') % PRIME or 1

    def ev(self, p):
        t = 0
        for m, c in p.items():
            v = c.numerator % PRIME * pow(c.denominator % PRIME, PRIME - 2, PRIME) % PRIME
            for k, e in m:
                v = v * pow(self.val(k), e if e >= 0 else (PRIME - 1 + e), PRIME) % PRIME
            t = (t + v) % PRIME
        return t

    def rid(self, r):
        """Identity of a Rat up to exact equality."""
        h = self.ev(r.n) * pow(self.ev(r.d), PRIME - 2, PRIME) % PRIME
        for i, x in self.rats.get(h, ()):
            if self.eq(x, r):
                return i
        i = len(self.ratlist)
        self.ratlist.append(r)
        self.rats.setdefault(h, []).append((i, r))
        return i

    def atom(self, kind, args, scalar):
        k = (kind, args)
        i = self.bykey.get(k)
        if i is None:
            i = self.bykey[k] = len(self.atoms)
            self.atoms.append((kind, args, scalar))
        return i

    def a(self, kind, args, scalar):
        return Rat({((self.atom(kind, args, scalar), 1),): F(1)})

    def scalar(self, r):
        return all(self.atoms[k][2] for p in (r.n, r.d) for m in p for k, e in m)

    # ---------------------------------------------------------------- functions
    def leading(self, p):
        return p[min(p)]

    def fabs(self, r):
        c = r.const()
        if c is not None:
            return self.c(abs(c))
        if set(r.d) == {()} or True:
            k = self.leading(r.n)
            if len(r.n) == 1 and len(r.d) == 1:
                # |c * product| : positive atoms leave the absolute value
                (m, cc), (dm, dc) = next(iter(r.n.items())), next(iter(r.d.items()))
                pos = [(x, e) for x, e in m if self.positive(x) or e % 2 == 0]
                rest = [(x, e) for x, e in m if not (self.positive(x) or e % 2 == 0)]
                dpos = all(self.positive(x) or e % 2 == 0 for x, e in dm)
                if dpos:
                    out = Rat({tuple(pos): abs(cc)}, {dm: abs(dc)})
                    if not rest:
                        return out
                    return self.mul(out, self.a('abs', (self.rid(Rat({tuple(rest): F(1)})),), self.scalar(r)))
            if k < 0:
                r = self.neg(r)
            if len(r.n) == 1 and () in r.n and set(r.d) != {()}:
                return self.div(self.c(abs(r.n[()])), self.fabs(Rat(r.d)))
        # minimum <= mean <= maximum
        s = self.sign_of(r)
        if s:
            return r if s > 0 else self.neg(r)
        return self.a('abs', (self.rid(r),), self.scalar(r))

    def positive(self, k):
        kind = self.atoms[k][0]
        return kind in ('dim', 'abs', 'root', 'count', 'step', 'len') or kind == 'std'

    def sign_of(self, r):
        """Known sign of  min(X) - mean(X), max(X) - mean(X), max(X) - min(X)."""
        ext = [(k, self.atoms[k]) for m in r.n for k, e in m if self.atoms[k][0] in ('max', 'min', 'nanmax', 'nanmin')]
        for k, (kind, args, _) in ext:
            x = self.ratlist[args[0]]
            nan = 'nan' if kind.startswith('nan') else ''
            me = Rat({((k, 1),): F(1)})
            for other, val in (('mean', None), ('max', None), ('min', None), ('median', None)):
                if other == 'mean':
                    key = ('mean' if nan else 'meanof', args[0])
                    o = self._means.get((nan, args[0]))
                elif other == 'median':
                    i = self.bykey.get((nan + 'median', args))
                    o = Rat({((i, 1),): F(1)}) if i is not None else None
                else:
                    i = self.bykey.get((nan + other, args))
                    o = Rat({((i, 1),): F(1)}) if i is not None else None
                if o is None or other == kind[len(nan):]:
                    continue
                d = self.add(me, o, -1)
                up = kind.endswith('max')
                if self.eq(d, r):
                    return 1 if up else -1
                if self.eq(self.neg(d), r):
                    return -1 if up else 1
        return 0

    def root(self, r, q=2):
        c = r.const()
        if c is not None and c >= 0:
            n, d = round(c.numerator ** (1 / q)), round(c.denominator ** (1 / q))
            if n ** q == c.numerator and d ** q == c.denominator:
                return self.c(F(n, d))
        if len(r.n) == 1 and len(r.d) == 1:
            (m, cc), (dm, dc) = next(iter(r.n.items())), next(iter(r.d.items()))
            if cc == 1 and dc == 1 and all(e % q == 0 and (self.positive(k) or q % 2) for k, e in m + dm):
                return Rat({tuple((k, e // q) for k, e in m): F(1)}, {tuple((k, e // q) for k, e in dm): F(1)})
            if q == 2 and cc == 1 and dc == 1 and all(e % 2 == 0 for k, e in m + dm):
                return self.fabs(Rat({tuple((k, e // q) for k, e in m): F(1)}, {tuple((k, e // q) for k, e in dm): F(1)}))
        if q == 2 and r.n:
            # squares of positive quantities leave the root
            if len(r.d) == 1:
                (dm, dc), = r.d.items()
                if dc > 0:
                    cs = [c / dc for c in r.n.values()]
                    g, l = 0, 1
                    for c in cs:
                        g = math.gcd(g, abs(c.numerator))
                        l = l * c.denominator // math.gcd(l, c.denominator)
                    # content g/l = (g*l)/l^2
                    sq = F(square_part(g * l), l)
                    common = None
                    for m in r.n:
                        d = {k: e for k, e in m}
                        common = d if common is None else {k: min(e, common[k]) for k, e in d.items() if k in common}
                    up = {k: e // 2 for k, e in (common or {}).items() if e >= 2 and self.positive(k)}
                    down = {k: (e + 1) // 2 for k, e in dm if self.positive(k)}
                    if sq != 1 or up or down:
                        f = Rat({tuple(sorted(up.items())): sq}, {tuple(sorted(down.items())): F(1)})
                        inner = self.div(r, self.mul(f, f))
                        if inner.n != r.n or inner.d != r.d:
                            return self.mul(f, self.root(inner, 2))
        return self.a('root', (self.rid(r), q), self.scalar(r))

    def split(self, r):
        """r as a sum of (scalar coefficient Rat, array Rat) over array monomials; requires a scalar denominator."""
        if not all(self.atoms[k][2] for m in r.d for k, e in m):
            return None
        groups = {}
        for m, c in r.n.items():
            sc = tuple((k, e) for k, e in m if self.atoms[k][2])
            ar = tuple((k, e) for k, e in m if not self.atoms[k][2])
            groups.setdefault(ar, {})[sc] = c
        return [(Rat(g, r.d), ar) for ar, g in groups.items()]

    def fsum(self, r, count, tag='sum'):
        sp = self.split(r)
        if sp is None:
            return self.a(tag, (self.rid(r),), True)
        out = Rat({})
        for coef, ar in sp:
            if ar == ():
                out = self.add(out, self.mul(self.make(coef.n, coef.d), count))
            else:
                out = self.add(out, self.mul(self.make(coef.n, coef.d), self.a(tag, (self.rid(Rat({ar: F(1)})),), True)))
        return out

    def fmax(self, r, which, nan=''):
        """max/min: additive scalars and the sign leave the reduction."""
        sp = self.split(r)
        if sp is None:
            return self.a(nan + which, (self.rid(r),), True)
        sc = Rat({})
        arr = Rat({})
        for coef, ar in sp:
            if ar == ():
                sc = self.add(sc, coef)
            else:
                arr = self.add(arr, self.mul(coef, Rat({ar: F(1)})))
        if not arr.n:
            return sc
        if self.leading(arr.n) < 0:
            o = {'max': 'min', 'min': 'max', 'median': 'median'}[which]
            return self.add(sc, self.neg(self.a(nan + o, (self.rid(self.neg(arr)),), True)))
        # positive constant factor
        if len(arr.n) == 1:
            m, c = next(iter(arr.n.items()))
            if c != 1:
                return self.add(sc, self.mul(self.c(c), self.a(nan + which, (self.rid(Rat({m: F(1)}, arr.d)),), True)))
        return self.add(sc, self.a(nan + which, (self.rid(arr),), True))


ALG = Alg()


class Ctx:
    """Normal forms of the terms of one interpretation."""

    def __init__(self, it, st, nd=None, rename=None, alg=None, invariants=None):
        self.it, self.st = it, st
        self.alg = alg or ALG
        self.nd = nd or {}               # uid of an object's initial term -> {field: ndim}
        self.memo, self.dmemo = {}, {}
        self.dbusy = set()
        self.dhit = False
        self.rename = rename or {}       # (field name) -> canonical kind
        self.inv = invariants or {}      # (field name) -> function(base term) -> Rat
        self.opaque = set()              # kinds of opaque atoms met

    # ---------------------------------------------------------------- structure
    def key(self, t):
        """Canonical identity of any value."""
        if not isinstance(t, T):
            if isinstance(t, tuple):
                return tuple(self.key(x) for x in t)
            return repr(t)
        if t.op == 'const' and not isinstance(t.a[0], (int, float)) or t.op in ('ext', 'func', 'class', 'mod'):
            return (t.op, repr(t.a[0]))
        if t.op == 'const' and isinstance(t.a[0], bool):
            return ('bool', t.a[0])
        if t.op in ('tuple', 'list'):
            return ('seq', self.key(t.a[0]))
        if t.op == 'nt':
            return ('seq', tuple(self.key(v) for k, v in t.a[1]))
        if t.op == 'obj':
            h = self.st.heap.get(t.a[0])
            if h is not None and h.cls == 'list' and not h.open:
                return ('seq', self.key(h.fields['items']))
        if t.op == 'slice':
            return ('slice',) + tuple(self.key(x) for x in t.a)
        return ('r', self.alg.rid(self.rat(t)))

    def rat(self, t):
        if t.uid in self.memo:
            return self.memo[t.uid]
        self.memo[t.uid] = self.alg.a('rec', (t.op, str(t.a[1]) if t.op == 'loopvar' else ''), False)
        try:
            r = self.rat0(t)
        except TooBig:
            self.opaque.add('big')
            r = self.opaq(t)
        self.memo[t.uid] = r
        return r

    def isscalar(self, t):
        d = self.dims(t)
        return d == ()

    def opaq(self, t, kind=None, parts=None):
        A = self.alg
        sc = self.isscalar(t)
        kind = kind or t.op
        if parts is None:
            parts = tuple(self.key(x) for x in t.a)
        self.opaque.add(kind)
        return A.a(kind, parts, sc)

    def extname(self, f):
        if f.op == 'ext':
            n = f.a[0]
            return n
        return None

    def rat0(self, t):
        A = self.alg
        op = t.op
        if op == 'const':
            v = t.a[0]
            if isinstance(v, bool):
                return A.c(int(v))
            if isinstance(v, int):
                return A.c(v)
            if isinstance(v, float) and v == v and abs(v) != float('inf'):
                return A.c(F(repr(v)))
            return A.a('const', (repr(v),), True)
        if op == 'un':
            if t.a[0] in ('-', 'usub', 'neg'):
                return A.neg(self.rat(t.a[1]))
            if t.a[0] in ('+', 'uadd'):
                return self.rat(t.a[1])
            return self.opaq(t, 'un', (t.a[0], self.key(t.a[1])))
        if op == 'bin':
            o, x, y = t.a
            if o in ('+', '-', '*', '/', '**'):
                if x.op in ('tuple', 'list', 'fstr') or y.op in ('tuple', 'list', 'fstr'):
                    return self.opaq(t, 'bin', (o, self.key(x), self.key(y)))
            if o == '+':
                return A.add(self.rat(x), self.rat(y))
            if o == '-':
                return A.add(self.rat(x), self.rat(y), -1)
            if o == '*':
                return A.mul(self.rat(x), self.rat(y))
            if o == '/':
                return A.div(self.rat(x), self.rat(y))
            if o == '**':
                return self.power(t, self.rat(x), self.rat(y), x, y)
            if o in ('//', '%'):
                return self.opaq(t, o, (self.key(x), self.key(y)))
            if o in ('&', '|', '^'):
                return self.opaq(t, o, tuple(sorted((self.key(x), self.key(y)), key=repr)))
            return self.opaq(t, 'bin', (o, self.key(x), self.key(y)))
        if op == 'cmp':
            o, x, y = t.a
            if o in ('<', '<=', '>', '>=', '==', '!='):
                d = A.add(self.rat(x), self.rat(y), -1)
                if o in ('<', '<='):
                    d, o = A.neg(d), {'<': '>', '<=': '>='}[o]
                if d.n and o in ('==', '!=') and A.leading(d.n) < 0:
                    d = A.neg(d)
                # a positive factor does not matter
                return A.a('cmp' + o, (A.rid(d),), self.isscalar(t))
            return self.opaq(t, 'cmp', (o, self.key(x), self.key(y)))
        if op in ('ro', 'store'):
            if op == 'ro':
                return self.rat(t.a[0])
            return self.opaq(t, 'store', (self.key(t.a[0]), self.key(t.a[1]), self.key(t.a[2])))
        if op == 'phi':
            xs = {A.rid(self.rat(x)) for x in t.a[0] if x is not UNBOUND}
            if len(xs) == 1:
                return A.ratlist[next(iter(xs))]
            self.opaque.add('phi')
            return A.a('phi', tuple(sorted(xs)), self.isscalar(t))
        if op == 'field':
            return self.field(t)
        if op == 'sub':
            return self.subscript(t)
        if op == 'call':
            n = self.extname(t.a[0])
            if n is not None:
                return self.extcall(t, n, t.a[1], dict(t.a[2]))
            return self.opaq(t, 'call', (self.key(t.a[0]), tuple(self.key(x) for x in t.a[1]), tuple(sorted((k, self.key(v)) for k, v in t.a[2]))))
        if op == 'mcall':
            return self.mcall(t, t.a[0], t.a[1], t.a[2], dict(t.a[3]))
        if op == 'comp':
            return self.opaq(t, 'comp', (t.a[0], self.key(t.a[1]), tuple(self.key(x) for x in t.a[2]), tuple(self.key(x) for x in t.a[3])))
        if op == 'param':
            kind = 'param'
            return A.a(kind, (t.a[0],), self.isscalar(t))
        if op == 'obj':
            h = self.st.heap.get(t.a[0])
            if h is not None and h.init is not None:
                return A.a('objinit', (self.key(h.init),), False)
            return A.a('obj', (t.a[1],), False)
        if op == 'unk':
            return A.a('unk', (t.uid,), False)
        if op == 'loopvar':
            return A.a('loopvar', (str(t.a[1]),), False)
        if op == 'elem':
            return self.opaq(t, 'elem', tuple(self.key(x) if isinstance(x, T) else repr(x) for x in t.a))
        return self.opaq(t)

    def power(self, t, rx, ry, x=None, y=None):
        A = self.alg
        c = ry.const()
        if c is not None:
            if c.denominator == 1:
                return A.ipow(rx, int(c))
            if c.denominator in (2, 3, 4) and abs(c.numerator) < 12:
                return A.ipow(A.root(rx, c.denominator), c.numerator)
        return A.a('pow', (A.rid(rx), A.rid(ry)), A.scalar(rx) and A.scalar(ry))

    def field(self, t):
        A = self.alg
        b, n = t.a
        if n == 'size':
            d = self.dims(b)
            if d is not None:
                return self.prod(d)
            return A.a('count', (self.key(b),), True)
        if n == 'ndim':
            d = self.dims(b)
            if d is not None:
                return A.c(len(d))
        if n in self.inv:
            r = self.inv[n](self, b)
            if r is not None:
                return r
        if n == 'T':
            return self.opaq(t, 'T', (self.key(b),))
        kind = 'step' if n in ('step', 'step_x', 'step_y') else 'field'
        return A.a(kind, (self.key(b), n), self.isscalar(t))

    def prod(self, d):
        r = self.alg.c(1)
        for x in d:
            r = self.alg.mul(r, x)
        return r

    def count(self, t):
        d = self.dims(t)
        if d is not None:
            return self.prod(d)
        return self.alg.a('count', (self.key(t),), True)

    def clen(self, t):
        """Number of items of a sequence."""
        d = self.dims(t)
        if d:
            return d[0]
        if t.op == 'call' and self.extname(t.a[0]) in ('numpy.array_split', 'numpy.split') and len(t.a[1]) >= 2 and self.isscalar(t.a[1][1]):
            return self.rat(t.a[1][1])
        if t.op == 'call' and self.extname(t.a[0]) in ('list', 'tuple', 'enumerate', 'reversed', 'sorted') and t.a[1]:
            return self.clen(t.a[1][0])
        if t.op == 'call' and self.extname(t.a[0]) == 'range' and len(t.a[1]) == 1:
            return self.rat(t.a[1][0])
        if t.op == 'call' and self.extname(t.a[0]) in ('numpy.arange', 'numpy.linspace'):
            return self.count(t)
        return self.alg.a('len', (self.key(t),), True)

    def subscript(self, t):
        A = self.alg
        b, i = t.a
        if b.op == 'field' and b.a[1] == 'shape' and i.op == 'const' and isinstance(i.a[0], int):
            d = self.dims(b.a[0])
            if d is not None and -len(d) <= i.a[0] < len(d):
                return d[i.a[0]]
            return A.a('dim', (self.key(b.a[0]), i.a[0]), True)
        if b.op in ('tuple', 'list') and i.op == 'const' and isinstance(i.a[0], int) and -len(b.a[0]) <= i.a[0] < len(b.a[0]):
            return self.rat(b.a[0][i.a[0]])
        if b.op == 'nt' and i.op == 'const' and isinstance(i.a[0], int):
            return self.rat(b.a[1][i.a[0]][1])
        if i.op == 'slice' and all(is_const(x, None) for x in i.a):
            return self.rat(b)
        if i.op == 'const' and isinstance(i.a[0], int) and not isinstance(i.a[0], bool) and i.a[0] >= 0:
            # an element of consecutive integers
            y = b.a[0] if b.op == 'ro' else b
            k = self.single(self.rat(y)) if hasattr(self, 'single') and y.op == 'call' and self.extname(y.a[0]) in ('numpy.arange', 'range') else None
            if k is not None and A.atoms[k][0] == 'upto':
                return A.c(i.a[0])
        if self.boolish(i):
            # the elements a mask picks come in the order of the flattened array
            flat = self.flattened(b)
            if flat is not None and self.dims(flat) is None:
                return self.rat(mk('sub', flat, self.unflatten(i, b, flat)))
        return self.opaq(t, 'sub', (self.key(b), self.key(i)))

    def flattened(self, b):
        if b.op == 'mcall' and b.a[1] in ('ravel', 'flatten') and not b.a[2] and not b.a[3]:
            return b.a[0]
        if b.op == 'call' and self.extname(b.a[0]) == 'numpy.ravel' and len(b.a[1]) == 1 and not b.a[2]:
            return b.a[1][0]
        return None

    def unflatten(self, t, old, new):
        if t is old:
            return new
        if t.op in ('cmp', 'bin'):
            return mk(t.op, t.a[0], self.unflatten(t.a[1], old, new), self.unflatten(t.a[2], old, new))
        if t.op == 'un':
            return mk('un', t.a[0], self.unflatten(t.a[1], old, new))
        if t.op == 'call' and self.boolish(t):
            return mk('call', t.a[0], tuple(self.unflatten(x, old, new) for x in t.a[1]), t.a[2])
        return t

    def nonnegative(self, t):
        if t.op == 'bin' and t.a[0] == '%':
            c = self.rat(t.a[2]).const()
            return c is not None and c > 0
        if t.op == 'call' and self.extname(t.a[0]) in ('numpy.mod', 'numpy.remainder') and len(t.a[1]) == 2:
            return self.nonnegative(mk('bin', '%', *t.a[1]))
        if t.op == 'call' and self.extname(t.a[0]) in ('numpy.abs', 'numpy.absolute', 'abs'):
            return True
        if t.op == 'bin' and t.a[0] in ('/', '//', '*'):
            # a width that points are sorted by is positive
            return self.nonnegative(t.a[1]) and (self.nonnegative(t.a[2]) or t.a[2].op == 'param' or (self.rat(t.a[2]).const() or 0) > 0)
        if t.op == 'mcall' and t.a[1] == 'astype':
            return self.nonnegative(t.a[0])
        if t.op == 'call' and self.extname(t.a[0]) in ('numpy.floor',) and len(t.a[1]) == 1:
            return self.nonnegative(t.a[1][0])
        return False

    def towhole(self, t):
        """What is cut off to whole numbers: rounding down first changes nothing for what is not negative."""
        if t.op == 'bin' and t.a[0] == '//' and self.nonnegative(t):
            return mk('bin', '/', t.a[1], t.a[2])
        if t.op == 'call' and self.extname(t.a[0]) in ('numpy.floor', 'numpy.trunc', 'numpy.fix', 'numpy.floor_divide') and not t.a[2]:
            x = t.a[1][0] if len(t.a[1]) == 1 else mk('bin', '//', *t.a[1][:2])
            if x.op == 'bin' and x.a[0] == '//':
                return self.towhole(x)
            if self.extname(t.a[0]) != 'numpy.floor' or self.nonnegative(x):
                return x
        return t

    # ---------------------------------------------------------------- calls
    NAMES = {'absolute': 'abs', 'fabs': 'abs', 'amax': 'max', 'amin': 'min'}

    def extcall(self, t, n, args, kws):
        A = self.alg
        base = n[6:] if n.startswith('numpy.') else n
        base = base[9:] if base.startswith('builtins.') else base
        if n.startswith('math.'):
            base = n[5:]
        base = self.NAMES.get(base, base)
        if base == 'floor' and len(args) == 1 and not kws and args[0].op == 'bin' and args[0].a[0] == '/':
            return self.rat(mk('bin', '//', args[0].a[1], args[0].a[2]))
        if base == 'clip' and len(args) == 3 and not kws and is_const(args[1], 0) and self.nonnegative(args[0]):
            return self.rat(mk('call', mk('ext', 'numpy.minimum'), (args[0], args[2]), ()))
        if base in ('abs',) and len(args) == 1:
            return A.fabs(self.rat(args[0]))
        if base == 'sqrt' and len(args) == 1:
            return A.root(self.rat(args[0]))
        if base == 'square' and len(args) == 1:
            return A.ipow(self.rat(args[0]), 2)
        if base in ('power', 'pow', 'float_power') and len(args) == 2:
            return self.power(t, self.rat(args[0]), self.rat(args[1]))
        if base in ('add', 'subtract', 'multiply', 'divide', 'true_divide') and len(args) == 2:
            x, y = self.rat(args[0]), self.rat(args[1])
            return {'add': A.add, 'multiply': A.mul, 'divide': A.div, 'true_divide': A.div, 'subtract': lambda a, b: A.add(a, b, -1)}[base](x, y)
        if base == 'negative' and len(args) == 1:
            return A.neg(self.rat(args[0]))
        if base == 'reciprocal' and len(args) == 1:
            return A.inv(self.rat(args[0]))
        if (n in CASTS or base in ('float', 'float64', 'double')) and len(args) == 1:
            return self.rat(args[0])
        if base == 'hypot' and len(args) == 2 and not kws and not any(x.op == 'star' for x in args):
            return A.root(A.add(A.ipow(self.rat(args[0]), 2), A.ipow(self.rat(args[1]), 2)))
        if base in ('copy', 'asarray', 'array', 'ascontiguousarray', 'asanyarray') and len(args) == 1 and not kws and n.startswith('numpy.'):
            if args[0].op not in ('obj', 'tuple', 'list'):
                return self.rat(args[0])
        if base == 'len' and len(args) == 1:
            d = self.dims(args[0])
            if d:
                return d[0]
            if args[0].op == 'nt' or args[0].op == 'tuple':
                return A.c(len(args[0].a[-1]))
            return self.clen(args[0])
        if base == 'size' and len(args) == 1:
            return self.count(args[0])
        if n.startswith('numpy.') and base in REDUCTIONS and args:
            if base in ('quantile', 'nanquantile', 'percentile', 'nanpercentile'):
                args, kws = positional('quantile', args, kws)
                if len(args) == 2 and not kws and self.rat(args[1]).const() == (50 if 'per' in base else F(1, 2)):
                    return self.reduce(t, ('nan' if base.startswith('nan') else '') + 'median', args[0], (), {})
                return self.opaq(t, base, tuple(self.key(x) for x in args) + tuple(sorted((k, self.key(v)) for k, v in kws.items())))
            return self.reduce(t, base, args[0], args[1:], kws)
        if base == 'linalg.norm' and len(args) == 1 and not kws:
            x = self.rat(args[0])
            return A.root(A.fsum(A.ipow(x, 2), self.count(args[0])))
        if base == 'linalg.norm' and len(args) == 1 and set(kws) == {'axis'} and is_const(kws['axis']) and isinstance(kws['axis'].a[0], int):
            return A.root(self.rat(mk('call', mk('ext', 'numpy.sum'), (mk('bin', '**', args[0], const(2)),), (('axis', kws['axis']),))))
        if base in ('sum', 'max', 'min') and not n.startswith('numpy.') and len(args) == 1 and not kws:
            return self.reduce(t, base, args[0], (), {})
        if base in ('max', 'min') and not n.startswith('numpy.') and len(args) >= 2:
            return A.a('builtin' + base, tuple(sorted(self.key(x) for x in args)), all(self.isscalar(x) for x in args))
        if base == 'int' and len(args) == 1:
            r = self.rat(args[0])
            c = r.const()
            if c is not None:
                return A.c(int(c))
            return A.a('int', (A.rid(r),), True)
        if base in ('trapezoid', 'trapz') or n in ('scipy.integrate.trapezoid',):
            base = 'trapezoid'
        args, kws = positional(base, args, kws)
        return self.opaq(t, base, (tuple(self.key(x) for x in args), tuple(sorted((k, self.key(v)) for k, v in kws.items()))))

    def along(self, x, axis):
        """The elements along an axis of few elements."""
        d = self.dims(x)
        if d is None or axis.op != 'const' or not isinstance(axis.a[0], int) or not -len(d) <= axis.a[0] < len(d):
            return None
        k = axis.a[0] % len(d)
        n = d[k].const()
        if n is None or not 0 < n <= 4:
            return None
        try:
            return [self.at(x, k, len(d), i) for i in range(int(n))]
        except LookupError:
            return None

    def at(self, y, k, nd, i):
        """Element i along axis k of the nd axes of an elementwise expression."""
        if y.op == 'bin':
            return mk('bin', y.a[0], self.at(y.a[1], k, nd, i), self.at(y.a[2], k, nd, i))
        if y.op == 'un':
            return mk('un', y.a[0], self.at(y.a[1], k, nd, i))
        dy = self.dims(y)
        if dy == ():
            return y
        if dy is None:
            raise LookupError
        j = k - (nd - len(dy))
        if j < 0 or dy[j].const() == 1:
            return y
        W = mk('slice', const(None), const(None), const(None))
        idx = (W,) * j + (const(i),)
        return mk('sub', y, idx[0] if len(idx) == 1 else mk('tuple', idx))

    def reduce(self, t, name, x, args, kws):
        A = self.alg
        nan = 'nan' if name.startswith('nan') else ''
        base = name[3:] if nan else name
        axis = kws.get('axis', args[0] if args else None)
        extra = {k: v for k, v in kws.items() if k not in ('axis', 'dtype')}
        if axis is not None and not is_const(axis, None) or extra or len(args) > 1:
            if 'axis' not in kws and args:
                kws = dict(kws, axis=args[0])
                args = args[1:]
            if name == 'sum' and set(kws) == {'axis'} and not args:
                cols = self.along(x, kws['axis'])
                if cols is not None:
                    s = A.c(0)
                    for c in cols:
                        s = A.add(s, self.rat(c))
                    return s
            return self.opaq(t, name, (self.key(x), tuple(self.key(a) for a in args), tuple(sorted((k, self.key(v)) for k, v in kws.items() if k != 'dtype'))))
        r = self.rat(x)
        if x.op == 'comp' and x.a[0] in ('list', 'gen') and not x.a[3]:
            r = self.overelem(self.rat(x.a[1]))
            cnt = self.clen(x.a[2][0]) if len(x.a[2]) == 1 else A.a('len', tuple(self.key(y) for y in x.a[2]), True)
        else:
            cnt = self.count(x)
        if x.op in ('tuple', 'list') or x.op == 'obj':
            el = x.a[0] if x.op != 'obj' else None
            if x.op == 'obj':
                h = self.st.heap.get(x.a[0])
                el = h.fields['items'] if h is not None and h.cls == 'list' and not h.open else None
            if el is not None and base in ('sum', 'mean') and el:
                s = A.c(0)
                for e in el:
                    s = A.add(s, self.rat(e))
                return s if base == 'sum' else A.div(s, A.c(len(el)))
        if nan:
            cnt = A.a('nancount', (A.rid(r),), True)
        if base == 'sum':
            return A.fsum(r, cnt, nan + 'sum')
        if base == 'mean':
            m = A.div(A.fsum(r, cnt, nan + 'sum'), cnt)
            A._means[(nan, A.rid(r))] = m
            return m
        if base in ('max', 'min', 'median'):
            # remember the mean of the same array: min <= mean <= max
            sp = A.split(r)
            out = A.fmax(r, base, nan)
            for m in out.n:
                for k, e in m:
                    if A.atoms[k][0] in (nan + 'max', nan + 'min') and (nan, A.atoms[k][1][0]) not in A._means:
                        rr = A.ratlist[A.atoms[k][1][0]]
                        A._means[(nan, A.atoms[k][1][0])] = A.div(A.fsum(rr, cnt, nan + 'sum'), cnt)
            return out
        if base == 'ptp':
            return A.add(A.fmax(r, 'max', nan), A.fmax(r, 'min', nan), -1)
        if base in ('std', 'var'):
            m = A.div(A.fsum(r, cnt, nan + 'sum'), cnt)
            v = A.div(A.fsum(A.ipow(A.add(r, m, -1), 2), cnt, nan + 'sum'), cnt)
            return v if base == 'var' else A.root(v)
        return A.a(name, (A.rid(r),), True)

    def overelem(self, r):
        """Element of a comprehension: everything that depends on the element varies (is array-like)."""
        A = self.alg

        def dep(k, seen):
            if k in seen:
                return False
            seen.add(k)
            kind, args, _ = A.atoms[k]
            if kind == 'elem':
                return True
            return any(depkey(x, seen) for x in args)

        def depkey(x, seen):
            if isinstance(x, tuple):
                if len(x) == 2 and x[0] == 'r' and isinstance(x[1], int):
                    return deprat(A.ratlist[x[1]], seen)
                return any(depkey(y, seen) for y in x)
            if isinstance(x, int) and not isinstance(x, bool) and 0 <= x < len(A.ratlist):
                return deprat(A.ratlist[x], seen)
            return False

        def deprat(q, seen):
            return any(dep(k, seen) for p in (q.n, q.d) for m in p for k, e in m)

        def conv(p):
            out = {}
            for m, c in p.items():
                mm = tuple(sorted((A.atom('each', (k,), False) if A.atoms[k][2] and dep(k, set()) else k, e) for k, e in m))
                out[mm] = out.get(mm, 0) + c
            return out
        return Rat(conv(r.n), conv(r.d))

    def mcall(self, t, recv, name, args, kws):
        A = self.alg
        if name in ('copy', 'view', '__copy__', '__deepcopy__') and not args and not kws:
            return self.rat(recv)
        if name == 'astype' and args and (args[0].op == 'ext' and args[0].a[0].replace('builtins.', '') in ('float', 'numpy.float64') or is_const(args[0], 'float64')):
            return self.rat(recv)
        if name == 'astype' and len(args) == 1 and not kws and (args[0].op == 'ext' and args[0].a[0].split('.')[-1] in INTEGRAL or args[0].op == 'const' and args[0].a[0] in INTEGRAL):
            return self.opaq(t, '.astype', (self.key(self.towhole(recv)), (('ext', 'int'),), ()))
        if name == 'clip' and len(args) == 2 and not kws and is_const(args[0], 0) and self.nonnegative(recv):
            return self.rat(mk('call', mk('ext', 'numpy.minimum'), (recv, args[1]), ()))
        if name == 'astype' and args and (args[0].op == 'ext' and args[0].a[0].split('.')[-1] in NARROW or args[0].op == 'const' and args[0].a[0] in NARROW):
            return self.opaq(t, 'narrowed', (self.key(recv), args[0].a[0].split('.')[-1]))
        if name in REDUCTIONS and recv.op != 'obj' or name in ('sum', 'mean', 'max', 'min', 'std', 'var', 'ptp') and recv.op != 'obj':
            return self.reduce(t, name, recv, args, kws)
        if name in ('item', '__float__') and not args:
            return self.rat(recv)
        return self.opaq(t, '.' + name, (self.key(recv), tuple(self.key(x) for x in args), tuple(sorted((k, self.key(v)) for k, v in kws.items()))))

    # ---------------------------------------------------------------- shapes
    def dims(self, t):
        if t.uid in self.dmemo:
            return self.dmemo[t.uid]
        busy = self.dbusy
        if t.uid in busy:
            self.dhit = True
            return None
        busy.add(t.uid)
        try:
            d = self.dims0(t)
        except TooBig:
            d = None
        busy.discard(t.uid)
        # an answer that is missing only because it was asked for on the way is asked for again
        if d is not None or not self.dhit or not busy:
            self.dmemo[t.uid] = d
        if not busy:
            self.dhit = False
        return d

    def bcast(self, a, b):
        if a is None or b is None:
            return None
        if a == () or b == ():
            return a or b
        n = max(len(a), len(b))
        A = self.alg
        one = A.c(1)
        a2, b2 = (one,) * (n - len(a)) + a, (one,) * (n - len(b)) + b
        return tuple(y if A.eq(x, one) else x for x, y in zip(a2, b2))

    def shape_arg(self, t):
        if t.op in ('tuple', 'list'):
            if any(x.op == 'star' for x in t.a[0]):
                return None
            return tuple(self.rat(x) for x in t.a[0])
        if t.op == 'nt':
            return tuple(self.rat(v) for k, v in t.a[1])
        if t.op == 'field' and t.a[1] == 'shape':
            return self.dims(t.a[0])
        if t.op == 'obj':
            h = self.st.heap.get(t.a[0])
            if h is not None and h.cls == 'list' and not h.open:
                return tuple(self.rat(x) for x in h.fields['items'])
            return None
        if t.op in ('const', 'call', 'bin', 'sub'):
            return (self.rat(t),)
        return None

    def slen(self, d, s, key):
        """Length of a slice of a dimension."""
        A = self.alg
        lo, hi, step = s.a
        n = lambda x: is_const(x, None)
        if n(lo) and n(hi) and (n(step) or is_const(step, -1)):
            return d
        stepkey = None if n(step) or is_const(step, 1) else self.key(step)
        if stepkey is None:
            if n(lo) and hi.op == 'un' or n(lo) and hi.op == 'const' and isinstance(hi.a[0], int) and hi.a[0] < 0:
                k = self.rat(hi)
                if k.const() is not None:
                    return A.add(d, k)
            if n(hi) and lo.op == 'const' and isinstance(lo.a[0], int) and lo.a[0] >= 0:
                return A.add(d, self.rat(lo), -1)
        return A.a('slen', (A.rid(d), None if n(lo) else self.key(lo), None if n(hi) else self.key(hi), stepkey), True)

    def dims0(self, t):
        A = self.alg
        op = t.op
        if op == 'const':
            return ()
        if op == 'field':
            b, n = t.a
            nd = self.nd.get(b.uid, {})
            if n in nd:
                k = nd[n]
                return tuple(A.a('dim', (('f', self.key(b), n), i), True) for i in range(k)) if k else ()
            if n == 'T':
                d = self.dims(b)
                return None if d is None else d[::-1]
            if n in ('size', 'ndim', 'step', 'step_x', 'step_y', 'width_um', 'height_um', 'length_um'):
                return ()
            if n in ('real', 'imag'):
                return self.dims(b)
            return None
        if op == 'param':
            return self.nd.get('params', {}).get(t.a[0])
        if op in ('ro', 'store'):
            return self.dims(t.a[0])
        if op == 'un':
            return self.dims(t.a[1])
        if op == 'bin':
            return self.bcast(self.dims(t.a[1]), self.dims(t.a[2]))
        if op == 'cmp':
            return self.bcast(self.dims(t.a[1]), self.dims(t.a[2]))
        if op == 'phi':
            ds = [self.dims(x) for x in t.a[0] if x is not UNBOUND]
            if any(d is None for d in ds) or not ds:
                return None
            d0 = ds[0]
            for d in ds[1:]:
                if len(d) != len(d0) or not all(A.eq(x, y) for x, y in zip(d, d0)):
                    return None
            return d0
        if op == 'sub':
            b, i = t.a
            if b.op == 'field' and b.a[1] == 'shape':
                return ()
            d = self.dims(b)
            if d is None and b.op == 'call' and is_const(i, 0) and self.extname(b.a[0]) == 'scipy.ndimage.label' and b.a[1]:
                return self.dims(b.a[1][0])
            if d is None and b.op == 'call' and self.extname(b.a[0]) == 'numpy.histogram' and i.op == 'const' and i.a[0] in (0, 1):
                bins = kw(b, 'bins') if kw(b, 'bins') is not None else b.a[1][1] if len(b.a[1]) > 1 else const(10)
                if bins.op == 'param' and self.nd.get('params', {}).get(bins.a[0]) == () or bins.op == 'const' and type(bins.a[0]) is int:
                    return (A.add(self.rat(bins), A.c(i.a[0])),)
                return None
            if d is None:
                if b.op == 'call' and self.extname(b.a[0]) in ('numpy.meshgrid',) and len(b.a[1]) == 2:
                    dx, dy = self.dims(b.a[1][0]), self.dims(b.a[1][1])
                    if dx and dy and len(dx) == len(dy) == 1:
                        if kw(b, 'indexing') is not None and is_const(kw(b, 'indexing'), 'ij'):
                            return (dx[0], dy[0])
                        return (dy[0], dx[0])
                return self.griddims(b) if i.op == 'const' and isinstance(i.a[0], int) else None
            idx = list(i.a[0]) if i.op == 'tuple' else [i]
            if d is None and i.op == 'const' and isinstance(i.a[0], int):
                g = self.griddims(b)
                if g is not None:
                    return g
            if any(x.op == 'const' and x.a[0] is Ellipsis or is_const(x, None) for x in idx) or len(idx) > len(d):
                return None
            out = []
            for k, x in enumerate(idx):
                if x.op == 'slice':
                    out.append(self.slen(d[k], x, self.key(b)))
                elif x.op == 'const' and isinstance(x.a[0], int):
                    continue
                elif self.dims(x) == ():
                    continue
                else:
                    dx = self.dims(x)
                    if dx is None:
                        return None
                    if len(idx) == 1 and len(dx) == len(d) and self.boolish(x):
                        if self.everywhere(x):
                            return (self.prod(d),)
                        return (A.a('dim', (('sel', self.key(x)), 0), True),)
                    if len(idx) == 1 and len(d) == 1 and not self.boolish(x):
                        return dx
                    return None
            out += list(d[len(idx):])
            return tuple(out)
        if op == 'mcall':
            recv, n, args, kws = t.a[0], t.a[1], t.a[2], dict(t.a[3])
            if n in ('copy', 'view', 'astype', 'round', 'clip', 'conj', '__copy__'):
                return self.dims(recv)
            if n in ('ravel', 'flatten'):
                d = self.dims(recv)
                return None if d is None else (self.prod(d),)
            if n == 'reshape':
                return self.shape_arg(args[0]) if len(args) == 1 else tuple(self.rat(x) for x in args)
            if n == 'transpose' and not args:
                d = self.dims(recv)
                return None if d is None else d[::-1]
            if n in REDUCTIONS:
                return self.rdims(recv, args[0] if args else kws.get('axis'))
            return None
        if op == 'call':
            n = self.extname(t.a[0])
            if n is None:
                return None
            args, kws = t.a[1], dict(t.a[2])
            return self.calldims(t, n, args, kws)
        if op == 'comp':
            return None
        return None

    def griddims(self, b):
        """Shape of each of the coordinate arrays made by mgrid or indices."""
        A = self.alg
        if b.op == 'sub' and b.a[0].op == 'ext' and b.a[0].a[0] in ('numpy.mgrid',) and b.a[1].op == 'tuple':
            out = []
            for s in b.a[1].a[0]:
                if s.op != 'slice' or not (is_const(s.a[2], None) or is_const(s.a[2], 1)) or is_const(s.a[1], None):
                    return None
                hi = self.rat(s.a[1])
                out.append(hi if is_const(s.a[0], None) else A.add(hi, self.rat(s.a[0]), -1))
            return tuple(out)
        if b.op == 'call' and self.extname(b.a[0]) == 'numpy.indices' and len(b.a[1]) == 1:
            return self.shape_arg(b.a[1][0])
        return None

    def everywhere(self, x):
        return False

    def boolish(self, x):
        return x.op == 'cmp' or x.op == 'un' and x.a[0] in ('~', 'not', 'invert') or x.op == 'call' and self.extname(x.a[0]) in ('numpy.isnan', 'numpy.isfinite', 'numpy.logical_not', 'numpy.logical_and') or x.op == 'bin' and x.a[0] in ('&', '|') or x.op == 'phi' and all(self.boolish(y) for y in alts(x))

    def rdims(self, x, axis):
        d = self.dims(x)
        if axis is None or is_const(axis, None):
            return ()
        if d is None or axis.op != 'const' or not isinstance(axis.a[0], int) or not -len(d) <= axis.a[0] < len(d):
            return None
        k = axis.a[0] % len(d)
        return d[:k] + d[k + 1:]

    def calldims(self, t, n, args, kws):
        A = self.alg
        b = n[6:] if n.startswith('numpy.') else n
        b = b[9:] if b.startswith('builtins.') else b
        if b in ('int', 'float', 'len', 'bool') or n.startswith('math.') or b in ('float64',) and args and self.dims(args[0]) == ():
            return ()
        if b in ('round', 'abs', 'max', 'min', 'sum') and not n.startswith('numpy.'):
            if b in ('round', 'abs'):
                return self.dims(args[0]) if args else None
            return () if len(args) > 1 else None
        if n == 'numpy.sort' and args and is_const(kws.get('axis', args[1] if len(args) > 1 else const(-1)), None):
            d = self.dims(args[0])
            return None if d is None else (self.prod(d),)
        if n == 'numpy.nan_to_num' and args:
            return self.dims(args[0])
        if n in SAME_SHAPE_CALLS and args:
            return self.dims(args[0])
        if n in ('numpy.argwhere',) and args:
            d = self.dims(args[0])
            return None if d is None else (A.a('dim', (('argwhere', t.uid), 0), True), A.c(len(d)))
        if n.startswith('numpy.'):
            if b in REDUCTIONS and args:
                if b in ('quantile', 'nanquantile', 'percentile'):
                    return self.dims(args[1]) if len(args) > 1 else None
                return self.rdims(args[0], kws.get('axis', args[1] if len(args) > 1 and b not in ('median',) else None))
            if b in ('array', 'asarray') and len(args) == 1:
                x = args[0]
                if x.op == 'field' and x.a[1] == 'shape':
                    d = self.dims(x.a[0])
                    return None if d is None else (A.c(len(d)),)
                el = x.a[0] if x.op in ('tuple', 'list') else None
                if x.op == 'obj':
                    h = self.st.heap.get(x.a[0])
                    el = h.fields['items'] if h is not None and h.cls == 'list' and not h.open else None
                if el and all(self.dims(y) == () for y in el):
                    return (A.c(len(el)),)
            if b in ELEMENTWISE and args:
                d = self.dims(args[0])
                for x in args[1:] if b in BINARY else ():
                    d = self.bcast(d, self.dims(x) if x.op != 'ext' else ())
                return d
            if b in ('outer', 'multiply.outer') and len(args) == 2:
                d, e = self.dims(args[0]), self.dims(args[1])
                return None if d is None or e is None or b != 'outer' and len(d) + len(e) != 2 else (self.prod(d), self.prod(e))
            if b in ('ravel',):
                d = self.dims(args[0])
                return None if d is None else (self.prod(d),)
            if b == 'transpose' and len(args) == 1:
                d = self.dims(args[0])
                return None if d is None else d[::-1]
            if b == 'rot90' and len(args) == 1:
                d = self.dims(args[0])
                return None if d is None else d[::-1]
            if b == 'reshape' and len(args) == 2:
                return self.shape_arg(args[1])
            if b in ('zeros', 'ones', 'empty', 'full') and args:
                return self.shape_arg(args[0])
            if b == 'linspace':
                num = kws.get('num', args[2] if len(args) > 2 else const(50))
                return (self.rat(num),)
            if b in ('fft.fftfreq', 'fft.rfftfreq') and args:
                return (self.rat(args[0]),) if b == 'fft.fftfreq' else (A.a('dim', (self.key(t), 0), True),)
            if b == 'arange':
                if len(args) == 1:
                    return (self.rat(args[0]),)
                if len(args) == 2 or len(args) == 3 and is_const(args[2], 1):
                    return (A.add(self.rat(args[1]), self.rat(args[0]), -1),)
                return None
            if b == 'diff' and args:
                d = self.dims(args[0])
                if d is None:
                    return None
                ax = kws.get('axis', args[2] if len(args) > 2 else const(-1))
                nn = kws.get('n', args[1] if len(args) > 1 else const(1))
                if ax.op != 'const' or nn.op != 'const' or not -len(d) <= ax.a[0] < len(d):
                    return None
                k = ax.a[0] % len(d)
                return d[:k] + (A.add(d[k], A.c(nn.a[0]), -1),) + d[k + 1:]
            if b == 'polynomial.polynomial.polyval' and len(args) == 2:
                return self.dims(args[0])
            return None
        if n == 'scipy.interpolate.griddata' and len(args) >= 3:
            x = args[2]
            els = x.a[0] if x.op in ('tuple', 'list') else None
            if els:
                return self.dims(els[0])
            return self.dims(x)
        if n == 'scipy.ndimage.map_coordinates' and len(args) >= 2:
            x = args[1]
            els = x.a[0] if x.op in ('tuple', 'list') else None
            if x.op == 'obj':
                h = self.st.heap.get(x.a[0])
                els = h.fields['items'] if h is not None and h.cls == 'list' and not h.open else None
            if els:
                return self.dims(els[0])
            return None
        if n == 'scipy.signal.fftconvolve' and len(args) >= 2 and is_const(kws.get('mode', const('full')), 'full'):
            a, b = self.dims(args[0]), self.dims(args[1])
            return None if a is None or b is None or len(a) != len(b) else tuple(A.add(A.add(x, y), A.c(1), -1) for x, y in zip(a, b))
        if n == 'scipy.ndimage.rotate':
            return tuple(A.a('dim', (('rotated', self.key(args[0]), self.key(args[1]) if len(args) > 1 else None, tuple(sorted((k, self.key(v)) for k, v in kws.items() if k in ('reshape', 'axes')))), i), True) for i in range(2))
        return None


def describe(alg, r, depth=3):
    """Readable rendering of a normal form."""
    def arg(x):
        if isinstance(x, tuple) and len(x) == 2 and x[0] == 'r':
            return describe(alg, alg.ratlist[x[1]], depth - 1) if depth > 0 else '…'
        if isinstance(x, int) and not isinstance(x, bool) and 0 <= x < len(alg.ratlist):
            return describe(alg, alg.ratlist[x], depth - 1) if depth > 0 else '…'
        if isinstance(x, tuple):
            return '(' + ', '.join(arg(y) for y in x) + ')'
        return str(x)

    def at(k):
        kind, args, _ = alg.atoms[k]
        if kind == 'param':
            return args[0]
        if kind in ('field', 'step'):
            return f'{arg(args[0])}.{args[1]}'
        if kind == 'dim':
            return f'dim{args[1]}({arg(args[0])})'
        if kind == 'root':
            return f'root{args[1]}({arg(args[0])})'
        return f'{kind}({", ".join(arg(x) for x in args)})'

    def poly(p):
        out = []
        for m, c in sorted(p.items()):
            s = '*'.join(at(k) + (f'^{e}' if e != 1 else '') for k, e in m)
            out.append(f'{c}*{s}' if s and c != 1 else (s or str(c)))
        return ' + '.join(out) or '0'
    n = poly(r.n)
    return n if r.d == {(): F(1)} else f'({n})/({poly(r.d)})'


def formula(text, env):
    """A reference formula, written as a Python expression over named terms."""
    import ast

    def ev(e):
        if isinstance(e, ast.BinOp):
            o = {ast.Add: '+', ast.Sub: '-', ast.Mult: '*', ast.Div: '/', ast.Pow: '**'}[type(e.op)]
            return mk('bin', o, ev(e.left), ev(e.right))
        if isinstance(e, ast.UnaryOp):
            return mk('un', '-', ev(e.operand))
        if isinstance(e, ast.Constant):
            return const(e.value)
        if isinstance(e, ast.Name):
            return env[e.id]
        if isinstance(e, ast.Attribute):
            return mk('field', ev(e.value), e.attr)
        if isinstance(e, ast.Subscript):
            return mk('sub', ev(e.value), ev(e.slice))
        if isinstance(e, ast.Compare):
            o = {ast.Lt: '<', ast.LtE: '<=', ast.Gt: '>', ast.GtE: '>=', ast.Eq: '==', ast.NotEq: '!='}[type(e.ops[0])]
            return mk('cmp', o, ev(e.left), ev(e.comparators[0]))
        if isinstance(e, ast.Slice):
            g = lambda x: NONE if x is None else ev(x)
            return mk('slice', g(e.lower), g(e.upper), g(e.step))
        if isinstance(e, ast.Tuple):
            return mk('tuple', tuple(ev(x) for x in e.elts))
        if isinstance(e, ast.Call):
            n = ast.unparse(e.func)
            return mk('call', mk('ext', n if '.' in n else 'numpy.' + n), tuple(ev(x) for x in e.args), tuple(sorted((k.arg, ev(k.value)) for k in e.keywords)))
        raise ValueError(ast.dump(e))
    return ev(ast.parse(text, mode='eval').body)
