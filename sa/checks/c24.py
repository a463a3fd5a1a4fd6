"""Equality and hash.  The comparison of two symbolic topographies is interpreted under every combination of what can agree or differ between
them; the result has to be what the combination demands.  The hash may use only what equality compares exactly."""
import itertools
from ..common import *
from ..terms import children

TOL = 1e-10
SELF, OTHER = mk('param', 'self'), mk('param', 'other')


class Open(Exception):
    """A condition that is not understood."""


class Free(Exception):
    """A condition that the combination does not decide: both values are possible."""

    def __init__(self, key):
        self.key = key


def bare(t):
    while True:
        if t.op == 'ro':
            t = t.a[0]
        elif t.op == 'mcall' and t.a[1] in ('view', 'copy') and not t.a[2] and not t.a[3]:
            t = t.a[0]
        elif t.op == 'call' and t.a[0].op == 'meth' and t.a[0].a[1] in ('view', 'copy') and not t.a[1]:
            t = t.a[0].a[0]
        elif t.op == 'call' and t.a[0].op == 'ext' and t.a[0].a[0] in ('numpy.asarray', 'numpy.array', 'numpy.asanyarray', 'builtins.bool', 'bool', 'numpy.bool_', 'builtins.float', 'float', 'tuple', 'builtins.tuple') and len(t.a[1]) == 1:
            t = t.a[1][0]
        else:
            return t


def np_(t, *names):
    t = bare(t)
    if t.op == 'call' and t.a[0].op == 'ext' and t.a[0].a[0].split('.')[0] in ('numpy', 'math', 'builtins', t.a[0].a[0]) and t.a[0].a[0].split('.')[-1] in names:
        return list(t.a[1]), dict(t.a[2])
    if t.op == 'call' and t.a[0].op == 'meth' and t.a[0].a[1] in names:
        return [t.a[0].a[0]] + list(t.a[1]), dict(t.a[2])
    if t.op == 'mcall' and t.a[1] in names:
        return [t.a[0]] + list(t.a[2]), dict(t.a[3])
    return None, None


def whose(t):
    """'self', 'other', 'both' or None: whose data a term is made of."""
    s = {x.a[0] for x in walk(t) if x.op == 'param'}
    return 'both' if {'self', 'other'} <= s else 'self' if 'self' in s else 'other' if 'other' in s else None


class Kind:
    """What a term about one of the two topographies is: ('step_x',), ('dim', 0), ('shape',), ('data',), ('missing',), ('measured',)"""

    def __init__(self, storage):
        self.storage = storage

    def __call__(self, t):
        t = bare(t)
        if t.op == 'field' and t.a[0].op == 'param':
            if t.a[1] == self.storage or t.a[1] == 'data':
                return 'data'
            if t.a[1] in ('step_x', 'step_y'):
                return t.a[1]
            if t.a[1] == 'size':
                return 'shape'
        if t.op == 'field' and t.a[1] == 'shape' and self(t.a[0]) == 'data':
            return 'shape'
        if t.op == 'sub' and is_const(t.a[1]) and self(t.a[0]) == 'shape':
            return {0: 'rows', 1: 'cols', -1: 'cols', -2: 'rows'}.get(t.a[1].a[0])
        if t.op == 'field' and t.a[1] in ('x', 'y') and self(t.a[0]) == 'shape':
            return {'x': 'cols', 'y': 'rows'}[t.a[1]]
        a, k = np_(t, 'len')
        if a and self(a[0]) == 'data':
            return 'rows'
        a, k = np_(t, 'shape')
        if a and len(a) == 1 and self(a[0]) == 'data':
            return 'shape'
        p = self.parts(t)
        if p is not None and len(p) == 2 and [self(x) for x in p] in (['rows', 'cols'], ['cols', 'rows']):
            return 'shape'
        a, k = np_(t, 'isnan')
        if a and self(a[0]) == 'data':
            return 'missing'
        if t.op == 'cmp' and t.a[0] == '!=' and bare(t.a[1]) is bare(t.a[2]) and self(t.a[1]) == 'data':
            return 'missing'
        a, k = np_(t, 'isfinite')
        if a and self(a[0]) == 'data':
            return 'measured'
        if t.op == 'un' and t.a[0] in ('~', 'not', 'invert'):
            return {'missing': 'measured', 'measured': 'missing'}.get(self(t.a[1]))
        a, k = np_(t, 'logical_not', 'invert')
        if a:
            return {'missing': 'measured', 'measured': 'missing'}.get(self(a[0]))
        return None

    def parts(self, t):
        if t.op == 'tuple':
            return list(t.a[0])
        if t.op == 'nt':
            return [v for k, v in t.a[1]]
        return None


class Compare(Hooks):
    def __init__(self, kind, world, free):
        self.kind, self.w, self.free, self.asked = kind, world, free, []
        self.open = None

    def may_raise(self, nm, recv, args, sn):
        return False

    def truth(self, t, st):
        b = super().truth(t, st)
        if b is not None or self.open:
            return b
        try:
            return self.value(t)
        except Open:
            if whose(t) is not None:
                self.open = t
            return None

    # ------------------------------------------------------------ conditions
    def pick(self, key):
        if key not in self.asked:
            self.asked.append(key)
        return self.free.get(key, False)

    def value(self, t):
        t = bare(t)
        if t.op == 'const':
            return bool(t.a[0])
        if t.op == 'un' and t.a[0] in ('not', '~'):
            return not self.value(t.a[1])
        if t.op == 'bool':
            vs = t.a[1]
            if t.a[0] == 'and':
                return all(self.value(x) for x in vs)
            return any(self.value(x) for x in vs)
        if t.op == 'bin' and t.a[0] in ('&', '|', 'and', 'or'):
            x, y = self.value(t.a[1]), self.value(t.a[2])
            return x and y if t.a[0] in ('&', 'and') else x or y
        if t.op == 'ext' and t.a[0].split('.')[-1] == 'NotImplemented':
            return False
        if t.op == 'cmp':
            return self.compare(t)
        a, k = np_(t, 'array_equal', 'array_equiv')
        if a:
            return self.array_equal(a, k)
        a, k = np_(t, 'allclose', 'isclose')
        if a:
            return self.close(a, k)
        a, k = np_(t, 'any', 'all')
        if a and len(a) == 1 and not k:
            f = np_(t, 'any')[0]
            return self.reduce(bare(a[0]), f is not None)
        a, k = np_(t, 'logical_not')
        if a:
            return not self.value(a[0])
        a, k = np_(t, 'logical_and')
        if a:
            return all([self.value(x) for x in a])
        a, k = np_(t, 'logical_or')
        if a:
            return any([self.value(x) for x in a])
        if t.op == 'call' and t.a[0].op == 'ext' and t.a[0].a[0] in ('isinstance', 'hasattr') and t.a[1] and t.a[1][0] is OTHER:
            return False
        raise Open

    def same(self, a, b):
        """The two sides are the same property of the two topographies: its kind; None otherwise."""
        x, y = self.kind(a), self.kind(b)
        if x is not None and x == y and {whose(a), whose(b)} == {'self', 'other'}:
            return x
        return None

    def equal(self, a, b):
        a, b = bare(a), bare(b)
        if a is b:
            return True
        k = self.same(a, b)
        if k in ('step_x', 'step_y', 'rows', 'cols'):
            return self.w[k]
        if k == 'shape':
            return self.w['rows'] and self.w['cols']
        p, q = self.kind.parts(a), self.kind.parts(b)
        if p is not None and q is not None and len(p) == len(q):
            return all([self.equal(x, y) for x, y in zip(p, q)])
        x, y = self.kind(a), self.kind(b)
        if x in ('step_x', 'step_y', 'rows', 'cols') and y in ('step_x', 'step_y', 'rows', 'cols'):
            return self.pick(('eq',) + tuple(sorted((show(a), show(b)))))
        raise Open

    def compare(self, t):
        o, a, b = t.a
        if o in ('==', '!=', 'is', 'is not'):
            neg = o in ('!=', 'is not')
            if {bare(a).op, bare(b).op} <= {'obj'} and o.startswith('is'):
                return (bare(a) is bare(b)) != neg
            return self.equal(a, b) != neg
        if o in ('>', '>=', '<', '<='):
            x, c, gt = (a, b, o[0] == '>') if is_const(b) else (b, a, o[0] == '<')
            if is_const(c):
                m, k = np_(x, 'abs', 'absolute', 'fabs')
                if m:
                    d = bare(m[0])
                    if d.op == 'bin' and d.a[0] == '-':
                        s = self.same(d.a[1], d.a[2])
                        if s in ('step_x', 'step_y') and c.a[0] >= 0:
                            near = self.w[s] or self.pick(('near', s))
                            return near != gt
                m, k = np_(x, 'nanmax', 'max')
                if m and len(m) == 1:
                    return self.heights(m[0], c, o if gt or is_const(b) else o, gt, np_(x, 'nanmax')[0] is not None) != (not gt)
        raise Open

    def selection(self, d):
        """(minuend, subtrahend, how the points are selected) of a difference of heights."""
        d = bare(d)
        if d.op == 'sub' and self.kind(d.a[1]) in ('measured', 'missing'):
            x, y, s = self.selection(d.a[0])
            if s is not None:
                raise Open
            return x, y, self.kind(d.a[1])
        if d.op == 'bin' and d.a[0] == '-':
            out, sel = [], []
            for z in d.a[1:3]:
                z = bare(z)
                if z.op == 'sub' and self.kind(z.a[1]) in ('measured', 'missing'):
                    sel.append(self.kind(z.a[1]))
                    z = bare(z.a[0])
                else:
                    sel.append(None)
                if self.kind(z) != 'data':
                    raise Open
                out.append(whose(z))
            if len(set(sel)) != 1 or set(out) != {'self', 'other'}:
                raise Open
            return out[0], out[1], sel[0]
        raise Open

    def heights(self, x, c, o, some, nan_ok):
        """Some (or not all) heights differ by more than the constant."""
        x = bare(x)
        m, k = np_(x, 'abs', 'absolute', 'fabs')
        signed = m is None
        a, b, sel = self.selection(m[0] if m else x)
        t = c.a[0]
        if not isinstance(t, (int, float)):
            raise Open
        if sel == 'missing':
            return False
        if sel is None and not nan_ok and self.w['missing'] and self.w['heights'] and self.pick(('missing points',)):
            return True
        if sel is None and nan_ok is None:
            raise Open
        if signed:
            return not self.w['heights'] and self.pick(('sign',))
        if t == TOL:
            return not self.w['heights']
        if t < TOL:
            return not self.w['heights'] or self.pick(('tolerance',))
        return not self.w['heights'] and self.pick(('tolerance',))

    def reduce(self, p, some):
        p = bare(p)
        if p.op == 'un' and p.a[0] in ('~', 'not'):
            return not self.reduce(p.a[1], not some)
        a, k = np_(p, 'logical_xor', 'not_equal')
        if a is None and p.op == 'bin' and p.a[0] == '^':
            a = list(p.a[1:3])
        if a is None and p.op == 'cmp' and p.a[0] in ('==', '!='):
            a = list(p.a[1:3])
            if self.same(*a) in ('missing', 'measured') and some == (p.a[0] == '!='):
                return self.w['missing'] != (p.a[0] == '!=')
            if self.same(*a) in ('missing', 'measured'):
                raise Open
            x, y = bare(a[0]), bare(a[1])
            sel = x.op == y.op == 'sub' and self.kind(x.a[1]) == self.kind(y.a[1]) == 'measured' and self.same(x.a[0], y.a[0]) == 'data'
            if self.same(*a) is None and not sel:
                raise Open
            # exact comparison of heights
            if some == (p.a[0] == '!='):
                same = (sel or self.w['missing']) and self.w['heights'] and self.pick(('exact',))
                return same != (p.a[0] == '!=')
            raise Open
        if a is not None and self.same(*a[:2]) in ('missing', 'measured') and some:
            return not self.w['missing']
        if p.op == 'cmp' and p.a[0] in ('>', '>=', '<', '<='):
            o, x, y = p.a
            d, c, gt = (x, y, o[0] == '>') if is_const(y) else (y, x, o[0] == '<')
            if not is_const(c):
                raise Open
            if gt and some:
                return self.heights(d, c, o, True, True)
            if not gt and not some:
                return not self.heights(d, c, o, False, False)
            if gt and not some:
                return self.heights(d, c, o, True, True) and self.pick(('all points differ',))
            return not (self.heights(d, c, o, True, True) and self.pick(('all points differ',)))
        a, k = np_(p, 'isclose')
        if a and not some:
            return self.close(a, k)
        raise Open

    def array_equal(self, a, k):
        s = self.same(*a[:2])
        if s in ('missing', 'measured'):
            return self.w['missing']
        if s == 'shape':
            return self.w['rows'] and self.w['cols']
        if s == 'data':
            en = k.get('equal_nan', a[2] if len(a) > 2 else FALSE)
            ok = self.w['missing'] and self.w['heights'] and self.pick(('exact',))
            return ok and (en is TRUE or self.pick(('no missing points',)))
        raise Open

    def close(self, a, k):
        p = dict(zip(('rtol', 'atol', 'equal_nan'), a[2:]))
        p.update(k)
        x, y = bare(a[0]), bare(a[1])
        s = self.same(x, y)
        if s in ('step_x', 'step_y'):
            return self.w[s] or self.pick(('near', s))
        sel = None
        if x.op == y.op == 'sub' and self.kind(x.a[1]) == self.kind(y.a[1]) == 'measured':
            sel, x, y = 'measured', x.a[0], y.a[0]
            s = self.same(x, y)
        if s != 'data' or not all(is_const(v) for v in p.values()):
            raise Open
        rtol, atol = p.get('rtol', const(1e-5)).a[0], p.get('atol', const(1e-8)).a[0]
        h = self.w['heights']
        if (rtol, atol) != (0, TOL):
            h = self.pick(('tolerance',)) if rtol < 0 or atol < TOL and h or not h else True
        if sel is None:
            en = p.get('equal_nan', FALSE).a[0]
            h = h and self.w['missing'] and (bool(en) or self.pick(('no missing points',)))
        return h


def combos():
    for sx, sy, r, c in itertools.product((True, False), repeat=4):
        for m, h in (itertools.product((True, False), repeat=2) if r and c else ((False, False),)):
            yield dict(step_x=sx, step_y=sy, rows=r, cols=c, missing=m, heights=h)


NAMES = dict(step_x='step in x', step_y='step in y', rows='number of rows', cols='number of columns', missing='missing points', heights='heights')


def run(prog, rep):
    rep.rule('equal', 'topographies are equal exactly if steps, sizes, missing points and heights agree', 28)
    rep.rule('other', 'a topography never equals something else', 1)
    rep.rule('hash', 'the hash uses only what equality compares exactly', 2)
    ci = prog.find_class('Surface')
    try:
        storage = storage_field(prog, ci)
    except AnalysisError:
        storage = '_data'
    kind = Kind(storage)
    c, e = ci.lookup('__eq__')
    if e is None:
        rep.ob('equal', 'definition')
        rep.violate('equal', 'definition', ci.module.rel, ci.qual, '__eq__', 'topographies are not compared by their contents')
        return
    where = (f'{e["fi"].module.rel}:{e["fi"].node.lineno}', e['fi'].qual)
    for w in combos():
        equal(prog, rep, ci, kind, w, where)
    other(prog, rep, ci, kind, where)
    hashes(prog, rep, ci, kind, where)


def evaluate(prog, ci, kind, w, free):
    h = Compare(kind, w, free)
    r = Run(prog, h)
    o, p = r.obj(ci), r.obj(ci, 'other')
    v = r.method(o, '__eq__', [p], {})
    val = None
    if r.err is None and h.open is None and v is not None and not r.st.dead:
        try:
            val = h.value(v)
        except Open:
            h.open = v
    return h, r, val


def equal(prog, rep, ci, kind, w, where):
    want = all(w.values())
    site = 'equal' if want else 'different: ' + ', '.join(NAMES[k] for k, v in w.items() if not v)
    todo, seen, n = [{}], set(), 0
    rep.ob('equal', site)
    while todo and n < 40:
        free = todo.pop()
        n += 1
        h, r, val = evaluate(prog, ci, kind, w, free)
        rep.used(r.it)
        if r.err is None and h.open is None and r.st.dead:
            rep.violate('equal', site, *where, '__eq__', 'the comparison raises an exception')
            return
        if val is None:
            rep.ob('equal', site, 'undecided')
            rep.notes.append(f'{site}: {r.err or show(h.open) if h.open is not None else ""}'[-300:])
            return
        if val != want:
            extra = ', '.join(f'{k} {v}' for k, v in free.items() if v)
            rep.violate('equal', site, *where, extra or '__eq__', f'topographies that {"agree" if want else "differ in " + site[11:]} are {"not equal" if want else "equal"}' + (f' ({extra})' if extra else ''))
            return
        for k in h.asked:
            if k not in free:
                x = dict(free)
                x[k] = True
                s = frozenset(x.items())
                if s not in seen:
                    seen.add(s)
                    todo.append(x)


def other(prog, rep, ci, kind, where):
    class Else(Hooks):
        def truth(self, t, st):
            b = super().truth(t, st)
            if b is None and t.op == 'call' and t.a[0].op == 'ext' and t.a[0].a[0] in ('isinstance', 'hasattr', 'issubclass') and any(x is mk('param', 'thing') for x in walk(t)):
                return False
            if b is None and t.op == 'cmp' and any(x is mk('param', 'thing') for x in walk(t)) and any('type' in show(x) or '__class__' in show(x) for x in t.a[1:]):
                return t.a[0] in ('!=', 'is not', 'not in')
            return b
    r = Run(prog, Else())
    o = r.obj(ci)
    v = r.method(o, '__eq__', [mk('param', 'thing')], {})
    rep.used(r.it)
    ok = r.err is None and v is not None
    rep.ob('other', 'another type', 'ok' if ok else 'undecided')
    if not ok:
        return
    if r.st.dead:
        rep.violate('other', 'another type', *where, '__eq__', 'comparing with an object of another type raises an exception')
    elif not (v is FALSE or v.op == 'ext' and 'NotImplemented' in v.a[0]):
        if is_const(v):
            rep.violate('other', 'another type', *where, show(v), 'a topography equals an object of another type')
        else:
            rep.ob('other', 'another type', 'undecided')


def hashes(prog, rep, ci, kind, where):
    c, e = ci.lookup('__hash__')
    site = 'Surface'
    rep.ob('hash', site)
    if e is None or 'fi' not in e:
        ce, ee = ci.lookup('__eq__')
        if e is None and ce is not None:
            rep.violate('hash', site, *where, '__hash__', 'topographies cannot be hashed')
        else:
            rep.ob('hash', site, 'undecided')
        return
    at = (f'{e["fi"].module.rel}:{e["fi"].node.lineno}', e['fi'].qual)
    r = Run(prog, Hooks())
    o = r.obj(ci)
    v = r.method(o, '__hash__', [], {})
    rep.used(r.it)
    if r.err is not None or v is None:
        rep.ob('hash', site, 'undecided')
        return
    bad, unknown = [], []

    def see(t):
        p = kind.parts(bare(t))
        k = kind(t)
        if k in ('step_x', 'step_y', 'rows', 'cols', 'shape'):
            return
        b = bare(t)
        if k is not None:
            # missing points are compared exactly
            (bad if k == 'data' else unknown).append(b)
            return
        if b.op == 'field' and b.a[0].op == 'param':
            if b.a[1] in ('width_um', 'height_um'):
                return
            (bad if b.a[1] in ('metadata', 'image_layers') or kind.storage == b.a[1] else unknown).append(b)
            return
        if b.op in ('param', 'obj'):
            n = len(bad)
            bad.append(b)
            return
        if b.op == 'field' and kind(b.a[0]) == 'data' and b.a[1] in ('size', 'ndim'):
            return
        if b.op == 'field' and kind(b.a[0]) == 'data' and b.a[1] == 'dtype':
            bad.append(b)
            return
        for x in children(b):
            see(x)
    el = r.it.elements(r.st, v) or [v]
    for x in el:
        see(x)
    for b in bad:
        rep.violate('hash', site, *at, show(b), f'equal topographies can have different hashes: {show(b)} is not compared exactly')
    if unknown and not bad:
        rep.ob('hash', site, 'undecided')
        rep.notes += [f'hash: {show(x)}' for x in unknown[:3]]
    # a hash that does not depend on the topography would still be correct, an exception is not
    rep.ob('hash', 'defined')
    if r.st.dead:
        rep.violate('hash', 'defined', *at, '__hash__', 'hashing raises an exception')
