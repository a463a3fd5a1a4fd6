"""Requests outside the documented range.  Every entry point is interpreted with symbolic arguments; a reference states when the request is to be
rejected.  The conditions of both are canonical linear inequalities; for every feasible combination of them the code has to reject exactly when
the reference does.  Enumerated options are interpreted for accepted and other values."""
from ..common import *
from ..algebra import Alg
from ..fine import Fine, Refs
from ..refcmp import Paths, paths, reach
from ..linear import Linear
from .c31 import Case

P = lambda n: mk('param', n)

REFS = '''
def horizontal(o, z, y):
    if y < 0 or y > o.height_um:
        return True
    return False

def vertical(o, z, x):
    if x < 0 or x > o.width_um:
        return True
    return False

def oblique(o, z, x0, y0, x1, y1):
    if x0 < 0 or x0 > o.width_um or x1 < 0 or x1 > o.width_um or y0 < 0 or y0 > o.height_um or y1 < 0 or y1 > o.height_um:
        return True
    return False

def box_points(o, z, box):
    x0, x1, y0, y1 = box
    if x0 < 0 or y0 < 0 or x1 >= z.shape[1] or y1 >= z.shape[0] or x0 > x1 or y0 > y1:
        return True
    return False

def box_units(o, z, box):
    x0 = round(box[0] / o.step_x)
    x1 = round(box[1] / o.step_x)
    y0 = round(box[2] / o.step_y)
    y1 = round(box[3] / o.step_y)
    if x0 < 0 or y0 < 0 or x1 >= z.shape[1] or y1 >= z.shape[0] or x0 > x1 or y0 > y1:
        return True
    return False

def interval_points(o, z, interval):
    x0, x1 = interval
    if x0 < 0 or x1 >= z.shape[0] or x0 >= x1:
        return True
    return False

def interval_units(o, z, interval):
    x0 = round(interval[0] / o.step)
    x1 = round(interval[1] / o.step)
    if x0 < 0 or x1 >= z.shape[0] or x0 >= x1:
        return True
    return False

def operands(o, z, p):
    if o.step_x != p.step_x or o.step_y != p.step_y or z.shape[0] != p.data.shape[0] or z.shape[1] != p.data.shape[1]:
        return True
    return False

def number(o, z, p):
    return False

def sections(o, z, n_sections):
    if n_sections < 1 or n_sections > z.shape[0]:
        return True
    return False

def both_sides(o, z, threshold):
    if 2 * threshold >= 100:
        return True
    return False

def two_sides(o, z, threshold):
    if threshold[0] + threshold[1] >= 100:
        return True
    return False

def band(o, z, filter_type, cutoff, cutoff2):
    if cutoff2 <= cutoff:
        return True
    return False

def lines(o, z, nprofiles):
    if -45 < o.orientation(method='fft') < 45:
        if nprofiles > z.shape[0]:
            return True
        return False
    if nprofiles > z.shape[1]:
        return True
    return False
'''
# method, reference, what the arguments are, fixed arguments, arguments that are whole numbers
SURFACE = [
    ('get_horizontal_profile', 'horizontal', {}, ()), ('get_vertical_profile', 'vertical', {}, ()), ('get_oblique_profile', 'oblique', {}, ()),
    ('crop', 'box_points', {'box': 4, 'in_units': FALSE}, ('box0', 'box1', 'box2', 'box3')), ('crop', 'box_units', {'box': 4, 'in_units': TRUE}, ()), ('crop', 'box_units', {'box': 4}, ()),
    ('crop', 'box_points', {'box': 4, 'in_units': FALSE, 'inplace': TRUE}, ('box0', 'box1', 'box2', 'box3')), ('crop', 'box_units', {'box': 4, 'inplace': TRUE}, ()),
    ('__add__', 'operands', {'p': 'surface'}, ()), ('__sub__', 'operands', {'p': 'surface'}, ()), ('__mul__', 'operands', {'p': 'surface'}, ()), ('__truediv__', 'operands', {'p': 'surface'}, ()),
    ('__add__', 'number', {'p': 'number'}, ()), ('__sub__', 'number', {'p': 'number'}, ()), ('__mul__', 'number', {'p': 'number'}, ()), ('__truediv__', 'number', {'p': 'number'}, ()),
    ('threshold', 'both_sides', {'threshold': 'number'}, ()), ('threshold', 'two_sides', {'threshold': 2}, ()), ('threshold', 'both_sides', {'threshold': 'number', 'inplace': TRUE}, ()),
    ('filter', 'band', {'filter_type': const('bandpass')}, ()), ('filter', 'band', {'filter_type': const('bandpass'), 'inplace': TRUE}, ()),
    ('depth', 'lines', {}, ('nprofiles',)),
]
PROFILE = [
    ('crop', 'interval_points', {'interval': 2, 'in_units': FALSE}, ('interval0', 'interval1')), ('crop', 'interval_units', {'interval': 2, 'in_units': TRUE}, ()), ('crop', 'interval_units', {'interval': 2}, ()),
    ('crop', 'interval_points', {'interval': 2, 'in_units': FALSE, 'inplace': TRUE}, ('interval0', 'interval1')),
    ('threshold', 'both_sides', {'threshold': 'number'}, ()), ('threshold', 'two_sides', {'threshold': 2}, ()), ('filter', 'band', {'filter_type': const('bandpass')}, ()),
    ('Rp', 'sections', {}, ('n_sections',)), ('Rv', 'sections', {}, ('n_sections',)), ('Rz', 'sections', {}, ('n_sections',)),
]
QUANTITIES = ('period', 'period_x_y', 'orientation', '_orientation_refined', 'rotate')
NOISE = ('no such value', '', 'X', None)
# class, method, option, accepted values, other arguments, more values to be rejected
OPTIONS = [
    ('Surface', 'align', 'axis', ('x', 'y'), {}, ('z', 'xy')),
    ('Surface', 'align', 'method', ('fft', 'fft_refined'), {}, ()),
    ('Surface', 'orientation', 'method', ('fft', 'fft_refined'), {}, ('refined', 'FFT')),
    ('Surface', 'remove_outliers', 'method', ('mean', 'median'), {}, ('Mean', 'std')), ('Profile', 'remove_outliers', 'method', ('mean', 'median'), {}, ('std',)),
    ('Surface', 'filter', 'filter_type', ('lowpass', 'highpass', 'both', 'bandpass'), {'cutoff': const(1), 'cutoff2': const(2)}, ('bandstop', 'low')),
    ('Profile', 'filter', 'filter_type', ('lowpass', 'highpass', 'both', 'bandpass'), {'cutoff': const(1), 'cutoff2': const(2)}, ('bandstop',)),
    ('Surface', 'filter', 'filter_type', ('lowpass', 'highpass', 'bandpass'), {'cutoff': const(1), 'cutoff2': const(2), 'inplace': TRUE}, ('both',)),
    ('Surface', 'filter', 'filter_type', ('lowpass', 'highpass'), {'cutoff': const(1), 'inplace': TRUE}, ('both', 'bandpass')),
    ('Profile', 'filter', 'filter_type', ('lowpass', 'highpass', 'bandpass'), {'cutoff': const(1), 'cutoff2': const(2), 'inplace': TRUE}, ('both',)),
    ('Surface', 'filter', 'filter_type', ('lowpass', 'highpass', 'both'), {'cutoff': const(1)}, ('bandpass',)),
    ('Profile', 'filter', 'filter_type', ('lowpass', 'highpass', 'both'), {'cutoff': const(1)}, ('bandpass',)),
    ('Surface', 'filter', 'filter_type', (), {'cutoff': const(2), 'cutoff2': const(2)}, ('bandpass',)),
    ('Surface', 'filter', 'filter_type', (), {'cutoff': const(3), 'cutoff2': const(2), 'inplace': TRUE}, ('bandpass',)),
    ('Surface', 'roughness_parameters', 'parameters', (('Sa',), ('Sq', 'Sz')), {}, (('no such parameter',), ('Sa', 'no such parameter'), ('Ra',), ('crop',), ('data',))),
    ('Profile', 'roughness_parameters', 'parameters', (('Ra',), ('Rq', 'Rz')), {}, (('no such parameter',), ('Ra', 'no such parameter'), ('Sa',), ('crop',))),
    ('Surface', 'homogeneity', 'parameters', (('Sa',), ('Sq', 'Sku')), {'period': P('period')}, tuple((x,) for x in ('Ssk', 'depth', 'homogeneity', 'orientation', 'aspect_ratio', 'period')) + (('Sa', 'Ssk'),)),
    ('Surface', 'plot_3d', 'interactive', (False,), {'save_to': const('image.png')}, (True,)),
    ('Surface', 'plot_2d', 'layer', ('Topography',), {}, ('no such layer',)),
]


class Requests(Paths, Case):
    scenario = 'measured'

    def __init__(self):
        Paths.__init__(self)
        self.lin = None

    def call(self, f, args, kwargs, st, node, ctx, it):
        g = f.a[0] if f.op == 'bound' else f
        n = g.a[0].split('.')[-1] if g.op == 'func' else None
        if n in QUANTITIES and n not in self.inside and g.a[0].split('.')[-2:-1] == ['Surface']:
            kw = dict(kwargs)
            rest = args if f.op == 'bound' else args[1:]
            if rest and n == 'orientation':
                kw['method'], rest = rest[0], rest[1:]
            return mk('call', mk('ext', 'quantity_' + n), tuple(rest), tuple(sorted(kw.items())))
        return None
    inside = ()

    def truth(self, t, st):
        if t.op == 'cmp' and t.a[0] in ('==', '!='):
            a, b = self.items(t.a[1], st), self.items(t.a[2], st)
            if a is not None and b is not None and len(a) == len(b):
                vs = [Paths.truth(self, mk('cmp', '==', x, y), st) for x, y in zip(a, b)]
                if False in vs:
                    return t.a[0] == '!='
                if None not in vs:
                    return t.a[0] == '=='
                return None
        if t.op == 'cmp' and t.a[0] in ('>', '>=', '<', '<='):
            a, b, o = t.a[1], t.a[2], t.a[0]
            if function(b) == 'abs':
                a, b, o = b, a, {'>': '<', '<': '>', '>=': '<=', '<=': '>='}[o]
            if function(a) == 'abs':
                x, neg = a.a[1][0], mk('un', '-', b)
                if o[0] == '>':
                    return self.truth(mk('cmp', o, x, b), st) or self.truth(mk('cmp', o.replace('>', '<'), x, neg), st)
                return self.truth(mk('cmp', o, x, b), st) and self.truth(mk('cmp', o.replace('<', '>'), x, neg), st)
            for x, y, p in ((a, b, o), (b, a, {'>': '<', '<': '>', '>=': '<=', '<=': '>='}[o])):
                # the largest of some values exceeds y when one of them does
                f = function(x)
                of = None
                if f in ('max', 'min') and not (len(x.a) > 2 and x.a[2]):
                    of = x.a[1] if len(x.a[1]) > 1 else self.items(x.a[1][0], st) if x.a[1] else None
                if of:
                    vs = [self.truth(mk('cmp', p, z, y), st) for z in of]
                    if None in vs:
                        return None
                    return any(vs) if (f == 'max') == (p[0] == '>') else all(vs)
        if function(t) in ('isclose', 'allclose') and len(t.a[1]) == 2:
            learn, self.learn = self.learn, False
            same = Paths.truth(self, mk('cmp', '==', *t.a[1]), st)
            self.learn = learn
            if same:
                return True
        return Paths.truth(self, t, st)

    def items(self, t, st):
        if t.op in ('tuple', 'list'):
            return list(t.a[0])
        if t.op == 'nt':
            return [v for k, v in t.a[1]]
        if t.op == 'field' and t.a[1] == 'shape':
            d = Fine(self.it, st, self.nd, alg=self.alg).dims(t.a[0])
            return d and [mk('sub', t, const(i)) for i in range(len(d))]
        return None

    def known(self, k):
        v = Paths.known(self, k)
        if v is None and self.lin:
            v = self.lin.known(k, self.given)
        return v


def function(t):
    return t.a[0].a[0].split('.')[-1].replace('fabs', 'abs').replace('absolute', 'abs') if t.op == 'call' and t.a[0].op == 'ext' and t.a[1] and not t.a[2] else None


def run(prog, rep):
    rep.rule('range', 'a request outside the documented range is rejected, one inside it is not, for all heights, sizes, steps and arguments', 30)
    rep.rule('option', 'an option accepts its documented values and rejects every other one', 60)
    rep.rule('operand', 'arithmetic with anything but a topography or a number is rejected', 4)
    rep.rule('position', 'the rows and columns taken by an accepted request exist', 1)
    rep.rule('error', 'a rejected request raises ValueError', 10)
    S, Pr = prog.find_class('Surface'), prog.find_class('Profile')
    positions(prog, rep, S, 'depth')
    refs = Refs(prog, REFS, 'requests')
    for ci, cases in ((S, SURFACE), (Pr, PROFILE)):
        for meth, ref, how, whole in cases:
            one(prog, rep, ci, refs.fi(ref), meth, how, whole)
    for cls, meth, opt, good, kw, bad in OPTIONS:
        option(prog, rep, prog.find_class(cls), meth, opt, good, kw, bad)
    for m in ('__add__', '__sub__', '__mul__', '__truediv__'):
        for v in (const('text'), NONE, mk('tuple', (const(1), const(2)))):
            operand(prog, rep, S, m, v)


def positions(prog, rep, ci, meth):
    """Rows and columns taken at equal distances, k * int(P / Q) with k < N, exist: (N - 1) * P / Q stays below their number."""
    mfi, where = where_of(ci, meth)
    if mfi is None:
        return
    rep.ob('position', f'{ci.name}.{meth}')
    alg = Alg()
    for vertical in (True, False):
        h = Lines(vertical)
        r = Run(prog, h)
        o = r.obj(ci)
        kw = {k: P(k) for k in sig(mfi)[0] if k != 'self' and k != 'plot'}
        h.nd.setdefault('params', {}).update({k: () for k in kw})
        z = r.it.getattr_(o, 'data', r.st, None, TopCtx(ci))
        c = Fine(r.it, r.st, h.nd, nonan=True, alg=alg)
        shape = c.dims(z)
        r.method(o, meth, [], kw)
        rep.used(r.it)
        for b, i in list(h.taken.values()):
            if b is not z:
                continue
            ks = i.a[0] if i.op == 'tuple' else (i,)
            for axis, k in enumerate(ks[:2]):
                if not isinstance(k, T) or k.op != 'bin' or k.a[0] != '*':
                    continue
                for d, i in ((k.a[1], k.a[2]), (k.a[2], k.a[1])):
                    if i.op == 'rangeidx' and len(i.a[0]) == 1 and d.op in ('call', 'bin'):
                        position(rep, c, f'{ci.name}.{meth}: {show(k)[:90]}', where, d, i.a[0][0], shape[axis], axis)


def position(rep, c, site, where, d, n, size, axis):
    alg, one_ = c.alg, c.alg.c(1)
    f = d.a[0].a[0].split('.')[-1] if d.op == 'call' and d.a[0].op == 'ext' and d.a[1] else '//' if d.op == 'bin' and d.a[0] == '//' else None
    q = d if f == '//' else d.a[1][0] if f in ('int', 'floor', 'round', 'ceil', 'trunc', 'rint') else None
    if q is None or q.op != 'bin' or q.a[0] not in ('/', '//'):
        rep.ob('position', site, 'undecided')
        return
    rep.ob('position', site)
    last = alg.add(c.rat(n), one_, -1)
    top, low = c.rat(q.a[1]), q.a[2]
    if low.op == 'call' and low.a[0].op == 'ext' and low.a[0].a[0].split('.')[-1] in ('max', 'maximum') and len(low.a[1]) == 2 and any(is_const(x) for x in low.a[1]):
        low = next(x for x in low.a[1] if not is_const(x))
    low = c.rat(low)
    over, gap = alg.add(top, size, -1).const(), alg.add(low, last, -1).const()
    if over is None or gap is None:
        rep.ob('position', site, 'undecided')
        return
    # gap 0: k * int(P / (N - 1)) <= P, reached where N - 1 divides P; gap 1: (N - 1) / N * P
    rounds = f in ('round', 'rint', 'ceil')
    if gap < 0 or gap == 0 and (over >= 0 or rounds) or gap == 1 and over > 0:
        rep.violate('position', site, *where, show(d)[:200], f'the last of the {"columns" if axis else "rows"} lies beyond the data for some numbers of profiles')


class Lines(Requests):
    def __init__(self, vertical):
        Requests.__init__(self)
        self.vertical = vertical
        self.taken = {}

    def truth(self, t, st):
        if any(x.op == 'call' and x.a[0].op == 'ext' and x.a[0].a[0] == 'quantity_orientation' for x in walk(t)):
            if t.op != 'cmp' or t.a[0] not in ('<', '<=', '>', '>='):
                return None
            angle = 0 if self.vertical else 90
            x, y = (x.a[0] if is_const(x) else angle for x in t.a[1:])
            if not isinstance(x, (int, float)) or not isinstance(y, (int, float)):
                return None
            return {'<': x < y, '<=': x <= y, '>': x > y, '>=': x >= y}[t.a[0]]
        return Case.truth(self, t, st)

    def subscripted(self, b, i, st):
        self.taken[(b.uid, i.uid)] = (b, i)
        return None


def where_of(ci, meth):
    c_, e = ci.lookup(meth)
    while e is not None and e.get('kind') == 'assign' and isinstance(e['expr'], ast.Name):
        c_, e = ci.lookup(e['expr'].id)
    if e is None or e.get('fi') is None:
        return None, None
    return e['fi'], (f'{e["fi"].module.rel}:{e["fi"].node.lineno}', e['fi'].qual)


def one(prog, rep, ci, ref, meth, how, whole):
    fixed = ', '.join(f'{k}={v.a[0]}' for k, v in how.items() if isinstance(v, T) and v.op == 'const')
    site = f'{ci.name}.{meth} ({", ".join(x for x in (ref.node.name, fixed) if x)})'
    rep.ob('range', site)
    mfi, where = where_of(ci, meth)
    if mfi is None:
        rep.violate('range', site, ci.module.rel, ci.qual, meth, 'a documented operation is missing')
        return
    alg = Alg()
    lin = Linear(alg, whole)
    names = [a.arg for a in ref.node.args.args[2:]]

    def make(given, code=False):
        h = Requests()
        h.given, h.alg, h.learn, h.order, h.lin = given, alg, True, [], lin
        r = Run(prog, h)
        h.r = r
        o = r.obj(ci)
        ps = h.nd.setdefault('params', {})
        vals = {}
        for n in names:
            k = how.get(n)
            if isinstance(k, T):
                vals[n] = k
            elif isinstance(k, int):
                vals[n] = mk('tuple', tuple(P(f'{n}{i}') for i in range(k)))
                ps.update({f'{n}{i}': () for i in range(k)})
            elif k == 'surface':
                vals[n] = r.obj(ci, 'other')
            else:
                vals[n] = P(n)
                ps[n] = ()
                if k == 'number':
                    h.numbers += (vals[n],)
        z = r.it.getattr_(o, 'data', r.st, None, TopCtx(ci))
        c = Fine(r.it, r.st, h.nd, nonan=True, alg=alg)
        get = lambda x, n: r.it.getattr_(x, n, r.st, None, TopCtx(ci))
        for x in [o] + [v for v in vals.values() if v.op == 'obj']:
            shape = c.dims(get(x, 'data'))
            for n, step, k in (('width_um', 'step_x', 1), ('height_um', 'step_y', 0)) if ci.name == 'Surface' else (('length_um', 'step', 0),):
                lin.equal(c.rat(get(x, n)), alg.mul(alg.add(shape[k], alg.c(1), -1), c.rat(get(x, step))))
        if not code:
            v = r.func(ref, [o, z], vals)
            h.v = None if r.err is not None else v
            h.used = dict(h.given)
            return h
        h.order = []
        kw = {**vals, **{k: v for k, v in how.items() if isinstance(v, T)}}
        args = []
        if 'p' in kw:
            args = [kw.pop('p')]
        r.method(o, meth, args, kw)
        return h
    n = 0
    for h0 in paths(make, 9):
        want = h0.v.a[0] if h0.v is not None and is_const(h0.v) and isinstance(h0.v.a[0], bool) else None
        if want is None:
            rep.ob('range', site, 'undecided')
            rep.notes.append(f'{site}: reference: {h0.v and show(h0.v)} {str(h0.r.err)[-200:]}')
            continue
        if not lin.feasible(h0.used):
            continue
        n += 1
        s2 = f'{site}, case {n}: ' + ('rejected' if want else 'accepted')
        rep.ob('range', s2)
        leaves = []
        for h in paths(lambda g: make(g, True), 6, h0.used):
            r = h.r
            rep.used(r.it)
            if not lin.feasible(h.given):
                continue
            extra = [(k, v) for k, v in h.given.items() if k not in h0.used]
            names_ = [x[0][0] if isinstance(x[0], tuple) else x[0] for x in r.raised]
            dead = r.st.dead
            if r.err is not None:
                rep.notes.append(f'{s2}: {str(r.err)[-300:]}')
                v = None
            elif not dead and 'ValueError' in names_:
                v = None        # decided by something that is not compared
            else:
                v = dead == want
                if v and want and names_:
                    rep.ob('error', site)
                    if not any(x == 'ValueError' or sub_of(prog, x, 'ValueError') for x in names_):
                        rep.violate('error', site, *where, names_[0], 'another error than ValueError is raised')
            leaves.append((extra, v, h, names_))
        wrong = [x for x in collapse(leaves) if x[1] is False and independent(alg, dict(x[0]), h0.used, lin)]
        if wrong:
            extra, v, h, names_ = wrong[0]
            rep.violate('range', s2, *where, describe_case(alg, {**h0.used, **dict(extra)}), 'the request is out of range but is not rejected' if want else f'a valid request is rejected ({", ".join(names_) or "no result"})')
        elif not leaves or any(x[1] is not True for x in leaves):
            rep.ob('range', s2, 'undecided')


def collapse(leaves, depth=0):
    """Outcomes by the conditions that decide them."""
    if not leaves:
        return []
    if len({x[1] for x in leaves}) == 1:
        extra, v, h, names = leaves[0]
        return [(extra[:depth], v, h, names)]
    if any(len(x[0]) <= depth for x in leaves):
        return leaves
    ks = {x[0][depth][0] for x in leaves}
    if len(ks) > 1:
        return leaves
    return [y for t in (True, False) for y in collapse([x for x in leaves if x[0][depth][1] == t], depth + 1)]


def independent(alg, extra, base, lin):
    """The additional conditions are about quantities that can be chosen freely."""
    forms = [lin.form(alg.ratlist[i]) for kind, i in base]
    more = {kind_i: lin.form(alg.ratlist[kind_i[1]]) for kind_i in extra}
    fields = {k for f in forms + list(more.values()) for m in f for k, e in m if isinstance(k, int) and alg.atoms[k][0] == 'field'}
    forms += [f for f in lin.zero.values() if any(k in fields for m in f for k, e in m)]
    seen = {m for f in forms for m in f}
    old = {k for m in seen for k, e in m}
    fresh = {c: {m for m in f if m and m not in seen} for c, f in more.items()}
    every = {k for ms in fresh.values() for m in ms for k, e in m}
    for c, ms in fresh.items():
        for m in ms:
            for k, e in m:
                if not isinstance(k, int):
                    return False
                kind = alg.atoms[k][0]
                if kind.split('.')[-1] in ('isclose', 'allclose'):
                    continue
                if kind not in ('param', 'dim', 'step', 'field'):
                    return False
                for b in old | every:
                    if b != k and isinstance(b, int) and not alg.atoms[b][0].endswith('close') and k in reach_of(alg, b):
                        return False
        others = old | {k for d, q in fresh.items() if d != c for m in q for k, e in m}
        single = {m for m in ms if len(m) == 1 and m[0][1] == 1}
        rest = ms - single
        common = {k for m in rest for k, e in m}
        for m in rest:
            common &= {k for k, e in m if e == 1}
        own = {k for m in rest for k, e in m} - others
        if rest and not (common - others) and not all({k for k, e in m} & own - {k for q in ms if q != m for k, e in q} for m in rest):
            return False
    return True


def reach_of(alg, k):
    from ..algebra import Rat
    return reach(alg, Rat({((k, 1),): 1}), set()) - {k}


def describe_case(alg, given):
    from ..algebra import describe
    return '; '.join(('' if v else 'not ') + f'{describe(alg, alg.ratlist[i])[:60]} {"> 0" if kind == ">" else "= 0"}' for (kind, i), v in list(given.items())[:6])[:300]


def sub_of(prog, name, base):
    c = prog.find_class(name) if any(name in m.classes for m in prog.modules.values()) else None
    while c is not None:
        bases = [ast.unparse(b) for b in c.node.bases]
        if base in bases:
            return True
        c = next((prog.find_class(b) for b in bases if any(b in m.classes for m in prog.modules.values())), None)
    return False


class Quiet(Requests):
    def truth(self, t, st):
        return Case.truth(self, t, st)


def symbolic(v):
    return mk('tuple', tuple(const(x) for x in v)) if isinstance(v, tuple) else const(v)


def option(prog, rep, ci, meth, opt, good, kw, bad):
    mfi, where = where_of(ci, meth)
    more = ', '.join(f'{k}={show(v)}' for k, v in kw.items())
    noise = [(x,) if isinstance(bad[0] if bad else good[0], tuple) else x for x in NOISE] if (meth != 'filter' or good) and meth not in ('homogeneity', 'plot_3d') else []
    for v, want in [(x, False) for x in good] + [(x, True) for x in list(bad) + noise]:
        site = f'{ci.name}.{meth}({opt}={v!r}{", " + more if more else ""})'
        rep.ob('option', site)
        if mfi is None:
            rep.violate('option', site, ci.module.rel, ci.qual, meth, 'a documented operation is missing')
            continue
        pos, kwo, va, k_, dfl = sig(mfi)
        if opt not in pos + kwo:
            rep.violate('option', site, *where, opt, 'a documented option is missing')
            continue
        h = Quiet()
        h.inside = {meth, 'orientation'}
        h.given, h.alg, h.learn, h.order = {}, Alg(), False, []
        r = Run(prog, h)
        o = r.obj(ci)
        r.method(o, meth, [], {**kw, opt: symbolic(v)})
        rep.used(r.it)
        if r.err is not None:
            rep.ob('option', site, 'undecided')
            rep.notes.append(f'{site}: {str(r.err)[-300:]}')
            continue
        names = [x[0][0] if isinstance(x[0], tuple) else x[0] for x in r.raised]
        if want:
            if not r.st.dead:
                if names:
                    rep.ob('option', site, 'undecided')
                else:
                    rep.violate('option', site, *where, f'{opt}={v!r}', 'a value that is not documented is not rejected')
            else:
                rep.ob('error', f'{ci.name}.{meth}')
                if names and not any(x == 'ValueError' or sub_of(prog, x, 'ValueError') for x in names):
                    rep.violate('error', f'{ci.name}.{meth}', *where, names[0], 'another error than ValueError is raised')
        elif r.st.dead:
            rep.violate('option', site, *where, f'{opt}={v!r}: {", ".join(names)}', 'a documented value is rejected')


class Operand(Case):
    def truth(self, t, st):
        if t.op == 'call' and t.a[0].op == 'ext' and t.a[0].a[0] == 'numpy.isscalar' and len(t.a[1]) == 1 and t.a[1][0].op in ('const', 'tuple'):
            return t.a[1][0].op == 'const' and isinstance(t.a[1][0].a[0], (str, bytes, int, float, complex))
        return Case.truth(self, t, st)


def operand(prog, rep, ci, m, v):
    site = f'{ci.name}.{m}({show(v)})'
    mfi, where = where_of(ci, m)
    rep.ob('operand', site)
    if mfi is None:
        rep.ob('operand', site, 'undecided')
        return
    r = Run(prog, Operand())
    o = r.obj(ci)
    r.method(o, m, [v])
    rep.used(r.it)
    if r.err is not None:
        rep.ob('operand', site, 'undecided')
    elif not r.st.dead:
        if r.val is not None and any(a.op == 'ext' and a.a[0].endswith('NotImplemented') for a in alts(r.val)):
            return
        if r.raised:
            rep.ob('operand', site, 'undecided')
        else:
            rep.violate('operand', site, *where, site, 'arithmetic with something that is neither a topography nor a number is not rejected')
