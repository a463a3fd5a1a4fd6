"""What the plots show: the arrays, axes and extents handed to the plotting library, compared with reference definitions one path at a time."""
from ..common import *
from ..algebra import Alg
from ..fine import Refs
from ..refcmp import Paths, paths
from . import c07
from .c30 import CALLS

KNOWN = c07.KNOWN | {'deg2rad', 'hanning', 'log10', 'histogram', 'linspace', 'flip', 'ndimage.zoom', 'diff', 'cumsum', 'nanmin', 'nanmax', '[]', '.ravel', 'meshgrid', 'argclosest'}

REFS = '''
import numpy as np
from scipy import ndimage
from surfalize.mathutils import argclosest

def _width(o, z):
    return (z.shape[1] - 1) * o.step_x

def _height(o, z):
    return (z.shape[0] - 1) * o.step_y

def _length(o, z):
    return (z.shape[0] - 1) * o.step

def topography(o, z, vmin=None, vmax=None):
    return z, (0, o.width_um, 0, o.height_um), vmin, vmax

def layer(o, z, vmin=None, vmax=None):
    return o.image_layers['Intensity'].data, (0, o.width_um, 0, o.height_um), vmin, vmax

def profile(o, z):
    return np.linspace(0, o.length_um, z.size), z

def autocorrelation(o, z):
    a = o.get_autocorrelation_function()
    x = a.center[1] * o.step_x
    y = a.center[0] * o.step_y
    return a.data, (-x, x, -y, y), None, None

def spectrum(o, z, log, hanning, subtract_mean, fxmax, fymax, adjust_colormap):
    n, m = o.size.y, o.size.x
    a = z
    if subtract_mean:
        a = a - z.mean()
    if hanning:
        a = a * np.outer(np.hanning(n), np.hanning(m))
    f = np.abs(np.fft.fftshift(np.fft.fft2(a)))
    fx = np.fft.fftshift(np.fft.fftfreq(m, d=o.width_um / m))
    fy = np.fft.fftshift(np.fft.fftfreq(n, d=o.height_um / n))
    if log:
        f = np.log10(f + 1e-10)
    left, right, top, bottom = 0, m - 1, 0, n - 1
    if fxmax is not None:
        right = argclosest(fxmax, fx)
        left = m - right
        f = f[:, left:right + 1]
    if fymax is not None:
        bottom = argclosest(fymax, fy)
        top = n - bottom
        f = f[top:bottom + 1]
    vmin = vmax = None
    if adjust_colormap:
        vmin = f.mean()
        vmax = 0.7 * f.max()
    return f, (fx[left], fx[right], fy[bottom], fy[top]), vmin, vmax

def angular(o, z, angle_step):
    angles, s = o.get_fourier_transform().angular_power_spectrum(angle_step=angle_step)
    return np.deg2rad(angles), s

def abbott_bars(o, z, nbars):
    n, edges = np.histogram(z, bins=nbars)
    n = np.flip(n)
    edges = np.flip(edges)
    return edges[:-1] + np.diff(edges) / 2, n / n.cumsum().max() * 100

def abbott_curve(o, z, nbars):
    height, ratio = o.get_abbott_firestone_curve()._get_material_ratio_curve()
    return ratio, height

def study_line(o, z):
    a = o.get_abbott_firestone_curve()
    x = np.linspace(0, 100, 10)
    return x, a._slope * x + a._intercept

def study_curve(o, z):
    a = o.get_abbott_firestone_curve()
    return a._material_ratio, a._height

def study_marks(o, z):
    a = o.get_abbott_firestone_curve()
    return a._ylower, a._yupper, a._ylower - a.vk(), a._yupper + a.pk()

def study_sides(o, z):
    a = o.get_abbott_firestone_curve()
    return (a.mr1(), a.mr1()), (0, a._yupper), (a.mr2(), a.mr2()), (0, a._ylower)

def study_areas(o, z):
    a = o.get_abbott_firestone_curve()
    return ((0, a._yupper), (0, a._yupper + a.pk()), (a.mr1(), a._yupper)), ((100, a._ylower), (100, a._ylower - a.vk()), (a.mr2(), a._ylower))

def fine_grid(o, z, level_of_detail):
    f = level_of_detail / 100
    if level_of_detail < 100:
        o = o.__class__(ndimage.zoom(z, f), o.step_x / f, o.step_y / f)
    x = np.linspace(0, o.width_um, o.size.x)
    y = np.flip(np.linspace(0, o.height_um, o.size.y))
    x, y = np.meshgrid(x, y)
    return x, y, o.data

def grid(o, z, scale):
    x = np.linspace(0, o.width_um, o.size.x)
    y = np.flip(np.linspace(0, o.height_um, o.size.y))
    x, y = np.meshgrid(x, y)
    return x, y, z

def grid_colours(o, z, scale):
    return z.T.ravel()

def grid_scale(o, z, scale):
    return scale

def camera(o, z, vertical_angle, horizontal_angle, zoom):
    v, h = np.deg2rad(vertical_angle), np.deg2rad(horizontal_angle)
    d = o.width_um * 2 / zoom
    x, y = o.width_um / 2, o.height_um / 2
    return (x - np.sin(h) * np.cos(v) * d, y - np.cos(h) * np.cos(v) * d, np.sin(v) * d), (x, y, 0), (0, 0, 1)

def missing(o, z, maskcolor):
    return maskcolor

def bar3d(o, z, scale):
    return np.nanmin(z), np.nanmax(z)
'''

AX = ('ax', 'axes')
# (site, reference, class, method, arguments, what is taken from the calls)
CASES = [
    ('topography', 'topography', 'Surface', 'plot_2d', {}, ('vmin', 'vmax'), 'image'),
    ('topography, missing points', 'missing', 'Surface', 'plot_2d', {}, ('maskcolor',), 'bad'),
    ('show, missing points', 'missing', 'Surface', 'show', {}, ('maskcolor',), 'bad'),
    ('image layer', 'layer', 'Surface', 'plot_2d', {'layer': 'Intensity'}, ('vmin', 'vmax'), 'image'),
    ('profile', 'profile', 'Profile', 'plot_2d', {}, (), 'plot'),
    ('autocorrelation function', 'autocorrelation', 'Surface', 'plot_autocorrelation', {}, (), 'image'),
    ('angular power spectrum', 'angular', 'Surface', 'plot_angular_power_spectrum', {}, ('angle_step',), 'plot'),
    ('Abbott plot, bars', 'abbott_bars', 'Surface', 'plot_abbott_curve', {}, ('nbars',), 'barh'),
    ('Abbott plot, curve', 'abbott_curve', 'Surface', 'plot_abbott_curve', {}, ('nbars',), 'plot'),
    ('functional parameters, line', 'study_line', 'Surface', 'plot_functional_parameter_study', {}, (), 'plot0'),
    ('functional parameters, curve', 'study_curve', 'Surface', 'plot_functional_parameter_study', {}, (), 'plot1'),
    ('functional parameters, marks', 'study_marks', 'Surface', 'plot_functional_parameter_study', {}, (), 'hlines'),
    ('functional parameters, areas', 'study_areas', 'Surface', 'plot_functional_parameter_study', {}, (), 'areas'),
    ('3d plot', 'grid', 'Surface', 'plot_3d', {}, ('scale',), 'grid'),
    ('functional parameters, sides', 'study_sides', 'Surface', 'plot_functional_parameter_study', {}, (), 'sides'),
    ('3d plot, level of detail', 'fine_grid', 'Surface', 'plot_3d', {}, ('level_of_detail',), 'grid'),
    ('3d plot, camera', 'camera', 'Surface', 'plot_3d', {}, ('vertical_angle', 'horizontal_angle', 'zoom'), 'camera'),
    ('show, topography', 'topography', 'Surface', 'show', {}, (), 'image'),
    ('show, image layer', 'layer', 'Surface', 'show', {'layer': 'Intensity'}, (), 'image'),
    ('autocorrelation function itself', 'autocorrelation', 'Surface', ('get_autocorrelation_function', 'plot_autocorrelation'), {}, (), 'image'),
    ('3d plot, colours', 'grid_colours', 'Surface', 'plot_3d', {}, ('scale',), 'point_data'),
    ('3d plot, scale', 'grid_scale', 'Surface', 'plot_3d', {}, ('scale',), 'zscale'),
    ('3d plot, colour bar', 'bar3d', 'Surface', 'plot_3d', {}, ('scale',), 'colorbar'),
]
NAMES = ('log', 'hanning', 'subtract_mean', 'fxmax', 'fymax', 'adjust_colormap')
for bits in ((), ('log',), ('hanning',), ('subtract_mean',), ('fxmax',), ('fymax',), ('adjust_colormap',), ('log', 'hanning', 'subtract_mean', 'fxmax', 'fymax', 'adjust_colormap')):
    fixed = {n: n in bits for n in NAMES if n not in ('fxmax', 'fymax', 'adjust_colormap')}
    fixed.update({n: None for n in ('fxmax', 'fymax') if n not in bits})
    CASES.append((f'Fourier transform, {" ".join(bits) or "no option"}', 'spectrum', 'Surface', 'plot_fourier_transform', fixed, tuple(n for n in bits if n in ('fxmax', 'fymax')), 'image'))


class Plot(Paths):
    """Calls on axes and on the plotting libraries are recorded; the axes are given."""

    def __init__(self):
        super().__init__()
        self.calls = []
        self.rec = False
        self.lod = True

    def truth(self, t, st):
        if t.op == 'cmp' and t.a[0] in ('is', 'is not', '==', '!=') and any(x is NONE for x in t.a[1:]):
            o = [x for x in t.a[1:] if x is not NONE]
            if o and o[0].op == 'param':
                return t.a[0] in ('is not', '!=')
        if t.op == 'param' and t.a[0] in AX:
            return True
        return super().truth(t, st)

    def call(self, f, args, kwargs, st, node, ctx, it):
        if self.rec:
            if f.op == 'meth':
                self.calls.append((f.a[1], f.a[0], args, kwargs, st, node, ctx))
            elif f.op == 'ext':
                self.calls.append((f.a[0], None, args, kwargs, st, node, ctx))
            elif f.op in ('func', 'bound'):
                g = f.a[0] if f.op == 'bound' else f
                self.calls.append((str(g.a[0]) if g.op == 'func' else '?', None, args, kwargs, st, node, ctx))
        return super().call(f, args, kwargs, st, node, ctx, it) if hasattr(super(), 'call') else None

    def ev_setattr_other(self, d):
        self.calls.append(('.' + d['name'], d['base'], [d['value']], {}, d['st'], d['node'], d['ctx']))

    def ev_mutate(self, d):
        self.calls.append(('[]=', d['base'], [d['idx'], d['value']], {}, d['st'], d['node'], d['ctx']))


def run(prog, rep):
    rep.rule('shown', 'a plot shows the measured values at their coordinates', 15)
    refs = Refs(prog, REFS, 'plotReferences')
    rep.rule('options', 'every option of a plot reaches the drawing', 20)
    for case in CASES:
        one(prog, rep, refs, *case)
    for cls in ('Surface', 'Profile'):
        ci = prog.find_class(cls)
        for meth in sorted({n for c in ci.mro() if isinstance(c, ClassInfo) for n in c.attrs if n.startswith(('plot_', 'show'))}):
            options(prog, rep, ci, meth)


def options(prog, rep, ci, meth):
    c_, e = ci.lookup(meth)
    fi = e.get('fi')
    if fi is None:
        return
    names = [n for n in sum(sig(fi)[:2], []) if n not in ('self', 'cls')]
    seen, errs = set(), []

    class H(Hooks):
        def truth(self, t, st):
            self.see(t)
            return super().truth(t, st)

        def see(self, *ts):
            for t in ts:
                for x in walk(t):
                    if x.op == 'param':
                        seen.add(x.a[0])

        def call(self, f, args, kwargs, st, node, ctx, it):
            if f.op not in ('func', 'bound', 'closure', 'class'):
                self.see(f, *args)
                self.see(*[v for v in kwargs.values() if isinstance(v, T)])
                for a in list(args) + list(kwargs.values()):
                    p = it.elements(st, a) if isinstance(a, T) else None
                    self.see(*(p or []))
                    h = it.h(st, a) if isinstance(a, T) and a.op == 'obj' else None
                    if h is not None and isinstance(h.cls, ClassInfo):
                        self.see(*[v for v in h.fields.values() if isinstance(v, T)])
            return None

        def on_event(self, d):
            if d['kind'] in ('setattr_other', 'mutate'):
                self.see(*[v for v in d.values() if isinstance(v, T)])
            super().on_event(d)
    R = Run(prog, H())
    o = R.obj(ci)
    R.method(o, meth, [], {n: mk('param', n) for n in names})
    rep.used(R.it)
    for n in names:
        rep.ob('options', f'{ci.name}.{meth}: {n}', 'undecided' if R.err else 'ok')
        if R.err is None and n not in seen:
            rep.violate('options', f'{ci.name}.{meth}: {n}', f'{fi.module.rel}:{fi.node.lineno}', fi.qual, n, 'the option never reaches the drawing and decides nothing')


def take(kind, calls, r):
    """The values a plot shows: a term of the shape the reference has, None if it is drawn in another way."""
    def named(*n):
        return [c for c in calls if c[0].split('.')[-1] in n]

    def arg(c, i, *names):
        for n in names:
            if n in c[3]:
                return c[3][n]
        return c[2][i] if len(c[2]) > i else NONE
    if kind == 'image':
        cs = [c for c in named('imshow', 'matshow') if c[1] is not None]
        if len(cs) != 1 or named('pcolormesh', 'pcolor', 'contourf', 'set_data', 'set_extent', 'invert_yaxis', 'invert_xaxis', 'set_clim'):
            return None, None
        c = cs[0]
        data, ext = arg(c, 0, 'X'), arg(c, 99, 'extent')
        o = arg(c, 99, 'origin')
        if o is not NONE and not is_const(o):
            return None, None
        if is_const(o, 'lower'):
            data = mk('sub', data, BACK)
        if '**' in c[3] or arg(c, 99, 'norm') is not NONE or ext is NONE:
            return None, None
        return mk('tuple', (data, ext, arg(c, 99, 'vmin'), arg(c, 99, 'vmax'))), c
    if kind.startswith('plot'):
        calls = [c for c in calls if c[1] is not None]
        cs = [c for c in named('plot') if len(c[2]) == 2]
        if len(named('plot')) != len(cs) or not cs:
            return None, None
        if kind == 'plot':
            return (mk('tuple', tuple(cs[0][2])), cs[0]) if len(cs) == 1 else (None, None)
        if len(cs) < 2:
            return None, None
        c = cs[int(kind[4:])]
        return mk('tuple', tuple(c[2])), c
    if kind == 'sides':
        cs = [c for c in calls if c[1] is not None and c[0] == 'plot' and len(c[2]) == 2]
        return (mk('tuple', tuple(cs[2][2]) + tuple(cs[3][2])), cs[2]) if len(cs) == 4 else (None, None)
    if kind == 'bad':
        cs = named('set_bad')
        if len(cs) == 1:
            return arg(cs[0], 0, 'color'), cs[0]
        cs = [c for c in named('with_extremes') if 'bad' in c[3]]
        return (arg(cs[0], 99, 'bad'), cs[0]) if len(cs) == 1 else (None, None)
    if kind == 'barh':
        cs = named('barh')
        return (mk('tuple', (arg(cs[0], 0, 'y'), arg(cs[0], 1, 'width'))), cs[0]) if len(cs) == 1 else (None, None)
    if kind == 'hlines':
        cs = named('axhline')
        return (mk('tuple', tuple(arg(c, 0, 'y') for c in cs)), cs[0]) if len(cs) == 4 else (None, None)
    if kind == 'areas':
        cs = named('Polygon')
        return (mk('tuple', tuple(arg(c, 0, 'xy') for c in cs)), cs[0]) if len(cs) == 2 else (None, None)
    if kind == 'grid':
        cs = named('StructuredGrid')
        return (mk('tuple', tuple(cs[0][2])), cs[0]) if len(cs) == 1 and len(cs[0][2]) == 3 else (None, None)
    if kind == 'point_data':
        cs = [c for c in calls if c[0] == '[]=' and c[1].op == 'field' and c[1].a[1] == 'point_data']
        return (cs[0][2][1], cs[0]) if len(cs) == 1 else (None, None)
    if kind == 'camera':
        cs = [c for c in calls if c[0] == '.camera_position']
        return (cs[0][2][0], cs[0]) if len(cs) == 1 else (None, None)
    if kind == 'zscale':
        cs = named('set_scale')
        return (arg(cs[0], 2, 'zscale'), cs[0]) if len(cs) == 1 else (None, None)
    if kind == 'colorbar':
        cs = named('_create_colorbar')
        if len(cs) != 1:
            cs = named('Normalize')
        return (mk('tuple', (arg(cs[0], 0, 'vmin'), arg(cs[0], 1, 'vmax'))), cs[0]) if len(cs) == 1 else (None, None)


def one(prog, rep, refs, site, ref, cls, meth, fixed, params, kind):
    ci = prog.find_class(cls)
    fi = refs.fi(ref)
    start, meth = meth if isinstance(meth, tuple) else (None, meth)
    c_, e = ci.lookup(start or meth)
    if e is None:
        rep.ob('shown', site)
        rep.violate('shown', site, ci.module.rel, ci.qual, meth, 'a documented plot is missing')
        return
    where = (f'{e["fi"].module.rel}:{e["fi"].node.lineno}', e['fi'].qual)
    alg = Alg()
    have = set(sum(sig(e['fi'])[:2], [])) if start is None else {'ax'}
    want = set(sig(fi)[0][2:])

    def make(given, code=False):
        h = Plot()
        h.given, h.alg, h.learn, h.order = given, alg, True, []
        r = Run(prog, h)
        h.it = r.it
        o = r.obj(ci)
        for p in params:
            h.nd.setdefault('params', {})[p] = ()
        z = r.it.getattr_(o, 'data', r.st, None, TopCtx(ci))
        for f, x in (('width_um', 'width'), ('height_um', 'height')) if cls == 'Surface' else (('length_um', 'length'),):
            v = r.func(refs.fi('_' + x), [o, z], {})
            if v is not None and r.err is None:
                r.st.wobj(o.a[0]).fields[f] = v
        kw = {p: mk('param', p) for p in params}
        kw.update({k: const(v) for k, v in fixed.items()})
        if kind == 'image' and ref == 'spectrum':
            kw['adjust_colormap'] = mk('param', 'adjust_colormap')
        h.w = r.func(fi, [o, z], {k: v for k, v in kw.items() if k in want})
        h.werr = r.err
        r.err = None
        h.used = dict(h.given)
        h.r, h.v, h.at = r, None, None
        if code:
            h.order = []
            h.rec = True
            me = r.method(o, start, [], {}) if start else o
            r.method(me, meth, [], {k: v for k, v in dict(kw, **({'ax': mk('param', 'ax')} if 'ax' in have else {})).items() if k in have})
            h.rec = False
            h.v, h.at = take(kind, h.calls, r)
        return h
    n = 0
    for h0 in paths(make, 1 if site.startswith(('Abbott', 'functional')) else 5):
        n += 1
        s2 = site + (f' (case {n})' if n > 1 else '')
        if h0.werr is not None or h0.w is None:
            rep.ob('shown', s2, 'undecided')
            rep.notes.append(f'{s2}: reference: {str(h0.werr)[-300:]}')
            continue
        verdicts = []
        for h in paths(lambda g: make(g, True), 1 if site.startswith(('Abbott', 'functional')) else 4, h0.used):
            r = h.r
            rep.used(r.it)
            if r.err is None and r.st.dead:
                continue            # rejected
            if r.err is not None or h.v is None:
                x = (None, f'{str(r.err)[-300:]}', '')
            else:
                x = c07.judge(s2, r, h, norm(plain(h.v, r)), norm(plain(h.w, r)), alg, known)
                if x[0] is False and h.at[5] is not None:
                    x = x + ((loc(h.at[6], h.at[5]), fname(h.at[6])),)
            verdicts.append((x, not h.special()))
        rep.ob('shown', s2)
        generic = [x for x, g in verdicts if g] or [x for x, g in verdicts]
        if any(x[0] is True for x in generic):
            continue
        if generic and all(x[0] is False for x in generic):
            x = generic[0]
            rep.violate('shown', s2, *(x[3] if len(x) > 3 else where), x[1], x[2])
        else:
            rep.ob('shown', s2, 'undecided')
            rep.notes += [f'{s2}: not comparable: {x[1][:300]} {x[2][:200]}' for x in generic if x[0] is None][:2]


ALL = mk('slice', NONE, NONE, NONE)
BACK = mk('slice', NONE, NONE, const(-1))


def np_call(t, *names):
    if t.op == 'call' and t.a[0].op == 'ext' and t.a[0].a[0] in tuple('numpy.' + n for n in names):
        return list(t.a[1]), dict(t.a[2])
    return None, None


def plain(t, r):
    """Lists of the heap as tuples."""
    p = c07.parts_of(t, r)
    return t if p is None else mk('tuple', tuple(plain(x, r) for x in p))


def norm(t, memo=None):
    """One form for operations that can be written in several ways."""
    memo = {} if memo is None else memo
    if t.uid in memo:
        return memo[t.uid]

    def rec(x):
        return norm(x, memo) if isinstance(x, T) else tuple(rec(y) for y in x) if isinstance(x, tuple) else x
    if t.op == 'phi':
        new = phi([rec(x) for x in t.a[0]], t.a[1])
    elif t.op in ('loopvar', 'obj', 'func', 'class', 'mod', 'param', 'const', 'ext', 'closure'):
        new = t
    else:
        new = mk(t.op, *[rec(x) for x in t.a])
        for i in range(4):
            x = rule(new)
            if x is new:
                break
            new = norm(x, memo)
    memo[t.uid] = new
    return new


def bin_(o, a, b):
    return mk('bin', o, a, b)


def rule(t):
    a, k = np_call(t, 'linspace')
    if a is not None and len(a) == 3 and not k or a is not None and len(a) == 2 and set(k) == {'num'}:
        lo, hi, n = a if len(a) == 3 else a + [k['num']]
        return bin_('+', lo, bin_('*', mk('call', mk('ext', 'numpy.arange'), (n,), ()), bin_('/', bin_('-', hi, lo), bin_('-', n, const(1)))))
    a, k = np_call(t, 'outer', 'multiply.outer')
    if a is not None and len(a) == 2 and not k:
        return bin_('*', mk('sub', a[0], mk('tuple', (ALL, NONE))), a[1])
    a, k = np_call(t, 'diff')
    if a is not None and len(a) == 1 and not k:
        return bin_('-', mk('sub', a[0], mk('slice', const(1), NONE, NONE)), mk('sub', a[0], mk('slice', NONE, const(-1), NONE)))
    a, k = np_call(t, 'ravel')
    if a is not None and len(a) in (1, 2):
        return mk('mcall', a[0], 'ravel', tuple(a[1:]), tuple(k.items()))
    if t.op == 'mcall' and t.a[1] in ('ravel', 'flatten', 'reshape'):
        pos, kw = list(t.a[2]), dict(t.a[3])
        o = kw.pop('order', None)
        if t.a[1] == 'reshape':
            if not (len(pos) == 1 and is_const(pos[0], -1)):
                return t
        elif pos:
            o = pos[0]
        if not kw and (o is None or is_const(o, 'C') or is_const(o, 'F')):
            b = mk('field', t.a[0], 'T') if o is not None and is_const(o, 'F') else t.a[0]
            n = mk('mcall', b, 'ravel', (), ())
            return n
    if t.op == 'sub':
        i = t.a[1]
        if i.op == 'ext' and i.a[0] == 'numpy.newaxis':
            return mk('sub', t.a[0], NONE)
        if i.op == 'tuple':
            xs = [NONE if x.op == 'ext' and x.a[0] == 'numpy.newaxis' else x for x in i.a[0]]
            if xs and is_const(xs[0], Ellipsis) and len(xs) == 2:
                xs[0] = ALL
            if xs == [NONE, ALL]:
                return t.a[0]
            if len(xs) == 2 and xs[1] is ALL and xs[0].op == 'slice':
                return mk('sub', t.a[0], xs[0])
            if xs != list(i.a[0]):
                return mk('sub', t.a[0], mk('tuple', tuple(xs)))
        if i.op == 'slice' and i.a[2] is not NONE and is_const(i.a[2], 1):
            return mk('sub', t.a[0], mk('slice', i.a[0], i.a[1], NONE))
        b = t.a[0]
        if is_const(i) and isinstance(i.a[0], int) and (b.op == 'bin' and b.a[0] in ('//', '+', '-', '*') and is_const(b.a[2]) or np_call(b, 'array', 'asarray')[0] is not None):
            c = b.a[1] if b.op == 'bin' else b
            a, k = np_call(c, 'array', 'asarray')
            if a is not None and len(a) == 1 and a[0].op == 'field' and a[0].a[1] == 'shape':
                x = mk('sub', a[0], i)
                return bin_(b.a[0], x, b.a[2]) if b.op == 'bin' else x
        if i is BACK:
            return turned(t.a[0])
    if t.op == 'call':
        a, k = np_call(t, 'flip', 'flipud')
        if a is not None and len(a) >= 1 and (t.a[0].a[0] == 'numpy.flipud' or is_const(k.get('axis', a[1] if len(a) > 1 else NONE), 0) or not k and len(a) == 1 and line(a[0])):
            return turned(a[0])
    return t


def line(x):
    """Surely of one dimension."""
    if x.op == 'bin':
        return any(line(y) for y in x.a[1:]) and all(line(y) or scalar(y) for y in x.a[1:])
    return np_call(x, 'arange', 'linspace', 'histogram')[0] is not None or x.op == 'sub' and np_call(x.a[0], 'histogram')[0] is not None


def scalar(x):
    if x.op in ('bin', 'un'):
        return all(scalar(y) for y in x.a[1:])
    return x.op in ('const', 'param') or x.op == 'field' and x.a[1] not in ('_data', 'data', 'shape') or x.op == 'sub' and x.a[0].op == 'field' and x.a[0].a[1] == 'shape'


def turned(x):
    """x with its first axis turned round."""
    if x.op == 'sub' and x.a[1] is BACK:
        return x.a[0]
    if x.op == 'bin' and x.a[0] in ('+', '-', '*', '/') and line(x):
        return mk('bin', x.a[0], *[turned(y) if line(y) else y for y in x.a[1:]])
    a, k = np_call(x, 'arange')
    if a is not None and len(a) == 1 and not k:
        return bin_('-', bin_('-', a[0], const(1)), x)
    return mk('sub', x, BACK)


def known(k):
    return k in KNOWN or k.startswith('cmp')
