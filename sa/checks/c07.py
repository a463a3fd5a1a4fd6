"""Spectral and autocorrelation quantities, compared with reference definitions one path at a time."""
from ..common import *
from ..algebra import Alg, describe
from ..fine import Fine, Refs
from ..refcmp import Paths, Diff, paths
from .c30 import CALLS
from .c07refs import SURFACE, PROFILE

KNOWN = CALLS | {'T', '//', '%', '|', '&', '^', 'fft2', 'fft.fft2', 'fft.fftshift', 'fft.fftfreq', 'fft.ifftshift', 'scipy.signal.fftconvolve', 'outer', 'unravel_index', 'bincount', 'arctan', 'arctan2', 'pi', 'un',
                 'scipy.ndimage.label', 'scipy.ndimage.binary_dilation', 'scipy.ndimage.map_coordinates', 'argwhere', 'meshgrid', 'linalg.norm', 'norm', '.astype', 'hypot', 'array', 'ndimage.label', 'period', 'period_x_y', 'depth', 'star', 'array', 'ones', 'isfinite', 'scipy.ndimage.binary_erosion', 'scipy.ndimage.binary_closing', 'scipy.ndimage.binary_opening', 'scipy.ndimage.generate_binary_structure',
                 'scipy.signal.find_peaks', 'fft.fft', 'fft.rfft', 'fft.rfftfreq'}
CASES = [
    ('autocorrelation function', 'acf_data', (('get_autocorrelation_function',), '.data')),
    ('centre of the autocorrelation function', 'acf_center', (('get_autocorrelation_function',), '.center')),
    ('Sal', 'Sal', (('Sal',),)),
    ('Str', 'Str', (('Str',),)),
    ('Sal of the autocorrelation function', 'Sal', (('get_autocorrelation_function',), ('Sal',))),
    ('Str of the autocorrelation function', 'Str', (('get_autocorrelation_function',), ('Str',))),
    ('period', 'period', (('period',),)),
    ('period_x_y', 'period_x_y', (('period_x_y',),)),
    ("orientation by 'fft'", 'orientation_fft', (('orientation', {'method': 'fft'}),)),
    ('Ssw', 'Ssw', (('Ssw',),)),
    ('period of the Fourier transform', 'period', (('get_fourier_transform',), ('period',))),
    ('period_x_y of the Fourier transform', 'period_x_y', (('get_fourier_transform',), ('period_x_y',))),
    ('orientation of the Fourier transform', 'orientation_fft', (('get_fourier_transform',), ('orientation',))),
    ('dominant wavelength of the Fourier transform', 'Ssw', (('get_fourier_transform',), ('dominant_wavelength',))),
    ('angular power spectrum', 'angular', (('get_fourier_transform',), ('angular_power_spectrum',))),
    ('Std', 'Std', (('Std',),)),
    ('Std of the Fourier transform', 'Std', (('get_fourier_transform',), ('Std',))),
    ('aspect_ratio', 'aspect_ratio', (('aspect_ratio',),), ('depth', 'period', 'period_x_y')),
]


def known(k):
    return k in KNOWN or k.startswith('cmp')


class Spectral(Paths):
    """Repeated quantities (periods, depth, the autocorrelation function) may be opaque where another one is built from them."""

    def __init__(self, opaque=()):
        super().__init__()
        self.opaque = opaque

    def call(self, f, args, kwargs, st, node, ctx, it):
        g = f.a[0] if f.op == 'bound' else f
        if g.op == 'func' and g.a[0].split('.')[-1] in self.opaque and g.a[0].split('.')[-2:-1] == ['Surface']:
            args = args[1:] if g is f else args
            return mk('call', mk('ext', g.a[0].split('.')[-1]), tuple(args), tuple(sorted(dict(kwargs).items())))
        return super().call(f, args, kwargs, st, node, ctx, it) if hasattr(super(), 'call') else None


def run(prog, rep):
    rep.rule('definition', 'spectral and autocorrelation quantities are what their definitions say, with the step of each axis, for all heights, extents, steps and arguments', 30)
    rep.rule('default', 'without arguments the documented default values apply', 5)
    S = prog.find_class('Surface')
    refs = Refs(prog, SURFACE, 'spectralSurface')
    for site, ref, path, *opaque in CASES:
        one(prog, rep, S, refs, site, ref, path, lambda: Spectral(*opaque))
    one(prog, rep, prog.find_class('Profile'), Refs(prog, PROFILE, 'spectralProfile'), 'period of a profile', 'period', (('period',),), Spectral)


def follow(r, o, path, kw):
    v = o
    for i, p in enumerate(path):
        if v is None or r.err is not None:
            return None
        if isinstance(p, str):
            cls = getattr(r.it.h(r.st, v), 'cls', None) if v.op == 'obj' else None
            v = r.it.getattr_(v, p[1:], r.st, None, TopCtx(cls))
            continue
        k = dict((a, const(b)) for a, b in (p[1] if len(p) > 1 else {}).items())
        if i == len(path) - 1:
            k.update(kw)
        v = r.method(v, p[0], [], k)
    return v


def one(prog, rep, ci, refs, site, ref, path, hooks, rule='definition'):
    fi = refs.fi(ref)
    pos, kwo, va, kwn, dfl = sig(fi)
    params = pos[2:]
    last = [p for p in path if not isinstance(p, str)][0]
    c_, e = ci.lookup(last[0])
    if e is None:
        rep.ob(rule, site)
        rep.violate(rule, site, ci.module.rel, ci.qual, last[0], 'a documented quantity is missing')
        return
    where = (f'{e["fi"].module.rel}:{e["fi"].node.lineno}', e['fi'].qual) if e.get('fi') else (ci.module.rel, ci.qual)
    for explicit in ((True, False) if params else (False,)):
        if not explicit and any(p not in dfl for p in params):
            continue
        alg = Alg()

        def make(given, code=False):
            h = hooks()
            h.given, h.alg, h.learn, h.order = given, alg, True, []
            r = Run(prog, h)
            h.it = r.it
            o = r.obj(ci)
            for p in params:
                h.nd.setdefault('params', {})[p] = ()
            z = r.it.getattr_(o, 'data', r.st, None, TopCtx(ci))
            kw = {p: mk('param', p) for p in params} if explicit else {}
            h.w = r.func(fi, [o, z], kw)
            h.werr = r.err
            r.err = None
            h.used = dict(h.given)
            if code:
                h.order = []
            h.v = follow(r, o, path, kw) if code else None
            h.r = r
            return h
        n = 0
        for h0 in paths(make):
            n += 1
            s2 = site + ('' if explicit or not params else ', default') + (f' (case {n})' if n > 1 else '')
            rl = rule if explicit or not params else 'default'
            if h0.werr is not None or h0.w is None:
                rep.ob(rl, s2, 'undecided')
                rep.notes.append(f'{s2}: reference: {str(h0.werr)[-300:]}')
                continue
            verdicts = []
            for h in paths(lambda g: make(g, True), 4, h0.used):
                r = h.r
                rep.used(r.it)
                if r.err is not None or h.v is None:
                    x = (None, f'{str(r.err)[-300:]}', '')
                else:
                    x = judge(s2, r, h, h.v, h.w, alg)
                verdicts.append(x + (not h.special(),))
            # conditions the reference does not have: one of their combinations is enough
            rep.ob(rl, s2)
            generic = [x for x in verdicts if x[3]] or verdicts
            if any(x[0] is True for x in generic):
                continue
            if all(x[0] is False for x in generic):
                rep.violate(rl, s2, *where, generic[0][1], generic[0][2])
            else:
                rep.ob(rl, s2, 'undecided')
                rep.notes += [f'{s2}: not comparable: {x[1][:300]} {x[2][:200]}' for x in verdicts if x[0] is None][:2]


def parts_of(t, r):
    if t.op in ('tuple', 'list'):
        return list(t.a[0])
    if t.op == 'nt':
        return [v for k, v in t.a[1]]
    if t.op == 'obj':
        hh = r.it.h(r.st, t)
        if hh is not None and hh.cls == 'list' and not hh.open:
            return list(hh.fields['items'])
    return None


def judge(site, r, h, v, w, alg, known=known):
    """(True: as documented, False: something else, None: not comparable; what, why)"""
    want = parts_of(w, r)
    if want is not None:
        res = []
        for a in alts(v):
            got = parts_of(a, r)
            if got is None or len(got) != len(want):
                return (None, f'{len(want)} values expected', show(a)[:100])
            res += [judge(site, r, h, g, x, alg, known) for g, x in zip(got, want)]
        for q in (False, None):
            for x in res:
                if x[0] is q:
                    return x
        return (True, '', '')
    c = Fine(r.it, r.st, h.nd, alg=alg)
    W = [c.rat(x) for x in alts(w)]
    G = [c.rat(a) for a in alts(v)]
    for g in G:
        if any(alg.eq(g, x) for x in W):
            continue
        ds = [Diff(alg, g, x) for x in W]
        return (False if all(d.verdict(known) for d in ds) else None, ds[0].text(), f'not the documented value: {describe(alg, g)[:160]}')
    return (True, '', '')
