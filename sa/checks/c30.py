"""Parameter definitions.  Every parameter is interpreted for a symbolic topography and its value is compared, as an algebraic normal form over
arbitrary heights, extents and steps, with a reference definition that the same engine interprets.  Different forms are a violation when both
are made of understood operations only; otherwise the obligation is undecided."""
from ..common import *
from ..algebra import Alg, describe
from ..fine import Fine, Refs, Measured
from .c30refs import SURFACE, PROFILE, AFC, HELPERS

UNKNOWN = {'unk', 'loopvar', 'rec', 'call', 'comp', 'obj', 'closure', 'bmeth', 'mcall', 'bound', 'elem', 'star', 'leave', 'store', 'bin', 'fstr', 'fmt', 'big', 'gen', 'pick', 'un', 'partial', 'field_', 'meth', 'enum'}
# calls the normal form has rules for, or whose value is characterised by their arguments
CALLS = {'sum', 'mean', 'max', 'min', 'std', 'var', 'median', 'prod', 'ptp', 'quantile', 'any', 'all', 'argmax', 'argmin', 'linspace', 'arange', 'upto', 'trapezoid', 'polyfit', 'searchsorted', 'argsort',
         'array_split', 'interp', 'curve', 'shift', 'sel', 'perm', 'root', 'abs', 'pow', 'dim', 'step', 'field', 'param', 'len', 'count', 'slen', 'const', 'each', 'int', 'phi', 'sub', 'div0', 'builtinmax', 'builtinmin',
         'sort', 'diff', 'cumsum', 'gradient', 'minimum', 'maximum', 'clip', 'log', 'exp', 'log10', 'rint', 'round', 'floor', 'ceil', 'sign', 'average', 'percentile', 'where', 'unique', 'narrowed'}


def understood(voc):
    if 'narrowed' in voc:
        return True             # a shorter number type rounds the heights
    return all(k in CALLS or k.startswith('cmp') for k in voc)


class Whole(Measured):
    """Nothing is missing; the threshold between two levels is not looked into, but it separates the heights."""

    def call(self, f, args, kwargs, st, node, ctx, it):
        if f.op == 'func' and f.a[0].split('.')[-1] == 'otsu_threshold' and len(args) == 1 and not kwargs:
            return mk('call', mk('ext', 'otsu_threshold'), tuple(args), ())
        return None

    def truth(self, t, st):
        if t.op == 'cmp' and t.a[0] in ('>', '<', '>=', '<='):
            a, b = self.selected(t.a[1]), self.selected(t.a[2])
            if a and b and a[0] is b[0]:
                x, y = self.level(a[1], a[0]), self.level(b[1], b[0])
                if x and y and x != y:
                    return (t.a[0][0] == '>') == (x > y)
        return super().truth(t, st)

    def level(self, mask, data):
        """1: the mask selects the heights above a threshold, -1: those below."""
        if mask.op == 'un' and mask.a[0] in ('~', 'not', 'invert'):
            k = self.level(mask.a[1], data)
            return -k if k else None
        if mask.op == 'cmp' and mask.a[0] in ('>', '>=', '<', '<=') and (mask.a[1] is data) != (mask.a[2] is data):
            return 1 if (mask.a[0][0] == '>') == (mask.a[1] is data) else -1
        return None

    def selected(self, x):
        """(array, mask) of the mean, median, largest or smallest of the selected elements."""
        y = None
        if x.op == 'mcall' and x.a[1] in ('mean', 'max', 'min'):
            y = x.a[0]
        elif x.op == 'call' and x.a[0].op == 'ext' and x.a[0].a[0].split('.')[-1] in ('mean', 'median', 'max', 'min') and x.a[1]:
            y = x.a[1][0]
        return y.a if y is not None and y.op == 'sub' else None


def run(prog, rep):
    rep.rule('definition', 'the value of a parameter is its documented definition for all heights, extents and steps', 60)
    rep.rule('default', 'called without arguments, a parameter uses the documented default values', 12)
    rep.rule('line', 'the core parameters are read off one straight line fitted to the same section of heights and material ratios', 2)
    rep.rule('width', 'the fitted section covers 40 % of the material ratio', 2)
    rep.rule('by name', 'roughness_parameters reports for each requested name, or for all documented ones, the value of the method of that name', 6)
    rep.rule('helper', 'the threshold between two levels and the sinusoids fitted to profiles are what their definitions say', 4)
    for cls, text in (('Surface', SURFACE), ('Profile', PROFILE)):
        ci = prog.find_class(cls)
        refs = Refs(prog, text, 'reference' + cls)
        for n in refs.names():
            if n.startswith('_'):
                continue
            one(prog, rep, ci, n, refs)
        by_name(prog, rep, ci)
        line(prog, rep, ci)
    helpers(prog, rep)
    for cls in ('Surface', 'Profile'):
        refs = Refs(prog, AFC[cls], 'referenceAFC' + cls)
        for n in refs.names():
            if n.startswith('afc_'):
                one(prog, rep, prog.find_class(cls), n, refs, curve=True)


def helpers(prog, rep):
    from . import helpers as H
    refs = Refs(prog, HELPERS, 'referenceHelpers')
    fi = next((f for q, f in prog.funcs.items() if q.split('.')[-1] == 'otsu_threshold' and not q.startswith('reference')), None)
    v, nb = mk('param', 'values'), mk('param', 'nbins')
    if fi is not None:
        for kw, site in (({'nbins': nb}, 'threshold between two levels'), ({}, 'threshold between two levels, default')):
            H.compare(prog, rep, 'helper', site, H.where_of(fi), lambda r, h: r.func(fi, [v], kw), lambda r, h: r.func(refs.fi('otsu_threshold'), [v], kw), {'nbins': ()})
    ci = prog.find_class('Sinusoid')
    if ci is None:
        return
    c_, e = ci.lookup('from_fit')
    if e is not None and e.get('fi') is not None:
        sinusoid_fit(prog, rep, ci, e['fi'], refs, H)
    for name, want, params in (('__call__', ('wave',), ('x',)), ('first_extremum', ('first_extremum', 'first_extremum_mod'), ()), ('first_peak', ('first_peak', 'first_peak_mod'), ())):
        c_, e = ci.lookup(name)
        if e is None or e.get('fi') is None:
            continue
        args = [mk('param', p) for p in params]

        def reference(r, h):
            o = h.o = r.obj(ci)
            return mk('phi', tuple(r.func(refs.fi(w), [o] + args) for w in want)) if len(want) > 1 else r.func(refs.fi(want[0]), [o] + args)
        H.compare(prog, rep, 'helper', f'sinusoid: {name}', H.where_of(e['fi']), lambda r, h: r.method(h.o, name, args), reference, {p: () for p in params})


def sinusoid_fit(prog, rep, ci, fi, refs, H):
    """The sinusoid of a fit has the fitted values, with a positive amplitude."""
    names = ('a', 'p', 'x0', 'y0')
    fitted = [mk('param', n) for n in names]

    class Fit(H.Paths):
        def call(self, f, args, kwargs, st, node, ctx, it):
            if f.op == 'ext' and f.a[0] == 'scipy.optimize.curve_fit':
                return mk('tuple', (mk('tuple', tuple(fitted)), mk('param', 'covariance')))
            return super().call(f, args, kwargs, st, node, ctx, it) if hasattr(super(), 'call') else None

    def value(r, h):
        o = r.call(r.it.getattr_(mk('class', ci.qual), 'from_fit', r.st, None, TopCtx(ci)), [mk('param', 'xdata'), mk('param', 'ydata')], {'p0': mk('param', 'p0')})
        if o is None or r.err is not None or o.op != 'obj':
            return None
        return mk('tuple', tuple(r.it.getattr_(o, x, r.st, None, TopCtx(ci)) for x in ('amplitude', 'period', 'x0', 'y0')))

    def reference(r, h):
        ws = [r.func(refs.fi(n), list(fitted)) for n in ('fit', 'fit_after', 'fit_minus', 'fit_minus_after')]
        return mk('tuple', tuple(x[0] if len(x) == 1 else mk('phi', tuple(x), ()) for x in [list(dict.fromkeys(y)) for y in zip(*[w.a[0] for w in ws])]))
    H.compare(prog, rep, 'helper', 'sinusoid: from_fit', H.where_of(fi), value, reference, {n: () for n in names}, Fit)


def by_name(prog, rep, ci):
    """Parameters that are asked for by name have the value of the method of that name."""
    c_, e = ci.lookup('roughness_parameters')
    if e is None or e.get('fi') is None:
        return
    fi = e['fi']
    where = (f'{fi.module.rel}:{fi.node.lineno}', fi.qual)
    for attr, given in (('ISO_PARAMETERS', False), ('ISO_PARAMETERS', True), ('NON_ISO_PARAMETERS', True)):
        site = f'{ci.name}.roughness_parameters({attr if given else ""})'
        h = Whole()
        r = Run(prog, h)
        o = r.obj(ci)
        names = r.it.getattr_(mk('class', ci.qual), attr, r.st, None, TopCtx(ci))
        elems = r.it.elements(r.st, names)
        if elems is None or not all(x.op == 'const' for x in elems):
            rep.ob('by name', site, 'undecided')
            continue
        names = [x.a[0] for x in elems]
        v = r.method(o, 'roughness_parameters', [mk('tuple', tuple(elems))] if given else [])
        rep.used(r.it)
        got = unpack(v, r) if v is not None and r.err is None else None
        if got is None:
            rep.ob('by name', site, 'undecided')
            continue
        rep.ob('by name', site)
        if set(got) != set(names):
            rep.violate('by name', site, *where, f'{sorted(set(names) ^ set(got), key=str)}', 'parameters that were asked for are missing from the result, or others are reported')
            continue
        for n in names:
            w = r.method(o, n, [])
            s2 = f'{site}: {n}'
            if w is None or r.err is not None:
                r.err = None
                rep.ob('by name', s2, 'undecided')
                continue
            if got[n] is w:
                rep.ob('by name', s2)
            else:
                compare(rep, 'by name', s2, prog, ci, r, h, got[n], w, fi)


def one(prog, rep, ci, n, refs, curve=False):
    fi = refs.fi(n)
    name = n
    c_, e = ci.lookup(name)
    site = f'{ci.name}.{n}'
    if curve:
        name = n[4:]
        site = f'curve of a {ci.name.lower()}: {name}'
        c_, e = ci.lookup('get_abbott_firestone_curve')
    pos, kwo, va, kwn, dfl = sig(fi)
    params = pos[2:]
    if e is None or e.get('fi') is None:
        rep.ob('definition', site)
        rep.violate('definition', site, ci.module.rel, ci.qual, name, 'a documented parameter is missing')
        return
    for explicit in ((True, False) if params else (False,)):
        if not explicit and any(p not in dfl for p in params):
            continue
        rule = 'definition' if explicit or not params else 'default'
        h = Whole()
        r = Run(prog, h)
        o = r.obj(ci)
        kw = {p: mk('param', p) for p in params} if explicit else {}
        for p in params:
            h.nd.setdefault('params', {})[p] = ()
        v = r.method(r.method(o, 'get_abbott_firestone_curve', [], {}), name, [], kw) if curve else r.method(o, name, [], kw)
        rep.used(r.it)
        if r.err is not None or v is None or not r.returns:
            rep.ob(rule, site, 'undecided')
            if r.err is None:
                ex = r.raised[0] if r.raised else None
                rep.violate(rule, site, loc(ex[3], ex[2]) if ex and ex[2] is not None else ci.module.rel, e['fi'].qual, name, 'the parameter cannot be computed for a topography without missing points')
            continue
        z = r.it.getattr_(o, 'data', r.st, None, TopCtx(ci))
        saved = (r.val, r.err)
        w = r.func(fi, [o, z], kw)
        werr = r.err
        r.val, r.err = saved
        if werr is not None or w is None:
            rep.ob(rule, site, 'undecided')
            continue
        compare(rep, rule, site, prog, ci, r, h, v, w, e['fi'])


def unpack(t, r):
    """Items of a returned sequence or mapping."""
    if t.op in ('tuple', 'list'):
        return {i: x for i, x in enumerate(t.a[0])}
    if t.op == 'obj':
        h = r.it.h(r.st, t)
        if h is not None and h.cls == 'dict' and not h.open:
            return dict(h.fields)
        if h is not None and h.cls == 'list' and not h.open:
            return {i: x for i, x in enumerate(h.fields['items'])}
    return None


def compare(rep, rule, site, prog, ci, r, h, v, w, fi):
    where = (f'{fi.module.rel}:{fi.node.lineno}', fi.qual)
    parts = unpack(w, r)
    if parts is not None:
        for a in alts(v):
            got = unpack(a, r)
            for k, want in parts.items():
                s2 = f'{site}[{k}]'
                if got is None:
                    rep.ob(rule, s2, 'undecided')
                elif k not in got:
                    rep.ob(rule, s2)
                    rep.violate(rule, s2, *where, str(k), 'a documented value is missing from the result')
                else:
                    compare(rep, rule, s2, prog, ci, r, h, got[k], want, fi)
        return
    rep.ob(rule, site)
    c = Fine(r.it, r.st, h.nd, alg=Alg())
    want = c.rat(w)
    for a in alts(v):
        got = c.rat(a)
        if c.alg.eq(got, want):
            continue
        voc = c.vocabulary(got) - c.vocabulary(want)
        if understood(voc) and not c.vocabulary(got) & {'unk', 'rec'}:
            rep.violate(rule, site, *where, describe(c.alg, got)[:200], f'not the documented value {describe(c.alg, want)[:200]}')
        else:
            rep.ob(rule, site, 'undecided')
            rep.notes.append(f'{site}: not comparable because of {sorted(k for k in voc if not (k in CALLS or k.startswith("cmp")))}')


def line(prog, rep, ci):
    """k = -100 * slope of the line through (material ratio, height) whose intercept is where the peaks begin."""
    p = 'S' if ci.name == 'Surface' else 'R'
    h = Whole()
    r = Run(prog, h)
    o = r.obj(ci)
    k = r.method(o, p + 'k', [], {})
    x = r.method(o, p + 'pkx', [], {})
    rep.used(r.it)
    site = f'{ci.name}: core line'
    c_, e = ci.lookup(p + 'k')
    where = (f'{e["fi"].module.rel}:{e["fi"].node.lineno}', e['fi'].qual)
    fits = []
    for t in (k, x):
        for y in walk(t) if t is not None else ():
            if y.op == 'call' and y.a[0].op == 'ext' and y.a[0].a[0] == 'numpy.polyfit' and y not in fits:
                fits.append(y)
    if r.err is not None or not fits:
        rep.ob('line', site, 'undecided')
        return
    rep.ob('line', site)
    c = Fine(r.it, r.st, h.nd, alg=Alg())
    A = c.alg
    if len({(A.rid(c.rat(mk('sub', f, const(0)))), A.rid(c.rat(mk('sub', f, const(1))))) for f in fits}) != 1:
        rep.violate('line', site, *where, f'{len(fits)} fits', 'the limits of the core are taken from different lines')
        return
    f = fits[0]
    z = r.it.getattr_(o, 'data', r.st, None, TopCtx(ci))
    slope, icept = c.rat(mk('sub', f, const(0))), c.rat(mk('sub', f, const(1)))
    if not A.eq(c.rat(k), A.mul(A.c(-100), slope)):
        rep.violate('line', site, *where, describe(A, c.rat(k))[:160], 'the core height is not the drop of the line over the whole range of material ratios')
    mx = c.rat(mk('mcall', z, 'max', (), ()))
    if not A.eq(c.rat(x), A.add(mx, icept, -1)):
        rep.violate('line', site, *where, describe(A, c.rat(x))[:160], 'the peaks do not begin where the line meets material ratio zero')
    if len(f.a[1]) >= 3 and not is_const(f.a[1][2], 1):
        rep.violate('line', site, *where, show(f.a[1][2]), 'the core is not approximated by a straight line')
    a, b = f.a[1][0], f.a[1][1]
    if a.op == 'sub' and b.op == 'sub':
        if a.a[1] is not b.a[1] and c.key(a.a[1]) != c.key(b.a[1]):
            rep.violate('line', site, *where, show(f)[:160], 'heights and material ratios of the fitted section do not belong together')
        width(rep, r, c, site, where, a)
    else:
        rep.ob('line', site, 'undecided')


def width(rep, r, c, site, where, a):
    """The fitted section begins at some material ratio and covers the following 40 %."""
    rep.ob('width', site)
    A = c.alg
    s = a.a[1]
    hi = s.a[1] if s.op == 'slice' else None
    if hi is None or hi.op != 'call' or hi.a[0].op != 'ext' or hi.a[0].a[0] != 'numpy.searchsorted' or len(hi.a[1]) < 2 or hi.a[1][0] is not a.a[0]:
        rep.ob('width', site, 'undecided')
        return
    lo = s.a[0]
    d = A.add(c.rat(hi.a[1][1]), c.rat(mk('sub', a.a[0], lo)), -1)
    if not A.eq(d, A.c(40)):
        if d.const() is not None:
            rep.violate('width', site, *where, describe(A, d)[:160], 'the fitted section does not cover 40 % of the material ratio')
        else:
            rep.ob('width', site, 'undecided')
