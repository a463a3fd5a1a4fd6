"""Operations.  Every operation is interpreted for a symbolic topography and symbolic arguments; heights and steps of the result are compared,
as algebraic normal forms, with a reference definition that the same engine interprets.  Different forms are a violation when both are made of
understood operations only; otherwise the obligation is undecided."""
from ..common import *
from ..algebra import Alg, describe
from ..fine import Fine, Refs, Measured
from .c30 import CALLS, Whole
from .c31refs import SURFACE, PROFILE, BOTH

P = lambda n: mk('param', n)
KNOWN = CALLS | {'T', '//', '%', '|', '&', 'nansum', 'nancount', 'nanmax', 'nanmin', 'nanmedian', 'nan_to_num'}


class Case(Whole):
    """'measured': nothing is missing, 'missing': something is missing, 'any': not known."""
    scenario = 'any'
    numbers = ()

    def call(self, f, args, kwargs, st, node, ctx, it):
        if f.op == 'bound' and f.a[0].op == 'func' and f.a[0].a[0].endswith('.orientation'):
            kw = dict(kwargs)
            if args:
                kw['method'] = args[0]
            kw.setdefault('method', const('fft_refined'))
            return mk('call', mk('ext', 'orientation'), (), tuple(sorted(kw.items())))
        return super().call(f, args, kwargs, st, node, ctx, it)

    def truth(self, t, st):
        if t.op == 'call' and t.a[0].op == 'ext' and t.a[0].a[0] in ('isinstance', 'builtins.isinstance') and len(t.a[1]) == 2 and t.a[1][0] in self.numbers:
            names = [x.a[0] for x in walk(t.a[1][1]) if x.op in ('ext', 'class')]
            if names:
                return any(n.split('.')[-1] in ('int', 'float', 'Number', 'Real', 'Integral', 'complex') for n in names)
        if t.op == 'call' and t.a[0].op == 'ext' and t.a[0].a[0] in ('numpy.isscalar',) and t.a[1] and t.a[1][0] in self.numbers:
            return True
        if t.op == 'cmp' and t.a[0] in ('is', 'is not', '==', '!=') and is_const(t.a[2], None) and t.a[1].op == 'param':
            return t.a[0] in ('is not', '!=')
        if self.scenario == 'measured':
            return super().truth(t, st)
        if self.scenario == 'missing':
            r = super().truth(t, st)
            n = self.ndim_truth(t, st)
            return n if n is not None else (not r if r is not None else None)
        return self.ndim_truth(t, st)


def understood(voc):
    if 'narrowed' in voc:
        return True             # a shorter number type rounds the heights
    return all(k in KNOWN or k.startswith('cmp') for k in voc)


def run(prog, rep):
    rep.rule('heights', 'the heights of the result are those the operation is documented to produce, for all heights, steps and arguments', 50)
    rep.rule('steps', 'the result has the point spacing that belongs to its heights', 50)
    rep.rule('fit', 'a trend has all terms up to its degree, is fitted to the measured points only and evaluated where it was fitted', 8)
    rep.rule('trend', 'removing a polynomial trend subtracts the trend that is returned, fitted to the measured points only with all terms up to the degree', 8)
    S, Pr = prog.find_class('Surface'), prog.find_class('Profile')
    refs = {S.name: Refs(prog, SURFACE, 'operationsSurface'), Pr.name: Refs(prog, PROFILE, 'operationsProfile')}
    for ci in (S, Pr):
        for ref, meth, fixed, scenario in BOTH:
            case(prog, rep, ci, refs[ci.name], ref, meth, fixed, scenario)
    rs = refs[S.name]
    for op, m in (('add', '__add__'), ('sub', '__sub__'), ('mul', '__mul__'), ('div', '__truediv__')):
        case(prog, rep, S, rs, op, m, {0: 'surface'}, 'any')
        case(prog, rep, S, rs, op + '_number', m, {0: 'number'}, 'any')
    case(prog, rep, S, rs, 'add_number', '__radd__', {0: 'number'}, 'any')
    case(prog, rep, S, rs, 'mul_number', '__rmul__', {0: 'number'}, 'any')
    case(prog, rep, S, rs, 'rsub_number', '__rsub__', {0: 'number'}, 'any')
    sl = lambda a, b, c=None: mk('slice', P(a) if a else NONE, P(b) if b else NONE, P(c) if c else NONE)
    full = mk('slice', NONE, NONE, NONE)
    for ref, item in (('rows', sl('a', 'b')), ('rows_stride', sl('a', 'b', 'k')), ('block', mk('tuple', (sl('a', 'b'), sl('c', 'd')))),
                      ('block_stride', mk('tuple', (sl('a', 'b', 'k'), sl('c', 'd', 'l')))), ('columns_stride', mk('tuple', (full, sl('c', 'd', 'l'))))):
        case(prog, rep, S, rs, ref, '__getitem__', {0: item}, 'any')
    for d, m in (('horizontal', 'get_horizontal_profile'), ('vertical', 'get_vertical_profile')):
        case(prog, rep, S, rs, d, m, {'average': None, 'average_step': None}, 'measured')
        case(prog, rep, S, rs, d + '_average', m, {'average_step': None}, 'measured')
        case(prog, rep, S, rs, d + '_stride', m, {}, 'measured')
    case(prog, rep, S, rs, 'stepheight_level', 'stepheight_level', {}, 'measured')
    case(prog, rep, S, rs, 'align_x', 'align', {'axis': 'x'}, 'measured')
    case(prog, rep, S, rs, 'align_y', 'align', {'axis': 'y'}, 'measured')
    case(prog, rep, S, rs, 'align', 'align', {}, 'measured')
    case(prog, rep, S, rs, 'oblique', 'get_oblique_profile', {}, 'measured')
    for ci in (S, Pr):
        for d in (1, 2, 3):
            trend(prog, rep, ci, 'detrend_polynomial', d)
        trend(prog, rep, ci, 'level', None)


def arguments(r, ci, e, fi, fixed, h):
    """Positional and keyword arguments of the operation and those of the reference (by the reference's parameter names)."""
    kw, rk, args = {}, {}, []
    pos = fi.node.args.args
    if 0 in fixed:
        v = fixed[0]
        if v == 'surface':
            v = r.obj(ci, 'other')
        elif v == 'number':
            v = P('p')
            h.numbers = (v,)
            h.nd.setdefault('params', {})['p'] = ()
        args.append(v)
        rk['p'] = v
    for a in pos[2:]:
        n = a.arg
        if n in rk:
            continue
        rk[n] = P(n)
        h.nd.setdefault('params', {})[n] = ()
    return args, rk


def case(prog, rep, ci, refs, ref, meth, fixed, scenario):
    c_, e = ci.lookup(meth)
    site = f'{ci.name}.{meth} ({ref})'
    if e is None:
        rep.ob('heights', site)
        rep.violate('heights', site, ci.module.rel, ci.qual, meth, 'a documented operation is missing')
        return
    while e.get('kind') == 'assign' and isinstance(e['expr'], ast.Name):
        c_, e = ci.lookup(e['expr'].id)
    if e.get('fi') is None:
        rep.ob('heights', site, 'undecided')
        return
    fi = refs.fi(ref)
    h = Case()
    h.scenario = scenario
    r = Run(prog, h)
    o = r.obj(ci)
    args, rk = arguments(r, ci, e, fi, fixed, h)
    names, kwo, va, kwn, dfl = sig(e['fi'])
    kw = {}
    own = names[1:]
    for n, v in rk.items():
        if n == 'p' or 0 in fixed:
            continue
        if n == 'box':
            target = own[0]
            k = 4 if ci.name == 'Surface' else 2
            v = mk('tuple', tuple(P(f'box{i}') for i in range(k)))
            for i in range(k):
                h.nd['params'][f'box{i}'] = ()
            rk[n] = v
            kw[target] = v
        elif n == 'threshold':
            v = mk('tuple', (P('upper'), P('lower'))) if fixed.get('threshold') == 2 else P('threshold')
            if fixed.get('threshold') == 'number':
                h.numbers = (v,)
            rk[n] = kw[n] = v
        elif n in own or n in kwo:
            kw[n] = v
        else:
            rep.ob('heights', site)
            rep.violate('heights', site, e['fi'].module.rel, e['fi'].qual, n, 'a documented argument is missing')
            return
    for n, v in fixed.items():
        if isinstance(n, str) and n != 'threshold' and v is not None and n in own + kwo:
            kw[n] = const(v)
    variants = [(kw, rk, '')]
    # the documented defaults
    opt = [a.arg for a in fi.node.args.args[len(fi.node.args.args) - len(fi.node.args.defaults):]]
    if opt:
        variants.append(({k: v for k, v in kw.items() if k not in opt}, {k: v for k, v in rk.items() if k not in opt}, ', default'))
    for kw, rk, tag in variants:
        one(prog, rep, ci, e['fi'], fi, meth, args, kw, rk, site + tag, scenario, h)


def one(prog, rep, ci, mfi, fi, meth, args, kw, rk, site, scenario, h0):
    h = Case()
    h.scenario, h.numbers = scenario, h0.numbers
    r = Run(prog, h)
    o = r.obj(ci)
    args = [r.obj(ci, 'other') if a.op == 'obj' else a for a in args]
    rk = {k: (args[0] if v.op == 'obj' else v) for k, v in rk.items()}
    h.nd.setdefault('params', {}).update(h0.nd.get('params', {}))
    z = r.it.getattr_(o, 'data', r.st, None, TopCtx(ci))
    v = r.method(o, meth, args, kw)
    rep.used(r.it)
    if r.err is not None or v is None or not r.returns:
        rep.ob('heights', site, 'undecided')
        if r.err is None:
            ex = r.raised[0] if r.raised else None
            rep.violate('heights', site, loc(ex[3], ex[2]) if ex and ex[2] is not None else ci.module.rel, mfi.qual, meth, 'the operation never succeeds')
        return
    if isinstance(fi.node.args.args[2].arg if len(fi.node.args.args) > 2 else None, str):
        first = fi.node.args.args[2:]
        # slices: the reference has one parameter per bound
        for a in first:
            rk.setdefault(a.arg, P(a.arg)) if a.arg not in [x.arg for x in fi.node.args.args[len(fi.node.args.args) - len(fi.node.args.defaults):]] else None
    if 'p' in rk and 'p' not in [a.arg for a in fi.node.args.args]:
        del rk['p']
    w = r.func(fi, [o, z], rk)
    if r.err is not None or w is None or r.st.dead:
        rep.ob('heights', site, 'undecided')
        return
    where = (f'{mfi.module.rel}:{mfi.node.lineno}', mfi.qual)
    judge(rep, site, where, prog, r, h, v, w, scenario)


def parts_of(t, r):
    if t.op in ('tuple', 'list'):
        return list(t.a[0])
    if t.op == 'obj':
        hh = r.it.h(r.st, t)
        if hh is not None and hh.cls == 'list' and not hh.open:
            return list(hh.fields['items'])
    return None


def judge(rep, site, where, prog, r, h, v, w, scenario):
    want = parts_of(w, r)
    if want and parts_of(want[0], r) is not None:
        for a in alts(v):
            got = parts_of(a, r)
            if got is None or len(got) != len(want):
                rep.ob('heights', site, 'undecided')
                continue
            for i, (g, x) in enumerate(zip(got, want)):
                judge(rep, f'{site}[{i}]', where, prog, r, h, g, x, scenario)
        return
    cls = prog.find_class('Surface' if len(want) == 3 else 'Profile')
    rep.ob('heights', site)
    rep.ob('steps', site)
    c = Fine(r.it, r.st, h.nd, nonan=scenario == 'measured', alg=Alg())
    for a in alts(v):
        if a.op != 'obj' or r.it.h(r.st, a) is None or r.it.h(r.st, a).cls is not cls:
            if a.op == 'obj' and isinstance(getattr(r.it.h(r.st, a), 'cls', None), type(cls)):
                rep.violate('heights', site, *where, show(a), f'the result is not a {cls.name.lower()}')
            else:
                rep.ob('heights', site, 'undecided')
            continue
        got = r.it.getattr_(a, 'data', r.st, None, TopCtx(cls))
        same(rep, 'heights', site, where, c, got, want[0], 'heights')
        for n, x in zip(geometry(cls), want[1:]):
            same(rep, 'steps', site, where, c, r.it.getattr_(a, n, r.st, None, TopCtx(cls)), x, n)


def same(rep, rule, site, where, c, got, want, what):
    W = [c.rat(x) for x in alts(want)]
    for a in alts(got):
        g = c.rat(a)
        if any(c.alg.eq(g, x) for x in W):
            continue
        vw = set()
        for x in W:
            vw |= c.vocabulary(x)
        vg = c.vocabulary(g)
        if understood(vg - vw) and not vg & {'unk', 'rec'}:
            rep.violate(rule, site, *where, f'{what}: {describe(c.alg, g)[:200]}', f'not the documented {describe(c.alg, W[0])[:200]}')
        else:
            rep.ob(rule, site, 'undecided')
            rep.notes.append(f'{site}: {what} not comparable because of {sorted(k for k in vg - vw if not (k in KNOWN or k.startswith("cmp")))}')


def trend(prog, rep, ci, meth, degree):
    site = f'{ci.name}.{meth}' + (f' of degree {degree}' if degree else '')
    c_, e = ci.lookup(meth)
    if e is None or e.get('fi') is None:
        rep.ob('trend', site, 'undecided')
        return
    mfi = e['fi']
    where = (f'{mfi.module.rel}:{mfi.node.lineno}', mfi.qual)
    h = Case()
    h.scenario = 'measured'
    r = Run(prog, h)
    o = r.obj(ci)
    z = r.it.getattr_(o, 'data', r.st, None, TopCtx(ci))
    kw = {'return_trend': TRUE}
    if degree:
        kw['degree'] = const(degree)
    v = r.method(o, meth, [], kw)
    v2 = r.method(o, meth, [], {k: x for k, x in kw.items() if k != 'return_trend'})
    rep.used(r.it)
    got = parts_of(v, r) if v is not None else None
    if r.err is not None or got is None or len(got) != 2 or any(x.op != 'obj' for x in got):
        rep.ob('trend', site, 'undecided')
        return
    rep.ob('trend', site)
    get = lambda x, n: r.it.getattr_(x, n, r.st, None, TopCtx(ci))
    c = Fine(r.it, r.st, h.nd, nonan=True, alg=Alg())
    A = c.alg
    res, tr = get(got[0], 'data'), get(got[1], 'data')
    rt, tt = c.rat(res), c.rat(tr)
    if not A.eq(A.add(rt, tt), c.rat(z)):
        rep.violate('trend', site, *where, f'{describe(A, rt)[:120]} + {describe(A, tt)[:120]}', 'result and trend do not add up to the original heights')
    if A.eq(tt, A.c(0)):
        rep.violate('trend', site, *where, 'trend', 'no trend is removed')
    if v2 is not None and v2.op == 'obj':
        if not A.eq(c.rat(get(v2, 'data')), rt):
            rep.violate('trend', site, *where, 'return_trend=False', 'the heights differ when the trend is not returned')
    else:
        rep.ob('trend', site, 'undecided')
    for x in got:
        for n in [y for y in geometry(ci) if y.startswith('step')]:
            if not A.eq(c.rat(get(x, n)), c.rat(get(o, n))):
                rep.violate('trend', site, *where, n, 'the point spacing changes')
    fit(prog, rep, ci, meth, degree or 1, kw, site, where)


def calls(t, names):
    for x in walk(t):
        if x.op == 'call' and x.a[0].op == 'ext' and x.a[0].a[0] in names:
            yield x


def columns(t, r):
    """Columns of a matrix put together by column_stack, as terms; 1 for a column of ones."""
    if t.op == 'call' and t.a[0].op == 'ext' and t.a[0].a[0] in ('numpy.column_stack', 'numpy.hstack') and len(t.a[1]) == 1:
        p = parts_of(t.a[1][0], r)
        if p is None:
            return None
        out = []
        for x in p:
            c = columns(x, r)
            if c is None:
                return None
            out += c
        return out
    if t.op == 'call' and t.a[0].op == 'ext' and t.a[0].a[0] in ('numpy.ones', 'numpy.ones_like'):
        return [1]
    if t.op in ('bin', 'sub', 'mcall', 'field'):
        return [t]
    return None


def fit(prog, rep, ci, meth, degree, kw, site, where):
    for scenario in ('measured', 'any'):
        h = Case()
        h.scenario = scenario
        r = Run(prog, h)
        o = r.obj(ci)
        z = r.it.getattr_(o, 'data', r.st, None, TopCtx(ci))
        v = r.method(o, meth, [], kw)
        got = parts_of(v, r) if v is not None else None
        site2 = f'{site} ({"some" if scenario == "any" else "nothing"} missing)'
        rep.ob('fit', site2)
        if r.err is not None or got is None or len(got) != 2:
            rep.ob('fit', site2, 'undecided')
            continue
        tr = r.it.getattr_(got[1], 'data', r.st, None, TopCtx(ci))
        c = Fine(r.it, r.st, h.nd, nonan=scenario == 'measured', alg=Alg())
        A = c.alg
        ls = list(calls(tr, ('numpy.linalg.lstsq', 'scipy.linalg.lstsq')))
        pf = list(calls(tr, ('numpy.polynomial.polynomial.polyfit', 'numpy.polyfit')))
        if len(ls) == 1 and not pf and len(ls[0].a[1]) >= 2:
            cols = columns(ls[0].a[1][0], r)
            b = ls[0].a[1][1]
            if cols is None:
                rep.ob('fit', site2, 'undecided')
                continue
            rats = [A.c(1) if x == 1 else c.rat(x) for x in cols]
            if scenario == 'measured':
                terms(rep, site2, where, c, rats, degree)
                full = [x for x in (columns(y.a[1][0], r) for y in calls(tr, ('numpy.dot', 'numpy.matmul')) if y.a[1]) if x] + \
                    [x for x in (columns(y.a[1], r) for y in walk(tr) if y.op == 'bin' and y.a[0] == '@') if x] + [x for x in (columns(y.a[0], r) for y in walk(tr) if y.op == 'mcall' and y.a[1] == 'dot') if x]
                if len(full) == 1:
                    fr = [A.c(1) if x == 1 else c.rat(x) for x in full[0]]
                    if len(fr) != len(rats) or not all(A.eq(x, y) for x, y in zip(fr, rats)):
                        voc = set()
                        for x in fr + rats:
                            voc |= c.vocabulary(x)
                        if not voc & {'unk', 'rec', 'loopvar'}:
                            rep.violate('fit', site2, *where, show(ls[0])[:160], 'the trend is evaluated with other terms than it was fitted with')
                else:
                    rep.ob('fit', site2, 'undecided')
            else:
                masks(rep, site2, where, c, b, [x for x, y in zip(rats, cols) if y != 1])
        elif len(pf) == 1 and not ls and len(pf[0].a[1]) >= 3:
            x, b, d = pf[0].a[1][:3]
            if scenario == 'measured':
                if c.rat(d).const() is not None and c.rat(d).const() != degree:
                    rep.violate('fit', site2, *where, show(pf[0])[:160], 'the polynomial does not have the requested degree')
                ev = list(calls(tr, ('numpy.polynomial.polynomial.polyval', 'numpy.polyval')))
                if len(ev) == 1 and len(ev[0].a[1]) == 2:
                    at, co = ev[0].a[1] if 'polynomial' in ev[0].a[0].a[0] else ev[0].a[1][::-1]
                    if co is pf[0] and not A.eq(c.rat(at), c.rat(x)):
                        rep.violate('fit', site2, *where, show(ev[0])[:160], 'the trend is evaluated at other positions than it was fitted at')
                    if ('polynomial' in ev[0].a[0].a[0]) != ('polynomial' in pf[0].a[0].a[0]):
                        rep.violate('fit', site2, *where, show(ev[0])[:160], 'the order of the coefficients is reversed')
            else:
                masks(rep, site2, where, c, b, [c.rat(x)])
        else:
            rep.ob('fit', site2, 'undecided')


def terms(rep, site, where, c, rats, degree):
    """The columns are all products x^i y^j with i + j <= degree of two of them."""
    A = c.alg
    n = (degree + 1) * (degree + 2) // 2
    voc = set()
    for x in rats:
        voc |= c.vocabulary(x)
    if voc & {'unk', 'rec', 'loopvar'}:
        rep.ob('fit', site, 'undecided')
        return
    ids = sorted(A.rid(x) for x in rats)
    if len(ids) == n:
        for x in rats:
            for y in rats:
                if x is y or x.const() is not None or y.const() is not None:
                    continue
                if sorted(A.rid(A.mul(A.ipow(x, i), A.ipow(y, j))) for i in range(degree + 1) for j in range(degree + 1 - i)) == ids:
                    return
    rep.violate('fit', site, *where, ', '.join(describe(A, x)[:40] for x in rats), f'the fit does not have exactly the {n} terms of a polynomial of degree {degree} in two variables')


def masks(rep, site, where, c, b, cols):
    A = c.alg
    tags = []
    for x in [c.rat(b)] + cols:
        lv = [k for k in c.leaves(x)]
        tags.append({A.atoms[k][1][1] if A.atoms[k][0] == 'sel' else None for k in lv})
    if any(len(t) != 1 for t in tags):
        rep.ob('fit', site, 'undecided')
        return
    if tags[0] == {None}:
        if c.vocabulary(c.rat(b)) - {'sub', 'where'} == c.vocabulary(c.rat(b)):
            rep.violate('fit', site, *where, describe(A, c.rat(b))[:160], 'missing points take part in the fit')
        else:
            rep.ob('fit', site, 'undecided')
        return
    if any(t != tags[0] for t in tags):
        rep.violate('fit', site, *where, 'masks differ', 'positions and heights of the fitted points do not belong together')
