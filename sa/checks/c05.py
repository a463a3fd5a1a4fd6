"""Missing-point guard, decided by path-sensitive abstract interpretation under an assumption.  Every public quantity of a
topography is interpreted in the world where the topography has non-measured points (every 'is any height NaN' test of the receiver's
heights is true); an operation that is documented to need complete data must not have a path to a normal return, and must be
rejected with a ValueError before anything is computed or stored."""
from ..common import *
from ..alias import roots
from .c02 import Eff, changed


WHOLE_METHODS = {'ravel', 'flatten', 'copy', 'view', 'reshape', 'astype', 'transpose', 'squeeze'}
WHOLE_CALLS = {'numpy.' + n for n in ('ravel', 'asarray', 'array', 'copy', 'asanyarray', 'reshape', 'ascontiguousarray', 'transpose', 'flipud', 'fliplr', 'squeeze')}
ANY = ('any', 'max', 'sum', 'count_nonzero', 'amax')
ALL = ('all', 'min', 'amin', 'prod')
NANPROP = ('sum', 'min', 'max', 'mean', 'std', 'var', 'ptp', 'median', 'amin', 'amax', 'prod', 'average')
NANSKIP = ('nansum', 'nanmin', 'nanmax', 'nanmean', 'nanstd', 'nanmedian', 'nanvar')


def whole(x, owns):
    """True: x holds exactly the own heights; 'part': a subset of them; None: something else."""
    while True:
        if x in owns:
            return True
        if x.op == 'ro':
            x = x.a[0]
        elif x.op == 'mcall' and x.a[1] in WHOLE_METHODS:
            x = x.a[0]
        elif x.op == 'field' and x.a[1] in ('T', 'flat'):
            x = x.a[0]
        elif x.op == 'call' and x.a[0].op == 'ext' and x.a[0].a[0] in WHOLE_CALLS and x.a[1]:
            x = x.a[1][0]
        elif x.op == 'sub':
            r = whole(x.a[0], owns)
            full = x.a[1].op == 'slice' and all(is_const(y, None) for y in x.a[1].a)
            return r if full or r is None else 'part'
        else:
            return None


def callee(t):
    """(short name, first argument, has axis) of a reduction written as function or method."""
    if t.op == 'call' and t.a[0].op == 'ext' and t.a[1]:
        n = t.a[0].a[0]
        if n.startswith('numpy.') or '.' not in n or n.startswith('builtins.') or n.startswith('math.') or n.startswith('pandas.'):
            return n.split('.')[-1], t.a[1][0]
    if t.op == 'mcall':
        return t.a[1], t.a[0]
    return None, None


def quant(t, owns, depth=0):
    """What a term says about NaN among the own heights: a tuple (polarity, quantifiers) with polarity True for 'is NaN',
    quantifiers a string over {E, A} (E: some point, A: all points, S: only a subset is looked at); None: not understood."""
    if depth > 12:
        return None
    n, x = callee(t)
    if n in ('isnan', 'isnull', 'isna', 'isfinite'):
        pol = n != 'isfinite'
        m, y = callee(x)
        if m in NANPROP + NANSKIP:
            w = whole(y, owns)
            if w is None:
                return None
            return (pol, ('E' if m in NANPROP else 'A') + ('S' if w == 'part' else ''))
        w = whole(x, owns)
        return None if w is None else (pol, 'S' if w == 'part' else '')
    if t.op == 'cmp' and t.a[0] in ('!=', '==') and t.a[1] is t.a[2]:
        w = whole(t.a[1], owns)
        return None if w is None else (t.a[0] == '!=', 'S' if w == 'part' else '')
    if t.op == 'un' and t.a[0] in ('~', 'invert', 'not') or n in ('logical_not', 'invert', 'bitwise_not'):
        q = quant(t.a[1] if t.op == 'un' else x, owns, depth + 1)
        return None if q is None else (not q[0], q[1].swapcase())
    if n in ('bool', 'ravel', 'flatten', 'copy', 'astype', 'int', 'float', 'item') and x is not None:
        return quant(x, owns, depth + 1)
    if n in ANY + ALL + ('mean', 'average') and x is not None:
        q = quant(x, owns, depth + 1)
        return None if q is None else (q[0], q[1] + ('A' if n in ALL else 'E'))
    if t.op == 'sub':
        q = quant(t.a[0], owns, depth + 1)
        return None if q is None else (q[0], q[1] + 'S')
    if t.op == 'cmp' and t.a[2].op == 'const' and isinstance(t.a[2].a[0], (int, float)) and t.a[0] in ('>', '>=') and t.a[2].a[0] > 0:
        m, y = callee(t.a[1])
        if m in ('sum', 'count_nonzero', 'mean', 'average'):
            q = quant(y, owns, depth + 1)
            if q is not None:
                return (q[0], q[1] + ('E' if m in ('sum', 'count_nonzero') and t.a[0] == '>=' and t.a[2].a[0] <= 1 or t.a[0] == '>' and t.a[2].a[0] < 1 and m in ('sum', 'count_nonzero') else 'ES'))
    if t.op == 'cmp' and t.a[2].op == 'const' and t.a[2].a[0] in (0, False) and not t.a[2].a[0]:
        q = quant(t.a[1], owns, depth + 1)
        if q is None:
            return None
        if t.a[0] in ('>', '!='):
            return q
        if t.a[0] in ('==', '<='):
            return (not q[0], q[1].swapcase())
    return None


def nan_kind(t, owns):
    """True: some own height is NaN; False: none is; 'partial': a test that says less than that; None: not such a test."""
    q = quant(t, owns)
    if q is None:
        return None
    pol, qs = q
    # a lower-case letter was quantified before a negation
    eff = qs.upper()
    if 'S' in eff or not eff:
        return 'partial'
    # polarity of the atom and of the whole
    negs = [c.islower() for c in qs]
    if all(negs):
        # not (Q isX): the atom polarity is the opposite of pol
        atom = not pol
        if set(eff) == {'E'}:
            return False if atom else 'partial'     # not any(nan) / not any(finite)
        if set(eff) == {'A'}:
            return 'partial' if atom else True      # not all(nan) / not all(finite)
        return 'partial'
    if not any(negs):
        if set(eff) == {'E'}:
            return True if pol else 'partial'
        if set(eff) == {'A'}:
            return 'partial' if pol else False
        return 'partial'
    return None


def is_nan_test(t, owns):
    """any(isnan(own heights)) in its usual spellings; returns the polarity or None."""
    k = nan_kind(t, owns)
    return k if k in (True, False) else None


class Missing(Eff):
    def __init__(self, storage):
        Eff.__init__(self, storage)
        self.owns = set()
        self.tests = 0
        self.unclear = False

    def truth(self, t, st):
        r = is_nan_test(t, self.owns)
        if r is not None:
            self.tests += 1
            return r
        return self.ndim_truth(t, st)


    def ev_branch(self, d):
        # a test for NaN among the own heights in a spelling that is not understood
        if d['taken'] is None and not self.unclear:
            if nan_kind(d['cond'], self.owns) == 'partial':
                return
            for x in walk(d['cond']):
                if x.op == 'call' and x.a[0].op == 'ext' and x.a[0].a[0] in ('numpy.isnan', 'numpy.isfinite', 'math.isnan', 'math.isfinite', 'pandas.isnull', 'pandas.isna') and x.a[1] and any(y in self.owns for y in walk(x.a[1][0])):
                    self.unclear = True


# quantities that are defined (or deliberately computed) in the presence of non-measured points
GUARDED_SURFACE = ('Sa Sq Sp Sv Sz Ssk Sku height_parameters surface_area Sdr Sdq Sal Str Sk Spk Svk Spkx Svkx Sak1 Sak2 Smr1 Smr2 Smrk1 Smrk2 Smr Smc Sxp Sdc '
                   'Vmp Vmc Vvv Vvc Vm Vv Std Ssw period period_x_y orientation homogeneity depth aspect_ratio stepheight cavity_volume '
                   'get_abbott_firestone_curve get_autocorrelation_function get_fourier_transform filter rotate align '
                   'plot_autocorrelation plot_fourier_transform plot_angular_power_spectrum plot_abbott_curve plot_functional_parameter_study').split()
GUARDED_PROFILE = ('Ra Rq Rp Rv Rz Rt Rsk Rku Rdq Rk Rpk Rvk Rpkx Rvkx Rak1 Rak2 Rmr1 Rmr2 Rmrk1 Rmrk2 Rmr Rmc Rxp Rdc '
                   'Vmp Vmc Vvv Vvc Vm Vv period get_abbott_firestone_curve filter plot_abbott_curve plot_functional_parameter_study').split()


def run(prog, rep):
    rep.rule('guarded', 'a quantity that needs complete heights has no path to a normal return when points are missing', 60)
    rep.rule('untouched', 'rejecting a topography with missing points leaves it unchanged', 60)
    rep.rule('error-kind', 'the rejection is a ValueError', 60)
    rep.rule('flag', 'the missing-point flag is the test for any NaN height', 2)
    classes = derived_topographies(prog)
    storage = {ci.qual: storage_field(prog, ci) for ci in classes}
    for ci, names in zip(classes, (GUARDED_SURFACE, GUARDED_PROFILE)):
        # the public flag
        h = Missing(storage)
        r = Run(prog, h)
        o = r.obj(ci)
        own = mk('field', r.st.heap[o.a[0]].init, storage[ci.qual])
        try:
            v = r.it.getattr_(o, 'has_missing_points', r.st, None, TopCtx(ci))
            got = is_nan_test(v, {own})
            e = ci.lookup('has_missing_points')[1]
            fi = e.get('get') or e.get('fi')
            site = f'{ci.name}.has_missing_points'
            if got is True:
                rep.ob('flag', site)
            elif got is False or nan_kind(v, {own}) == 'partial' or v.op == 'const' or not any(x is own for x in walk(v)):
                rep.violate('flag', site, f'{fi.module.rel}:{fi.node.lineno}', fi.qual, src(fi.node.body[-1]), f'the flag is {show(v, 5)}, which is not the test for a NaN among the heights')
            else:
                rep.ob('flag', site, 'undecided')
        except (KeyError, TypeError, AttributeError, ValueError, IndexError):
            rep.ob('flag', f'{ci.name}.has_missing_points', 'undecided')
        plan = []
        for n in names:
            c_, e = ci.lookup(n)
            if e is None or e.get('fi') is None:
                continue
            plan += [(n, e['fi'], k, None) for k in variants(e['fi'])]
        # the same quantities requested by name
        c_, e = ci.lookup('roughness_parameters')
        if e is not None and e.get('fi') is not None:
            av = Run(prog, Missing(storage))
            t = av.it.getattr_(av.obj(ci), 'AVAILABLE_PARAMETERS', av.st, None, TopCtx(ci))
            have = [x.a[0] for x in t.a[0] if x.op == 'const'] if t.op in ('tuple', 'list') else []
            plan += [('roughness_parameters', e['fi'], None, n) for n in names if n in have]
            plan.append(('roughness_parameters', e['fi'], None, ''))
        for n, fi, k, by in plan:
            h = Missing(storage)
            r = Run(prog, h)
            o = r.obj(ci)
            h.owns = {mk('field', r.st.heap[o.a[0]].init, storage[ci.qual])}
            if by is None:
                r.method(o, n, [], sym_kwargs(fi, k))
                site = f'{ci.name}.{n}{variant_name(k)}'
            else:
                r.method(o, n, [mk('tuple', (const(by),))] if by else [], {})
                site = f'{ci.name}.{n}({[by] if by else ""})'
            rep.used(r.it)
            und = 'ok' if r.err is None else 'undecided'
            for rule in ('guarded', 'untouched', 'error-kind'):
                rep.ob(rule, site, und)
            if r.err is not None:
                continue
            if r.returns and h.unclear:
                rep.ob('guarded', site, 'undecided')
            elif r.returns:
                w = (f'{fi.module.rel}:{fi.node.lineno}', fi.qual, n)
                rep.violate('guarded', site, *w, 'with non-measured points there is a path to a normal return: ' + ('no test for missing points on it' if not h.tests else 'the test for missing points does not cover it'))
            for en, st, node, ctx in r.raised:
                ename = en[0] if isinstance(en, tuple) else en
                for f in changed(r, st, o, ci, storage):
                    rep.violate('untouched', site, loc(ctx, node), fname(ctx), src(node), f'{f} of the topography is modified before it is rejected')
                if ename not in (None, 'ValueError') and not r.returns and len(r.raised) == 1:
                    rep.violate('error-kind', site, loc(ctx, node), fname(ctx), src(node), f'missing points are rejected with {ename}')
            for oid, d in h.writes:
                if oid == o.a[0]:
                    rep.violate('untouched', site, loc(d['ctx'], d['node']), fname(d['ctx']), src(d['node']), 'heights are modified before missing points are rejected')
