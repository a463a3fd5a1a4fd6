"""Missing points are tolerated, decided by an abstract interpretation of array values over the domain
{clean, missing-where-missing, poisoned, unknown}.  The heights of the receiver carry NaN at the missing points; reductions that do not
skip NaN poison their result, selections of the measured points are clean.  Heights and statistics produced by the operations that
accept missing points must not be poisoned, and missing points must stay missing where the operation does not fill them."""
from ..common import *
from ..alias import kw, roots
from .c05 import quant, whole, callee
from ..algebra import Ctx, ALG, formula, describe

CLEAN, NANS, POISON, UNKNOWN, SORTED = 'clean', 'missing', 'poisoned', 'unknown', 'sorted with the missing points'
NANRED = {'nanmean', 'nanmin', 'nanmax', 'nanstd', 'nanmedian', 'nansum', 'nanvar', 'nanpercentile', 'nanquantile', 'nanargmin', 'nanargmax', 'nanprod', 'nan_to_num'}
RED = {'mean', 'min', 'max', 'std', 'var', 'sum', 'median', 'average', 'percentile', 'quantile', 'ptp', 'dot', 'matmul', 'trapz', 'trapezoid', 'amin', 'amax', 'prod',
       'lstsq', 'polyfit', 'norm', 'cumsum', 'fft', 'rfft', 'fft2', 'ifft2', 'griddata', 'interp', 'histogram', 'solve', 'gaussian_filter', 'vdot', 'inner', 'convolve', 'tensordot'}
ELEM = {'abs', 'absolute', 'sqrt', 'square', 'negative', 'fabs', 'where', 'copy', 'array', 'asarray', 'ravel', 'reshape', 'flatten', 'flipud', 'fliplr', 'view', 'astype', 'transpose',
        'subtract', 'add', 'multiply', 'divide', 'true_divide', 'ascontiguousarray', 'squeeze', 'power', 'exp', 'log', 'asanyarray', 'sort', 'column_stack', 'clip', 'round', 'diff', 'broadcast_to', 'concatenate', 'stack', 'rot90', 'positive', 'float_power', 'tile', 'repeat'}
SHAPE = {'shape', 'size', 'ndim', 'dtype', 'nbytes'}
FULLY_CLEAN = {'isnan', 'isfinite', 'zeros_like', 'ones_like', 'empty_like', 'len', 'shape', 'size', 'ndim', 'argsort', 'logical_not', 'full_like', 'isinf', 'signbit', 'arange', 'indices', 'meshgrid'}


class Eval:
    def __init__(self, it, owns, st=None):
        self.it, self.owns, self.memo, self.why, self.st = it, owns, {}, {}, st

    def measured(self, i, depth=0):
        """Index that selects only measured points."""
        if depth > 8:
            return False
        q = quant(i, self.owns)
        if q is not None and q[0] is False and q[1] == '':
            return True
        if i.op == 'bin' and i.a[0] == '&':
            return self.measured(i.a[1], depth + 1) or self.measured(i.a[2], depth + 1)
        n, x = callee(i)
        if n == 'logical_and' and i.op == 'call':
            return any(self.measured(y, depth + 1) for y in i.a[1])
        if n in ('nonzero', 'flatnonzero', 'ravel', 'flatten', 'copy', 'where') and x is not None and (i.op != 'call' or len(i.a[1]) == 1):
            return self.measured(x, depth + 1)
        if i.op == 'sub':
            return self.measured(i.a[0], depth + 1)
        if i.op == 'cmp' and i.a[0] in ('<', '>', '<=', '>=', '=='):
            # a comparison with NaN is false
            return any(self.of(x) == NANS and whole(x, self.owns) is True for x in i.a[1:])
        if i.op == 'phi':
            return all(self.measured(y, depth + 1) for y in alts(i))
        return False

    def join(self, xs):
        xs = set(xs)
        if SORTED in xs:
            xs.add(UNKNOWN)
        for k in (POISON, UNKNOWN, NANS):
            if k in xs:
                return k
        return CLEAN

    def of(self, t):
        if t.uid in self.memo:
            return self.memo[t.uid]
        self.memo[t.uid] = CLEAN          # optimistic on cycles (least fixed point of a monotone domain)
        r = self._of(t)
        self.memo[t.uid] = r
        return r

    def poison(self, t):
        self.why.setdefault('first', t)
        return POISON

    def _of(self, t):
        w = whole(t, self.owns)
        if w is not None:
            if t.op == 'sub' and self.measured(t.a[1]):
                return CLEAN
            if w == 'part':
                # a view, copy or part of a selection of the measured points
                inner = t.a[1][0] if t.op == 'call' else t.a[0]
                if self.of(inner) == CLEAN:
                    return CLEAN
            return NANS
        o = t.op
        if o in ('const', 'param', 'ext', 'func', 'class', 'mod', 'fstr', 'idx', 'rangeidx', 'slice', 'closure', 'enum'):
            if is_const(t) and isinstance(t.a[0], float) and t.a[0] != t.a[0]:
                return NANS
            if o == 'ext' and t.a[0] in ('numpy.nan', 'math.nan', 'numpy.NaN', 'numpy.NAN'):
                return NANS
            return CLEAN
        if o == 'field':
            if t.a[1] in SHAPE:
                return CLEAN
            if t.a[1] in ('T', 'real', 'flat'):
                return self.of(t.a[0])
            return CLEAN if t.a[0].op == 'param' else self.of(t.a[0])
        if o == 'cmp':
            return POISON if POISON in [self.of(x) for x in t.a[1:]] else CLEAN
        if o == 'ro':
            return self.of(t.a[0])
        if o == 'sub':
            b = self.of(t.a[0])
            if b == SORTED:
                i = t.a[1]
                if i.op == 'slice':
                    return SORTED if is_const(i.a[0], None) and is_const(i.a[1], None) else UNKNOWN
                return self.poison(t) if i.op not in ('tuple', 'cmp', 'bin') else UNKNOWN
            if b == NANS:
                if self.measured(t.a[1]):
                    return CLEAN
                return NANS if t.a[1].op in ('slice', 'tuple') else UNKNOWN
            return b
        if o == 'store':
            b, v = self.of(t.a[0]), self.of(t.a[2])
            if v in (POISON, UNKNOWN):
                return v
            if self.of(t.a[1]) == POISON:
                return POISON
            i = quant(t.a[1], self.owns)
            if i is not None and i[0] is True and i[1] == '' and b == NANS:
                return v if v == CLEAN else NANS
            return self.join([b, v])
        if o in ('bin', 'un', 'bool', 'tuple', 'list'):
            if o == 'bin':
                return self.join(self.of(x) for x in t.a[1:])
            if o == 'un':
                return self.of(t.a[1])
            return self.join(self.of(x) for x in (t.a[1] if o == 'bool' else t.a[0]))
        if o == 'phi':
            return self.join(self.of(x) for x in alts(t))
        if o == 'loopvar':
            return self.of(self.it.loops[t.a[0]]) if t.a[0] in self.it.loops else UNKNOWN
        if o in ('call', 'mcall'):
            n, x = callee(t)
            if n is None and t.op == 'call' and t.a[0].op == 'ext':
                n = t.a[0].a[0].split('.')[-1]
            args = (list(t.a[1]) if o == 'call' else [t.a[0]] + list(t.a[2])) + [v for k, v in (t.a[2] if o == 'call' else t.a[3]) if k not in ('dtype', 'axis', '#')]
            if n in FULLY_CLEAN:
                return CLEAN
            st = [self.of(a) for a in args]
            if SORTED in st and n in NANRED:
                return CLEAN
            if POISON in st or UNKNOWN in st:
                return self.join(st)
            wh = kw(t, 'where')
            if n in NANRED:
                return CLEAN
            if n in RED and wh is not None and self.measured(wh):
                return CLEAN
            if NANS not in st:
                return CLEAN
            if n in RED:
                return self.poison(t)
            if n == 'where' and o == 'call' and len(t.a[1]) == 3:
                c, a, b = t.a[1]
                q = quant(c, self.owns)
                if q is not None and q[1] == '':
                    at_missing, else_ = (a, b) if q[0] else (b, a)
                    e = self.of(else_)
                    return e if e in (POISON, UNKNOWN) else self.of(at_missing)
                return self.join(st)
            if n == 'sort':
                return SORTED
            if SORTED in st:
                return SORTED if n in ('ravel', 'copy', 'flip', 'flipud', 'asarray', 'array', 'flatten') else UNKNOWN
            if n in ELEM:
                return self.join(st)
            return UNKNOWN
        if o == 'nt':
            return self.join(self.of(x) for _, x in t.a[1])
        if o == 'obj' and self.st is not None:
            h = self.st.heap.get(t.a[0])
            if h is not None and h.cls in ('list', 'dict'):
                vs = [y for f, v in h.fields.items() for y in (v if isinstance(v, tuple) else (v,)) if isinstance(y, T)]
                return self.join(self.of(x) for x in vs) if not h.open or vs else UNKNOWN
        if o in ('obj', 'unk', 'comp', 'elem', 'star', 'pick'):
            return UNKNOWN if o != 'elem' else self.of(t.a[0])
        return UNKNOWN


KEEP = {'center', 'zero', 'invert', 'remove_outliers', 'threshold', 'level', 'detrend_polynomial'}
STATS = ('min', 'max', 'mean', 'median', 'std')
FORMULAS = {'center': 'z - nanmean(z)', 'zero': 'z - nanmin(z)', 'invert': 'nanmax(z) + nanmin(z) - z',
            'min': 'nanmin(z)', 'max': 'nanmax(z)', 'mean': 'nanmean(z)', 'median': 'nanmedian(z)', 'std': 'nanstd(z)'}


class H(Hooks):
    def truth(self, t, st):
        from .c05 import is_nan_test
        r = is_nan_test(t, self.owns)
        return r if r is not None else self.ndim_truth(t, st)


def run(prog, rep):
    rep.rule('heights', 'an operation that accepts missing points computes its heights from the measured points only', 24)
    rep.rule('stay-missing', 'points that were missing are missing in the result', 20)
    rep.rule('statistics', 'the basic statistics ignore missing points', 10)
    rep.rule('fill', 'filling interpolates from the measured points only', 2)
    rep.rule('form', 'centering, zeroing, mirroring and the basic statistics compute exactly what they are named after', 8)
    rep.rule('reference', 'an operation that follows its definition for complete heights follows it for the measured heights as well', 14)
    classes = derived_topographies(prog)
    storage = {ci.qual: storage_field(prog, ci) for ci in classes}
    for ci in classes:
        for n in sorted(KEEP) + list(STATS) + ['fill_nonmeasured']:
            c_, e = ci.lookup(n)
            if e is None or e.get('fi') is None:
                continue
            fi = e['fi']
            for k in variants(fi):
                if 'method' in sig(fi)[0] and n == 'remove_outliers':
                    ks = [dict(k, method=const('mean')), dict(k, method=const('median'))]
                else:
                    ks = [k]
                for k2 in ks:
                    one(prog, rep, ci, n, fi, k2, storage)
    against_reference(prog, rep)


class Aside:
    """Collects what a check of another property reports."""

    def __init__(self, rep):
        self.rep, self.obs, self.found, self.notes, self.used = rep, {}, [], [], rep.used

    def ob(self, rule, site, status='ok'):
        self.obs[site] = 'undecided' if status == 'undecided' or self.obs.get(site) == 'undecided' else status

    def violate(self, rule, site, *what):
        self.found.append((site, what))


def against_reference(prog, rep):
    """Operations whose heights follow from statistics of the heights: equal to their definition without missing points, and also with."""
    from . import c31
    for ci, text in ((prog.find_class('Surface'), c31.SURFACE), (prog.find_class('Profile'), c31.PROFILE)):
        refs = c31.Refs(prog, text, 'missing' + ci.name)
        for ref, meth, fixed, scenario in c31.BOTH:
            if scenario != 'any' or meth in ('crop', 'zoom'):
                continue
            full, some = Aside(rep), Aside(rep)
            c31.case(prog, full, ci, refs, ref, meth, fixed, 'measured')
            c31.case(prog, some, ci, refs, ref, meth, fixed, 'any')
            bad = {s for s, w in full.found}
            for site, status in some.obs.items():
                rep.ob('reference', site, 'undecided' if site in bad else status)
            for site, what in some.found:
                if site not in bad:
                    rep.violate('reference', site, *what[:-1], 'with missing points ' + what[-1])


def one(prog, rep, ci, n, fi, k, storage):
    h = H()
    r = Run(prog, h)
    o = r.obj(ci)
    own = mk('field', r.st.heap[o.a[0]].init, storage[ci.qual])
    h.owns = {own}
    args = sym_kwargs(fi, k)
    r.method(o, n, [], args)
    rep.used(r.it)
    site = f'{ci.name}.{n}{variant_name(k)}'
    where = (f'{fi.module.rel}:{fi.node.lineno}', fi.qual)
    rule = 'statistics' if n in STATS else 'fill' if n == 'fill_nonmeasured' else 'heights'
    if r.err is not None or r.val is None:
        rep.ob(rule, site, 'undecided')
        return
    if not r.returns:
        rep.violate(rule, site, *where, n, 'topographies with missing points are always rejected')
        return
    ev = Eval(r.it, {own}, r.st)
    vals = []
    if n in STATS:
        vals = [('result', r.val)]
    else:
        seen = set()
        for v in alts(r.val):
            items = v.a[0] if v.op == 'tuple' else (v,)
            for i, y in enumerate(items):
                for x in alts(y):
                    hh = r.st.heap.get(x.a[0]) if x.op == 'obj' else None
                    if hh is not None and isinstance(hh.cls, ClassInfo) and x.uid not in seen:
                        seen.add(x.uid)
                        d = hh.fields.get(storage.get(hh.cls.qual))
                        if d is not None:
                            vals.append(('trend' if i else 'result', d))
    rep.ob(rule, site, 'ok' if vals else 'undecided')
    for what, d in vals:
        c = ev.of(d)
        if c == POISON:
            w = ev.why.get('first')
            rep.violate(rule, site, f'{w.mod.rel}:{w.node.lineno}' if w is not None and w.mod is not None and w.node is not None else where[0], where[1], show(w, 4) if w is not None else n,
                        'a single missing point turns the whole result into missing points: this reduction does not skip them' if n not in STATS else 'the statistic is undefined as soon as one point is missing')
        elif c == UNKNOWN:
            rep.ob(rule, site, 'undecided')
        if n in KEEP and what == 'result':
            if c == CLEAN:
                rep.violate('stay-missing', site, *where, show(d, 4), 'missing points get a height although the operation does not measure them')
            else:
                rep.ob('stay-missing', site, 'ok' if c == NANS else 'undecided')
        if n in FORMULAS and what == 'result':
            ctx = Ctx(r.it, r.st, h.nd)
            try:
                got = ctx.rat(d)
                want = formula(FORMULAS[n], {'z': ctx.rat(own)}) if False else None
            except Exception:
                got = None
            site2 = f'{ci.name}.{n}'
            want = reference(ctx, own, FORMULAS[n])
            if got is None or want is None:
                rep.ob('form', site2, 'undecided')
            elif ALG.eq(got, want):
                rep.ob('form', site2)
            elif understood(d, own):
                rep.violate('form', site2, *where, show(d, 5), f'computes {describe(ALG, got)[:160]}, not {FORMULAS[n]}')
            else:
                rep.ob('form', site2, 'undecided')


NP1 = {'nanmean', 'nanmin', 'nanmax', 'nanmedian', 'nanstd'}


def reference(ctx, own, text):
    """The reference term, normalised the same way as the code."""
    def tr(e):
        if isinstance(e, ast.Name):
            return own
        if isinstance(e, ast.BinOp):
            return mk('bin', {ast.Add: '+', ast.Sub: '-', ast.Mult: '*', ast.Div: '/'}[type(e.op)], tr(e.left), tr(e.right))
        if isinstance(e, ast.Call):
            return mk('call', mk('ext', 'numpy.' + e.func.id), tuple(tr(a) for a in e.args), ())
        raise ValueError
    try:
        return ctx.rat(tr(ast.parse(text, mode='eval').body))
    except Exception:
        return None


def understood(d, own):
    """The term uses nothing but arithmetic and the basic statistics of the own heights."""
    for x in walk(d):
        if x is own:
            continue
        if x.op in ('const', 'bin', 'un', 'ro', 'ext', 'param') or x.op == 'field' and x.a[0].op == 'param':
            continue
        if x.op == 'call' and x.a[0].op == 'ext' and x.a[0].a[0].split('.')[-1] in NP1 | {'mean', 'min', 'max', 'median', 'std', 'abs', 'negative'} and not x.a[2] and len(x.a[1]) == 1:
            continue
        if x.op == 'mcall' and x.a[1] in ('copy', 'view', 'min', 'max', 'mean', 'std') and not x.a[2]:
            continue
        return False
    return True
