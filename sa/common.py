"""Shared plumbing of the checks: obligations, reports, entry points."""
import ast
import json
import os
import time
import traceback
from .terms import *
from .terms import UNBOUND, T
from .program import Program, ClassInfo, FuncInfo, AnalysisError
from .interp import Interp, State, strip_view

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


class Report:
    def __init__(self, pid, prog, tier='quick'):
        self.pid, self.prog, self.tier = pid, prog, tier
        self.violations = []
        self.obs = {}            # rule -> {site: status}
        self.rules = {}          # rule -> description
        self.mins = {}
        self.funcs = {}          # qual -> number of interpretations
        self.notes = []
        self.assumptions = []
        self.errors = []

    def rule(self, rid, text, minimum=0):
        self.rules[rid] = text
        self.mins[rid] = minimum
        self.obs.setdefault(rid, {})

    def ob(self, rule, site, status='ok'):
        """An obligation: status ok | undecided | violated."""
        d = self.obs.setdefault(rule, {})
        rank = {'ok': 0, 'undecided': 1, 'violated': 2}
        if site not in d or rank[status] > rank[d[site]]:
            d[site] = status

    def violate(self, rule, site, where, func, construct, msg):
        self.ob(rule, site, 'violated')
        v = dict(rule=rule, site=site, where=where, function=func, construct=construct, message=msg)
        k = (rule, site, func, construct)
        if all((x['rule'], x['site'], x['function'], x['construct']) != k for x in self.violations):
            self.violations.append(v)

    def used(self, it):
        for q, n in it.visited.items():
            self.funcs[q] = self.funcs.get(q, 0) + n

    def counts(self):
        return {r: {'obligations': len(d), 'ok': sum(1 for s in d.values() if s == 'ok'),
                    'undecided': sum(1 for s in d.values() if s == 'undecided'),
                    'violated': sum(1 for s in d.values() if s == 'violated')} for r, d in self.obs.items()}


class Hooks:
    """Event dispatcher: ev_<kind>(d).  Knows that surfaces are two-dimensional and profiles one-dimensional."""
    nd = None

    def truth(self, t, st):
        return self.ndim_truth(t, st)

    def ndim_truth(self, t, st):
        if t.op == 'cmp' and self.nd and t.a[2].op == 'const' and isinstance(t.a[2].a[0], int):
            x = t.a[1]
            if x.op == 'field' and x.a[1] == 'ndim':
                arr = x.a[0]
            elif x.op == 'call' and x.a[0].op == 'ext' and x.a[0].a[0] in ('numpy.ndim',) and x.a[1]:
                arr = x.a[1][0]
            elif x.op == 'call' and x.a[0].op == 'ext' and x.a[0].a[0] in ('len', 'builtins.len') and x.a[1] and x.a[1][0].op == 'field' and x.a[1][0].a[1] == 'shape':
                arr = x.a[1][0].a[0]
            else:
                return None
            from .algebra import Ctx
            d = Ctx(self.it, st, self.nd).dims(arr)
            if d is not None:
                a, b = len(d), t.a[2].a[0]
                return {'==': a == b, '!=': a != b, '<': a < b, '<=': a <= b, '>': a > b, '>=': a >= b}.get(t.a[0])
        return None

    def on_event(self, d):
        f = getattr(self, 'ev_' + d['kind'], None)
        if f is not None:
            f(d)


def loc(ctx, node):
    m = getattr(ctx, 'module', None)
    return f'{m.rel if m else "?"}:{getattr(node, "lineno", 0)}'


def fname(ctx):
    return getattr(ctx, 'qual', None) or (ctx.fi.qual if getattr(ctx, 'fi', None) else ctx.module.name)


def src(node, n=110):
    try:
        s = ' '.join(ast.unparse(node).split())
    except Exception:
        s = type(node).__name__
    return s if len(s) <= n else s[:n - 1] + '…'


def sig(fi):
    """(positional names without self, kwonly names, vararg, kwarg, defaults by name)"""
    a = fi.node.args
    pos = [x.arg for x in a.posonlyargs + a.args]
    dfl = {}
    for n, d in zip(pos[len(pos) - len(a.defaults):], a.defaults):
        dfl[n] = d
    for x, d in zip(a.kwonlyargs, a.kw_defaults):
        if d is not None:
            dfl[x.arg] = d
    return pos, [x.arg for x in a.kwonlyargs], a.vararg and a.vararg.arg, a.kwarg and a.kwarg.arg, dfl


def is_static(fi):
    return any(isinstance(d, ast.Name) and d.id == 'staticmethod' for d in fi.node.decorator_list)


def is_classmethod(fi):
    return any(isinstance(d, ast.Name) and d.id == 'classmethod' for d in fi.node.decorator_list)


DUNDERS = {'__add__', '__radd__', '__sub__', '__rsub__', '__mul__', '__rmul__', '__truediv__', '__rtruediv__', '__eq__', '__hash__',
           '__getitem__', '__setitem__', '__len__', '__repr__', '__call__', '__iadd__', '__isub__', '__imul__', '__itruediv__',
           '__neg__', '__pow__', '__abs__', '__iter__'}


def public_methods(ci):
    """name -> FuncInfo of instance methods a user can call (public names, operators)."""
    out = {}
    for n, (c, e) in ci.methods().items():
        if n.startswith('_') and n not in DUNDERS:
            continue
        if e['kind'] == 'func' and not is_static(e['fi']) and not is_classmethod(e['fi']):
            out[n] = e['fi']
        elif e['kind'] == 'assign' and isinstance(e['expr'], ast.Name):
            c2, e2 = ci.lookup(e['expr'].id)
            if e2 and e2['kind'] == 'func':
                out[n] = e2['fi']
    return out


def properties(ci):
    return {n: e for n, (c, e) in ci.methods().items() if e['kind'] == 'property' and not n.startswith('_')}


def sym_kwargs(fi, fixed=None, skip=('self',)):
    pos, kwo, va, kw, dfl = sig(fi)
    fixed = fixed or {}
    args = {}
    for n in (pos[1:] if pos and pos[0] in ('self', 'cls') else pos) + kwo:
        args[n] = fixed.get(n, mk('param', n))
    for n, v in fixed.items():
        if kw:
            args.setdefault(n, v)
    return args


class Run:
    """One interpretation of an entry point."""

    def __init__(self, prog, hooks=None):
        hooks = hooks if hooks is not None else Hooks()
        self.it = Interp(prog, hooks)
        hooks.it = self.it
        self.hooks = hooks
        self.st = self.it.start()
        self.val = None
        self.err = None

    def obj(self, ci, name='self'):
        o = self.it.sym_obj(self.st, ci, name)
        if ci.name in ('Surface', 'Profile') and self.prog_storage(ci):
            self.hooks.nd = dict(self.hooks.nd or {})
            self.hooks.nd[self.st.heap[o.a[0]].init.uid] = {self.prog_storage(ci): 2 if ci.name == 'Surface' else 1}
        return o

    def prog_storage(self, ci):
        prog = self.it.prog
        if not hasattr(prog, '_storage'):
            prog._storage = {}
        if ci.qual not in prog._storage:
            prog._storage[ci.qual] = None
            try:
                prog._storage[ci.qual] = storage_field(prog, ci)
            except AnalysisError:
                pass
        return prog._storage[ci.qual]

    def method(self, o, name, args=(), kwargs=None):
        try:
            self.val = self.it.call_method(self.st, o, name, list(args), kwargs or {})
        except (RecursionError, AnalysisError, KeyError, IndexError, TypeError, AttributeError, ValueError) as e:
            if isinstance(e, AnalysisError) or os.environ.get('SA_DEBUG'):
                raise
            self.err = traceback.format_exc(limit=-3)
        return self.val

    def func(self, fi, args=(), kwargs=None):
        try:
            self.val = self.it.run_func(self.st, fi, list(args), kwargs or {})
        except (RecursionError, AnalysisError, KeyError, IndexError, TypeError, AttributeError, ValueError) as e:
            if isinstance(e, AnalysisError) or os.environ.get('SA_DEBUG'):
                raise
            self.err = traceback.format_exc(limit=-3)
        return self.val

    def call(self, f, args=(), kwargs=None):
        from .interp import FrameCtx
        ctx = FrameCtx(None, next(iter(self.it.prog.modules.values())), None)
        try:
            self.val = self.it.call(f, list(args), dict(kwargs or {}), self.st, None, ctx)
        except (RecursionError, AnalysisError, KeyError, IndexError, TypeError, AttributeError, ValueError) as e:
            if isinstance(e, AnalysisError) or os.environ.get('SA_DEBUG'):
                raise
            self.err = traceback.format_exc(limit=-3)
        return self.val

    @property
    def returns(self):
        return not self.st.dead and self.err is None

    @property
    def raised(self):
        return [(self.it.exc_name(e), st, node, ctx) for e, st, node, ctx in self.it.sinks[0]]


def deep(t, it, st, into_conds=True, seen=None):
    """walk() that also follows heap objects (lists, dicts, package objects) and loop variables."""
    seen = set() if seen is None else seen
    stack = [t]
    while stack:
        x = stack.pop()
        if x.uid in seen:
            continue
        seen.add(x.uid)
        yield x
        if x.op == 'phi' and not into_conds:
            stack.extend(x.a[0])
        else:
            stack.extend(children(x))
        if x.op == 'loopvar' and x.a[0] in it.loops:
            stack.append(it.loops[x.a[0]])
        if x.op == 'obj':
            h = st.heap.get(x.a[0])
            if h is not None:
                if h.init is not None:
                    stack.append(h.init)
                for v in h.fields.values():
                    if isinstance(v, T):
                        stack.append(v)
                    elif isinstance(v, tuple):
                        stack.extend(e for e in v if isinstance(e, T))
        if x.op == 'closure':
            c = it.closures.get(x.a[0])
            if c is not None:
                for v in c.env.values():
                    if isinstance(v, T) and v.op != 'closure':
                        stack.append(v)


def derived_topographies(prog):
    """The topography classes: exported classes with a height-array property 'data' and an in-place/copy API."""
    return [prog.find_class('Surface'), prog.find_class('Profile')]


def geometry(ci):
    """Public step/extent fields of a topography class."""
    return ('step_x', 'step_y', 'width_um', 'height_um') if ci.name == 'Surface' else ('step', 'length_um')


def storage_field(prog, ci):
    """Name of the field that holds the height array (found through the public getter)."""
    from .alias import roots
    r = Run(prog)
    o = r.obj(ci)
    v = r.it.getattr_(o, 'data', r.st, None, TopCtx(ci))
    names = {x.a[1] for x in roots(v) if x.op == 'field' and x.a[0].op == 'param'}
    if not names:
        # a getter that returns a copy
        names = {x.a[1] for x in walk(v) if x.op == 'field' and x.a[0].op == 'param' and x.a[0].a[0] == 'self'}
    if len(names) != 1:
        raise AnalysisError(f'storage of {ci.name}.data not identified: {sorted(names)}')
    return names.pop()


class TopCtx:
    """A context for accesses made by the analysis itself (as a user of the class would)."""

    def __init__(self, ci):
        self.module, self.fi, self.cls = ci.module, None, ci
        self.qual = ci.qual
        self.globals = self.nonlocals = set()
        self.returns, self.loopstack = [], []
        self.closure = None
        self.on_yield = None


OPTION_VALUES = {'filter_type': ('lowpass', 'highpass', 'bandpass', 'both')}


def variants(fi, extra=()):
    """Calls to analyse separately: boolean switches and enumerated modes that select different code."""
    pos, kwo, va, kw_, dfl = sig(fi)
    names = pos + kwo
    out = [{}]
    for n in ('inplace', 'return_trend', 'in_units'):
        if n in names and n not in extra:
            out = [dict(k, **{n: v}) for k in out for v in (TRUE, FALSE)]
    for n, vals in OPTION_VALUES.items():
        if n in names:
            out = [dict(k, **{n: const(v)}) for k in out for v in vals]
    return out


def variant_name(k):
    return '(' + ', '.join(f'{n}={v.a[0]!r}' for n, v in k.items()) + ')' if k else ''


class Canon:
    """Heap-independent structural identity of values, so that separate interpretations can be compared (interned)."""

    def __init__(self):
        self.tab = {}

    def intern(self, k):
        return self.tab.setdefault(k, len(self.tab))

    def of(self, t, it, st, strip=None, memo=None, depth=0):
        memo = {} if memo is None else memo
        if t.uid in memo:
            return memo[t.uid]
        memo[t.uid] = -1
        s = strip(t) if strip else t
        if s is not t:
            r = self.of(s, it, st, strip, memo, depth + 1)
            memo[t.uid] = r
            return r
        go = lambda x: self.of(x, it, st, strip, memo, depth + 1)

        def rec(x):
            if isinstance(x, T):
                return go(x)
            if isinstance(x, tuple):
                return tuple(rec(y) for y in x)
            return repr(x)
        if t.op == 'obj':
            h = st.heap.get(t.a[0])
            if h is None:
                k = ('obj', t.a[1])
            elif h.cls in ('list', 'dict'):
                k = (h.cls,) + tuple((repr(f), rec(v)) for f, v in h.fields.items() if isinstance(v, (T, tuple))) + ((go(h.init),) if h.init is not None else ())
            elif h.init is not None:
                k = ('obj', t.a[1], go(h.init))
            else:
                k = ('obj', t.a[1])
        elif t.op == 'phi':
            k = ('phi', tuple(sorted({go(x) for x in alts(t)})))
        elif t.op == 'unk':
            k = ('unk', t.a[1])
        elif t.op == 'closure':
            k = ('closure', getattr(it.closures[t.a[0]].node, 'lineno', 0)) if t.a[0] in it.closures else ('closure',)
        elif t.op == 'loopvar':
            k = ('loopvar', t.a[1])
        else:
            k = (t.op,) + tuple(rec(x) for x in t.a)
        r = self.intern(k)
        memo[t.uid] = r
        return r
