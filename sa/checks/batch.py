"""Interpretation of the batch interface from its public methods: registration, execution in both modes, and the frame that is built.
Loading a file and the surface methods are replaced by records of what was called, with symbolic results."""
from ..common import *

FILES = ('a.sur', 'b.sur')


class World(Hooks):
    """result: what a surface method returns: 'scalar', ('tuple', n), ('raise', exception class name) or a callable(name)."""

    def __init__(self, prog, result='scalar', files=FILES, additional=NONE):
        self.prog, self.result = prog, result
        self.B, self.S = prog.find_class('Batch'), prog.find_class('Surface')
        self.steps, self.loads, self.frames, self.notified, self.writes, self.customs, self.spawns, self.regwrites = [], [], [], [], [], [], [], []
        self.depth = 0
        self.running = False
        self.pre = set()
        self.results = {}
        key = (tuple(files), additional.uid)
        tab = prog.__dict__.setdefault('_worlds', {})
        if key not in tab:
            r = Run(prog, Hooks())
            r.hooks.implicit_raise, r.hooks.may_raise = self.implicit_raise, self.may_raise
            lst = r.it.new_list(r.st, [const(f) for f in files])
            b = r.call(mk('class', self.B.qual), [lst], {} if additional is NONE else {'additional_data': additional})
            tab[key] = (r, b, r.st)
        base, self.b, st0 = tab[key]
        self.r = Run.__new__(Run)
        self.r.__dict__.update(base.__dict__)
        self.r.st, self.r.hooks, self.r.val = st0.copy(), self, None
        self.r.it.hooks, self.r.it.sinks = self, [[]]
        self.it, self.st = self.r.it, self.r.st
        self.born = set(self.st.heap) | set(self.it.global_heap)

    @property
    def ok(self):
        return self.r.err is None and self.b is not None and self.b.op == 'obj' and not self.st.dead

    def implicit_raise(self, s):
        return False

    def may_raise(self, nm, recv, args, sn):
        return False

    def truth(self, t, st):
        if t.op == 'call' and t.a[0].op == 'ext' and t.a[0].a[0] in ('isinstance', 'hasattr', 'numpy.iterable', 'numpy.ndim', 'pandas.api.types.is_list_like') and t.a[1]:
            x = t.a[1][0]
            if x.op in ('result', 'loaded'):
                return False
            if t.a[0].a[0] == 'isinstance' and x.op == 'call' and x.a[0].op == 'ext' and x.a[0].a[0] == 'pathlib.Path':
                return t.a[1][1].op == 'ext' and t.a[1][1].a[0] in ('pathlib.Path', 'os.PathLike')
        if t.op == 'call' and t.a[0].op == 'ext' and t.a[0].a[0] == 'callable' and t.a[1] and t.a[1][0].op == 'param':
            return True
        if t.op == 'param' and t.a[0] in ('on_complete', 'saveto') or t.op == 'param' and t.a[0].startswith('custom'):
            return True
        if t.op == 'cmp' and t.a[2] is NONE and t.a[1].op == 'param' and t.a[1].a[0] in ('on_complete', 'saveto'):
            return t.a[0] in ('is not', '!=')
        if t.op == 'cmp' and t.a[2] is NONE and (t.a[1].op == 'param' and t.a[1].a[0] == 'excel' or t.a[1].op == 'call' and t.a[1].a[0].op == 'ext' and t.a[1].a[0].a[0].startswith('pandas.')):
            return t.a[0] in ('is not', '!=')
        if t.op == 'cmp' and t.a[0] in ('in', 'not in') and is_const(t.a[1], 'file') and t.a[2].op == 'field' and t.a[2].a[1] == 'columns':
            return t.a[0] == 'in'
        if t.op == 'param' and t.a[0] == 'excel':
            return True
        if t.op == 'cmp' and t.a[2] is NONE and t.a[1].op in ('result', 'loaded', 'custom'):
            return t.a[0] in ('is not', '!=')
        return super().truth(t, st)

    def methods(self):
        """name -> kind of the methods replicated from the surface class, read from a constructed batch object."""
        h = self.st.heap[self.b.a[0]]
        return [k for k, v in h.fields.items() if v.op in ('closure', 'func', 'partial')]

    def call(self, f, args, kwargs, st, node, ctx, it):
        if f.op == 'bound' and f.a[1].op == 'class' and f.a[1].a[0] in (self.S.qual,) and self.named(f) == 'load':
            self.loads.append((args, dict(kwargs), tuple(q for q, n in it.stack)))
            key = mk('loaded', tuple(args), tuple(sorted(kwargs.items())), len(self.loads))
            return it.new_obj(st, self.S, init=key)
        if f.op in ('bound', 'func', 'closure') and self.running:
            if f.op == 'bound':
                recv, rest = f.a[1], list(args)
            else:
                recv, rest = (args[0], list(args[1:])) if args else (None, [])
            if recv is not None and recv.op == 'obj':
                h = it.h(st, recv)
                if h is not None and h.cls is self.S and h.init is not None and h.init.op == 'loaded':
                    return self.step(self.named(f), recv, h, rest, kwargs, st, node, ctx, it)
        if f.op == 'param' and f.a[0].startswith('custom') and self.running:
            key = self.src(st, it, args)
            self.customs.append((f.a[0], key, args, kwargs))
            kind = self.result(f.a[0]) if callable(self.result) else self.result
            if isinstance(kind, tuple) and kind[0] == 'raise':
                return self.do_raise(kind[1], st, node, ctx, it)
            v = mk('custom', f.a[0], key)
            return it.new_dict(st, {f'{f.a[0]}_value': v})
        if f.op == 'param' and f.a[0] == 'on_complete':
            self.notified.append((args, kwargs))
            return NONE
        if f.op == 'ext' and f.a[0].split('.')[-1] in ('DataFrame', 'from_records', 'from_dict') and 'DataFrame' in f.a[0]:
            self.frames.append((args, kwargs, st))
            return None
        return None

    def named(self, f):
        fi = self.it.unwrap_func(f)
        return fi.name if fi is not None else None

    def src(self, st, it, args):
        for a in args:
            h = it.h(st, a)
            if h is not None and h.init is not None and h.init.op == 'loaded':
                return h.init
        return NONE

    def do_raise(self, name, st, node, ctx, it):
        ci = next((c for m in self.prog.modules.values() for c in m.classes.values() if c.name == name), None)
        e = it.instantiate(mk('class', ci.qual), [], {}, st, node, ctx) if ci is not None else mk('call', mk('ext', name), (), ())
        it.do_raise(e, st, node, ctx)
        return unk('dead')

    def step(self, name, recv, h, args, kwargs, st, node, ctx, it):
        self.steps.append(dict(name=name, src=h.init, args=list(args), kwargs=dict(kwargs), where=loc(ctx, node), func=fname(ctx), node=node, snap={k: (it.h(st, a), a) for k, a in enumerate(args)}))
        kind = self.result(name) if callable(self.result) else self.result
        if isinstance(kind, tuple) and kind[0] == 'raise':
            return self.do_raise(kind[1], st, node, ctx, it)
        n = len([s for s in self.steps if s['src'] is h.init])
        v = mk('result', name, h.init, n)
        if isinstance(kind, tuple) and kind[0] == 'tuple':
            v = mk('tuple', tuple(mk('result', name, h.init, n, i) for i in range(kind[1])))
        self.steps[-1]['value'] = v
        return v

    # writes performed while files are processed
    def on_event(self, d):
        if self.running and d['kind'] in ('setattr', 'setattr_other', 'dictset', 'listset', 'append', 'extend', 'setglobal', 'mutate', 'augmutate', 'dictclear'):
            d['stack'] = list(d['stack'])
            self.writes.append(d)
        elif d['kind'] in ('setattr', 'setattr_other', 'dictset', 'listset', 'append', 'extend', 'setglobal', 'mutate', 'augmutate', 'dictclear'):
            self.regwrites.append(d)
        if d['kind'] == 'spawn' and self.running:
            self.spawns.append(d)
        super().on_event(d)

    def do(self, name, *args, **kwargs):
        """Call a batch method; the set of exceptions that left it."""
        n = len(self.it.sinks[0])
        v = self.r.method(self.b, name, list(args), kwargs)
        return v, [(self.it.exc_name(e), node, ctx) for e, s, node, ctx in self.it.sinks[0][n:]]

    def execute(self, **kwargs):
        self.pre = set(self.st.heap) | set(self.it.global_heap)
        self.running = True
        try:
            return self.do('execute', **kwargs)
        finally:
            self.running = False

    def rows(self):
        """The rows handed to the frame: list of (object id, {column: value}) or None."""
        if len(self.frames) != 1:
            return None
        args, kwargs, st = self.frames[0]
        a = args[0] if args else kwargs.get('data')
        el = self.it.elements(st, a) if a is not None else None
        if el is None:
            return None
        out = []
        for x in el:
            h = self.it.h(st, x)
            if h is None or h.cls != 'dict':
                return None
            out.append((x, dict(h.fields), h))
        return out


def surface_batch(prog):
    """name -> (kind, labels, fixed, FuncInfo): methods of the surface class declared for batch use."""
    S = prog.find_class('Surface')
    r = Run(prog)
    out = {}
    ctx = TopCtx(S)
    for n, (c, e) in S.methods().items():
        if e['kind'] != 'func':
            continue
        f = r.it.getattr_(mk('class', S.qual), n, r.st, None, ctx)
        g = f.a[0] if f.op == 'bound' else f
        if (g.uid, '_batch_type') not in r.it.func_attrs:
            continue
        kind = r.it.func_attrs[(g.uid, '_batch_type')]
        labels = r.it.func_attrs.get((g.uid, 'return_labels'))
        fixed = r.it.func_attrs.get((g.uid, '_fixed'))
        hf = r.it.h(r.st, fixed) if fixed is not None else None
        out[n] = dict(kind=kind.a[0] if kind.op == 'const' else None, labels=labels, nlabels=None if labels is None else len(r.it.elements(r.st, labels) or []),
                      elements=None if labels is None else r.it.elements(r.st, labels), fixed=dict(hf.fields) if hf is not None else {}, fi=e['fi'])
    return out
