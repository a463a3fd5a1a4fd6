"""Interprocedural abstract interpreter: value-flow terms with joins, constant propagation for branch
pruning, an abstract heap for objects the package creates, and a pluggable typestate (State.ts).

Nothing of the analysed package is executed.  Branches whose condition is not a propagated constant are
analysed on both sides and joined; loops are analysed with a phi for every assigned name; package functions
are inlined (context sensitivity), everything else is an opaque call term.
"""
import ast
import pathlib
import posixpath
import itertools
import string
from .terms import *
from .terms import UNBOUND
from .program import ClassInfo, FuncInfo, AnalysisError

MAX_DEPTH = 48
UNROLL = 48


# stream reads: two calls with the same arguments give different values
POOL_MAPS = {'imap', 'imap_unordered', 'map', 'starmap', 'map_async', 'starmap_async'}
SEQ_METHODS = {'read', 'readline', 'readlines', 'tell', 'read1', 'readinto', '__next__'}


class HObj:
    __slots__ = ('cls', 'fields', 'init', 'open')

    def __init__(self, cls, fields=None, init=None, open=False):
        self.cls, self.fields, self.init, self.open = cls, fields or {}, init, open

    def copy(self):
        return HObj(self.cls, dict(self.fields), self.init, self.open)


class Frame:
    __slots__ = ('uid', 'env')
    _n = itertools.count(1)

    def __init__(self, env, uid=None):
        self.uid = uid or next(Frame._n)
        self.env = env


class State:
    __slots__ = ('frames', 'heap', 'ts', 'facts', 'dead', 'seq')

    def __init__(self):
        self.frames, self.heap, self.ts, self.facts, self.dead, self.seq = [], {}, {}, {}, False, 0

    def copy(self):
        s = State()
        s.frames = [Frame(dict(f.env), f.uid) for f in self.frames]
        s.heap = dict(self.heap)
        s.ts = dict(self.ts)
        s.facts = dict(self.facts)
        s.dead = self.dead
        s.seq = self.seq
        return s

    def become(self, o):
        self.frames, self.heap, self.ts, self.facts, self.dead, self.seq = o.frames, o.heap, o.ts, o.facts, o.dead, o.seq

    def wobj(self, oid):
        h = self.heap[oid].copy()
        self.heap[oid] = h
        return h


def join_states(sts, conds=()):
    sts = [s for s in sts if s is not None and not s.dead]
    if not sts:
        return None
    if len(sts) == 1:
        return sts[0]
    out = State()
    out.seq = max(s.seq for s in sts)
    n = min(len(s.frames) for s in sts)
    for i in range(n):
        keys = {}
        for s in sts:
            for k in s.frames[i].env:
                keys[k] = 1
        env = {}
        for k in keys:
            vs = [s.frames[i].env.get(k, UNBOUND) for s in sts]
            v0 = vs[0]
            env[k] = v0 if all(v is v0 for v in vs) else phi(vs, conds)
        out.frames.append(Frame(env, sts[0].frames[i].uid))
    for s in sts:
        for oid in s.heap:
            if oid in out.heap:
                continue
            hs = [t.heap[oid] for t in sts if oid in t.heap]
            h0 = hs[0]
            if all(h is h0 for h in hs):
                out.heap[oid] = h0
                continue
            h = HObj(h0.cls, {}, h0.init, any(x.open for x in hs))
            keys = {}
            for x in hs:
                for k in x.fields:
                    keys[k] = 1
            if h0.cls == 'list':
                its = [x.fields.get('items', ()) for x in hs]
                if all(i == its[0] for i in its):
                    h.fields['items'] = its[0]
                else:
                    h.open = True
                    u = []
                    for i in its:
                        for e in i:
                            if e not in u:
                                u.append(e)
                    h.fields['items'] = tuple(u)
            else:
                for k in keys:
                    vs = []
                    for x in hs:
                        v = x.fields.get(k)
                        if v is None:
                            v = mk('field', x.init, k) if x.init is not None else UNBOUND
                        vs.append(v)
                    v0 = vs[0]
                    h.fields[k] = v0 if all(v is v0 for v in vs) else phi(vs, conds)
            out.heap[oid] = h
    for s in sts:
        for k, v in s.ts.items():
            out.ts[k] = out.ts.get(k, frozenset()) | v
    for k in out.ts:
        for s in sts:
            if k not in s.ts:
                out.ts[k] = out.ts[k] | frozenset(['-'])
    f0 = sts[0].facts
    out.facts = {k: v for k, v in f0.items() if all(s.facts.get(k) == v for s in sts[1:])}
    return out


class FrameCtx:
    """Static context of the code being interpreted."""

    def __init__(self, fi, module, cls, closure=None, on_yield=None):
        self.fi, self.module, self.cls, self.closure, self.on_yield = fi, module, cls, closure, on_yield
        self.returns, self.loopstack = [], []
        self.globals = set()
        self.nonlocals = set()


class Closure:
    def __init__(self, node, ctx, env, frame_uid, defaults, kwdefaults, parent):
        self.node, self.ctx, self.env, self.frame_uid = node, ctx, env, frame_uid
        self.defaults, self.kwdefaults, self.parent = defaults, kwdefaults, parent
        self.memo_of = None
        self.attrs = {}


BUILTIN_EXC = None


def exc_base(name):
    import builtins
    c = getattr(builtins, name, None)
    return c if isinstance(c, type) and issubclass(c, BaseException) else None


SET_OPS = {'&': 'intersection', '-': 'difference', '|': 'union', '^': 'symmetric_difference'}
SET_METHODS = {'intersection', 'difference', 'union', 'symmetric_difference', 'isdisjoint', 'issubset', 'issuperset'}
VALUE_METHODS = {'copy', 'astype', 'reshape', 'ravel', 'flatten', 'transpose', 'mean', 'sum', 'max', 'min', 'std', 'var', 'round', 'clip', 'cumsum', 'view',
                 'squeeze', 'swapaxes', 'tolist', 'dot', 'strip', 'split', 'lower', 'upper', 'encode', 'decode', 'replace', 'format', 'join', 'startswith',
                 'endswith', 'keys', 'values', 'items', 'tobytes', 'any', 'all', 'argmin', 'argmax', 'nonzero', 'repeat', 'read', 'tell', 'with_suffix'}
VALUE_BUILTINS = {'int', 'float', 'str', 'len', 'abs', 'round', 'bool', 'bytes', 'list', 'tuple', 'dict', 'set', 'sorted', 'sum', 'range', 'enumerate', 'zip',
                  'isinstance', 'hasattr', 'repr', 'hash', 'id', 'divmod', 'pow', 'frozenset', 'bytearray', 'complex', 'open', 'type', 'reversed', 'map', 'filter'}
NONE_NUMPY = {'numpy.copyto', 'numpy.put', 'numpy.place', 'numpy.putmask', 'numpy.fill_diagonal', 'numpy.save', 'numpy.savetxt', 'numpy.seterr'}


def never_none(x):
    if x.op == 'mcall':
        return x.a[1] in VALUE_METHODS
    if x.op == 'call' and x.a[0].op == 'ext':
        n = x.a[0].a[0]
        if n.startswith(('numpy.random.shuffle', 'numpy.random.seed')):
            return False
        return n.startswith(('numpy.', 'scipy.', 'math.')) and n not in NONE_NUMPY or n.replace('builtins.', '') in VALUE_BUILTINS or exc_base(n.replace('builtins.', '')) is not None
    if x.op == 'sub':
        i = x.a[1]
        return i.op == 'slice' or i.op == 'tuple' and any(y.op == 'slice' for y in i.a[0])
    return False


class Interp:
    def __init__(self, prog, hooks=None):
        self.prog = prog
        self.hooks = hooks            # object with optional methods: truth, on_event, call, raises_of
        self.closures, self._cid = {}, itertools.count(1)
        self._oid = itertools.count(1)
        self.global_heap = {}
        self._dfl = {}
        self._lid = itertools.count(1)
        self.loops = {}
        self.func_attrs = {}
        self._deco = {}
        self._modval = {}
        self.stack = []               # (qual) call stack
        self.sites = []               # call sites of the stack
        self.sinks = [[]]             # raise sinks
        self.trys = []                # snapshot lists of enclosing try bodies
        self.visited = {}             # qual -> count of inlined analyses
        self.nevents = 0
        self.quiet = False
        self.in_phi = 0
        self.retlog = []

    # ------------------------------------------------------------------ infrastructure
    def hook(self, name, *a):
        if self.hooks is not None:
            f = getattr(self.hooks, name, None)
            if f is not None:
                return f(*a)
        return None

    def emit(self, kind, st, node, ctx, **d):
        if st.dead or self.quiet:
            return
        self.nevents += 1
        if self.hooks is not None and hasattr(self.hooks, 'on_event'):
            d.update(kind=kind, node=node, ctx=ctx, st=st, stack=self.stack)
            self.hooks.on_event(d)

    def where(self, ctx, node):
        return f'{ctx.module.rel}:{getattr(node, "lineno", 0)}'

    # ------------------------------------------------------------------ heap
    def new_obj(self, st, cls, fields=None, init=None, open=False):
        oid = next(self._oid)
        lab = cls if isinstance(cls, str) else cls.name
        st.heap[oid] = HObj(cls, dict(fields or {}), init, open)
        return mk('obj', oid, lab)

    def sym_obj(self, st, cls, name):
        """A symbolic input object of a package class: unknown fields."""
        return self.new_obj(st, cls, init=mk('param', name))

    def new_list(self, st, items=(), open=False, cls='list'):
        return self.new_obj(st, 'list', {'items': tuple(items)}, open=open)

    def new_dict(self, st, items=None, open=False, init=None):
        return self.new_obj(st, 'dict', items or {}, open=open, init=init)

    def h(self, st, t):
        if t.op != 'obj':
            return None
        h = st.heap.get(t.a[0])
        if h is None:
            h = self.global_heap.get(t.a[0])
            if h is not None:
                st.heap[t.a[0]] = h
        return h

    def elements(self, st, t):
        """Concrete element list of a term or None."""
        if t.op in ('tuple', 'list', 'set'):
            return list(t.a[0])
        if t.op == 'nt':
            return [v for _, v in t.a[1]]
        if t.op == 'obj':
            h = self.h(st, t)
            if h is None:
                return None
            if h.cls == 'list' and not h.open:
                return list(h.fields['items'])
            if h.cls == 'dict' and not h.open and h.init is None:
                return [const(k) for k in h.fields]
        if t.op == 'const' and isinstance(t.a[0], (str, bytes)):
            return [const(c) for c in t.a[0]]
        if t.op == 'call' and t.a[0].op == 'ext' and t.a[1] and (t.a[0].a[0].endswith('tqdm') or t.a[0].a[0].endswith('.as_completed') or t.a[0].a[0] == 'iter'):
            return self.elements(st, t.a[1][0])
        if t.op == 'const' and isinstance(t.a[0], range) and len(t.a[0]) <= UNROLL:
            return [const(c) for c in t.a[0]]
        return None

    # ------------------------------------------------------------------ running
    def start(self):
        return State()

    def call_method(self, st, obj, name, args=(), kwargs=None):
        ctx = FrameCtx(None, next(iter(self.prog.modules.values())), None)
        f = self.getattr_(obj, name, st, None, ctx)
        return self.call(f, list(args), dict(kwargs or {}), st, None, ctx)

    def run_func(self, st, fi, args=(), kwargs=None, decorated=True):
        ctx = FrameCtx(None, fi.module, None)
        f = self.func_value(fi) if decorated else mk('func', fi.qual)
        return self.call(f, list(args), dict(kwargs or {}), st, None, ctx)

    # ------------------------------------------------------------------ functions & decorators
    def is_static(self, fi):
        return any(isinstance(d, ast.Name) and d.id == 'staticmethod' for d in fi.node.decorator_list)

    def is_classmethod(self, fi):
        return any(isinstance(d, ast.Name) and d.id == 'classmethod' for d in fi.node.decorator_list)

    def func_value(self, fi):
        """The value bound to a (possibly decorated) function name."""
        key = fi.qual
        if key in self._deco:
            return self._deco[key]
        t = mk('func', fi.qual, node=fi.node)
        self._ft = getattr(self, '_ft', {})
        self._ft.setdefault(fi.qual, fi)
        self._deco[key] = t
        val = t
        for d in reversed(fi.node.decorator_list):
            if isinstance(d, ast.Name) and d.id in ('property', 'staticmethod', 'classmethod', 'contextmanager'):
                continue
            if isinstance(d, ast.Attribute) and d.attr in ('setter', 'getter', 'deleter', 'abstractmethod', 'wraps', 'contextmanager'):
                continue
            try:
                st = State()
                ctx = FrameCtx(None, fi.module, fi.cls)
                st.frames.append(Frame({}))
                self.sinks.append([])
                save, self.hooks = self.hooks, None
                try:
                    dv = self.ev(d, st, ctx)
                    nv = self.call(dv, [val], {}, st, d, ctx) if not st.dead else val
                finally:
                    self.sinks.pop()
                    self.hooks = save
                    self.global_heap.update(st.heap)
                if nv.op in ('func', 'closure', 'bound'):
                    if nv.op == 'closure' and nv is not val:
                        c = self.closures[nv.a[0]]
                        if self._is_memoizer(c):
                            c.memo_of = val
                    val = nv
            except RecursionError:
                pass
        self._deco[key] = val
        return val

    def _is_setter(self, fi):
        return any(isinstance(d, ast.Attribute) and d.attr == 'setter' for d in fi.node.decorator_list)

    def _is_memoizer(self, c):
        """A wrapper that stores results in a container held by its first parameter, itself or through a helper."""
        n = c.node
        if not isinstance(n, ast.FunctionDef) or not n.args.args:
            return False
        a0 = n.args.args[0].arg
        if self._stores_in(n, a0):
            return True
        for x in ast.walk(n):
            if not isinstance(x, ast.Call):
                continue
            name = None
            if isinstance(x.func, ast.Attribute) and isinstance(x.func.value, ast.Name) and x.func.value.id == a0:
                name, i = x.func.attr, 0
            elif isinstance(x.func, ast.Name):
                i = next((k for k, y in enumerate(x.args) if isinstance(y, ast.Name) and y.id == a0), None)
                name = x.func.id if i is not None else None
            if name is None:
                continue
            for f in self.prog.funcs.values():
                if f.node.name == name and f.module.name == c.ctx.module.name and len(f.node.args.args) > i and self._stores_in(f.node, f.node.args.args[i].arg):
                    return True
        return False

    def _stores_in(self, n, a0):
        names = {a0}
        for x in ast.walk(n):
            if isinstance(x, ast.Assign) and isinstance(x.value, ast.Attribute) and isinstance(x.value.value, ast.Name) and x.value.value.id == a0:
                names |= {t.id for t in x.targets if isinstance(t, ast.Name)}
        for x in ast.walk(n):
            tgt = None
            if isinstance(x, ast.Subscript) and isinstance(x.ctx, ast.Store):
                tgt = x.value
            elif isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and x.func.attr in ('setdefault', 'update', '__setitem__'):
                tgt = x.func.value
            elif isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and 'cache' in x.func.attr.lower() and isinstance(x.func.value, ast.Name) and x.func.value.id == a0:
                return True
            while isinstance(tgt, ast.Attribute):
                tgt = tgt.value
            if isinstance(tgt, ast.Name) and tgt.id in names:
                return True
        return False

    def fi_of(self, t):
        return self._ft[t.a[0]]

    def unwrap_func(self, t, seen=()):
        """Underlying FuncInfo of a decorated function value, following memoizers and plain wrappers."""
        if t.op == 'func':
            return self.fi_of(t)
        if t.op == 'bound':
            return self.unwrap_func(t.a[0], seen)
        if t.op == 'closure' and t not in seen:
            c = self.closures[t.a[0]]
            for v in c.env.values():
                if v.op in ('func', 'closure'):
                    r = self.unwrap_func(v, seen + (t,))
                    if r:
                        return r
        return None

    def bind_args(self, argspec, defaults, kwdefaults, args, kwargs, st, is_method=False):
        env = {}
        pos = [a.arg for a in argspec.posonlyargs + argspec.args]
        kwargs = dict(kwargs)
        flat, open_star = [], None
        for a in args:
            if a.op == 'star':
                el = self.elements(st, a.a[0])
                if el is None:
                    open_star = a.a[0]
                else:
                    flat.extend(el)
            else:
                flat.append(a)
        open_kw = kwargs.pop('**', None)
        for n, v in zip(pos, flat):
            env[n] = v
        extra = flat[len(pos):]
        if open_star is not None:
            for i, n in enumerate(pos[len(flat):]):
                if n not in kwargs:
                    env[n] = mk('sub', open_star, const(i))
        for n in pos + [a.arg for a in argspec.kwonlyargs]:
            if n in kwargs:
                env[n] = kwargs.pop(n)
        nd = len(defaults)
        for i, n in enumerate(pos):
            if n not in env:
                j = i - (len(pos) - nd)
                if open_kw is not None:
                    dv = defaults[j] if j >= 0 else None
                    v = mk('kwget', open_kw, n)
                    env[n] = v if dv is None else phi([v, dv], (mk('inkw', open_kw, n),))
                elif j >= 0:
                    env[n] = defaults[j]
                else:
                    env[n] = unk('missing argument ' + n)
        for a in argspec.kwonlyargs:
            if a.arg not in env:
                env[a.arg] = kwdefaults.get(a.arg) or unk('missing kw')
        if argspec.vararg:
            if open_star is not None and not extra:
                env[argspec.vararg.arg] = open_star
            else:
                env[argspec.vararg.arg] = mk('tuple', tuple(extra))
        if argspec.kwarg:
            d = self.new_dict(st, {k: v for k, v in kwargs.items()}, open=open_kw is not None, init=open_kw)
            env[argspec.kwarg.arg] = d
        return env

    def func_defaults(self, node, module, cls):
        """Defaults of a module- or class-level function, evaluated once at its definition."""
        if id(node) not in self._dfl:
            dst = State()
            dst.frames.append(Frame({}))
            save, self.hooks = self.hooks, None
            self.sinks.append([])
            try:
                dctx = FrameCtx(None, module, cls)
                dctx.classbody = cls
                self._dfl[id(node)] = self.eval_defaults(node, dst, dctx)
            finally:
                self.hooks = save
                self.sinks.pop()
            self.global_heap.update(dst.heap)
        return self._dfl[id(node)]

    def eval_defaults(self, node, st, ctx):
        d = [self.ev(x, st, ctx) for x in node.args.defaults]
        kd = {a.arg: self.ev(x, st, ctx) for a, x in zip(node.args.kwonlyargs, node.args.kw_defaults) if x is not None}
        return d, kd

    def call(self, f, args, kwargs, st, node, ctx):
        if st.dead:
            return unk('dead')
        r = self.hook('call', f, args, kwargs, st, node, ctx, self)
        if r is not None:
            return r
        op = f.op
        if op == 'func':
            fi = self.fi_of(f)
            return self.inline(f, fi, fi.node, fi.module, fi.cls, None, None, args, kwargs, st, node, ctx)
        if op == 'bound':
            return self.call(f.a[0], [f.a[1]] + list(args), kwargs, st, node, ctx)
        if op == 'closure':
            c = self.closures[f.a[0]]
            if c.memo_of is not None:
                self.emit('memo', st, node, ctx, fn=c.memo_of, args=args, kwargs=kwargs)
                v = self.call(c.memo_of, args, kwargs, st, node, ctx)
                self.emit('memo_done', st, node, ctx, fn=c.memo_of, args=args, kwargs=kwargs, value=v)
                return v
            return self.inline(f, None, c.node, c.ctx.module, c.ctx.cls, c, (c.defaults, c.kwdefaults), args, kwargs, st, node, ctx)
        if op == 'class':
            return self.instantiate(f, args, kwargs, st, node, ctx)
        if op == 'partial':
            kw = dict(f.a[2])
            kw.update(kwargs)
            return self.call(f.a[0], list(f.a[1]) + list(args), kw, st, node, ctx)
        if op == 'phi':
            outs, vals = [], []
            for x in alts(f):
                if x.op in ('unbound',) or is_const(x, None):
                    continue
                s = st.copy()
                v = self.call(x, args, kwargs, s, node, ctx)
                if not s.dead:
                    outs.append(s)
                    vals.append(v)
            j = join_states(outs, f.a[1])
            if j is None:
                st.dead = True
                return unk('dead')
            st.become(j)
            return phi(vals, f.a[1])
        if op == 'bmeth':
            return self.call_bmeth(f, args, kwargs, st, node, ctx)
        if op == 'ext':
            return self.call_ext(f, args, kwargs, st, node, ctx)
        if op == 'obj':
            h = self.h(st, f)
            if h is not None and isinstance(h.cls, ClassInfo):
                c, e = h.cls.lookup('__call__')
                if e and e['kind'] == 'func':
                    return self.call(self.func_value(e['fi']), [f] + list(args), kwargs, st, node, ctx)
        if op == 'meth':
            self.note_call(st, node, ctx, '.' + f.a[1], args, kwargs, recv=f.a[0])
            if f.a[1] in ('get', 'pop') and f.a[0].op in ('field', 'param', 'sub') and len(args) == 2 and False:
                pass
            if f.a[1] == '__len__' and not args and not kwargs:
                return self.call(mk('ext', 'len'), [f.a[0]], {}, st, node, ctx)
            if f.a[1] == 'format' and f.a[0].op == 'const' and isinstance(f.a[0].a[0], str):
                v = self.formatted(f.a[0].a[0], args, kwargs, node, ctx)
                if v is not None:
                    return v
            if f.a[0].op == 'const' and isinstance(f.a[0].a[0], (str, bytes)) and not kwargs and f.a[1] in STR_METHODS:
                vals = [(self.elements(st, a) if a.op in ('obj', 'tuple') else None) or a for a in args]
                if f.a[1] == 'join' and len(vals) == 1 and isinstance(vals[0], list) and not all(x.op == 'const' for x in vals[0]) and isinstance(f.a[0].a[0], str):
                    parts = []
                    for i, x in enumerate(vals[0]):
                        parts += ([f.a[0]] if i and f.a[0].a[0] else []) + [x]
                    r = parts[0]
                    for x in parts[1:]:
                        r = self.binop('+', r, x, st, node, ctx)
                    return r
                if all(isinstance(v, list) and all(x.op == 'const' for x in v) or isinstance(v, T) and v.op == 'const' for v in vals):
                    try:
                        v = getattr(f.a[0].a[0], f.a[1])(*[tuple(x.a[0] for x in v) if isinstance(v, list) else v.a[0] for v in vals])
                        if isinstance(v, (str, bytes, int, bool)):
                            return const(v)
                        if isinstance(v, (list, tuple)):
                            t = tuple(const(x) for x in v)
                            return self.new_list(st, t) if isinstance(v, list) else mk('tuple', t)
                    except Exception:
                        pass
            kws = tuple(sorted(kwargs.items()))
            if f.a[1] in POOL_MAPS and len(args) >= 2 and args[0].op in ('partial', 'func', 'closure', 'bound'):
                el = self.elements(st, args[1])
                self.emit('spawn', st, node, ctx, func=args[0], items=args[1], method=f.a[1])
                star = f.a[1].startswith('star')
                if el is not None and len(el) <= UNROLL:
                    return mk('tuple', tuple(self.call(args[0], [mk('star', x)] if star and x.op != 'tuple' else list(x.a[0]) if star else [x], {}, st, node, ctx) for x in el))
                x = self.iter_elem(args[1], st, ctx, node)
                v = self.call(args[0], [mk('star', x)] if star else [x], {}, st, node, ctx)
                return mk('comp', 'gen', v, (args[1],), ())
            if f.a[1] in ('apply_async', 'apply', 'submit') and args and args[0].op in ('partial', 'func', 'closure', 'bound'):
                self.emit('spawn', st, node, ctx, func=args[0], items=args[1] if len(args) > 1 else NONE, method=f.a[1])
                a2 = list(args[1:]) if f.a[1] == 'submit' else (self.elements(st, args[1]) if len(args) > 1 else []) or []
                v = self.call(args[0], a2, dict(kwargs) if f.a[1] == 'submit' else {}, st, node, ctx)
                return mk('future', v) if f.a[1] != 'apply' else v
            if f.a[0].op == 'future' and f.a[1] in ('get', 'result'):
                return f.a[0].a[0]
            if f.a[1] in SET_METHODS and len(args) == 1 and not kwargs:
                v = self.set_op(f.a[1], f.a[0], args[0], st)
                if v is not None:
                    return v
            if f.a[1] in SEQ_METHODS:
                # each read of a stream is a value of its own
                st.seq += 1
                kws += (('#', const(st.seq)),)
            v = mk('mcall', f.a[0], f.a[1], tuple(args), kws, node=node, mod=ctx.module)
            return v
        self.note_call(st, node, ctx, '?', args, kwargs, recv=f)
        return mk('call', f, tuple(args), tuple(sorted(kwargs.items())), node=node, mod=ctx.module)

    def note_call(self, st, node, ctx, name, args, kwargs, recv=None):
        if self.trys and self.trys[-1] is not None:
            self.trys[-1].append((name, st.copy(), recv, args))
        self.emit('call', st, node, ctx, name=name, args=args, kwargs=kwargs, recv=recv)

    def has_yield(self, node):
        for x in ast.walk(node):
            if isinstance(x, (ast.Yield, ast.YieldFrom)):
                return True
        return False

    def inline(self, f, fi, node, module, cls, closure, dflt, args, kwargs, st, cnode, cctx):
        qual = fi.qual if fi else f'{module.name}.<{getattr(node, "name", "lambda")}>'
        if len(self.stack) > MAX_DEPTH or sum(1 for q in self.stack if q == (qual, node)) >= getattr(self.hooks, 'recursion', 2):
            self.emit('recursion', st, cnode, cctx, qual=qual)
            return unk('recursion ' + qual)
        r = self.hook('before_inline', qual, fi, args, kwargs, st, cnode, cctx, self)
        if r is not None:
            return r
        if not isinstance(node, ast.Lambda) and self.has_yield(node):
            return mk('gen', f, tuple(args), tuple(sorted(kwargs.items())))
        self.visited[qual] = self.visited.get(qual, 0) + 1
        ctx = FrameCtx(fi, module, cls, closure)
        ctx.qual = qual
        ctx.node = node
        if dflt is None:
            dflt = self.func_defaults(node, module, cls)
        self.emit('binding', st, cnode, cctx, qual=qual, fnode=node, args=args, kwargs=kwargs)
        env = self.bind_args(node.args, dflt[0], dflt[1], args, kwargs, st)
        st.frames.append(Frame(env))
        depth = len(st.frames)
        self.stack.append((qual, node))
        self.sites.append((cnode, cctx))
        self.emit('enter', st, cnode, cctx, qual=qual, fi=fi, args=args, kwargs=kwargs, fnode=node)
        try:
            if isinstance(node, ast.Lambda):
                v = self.ev(node.body, st, ctx)
                rets = [(v, st.copy())] if not st.dead else []
            else:
                end = self.block(node.body, st.copy(), ctx)
                rets = list(ctx.returns)
                if end is not None:
                    rets.append((NONE, end))
        finally:
            self.stack.pop()
            self.sites.pop()
        conds = ctx.conds if hasattr(ctx, 'conds') else ()
        for v, s in rets:
            s.frames = s.frames[:depth - 1]
        vals = [v for v, s in rets if not s.dead]
        j = join_states([s for v, s in rets], tuple(conds))
        if j is None:
            st.dead = True
            return unk('no return')
        j.frames = j.frames[:depth - 1]
        st.become(j)
        val = phi(vals, tuple(conds))
        r = self.hook('after_inline', qual, fi, val, rets, st, cnode, cctx, self)
        self.emit('leave', st, cnode, cctx, qual=qual, fi=fi, value=val, fnode=node)
        return r if r is not None else val

    def instantiate(self, f, args, kwargs, st, node, ctx):
        ci = self.prog.classes[f.a[0]]
        exts = ci.ext_bases()
        short = {str(b).split('.')[-1] for b in exts}
        if short & {'Enum', 'IntEnum', 'StrEnum', 'Flag'}:
            return mk('call', f, tuple(args), (), node=node, mod=ctx.module)
        c, e = ci.lookup('__init__')
        obj = self.new_obj(st, ci)
        self.emit('new', st, node, ctx, cls=ci, obj=obj, args=args, kwargs=kwargs)
        if e and e['kind'] == 'func':
            self.call(self.func_value(e['fi']), [obj] + list(args), kwargs, st, node, ctx)
            if not st.dead:
                self.emit('created', st, node, ctx, cls=ci, obj=obj, args=args, kwargs=kwargs)
            return obj
        if any(isinstance(d, ast.Name) and d.id == 'dataclass' or isinstance(d, ast.Call) and ast.unparse(d.func).endswith('dataclass')
               or isinstance(d, ast.Attribute) and d.attr == 'dataclass' for d in ci.node.decorator_list) or 'NamedTuple' in short:
            names = []
            for k in reversed(ci.mro()):
                if isinstance(k, ClassInfo):
                    names += [n for n, x in k.attrs.items() if x['kind'] == 'ann' and n not in names]
            flat = []
            for a in args:
                if a.op == 'star':
                    el = self.elements(st, a.a[0])
                    flat.extend(el if el is not None else [mk('sub', a.a[0], const(i)) for i in range(len(names) - len(flat))])
                else:
                    flat.append(a)
            h = st.wobj(obj.a[0])
            for n, a in zip(names, flat):
                h.fields[n] = a
            for n, a in kwargs.items():
                h.fields[n] = a
            for n in names:
                if n not in h.fields:
                    ex = ci.lookup(n)[1].get('expr')
                    h.fields[n] = self.class_expr(ci, ex) if ex is not None else unk(n)
            return obj
        h = st.wobj(obj.a[0])
        h.fields['args'] = mk('tuple', tuple(args))
        h.init = h.init or mk('newinst', obj.a[0], ci.qual)
        return obj

    # ------------------------------------------------------------------ names & attributes
    def module_value(self, module, name):
        r = self.prog.resolve(module, name)
        if r is None:
            return None
        if r[0] == 'mod':
            return mk('mod', r[1])
        if r[0] == 'ext':
            return mk('ext', canon_ext(r[1]))
        if r[0] == 'class':
            return mk('class', r[1].qual)
        if r[0] == 'func':
            return self.func_value(r[1])
        if r[0] == 'assign':
            key = (r[1].name, id(r[2]), r[3] if len(r) > 3 else None)
            if key not in self._modval:
                self._modval[key] = mk('global', r[1].name, name)
                st = State()
                st.frames.append(Frame({}))
                save, self.hooks = self.hooks, None
                self.sinks.append([])
                try:
                    v = self.ev(r[2], st, FrameCtx(None, r[1], None))
                    if len(r) > 3:
                        v = self.getitem(v, const(r[3]), st, None, FrameCtx(None, r[1], None))
                finally:
                    self.hooks = save
                    self.sinks.pop()
                self.global_heap.update(st.heap)
                self._modval[key] = v
            v = self._modval[key]
            return v
        return None

    def import_heap(self, st, v, seen=None):
        """Make module-level heap objects visible in a state."""
        if v.op == 'obj' and v.a[0] not in st.heap:
            h = self.global_heap.get(v.a[0])
            if h is not None:
                st.heap[v.a[0]] = h
                for x in h.fields.values():
                    for y in (x if isinstance(x, tuple) else (x,)):
                        if isinstance(y, T):
                            self.import_heap(st, y)
        elif v.op in ('tuple', 'list'):
            for x in v.a[0]:
                self.import_heap(st, x)

    def class_expr(self, ci, expr):
        st = State()
        st.frames.append(Frame({}))
        save, self.hooks = self.hooks, None
        self.sinks.append([])
        try:
            ctx = FrameCtx(None, ci.module, ci)
            ctx.classbody = ci
            v = self.ev(expr, st, ctx)
        finally:
            self.hooks = save
            self.sinks.pop()
        self.global_heap.update(st.heap)
        return v

    def name(self, n, st, ctx, node):
        fr = st.frames[-1].env if st.frames else {}
        if n not in ctx.globals and n in fr:
            v = fr[n]
            if v.op == 'unbound' or v.op == 'phi' and any(x is UNBOUND for x in alts(v)):
                self.emit('maybe_unbound', st, node, ctx, name=n, value=v)
                if v.op == 'phi':
                    v = phi([x for x in alts(v) if x is not UNBOUND], v.a[1])
            return v
        c = ctx.closure
        while c is not None:
            for fr in reversed(st.frames):
                if fr.uid == c.frame_uid and n in fr.env:
                    return fr.env[n]
            if n in c.env:
                v = c.env[n]
                self.import_heap(st, v)
                return v
            c = c.parent
        cb = getattr(ctx, 'classbody', None)
        if cb is not None and n in cb.attrs:
            e = cb.attrs[n]
            if e['kind'] == 'func':
                return self.func_value(e['fi'])
            if e['kind'] in ('assign', 'ann') and e['expr'] is not None:
                return self.class_expr(cb, e['expr'])
        v = self.module_value(ctx.module, n)
        if v is not None:
            self.import_heap(st, v)
            return v
        if n == 'NotImplemented':
            return mk('ext', 'NotImplemented')
        return mk('ext', n)

    def getattr_(self, b, n, st, node, ctx):
        op = b.op
        if op in ('xml', 'path', 'frame') or n == 'dtype' and op != 'obj' or n in ('size', '__name__', '__qualname__') and op == 'param' or n == 'image_layers' and op == 'param' or n in ('suffix', 'stem', 'name', 'parent', 'suffixes') and op in ('bin', 'call', 'mcall'):
            r = self.hook('getattr', b, n, st)
            if r is not None:
                return r
        if op == 'call' and n == 'suffixes' and b.a[0].op == 'ext' and b.a[0].a[0].startswith('pathlib.') and len(b.a[1]) == 1 and is_const(b.a[1][0]) and isinstance(b.a[1][0].a[0], str):
            return self.new_list(st, [const(x) for x in pathlib.PurePosixPath(b.a[1][0].a[0]).suffixes])
        if op == 'call' and n in ('name', 'stem', 'suffix') and b.a[0].op == 'ext' and b.a[0].a[0].startswith('pathlib.') and len(b.a[1]) == 1 and is_const(b.a[1][0]) and isinstance(b.a[1][0].a[0], str):
            return const(getattr(pathlib.PurePosixPath(b.a[1][0].a[0]), n))
        if op == 'obj':
            h = self.h(st, b)
            if h is None:
                self.import_heap(st, b)
                h = self.h(st, b)
            if h is None:
                return mk('field', b, n)
            if isinstance(h.cls, str):
                return mk('bmeth', b, n)
            c, e = h.cls.lookup(n)
            if e is not None and e['kind'] == 'property':
                self.emit('getprop', st, node, ctx, obj=b, name=n, fi=e['get'])
                return self.call(self.func_value(e['get']), [b], {}, st, node, ctx)
            self.hook('getfield', b, n, st)
            if n in h.fields:
                v = h.fields[n]
                return v
            if e is not None:
                if e['kind'] == 'func':
                    fi = e['fi']
                    fv = self.func_value(fi)
                    if self.is_static(fi):
                        return fv
                    if self.is_classmethod(fi):
                        return mk('bound', fv, mk('class', h.cls.qual))
                    return mk('bound', fv, b)
                if e['kind'] in ('assign', 'ann') and e['expr'] is not None and not (h.init is not None and e['kind'] == 'ann'):
                    v = self.class_expr_memo(c, n, e['expr'])
                    self.import_heap(st, v)
                    if v.op in ('func', 'closure'):
                        return mk('bound', v, b)
                    return v
            if n == '__class__':
                return mk('class', h.cls.qual)
            self.emit('noattr', st, node, ctx, obj=b, cls=h.cls, name=n)
            if h.init is not None:
                return mk('field', h.init, n)
            return mk('field', b, n)
        if op == 'slice' and n in ('start', 'stop', 'step'):
            return b.a[('start', 'stop', 'step').index(n)]
        if op == 'class':
            ci = self.prog.classes[b.a[0]]
            if n == '__name__':
                return const(ci.name)
            if n == '__mro__':
                return mk('tuple', tuple(mk('class', k.qual) if isinstance(k, ClassInfo) else mk('ext', str(k)) for k in ci.mro()))
            if n == '__dict__':
                fields = {}
                for k, e in ci.attrs.items():
                    if e['kind'] == 'func':
                        fields[k] = self.func_value(e['fi'])
                    elif e['kind'] == 'property':
                        fields[k] = mk('propobj', ci.qual, k)
                    elif e['kind'] == 'assign' and e['expr'] is not None:
                        fields[k] = self.class_expr_memo(ci, k, e['expr'])
                        self.import_heap(st, fields[k])
                return self.new_dict(st, fields)
            c, e = ci.lookup(n)
            if e is not None:
                if e['kind'] == 'func':
                    fv = self.func_value(e['fi'])
                    return mk('bound', fv, b) if self.is_classmethod(e['fi']) else fv
                if e['kind'] in ('assign', 'ann') and e['expr'] is not None:
                    exts = {str(x).split('.')[-1] for x in ci.ext_bases()}
                    if exts & {'Enum', 'IntEnum', 'StrEnum'}:
                        v = self.class_expr(c, e['expr'])
                        return v if 'IntEnum' in exts else mk('enum', ci.qual, n, v)
                    cg = self.hook('class_attr', ci, c, n, st)
                    if cg is not None:
                        return cg
                    v = self.class_expr_memo(c, n, e['expr'])
                    self.import_heap(st, v)
                    return v
            return mk('field', b, n)
        if op == 'mod':
            m = self.prog.modules[b.a[0]]
            v = self.module_value(m, n)
            if v is not None:
                self.import_heap(st, v)
                return v
            return mk('ext', b.a[0] + '.' + n)
        if op == 'ext':
            if n == '__dict__' and b.a[0] in ('object', 'builtins.object', 'abc.ABC', 'ABC'):
                return self.new_dict(st)
            return mk('ext', canon_ext(b.a[0] + '.' + n))
        if op == 'sigobj' and n == 'parameters':
            d = self.new_dict(st, {k: mk('sigparam', b.a[0], k) for k in b.a[1]})
            return d
        if op == 'sigparam' and n == 'name':
            return const(b.a[1])
        if op == 'super':
            ci, obj = self.prog.classes[b.a[0]], b.a[1]
            h = self.h(st, obj)
            start = h.cls if h is not None and isinstance(h.cls, ClassInfo) else ci
            c, e = start.lookup(n, after=ci)
            if e and e['kind'] == 'func':
                return mk('bound', self.func_value(e['fi']), obj)
            if e and e['kind'] == 'property':
                return self.call(self.func_value(e['get']), [obj], {}, st, node, ctx)
            return mk('meth', b, n)
        if op == 'nt':
            for k, v in b.a[1]:
                if k == n:
                    return v
            self.emit('noattr', st, node, ctx, obj=b, cls=None, name=n)
        if op == 'phi':
            al = [x for x in alts(b) if x is not UNBOUND and not is_const(x, None)]
            if any(x.op in ('obj', 'nt', 'class') for x in al):
                if len(al) == 1:
                    return self.getattr_(al[0], n, st, node, ctx)
                self.in_phi += 1
                try:
                    return phi([self.getattr_(x, n, st, node, ctx) for x in al], b.a[1])
                finally:
                    self.in_phi -= 1
        if op in ('func', 'closure', 'bound'):
            f = b.a[0] if op == 'bound' else b
            if (f.uid, n) in self.func_attrs:
                return self.func_attrs[(f.uid, n)]
            if n in ('__name__', '__qualname__', '__doc__'):
                fi = self.unwrap_func(f)
                if n == '__name__' and fi:
                    return const(fi.name)
            return mk('field', b, n)
        if op == 'partial' and n == 'func':
            return b.a[0]
        if n in ('shape', 'size', 'ndim', 'dtype'):
            b = strip_view(b)
            while b.op == 'store':
                b = b.a[0]
        return mk('field', b, n)

    def class_expr_memo(self, c, n, expr):
        key = ('cls', c.qual, n)
        if key not in self._modval:
            self._modval[key] = self.class_expr(c, expr)
        return self._modval[key]

    def setattr_(self, b, n, v, st, node, ctx, raw=False):
        op = b.op
        if op == 'obj':
            h = self.h(st, b)
            if h is None:
                self.import_heap(st, b)
                h = self.h(st, b)
            if h is not None and isinstance(h.cls, ClassInfo):
                c, e = h.cls.lookup(n)
                if e is not None and e['kind'] == 'property' and not raw:
                    if e['set'] is not None:
                        self.call(self.func_value(e['set']), [b, v], {}, st, node, ctx)
                    return
                old = h.fields.get(n) or (mk('field', h.init, n) if h.init is not None else None)
                h = st.wobj(b.a[0])
                h.fields[n] = v
                if not raw:
                    self.emit('setattr', st, node, ctx, obj=b, cls=h.cls, name=n, value=v, old=old)
                return
        if op == 'phi':
            objs = [x for x in alts(b) if x.op == 'obj']
            if objs:
                outs = []
                for x in alts(b):
                    s = st.copy()
                    if x.op == 'obj':
                        self.setattr_(x, n, v, s, node, ctx, raw)
                    outs.append(s)
                j = join_states(outs, b.a[1])
                if j:
                    st.become(j)
                return
        if op == 'field' and b.a[1] == 'flags' and n in ('writeable', 'WRITEABLE'):
            arr = b.a[0]
            if is_const(v, False):
                self.rebind(st, arr, mk('ro', arr))
            self.emit('setflags', st, node, ctx, base=arr, value=v)
            return
        if op in ('func', 'closure'):
            self.func_attrs[(b.uid, n)] = v
            if op == 'func':
                self.emit('setattr_other', st, node, ctx, base=b, name=n, value=v)
            return
        self.emit('setattr_other', st, node, ctx, base=b, name=n, value=v)

    def rebind(self, st, old, new):
        if old.op == 'const':
            return
        for fr in st.frames:
            for k, v in fr.env.items():
                if v is old:
                    fr.env[k] = new
                elif v.op in ('tuple', 'list') and old in v.a[0]:
                    pass

    def rebind_heap(self, st, old, new):
        for oid in list(st.heap):
            h = st.heap[oid]
            for k, v in h.fields.items():
                if v is old:
                    h = st.wobj(oid)
                    h.fields[k] = new

    # ------------------------------------------------------------------ subscripts
    def getitem(self, b, i, st, node, ctx):
        op = b.op
        if op == 'obj':
            h = self.h(st, b)
            if h is None:
                self.import_heap(st, b)
                h = self.h(st, b)
            if h is None:
                return mk('sub', b, i)
            if h.cls == 'dict':
                if i.op == 'const' and _hashable(i.a[0]):
                    if i.a[0] in h.fields:
                        return h.fields[i.a[0]]
                    if h.init is None and not h.open and ctx is not None and all(not isinstance(k, tuple) for k in h.fields):
                        self.do_raise(mk('call', mk('ext', 'KeyError'), (i,), ()), st, node, ctx)
                        return unk('missing')
                    return mk('sub', h.init or b, i, node=node)
                if i.op == 'phi' and all(x.op == 'const' and x.a[0] in h.fields for x in alts(i)):
                    return phi([h.fields[x.a[0]] for x in alts(i)], i.a[1])
                if h.fields and not h.open and h.init is None:
                    vals = list(h.fields.values())
                    return mk('pick', mk('tuple', tuple(vals)), i) if all(isinstance(v, T) for v in vals) else mk('sub', b, i)
                return mk('sub', h.init or b, i, node=node)
            if h.cls == 'list':
                if i.op == 'const' and isinstance(i.a[0], int) and not h.open:
                    it = h.fields['items']
                    if -len(it) <= i.a[0] < len(it):
                        return it[i.a[0]]
                if i.op == 'slice' and not h.open and all(x.op == 'const' for x in i.a):
                    return self.new_list(st, h.fields['items'][slice(*[x.a[0] for x in i.a])])
                return mk('pick', mk('tuple', h.fields['items']), i)
            if isinstance(h.cls, ClassInfo):
                c, e = h.cls.lookup('__getitem__')
                if e and e['kind'] == 'func':
                    return self.call(self.func_value(e['fi']), [b, i], {}, st, node, ctx)
            return mk('sub', h.init or b, i, node=node)
        if op in ('tuple', 'list') and i.op == 'const' and isinstance(i.a[0], int):
            it = b.a[0]
            if -len(it) <= i.a[0] < len(it) and not any(x.op == 'star' for x in it):
                return it[i.a[0]]
        if op in ('tuple', 'list') and i.op == 'slice' and all(x.op == 'const' for x in i.a) and not any(x.op == 'star' for x in b.a[0]):
            return mk(op, tuple(b.a[0][slice(*[x.a[0] for x in i.a])]))
        if op == 'nt' and i.op == 'const' and isinstance(i.a[0], int):
            it = b.a[1]
            if -len(it) <= i.a[0] < len(it):
                return it[i.a[0]][1]
        if op == 'const' and i.op == 'const':
            try:
                return const(b.a[0][i.a[0]])
            except Exception:
                pass
        if op == 'const' and i.op == 'slice' and all(x.op == 'const' for x in i.a):
            try:
                return const(b.a[0][slice(*[x.a[0] for x in i.a])])
            except Exception:
                pass
        if op == 'phi':
            al = [x for x in alts(b) if x is not UNBOUND and not is_const(x, None)]
            if al and any(x.op in ('obj', 'tuple', 'nt') for x in al):
                return phi([self.getitem(x, i, st, node, ctx) for x in al], b.a[1])
        if op == 'class':
            return b
        if op == 'field' and b.a[1] == 'shape' and i.op == 'const':
            return mk('sub', b, i)
        if op in ('param', 'field', 'frame'):
            v = self.hook('getitem', b, i, st)
            if v is not None:
                return v
        self.hook('subscripted', b, i, st)
        return mk('sub', b, i, node=node, mod=ctx.module if ctx else None)

    def setitem(self, tnode, b, i, v, st, node, ctx, aug=False):
        if b.op == 'obj':
            h = self.h(st, b)
            if h is not None and h.cls == 'dict':
                self.emit('dictset', st, node, ctx, obj=b, key=i, value=v)
                h = st.wobj(b.a[0])
                if i.op == 'const' and _hashable(i.a[0]):
                    h.fields[i.a[0]] = v
                else:
                    h.open = True
                    h.fields[('*', i.uid)] = v
                return
            if h is not None and h.cls == 'list':
                self.emit('listset', st, node, ctx, obj=b, key=i, value=v)
                h = st.wobj(b.a[0])
                it = list(h.fields['items'])
                if i.op == 'const' and isinstance(i.a[0], int) and -len(it) <= i.a[0] < len(it) and not h.open:
                    it[i.a[0]] = v
                else:
                    h.open = True
                    it.append(v)
                h.fields['items'] = tuple(it)
                return
            if h is not None and isinstance(h.cls, ClassInfo):
                c, e = h.cls.lookup('__setitem__')
                if e and e['kind'] == 'func':
                    self.call(self.func_value(e['fi']), [b, i, v], {}, st, node, ctx)
                    return
        self.emit('mutate', st, node, ctx, base=b, idx=i, value=v, how='setitem')
        if b.op == 'frame':
            return              # tables modelled by a check
        new = mk('store', b, i, v, node=node, mod=ctx.module)
        self.rebind(st, b, new)
        self.rebind_heap(st, b, new)
        if isinstance(tnode.value, ast.Attribute):
            ob = self.ev(tnode.value.value, st, ctx)
            for o in alts(ob):
                if o.op == 'obj':
                    h = self.h(st, o)
                    if h is not None and isinstance(h.cls, ClassInfo):
                        c, e = h.cls.lookup(tnode.value.attr)
                        if not (e and e['kind'] == 'property'):
                            h = st.wobj(o.a[0])
                            h.fields[tnode.value.attr] = new

    # ------------------------------------------------------------------ truth & facts
    def truth(self, t, st):
        r = self.hook('truth', t, st)
        if r is not None:
            return r
        op = t.op
        if op == 'const':
            return bool(t.a[0])
        if t.uid in st.facts:
            return st.facts[t.uid]
        if op == 'un' and t.a[0] == 'not':
            r = self.truth(t.a[1], st)
            return None if r is None else not r
        if op == 'bool':
            rs = [self.truth(x, st) for x in t.a[1]]
            if t.a[0] == 'and':
                return False if any(r is False for r in rs) else (True if all(r is True for r in rs) else None)
            return True if any(r is True for r in rs) else (False if all(r is False for r in rs) else None)
        if op in ('func', 'closure', 'bound', 'class', 'mod'):
            return True
        if op == 'obj':
            h = self.h(st, t)
            if h is not None and h.cls == 'list' and not h.open:
                return len(h.fields['items']) > 0
            if h is not None and h.cls == 'dict' and not h.open and h.init is None:
                return len(h.fields) > 0
            if h is not None and isinstance(h.cls, ClassInfo) and h.cls.lookup('__bool__')[1] is None and h.cls.lookup('__len__')[1] is None:
                return True
            return None
        if op in ('tuple', 'list'):
            return len(t.a[0]) > 0 if not any(x.op == 'star' for x in t.a[0]) else None
        if op == 'phi':
            rs = [self.truth(x, st) for x in alts(t) if x is not UNBOUND]
            if rs and all(r is True for r in rs):
                return True
            if rs and all(r is False for r in rs):
                return False
            return None
        if op == 'cmp':
            return self.truth_cmp(t, st)
        return None

    def truth_cmp(self, t, st):
        o, a, b = t.a
        if o in ('is', 'is not', '==', '!='):
            neg = o in ('is not', '!=')
            if a is b and a.op not in ('unk', 'call', 'mcall', 'phi', 'field', 'sub', 'bin', 'param', 'store', 'ro', 'elem'):
                return not neg
            if a is b and a.op == 'call' and a.a[0].op == 'ext' and a.a[0].a[0] in ('id', 'str', 'repr', 'type', 'hash', 'len', 'int'):
                return not neg
            for x, y in ((a, b), (b, a)):
                if is_const(y, None):
                    if x.op == 'const':
                        r = x.a[0] is None
                        return r != neg
                    if x.op in ('obj', 'tuple', 'list', 'func', 'closure', 'bound', 'class', 'nt', 'fstr', 'bin', 'ro', 'store', 'comp', 'mod', 'partial', 'un', 'cmp', 'fmt', 'rangeidx', 'idx', 'class', 'newinst', 'slice') and (o.startswith('is') or x.op != 'obj'):
                        return neg
                    if never_none(x):
                        return neg
                    if x.op == 'phi':
                        rs = {self.truth_cmp(mk('cmp', o, z, y), st) for z in alts(x) if z is not UNBOUND}
                        if len(rs) == 1:
                            return rs.pop()
            if a.op == 'const' and b.op == 'const':
                try:
                    return (a.a[0] == b.a[0]) != neg
                except Exception:
                    return None
            if a.op == 'func' and b.op == 'func' and a is not b:
                return neg
            # known equalities
            for x, y in ((a, b), (b, a)):
                if y.op == 'const':
                    for uid, val in st.facts.items():
                        ft = self._fact_terms.get(uid) if hasattr(self, '_fact_terms') else None
                        if ft is None or ft.op != 'cmp':
                            continue
                        fo, fa, fb = ft.a
                        if fa is x and fb.op == 'const' and fo in ('==', 'is', '!=', 'is not'):
                            eq = val if fo in ('==', 'is') else not val
                            same = type(fb.a[0]) is type(y.a[0]) and fb.a[0] == y.a[0]
                            if eq and same:
                                return not neg
                            if eq and not same:
                                return neg
                            if not eq and same:
                                return neg
                        if fa is x and fo == 'in' and val:
                            el = self.elements(st, fb)
                            if el is not None and all(e.op == 'const' for e in el) and not any(e.a[0] == y.a[0] for e in el):
                                return neg
            return None
        if o in ('in', 'not in'):
            neg = o == 'not in'
            el = self.elements(st, b)
            if b.op == 'const' and a.op == 'const':
                try:
                    return (a.a[0] in b.a[0]) != neg
                except Exception:
                    return None
            if el is not None and a.op == 'const' and all(e.op == 'const' for e in el):
                return any(e.a[0] == a.a[0] for e in el) != neg
            if el is not None and any(e is a for e in el) and a.op != 'unk':
                return not neg
            if el is not None:
                rs = [self.truth(mk('cmp', '==', a, e), st) for e in el if e.op == 'const']
                if len(rs) == len(el) and all(r is False for r in rs):
                    return neg
                if any(r is True for r in rs):
                    return not neg
            return None
        if a.op == 'const' and b.op == 'const':
            try:
                x, y = a.a[0], b.a[0]
                return {'<': lambda: x < y, '<=': lambda: x <= y, '>': lambda: x > y, '>=': lambda: x >= y}[o]()
            except Exception:
                return None
        return None

    def assume(self, t, val, st):
        if t.op == 'const':
            return
        if not hasattr(self, '_fact_terms'):
            self._fact_terms = {}
        if t.op == 'un' and t.a[0] == 'not':
            return self.assume(t.a[1], not val, st)
        if t.op == 'bool':
            if t.a[0] == 'and' and val or t.a[0] == 'or' and not val:
                for x in t.a[1]:
                    self.assume(x, val, st)
            elif t.a[0] == 'and' or t.a[0] == 'or':
                # and is false / or is true: if all but one operand are decided, the last one is
                undec = [x for x in t.a[1] if self.truth(x, st) is None]
                if len(undec) == 1 and all(self.truth(x, st) is (t.a[0] == 'and') for x in t.a[1] if x is not undec[0]):
                    self.assume(undec[0], val, st)
        self._fact_terms[t.uid] = t
        st.facts[t.uid] = val
        if t.op == 'cmp':
            o, a, b = t.a
            inv = {'==': '!=', '!=': '==', 'is': 'is not', 'is not': 'is', 'in': 'not in', 'not in': 'in', '<': '>=', '>=': '<', '>': '<=', '<=': '>'}[o]
            n = mk('cmp', inv, a, b)
            self._fact_terms[n.uid] = n
            st.facts[n.uid] = not val
            # narrowing of joined values:  x is None / x == const
            if o in ('is', '==', 'is not', '!=') and a.op == 'phi':
                pos = val if o in ('is', '==') else not val
                keep = []
                for x in alts(a):
                    r = self.truth_cmp(mk('cmp', '==', x, b), st) if x is not UNBOUND else None
                    if r is None or r == pos:
                        keep.append(x)
                if keep and len(keep) < len(alts(a)):
                    nv = phi(keep, a.a[1])
                    for fr in st.frames:
                        for k, v in fr.env.items():
                            if v is a:
                                fr.env[k] = nv
            if o in ('is', '==') and val and b.op == 'const' and a.op in ('param', 'kwget', 'field', 'sub', 'phi', 'elem') and b.a[0] is None:
                for fr in st.frames:
                    for k, v in fr.env.items():
                        if v is a:
                            fr.env[k] = b

    # ------------------------------------------------------------------ statements
    def block(self, stmts, st, ctx):
        for s in stmts:
            if st is None or st.dead:
                return None
            st = self.stmt(s, st, ctx)
        return st if st is not None and not st.dead else None

    def stmt(self, s, st, ctx):
        m = getattr(self, 's_' + type(s).__name__, None)
        if m is None:
            return st
        r = m(s, st, ctx)
        return r if r is not None and not r.dead else None

    def s_Expr(self, s, st, ctx):
        if isinstance(s.value, (ast.Yield,)):
            return self.do_yield(s.value, st, ctx)
        self.ev(s.value, st, ctx)
        return st

    def do_yield(self, y, st, ctx):
        v = self.ev(y.value, st, ctx) if y.value is not None else NONE
        if ctx.on_yield is not None:
            return ctx.on_yield(v, st)
        return st

    def s_Assign(self, s, st, ctx):
        v = self.ev(s.value, st, ctx)
        if st.dead:
            return None
        for t in s.targets:
            self.assign(t, v, st, ctx, s)
        return st

    def s_AnnAssign(self, s, st, ctx):
        if s.value is not None:
            v = self.ev(s.value, st, ctx)
            if not st.dead:
                self.assign(s.target, v, st, ctx, s)
        return st

    def s_AugAssign(self, s, st, ctx):
        o = OPS[type(s.op)]
        if isinstance(s.target, ast.Name):
            old = self.name(s.target.id, st, ctx, s.target)
            v = self.ev(s.value, st, ctx)
            if st.dead:
                return None
            h = self.h(st, old)
            if h is not None and h.cls == 'list' and o == '+':
                self.list_extend(old, v, st, s, ctx)
                return st
            self.emit('augmutate', st, s, ctx, base=old, value=v, target=s.target)
            self.assign(s.target, self.binop(o, old, v, st, s, ctx), st, ctx, s)
        elif isinstance(s.target, ast.Attribute):
            b = self.ev(s.target.value, st, ctx)
            old = self.getattr_(b, s.target.attr, st, s, ctx)
            v = self.ev(s.value, st, ctx)
            if st.dead:
                return None
            h = self.h(st, old)
            if h is not None and h.cls == 'list' and o == '+':
                self.list_extend(old, v, st, s, ctx)
                return st
            self.emit('augmutate', st, s, ctx, base=old, value=v, target=s.target)
            self.setattr_(b, s.target.attr, self.binop(o, old, v, st, s, ctx), st, s, ctx)
        elif isinstance(s.target, ast.Subscript):
            b = self.ev(s.target.value, st, ctx)
            i = self.ev(s.target.slice, st, ctx)
            old = self.getitem(b, i, st, s, ctx)
            v = self.ev(s.value, st, ctx)
            if st.dead:
                return None
            self.setitem(s.target, b, i, self.binop(o, old, v, st, s, ctx), st, s, ctx)
        return st

    def assign(self, t, v, st, ctx, node):
        if isinstance(t, ast.Name):
            if t.id in ctx.globals:
                self.emit('setglobal', st, node, ctx, name=t.id, value=v)
                return
            if t.id in ctx.nonlocals:
                c = ctx.closure
                while c is not None:
                    for fr in reversed(st.frames):
                        if fr.uid == c.frame_uid and t.id in fr.env:
                            fr.env[t.id] = v
                            return
                    c = c.parent
            st.frames[-1].env[t.id] = v
        elif isinstance(t, (ast.Tuple, ast.List)):
            self.unpack(t.elts, v, st, ctx, node)
        elif isinstance(t, ast.Starred):
            self.assign(t.value, v, st, ctx, node)
        elif isinstance(t, ast.Attribute):
            b = self.ev(t.value, st, ctx)
            if not st.dead:
                self.setattr_(b, t.attr, v, st, node, ctx)
        elif isinstance(t, ast.Subscript):
            b = self.ev(t.value, st, ctx)
            i = self.ev(t.slice, st, ctx)
            if not st.dead:
                self.setitem(t, b, i, v, st, node, ctx)

    def unpack(self, elts, v, st, ctx, node):
        el = self.elements(st, v)
        stars = [i for i, e in enumerate(elts) if isinstance(e, ast.Starred)]
        if el is not None and not stars and len(el) == len(elts) and not any(x.op == 'star' for x in el):
            for t, x in zip(elts, el):
                self.assign(t, x, st, ctx, node)
            return
        if el is not None and not stars and len(el) != len(elts) and not any(x.op == 'star' for x in el):
            self.emit('badunpack', st, node, ctx, value=v, have=len(el), want=len(elts))
        if el is not None and len(stars) == 1 and not any(x.op == 'star' for x in el):
            k = stars[0]
            after = len(elts) - k - 1
            for t, x in zip(elts[:k], el[:k]):
                self.assign(t, x, st, ctx, node)
            self.assign(elts[k], mk('tuple', tuple(el[k:len(el) - after])), st, ctx, node)
            for t, x in zip(elts[k + 1:], el[len(el) - after:]):
                self.assign(t, x, st, ctx, node)
            return
        for i, t in enumerate(elts):
            self.assign(t, self.getitem(v, const(i), st, node, ctx), st, ctx, node)

    def s_Return(self, s, st, ctx):
        v = self.ev(s.value, st, ctx) if s.value is not None else NONE
        if not st.dead:
            ctx.returns.append((v, st))
            self.emit('return', st, s, ctx, value=v)
        return None

    def s_Raise(self, s, st, ctx):
        if s.exc is None:
            e = getattr(ctx, 'cur_exc', None) or unk('exc')
        else:
            e = self.ev(s.exc, st, ctx)
        if not st.dead:
            self.do_raise(e, st, s, ctx)
        return None

    def do_raise(self, e, st, node, ctx):
        self.emit('raise', st, node, ctx, exc=e)
        self.sinks[-1].append((e, st.copy(), node, ctx))
        st.dead = True

    def cond_fork(self, test, st, ctx):
        """-> (cond term, true state|None, false state|None)"""
        c = self.ev(test, st, ctx)
        if st.dead:
            return c, None, None
        r = self.truth(c, st)
        self.emit('branch', st, test, ctx, cond=c, taken=r)
        if r is True:
            return c, st, None
        if r is False:
            return c, None, st
        s1, s2 = st.copy(), st
        self.assume(c, True, s1)
        self.assume(c, False, s2)
        return c, s1, s2

    def add_cond(self, ctx, c):
        ctx.conds = tuple(dict.fromkeys(getattr(ctx, 'conds', ()) + (c,)))

    def s_If(self, s, st, ctx):
        c, s1, s2 = self.cond_fork(s.test, st, ctx)
        if s1 is not None and s2 is not None:
            self.add_cond(ctx, c)
        o1 = self.block(s.body, s1, ctx) if s1 is not None else None
        o2 = (self.block(s.orelse, s2, ctx) if s.orelse else s2) if s2 is not None else None
        return join_states([o1, o2], (c,))

    def assigned(self, stmts):
        out = set()
        for s in stmts:
            for x in ast.walk(s):
                if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store):
                    out.add(x.id)
        return out

    def iter_elem(self, it, st, ctx, node):
        """Symbolic element of an iterable."""
        if it.op == 'call' and it.a[0].op == 'ext':
            n = it.a[0].a[0]
            if n == 'enumerate':
                return mk('tuple', (mk('idx', it.a[1][0]), self.iter_elem(it.a[1][0], st, ctx, node)))
            if n == 'zip':
                return mk('tuple', tuple(self.iter_elem(x, st, ctx, node) for x in it.a[1]))
            if n == 'range':
                return mk('rangeidx', it.a[1])
            if n in ('reversed', 'sorted', 'list', 'tuple', 'iter', 'set') and it.a[1]:
                return self.iter_elem(it.a[1][0], st, ctx, node)
            if n.endswith('tqdm') and it.a[1]:
                return self.iter_elem(it.a[1][0], st, ctx, node)
        if it.op == 'mcall' and it.a[1] == 'items' and not it.a[2]:
            return mk('tuple', (mk('dkey', it.a[0]), mk('dval', it.a[0])))
        if it.op == 'obj':
            h = self.h(st, it)
            if h is not None and h.cls == 'list':
                its = h.fields['items']
                return phi(its) if len(its) == 1 else mk('elem', mk('tuple', its))
            if h is not None and h.init is not None:
                return mk('elem', h.init)
        if it.op in ('tuple', 'list') and it.a[0]:
            return phi(list(it.a[0]))
        if it.op == 'comp':
            return it.a[1]
        return mk('elem', it)

    def s_For(self, s, st, ctx):
        it = self.ev(s.iter, st, ctx)
        if st.dead:
            return None
        el = self.elements(st, it)
        self.emit('for', st, s, ctx, iter=it, elements=el)
        if el is not None and (len(el) <= getattr(self.hooks, "unroll", UNROLL) or len(el) <= 400 and any(y.op in ('func', 'closure') for x in el for y in (x.a[0] if x.op == 'tuple' else (x,)))) and not any(x.op == 'star' for x in el):
            breaks = []
            cur = st
            for x in el:
                lp = {'b': [], 'c': []}
                ctx.loopstack.append(lp)
                self.assign(s.target, x, cur, ctx, s)
                end = self.block(s.body, cur, ctx)
                ctx.loopstack.pop()
                breaks += lp['b']
                cur = join_states([end] + lp['c'])
                if cur is None:
                    break
            if cur is not None and s.orelse:
                cur = self.block(s.orelse, cur, ctx)
            return join_states([cur] + breaks)
        pre = st.copy()
        self.havoc(s, st)
        self.assign(s.target, self.iter_elem(it, st, ctx, s), st, ctx, s)
        self.hook('loop_enter', s, it, st, ctx)
        lp = {'b': [], 'c': []}
        ctx.loopstack.append(lp)
        self.emit('loop_body', st, s, ctx, iter=it)
        end = self.block(s.body, st.copy(), ctx)
        ctx.loopstack.pop()
        lend = join_states([end] + lp['c'])
        self.bind_loop(s, lend)
        self.hook('loop_exit', s, it, pre, lend, lp['b'], ctx)
        out = join_states([pre, lend], (mk('loopcond', it),))
        if out is not None and s.orelse:
            out = self.block(s.orelse, out, ctx)
        return join_states([out] + lp['b'], (mk('loopcond', it),))

    def havoc(self, s, st):
        lid = next(self._lid)
        s._lid = lid
        for n in self.assigned(s.body + ([ast.Expr(s.target)] if isinstance(s, ast.For) else [])):
            old = st.frames[-1].env.get(n)
            key = f'{lid}:{n}'
            lv = mk('loopvar', key, n)
            if old is not None:
                st.frames[-1].env[n] = phi([old, lv])
        # heap objects mutated in the body: lists/dicts become open (their summary keeps known contents)

    def bind_loop(self, s, lend):
        if lend is None:
            return
        for n, v in lend.frames[-1].env.items():
            self.loops[f'{s._lid}:{n}'] = v

    def same_round(self, s, a, b):
        """Whether a round of a loop left everything as it found it: what the next round may read, and all objects that existed."""
        live, seen = set(), set()
        for x in sorted((x for x in ast.walk(s) if isinstance(x, ast.Name)), key=lambda x: (x.lineno, isinstance(x.ctx, ast.Store), x.col_offset)):
            if x.id not in seen and isinstance(x.ctx, ast.Load):
                live.add(x.id)
            seen.add(x.id)
        ea, eb = a.frames[-1].env, b.frames[-1].env
        if any(ea.get(n) is not eb.get(n) for n in live):
            return False
        for k, o in a.heap.items():
            q = b.heap.get(k)
            if q is None or q is not o and (q.fields.keys() != o.fields.keys() or any(q.fields[f] is not o.fields[f] for f in o.fields)):
                return False
        return True

    def s_While(self, s, st, ctx):
        early, n, lit = [], 0, isinstance(s.test, ast.Constant)
        while n < getattr(self.hooks, 'unroll', UNROLL):
            # iterations whose condition is decided are executed one by one
            was, self.quiet = self.quiet, True
            p = st.copy()
            r = self.truth(self.ev(s.test, p, ctx), p)
            self.quiet = was
            if r is None or p.dead:
                break
            start = st.copy()
            c, s1, s2 = self.cond_fork(s.test, st, ctx)
            if s1 is None:
                if s2 is not None and s.orelse:
                    s2 = self.block(s.orelse, s2, ctx)
                return join_states([s2] + early)
            if lit and n == 0 and not any(isinstance(x, ast.Break) for x in ast.walk(s)):
                st = start
                break
            lp = {'b': [], 'c': []}
            ctx.loopstack.append(lp)
            self.emit('loop_iter', s1, s, ctx)
            end = self.block(s.body, s1, ctx)
            ctx.loopstack.pop()
            end = join_states([end] + lp['c'])
            if lp['b'] and end is not None:
                st = start
                break
            early += lp['b']
            if end is None:
                return join_states(early)
            if n and self.same_round(s, start, end):
                self.emit('loop_same', end, s, ctx)
            st = end
            n += 1
        pre = st.copy()
        self.havoc(s, st)
        c, s1, s2 = self.cond_fork(s.test, st, ctx)
        if s1 is None and s2 is not None:
            # condition constant-false with the havocked state: body dead
            return join_states([self.block(s.orelse, pre, ctx) if s.orelse else pre] + early)
        lp = {'b': [], 'c': []}
        ctx.loopstack.append(lp)
        self.emit('loop_body', s1, s, ctx, iter=None) if s1 is not None else None
        end = self.block(s.body, s1, ctx) if s1 is not None else None
        ctx.loopstack.pop()
        lend = join_states([end] + lp['c'])
        self.bind_loop(s, lend)
        outs = []
        if s2 is not None:
            if lend is not None:
                e2 = lend.copy()
                self.assume(c, False, e2)
                outs.append(e2)
            outs.append(s2)
        out = join_states(outs, (c,))
        if out is not None and s.orelse:
            out = self.block(s.orelse, out, ctx)
        return join_states([out] + lp['b'] + early, (c,))

    def s_Break(self, s, st, ctx):
        if ctx.loopstack:
            ctx.loopstack[-1]['b'].append(st)
        return None

    def s_Continue(self, s, st, ctx):
        if ctx.loopstack:
            ctx.loopstack[-1]['c'].append(st)
        return None

    def s_Pass(self, s, st, ctx):
        return st

    def s_Assert(self, s, st, ctx):
        c, s1, s2 = self.cond_fork(s.test, st, ctx)
        return s1

    def s_Delete(self, s, st, ctx):
        for t in s.targets:
            if isinstance(t, ast.Name):
                st.frames[-1].env.pop(t.id, None)
            elif isinstance(t, ast.Subscript):
                b = self.ev(t.value, st, ctx)
                self.emit('mutate', st, s, ctx, base=b, idx=NONE, value=NONE, how='del')
        return st

    def s_Global(self, s, st, ctx):
        ctx.globals |= set(s.names)
        return st

    def s_Nonlocal(self, s, st, ctx):
        ctx.nonlocals |= set(s.names)
        return st

    def s_Import(self, s, st, ctx):
        for a in s.names:
            n = a.asname or a.name.split('.')[0]
            full = a.name if a.asname else a.name.split('.')[0]
            st.frames[-1].env[n] = mk('mod', full) if full in self.prog.modules else mk('ext', canon_ext(full))
        return st

    def s_ImportFrom(self, s, st, ctx):
        m = ctx.module._relmod(s.level, s.module or '')
        for a in s.names:
            mod = self.prog.modules.get(m)
            v = None
            if mod is not None:
                v = self.module_value(mod, a.name)
                if v is None and f'{m}.{a.name}' in self.prog.modules:
                    v = mk('mod', f'{m}.{a.name}')
                if v is not None:
                    self.import_heap(st, v)
            st.frames[-1].env[a.asname or a.name] = v if v is not None else mk('ext', canon_ext(f'{m}.{a.name}'))
        return st

    def make_closure(self, node, st, ctx):
        d, kd = self.eval_defaults(node, st, ctx)
        # a repeated evaluation of the same def in the same frame denotes the same closure value
        cid = next(self._cid)
        env = dict(st.frames[-1].env) if st.frames else {}
        c = Closure(node, ctx, env, st.frames[-1].uid if st.frames else 0, d, kd, ctx.closure)
        self.closures[cid] = c
        return mk('closure', cid, getattr(node, 'name', 'lambda'), node=node, mod=ctx.module)

    def s_FunctionDef(self, s, st, ctx):
        v = self.make_closure(s, st, ctx)
        c = self.closures[v.a[0]]
        c.env[s.name] = v
        for d in reversed(s.decorator_list):
            if isinstance(d, ast.Name) and d.id in ('wraps',) or isinstance(d, ast.Call) and ast.unparse(d.func).split('.')[-1] == 'wraps':
                if isinstance(d, ast.Call) and d.args:
                    wv = self.ev(d.args[0], st, ctx)
                    for (u, k), x in list(self.func_attrs.items()):
                        if u == wv.uid:
                            self.func_attrs[(v.uid, k)] = x
                    self.func_attrs[(v.uid, '__wrapped__')] = wv
                continue
            dv = self.ev(d, st, ctx)
            if dv.op in ('func', 'closure', 'bound'):
                nv = self.call(dv, [v], {}, st, d, ctx)
                if nv.op in ('func', 'closure', 'bound'):
                    v = nv
        st.frames[-1].env[s.name] = v
        return st

    s_AsyncFunctionDef = s_FunctionDef

    def s_ClassDef(self, s, st, ctx):
        st.frames[-1].env[s.name] = unk('local class')
        return st

    # -- exceptions
    def exc_name(self, e):
        if e.op == 'obj':
            return e.a[1], None
        if e.op == 'class':
            return self.prog.classes[e.a[0]].name, self.prog.classes[e.a[0]]
        if e.op == 'call' and e.a[0].op == 'ext':
            return e.a[0].a[0].split('.')[-1], None
        if e.op == 'ext':
            return e.a[0].split('.')[-1], None
        return None, None

    def exc_matches(self, e, handler, st):
        """True / False / None(may) whether exception value e is caught by handler type term."""
        if handler is None:
            return True
        hs = self.elements(st, handler) or [handler]
        res = False
        for h in hs:
            hn, hc = self.exc_name(h)
            if hn in ('Exception', 'BaseException'):
                en, _ = self.exc_name(e)
                if hn == 'BaseException' or en not in ('KeyboardInterrupt', 'SystemExit', 'GeneratorExit'):
                    return True
            en, ec = self.exc_name(e)
            if en is None or hn is None:
                res = None
                continue
            ec = ec or next((c for c in self.prog.classes.values() if c.name == en), None)
            hc = hc or next((c for c in self.prog.classes.values() if c.name == hn), None)
            if en == hn:
                return True
            if ec is not None:
                names = [c.name if isinstance(c, ClassInfo) else str(c).split('.')[-1] for c in ec.mro()]
                if hn in names:
                    return True
                hb = exc_base(hn)
                if hb is not None and any(exc_base(n) and issubclass(exc_base(n), hb) for n in names):
                    return True
            elif hc is None:
                eb, hb = exc_base(en), exc_base(hn)
                if eb and hb and issubclass(eb, hb):
                    return True
                if eb is None or hb is None:
                    res = None
        return res

    def s_Try(self, s, st, ctx):
        depth = len(st.frames)
        sink, snaps = [], []
        nret = len(ctx.returns)
        lp = ctx.loopstack[-1] if ctx.loopstack else {'b': [], 'c': []}
        nb, nc = len(lp['b']), len(lp['c'])
        pre = st.copy()
        self.sinks.append(sink)
        self.trys.append(snaps if s.handlers or s.finalbody else (self.trys[-1] if self.trys else None))
        out = self.block(s.body, st, ctx)
        self.trys.pop()
        self.sinks.pop()
        if out is not None and s.orelse:
            # exceptions of the else clause are not caught here
            out = self.block(s.orelse, out, ctx)
        escaped = []
        outs = [out]
        pending = [(e, es, n, c) for e, es, n, c in sink]
        mays = []
        for nm, sn, recv, args in snaps:
            r = self.hook('may_raise', nm, recv, args, sn)
            if r is False:
                continue
            mays.append((nm, sn, r))
        hsink = []
        if s.handlers and not mays and not pending and self.hook('implicit_raise', s) is not False:
            # nothing recorded can raise: still allow implicit failures of the body
            mays.append(('<implicit>', pre, None))
        handled_any = False
        remaining_mays = list(mays)
        for h in s.handlers:
            sts = []
            ht = self.ev(h.type, pre.copy(), ctx) if h.type is not None else None
            keep = []
            for p in pending:
                m = self.exc_matches(p[0], ht, p[1])
                if m is False:
                    keep.append(p)
                else:
                    sts.append((p[1].copy(), p[0]))
                    if m is None:
                        keep.append(p)
            pending = keep
            km = []
            for nm, sn, et in remaining_mays:
                if et is None:
                    sts.append((sn.copy(), None))
                    km.append((nm, sn, et))
                else:
                    m = self.exc_matches(et, ht, sn)
                    if m is not False:
                        sts.append((sn.copy(), et))
                    if m is not True:
                        km.append((nm, sn, et))
            remaining_mays = km
            if not sts:
                continue
            for x, e in sts:
                x.frames = x.frames[:depth]
            j = join_states([x for x, e in sts], (mk('excpath', id(s) % 1000003),))
            es = [e for x, e in sts if e is not None]
            ev = phi(es) if es and len(es) == len(sts) else (phi(es + [unk('exc')]) if es else mk('exc', ctx.module.rel, h.lineno))
            if h.name:
                j.frames[-1].env[h.name] = ev
            save = getattr(ctx, 'cur_exc', None)
            ctx.cur_exc = ev
            self.emit('handler', j, h, ctx, types=ht, exc=ev)
            self.sinks.append(hsink)
            o = self.block(h.body, j, ctx)
            self.sinks.pop()
            ctx.cur_exc = save
            outs.append(o)
        escaped += pending + hsink
        # unknown exceptions that no handler is guaranteed to catch
        catch_all = any(h.type is None or isinstance(h.type, ast.Name) and h.type.id in ('Exception', 'BaseException') for h in s.handlers)
        if s.finalbody:
            rets = ctx.returns[nret:]
            del ctx.returns[nret:]
            for v, rs in rets:
                o = self.block(s.finalbody, rs, ctx)
                if o is not None:
                    ctx.returns.append((v, o))
            for key, k in (('b', nb), ('c', nc)):
                xs = lp[key][k:]
                del lp[key][k:]
                for x in xs:
                    o = self.block(s.finalbody, x, ctx)
                    if o is not None:
                        lp[key].append(o)
            esc2 = []
            for e, es, n, c in escaped:
                d = es.frames
                es.frames = es.frames[:depth]
                o = self.block(s.finalbody, es, ctx)
                if o is not None:
                    esc2.append((e, o, n, c))
            escaped = esc2
            if not catch_all and remaining_mays:
                j = join_states([self._trim(sn, depth) for nm, sn, et in remaining_mays])
                if j is not None:
                    o = self.block(s.finalbody, j, ctx)
            fin = join_states(outs, (mk('excpath', id(s) % 1000003),))
            out = self.block(s.finalbody, fin, ctx) if fin is not None else None
        else:
            out = join_states(outs, (mk('excpath', id(s) % 1000003),))
        self.sinks[-1].extend(escaped)
        return out

    s_TryStar = s_Try

    def _trim(self, s, depth):
        s = s.copy()
        s.frames = s.frames[:depth]
        return s

    def s_With(self, s, st, ctx):
        return self.with_items(s, s.items, st, ctx)

    s_AsyncWith = s_With

    def with_items(self, s, items, st, ctx):
        if not items:
            return self.block(s.body, st, ctx)
        it = items[0]
        v = self.ev(it.context_expr, st, ctx)
        if st.dead:
            return None
        self.emit('with', st, it.context_expr, ctx, value=v)
        if v.op == 'gen' and v.a[0].op in ('func', 'closure'):
            f = v.a[0]
            if f.op == 'func':
                fi = self.fi_of(f)
                node, module, cls = fi.node, fi.module, fi.cls
            else:
                c0 = self.closures[f.a[0]]
                fi, node, module, cls = None, c0.node, c0.ctx.module, c0.ctx.cls
            dfl = self.func_defaults(node, module, cls)
            env = self.bind_args(node.args, dfl[0], dfl[1], list(v.a[1]), dict(v.a[2]), st)
            depth = len(st.frames)

            def on_yield(val, ist):
                # run the with-body in the caller's frame; whatever leaves it passes through the rest of the context manager
                cm_frames = ist.frames[depth:]
                ist.frames = ist.frames[:depth]
                if it.optional_vars is not None:
                    self.assign(it.optional_vars, val, ist, ctx, s)
                lp = ctx.loopstack[-1] if ctx.loopstack else {'b': [], 'c': []}
                n0, nb, nc = len(ctx.returns), len(lp['b']), len(lp['c'])
                snaps = self.trys[-1] if self.trys else None
                ns = len(snaps) if snaps is not None else 0
                sink = []
                self.sinks.append(sink)
                try:
                    o = self.with_items(s, items[1:], ist, ctx)
                finally:
                    self.sinks.pop()

                def resume(x):
                    x.frames = x.frames[:depth] + [Frame(dict(f.env), f.uid) for f in cm_frames]
                    return x
                for e, es, n, c in sink:
                    self.sinks[-1].append((e, resume(es), n, c))
                if snaps is not None:
                    for sn in snaps[ns:]:
                        resume(sn[1])
                # a return, break or continue resumes the context manager as a normal end of the body does
                outs = [] if o is None else [(NONE, o)]
                for kind, xs, k in (('ret', ctx.returns, n0), ('b', lp['b'], nb), ('c', lp['c'], nc)):
                    new = xs[k:]
                    del xs[k:]
                    outs += [(mk('leave', kind, x[0]), x[1]) if kind == 'ret' else (mk('leave', kind, NONE), x) for x in new]
                for mark, x in outs:
                    resume(x).frames[depth].env['$leave'] = mark
                return join_states([x for mark, x in outs])
            cctx = FrameCtx(fi, module, cls, None, on_yield)
            cctx.qual = fi.qual if fi else getattr(node, 'name', '?')
            st.frames.append(Frame(env))
            self.stack.append((cctx.qual, node))
            try:
                o = self.block(node.body, st, cctx)
            finally:
                self.stack.pop()
            outs = []
            for x in [o] + [x for _, x in cctx.returns]:
                if x is None:
                    continue
                marks = alts(x.frames[depth].env.get('$leave', NONE))
                x.frames = x.frames[:depth]
                for i, m in enumerate(marks):
                    y = x if i == len(marks) - 1 else x.copy()
                    if m.op != 'leave':
                        outs.append(y)
                    elif m.a[0] == 'ret':
                        ctx.returns.append((m.a[1], y))
                    elif ctx.loopstack:
                        ctx.loopstack[-1][m.a[0]].append(y)
            return join_states(outs)
        if v.op == 'call' and v.a[0].op == 'ext' and v.a[0].a[0] == 'contextlib.suppress':
            tr = ast.Try(body=s.body, handlers=[], orelse=[], finalbody=[])
            ast.copy_location(tr, s)
            h = ast.ExceptHandler(type=it.context_expr.args[0] if it.context_expr.args else None, name=None, body=[ast.Pass()])
            ast.copy_location(h, s)
            tr.handlers = [h]
            return self.s_Try(tr, st, ctx)
        tv = v
        if v.op == 'obj':
            h = self.h(st, v)
            if h is not None and isinstance(h.cls, ClassInfo):
                c, e = h.cls.lookup('__enter__')
                if e and e['kind'] == 'func':
                    tv = self.call(self.func_value(e['fi']), [v], {}, st, it.context_expr, ctx)
                    c2, e2 = h.cls.lookup('__exit__')
                    if it.optional_vars is not None and not st.dead:
                        self.assign(it.optional_vars, tv, st, ctx, s)
                    o = self.with_items(s, items[1:], st, ctx)
                    if o is not None and e2 and e2['kind'] == 'func':
                        self.call(self.func_value(e2['fi']), [v, NONE, NONE, NONE], {}, o, it.context_expr, ctx)
                    return o
        if it.optional_vars is not None:
            self.assign(it.optional_vars, tv, st, ctx, s)
        if v.op == 'obj' and (h := self.h(st, v)) is not None and h.cls == 'file':
            # closed however the body is left
            lp = ctx.loopstack[-1] if ctx.loopstack else {'b': [], 'c': []}
            n0, nb, nc = len(ctx.returns), len(lp['b']), len(lp['c'])
            sink = []
            self.sinks.append(sink)
            try:
                o = self.with_items(s, items[1:], st, ctx)
            finally:
                self.sinks.pop()
            for x in [o] + [x[1] for x in sink] + [x[1] for x in ctx.returns[n0:]] + lp['b'][nb:] + lp['c'][nc:]:
                if x is not None:
                    self.hook('file_exit', v, x)
            self.sinks[-1].extend(sink)
            return o
        o = self.with_items(s, items[1:], st, ctx)
        if o is not None:
            self.emit('with_exit', o, it.context_expr, ctx, value=v)
        return o

    def s_Match(self, s, st, ctx):
        subj = self.ev(s.subject, st, ctx)
        outs = []
        cur = st
        for case in s.cases:
            if cur is None:
                break
            p = case.pattern
            if isinstance(p, ast.MatchValue):
                c = mk('cmp', '==', subj, self.ev(p.value, cur, ctx))
            elif isinstance(p, ast.MatchSingleton):
                c = mk('cmp', 'is', subj, const(p.value))
            elif isinstance(p, ast.MatchOr) and all(isinstance(q, ast.MatchValue) for q in p.patterns):
                c = mk('cmp', 'in', subj, mk('tuple', tuple(self.ev(q.value, cur, ctx) for q in p.patterns)))
            elif isinstance(p, ast.MatchAs) and p.pattern is None:
                if p.name:
                    cur.frames[-1].env[p.name] = subj
                c = TRUE
            else:
                c = unk('match')
            if case.guard is not None:
                c = mk('bool', 'and', (c, self.ev(case.guard, cur, ctx)))
            r = self.truth(c, cur)
            if r is True:
                outs.append(self.block(case.body, cur, ctx))
                cur = None
            elif r is None:
                s1 = cur.copy()
                self.assume(c, True, s1)
                self.assume(c, False, cur)
                self.add_cond(ctx, c)
                outs.append(self.block(case.body, s1, ctx))
        outs.append(cur)
        return join_states(outs)

    # ------------------------------------------------------------------ expressions
    def ev(self, e, st, ctx):
        if st.dead:
            return unk('dead')
        return getattr(self, 'e_' + type(e).__name__, self.e_other)(e, st, ctx)

    def e_other(self, e, st, ctx):
        return unk(type(e).__name__)

    def e_Constant(self, e, st, ctx):
        return const(e.value)

    def e_Name(self, e, st, ctx):
        return self.name(e.id, st, ctx, e)

    def e_Attribute(self, e, st, ctx):
        b = self.ev(e.value, st, ctx)
        if st.dead:
            return b
        return self.getattr_(b, e.attr, st, e, ctx)

    def e_Tuple(self, e, st, ctx):
        out = []
        for x in e.elts:
            v = self.ev(x, st, ctx)
            if v.op == 'star':
                el = self.elements(st, v.a[0])
                if el is not None:
                    out.extend(el)
                    continue
            out.append(v)
        return mk('tuple', tuple(out))

    def e_List(self, e, st, ctx):
        t = self.e_Tuple(e, st, ctx)
        items = [x for x in t.a[0] if x.op != 'star']
        return self.new_list(st, items, open=len(items) != len(t.a[0]))

    def e_Set(self, e, st, ctx):
        t = self.e_Tuple(e, st, ctx)
        return mk('tuple', t.a[0]) if all(x.op == 'const' for x in t.a[0]) else mk('set', t.a[0])

    def e_Dict(self, e, st, ctx):
        d = self.new_dict(st)
        for k, v in zip(e.keys, e.values):
            vv = self.ev(v, st, ctx)
            if k is None:
                self.dict_update(d, vv, st)
            else:
                kk = self.ev(k, st, ctx)
                h = st.wobj(d.a[0])
                if kk.op == 'const' and _hashable(kk.a[0]):
                    h.fields[kk.a[0]] = vv
                else:
                    h.open = True
                    h.fields[('*', kk.uid)] = vv
        return d

    def dict_update(self, d, o, st):
        h = st.wobj(d.a[0])
        ho = self.h(st, o)
        if ho is not None and ho.cls == 'dict':
            h.fields.update(ho.fields)
            h.open = h.open or ho.open
            if ho.init is not None:
                h.init = h.init or ho.init
                h.open = True
        else:
            h.open = True
            h.fields[('**', o.uid)] = o

    def list_extend(self, lst, o, st, node, ctx):
        el = self.elements(st, o)
        h = st.wobj(lst.a[0])
        if el is not None:
            h.fields['items'] = h.fields['items'] + tuple(el)
        else:
            h.open = True
            h.fields['items'] = h.fields['items'] + (self.iter_elem(o, st, ctx, node),)

    def e_Starred(self, e, st, ctx):
        return mk('star', self.ev(e.value, st, ctx))

    def e_Slice(self, e, st, ctx):
        g = lambda x: NONE if x is None else self.ev(x, st, ctx)
        return mk('slice', g(e.lower), g(e.upper), g(e.step))

    def e_Subscript(self, e, st, ctx):
        b = self.ev(e.value, st, ctx)
        i = self.ev(e.slice, st, ctx)
        if st.dead:
            return b
        return self.getitem(b, i, st, e, ctx)

    def e_JoinedStr(self, e, st, ctx):
        parts = []
        for v in e.values:
            if isinstance(v, ast.Constant):
                parts.append(const(v.value))
            else:
                x = self.ev(v.value, st, ctx)
                plain = v.conversion == -1 and v.format_spec is None
                if x.op == 'const' and plain and isinstance(x.a[0], (str, int)):
                    parts.append(const(str(x.a[0])))
                else:
                    sp = self.ev(v.format_spec, st, ctx) if v.format_spec is not None else NONE
                    parts.append(mk('fmt', x, v.conversion, sp))
        if all(p.op == 'const' for p in parts):
            return const(''.join(p.a[0] for p in parts))
        return mk('fstr', tuple(parts), node=e, mod=ctx.module)

    def formatted(self, text, args, kwargs, node, ctx):
        """'...{}...'.format(..) as the formatted string it stands for."""
        parts, n = [], 0
        try:
            fields = list(string.Formatter().parse(text))
        except ValueError:
            return None
        for lit, name, spec, conv in fields:
            if lit:
                parts.append(const(lit))
            if name is None:
                continue
            if '{' in (spec or ''):
                return None
            if name == '':
                name, n = str(n), n + 1
            x = (args[int(name)] if int(name) < len(args) else None) if name.isdigit() else kwargs.get(name)
            if x is None or x.op == 'star' or any(a.op == 'star' for a in args):
                return None
            if x.op == 'const' and not spec and not conv and isinstance(x.a[0], (str, int)):
                parts.append(const(str(x.a[0])))
            else:
                parts.append(mk('fmt', x, ord(conv) if conv else -1, const(spec) if spec else NONE))
        if all(p.op == 'const' for p in parts):
            return const(''.join(p.a[0] for p in parts))
        return mk('fstr', tuple(parts), node=node, mod=ctx.module)

    def e_FormattedValue(self, e, st, ctx):
        return mk('fmt', self.ev(e.value, st, ctx), e.conversion, NONE)

    def e_UnaryOp(self, e, st, ctx):
        v = self.ev(e.operand, st, ctx)
        o = {'Not': 'not', 'USub': '-', 'UAdd': '+', 'Invert': '~'}[type(e.op).__name__]
        if o == 'not':
            r = self.truth(v, st)
            if r is not None:
                return const(not r)
            return v.a[1] if v.op == 'un' and v.a[0] == 'not' else mk('un', 'not', v)
        if v.op == 'const':
            try:
                return const({'-': lambda x: -x, '+': lambda x: +x, '~': lambda x: ~x}[o](v.a[0]))
            except Exception:
                pass
        if v.op == 'obj':
            h = self.h(st, v)
            if h is not None and isinstance(h.cls, ClassInfo):
                c, en = h.cls.lookup({'-': '__neg__', '+': '__pos__', '~': '__invert__'}[o])
                if en and en['kind'] == 'func':
                    return self.call(self.func_value(en['fi']), [v], {}, st, e, ctx)
        return mk('un', o, v, node=e, mod=ctx.module)

    def e_BinOp(self, e, st, ctx):
        a = self.ev(e.left, st, ctx)
        b = self.ev(e.right, st, ctx)
        if st.dead:
            return a
        return self.binop(OPS[type(e.op)], a, b, st, e, ctx)

    def binop(self, o, a, b, st, node, ctx):
        if a.op == 'const' and b.op == 'const':
            try:
                if o in ARITH and not (o == '**' and isinstance(b.a[0], (int, float)) and abs(b.a[0]) > 4096) and \
                        not (o == '*' and isinstance(a.a[0], (str, bytes)) and b.a[0] > 4096):
                    return const(ARITH[o](a.a[0], b.a[0]))
            except Exception:
                pass
        for x, y, names in ((a, b, DUNDER.get(o, (None, None))[0]), (b, a, DUNDER.get(o, (None, None))[1])):
            if x.op == 'obj' and names:
                h = self.h(st, x)
                if h is not None and isinstance(h.cls, ClassInfo):
                    c, e = h.cls.lookup(names)
                    if e is not None:
                        f = self.func_value(e['fi']) if e['kind'] == 'func' else self.class_expr(c, e['expr'])
                        return self.call(f, [x, y], {}, st, node, ctx)
        if o == '+' and a.op == 'tuple' and b.op == 'tuple':
            return mk('tuple', a.a[0] + b.a[0])
        if o == '+':
            ha, hb = self.h(st, a), self.h(st, b)
            if ha is not None and hb is not None and ha.cls == hb.cls == 'list':
                return self.new_list(st, ha.fields['items'] + hb.fields['items'], open=ha.open or hb.open)
        if o == '*':
            ha = self.h(st, a)
            if ha is not None and ha.cls == 'list' and not ha.open and b.op == 'const' and isinstance(b.a[0], int) and len(ha.fields['items']) * b.a[0] <= 64:
                return self.new_list(st, ha.fields['items'] * b.a[0])
            if ha is not None and ha.cls == 'list':
                return mk('repeat', mk('tuple', ha.fields['items']), b)
        if o in ('&', '-', '^', '|'):
            v = self.set_op(SET_OPS[o], a, b, st)
            if v is not None:
                return v
        if o == '|':
            ha = self.h(st, a)
            if ha is not None and ha.cls == 'dict':
                d = self.new_dict(st)
                self.dict_update(d, a, st)
                self.dict_update(d, b, st)
                return d
        if o == '+':
            for x, y in ((a, b), (b, a)):
                if x.op == 'const' and isinstance(x.a[0], (str, bytes)) and not x.a[0]:
                    return y
        return mk('bin', o, a, b, node=node, mod=ctx.module)

    def set_op(self, name, a, b, st):
        """Operations of sets of constants."""
        xs = []
        for x in (a, b):
            h = self.h(st, x)
            if x.op not in ('tuple', 'set') and not (h is not None and h.cls == 'list' and not h.open):
                return None
            el = self.elements(st, x)
            if el is None or not all(y.op == 'const' for y in el):
                return None
            xs.append([y.a[0] for y in el])
        p, q = xs
        try:
            if name == 'intersection':
                r = [x for x in p if x in q]
            elif name == 'difference':
                r = [x for x in p if x not in q]
            elif name == 'union':
                r = p + [x for x in q if x not in p]
            elif name == 'symmetric_difference':
                r = [x for x in p if x not in q] + [x for x in q if x not in p]
            else:
                return const({'isdisjoint': not set(p) & set(q), 'issubset': set(p) <= set(q), 'issuperset': set(p) >= set(q)}[name])
        except TypeError:
            return None
        return mk('tuple', tuple(const(x) for x in dict.fromkeys(r)))

    def e_BoolOp(self, e, st, ctx):
        o = 'and' if isinstance(e.op, ast.And) else 'or'
        vals = []
        cur = st
        for i, x in enumerate(e.values):
            v = self.ev(x, cur, ctx)
            r = self.truth(v, cur)
            if o == 'and' and r is False or o == 'or' and r is True:
                vals.append(v)
                break
            if r is None or i == len(e.values) - 1:
                vals.append(v)
            if r is None and i < len(e.values) - 1:
                if cur is st:
                    cur = st.copy()
                self.assume(v, o == 'and', cur)
        if cur is not st:
            facts = st.facts
            # side effects of the operands are kept (joined with skipping them)
            j = join_states([st, cur], (vals[0],))
            if j is not None:
                st.become(j)
        if len(vals) == 1:
            return vals[0]
        return mk('bool', o, tuple(vals), node=e)

    def e_Compare(self, e, st, ctx):
        a = self.ev(e.left, st, ctx)
        parts = []
        for op, c in zip(e.ops, e.comparators):
            b = self.ev(c, st, ctx)
            o = CMP[type(op)]
            parts.append(self.compare(o, a, b, st, e, ctx))
            a = b
        if len(parts) == 1:
            return parts[0]
        return mk('bool', 'and', tuple(parts))

    def compare(self, o, a, b, st, node, ctx):
        if o in ('==', '!='):
            for x, y in ((a, b), (b, a)):
                if x.op == 'obj':
                    h = self.h(st, x)
                    if h is not None and isinstance(h.cls, ClassInfo):
                        c, e = h.cls.lookup('__eq__')
                        if e and e['kind'] == 'func':
                            v = self.call(self.func_value(e['fi']), [x, y], {}, st, node, ctx)
                            return v if o == '==' else mk('un', 'not', v)
        if o in SWAPPED and a.op == 'const' and b.op not in ('const', 'tuple', 'obj'):
            o, a, b = SWAPPED[o], b, a
        t = mk('cmp', o, a, b, node=node, mod=ctx.module)
        r = self.truth_cmp(t, st)
        if r is not None:
            return const(r)
        return t

    def e_IfExp(self, e, st, ctx):
        c = self.ev(e.test, st, ctx)
        r = self.truth(c, st)
        self.emit('branch', st, e.test, ctx, cond=c, taken=r)
        if r is True:
            return self.ev(e.body, st, ctx)
        if r is False:
            return self.ev(e.orelse, st, ctx)
        s1, s2 = st.copy(), st.copy()
        self.assume(c, True, s1)
        self.assume(c, False, s2)
        v1 = self.ev(e.body, s1, ctx)
        v2 = self.ev(e.orelse, s2, ctx)
        j = join_states([s1, s2], (c,))
        if j is None:
            st.dead = True
            return unk('dead')
        st.become(j)
        return phi([v for v, s in ((v1, s1), (v2, s2)) if not s.dead], (c,))

    def e_Lambda(self, e, st, ctx):
        return self.make_closure(e, st, ctx)

    def e_NamedExpr(self, e, st, ctx):
        v = self.ev(e.value, st, ctx)
        self.assign(e.target, v, st, ctx, e)
        return v

    def e_Await(self, e, st, ctx):
        return self.ev(e.value, st, ctx)

    def e_Yield(self, e, st, ctx):
        if ctx.on_yield is not None:
            v = self.ev(e.value, st, ctx) if e.value is not None else NONE
            o = ctx.on_yield(v, st.copy())
            if o is None:
                st.dead = True
            else:
                st.become(o)
        return unk('yield')

    def comp(self, e, st, ctx, kind, elt_fn):
        """Comprehension; concrete iterables are unrolled."""
        def rec(gens, cur, iters, conds):
            if not gens:
                return [elt_fn(cur)], iters, conds, True
            g = gens[0]
            it = self.ev(g.iter, cur, ctx)
            el = self.elements(cur, it)
            if el is not None and len(el) <= UNROLL and not any(x.op == 'star' for x in el):
                out = []
                exact = True
                for x in el:
                    self.assign(g.target, x, cur, ctx, e)
                    skip = False
                    cs = []
                    for c in g.ifs:
                        cv = self.ev(c, cur, ctx)
                        r = self.truth(cv, cur)
                        if r is False:
                            skip = True
                            break
                        if r is None:
                            exact = False
                            cs.append(cv)
                    if skip:
                        continue
                    o, iters, conds, ex = rec(gens[1:], cur, iters, conds + cs)
                    exact = exact and ex
                    out += o
                return out, iters, conds, exact
            self.assign(g.target, self.iter_elem(it, cur, ctx, e), cur, ctx, e)
            cs = []
            for c in g.ifs:
                cv = self.ev(c, cur, ctx)
                self.emit('branch', cur, c, ctx, cond=cv, taken=None)
                cs.append(cv)
            o, iters, conds, ex = rec(gens[1:], cur, iters + [it], conds + cs)
            return o, iters, conds, False
        names = set()
        for g in e.generators:
            names |= self.assigned([ast.Expr(g.target)])
        env = st.frames[-1].env
        saved = {n: env.get(n) for n in names}
        out, iters, conds, exact = rec(e.generators, st, [], [])
        env = st.frames[-1].env
        for n, v in saved.items():
            if v is None:
                env.pop(n, None)
            else:
                env[n] = v
        return out, iters, conds, exact

    def e_ListComp(self, e, st, ctx):
        out, iters, conds, exact = self.comp(e, st, ctx, 'list', lambda s: self.ev(e.elt, s, ctx))
        if exact:
            return self.new_list(st, out)
        return mk('comp', 'list', out[0] if len(out) == 1 else mk('tuple', tuple(out)), tuple(iters), tuple(conds))

    def e_SetComp(self, e, st, ctx):
        out, iters, conds, exact = self.comp(e, st, ctx, 'set', lambda s: self.ev(e.elt, s, ctx))
        if exact:
            return mk('set', tuple(out))
        return mk('comp', 'set', out[0] if len(out) == 1 else mk('tuple', tuple(out)), tuple(iters), tuple(conds))

    def e_GeneratorExp(self, e, st, ctx):
        out, iters, conds, exact = self.comp(e, st, ctx, 'gen', lambda s: self.ev(e.elt, s, ctx))
        if exact:
            return mk('tuple', tuple(out))
        return mk('comp', 'gen', out[0] if len(out) == 1 else mk('tuple', tuple(out)), tuple(iters), tuple(conds))

    def e_DictComp(self, e, st, ctx):
        out, iters, conds, exact = self.comp(e, st, ctx, 'dict', lambda s: mk('tuple', (self.ev(e.key, s, ctx), self.ev(e.value, s, ctx))))
        d = self.new_dict(st)
        h = st.wobj(d.a[0])
        for kv in out:
            k, v = kv.a[0]
            if k.op == 'const' and _hashable(k.a[0]):
                h.fields[k.a[0]] = v
            else:
                h.open = True
                h.fields[('*', k.uid)] = v
        if not exact:
            h.open = True
            h.init = mk('comp', 'dict', out[0] if len(out) == 1 else mk('tuple', tuple(out)), tuple(iters), tuple(conds))
        return d

    def e_Call(self, e, st, ctx):
        # super()
        if isinstance(e.func, ast.Name) and e.func.id == 'super':
            slf = None
            if ctx.cls is not None and st.frames and ctx.node.args.args:
                slf = st.frames[-1].env.get(ctx.node.args.args[0].arg)
            if slf is not None:
                return mk('super', ctx.cls.qual, slf)
            return unk('super')
        if isinstance(e.func, ast.Attribute):
            b = self.ev(e.func.value, st, ctx)
            if st.dead:
                return b
            f = self.getattr_(b, e.func.attr, st, e.func, ctx)
            if f.op == 'field' and f.a[1] == e.func.attr:
                f = mk('meth', b, e.func.attr)
            elif f.op == 'phi' and all(x.op == 'field' for x in alts(f)):
                f = mk('meth', b, e.func.attr)
            elif f.op == 'phi':
                f = phi([mk('meth', x.a[0], x.a[1]) if x.op == 'field' else x for x in alts(f)], f.a[1])
        else:
            f = self.ev(e.func, st, ctx)
        args, kwargs = [], {}
        for a in e.args:
            v = self.ev(a, st, ctx)
            if v.op == 'star':
                el = self.elements(st, v.a[0])
                if el is not None:
                    args.extend(el)
                    continue
            args.append(v)
        for k in e.keywords:
            v = self.ev(k.value, st, ctx)
            if k.arg is None:
                h = self.h(st, v)
                if h is not None and h.cls == 'dict':
                    for kk, vv in h.fields.items():
                        if isinstance(kk, str):
                            kwargs[kk] = vv
                    if h.open or h.init is not None:
                        kwargs['**'] = h.init if h.init is not None else v
                else:
                    kwargs['**'] = v
            else:
                kwargs[k.arg] = v
        if st.dead:
            return unk('dead')
        return self.call(f, args, kwargs, st, e, ctx)

    # ------------------------------------------------------------------ builtin models
    def call_bmeth(self, f, args, kwargs, st, node, ctx):
        o, n = f.a
        h = self.h(st, o)
        if n == '__len__' and not args and not kwargs:
            return self.call(mk('ext', 'len'), [o], {}, st, node, ctx)
        if h.cls == 'dict':
            if n == 'items':
                if not h.open and h.init is None:
                    return self.new_list(st, [mk('tuple', (const(k), v)) for k, v in h.fields.items()])
                return mk('mcall', h.init or o, 'items', (), ())
            if n == 'keys':
                if not h.open and h.init is None:
                    return self.new_list(st, [const(k) for k in h.fields])
                return mk('mcall', h.init or o, 'keys', (), ())
            if n == 'values':
                if not h.open and h.init is None:
                    return self.new_list(st, list(h.fields.values()))
                return mk('mcall', h.init or o, 'values', (), ())
            if n in ('get', 'pop', 'setdefault') and args:
                k = args[0]
                dflt = args[1] if len(args) > 1 else NONE
                if k.op == 'const' and _hashable(k.a[0]):
                    if k.a[0] in h.fields:
                        v = h.fields[k.a[0]]
                        if n == 'pop':
                            self.emit('dictset', st, node, ctx, obj=o, key=k, value=NONE)
                            h = st.wobj(o.a[0])
                            del h.fields[k.a[0]]
                        if v.op == 'phi' and any(x is UNBOUND for x in alts(v)):
                            v = phi([x for x in alts(v) if x is not UNBOUND] + [dflt], v.a[1])
                        return v
                    if not h.open and h.init is None:
                        if n == 'setdefault':
                            self.emit('dictset', st, node, ctx, obj=o, key=k, value=dflt)
                            h = st.wobj(o.a[0])
                            h.fields[k.a[0]] = dflt
                        return dflt
                    base = mk('kwget', h.init or o, k.a[0]) if isinstance(k.a[0], str) else mk('sub', h.init or o, k)
                    return phi([base, dflt], (mk('inkw', h.init or o, k.a[0] if isinstance(k.a[0], str) else str(k.a[0])),))
                return phi([mk('sub', h.init or o, k), dflt])
            if n == 'update':
                self.emit('dictset', st, node, ctx, obj=o, key=NONE, value=args[0] if args else NONE)
                for a in args:
                    self.dict_update(o, a, st)
                h = st.wobj(o.a[0])
                for k, v in kwargs.items():
                    h.fields[k] = v
                return NONE
            if n == 'copy':
                return self.new_obj(st, 'dict', dict(h.fields), init=h.init, open=h.open)
            if n == 'clear':
                h = st.wobj(o.a[0])
                h.fields.clear()
                h.open = False
                h.init = None
                self.emit('dictclear', st, node, ctx, obj=o)
                return NONE
        if h.cls == 'list':
            if n == 'append' and args:
                self.emit('append', st, node, ctx, obj=o, value=args[0])
                h = st.wobj(o.a[0])
                h.fields['items'] = h.fields['items'] + (args[0],)
                return NONE
            if n == 'add' and args:
                self.emit('append', st, node, ctx, obj=o, value=args[0])
                if args[0] not in h.fields['items']:
                    h = st.wobj(o.a[0])
                    h.fields['items'] = h.fields['items'] + (args[0],)
                return NONE
            if n == 'extend' and args:
                self.emit('extend', st, node, ctx, obj=o, value=args[0])
                self.list_extend(o, args[0], st, node, ctx)
                return NONE
            if n == 'insert' and len(args) > 1:
                self.emit('append', st, node, ctx, obj=o, value=args[1])
                h = st.wobj(o.a[0])
                it = list(h.fields['items'])
                if args[0].op == 'const' and not h.open:
                    it.insert(args[0].a[0], args[1])
                else:
                    h.open = True
                    it.append(args[1])
                h.fields['items'] = tuple(it)
                return NONE
            if n == 'copy':
                return self.new_list(st, h.fields['items'], open=h.open)
            if n == 'clear':
                self.emit('listset', st, node, ctx, obj=o, key=NONE, value=NONE)
                h = st.wobj(o.a[0])
                h.fields['items'] = ()
                h.open = False
                return NONE
            if n in ('sort', 'reverse'):
                self.emit('listset', st, node, ctx, obj=o, key=NONE, value=NONE)
                its = h.fields['items']
                if not h.open and n == 'reverse':
                    st.wobj(o.a[0]).fields['items'] = tuple(reversed(its))
                elif not h.open and not kwargs and all(x.op == 'const' for x in its):
                    try:
                        st.wobj(o.a[0]).fields['items'] = tuple(sorted(its, key=lambda x: x.a[0]))
                    except TypeError:
                        pass
                return NONE
            if n in ('count', 'index', '__contains__') and len(args) == 1 and not h.open:
                rs = [True if x is args[0] and x.op != 'unk' else self.truth_cmp(mk('cmp', '==', x, args[0]), st) for x in h.fields['items']]
                if n == '__contains__' and (True in rs or None not in rs):
                    return const(True in rs)
                if None not in rs and n == 'count':
                    return const(rs.count(True))
                if n == 'index' and True in rs and None not in rs[:rs.index(True)]:
                    return const(rs.index(True))
            if n in ('remove', 'discard') and len(args) == 1 and not h.open:
                rs = [True if x is args[0] and x.op != 'unk' else self.truth_cmp(mk('cmp', '==', x, args[0]), st) for x in h.fields['items']]
                if True in rs and None not in rs[:rs.index(True)]:
                    i = rs.index(True)
                    self.emit('listset', st, node, ctx, obj=o, key=const(i), value=NONE)
                    st.wobj(o.a[0]).fields['items'] = h.fields['items'][:i] + h.fields['items'][i + 1:]
                    return NONE
            if n == 'pop':
                h = st.wobj(o.a[0])
                it = list(h.fields['items'])
                self.emit('listset', st, node, ctx, obj=o, key=args[0] if args else const(-1), value=NONE)
                if it and not h.open and (not args or args[0].op == 'const'):
                    v = it.pop(*(a.a[0] for a in args))
                    h.fields['items'] = tuple(it)
                    return v
                return mk('pick', mk('tuple', tuple(it)), NONE)
            if n == 'index':
                return mk('mcall', mk('tuple', h.fields['items']), 'index', tuple(args), ())
        if n in SET_METHODS and len(args) == 1 and not kwargs:
            v = self.set_op(n, o, args[0], st)
            if v is not None:
                return v
        self.note_call(st, node, ctx, '.' + n, args, kwargs, recv=o)
        return mk('mcall', o, n, tuple(args), tuple(sorted(kwargs.items())), node=node, mod=ctx.module)

    def call_ext(self, f, args, kwargs, st, node, ctx):
        n = f.a[0]
        self.note_call(st, node, ctx, n, args, kwargs)
        if st.dead:
            return unk('dead')
        allc = all(a.op == 'const' for a in args) and not kwargs
        if n in PURE and allc and args:
            try:
                return const(PURE[n](*[a.a[0] for a in args]))
            except Exception:
                pass
        if n in ('slice', 'builtins.slice') and 1 <= len(args) <= 3 and not kwargs and not any(a.op == 'star' for a in args):
            lo, hi, step = (NONE, args[0], NONE) if len(args) == 1 else tuple(args) + (NONE,) * (3 - len(args))
            return mk('slice', lo, hi, step)
        if n == 'range' and allc and args and all(isinstance(a.a[0], int) for a in args):
            r = range(*[a.a[0] for a in args])
            if len(r) <= UNROLL:
                return const(r)
        if n == 'pathlib.Path' and len(args) == 1 and not kwargs and args[0].op == 'call' and args[0].a[0] is f:
            return args[0]
        if n in ('os.path.splitext', 'os.path.basename', 'os.path.dirname', 'os.fspath', 'os.path.split', 'str') and len(args) == 1 and not kwargs:
            p = args[0]
            path = p.op == 'call' and p.a[0].op == 'ext' and p.a[0].a[0].startswith('pathlib.') and len(p.a[1]) == 1 and is_const(p.a[1][0]) and isinstance(p.a[1][0].a[0], str)
            text = str(pathlib.PurePosixPath(p.a[1][0].a[0])) if path else p.a[0] if n != 'str' and is_const(p) and isinstance(p.a[0], str) else None
            if text is not None:
                r = text if n in ('str', 'os.fspath') else getattr(posixpath, n.split('.')[-1])(text)
                return mk('tuple', tuple(const(x) for x in r)) if isinstance(r, tuple) else const(r)
        if n == 'len' and args:
            el = self.elements(st, args[0])
            if el is not None and not any(x.op == 'star' for x in el):
                return const(len(el))
            a = strip_view(args[0])
            h = self.h(st, a) if a.op == 'obj' else None
            if h is not None and isinstance(h.cls, ClassInfo) and h.cls.lookup('__len__')[1] is not None and h.cls.lookup('__len__')[1]['kind'] == 'func':
                return self.call(self.getattr_(a, '__len__', st, node, ctx), [], {}, st, node, ctx)
            return mk('call', f, (a,), ())
        if n == 'isinstance' and len(args) == 2:
            r = self.isinst(args[0], args[1], st)
            if r is not None:
                return const(r)
        if n == 'getattr' and len(args) >= 2 and args[1].op == 'const':
            if len(args) > 2 and self.has_attr(args[0], args[1], st) is False:
                return args[2]
            v = self.getattr_(args[0], args[1].a[0], st, node, ctx)
            return v
        if n == 'setattr' and len(args) == 3 and args[1].op == 'const':
            self.setattr_(args[0], args[1].a[0], args[2], st, node, ctx)
            return NONE
        if n == 'getattr' and len(args) >= 2:
            # an attribute chosen at run time: calling it stays opaque
            return mk('dynattr', args[0], args[1], node=node, mod=ctx.module)
        if n == 'setattr' and len(args) == 3:
            self.emit('setattr_other', st, node, ctx, base=args[0], name='?', value=args[2], dyn=args[1])
            return NONE
        if n == 'hasattr' and len(args) == 2:
            r = self.has_attr(args[0], args[1], st)
            return const(r) if r is not None else mk('call', f, tuple(args), ())
        if n == 'inspect.signature' and args and args[0].op in ('func', 'closure', 'bound'):
            fi = self.unwrap_func(args[0].a[0] if args[0].op == 'bound' else args[0])
            if fi is not None and not isinstance(fi.node, ast.Lambda):
                a_ = fi.node.args
                names = [x.arg for x in a_.posonlyargs + a_.args] + ([a_.vararg.arg] if a_.vararg else []) + [x.arg for x in a_.kwonlyargs] + ([a_.kwarg.arg] if a_.kwarg else [])
                if args[0].op == 'bound' and names:
                    names = names[1:]
                return mk('sigobj', fi.qual, tuple(names))
        if n in ('set', 'frozenset') and len(args) <= 1 and not kwargs:
            el = self.elements(st, args[0]) if args else []
            if el is not None:
                out = []
                for x in el:
                    if x not in out:
                        out.append(x)
                return self.new_list(st, out)
        if n == 'dict':
            d = self.new_dict(st, {k: v for k, v in kwargs.items() if k != '**'}, open='**' in kwargs, init=kwargs.get('**'))
            if args:
                el = self.elements(st, args[0])
                h = self.h(st, args[0])
                if h is not None and h.cls == 'dict':
                    self.dict_update(d, args[0], st)
                elif el is not None and all(x.op == 'tuple' and len(x.a[0]) == 2 and x.a[0][0].op == 'const' for x in el):
                    hh = st.wobj(d.a[0])
                    for x in el:
                        hh.fields[x.a[0][0].a[0]] = x.a[0][1]
                else:
                    self.dict_update(d, args[0], st)
            return d
        if n == 'list':
            if not args:
                return self.new_list(st)
            el = self.elements(st, args[0])
            if el is not None:
                return self.new_list(st, el)
            return mk('call', f, tuple(args), ())
        if n == 'dict.fromkeys' and args:
            el = self.elements(st, args[0])
            if el is not None and all(x.op == 'const' for x in el):
                d = self.new_dict(st)
                hh = st.wobj(d.a[0])
                for x in el:
                    hh.fields[x.a[0]] = args[1] if len(args) > 1 else NONE
                return d
        if n == 'tuple':
            if not args:
                return mk('tuple', ())
            el = self.elements(st, args[0])
            if el is not None:
                return mk('tuple', tuple(el))
        if n in ('zip', 'enumerate', 'reversed', 'sorted') and args and n != 'sorted':
            els = [self.elements(st, a) for a in args]
            if all(x is not None for x in els):
                if n == 'zip':
                    return mk('tuple', tuple(mk('tuple', t) for t in zip(*els)))
                if n == 'enumerate':
                    return mk('tuple', tuple(mk('tuple', (const(i), x)) for i, x in enumerate(els[0])))
                if n == 'reversed':
                    return mk('tuple', tuple(reversed(els[0])))
        if n == 'sum' and len(args) == 1:
            el = self.elements(st, args[0])
            if el is not None and len(el) > 0:
                r = el[0]
                for x in el[1:]:
                    r = self.binop('+', r, x, st, node, ctx)
                return r
        if n == 'type' and len(args) == 1:
            h = self.h(st, args[0])
            if h is not None and isinstance(h.cls, ClassInfo):
                return mk('class', h.cls.qual)
        if n in ('functools.partial',) and args:
            return mk('partial', args[0], tuple(args[1:]), tuple(sorted(kwargs.items())))
        if n in ('collections.namedtuple',) and len(args) >= 2:
            names = args[1]
            el = self.elements(st, names)
            if names.op == 'const' and isinstance(names.a[0], str):
                el = [const(x) for x in names.a[0].replace(',', ' ').split()]
            if el is not None:
                return mk('ntcls', tuple(x.a[0] for x in el))
        if n == 'contextlib.contextmanager' and args:
            return args[0]
        if n in ('functools.wraps',):
            return mk('ext', '<identity>')
        if n == 'inspect.unwrap' and len(args) == 1 and args[0].op in ('func', 'closure'):
            v = args[0]
            while (v.uid, '__wrapped__') in self.func_attrs:
                v = self.func_attrs[(v.uid, '__wrapped__')]
            return v
        if n == '<identity>' and args:
            return args[0]
        if n == 'struct.calcsize' and args and args[0].op == 'const':
            import struct
            try:
                return const(struct.calcsize(args[0].a[0]))
            except Exception:
                pass
        if n in ('any', 'all') and len(args) == 1:
            el = self.elements(st, args[0])
            if el is not None:
                rs = [self.truth(x, st) for x in el]
                if n == 'any' and (True in rs or None not in rs):
                    return const(True in rs)
                if n == 'all' and (False in rs or None not in rs):
                    return const(False not in rs)
                return mk('bool', 'or' if n == 'any' else 'and', tuple(x for x, r in zip(el, rs) if r is None))
        if n == 'bool' and len(args) == 1:
            r = self.truth(args[0], st)
            if r is not None:
                return const(r)
        if n == 'callable' and len(args) == 1 and args[0].op in ('func', 'closure', 'bound', 'class', 'partial', 'const'):
            return const(args[0].op != 'const')
        if n in ('sorted', 'min', 'max') and len(args) == 1 and (not kwargs or n == 'sorted' and set(kwargs) == {'reverse'} and kwargs['reverse'].op == 'const'):
            el = self.elements(st, args[0])
            if el is not None and el and all(x.op == 'const' for x in el):
                try:
                    v = {'sorted': sorted, 'min': min, 'max': max}[n]([x.a[0] for x in el], **{k: x.a[0] for k, x in kwargs.items()})
                    return self.new_list(st, [const(x) for x in v]) if n == 'sorted' else const(v)
                except TypeError:
                    pass
        if n == 'next' and args:
            el = self.elements(st, args[0])
            if el is not None and args[0].op == 'tuple':
                if el:
                    return el[0]
                if len(args) > 1:
                    return args[1]
        if n == 'map' and len(args) >= 2 or n in ('itertools.starmap',) and len(args) == 2:
            els = [self.elements(st, a) for a in args[1:]]
            if all(e is not None and len(e) <= UNROLL for e in els) and (n == 'map' or all(x.op == 'tuple' for x in els[0])):
                return mk('tuple', tuple(self.call(args[0], list(t[0].a[0]) if n != 'map' else list(t), {}, st, node, ctx) for t in zip(*els)))
        if n == 'filter' and len(args) == 2:
            el = self.elements(st, args[1])
            if el is not None and len(el) <= UNROLL:
                rs = [self.truth(x if is_const(args[0], None) else self.call(args[0], [x], {}, st, node, ctx), st) for x in el]
                if None not in rs:
                    return mk('tuple', tuple(x for x, r in zip(el, rs) if r))
        if n in ('map', 'filter') and len(args) == 2:
            x = self.iter_elem(args[1], st, ctx, node)
            if n == 'map':
                v = self.call(args[0], [x], {}, st, node, ctx)
                return mk('comp', 'gen', v, (args[1],), ())
        # callables handed to an external function may be called by it
        if n not in ('isinstance', 'print', 'hasattr'):
            for a in list(args) + list(kwargs.values()):
                if a.op in ('closure',) and self.closures[a.a[0]].memo_of is None:
                    self.hook('escaped_callable', a, st, node, ctx, self)
        r = mk('call', f, tuple(args), tuple(sorted(kwargs.items())), node=node, mod=ctx.module)
        if n in NORETURN:
            st.dead = True
        return r

    def has_attr(self, x, n, st):
        if n.op != 'const' or not isinstance(n.a[0], str):
            return None
        n = n.a[0]
        if x.op == 'bound':
            x = x.a[0]
        if x.op in ('func', 'closure'):
            return (x.uid, n) in self.func_attrs or n in ('__name__', '__doc__', '__qualname__', '__module__', '__dict__', '__call__')
        if x.op in ('propobj', 'const', 'tuple', 'list', 'set') and n.startswith('_') and not n.startswith('__'):
            return False
        if x.op == 'obj':
            h = self.h(st, x)
            if h is not None and isinstance(h.cls, ClassInfo):
                c, e = h.cls.lookup(n)
                if e is not None and not (e['kind'] == 'ann' and e['expr'] is None):
                    return True
                if n in h.fields:
                    return None if any(y is UNBOUND for y in alts(h.fields[n])) else True
                if h.init is None and not h.open and not h.cls.ext_bases() and h.cls.lookup('__getattr__')[1] is None:
                    return False
        if x.op == 'class':
            return self.prog.classes[x.a[0]].lookup(n)[1] is not None or None
        return None

    def isinst(self, x, c, st):
        cs = self.elements(st, c) or [c]
        if x.op == 'ext' and x.a[0] in ('numpy.nan', 'numpy.inf', 'numpy.pi', 'math.nan', 'math.inf', 'math.pi'):
            x = const(1.5)
        if x.op == 'phi':
            rs = {self.isinst(y, c, st) for y in alts(x) if y is not UNBOUND}
            return rs.pop() if len(rs) == 1 else None
        res = []
        for k in cs:
            nm = k.a[0] if k.op in ('ext', 'class') else None
            if x.op == 'obj':
                h = self.h(st, x)
                if h is None:
                    res.append(None)
                elif isinstance(h.cls, ClassInfo):
                    if k.op == 'class':
                        res.append(h.cls.is_sub(self.prog.classes[nm]))
                    elif k.op == 'ext':
                        res.append(True if any(str(b).split('.')[-1] == nm.split('.')[-1] for b in h.cls.ext_bases()) else (False if not h.cls.ext_bases() else None))
                    else:
                        res.append(None)
                elif k.op == 'ext':
                    res.append(nm in ISA.get(h.cls, (h.cls,)))
                elif k.op == 'class':
                    res.append(False)
                else:
                    res.append(None)
            elif x.op == 'const' and k.op == 'ext':
                import builtins
                b = getattr(builtins, nm, None)
                res.append(isinstance(x.a[0], b) if isinstance(b, type) else (False if nm in ('os.PathLike', 'io.IOBase', 'pathlib.Path', 'numpy.ndarray', 'numpy.generic', 'pandas.DataFrame', 'pandas.Series') else (not nm.endswith('Mapping') and isinstance(x.a[0], (str, bytes)) if nm.startswith(('collections.abc.', 'typing.')) and nm in ISA['list'] | {'collections.abc.Mapping', 'collections.abc.MutableMapping'} else None)))
            elif x.op == 'slice' and k.op == 'ext':
                res.append(nm in ('slice', 'object'))
            elif x.op == 'tuple' and k.op == 'ext':
                res.append(nm in ISA['tuple'])
            elif x.op == 'const' and k.op == 'class':
                res.append(False)
            elif x.op == 'call' and x.a[0].op == 'ext' and x.a[0].a[0] == 'pathlib.Path' and k.op == 'class':
                res.append(False)
            elif x.op == 'call' and x.a[0].op == 'ext' and k.op == 'ext' and x.a[0].a[0].split('.')[-1] == nm.split('.')[-1]:
                res.append(True)
            elif x.op in ('fstr',) and k.op == 'ext':
                res.append(nm == 'str')
            elif x.op == 'call' and x.a[0].op == 'ext' and x.a[0].a[0] == 'pathlib.Path' and k.op == 'ext':
                res.append(True if nm in ('os.PathLike', 'pathlib.PurePath') else (False if nm in ('str', 'io.IOBase', 'bytes') else None))
            else:
                res.append(None)
        if any(r is True for r in res):
            return True
        if all(r is False for r in res):
            return False
        return None


_SEQ = {p + '.' + n for p in ('collections.abc', 'typing') for n in ('Sequence', 'Iterable', 'Collection', 'Sized', 'Container', 'Reversible')}
ISA = {'list': {'list', 'object', 'collections.abc.MutableSequence', 'typing.MutableSequence', 'typing.List'} | _SEQ,
       'tuple': {'tuple', 'object', 'collections.abc.Hashable', 'typing.Tuple'} | _SEQ,
       'dict': {'dict', 'object'} | {p + '.' + n for p in ('collections.abc', 'typing') for n in ('Mapping', 'MutableMapping', 'Iterable', 'Collection', 'Sized', 'Container')}}


def strip_view(t):
    while True:
        if t.op == 'ro':
            t = t.a[0]
        elif t.op == 'mcall' and t.a[1] == 'view' and not t.a[2]:
            t = t.a[0]
        elif t.op == 'sub' and (t.a[1].op == 'slice' and all(is_const(x, None) for x in t.a[1].a) or is_const(t.a[1], Ellipsis)):
            t = t.a[0]
        else:
            return t


def canon_ext(n):
    for a, b in ALIAS.items():
        if n == a or n.startswith(a + '.'):
            n = b + n[len(a):]
    return EXTNAMES.get(n, n)


def _hashable(v):
    try:
        hash(v)
        return True
    except TypeError:
        return False


ALIAS = {'np': 'numpy', 'tqdm.auto': 'tqdm'}
EXTNAMES = {'numpy.absolute': 'numpy.abs', 'numpy.amin': 'numpy.min', 'numpy.amax': 'numpy.max', 'numpy.NaN': 'numpy.nan', 'math.nan': 'numpy.nan',
            'numpy.float64': 'numpy.float64'}
NORETURN = {'sys.exit', 'os._exit'}
import operator as _o
OPS = {ast.Add: '+', ast.Sub: '-', ast.Mult: '*', ast.Div: '/', ast.FloorDiv: '//', ast.Mod: '%', ast.Pow: '**', ast.BitAnd: '&',
       ast.BitOr: '|', ast.BitXor: '^', ast.LShift: '<<', ast.RShift: '>>', ast.MatMult: '@'}
ARITH = {'+': _o.add, '-': _o.sub, '*': _o.mul, '/': _o.truediv, '//': _o.floordiv, '%': _o.mod, '**': _o.pow, '&': _o.and_, '|': _o.or_,
         '^': _o.xor, '<<': _o.lshift, '>>': _o.rshift}
CMP = {ast.Eq: '==', ast.NotEq: '!=', ast.Lt: '<', ast.LtE: '<=', ast.Gt: '>', ast.GtE: '>=', ast.Is: 'is', ast.IsNot: 'is not', ast.In: 'in', ast.NotIn: 'not in'}
SWAPPED = {'==': '==', '!=': '!=', '<': '>', '>': '<', '<=': '>=', '>=': '<='}
DUNDER = {'+': ('__add__', '__radd__'), '-': ('__sub__', '__rsub__'), '*': ('__mul__', '__rmul__'), '/': ('__truediv__', '__rtruediv__')}
STR_METHODS = {'join', 'startswith', 'endswith', 'lower', 'upper', 'strip', 'lstrip', 'rstrip', 'split', 'rsplit', 'splitlines', 'partition', 'rpartition', 'replace', 'find', 'rfind',
               'index', 'count', 'isdigit', 'isalpha', 'isalnum', 'isidentifier', 'isspace', 'title', 'capitalize', 'casefold', 'removeprefix', 'removesuffix', 'encode', 'decode',
               'zfill', 'ljust', 'rjust', 'center', 'expandtabs', 'isupper', 'islower'}

PURE = {'int': int, 'float': float, 'str': str, 'abs': abs, 'min': min, 'max': max, 'round': round, 'bool': bool, 'len': len, 'chr': chr, 'ord': ord}


def _patch_nt():
    orig = Interp.call

    def call(self, f, args, kwargs, st, node, ctx):
        if f.op == 'ntcls':
            names = f.a[0]
            flat = []
            for a in args:
                if a.op == 'star':
                    el = self.elements(st, a.a[0])
                    if el is None:
                        el = [self.getitem(a.a[0], const(i), st, node, ctx) for i in range(len(names) - len(flat))]
                    flat.extend(el)
                else:
                    flat.append(a)
            vals = dict(zip(names, flat))
            vals.update({k: v for k, v in kwargs.items() if k in names})
            return mk('nt', 'nt', tuple((n, vals.get(n, unk(n))) for n in names))
        return orig(self, f, args, kwargs, st, node, ctx)
    Interp.call = call


_patch_nt()
