"""Cache coherence, decided by an interprocedural typestate analysis.  For every class whose methods are wrapped in a
memoizer, every public operation is interpreted over an abstract heap; the state of each object's cache is empty,
filled or stale.  Writing a field a memoized method reads makes a filled cache stale, resetting the cache empties it,
a memoized call fills it.  No operation may end (or read a memoized value) with a stale cache.  The memoizer itself is
interpreted to obtain the key term, which must carry the method identity and every argument."""
from ..common import *

LOSSY = {'len', 'type', 'bool', 'id', 'abs', 'round', 'int', 'sum', 'max', 'min', 'any', 'all', 'isinstance', 'callable'}
LOSSY_METHODS = {'keys', 'count', 'index', '__len__', 'values'}


def memo_methods(it, ci):
    out = {}
    for n, (c, e) in ci.methods().items():
        fi = e.get('fi') or e.get('get')
        if fi is None or is_static(fi) or is_classmethod(fi):
            continue
        v = it.func_value(fi)
        # a memoizer may be the outermost decorator or sit below a guard
        m = find_memo(it, v)
        if m is not None:
            out[n] = (fi, m)
    return out


def find_memo(it, v, depth=0):
    if v.op != 'closure' or depth > 6:
        return None
    c = it.closures[v.a[0]]
    if c.memo_of is not None:
        return c
    for x in c.env.values():
        if isinstance(x, T) and x.op == 'closure' and x is not v:
            r = find_memo(it, x, depth + 1)
            if r is not None:
                return r
    return None


class WrapHooks(Hooks):
    """Interprets the memoizer itself: records how the cache container is written and read."""

    def __init__(self):
        self.writes, self.reads = [], []

    def call(self, f, args, kwargs, st, node, ctx, interp):
        if f.op in ('meth', 'bmeth') and f.a[1] in ('setdefault', '__setitem__') and len(args) == 2:
            self.writes.append((f.a[0], args[0], args[1], node, ctx, st.copy()))
        if f.op in ('meth', 'bmeth') and f.a[1] == 'update' and len(args) == 1 and args[0].op == 'obj':
            h = st.heap.get(args[0].a[0])
            if h is not None and h.cls == 'dict':
                for k, v in h.fields.items():
                    k = next((t for t in T._tab.values() if t.uid == k[1]), None) if isinstance(k, tuple) and k[:1] == ('*',) else const(k)
                    if k is not None and isinstance(v, T):
                        self.writes.append((f.a[0], k, v, node, ctx, st.copy()))
        return None

    def ev_mutate(self, d):
        self.writes.append((d['base'], d['idx'], d['value'], d['node'], d['ctx'], d['st'].copy()))

    def before_inline(self, qual, fi, args, kwargs, st, cnode, cctx, interp):
        if fi is not None and fi.qual in self.bodies:
            return mk('call', mk('func', fi.qual), tuple(args), tuple(sorted(kwargs.items())))
        return None


def interpret_wrapper(prog, ci, name, memo, fi, args, kwargs):
    h = WrapHooks()
    h.bodies = {fi.qual}
    r = Run(prog, h)
    o = r.obj(ci)
    # the same decorated value, evaluated in this interpreter, with the memoizer not short-circuited
    v = r.it.func_value(fi)
    c = find_memo(r.it, v)
    if c is None:
        return None
    saved, c.memo_of = c.memo_of, None
    try:
        cl = next(mk('closure', k) for k, x in r.it.closures.items() if x is c)
        r.call(cl, [o] + list(args), kwargs)
    finally:
        c.memo_of = saved
    return r, h, o


class Coh(Hooks):
    def __init__(self, rep, rule, site, relevant, cachefields):
        self.rep, self.rule, self.site = rep, rule, site
        self.relevant, self.cachefields = relevant, cachefields
        self.memo_depth = 0
        self.memo_results = {}
        self.last = {}
        self.purity = []
        self.foreign = []
        self.badread = []
        self.created = set()
        self.mutmemo = []
        self.memo_stack = []

    # -- typestate helpers: one state per object and memoized method
    def methods_of(self, st, oid):
        h = st.heap.get(oid)
        return self.relevant.get(h.cls.qual, {}) if h is not None and isinstance(h.cls, ClassInfo) else {}

    def get(self, st, oid, m):
        return st.ts.get(('cache', oid, m), frozenset(['filled']) if oid not in self.created else frozenset(['empty']))

    def ev_new(self, d):
        self.created.add(d['obj'].a[0])
        self.reset(d['st'], d['obj'].a[0])

    def reset(self, st, oid):
        for m in self.methods_of(st, oid):
            st.ts[('cache', oid, m)] = frozenset(['empty'])

    def stale(self, d, obj, n, what):
        st = d['st']
        oid = obj.a[0]
        for m, fs in self.methods_of(st, oid).items():
            if n in fs:
                s = self.get(st, oid, m)
                t = frozenset('stale' if x in ('filled', '-') else x for x in s)
                st.ts[('cache', oid, m)] = t
                if 'stale' in t:
                    self.last[(oid, m)] = (loc(d['ctx'], d['node']), fname(d['ctx']), src(d['node']), what)

    def reads(self, cls):
        r = self.relevant.get(cls.qual)
        return set().union(*r.values()) if r else set()

    def ev_setattr(self, d):
        cls, obj, n = d['cls'], d['obj'], d['name']
        if not isinstance(cls, ClassInfo):
            return
        cf = self.cachefields.get(cls.qual, ())
        if n in cf:
            v = d['value']
            h = d['st'].heap.get(v.a[0]) if v.op == 'obj' else None
            if (h is not None and h.cls in ('dict', 'list') and not h.fields.get('items', ()) and not [k for k in h.fields if k != 'items'] and h.init is None) or is_const(v, None) or (v.op == 'call' and not v.a[1] and not v.a[2]):
                self.reset(d['st'], obj.a[0])
            return
        if n not in self.reads(cls):
            return
        if self.memo_stack and self.memo_stack[-1] and self.memo_stack[-1][0] == obj.a[0]:
            m = self.memo_stack[-1][1]
            if n in self.relevant.get(cls.qual, {}).get(m, ()):
                self.purity.append((d, n))
        self.stale(d, obj, n, f'assigns the field {n!r} that memoized methods read')

    def ev_dictclear(self, d):
        st = d['st']
        for oid, h in list(st.heap.items()):
            if isinstance(h.cls, ClassInfo):
                for f in self.cachefields.get(h.cls.qual, ()):
                    if any(x is d['obj'] for x in alts(h.fields.get(f, NONE))):
                        self.reset(st, oid)

    def alias_roots(self, t, out, depth=0):
        """(kind, obj, field) storage roots an array term may alias."""
        if depth > 40:
            return
        t0 = t
        if t.op == 'field':
            out.append(t)
        elif t.op in ('ro', 'store'):
            self.alias_roots(t.a[0], out, depth + 1)
        elif t.op == 'sub':
            out.append(t)
            if is_view_index(t.a[1]):
                self.alias_roots(t.a[0], out, depth + 1)
        elif t.op == 'mcall' and t.a[1] in ('view', 'reshape', 'ravel', 'squeeze', 'transpose', 'swapaxes'):
            self.alias_roots(t.a[0], out, depth + 1)
        elif t.op == 'phi':
            for x in alts(t):
                self.alias_roots(x, out, depth + 1)
        elif t.op == 'call' and t.a[0].op == 'ext' and t.a[0].a[0] in ('numpy.asarray', 'numpy.ravel', 'numpy.squeeze', 'numpy.reshape', 'numpy.asanyarray', 'numpy.atleast_1d', 'numpy.atleast_2d', 'numpy.transpose') and t.a[1]:
            self.alias_roots(t.a[1][0], out, depth + 1)
        else:
            out.append(t)

    def mutated(self, d, base, aug=False):
        roots = []
        self.alias_roots(base, roots)
        st = d['st']
        for r in roots:
            if r.uid in self.memo_results and (not aug or arrayish(r)):
                self.mutmemo.append((d, self.memo_results[r.uid]))
            for oid, h in list(st.heap.items()):
                if not isinstance(h.cls, ClassInfo):
                    continue
                rel = self.reads(h.cls)
                cf = self.cachefields.get(h.cls.qual, ())
                obj = mk('obj', oid, h.cls.name)
                for n in set(rel) | set(cf):
                    cur = h.fields.get(n)
                    if cur is None and h.init is not None:
                        cur = mk('field', h.init, n)
                    if cur is None:
                        continue
                    cr = []
                    self.alias_roots(cur, cr)
                    if r in cr:
                        if n in cf:
                            self.foreign.append((d, obj))
                        elif n in rel:
                            self.stale(d, obj, n, f'writes into the array held by the field {n!r} that memoized methods read')

    def ev_mutate(self, d):
        self.mutated(d, d['base'])

    def ev_augmutate(self, d):
        self.mutated(d, d['base'], aug=True)

    def ev_dictset(self, d):
        o = d['obj']
        if o.uid in self.memo_results:
            self.mutmemo.append((d, self.memo_results[o.uid]))
        st = d['st']
        for oid, h in list(st.heap.items()):
            if isinstance(h.cls, ClassInfo):
                for n in self.cachefields.get(h.cls.qual, ()):
                    if any(x is o for x in alts(h.fields.get(n, NONE))):
                        obj = mk('obj', oid, h.cls.name)
                        self.foreign.append((d, obj))

    def ev_call(self, d):
        n = d['name']
        if n in ('.clear',) and d.get('recv') is not None:
            r = d['recv']
            st = d['st']
            for oid, h in list(st.heap.items()):
                if isinstance(h.cls, ClassInfo):
                    for f in self.cachefields.get(h.cls.qual, ()):
                        cur = h.fields.get(f) or (mk('field', h.init, f) if h.init is not None else None)
                        if cur is not None and any(x is r for x in alts(cur)):
                            self.reset(st, oid)
        if n in ('.sort', '.fill', '.put', '.partition', '.itemset', '.resize', '.setfield', '.byteswap'):
            if d.get('recv') is not None:
                self.mutated(d, d['recv'])
        for k in ('out',):
            if k in d['kwargs']:
                self.mutated(d, d['kwargs'][k])
        if n in ('numpy.put', 'numpy.copyto', 'numpy.place', 'numpy.putmask', 'numpy.fill_diagonal', 'numpy.random.shuffle') and d['args']:
            self.mutated(d, d['args'][0])
        if n == 'numpy.nan_to_num' and 'copy' in d['kwargs'] and is_const(d['kwargs']['copy'], False) and d['args']:
            self.mutated(d, d['args'][0])
        if n.startswith('setattr') or n == 'numpy.ndarray.sort':
            pass

    def ev_memo(self, d):
        if not d['args'] or d['args'][0].op != 'obj':
            self.memo_stack.append(None)
            return
        obj = d['args'][0]
        st = d['st']
        fi = self.it.unwrap_func(d['fn'])
        m = fi.qual if fi else '?'
        s = self.get(st, obj.a[0], m)
        if 'stale' in s:
            self.badread.append((d, obj))
        st.ts[('cache', obj.a[0], m)] = frozenset('filled' if x in ('empty', '-') else x for x in s)
        self.memo_stack.append((obj.a[0], m))

    def ev_memo_done(self, d):
        if self.memo_stack:
            self.memo_stack.pop()
        v = d['value']
        fi = self.it.unwrap_func(d['fn'])
        for x in ([v] + (list(v.a[0]) if v.op == 'tuple' else [])):
            for y in alts(x):
                if y.op in ('call', 'mcall', 'obj', 'un', 'bin', 'cmp', 'comp', 'store', 'sub'):
                    self.memo_results[y.uid] = fi.qual if fi else '?'


ARRAY_CALLS = {'numpy.' + n for n in ('isnan', 'isfinite', 'isinf', 'where', 'zeros', 'ones', 'empty', 'full', 'zeros_like', 'ones_like', 'empty_like', 'full_like',
                                      'array', 'asarray', 'linspace', 'arange', 'cumsum', 'abs', 'absolute', 'sqrt', 'log', 'log10', 'log1p', 'sort', 'flipud', 'fliplr', 'rot90',
                                      'fft.fft2', 'fft.fftshift', 'fft.ifft2', 'fft.rfft', 'fft.fft', 'diff', 'histogram', 'meshgrid', 'gradient', 'logical_not', 'logical_and', 'logical_or')}


def arrayish(t, depth=0):
    """Certainly an array (an augmented assignment writes into it instead of rebinding the name)."""
    if depth > 6:
        return False
    if t.op in ('store', 'ro'):
        return True
    if t.op == 'call' and t.a[0].op == 'ext':
        if t.a[0].a[0] in ('numpy.abs', 'numpy.absolute', 'numpy.sqrt', 'numpy.log', 'numpy.log10', 'numpy.log1p'):
            return bool(t.a[1]) and arrayish(t.a[1][0], depth + 1)
        return t.a[0].a[0] in ARRAY_CALLS
    if t.op == 'mcall':
        return t.a[1] in ('copy', 'astype', 'reshape', 'ravel', 'flatten', 'view') or False
    if t.op == 'bin':
        return arrayish(t.a[1], depth + 1) or arrayish(t.a[2], depth + 1)
    if t.op == 'un':
        return any(arrayish(x, depth + 1) for x in children(t))
    if t.op == 'cmp':
        return any(arrayish(x, depth + 1) for x in children(t))
    if t.op == 'phi':
        return any(arrayish(x, depth + 1) for x in alts(t))
    return False


def is_view_index(i):
    """Basic indexing (view) vs. possibly advanced indexing (copy)."""
    if i.op in ('slice',):
        return True
    if i.op == 'const':
        return True
    if i.op == 'tuple':
        return all(is_view_index(x) or x.op in ('param', 'loopvar', 'bin', 'idx', 'rangeidx', 'elem') for x in i.a[0])
    if i.op in ('loopvar', 'idx', 'rangeidx', 'param', 'ext'):
        return True
    return False


def relevant_fields(prog, classes, memos):
    """Fields of self that memoized methods read, per class."""
    class R(Hooks):
        def __init__(self):
            self.depth = []
            self.read = {}

        def getfield(self, b, n, st):
            h = st.heap.get(b.a[0])
            if h is not None and isinstance(h.cls, ClassInfo) and (h.cls.lookup(n)[1] or {'kind': 'ann'})['kind'] in ('ann', 'assign'):
                self.read.setdefault(b.a[0], set()).add(n)
    out = {}
    for ci in classes:
        acc = {}
        for n, (fi, m) in memos[ci.qual].items():
            h = R()
            r = Run(prog, h)
            o = r.obj(ci)
            args = sym_kwargs(fi)
            r.method(o, n, [], args)
            acc[fi.qual] = h.read.get(o.a[0], set())
        out[ci.qual] = acc
    return out


def run(prog, rep):
    rep.rule('coherent', 'no public operation ends with a stale cache (derived results always reflect the current topography)', 40)
    rep.rule('read-while-stale', 'no memoized value is consulted between a modification and the cache reset', 40)
    rep.rule('pure', 'memoized methods do not modify the topography they read', 20)
    rep.rule('key', 'the memo key distinguishes methods, positional and keyword arguments', 6)
    rep.rule('same-key', 'the memoizer stores and looks up a result under the same key and returns what it stored', 2)
    rep.rule('memo-result', 'no package code modifies an object that a memoized method returned', 20)
    rep.rule('no-foreign-entry', 'nothing but the memoizer writes into the cache', 20)
    rep.rule('no-handout', 'memoized methods do not hand out topographies or containers that the caller could modify', 20)
    base = Interp(prog)
    classes, memos = [], {}
    for ci in prog.classes.values():
        try:
            m = memo_methods(base, ci)
        except Exception:
            continue
        if m and not any(ci is b for c in prog.classes.values() if c is not ci and False for b in c.mro()):
            classes.append(ci)
            memos[ci.qual] = m
    names = {c.name for c in classes}
    if not {'Surface', 'Profile'} <= names:
        raise AnalysisError(f'memoized methods of Surface/Profile not found (classes with memoizers: {sorted(names)})')
    # abstract bases are covered through their concrete subclasses
    subs = {c.qual for c in classes if any(d is not c and c in d.mro() for d in classes)}
    concrete = [c for c in classes if c.qual not in subs]
    relevant = relevant_fields(prog, classes, memos)
    # ---- the memoizer itself
    cachefields = {}
    seen_wrappers = {}
    for ci in concrete:
        cf = set()
        for n, (fi, m) in memos[ci.qual].items():
            wid = (m.ctx.module.name, m.node.lineno, m.node.name)
            seen_wrappers.setdefault(wid, []).append((ci, n, fi, m))
        cachefields[ci.qual] = cf
    for wid, uses in seen_wrappers.items():
        check_memoizer(prog, rep, wid, uses, cachefields)
    allcf = set().union(*cachefields.values()) if cachefields else set()
    if not allcf:
        raise AnalysisError('the container in which the memoizer stores results was not identified')
    for ci in concrete:
        cachefields[ci.qual] = allcf
        relevant[ci.qual] = {m: {f for f in fs if f not in allcf} for m, fs in relevant[ci.qual].items()}
    rep.notes.append('fields read by memoized methods: ' + '; '.join(f'{q.split(".")[-1]}: {sorted(set().union(*f.values()))}' for q, f in relevant.items() if q in {c.qual for c in concrete}))
    wmods = {w[0] for w in seen_wrappers}
    # ---- every public operation
    for ci in concrete:
        entries = []
        for n, fi in public_methods(ci).items():
            if n == '__init__' or (fi.module.name in wmods and fi.cls is not ci):
                continue
            kinds = [{}]
            pos = sig(fi)[0]
            if 'inplace' in pos + sig(fi)[1]:
                kinds = [{'inplace': TRUE}, {'inplace': FALSE}]
            if 'return_trend' in pos:
                kinds = [dict(k, return_trend=v) for k in kinds for v in (TRUE, FALSE)]
            for k in kinds:
                entries.append((n, fi, k))
        for n, fi, fixed in entries:
            site = f'{ci.name}.{n}' + (f'({", ".join(f"{k}={v.a[0]}" for k, v in fixed.items())})' if fixed else '')
            h = Coh(rep, 'coherent', site, relevant, cachefields)
            r = Run(prog, h)
            o = r.obj(ci)
            r.method(o, n, [], sym_kwargs(fi, fixed))
            judge(rep, h, r, o, site)
        for n, e in properties(ci).items():
            if e['set'] is not None:
                site = f'{ci.name}.{n} = value'
                h = Coh(rep, 'coherent', site, relevant, cachefields)
                r = Run(prog, h)
                o = r.obj(ci)
                try:
                    r.it.setattr_(o, n, mk('param', 'value'), r.st, None, FakeCtx(ci))
                except (KeyError, TypeError, AttributeError, ValueError, IndexError):
                    r.err = 'x'
                judge(rep, h, r, o, site)
        # memoized results
        for n, (fi, m) in memos[ci.qual].items():
            handout(prog, rep, ci, n, fi)
    rep.assumptions += ['numpy functions write only into the arrays documented as their output', 'fields are changed only through the package (a caller assigning private attributes is out of scope)']


class FakeCtx:
    def __init__(self, ci):
        self.module, self.fi, self.cls = ci.module, None, ci
        self.qual = ci.qual
        self.globals = self.nonlocals = set()
        self.returns, self.loopstack = [], []
        self.closure = None
        self.on_yield = None


def judge(rep, h, r, o, site):
    rep.used(r.it)
    status = 'ok' if r.err is None else 'undecided'
    ends = []
    if r.returns:
        ends.append(('at the return', r.st))
    for en, st, node, ctx in r.raised:
        ends.append((f'when {en} is raised', st))
    rep.ob('coherent', site, status)
    rep.ob('read-while-stale', site, status)
    rep.ob('no-foreign-entry', site, status)
    rep.ob('memo-result', site, status)
    for where, st in ends:
        for k, s in st.ts.items():
            if k[0] == 'cache' and 'stale' in s and k[1:] in h.last:
                l = h.last[k[1:]]
                rep.violate('coherent', site, l[0], l[1], l[2], f'{l[3]} (e.g. {k[2].split(".")[-1]}), but the cache of memoized results is not reset on some path ({where})')
    for d, obj in h.badread:
        fi = h.it.unwrap_func(d['fn'])
        rep.violate('read-while-stale', site, loc(d['ctx'], d['node']), fname(d['ctx']), src(d['node']), f'memoized {fi.qual if fi else "?"} is consulted after the topography was modified and before the cache was reset')
    for d, obj in h.foreign:
        if h.memo_stack:
            continue
        rep.violate('no-foreign-entry', site, loc(d['ctx'], d['node']), fname(d['ctx']), src(d['node']), 'writes an entry into the cache of memoized results that was not computed by the memoized method on that object')
    for d, n in h.purity:
        rep.violate('pure', site, loc(d['ctx'], d['node']), fname(d['ctx']), src(d['node']), f'a memoized method assigns {n!r} of the object whose result is being memoized')
    for d, q in h.mutmemo:
        rep.violate('memo-result', site, loc(d['ctx'], d['node']), fname(d['ctx']), src(d['node']), f'modifies the value that memoized {q} returned (the cached value itself)')


def handout(prog, rep, ci, n, fi):
    site = f'{ci.name}.{n}'
    r = Run(prog, None)
    o = r.obj(ci)
    r.method(o, n, [], sym_kwargs(fi))
    rep.used(r.it)
    rep.ob('pure', site, 'ok' if r.err is None else 'undecided')
    rep.ob('no-handout', site, 'ok' if r.err is None else 'undecided')
    if r.val is None or not r.returns:
        return
    topo = {'Surface', 'Profile'}
    for x in alts(r.val):
        hh = r.st.heap.get(x.a[0]) if x.op == 'obj' else None
        bad = None
        if hh is not None and isinstance(hh.cls, ClassInfo) and hh.cls.name in topo:
            bad = f'returns a {hh.cls.name} that every later caller shares'
        elif hh is not None and hh.cls in ('dict', 'list') and not n.startswith('_'):
            bad = f'returns the cached {hh.cls} itself, which the caller can modify'
        elif x.op == 'comp' and x.a[0] in ('list', 'dict', 'set') and not n.startswith('_'):
            bad = f'returns the cached {x.a[0]} itself, which the caller can modify'
        if bad:
            rep.violate('no-handout', site, f'{fi.module.rel}:{fi.node.lineno}', fi.qual, f'memoized {n}', bad)
    # a private memoized container returned by a public method
    return


def exposes_cached(prog, rep, ci, memos):
    pass


def check_memoizer(prog, rep, wid, uses, cachefields):
    """The memoizer: key, storage, lookup."""
    ci0, n0, fi0, m0 = uses[0]
    a1, a2 = mk('param', 'positional argument'), mk('param', 'keyword argument')
    site = f'memoizer {wid[2]} in {wid[0]}'
    res = interpret_wrapper(prog, ci0, n0, m0, fi0, [a1], {'k': a2})
    if res is None:
        rep.ob('key', site, 'undecided')
        return
    r, h, o = res
    self_param = mk('param', 'self')
    entries = []
    for base, idx, val, node, ctx, st in h.writes:
        root = strip_view(base)
        if root.op == 'field' and root.a[0] is self_param:
            entries.append((root.a[1], idx, val, node, ctx, st))
    if not entries:
        rep.ob('key', site, 'undecided')
        rep.notes.append(f'{site}: storing statement not recognised')
        return
    fieldname = entries[0][0]
    for ci, n, fi, m in uses:
        cachefields[ci.qual].add(fieldname)
    for f, idx, val, node, ctx, st in entries:
        w = (loc(ctx, node), fname(ctx), src(node))
        for what, a in (('positional arguments', a1), ('keyword arguments', a2)):
            s = f'{site}: {what}'
            reach, lossless = key_carries(idx, a, r.it, st)
            if not reach:
                rep.violate('key', s, *w, f'the memo key does not depend on the {what}: calls with different {what} share one cached result')
            elif not lossless:
                rep.violate('key', s, *w, f'the memo key depends on the {what} only through a lossy function: different {what} can share one cached result')
            else:
                rep.ob('key', s)
        # value stored is the result of the wrapped method with the same arguments
        s = f'{site}: stored value'
        ok = val.op == 'call' and val.a[0].op == 'func' and a1 in val.a[1] and any(v is a2 for k, v in val.a[2])
        rep.ob('same-key', s, 'ok' if ok else 'undecided')
        # reads
        reads = [x for x in deep(r.val, r.it, r.st) if x.op in ('sub', 'kwget', 'mcall') and strip_view(x.a[0]).op == 'field' and strip_view(x.a[0]).a[1] == f and strip_view(x.a[0]).a[0] is self_param] if r.val is not None else []
        s = f'{site}: lookup'
        st_ok = 'undecided'
        for x in reads:
            k = x.a[1] if x.op == 'sub' else (x.a[2][0] if x.op == 'mcall' and x.a[1] in ('get', 'setdefault', 'pop', '__getitem__') and x.a[2] else None)
            if k is None:
                continue
            if k is idx:
                st_ok = 'ok'
            else:
                c1 = {y for y in (a1, a2) if key_carries(k, y, r.it, r.st)[0]}
                if len(c1) < 2:
                    rep.violate('same-key', s, *w, f'the result is looked up under {show(k)} but stored under {show(idx)}')
        rep.ob('same-key', s, st_ok)
    distinct_calls(prog, rep, uses, site, fieldname)
    # two different methods must have different keys
    byq = {}
    for ci, n, fi, m in uses:
        byq.setdefault(fi.qual, (ci, n, fi, m))
    keys = {}
    for q, (ci, n, fi, m) in list(byq.items()):
        res2 = interpret_wrapper(prog, ci, n, m, fi, [a1], {'k': a2})
        if res2 is None:
            continue
        for base, idx, val, node, ctx, st in res2[1].writes:
            root = strip_view(base)
            if root.op == 'field' and root.a[1] == fieldname:
                keys.setdefault(canon_key(idx, res2[0].it, st), []).append((q, ci, loc(ctx, node), fname(ctx), src(node)))
    for k, l in keys.items():
        for i, (q, ci, w, fn, sr) in enumerate(l):
            s = f'{site}: identity of {q}'
            clash = [x for x in l[:i] if x[0] != q and related(x[1], ci) and x[0].split('.')[-1] != q.split('.')[-1]]
            if clash:
                rep.violate('key', f'{site}: method identity', w, fn, sr, f'the memo key does not tell {clash[0][0]} from {q}')
            else:
                rep.ob('key', s)


def distinct_calls(prog, rep, uses, site, fieldname):
    """Calls whose arguments differ in their names or their order have different keys."""
    ci, n, fi, m = uses[0]
    a, b = mk('param', 'first argument'), mk('param', 'second argument')

    def key(args, kw):
        res = interpret_wrapper(prog, ci, n, m, fi, args, kw)
        if res is None:
            return None
        r, h, o = res
        got = [(canon_key(idx, r.it, st), loc(ctx, node), fname(ctx), src(node)) for base, idx, val, node, ctx, st in h.writes if strip_view(base).op == 'field' and strip_view(base).a[1] == fieldname]
        return got[0] if got else None
    for what, x, y in (('names of the arguments', ([], {'k': a}), ([], {'l': a})), ('order of the arguments', ([a, b], {}), ([b, a], {})),
                       ('names of the arguments', ([], {'k': a, 'l': b}), ([], {'k': b, 'l': a})), ('arguments given by position and by name', ([a], {}), ([], {'l': a}))):
        s = f'{site}: {what}'
        p, q = key(*x), key(*y)
        if p is None or q is None or p[0] == () or '…' in str(p[0]):
            rep.ob('key', s, 'undecided')
        elif p[0] == q[0]:
            rep.violate('key', s, *p[1:], f'the memo key does not depend on the {what}: different calls share one cached result')
        else:
            rep.ob('key', s)


def related(a, b):
    return a in b.mro() or b in a.mro()


def canon_key(t, it, st, depth=0):
    """structural key of a term with heap objects expanded, so that keys of separate interpretations compare."""
    if depth > 12:
        return '…'
    v = text_value(t)
    if v is not None:
        return ('value', repr(v))
    unordered = t.op == 'mcall' and t.a[1] in ('values', 'keys') or t.op == 'call' and t.a[0].op == 'ext' and t.a[0].a[0] in ('set', 'frozenset', 'sorted', 'len') and len(t.a[1]) == 1
    if unordered:
        x = t.a[0] if t.op == 'mcall' else t.a[1][0]
        h = st.heap.get(x.a[0]) if x.op == 'obj' else None
        inner = [canon_key(y, it, st, depth + 1) for y in x.a[0]] if x.op in ('tuple', 'list') else None
        if h is not None and h.cls == 'list' and isinstance(h.fields.get('items'), tuple):
            inner = [canon_key(y, it, st, depth + 1) for y in h.fields['items']]
        if h is not None and h.cls == 'dict' and t.op == 'mcall':
            inner = [canon_key(v, it, st, depth + 1) if t.a[1] == 'values' and isinstance(v, T) else str(k) for k, v in h.fields.items()]
            return (t.a[1], tuple(inner))
        if inner is not None and t.op == 'call':
            f = t.a[0].a[0]
            return (f, len(inner)) if f == 'len' else (f, tuple(sorted(inner, key=str)))
    if t.op == 'obj':
        h = st.heap.get(t.a[0])
        if h is None:
            return ('obj', t.a[1])
        return ('obj', t.a[1], tuple((str(k), canon_key(v, it, st, depth + 1)) if isinstance(v, T) else (str(k), tuple(canon_key(y, it, st, depth + 1) for y in v if isinstance(y, T))) if isinstance(v, tuple) else str(k) for k, v in sorted(h.fields.items(), key=lambda x: str(x[0]))))
    if t.op == 'closure':
        c = it.closures[t.a[0]]
        return ('closure', c.node.name if hasattr(c.node, 'name') else 'lambda', tuple(sorted(canon_key(v, it, st, depth + 1) if False else (x, v.op, str(v.a[0]) if v.op == 'func' else '') for x, v in c.env.items() if isinstance(v, T))))
    return (t.op,) + tuple(canon_key(x, it, st, depth + 1) if isinstance(x, T) else (tuple(canon_key(y, it, st, depth + 1) if isinstance(y, T) else str(y) for y in x) if isinstance(x, tuple) else str(x)) for x in t.a)


TEXT = {'split', 'rsplit', 'partition', 'rpartition', 'lower', 'upper', 'title', 'capitalize', 'casefold', 'swapcase', 'strip', 'lstrip', 'rstrip', 'replace', 'removeprefix', 'removesuffix', 'zfill', 'ljust', 'rjust',
        'count', 'find', 'index', 'startswith', 'endswith'}


def text_value(t):
    """The value of an expression of constant texts, or None."""
    try:
        if t.op == 'const':
            return t.a[0]
        if t.op == 'field' and t.a[0].op == 'func' and t.a[1] in ('__qualname__', '__name__'):
            parts = t.a[0].a[0].split('.')
            k = next((i for i, x in enumerate(parts) if x[:1].isupper() or x.startswith('_') and x[1:2].isupper()), len(parts) - 1)
            return parts[-1] if t.a[1] == '__name__' else '.'.join(parts[k:])
        if t.op == 'mcall' and t.a[1] in TEXT and not t.a[3]:
            v, args = text_value(t.a[0]), [text_value(x) for x in t.a[2]]
            return None if not isinstance(v, str) or None in args else getattr(v, t.a[1])(*args)
        if t.op == 'call' and t.a[0].op == 'ext' and t.a[0].a[0].replace('builtins.', '') in ('str', 'len', 'ord', 'hash') and len(t.a[1]) == 1 and not t.a[2]:
            v = text_value(t.a[1][0])
            n = t.a[0].a[0].replace('builtins.', '')
            return None if not isinstance(v, (str, list, tuple)) or n == 'hash' else {'str': str, 'len': len, 'ord': ord}[n](v)
        if t.op == 'sub':
            v = text_value(t.a[0])
            if not isinstance(v, (str, list, tuple)):
                return None
            i = t.a[1]
            if i.op == 'slice':
                b = [x.a[0] if x.op == 'const' else 0.5 for x in i.a[:3]]
                return None if 0.5 in b else v[slice(*b)]
            return v[text_value(i)]
    except Exception:
        return None
    return None


def key_carries(t, target, it, st, lossless=True, seen=None, depth=0):
    """(target reachable from the key term, reachable along a path without a lossy function)"""
    if t is target:
        return True, lossless
    if depth > 40:
        return False, False
    best = (False, False)

    def upd(r):
        nonlocal best
        best = (best[0] or r[0], best[1] or r[1])
    kids = []
    ll = lossless
    if t.op == 'call' and t.a[0].op == 'ext' and t.a[0].a[0] in LOSSY:
        ll = False
    if t.op == 'mcall' and t.a[1] in LOSSY_METHODS:
        ll = False
    if t.op == 'sub' and t.a[1].op in ('slice', 'const') and t.a[0].op in ('call', 'mcall', 'fstr', 'fmt'):
        ll = False          # a truncated rendering
    if t.op == 'cmp':
        ll = False
    if t.op == 'obj':
        h = st.heap.get(t.a[0])
        if h is not None:
            if h.init is not None:
                kids.append(h.init)
            for k, v in h.fields.items():
                if isinstance(v, T):
                    kids.append(v)
                elif isinstance(v, tuple):
                    kids += [e for e in v if isinstance(e, T)]
    else:
        kids = children(t)
        if t.op == 'phi':
            # every alternative has to carry the target
            rs = [key_carries(x, target, it, st, ll, None, depth + 1) for x in t.a[0]]
            return all(r[0] for r in rs), all(r[1] for r in rs)
    for x in kids:
        upd(key_carries(x, target, it, st, ll, None, depth + 1))
    return best
