"""Ownership of height storage, decided by an interprocedural alias analysis.  For every public operation the storage roots of the
heights of each resulting topography are computed through views, slices and package calls; they must not include the storage of another
topography, and must be writable.  The public read accessor must hand out either a copy or a non-writable view.  Readers are
interpreted from the file handle to the created topography and their height arrays traced to buffers and bytes."""
from ..common import *
from ..alias import roots, kw, VIEW_METHODS
from .formats import readers, run_reader, raw_of

BORROWED = {'numpy.frombuffer', 'numpy.memmap', 'numpy.lib.stride_tricks.as_strided', 'numpy.broadcast_to', 'numpy.lib.stride_tricks.sliding_window_view'}


NUMBER = mk('param', 'number')


class Number(Hooks):
    """The operand is a number."""
    def truth(self, t, st):
        if t.op == 'call' and t.a[0].op == 'ext' and t.a[0].a[0] in ('isinstance', 'builtins.isinstance') and len(t.a[1]) == 2 and t.a[1][0] is NUMBER:
            return any(x.op == 'ext' and x.a[0].split('.')[-1] in ('int', 'float', 'Number', 'Real', 'Integral') for x in walk(t.a[1][1]))
        return None


def getf(st, x, f):
    h = st.heap.get(x.a[0])
    v = h.fields.get(f)
    if v is None and h.init is not None:
        v = mk('field', h.init, f)
    return v


def readonly_paths(t, depth=0):
    """Alternatives of an array value that are a non-writable array (wrapped in ro without a copy in between)."""
    if depth > 40:
        return False
    if t.op == 'ro':
        return True
    if t.op == 'phi':
        return any(readonly_paths(x, depth + 1) for x in alts(t))
    if t.op == 'store':
        return False
    if t.op == 'sub' and (t.a[1].op == 'slice' or t.a[1].op == 'tuple' and any(x.op == 'slice' for x in t.a[1].a[0])):
        return readonly_paths(t.a[0], depth + 1)
    if t.op == 'mcall' and t.a[1] in VIEW_METHODS:
        return readonly_paths(t.a[0], depth + 1)
    if t.op == 'call' and t.a[0].op == 'ext' and t.a[0].a[0] == 'numpy.frombuffer' and t.a[1]:
        return True
    if t.op == 'call' and t.a[0].op == 'ext' and t.a[0].a[0] == 'numpy.broadcast_to':
        return True
    if t.op == 'call' and t.a[0].op == 'ext' and t.a[1] and t.a[0].a[0] in ('numpy.asarray', 'numpy.ravel', 'numpy.reshape', 'numpy.squeeze', 'numpy.flipud', 'numpy.fliplr', 'numpy.flip', 'numpy.rot90', 'numpy.transpose', 'numpy.ascontiguousarray', 'numpy.asanyarray'):
        return readonly_paths(t.a[1][0], depth + 1)
    return False


def run(prog, rep):
    rep.rule('separate', 'the heights of a new topography share no storage with another topography', 40)
    rep.rule('writable', 'the heights of every topography an operation produces can be written element by element', 40)
    rep.rule('accessor', 'the public accessor of the heights hands out a copy or a non-writable view', 2)
    rep.rule('element-write', 'writing an element through the topography writes its own storage', 2)
    rep.rule('loaded', 'heights loaded from a file are writable and owned by the topography', 10)
    rep.rule('container', 'a container of results handed out by a public method is not the one later calls report from', 20)
    classes = derived_topographies(prog)
    storage = {ci.qual: storage_field(prog, ci) for ci in classes}
    byname = {c.name: c for c in classes}
    for ci in classes:
        for n, e in properties(ci).items():
            if n != 'data':
                continue
            r = Run(prog)
            o = r.obj(ci)
            v = r.it.getattr_(o, n, r.st, None, TopCtx(ci))
            rep.used(r.it)
            own = mk('field', r.st.heap[o.a[0]].init, storage[ci.qual])
            fi = e['get']
            site = f'{ci.name}.{n}'
            rep.ob('accessor', site)
            for x in alts(v):
                if own in roots(x) and x.op != 'ro':
                    rep.violate('accessor', site, f'{fi.module.rel}:{fi.node.lineno}', fi.qual, show(x, 4), 'the accessor hands out the storage itself, writable: modifying it bypasses the topography')
        c_, e = ci.lookup('__setitem__')
        if e is not None:
            fi = e['fi']
            writes = []

            class W(Hooks):
                def ev_mutate(self, d):
                    writes.append(d)
            h = W()
            r = Run(prog, h)
            o = r.obj(ci)
            r.method(o, '__setitem__', [mk('param', 'key'), mk('param', 'value')], {})
            rep.used(r.it)
            own = mk('field', r.st.heap[o.a[0]].init, storage[ci.qual])
            site = f'{ci.name}[...] = value'
            hit = [d for d in writes if own in roots(d['base'])]
            if not hit:
                now = getf(r.st, o, storage[ci.qual])
                if now is own and r.returns and r.err is None:
                    rep.violate('element-write', site, f'{fi.module.rel}:{fi.node.lineno}', fi.qual, '__setitem__', 'the storage of the topography is not written')
                else:
                    rep.ob('element-write', site, 'undecided' if now is own else 'ok')
            else:
                rep.ob('element-write', site)
                for d in hit:
                    if readonly_paths(d['base']):
                        rep.violate('element-write', site, loc(d['ctx'], d['node']), fname(d['ctx']), src(d['node']), 'the write goes through the non-writable view')
        for n, fi in sorted(public_methods(ci).items()):
            if n in ('__init__', '__setitem__', 'clear_cache', 'create_cache_entry', '__repr__', '__hash__'):
                continue
            pos = sig(fi)[0]
            for k in variants(fi):
                r = Run(prog, None)
                o = r.obj(ci)
                args = sym_kwargs(fi, k)
                if n == '__getitem__':
                    args[pos[1]] = mk('slice', mk('param', 'i'), mk('param', 'j'), NONE)
                others = []
                if n.startswith('__') and len(pos) == 2 and n not in ('__getitem__', '__eq__'):
                    args[pos[1]] = r.obj(ci, pos[1])
                    others.append(args[pos[1]])
                r.method(o, n, [], args)
                rep.used(r.it)
                survey(rep, f'{ci.name}.{n}{variant_name(k)}', r, o, others, ci, storage, byname, fi)
                if others and not k:
                    r = Run(prog, Number())
                    o = r.obj(ci)
                    r.method(o, n, [], {**sym_kwargs(fi, k), pos[1]: NUMBER})
                    rep.used(r.it)
                    survey(rep, f'{ci.name}.{n}(number)', r, o, [], ci, storage, byname, fi)
    loaded(prog, rep, byname['Surface'], storage)
    containers(prog, rep, classes)
    rep.assumptions += ['the array passed by the caller to a constructor or assigned as heights may be kept (documented use)', 'numpy operations other than the listed view-producing ones return fresh arrays']


def survey(rep, site, r, o, others, ci, storage, byname, fi):
    status = 'ok' if r.err is None else 'undecided'
    rep.ob('separate', site, status)
    rep.ob('writable', site, status)
    if not r.returns or r.val is None:
        return
    st = r.st
    where = (f'{fi.module.rel}:{fi.node.lineno}', fi.qual)
    # everything that owns storage
    owners = {}
    for x in [o] + others:
        h = st.heap[x.a[0]]
        owners[mk('field', h.init, storage[h.cls.qual])] = x
    results, seen = [], set()
    for v in alts(r.val):
        for x in [y for e in (v.a[0] if v.op == 'tuple' else (v,)) for y in alts(e)]:
            h = st.heap.get(x.a[0]) if x.op == 'obj' else None
            if h is not None and isinstance(h.cls, ClassInfo) and h.cls.name in byname and x.uid not in seen:
                seen.add(x.uid)
                results.append((x, h))
    res_roots = []
    for x, h in results:
        f = storage[h.cls.qual]
        data = getf(st, x, f)
        if data is None:
            continue
        same = x is o
        for alt in alts(data):
            if same and alt is mk('field', h.init, f):
                continue
            rs = roots(alt)
            for q in rs:
                if q in owners and owners[q] is not x and not same:
                    rep.violate('separate', site, *where, show(alt, 3), f'the heights of the result share storage with {"the operand" if owners[q] is not o else "the original"}: writing to one changes the other')
                if q in owners and same and owners[q] is not o:
                    rep.violate('separate', site, *where, show(alt, 3), 'the heights of the receiver share storage with another topography')
            if readonly_paths(alt):
                rep.violate('writable', site, *where, show(alt, 3), 'the heights of the result are a non-writable array: element assignment fails')
        if not same:
            res_roots.append((x, {q.uid for q in roots(data) if q.op in ('mcall', 'call', 'bin', 'store', 'un')} if len(alts(data)) == 1 else set(), data))
    # the results of one call do not share storage with each other or with the modified receiver
    if len(results) == 1 and results[0][0] is not o:
        pass
    now = getf(st, o, storage[ci.qual])
    if now is not None and now is not mk('field', st.heap[o.a[0]].init, storage[ci.qual]) and now.op != 'phi':
        res_roots.append((o, {q.uid for q in roots(now) if q.op in ('mcall', 'call', 'bin', 'store', 'un')}, now))
    for i, (x, a, d) in enumerate(res_roots):
        for y, b, d2 in res_roots[:i]:
            if x is not y and a & b:
                rep.violate('separate', site, *where, show(d, 3), 'two topographies produced by one call share the same height array')


def loaded(prog, rep, S, storage):
    for ext, fi in readers(prog):
        site = f'reader {ext}'
        r = run_reader(prog, fi)
        rep.used(r.it)
        rep.ob('loaded', site, 'ok' if r.err is None else 'undecided')
        if not r.returns or r.val is None:
            rep.ob('loaded', site, 'undecided')
            continue
        for raw in raw_of(r):
            h = r.st.heap.get(raw.a[0])
            data = h.fields.get('data')
            if data is None:
                rep.ob('loaded', site, 'undecided')
                continue
            # through the constructor of the topography
            for alt in alts(data):
                if readonly_paths(alt):
                    rep.violate('loaded', site, f'{fi.module.rel}:{fi.node.lineno}', fi.qual, show(alt, 4), 'the loaded heights are a non-writable array over the bytes of the file')
                for q in roots(alt):
                    if q.op == 'call' and q.a[0].op == 'ext' and q.a[0].a[0] == 'numpy.memmap':
                        rep.violate('loaded', site, f'{fi.module.rel}:{fi.node.lineno}', fi.qual, show(alt, 4), 'the loaded heights are a memory map of the file')
    # the constructor must not turn them into something non-writable
    r = Run(prog)
    f = r.it.getattr_(mk('class', S.qual), 'from_raw_surface', r.st, None, TopCtx(S))
    r.call(f, [mk('param', 'raw_surface')])
    if r.returns and r.val is not None and r.val.op == 'obj':
        d = getf(r.st, r.val, storage[S.qual])
        e = S.lookup('from_raw_surface')[1]
        rep.ob('loaded', 'from_raw_surface')
        if d is not None and readonly_paths(d):
            rep.violate('loaded', 'from_raw_surface', f'{e["fi"].module.rel}:{e["fi"].node.lineno}', e['fi'].qual, show(d, 4), 'the loaded heights are non-writable')


def containers(prog, rep, classes):
    """A public method must not return a mutable container that is (part of) the value of a memoized method."""
    class H(Hooks):
        def __init__(self):
            self.memo = {}

        def ev_memo_done(self, d):
            for x in alts(d['value']):
                if x.op == 'obj':
                    h = d['st'].heap.get(x.a[0])
                    if h is not None and h.cls in ('dict', 'list'):
                        fi = self.it.unwrap_func(d['fn'])
                        self.memo[x.uid] = fi.qual if fi else '?'
                elif x.op == 'comp' and x.a[0] in ('list', 'dict', 'set'):
                    fi = self.it.unwrap_func(d['fn'])
                    self.memo[x.uid] = fi.qual if fi else '?'
    for ci in classes:
        for n, fi in sorted(public_methods(ci).items()):
            if n.startswith('__') or n.startswith('plot') or n == 'show':
                continue
            h = H()
            r = Run(prog, h)
            o = r.obj(ci)
            r.method(o, n, [], sym_kwargs(fi, variants(fi)[0]))
            site = f'{ci.name}.{n}'
            rep.ob('container', site, 'ok' if r.err is None else 'undecided')
            if r.val is None or not r.returns:
                continue
            for x in alts(r.val):
                if x.uid in h.memo:
                    rep.violate('container', site, f'{fi.module.rel}:{fi.node.lineno}', fi.qual, f'return of {n}', f'hands out the mutable container that the memoized {h.memo[x.uid]} returned: a caller that edits it changes what later calls report')
