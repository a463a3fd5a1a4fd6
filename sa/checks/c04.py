"""Extents and steps, decided by symbolic shape inference and algebraic normalisation of value-flow terms.  Every public
operation, operator, slice, profile extraction, constructor and loader is interpreted; for every topography it leaves
behind (receiver and results) the terms stored as extents are compared with (number of points - 1) * step, where
the number of points is inferred from how the height array was made.  Steps of results are compared with the
steps of the source in the direction the points run along."""
from ..common import *
from ..alias import roots
from ..algebra import Ctx, ALG, describe

VAGUE = {'unk', 'rec', 'loopvar', 'div0', 'phi', 'obj', 'elem', 'pick', 'big', 'call'}


def context(prog, r, objs, storage):
    nd, inv = {}, {}
    for o, ci in objs:
        h = r.st.heap[o.a[0]]
        nd[h.init.uid] = {storage[ci.qual]: 2 if ci.name == 'Surface' else 1}
    A = ALG

    def extent(axis, step, sf, ninit):
        def f(c, base):
            if base.uid not in nd:
                return None
            d = c.dims(mk('field', base, sf))
            return A.mul(A.add(d[axis], A.c(1), -1), c.rat(mk('field', base, step)))
        return f
    for o, ci in objs:
        if ci.name == 'Surface':
            inv['width_um'] = extent(1, 'step_x', storage[ci.qual], nd)
            inv['height_um'] = extent(0, 'step_y', storage[ci.qual], nd)
        else:
            inv['length_um'] = extent(0, 'step', storage[ci.qual], nd)
    return lambda st: Ctx(r.it, st, nd, invariants=inv)


def vague(r, alg=ALG, seen=None):
    seen = set() if seen is None else seen
    for p in (r.n, r.d):
        for m in p:
            for k, e in m:
                if k in seen:
                    continue
                seen.add(k)
                kind, args, _ = alg.atoms[k]
                if kind in VAGUE:
                    return True
    return False


EXT = {'Surface': (('width_um', 1, 'step_x'), ('height_um', 0, 'step_y')), 'Profile': (('length_um', 0, 'step'),)}


def getf(st, x, f):
    h = st.heap.get(x.a[0])
    v = h.fields.get(f)
    if v is None and h.init is not None:
        v = mk('field', h.init, f)
    return v


def check_extent(rep, site, c, st, x, ci, storage, where):
    data = getf(st, x, storage[ci.qual])
    if data is None:
        rep.ob('extent', site, 'undecided')
        return
    for ext, axis, step in EXT[ci.name]:
        s = f'{site}: {ext}'
        rep.ob('extent', s)
        ev, sv = getf(st, x, ext), getf(st, x, step)
        if ev is None or sv is None:
            rep.ob('extent', s, 'undecided')
            continue
        want = []
        for d in alts(data):
            dd = c.dims(d)
            if dd is None:
                # every expression about the same array agrees on its shape
                dim = ALG.a('dim', (c.key(d), axis), True)
            else:
                if axis >= len(dd):
                    rep.ob('extent', s, 'undecided')
                    continue
                dim = dd[axis]
            for sx in alts(sv):
                want.append((ALG.mul(ALG.add(dim, ALG.c(1), -1), c.rat(sx)), dd is not None))
        for e in alts(ev):
            got = c.rat(e)
            if any(ALG.eq(got, w) for w, _ in want):
                continue
            if not want or vague(got) or any(vague(w) or not k for w, k in want):
                rep.ob('extent', s, 'undecided')
                continue
            rep.violate('extent', s, *where, f'{ext} is {describe(ALG, got)[:160]}, but (points - 1) * {step} is {describe(ALG, want[0][0])[:160]}')


def same_step(rep, site, c, got, want, where, what):
    rep.ob('step', site)
    for g in alts(got):
        a = c.rat(g)
        if any(ALG.eq(a, c.rat(w)) for w in alts(want)):
            continue
        if vague(a):
            rep.ob('step', site, 'undecided')
            continue
        rep.violate('step', site, *where, f'{what} is {describe(ALG, a)[:160]} instead of {describe(ALG, c.rat(want))[:160]}')


SUB_CTX = None


def run(prog, rep):
    rep.rule('extent', 'the extent of every topography is (number of points - 1) * step in that direction', 60)
    rep.rule('step', 'results keep the step of the direction their points run along', 40)
    rep.rule('profile-length', 'an extracted profile runs along the requested direction over the whole surface', 3)
    classes = derived_topographies(prog)
    S, P = classes
    storage = {ci.qual: storage_field(prog, ci) for ci in classes}
    byname = {c.name: c for c in classes}

    def survey(site, r, objs, fi, ends, ci, k=None, steps=True):
        mkc = context(prog, r, objs, storage)
        rep.used(r.it)
        if r.err is not None:
            rep.ob('extent', site, 'undecided')
            return
        where = (f'{fi.module.rel}:{fi.node.lineno}', fi.qual, f'{fi.node.name}')
        for st in ends:
            c = mkc(st)
            for o, oc in objs:
                check_extent(rep, f'{site} receiver', c, st, o, oc, storage, where)
                if steps:
                    for step in [s for _, _, s in EXT[oc.name]]:
                        v = getf(st, o, step)
                        if v is not mk('field', st.heap[o.a[0]].init, step):
                            same_step(rep, f'{site} receiver: {step}', c, v, mk('field', st.heap[o.a[0]].init, step), where, step)
                        else:
                            rep.ob('step', f'{site} receiver: {step}')
        if not r.returns or r.val is None:
            return
        st = r.st
        c = mkc(st)
        seen = set()
        for v in alts(r.val):
            for x in [y for e in (v.a[0] if v.op == 'tuple' else (v,)) for y in alts(e)]:
                if x.op != 'obj' or x.uid in seen or any(x is o for o, _ in objs):
                    continue
                seen.add(x.uid)
                h = st.heap.get(x.a[0])
                if h is None or not isinstance(h.cls, ClassInfo) or h.cls.name not in byname:
                    continue
                check_extent(rep, f'{site} result', c, st, x, h.cls, storage, where)
                if steps and h.cls is ci:
                    for _, _, step in EXT[ci.name]:
                        v2 = getf(st, x, step)
                        if v2 is not None:
                            same_step(rep, f'{site} result: {step}', c, v2, mk('field', st.heap[objs[0][0].a[0]].init, step), where, step)

    for ci in classes:
        for n, fi in sorted(public_methods(ci).items()):
            if n in ('clear_cache', 'create_cache_entry', '__repr__', '__hash__', '__len__', '__eq__'):
                continue
            if n == '__init__':
                continue
            pos = sig(fi)[0]
            for k in variants(fi):
                for other in ((True, False) if n.startswith('__') and len(pos) == 2 and n not in ('__getitem__', '__setitem__') else (False,)):
                    r = Run(prog, None)
                    o = r.obj(ci)
                    objs = [(o, ci)]
                    args = sym_kwargs(fi, k)
                    if other:
                        args[pos[1]] = r.obj(ci, pos[1])
                        objs.append((args[pos[1]], ci))
                    elif n == '__getitem__':
                        getitem(prog, rep, ci, fi, storage)
                        continue
                    r.method(o, n, [], args)
                    ends = ([r.st] if r.returns else []) + [e[1] for e in r.raised]
                    survey(f'{ci.name}.{n}{variant_name(k)}' + ('(topography)' if other else ''), r, objs, fi, ends, ci, k, steps=n not in ('rotate', 'align', '__getitem__'))
        # assigning heights
        for n, e in properties(ci).items():
            if e['set'] is None:
                continue
            r = Run(prog, None)
            o = r.obj(ci)
            try:
                r.it.setattr_(o, n, mk('param', 'value'), r.st, None, TopCtx(ci))
            except (KeyError, TypeError, AttributeError, ValueError, IndexError):
                r.err = 'x'
            survey(f'{ci.name}.{n} = value', r, [(o, ci)], e['set'], [r.st], ci)
        # constructors
        fi = ci.lookup('__init__')[1]['fi']
        r = Run(prog, None)
        fixed = {n: NONE for n in sig(fi)[0][1:] if n in ('length_um', 'metadata', 'image_layers')}
        r.call(mk('class', ci.qual), [], sym_kwargs(fi, fixed))
        survey(f'{ci.name}(...)', r, [], fi, [], ci, steps=False)
    raw_loader(prog, rep, S, storage, survey)
    profiles(prog, rep, S, P, storage)
    rep.assumptions += ['steps and extents are changed only through the package', 'numpy and scipy return arrays of the documented shape']


def raw_loader(prog, rep, S, storage, survey):
    e = S.lookup('from_raw_surface')[1]
    if e is None or e.get('fi') is None:
        return
    r = Run(prog, None)
    f = r.it.getattr_(mk('class', S.qual), 'from_raw_surface', r.st, None, TopCtx(S))
    r.call(f, [mk('param', 'raw_surface')])
    survey('Surface.from_raw_surface', r, [], e['fi'], [], S, steps=False)
    if r.returns and r.val is not None and r.val.op == 'obj':
        c = Ctx(r.it, r.st)
        for step in ('step_x', 'step_y'):
            v = getf(r.st, r.val, step)
            if v is not None:
                same_step(rep, f'Surface.from_raw_surface: {step}', c, v, mk('field', mk('param', 'raw_surface'), step), (f'{e["fi"].module.rel}:{e["fi"].node.lineno}', e['fi'].qual, step), step)


def getitem(prog, rep, ci, fi, storage):
    """Slicing multiplies the step by the step of the slice of the same axis."""
    ax = ('y', 'x') if ci.name == 'Surface' else ('',)
    g = lambda a, s: mk('slice', mk('param', f'start_{a}'), mk('param', f'stop_{a}'), s)
    steps = {a: mk('param', f'slice_step_{a}') for a in ax}
    cases = []
    if ci.name == 'Surface':
        for sy in (True, False):
            for sx in (True, False):
                cases.append((mk('tuple', (g('y', steps['y'] if sy else NONE), g('x', steps['x'] if sx else NONE))), {'step_y': sy and steps['y'], 'step_x': sx and steps['x']}))
        cases.append((g('y', steps['y']), {'step_y': steps['y'], 'step_x': False}))
        cases.append((g('y', NONE), {'step_y': False, 'step_x': False}))
    else:
        cases.append((g('', steps['']), {'step': steps['']}))

    class Given(Hooks):
        def truth(self, t, st):
            if t.op == 'cmp' and t.a[0] in ('is', 'is not') and is_const(t.a[2], None) and t.a[1].op == 'param' and t.a[1].a[0].startswith('slice_step'):
                return t.a[0] == 'is not'
            if t.op == 'param' and t.a[0].startswith('slice_step'):
                return True
            return self.ndim_truth(t, st)
    for item, want in cases:
        r = Run(prog, Given())
        o = r.obj(ci)
        r.method(o, '__getitem__', [item], {})
        rep.used(r.it)
        site = f'{ci.name}[{show(item)}]'
        where = (f'{fi.module.rel}:{fi.node.lineno}', fi.qual, '__getitem__')
        if not r.returns or r.val is None or r.err:
            rep.ob('step', site, 'undecided')
            continue
        c = context(prog, r, [(o, ci)], storage)(r.st)
        for x in alts(r.val):
            if x.op != 'obj':
                continue
            for f, m in want.items():
                s0 = mk('field', r.st.heap[o.a[0]].init, f)
                v = getf(r.st, x, f)
                if v is not None:
                    same_step(rep, f'{site}: {f}', c, v, mk('bin', '*', m, s0) if m else s0, where, f)
            check_extent(rep, f'{site} result', c, r.st, x, ci, storage, where)


def profiles(prog, rep, S, P, storage):
    init = None
    spec = {'get_horizontal_profile': ('step_x', 'width_um'), 'get_vertical_profile': ('step_y', 'height_um')}
    for n, (step, ext) in spec.items():
        c_, e = S.lookup(n)
        if e is None:
            continue
        fi = e['fi']
        r = Run(prog, None)
        o = r.obj(S)
        r.method(o, n, [], sym_kwargs(fi))
        rep.used(r.it)
        where = (f'{fi.module.rel}:{fi.node.lineno}', fi.qual, n)
        rep.ob('profile-length', n, 'ok' if r.returns and r.val is not None else 'undecided')
        if not r.returns or r.val is None:
            continue
        c = context(prog, r, [(o, S)], storage)(r.st)
        for x in alts(r.val):
            if x.op != 'obj':
                rep.ob('profile-length', n, 'undecided')
                continue
            init = r.st.heap[o.a[0]].init
            same_step(rep, f'{n}: step', c, getf(r.st, x, 'step'), mk('field', init, step), where, 'step of the profile')
            got, want = [c.rat(v) for v in alts(getf(r.st, x, 'length_um'))], c.rat(mk('field', init, ext))
            for g in got:
                if not ALG.eq(g, want):
                    # an alternative that is recomputed from heights whose shape is unknown
                    if vague(g):
                        rep.ob('profile-length', n, 'undecided')
                    else:
                        d = c.dims(getf(r.st, x, storage[P.qual]))
                        if d is None:
                            rep.ob('profile-length', n, 'undecided')
                        else:
                            rep.violate('profile-length', n, *where, f'the length of the profile is {describe(ALG, g)[:160]} instead of {ext} = {describe(ALG, want)[:120]}')
            d = c.dims(getf(r.st, x, storage[P.qual]))
            full = c.dims(mk('field', init, storage[S.qual]))
            if d is not None and len(d) == 1:
                w = full[1 if step == 'step_x' else 0]
                if not ALG.eq(d[0], w) and not vague(d[0]):
                    rep.violate('profile-length', n, *where, f'the profile has {describe(ALG, d[0])[:120]} points instead of {describe(ALG, w)[:80]}')
    n = 'get_oblique_profile'
    c_, e = S.lookup(n)
    if e is not None:
        fi = e['fi']
        r = Run(prog, None)
        o = r.obj(S)
        r.method(o, n, [], sym_kwargs(fi))
        rep.used(r.it)
        rep.ob('profile-length', n, 'ok' if r.returns and r.val is not None else 'undecided')
        where = (f'{fi.module.rel}:{fi.node.lineno}', fi.qual, n)
        if r.returns and r.val is not None:
            c = context(prog, r, [(o, S)], storage)(r.st)
            for x in alts(r.val):
                if x.op == 'obj':
                    check_extent(rep, f'Surface.{n} result', c, r.st, x, P, storage, where)
