"""In-place / copy contract, decided by interprocedural effect and value-flow analysis.  Every public operation that
offers the choice is interpreted with the switch off (explicitly and by default) and on, over an abstract heap; the effects on the
receiver (field stores, element stores through any view) and the identity of the returned object are compared with the
contract, and the value-flow terms of heights and steps produced by both modes are compared with each other.  All other public methods,
operators and getters are required to leave the receiver's heights and geometry alone."""
from ..common import *
from ..alias import roots, strip_copy
from ..algebra import Ctx, ALG, describe

MUTATING_METHODS = {'.sort', '.fill', '.put', '.partition', '.itemset', '.resize', '.setfield'}
MUTATING_CALLS = {'numpy.put', 'numpy.copyto', 'numpy.place', 'numpy.putmask', 'numpy.fill_diagonal', 'numpy.random.shuffle'}


class Eff(Hooks):
    """Element stores into the storage of given objects."""

    def __init__(self, storage):
        self.storage = storage
        self.writes = []

    def note(self, d, base):
        st = d['st']
        rs = roots(base)
        for oid, h in st.heap.items():
            if not isinstance(h.cls, ClassInfo) or h.init is None or h.cls.qual not in self.storage:
                continue
            f = self.storage[h.cls.qual]
            cur = h.fields.get(f, mk('field', h.init, f))
            own = mk('field', h.init, f)
            if own in rs and (cur is own or own in roots(cur) or True):
                self.writes.append((oid, d))

    def ev_mutate(self, d):
        self.note(d, d['base'])

    def ev_augmutate(self, d):
        self.note(d, d['base'])

    def ev_setflags(self, d):
        pass

    def ev_call(self, d):
        n = d['name']
        if n in MUTATING_METHODS and d.get('recv') is not None:
            self.note(d, d['recv'])
        if n in MUTATING_CALLS and d['args']:
            self.note(d, d['args'][0])
        if 'out' in d['kwargs']:
            self.note(d, d['kwargs']['out'])
        if n == 'numpy.nan_to_num' and d['args'] and 'copy' in d['kwargs'] and is_const(d['kwargs']['copy'], False):
            self.note(d, d['args'][0])
        if n in ('scipy.ndimage.gaussian_filter', 'scipy.ndimage.rotate') and 'output' in d['kwargs']:
            self.note(d, d['kwargs']['output'])


class Ends:
    pass


def analyse(prog, rep, ci, n, fi, kw, storage, others=()):
    h = Eff(storage)
    h.sets = []
    r = Run(prog, h)
    o = r.obj(ci)
    args = sym_kwargs(fi)
    for k in list(args):
        if k in kw:
            if kw[k] is None:
                del args[k]
            else:
                args[k] = kw[k]
    for k in others:
        args[k] = r.obj(ci, k)
    log = {}

    def ev_setattr(d):
        if d['obj'].op == 'obj':
            log[(d['obj'].a[0], d['name'])] = d
    h.ev_setattr = ev_setattr
    before = set(r.st.heap)
    r.method(o, n, [], args)
    rep.used(r.it)
    return r, h, o, args, log, before


def changed(r, st, o, ci, storage):
    """Fields of the receiver whose value at the end may differ from the one at the beginning."""
    h = st.heap.get(o.a[0])
    out = []
    for f in (storage[ci.qual],) + geometry(ci):
        v = h.fields.get(f)
        if v is not None and v is not mk('field', h.init, f):
            out.append(f)
    return out


def newobjs(r, v):
    return [x for x in alts(v) if x is not UNBOUND]


def fieldterm(st, o, f):
    h = st.heap.get(o.a[0])
    v = h.fields.get(f)
    if v is None and h.init is not None:
        v = mk('field', h.init, f)
    return v


def certain(t, it, st):
    return not any(x.op in ('unk', 'loopvar', 'dynattr') for x in walk(t))


CANON = Canon()


def canon_obj(t, r, st):
    if not hasattr(r, 'cmemo'):
        r.cmemo = {}
    return CANON.of(t, r.it, st, strip_copy, r.cmemo)


def first(v):
    """The topography in a returned value (first element of a tuple)."""
    return v.a[0][0] if v.op == 'tuple' and v.a[0] else v


def run(prog, rep):
    rep.rule('copy-new', 'without in-place, every returned topography is a newly created object', 12)
    rep.rule('copy-pure', 'without in-place (explicitly or by default), the receiver keeps its heights, steps and extents', 12)
    rep.rule('inplace-self', 'with in-place, the receiver itself is returned', 8)
    rep.rule('inplace-effect', 'with in-place, the receiver is modified', 8)
    rep.rule('parity', 'both modes produce the same heights and steps', 8)
    rep.rule('reader-pure', 'parameters, getters, operators, plots and saving do not modify the heights, steps or extents', 60)
    rep.rule('reject-unchanged', 'a call that is rejected leaves the receiver unchanged', 12)
    classes = derived_topographies(prog)
    storage = {ci.qual: storage_field(prog, ci) for ci in classes}
    for ci in classes:
        for n, fi in sorted(public_methods(ci).items()):
            if n in ('__init__', '__setitem__', 'clear_cache', 'create_cache_entry'):
                continue
            pos, kwo, va, kwv, dfl = sig(fi)
            if 'inplace' in pos + kwo:
                contract(prog, rep, ci, n, fi, storage)
            else:
                reader(prog, rep, ci, n, fi, storage)
        for n, e in properties(ci).items():
            h = Eff(storage)
            r = Run(prog, h)
            o = r.obj(ci)
            site = f'{ci.name}.{n}'
            try:
                r.it.getattr_(o, n, r.st, None, TopCtx(ci))
            except (KeyError, TypeError, AttributeError, ValueError, IndexError):
                rep.ob('reader-pure', site, 'undecided')
                continue
            rep.used(r.it)
            rep.ob('reader-pure', site)
            for f in changed(r, r.st, o, ci, storage):
                e2 = e['get']
                rep.violate('reader-pure', site, f'{e2.module.rel}:{e2.node.lineno}', e2.qual, f'getter {n}', f'reading {n} assigns {f}')


def report_changes(rep, rule, site, fi, r, h, o, log, ends, ci, storage, what):
    bad = False
    for where, st in ends:
        for f in changed(r, st, o, ci, storage):
            d = log.get((o.a[0], f))
            if d is None:
                w = (f'{fi.module.rel}:{fi.node.lineno}', fi.qual, f'sets {f}')
            else:
                w = (loc(d['ctx'], d['node']), fname(d['ctx']), src(d['node']))
            rep.violate(rule, site, *w, f'{what}: {f} of the receiver is assigned {where}')
            bad = True
    for oid, d in h.writes:
        if oid == o.a[0]:
            rep.violate(rule, site, loc(d['ctx'], d['node']), fname(d['ctx']), src(d['node']), f'{what}: an element store reaches the height array of the receiver')
            bad = True
    return bad


def contract(prog, rep, ci, n, fi, storage):
    topo = {'Surface', 'Profile'}
    for k in variants(fi, extra=('inplace',)):
        name = f'{ci.name}.{n}{variant_name(k)}'
        results = {}
        for mode in ('default', 'copy', 'inplace'):
            kw = dict(k, inplace={'default': None, 'copy': FALSE, 'inplace': TRUE}[mode])
            r, h, o, args, log, before = analyse(prog, rep, ci, n, fi, kw, storage)
            results[mode] = (r, o)
            site = f'{name} {mode}'
            und = 'ok' if r.err is None else 'undecided'
            ends = [('on return', r.st)] if r.returns else []
            w = (f'{fi.module.rel}:{fi.node.lineno}', fi.qual)
            if mode != 'inplace':
                rep.ob('copy-pure', site, und)
                rep.ob('copy-new', site, und)
                report_changes(rep, 'copy-pure', site, fi, r, h, o, log, ends + [(f'before {e[0]} is raised', e[1]) for e in r.raised], ci, storage, 'without in-place')
                if not r.returns or r.val is None:
                    continue
                for v in newobjs(r, r.val):
                    els = v.a[0] if v.op == 'tuple' else (v,)
                    for x in [y for e in els for y in alts(e)]:
                        hh = r.st.heap.get(x.a[0]) if x.op == 'obj' else None
                        if x is o:
                            rep.violate('copy-new', site, *w, f'{n}: returns self', 'without in-place, the receiver itself is returned: modifying the result modifies the original')
                        elif is_const(x, None):
                            rep.violate('copy-new', site, *w, f'{n}: returns None', 'without in-place, nothing is returned on some path')
                        elif hh is None or not isinstance(hh.cls, ClassInfo):
                            rep.ob('copy-new', site, 'undecided')
                        elif x.a[0] in before:
                            rep.ob('copy-new', site, 'undecided')
                        elif hh.cls is not ci and hh.cls.name in topo:
                            rep.violate('copy-new', site, *w, f'{n}: returns a {hh.cls.name}', f'a {ci.name} operation returns a {hh.cls.name}')
            else:
                if not r.returns or r.val is None:
                    # an operation may refuse the in-place mode, but then without having done anything
                    for e, st, node, ctx in r.raised:
                        rep.ob('reject-unchanged', site, und)
                        reject(rep, site, r, h, o, log, st, e, node, ctx, ci, storage)
                    continue
                rep.ob('inplace-self', site, und)
                rep.ob('inplace-effect', site, und)
                for v in newobjs(r, r.val):
                    for x in alts(first(v)):
                        if x is o:
                            continue
                        if x.op in ('obj', 'const') or x.op == 'tuple':
                            rep.violate('inplace-self', site, *w, f'{n}: returns {show(x, 2)}', 'with in-place, something other than the receiver is returned')
                        else:
                            rep.ob('inplace-self', site, 'undecided')
                if not changed(r, r.st, o, ci, storage) and not [1 for oid, d in h.writes if oid == o.a[0]]:
                    rep.violate('inplace-effect', site, *w, f'{n}(inplace=True)', 'with in-place, the receiver is never modified')
                for e, st, node, ctx in r.raised:
                    rep.ob('reject-unchanged', site, und)
                    reject(rep, site, r, h, o, log, st, e, node, ctx, ci, storage)
        # both modes give the same result
        (rc, oc), (ri, oi) = results['copy'], results['inplace']
        if not (rc.returns and ri.returns and rc.val is not None):
            continue
        objs = [x for v in newobjs(rc, rc.val) for x in alts(first(v)) if x.op == 'obj' and x is not oc]
        if not objs:
            continue
        for f in (storage[ci.qual],) + geometry(ci):
            site = f'{name} {f if f in geometry(ci) else "heights"}'
            rep.ob('parity', site)
            a = set()
            for x in objs:
                v = fieldterm(rc.st, x, f)
                for y in alts(v) if v is not None else []:
                    a.add(canon_obj(y, rc, rc.st))
            v = fieldterm(ri.st, oi, f)
            b = {canon_obj(y, ri, ri.st) for y in alts(v)}
            if a == b:
                continue
            tv = [fieldterm(rc.st, x, f) for x in objs] + [v]
            if all(t is not None for t in tv):
                cc, cI = Ctx(rc.it, rc.st, rc.hooks.nd), Ctx(ri.it, ri.st, ri.hooks.nd)
                ra = {ALG.rid(cc.rat(y)) for t in tv[:-1] for y in alts(t)}
                rb = {ALG.rid(cI.rat(y)) for y in alts(v)}
                if ra == rb:
                    continue
            if f in ('width_um', 'height_um', 'length_um'):
                rep.ob('parity', site, 'undecided')      # decided by the extent property
                continue
            if all(t is not None and certain(t, rc.it, rc.st) for t in tv):
                rep.violate('parity', site, f'{fi.module.rel}:{fi.node.lineno}', fi.qual, f'{n}: {f if f in geometry(ci) else "heights"}',
                            f'in-place gives {show(strip_copy(v), 4)}, the copy gives {show(strip_copy(tv[0]), 4)}')
            else:
                rep.ob('parity', site, 'undecided')


def reject(rep, site, r, h, o, log, st, e, node, ctx, ci, storage):
    for f in changed(r, st, o, ci, storage):
        if e[0] is None or not isinstance(e, tuple):
            continue
        d = log.get((o.a[0], f))
        rep.violate('reject-unchanged', site, loc(ctx, node), fname(ctx), src(node), f'{e[0]} is raised after {f} of the receiver was already modified' + (f' at {loc(d["ctx"], d["node"])}' if d else ''))


def reader(prog, rep, ci, n, fi, storage):
    pos = sig(fi)[0]
    kinds = [()]
    if n.startswith('__') and len(pos) == 2 and n not in ('__getitem__',):
        kinds = [(), (pos[1],)]
    for others in kinds:
        for k in variants(fi):
            site = f'{ci.name}.{n}{variant_name(k)}' + ('(topography)' if others else '')
            r, h, o, args, log, before = analyse(prog, rep, ci, n, fi, k, storage, others)
            rep.ob('reader-pure', site, 'ok' if r.err is None else 'undecided')
            ends = [('on return', r.st)] if r.returns else []
            ends += [(f'before {e[0]} is raised', e[1]) for e in r.raised]
            objs = [o] + [args[x] for x in others]
            for ob in objs:
                report_changes(rep, 'reader-pure', site, fi, r, h, ob, log, ends, ci, storage, f'{n} is not an in-place operation')
