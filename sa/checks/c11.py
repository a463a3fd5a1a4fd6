"""Isolation of batch workers.  The effects of processing one file (in both execution modes) are collected: writes to objects that existed
before the batch was executed, to module or class state, and to the arguments a step was registered with."""
from ..common import *
from ..alias import roots
from .batch import World, surface_batch, FILES

MODES = (('parallel', TRUE), ('serial', FALSE))


def target(d):
    return d.get('obj') or d.get('base')


def describe(d):
    t = target(d)
    return f"{d['kind']} on {show(t, 3)}" if t is not None else d['kind']


def run(prog, rep):
    rep.rule('shared', 'processing a file writes nothing that existed before: steps, their arguments, the batch, module or class state', 8)
    rep.rule('arguments', 'a surface method never modifies the arguments a step was registered with', 40)
    rep.rule('registration', 'registering a step changes nothing but the batch it is registered with', 40)
    rep.rule('own-surface', 'every file is measured on a surface loaded for it alone', 8)
    rep.rule('static', 'surface methods used by batches write no module or class state', 40)
    S, B = prog.find_class('Surface'), prog.find_class('Batch')
    bm = surface_batch(prog)
    plans = {
        'operations and parameters': [n for n in ('level', 'crop', 'Sa', 'depth', 'Smr', 'filter', 'Sq') if n in bm],
        'labelled': [n for n, d in bm.items() if d['nlabels']] + ['Sa'],
    }
    for label, plan in plans.items():
        for mode, mp in MODES:
            for keep in (TRUE, FALSE):
                for what, res in (('returns', 'ok'), ('fails', 'fail')):
                    def result(name, res=res):
                        if name in bm and bm[name]['kind'] == 'parameter' and res == 'fail':
                            return ('raise', 'CalculationError')
                        return ('tuple', bm[name]['nlabels']) if name in bm and bm[name]['nlabels'] else 'scalar'
                    w = World(prog, result)
                    lists = {}
                    for n in plan:
                        if n not in bm:
                            continue
                        pos, kwo, va, k_, dfl = sig(bm[n]['fi'])
                        kw = {x: mk('param', 'arg_' + x) for x in pos[1:] + kwo if x not in bm[n]['fixed']}
                        w.do(n, **kw)
                    w.do('custom_parameter', mk('param', 'custom_par'))
                    w.do('custom_operation', mk('param', 'custom_op'))
                    w.execute(multiprocessing=mp, preserve_chaining_order=keep, on_file_complete=mk('param', 'on_complete'))
                    rep.used(w.it)
                    site = f'{label} {mode} {"chained" if is_const(keep, True) else "grouped"} {what}'
                    if not w.ok or not w.loads:
                        rep.ob('shared', site, 'undecided')
                        continue
                    worker = None
                    stacks = [s for a, k, s in w.loads]
                    # the per-file function: the outermost frame below execute that every load shares and that is entered per file
                    spawned = [w.it.unwrap_func(d['func'].a[0] if d['func'].op in ('partial', 'bound') else d['func']) for d in w.spawns]
                    worker = {f.qual for f in spawned if f is not None} | {stacks[0][-1]}
                    rep.ob('shared', site)
                    for d in w.writes:
                        t = target(d)
                        frames = [q for q, n in d['stack']]
                        in_worker = any(q in worker for q in frames)
                        if d['kind'] == 'setglobal':
                            if in_worker:
                                rep.violate('shared', site, loc(d['ctx'], d['node']), fname(d['ctx']), src(d['node']), 'processing a file writes module state')
                            continue
                        if t is None:
                            continue
                        for x in alts(t):
                            if x.op == 'obj' and x.a[0] in w.pre:
                                if x is w.b and not in_worker:
                                    continue
                                if in_worker or w.it.h(w.st, x) is not None and isinstance(w.it.h(w.st, x).cls, ClassInfo) and w.it.h(w.st, x).cls is not B:
                                    rep.violate('shared', site, loc(d['ctx'], d['node']), fname(d['ctx']), f"{src(d['node'])} [{describe(d)}]", 'processing a file modifies an object shared with the processing of other files')
                            elif x.op in ('class', 'mod', 'global', 'func', 'closure', 'bound', 'ext') and in_worker:
                                rep.violate('shared', site, loc(d['ctx'], d['node']), fname(d['ctx']), src(d['node']), 'processing a file writes class or module state')
                    rep.ob('own-surface', site)
                    keys = [(tuple(a), tuple(sorted(k.items()))) for a, k, s in w.loads]
                    if len(set(keys)) != len(keys) or len(keys) != len(FILES):
                        rep.violate('own-surface', site, f'{B.module.rel}:{B.node.lineno}', B.qual, f'{len(keys)} loads', 'files do not have a surface of their own')
    # registering steps: only the batch they are registered with changes
    for n, d in sorted(bm.items()):
        w = World(prog)
        pos, kwo, va, k_, dfl = sig(d['fi'])
        own = {x.a[0] for x in reachable(w.it, w.st, w.b)}
        w.do(n, **{x: mk('param', 'arg_' + x) for x in pos[1:] + kwo if x not in d['fixed']})
        registration(rep, w, n, own)
    for n, args in (('custom_parameter', [mk('param', 'custom_par')]), ('custom_operation', [mk('param', 'custom_op')]), ('roughness_parameters', []), ('extract_from_filename', [mk('param', 'pattern')])):
        w = World(prog)
        own = {x.a[0] for x in reachable(w.it, w.st, w.b)}
        w.do(n, *args)
        registration(rep, w, n, own)
    for n, d in sorted(bm.items()):
        fi = d['fi']
        for var in variants(fi, ('inplace', 'return_trend')):
            ev = []

            class H(Hooks):
                def on_event(self, e):
                    if e['kind'] in ('mutate', 'augmutate', 'setattr_other', 'setglobal', 'setattr', 'dictset', 'listset', 'append', 'extend', 'dictclear'):
                        ev.append(e)
                    super().on_event(e)
            r = Run(prog, H())
            o = r.obj(S)
            fixed = dict(d['fixed'])
            fixed.update(var)
            kw = sym_kwargs(fi, fixed)
            params = {v for v in kw.values() if v.op == 'param'}
            known = set(r.it.global_heap)
            r.method(o, n, [], kw)
            rep.used(r.it)
            site = n + variant_name(var)
            rep.ob('arguments', site, 'undecided' if r.err else 'ok')
            rep.ob('static', site, 'undecided' if r.err else 'ok')
            for e in ev:
                t = target(e)
                if e['kind'] == 'setglobal':
                    rep.violate('static', site, loc(e['ctx'], e['node']), fname(e['ctx']), src(e['node']), 'a surface method writes module state')
                    continue
                if t is None:
                    continue
                if e['kind'] in ('mutate', 'augmutate', 'setattr_other'):
                    for x in roots(t):
                        if x in params:
                            rep.violate('arguments', site, loc(e['ctx'], e['node']), fname(e['ctx']), src(e['node']), f'the argument {x.a[0]} of a step is modified, so the next file is processed with another value')
                for x in alts(t):
                    if x.op in ('class', 'mod', 'global', 'func', 'closure', 'bound') or x.op == 'obj' and x.a[0] in r.it.global_heap:
                        rep.violate('static', site, loc(e['ctx'], e['node']), fname(e['ctx']), src(e['node']), 'a surface method writes module or class state')


def registration(rep, w, n, own):
    rep.used(w.it)
    if not w.ok:
        rep.ob('registration', n, 'undecided')
        return
    rep.ob('registration', n)
    for d in w.regwrites:
        if d['kind'] == 'setglobal':
            rep.violate('registration', n, loc(d['ctx'], d['node']), fname(d['ctx']), src(d['node']), 'registering a step writes module state')
            continue
        t = target(d)
        for x in alts(t) if t is not None else ():
            if x.op in ('class', 'mod', 'global', 'func', 'closure', 'bound') or x.op == 'obj' and x.a[0] in w.born and x.a[0] not in own:
                rep.violate('registration', n, loc(d['ctx'], d['node']), fname(d['ctx']), f"{src(d['node'])} [{describe(d)}]", 'registering a step changes what other batches do')
            elif d['kind'] in ('mutate', 'augmutate') and any(y.op == 'param' for y in roots(x)):
                rep.violate('registration', n, loc(d['ctx'], d['node']), fname(d['ctx']), f"{src(d['node'])} [{describe(d)}]", 'registering a step modifies an argument of the caller')


def reachable(it, st, v):
    seen, todo = {}, [v]
    while todo:
        x = todo.pop()
        if x.op == 'obj' and x.a[0] not in it.global_heap:
            if x.a[0] in seen:
                continue
            seen[x.a[0]] = x
            h = it.h(st, x)
            if h is not None:
                todo += [y for y in h.fields.values() if isinstance(y, T)]
                todo += list(it.elements(st, x) or []) if h.cls in ('list', 'tuple', 'set') else []
        elif x.op == 'phi':
            todo += list(x.a[0])
        elif x.op == 'tuple':
            todo += list(x.a[0])
    return list(seen.values())
