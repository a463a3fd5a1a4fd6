"""Batch replay.  Every method the batch class offers is registered with symbolic arguments on a batch of two files and executed in both
modes; the calls that reach the loaded surfaces and the rows handed to the result frame are compared with what was registered."""
from ..common import *
from .batch import World, surface_batch, FILES

MODES = (('parallel', TRUE), ('serial', FALSE))


def bound_call(fi, step):
    """Arguments of a recorded call by parameter name."""
    pos, kwo, va, kw, dfl = sig(fi)
    out = {}
    names = pos[1:]
    for n, v in zip(names, step['args']):
        out[n] = v
    extra = step['args'][len(names):]
    out.update(step['kwargs'])
    return out, extra


def run(prog, rep):
    rep.rule('offered', 'every surface method declared for batch use is offered by a batch', 40)
    rep.rule('replay', 'a registered step calls the same surface method once per file, with the registered arguments', 40)
    rep.rule('in-place', 'a batch step always works on the loaded surface itself, never on a copy', 10)
    rep.rule('column', 'the value a method returned appears unchanged under its name, labels in the order of the values', 40)
    rep.rule('arity', 'a method that returns several values declares as many labels', 1)
    rep.rule('effect', 'an operation step changes the surface that later steps measure', 10)
    rep.rule('order', 'steps run in registration order; without chaining, all operations in order before all parameters', 4)
    rep.rule('custom', 'custom functions receive the surface as the previous steps left it, and their values reach the row', 4)
    rep.rule('bulk', 'bulk registration registers exactly the requested parameters', 3)
    rep.rule('source', 'a file object is loaded from its data with its declared format, a path from the path', 2)
    S, B = prog.find_class('Surface'), prog.find_class('Batch')
    bm = surface_batch(prog)
    if not bm:
        raise AnalysisError('no batch methods found')
    w = World(prog)
    if not w.ok:
        raise AnalysisError('batch could not be constructed: ' + str(w.r.err))
    offered = set(w.methods())
    rep.used(w.it)
    line = f'{B.module.rel}:{B.node.lineno}'
    for n, d in sorted(bm.items()):
        rep.ob('offered', n)
        if n not in offered and B.lookup(n)[1] is None:
            rep.violate('offered', n, line, B.qual, n, 'a method declared for batch use is missing from batches')

    for n, d in sorted(bm.items()):
        fi, kind = d['fi'], d['kind']
        if n not in offered:
            continue
        where = f'{fi.module.rel}:{fi.node.lineno}'
        pos, kwo, va, kw, dfl = sig(fi)
        names = [x for x in pos[1:] + kwo if x not in d['fixed']]
        res = ('tuple', d['nlabels']) if d['nlabels'] else 'scalar'
        # the values the method really returns
        arities = real_arity(prog, S, fi, d['fixed']) if kind == 'parameter' else None
        if arities is not None:
            rep.ob('arity', n, 'ok' if arities else 'undecided')
            for a, v in arities:
                if a is not None and a != d['nlabels']:
                    rep.violate('arity', n, where, fi.qual, show(v, 3), f'returns {a} values but declares {d["nlabels"] or "no"} column labels')
                elif a is None and d['nlabels']:
                    rep.violate('arity', n, where, fi.qual, show(v, 3), f'declares {d["nlabels"]} column labels but returns one value')
        if arities and d['nlabels']:
            labs = [e.a[0] for e in d['elements'] or ()]
            for a, v in arities:
                for lab, x in zip(labs, v.a[0] if v.op == 'tuple' else ()):
                    got = reducer(x)
                    if isinstance(lab, str) and lab.lower() in REDUCERS and got is not None and got != REDUCERS[lab.lower()]:
                        rep.violate('arity', n, where, fi.qual, f'{lab}: {show(x, 3)}', f'the value under the label {lab!r} is a {got}')
        variants_ = [('by name', [], {x: mk('param', 'arg_' + x) for x in names})]
        plain = [x for x in pos[1:]]
        if plain and not any(x in d['fixed'] for x in plain):
            variants_.append(('by position', [mk('param', 'arg_' + x) for x in plain], {}))
        variants_.append(('defaults', [], {x: mk('param', 'arg_' + x) for x in names if x not in dfl}))
        if 'inplace' in pos + kwo:
            variants_.append(('copy requested', [], dict({x: mk('param', 'arg_' + x) for x in names if x not in dfl}, inplace=FALSE)))
        for label, args, kwargs in variants_:
            for mode, mp in MODES:
                w = World(prog, res)
                extra = {}
                if kind == 'parameter' and label == 'by name':
                    extra = {'custom_name': const('other_name')}
                _, raised = w.do(n, *args, **dict(kwargs, **extra))
                if label == 'copy requested' and raised and w.st.dead:
                    rep.ob('in-place', n)      # rejected outright
                    continue
                w.execute(multiprocessing=mp)
                rep.used(w.it)
                site = f'{n} {label} {mode}'
                if not w.ok:
                    rep.ob('replay', site, 'undecided')
                    continue
                steps = w.steps
                got = {}
                for s in steps:
                    got.setdefault(s['src'], []).append(s)
                rep.ob('replay', site)
                if any(len(v) != 1 for v in got.values()) or len(got) != len(FILES) or any(s['name'] != n for s in steps):
                    rep.violate('replay', site, line, B.qual, ', '.join(f"{s['name']}({show(s['src'], 2)})" for s in steps) or 'no call', f'{n} registered once does not run exactly once per file')
                    continue
                for s in steps:
                    have, ex = bound_call(fi, s)
                    want = dict(zip(pos[1:], args))
                    want.update({k: v for k, v in kwargs.items() if k != 'inplace'})
                    for k, v in want.items():
                        if have.get(k) is not v:
                            rep.violate('replay', site, s['where'], s['func'], f'{n}({k}={show(have[k], 2) if k in have else "default"})', f'the argument {k} given at registration does not reach the surface method')
                    for k, v in have.items():
                        if k not in want and k not in d['fixed'] and not (k in dfl and same_default(v, dfl[k])):
                            rep.violate('replay', site, s['where'], s['func'], f'{n}({k}={show(v, 2)})', f'the surface method receives {k}, which was not given')
                    if ex:
                        rep.violate('replay', site, s['where'], s['func'], f'{n}(.., {show(ex[0], 2)})', 'the surface method receives an argument that was not given')
                    if 'inplace' in pos + kwo:
                        v = have.get('inplace')
                        rep.ob('in-place', n)
                        if v is None or is_const(v, False):
                            if v is not None or is_false(dfl.get('inplace')):
                                rep.violate('in-place', n, s['where'], s['func'], f'{n}(inplace={show(v) if v is not None else "default"})', 'the step works on a copy, so later steps measure the unmodified surface')
                        elif not is_const(v, True):
                            rep.ob('in-place', n, 'undecided')
                    if is_const(have.get('return_trend', FALSE), True):
                        rep.violate('replay', site, s['where'], s['func'], f'{n}(return_trend=True)', 'the step is run with an option that was not given')
                if kind == 'parameter':
                    column(rep, w, n, d, extra.get('custom_name'), site, line, B)
    order(prog, rep, S, B, bm, line)
    custom(prog, rep, B, line)
    bulk(prog, rep, S, B, line)
    source(prog, rep, B, line)
    effect(prog, rep, S, bm)


def is_false(e):
    return isinstance(e, ast.Constant) and e.value is False


def same_default(v, e):
    return isinstance(e, ast.Constant) and v.op == 'const' and type(v.a[0]) is type(e.value) and v.a[0] == e.value


REDUCERS = {'mean': 'mean', 'average': 'mean', 'std': 'std', 'stddev': 'std', 'median': 'median', 'min': 'min', 'max': 'max', 'var': 'var'}


def reducer(x):
    """Which statistic a value is, by its outermost operation."""
    while x.op == 'call' and x.a[0].op == 'ext' and x.a[0].a[0].split('.')[-1] in ('float', 'float64') and len(x.a[1]) == 1:
        x = x.a[1][0]
    n = x.a[0].a[0].split('.')[-1] if x.op == 'call' and x.a[0].op == 'ext' else x.a[1] if x.op == 'mcall' else None
    n = n[3:] if isinstance(n, str) and n.startswith('nan') else n
    return REDUCERS.get({'amin': 'min', 'amax': 'max'}.get(n, n))


def real_arity(prog, S, fi, fixed):
    """[(number of values or None for a single one, value)] over the alternatives of the method's return value."""
    h = Hooks()
    r = Run(prog, h)
    o = r.obj(S)
    kw = sym_kwargs(fi, dict(fixed))
    v = r.method(o, fi.name, [], kw)
    if not r.returns or v is None:
        return []
    out = []
    for x in alts(v):
        if x.op == 'tuple':
            out.append((len(x.a[0]), x))
        elif x.op == 'obj' and r.it.h(r.st, x) is not None and r.it.h(r.st, x).cls == 'list':
            out.append((len(r.it.h(r.st, x).fields['items']), x))
        elif x.op == 'nt':
            out.append((len(x.a[1]), x))
        elif x.op == 'unk':
            continue
        else:
            out.append((None, x))
    return out


def column(rep, w, n, d, custom, site, line, B):
    rows = w.rows()
    if rows is None or any(h.open or h.init is not None for x, f, h in rows):
        rep.ob('column', site, 'undecided')
        return
    rep.ob('column', site)
    name = custom.a[0] if custom is not None else n
    for (x, row, h), s in zip(rows, w.steps):
        byload = {k: v for k, v in row.items() if k != 'file'}
        vals = list(s['value'].a[0]) if s['value'].op == 'tuple' else [s['value']]
        src_of = [v for v in byload.values()]
        if any(v.op == 'result' and v.a[1] is not s['src'] for v in src_of):
            # rows may come in any order, but not mixed
            s2 = [t for t in w.steps if t['src'] is next(v.a[1] for v in src_of if v.op == 'result')]
            vals = list(s2[0]['value'].a[0]) if s2 and s2[0]['value'].op == 'tuple' else [s2[0]['value']] if s2 else vals
        labels = [None] if not d['nlabels'] else [e.a[0] for e in w.it.elements(w.st, d['labels'])]
        for v, lab in zip(vals, labels):
            keys = [k for k, y in byload.items() if y is v]
            want = name if lab is None else f'{name}_{lab}'
            if want not in byload or byload[want] is not v:
                rep.violate('column', site, line, B.qual, f'row has {sorted(map(str, byload))}; {want} = {show(byload[want], 2) if want in byload else "missing"}', f'the value returned by {n} is not reported unchanged under {want}')
        extra = [k for k in byload if k not in ([name] if labels == [None] else [f'{name}_{lab}' for lab in labels])]
        if extra:
            rep.violate('column', site, line, B.qual, f'row has {sorted(map(str, byload))}', f'registering {n} adds a column that is not its value')


def order(prog, rep, S, B, bm, line):
    ops = [n for n, d in bm.items() if d['kind'] == 'operation']
    pars = [n for n, d in bm.items() if d['kind'] == 'parameter' and not d['nlabels']]
    plan0 = [(ops[0], {}), (pars[0], {}), (ops[1], {}), (pars[1], {}), (ops[0], {}), (pars[2], {})]
    plan1 = [(ops[1], {}), (ops[1], {}), (ops[0], {}), (pars[1], {}), (ops[1], {}), (pars[0], {}), (ops[2], {})]
    for mode, mp in MODES:
        for keep, plan in ((TRUE, plan0), (FALSE, plan0), (TRUE, plan1), (FALSE, plan1)):
            w = World(prog)
            for n, kw in plan:
                fi = bm[n]['fi']
                pos, kwo, va, k_, dfl = sig(fi)
                w.do(n, **{x: mk('param', 'arg_' + x) for x in pos[1:] + kwo if x not in dfl and x not in bm[n]['fixed']})
            w.execute(multiprocessing=mp, preserve_chaining_order=keep)
            site = f'{mode}, chaining {"kept" if is_const(keep, True) else "off"}{", repeated operations" if plan is plan1 else ""}'
            if not w.ok or not w.steps:
                rep.ob('order', site, 'undecided')
                continue
            rep.used(w.it)
            rep.ob('order', site)
            want = [n for n, _ in plan]
            if is_const(keep, False):
                want = [n for n in want if bm[n]['kind'] == 'operation'] + [n for n in want if bm[n]['kind'] == 'parameter']
            for s in {s['src'] for s in w.steps}:
                got = [x['name'] for x in w.steps if x['src'] is s]
                if got != want:
                    rep.violate('order', site, line, B.qual, ' '.join(got), f'steps run in another order than {" ".join(want)}')
    # the default keeps the chaining order
    plan = plan0
    w = World(prog)
    for n, kw in plan:
        fi = bm[n]['fi']
        pos, kwo, va, k_, dfl = sig(fi)
        w.do(n, **{x: mk('param', 'arg_' + x) for x in pos[1:] + kwo if x not in dfl and x not in bm[n]['fixed']})
    w.execute()
    if w.ok and w.steps:
        rep.ob('order', 'default')
        for s in {s['src'] for s in w.steps}:
            got = [x['name'] for x in w.steps if x['src'] is s]
            if got != [n for n, _ in plan]:
                rep.violate('order', 'default', line, B.qual, ' '.join(got), 'by default, steps do not run in the order they were chained')


def custom(prog, rep, B, line):
    for mode, mp in MODES:
        for keep in (TRUE, FALSE):
            w = World(prog)
            w.do('custom_operation', mk('param', 'custom_op'))
            w.do('custom_parameter', mk('param', 'custom_par'))
            w.do('Sa')
            w.execute(multiprocessing=mp, preserve_chaining_order=keep)
            site = f'{mode} {"chained" if is_const(keep, True) else "grouped"}'
            if not w.ok:
                rep.ob('custom', site, 'undecided')
                continue
            rep.used(w.it)
            rep.ob('custom', site)
            seen = [(n, s) for n, s, a, k in w.customs]
            srcs = {s['src'] for s in w.steps}
            for s in srcs:
                got = [n for n, x in seen if x is s]
                if got != ['custom_op', 'custom_par']:
                    rep.violate('custom', site, line, B.qual, ' '.join(got) or 'no call', 'custom functions do not run once each, in order, on the loaded surface')
            rows = w.rows()
            if rows is None:
                rep.ob('custom', site, 'undecided')
                continue
            for x, row, h in rows:
                v = row.get('custom_par_value')
                if v is None or v.op != 'custom':
                    rep.violate('custom', site, line, B.qual, f'row has {sorted(map(str, row))}', 'the values of a custom parameter do not reach the row')
                if any(y.op == 'custom' and y.a[0] == 'custom_op' for y in row.values()):
                    rep.violate('custom', site, line, B.qual, f'row has {sorted(map(str, row))}', 'the return value of a custom operation appears as a measurement')


def bulk(prog, rep, S, B, line):
    r = Run(prog)
    iso = r.it.elements(r.st, r.it.getattr_(mk('class', S.qual), 'ISO_PARAMETERS', r.st, None, TopCtx(S)))
    iso = [x.a[0] for x in iso] if iso else None
    for label, req in (('default', None), ('two', ['Sq', 'Sa'])):
        for mode, mp in MODES:
            w = World(prog)
            w.do('roughness_parameters', *([] if req is None else [w.it.new_list(w.st, [const(x) for x in req])]))
            w.execute(multiprocessing=mp)
            want = iso if req is None else req
            site = f'{label} {mode}'
            if not w.ok or not w.steps or want is None:
                rep.ob('bulk', site, 'undecided')
                continue
            rep.used(w.it)
            rep.ob('bulk', site)
            for s in {s['src'] for s in w.steps}:
                got = [x['name'] for x in w.steps if x['src'] is s]
                if sorted(got) != sorted(want):
                    miss = sorted(set(want) ^ set(got)) or got
                    rep.violate('bulk', site, line, B.qual, ' '.join(miss[:6]), 'bulk registration does not run exactly the requested parameters')


def source(prog, rep, B, line):
    for mode, mp in MODES:
        w = World(prog, files=())
        ci = prog.find_class('FileInput')
        fi_obj = w.it.new_obj(w.st, ci, init=mk('param', 'fileinput'))
        w.do('add_files', w.it.new_list(w.st, [fi_obj, const('p.sur')]))
        w.do('Sa')
        w.execute(multiprocessing=mp)
        rep.used(w.it)
        site = mode
        if not w.ok or len(w.loads) != 2:
            rep.ob('source', site, 'undecided' if not w.ok else 'ok')
            if w.ok:
                rep.violate('source', site, line, B.qual, f'{len(w.loads)} loads', 'two registered files are not loaded once each')
            continue
        rep.ob('source', site)
        p = mk('param', 'fileinput')
        fl = load_args(prog, w.S, w.loads)
        objs = [x for x in fl if any(y is p for a in x.values() for y in walk(a))]
        paths = [x for x in fl if x not in objs]
        if len(objs) != 1 or len(paths) != 1:
            rep.violate('source', site, line, B.qual, f'{len(objs)} file objects, {len(paths)} paths', 'a registered file is not loaded exactly once')
            continue
        o, q = objs[0], paths[0]
        src_ = o.get('path_or_buffer')
        if src_ is not mk('field', p, 'data'):
            rep.violate('source', site, line, B.qual, show(src_, 3) if src_ is not None else 'nothing', 'a file object is not loaded from its data')
        if o.get('format') is not mk('field', p, 'format'):
            rep.violate('source', site, line, B.qual, show(o['format'], 3) if 'format' in o else 'no format', 'the declared format of a file object is not used to load it')
        if 'format' in q and not is_const(q['format'], None):
            rep.violate('source', site, line, B.qual, show(q['format'], 3), 'a path is loaded with a format of its own')


def load_args(prog, S, loads):
    c, e = S.lookup('load')
    pos, kwo, va, kw, dfl = sig(e['fi'])
    out = []
    for args, kwargs, stack in loads:
        d = dict(zip(['path_or_buffer'] + pos[2:], args))
        k = dict(kwargs)
        if len(pos) > 1 and pos[1] in k:
            k['path_or_buffer'] = k.pop(pos[1])
        d.update(k)
        out.append(d)
    return out


def effect(prog, rep, S, bm):
    storage = storage_field(prog, S)
    geo = geometry(S)
    for n, d in sorted(bm.items()):
        if d['kind'] != 'operation':
            continue
        fi = d['fi']
        for var in variants(fi, ('inplace', 'return_trend')):
            r = Run(prog)
            o = r.obj(S)
            fixed = dict(d['fixed'])
            fixed.update(var)
            r.method(o, n, [], sym_kwargs(fi, fixed))
            rep.used(r.it)
            site = n + variant_name(var)
            if not r.returns:
                if r.err is None and var.get('filter_type') is not None and is_const(var['filter_type'], 'both'):
                    continue
                rep.ob('effect', site, 'undecided' if r.err else 'ok')
                continue
            rep.ob('effect', site)
            h = r.st.heap[o.a[0]]
            changed = [f for f in (storage,) + tuple(geo) if f in h.fields and h.fields[f] is not mk('field', h.init, f)]
            if not changed:
                rep.violate('effect', site, f'{fi.module.rel}:{fi.node.lineno}', fi.qual, n, 'the operation, run as a batch step, leaves the surface unchanged')
