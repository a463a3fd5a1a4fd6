"""Completeness of batch results.  Batches of zero to three files, registered in every way, are executed in both modes; the rows handed to
the result frame and the completion notifications are counted and compared with the registered files."""
from ..common import *
from .batch import World, surface_batch, FILES

MODES = (('parallel', TRUE), ('serial', FALSE))


def file_of(row, w):
    v = row.get('file')
    return v


def path_name(v):
    """The registered path a 'file' entry is the name of; None when it is something else."""
    if v.op == 'field' and v.a[1] == 'name':
        return v.a[0]
    if v.op == 'call' and v.a[0].op == 'ext' and v.a[0].a[0] in ('os.path.basename', 'str') and v.a[1]:
        return path_name(v.a[1][0]) or (v.a[1][0] if v.a[0].a[0] == 'os.path.basename' else None)
    if v.op == 'sub' and is_const(v.a[1], -1) and v.a[0].op == 'field' and v.a[0].a[1] == 'parts':
        return v.a[0].a[0]
    return None


def run(prog, rep):
    rep.rule('row', 'the result has exactly one row per registered file, in both execution modes', 8)
    rep.rule('notify', 'the completion callback is called exactly once per file, with that file\'s row', 8)
    rep.rule('name', 'a row carries the name of the file it was measured from', 6)
    rep.rule('registered', 'every file added to a batch, in whatever way, is processed exactly once', 8)
    rep.rule('frame', 'the returned result is built from all rows and is what is written to disk', 2)
    rep.rule('additional', 'additional data merged into the result neither drops the row of a file nor adds rows', 2)
    rep.rule('repeat', 'executing again processes the same files and steps again', 2)
    rep.rule('default', 'unset options process every file with notifications just the same', 2)
    B = prog.find_class('Batch')
    line = f'{B.module.rel}:{B.node.lineno}'
    for names in (('a.sur',), ('a.sur', 'b.vk4'), ('day1/a.sur', 'day2/a.sur'), ('a.sur', 'b.vk4', 'c.plu')):
        for mode, mp in MODES:
            for label, result in (('returns', 'scalar'), ('fails', ('raise', 'CalculationError'))):
                w = World(prog, result, files=names)
                w.do('Sa')
                w.do('custom_parameter', mk('param', 'custom_par'))
                w.execute(multiprocessing=mp, on_file_complete=mk('param', 'on_complete'))
                rep.used(w.it)
                check_rows(rep, w, names, f'{len(names)} files {mode} {label}', line, B)
    # ways of registering
    def reg(label, names, build, files=()):
        for mode, mp in MODES:
            w = World(prog, files=files)
            build(w)
            w.do('Sa')
            w.execute(multiprocessing=mp, on_file_complete=mk('param', 'on_complete'))
            rep.used(w.it)
            site = f'{label} {mode}'
            if not w.ok:
                rep.ob('registered', site, 'undecided')
                continue
            got = []
            for a, k, s in w.loads:
                got += [x.a[0] for y in a for x in walk(y) if x.op == 'const' and isinstance(x.a[0], str)]
            rep.ob('registered', site, 'ok' if set(got) == set(names) else 'undecided')
            if got and set(got) != set(names):
                rep.violate('registered', site, line, B.qual, f'loads {sorted(got)}', f'the registered files {sorted(names)} are not processed exactly once each')
            check_rows(rep, w, names, site, line, B)
    L = lambda w, *n: w.it.new_list(w.st, [const(x) for x in n])
    reg('add_files(list)', ['a.sur', 'b.sur'], lambda w: w.do('add_files', L(w, 'a.sur', 'b.sur')))
    reg('add_files(one)', ['a.sur'], lambda w: w.do('add_files', const('a.sur')))
    reg('constructor and add_files', ['a.sur', 'b.sur', 'c.sur'], lambda w: (w.do('add_files', const('b.sur')), w.do('add_files', L(w, 'c.sur'))), files=('a.sur',))
    reg('steps first', ['a.sur'], lambda w: (w.do('Sq'), w.do('add_files', const('a.sur'))))
    # directories: one search per extension, every hit registered
    for way in ('add_dir', 'from_dir'):
        for label, ext in (('one extension', const('.sur')), ('two extensions', None)):
            for mode, mp in MODES:
                w = World(prog, files=())
                e = ext if ext is not None else L(w, '.sur', '.vk4')
                if way == 'add_dir':
                    w.do('add_dir', mk('param', 'dir'), file_extensions=e)
                else:
                    v = w.r.call(w.it.getattr_(mk('class', B.qual), 'from_dir', w.st, None, TopCtx(B)), [mk('param', 'dir')], {'file_extensions': e})
                    if v is None or v.op != 'obj':
                        rep.ob('registered', f'{way} {label} {mode}', 'undecided')
                        continue
                    w.b = v
                w.do('Sa')
                w.execute(multiprocessing=mp)
                rep.used(w.it)
                site = f'{way} {label} {mode}'
                globs = set()
                allterms = [t for a, k, s in w.loads for y in a for t in deep(y, w.it, w.st)]
                for t in allterms:
                    if t.op == 'mcall' and t.a[1] in ('glob', 'rglob', 'iterdir') and t.a[2]:
                        globs |= {x.a[0] for x in walk(t.a[2][0]) if x.op == 'const' and isinstance(x.a[0], str)}
                want = {'.sur'} if ext is not None else {'.sur', '.vk4'}
                if not w.ok or not w.loads:
                    rep.ob('registered', site, 'undecided')
                    continue
                found = {x for x in want if any(g.endswith(x) for g in globs)}
                if not globs:
                    rep.ob('registered', site, 'undecided')
                    continue
                rep.ob('registered', site)
                if any(t.op == 'mcall' and (t.a[1] == 'rglob' or t.a[1] == 'glob' and t.a[2] and any(x.op == 'const' and isinstance(x.a[0], str) and '**' in x.a[0] for x in walk(t.a[2][0]))) for t in allterms):
                    rep.violate('registered', site, line, B.qual, f'searches {sorted(globs)} recursively', 'files outside of the given directory are registered')
                if found != want:
                    rep.violate('registered', site, line, B.qual, f'searches {sorted(globs)}', 'files of a requested extension are not registered')
    # the frame
    for mode, mp in MODES:
        for extra in (False, True):
            w = World(prog, additional=mk('param', 'excel')) if extra else World(prog)
            w.do('Sa')
            v, _ = w.execute(multiprocessing=mp, saveto=mk('param', 'saveto'))
            rep.used(w.it)
            rule = 'additional' if extra else 'frame'
            site = mode
            if not w.ok or v is None or len(w.frames) != 1:
                rep.ob(rule, site, 'undecided')
                continue
            rep.ob(rule, site)
            args, kwargs, st = w.frames[0]
            a = args[0] if args else kwargs.get('data')
            ts = list(deep(v, w.it, w.st))

            def built(t):
                return t.op == 'call' and t.a[0].op == 'ext' and 'DataFrame' in t.a[0].a[0] and t.a[1] and t.a[1][0] is a
            if not any(built(t) for t in ts):
                rep.violate(rule, site, line, B.qual, show(v, 4), 'the returned result is not built from the collected rows')
            for t in ts:
                if t.op == 'mcall' and t.a[1] in ('drop_duplicates', 'dropna', 'head', 'tail', 'sample', 'truncate', 'query', 'nlargest', 'nsmallest') and any(built(y) for y in walk(t.a[0])):
                    rep.violate(rule, site, line, B.qual, show(t, 3), 'rows are dropped from the result')
                if t.op == 'sub' and any(built(y) for y in walk(t.a[0])) and (t.a[1].op in ('cmp', 'slice') or t.a[1].op == 'mcall' and t.a[1].a[1] in ('isin', 'duplicated', 'notna', 'notnull')):
                    rep.violate(rule, site, line, B.qual, show(t, 3), 'rows are dropped from the result')
                m = merged(t)
                if m is None:
                    continue
                left, right, how = m
                sides = [any(built(y) for y in walk(x)) for x in (left, right)]
                if sides not in ([True, False], [False, True]):
                    continue
                want = 'left' if sides[0] else 'right'
                if how is None or how.op != 'const':
                    rep.ob(rule, site, 'undecided')
                elif how.a[0] != want:
                    rep.violate(rule, site, line, B.qual, show(t, 3), 'merging the additional data drops the rows of files it does not mention' if how.a[0] in ('inner', 'left', 'right') else 'merging the additional data adds rows that belong to no registered file')
    # repeated execution
    for mode, mp in MODES:
        w = World(prog)
        w.do('level')
        w.do('Sa')
        w.execute(multiprocessing=mp)
        n1 = [(s['name'], [show(x) for x in s['args']], sorted((k, show(x)) for k, x in s['kwargs'].items())) for s in w.steps]
        got1 = w.rows()
        rows1 = [sorted(map(str, f)) for x, f, h in (got1 or [])]
        w.steps.clear()
        w.loads.clear()
        w.frames.clear()
        w.execute(multiprocessing=mp)
        site = mode
        if not w.ok or not got1 or w.rows() is None:
            rep.ob('repeat', site, 'undecided')
            continue
        rep.ob('repeat', site)
        n2 = [(s['name'], [show(x) for x in s['args']], sorted((k, show(x)) for k, x in s['kwargs'].items())) for s in w.steps]
        rows2 = [sorted(map(str, f)) for x, f, h in (w.rows() or [])]
        if n1 != n2 or rows1 != rows2:
            rep.violate('repeat', site, line, B.qual, f'{len(n1)} calls, then {len(n2)}; {len(rows1)} rows, then {len(rows2)}', 'a second execution does not repeat the first')
    # modes agree
    a, b = {}, {}
    for mode, mp in MODES:
        w = World(prog)
        w.do('level')
        w.do('Sa')
        w.do('Sq')
        w.execute(multiprocessing=mp)
        rep.ob('default', mode, 'ok' if w.ok else 'undecided')
        if w.ok and w.rows():
            b[mode] = sorted(sorted(map(str, f)) for x, f, h in w.rows())
    if len(set(map(str, b.values()))) > 1:
        rep.violate('default', 'modes', line, B.qual, str(b)[:200], 'the two execution modes report different columns')


def merged(t):
    """(left, right, how) of a joining operation on frames."""
    if t.op == 'call' and t.a[0].op == 'ext' and t.a[0].a[0].split('.')[-1] == 'merge' and t.a[0].a[0].startswith('pandas'):
        args, kw, dflt = list(t.a[1]), dict(t.a[2]), 'inner'
    elif t.op == 'mcall' and t.a[1] in ('merge', 'join') and len(t.a) >= 4:
        args, kw, dflt = [t.a[0]] + list(t.a[2]), dict(t.a[3]), 'inner' if t.a[1] == 'merge' else 'left'
    else:
        return None
    left = args[0] if args else kw.get('left')
    right = args[1] if len(args) > 1 else kw.get('right', kw.get('other'))
    how = kw.get('how')
    if how is None:
        pos = 3 if t.op == 'mcall' and t.a[1] == 'join' else 2
        how = args[pos] if len(args) > pos else const(dflt)
    return None if left is None or right is None else (left, right, how)


def prefix(t):
    """A leading part of the registered files, cut at a position that is not their number."""
    if t is None or t.op not in ('sub', 'pick') or t.a[1].op != 'slice':
        return False
    lo, hi, step = t.a[1].a
    if not (lo is NONE or is_const(lo, 0)) or hi is NONE or hi.op == 'len' or step is not NONE and not is_const(step, 1):
        return False
    if is_const(hi) and t.a[0].op == 'tuple' and isinstance(hi.a[0], int) and hi.a[0] == len(t.a[0].a[0]):
        return False
    # cut at a position that depends neither on the files nor on a loop
    return not any(x.op in ('elem', 'item', 'loop', 'phi', 'index', 'max', 'min') or x is t.a[0] for x in walk(hi))


def check_rows(rep, w, names, site, line, B):
    rows = w.rows()
    for d in w.spawns:
        if prefix(d['items']):
            rep.violate('row', site, loc(d['ctx'], d['node']), fname(d['ctx']), src(d['node']), 'only the first files of a batch are processed')
    if not w.ok or rows is None:
        st_ = 'undecided'
        rep.ob('row', site, st_)
        if w.ok and not w.frames:
            rep.violate('row', site, line, B.qual, 'no frame', 'no result is built')
        return
    rep.ob('row', site)
    if len(rows) != len(names) or len({x for x, f, h in rows}) != len(rows):
        rep.violate('row', site, line, B.qual, f'{len(rows)} rows, {len({x for x, f, h in rows})} distinct, for {len(names)} files', 'the result does not have exactly one row per file')
        return
    rep.ob('notify', site)
    got = [a[0] if a else (list(k.values()) or [NONE])[0] for a, k in w.notified]
    if sorted(x.uid for x in got) != sorted(x.uid for x, f, h in rows):
        rep.violate('notify', site, line, B.qual, f'{len(got)} notifications for {len(rows)} rows', 'the completion callback is not called exactly once per file with its row')
    for x, row, h in rows:
        v = row.get('file')
        if h.open:
            rep.ob('name', site, 'undecided')
            continue
        rep.ob('name', site)
        if v is None:
            rep.violate('name', site, line, B.qual, f'row has {sorted(map(str, row))}', 'a row does not name its file')
            continue
        base = {n: n.rsplit('/', 1)[-1] for n in names}
        if v.op != 'const':
            p = path_name(v)
            ok = p is not None and any(t.op == 'const' and t.a[0] in names for t in walk(p))
            rep.ob('name', site, 'ok' if ok else 'undecided')
            if p is None and (any(t.op == 'field' and t.a[1] in ('stem', 'suffix', 'parent') for t in walk(v)) or not any(t.op == 'const' and t.a[0] in names for t in walk(v))):
                rep.violate('name', site, line, B.qual, show(v, 3), 'a row does not carry the full name of its file')
            continue
        if v.a[0] not in base.values():
            rep.violate('name', site, line, B.qual, repr(v.a[0]), f'a row does not carry the full name of its file (one of {sorted(base.values())})')
            continue
        for y in row.values():
            if y.op == 'result':
                fr = {t.a[0] for t in walk(y) if t.op == 'const' and t.a[0] in names}
                if fr and {base[f] for f in fr} != {v.a[0]}:
                    rep.violate('name', site, line, B.qual, f'{show(v, 2)} with {show(y, 3)}', 'a row carries the values of another file')
    got = sorted(t.a[0] for x, row, h in rows for y in row.values() if y.op == 'result' for t in walk(y) if t.op == 'const' and t.a[0] in names)
    if got and sorted(set(got)) != sorted(names):
        rep.violate('row', site, line, B.qual, ', '.join(got), 'two rows carry the values of one file')
