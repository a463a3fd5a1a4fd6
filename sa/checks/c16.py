"""Choice of the format.  Loading and saving are interpreted for every registered suffix and every registered leading-bytes pattern (in several
spellings and combinations), with readers that succeed or fail as the scenario says; the reader that is chosen, what it is given and what is
returned or raised are compared with the documented rules, and the registrations themselves with each other."""
from ..common import *
from .iofile import IO, START, LAYERS, registry
from . import formats

NOISE = b'no such format at all......................................'
READ = {'.al3d', '.dat', '.fits', '.fit', '.fts', '.gwy', '.nms', '.opd', '.os3d', '.plu', '.plux', '.sdf', '.sflz', '.sur', '.tmd', '.vk4', '.vk6', '.vk7', '.x3p', '.xyz', '.zmg'}
# signatures of the formats, as their specifications give them
SIGNATURES = {b'AliconaImaging\x00\r\n': '.al3d', b'\x88\x1b\x03o': '.dat', b'\x88\x1b\x03p': '.dat', b'\x88\x1b\x03q': '.dat', b'SIMPLE': '.fits', b'GWYP': '.gwy',
              b'\x01\x00Directory': '.opd', b'OmniSurf3D': '.os3d', b'aISO-1.0': '.sdf', b'bISO-1.0': '.sdf', b'SFLZ': '.sflz', b'DIGITAL SURF': '.sur',
              b'DSCOMPRESSED': '.sur', b'Binary TrueMap Data File v2.0': '.tmd', b'VK4_': '.vk4', b'VK6': '.vk6', b'VK7': '.vk7', b'PK\x03\x04\x14': '.x3p', b'Zeta-Instruments': '.zmg'}
FAILURES = ('ValueError', 'KeyError', 'struct.error', 'UnicodeDecodeError', 'zipfile.BadZipFile', 'IndexError', 'OSError')
WRITE = {'.al3d', '.sdf', '.sflz', '.sur', '.tmd'}


def changed(t, x):
    """The array is computed from x by an operation that changes its values or their places."""
    while t is not x:
        if t.op in ('bin', 'un', 'cmp', 'sub', 'store'):
            return True
        if t.op == 'ro':
            t = t.a[0]
        elif t.op == 'mcall':
            if t.a[1] in ('transpose', 'round', 'clip', 'reshape', 'ravel', 'flatten', 'byteswap', 'swapaxes', 'take', 'repeat'):
                return True
            if t.a[1] == 'astype':
                dt = t.a[2][0] if t.a[2] else dict(t.a[3]).get('dtype')
                n = dt.a[0] if dt is not None and dt.op in ('ext', 'const') else None
                if isinstance(n, str) and n.split('.')[-1].lstrip('<>=|') in ('float32', 'float16', 'half', 'single', 'int', 'int8', 'int16', 'int32', 'int64', 'uint8', 'uint16', 'uint32', 'f4', 'f2', 'i2', 'i4', 'u2'):
                    return True
            elif t.a[1] not in ('copy', 'view'):
                return False
            t = t.a[0]
        elif t.op == 'field':
            return t.a[1] in ('T', 'mT', 'real', 'imag', 'flat') and x in set(walk(t))
        elif t.op == 'call' and t.a[0].op == 'ext' and t.a[1]:
            n = t.a[0].a[0]
            if n in ('numpy.flip', 'numpy.flipud', 'numpy.fliplr', 'numpy.rot90', 'numpy.transpose', 'numpy.round', 'numpy.around', 'numpy.abs', 'numpy.nan_to_num', 'numpy.float32', 'numpy.negative', 'numpy.ravel', 'numpy.clip'):
                return x in set(walk(t.a[1][0]))
            if n not in ('numpy.asarray', 'numpy.array', 'numpy.ascontiguousarray', 'numpy.copy', 'numpy.require', 'numpy.asanyarray'):
                return False
            t = t.a[1][0]
        else:
            return False
    return False


def run(prog, rep):
    rep.rule('registered', 'every documented format is registered for reading and writing, under one reader or writer', 20)
    rep.rule('magic', 'no leading-bytes pattern is registered twice or hides another', 10)
    rep.rule('suffix', 'a known suffix selects its reader, whatever its case', 40)
    rep.rule('format', 'an explicit format selects its reader, whatever its case and the suffix of the file', 40)
    rep.rule('detect', 'a file whose suffix does not help is recognised by its leading bytes', 30)
    rep.rule('probe', 'a file that nothing identifies is read by the reader that can read it', 20)
    rep.rule('arguments', 'the reader gets the file from its start position and the options of the caller', 60)
    rep.rule('result', 'the surface that is returned is the one the reader made', 60)
    rep.rule('error', 'if no reader can read the file, the error of the designated reader, or the unsupported-format error, is raised', 20)
    rep.rule('write', 'saving selects the writer by explicit format, then suffix, and passes on the surface and the options', 10)
    rep.rule('rejected', 'saving without a known format is rejected', 5)
    fh = prog.find_class('FileHandler')
    site0 = f'{fh.module.rel}:{fh.node.lineno}'
    _, _, rd, wr = registry(prog)
    rsuf, wsuf, magics = {}, {}, {}
    for regs, tab, what in ((rd, rsuf, 'reader'), (wr, wsuf, 'writer')):
        for fi, d, k in regs:
            ss = formats.strings(k.get('suffix'))
            if not ss:
                rep.ob('registered', fi.qual, 'undecided')
                continue
            for s in ss:
                rep.ob('registered', f'{what} {s}')
                if s in tab:
                    rep.violate('registered', f'{what} {s}', loc(fi, d), fi.qual, f'suffix {s} of {tab[s]}', f'two {what}s are registered for one suffix; one of them is never used')
                tab[s] = fi.qual
                if s != s.lower() or not s.startswith('.'):
                    rep.violate('registered', f'{what} {s}', loc(fi, d), fi.qual, f'suffix {s!r}', 'a suffix that the lower-cased suffix of a file never equals')
    for tab, want, what in ((rsuf, READ, 'reader'), (wsuf, WRITE, 'writer')):
        for s in sorted(want):
            rep.ob('registered', f'{what} {s}')
            if s not in tab:
                rep.violate('registered', f'{what} {s}', site0, 'FileHandler', f'no {what} for {s}', 'a documented format is not supported')
    for fi, d, k in rd:
        for m in formats.strings(k.get('magic')) or ():
            if not isinstance(m, bytes) or not m:
                continue
            rep.ob('magic', repr(m))
            for o, q in magics.items():
                if q != fi.qual and (o.startswith(m) or m.startswith(o)):
                    rep.violate('magic', repr(m), loc(fi, d), fi.qual, f'{m!r} and {o!r} ({q})', 'two formats are registered for overlapping leading bytes')
            magics[m] = fi.qual
    options = dict(read_image_layers=mk('param', 'read_image_layers'), encoding=mk('param', 'encoding'))

    def load(rule, label, want, target, content, ok, fmt=None, first=True, failwith='ValueError'):
        w = IO(prog, content=content, ok=ok, failwith=failwith)
        t = w.buffer() if target is None else const(target)
        k = dict(options)
        if fmt is not None:
            k['format'] = const(fmt)
        w.load(t, **k)
        rep.used(w.it)
        good = [x for x in w.exits if x[0] is None]
        if w.r.err is not None or good and unresolved(w):
            rep.ob(rule, label, 'undecided')
            return w
        rep.ob(rule, label)
        src_ = w.source() if good else set()
        if want is None:
            return w
        if not good or src_ != {want}:
            got = 'raises' if not good else 'read by ' + ', '.join(sorted(src_) or ['nothing'])
            rep.violate(rule, label, site0, 'Surface.load', f'{got}; expected {want}', 'the file is not read by the reader that the documented rules select')
            return w
        rep.ob('result', label)
        if any(n is not None for n, _, _ in w.exits):
            rep.violate('result', label, site0, 'Surface.load', 'raises in some executions', 'loading fails although the selected reader succeeds')
        raw = mk('param', 'raw:' + want)
        S = prog.find_class('Surface')
        for v in alts(w.r.val):
            h = w.r.st.heap.get(v.a[0]) if v.op == 'obj' else None
            if h is None or h.cls is not S:
                rep.violate('result', label, site0, 'Surface.load', show(v), 'loading does not return a surface')
                continue
            for n in ('step_x', 'step_y'):
                if h.fields.get(n) is not mk('field', raw, n):
                    rep.violate('result', label, site0, 'Surface.load', f'{n} = {show(h.fields.get(n)) if h.fields.get(n) else None}', 'the point spacing the reader found is not the one of the surface')
            d = h.fields.get('_data', h.fields.get('data'))
            from ..interp import strip_view
            if d is not None and mk('field', raw, 'data') not in set(walk(d)):
                rep.violate('result', label, site0, 'Surface.load', f'data = {show(d)}', 'the heights the reader found are not the ones of the surface')
            elif d is not None and changed(d, mk('field', raw, 'data')):
                rep.violate('result', label, site0, 'Surface.load', f'data = {show(d)}', 'the heights the reader found are changed on their way to the surface')
            img = h.fields.get('image_layers')
            m = w.r.st.heap.get(img.a[0]) if img is not None and img.op == 'obj' else None
            if m is not None and m.cls == 'dict' and not m.open:
                if set(m.fields) != set(LAYERS):
                    rep.violate('result', label, site0, 'Surface.load', f'layers {sorted(map(str, m.fields))}', f'the layers the reader found are {", ".join(LAYERS)}')
                else:
                    for k, v in m.fields.items():
                        x = w.r.st.heap.get(v.a[0]) if v.op == 'obj' else None
                        d = x.fields.get('data') if x is not None else v
                        a = mk('param', f'image {k}')
                        if d is not None and (a not in set(walk(d)) and not any(y.op in ('unk', 'obj') for y in walk(d)) or changed(d, a)):
                            rep.violate('result', label, site0, 'Surface.load', f'{k}: {show(d)}', 'the image is not the one the reader found under this name')
        last = next((c for c in reversed(w.calls) if c['qual'] == want), None)
        if first and w.calls and w.calls[0]['qual'] != want:
            rep.violate(rule, label, site0, 'Surface.load', f'{w.calls[0]["qual"]} is called first', 'another reader than the selected one is tried first and may accept the file')
        if last is not None:
            rep.ob('arguments', label)
            start = START if target is None else 0
            if not is_const(last['pos'] if last['pos'] is not None else NONE, start):
                rep.violate('arguments', label, site0, 'Surface.load', f'position {show(last["pos"]) if last["pos"] is not None else "?"}', 'the reader does not get the file at its start')
            if last['closed']:
                rep.violate('arguments', label, site0, 'Surface.load', 'closed file', 'the reader gets a closed file')
            fi = next(f for f, d, kk in rd if f.qual == want)
            pos, kwo, va, kwn, dfl = sig(fi)
            for n, v in options.items():
                if n in last['args'] and last['args'][n] is not v:
                    rep.violate('arguments', label, site0, 'Surface.load', f'{n}={show(last["args"][n])}', 'an option of the caller does not reach the reader')
                elif n not in last['args']:
                    rep.violate('arguments', label, site0, 'Surface.load', f'{n} not passed', 'an option of the caller does not reach the reader')
                if n not in pos + kwo and not kwn:
                    rep.violate('arguments', label, loc(fi, fi.node), fi.qual, f'no parameter {n}', 'the reader does not accept an option it is called with')
        return w

    spell = lambda s: (s, s.upper(), s[:2].upper() + s[2:]) if len(s) > 2 else (s,)
    other = sorted({q for q in rsuf.values()})
    for s, q in sorted(rsuf.items()):
        for x in spell(s):
            load('suffix', f'file{x}', q, 'dir.v2/my.file' + x, NOISE, [q])
            load('format', f'buffer as {x}', q, None, NOISE, [q], fmt=x)
        # the designated reader wins over what other readers accept and over the leading bytes of another format
        alien = next((m for m, mq in sorted(magics.items()) if mq != q), b'')
        load('suffix', f'file{s} that other readers accept too', q, 'file' + s, alien + NOISE, other)
        load('format', f'buffer as {s} that other readers accept too', q, None, alien + NOISE, other, fmt=s)
        o = '.sdf' if q != rsuf.get('.sdf') else '.sur'
        load('format', f'file{o} as {s}', q, 'file' + o, NOISE, other, fmt=s)
    for m, q in sorted({**magics, **{m: rsuf[s] for m, s in SIGNATURES.items() if s in rsuf}}.items()):
        load('detect', f'buffer starting with {m!r}', q, None, m + NOISE, other)
        load('detect', f'exactly {m!r}', q, None, m, other)
        load('detect', f'file.unknown starting with {m!r}', q, 'file.unknown', m + NOISE, other)
        load('detect', f'file without suffix starting with {m!r}', q, 'file', m + NOISE, other)
        o = '.xyz' if q != rsuf.get('.xyz') else '.sdf'
        load('detect', f'file{o} starting with {m!r}, its reader fails', q, 'file' + o, m + NOISE, [x for x in other if x != rsuf[o]], first=False)
        load('detect', f'buffer as {o} starting with {m!r}, its reader fails', q, None, m + NOISE, [x for x in other if x != rsuf[o]], fmt=o, first=False)
        # only the complete pattern at the start identifies the format
        for what, c in (('not at the start', b'?' + m + NOISE), ('incomplete', m[:-1]), ('one byte', m[:1]), ('in capitals', m.swapcase() + NOISE)):
            if any(c.startswith(x) for x in magics):
                continue
            w = load('error', f'buffer, {m!r} {what}', None, None, c, [])
            final(rep, w, f'buffer, {m!r} {what}', 'UnsupportedFileFormatError', site0, None)
    w = load('error', 'empty buffer', None, None, b'', [])
    final(rep, w, 'empty buffer', 'UnsupportedFileFormatError', site0, None)
    for x in FAILURES:
        q = other[-1]
        load('probe', f'buffer, only {q.split(".")[-1]} succeeds, others raise {x}', q, None, NOISE, [q], first=False, failwith=x)
        load('probe', f'file.xyz, only {q.split(".")[-1]} succeeds, others raise {x}', q, 'file.xyz', NOISE, [q], first=False, failwith=x)
        load('probe', f'file.xyz starting with signature, {x}', magics.get(b'VK4_'), 'file.xyz', b'VK4_' + NOISE, [magics.get(b'VK4_')], first=False, failwith=x)
    for q in other:
        load('probe', f'buffer, only {q.split(".")[-1]} succeeds', q, None, NOISE, [q], first=False)
        load('probe', f'file.unknown, only {q.split(".")[-1]} succeeds', q, 'file.unknown', NOISE, [q], first=False)
        load('probe', f'buffer as .unknown, only {q.split(".")[-1]} succeeds', q, None, NOISE, [q], fmt='.unknown', first=False)
        o = '.xyz' if q != rsuf.get('.xyz') else '.sdf'
        load('probe', f'file{o}, only {q.split(".")[-1]} succeeds', q, 'file' + o, NOISE, [q], first=False)
        load('probe', f'buffer as {o}, only {q.split(".")[-1]} succeeds', q, None, NOISE, [q], fmt=o, first=False)
    # errors
    for s, q in sorted(rsuf.items()):
        for target, fmt in (('file' + s, None), (None, s), ('file.unknown', s)):
            label = f'{target or "buffer"} as {fmt}, nothing can read it' if fmt else f'{target}, nothing can read it'
            w = load('error', label, None, target, NOISE, [], fmt=fmt)
            ex = w.exits
            if w.r.err is not None or not ex or unresolved(w):
                continue
            for n, st, e in ex:
                if n is None:
                    rep.violate('error', label, site0, 'Surface.load', 'returns', 'a file that no reader can read is loaded')
    for target, fmt, want in (('file.unknown', None, 'UnsupportedFileFormatError'), ('file', None, 'UnsupportedFileFormatError'), (None, None, 'UnsupportedFileFormatError'), (None, '.unknown', 'UnsupportedFileFormatError'), ('file.sdf', '.unknown', 'UnsupportedFileFormatError')):
        label = f'{target or "buffer"} as {fmt}, unknown'
        w = load('error', label, None, target, NOISE, [], fmt=fmt)
        final(rep, w, label, want, site0, None)
    for s, q in sorted(rsuf.items()):
        for target, fmt in (('file' + s, None), (None, s)):
            label = f'{target or "buffer"} as {fmt or s}: error of its reader'
            w = load('error', label, None, target, NOISE, [], fmt=fmt)
            final(rep, w, label, None, site0, q)
    # writing
    opts = {'encoding': mk('param', 'encoding')}
    for s, q in sorted(wsuf.items()):
        fi = next(f for f, d, k in wr if f.qual == q)
        pos, kwo, va, kwn, dfl = sig(fi)
        extra = {n: mk('param', 'opt_' + n) for n in pos[2:] + kwo if n != 'encoding'}
        o = '.sdf' if s != '.sdf' else '.sur'
        for label, target, fmt in ([(f'file{x}', 'dir.v2/my.file' + x, None) for x in spell(s)] + [(f'buffer as {x}', None, x) for x in spell(s)] + [(f'file{o} as {s}', 'file' + o, s), (f'file.unknown as {s}', 'file.unknown', s)]):
            label = 'save ' + label
            w = IO(prog, content=b'', ok=list(wsuf.values()))
            t = w.buffer() if target is None else const(target)
            k = dict(opts, **extra)
            if fmt:
                k['format'] = const(fmt)
            w.save(t, **k)
            rep.used(w.it)
            if w.r.err is not None or w.ambiguous:
                rep.ob('write', label, 'undecided')
                continue
            rep.ob('write', label)
            got = [c['qual'] for c in w.calls]
            if got != [q]:
                rep.violate('write', label, site0, 'Surface.save', f'written by {", ".join(got) or "nothing"}', f'the file is not written by {q}, once')
                continue
            c = w.calls[0]
            for n, v in dict(opts, **extra).items():
                if c['args'].get(n) is not v:
                    rep.violate('write', label, site0, 'Surface.save', f'{n}={show(c["args"][n]) if n in c["args"] else "not passed"}', 'an option of the caller does not reach the writer')
            unk_ = [n for n in c['args'] if n not in pos + kwo and not kwn]
            if unk_:
                rep.violate('write', label, loc(fi, fi.node), fi.qual, f'unknown argument {unk_}', 'the writer does not accept an argument it is called with')
            if len(pos) > 1 and c['args'].get(pos[1]) is not w.surface:
                rep.violate('write', label, site0, 'Surface.save', f'surface={show(c["args"].get(pos[1], NONE))}', 'another surface than the one saved is written')
            if not is_const(c['pos'] if c['pos'] is not None else NONE, START if target is None else 0):
                rep.violate('write', label, site0, 'Surface.save', f'position {show(c["pos"]) if c["pos"] is not None else "?"}', 'the writer does not start where the file object stands')
            if any(n is not None for n, _, _ in w.exits):
                rep.violate('write', label, site0, 'Surface.save', 'raises', 'saving fails although the writer succeeds')
    ronly = [s for s in sorted(rsuf) if s not in wsuf]
    for target, fmt in [('file' + s, None) for s in ronly] + [(None, s) for s in ronly] + [('file.unknown', None), ('file', None), (None, None), (None, '.unknown'), ('file.sdf', '.unknown')]:
        label = f'save {target or "buffer"} as {fmt}'
        w = IO(prog, content=b'', ok=list(wsuf.values()))
        w.save(w.buffer() if target is None else const(target), **({'format': const(fmt)} if fmt else {}))
        rep.used(w.it)
        if w.r.err is not None or w.ambiguous:
            rep.ob('rejected', label, 'undecided')
            continue
        rep.ob('rejected', label)
        if any(n is None for n, _, _ in w.exits) or w.calls:
            rep.violate('rejected', label, site0, 'Surface.save', f'written by {w.calls[0]["qual"]}' if w.calls else 'returns', 'saving without a writable format is not rejected')
            continue
        for n, st, e in w.exits:
            nm = n[0] if isinstance(n, tuple) else n
            if nm not in ('UnsupportedFileFormatError', 'ValueError') or nm != ('ValueError' if target in (None, 'file') and not fmt else 'UnsupportedFileFormatError'):
                rep.violate('rejected', label, site0, 'Surface.save', f'raises {nm}', 'the rejection does not name the unsupported format')


def unresolved(w):
    """The reader that is called could not be determined."""
    if w.ambiguous:
        return True
    for v in alts(w.r.val) if w.r.val is not None else ():
        for y in deep(v, w.it, w.r.st):
            if y.op == 'call' and y.a[0].op not in ('ext', 'func') and any(z.op == 'func' and z.a[0] in w.readers for z in walk(y.a[0])):
                return True
    return False


def final(rep, w, label, want, site0, reader):
    """The exception with which a failed load ends."""
    if w.r.err is not None or unresolved(w):
        rep.ob('error', label, 'undecided')
        return
    ex = w.exits
    if not ex or any(n is None for n, _, _ in ex):
        rep.violate('error', label, site0, 'Surface.load', 'returns', 'a file that no reader can read is loaded')
        return
    for n, st, e in ex:
        nm = n[0] if isinstance(n, tuple) else n
        if reader is not None:
            msg = [x.a[0] for y in alts(e) for x in walk(y) if x.op == 'const' and isinstance(x.a[0], str) and x.a[0].startswith('failed in ')]
            if msg != ['failed in ' + reader]:
                rep.violate('error', label, site0, 'Surface.load', f'raises {nm}' + (f' of {msg[0][10:]}' if msg else ''), 'the error of the designated reader is not the one that is raised')
        elif nm != want:
            rep.violate('error', label, site0, 'Surface.load', f'raises {nm}', f'{want} is expected')
