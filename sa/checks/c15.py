"""File access of loading and saving.  Every way of loading and saving (by suffix, explicit format, leading bytes, probing; path or file object)
is interpreted for readers that succeed and readers that fail; on every exit the files opened must be closed, the caller's file object must
be open at the position where it stood, and paths must have been opened in the right mode only."""
from ..common import *
from .iofile import IO, START, registry
from . import formats

CONTENT = b'no such format at all......................................'


def run(prog, rep):
    rep.rule('position', "the caller's file object is left at the position where it stood, on every exit", 100)
    rep.rule('open', "the caller's file object is left open", 100)
    rep.rule('closed', 'files opened from a path are closed on every exit', 100)
    rep.rule('mode', 'loading opens files for reading in binary mode, saving for writing in binary mode', 100)
    rep.rule('untouched', 'a request that is rejected opens no file for writing', 5)
    rep.rule('handle', 'every reader and writer leaves the file object it is given open, and readers do not write to it', 20)
    fh = prog.find_class('FileHandler')
    site0 = f'{fh.module.rel}:{fh.node.lineno}'
    _, _, rd, wr = registry(prog)
    rsuf = [(s, fi.qual) for fi, d, k in rd for s in formats.strings(k.get('suffix')) or ()]
    rmag = [(m, fi.qual) for fi, d, k in rd for m in formats.strings(k.get('magic')) or ()]
    wsuf = [(s, fi.qual) for fi, d, k in wr for s in formats.strings(k.get('suffix')) or ()]
    cases = []
    for s, q in rsuf:
        cases.append((f'load buffer as {s}', dict(ok=[q]), s, 'buffer', None))
        cases.append((f'load buffer as {s}, reader fails', dict(ok=[]), s, 'buffer', None))
        cases.append((f'load file{s}', dict(ok=[q]), None, 'file' + s, None))
        cases.append((f'load file{s}, reader fails', dict(ok=[]), None, 'file' + s, None))
    for m, q in rmag:
        cases.append((f'load buffer starting with {m!r}', dict(ok=[q], content=m + CONTENT), None, 'buffer', None))
        cases.append((f'load buffer starting with {m!r}, reader fails', dict(ok=[], content=m + CONTENT), None, 'buffer', None))
        cases.append((f'load file.unknown starting with {m!r}', dict(ok=[q], content=m + CONTENT), None, 'file.unknown', None))
        cases.append((f'load file.unknown starting with {m!r}, reader fails', dict(ok=[], content=m + CONTENT), None, 'file.unknown', None))
    for s, q in rsuf:
        cases.append((f'load buffer, only {q.split(".")[-1]} succeeds', dict(ok=[q]), None, 'buffer', None))
        cases.append((f'load file.unknown, only {q.split(".")[-1]} succeeds', dict(ok=[q]), None, 'file.unknown', None))
    cases.append(('load buffer, nothing matches', dict(ok=[]), None, 'buffer', None))
    cases.append(('load file.unknown, nothing matches', dict(ok=[]), None, 'file.unknown', None))
    cases.append(('load file without suffix, nothing matches', dict(ok=[]), None, 'file', None))
    cases.append(('load empty buffer', dict(ok=[], content=b''), None, 'buffer', None))
    for s, q in wsuf:
        cases.append((f'save buffer as {s}', dict(ok=[q]), s, 'buffer', q))
        cases.append((f'save buffer as {s}, writer fails', dict(ok=[]), s, 'buffer', q))
        cases.append((f'save file{s}', dict(ok=[q]), None, 'file' + s, q))
        cases.append((f'save file{s}, writer fails', dict(ok=[]), None, 'file' + s, q))
    ronly = [s for s, q in rsuf if s not in {x for x, _ in wsuf}]
    for s in ronly[:3] + ['.unknown', '']:
        cases.append((f'save file{s} (not writable)', dict(ok=[]), None, 'file' + s, ''))
        cases.append((f'save buffer as {s!r} (not writable)', dict(ok=[]), s or None, 'buffer', ''))
    for label, kw, fmt, target, saving in cases:
        kw.setdefault('content', CONTENT)
        w = IO(prog, **kw)
        t = w.buffer() if target == 'buffer' else const(target)
        k = {} if fmt is None else {'format': const(fmt)}
        if saving is None:
            w.load(t, **k)
        else:
            w.save(t, **k)
        rep.used(w.it)
        if w.r.err is not None or not w.exits:
            rep.ob('closed', label, 'undecided')
            continue
        entry = 'Surface.load' if saving is None else 'Surface.save'
        for name, st, e in w.exits:
            how = 'returns' if name is None else 'raises ' + str(name[0] if isinstance(name, tuple) else name)
            if target == 'buffer':
                pos, closed = w.field(st, w.buf, 'pos'), w.field(st, w.buf, 'closed')
                rep.ob('position', label)
                rep.ob('open', label)
                if not is_const(pos, START):
                    p = f'moved by {pos.a[0] - START:+d}' if is_const(pos) and isinstance(pos.a[0], int) and pos.a[0] < 1000 else 'at the position where the format function left it'
                    rep.violate('position', label, site0, entry, f'{how}: file object {p}', "the caller's file object is not returned to the position where it stood")
                if is_const(closed, True):
                    rep.violate('open', label, site0, entry, f'{how}: file object closed', "the caller's file object is closed")
            for path, mode, o, where in w.opened:
                h = st.heap.get(o.a[0])
                if h is None:
                    continue
                rep.ob('closed', label)
                if not is_const(h.fields['closed'], True):
                    rep.violate('closed', label, where, entry, f'{how}: {show(path)} stays open', 'a file opened from a path is not closed on this exit')
        for path, mode, o, where in w.opened:
            rep.ob('mode', label)
            m = mode.a[0] if is_const(mode) else None
            if not isinstance(m, str) or 'b' not in m or (saving is None and (set(m) - set('rb'))) or (saving and 'w' not in m):
                rep.violate('mode', label, where, entry, f'mode {show(mode)}', 'a file is opened in a mode that loading or saving must not use')
        if saving == '':
            rep.ob('untouched', label)
            for path, mode, o, where in w.opened:
                rep.violate('untouched', label, where, entry, f'{show(path)} opened in mode {show(mode)}', 'the file is opened although the format cannot be written, which empties an existing file')
            if any(n is None for n, _, _ in w.exits):
                rep.violate('untouched', label, site0, entry, 'save returns', 'saving in a format that cannot be written is not rejected')
    # what the readers and writers do with the file object they are given
    for kind, lst in (('reader', formats.readers(prog)), ('writer', formats.writers(prog))):
        for suf, fi in lst:
            hk = Handle()
            if kind == 'reader':
                formats.run_reader(prog, fi, hk)
            else:
                formats.run_writer(prog, fi, hk)
            label = f'{kind} {suf}'
            rep.used(hk.it)
            rep.ob('handle', label)
            for what, where, fn in hk.bad:
                if kind == 'writer' and what in ('write', 'tofile', 'writelines', 'truncate'):
                    continue
                rep.violate('handle', label, where, fn, what, f'the {kind} closes or writes the file object it is given')


class Handle(Hooks):
    """Uses of the file object given to a reader or writer that close it, or write to it."""

    def __init__(self):
        self.bad = []

    def is_fh(self, t):
        return t.op == 'param' and t.a[0] == 'filehandle'

    def call(self, f, args, kwargs, st, node, ctx, it):
        if f.op == 'meth' and self.is_fh(f.a[0]) and f.a[1] in ('close', 'detach', 'write', 'writelines', 'truncate', '__exit__', '__enter__'):
            self.bad.append((f.a[1], loc(ctx, node), fname(ctx)))
        if f.op == 'meth' and f.a[1] == 'tofile' and args and self.is_fh(args[0]):
            self.bad.append(('tofile', loc(ctx, node), fname(ctx)))
        if f.op == 'ext' and f.a[0].split('.')[-1] in ('closing', 'TextIOWrapper', 'BufferedReader') and args and self.is_fh(args[0]):
            self.bad.append((f.a[0], loc(ctx, node), fname(ctx)))
        if f.op == 'ext' and f.a[0].split('.')[-1] == 'ZipFile' and args and self.is_fh(args[0]):
            m = args[1] if len(args) > 1 else kwargs.get('mode', const('r'))
            if not is_const(m, 'r'):
                self.bad.append((f'ZipFile mode {show(m)}', loc(ctx, node), fname(ctx)))
        return None

    def ev_with(self, d):
        if self.is_fh(d['value']):
            self.bad.append(('with', loc(d['ctx'], d['node']), fname(d['ctx'])))
