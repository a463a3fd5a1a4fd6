"""Interpretation of loading and saving from the public interface over an abstract file: concrete content and position, any registered
reader or writer replaced by a record of its call that succeeds or fails as the scenario says."""
from ..common import *
from . import formats

START = 5                      # where the caller's file object stands
AFTER = 1000                   # where a reader leaves it
LAYERS = ('Grayscale', 'Laser+RGB')


def registry(prog):
    """State in which every reader and writer of the package has registered itself, by interpreting the registrations in module order."""
    if hasattr(prog, '_io_base'):
        return prog._io_base
    r = Run(prog, Hooks())
    rd = sorted(formats._registered(prog, 'register_reader'), key=lambda x: (x[0].module.name, x[0].node.lineno))
    wr = sorted(formats._registered(prog, 'register_writer'), key=lambda x: (x[0].module.name, x[0].node.lineno))
    it, st = r.it, r.st
    from ..interp import Frame, FrameCtx
    it._ft = getattr(it, '_ft', {})
    todo = {fi.qual: fi for fi, d, k in rd + wr}
    for fi in sorted(todo.values(), key=lambda f: (f.module.name, f.node.lineno)):
        val = mk('func', fi.qual)
        it._ft[fi.qual] = fi
        it._deco[fi.qual] = val
        ctx = FrameCtx(None, fi.module, fi.cls)
        for d in reversed(fi.node.decorator_list):
            st.frames.append(Frame({}))
            val = it.call(it.ev(d, st, ctx), [val], {}, st, d, ctx)
            st.frames.pop()
            if st.dead:
                raise AnalysisError(f'registration of {fi.qual} fails')
        it._deco[fi.qual] = val
    prog._io_base = (r, r.st, rd, wr)
    return prog._io_base


class IO(Hooks):
    """content: bytes of the file, or None (reads give unknown bytes); ok: quals of the readers that succeed."""

    def __init__(self, prog, content=None, ok=(), failwith='ValueError', ok_at=None):
        self.prog, self.content, self.good, self.failwith = prog, content, set(ok), failwith
        r, st, self.rd, self.wr = registry(prog)
        self.r = Run.__new__(Run)
        self.r.__dict__.update(r.__dict__)
        self.r.st, self.r.hooks, self.r.val, self.r.err = st.copy(), self, None, None
        self.it = self.r.it
        self.it.hooks, self.it.sinks = self, [[]]
        self.readers = {fi.qual for fi, d, k in self.rd}
        self.writers = {fi.qual for fi, d, k in self.wr}
        self.st = self.r.st
        self.calls, self.opened, self.ops, self.closed = [], [], [], []
        self.nfail = {}
        self.ambiguous = False

    # -- the abstract file -------------------------------------------------
    def file(self, name, st=None):
        st = st or self.st
        o = self.it.new_obj(st, 'file', {'pos': const(START if name == 'buffer' else 0), 'closed': FALSE, 'name': const(name)})
        return o

    def buffer(self):
        self.buf = self.file('buffer')
        return self.buf

    def field(self, st, o, n):
        return st.heap[o.a[0]].fields[n]

    def setf(self, st, o, n, v):
        st.wobj(o.a[0]).fields[n] = v

    def is_file(self, t, it, st):
        h = it.h(st, t) if t.op == 'obj' else None
        return h is not None and h.cls == 'file'

    def file_exit(self, v, st):
        self.setf(st, v, 'closed', TRUE)

    def bytes_at(self, st, o, n):
        if self.content is None:
            return None
        pos = self.field(st, o, 'pos')
        base = START if is_const(self.field(st, o, 'name'), 'buffer') else 0
        if not is_const(pos):
            return None
        p = pos.a[0]
        full = b'\x09' * base + self.content
        return full[p:] if n is None or n < 0 else full[p:p + n]

    def implicit_raise(self, s):
        return False

    def may_raise(self, nm, recv, args, sn):
        return False

    def call(self, f, args, kwargs, st, node, ctx, it):
        if f.op == 'ext' and f.a[0] == 'isinstance' and len(args) == 2 and self.is_file(args[0], it, st):
            names = {x.a[0] for x in (args[1].a[0] if args[1].op == 'tuple' else (args[1],)) if x.op == 'ext'}
            return const(bool(names & {'io.IOBase', 'io.BytesIO', 'io.BufferedIOBase', 'io.RawIOBase', 'io.BufferedReader', 'io.BufferedRandom', 'typing.BinaryIO', 'typing.IO'}))
        if f.op == 'ext' and f.a[0] == 'hasattr' and len(args) == 2 and self.is_file(args[0], it, st):
            return const(args[1].a[0] in ('read', 'write', 'seek', 'tell', 'close', 'readable', 'seekable', 'writable', '__enter__', '__exit__'))
        if f.op == 'ext' and f.a[0] in ('open', 'builtins.open', 'io.open', 'io.FileIO') or f.op == 'meth' and f.a[1] in ('open',) and 'Path' in show(f.a[0]) or f.op == 'bmeth' and f.a[1] == 'open':
            a = list(args)
            if f.op in ('meth', 'bmeth'):
                a = [f.a[0]] + a
            mode = a[1] if len(a) > 1 else kwargs.get('mode', const('r'))
            o = self.file(f'path{len(self.opened)}', st)
            self.opened.append((a[0], mode, o, loc(ctx, node) if node is not None else '?'))
            return o
        if f.op == 'bmeth' and self.is_file(f.a[0], it, st):
            return self.fileop(f.a[0], f.a[1], args, kwargs, st, node, ctx, it)
        if f.op in ('pick', 'sub', 'mcall', 'call', 'field', 'unk', 'elem', 'item') and (f.op == 'unk' or any(z.op == 'func' and z.a[0] in self.readers | self.writers for z in walk(f))):
            self.ambiguous = True
        q = f.a[0] if f.op == 'func' else None
        if q in self.readers or q in self.writers:
            fi = it.fi_of(f)
            pos, kwo, va, kwn, dfl = sig(fi)
            bound = dict(zip(pos, args))
            bound.update(kwargs)
            h = bound.get(pos[0])
            at = self.field(st, h, 'pos') if h is not None and self.is_file(h, it, st) else None
            closed = is_const(self.field(st, h, 'closed'), True) if at is not None else None
            self.calls.append(dict(qual=q, args=bound, npos=len(args), handle=h, pos=at, closed=closed, first=pos[0], st=st))
            if at is not None:
                self.setf(st, h, 'pos', const(AFTER + len(self.calls)))
            if q in self.writers:
                if q not in self.good:
                    it.do_raise(self.exc(q, st, node, ctx, it), st, node, ctx)
                return NONE
            if q in self.good:
                return mk('param', 'raw:' + q)
            it.do_raise(self.exc(q, st, node, ctx, it), st, node, ctx)
            return unk('raised')
        return None

    def getattr(self, b, n, st):
        if n == 'image_layers' and b.op == 'param' and isinstance(b.a[0], str) and b.a[0].startswith('raw:'):
            return self.it.new_dict(st, {k: mk('param', f'image {k}') for k in LAYERS})
        return None

    def exc(self, q, st, node, ctx, it):
        return mk('call', mk('ext', self.failwith), (const('failed in ' + q),), ())

    def fileop(self, o, name, args, kwargs, st, node, ctx, it):
        where = loc(ctx, node) if node is not None else '?'
        self.ops.append((name, self.field(st, o, 'name').a[0], tuple(args), where, fname(ctx)))
        pos = self.field(st, o, 'pos')
        if name == 'tell':
            return pos
        if name == 'seek':
            off = args[0] if args else kwargs.get('offset', const(0))
            wh = args[1] if len(args) > 1 else kwargs.get('whence', const(0))
            if wh.op == 'ext':
                wh = const({'SEEK_SET': 0, 'SEEK_CUR': 1, 'SEEK_END': 2}.get(wh.a[0].split('.')[-1], 0))
            if is_const(wh, 0):
                new = off
            elif is_const(wh, 1) and is_const(off) and is_const(pos):
                new = const(pos.a[0] + off.a[0])
            else:
                new = unk('pos')
            self.setf(st, o, 'pos', new)
            return new
        if name in ('read', 'peek', 'readinto', 'read1', 'readline'):
            n = args[0] if args else None
            if n is not None and not is_const(n) or not is_const(pos):
                if name != 'peek':
                    self.setf(st, o, 'pos', unk('pos'))
                return unk('bytes')
            k = n.a[0] if n is not None else None
            b = self.bytes_at(st, o, k)
            if name != 'peek':
                self.setf(st, o, 'pos', const(pos.a[0] + (len(b) if b is not None else (k or 0))))
            return const(b) if b is not None else unk('bytes')
        if name == 'close':
            self.setf(st, o, 'closed', TRUE)
            return NONE
        if name in ('readable', 'seekable', 'writable'):
            return TRUE
        if name == '__enter__':
            return o
        if name == '__exit__':
            self.setf(st, o, 'closed', TRUE)
            return NONE
        return unk('file.' + name)

    # -- entry points --------------------------------------------------------
    def load(self, target, **kw):
        s = self.prog.find_class('Surface')
        v = self.r.call(self.it.getattr_(mk('class', s.qual), 'load', self.st, None, TopCtx(s)), [target], kw)
        return v

    def save(self, target, *args, **kw):
        s = self.prog.find_class('Surface')
        self.surface = self.r.obj(s)
        return self.r.method(self.surface, 'save', [target] + list(args), kw)

    @property
    def exits(self):
        """[(exception name or None, state)] of every way the call ends."""
        out = []
        for e, st, node, ctx in self.it.sinks[0]:
            n = self.it.exc_name(e)
            out.append((n, st, e))
        if not self.r.st.dead and self.r.err is None:
            out.append((None, self.r.st, self.r.val))
        return out

    def source(self):
        """Qualified names of the readers whose result the returned surface holds."""
        v = self.r.val
        out = set()
        for x in alts(v) if v is not None else ():
            for y in deep(x, self.it, self.r.st):
                if y.op == 'param' and isinstance(y.a[0], str) and y.a[0].startswith('raw:'):
                    out.add(y.a[0][4:])
        return out
