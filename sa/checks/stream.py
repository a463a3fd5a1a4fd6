"""Abstract binary files: a sequence of atoms (constant bytes, packed fields, serialised arrays) that writers append to and readers consume.
Bytes that were written as one value and are read as one value of the same layout give back that value's term."""
import struct
from ..common import *
from . import formats

# atoms
CB, FLD, BLOB = 'cbytes', 'fld', 'blob'
SIZES = {'i1': 1, 'u1': 1, 'i2': 2, 'u2': 2, 'i4': 4, 'u4': 4, 'i8': 8, 'u8': 8, 'f2': 2, 'f4': 4, 'f8': 8, 'b1': 1}
NAMES = {'int8': 'i1', 'uint8': 'u1', 'int16': 'i2', 'uint16': 'u2', 'int32': 'i4', 'uint32': 'u4', 'int64': 'i8', 'uint64': 'u8', 'float16': 'f2', 'float32': 'f4',
         'float64': 'f8', 'double': 'f8', 'single': 'f4', 'float': 'f8', 'half': 'f2', 'int': 'i8', 'byte': 'i1', 'ubyte': 'u1', 'short': 'i2', 'intc': 'i4', 'bool': 'b1', 'bool_': 'b1',
         'd': 'f8', 'f': 'f4', 'h': 'i2', 'H': 'u2', 'i': 'i4', 'I': 'u4', 'b': 'i1', 'B': 'u1', 'q': 'i8', 'Q': 'u8', 'l': 'i8', 'L': 'u8', 'int_': 'i8', 'uint': 'u8', 'e': 'f2'}


def dtype_code(t):
    """'<f8' style code of a dtype argument, or a term for a symbolic dtype, or None."""
    if t is None:
        return None
    if t.op == 'nt' and t.a[0] == 'dtype':
        return t.a[1][0][1].a[0]
    if t.op == 'const' and isinstance(t.a[0], str):
        s = t.a[0].strip()
        e = '<'
        if s[:1] in '<>=|!@':
            e, s = ('>' if s[0] in '>!' else '<'), s[1:]
        s = NAMES.get(s, s)
        if s in SIZES:
            return ('|' if SIZES[s] == 1 else e) + s
        return None
    if t.op == 'ext':
        n = t.a[0].split('.')[-1]
        n = NAMES.get(n)
        return None if n is None else ('|' if SIZES[n] == 1 else '<') + n
    if t.op == 'call' and t.a[0].op == 'ext' and t.a[0].a[0] == 'numpy.dtype' and t.a[1]:
        return dtype_code(t.a[1][0])
    if t.op == 'field' and t.a[1] == 'str':
        return t.a[0]
    if t.op == 'field' and t.a[1] == 'dtype':
        return t
    return None


def dtype_term(code):
    kind, size = code[1], SIZES[code[1:]]
    names = {v: k for k, v in reversed(list(NAMES.items()))}
    return mk('nt', 'dtype', (('str', const(code)), ('kind', const(kind)), ('itemsize', const(size)), ('name', const({'f4': 'float32', 'f8': 'float64', 'i2': 'int16', 'i4': 'int32', 'u1': 'uint8', 'u2': 'uint16', 'u4': 'uint32', 'i8': 'int64', 'u8': 'uint64', 'i1': 'int8', 'f2': 'float16', 'b1': 'bool'}[code[1:]])), ('byteorder', const(code[0]))))


def codes(fmt):
    """[(endianness, code, size, offset)] of a struct format, or None."""
    if isinstance(fmt, bytes):
        fmt = fmt.decode()
    import re
    fmt = fmt.replace(' ', '')
    pre = ''
    if not fmt:
        return [], 0
    if fmt[:1] in '<>=@!':
        pre, fmt = fmt[0], fmt[1:]
    out = []
    done = pre
    for n, c in re.findall(r'(\d*)([a-zA-Z?])', fmt):
        reps = [f'{n or 1}{c}'] if c in 'sp' else ([c] * int(n or 1) if c != 'x' else ['x'] * int(n or 1))
        for r in reps:
            done += r
            try:
                size = struct.calcsize((pre if pre not in ('', '@') else '=') + r) if pre else struct.calcsize(r)
                end = struct.calcsize(done)
            except struct.error:
                return None
            if c == 'x':
                continue
            out.append((('>' if pre in ('>', '!') else '<') if size > 1 and c not in 'sp' else '|', r, size, end - size))
    return out, struct.calcsize(pre + fmt)


def mcallname(t):
    return t.a[1] if t.op == 'mcall' else None


class Stream(Hooks):
    unroll = 400
    """scenario: missing (bool): whether heights are missing; unseekable array writes for memory buffers; ndims of image layers."""

    def __init__(self, prog, missing=False, memory=False, ndims=None):
        self.prog, self.missing, self.memory = prog, missing, memory
        self.ndims = ndims or {}
        self.problems = []
        self.reshapes = []
        self.dtypes = []
        self.writes = 0
        self.effects = []
        self.shapes = {}
        self.force = {}
        self.asked = []

    def on_event(self, d):
        if d['kind'] == 'branch' and d['taken'] is None and d['cond'] not in self.asked:
            self.asked.append(d['cond'])
        if d['kind'] == 'setattr_other' and d.get('name') == 'shape' and d.get('base', d.get('obj')) is not None and self.has_flat(d.get('base', d.get('obj'))):
            self.method(d.get('base', d.get('obj')), 'reshape', [d['value']], {}, d['st'], d['node'], d['ctx'], self.it)
        super().on_event(d)

    # ---------------------------------------------------------------- files
    def file(self, st, atoms=(), mode='write'):
        return self.it.new_obj(st, 'file', {'atoms': mk('tuple', tuple(atoms)), 'pos': mk('tuple', (const(0), const(0))), 'mode': const(mode), 'closed': FALSE})

    def atoms(self, st, o):
        t = st.heap[o.a[0]].fields['atoms']
        return list(t.a[0]) if t.op == 'tuple' else None

    def is_file(self, t, it, st):
        h = it.h(st, t) if t.op == 'obj' else None
        return h is not None and h.cls == 'file'

    def problem(self, what, node, ctx):
        self.problems.append((what, loc(ctx, node) if node is not None else '?', fname(ctx)))

    def implicit_raise(self, s):
        return False

    def may_raise(self, nm, recv, args, sn):
        return False

    # ---------------------------------------------------------------- truth of scenario conditions
    def truth(self, t, st):
        if t in self.force:
            return self.force[t]
        x = t
        while x.op == 'call' and x.a[0].op == 'ext' and x.a[0].a[0] in ('bool', 'int', 'builtins.bool', 'builtins.int') and x.a[1]:
            x = x.a[1][0]
        if self.asks_missing(x):
            return self.missing
        if x.op == 'cmp' and x.a[2].op == 'const' and x.a[0] in ('==', '!='):
            y = x.a[1]
            while y.op == 'call' and y.a[0].op == 'ext' and y.a[0].a[0] in ('bool', 'int') and y.a[1]:
                y = y.a[1][0]
            if self.asks_missing(y) and isinstance(x.a[2].a[0], (int, bool)):
                return (int(self.missing) == int(x.a[2].a[0])) == (x.a[0] == '==')
        if x.op == 'cmp' and x.a[1].op == 'field' and x.a[1].a[1] == 'ndim' and x.a[1].a[0] in self.ndims and is_const(x.a[2]):
            a, b = self.ndims[x.a[1].a[0]], x.a[2].a[0]
            return {'==': a == b, '!=': a != b, '<': a < b, '<=': a <= b, '>': a > b, '>=': a >= b}.get(x.a[0])
        if x.op == 'cmp' and x.a[2].op == 'const' and isinstance(x.a[2].a[0], int) and x.a[0] in ('>', '>=', '<', '<=', '==', '!='):
            # channels of an image layer
            s = x.a[1]
            if s.op == 'sub' and s.a[0].op == 'field' and s.a[0].a[1] == 'shape' and s.a[0].a[0] in self.ndims:
                v = 3 if is_const(s.a[1]) and s.a[1].a[0] in (-1, 2) else 100
                b = x.a[2].a[0]
                return {'>': v > b, '>=': v >= b, '<': v < b, '<=': v <= b, '==': v == b, '!=': v != b}[x.a[0]]
        if x.op == 'cmp' and x.a[0] in ('==', '!=') and self.degenerate(x):
            return x.a[0] == '!='
        if x.op == 'cmp' and x.a[0] in ('==', '!='):
            e = self.numeq(x.a[1], x.a[2], st)
            if e is not None:
                return e == (x.a[0] == '==')
        return super().truth(t, st)

    def asks_missing(self, x):
        if x.op == 'call' and x.a[0].op == 'ext' and x.a[0].a[0] in ('numpy.any', 'any', 'numpy.max') and x.a[1]:
            y = strip_view(x.a[1][0])
        elif x.op == 'mcall' and x.a[1] in ('any', 'max'):
            y = strip_view(x.a[0])
        elif x.op == 'call' and x.a[0].op == 'ext' and x.a[0].a[0] == 'numpy.isnan' and x.a[1] and self.reduced(x.a[1][0]):
            return True
        else:
            return False
        return y.op == 'call' and y.a[0].op == 'ext' and y.a[0].a[0] == 'numpy.isnan'

    def reduced(self, y):
        return y.op == 'mcall' and y.a[1] in ('sum', 'min', 'max', 'mean') or y.op == 'call' and y.a[0].op == 'ext' and y.a[0].a[0] in ('numpy.sum', 'numpy.min', 'numpy.max', 'numpy.mean')

    def degenerate(self, x):
        """Comparisons that hold for constant heights only (largest equal to smallest, largest magnitude zero)."""
        def red(t):
            return t.op == 'call' and t.a[0].op == 'ext' and t.a[0].a[0] in ('numpy.nanmax', 'numpy.nanmin', 'numpy.max', 'numpy.min', 'numpy.ptp') or t.op == 'mcall' and t.a[1] in ('max', 'min', 'ptp') \
                or t.op == 'bin' and t.a[0] == '-' and red(t.a[1]) and red(t.a[2])
        return red(x.a[1]) and (is_const(x.a[2], 0) or red(x.a[2]))

    # ---------------------------------------------------------------- calls
    def call(self, f, args, kwargs, st, node, ctx, it):
        if f.op == 'bmeth' and self.is_file(f.a[0], it, st):
            return self.fileop(f.a[0], f.a[1], args, kwargs, st, node, ctx)
        if f.op == 'meth':
            r = self.method(f.a[0], f.a[1], args, kwargs, st, node, ctx, it)
            if r is not None:
                return r
        if f.op == 'ext':
            return self.ext(f.a[0], args, kwargs, st, node, ctx, it)
        if f.op == 'class':
            ci = self.prog.classes.get(f.a[0])
            if ci is not None and {str(x).split('.')[-1] for x in ci.ext_bases()} & {'Enum', 'IntEnum', 'StrEnum'} and len(args) == 1:
                return args[0]
        if f.op == 'const' and f.a[0] is None:
            return None
        return None

    def method(self, b, n, args, kwargs, st, node, ctx, it):
        if n == 'tofile' and args and self.is_file(args[0], it, st):
            if self.memory:
                it.do_raise(mk('call', mk('ext', 'io.UnsupportedOperation'), (const('fileno'),), ()), st, node, ctx)
                return NONE
            self.append(args[0], [mk(BLOB, mk('mcall', b, 'tobytes', (), ()))], st)
            return NONE
        if n == 'join' and b.op == 'const' and isinstance(b.a[0], (bytes, str)) and len(args) == 1 and it.elements(st, args[0]) is not None:
            out = const(b.a[0][:0])
            for i, x in enumerate(it.elements(st, args[0])):
                if i and b.a[0]:
                    out = it.binop('+', out, b, st, node, ctx)
                out = it.binop('+', out, x, st, node, ctx)
            return out
        if n == 'decode' and b.op == 'padded':
            return mk('padstr', b.a[0], b.a[1])
        if n == 'decode' and mcallname(b) == 'encode':
            return b.a[0]
        if n == 'decode' and b.op == 'blobread' and mcallname(b.a[0]) == 'encode':
            return b.a[0].a[0]
        if n in ('rstrip', 'strip', 'lstrip') and b.op == 'padstr':
            x = b.a[0]
            if mcallname(x) == 'encode':
                x = x.a[0]
            while mcallname(x) in ('ljust', 'rjust', 'center'):
                x = x.a[0]
            return x
        if n in ('reshape',) and self.has_flat(b):
            a = list(args)
            if len(a) == 1 and a[0].op in ('tuple', 'list'):
                a = list(a[0].a[0])
            elif len(a) == 1 and a[0].op == 'obj' and it.elements(st, a[0]) is not None:
                a = list(it.elements(st, a[0]))
            self.reshapes.append((b, tuple(a), tuple(sorted(kwargs.items())), loc(ctx, node) if node is not None else '?', fname(ctx), st))
            return mk('shaped', b, mk('tuple', tuple(a)))
        return None

    def has_flat(self, t):
        return any(x.op == 'flat' for x in walk(t))

    def ext(self, n, args, kwargs, st, node, ctx, it):
        if n == 'isinstance' and len(args) == 2:
            return self.isinst(args[0], args[1], st, it)
        if n in ('struct.calcsize',) and args and is_const(args[0]):
            try:
                return const(struct.calcsize(args[0].a[0]))
            except struct.error:
                return None
        if n == 'struct.pack' and args:
            return self.pack(args[0], args[1:], node, ctx)
        if n in ('struct.unpack', 'struct.unpack_from') and len(args) >= 2 and is_const(args[0]):
            return self.unpack(args[0].a[0], args[1], st, node, ctx)
        if n == 'zlib.decompress' and args and self.calls(args[0], 'zlib.compress'):
            return self.unblob(args[0]).a[1][0]
        if n == 'lzma.decompress' and args and self.calls(args[0], 'lzma.compress'):
            return self.unblob(args[0]).a[1][0]
        if n in ('zlib.decompress', 'lzma.decompress') and args and self.unblob(args[0]).op in ('call', 'mcall'):
            self.problem(f'{n} of {show(self.unblob(args[0]))[:60]}', node, ctx)
        if n == 'numpy.dtype' and args:
            c = dtype_code(args[0])
            return dtype_term(c) if isinstance(c, str) else (mk('call', mk('ext', 'numpy.dtype'), tuple(args), ()) if c is None else c)
        if n == 'numpy.iinfo' and args:
            c = dtype_code(args[0])
            if isinstance(c, str) and c[1] in 'iu':
                bits = 8 * SIZES[c[1:]]
                lo, hi = (0, 2 ** bits - 1) if c[1] == 'u' else (-2 ** (bits - 1), 2 ** (bits - 1) - 1)
                return mk('nt', 'iinfo', (('min', const(lo)), ('max', const(hi)), ('bits', const(bits))))
        if n in ('float', 'int', 'builtins.float', 'builtins.int') and len(args) == 1:
            x = args[0]
            if x.op == 'padstr':
                x = x.a[0].a[0] if mcallname(x.a[0]) == 'encode' else x.a[0]
            if x.op == 'call' and x.a[0].op == 'ext' and x.a[0].a[0] in ('str', 'repr', 'builtins.str') and x.a[1]:
                return x.a[1][0]
            if x.op == 'const' and isinstance(x.a[0], str):
                try:
                    return const((float if n.endswith('float') else int)(x.a[0]))
                except ValueError:
                    return None
            if x.op == 'const' and isinstance(x.a[0], (int, float)) and x.a[0] == x.a[0]:
                try:
                    return const((float if n.endswith('float') else int)(x.a[0]))
                except (ValueError, OverflowError):
                    return None
            if n.endswith('int') and x.op in ('sub', 'nt') and x.op == 'sub' and x.a[0].op == 'field' and x.a[0].a[1] == 'shape':
                return x
        if n in ('numpy.isnan', 'math.isnan', 'numpy.isfinite', 'math.isfinite') and len(args) == 1 and is_const(args[0]) and isinstance(args[0].a[0], (int, float)):
            v = args[0].a[0]
            return const((v != v) if n.endswith('nan') else v == v and abs(v) != float('inf'))
        if n == 'numpy.frombuffer' and args:
            dt = kwargs.get('dtype', args[1] if len(args) > 1 else mk('ext', 'float'))
            return self.frombuffer(args[0], dt, st, node, ctx)
        if n in ('numpy.fromfile',) and args and self.is_file(args[0], it, st):
            b = self.fileop(args[0], 'read', [], {}, st, node, ctx)
            dt = kwargs.get('dtype', args[1] if len(args) > 1 else mk('ext', 'float'))
            return self.frombuffer(b, dt, st, node, ctx)
        if n in ('numpy.reshape',) and args and self.has_flat(args[0]):
            return self.method(args[0], 'reshape', list(args[1:]), kwargs, st, node, ctx, it)
        if n == 'len' and len(args) == 1 and args[0].op in ('rbytes', 'blobread'):
            x = self.unblob(args[0])
            return mk('call', mk('ext', 'len'), (x,), ())
        return None

    def isinst(self, x, c, st, it):
        names = {y.a[0].split('.')[-1] for y in (c.a[0] if c.op == 'tuple' else (c,)) if y.op == 'ext'}
        k = self.kind(x)
        if k is None or not names:
            return None
        table = {'str': {'str'}, 'bytes': {'bytes'}, 'num': {'int', 'float', 'Number', 'integer', 'floating'}}
        if k == 'num' and names & table['num']:
            return None
        return const(bool(names & table[k]))

    def kind(self, x):
        if x.op == 'const':
            v = x.a[0]
            return 'str' if isinstance(v, str) else 'bytes' if isinstance(v, bytes) else 'num' if isinstance(v, (int, float)) else None
        if x.op == 'phi':
            ks = {self.kind(y) for y in alts(x)}
            return ks.pop() if len(ks) == 1 else None
        if x.op in ('padded', 'rbytes', 'blobread'):
            return 'bytes'
        if x.op in ('padstr', 'fstr', 'fmt'):
            return 'str'
        if x.op == 'mcall':
            if x.a[1] in ('strftime', 'decode', 'ljust', 'rjust', 'lower', 'upper', 'strip', 'rstrip', 'format', 'join'):
                return 'str'
            if x.a[1] in ('encode', 'tobytes'):
                return 'bytes'
            if x.a[1] in ('min', 'max', 'mean', 'sum', 'weekday'):
                return 'num'
        if x.op in ('bin', 'nt', 'cmp', 'bool', 'un'):
            return 'num'
        if x.op == 'enum':
            return 'num'
        if x.op == 'call' and x.a[0].op == 'ext':
            n = x.a[0].a[0]
            if n.startswith('numpy.') or n in ('int', 'float', 'len', 'round', 'abs', 'max', 'min'):
                return 'num'
            if n in ('str', 'repr'):
                return 'str'
        if x.op == 'field' and x.a[1] in ('step_x', 'step_y', 'size', 'second', 'minute', 'hour', 'day', 'month', 'year', 'itemsize'):
            return 'num'
        if x.op == 'field' and x.a[1] == 'str':
            return 'str'
        if x.op == 'sub' and x.a[0].op == 'field' and x.a[0].a[1] == 'shape':
            return 'num'
        return None

    # ---------------------------------------------------------------- writing
    def pack(self, fmt, args, node, ctx):
        if not is_const(fmt):
            return None
        cs = codes(fmt.a[0])
        if cs is None:
            return None
        cs, total = cs
        if any(a.op == 'star' for a in args) or len(args) != len(cs):
            self.problem(f'struct.pack({fmt.a[0]!r}) with {len(args)} values', node, ctx)
            return None
        out = []
        at = 0
        for (e, c, size, off), a in zip(cs, args):
            if off > at:
                out.append(mk(CB, b'\x00' * (off - at)))
            at = off + size
            if a.op == 'enum':
                a = a.a[2]
            if a.op == 'const':
                try:
                    v = a.a[0]
                    if c in ('f', 'd') and isinstance(v, int):
                        v = float(v)
                    out.append(mk(CB, struct.pack((e if e != '|' else '<') + c, v)))
                    continue
                except (struct.error, TypeError, OverflowError) as x:
                    self.problem(f'struct.pack({c!r}, {a.a[0]!r}) fails: {x}', node, ctx)
            out.append(mk(FLD, e + c, a))
        if total > at:
            out.append(mk(CB, b'\x00' * (total - at)))
        if all(x.op == CB for x in out):
            return const(b''.join(x.a[0] for x in out))
        return mk('packed', tuple(out))

    def flatten(self, x):
        if x.op == 'const' and isinstance(x.a[0], (bytes, bytearray)):
            return [mk(CB, bytes(x.a[0]))] if x.a[0] else []
        if x.op == 'packed':
            return list(x.a[0])
        if x.op == 'bin' and x.a[0] == '+':
            return self.flatten(x.a[1]) + self.flatten(x.a[2])
        return [mk(BLOB, x)]

    def append(self, o, new, st):
        h = st.wobj(o.a[0])
        t = h.fields['atoms']
        self.writes += 1
        if t.op != 'tuple':
            h.fields['atoms'] = unk('atoms')
            return
        lst = list(t.a[0])
        for x in new:
            if x.op == CB and lst and lst[-1].op == CB:
                lst[-1] = mk(CB, lst[-1].a[0] + x.a[0])
            else:
                lst.append(x)
        h.fields['atoms'] = mk('tuple', tuple(lst))

    # ---------------------------------------------------------------- reading
    def size(self, a):
        if a.op == CB:
            return len(a.a[0])
        if a.op == FLD:
            return struct.calcsize(('<' if a.a[0][0] == '|' else a.a[0][0]) + a.a[0][1:])
        return None

    def unblob(self, t):
        return t.a[0] if t.op == 'blobread' else t

    def calls(self, t, n):
        t = self.unblob(t)
        return t.op == 'call' and t.a[0].op == 'ext' and t.a[0].a[0] == n and bool(t.a[1])

    def fileop(self, o, n, args, kwargs, st, node, ctx):
        h = st.heap[o.a[0]]
        if n == 'write' and args:
            self.append(o, self.flatten(args[0]), st)
            return mk('call', mk('ext', 'len'), (args[0],), ())
        atoms = self.atoms(st, o)
        if atoms is None:
            return unk('file')
        if n == 'tell':
            if is_const(h.fields['mode'], 'write'):
                ss = [self.size(a) for a in atoms]
                return const(sum(ss)) if None not in ss else unk('pos')
            p = self.where(h)
            if p is None:
                return unk('pos')
            ss = [self.size(a) for a in atoms[:p[0]]]
            return const(sum(ss) + p[1]) if None not in ss else unk('pos')
        if n == 'seek':
            off = args[0] if args else const(0)
            wh = args[1] if len(args) > 1 else kwargs.get('whence', const(0))
            p = self.where(h)
            base = 0
            if wh.op == 'ext':
                wh = const({'SEEK_SET': 0, 'SEEK_CUR': 1, 'SEEK_END': 2}.get(wh.a[0].split('.')[-1], 0))
            if is_const(wh, 1) and p is not None:
                ss = [self.size(a) for a in atoms[:p[0]]]
                base = sum(ss) + p[1] if None not in ss else None
            elif is_const(wh, 2):
                ss = [self.size(a) for a in atoms]
                base = sum(ss) if None not in ss else None
            if is_const(off) and isinstance(off.a[0], int) and base is not None:
                self.goto(o, st, base + off.a[0], atoms)
                return const(base + off.a[0])
            st.wobj(o.a[0]).fields['pos'] = unk('pos')
            return unk('pos')
        if n in ('read', 'read1'):
            return self.read(o, args[0] if args else None, atoms, st, node, ctx)
        if n in ('flush',):
            return NONE
        if n in ('readable', 'seekable', 'writable'):
            return TRUE
        return unk('file.' + n)

    def where(self, h):
        p = h.fields['pos']
        if p.op != 'tuple':
            return None
        return p.a[0][0].a[0], p.a[0][1].a[0]

    def goto(self, o, st, absolute, atoms):
        i, left = 0, absolute
        while i < len(atoms):
            s = self.size(atoms[i])
            if s is None:
                break
            if left < s:
                break
            left -= s
            i += 1
        if left and (i >= len(atoms) or self.size(atoms[i]) is None):
            st.wobj(o.a[0]).fields['pos'] = unk('pos')
            self.problems.append((f'seek to {absolute}, inside or beyond the array data', '?', '?'))
            return
        st.wobj(o.a[0]).fields['pos'] = mk('tuple', (const(i), const(left)))

    def read(self, o, n, atoms, st, node, ctx):
        h = st.heap[o.a[0]]
        p = self.where(h)
        if p is None:
            return unk('bytes')
        i, off = p
        if n is not None and is_const(n) and isinstance(n.a[0], int) and n.a[0] >= 0:
            want = n.a[0]
            out = []
            while want > 0 and i < len(atoms):
                a = atoms[i]
                s = self.size(a)
                if s is None:
                    self.problem(f'read of {n.a[0]} bytes reaches into {show(a.a[0])[:60]}', node, ctx)
                    return unk('bytes')
                take = min(want, s - off)
                if a.op == CB:
                    out.append(mk(CB, a.a[0][off:off + take]))
                elif take == s:
                    out.append(a)
                else:
                    self.problem(f'read of {n.a[0]} bytes splits the field {a.a[0][1:]} = {show(a.a[1])[:50]}', node, ctx)
                    return unk('bytes')
                want -= take
                off += take
                if off == s:
                    i, off = i + 1, 0
            if want > 0:
                self.problem(f'read of {n.a[0]} bytes beyond the end of what was written', node, ctx)
            st.wobj(o.a[0]).fields['pos'] = mk('tuple', (const(i), const(off)))
            if all(x.op == CB for x in out):
                return const(b''.join(x.a[0] for x in out))
            return mk('rbytes', tuple(out))
        # a read of symbolic length, or of the rest
        if i >= len(atoms) or off:
            if n is not None and i < len(atoms):
                self.problem('read of computed length inside a field', node, ctx)
            return const(b'') if i >= len(atoms) else unk('bytes')
        a = atoms[i]
        if a.op == CB and n is not None:
            self.problem(f'read of {show(n)[:60]} bytes at {a.a[0][:20]!r}', node, ctx)
            return unk('bytes')
        if a.op != BLOB:
            self.problem('read of computed length at a field', node, ctx)
            return unk('bytes')
        if n is None:
            if i != len(atoms) - 1:
                self.problem('the rest of the file holds more than the array', node, ctx)
        elif not (is_const(n) and n.a[0] == -1) and not self.samesize(n, a.a[0], st):
            self.problem(f'{show(n)[:80]} bytes are read of {show(a.a[0])[:60]}', node, ctx)
        st.wobj(o.a[0]).fields['pos'] = mk('tuple', (const(i + 1), const(0)))
        return mk('blobread', a.a[0])

    def numeq(self, a, b, st):
        """Whether two lengths or numbers of points are equal (for extents that are not special); None: not of that kind."""
        A, k = self.alg(st)

        def go(t):
            if t.op == 'const':
                return A.c(t.a[0]) if isinstance(t.a[0], int) and not isinstance(t.a[0], bool) else None
            if t.op == 'bin' and t.a[0] in ('+', '-', '*'):
                x, y = go(t.a[1]), go(t.a[2])
                return None if x is None or y is None else A.mul(x, y) if t.a[0] == '*' else A.add(x, y, 1 if t.a[0] == '+' else -1)
            if t.op == 'sub' and t.a[0].op == 'field' and t.a[0].a[1] == 'shape':
                r = self.root(t.a[0].a[0])
                sh = self.shapes.get(r)
                i = t.a[1].a[0] if is_const(t.a[1]) else None
                if sh is not None and isinstance(i, int) and -len(sh) <= i < len(sh):
                    return k.rat(sh[i])
                return k.rat(t)
            if t.op == 'field' and t.a[1] in ('size', 'nbytes') or t.op == 'call' and t.a[0].op == 'ext' and t.a[0].a[0] in ('len', 'numpy.size') and len(t.a[1]) == 1:
                x = self.unblob(t.a[0] if t.op == 'field' else t.a[1][0])
                if t.op == 'call' and t.a[0].a[0] == 'len' and mcallname(x) != 'tobytes':
                    if x.op == 'flat' or x.op == 'mcall' and x.a[1] in ('copy', 'ravel', 'flatten') and self.has_flat(x) and not any(y.op == 'shaped' for y in walk(x)):
                        pass
                    elif self.root(x) is not None:
                        return None
                    else:
                        return k.rat(t)
                if mcallname(x) == 'tobytes':
                    x = x.a[0]
                    nbytes = True
                else:
                    nbytes = t.op == 'field' and t.a[1] == 'nbytes'
                sh = self.shape_of(x)
                if sh is None:
                    return None
                n = A.c(1)
                if nbytes:
                    c = self.dtype_of(x)
                    n = A.c(SIZES[c[1:]]) if isinstance(c, str) else k.rat(mk('field', c, 'itemsize')) if c is not None else None
                    if n is None:
                        return None
                for s in sh:
                    n = A.mul(n, k.rat(s))
                return n
            if t.op == 'call' and t.a[0].op == 'ext' and t.a[0].a[0] in ('int', 'builtins.int', 'numpy.prod', 'math.prod') and len(t.a[1]) == 1:
                x = t.a[1][0]
                if t.a[0].a[0].endswith('int'):
                    return go(x)
                if x.op in ('tuple', 'list'):
                    n = A.c(1)
                    for y in x.a[0]:
                        q = go(y)
                        if q is None:
                            return None
                        n = A.mul(n, q)
                    return n
            return None
        x, y = go(a), go(b)
        if x is None or y is None or a.op == 'const' and b.op == 'const':
            return None
        return A.eq(x, y)

    def samesize(self, n, x, st):
        if n.op == 'call' and n.a[0].op == 'ext' and n.a[0].a[0] == 'len' and n.a[1] and n.a[1][0] is x:
            return True
        if mcallname(x) == 'tobytes':
            sh = self.shape_of(x.a[0])
            c = self.dtype_of(x.a[0])
            if sh is None or not isinstance(c, str):
                return False
            A, k = self.alg(st)
            total = A.c(SIZES[c[1:]])
            for s in sh:
                total = A.mul(total, k.rat(s))
            return A.eq(k.rat(n), total)
        return False

    def alg(self, st):
        from ..algebra import Ctx
        k = Ctx(self.it, st)
        return k.alg, k

    def unpack(self, fmt, t, st, node, ctx):
        cs = codes(fmt)
        if cs is None:
            return None
        cs, total = cs
        if t.op == 'const' and isinstance(t.a[0], (bytes, bytearray)):
            try:
                return mk('tuple', tuple(const(v) for v in struct.unpack(fmt, t.a[0])))
            except struct.error as x:
                self.problem(f'struct.unpack({fmt!r}) of {len(t.a[0])} bytes: {x}', node, ctx)
                return None
        if t.op != 'rbytes':
            return None
        atoms = list(t.a[0])
        if sum(self.size(a) for a in atoms) != total:
            self.problem(f'struct.unpack({fmt!r}) of {sum(self.size(a) for a in atoms)} bytes', node, ctx)
        out = []
        pos = {}
        at = 0
        for a in atoms:
            pos[at] = a
            at += self.size(a)
        for e, c, size, off in cs:
            a = pos.get(off)
            if a is not None and a.op == FLD and self.size(a) == size and (a.a[0][1:] == c or self.same(a.a[0][1:], c)) and (a.a[0][0] == e or '|' in (a.a[0][0], e)):
                out.append(mk('padded', a.a[1], size) if c[-1] in 'sp' else a.a[1])
                continue
            b = self.constbytes(pos, off, size)
            if b is not None:
                out.append(const(struct.unpack((e if e != '|' else '<') + c, b)[0]))
                continue
            self.problem(f'field {e}{c} at byte {off} does not match what was written ({a.a[0] if a is not None and a.op == FLD else "other bytes"})', node, ctx)
            out.append(unk('misread'))
        return mk('tuple', tuple(out))

    def same(self, a, b):
        grp = ('lLiI' if False else '')
        return {a, b} <= {'l', 'i'} or {a, b} <= {'L', 'I'} or a[-1] == 's' and b[-1] == 's'

    def constbytes(self, pos, off, size):
        for s, a in pos.items():
            if a.op == CB and s <= off and off + size <= s + len(a.a[0]):
                return a.a[0][off - s:off - s + size]
        return None

    # ---------------------------------------------------------------- arrays
    def frombuffer(self, b, dt, st, node, ctx):
        x = self.unblob(b)
        want = dtype_code(dt)
        if mcallname(x) != 'tobytes':
            return None
        x = x.a[0]
        have = self.dtype_of(x)
        self.dtypes.append((x, have, want))
        if have is None or want is None:
            self.problem(f'dtype of the array data not determined ({have}, {show(dt)})', node, ctx)
        elif have is not want and have != want:
            s = lambda v: v if isinstance(v, str) else show(v)
            self.problem(f'array written as {s(have)} is read as {s(want)}', node, ctx)
        return mk('flat', x)

    def dtype_of(self, x):
        if x.op == 'mcall' and x.a[1] == 'astype':
            a = x.a[2][0] if x.a[2] else dict(x.a[3]).get('dtype')
            return dtype_code(a)
        if x.op == 'store':
            return self.dtype_of(x.a[0])
        if x.op in ('ro', 'flat', 'shaped'):
            return self.dtype_of(x.a[0])
        if x.op == 'mcall' and x.a[1] in ('copy', 'reshape', 'ravel', 'flatten', 'round', 'view'):
            return self.dtype_of(x.a[0])
        if x.op == 'call' and x.a[0].op == 'ext' and x.a[0].a[0] in ('numpy.asarray', 'numpy.array', 'numpy.ascontiguousarray', 'numpy.where', 'numpy.rint', 'numpy.round'):
            kw = dict(x.a[2])
            if 'dtype' in kw:
                return dtype_code(kw['dtype'])
            return self.dtype_of(x.a[1][1 if x.a[0].a[0] == 'numpy.where' else 0])
        if x.op == 'bin' or x.op == 'call' and x.a[0].op == 'ext' and x.a[0].a[0] in ('numpy.multiply', 'numpy.divide', 'numpy.true_divide', 'numpy.add', 'numpy.subtract') and len(x.a[1]) == 2:
            cs = [self.dtype_of(y) for y in ((x.a[1], x.a[2]) if x.op == 'bin' else x.a[1]) if y.op != 'const' and self.is_array(y)]
            cs = [c for c in cs if c]
            if len(set(map(str, cs))) == 1:
                c = cs[0]
                return c
            return None
        if x in self.shapes:
            return mk('field', x, 'dtype')
        return None

    def is_array(self, y):
        return self.root(y) is not None and not self.reduced(y)

    def root(self, x):
        """The array whose shape x has."""
        if x in self.shapes:
            return x
        if x.op in ('store', 'ro', 'flat', 'shaped'):
            return self.root(x.a[0])
        if x.op == 'mcall' and x.a[1] in ('astype', 'copy', 'round', 'clip', 'reshape', 'view'):
            return self.root(x.a[0])
        if x.op == 'bin':
            return self.root(x.a[1]) or self.root(x.a[2])
        if x.op == 'un':
            return self.root(x.a[1])
        if x.op == 'call' and x.a[0].op == 'ext' and x.a[0].a[0] in ('numpy.asarray', 'numpy.array', 'numpy.ascontiguousarray', 'numpy.where', 'numpy.rint', 'numpy.round', 'numpy.clip', 'numpy.nan_to_num', 'numpy.multiply', 'numpy.divide', 'numpy.add', 'numpy.subtract'):
            for y in x.a[1][::-1] if x.a[0].a[0] == 'numpy.where' else x.a[1]:
                r = self.root(y)
                if r is not None:
                    return r
        return None

    def shape_of(self, x):
        r = self.root(x)
        return self.shapes.get(r) if r is not None else None
