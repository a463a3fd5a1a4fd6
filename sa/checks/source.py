"""Files given by the specification of their format: fixed bytes, fields with symbolic values, array data of symbolic extent, text with symbolic
numbers, archives and XML documents.  A reader is interpreted over them; positions are exact linear expressions in the extents."""
import re
import struct
from ..common import *
from .stream import *
from .stream import Stream

TABLE = mk('param', 'table of the file')
ANY, PAD = 'anybytes', 'pad'


def P(n):
    return mk('param', n)


def mul(*a):
    r = a[0]
    for x in a[1:]:
        r = mk('bin', '*', r, x if isinstance(x, T) else const(x))
    return r


def add(a, b):
    return mk('bin', '+', a if isinstance(a, T) else const(a), b if isinstance(b, T) else const(b))


def cb(b):
    return mk(CB, b)


def fld(code, value):
    if not isinstance(value, T):
        return mk(CB, struct.pack(code, value))
    return mk(FLD, code, value)


def text(n, value):
    """A padded text field of n bytes that holds the decimal text of a number."""
    if isinstance(value, str):
        return mk(CB, value.encode().ljust(n, b'\x00'))
    return mk(FLD, f'|{n}s', mk('mcall', mk('call', mk('ext', 'str'), (value,), ()), 'encode', (), ()))


def skip(n, name=''):
    return mk(ANY, name, n)


def array(x):
    return mk(BLOB, mk('mcall', x, 'tobytes', (), ()))


class Source(Stream):
    aligned = vague = False
    recursion = 8       # nested structures of a file of known structure

    def __init__(self, prog, shapes, dtypes, members=None, xml=None, tokens=None, sizes=None, table=None, uniques=None):
        super().__init__(prog)
        self.shapes = dict(shapes)
        self.dts = dict(dtypes)
        self.members, self.xml, self.tokens = members, xml or {}, tokens or {}
        self.sizes = sizes or {}
        self.table, self.uniques = table, uniques or {}     # columns of a text table; distinct values of a column
        self.opened = []
        self.touched = []

    # ------------------------------------------------------------- sizes and positions
    def size(self, a):
        if a.op == ANY:
            return a.a[1]
        return super().size(a)

    def sizeterm(self, a):
        s = self.size(a)
        if s is not None:
            return const(s)
        if a.op == PAD:
            return self.fold(a.a[0], None)
        x = a.a[0]
        if x in self.sizes:
            return self.sizes[x]
        if mcallname(x) == 'tobytes' and x.a[0] in self.shapes:
            return mul(const(SIZES[self.dts[x.a[0]][1:]]), *self.shapes[x.a[0]])
        return None

    def dtype_of(self, x):
        if x.op == 'call' and x.a[0].op == 'ext' and x.a[0].a[0] in ('numpy.rot90', 'numpy.flip', 'numpy.flipud', 'numpy.fliplr', 'numpy.transpose') and x.a[1]:
            return self.dtype_of(x.a[1][0])
        if x.op == 'field' and x.a[1] == 'T' or x.op == 'sub' and x not in self.dts or x.op == 'mcall' and x.a[1] in ('transpose', 'swapaxes'):
            return self.dtype_of(x.a[0])
        return self.dts[x] if x in self.dts else super().dtype_of(x)

    def abs(self, atoms, p):
        out, c = [], p[1]
        for a in atoms[:p[0]]:
            s = self.sizeterm(a)
            if s is None:
                return None
            if s.op == 'const':
                c += s.a[0]
            else:
                out.append(s)
        t = const(c)
        for s in out:
            t = mk('bin', '+', t, s)
        return t

    def fileop(self, o, n, args, kwargs, st, node, ctx):
        h = st.heap[o.a[0]]
        atoms = self.atoms(st, o)
        if atoms is None or n not in ('tell', 'seek'):
            return super().fileop(o, n, args, kwargs, st, node, ctx)
        p = self.where(h)
        if n == 'tell':
            t = self.abs(atoms, p) if p is not None else None
            return t if t is not None else unk('pos')
        off = args[0] if args else kwargs.get('offset', const(0))
        wh = args[1] if len(args) > 1 else kwargs.get('whence', const(0))
        if wh.op == 'ext':
            wh = const({'SEEK_SET': 0, 'SEEK_CUR': 1, 'SEEK_END': 2}.get(wh.a[0].split('.')[-1], 0))
        base = const(0) if is_const(wh, 0) else (self.abs(atoms, p) if p is not None else None) if is_const(wh, 1) else self.abs(atoms, (len(atoms), 0)) if is_const(wh, 2) else None
        if base is None:
            st.wobj(o.a[0]).fields['pos'] = unk('pos')
            return unk('pos')
        target = add(base, off)
        q = self.locate(atoms, target, st)
        if q is None:
            k = self.alg(st)[1]
            if any(x.op in ('unk', 'phi', 'loopvar') for x in walk(target)):
                pass
            else:
                self.problem(f'seek to byte {show(target)[:80]}, where nothing starts', node, ctx)
            st.wobj(o.a[0]).fields['pos'] = unk('pos')
        else:
            st.wobj(o.a[0]).fields['pos'] = mk('tuple', (const(q[0]), const(q[1])))
        return target

    def locate(self, atoms, target, st):
        A, k = self.alg(st)
        t = k.rat(self.fold(target, st))
        at = A.c(0)
        for i, a in enumerate(atoms):
            d = A.add(t, at, -1).const()
            s = self.size(a)
            if d is not None and d >= 0 and d.denominator == 1:
                if d == 0 or s is not None and d < s:
                    return i, int(d)
            z = self.sizeterm(a)
            if z is None:
                return None
            at = A.add(at, k.rat(z), 1)
        if A.eq(t, at):
            return len(atoms), 0
        return None

    def read(self, o, n, atoms, st, node, ctx):
        h = st.heap[o.a[0]]
        p = self.where(h)
        if p is None:
            return unk('bytes')
        i, off = p
        if n is not None and is_const(n) and isinstance(n.a[0], int) and n.a[0] >= 0:
            want, out = n.a[0], []
            while want > 0 and i < len(atoms):
                a = atoms[i]
                s = self.size(a)
                if s is None:
                    break
                take = min(want, s - off)
                if a.op == CB:
                    out.append(mk(CB, a.a[0][off:off + take]))
                elif take == s:
                    out.append(a)
                elif a.op == ANY:
                    out.append(mk(ANY, f'{a.a[0]}+{off}', take))
                else:
                    out.append(mk(ANY, f'part of {show(a.a[1])[:40]}+{off}', take))
                want -= take
                off += take
                if off == s:
                    i, off = i + 1, 0
            st.wobj(o.a[0]).fields['pos'] = mk('tuple', (const(i), const(off)))
            if want > 0 and i < len(atoms):
                # array data as a number of bytes
                if not out and not off:
                    st.wobj(o.a[0]).fields['pos'] = unk('pos')
                    return mk('rbytes', (mk(ANY, 'part of the array data', n.a[0]),))
                self.problem(f'read of {n.a[0]} bytes reaches into {show(atoms[i].a[0])[:60]}', node, ctx)
                return unk('bytes')
            if all(x.op == CB for x in out):
                return const(b''.join(x.a[0] for x in out))
            return mk('rbytes', tuple(out))
        if n is not None and not is_const(n, -1):
            k = self.alg(st)[1]
            A = k.alg
            left = k.rat(self.fold(n, st))
            out = []
            j, f = i, off
            while j < len(atoms) and left.n:
                z = self.sizeterm(atoms[j])
                if z is None or f and self.size(atoms[j]) is None:
                    break
                zr = A.add(k.rat(z), A.c(f), -1)
                d = A.add(left, zr, -1).const()
                c = left.const()
                if c is not None and self.size(atoms[j]) is None:
                    break
                if c is not None and c < self.size(atoms[j]) - f:
                    break
                out.append((atoms[j], f))
                left = A.add(left, zr, -1)
                j, f = j + 1, 0
            if not left.n:
                st.wobj(o.a[0]).fields['pos'] = mk('tuple', (const(j), const(0)))
                if len(out) == 1 and out[0][0].op == BLOB:
                    return mk('blobread', out[0][0].a[0])
                return unk('bytes')
            if any(x.op in ('unk', 'phi', 'loopvar', 'padstr', 'padded') for x in walk(n)):
                st.wobj(o.a[0]).fields['pos'] = unk('pos')
                return unk('bytes')
            self.problem(f'read of {show(n)[:80]} bytes', node, ctx)
            st.wobj(o.a[0]).fields['pos'] = unk('pos')
            return unk('bytes')
        # the rest
        rest = atoms[i:]
        if off:
            a = atoms[i]
            rest = [mk(CB, a.a[0][off:]) if a.op == CB else mk(ANY, 'rest', self.size(a) - off if self.size(a) is not None else 0)] + atoms[i + 1:]
        st.wobj(o.a[0]).fields['pos'] = mk('tuple', (const(len(atoms)), const(0)))
        if all(a.op == CB for a in rest):
            return const(b''.join(a.a[0] for a in rest))
        if rest and rest[0].op == BLOB:
            return mk('blobread', rest[0].a[0]) if len(rest) == 1 else mk('catbytes', tuple(rest))
        if any(self.size(a) is None for a in rest):
            return mk('catbytes', tuple(rest))
        return mk('rbytes', tuple(rest))

    def unpack(self, fmt, t, st, node, ctx):
        if t.op != 'rbytes':
            return super().unpack(fmt, t, st, node, ctx)
        cs = codes(fmt)
        if cs is None:
            return None
        cs, total = cs
        atoms, at, pos = list(t.a[0]), 0, {}
        for a in atoms:
            pos[at] = a
            at += self.size(a)
        if at != total:
            self.problem(f'struct.unpack({fmt!r}) of {at} bytes', node, ctx)
            return mk('tuple', tuple(unk('misread') for c in cs))
        out = []
        for e, c, size, off in cs:
            out.append(self.field(pos, e, c, size, off))
        return mk('tuple', tuple(out))

    def field(self, pos, e, c, size, off):
        a = pos.get(off)
        if a is not None and a.op == FLD and self.size(a) == size and (a.a[0][1:] == c or self.same(a.a[0][1:], c)) and (a.a[0][0] == e or '|' in (a.a[0][0], e)):
            return mk('padded', a.a[1], size) if c[-1] in 'sp' else a.a[1]
        b = self.constbytes(pos, off, size)
        if b is not None:
            return const(struct.unpack((e if e != '|' else '<') + c, b)[0])
        names = [f'{x.a[0]} {show(x.a[1])[:40]}' if x.op == FLD else x.op for o, x in sorted(pos.items()) if o < off + size and o + (self.size(x) or 0) > off]
        v = mk('param', f'{e}{c} at {"/".join(names)}')
        if any(x.op == FLD for o, x in pos.items() if o < off + size and o + self.size(x) > off):
            self.touched.append(v)
        return mk('padded', v, size) if c[-1] in 'sp' else v

    def same(self, a, b):
        if super().same(a, b):
            return True
        # a count is below the sign bit
        return len(a) == len(b) == 1 and a.lower() == b.lower() and a.lower() in 'bhilq' or {a.lower(), b.lower()} <= {'l', 'i'}

    # ------------------------------------------------------------- calls
    def call(self, f, args, kwargs, st, node, ctx, it):
        if f.op == 'bmeth' and self.is_zip(f.a[0], it, st):
            return self.zipop(f.a[1], args, kwargs, st, node, ctx)
        if f.op == 'meth' and f.a[0].op == 'xml':
            return self.xmlop(f.a[0], f.a[1], args, kwargs, st)
        if f.op == 'meth' and f.a[0].op == 'match':
            return self.matchop(f.a[0], f.a[1], args)
        if f.op == 'meth' and f.a[0].op == 'call' and f.a[0].a[0] == mk('ext', 're.compile') and f.a[1] in ('search', 'match', 'fullmatch', 'findall'):
            r = self.regex(f.a[1], list(f.a[0].a[1]) + list(args), st, it)
            if r is not None:
                return r
        return super().call(f, args, kwargs, st, node, ctx, it)

    def regex(self, n, args, st, it):
        if len(args) != 2 or not all(x.op == 'const' and isinstance(x.a[0], str) for x in args):
            return None
        r = getattr(re, n)(args[0].a[0], args[1].a[0])
        if n == 'findall':
            return it.new_list(st, [const(x) if isinstance(x, str) else mk('tuple', tuple(const(y) for y in x)) for x in r])
        return NONE if r is None else mk('match', r.group(), r.groups(), tuple(sorted(r.groupdict().items())))

    def matchop(self, m, n, args):
        g = dict(m.a[2])
        one = lambda i: m.a[0] if i == 0 else m.a[1][i - 1] if isinstance(i, int) else g[i]
        if all(x.op == 'const' for x in args) and n in ('group', 'groups', '__getitem__'):
            if n == 'groups':
                return mk('tuple', tuple(const(x) for x in m.a[1]))
            try:
                r = [const(one(x.a[0])) for x in args] or [const(m.a[0])]
            except (IndexError, KeyError):
                return unk('group')
            return r[0] if len(r) == 1 else mk('tuple', tuple(r))
        return unk('match')

    def is_zip(self, t, it, st):
        h = it.h(st, t) if t.op == 'obj' else None
        return h is not None and h.cls == 'zip'

    def zipop(self, n, args, kwargs, st, node, ctx):
        if n in ('open', 'read') and args:
            nm = args[0]
            if is_const(nm) and nm.a[0] in self.members:
                f = self.file(st, self.members[nm.a[0]], 'read')
                self.opened.append(nm.a[0])
                return f if n == 'open' else self.fileop(f, 'read', [], {}, st, node, ctx)
            if is_const(nm):
                self.problem(f'archive member {nm.a[0]!r} does not exist', node, ctx)
            return unk('member')
        if n == 'namelist':
            return self.it.new_list(st, [const(x) for x in self.members])
        if n == 'close':
            return NONE
        return unk('zip.' + n)

    def xmlop(self, x, n, args, kwargs, st):
        p = x.a[0]
        if n in ('find', 'findtext') and args and is_const(args[0]):
            q = args[0].a[0]
            q = q[2:] if q.startswith('./') else q
            if q.startswith('.//'):
                return unk('xml')
            full = f'{p}/{q}' if p else q
            if not any(k == full or k.startswith(full + '/') for k in self.xml):
                return NONE
            return mk('xml', full) if n == 'find' else self.xmltext(full)
        if n == 'getroot':
            return x
        if n in ('iter', 'findall', 'iterfind'):
            return self.it.new_list(st, [])
        return unk('xml.' + n)

    def xmltext(self, full):
        v = self.xml.get(full)
        if v is None:
            return mk('param', f'text of {full}')
        return const(v) if isinstance(v, str) else mk('call', mk('ext', 'str'), (v,), ())

    def getitem(self, b, i, st):
        if self.table is not None and b is TABLE and i.op == 'tuple' and len(i.a[0]) == 2 and i.a[0][0].op == 'slice' and i.a[0][0].a == (NONE, NONE, NONE) and i.a[0][1].op == 'const':
            return self.column(i.a[0][1].a[0])
        if self.table is not None and b.op == 'field' and b.a[0] is TABLE and b.a[1] == 'T' and i.op == 'const':
            return self.column(i.a[0])
        return None

    def column(self, j):
        return mk('flat', self.table[j]) if isinstance(j, int) and -len(self.table) <= j < len(self.table) else None

    def getattr(self, b, n, st):
        if b.op == 'xml' and n == 'text':
            return self.xmltext(b.a[0])
        if n == 'size' and b in self.uniques.values():
            return self.shapes[b][0]
        if n == 'dtype':
            c = self.dtype_of(b)
            if isinstance(c, str):
                return dtype_term(c)
        return None

    def method(self, b, n, args, kwargs, st, node, ctx, it):
        if n == 'strip' and b.op == 'call' and b.a[0].op == 'ext' and b.a[0].a[0] == 'str':
            return b
        if n in ('startswith', 'endswith') and b.op in ('rbytes', 'catbytes', 'blobread') and args and is_const(args[0]):
            x = args[0].a[0]
            if n == 'startswith' and b.op != 'blobread' and b.a[0][0].op == CB:
                c = b.a[0][0].a[0]
                return const(c.startswith(x) if len(c) >= len(x) else x.startswith(c) and None)
            return None
        return super().method(b, n, args, kwargs, st, node, ctx, it)

    def ext(self, n, args, kwargs, st, node, ctx, it):
        last = n.split('.')[-1]
        if n in ('numpy.putmask', 'numpy.place') and len(args) == 3 and not kwargs and args[2].op == 'const' or n == 'numpy.putmask' and len(args) == 3 and args[2].op == 'ext':
            self.put(args[0], args[1], args[2], st, it)
            return NONE
        if n == 'numpy.copyto' and len(args) == 2 and set(kwargs) == {'where'}:
            self.put(args[0], kwargs['where'], args[1], st, it)
            return NONE
        if n in ('str', 'builtins.str') and len(args) == 1 and args[0].op == 'nt' and args[0].a[0] == 'dtype':
            return dict(args[0].a[1])['name']
        if last in ('put', 'copyto', 'place', 'putmask', 'fill_diagonal') and n.startswith('numpy.'):
            self.vague = True
        if n in ('re.search', 're.match', 're.fullmatch', 're.findall') and not kwargs:
            r = self.regex(last, args, st, it)
            if r is not None:
                return r
        if n in ('numpy.loadtxt', 'numpy.genfromtxt') and self.table is not None:
            return TABLE if not kwargs else unk('table')
        if n == 'numpy.unique' and len(args) == 1 and not kwargs and self.root(args[0]) in self.uniques:
            return self.uniques[self.root(args[0])]
        if n in ('zipfile.ZipFile',) and self.members is not None:
            return it.new_obj(st, 'zip', {})
        if last in ('fromstring', 'XML') and 'ElementTree' in n or n in ('ET.fromstring',):
            return mk('xml', '')
        if last == 'parse' and 'ElementTree' in n:
            return mk('xml', '')
        if n in ('float', 'int', 'builtins.float', 'builtins.int') and len(args) == 1:
            x = args[0]
            i = n.endswith('int')
            if x.op == 'const' and isinstance(x.a[0], str):
                s = x.a[0].strip()
                if s in self.tokens:
                    if i and not s.lstrip('+-').isdigit():
                        it.do_raise(mk('call', mk('ext', 'ValueError'), (x,), ()), st, node, ctx)
                        return NONE
                    return self.tokens[s]
                try:
                    return const((int if i else float)(s))
                except ValueError:
                    it.do_raise(mk('call', mk('ext', 'ValueError'), (x,), ()), st, node, ctx)
                    return NONE
            if x.op == 'param' and x.a[0] in self.whole():
                return x
        if n == 'numpy.frombuffer' and args and args[0].op in ('catbytes', 'blobread'):
            cnt = kwargs.get('count', args[2] if len(args) > 2 else None)
            b = args[0]
            if b.op == 'catbytes':
                b = mk('blobread', b.a[0][0].a[0]) if b.a[0][0].op == BLOB else b
            x = self.unblob(b)
            if mcallname(x) == 'tobytes' and x.a[0] in self.shapes and (cnt is not None and not is_const(cnt, -1) or args[0].op == 'catbytes'):
                total = mul(*self.shapes[x.a[0]])
                if cnt is None or self.numeq(cnt, total, st) is not True:
                    if cnt is not None and any(y.op in ('unk', 'phi', 'loopvar') for y in walk(cnt)):
                        return None
                    self.problem(f'{show(cnt)[:60] if cnt is not None else "all remaining"} values are read of {show(total)}', node, ctx)
            args = [b] + list(args[1:])
        if n == 'numpy.frombuffer' and args and args[0].op == 'rbytes':
            dt = dtype_code(kwargs.get('dtype', args[1] if len(args) > 1 else mk('ext', 'float')))
            if isinstance(dt, str):
                c = {'i1': 'b', 'u1': 'B', 'i2': 'h', 'u2': 'H', 'i4': 'i', 'u4': 'I', 'i8': 'q', 'u8': 'Q', 'f4': 'f', 'f8': 'd'}.get(dt[1:])
                size = sum(self.size(a) for a in args[0].a[0])
                if c and size % struct.calcsize(c) == 0:
                    return self.unpack(('' if dt[0] == '|' else dt[0]) + c * (size // struct.calcsize('=' + c)), args[0], st, node, ctx)
        return super().ext(n, args, kwargs, st, node, ctx, it)

    def put(self, a, m, v, st, it):
        new = mk('store', a, m, v)
        it.rebind(st, a, new)
        it.rebind_heap(st, a, new)

    def kind(self, x):
        if x.op == 'param':
            return 'num'
        return super().kind(x)

    def whole(self):
        return {y.a[0] for s in list(self.shapes.values()) + [self.sizes.values()] for x in s for y in walk(x) if y.op == 'param'}

    # ------------------------------------------------------------- truth
    def truth(self, t, st):
        if t in self.force:
            return self.force[t]
        if t.op == 'match':
            return True
        if t.op == 'call' and t.a[0].op == 'ext' and t.a[0].a[0].split('.')[-1] in ('isnan', 'isinf', 'isfinite') and len(t.a[1]) == 1 and t.a[1][0].op == 'param':
            return t.a[0].a[0].endswith('isfinite')
        m = t.a[1] if t.op == 'cmp' and is_const(t.a[2], 0) and t.a[0] in ('==', '!=', '>') else t
        if m.op == 'bin' and m.a[0] == '%' and m.a[2].op == 'const':
            v = self.value(m, st)
            if v is not None and v.op != 'const' and {z.a[0] for z in walk(v) if z.op == 'param'} <= self.whole():
                return not (t.op == 'cmp' and t.a[0] == '==')
            if v is not None and v.op == 'const':
                return (v.a[0] != 0) != (t.op == 'cmp' and t.a[0] == '==')
        if t.op == 'cmp' and t.a[0] in ('is', 'is not', '==', '!=') and t.a[1].op == 'match' and t.a[2] is NONE:
            return t.a[0] in ('is not', '!=')
        if t.op == 'sub' and t.a[0].op == 'match' and t.a[1].op == 'const':
            return None
        if t.op == 'cmp' and t.a[0] in ('is', 'is not', '==', '!=') and t.a[1].op == 'xml' and t.a[2] is NONE:
            return t.a[0] in ('is not', '!=')
        if t.op == 'cmp' and t.a[0] in ('==', '!=') and any(x.op == 'nt' and x.a[0] == 'dtype' for x in t.a[1:]):
            x, y = dtype_code(t.a[1]), dtype_code(t.a[2])
            if isinstance(x, str) and isinstance(y, str):
                return (x == y) == (t.a[0] == '==')
        if t.op == 'cmp' and any(mcallname(x) in ('hexdigest', 'digest') for x in t.a[1:]):
            return t.a[0] == '=='
        if t.op == 'cmp' and t.a[0] in ('<', '<=', '>', '>='):
            s = self.order(t.a[1], t.a[2], st)
            if s is not None:
                return {'<': s < 0, '<=': s <= 0, '>': s > 0, '>=': s >= 0}[t.a[0]]
        return super().truth(t, st)

    def plain(self, t):
        """A number made of declared fields only."""
        for x in walk(t):
            if x.op in ('const', 'bin', 'param', 'un'):
                continue
            if x.op == 'field' and x.a[1] in ('size', 'nbytes', 'shape') or x.op == 'sub' and x.a[0].op == 'field' and x.a[0].a[1] == 'shape' or x.op in ('flat', 'mcall', 'blobread', 'shaped') or x.op == 'ext' \
                    or x.op == 'call' and x.a[0].op == 'ext' and x.a[0].a[0] in ('len', 'int', 'float', 'numpy.size'):
                continue
            return False
        return True

    def fold(self, t, st, memo=None):
        """Sizes of arrays replaced by their extents, padding by its defining expression, factors rounded to what a double holds reliably."""
        memo = {} if memo is None else memo
        if t.uid in memo:
            return memo[t.uid]
        r = None
        if t.op == 'const' and isinstance(t.a[0], float) and t.a[0] == t.a[0] and abs(t.a[0]) not in (0.0, float('inf')):
            r = const(float('%.13g' % t.a[0]))
        elif t.op in ('field', 'sub') or t.op == 'call' and t.a[0].op == 'ext' and t.a[0].a[0] in ('len', 'numpy.size'):
            r = self.value(t, st)
        if r is None and t.op in ('bin', 'un', 'call', 'mcall', 'tuple'):
            go = lambda x: self.fold(x, st, memo) if isinstance(x, T) else tuple(go(y) for y in x) if isinstance(x, tuple) else x
            r = mk(t.op, *[go(x) for x in t.a])
            if r.op == 'bin':
                r = self.modulo(r)
        memo[t.uid] = t if r is None else r
        return memo[t.uid]

    def modulo(self, t):
        """What fills a size up to the next block (a size that is not a multiple of the block or, in an aligned file, is one)."""
        if t.a[0] == '-':
            m = t.a[2]
            if m.op == 'bin' and m.a[0] == '%' and m.a[2] is t.a[1] and t.a[1].op == 'const' and not (m.a[1].op == 'un' and m.a[1].a[0] == '-'):
                return mk('bin', '%', mk('un', '-', m.a[1]), m.a[2])
            return t
        if t.a[0] != '%' or t.a[1].op == 'const' and t.a[2].op == 'const':
            return t
        x, n = t.a[1], t.a[2]
        if self.aligned:
            return const(0)
        while x.op == 'call' and x.a[0].op == 'ext' and x.a[0].a[0] == 'int' and len(x.a[1]) == 1:
            x = x.a[1][0]
        if x.op == 'bin' and x.a[0] == '%' and x.a[2] is n:
            return x
        return t if x is t.a[1] else mk('bin', '%', x, n)

    def rat(self, t, st):
        A, k = self.alg(st)
        x = self.value(t, st)
        return None if x is None else (A, k.rat(x))

    def value(self, t, st):
        """Sizes of arrays and byte strings replaced by their extents."""
        if t.op == 'const':
            return t if isinstance(t.a[0], (int, float)) and not isinstance(t.a[0], bool) else None
        if t.op == 'param':
            return t
        if t.op == 'bin':
            a, b = self.value(t.a[1], st), self.value(t.a[2], st)
            if a is None or b is None:
                return None
            r = mk('bin', t.a[0], a, b)
            return self.modulo(r)
        if t.op == 'un' and t.a[0] == '-':
            a = self.value(t.a[1], st)
            return None if a is None else mk('un', '-', a)
        if t.op == 'call' and t.a[0].op == 'ext' and t.a[0].a[0] in ('int', 'float', 'abs') and len(t.a[1]) == 1:
            return self.value(t.a[1][0], st)
        if t.op == 'field' and t.a[1] in ('size', 'nbytes') or t.op == 'call' and t.a[0].op == 'ext' and t.a[0].a[0] in ('len', 'numpy.size') and len(t.a[1]) == 1:
            y = self.unblob(t.a[0] if t.op == 'field' else t.a[1][0])
            ln = t.op == 'call' and t.a[0].a[0] == 'len'
            nb = t.op == 'field' and t.a[1] == 'nbytes' or ln and mcallname(y) == 'tobytes'
            if mcallname(y) == 'tobytes':
                y = y.a[0]
            r = self.root(y)
            if r is None:
                return None
            z = mul(*self.shapes[r])
            if ln and not nb and any(q.op == 'shaped' for q in walk(y)):
                return self.shapes[r][0]
            return mul(const(SIZES[self.dts[r][1:]]), z) if nb else z
        if t.op == 'sub' and t.a[0].op == 'field' and t.a[0].a[1] == 'shape' and is_const(t.a[1]) and isinstance(t.a[1].a[0], int):
            y = t.a[0].a[0]
            r = self.root(y)
            if r is None:
                return None
            if r is TABLE:
                return self.shapes[r][t.a[1].a[0]]
            if any(q.op == 'shaped' for q in walk(y)) and -len(self.shapes[r]) <= t.a[1].a[0] < len(self.shapes[r]):
                return self.shapes[r][t.a[1].a[0]]
            if t.a[1].a[0] in (0, -1):
                return mul(*self.shapes[r])
        return None

    def numeq(self, a, b, st):
        if a.op == 'const' and b.op == 'const':
            return None
        x, y = self.rat(a, st), self.rat(b, st)
        if x is None or y is None:
            return None
        A = x[0]
        d = A.add(x[1], y[1], -1)
        names = {z.a[0] for t in (self.value(a, st), self.value(b, st)) for z in walk(t) if z.op == 'param'}
        if not names <= self.whole():
            return None
        return not d.n

    def order(self, a, b, st):
        """Sign of a − b if it is the same for all positive extents (and not a comparison with a field's value)."""
        if a.op == 'const' and b.op == 'const':
            return None
        x, y = self.rat(a, st), self.rat(b, st)
        if x is None or y is None:
            return None
        names = {z.a[0] for t in (self.value(a, st), self.value(b, st)) for z in walk(t) if z.op == 'param'}
        if not names <= self.whole():
            return None
        d = x[0].add(x[1], y[1], -1)
        if not d.n:
            return 0
        if d.d != x[0].c(1).n:
            return None
        cs = list(d.n.values())
        if all(c > 0 for c in cs):
            return 1
        if all(c < 0 for c in cs):
            return -1
        return None
