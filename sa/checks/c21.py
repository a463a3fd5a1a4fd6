"""Damaged and foreign files.  The specifications of the formats are taken as the starting point; files that end early (before or inside of the
heights), that carry a wrong identification, or whose declared sizes contradict each other are derived from them, and the registered reader is
interpreted over each: it has to raise, and must not return heights that are not in the file, nor read on at the end of the file forever."""
import copy
import struct
from ..common import *
from . import formats, c20
from .stream import CB, FLD, BLOB, SIZES, mcallname, codes, strip_view
from .source import *
from .c18 import loc_fi

LEFT = P('values that are missing at the end')
EMPTY = P('no values')


class Stuck(Exception):
    pass


class Damaged(Source):
    """A file that is not what it should be: reads at its end are short, and what does not fit raises as the libraries do."""
    short = None            # array that is cut off
    good_sum = True

    def __init__(self, *a):
        super().__init__(*a)
        self.shapes[EMPTY] = (const(0),)
        self.forks, self.iters = 0, {}
        self.stuck = None
        self.lost = []

    def problem(self, what, node, ctx):
        self.lost.append(what)

    def fail(self, exc, node, ctx, st):
        self.it.do_raise(mk('call', mk('ext', exc), (const('damaged file'),), ()), st, node, ctx)
        return NONE

    def on_event(self, d):
        if d['kind'] == 'branch' and d['taken'] is None:
            self.forks += 1
        if d['kind'] == 'loop_iter':
            self.iters[id(d['node'])] = self.forks
        if d['kind'] == 'loop_same' and self.iters.get(id(d['node'])) == self.forks and self.stuck is None:
            self.stuck = (loc(d['ctx'], d['node']), fname(d['ctx']))
        super().on_event(d)

    def locate(self, atoms, target, st):
        q = super().locate(atoms, target, st)
        if q is None:
            end = self.abs(atoms, (len(atoms), 0))
            if end is not None and self.order(self.fold(target, st), end, st) in (0, 1):
                return len(atoms), 0
        return q

    def goto(self, o, st, absolute, atoms):
        ss = [self.size(a) for a in atoms]
        if None not in ss and absolute >= sum(ss):
            st.wobj(o.a[0]).fields['pos'] = mk('tuple', (const(len(atoms)), const(0)))
            return
        super().goto(o, st, absolute, atoms)

    def read(self, o, n, atoms, st, node, ctx):
        h = st.heap[o.a[0]]
        p = self.where(h)
        if p is not None and n is not None and not (is_const(n) and isinstance(n.a[0], int)):
            i, off = p
            if i >= len(atoms):
                return const(b'')
            # more than what is left
            rest, c = [], const(-off)
            for a in atoms[i:]:
                z = self.sizeterm(a)
                if z is None:
                    return super().read(o, n, atoms, st, node, ctx)
                c = add(c, z)
            if self.order(self.fold(n, st), self.fold(c, st), st) == 1:
                st.wobj(o.a[0]).fields['pos'] = mk('tuple', (const(len(atoms)), const(0)))
                if off:
                    return unk('bytes')
                rest = atoms[i:]
                if all(a.op == CB for a in rest):
                    return const(b''.join(a.a[0] for a in rest))
                if rest[0].op == BLOB and len(rest) == 1:
                    return mk('blobread', rest[0].a[0])
                return mk('catbytes', tuple(rest))
        return super().read(o, n, atoms, st, node, ctx)

    def nbytes(self, t):
        if t.op == 'const' and isinstance(t.a[0], (bytes, bytearray)):
            return len(t.a[0])
        if t.op == 'rbytes':
            ss = [self.size(a) for a in t.a[0]]
            return None if None in ss else sum(ss)
        return None

    def unpack(self, fmt, t, st, node, ctx):
        cs, n = codes(fmt), self.nbytes(t)
        if cs is not None and not cs[0]:
            # there is no first value
            return self.fail('IndexError', node, ctx, st)
        if cs is not None and n is not None and n != cs[1]:
            self.fail('struct.error', node, ctx, st)
            return mk('tuple', tuple(unk('short') for _ in cs[0]))
        return super().unpack(fmt, t, st, node, ctx)

    def cut(self, t):
        return any(x is EMPTY or x is self.short for x in walk(t))

    KEEP = {'astype', 'copy', 'ravel', 'flatten', 'byteswap', 'newbyteorder', 'squeeze', 'reshape', 'transpose', 'clip', 'round'}

    def points(self, t):
        """Number of values of an array that is made of the values that are left; None: not known."""
        if t is EMPTY:
            return const(0)
        if t is self.short:
            return mul(*self.shapes[t])
        op, a = t.op, t.a
        if op in ('flat', 'blobread', 'shaped', 'store', 'setitem'):
            return self.points(a[0])
        if op == 'mcall':
            return self.points(a[0]) if mcallname(t) in self.KEEP else None
        if op in ('bin', 'cmp', 'un'):
            found = [self.points(x) for x in a if isinstance(x, T) and x.op not in ('const', 'param', 'field', 'sub')]
            found += [self.points(x) for x in a if x is self.short or x is EMPTY]
            found = {x for x in found if x is not None}
            return found.pop() if len(found) == 1 else None
        if op in ('ite', 'phi', 'join'):
            found = {self.points(x) for x in a if isinstance(x, T) and self.cut(x)}
            return found.pop() if len(found) == 1 else None
        if op == 'call' and a[0].op == 'ext':
            n, args, kw = a[0].a[0], a[1], dict(a[2])
            if n in ('numpy.zeros', 'numpy.ones', 'numpy.empty', 'numpy.full'):
                return self.count(args[0] if args else kw.get('shape'))
            if n in ('numpy.zeros_like', 'numpy.ones_like', 'numpy.empty_like', 'numpy.full_like', 'numpy.asarray', 'numpy.array', 'numpy.ascontiguousarray', 'numpy.abs', 'numpy.negative', 'numpy.flip',
                     'numpy.nan_to_num', 'numpy.float64', 'numpy.float32', 'numpy.ravel', 'numpy.copy', 'numpy.squeeze', 'numpy.transpose') and args:
                return self.points(args[0])
            if n in ('numpy.add', 'numpy.subtract', 'numpy.multiply', 'numpy.divide', 'numpy.true_divide', 'numpy.where'):
                found = {self.points(x) for x in args if self.cut(x)} - {None}
                return found.pop() if len(found) == 1 else None
            if n == 'numpy.resize' and len(args) > 1:
                return self.count(args[1])
            if n == 'numpy.pad' and len(args) > 1 and args[1].op == 'tuple' and len(args[1].a[0]) == 2 and self.points(args[0]) is not None:
                return add(add(self.points(args[0]), args[1].a[0][0]), args[1].a[0][1])
            if n in ('numpy.concatenate', 'numpy.hstack', 'numpy.append'):
                xs = args if n == 'numpy.append' else args[0].a[0] if args and args[0].op in ('tuple', 'list') else (None,)
                ps = [None if x is None else self.points(x) for x in xs]
                if None in ps:
                    return None
                c = const(0)
                for x in ps:
                    c = add(c, x)
                return c
        return None

    def count(self, x):
        return None if x is None or is_const(x, None) else mul(const(1), *x.a[0]) if x.op in ('tuple', 'list') else x

    def call(self, f, args, kwargs, st, node, ctx, it):
        if f.op == 'class':
            ci = self.prog.classes.get(f.a[0])
            if ci is not None and {str(x).split('.')[-1] for x in ci.ext_bases()} & {'Enum', 'IntEnum', 'StrEnum'} and len(args) == 1:
                vals = it.enum_values(ci) if hasattr(it, 'enum_values') else None
                if vals is not None and is_const(args[0]) and args[0].a[0] not in vals:
                    return self.fail('ValueError', node, ctx, st)
        return super().call(f, args, kwargs, st, node, ctx, it)

    def method(self, b, n, args, kwargs, st, node, ctx, it):
        if n == 'reshape' and self.cut(b):
            a = list(args)
            if len(a) == 1 and a[0].op in ('tuple', 'list'):
                a = list(a[0].a[0])
            elif len(a) == 1 and a[0].op == 'obj' and it.elements(st, a[0]) is not None:
                a = list(it.elements(st, a[0]))
            elif len(a) == 1 and not is_const(a[0]) and a[0].op not in ('param', 'bin'):
                return None
            if any(is_const(x, -1) for x in a):
                return mk('shaped', b, mk('tuple', tuple(a)))
            left = self.points(b)
            if left is not None:
                # sizes that the code itself computes
                left = subst_size(left, lambda x: self.points(x) if self.cut(x) else None)
            s = None if left is None else self.order(self.fold(mul(const(1), *a), st), self.fold(left, st), st)
            if s not in (0, None):
                return self.fail('ValueError', node, ctx, st)
            if s is None:
                self.lost.append('reshape')
        return super().method(b, n, args, kwargs, st, node, ctx, it)

    def ext(self, n, args, kwargs, st, node, ctx, it):
        if n == 'numpy.reshape' and args and self.cut(args[0]):
            return self.method(args[0], 'reshape', [kwargs['newshape']] if 'newshape' in kwargs else [kwargs['shape']] if 'shape' in kwargs else list(args[1:]), kwargs, st, node, ctx, it)
        if n == 'numpy.frombuffer' and args:
            cnt = kwargs.get('count', args[2] if len(args) > 2 else None)
            size = self.nbytes(args[0])
            dt = dtype_code(kwargs.get('dtype', args[1] if len(args) > 1 else mk('ext', 'float')))
            if size is not None and isinstance(dt, str) and dt[1:] in SIZES:
                item = SIZES[dt[1:]]
                if size % item and cnt is None:
                    return self.fail('ValueError', node, ctx, st)
                if cnt is not None and not is_const(cnt, -1) and self.order(self.fold(mul(cnt, item), st), const(size), st) == 1:
                    return self.fail('ValueError', node, ctx, st)
                if size == 0 and (cnt is None or is_const(cnt, -1)):
                    self.dts[EMPTY] = dt
                    return mk('flat', EMPTY)
            if cnt is not None and not is_const(cnt, -1) and args[0].op == 'blobread' and self.cut(args[0]):
                if self.points(args[0]) is not None and self.order(self.fold(cnt, st), self.points(args[0]), st) == 1:
                    return self.fail('ValueError', node, ctx, st)
        if n in ('struct.unpack', 'struct.unpack_from') and len(args) >= 2 and not is_const(args[0]):
            if self.nbytes(args[1]) == 0:
                return self.fail('struct.error', node, ctx, st)
        return super().ext(n, args, kwargs, st, node, ctx, it)

    def zipop(self, n, args, kwargs, st, node, ctx):
        if n in ('open', 'read', 'getinfo') and args and is_const(args[0]) and args[0].a[0] not in self.members:
            return self.fail('KeyError', node, ctx, st)
        return super().zipop(n, args, kwargs, st, node, ctx)

    def truth(self, t, st):
        if t.op == 'cmp' and t.a[0] in ('==', '!=') and any(mcallname(x) in ('hexdigest', 'digest') for x in t.a[1:]) and not self.good_sum:
            return t.a[0] == '!='
        if t.op == 'cmp' and t.a[0] in ('in', 'not in') and t.a[2].op in ('tuple', 'list', 'set', 'frozenset') and t.a[1].op == 'tuple':
            flat = lambda x: tuple(y.a[0] for y in x.a[0]) if x.op == 'tuple' and all(y.op == 'const' for y in x.a[0]) else None
            v, vs = flat(t.a[1]), [flat(x) for x in t.a[2].a[0]]
            if v is not None and None not in vs:
                return (v in vs) == (t.a[0] == 'in')
        return super().truth(t, st)


def subst_size(t, f):
    if not isinstance(t, T):
        return t
    if t.op == 'field' and t.a[1] == 'size':
        return f(t.a[0]) or t
    if t.op == 'call' and t.a[0].op == 'ext' and t.a[0].a[0] in ('len', 'numpy.size') and len(t.a[1]) == 1:
        return f(t.a[1][0]) or t
    if t.op == 'bin':
        return mk('bin', t.a[0], subst_size(t.a[1], f), subst_size(t.a[2], f))
    return t


# ---------------------------------------------------------------------------------------------------------------- damage
def put(atoms, i, *new):
    return atoms[:i] + list(new) + atoms[i + 1:]


def findc(atoms, b):
    return next(i for i, a in enumerate(atoms) if a.op == CB and b in a.a[0])


def swap(old, new):
    """The first occurrence of constant bytes replaced by other bytes."""
    def f(sp):
        i = findc(sp.atoms, old)
        sp.atoms = put(sp.atoms, i, mk(CB, sp.atoms[i].a[0].replace(old, new, 1)))
    return f


def at(i, atom):
    def f(sp):
        sp.atoms = put(sp.atoms, i, atom(sp) if callable(atom) else atom)
    return f


def xmlset(k, v):
    def f(sp):
        sp.xml = {a: b for a, b in sp.xml.items() if not (a == k or a.startswith(k + '/'))}
        if v is not None:
            sp.xml[k] = v
    return f


def drop(name):
    def f(sp):
        sp.members = {k: v for k, v in sp.members.items() if (k != name if isinstance(name, str) else not name(k))}
    return f


def field_of(value, new):
    """The first field that holds a value gets another one."""
    def f(sp):
        i = next(i for i, a in enumerate(sp.atoms) if a.op == FLD and a.a[1] is value)
        sp.atoms = put(sp.atoms, i, mk(FLD, sp.atoms[i].a[0], new(value)))
    return f


def setfmt(i, code, v):
    return at(i, mk(CB, struct.pack(code, v)))


def edits():
    """(suffix, what is wrong, change of the specification); every one of them is documented by a check of the reader."""
    yield '.os3d', 'identification', swap(b'OmniSurf3D', b'OmniSurf2D')
    yield '.zmg', 'identification', swap(b'Zeta-Instruments', b'Beta-Instruments')
    yield '.tmd', 'identification', swap(b'v2.0', b'v1.0')
    yield '.tmd', 'more values than points', longer
    yield '.dat', 'identification', swap(b'\x88\x1b\x03\x6f', b'\x88\x1b\x03\x6e')
    yield '.dat', 'version that does not belong to the identification', setfmt(1, '>H', 2)
    yield '.dat', 'header size that does not belong to the version', setfmt(2, '>I', 4096)
    yield '.dat', 'size of the intensity data', at(8, mk(FLD, '>I', P('wrong size'))), ('intensity data skipped', lambda sp: setattr(sp, 'atoms', put(sp.atoms, 8, mk(FLD, '>I', add(sp.atoms[8].a[1], 2)))))
    yield '.sdf', 'identification', swap(b'bISO-1.0', b'bISO-2.0')
    yield '.sdf', 'unknown data type', swap(b'\x00\x05\x00', b'\x00\x09\x00')
    yield '.opd', 'identification', swap(b'\x01\x00', b'\x02\x00')
    yield '.opd', 'first block is not the directory', swap(b'Directory', b'Dictionary'[:9])
    yield '.opd', 'size of the array', opdsize
    yield '.gwy', 'identification', swap(b'GWYP', b'GWYO')
    yield '.gwy', 'no channel', swap(b'/1/data\x00', b'/1/dato\x00')
    yield '.fits', 'identification', swap(b'SIMPLE', b'SAMPLE')
    yield '.fits', 'three dimensions', swap(b'NAXIS   = 2', b'NAXIS   = 3')
    yield '.fits', 'no layer of heights', swap(b'HEIGHTS', b'DEPTHS ')
    yield '.fits', 'header without an end', noend
    yield '.sur', 'identification', swap(b'DIGITAL SURF', b'DIGITAL SERF')
    yield '.sur', 'version', setfmt(3, '<h', 2)
    yield '.sur', 'several objects', setfmt(2, '<h', 2)
    yield '.sur', 'series of surfaces', setfmt(4, '<h', 5)
    yield '.sur', 'profile', setfmt(4, '<h', 1)
    yield '.sur', 'values of 8 bits', bits8
    yield '.al3d', 'identification', swap(b'AliconaImaging', b'AliconaImages.')
    yield '.al3d', 'delimiter of a tag', swap(b'\r\n', b'\r\r') if False else al3ddelim
    yield '.al3d', 'first tag is not the version', swap(b'Version\x00', b'Virsion\x00')
    yield '.al3d', 'second tag is not the number of tags', swap(b'TagCount\x00', b'TagNumber'[:9])
    yield '.vk4', 'size of the heights', vksize
    yield '.vk4', 'values of 24 bits', vkbits
    yield '.x3p', 'main.xml is missing', drop('main.xml')
    yield '.x3p', 'checksum is missing', drop('md5checksum.hex')
    yield '.x3p', 'checksum', badsum
    yield '.x3p', 'no Record1', xmlset('Record1', None)
    yield '.x3p', 'no Record3', xmlset('Record3', None)
    yield '.x3p', 'several layers', xmlset('Record3/MatrixDimension/SizeZ', '2')
    yield '.x3p', 'profile', xmlset('Record1/FeatureType', 'PRF')
    yield '.x3p', 'heights are missing', drop(lambda k: k.endswith('.bin'))
    yield '.plux', 'heights are missing', drop('LAYER_0.raw')
    yield '.plux', 'index is missing', drop('index.xml')
    yield '.vk6', 'archive without the measurement', drop('Vk4File')
    yield '.sflz', 'identification', at(0, mk(CB, b'sflx'))
    yield '.xyz', 'fewer points than rows times columns', fewer
    yield '.xyz', 'more points than rows times columns', longer


def fewer(sp):
    sp.short = True


def sflz():
    X, Y = P('step x'), P('step y')
    n = mul(c20.NX, c20.NY)
    for code, item in (('<u4', 4), ('<f8', 8)):
        yield c20.Spec('.sflz', f'values {code}', [cb(b'SFLZ'), cb(b'1.0'.ljust(10)), fld('<d', X), fld('<d', Y), fld('<?', False), fld('<d', 0.0), fld('<d', 1.0), fld('<H', 1), fld('<H', 0), fld('<B', 0),
                       fld('<H', 10), cb(b'topography'), fld('<I', c20.NX), fld('<I', c20.NY), fld('<B', 1), cb(code.encode()), fld('<I', mul(n, item)), array(c20.H)], code, steps=(X, Y))


def noend(sp):
    sp.atoms = [mk(CB, sp.atoms[0].a[0].replace(b'END', b'ENX'))]


def longer(sp):
    sp.extra = True


def opdsize(sp):
    i = next(i for i, a in enumerate(sp.atoms) if a.op == CB and a.a[0].startswith(b'RAW_DATA'))
    j = next(k for k in range(i, i + 4) if sp.atoms[k].op == FLD)
    sp.atoms = put(sp.atoms, j, mk(FLD, sp.atoms[j].a[0], add(sp.atoms[j].a[1], 2)))


def bits8(sp):
    i = next(i for i, a in enumerate(sp.atoms) if a.op == CB and a.a[0] == struct.pack('<h', 16))
    sp.atoms = put(sp.atoms, i, mk(CB, struct.pack('<h', 8)))


def al3ddelim(sp):
    i = [i for i, a in enumerate(sp.atoms) if a.op == CB and a.a[0].endswith(b'\r\n') and i][2]
    sp.atoms = put(sp.atoms, i, mk(CB, sp.atoms[i].a[0][:-2] + b'\n\r'))


def vkheight(sp):
    i = next(i for i, a in enumerate(sp.atoms) if a.op == BLOB and any(x is c20.H for x in walk(a)))
    return next(j for j in range(i, -1, -1) if sp.atoms[j].op == FLD and sp.atoms[j].a[1].op == 'bin')


def vksize(sp):
    j = vkheight(sp)
    sp.atoms = put(sp.atoms, j, mk(FLD, '<I', add(sp.atoms[j].a[1], 4)))


def vkbits(sp):
    j = vkheight(sp)
    sp.atoms = put(sp.atoms, j - 2, mk(CB, struct.pack('<I', 24)))
    sp.atoms = put(sp.atoms, j, mk(FLD, '<I', mul(c20.NX, c20.NY, 3)))


def badsum(sp):
    sp.badsum = True


def hindex(atoms):
    return next((i for i, a in enumerate(atoms) if a.op == BLOB and any(x is c20.H for x in walk(a))), None)


def cuts(sp, deep):
    """Copies of the file that end early: (label, specification)."""
    def body():
        if sp.members is None:
            return None, sp.atoms
        for k, v in sp.members.items():
            if hindex(v) is not None:
                return k, v
        return None, sp.atoms
    name, atoms = body()
    h = hindex(atoms)
    if h is None:
        return

    def made(lst):
        q = copy.copy(sp)
        if name is None:
            q.atoms = lst
        else:
            q.members = {**sp.members, name: lst}
        return q
    if mcallname(atoms[h].a[0]) == 'tobytes':
        q = made(atoms[:h + 1])
        q.short = True
        yield 'ends inside of the heights', q
    q = made(atoms[:h])
    yield 'ends before the heights', q
    if deep:
        last = None
        for i in range(h):
            if atoms[i].op != ANY:
                yield f'ends before {atoms[i].op} {i}', made(atoms[:i])


def run(prog, rep):
    rep.rule('truncated', 'a file that ends before or inside of its heights is rejected', 60)
    rep.rule('foreign', 'a file whose identification, structure or declared sizes are wrong is rejected', 30)
    rep.rule('terminates', 'no reader goes on reading at the end of the file', 60)
    rs = {}
    for fi, d, kws in formats._registered(prog, 'register_reader'):
        for s in formats.strings(kws.get('suffix')) or ():
            rs[s] = fi
    seen = {}
    sps = [sp for sp in c20.specs() if sp is not None] + list(sflz())
    for sp in sps:
        rd = rs.get(sp.suffix)
        if rd is None or sp.table is not None:
            continue
        n = seen[sp.suffix] = seen.get(sp.suffix, 0) + 1
        if n > 6 and rep.pid and n % 4:
            continue
        for what, q in cuts(sp, n == 1):
            one(prog, rep, rd, q, 'truncated', f'{sp.suffix} {sp.label}: {what}')
    for suffix, what, edit, *more in edits():
        rd = rs.get(suffix)
        if rd is None:
            continue
        label, edit2 = more[0] if more else (None, edit)
        sp = next((x for x in sps if x.suffix == suffix and (label is None or label in x.label)), None)
        q = copy.copy(sp)
        q.xml, q.members = dict(q.xml or {}), dict(q.members) if q.members is not None else None
        edit2(q)
        one(prog, rep, rd, q, 'foreign', f'{suffix}: {what}')


def one(prog, rep, rd, sp, rule, lab):
    site = lab
    shapes = dict(sp.shapes)
    cut = getattr(sp, 'short', False)
    more = getattr(sp, 'extra', False)
    if cut or more:
        total = mul(*shapes[c20.H])
        shapes[c20.H] = (mk('bin', '+' if more else '-', total, LEFT),)
        for x in sp.table or ():
            shapes[x] = shapes[c20.H]
        if sp.table:
            shapes[TABLE] = shapes[c20.H] + shapes[TABLE][1:]
    worlds, certain = [{}], True
    bad = None
    while worlds:
        force = worlds.pop()
        s = Damaged(prog, shapes, sp.dtypes, sp.members, sp.xml, sp.tokens, sp.sizes, sp.table, sp.uniques)
        s.force, s.aligned = force, sp.aligned
        s.good_sum = not getattr(sp, 'badsum', False)
        if cut or more:
            s.short = c20.H
        r = Run(prog, s)
        f = s.file(r.st, sp.atoms, 'read')
        pos, kwo, va, kwn, dfl = sig(rd)
        k = {}
        if 'read_image_layers' in pos + kwo or kwn:
            k['read_image_layers'] = FALSE
        r.call(r.it.func_value(rd), [f], k)
        rep.used(r.it)
        if s.stuck is not None and not force:
            rep.ob('terminates', site)
            rep.violate('terminates', site, s.stuck[0], s.stuck[1], 'read', 'the file is read on and on although it has ended')
            return
        if r.err is not None:
            rep.notes.append(f'{lab}: {str(r.err)[-300:]}')
            rep.ob(rule, site, 'undecided')
            rep.ob('terminates', site, 'undecided')
            return
        new = [c for c in s.asked if c not in force and not any(x.op in ('unk', 'loopvar', 'loopcond') for x in walk(c))]
        if new and len(force) < 3:
            worlds += [{**force, new[0]: True}, {**force, new[0]: False}]
            continue
        if r.returns and formats.raw_of(r) or r.returns and not r.raised:
            doubt = [c for c in s.asked if c not in force]
            if force or doubt or s.lost:
                rep.notes.append(f'{lab}: returns; {[show(c)[:80] for c in doubt][:3]} {s.lost[:3]} {len(force)}')
                certain = False
            else:
                bad = r
    rep.ob('terminates', site)
    if bad is not None:
        rep.ob(rule, site)
        rep.violate(rule, site, loc_fi(rd), rd.qual, lab.split(': ')[-1], 'the file is accepted')
    else:
        rep.ob(rule, site, 'ok' if certain else 'undecided')
