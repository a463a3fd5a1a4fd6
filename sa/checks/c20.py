"""Readers against the layout of their formats.  For every format a specification of the file is given as an abstract byte sequence (fixed
bytes, fields with symbolic values, array data of symbolic extent, archives, documents); the registered reader is interpreted over it and the
heights, point spacings, rows and columns, missing points and image layers it returns are compared with what the specification says."""
from ..common import *
from fractions import Fraction as F
from ..algebra import Ctx
from . import formats
from .stream import CB, FLD, BLOB, SIZES, mcallname
from .source import *
from .c18 import Back, D, unwrap, isnanconst, nanmask, loc_fi

H = HEIGHTS = mk('param', 'heights of the file')
RGBI = tuple(mk('param', f'{c} layer of the file') for c in ('red', 'green', 'blue', 'intensity'))
NX, NY = P('nx'), P('ny')


def solid(atoms):
    return [a for a in atoms if not (a.op in (CB, ANY) and not (len(a.a[0]) if a.op == CB else a.a[1]))]


class Spec:
    def __init__(self, suffix, label, atoms=None, dtype='<f4', shape=(NY, NX), heights=D, steps=(None, None), missing=None, members=None, xml=None, tokens=None, layers=None, shapes=None, dtypes=None,
                 rot=False, flips=(), sizes=None, table=None, uniques=None, aligned=False):
        self.aligned = aligned
        self.table, self.uniques = table, uniques
        self.flips, self.sizes = flips, sizes or {}
        self.suffix, self.label, self.atoms, self.heights, self.steps, self.missing = suffix, label, atoms, heights, steps, missing
        self.atoms = solid(atoms or [])
        members = {k: solid(v) for k, v in members.items()} if members is not None else None
        self.shapes = {H: shape, **(shapes or {})}
        self.dtypes = {H: dtype, **(dtypes or {})}
        self.members, self.xml, self.tokens, self.layers, self.rot = members, xml, tokens, layers or {}, rot
        self.masks = [k for k in self.shapes if k is not H and k.a[0] == 'mask of the file']


MASK = mk('param', 'mask of the file')
IMG = mk('param', 'image of the file')


def equal(v):
    return ('==', v)


def specs():
    X, Y = P('step x'), P('step y')
    # ---- nms
    for img in (False, True):
        tail = [array(IMG)] if img else []
        zmin, zmax = P('zmin'), P('zmax')
        h = add(mul(mk('bin', '/', D, const(65534)), mk('bin', '-', zmax, zmin)), zmax)
        yield Spec('.nms', 'image layer' if img else 'heights', [skip(16), fld('<d', zmin), fld('<d', zmax), skip(1076 - 32), cb(b'2020-01-01 10:00'), skip(1368 - 1092), fld('<I', NX), fld('<I', NY),
                   fld('<d', X), fld('<d', Y), skip(3468 - 1392), array(H)] + tail, '<u2', heights=h, steps=(mul(X, const(0.001)), mul(Y, const(0.001))),
                   shapes={IMG: (NY, NX)}, dtypes={IMG: '|u1'}, layers={'Grayscale': IMG} if img else None)
    # ---- os3d
    for ident, date in ((b'identity', b'2020-01-01 10:00:00'), (b'', b'2020-01-01')):
        yield Spec('.os3d', f'identification of {len(ident)} characters', [cb(b'OmniSurf3D'), fld('<i', 1), fld('<i', 0), fld('<i', len(ident)), cb(ident), fld('<i', len(date)), cb(date), fld('<i', NX), fld('<i', NY),
                   fld('<d', X), fld('<d', Y), skip(16), array(H), fld('b', 0)], '<f4', steps=(X, Y), missing=('below', F('-3.4028234e38'), F('-1e37')))
    # ---- zmg
    for n in (0, 11):
        Z = P('step z')
        yield Spec('.zmg', f'comment of {n} characters', [cb(b'Zeta-Instruments'), skip(85 - 16), fld('<I', NX), fld('<I', NY), skip(4), fld('<f', X), fld('<f', Y), fld('<f', Z), skip(8), fld('<I', n), skip(84), skip(n),
                   array(H)], '<i2', heights=mul(D, Z), steps=(X, Y))
    # ---- plu
    for img in (False, True):
        tail = [skip(16), array(IMG)] if img else [skip(16)]
        yield Spec('.plu', 'image layer' if img else 'heights', [cb(b'Wed Jan 01 10:00:00 2020'.ljust(128, b'\x00')), skip(260), fld('<I', NY), fld('<I', NX), skip(8), fld('<f', X), fld('<f', Y), skip(16), skip(72), array(H)] + tail, '<f4',
                   steps=(X, Y), missing=equal(1000001), shapes={IMG: (NY, NX, const(3))}, dtypes={IMG: '|u1'}, layers={('Grayscale', 'RGB'): IMG} if img else None)
    # ---- tmd
    L = (P('length x'), P('length y'))
    for comment in ('', 'a comment'):
        yield Spec('.tmd', f'comment {comment!r}', [cb(b'Binary TrueMap Data File v2.0\r\n\x00'), cb(comment.encode().ljust(21) + b'\r\n\x00'), fld('<I', NX), fld('<I', NY), fld('<f', L[0]), fld('<f', L[1]), skip(8), array(H)], '<f4',
                   steps=(mk('bin', '/', L[0], NX), mk('bin', '/', L[1], NY)))
    # ---- vk4, vk6, vk7
    ZD = P('z length per digit')
    for bits, code in ((16, '<u2'), (32, '<u4')):
        for gap in (0, 40):
            for suffix, imgs in (('.vk4', False), ('.vk4', True), ('.vk6', False), ('.vk7', True)):
                yield vk(suffix, bits, code, gap, imgs, X, Y, ZD)
    yield from more(X, Y)
    yield from opd()
    yield from gwy()
    yield from fits()
    # ---- xyz: lines of x, y and height in metres; the spacing is the extent over the number of points (or of intervals)
    CX, CY, UX, UY = P('x of the points'), P('y of the points'), P('distinct x'), P('distinct y')
    span = lambda u: mk('bin', '-', mk('mcall', u, 'max', (), ()), mk('mcall', u, 'min', (), ()))
    step = lambda u, n: tuple(mul(mk('bin', '/', span(u), k), 10**6) for k in (n, mk('bin', '-', n, const(1))))
    yield Spec('.xyz', 'text', [skip(100)], '<f8', heights=mul(D, 10**6), steps=(step(UX, NX), step(UY, NY)), table=(CX, CY, H), uniques={CX: UX, CY: UY},
               shapes={TABLE: (mul(NX, NY), const(3)), CX: (mul(NX, NY),), CY: (mul(NX, NY),), UX: (NX,), UY: (NY,)}, dtypes={x: '<f8' for x in (TABLE, CX, CY, UX, UY)})
    # ---- al3d
    for nt, off in ((8, 845), (11, 1000)):
        inv = P('invalid value')
        tags = [('Version', '1'), ('TagCount', str(nt)), ('Cols', NX), ('Rows', NY), ('PixelSizeYMeter', Y), ('DepthImageOffset', str(off)), ('PixelSizeXMeter', X), ('IconOffset', '0'), ('NumberOfPlanes', '0'), ('InvalidPixelValue', inv)]
        tags += [(f'Comment{i}', 'x') for i in range(nt + 2 - len(tags))]
        atoms = [cb(b'AliconaImaging\x00\r\n')]
        for k, v in tags:
            atoms += [cb(k.encode().ljust(20, b'\x00')), text(30, v), cb(b'\r\n')]
        yield Spec('.al3d', f'{nt} tags', atoms + [skip(off - 17 - 52 * len(tags)), array(H)], '<f4', heights=mul(D, const(10**6)), steps=(mul(X, const(10**6)), mul(Y, const(10**6))), missing=equal(inv))
    # ---- plux
    date = {'GENERAL/DATE': '2020-01-01 10:00:00'}
    for img in (False, True):
        yield Spec('.plux', 'image layer' if img else 'heights', [skip(100)], '<f4', steps=(X, Y), xml={**date, 'GENERAL/IMAGE_SIZE_X': NX, 'GENERAL/IMAGE_SIZE_Y': NY, 'GENERAL/FOV_X': X, 'GENERAL/FOV_Y': Y},
                   members={'index.xml': [cb(b'<xml></xml>')], 'LAYER_0.raw': [array(H)], **({'LAYER_0.stack.raw': [array(IMG)]} if img else {})},
                   shapes={IMG: (NY, NX, const(3))}, dtypes={IMG: '|u1'}, layers={('Grayscale', 'RGB'): IMG} if img else None)
    # ---- x3p
    for t, code in (('I', '<u2'), ('L', '<u4'), ('F', '<f4'), ('D', '<f8')):
        for path in ('bindata/data.bin', 'heights.bin'):
            yield Spec('.x3p', f'type {t}, {path}', [skip(100)], code, heights=mul(D, const(10**6)), steps=(mul(X, const(10**6)), mul(Y, const(10**6))),
                       xml={'Record1/FeatureType': 'SUR', 'Record1/Axes/CX/Increment': X, 'Record1/Axes/CY/Increment': Y, 'Record1/Axes/CZ/DataType': t, 'Record1/Axes/CX/DataType': 'F', 'Record1/Axes/CY/DataType': 'F', 'Record3/MatrixDimension/SizeX': NX, 'Record3/MatrixDimension/SizeY': NY,
                            'Record3/MatrixDimension/SizeZ': '1', 'Record3/DataLink/PointDataLink': path},
                       members={'main.xml': [cb(b'<xml></xml>')], 'md5checksum.hex': [cb(b'0123 main.xml')], path: [array(H)]})


def vk(suffix, bits, code, gap, imgs, X, Y, ZD):
    n = mul(NX, NY)
    table = {}
    body = []
    at = const(12 + 68 + gap)

    def put(name, size, *atoms):
        nonlocal at
        table[name] = at
        body.extend(atoms)
        at = add(at, size)
    cond = [skip(4)] + [fld('<I', v) for v in (2020, 1, 1, 10, 0, 0)] + [skip(4 * 35), fld('<I', X), fld('<I', Y), fld('<I', ZD), skip(220)]
    h = [fld('<I', NX), fld('<I', NY), fld('<I', bits), fld('<I', 0), fld('<I', mul(n, bits // 8)), skip(8 + 768), array(H)]
    strings = [fld('<I', 2), cb(b't\x00t\x00'), fld('<I', 1), cb(b'l\x00')]
    lay = []
    if imgs:
        lay = [('color_peak', add(20, mul(n, 3)), [fld('<I', NX), fld('<I', NY), fld('<I', 24), fld('<I', 0), fld('<I', mul(n, 3)), array(IMG)]),
               ('color_light', add(20, mul(n, 3)), [fld('<I', NX), fld('<I', NY), fld('<I', 24), fld('<I', 0), fld('<I', mul(n, 3)), array(IMG2)]),
               ('light', add(796, mul(n, 2)), [fld('<I', NX), fld('<I', NY), fld('<I', 16), fld('<I', 0), fld('<I', mul(n, 2)), skip(776), array(LIGHT)])]
    lay += [('height', add(28 + 768, mul(n, bits // 8)), h)]
    if gap:
        lay = lay[::-1]
        put('string_data', 14, *strings)
    for name, size, atoms in lay:
        put(name, size, *atoms)
    put('meas_conds', 400, *cond)
    if not gap:
        put('string_data', 14, *strings)
    off = lambda name: fld('<I', table.get(name, const(0)) if name in table else 0)
    atoms = [cb(b'VK4_' + b'\x00' * 8), off('meas_conds'), off('color_peak'), off('color_light'), off('light'), skip(8), off('height'), skip(8), skip(28), off('string_data'), skip(gap)] + body
    unit = const(0.000001)
    sp = dict(dtype=code, heights=mul(D, ZD, unit), steps=(mul(X, unit), mul(Y, unit)), shapes={IMG: (NY, NX, const(3)), IMG2: (NY, NX, const(3)), LIGHT: (NY, NX)},
              dtypes={IMG: '|u1', IMG2: '|u1', LIGHT: '<u2'}, layers={'RGB': IMG, 'Laser+RGB': IMG2, 'Laser': LIGHT} if imgs else None, flips={IMG, IMG2})
    label = f'{bits} bit, {"heights after the image layers" if not gap else "heights before the image layers"}{", image layers" if imgs else ""}'
    if suffix == '.vk4':
        return Spec(suffix, label, atoms, **sp)
    return Spec(suffix, label, [skip(100)], members={'Vk4File': atoms}, **sp)


def more(X, Y):
    # ---- dat
    scale, wl, obl = P('interferometric scale'), P('wavelength'), P('obliquity')
    ACX, ACY = P('intensity columns'), P('intensity rows')
    for fmt, magic, size in ((1, b'\x88\x1b\x03\x6f', 834), (2, b'\x88\x1b\x03\x70', 834), (3, b'\x88\x1b\x03\x71', 4096)):
        for res, div in ((1, 4096), (2, 32768), (3, 131072)):
            for ac in (None, False, True):
                if ac is not None and (fmt, res) != (2, 1):
                    continue
                w, h, nb = (ACX, ACY, 1) if ac is not None else (0, 0, 0)
                nbytes = mul(w, h, 2) if ac is not None else 0
                i = mk('bin', '/', mul(D, scale, wl, obl), const(div))
                yield Spec('.dat', f'version {fmt}, resolution {res}' + ('' if ac is None else ', intensity data' + (' read' if ac else ' skipped')), [cb(magic), fld('>H', fmt), fld('>I', size), skip(42), fld('>H', w), fld('>H', h), fld('>H', nb), skip(2), fld('>I', nbytes),
                           skip(4), fld('>H', NX), fld('>H', NY), skip(4), skip(88), fld('>f', scale), fld('>f', wl), skip(4), fld('>f', obl), skip(4), fld('>f', X), skip(30), fld('>h', res), skip(size - 220)]
                           + ([array(IMG)] if ac is not None else []) + [array(H)], '>i4', heights=mul(i, 10**6), steps=(mul(X, 10**6), mul(X, 10**6)), missing=('from', 2147483640),
                           shapes={IMG: (ACY, ACX)}, dtypes={IMG: '>u2'}, layers={'Intensity': IMG} if ac else None)
    # ---- sdf
    Z = P('z scale')
    for dt, code, inv in ((5, '<i2', -2 ** 15), (6, '<i4', -2 ** 31), (7, '<f8', None)):
        yield Spec('.sdf', f'binary, type {dt}', [cb(b'bISO-1.0' + b'maker'.ljust(10) + b'010120201000' * 2), fld('<H', NX), fld('<H', NY), fld('<d', X), fld('<d', Y), fld('<d', Z), skip(8), cb(bytes([0, dt, 0])), array(H)], code,
                   heights=mul(D, Z, 10**6), steps=(mul(X, 10**6), mul(Y, 10**6)), missing=equal(inv) if inv is not None else None)
    # ---- sur
    units = {'m': 10**6, 'mm': 1000, 'µm': 1, 'um': 1, 'nm': 0.001, 'pm': 0.000001, 'cm': 10000}
    for bits, code in ((16, '<i2'), (32, '<i4')):
        for comp in (False, True):
            for nm in (0, 1):
                for ux, uy, uz in (('µm', 'µm', 'µm'), ('mm', 'nm', 'cm'), ('m', 'mm', 'nm'), ('nm', 'cm', 'um'), ('um', 'm', 'm')):
                    for ncom in (0, 5) if ux == 'µm' else (3,):
                        yield sur(bits, code, comp, nm, (ux, uy, uz), [units[u] for u in (ux, uy, uz)], ncom, X, Y)
        yield surlayers(bits, code, X, Y)


def surlayers(bits, code, X, Y):
    base = sur(bits, code, False, 0, ('µm', 'µm', 'µm'), [1, 1, 1], 0, X, Y, kind=16)
    atoms = list(base.atoms)
    for x in RGBI:
        atoms += sur(bits, code, False, 0, ('µm', 'µm', 'µm'), [1, 1, 1], 0, X, Y, of=x, kind=10).atoms
    return Spec('.sur', f'{bits} bit, colour and intensity layers', atoms, code, heights=base.heights, steps=base.steps, shapes={x: (NY, NX) for x in RGBI}, dtypes={x: code for x in RGBI},
                layers={('Grayscale', 'RGB'): RGBI[:3], 'Intensity': RGBI[3]})


def sur(bits, code, comp, nm, names, conv, ncom, X, Y, of=None, kind=2):
    H = of or HEIGHTS
    Z, mp, n = P('spacing z'), P('lowest stored value'), mul(NX, NY)
    off = P('offset z') if names[2] in ('µm', 'um') else 0.0
    pad = lambda t, k: cb(t.encode().ljust(k))
    z = P('compressed size')
    data = mk('mcall', H, 'tobytes', (), ())
    zipped = mk('call', mk('ext', 'zlib.compress'), (data,), ())
    atoms = [pad('DSCOMPRESSED' if comp else 'DIGITAL SURF', 12), fld('<h', 0), fld('<h', 1), fld('<h', 1), fld('<h', kind), pad('object', 30), pad('operator', 30), fld('<h', 0), fld('<h', 0), fld('<h', 0), fld('<h', nm), skip(2), skip(4), skip(4),
             fld('<h', bits), fld('<i', mp), skip(4), fld('<i', NX), fld('<i', NY), fld('<i', n), fld('<f', X), fld('<f', Y), fld('<f', Z), skip(48)] + [pad(u, 16) for u in names] + [pad(u, 16) for u in ('dm', 'dm', 'dm')] + [skip(12), skip(6), skip(12),
             skip(14), skip(4), fld('<I', add(12, z)) if comp else fld('<I', 0), skip(6), fld('<h', ncom), fld('<h', 4), skip(128), skip(8), fld('<f', off), skip(8), skip(26), skip(ncom), skip(4)]
    if comp:
        atoms += [fld('<I', 1), fld('<I', mul(n, bits // 8)), fld('<I', z), mk(BLOB, zipped)]
    else:
        atoms += [array(H)]
    h = mul(D, Z, conv[2])
    return Spec('.sur', f'{bits} bit{", compressed" if comp else ""}{", not measured points" if nm else ""}, {"/".join(names)}, comment of {ncom} characters', atoms, code, heights=add(h, off), steps=(mul(X, conv[0]), mul(Y, conv[1])),
                missing=equal(mk('bin', '-', mp, const(2))) if nm else None, sizes={zipped: z})


def opd():
    WL, MU, AS, PX = P('wavelength'), P('multiplier'), P('aspect'), P('pixel size')
    for item, code, inv in ((2, '<i2', 32767), (4, '<f4', 1e38), (1, '|u1', None)):
        for order in (False, True):
            b = lambda name, typ, size: [cb(name.encode().ljust(16, b'\x00')), fld('<h', typ), fld('<l', size), fld('<H', 0)]
            size = add(mul(NX, NY, item), 6)
            blocks = [('RAW_DATA', 3, size, [fld('<H', NX), fld('<H', NY), fld('<H', item), array(H)]), ('Wavelength', 7, 4, [fld('<f', WL)]), ('Mult', 6, 2, [fld('<h', MU)]), ('Aspect', 7, 4, [fld('<f', AS)]),
                      ('Pixel_size', 7, 4, [fld('<f', PX)]), ('Title', 5, 6, [cb(b'Title\x00')]), ('Other', 12, 4, [skip(4)])]
            if item == 2:
                blocks.append(('Image', 3, add(mul(NX, NY), 6), [fld('<H', NX), fld('<H', NY), fld('<H', 1), array(IMG)]))
            if order:
                blocks = blocks[::-1]
            head = [cb(b'\x01\x00')] + b('Directory', 1, 24 * (len(blocks) + 1))
            for n, t, sz, _ in blocks:
                head += b(n, t, sz)
            yield Spec('.opd', f'{code[1:]} values, {"heights last" if order else "heights first"}', head + [a for x in blocks for a in x[3]], code, shape=(NX, NY), heights=mk('bin', '/', mul(D, WL, 0.001), MU), steps=(mul(PX, 1000), mul(PX, AS, 1000)),
                       missing=equal(inv) if inv is not None else None, rot=True, shapes={IMG: (NX, NY)}, dtypes={IMG: '|u1'}, layers={'Grayscale': IMG} if item == 2 else None)


def gwy():
    LX, LY = P('length x'), P('length y')
    i = lambda v: ('i', const(4), [fld('<i', v)])
    d = lambda v: ('d', const(8), [fld('<d', v)])
    st = lambda v: ('s', const(len(v.encode()) + 1), [cb(v.encode() + b'\x00')])
    b = lambda v: ('b', const(1), [cb(bytes([v]))])
    arr = lambda x, n: ('D', add(4, mul(n, 8)), [fld('<I', n), array(x)])

    def obj(name, comps):
        size, atoms = const(0), []
        for n, (t, sz, at) in comps:
            size = add(size, add(len(n) + 2, sz))
            atoms += [cb(n.encode() + b'\x00' + t.encode())] + at
        return 'o', add(size, len(name) + 1 + 4), [cb(name.encode() + b'\x00'), fld('<I', size)] + atoms
    unit = lambda u: obj('GwySIUnit', [('unitstr', st(u))])
    n = mul(NX, NY)
    units = {'m': 10**6, 'um': 1, 'nm': 0.001, 'mm': 1000}
    for uxy, uz, flip, masked, extra in (('m', 'm', False, False, False), ('m', 'm', True, True, False), ('um', 'nm', False, True, True), ('mm', 'um', True, False, True)):
        def field(x, z, *more):
            c = [('xres', i(NX)), ('yres', i(NY)), ('xreal', d(LX)), ('yreal', d(LY)), ('si_unit_xy', unit(uxy))] + ([('si_unit_z', unit(z))] if z else []) + [('data', arr(x, n))] + list(more)
            return obj('GwyDataField', c[::-1] if flip else c)
        comps = [('/1/data', field(H, uz)), ('/1/data/title', st('Height')), ('/1/data/visible', b(1))]
        if masked:
            comps.append(('/1/mask', field(MASK, None)))
        if extra:
            comps = [('/0/data', field(IMG, None)), ('/0/data/title', st('Colour'))] + comps + [('/1/meta', obj('GwyContainer', [('Operator', st('me'))]))]
        if flip:
            comps = comps[::-1]
        t, size, atoms = obj('GwyContainer', comps)
        yield Spec('.gwy', f'{uxy}/{uz}{", mask" if masked else ""}{", two channels" if extra else ""}{", other order" if flip else ""}', [cb(b'GWYP')] + atoms, '<f8', heights=mul(D, units[uz]), steps=(mul(mk('bin', '/', LX, NX), units[uxy]), mul(mk('bin', '/', LY, NY), units[uxy])),
                   missing=('false', False) if masked else None, shapes={IMG: (NY, NX), MASK: (NY, NX)}, dtypes={IMG: '<f8', MASK: '<f8'}, layers={'Colour': IMG} if extra else None)


def fits():
    DX, DY, UD, UH = P('delta x'), P('delta y'), P('multiplier of the deltas'), P('multiplier of the heights')
    tokens = {'1234.5': DX, '2345.5': DY, '3456.5': UD, '4567.5': UH, '6400': NX, '4800': NY}
    units = {'m': 10**6, 'um': 1, 'mm': 1000, 'nm': 0.001}

    def block(lines):
        return cb(''.join(x.ljust(80) for x in lines + ['END']).ljust(2880).encode())

    def hdu(name, bits, x, code, aligned):
        size = mul(NX, NY, SIZES[code[1:]])
        return [block(["XTENSION= 'IMAGE   '           / extension", f'BITPIX  = {bits}', 'NAXIS   = 2', 'NAXIS1  = 6400', 'NAXIS2  = 4800', f"EXTNAME = '{name}'"]), array(x)] + ([mk(PAD, mk('bin', '%', mk('un', '-', size), const(2880)))] if not aligned else [])
    for bits, code in ((-32, '<f4'), (-64, '<f8'), (16, '<i2'), (32, '<i4')):
        for masked in (False, True):
            for u, z, aligned in (('um', 'um', False), ('mm', 'nm', False), ('nm', 'm', True)):
                head = block(['SIMPLE  =                    T / conforms', 'BITPIX  = 8', 'NAXIS   = 0', 'COMMENT  some text', 'DELTAX  = 1234.5 / spacing', 'DELTAY  = 2345.5', f"UNITX   = '{u}'", f"UNITY   = '{u}'", f"UNITZ   = '{z}'",
                              'HIERARCH UnitMultiplicatorDeltas = 3456.5', 'HIERARCH UnitMultiplicatorHeights = 4567.5'])
                parts = [hdu('HEIGHTS', bits, H, '>' + code[1:], aligned)]
                if masked:
                    parts.append(hdu('MASK', 8, MASK, '|u1', aligned))
                    parts.append(hdu('INTENSITY', 16, IMG, '>i2', aligned))
                if (u, z) != ('um', 'um'):
                    parts = parts[::-1]
                yield Spec('.fits', f'{bits} bits per value, {u}/{z}{", mask and image" if masked else ""}{", data of whole blocks" if aligned else ""}', [head] + [a for p in parts for a in p], '>' + code[1:], heights=mul(D, UH, units[z]), steps=(mul(DX, UD, units[u]), mul(DY, UD, units[u])),
                           missing=('false', True) if masked else None, tokens=tokens, shapes={MASK: (NY, NX), IMG: (NY, NX)}, dtypes={MASK: '|u1', IMG: '>i2'}, layers={'Intensity': IMG} if masked else None, aligned=aligned)


IMG2, LIGHT = mk('param', 'second image of the file'), mk('param', 'laser image of the file')


CMPF = {'less': '<', 'less_equal': '<=', 'greater': '>', 'greater_equal': '>=', 'equal': '==', 'not_equal': '!='}


def inner(x):
    """The array of which x is a view or a copy of the same values."""
    if x.op in ('shaped', 'flat', 'ro') or x.op == 'mcall' and x.a[1] in ('copy', 'view', 'astype', 'byteswap', 'reshape', 'squeeze'):
        return x.a[0]
    if x.op == 'call' and x.a[0].op == 'ext' and x.a[0].a[0] in ('numpy.array', 'numpy.asarray', 'numpy.ascontiguousarray', 'numpy.copy', 'numpy.asanyarray', 'numpy.reshape') and x.a[1]:
        return x.a[1][0]
    return None


def peel(x):
    while inner(x) is not None:
        x = inner(x)
    return x


def full(i):
    return i.op == 'slice' and i.a == (NONE, NONE, NONE) or is_const(i, Ellipsis)


def rev(i):
    return i.op == 'slice' and i.a[0] is NONE and i.a[1] is NONE and is_const(i.a[2], -1)


def turned(t):
    """(array, how its rows and columns are turned) of a transposition, reversal or rotation."""
    def arg(a, kw, i, name, default):
        x = a[i] if len(a) > i else kw.get(name)
        if x is None:
            return default
        if x.op == 'tuple' and all(is_const(y) for y in x.a[0]):
            return tuple(y.a[0] for y in x.a[0])
        return x.a[0] if is_const(x) else '?'
    how = None
    if t.op == 'field' and t.a[1] == 'T':
        return t.a[0], 'T'
    if t.op == 'mcall' and t.a[1] in ('transpose', 'swapaxes'):
        ax = tuple(y.a[0] if is_const(y) else None for y in t.a[2])
        return (t.a[0], 'T') if ax in ((), (1, 0), (0, 1)) and (t.a[1] == 'swapaxes' or ax != (0, 1)) else None
    if t.op == 'call' and t.a[0].op == 'ext' and t.a[1]:
        n, a, kw = t.a[0].a[0].split('.')[-1], t.a[1], dict(t.a[2])
        if n in ('flipud', 'fliplr'):
            how = 'V' if n == 'flipud' else 'H'
        elif n == 'transpose' and len(a) == 1 and not kw:
            how = 'T'
        elif n == 'flip':
            how = {0: 'V', -2: 'V', 1: 'H', -1: 'H', None: 'VH', (0, 1): 'VH'}.get(arg(a, kw, 1, 'axis', None))
        elif n == 'rot90' and arg(a, kw, 2, 'axes', (0, 1)) in ((0, 1), (1, 0)):
            k = arg(a, kw, 1, 'k', 1)
            if isinstance(k, int):
                how = 'TV' * ((k if arg(a, kw, 2, 'axes', (0, 1)) == (0, 1) else -k) % 4)
        return (t.a[1][0], how) if how is not None else None
    if t.op == 'sub':
        i = t.a[1]
        parts = i.a[0] if i.op == 'tuple' else (i,)
        if parts and all(full(x) or rev(x) for x in parts) and len(parts) <= 2:
            v, h = rev(parts[0]), len(parts) > 1 and rev(parts[1])
            if v and not any(y.op == 'shaped' for y in walk(t.a[0])):
                h = True
            return t.a[0], ('V' if v else '') + ('H' if h else '')
    return None


def turn(ops):
    m = ((0, 1), (2, 3))
    for o in ops:
        m = tuple(zip(*m)) if o == 'T' else m[::-1] if o == 'V' else tuple(r[::-1] for r in m)
    return m


class Turn(Back):
    """The elementwise value of an array, and how its rows and columns are turned against the stored order."""
    def __init__(self, s, base):
        super().__init__(s, base, False)
        self.ops, self.found = [], set()

    def arr(self, t):
        k = (t.uid, tuple(self.ops))
        if k not in self.memo:
            self.memo[k] = self.arr0(t)
        return self.memo[k]

    def arr0(self, t):
        if self.isbase(t):
            self.found.add(turn(reversed(self.ops)))
            return D
        x = turned(t)
        if x is not None and self.has(x[0]):
            # the outermost turn is applied last
            self.ops += list(reversed(x[1]))
            r = self.arr(x[0])
            del self.ops[len(self.ops) - len(x[1]):]
            return r
        return super().arr0(t)


def units(prog, rep):
    """The factor between every two units, under every name a file may use for them."""
    fs = [m.funcs['get_unit_conversion'] for m in prog.modules.values() if 'get_unit_conversion' in m.funcs]
    if not fs:
        return
    fi = fs[0]
    names = {0: ['m', 'M', 'meter', 'Meter'], -1: ['dm'], -2: ['cm', 'CM'], -3: ['mm', 'MM', 'millimeter'], -6: ['um', 'micrometer', '\u00b5m', '\u03bcm', 'UM'], -9: ['nm', 'NM', 'nanometer'], -12: ['pm']}
    for e, ns in names.items():
        for n in ns:
            for f, to in ((0, 'm'), (-6, 'um'), (-9, 'nm'), (-3, 'mm')):
                site = f'{n} to {to}'
                rep.ob('units', site)
                r = Run(prog, Source(prog, {}, {}))
                r.func(fi, [const(n), const(to)])
                rep.used(r.it)
                if r.err is not None or not r.returns and not r.raised:
                    rep.ob('units', site, 'undecided')
                    continue
                for x in r.raised:
                    if not r.returns:
                        rep.violate('units', site, loc_fi(fi), fi.qual, f'get_unit_conversion({n!r}, {to!r})', 'a unit found in files is rejected')
                if r.returns:
                    for y in alts(r.val):
                        k = Ctx(r.it, r.st, {}).rat(y).const() if not doubtful(y) else None
                        if k is None:
                            rep.ob('units', site, 'undecided')
                        elif abs(k / F(10) ** (e - f) - 1) > F(1, 10 ** 9):
                            rep.violate('units', site, loc_fi(fi), fi.qual, f'get_unit_conversion({n!r}, {to!r}) = {float(k)!r}', 'a length is converted by the wrong factor')


def run(prog, rep):
    rep.rule('units', 'lengths are converted between units by the exact power of ten', 40)
    units(prog, rep)
    rep.rule('heights', 'the heights are computed from the stored values as the format defines', 20)
    rep.rule('steps', 'the point spacings are the ones stored in the file, in micrometres', 20)
    rep.rule('shape', 'the heights have the rows and columns stored in the file', 20)
    rep.rule('order', 'the points stay where the format stores them (rows and columns not turned or mirrored)', 20)
    rep.rule('missing', 'exactly the points the format marks as not measured are missing', 20)
    rep.rule('layers', 'image layers are the images stored in the file', 4)
    rep.rule('accepts', 'a file that follows the format is read', 20)
    rs = {}
    for fi, d, kws in formats._registered(prog, 'register_reader'):
        for s in formats.strings(kws.get('suffix')) or ():
            rs[s] = fi
    for sp in specs():
        if sp is None:
            continue
        rd = rs.get(sp.suffix)
        lab = f'{sp.suffix} {sp.label}'
        if rd is None:
            rep.ob('accepts', lab)
            rep.violate('accepts', lab, 'surfalize/file', sp.suffix, sp.suffix, 'a documented format cannot be read')
            continue
        worlds, done, fails = [{}], False, []
        while worlds:
            force = worlds.pop()
            tmp = Report(rep.pid, prog)
            s = Source(prog, sp.shapes, sp.dtypes, sp.members, sp.xml, sp.tokens, sp.sizes, sp.table, sp.uniques)
            s.force = force
            s.aligned = sp.aligned
            res = one(prog, tmp, s, sp, rd, lab)
            new = [c for c in s.asked if c not in force and not any(x.op in ('unk', 'loopvar', 'loopcond') for x in walk(c))]
            if new and len(force) < 4:
                worlds += [{**force, new[0]: True}, {**force, new[0]: False}]
                continue
            if isinstance(res, tuple):
                fails.append((tmp, res))
                continue
            done = True
            for rule, d in tmp.obs.items():
                for site, status in d.items():
                    rep.ob(rule, site, status if status != 'violated' else 'ok')
            rep.notes += tmp.notes
            for v in tmp.violations:
                rep.violate(v['rule'], v['site'], v['where'], v['function'], v['construct'], v['message'])
            for q, n in tmp.funcs.items():
                rep.funcs[q] = rep.funcs.get(q, 0) + n
        if not done:
            tmp, (exc, where, forced) = fails[0]
            rep.ob('accepts', lab)
            if any(not x[1][2] for x in fails):
                rep.violate('accepts', lab, where, rd.qual, f'raises {exc}', 'a file that follows the format is rejected')
            else:
                # rejected whatever the unspecified parts hold
                rep.violate('accepts', lab, where, rd.qual, f'raises {exc} in every case', 'a file that follows the format is rejected')


def doubtful(t):
    return any(x.op in ('unk', 'fmt', 'fstr', 'loopvar', 'phi', 'padstr', 'padded', 'xml') or x.op == 'call' and x.a[0].op == 'ext' and x.a[0].a[0] in ('float', 'int', 'numpy.frombuffer') for x in walk(t))


ELEMENTWISE = {'abs', 'absolute', 'fabs', 'sqrt', 'exp', 'log', 'log10', 'negative', 'sign', 'square', 'floor', 'ceil', 'round', 'rint', 'around', 'trunc', 'min', 'max', 'nanmin', 'nanmax', 'amin', 'amax', 'mean', 'nanmean', 'sum',
               'nansum', 'len', 'median', 'std', 'unique'}


def understood(t):
    """Built from stored values by operations whose meaning is known here."""
    for x in walk(t):
        if x.op in ('const', 'param', 'bin', 'un', 'ext', 'flat', 'ro', 'shaped'):
            continue
        if x.op == 'call' and x.a[0].op == 'ext' and x.a[0].a[0].split('.')[-1] in ELEMENTWISE or x.op == 'mcall' and x.a[1] in ELEMENTWISE:
            continue
        return False
    return not doubtful(t)


def one(prog, rep, s, sp, rd, lab):
    rsite = loc_fi(rd)
    r = Run(prog, s)
    f = s.file(r.st, sp.atoms, 'read')
    pos, kwo, va, kwn, dfl = sig(rd)
    k = {}
    if 'read_image_layers' in pos + kwo or kwn:
        k['read_image_layers'] = const(bool(sp.layers))
    r.call(r.it.func_value(rd), [f], k)
    rep.used(r.it)

    def undecided(why, rules=('accepts', 'heights', 'steps', 'shape')):
        rep.notes.append(f'{lab}: {why}'[:600])
        for q in rules:
            rep.ob(q, lab, 'undecided')
    if r.err is not None:
        return undecided(str(r.err)[-400:])
    rep.ob('accepts', lab)
    for what, where, fn in s.problems:
        rep.violate('accepts', lab, where if where != '?' else rsite, fn if fn != '?' else rd.qual, what, 'what is read does not match the layout of the format')
    if s.problems:
        return
    raws = formats.raw_of(r)
    if not raws or not r.returns:
        e = r.raised[0] if r.raised else None
        if e is None or any(x.op in ('unk', 'loopvar', 'loopcond') for c in s.asked for x in walk(c)):
            return undecided(f'no result: {[(e[0], getattr(e[2], "lineno", 0)) for e in r.raised]} {s.asked}', ('accepts',))
        return (e[0][0] if isinstance(e[0], tuple) else e[0]), (loc(e[3], e[2]) if e[2] is not None else rsite), bool(s.force)
    if r.raised and not s.force:
        rep.ob('accepts', lab, 'undecided')
    for v in raws:
        hh = r.it.h(r.st, v)
        get = lambda n: hh.fields.get(n, NONE)
        bk = Turn(s, H)
        ck = Ctx(r.it, r.st, {})
        A = ck.alg
        for n, want in zip(('step_x', 'step_y'), sp.steps):
            t = s.fold(bk.arr(s.fold(get(n), r.st)), r.st)
            rep.ob('steps', lab)
            if not any(A.eq(ck.rat(t), ck.rat(w)) for w in (want if isinstance(want, tuple) else (want,))):
                if not understood(t):
                    undecided(f'{n} = {show(t)}', ('steps',))
                else:
                    rep.violate('steps', lab, rsite, rd.qual, f'{n} = {show(t)[:120]} instead of {show(want[0] if isinstance(want, tuple) else want)[:80]}', 'the point spacing is not the one stored in the file')
        data = get('data')
        bk.masks.clear()
        bk.memo.clear()
        bk.found.clear()
        t = s.fold(bk.arr(data), r.st)
        rep.ob('order', lab)
        if bk.found - {turn('TV' if sp.rot else '')}:
            rep.violate('order', lab, rsite, rd.qual, f'{show(data)[:160]}', 'the points are not in the order the format stores them')
        masks = list(bk.masks)
        rep.ob('heights', lab)
        if not A.eq(ck.rat(t), ck.rat(sp.heights)):
            if not understood(t):
                undecided(f'data = {show(t)}', ('heights',))
            else:
                rep.violate('heights', lab, rsite, rd.qual, f'{show(t)[:160]} instead of {show(sp.heights)[:120]}', 'the heights are not computed from the stored values as the format defines')
        if understood(t):
            shape(rep, s, sp, rd, lab, bk, ck, H, sp.shapes[H], 'heights')
        else:
            undecided('shape', ('shape',))
        missing(rep, s, sp, rd, lab, bk, ck, masks, t, rsite, undecided)
        images(rep, r, s, sp, rd, lab, bk, ck, get('image_layers'), rsite, undecided)


def shape(rep, s, sp, rd, lab, bk, ck, base, want, what):
    A = ck.alg
    rep.ob('shape', lab)
    resh = [x for x in s.reshapes if any(strip_view(y) is base for y in walk(x[0]))]
    if not resh:
        rep.violate('shape', lab, loc_fi(rd), rd.qual, what, f'the {what} are not arranged in rows and columns')
    for b, args, kws, where, fn, st in resh:
        good = len(args) == len(want)
        if len(args) == 1 and args[0].op == 'field' and args[0].a[1] == 'shape' and s.root(args[0].a[0]) is base:
            continue
        if good:
            for i, (a, w) in enumerate(zip(args, want)):
                if is_const(a, -1):
                    good = good and sum(is_const(x, -1) for x in args) == 1
                else:
                    v = s.value(a, st)
                    good = good and A.eq(ck.rat(v if v is not None else a), ck.rat(w))
        if dict(kws).get('order') is not None and not is_const(dict(kws)['order'], 'C'):
            good = False
        if not good:
            if any(doubtful(a) for a in args):
                rep.ob('shape', lab, 'undecided')
            else:
                rep.violate('shape', lab, where, fn, 'reshape(' + ', '.join(show(a) for a in args)[:80] + ''.join(f', {k}={show(v)}' for k, v in kws) + ')', f'the {what} do not have the rows and columns stored in the file')


def missing(rep, s, sp, rd, lab, bk, ck, masks, t, rsite, undecided):
    A = ck.alg
    rep.ob('missing', lab)
    found = False
    for arr, m, v in masks:
        if not any(strip_view(y) is H for y in walk(arr)):
            continue
        if m == 'clip':
            rep.violate('missing', lab, rsite, rd.qual, 'clip', 'stored heights are cut off')
            continue
        if not isnanconst(v):
            if nanmask(m, bk) is None:
                rep.violate('missing', lab, rsite, rd.qual, f'{show(m)[:80]} = {show(v)[:40]}', 'stored heights are overwritten')
            continue
        m = unwrap(m)
        if nanmask(m, bk) == 'nan':
            continue
        neg = False
        while m.op == 'un' and m.a[0] in ('~', 'not', 'invert') or m.op == 'call' and m.a[0].op == 'ext' and m.a[0].a[0] in ('numpy.logical_not', 'numpy.invert') and m.a[1]:
            m, neg = unwrap(m.a[1] if m.op == 'un' else m.a[1][0]), not neg
        if sp.missing is not None and sp.missing[0] == 'false':
            x = m
            if m.op == 'cmp' and m.a[0] in ('==', '!=') and is_const(m.a[2], 0):
                x, neg = m.a[1], neg != (m.a[0] == '==')
            x = peel(x)
            if x is MASK:
                if neg == (sp.missing[1] is True):
                    found = True
                else:
                    rep.violate('missing', lab, rsite, rd.qual, show(m)[:100], 'the mask is read the wrong way round')
                continue
        if m.op == 'call' and m.a[0].op == 'ext' and m.a[0].a[0].split('.')[-1] in CMPF and len(m.a[1]) == 2:
            m = mk('cmp', CMPF[m.a[0].a[0].split('.')[-1]], *m.a[1])
        if m.op != 'cmp' or m.a[0] not in ('==', '<', '<=', '>', '>=', '!='):
            undecided(f'mask {show(m)}', ('missing',))
            continue
        if isnanconst(m.a[2]) or isnanconst(m.a[1]):
            continue
        op = m.a[0]
        a, b = bk.arr(m.a[1]), bk.arr(m.a[2])
        if not understood(a) or not understood(b):
            undecided(f'mask {show(m)}', ('missing',))
            continue
        # linear in D
        z = linear(ck, a, b)
        if z is None:
            undecided(f'mask {show(m)}', ('missing',))
            continue
        al, c = z
        if al < 0:
            op = {'<': '>', '>': '<', '<=': '>=', '>=': '<='}.get(op, op)
        if neg:
            op = {'==': '!=', '!=': '==', '<': '>=', '>': '<=', '<=': '>', '>=': '<'}[op]
        w = sp.missing
        n = c.const()
        if w is None or w[0] == 'false':
            good = False
        elif w[0] == '==':
            good = op == '==' and A.eq(c, ck.rat(w[1] if isinstance(w[1], T) else const(w[1])))
        elif w[0] == 'below':
            good = op in ('<', '<=') and n is not None and w[1] <= n <= w[2] or op == '==' and n is not None and abs(n / w[1] - 1) < F(1, 10**6)
        elif w[0] == 'from':
            good = n is not None and (op == '>=' and n == w[1] or op == '>' and w[1] - 1 <= n < w[1])
        else:
            good = False
        if good:
            found = True
        else:
            rep.violate('missing', lab, rsite, rd.qual, f'{show(m)[:100]}', 'measured points are read as missing, or the other way round' if w is None or w[0] == 'false' else f'the format marks missing points by {w[0]} {w[1] if not isinstance(w[1], T) else show(w[1])}')
            found = True
    if sp.missing is not None and not found:
        if any(doubtful(m) for _, m, _ in masks if isinstance(m, T)) or not understood(t) or s.vague or s.force:
            undecided('mask', ('missing',))
        else:
            rep.violate('missing', lab, rsite, rd.qual, f'{len(masks)} masks', 'points the format marks as not measured are read as heights')


def linear(ck, a, b):
    """(sign of slope, D value at which a == b) for terms linear in the stored value."""
    from .c18 import at
    A = ck.alg
    q = lambda v: A.add(ck.rat(at(a, v)), ck.rat(at(b, v)), -1)
    q0, q1, q2 = q(const(0)), q(const(1)), q(const(2))
    s1, s2 = A.add(q1, q0, -1), A.add(q2, q1, -1)
    if not A.eq(s1, s2) or not s1.n:
        return None
    c = A.neg(A.mul(q0, A.inv(s1)))
    k = s1.const()
    return (1 if k is None or k > 0 else -1), c


def reverses(i):
    if i.op != 'tuple' or not i.a[0]:
        return False
    last = i.a[0][-1]
    return last.op == 'slice' and is_const(last.a[2], -1) and last.a[0] is NONE and last.a[1] is NONE and all(x.op == 'slice' and x.a == (NONE, NONE, NONE) or is_const(x, Ellipsis) for x in i.a[0][:-1])


def images(rep, r, s, sp, rd, lab, bk, ck, t, rsite, undecided):
    if not sp.layers:
        return
    rep.ob('layers', lab)
    h = r.it.h(r.st, t) if t.op == 'obj' else None
    if h is None or h.cls != 'dict' or h.open:
        return undecided('layers', ('layers',))
    for names, base in sp.layers.items():
        names = names if isinstance(names, tuple) else (names,)
        got = [n for n in h.fields if n in names]
        if not got:
            rep.violate('layers', lab, rsite, rd.qual, f'{", ".join(map(str, h.fields)) or "no layers"}', f'the image layer {names[0]!r} of the file is not read')
            continue
        if isinstance(base, tuple):
            stacked(rep, r, s, sp, rd, lab, bk, ck, names, got, base, h, rsite, undecided)
            continue
        shape(rep, s, sp, rd, lab, bk, ck, base, sp.shapes[base], 'image points')
        for n in got:
            x, flips, ops = h.fields[n], 0, []
            while True:
                tn = turned(x)
                if inner(x) is not None:
                    x = inner(x)
                elif x.op == 'phi':
                    x = alts(x)[0]
                elif x.op == 'call' and x.a[0].op == 'ext' and x.a[0].a[0] == 'numpy.flip' and x.a[1] and len(sp.shapes[base]) == 3 and (dict(x.a[2]).get('axis') or (x.a[1][1] if len(x.a[1]) > 1 else NONE)) in (const(2), const(-1)):
                    x, flips = x.a[1][0], flips + 1
                elif x.op == 'sub' and len(sp.shapes[base]) == 3 and reverses(x.a[1]):
                    x, flips = x.a[0], flips + 1
                elif tn is not None:
                    x = tn[0]
                    ops += list(reversed(tn[1]))
                elif x.op == 'sub' and len(names) > 1:
                    x = x.a[0]
                else:
                    break
            if x is base and turn(reversed(ops)) != turn('TV' if sp.rot else ''):
                rep.violate('layers', lab, rsite, rd.qual, f'{n} = {show(h.fields[n])[:100]}', 'the points of an image layer are not in the order the format stores them')
            if x is base and flips % 2 != (base in sp.flips):
                rep.violate('layers', lab, rsite, rd.qual, f'{n} = {show(h.fields[n])[:100]}', 'the colours of an image layer are in the wrong order')
            elif x is not base:
                undecided(f'{n} = {show(h.fields[n])}', ('layers',)) if doubtful(x) else rep.violate('layers', lab, rsite, rd.qual, f'{n} = {show(h.fields[n])[:100]}', 'an image layer is not the image stored in the file')


def stacked(rep, r, s, sp, rd, lab, bk, ck, names, got, bases, h, rsite, undecided):
    """Colour layers that the file stores one after the other."""
    strip = peel
    for b in bases:
        shape(rep, s, sp, rd, lab, bk, ck, b, sp.shapes[b], 'image points')
    for n in got:
        x = h.fields[n]
        for y in alts(x):
            if n != names[-1]:
                good = strip(y) in bases
            else:
                if y.op != 'call' or y.a[0].op != 'ext' or y.a[0].a[0].split('.')[-1] not in ('stack', 'dstack') or not y.a[1]:
                    undecided(f'{n} = {show(x)}', ('layers',))
                    continue
                ax = dict(y.a[2]).get('axis', y.a[1][1] if len(y.a[1]) > 1 else const(0))
                els = r.it.elements(r.st, y.a[1][0])
                good = els is not None and tuple(strip(z) for z in els) == bases and (y.a[0].a[0].endswith('dstack') or ax in (const(-1), const(2)))
                if els is None:
                    undecided(f'{n} = {show(x)}', ('layers',))
                    continue
            if not good:
                undecided(f'{n} = {show(x)}', ('layers',)) if doubtful(y) else rep.violate('layers', lab, rsite, rd.qual, f'{n} = {show(x)[:100]}', 'an image layer is not the image stored in the file')
