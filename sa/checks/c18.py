"""Writing and reading back.  Every registered writer is interpreted over a symbolic topography and an abstract file that records constant
bytes, packed fields and serialised arrays; the reader registered for the same suffix is then interpreted over exactly those bytes.  Field
positions, layouts and types have to match, and the terms that come back for heights, point spacings, sizes and layers are compared with the ones
that went in by algebraic normalisation, with the range of scaled integer formats evaluated at the smallest and largest height."""
from ..common import *
from ..algebra import Ctx, ALG
from . import formats
from .stream import Stream, CB, FLD, BLOB, SIZES, dtype_code, mcallname

D, DMIN, DMAX = (mk('param', 'heights'), mk('param', 'lowest height'), mk('param', 'highest height'))
MINS, MAXS = {'min', 'amin', 'nanmin'}, {'max', 'amax', 'nanmax'}
TRANSPARENT_M = {'astype', 'copy', 'view', 'round', 'tobytes', 'byteswap', 'newbyteorder'}
TRANSPARENT_C = {'numpy.' + n for n in ('asarray', 'array', 'ascontiguousarray', 'rint', 'round', 'around', 'copy', 'asanyarray', 'float64', 'float32', 'require', 'frombuffer')}
COUNTED = {'shape', 'size', 'ndim', 'second', 'minute', 'hour', 'day', 'month', 'year', 'itemsize', 'name_length'}


def low(t):
    if t.op == 'mcall':
        return t.a[1]
    if t.op == 'call' and t.a[0].op == 'ext':
        return t.a[0].a[0].split('.')[-1]
    return None


class Back:
    """Rewriting of height terms: storage conversions and layout disappear, extremes of the heights become symbols."""

    def __init__(self, s, base, missing):
        self.s, self.base, self.missing = s, base, missing
        self.memo = {}
        self.masks = []          # (masked array, mask, value) met on the way
        self.nanext = False
        self.layout = []

    def arr(self, t):
        """The elementwise value of an array term."""
        if t.uid in self.memo:
            return self.memo[t.uid]
        r = self.arr0(t)
        self.memo[t.uid] = r
        return r

    def sub(self, t):
        return self.arr(t) if isinstance(t, T) else t

    def isbase(self, t):
        return strip_view(t) is self.base

    def arr0(self, t):
        if self.isbase(t):
            return D
        op = t.op
        if op in ('ro', 'flat', 'shaped'):
            return self.arr(t.a[0])
        if op == 'store':
            self.masks.append((t.a[0], t.a[1], t.a[2]))
            return self.arr(t.a[0])
        if op == 'field' and t.a[1] in ('T', 'flat') and self.has(t.a[0]):
            self.layout.append(t)
            return mk('field', self.arr(t.a[0]), t.a[1])
        if op == 'mcall':
            n = t.a[1]
            if n in TRANSPARENT_M and self.has(t.a[0]):
                return self.arr(t.a[0])
            if n in ('reshape', 'ravel', 'flatten') and self.has(t.a[0]):
                return self.arr(t.a[0])
            if n in MINS | MAXS and not t.a[2] and self.has(t.a[0]):
                return self.extreme(n, t.a[0], t)
            if n == 'clip' and self.has(t.a[0]):
                self.masks.append((t.a[0], 'clip', t.a[2]))
                return self.arr(t.a[0])
        if op == 'call' and t.a[0].op == 'ext' and t.a[1]:
            n = t.a[0].a[0]
            a = t.a[1]
            if n in TRANSPARENT_C and self.has(a[0]):
                return self.arr(a[0])
            if n == 'numpy.rot90' and getattr(self, 'rot', False) and self.has(a[0]):
                self.layout.append(t)
                return self.arr(a[0])
            if n == 'numpy.clip' and self.has(a[0]):
                self.masks.append((a[0], 'clip', a[1:]))
                return self.arr(a[0])
            if n == 'numpy.where' and len(a) == 3 and self.has(a[2]) and not self.has(a[1]):
                self.masks.append((a[2], a[0], a[1]))
                return self.arr(a[2])
            if n == 'numpy.where' and len(a) == 3 and self.has(a[1]) and not self.has(a[2]):
                self.masks.append((a[1], mk('un', '~', a[0]), a[2]))
                return self.arr(a[1])
            if n == 'numpy.nan_to_num' and self.has(a[0]):
                kw = dict(t.a[2])
                v = kw.get('nan', a[2] if len(a) > 2 else const(0.0))
                self.masks.append((a[0], mk('call', mk('ext', 'numpy.isnan'), (a[0],), ()), v))
                return self.arr(a[0])
            last = n.split('.')[-1]
            if n.startswith('numpy.') and last in MINS | MAXS and len(a) == 1 and self.has(a[0]):
                return self.extreme(last, a[0], t)
            if n == 'numpy.ptp' and len(a) == 1 and self.has(a[0]):
                return mk('bin', '-', self.extreme('max', a[0], t), self.extreme('min', a[0], t))
            if n in ('float', 'builtins.float', 'numpy.float64') and len(a) == 1:
                return self.arr(a[0])
        if op in ('bin', 'un', 'call', 'mcall', 'field', 'sub', 'phi', 'cmp', 'tuple', 'bool', 'fstr', 'fmt'):
            return mk(op, *[self.deep(x) for x in t.a])
        return t

    def deep(self, x):
        if isinstance(x, T):
            return self.arr(x)
        if isinstance(x, tuple):
            return tuple(self.deep(y) for y in x)
        return x

    def has(self, t):
        return any(self.isbase(x) or x.op in ('flat',) for x in walk(t))

    def extreme(self, n, x, t):
        y = self.arr(x)
        if y is D:
            if self.missing and not n.startswith('nan'):
                self.nanext = True
            return DMIN if n in MINS else DMAX
        return mk('call', mk('ext', 'numpy.' + ('nanmin' if n in MINS else 'nanmax')), (y,), ())


def at(t, v):
    """The term with the heights replaced by v."""
    memo = {}

    def go(x):
        if isinstance(x, tuple):
            return tuple(go(y) for y in x)
        if not isinstance(x, T):
            return x
        if x is D:
            return v
        if x.uid not in memo:
            memo[x.uid] = mk(x.op, *[go(y) for y in x.a])
        return memo[x.uid]
    return go(t)


def number(q, alg):
    """The value of a constant normal form."""
    return q.const()


def cases():
    for memory in (False, True):
        for missing in (False, True):
            yield '.tmd', {}, memory, missing, {}
            yield '.tmd', dict(comment=const('C')), memory, missing, {}
            yield '.al3d', {}, memory, missing, {}
            yield '.sdf', {}, memory, missing, {}
            yield '.sdf', dict(binary=TRUE), memory, missing, {}
            for c in (FALSE, TRUE):
                for comment in (None, '', 'a comment'):
                    kw = dict(compressed=c)
                    if comment is not None:
                        kw['comment'] = const(comment)
                    yield '.sur', kw, memory, missing, {}
            yield '.sur', {}, memory, missing, {}
            yield '.sflz', {}, memory, missing, {'Grayscale': 2, 'RGB': 3}
            for comp in ('none', 'zlib', 'lzma'):
                for dt in ('<u4', '<f8', '<f4', '<u2', '<i4', '<i2', 'float64', 'uint32'):
                    for layers in ({}, {'Grayscale': 2}, {'Laser intensity (µW)': 2, 'RGB': 3}):
                        yield '.sflz', dict(compression=const(comp), dtype=const(dt)), memory, missing, layers
            yield '.sflz', dict(save_image_layers=FALSE), memory, missing, {'Grayscale': 2}
            yield '.sflz', dict(write_metadata=FALSE), memory, missing, {'Grayscale': 2}


def label(suf, kw, memory, missing, layers):
    o = ', '.join(f'{k}={v.a[0]!r}' for k, v in sorted(kw.items()))
    return f'{suf}({o})' + (' to a buffer' if memory else ' to a file') + (', missing points' if missing else '') + (f', layers {"/".join(layers)}' if layers else '')


def run(prog, rep):
    rep.rule('completes', 'writing succeeds and the bytes are accepted by the reader of the same format', 60)
    rep.rule('signature', 'the file starts with the signature that identifies its format', 60)
    rep.rule('layout', 'every field is read at the position and with the type it was written with', 60)
    rep.rule('steps', 'the point spacings that come back are the ones that were written', 60)
    rep.rule('shape', 'the heights come back in their rows and columns', 60)
    rep.rule('heights', 'the heights that come back are, apart from rounding in the stored type, the ones that were written', 60)
    rep.rule('range', 'heights stored as integers use a range that fits the stored type', 30)
    rep.rule('missing', 'exactly the missing points come back as missing', 60)
    rep.rule('layers', 'saved image layers come back under their names', 20)
    rep.rule('exact', 'no real quantity is stored in an integer field or with less than single precision', 60)
    ws, rs = dict(formats.writers(prog)), {}
    magics = {}
    for fi, d, kws in formats._registered(prog, 'register_reader'):
        for s in formats.strings(kws.get('suffix')) or ():
            rs[s] = fi
        for m in formats.strings(kws.get('magic')) or ():
            magics[m] = fi.qual
    wsuf = {}
    for fi, d, kws in formats._registered(prog, 'register_writer'):
        for s in formats.strings(kws.get('suffix')) or ():
            wsuf[s] = fi
    seen = set()
    for suf, kw, memory, missing, layers in cases():
        seen.add(suf)
        w, rd = wsuf.get(suf), rs.get(suf)
        lab = label(suf, kw, memory, missing, layers)
        if w is None or rd is None:
            rep.ob('completes', lab)
            rep.violate('completes', lab, 'surfalize/file', suf, suf, 'a documented format is not registered for reading and writing')
            continue
        trip(prog, rep, suf, w, rd, kw, memory, missing, layers, lab, magics)
    for suf, w in sorted(wsuf.items()):
        if suf not in seen and suf in rs:
            for memory in (False, True):
                for missing in (False, True):
                    lab = label(suf, {}, memory, missing, {})
                    trip(prog, rep, suf, w, rs[suf], {}, memory, missing, {}, lab, magics)


def trip(prog, rep, suf, w, rd, kw, memory, missing, layers, lab, magics):
    """Every combination of the conditions that the scenario leaves open (up to four) is a world of its own."""
    worlds = [{}]
    while worlds:
        force = worlds.pop()
        tmp = Report(rep.pid, prog)
        s = Stream(prog, missing=missing, memory=memory)
        s.force = force
        s.inreader = None
        trip1(prog, tmp, s, suf, w, rd, kw, memory, missing, layers, lab, magics)
        new = [c for c in s.asked if c not in force and not any(x.op in ('unk', 'loopvar', 'loopcond') for x in walk(c))]
        if new and len(force) < 4:
            worlds += [{**force, new[0]: True}, {**force, new[0]: False}]
            continue
        for rule, d in tmp.obs.items():
            for site, status in d.items():
                rep.ob(rule, site, status if status != 'violated' else 'ok')
        for v in tmp.violations:
            rep.violate(v['rule'], v['site'], v['where'], v['function'], v['construct'], v['message'])
        for q, n in tmp.funcs.items():
            rep.funcs[q] = rep.funcs.get(q, 0) + n


def trip1(prog, rep, s, suf, w, rd, kw, memory, missing, layers, lab, magics):
    site = loc_fi(w)
    rsite = loc_fi(rd)
    r = Run(prog, s)
    S = prog.find_class('Surface')
    o = r.obj(S)
    stf = r.prog_storage(S)
    h = r.st.heap[o.a[0]]
    base = mk('field', h.init, stf)
    shp = mk('field', base, 'shape')
    ny, nx = mk('sub', shp, const(0)), mk('sub', shp, const(1))
    s.shapes[base] = (ny, nx)
    sx, sy = mk('field', h.init, 'step_x'), mk('field', h.init, 'step_y')
    I = prog.find_class('Image')
    arrays = {}
    fields = {}
    for n, nd in layers.items():
        a = mk('param', 'layer ' + n)
        arrays[n] = a
        sh = mk('field', a, 'shape')
        s.shapes[a] = tuple(mk('sub', sh, const(i)) for i in range(nd))
        s.ndims[a] = nd
        fields[n] = r.it.new_obj(r.st, I, {'data': a}) if I is not None else a
    lst = r.it.new_dict(r.st, dict(fields))
    h = r.st.wobj(o.a[0])
    h.fields['image_layers'] = lst
    f = s.file(r.st)
    pos, kwo, va, kwn, dfl = sig(w)
    k = {n: v for n, v in kw.items() if n in pos + kwo or kwn}
    if 'encoding' in pos + kwo or kwn:
        k['encoding'] = const('utf-8')
    if set(kw) - set(k):
        rep.ob('completes', lab)
        rep.violate('completes', lab, site, w.qual, ', '.join(sorted(set(kw) - set(k))), 'a documented writing option is not accepted')
        return
    r.call(r.it.func_value(w), [f, o], k)
    rep.used(r.it)
    atoms = s.atoms(r.st, f) if r.returns else None
    if r.err is not None or (r.returns and atoms is None):
        for q in ('completes', 'layout', 'steps', 'heights'):
            rep.ob(q, lab, 'undecided')
        return
    rep.ob('completes', lab)
    if r.raised and r.returns or s.force and not r.returns:
        rep.ob('completes', lab, 'undecided')
        if not r.returns:
            return
    elif not r.returns:
        e = r.raised[0] if r.raised else None
        where = loc(e[3], e[2]) if e and e[2] is not None else site
        rep.violate('completes', lab, where, w.qual, f'raises {e[0][0] if e and isinstance(e[0], tuple) else (e[0] if e else "")}', 'a topography cannot be saved')
        return
    # what is in the file
    bk = Back(s, base, missing)
    rep.ob('signature', lab)
    lead = atoms[0].a[0] if atoms and atoms[0].op == CB else b''
    mine = [m for m, q in magics.items() if q == rd.qual]
    if mine and not any(lead.startswith(m) for m in mine):
        rep.violate('signature', lab, site, w.qual, f'{lead[:20]!r}', 'the file does not start with the signature its format is recognised by')
    rep.ob('exact', lab)
    for a in atoms:
        if a.op != FLD:
            continue
        c = a.a[0][1:]
        if c[-1] in 'bBhHiIlLqQ' and real(bk.arr(a.a[1]), s):
            rep.violate('exact', lab, site, w.qual, f'{show(a.a[1])[:70]} as {c!r}', 'a real quantity is stored in an integer field')
        if c[-1] == 'e' and real(bk.arr(a.a[1]), s):
            rep.violate('exact', lab, site, w.qual, f'{show(a.a[1])[:70]} as {c!r}', 'a real quantity is stored with less than single precision')
        if c[-1] in 'bB' and any(x in (nx, ny) for x in walk(a.a[1])):
            rep.violate('exact', lab, site, w.qual, f'{show(a.a[1])[:70]} as {c!r}', 'the number of points does not fit the field')
        for x in walk(a.a[1]):
            if x.op == 'fmt' and rounds(x) and any(y in (sx, sy) or y is base for y in walk(x)):
                rep.violate('exact', lab, site, w.qual, show(x)[:90], 'a real quantity is written with a fixed number of digits')
    g = s.file(r.st, atoms, 'read')
    pos, kwo, va, kwn, dfl = sig(rd)
    k = {}
    if 'encoding' in pos + kwo or kwn:
        k['encoding'] = const('utf-8')
    if 'read_image_layers' in pos + kwo or kwn:
        k['read_image_layers'] = const(bool(layers))
    n0 = len(r.raised)
    p0 = len(s.problems)
    nw = len(s.asked)
    r.call(r.it.func_value(rd), [g], k)
    rep.used(r.it)
    if r.err is not None:
        for q in ('layout', 'steps', 'heights', 'shape'):
            rep.ob(q, lab, 'undecided')
        return
    rep.ob('layout', lab)
    for what, where, fn in s.problems:
        rep.violate('layout', lab, where if where != '?' else rsite, fn if fn != '?' else rd.qual, what, 'what is read does not match what was written')
    for e in r.raised[n0:]:
        if not s.problems and (r.returns or s.force):
            rep.ob('completes', lab, 'undecided')
        elif not s.problems:
            rep.violate('completes', lab, loc(e[3], e[2]) if e[2] is not None else rsite, rd.qual, f'raises {e[0][0] if isinstance(e[0], tuple) else e[0]}', 'the reader rejects what the writer wrote')
    raws = formats.raw_of(r)
    if not raws:
        if not s.problems and not r.raised[n0:]:
            rep.ob('steps', lab, 'undecided')
        return
    if s.problems:
        return
    for v in raws:
        hh = r.it.h(r.st, v)
        geta = lambda n: hh.fields.get(n, NONE)
        ck = Ctx(r.it, r.st, {})
        for n, want in (('step_x', sx), ('step_y', sy)):
            t = bk.arr(geta(n))
            rep.ob('steps', lab)
            if not ck.alg.eq(ck.rat(t), ck.rat(want)):
                if vague(t):
                    rep.ob('steps', lab, 'undecided')
                else:
                    rep.violate('steps', lab, rsite, rd.qual, f'{n} = {show(t)[:100]}', 'the point spacing that is read back is not the one that was written')
        heights(prog, rep, lab, s, r, bk, base, geta('data'), ck, rd, rsite, w, site, atoms, missing, (ny, nx))
        images(rep, lab, s, r, geta('image_layers'), arrays, kw, rd, rsite, w, site)


def loc_fi(fi):
    return f'{fi.module.rel}:{fi.node.lineno}'


def rounds(x):
    spec = x.a[-1] if isinstance(x.a[-1], str) else None
    for y in x.a:
        if isinstance(y, str) and y not in ('r', 's'):
            spec = y
        if isinstance(y, T) and y.op == 'const' and isinstance(y.a[0], str):
            spec = y.a[0]
    if not spec:
        return False
    import re
    m = re.search(r'\.(\d+)([feg]?)', spec)
    return bool(m) and int(m.group(1)) < 15


def vague(t):
    return any(x.op in ('unk', 'fmt', 'fstr', 'loopvar', 'phi', 'padstr', 'padded') or x.op == 'call' and x.a[0].op == 'ext' and x.a[0].a[0] in ('float', 'int', 'numpy.frombuffer') for x in walk(t))


def real(t, s):
    """Whether a value is a real (not a whole) number: it is made of steps or heights, outside of counts."""
    if t.op == 'field' and t.a[1] in COUNTED or t.op == 'sub' and t.a[0].op == 'field' and t.a[0].a[1] == 'shape':
        return False
    if t in (D, DMIN, DMAX) or t.op == 'field' and t.a[1] in ('step_x', 'step_y', 'width_um', 'height_um'):
        return True
    if t.op == 'call' and t.a[0].op == 'ext' and t.a[0].a[0] in ('len', 'int', 'bool', 'numpy.any', 'numpy.isnan'):
        return False
    if t.op == 'cmp':
        return False
    if t.op in ('bin', 'un', 'phi'):
        return any(real(x, s) for x in children(t))
    return False


def storedas(s, x):
    """(type code, array) of serialised array data."""
    return s.dtype_of(x)


def heights(prog, rep, lab, s, r, bk, base, data, ck, rd, rsite, w, site, atoms, missing, shape):
    A = ck.alg
    mine = [x for x in s.dtypes if any(bk.isbase(y) for y in walk(x[0]))]
    bk.masks.clear()
    bk.memo.clear()
    t = bk.arr(data)
    masks = list(bk.masks)
    # rows and columns
    rep.ob('shape', lab)
    resh = [x for x in s.reshapes if any(bk.isbase(y) for y in walk(x[0]))]
    if not resh:
        rep.violate('shape', lab, rsite, rd.qual, show(data)[:80], 'the heights that are read are not arranged in rows and columns')
    for b, args, kws, where, fn, st in resh:
        good = len(args) == 2
        if good:
            for i, (a, want) in enumerate(zip(args, shape)):
                if is_const(a, -1):
                    good = good and not is_const(args[1 - i], -1)
                elif not A.eq(ck.rat(a), ck.rat(want)):
                    good = False
        if dict(kws).get('order') is not None and not is_const(dict(kws)['order'], 'C'):
            good = False
        if not good:
            if any(vague(a) for a in args):
                rep.ob('shape', lab, 'undecided')
            else:
                rep.violate('shape', lab, where, fn, 'reshape(' + ', '.join(show(a) for a in args)[:80] + ''.join(f', {k}={show(v)}' for k, v in kws) + ')', 'the heights do not come back in the rows and columns they had')
    for a in atoms:
        if a.op == BLOB:
            for x in walk(a.a[0]):
                if mcallname(x) == 'tobytes' and any(bk.isbase(y) for y in walk(x)):
                    kws = dict(x.a[3])
                    if x.a[2] and not is_const(x.a[2][0], 'C') or 'order' in kws and not is_const(kws['order'], 'C'):
                        rep.violate('shape', lab, site, w.qual, show(x)[-60:], 'the heights are written column by column')
    # values
    rep.ob('heights', lab)
    if not A.eq(ck.rat(t), ck.rat(D)):
        if vague(t):
            rep.ob('heights', lab, 'undecided')
        else:
            rep.violate('heights', lab, rsite, rd.qual, show(t)[:160], 'the heights that are read back are not the ones that were written')
    if bk.nanext:
        rep.violate('heights', lab, site, w.qual, show(t)[:120], 'the scale of the stored heights comes from an extreme that is undefined if there are missing points')
    # stored type, range, missing points
    rep.ob('missing', lab)
    if not mine:
        rep.ob('missing', lab, 'undecided')
        return
    for x, have, want in mine[-1:]:
        code = have if isinstance(have, str) else None
        if code is None:
            rep.ob('range', lab, 'undecided')
            continue
        integer = code[1] in 'iu'
        bk.masks.clear()
        bk.memo.clear()
        enc = bk.arr(x)
        wmasks = [m for m in bk.masks]
        if not integer:
            rep.ob('exact', lab)
            if SIZES[code[1:]] < 4:
                rep.violate('exact', lab, site, w.qual, f'heights as {code}', 'heights are stored with less than single precision')
        lo = hi = None
        if integer:
            rep.ob('range', lab)
            bits = 8 * SIZES[code[1:]]
            tmin, tmax = (0, 2 ** bits - 1) if code[1] == 'u' else (-2 ** (bits - 1), 2 ** (bits - 1) - 1)
            lo, hi = number(ck.rat(at(enc, DMIN)), A), number(ck.rat(at(enc, DMAX)), A)
            if lo is None or hi is None:
                if vague(enc):
                    rep.ob('range', lab, 'undecided')
                else:
                    rep.violate('range', lab, site, w.qual, show(enc)[:120], f'heights are rounded to {code} without being scaled to its range')
                continue
            if not (tmin <= min(lo, hi) and max(lo, hi) <= tmax):
                rep.violate('range', lab, site, w.qual, f'{float(lo):.0f} … {float(hi):.0f} as {code}', 'the stored range does not fit the stored type')
            elif abs(hi - lo) < (tmax - tmin) / 4 or bits < 16:
                rep.violate('range', lab, site, w.qual, f'{float(lo):.0f} … {float(hi):.0f} as {code}', 'only a small part of the range of the stored type is used')
        codes_ = []
        for arr, m, v in wmasks:
            if m == 'clip':
                for q in v:
                    c = number(ck.rat(q), A) if isinstance(q, T) else None
                    if c is None or lo is not None and min(lo, hi) < c < max(lo, hi):
                        rep.violate('range', lab, site, w.qual, show(q)[:60], 'heights inside the range are cut off')
                continue
            mm = nanmask(m, bk)
            if mm == 'nan':
                if not isnanconst(v):
                    codes_.append(v)
            elif missing or mm is None:
                rep.violate('missing', lab, site, w.qual, f'{show(m)[:80]} = {show(v)[:40]}', 'points that are not missing are overwritten on writing')
        if not missing:
            codes_ = []
        if missing and integer and not codes_:
            rep.violate('missing', lab, site, w.qual, f'heights as {code}', 'missing points are converted to an integer type without a code of their own')
        nums = []
        for v in codes_:
            c = number(ck.rat(v), A)
            nums.append(c)
            if c is None:
                rep.ob('missing', lab, 'undecided')
            elif lo is not None and min(lo, hi) <= c <= max(lo, hi):
                rep.violate('missing', lab, site, w.qual, f'code {float(c):.0f} in {float(lo):.0f} … {float(hi):.0f}', 'the code of missing points is also the code of a height')
            elif integer and not tmin <= c <= tmax:
                rep.violate('missing', lab, site, w.qual, f'code {float(c):.0f} as {code}', 'the code of missing points does not fit the stored type')
        found = set()
        for arr, m, v in masks:
            if m == 'clip' or not any(y.op == 'flat' and any(bk.isbase(z) for z in walk(y)) for y in walk(arr)):
                continue
            if not isnanconst(v):
                if nanmask(m, bk) is None:
                    rep.violate('missing', lab, rsite, rd.qual, f'{show(m)[:80]} = {show(v)[:40]}', 'heights are overwritten on reading')
                continue
            m = unwrap(m)
            if nanmask(m, bk) == 'nan':
                continue
            if m.op == 'un' and m.a[0] in ('~', 'invert', 'not') and unwrap(m.a[1]).op == 'cmp' and unwrap(m.a[1]).a[0] == '==' or m.op == 'cmp' and m.a[0] == '!=':
                rep.violate('missing', lab, rsite, rd.qual, show(m)[:100], 'heights are read as missing points')
                continue
            if m.op == 'cmp' and m.a[0] in ('<', '<=') and bk.has(m.a[1]) and integer and number(ck.rat(m.a[2]), A) is not None:
                c = number(ck.rat(m.a[2]), A)
                if lo is not None and (c >= min(lo, hi) if m.a[0] == '<=' else c > min(lo, hi)):
                    rep.violate('missing', lab, rsite, rd.qual, show(m)[:100], 'a height is read as a missing point')
                found.update(x for x in nums if x is not None and (x <= c if m.a[0] == '<=' else x < c))
                continue
            if m.op == 'cmp' and m.a[0] == '==':
                a, b = m.a[1], m.a[2]
                if not bk.has(a):
                    a, b = b, a
                if isnanconst(b):
                    continue
                bk.masks.clear()
                c = number(ck.rat(b), A)
                ra = bk.arr(a)
                if c is None:
                    rep.ob('missing', lab, 'undecided')
                    continue
                if ra is not enc and not A.eq(ck.rat(ra), ck.rat(enc)):
                    rep.violate('missing', lab, rsite, rd.qual, show(m)[:100], 'the code of missing points is looked for among scaled heights')
                    continue
                found.add(c)
                if lo is not None and min(lo, hi) <= c <= max(lo, hi):
                    rep.violate('missing', lab, rsite, rd.qual, f'code {float(c):.0f} in {float(lo):.0f} … {float(hi):.0f}', 'a height is read as a missing point')
                elif not integer and c not in nums:
                    rep.violate('missing', lab, rsite, rd.qual, show(m)[:100], 'a height is read as a missing point')
            else:
                rep.ob('missing', lab, 'undecided')
        for c in nums:
            if c is not None and c not in found:
                rep.violate('missing', lab, rsite, rd.qual, f'code {float(c):.0f}; looked for: {", ".join(f"{float(x):.0f}" for x in sorted(found)) or "none"}', 'missing points come back as heights')


def unwrap(m):
    while m.op in ('ro', 'shaped') or m.op == 'mcall' and m.a[1] in ('reshape', 'ravel', 'copy', 'astype'):
        m = m.a[0]
    return m


def isnanconst(v):
    if v.op == 'const' and isinstance(v.a[0], float) and v.a[0] != v.a[0]:
        return True
    if v.op == 'ext' and v.a[0] in ('numpy.nan', 'math.nan', 'numpy.NaN'):
        return True
    return False


def nanmask(m, bk):
    if not isinstance(m, T):
        return None
    m = unwrap(m)
    if m.op == 'call' and m.a[0].op == 'ext' and m.a[0].a[0] in ('numpy.isnan', 'pandas.isnull') and m.a[1] and bk.has(m.a[1][0]):
        return 'nan'
    if m.op == 'un' and m.a[0] in ('~', 'invert', 'not'):
        x = unwrap(m.a[1])
        if x.op == 'call' and x.a[0].op == 'ext' and x.a[0].a[0] == 'numpy.isfinite':
            return 'nan'
    if m.op == 'cmp' and m.a[0] == '!=' and m.a[1] is m.a[2]:
        return 'nan'
    return None


def images(rep, lab, s, r, t, arrays, kw, rd, rsite, w, site):
    if not arrays:
        return
    saved = not is_const(kw.get('save_image_layers', TRUE), False)
    rep.ob('layers', lab)
    got = {}
    h = r.it.h(r.st, t) if t.op == 'obj' else None
    if h is None or h.cls != 'dict' or h.open:
        rep.ob('layers', lab, 'undecided')
        return
    for k, v in h.fields.items():
        x = v
        while x.op in ('shaped', 'flat', 'ro') or x.op == 'mcall' and x.a[1] in ('copy', 'view'):
            x = x.a[0]
        got[k] = (x, v)
    want = arrays if saved else {}
    for n, a in want.items():
        if n not in got:
            rep.violate('layers', lab, rsite, rd.qual, f'{n}: not among {", ".join(map(str, got)) or "none"}', 'a saved image layer does not come back')
        elif got[n][0] is not a:
            if vague(got[n][0]):
                rep.ob('layers', lab, 'undecided')
            else:
                rep.violate('layers', lab, rsite, rd.qual, f'{n} = {show(got[n][1])[:80]}', 'a saved image layer comes back changed')
    for n in got:
        if n not in want:
            rep.violate('layers', lab, rsite, rd.qual, str(n), 'a layer comes back that was not saved')
    for b, args, kws, where, fn, st in s.reshapes:
        for n, a in arrays.items():
            if not any(y is a for y in walk(b)):
                continue
            sh = s.shapes[a]
            ck = Ctx(r.it, r.st, {})
            norm = lambda q: sh[q.a[1].a[0]] if q.op == 'sub' and is_const(q.a[1]) and q.a[0] is mk('field', a, 'shape') and isinstance(q.a[1].a[0], int) and -len(sh) <= q.a[1].a[0] < len(sh) else q
            if len(args) != len(sh) or any(norm(x) is not y and not is_const(x, -1) for x, y in zip(args, sh)):
                if any(vague(x) for x in args):
                    rep.ob('layers', lab, 'undecided')
                else:
                    rep.violate('layers', lab, where, fn, f'{n}: reshape(' + ', '.join(show(x) for x in args)[:80] + ')', 'a saved image layer comes back in another shape')
