"""Filename templates: the interpretation of templates is followed from the public entry points for a set of templates; the regular expression
that is handed to the extraction, the columns it fills and their conversions are compared with what the template denotes."""
import re
import re._parser as sre
from ..common import *
from .batch import World

# a template as a list of literal texts and tokens (name, type, prefix, suffix, spelling)
def tok(name, typ, *fix):
    return (name, typ, (fix + ('', ''))[0], (fix + ('', ''))[1], '|'.join((name, typ) + fix))


TEMPLATES = [
    [tok('power', 'float', 'P'), '_', tok('pulses', 'int', 'N'), '_', tok('fluence', 'float', 'F'), '_', tok('frequency', 'float', 'FREP', 'kHz')],
    [tok('fluence', 'float', 'F'), '_', tok('overscans', 'int', 'OS'), '.vk6'],
    [tok('sample', 'int', 'S'), '_surface'],
    [tok('width', 'float', '', 'um')],
    ['run ', tok('number', 'int'), ' of '],
    ['S(1)+', tok('a', 'int'), '.', tok('b', 'float', '', 'um'), '*x'],
    ['[', tok('a', 'float', 'F.', '$'), ']^', tok('b', 'int', '(', ')')],
    [tok('name', 'str'), '-', tok('n', 'int')],
    [tok('power', 'float', 'P ', ' W'), '  ', tok('state', 'str', 'is ', ' ')],
    [tok('material', 'str', 'M'), '_', tok('name', 'str', '', '.sur')],
    [tok('a', 'int'), tok('b', 'str', '_'), '+?', tok('c', 'float', '#', '{2}')],
    [tok('b', 'float'), '\\', tok('a', 'float', 'd|'[:1])],
]
BAD = [('unclosed expression', '<a|int>_<b|int'), ('expression opened twice', '<a|int_<b|int>'), ('no type', '<a>_<b|int>'), ('unknown type', '<a|int>_<b|double>')]
TYPES = {'float': r'\d+(?:(?:\.|,)\d+)?', 'int': r'\d+', 'str': r'.+'}
SAMPLES = {'float': ('1', '21', '1.21', '1,21', '03'), 'int': ('1', '21', '007'), 'str': ('abc', 'a_b-c', '12', 'a.b c')}


def text(spec):
    return ''.join(p if isinstance(p, str) else f'<{p[4]}>' for p in spec)


def tokens(spec):
    return [p for p in spec if not isinstance(p, str)]


def regex(spec):
    return ''.join(re.escape(p) if isinstance(p, str) else f'{re.escape(p[2])}(?P<{p[0]}>{TYPES[p[1]]}){re.escape(p[3])}' for p in spec)


def names(spec):
    """File names, those the template describes and others that differ in one place."""
    out = []
    for k in range(5):
        s = ''.join(p if isinstance(p, str) else p[2] + SAMPLES[p[1]][k % len(SAMPLES[p[1]])] + p[3] for p in spec)
        out += [s, s + '.vk4', 'pre_' + s + '_post.sur', s + s]
        for i in range(len(s)):
            out += [s[:i] + 'x' + s[i + 1:], s[:i] + s[i + 1:], s[:i] + s[i] * 2 + s[i + 1:], s[:i] + '9' + s[i + 1:], s[:i] + '.' + s[i + 1:]]
    return out


def values(rx, s):
    m = rx.search(s)
    return m and m.groupdict()


def invalid(rx):
    try:
        sre.parse(rx)
    except re.error as e:
        return str(e)


def differ(got, spec):
    """None: the same language; a file name and both results; False: cannot be told."""
    a = sre.parse(got)
    if str(a) == str(sre.parse(regex(spec))) and a.state.groupdict == sre.parse(regex(spec)).state.groupdict:
        return None
    ra, rb = re.compile(got), re.compile(regex(spec))
    for s in names(spec):
        x, y = values(ra, s), values(rb, s)
        if x != y:
            return s, x, y
    return False


class Frame:
    def __init__(self, cols, vals, given=False):
        self.cols, self.vals, self.given, self.touched = list(cols), dict(vals), given, False

    def copy(self):
        return Frame(self.cols, self.vals)


class Tables(World):
    """Tables are modelled by the sequence of their columns and the value of each."""
    unroll = 300

    def __init__(self, prog, *a, **k):
        self.tabs, self.rx, self.lost, self.saved, self.merged = [], [], [], [], []
        super().__init__(prog, *a, **k)

    def table(self, f):
        self.tabs.append(f)
        return mk('frame', len(self.tabs) - 1, id(self))

    def tab(self, t):
        return self.tabs[t.a[0]] if t.op == 'frame' and t.a[1] == id(self) else None

    def truth(self, t, st):
        if t.op == 'cmp' and t.a[0] in ('is', 'is not') and any(x.op == 'frame' for x in t.a[1:]) and NONE in t.a[1:]:
            return t.a[0] == 'is not'
        if t.op == 'call' and t.a[0].op == 'ext' and t.a[0].a[0] == 'isinstance' and t.a[1] and t.a[1][0].op == 'frame':
            return t.a[1][1].op == 'ext' and t.a[1][1].a[0] == 'pandas.DataFrame'
        if t.op == 'cmp' and t.a[0] in ('is', 'is not', '==', '!=') and t.a[2] is NONE and t.a[1].op == 'phi' and any(x.op == 'call' and x.a[0].op == 'ext' and x.a[0].a[0].startswith('pandas.') for x in alts(t.a[1])):
            return t.a[0] in ('is not', '!=')
        return super().truth(t, st)

    def getattr(self, b, n, st):
        f = self.tab(b)
        if f is None:
            return None
        if n == 'columns':
            return mk('tuple', tuple(const(c) for c in f.cols))
        return None

    def getitem(self, b, i, st):
        f = self.tab(b)
        if f is not None and is_const(i) and isinstance(i.a[0], str):
            return f.vals.get(i.a[0]) or mk('cell', b, i)
        if f is not None:
            el = self.it.elements(st, i)
            if el is not None and all(is_const(x) and x.a[0] in f.vals for x in el):
                ns = [x.a[0] for x in el]
                return self.table(Frame(ns, {n: f.vals[n] for n in ns}))
        return None

    def on_event(self, d):
        if d['kind'] == 'mutate' and d['base'].op == 'frame':
            f = self.tab(d['base'])
            i = d['idx']
            el = self.it.elements(d['st'], i)
            if is_const(i) and isinstance(i.a[0], str):
                self.set(f, i.a[0], d['value'])
            elif el is not None and all(is_const(x) for x in el) and self.tab(d['value']) is not None and len(el) == len(self.tab(d['value']).cols):
                v = self.tab(d['value'])
                for x, n in zip(el, v.cols):
                    self.set(f, x.a[0], v.vals[n])
            else:
                self.lost.append('columns set in an unknown way')
            f.touched = True
        super().on_event(d)

    def set(self, f, n, v):
        if n not in f.cols:
            f.cols.append(n)
        f.vals[n] = v

    def call(self, f, args, kwargs, st, node, ctx, it):
        r = self.model(f, args, kwargs, st, it)
        return r if r is not None else super().call(f, args, kwargs, st, node, ctx, it)

    def model(self, f, args, kwargs, st, it):
        if f.op == 'ext' and f.a[0] in ('re.escape',) and args and is_const(args[0]):
            return const(re.escape(args[0].a[0]))
        if f.op == 'ext' and f.a[0] == 're.compile' and args and is_const(args[0]) and len(args) == 1 and not kwargs:
            return args[0]
        if f.op == 'ext' and f.a[0].split('.')[0] == 'pandas' and f.a[0].split('.')[-1] in ('DataFrame', 'from_records', 'from_dict') and not any(a.op == 'frame' for a in args):
            self.frames.append((args, kwargs, st))
            return self.table(Frame(['file', 'Sa'], {n: mk('column', n) for n in ('file', 'Sa')}))
        if f.op == 'ext' and f.a[0] == 'pandas.merge' and len(args) == 2 and args[1].op == 'frame':
            t = self.tab(args[1])
            return self.table(Frame(['file', 'extra'] + t.cols[1:], dict(t.vals, extra=mk('column', 'extra'))))
        if f.op != 'meth':
            for a in list(args) + list(kwargs.values()):
                if isinstance(a, T) and a.op == 'frame' and f.op == 'ext' and f.a[0] not in ('isinstance', 'len', 'print'):
                    self.lost.append(f'a table is passed to {f.a[0]}')
            return None
        b, n = f.a
        if n == 'get_loc' and b.op == 'tuple' and args and args[0] in b.a[0]:
            return const(b.a[0].index(args[0]))
        if n == 'index' and b.op == 'tuple' and args and args[0] in b.a[0]:
            return const(b.a[0].index(args[0]))
        if n in ('tolist', 'to_list') and b.op == 'tuple' and not args:
            return it.new_list(st, list(b.a[0]))
        if n == 'extract' and b.op == 'field' and b.a[1] == 'str':
            pat = args[0] if args else kwargs.get('pat', NONE)
            rest = args[1:] + [v for k, v in kwargs.items() if k == 'flags']
            if any(not is_const(x, 0) for x in rest) or kwargs.get('expand', TRUE) is not TRUE:
                self.lost.append('extraction with flags')
            if not is_const(pat) or not isinstance(pat.a[0], str):
                self.lost.append('the regular expression does not follow from the template')
                return None
            self.rx.append((b.a[0], pat.a[0]))
            try:
                gs = list(re.compile(pat.a[0]).groupindex)
                named = re.compile(pat.a[0]).groups == len(gs)
            except re.error:
                return None
            if not named:
                self.lost.append('groups without a name')
            return self.table(Frame(gs, {g: mk('group', len(self.rx) - 1, g) for g in gs}))
        t = self.tab(b)
        if t is None:
            return None
        if n == 'copy':
            return self.table(t.copy())
        if n == 'insert' and len(args) >= 3 and is_const(args[0]) and is_const(args[1]) and isinstance(args[0].a[0], int):
            if args[1].a[0] in t.cols:
                self.lost.append('a column is inserted twice')
            t.cols.insert(args[0].a[0], args[1].a[0])
            t.vals[args[1].a[0]] = args[2]
            t.touched = True
            return NONE
        if n in ('assign', 'join') and not (n == 'join' and (kwargs or len(args) != 1)):
            r = t.copy()
            o = self.tab(kwargs['**'] if n == 'assign' and '**' in kwargs else args[0] if n == 'join' and args else b)
            if n == 'assign' and args or o is None:
                self.lost.append(n)
                return None
            if o is not t:
                if n == 'join' and any(c in t.cols for c in o.cols):
                    self.lost.append('a column is joined twice')
                for c in o.cols:
                    self.set(r, c, o.vals[c])
            for k, v in kwargs.items():
                if k != '**':
                    self.set(r, k, v)
            return self.table(r)
        if n == 'astype' and args:
            h = it.h(st, args[0])
            r = t.copy()
            if h is not None and h.cls == 'dict' and not h.open:
                for k, v in h.fields.items():
                    r.vals[k] = mk('mcall', r.vals.get(k, NONE), 'astype', (v,), ())
                return self.table(r)
        if n == 'to_excel':
            self.saved.append((b, list(t.cols), dict(t.vals)))
            return NONE
        if n in ('head', 'describe', 'info', '__len__'):
            return None
        self.lost.append(n)
        return None


def conversion(t):
    """(group, [operations]) of a column value; None when it is made in an unknown way."""
    ops = []
    while True:
        if t.op == 'group':
            return t, ops[::-1]
        if t.op in ('mcall', 'call'):
            if t.op == 'call':
                if t.a[0].op == 'ext' and t.a[0].a[0] == 'pandas.to_numeric' and len(t.a[1]) == 1 and not t.a[2]:
                    ops.append(('to_numeric',))
                    t = t.a[1][0]
                    continue
                if t.a[0].op != 'meth':
                    return None
                b, n, a, k = t.a[0].a[0], t.a[0].a[1], t.a[1], dict(t.a[2])
            else:
                b, n, a, k = t.a[0], t.a[1], t.a[2], dict(t.a[3])
            if n == 'astype' and len(a) == 1 and not k:
                d = a[0]
                d = d.a[0] if d.op in ('const', 'ext') else None
                d = {'numpy.float64': 'float', 'float64': 'float', 'builtins.float': 'float', 'int64': 'int', 'numpy.int64': 'int'}.get(d, d)
                if d not in ('float', 'int', 'str'):
                    return None
                ops.append(('astype', d))
                t = b
                continue
            if n == 'replace' and b.op == 'field' and b.a[1] == 'str' and len(a) == 2 and all(is_const(x) for x in a):
                ops.append(('replace', a[0].a[0], a[1].a[0]))
                t = b.a[0]
                continue
        return None


WANT = {'float': [('replace', ',', '.'), ('astype', 'float')], 'int': [('astype', 'int')], 'str': [('astype', 'str')]}


def run(prog, rep):
    rep.rule('regex', 'a template matches exactly the file names it describes', 15)
    rep.rule('values', 'each parameter is taken from its own place and converted to its own type', 15)
    rep.rule('columns', 'the parameters become columns after the file name, in the order of the template; other columns stay', 15)
    rep.rule('rejected', 'malformed templates are rejected with a ParsingError', 8)
    rep.rule('applied', 'a template registered with a batch or applied to a result is applied to exactly that result', 4)
    for k, spec in enumerate(TEMPLATES):
        for entry in ('batch', 'result'):
            if k >= 2 and entry == 'batch' and k != 5:
                continue
            template(prog, rep, spec, entry)
    for label, t in BAD:
        for entry in ('batch', 'result'):
            rejected(prog, rep, label, t, entry)
    applied(prog, rep)


def world(prog, entry, t, extra=False):
    """The world after the template was applied through an entry, the table of the result, and the exceptions that left."""
    w = Tables(prog, files=('a.sur', 'b.sur'), additional=mk('param', 'excel') if extra else NONE)
    w.do('Sa')
    errs = []
    if entry == 'batch':
        r, e = w.do('extract_from_filename', const(t))
        errs += e
        w.chained = r is w.b
    res, e = w.execute(multiprocessing=FALSE, **({'saveto': mk('param', 'saveto')} if entry == 'batch' else {}))
    errs += e
    w.before = None
    if res is not None and res.op == 'obj' and entry == 'result':
        w.before = w.r.method(res, 'get_dataframe', [], {})
        n = len(w.it.sinks[0])
        w.r.method(res, 'extract_from_filename', [const(t)], {})
        errs += [(w.it.exc_name(x), node, ctx) for x, s, node, ctx in w.it.sinks[0][n:]]
    out = w.r.method(res, 'get_dataframe', [], {}) if res is not None and res.op == 'obj' and not w.st.dead else None
    return w, out, errs


def template(prog, rep, spec, entry):
    t = text(spec)
    w, out, errs = world(prog, entry, t)
    rep.used(w.it)
    site = f'{entry}: {t}'
    c, e = prog.find_class('BatchResult').lookup('extract_from_filename')
    line, fn = f'{e["fi"].module.rel}:{e["fi"].node.lineno}', e['fi'].qual
    for rule in ('regex', 'values', 'columns'):
        rep.ob(rule, site)

    def und(rule, why):
        rep.ob(rule, site, 'undecided')
        rep.notes.append(f'{site}: {rule}: {why}')
    bad = next((x for x in w.rx if invalid(x[1])), None)
    if bad is not None:
        rep.violate('regex', site, line, fn, bad[1], f'the template {t!r} becomes no regular expression: {invalid(bad[1])}')
        return
    if w.r.err is not None or w.lost:
        for rule in ('regex', 'values', 'columns'):
            und(rule, str(w.r.err or w.lost)[-200:])
        return
    if errs and out is None:
        n, node, ctx = errs[0]
        rep.violate('regex', site, loc(ctx, node), fname(ctx), t, f'a well-formed template is rejected: {n}')
        return
    if len(w.rx) != 1 or out is None or w.tab(out) is None:
        if out is not None and w.tab(out) is not None and not w.rx:
            rep.violate('columns', site, line, fn, t, 'the template has no effect on the result')
            return
        for rule in ('regex', 'values', 'columns'):
            und(rule, f'extraction in another form: {out}')
        return
    col, rx = w.rx[0]
    d = differ(rx, spec)
    if d is False:
        und('regex', rx)
    elif d is not None:
        rep.violate('regex', site, line, fn, rx, f'on {d[0]!r} the template {t!r} gives {d[1]} instead of {d[2]}')
    if col is not mk('column', 'file'):
        rep.violate('regex', site, line, fn, show(col), 'the template is not applied to the names of the files')
    f = w.tab(out)
    want = ['file'] + [x[0] for x in tokens(spec)] + ['Sa']
    if f.cols != want:
        rep.violate('columns', site, line, fn, str(f.cols), f'the columns of the result are {f.cols} instead of {want}')
        return
    for n in ('file', 'Sa'):
        if f.vals.get(n) is not mk('column', n):
            rep.violate('columns', site, line, fn, n, 'a column of the result is changed by the extraction')
    for x in tokens(spec):
        v = f.vals[x[0]]
        c = conversion(v)
        if c is None:
            if v.op in ('column', 'const') :
                rep.violate('values', site, line, fn, show(v), f'{x[0]} is not taken from the name of the file')
            else:
                und('values', f'{x[0]}: {show(v)}')
            continue
        g, ops = c
        if len(ops) > 1 and ops[-2] == ('to_numeric',):
            ops = ops[:-2] + ops[-1:]
        if x[1] == 'int' and ops == [('to_numeric',)]:
            continue
        if g.a[1] != x[0]:
            rep.violate('values', site, line, fn, show(v), f'{x[0]} is the value of {g.a[1]}')
        elif ops != WANT[x[1]] and not (x[1] == 'str' and ops == []):
            if x[1] == 'int' and ops in ([('astype', 'float'), ('astype', 'int')],):
                continue
            rep.violate('values', site, line, fn, show(v), f'{x[0]} of type {x[1]} is converted by {ops}')
    if entry == 'batch':
        if w.saved and (w.saved[-1][1] != want or w.saved[-1][2] != f.vals):
            rep.violate('columns', site, line, fn, 'to_excel', 'the table written to disk is not the returned table')


def rejected(prog, rep, label, t, entry):
    w, out, errs = world(prog, entry, t)
    rep.used(w.it)
    site = f'{entry}: {label}'
    c, e = prog.find_class('FilenameParser').lookup('parse_template') if prog.find_class('FilenameParser') else (None, None)
    B = prog.find_class('BatchResult')
    if w.r.err is not None:
        rep.ob('rejected', site, 'undecided')
        return
    rep.ob('rejected', site)
    errs = [(n[0] if isinstance(n, tuple) else n, a, b) for n, a, b in errs]
    ns = {n for n, a, b in errs}
    if out is not None and w.tab(out) is not None and not w.st.dead:
        rep.violate('rejected', site, f'{B.module.rel}:{B.node.lineno}', B.qual, t, f'the template {t!r} is accepted')
    elif ns and not all(n == 'ParsingError' for n in ns):
        bad = next(x for x in errs if x[0] != 'ParsingError')
        rep.violate('rejected', site, loc(bad[2], bad[1]), fname(bad[2]), t, f'the template {t!r} ends in {bad[0]} instead of ParsingError')
    elif not ns:
        rep.ob('rejected', site, 'undecided')


def applied(prog, rep):
    B = prog.find_class('Batch')
    c, e = B.lookup('extract_from_filename')
    line, fn = f'{e["fi"].module.rel}:{e["fi"].node.lineno}', e['fi'].qual
    t = text(TEMPLATES[2])
    # registering returns the batch, and a batch without a template extracts nothing
    w, out, errs = world(prog, 'batch', t)
    rep.ob('applied', 'registering', 'ok' if w.r.err is None else 'undecided')
    if w.r.err is None and not w.chained:
        rep.violate('applied', 'registering', line, fn, 'return', 'registering a template does not return the batch')
    # additional data: the template is applied to the merged table
    w, out, errs = world(prog, 'batch', t, extra=True)
    rep.used(w.it)
    f = w.tab(out) if out is not None else None
    if w.r.err is not None or w.lost or f is None:
        rep.ob('applied', 'additional data', 'undecided')
        rep.notes.append(f'applied: additional data: {w.r.err or w.lost or out}'[:300])
    else:
        rep.ob('applied', 'additional data')
        if set(f.cols) != {'file', 'extra', 'Sa', 'sample'}:
            rep.violate('applied', 'additional data', line, fn, str(f.cols), f'the result has the columns {f.cols}')
    # the table handed out before is not changed; a second template adds to the first
    w, out, errs = world(prog, 'result', t)
    rep.ob('applied', 'no template', 'ok' if w.r.err is None and w.before is not None else 'undecided')
    b = w.tab(w.before) if w.before is not None else None
    if b is not None and not w.lost and b.cols != ['file', 'Sa'] and w.before is not out:
        rep.violate('applied', 'no template', line, fn, str(b.cols), 'the table of a result is changed without a template')
    w = Tables(prog, files=('a.sur',))
    w.do('Sa')
    w.do('extract_from_filename', const('<a|int|A>'))
    w.do('extract_from_filename', const('<b|int|B>'))
    res, e = w.execute(multiprocessing=FALSE)
    out = w.r.method(res, 'get_dataframe', [], {}) if res is not None and res.op == 'obj' else None
    f = w.tab(out) if out is not None else None
    rep.ob('applied', 'registered again', 'ok' if f is not None and not w.lost else 'undecided')
    if f is not None and not w.lost and 'b' not in f.cols:
        rep.violate('applied', 'registered again', line, fn, str(f.cols), 'the template registered last is not applied')
    # executing again applies it again
    w = Tables(prog, files=('a.sur',))
    w.do('Sa')
    w.do('extract_from_filename', const(t))
    w.execute(multiprocessing=FALSE)
    res, e = w.execute(multiprocessing=TRUE)
    out = w.r.method(res, 'get_dataframe', [], {}) if res is not None and res.op == 'obj' else None
    f = w.tab(out) if out is not None else None
    rep.ob('applied', 'executed again', 'ok' if f is not None and not w.lost else 'undecided')
    if f is not None and not w.lost and f.cols != ['file', 'sample', 'Sa']:
        rep.violate('applied', 'executed again', line, fn, str(f.cols), f'the second execution has the columns {f.cols}')
