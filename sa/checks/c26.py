"""Command line.  The commands are interpreted for every option and for combinations of options; loading, surface methods, plotting and the
report are replaced by records.  Every surface carries the operations applied to it; what is shown, saved or reported has to carry exactly the
requested ones."""
import itertools
import os.path
from ..common import *
from .formats import _registered, strings

# option: (short names, kind)
COMMON = {'level': ({'-l'}, 'flag'), 'fill_nonmeasured': ({'-fn'}, 'flag'), 'center': ({'-c'}, 'flag'), 'zero': ({'-z'}, 'flag'), 'highpass': ({'-hp'}, 'number'), 'lowpass': ({'-lp'}, 'number'),
          'bandpass': ({'-bp'}, 'pair'), 'threshold': ({'-t'}, 'pair'), 'remove_outliers': ({'-ro'}, 'number')}
OPTIONS = {'show': {'plot_3d': (set(), 'flag'), **COMMON}, 'report': {'open_after': (set(), 'flag'), 'periodic_parameters': ({'-pp'}, 'flag'), **COMMON},
           'convert': {'format': ({'-f'}, '.sur'), 'skip_image_layers': (set(), 'flag'), 'compressed': (set(), 'flag')}}
VALUES = {'level': TRUE, 'fill_nonmeasured': TRUE, 'center': TRUE, 'zero': TRUE, 'highpass': const(2.5), 'lowpass': const(7.5), 'bandpass': mk('tuple', (const(1.5), const(9.5))),
          'threshold': mk('tuple', (const(12.5), const(30.5))), 'remove_outliers': const(4)}
ZEROS = {'highpass': const(0.0), 'lowpass': const(0.0), 'remove_outliers': const(0), 'threshold': mk('tuple', (const(0.0), const(0.0)))}
UNITS = {'Sa': 'µm', 'Sq': 'µm', 'Sv': 'µm', 'Sp': 'µm', 'Sz': 'µm', 'Ssk': '', 'Sku': '', 'Sdr': '%', 'Sdq': '', 'Sk': 'µm', 'Spk': 'µm', 'Svk': 'µm', 'Sxp': 'µm', 'Sal': 'µm', 'Str': '',
         'Smr1': '%', 'Smr2': '%', 'period': 'µm', 'depth': 'µm', 'aspect_ratio': '', 'homogeneity': ''}
VOLUME = {'Vmp', 'Vmc', 'Vvc', 'Vvv'}
ORDER = ('fill_nonmeasured', 'level', 'center', 'zero', 'threshold', 'remove_outliers', 'highpass', 'lowpass', 'bandpass')


def expected(given):
    """Operations of the given options, in order."""
    out = []
    for n in ORDER:
        v = given.get(n)
        if v is None:
            continue
        if n in ('fill_nonmeasured', 'level', 'center', 'zero'):
            out.append((n, {}))
        elif n == 'threshold':
            out += [(n, {'threshold': v}), ('fill_nonmeasured', {})]
        elif n == 'remove_outliers':
            out += [(n, {'n': v}), ('fill_nonmeasured', {})]
        elif n == 'bandpass':
            out.append(('filter', {'filter_type': const(n), 'cutoff': v.a[0][0], 'cutoff2': v.a[0][1]}))
        else:
            out.append(('filter', {'filter_type': const(n), 'cutoff': v}))
    return out


def supported(prog, what):
    out = set()
    for fi, d, kws in _registered(prog, {'read': 'register_reader', 'write': 'register_writer'}[what]):
        out |= set(strings(kws.get('suffix')) or ())
    return mk('tuple', tuple(const(x) for x in sorted(out, key=str)))


class Console(Hooks):
    def __init__(self, prog, files=(), is_file=True, agg=False):
        self.prog, self.files, self.is_file, self.agg = prog, files, is_file, agg
        self.S = prog.find_class('Surface')
        self.loads, self.shown, self.saved, self.cells, self.reports = [], [], [], [[]], []
        self.strange = []

    def implicit_raise(self, s):
        return False

    def may_raise(self, nm, recv, args, sn):
        return False

    # ------------------------------------------------------------ paths
    def path(self, t):
        """(folder, file name) of a path; the name is a text or None for the path itself."""
        if t.op == 'path':
            return t.a
        if t.op == 'bin' and t.a[0] == '/':
            p = self.path(t.a[1])
            if p is None:
                return None
            if t.a[2].op == 'const' and isinstance(t.a[2].a[0], str) and '/' not in t.a[2].a[0]:
                return (t.a[1], t.a[2].a[0])
            q = self.path(t.a[2])
            return (t.a[1], q[1]) if q and q[1] else None
        if t.op == 'call' and t.a[0].op == 'ext' and t.a[0].a[0] in ('pathlib.Path', 'str', 'os.fspath', 'pathlib.PurePath') and len(t.a[1]) == 1:
            return self.path(t.a[1][0])
        if t.op == 'mcall' and t.a[1] in ('absolute', 'resolve', 'expanduser') and not t.a[2]:
            return self.path(t.a[0])
        if t.op == 'mcall' and t.a[1] == 'joinpath' and len(t.a[2]) == 1:
            return self.path(mk('bin', '/', t.a[0], t.a[2][0]))
        if t.op == 'mcall' and t.a[1] in ('with_suffix', 'with_name') and len(t.a[2]) == 1 and is_const(t.a[2][0]) and isinstance(t.a[2][0].a[0], str):
            p = self.path(t.a[0])
            if p and p[1] is not None:
                return (p[0], os.path.splitext(p[1])[0] + t.a[2][0].a[0] if t.a[1] == 'with_suffix' else t.a[2][0].a[0])
        if t.op == 'call' and t.a[0].op == 'ext' and t.a[0].a[0] == 'os.path.join' and len(t.a[1]) == 2:
            return self.path(mk('bin', '/', t.a[1][0], t.a[1][1]))
        return None

    def getattr(self, b, n, st):
        if n in ('suffix', 'stem', 'name', 'parent', 'suffixes'):
            p = self.path(b)
            if p is not None:
                name = p[1]
                if n == 'parent':
                    return p[0]
                if name is None:
                    return None
                stem, suffix = os.path.splitext(name)
                return const({'suffix': suffix, 'stem': stem, 'name': name}[n]) if n != 'suffixes' else None
        return None

    def listing(self):
        return mk('tuple', tuple(mk('path', mk('param', 'input_path'), f) for f, _ in self.files))

    # ------------------------------------------------------------ calls
    def call(self, f, args, kwargs, st, node, ctx, it):
        if f.op in ('meth', 'bmeth') and not isinstance(f.a[0], T):
            return None
        if f.op == 'ext' and f.a[0] in ('pathlib.Path', 'str', 'os.fspath') and len(args) == 1 and self.path(args[0]):
            return args[0]
        if f.op in ('meth', 'field') and len(f.a) > 1 and isinstance(f.a[1], str):
            b, n = f.a[0], f.a[1]
            if b.op == 'path':
                known = dict(self.files)
                isfile = known.get(b.a[1]) if b.a[1] in known else (self.is_file if b.a[0] is mk('param', 'input_folder') else None)
                if n in ('is_file', 'is_dir') and isfile is not None:
                    return const(isfile == (n == 'is_file'))
                if n == 'exists' and not args:
                    return TRUE
                if n in ('absolute', 'resolve', 'expanduser') and not args:
                    return b
            if b is mk('param', 'input_path') or b.op == 'path' and b.a[0] is mk('param', 'input_folder'):
                if n == 'iterdir':
                    return self.listing()
                if n in ('is_file', 'is_dir'):
                    return const(self.is_file == (n == 'is_file'))
                if n == 'exists':
                    return TRUE
                if n in ('absolute', 'resolve', 'expanduser'):
                    return b
                if n == 'glob' and args and is_const(args[0]) and isinstance(args[0].a[0], str):
                    import fnmatch
                    return mk('tuple', tuple(mk('path', mk('param', 'input_path'), x) for x, _ in self.files if fnmatch.fnmatchcase(x, args[0].a[0])))
            if n == 'cell':
                self.cells[-1:] = [self.cells[-1] + [(args[0] if args else kwargs.get('text'), node, ctx)]]
            elif n == 'row':
                given = args[0] if args else kwargs.get('cells')
                el = it.elements(st, given) if given is not None else []
                self.cells.append([(x, node, ctx) for x in el] if el is not None else [(given, node, ctx)])
            elif n == 'output' and args:
                self.reports.append(args[0])
            elif n == 'save' and b.op == 'picture':
                return NONE
            if n in ('get_backend',):
                return const('agg' if self.agg else 'qtagg')
        if f.op in ('func', 'bound', 'closure'):
            n = self.named(f, it)
            if n in ('get_supported_formats_read', 'get_supported_formats_write'):
                return supported(self.prog, n.split('_')[-1])
        if f.op == 'ext' and f.a[0] == 'matplotlib.get_backend':
            return const('agg' if self.agg else 'qtagg')
        if f.op == 'ext' and f.a[0].split('.')[-1] == 'Surface':
            return None
        if f.op == 'bound' and f.a[1].op == 'class' and f.a[1].a[0] == self.S.qual and self.named(f, it) == 'load':
            kw = dict(kwargs)
            pos, kwo, va, kwn, dfl = sig(self.S.lookup('load')[1]['fi'])
            kw.update(zip(pos[1:], args))
            src = kw.pop(pos[1], NONE)
            self.loads.append((src, kw))
            o = it.new_obj(st, self.S, init=mk('loaded', src, len(self.loads)))
            st.wobj(o.a[0]).fields['#ops'] = mk('tuple', ())
            st.wobj(o.a[0]).fields['#layers'] = kw.get('read_image_layers', FALSE)
            return o
        if f.op in ('bound', 'func', 'closure'):
            recv, rest = (f.a[1], list(args)) if f.op == 'bound' else (args[0], list(args[1:])) if args else (None, [])
            if recv is not None and recv.op == 'obj':
                h = it.h(st, recv)
                if h is not None and h.cls is self.S and '#ops' in h.fields:
                    n = self.named(f, it)
                    if n is not None and self.S.lookup(n)[1] is not None:
                        return self.surface(n, recv, h, rest, kwargs, st, node, ctx, it)
            fi = it.unwrap_func(f)
            if fi is not None and fi.module.name.endswith('.plotting'):
                a = list(args) + list(kwargs.values())
                o = next((x for x in a if x.op == 'obj' and '#ops' in (it.h(st, x).fields if it.h(st, x) else {})), None)
                self.shown.append((fi.name, o, self.ops(o, st, it), st, node, ctx, kwargs))
                return mk('picture', fi.name)
        return None

    def named(self, f, it):
        fi = it.unwrap_func(f)
        return fi.name if fi is not None else None

    def ops(self, o, st, it):
        h = it.h(st, o) if o is not None else None
        return h.fields.get('#ops') if h is not None else None

    def surface(self, n, recv, h, args, kwargs, st, node, ctx, it):
        e = self.S.lookup(n)[1]
        if e.get('fi') is None:
            return None
        pos, kwo, va, kwn, dfl = sig(e['fi'])
        kw = dict(zip(pos[1:], args))
        kw.update(kwargs)
        if '**' in kw:
            self.strange.append(n)
        if n == 'save':
            self.saved.append((h.init, self.ops(recv, st, it), kw, st, node, ctx, h.fields.get('#layers')))
            return NONE
        if n in ('plot_2d', 'show', 'plot_3d'):
            self.shown.append((n, recv, self.ops(recv, st, it), st, node, ctx, kw))
            return mk('picture', n)
        if 'inplace' in pos + kwo:
            inplace = kw.pop('inplace', FALSE)
            if inplace.op != 'const':
                self.strange.append(n)
            for k in list(kw):
                if k in dfl and isinstance(dfl[k], ast.Constant) and is_const(kw[k]) and kw[k].a[0] == dfl[k].value and n != 'remove_outliers':
                    del kw[k]
            ops = h.fields['#ops']
            if ops.op != 'tuple':
                self.strange.append('path dependent operations')
                ops = mk('tuple', ())
            new = mk('tuple', ops.a[0] + (mk('op', n, tuple(sorted(kw.items()))),))
            if is_const(inplace, True):
                st.wobj(recv.a[0]).fields['#ops'] = new
                return recv
            o = it.new_obj(st, self.S, init=h.init)
            st.wobj(o.a[0]).fields['#ops'] = new
            st.wobj(o.a[0]).fields['#layers'] = h.fields.get('#layers', FALSE)
            return o
        key = mk('of', h.init, h.fields['#ops'])
        if n == 'roughness_parameters' and not kw:
            names = self.prog_parameters(it, st)
            if names is not None:
                return it.new_dict(st, {x: mk('result', x, key) for x in names})
        if n == 'depth':
            return mk('tuple', (mk('result', 'depth', key), mk('result', 'depth std', key)))
        return mk('result', n, key)

    def prog_parameters(self, it, st):
        v = it.getattr_(mk('class', self.S.qual), 'ISO_PARAMETERS', st, None, TopCtx(self.S))
        el = it.elements(st, v)
        return [x.a[0] for x in el] if el is not None and all(x.op == 'const' for x in el) else None


class Entry:
    def __init__(self, prog, name, **world):
        self.prog, self.name = prog, name
        mod = next((m for m in prog.modules.values() if m.name.endswith('.cli')), None)
        self.mod = mod
        self.fi = None
        self.unclear = False
        for fi in (mod.funcs.values() if mod else ()):
            for d in fi.node.decorator_list:
                if isinstance(d, ast.Call) and isinstance(d.func, ast.Attribute) and d.func.attr == 'command':
                    given = self.lit(d.args[0]) if d.args else fi.name.replace('_', '-')
                    if given == name:
                        self.fi = fi
        self.h = Console(prog, **world)

    def lit(self, e):
        """The value of a literal, or of a name of the module that stands for one; None if it is not known."""
        if isinstance(e, ast.Constant):
            return e.value
        if isinstance(e, ast.Name):
            vs = [s.value for s in self.mod.tree.body if isinstance(s, ast.Assign) and any(isinstance(t, ast.Name) and t.id == e.id for t in s.targets)]
            if len(vs) == 1 and isinstance(vs[0], ast.Constant):
                return vs[0].value
        return None

    def declared(self):
        """Options of the command: name -> (all spellings, keywords)."""
        todo, seen, calls = list(self.fi.node.decorator_list), set(), []
        while todo:
            d = todo.pop()
            for x in ast.walk(d):
                if isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and x.func.attr == 'option':
                    calls.append(x)
                if isinstance(x, ast.Name) and x.id not in seen:
                    seen.add(x.id)
                    g = self.mod.funcs.get(x.id)
                    if g is not None and x.id != 'cli':
                        todo += g.node.body + g.node.decorator_list
                    for s in self.mod.tree.body:
                        if isinstance(s, ast.Assign) and any(isinstance(t, ast.Name) and t.id == x.id for t in s.targets):
                            todo.append(s.value)
        out = {}
        for c in calls:
            names = [self.lit(a) for a in c.args]
            if any(n is None for n in names):
                self.unclear = True
            names = [n for n in names if isinstance(n, str)]
            long_ = [n for n in names if n.startswith('--')]
            plain = [n for n in names if not n.startswith('-')]
            if long_ or plain:
                kw = {k.arg: k.value for k in c.keywords}
                for k, v in kw.items():
                    if isinstance(v, ast.Name) and self.lit(v) is not None:
                        kw[k] = ast.copy_location(ast.Constant(self.lit(v)), v)
                out[(plain or [long_[0].split('/')[0][2:].replace('-', '_')])[0]] = (names, kw)
        return out

    def go(self, **kw):
        self.r = Run(self.prog, self.h)
        # the registered formats, wherever their collection is kept
        for m in self.prog.modules.values():
            for n in ('supported_formats_read', 'supported_formats_write'):
                r = self.prog.resolve(m, n)
                if r and r[0] == 'assign':
                    self.r.it._modval[(r[1].name, id(r[2]), r[3] if len(r) > 3 else None)] = supported(self.prog, n.split('_')[-1])
        f = self.r.it.func_value(self.fi)
        self.r.call(f, [], kw)
        return self.r


def where(e):
    return f'{e.mod.rel}:{e.fi.node.lineno}', e.fi.qual


def show_ops(t):
    if t is None:
        return 'nothing'
    if t.op != 'tuple':
        return show(t)
    return ', '.join(x.a[0] + '(' + ', '.join(f'{k}={show(v)}' for k, v in x.a[1]) + ')' for x in t.a[0]) or 'no operation'


def want_ops(given):
    return mk('tuple', tuple(mk('op', n, tuple(sorted(kw.items()))) for n, kw in expected(given)))


def combos():
    single = [{n: v} for n, v in VALUES.items()]
    pairs = [dict(x) for x in itertools.combinations(VALUES.items(), 2)]
    zero = [{n: v} for n, v in ZEROS.items()]
    every = [{n: v for n, v in VALUES.items() if n not in drop} for drop in (('zero', 'highpass', 'lowpass'), ('center', 'bandpass', 'lowpass'), ('zero', 'highpass', 'bandpass'))]
    return [{}] + single + zero + pairs + every


def conflict(given):
    return sum(n in given for n in ('highpass', 'lowpass', 'bandpass')) > 1 or 'zero' in given and 'center' in given


def arguments(given, cmd):
    return {n: given.get(n, FALSE if kind == 'flag' else NONE) for n, (s, kind) in COMMON.items()}


def run(prog, rep):
    rep.rule('options', 'the documented options exist under their names, as switches or with their number of values', 20)
    rep.rule('operations', 'what is shown or reported is the loaded surface after exactly the requested operations, with their values, in the documented order', 80)
    rep.rule('conflict', 'options that exclude each other are rejected', 8)
    rep.rule('convert', 'converting writes what was read from each supported file, in the requested format', 20)
    rep.rule('report', 'a report lists every parameter with its own value and unit, for every file', 8)
    for cmd in ('show', 'report', 'convert'):
        e = Entry(prog, cmd)
        if e.fi is None:
            rep.ob('options', cmd)
            rep.violate('options', cmd, e.mod.rel if e.mod else 'surfalize/cli.py', 'cli', cmd, 'a documented command is missing')
            continue
        options(rep, e, cmd)
        if cmd == 'convert':
            convert(prog, rep)
        else:
            operate(prog, rep, cmd)


def options(rep, e, cmd):
    dec = e.declared()
    for n, (short, kind) in OPTIONS[cmd].items():
        site = f'{cmd} {n}'
        rep.ob('options', site)
        if n not in dec:
            if dec and not e.unclear:
                rep.violate('options', site, *where(e), n, 'a documented option is missing')
            else:
                rep.ob('options', site, 'undecided')
            continue
        names, kw = dec[n]
        if not short <= set(names):
            rep.violate('options', site, *where(e), ', '.join(names), f'the documented spelling {", ".join(short)} is missing')
        flag = isinstance(kw.get('is_flag'), ast.Constant) and kw['is_flag'].value is True or '/' in names[0]
        nargs = kw['nargs'].value if isinstance(kw.get('nargs'), ast.Constant) else 1
        d = kw.get('default')
        dv = d.value if isinstance(d, ast.Constant) else None if d is None else '?'
        if (kind == 'flag') != flag and dv != '?':
            rep.violate('options', site, *where(e), ', '.join(names), 'the option takes a value' if kind == 'flag' else 'the option takes no value')
        elif kind in ('number', 'pair') and nargs != (2 if kind == 'pair' else 1):
            rep.violate('options', site, *where(e), f'nargs={nargs}', 'the option takes another number of values')
        elif kind in ('number', 'pair', 'flag') and dv is not None and dv is not False and dv != '?':
            rep.violate('options', site, *where(e), f'default={dv!r}', 'the option is active without being given')
        elif kind == '.sur' and dv not in ('.sur', '?'):
            rep.violate('options', site, *where(e), f'default={dv!r}', 'another default format')


def operate(prog, rep, cmd):
    extra = [{}]
    extra += [{'plot_3d': TRUE}] if cmd == 'show' else [{'periodic_parameters': TRUE}, {'open_after': TRUE}]
    for given in combos():
        for more in extra if len(given) < 2 else extra[:1]:
            folder = cmd == 'report' and len(given) == 1 and not more
            files = [('one.sur', True), ('two.vk4', True), ('two.sur', True), ('notes.txt', True)] if folder else [('one.sur', True)]
            e = Entry(prog, cmd, files=files, is_file=not folder)
            site = f'{cmd} ' + ' '.join(f'--{n.replace("_", "-")}{"" if v is TRUE else " " + show(v)}' for n, v in {**given, **more}.items())
            rule = 'conflict' if conflict(given) else 'operations'
            rep.ob(rule, site)
            kw = arguments(given, cmd)
            for n, (s, kind) in OPTIONS[cmd].items():
                if n not in COMMON:
                    kw[n] = more.get(n, FALSE)
            src = mk('path', mk('param', 'input_folder'), 'folder') if folder else mk('path', mk('param', 'input_path'), 'one.sur')
            r = e.go(input_path=src, **kw)
            h = e.h
            rep.used(r.it)
            if r.err is not None or h.strange:
                rep.ob(rule, site, 'undecided')
                rep.notes.append(f'{site}: {h.strange} {str(r.err)[-300:]}')
                continue
            if rule == 'conflict':
                if not r.st.dead:
                    if r.raised:
                        rep.ob(rule, site, 'undecided')
                    else:
                        rep.violate(rule, site, *where(e), site, 'options that exclude each other are not rejected')
                continue
            if r.st.dead:
                rep.violate(rule, site, *where(e), ', '.join(str(x[0][0]) for x in r.raised), 'a valid request is rejected')
                continue
            want = want_ops(given)
            if not h.loads:
                rep.ob(rule, site, 'undecided')
                continue
            names = sorted((h.path(s) or (None, '?'))[1] or '?' for s, k in h.loads)
            if '?' in names:
                rep.ob(rule, site, 'undecided')
            elif names != sorted(x for x, _ in files if not x.endswith('.txt')):
                rep.violate(rule, site, *where(e), ', '.join(names), 'not every supported file is processed exactly once')
            if not h.shown and cmd == 'report':
                rep.ob(rule, site, 'undecided')
            elif not h.shown:
                rep.violate(rule, site, *where(e), 'no plot', 'nothing is shown')
            for n, o, ops, st, node, ctx, k in h.shown:
                if ops is None or ops.op != 'tuple' or any(x.op != 'op' for x in ops.a[0]):
                    rep.ob(rule, site, 'undecided')
                elif ops is not want:
                    rep.violate(rule, site, loc(ctx, node), fname(ctx), f'{n} after {show_ops(ops)}'[:300], f'not the requested operations: {show_ops(want)}'[:300])
            if cmd == 'show':
                kinds = {n.replace('show', 'plot_2d') for n, *x in h.shown}
                if kinds - {'plot_2d', 'plot_3d'} == set() and kinds != {'plot_3d' if more else 'plot_2d'} and kinds:
                    rep.violate(rule, site, *where(e), ', '.join(kinds), 'not the requested plot')
            else:
                report(rep, e, site, more, want, files, folder)


def report(rep, e, site, more, want, files, folder):
    h = e.h
    rep.ob('report', site)
    rows = 0
    listed = {}
    for row in h.cells:
        res = [(x, node, ctx) for t, node, ctx in row if t is not None for x in walk(t) if x.op == 'result']
        if not res:
            continue
        x, node, ctx = res[0]
        if len({r[0] for r in res}) > 1:
            rep.ob('report', site, 'undecided')
            return
        rows += 1
        if x.a[1].op != 'of' or x.a[1].a[1] is not want:
            rep.violate('report', site, loc(ctx, node), fname(ctx), show(x)[:200], f'the value of {x.a[0]} is not that of the surface after the requested operations')
            continue
        texts = [t for t, n, c in row if t is not None and t.op == 'const']
        if len(texts) != 2 or len(row) != 3:
            rep.ob('report', site, 'undecided')
            continue
        label, unit = texts
        if str(label.a[0]).replace(' ', '_').lower() != x.a[0].lower():
            rep.violate('report', site, loc(ctx, node), fname(ctx), f'{label.a[0]}: {x.a[0]}', 'a value is listed under another name')
        if x.a[0] in UNITS and unit.a[0] != UNITS[x.a[0]] or x.a[0] in VOLUME and unit.a[0] not in ('µm³/µm²', 'ml/m²', 'µm'):
            rep.violate('report', site, loc(ctx, node), fname(ctx), f'{label.a[0]} {unit.a[0]}', f'a value is listed with another unit than {UNITS.get(x.a[0], "µm³/µm²")}')
        listed.setdefault(x.a[0], set()).add(x.a[1].a[0])
    if not rows:
        rep.ob('report', site, 'undecided')
        return
    for p in ('Sa', 'Sq', 'Sv', 'Sp', 'Sz', 'Sk', 'Spk', 'Svk') + (('period', 'depth', 'aspect_ratio', 'homogeneity') if 'periodic_parameters' in more else ()):
        if p not in listed:
            rep.violate('report', site, *where(e), p, 'a parameter is missing from the report')
        elif len(listed[p]) != len(h.loads):
            rep.violate('report', site, *where(e), p, 'a parameter is missing from the report of a file')
    outs = [h.path(p) for p in h.reports]
    if len(outs) != len(h.loads) or any(p is None or p[1] is None for p in outs):
        rep.ob('report', site, 'undecided')
    elif len(set(outs)) != len(outs) or any(p[1] in dict(files) for p in outs):
        rep.violate('report', site, *where(e), ', '.join(p[1] for p in outs), 'a report overwrites another file')


def convert(prog, rep):
    folder = [('one.vk4', True), ('two.part.plu', True), ('notes.txt', True), ('sub.sur', False), ('three.sur', True)]
    S = prog.find_class('Surface')
    cases = []
    for suffix in ('.sur', '.sdf', ''):
        for fmt in ('.sur', '.sdf'):
            for c in (TRUE, FALSE):
                for skip in (TRUE, FALSE):
                    cases.append((True, suffix, fmt, c, skip))
    for fmt in ('.sur', '.sdf'):
        for c in (TRUE, FALSE):
            for skip in (TRUE, FALSE):
                cases.append((False, '', fmt, c, skip))
    cases += [(False, '.v2', fmt, FALSE, FALSE) for fmt in ('.sur', '.sdf')]
    cases += [(True, '.nosuch', '.sur', FALSE, FALSE), (False, '', '.nosuch', FALSE, FALSE)]
    loads = False
    for single, suffix, fmt, comp, skip in cases:
        files = [('one.vk4', True)] if single else folder
        e = Entry(prog, 'convert', files=files, is_file=single)
        h = e.h
        src = mk('path', mk('param', 'input_path'), 'one.vk4') if single else mk('path', mk('param', 'input_folder'), 'folder')
        out = mk('path', mk('param', 'output_folder'), 'out' + suffix)
        site = f'{"file" if single else "folder"} to out{suffix}, format {fmt}{", compressed" if comp is TRUE else ""}{", no image layers" if skip is TRUE else ""}'
        rep.ob('convert', site)
        r = e.go(input_path=src, output_path=out, format=const(fmt), skip_image_layers=skip, compressed=comp)
        rep.used(r.it)
        if r.err is not None or h.strange:
            rep.ob('convert', site, 'undecided')
            rep.notes.append(f'{site}: {h.strange} {str(r.err)[-300:]}')
            continue
        want = suffix or fmt if single else fmt
        if want != '.sur' and comp is TRUE or want == '.nosuch':
            if h.saved:
                rep.violate('convert', site, *where(e), site, 'an impossible request is not rejected')
            elif comp is TRUE and not r.st.dead and not r.raised:
                rep.violate('convert', site, *where(e), site, 'an impossible request is not rejected')
            continue
        if r.st.dead:
            rep.violate('convert', site, *where(e), ', '.join(str(x[0][0]) for x in r.raised), 'a valid request is rejected')
            continue
        done = []
        bad = False
        for init, ops, kw, st, node, ctx, layers in h.saved:
            kw = dict(kw)
            pos = sig(S.lookup('save')[1]['fi'])[0]
            p = h.path(kw.pop(pos[1], NONE))
            s = h.path(init.a[0])
            f = kw.pop('format', NONE)
            c = kw.pop('compressed', FALSE)
            if p is None or s is None or f.op != 'const' or c.op != 'const' or kw or p[1] is None:
                bad = True
                continue
            at = loc(ctx, node), fname(ctx)
            done.append(s[1])
            f = f.a[0] or os.path.splitext(p[1])[1]
            if f != want:
                rep.violate('convert', site, *at, f'{p[1]}: {f}', f'written in another format than {want}')
            if c.a[0] != comp.a[0] and want == '.sur':
                rep.violate('convert', site, *at, f'compressed={c.a[0]}', 'written with another compression')
            if want != '.sur' and c.a[0]:
                rep.violate('convert', site, *at, f'compressed={c.a[0]}', 'written with another compression')
            if ops is not mk('tuple', ()):
                rep.violate('convert', site, *at, show_ops(ops), 'the surface is changed')
            name = 'out' + suffix if single else os.path.splitext(s[1])[0] + want
            base = mk('param', 'output_folder') if single else out
            if p != (base, name):
                rep.violate('convert', site, *at, f'{show(p[0])} / {p[1]}', f'written to another file than {name}')
            if layers.op != 'const':
                bad = True
            elif bool(layers.a[0]) == (skip is TRUE):
                rep.violate('convert', site, *at, f'read_image_layers={layers.a[0]}', 'the image layers are not treated as requested')
        loads |= bool(h.loads)
        if bad or not loads:
            rep.ob('convert', site, 'undecided')
        elif sorted(done) != sorted(f for f, isf in files if isf and not f.endswith('.txt')):
            rep.violate('convert', site, *where(e), ', '.join(done) or 'nothing', 'not every supported file is converted exactly once')
