"""State outside of the package.  Every function of the package is interpreted on its own; the calls it makes into libraries and the writes it
performs are compared with the operations that change process-wide state, with the state of pyplot, and with the arguments it was given."""
import ast
from ..common import *
from ..alias import roots

# operations that change the state of the process -> context managers that restore it
WARN, RC, ERR = ('warnings.catch_warnings',), ('matplotlib.rc_context', 'matplotlib.pyplot.rc_context', 'matplotlib.style.context', 'matplotlib.pyplot.style.context'), ('numpy.errstate',)
PROCESS = {
    'warnings.simplefilter': WARN, 'warnings.filterwarnings': WARN, 'warnings.resetwarnings': WARN,
    'numpy.seterr': ERR, 'numpy.seterrcall': ERR, 'numpy.setbufsize': (), 'numpy.set_printoptions': ('numpy.printoptions',),
    'matplotlib.use': (), 'matplotlib.pyplot.switch_backend': (), 'matplotlib.rc': RC, 'matplotlib.pyplot.rc': RC, 'matplotlib.rcdefaults': RC,
    'matplotlib.pyplot.rcdefaults': RC, 'matplotlib.rc_file': RC, 'matplotlib.style.use': RC, 'matplotlib.pyplot.style.use': RC, 'matplotlib.interactive': (),
    'matplotlib.pyplot.set_cmap': RC, 'matplotlib.pyplot.xkcd': RC, 'matplotlib.colormaps.register': (), 'matplotlib.pyplot.register_cmap': (), 'matplotlib.pyplot.ion': (), 'matplotlib.pyplot.ioff': (),
    'os.chdir': ('contextlib.chdir',), 'os.umask': (), 'os.putenv': (), 'os.unsetenv': (), 'locale.setlocale': (), 'pandas.set_option': ('pandas.option_context',), 'pandas.reset_option': (),
    'sys.setrecursionlimit': (), 'sys.setswitchinterval': (), 'gc.disable': (), 'gc.enable': (), 'logging.basicConfig': (), 'logging.disable': (), 'logging.captureWarnings': (),
    'signal.signal': (), 'socket.setdefaulttimeout': (), 'multiprocessing.set_start_method': (), 'decimal.setcontext': ('decimal.localcontext',), 'time.tzset': (), 'threading.stack_size': (),
    'random.seed': (), 'random.setstate': (), 'random.shuffle': (), 'pyvista.set_plot_theme': (), 'pyvista.set_error_output_file': (), 'scipy.fft.set_global_backend': (), 'faulthandler.enable': (),
}
RANDOM_OK = ('default_rng', 'Generator', 'RandomState', 'SeedSequence', 'PCG64', 'MT19937', 'Philox', 'SFC64', 'BitGenerator')
# settings objects of other libraries
SETTINGS = ('matplotlib.rcParams', 'matplotlib.pyplot.rcParams', 'os.environ', 'sys.path', 'sys.modules', 'warnings.filters', 'pandas.options', 'pyvista.global_theme', 'matplotlib.colormaps', 'matplotlib.cm', 'sys.stdout', 'sys.stderr')
CHANGING = ('update', 'setdefault', 'pop', 'popitem', 'clear', 'append', 'insert', 'extend', 'remove', 'register', 'unregister', 'load_theme', 'reset', '__setitem__', '__delitem__')
# pyplot functions that act on whatever figure or axes happen to be current
CREATE = {'subplots', 'figure', 'subplot_mosaic'}
CURRENT = {'plot', 'imshow', 'scatter', 'bar', 'barh', 'hist', 'contour', 'contourf', 'pcolormesh', 'pcolor', 'fill_between', 'fill', 'axhline', 'axvline', 'axhspan', 'axvspan', 'hlines', 'vlines', 'text', 'annotate',
           'title', 'suptitle', 'xlabel', 'ylabel', 'xlim', 'ylim', 'xscale', 'yscale', 'xticks', 'yticks', 'tick_params', 'grid', 'legend', 'colorbar', 'clim', 'axis', 'gca', 'gcf', 'gci', 'sca', 'axes', 'subplot',
           'twinx', 'twiny', 'tight_layout', 'subplots_adjust', 'savefig', 'cla', 'clf', 'close', 'delaxes', 'semilogx', 'semilogy', 'loglog', 'errorbar', 'step', 'stem', 'polar', 'margins', 'autoscale', 'draw', 'box', 'figtext', 'figimage', 'locator_params', 'minorticks_on', 'arrow', 'table', 'quiver', 'streamplot', 'matshow', 'spy', 'plot_date', 'eventplot', 'hexbin', 'violinplot', 'boxplot', 'pie', 'stackplot', 'stairs'}
CMAP_CHANGES = ('set_bad', 'set_under', 'set_over', 'set_extremes', 'set_gamma')


def run(prog, rep):
    rep.rule('process', 'no function changes settings of the process or of a library, unless a with block restores them', 150)
    rep.rule('module', 'no function changes module- or class-level state of the package after import', 150)
    rep.rule('axes', 'a function that is given axes draws only on them', 3)
    rep.rule('figures', 'figures that the package did not make are neither drawn on, changed nor closed', 10)
    rep.rule('colormap', 'a colormap of the caller or of the library is not modified', 1)
    rep.rule('arguments', 'arguments are not modified', 100)
    rep.rule('defaults', 'no default value that can be changed is kept or changed', 0)
    reg = importing(prog)
    called = {f.attr if isinstance(f, ast.Attribute) else getattr(f, 'id', None) for m in prog.modules.values() for x in ast.walk(m.tree) if isinstance(x, ast.Call) for f in [x.func]}
    kept, later = {}, []
    for label, fi, kw, cls in entries(prog):
        if fi.module.name.split('.')[-1] == 'cli' and not any(n == 'ax' for n in kw):
            cli = True
        else:
            cli = False
        H = Watch(reg)
        helper = fi.name in called and (cls is None or fi.name.startswith('_') and fi.name != '__init__')
        H.files = '.file' in fi.module.name
        r = Run(prog, H)
        registries(prog, r.it)
        if cls is not None and not is_static(fi) and not is_classmethod(fi):
            H.me = r.obj(cls)
            H.params = {v: n for n, v in kw.items() if v.op == 'param'}
            r.call(r.it.func_value(fi), [H.me] + list(kw.values()), {}) if label.endswith('(set)') else r.method(H.me, fi.name, [], kw) if cls.lookup(fi.name)[1]['kind'] == 'func' else r.it.getattr_(H.me, fi.name, r.st, None, TopCtx(cls))
        else:
            H.params = {v: n for n, v in kw.items() if v.op == 'param'}
            if cls is not None and is_classmethod(fi):
                r.call(r.it.getattr_(mk('class', cls.qual), fi.name, r.st, None, TopCtx(cls)), [], kw)
            else:
                r.func(fi, [], kw)
        rep.used(r.it)
        verdict = 'undecided' if r.err else 'ok'
        rep.ob('process', label, verdict)
        rep.ob('module', label, verdict)
        rep.ob('arguments', label, verdict)
        given = 'ax' in kw and kw['ax'].op == 'param'
        if given:
            rep.ob('axes', label, verdict)
        if H.pyplot:
            rep.ob('figures', label, verdict)
        if H.cmaps:
            rep.ob('colormap', label, verdict)
        for rule, node, ctx, text, why in H.found:
            if cli and rule == 'process':
                continue
            if rule == 'module' and memo(node, prog):
                rep.ob('module', label, 'undecided')
                continue
            if helper and rule in ('process', 'axes', 'figures', 'colormap'):
                rep.ob(rule, label, 'undecided')       # reported where the callers do not take care of it
                continue
            if rule == 'arguments' and not public(prog, fi, cls) and not (H.files and fi.name.startswith('write')):
                rep.ob('arguments', label, 'undecided')
                continue
            rep.violate(rule, label, loc(ctx, node) if node is not None else fi.module.rel, fname(ctx), text, why)
        if cls is not None and fi.name == '__init__' and verdict == 'ok':
            h = r.it.h(r.st, H.me)
            kept[cls.qual] = {f: H.params[y] for f, v in h.fields.items() if isinstance(v, T) for y in roots(v) if y in H.params}
        if cls is not None and public(prog, fi, cls) and fi.name != '__init__':
            later.append((label, fi, cls, H))
        for n, d in mutable_defaults(fi).items():
            p_ = kw.get(n)
            rep.ob('defaults', f'{label}: {n}', verdict)
            held = H.me is not None and any(p_ in roots(v) for v in fields(r, H.me)) or r.val is not None and p_ in [y for x in alts(r.val) for y in roots(x)]
            if p_ is not None and p_.op == 'param' and (held or any(f[0] == 'arguments' and f[4].split()[2] == n for f in H.found)):
                rep.violate('defaults', f'{label}: {n}', f'{fi.module.rel}:{d.lineno}', fi.qual, f'{n}={src(d)}', 'the default is one object that is shared by every call and every object made without the argument')
        for name, node, ctx in H.pyplot:
            if name == 'close' and not helper and node is not None and node.args and isinstance(node.args[0], ast.Constant):
                rep.violate('figures', label, loc(ctx, node), fname(ctx), src(node), 'closes figures that belong to the caller')
        for name, node, ctx, own in H.current:
            if own:
                continue
            if helper:
                rep.ob('figures', label, 'undecided')
                continue
            if given:
                rep.violate('axes', label, loc(ctx, node), fname(ctx), src(node), 'draws on the current axes of pyplot instead of the axes it is given')
            else:
                rep.violate('figures', label, loc(ctx, node), fname(ctx), src(node), 'acts on the current figure of pyplot, which belongs to the caller')
    for label, fi, cls, H in later:
        for f, y, node, ctx in H.own:
            for c in cls.mro():
                n = kept.get(getattr(c, 'qual', None), {}).get(f)
                if n is not None and y.op == 'field':
                    rep.violate('arguments', label, loc(ctx, node), fname(ctx), src(node), f'the object passed as {n} when the {cls.name} was made is modified')
                    break


class Watch(Hooks):
    def __init__(self, reg):
        self.reg = reg
        self.found, self.pyplot, self.current, self.cmaps = [], [], [], []
        self.params, self.me, self.own, self.st_ = {}, None, [], None
        self.made = 0

    def truth(self, t, st):
        if t.op == 'cmp' and t.a[2] is NONE and t.a[1] in self.params and t.a[1].a[0] in ('ax', 'axes', 'fig', 'figure'):
            return t.a[0] in ('is not', '!=')
        if t in self.params and t.a[0] in ('ax', 'axes', 'fig', 'figure'):
            return True
        return super().truth(t, st)

    def inside(self, it, node, ctx, names):
        """Is the call, or a call that leads to it, inside a with block of one of the context managers?"""
        if not names:
            return False
        frames = [(node, ctx)] + list(it.sites)
        last = {n.split('.')[-1] for n in names}
        return any(n is not None and enclosing(n, self.prog(it), last) for n, c in frames)

    def prog(self, it):
        return it.prog

    def restored(self, it, node, short):
        """A finally block of an enclosing function calls the same operation."""
        fn = function_of(node, it.prog)
        return fn is not None and any(isinstance(x, ast.Call) and ast.unparse(x.func).split('.')[-1] == short for t in ast.walk(fn) if isinstance(t, ast.Try) for b in t.finalbody for x in ast.walk(b))

    def call(self, f, args, kwargs, st, node, ctx, it):
        name = None
        self.st_ = st
        if f.op == 'ext':
            name = f.a[0]
        elif f.op == 'meth' and f.a[0].op == 'ext':
            name = f.a[0].a[0] + '.' + f.a[1]
        if kwargs.get('out') is not None:
            self.modified(kwargs['out'], node, ctx)
        if f.op == 'meth' and f.a[1] in MUTATORS and f.a[0].op != 'ext':
            self.modified(f.a[0], node, ctx)
        if name in ('numpy.copyto', 'numpy.put', 'numpy.place', 'numpy.putmask', 'numpy.fill_diagonal', 'numpy.random.shuffle', 'heapq.heapify', 'setattr', 'builtins.setattr') and args:
            self.modified(args[0], node, ctx)
        if f.op == 'meth' and f.a[1] in ('clf', 'clear') and any(x.op == 'field' and x.a[1] in ('figure', 'fig') and x.a[0] in self.params for x in alts(f.a[0])):
            self.current.append((f.a[1], node, ctx, False))
        if name is None:
            if f.op == 'meth' and f.a[1] in CMAP_CHANGES:
                base = f.a[0]
                if base.op == 'call' and base.a[0].op == 'ext' and base.a[0].a[0].split('.')[-1] in ('get_cmap',) or base.op in ('sub', 'pick') and 'colormaps' in show(base.a[0]) or base in self.params:
                    self.found.append(('colormap', node, ctx, src(node) if node is not None else show(f), 'a colormap object that belongs to the caller or to the library is modified'))
                self.cmaps.append(node)
            return None
        mod, _, short = name.rpartition('.')
        if name in PROCESS or mod == 'numpy.random' and short not in RANDOM_OK or mod == 'random' and short[:1].islower() and short not in ('SystemRandom',):
            par = parents_of(it.prog).get(node)
            if isinstance(par, ast.withitem) and short in ('ion', 'ioff'):
                return None
            if not self.inside(it, node, ctx, PROCESS.get(name, ())) and not self.restored(it, node, short):
                what = 'draws from the global random generator' if name not in PROCESS else 'changes a setting of the process'
                if not (mod in ('numpy.random', 'random') and short in ('getstate', 'get_state')):
                    self.found.append(('process', node, ctx, src(node), what))
        if mod in SETTINGS and short in CHANGING and not self.inside(it, node, ctx, RC if 'rcParams' in mod else ()) and not self.restored(it, node, short):
            self.found.append(('process', node, ctx, src(node), f'changes {mod}'))
        if mod == 'matplotlib.pyplot':
            self.pyplot.append((short, node, ctx))
            if short in CREATE:
                if short == 'figure' and args and is_const(args[0]) and args[0] is not NONE or kwargs.get('num') is not None and kwargs['num'] is not NONE:
                    self.current.append((short, node, ctx, False))      # a figure of that number may be there already
                self.made += 1
            elif short in CURRENT:
                own = self.made > 0
                if short in ('close', 'colorbar', 'sca', 'figure') and (args or kwargs.get('ax') is not None or kwargs.get('cax') is not None) and not (args and is_const(args[0])):
                    own = True      # acts on the object it is given
                if short == 'close' and args and any(y in self.params for x in alts(args[0]) for y in below(x)):
                    own = False
                self.current.append((short, node, ctx, own))
        return None

    def on_event(self, d):
        k = d['kind']
        node, ctx = d.get('node'), d.get('ctx')
        self.st_ = d.get('st') or self.st_
        if k in ('setglobal', 'mutate', 'augmutate', 'setattr_other', 'setattr', 'dictset', 'listset', 'append', 'extend', 'dictclear') and node is not None and not self.at_import(d):
            it = self.it
            if k == 'setglobal':
                self.found.append(('module', node, ctx, src(node), 'writes module state'))
            t = d.get('obj') if d.get('obj') is not None else d.get('base')
            for x in alts(t) if t is not None else ():
                if x.op in ('class', 'mod', 'global', 'func') or x.op == 'obj' and x.a[0] in it.global_heap:
                    self.found.append(('module', node, ctx, src(node), 'writes module or class state'))
                elif x.op == 'ext' and k in ('setattr_other', 'mutate', 'augmutate'):
                    if not self.inside(it, node, ctx, RC if 'rcParams' in x.a[0] else ERR if 'numpy' in x.a[0] else WARN if 'warnings' in x.a[0] else ()):
                        self.found.append(('process', node, ctx, src(node), f'changes {x.a[0]}'))
                elif k in ('mutate', 'augmutate', 'setattr_other', 'dictset', 'listset', 'append', 'extend', 'dictclear'):
                    self.modified(x, node, ctx)
        super().on_event(d)

    def modified(self, x, node, ctx):
        for y in roots(x):
            h = self.it.h(self.st_, self.me) if self.me is not None and self.st_ is not None else None
            if h is not None and h.init is not None and y.op == 'field' and y.a[0] is h.init:
                self.own.append((y.a[1], y, node, ctx))
            while y.op in ('field', 'sub', 'elem', 'ro', 'store') and y not in self.params:
                y = y.a[0]
            n = self.params.get(y)
            if n is None or n in OWN or self.files and n != 'surface':
                continue
            if ('arguments', node) not in [(f[0], f[1]) for f in self.found]:
                self.found.append(('arguments', node, ctx, src(node), f'the argument {n} is modified'))

    def at_import(self, d):
        """Written by a function that is only ever called while modules are imported."""
        return any(q in self.reg for q, n in d['stack']) or fname(d['ctx']) in self.reg


def below(x):
    while x.op in ('field', 'mcall', 'sub', 'elem'):
        yield x
        x = x.a[0]
    yield x


# parameters that a function is meant to write to
OWN = {'self', 'cls', 'ax', 'axes', 'fig', 'figure', 'plotter', 'fileobject', 'filehandle', 'file', 'f', 'buf', 'buffer', 'fh'}
# methods that change the list, dictionary, set or array they are called on
MUTATORS = {'append', 'extend', 'insert', 'pop', 'remove', 'clear', 'sort', 'reverse', 'update', 'setdefault', 'popitem', 'add', 'discard', 'fill', 'resize', 'put', 'itemset', 'partition', 'setflags'}


def entries(prog):
    """(label, function, arguments, class) of every function of the package."""
    for m in prog.modules.values():
        for fi in m.funcs.values():
            for k, kw in modes(fi):
                yield fi.qual + k, fi, kw, None
        for c in m.classes.values():
            for n, e in sorted(c.attrs.items()):
                fi = e.get('fi') or e.get('get')
                if fi is None or n.startswith('__') and n != '__init__':
                    continue
                for k, kw in modes(fi):
                    yield fi.qual + k, fi, kw, c
                if e.get('set') is not None:
                    yield fi.qual + '(set)', e['set'], sym_kwargs(e['set'], {}), c


def modes(fi):
    pos, kwo, va, k_, dfl = sig(fi)
    names = pos + kwo
    if 'ax' in names:
        yield '(ax given)', sym_kwargs(fi, {})
        yield '(own axes)', sym_kwargs(fi, {'ax': NONE})
        return
    if 'inplace' in names:
        yield '(copy)', sym_kwargs(fi, {'inplace': FALSE})
        yield '(in place)', sym_kwargs(fi, {'inplace': TRUE})
        return
    yield '', sym_kwargs(fi, {})


def registries(prog, it):
    """Empty containers of classes that are filled while the package is imported: unknown content."""
    for m in prog.modules.values():
        for c in m.classes.values():
            for n, e in c.attrs.items():
                x = e.get('expr')
                if isinstance(x, ast.Dict) and not x.keys:
                    v = it.class_expr_memo(c, n, x)
                    h = it.global_heap.get(v.a[0]) if v.op == 'obj' else None
                    if h is not None:
                        h.open, h.init = True, mk('param', 'registered:' + n)


def fields(r, me):
    h = r.it.h(r.st, me)
    return [v for v in h.fields.values() if isinstance(v, T)] if h is not None else []


def mutable_defaults(fi):
    a = fi.node.args
    pairs = list(zip((a.posonlyargs + a.args)[::-1], a.defaults[::-1])) + [(k, d) for k, d in zip(a.kwonlyargs, a.kw_defaults) if d is not None]
    return {k.arg: d for k, d in pairs if isinstance(d, (ast.List, ast.Dict, ast.Set, ast.ListComp, ast.DictComp)) or isinstance(d, ast.Call) and src(d.func) in ('list', 'dict', 'set', 'bytearray')}


def public(prog, fi, cls):
    """A method that users call: public, of a public class."""
    return cls is not None and not cls.name.startswith('_') and (not fi.name.startswith('_') or fi.name == '__init__') and '.file' not in fi.module.name


def memo(node, prog):
    """Is the write the filling of a memo table or of a lazily made value: the function also looks at the place it writes?"""
    fn = function_of(node, prog)
    if fn is None:
        return False
    names = set()
    for t in ast.walk(node):
        if isinstance(t, (ast.Subscript, ast.Attribute)) and isinstance(t.ctx, ast.Store):
            names.add(src(t.value) if isinstance(t, ast.Subscript) else src(t))
        elif isinstance(t, ast.Name) and isinstance(t.ctx, ast.Store):
            names.add(t.id)
        elif isinstance(t, ast.Call) and isinstance(t.func, ast.Attribute):
            if t.func.attr == 'setdefault':
                return True
            names.add(src(t.func.value))
    inside = set(ast.walk(node))
    if isinstance(node, ast.AugAssign):
        return False
    for x in ast.walk(fn):
        if x in inside:
            continue
        if isinstance(x, ast.Compare) and any(src(y) in names for y in [x.left] + x.comparators):
            return True
        if isinstance(x, (ast.If, ast.IfExp, ast.While)) and any(src(y) in names for y in ast.walk(x.test)):
            return True
        if isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and x.func.attr == 'get' and src(x.func.value) in names:
            return True
        if isinstance(x, ast.Try) and any(isinstance(y, ast.Subscript) and src(y.value) in names for b in x.body for y in ast.walk(b)):
            return True
    return False


def importing(prog):
    """Functions that only run while the package is imported: used as decorators, or called from module or class level only."""
    deco, used = set(), {}
    for m in prog.modules.values():
        parents = {}
        for x in ast.walk(m.tree):
            for y in ast.iter_child_nodes(x):
                parents[y] = x
        for x in ast.walk(m.tree):
            if isinstance(x, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
                for d in x.decorator_list:
                    f = d.func if isinstance(d, ast.Call) else d
                    deco.add(f.attr if isinstance(f, ast.Attribute) else getattr(f, 'id', None))
            if isinstance(x, ast.Call):
                f = x.func
                n = f.attr if isinstance(f, ast.Attribute) else getattr(f, 'id', None)
                y = x
                infunc = False
                while y in parents:
                    p = parents[y]
                    if isinstance(p, (ast.FunctionDef, ast.AsyncFunctionDef)) and y not in p.decorator_list or isinstance(p, ast.Lambda):
                        infunc = True
                        break
                    y = p
                used.setdefault(n, set()).add(infunc)
    names = {n for n in deco | set(used) if n and (n in deco or used.get(n) == {False}) and True not in used.get(n, set())}
    out = set()
    for m in prog.modules.values():
        for fi in list(m.funcs.values()) + [e['fi'] for c in m.classes.values() for e in c.attrs.values() if e.get('fi') is not None]:
            if fi.name in names:
                out.add(fi.qual)
    return out


def parents_of(prog):
    if not hasattr(prog, '_parents'):
        prog._parents = {}
        for m in prog.modules.values():
            for x in ast.walk(m.tree):
                for y in ast.iter_child_nodes(x):
                    prog._parents[y] = x
    return prog._parents


def function_of(node, prog):
    par = parents_of(prog)
    x = par.get(node)
    while x is not None and not isinstance(x, (ast.FunctionDef, ast.AsyncFunctionDef)):
        x = par.get(x)
    return x


def enclosing(node, prog, names):
    par = parents_of(prog)
    x = node
    while x is not None:
        if isinstance(x, ast.With):
            for i in x.items:
                for y in ast.walk(i.context_expr):
                    if isinstance(y, ast.Call) and (y.func.attr if isinstance(y.func, ast.Attribute) else getattr(y.func, 'id', None)) in names:
                        return True
        x = par.get(x)
    return False
