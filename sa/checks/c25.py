"""Wiring.  Every function, lambda and nested function of the package is analysed, whether or not a test reaches it: reads of local variables by a
path-wise definite-assignment analysis, names by scope resolution, attributes of the package's own objects by class hierarchy, calls of the
package's own functions against the parameters of every function they can reach, and format strings against the values they are given."""
import builtins
import re
import string
import struct
from ..common import *
from ..program import PKG
from ..assigned import Flow, bound_names, target_names, COMPS

BUILTIN = {n for t in (str, bytes, list, dict, set, tuple, int, float, bytearray, type, object) for n in dir(t)}
BUILTINS = set(dir(builtins)) | {'__file__', '__path__', '__package__', '__name__', '__doc__', '__spec__', '__class__', '__all__', '__version__', '__builtins__', '__debug__', 'reveal_type', 'WindowsError'}
ENUMS = {'Enum', 'IntEnum', 'StrEnum', 'Flag', 'IntFlag'}
NUMBERS = {'IntEnum', 'StrEnum', 'Flag', 'IntFlag'}
KEEP = {'property', 'staticmethod', 'classmethod', 'cached_property', 'abstractmethod', 'wraps', 'contextmanager', 'singledispatch', 'override', 'final'}
OBJECT = set(dir(object)) | {'__dict__', '__weakref__', '__annotations__', '__module__', '__slots__', '__qualname__', '__name__', '__mro__', '__bases__', '__subclasses__', '__wrapped__', '__members__'}


def run(prog, rep):
    rep.rule('names', 'every name that is read is bound in an enclosing scope, the module or the language', 1000)
    rep.rule('assigned', 'every local variable is assigned on each path to its use', 1000)
    rep.rule('attributes', 'every attribute taken from an object, class or module of the package exists', 100)
    rep.rule('calls', 'every call of a function of the package passes the arguments it requires, and no others', 100)
    rep.rule('formats', 'format strings fit the values they are given, and sequences the names they are assigned to', 0)
    W = World(prog)
    for m in prog.modules.values():
        Scope(W, rep, m, None, None, m.tree, ()).module()
    typed(W, rep)
    rep.notes.append(f'{W.functions} functions, nested ones included')


def guarded(fn):
    """Does the function itself probe for attributes?"""
    for x in ast.walk(fn):
        if isinstance(x, ast.Name) and x.id in ('hasattr', 'getattr'):
            return True
        if isinstance(x, ast.ExceptHandler):
            names = {'AttributeError'} if x.type is None else {y.id for y in ast.walk(x.type) if isinstance(y, ast.Name)}
            if names & {'AttributeError', 'Exception', 'BaseException'} or any(isinstance(y, (ast.Attribute, ast.Call)) for y in ast.walk(x.type or x)) and x.type is not None:
                return True
    return False


class Typed(Hooks):
    def __init__(self, W, rep):
        self.W, self.rep = W, rep
        self.scope = Scope(W, rep, next(iter(W.prog.modules.values())), None, None, next(iter(W.prog.modules.values())).tree, ())

    def ev_noattr(self, d):
        n, ctx, node, c = d['name'], d['ctx'], d['node'], d['cls']
        if node is None or not hasattr(node, 'lineno') or self.it.in_phi or not isinstance(node, ast.Attribute) and not isinstance(node, ast.Call):
            return
        if n.startswith('__') and n.endswith('__'):
            return
        site = f'{loc(ctx, node)} {src(node, 80)}'
        if c is None:
            if n in ('_asdict', '_replace', '_fields', '_make', 'count', 'index'):
                return
            self.rep.ob('attributes', site)
            self.rep.violate('attributes', site, loc(ctx, node), fname(ctx), src(node), f'the named tuple has no field {n}')
            return
        if self.W.attribute(c, n) is None:
            return
        self.rep.ob('attributes', site)
        if not self.W.has(c, n):
            f = next((q for q, x in reversed(self.it.stack)), None)
            fn = ctx.node if getattr(ctx, 'node', None) is not None else None
            if fn is not None and guarded(fn):
                self.rep.ob('attributes', site, 'undecided')
                return
            self.rep.violate('attributes', site, loc(ctx, node), fname(ctx), src(node), f'{c.name} has no attribute {n}')

    def ev_badunpack(self, d):
        ctx, node, v = d['ctx'], d['node'], d['value']
        if v.op not in ('tuple', 'nt') or not hasattr(node, 'lineno'):
            return
        self.rep.violate('formats', f'{loc(ctx, node)} unpack', loc(ctx, node), fname(ctx), src(node), f'{d["have"]} values for {d["want"]} names')

    def ev_binding(self, d):
        node, ctx, fn = d['node'], d['ctx'], d['fnode']
        if not isinstance(node, ast.Call) or not self.it.stack or isinstance(fn, ast.Lambda):
            return
        args, kw = d['args'], dict(d['kwargs'])
        if '**' in kw or any(a.op == 'star' for a in args):
            return
        a = fn.args
        site = f'{loc(ctx, node)} {src(node.func, 60)}() -> {d["qual"]}'
        self.rep.ob('calls', site)
        pos = [x.arg for x in a.posonlyargs + a.args]
        msg = None
        if len(args) > len(pos) and not a.vararg:
            msg = f'takes {len(pos)} positional arguments, not {len(args)}'
        for k in kw:
            if k not in pos and k not in [x.arg for x in a.kwonlyargs] and not a.kwarg:
                msg = f'has no parameter {k}'
            elif k in pos[:len(args)]:
                msg = f'gets {k} twice'
        for x in pos[len(args):len(pos) - len(a.defaults)]:
            if x not in kw:
                msg = msg or f'needs {x}'
        for x, dv in zip(a.kwonlyargs, a.kw_defaults):
            if dv is None and x.arg not in kw:
                msg = msg or f'needs {x.arg}'
        if msg:
            self.rep.violate('calls', site, loc(ctx, node), fname(ctx), src(node), f'{d["qual"]} {msg}')


def required(f):
    a = f.node.args
    pos = [x.arg for x in a.posonlyargs + a.args]
    return set(pos[:len(pos) - len(a.defaults)])


def typed(W, rep):
    """Attributes and calls of objects whose class follows from the flow of values."""
    prog = W.prog
    done = set()
    for name in ('Surface', 'Profile'):
        ci = prog.find_class(name)
        for n, fi in sorted(public_methods(ci).items()):
            for kw in variants(fi):
                r = Run(prog, Typed(W, rep))
                o = r.obj(ci)
                args = {k: kw.get(k, v) for k, v in sym_kwargs(fi).items()}
                if 'other' in args:
                    args['other'] = r.obj(ci, 'other')
                r.method(o, n, [], args)
                rep.used(r.it)
                v = r.val
                if r.err is not None or v is None or r.st.dead or v.op != 'obj':
                    continue
                h = r.it.h(r.st, v)
                if h is None or not isinstance(h.cls, ClassInfo) or h.cls.name in done | {'Surface', 'Profile'}:
                    continue
                done.add(h.cls.name)
                for n2, fi2 in sorted(public_methods(h.cls).items()):
                    r.st.dead = False
                    st = r.st.copy()
                    r.method(v, n2, [], dict(sym_kwargs(fi2)))
                    r.st = st
                rep.used(r.it)
    for m in prog.modules.values():
        for f in m.funcs.values():
            pos = sig(f)[0]
            if pos and pos[0] == 'surface' and not f.node.decorator_list:
                for every in (True, False):
                    r = Run(prog, Typed(W, rep))
                    args = {k: mk('param', k) for k in pos if every or k in required(f)}
                    args['surface'] = r.obj(prog.find_class('Surface'))
                    r.func(f, [], args)
                    rep.used(r.it)


class World:
    def __init__(self, prog):
        self.prog = prog
        self.functions = 0
        self.returns = {}
        self.subs = {}
        for c in prog.classes.values():
            for k in c.mro():
                if isinstance(k, ClassInfo):
                    self.subs.setdefault(k, set()).add(c)
        self.instance = {c: set() for c in prog.classes.values()}
        self.dynamic = set()
        for c in prog.classes.values():
            for n in ast.walk(c.node):
                if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store) and isinstance(n.value, ast.Name) and n.value.id in ('self', 'cls', 'obj', 'instance', 'result', 'new', 'other', 'copy'):
                    self.instance[c].add(n.attr)
                if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id == 'setattr':
                    a = n.args[1] if len(n.args) > 1 else None
                    if isinstance(a, ast.Constant):
                        self.instance[c].add(a.value)
                    else:
                        self.dynamic.add(c)
                if isinstance(n, ast.Attribute) and n.attr in ('__dict__', '__setattr__') or isinstance(n, ast.Name) and n.id in ('vars', '__slots__'):
                    self.dynamic.add(c)
        # attributes stored from outside: any store x.attr anywhere counts for every class
        self.stored = set()
        for m in prog.modules.values():
            for n in ast.walk(m.tree):
                if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store) and not (isinstance(n.value, ast.Name) and n.value.id == 'self'):
                    self.stored.add(n.attr)

    def opaque(self, c):
        """A class whose attributes are not all known."""
        for k in c.mro():
            if isinstance(k, str):
                if k.split('.')[-1] not in ('object', 'ABC', 'Generic', 'Protocol') and k.split('.')[-1] not in ENUMS:
                    return True
            elif any('__getattr__' in k.attrs or '__getattribute__' in k.attrs for _ in (0,)):
                return True
            elif k.node.keywords or any(self.decorator_opaque(d) for d in k.node.decorator_list):
                return True
        return False

    def decorator_opaque(self, d):
        return ast.unparse(d.func if isinstance(d, ast.Call) else d).split('.')[-1] not in ('dataclass', 'total_ordering')

    def has(self, c, n):
        if n in OBJECT or n in self.stored:
            return True
        if n in ('name', 'value') and any(isinstance(k, str) and k.split('.')[-1] in ENUMS for k in c.mro()):
            return True
        for k in c.mro():
            if isinstance(k, ClassInfo) and (n in k.attrs or n in self.instance[k]):
                return True
        return False

    def leaves(self, c):
        return [x for x in self.subs.get(c, {c}) if not any(y is not x and x in y.mro() for y in self.subs.get(c, ()))]

    def attribute(self, c, n):
        """True, False, or None when it is not known."""
        if self.opaque(c):
            return None
        if self.has(c, n):
            return True
        if any(k in self.dynamic for k in c.mro()) and not n.startswith('_') or any(isinstance(k, str) and k.split('.')[-1] in NUMBERS for k in c.mro()) and hasattr(int, n):
            return None
        # a base class may use what all its concrete classes have
        sub = [x for x in self.subs.get(c, ()) if x is not c]
        if sub and all(self.opaque(x) or self.has(x, n) for x in self.leaves(c)):
            return True
        return False

    def module_names(self, m):
        if not hasattr(m, '_names'):
            names, _ = bound_names(m.tree.body)
            star = False
            for n in ast.walk(m.tree):
                if isinstance(n, ast.ImportFrom) and any(a.name == '*' for a in n.names):
                    star = True
                if isinstance(n, ast.Global):
                    names |= set(n.names)
                if isinstance(n, ast.Subscript) and isinstance(n.ctx, ast.Store) and isinstance(n.value, ast.Call) and ast.unparse(n.value.func) in ('globals', 'vars', 'locals') or isinstance(n, ast.Call) and ast.unparse(n.func) in ('globals().update', 'exec'):
                    star = True
            m._names, m._star = names | {'__name__', '__file__', '__doc__', '__package__', '__path__'}, star
        return m._names


class Scope:
    """A module, class or function and the scopes around it."""

    def __init__(self, W, rep, m, cls, fi, node, outer):
        self.W, self.rep, self.m, self.cls, self.fi, self.node, self.outer = W, rep, m, cls, fi, node, outer
        if isinstance(node, ast.Module):
            self.bound = W.module_names(m)
        elif isinstance(node, ast.ClassDef):
            self.bound = bound_names(node.body)[0]
        else:
            body = node.body if isinstance(node.body, list) else [ast.Expr(node.body)]
            self.bound, self.declared = bound_names(body, node.args)
        self.types = {}

    @property
    def qual(self):
        names = [getattr(s.node, 'name', '<lambda>') for s in self.outer + (self,) if not isinstance(s.node, ast.Module)]
        return '.'.join([self.m.name] + names)

    def at(self, node):
        return f'{self.m.rel}:{getattr(node, "lineno", 0)}'

    def module(self):
        for s in self.node.body:
            self.statement(s, frozenset())

    # -------------------------------------------------- walking
    def inner(self, node, cls):
        s = Scope(self.W, self.rep, self.m, cls, None, node, self.outer + (self,))
        self.W.functions += not isinstance(node, ast.ClassDef)
        if isinstance(node, ast.ClassDef):
            for x in node.body:
                s.statement(x, frozenset())
            return
        self.flow(s, node)
        s.infer()
        body = node.body if isinstance(node.body, list) else [node.body]
        for x in body:
            s.statement(x, frozenset())

    def flow(self, s, node):
        f = Flow(node)
        open_ = {k for k, v in f.reads.items() if v[0] == 'open'}
        for k in sorted(f.seen):
            site = f'{self.m.rel}:{k[0]}:{k[1]} {k[2]}'
            self.rep.ob('assigned', site, 'undecided' if k in open_ else 'ok')
            v = f.reads.get(k)
            if v and v[0] == 'definite':
                facts = '; '.join(f'{a[0]}{" " + str(a[1]) if a[1][0] != "bool" else ""} is {a[2]}' for a in v[2].facts) or 'every path'
                self.rep.violate('assigned', site, self.at(v[1]), s.qual, k[2], f'not assigned on a path to this use ({facts})'[:250])

    def statement(self, n, hidden):
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)):
            for d in n.decorator_list + n.args.defaults + [x for x in n.args.kw_defaults if x]:
                self.statement(d, hidden)
            for a in n.args.posonlyargs + n.args.args + n.args.kwonlyargs + [x for x in (n.args.vararg, n.args.kwarg) if x]:
                if a.annotation is not None:
                    self.annotation(a.annotation, hidden)
            if n.returns is not None:
                self.annotation(n.returns, hidden)
            cls = self.W.prog.classes.get(f'{self.m.name}.{self.node.name}') if isinstance(self.node, ast.ClassDef) else None
            self.inner(n, cls)
            return
        if isinstance(n, ast.Lambda):
            for d in n.args.defaults + [x for x in n.args.kw_defaults if x]:
                self.statement(d, hidden)
            self.inner(n, None)
            return
        if isinstance(n, ast.ClassDef):
            for d in n.decorator_list + n.bases + [k.value for k in n.keywords]:
                self.statement(d, hidden)
            self.inner(n, None)
            return
        if isinstance(n, COMPS):
            own = {x for g in n.generators for x in target_names(g.target)}
            for c in ast.iter_child_nodes(n):
                self.statement(c, hidden | own)
            return
        if isinstance(n, ast.AnnAssign):
            self.annotation(n.annotation, hidden)
            for c in (n.target, n.value):
                if c is not None:
                    self.statement(c, hidden)
            return
        if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load):
            self.name(n, hidden)
        elif isinstance(n, ast.Attribute):
            self.attribute(n, hidden)
        elif isinstance(n, ast.Call):
            self.call(n, hidden)
        elif isinstance(n, ast.BinOp) and isinstance(n.op, ast.Mod):
            self.percent(n)
        elif isinstance(n, ast.Assign):
            self.unpack(n)
        elif isinstance(n, ast.ImportFrom):
            self.imported(n)
        for c in ast.iter_child_nodes(n):
            self.statement(c, hidden)

    def annotation(self, n, hidden):
        if any(isinstance(x, ast.ImportFrom) and x.module == '__future__' and any(a.name == 'annotations' for a in x.names) for x in self.m.tree.body):
            return
        self.statement(n, hidden)

    # -------------------------------------------------- rules
    def binding(self, name, hidden):
        """The scope that binds a name: a Scope, 'comprehension', 'language', or None."""
        if name in hidden:
            return 'comprehension'
        if name in self.bound and not (isinstance(self.node, (ast.FunctionDef, ast.AsyncFunctionDef)) and name in self.declared):
            return self
        for s in reversed(self.outer):
            if isinstance(s.node, ast.ClassDef):
                continue
            if name in s.bound:
                return s
        if name in BUILTINS:
            return 'language'
        return None

    def name(self, n, hidden):
        site = f'{self.m.rel}:{n.lineno}:{n.col_offset} {n.id}'
        self.rep.ob('names', site)
        if self.binding(n.id, hidden) is None:
            if self.m._star if hasattr(self.m, '_star') else False:
                self.rep.ob('names', site, 'undecided')
                return
            # an enclosing function may still be bound by a decorator or by the class body executed before it
            self.rep.violate('names', site, self.at(n), self.qual, n.id, 'a name that is bound nowhere')

    def imported(self, n):
        if n.level == 0 and not (n.module or '').startswith(PKG):
            return
        target = self.m._relmod(n.level, n.module or '') if n.level else n.module
        tm = self.W.prog.modules.get(target)
        for a in n.names:
            site = f'{self.m.rel}:{n.lineno} import {a.name}'
            self.rep.ob('names', site)
            if a.name == '*':
                continue
            if tm is None:
                if target == PKG or target.startswith(PKG + '.'):
                    self.rep.violate('names', site, self.at(n), self.qual, f'from {"." * n.level}{n.module or ""} import {a.name}', 'a module that does not exist is imported')
                continue
            names = self.W.module_names(tm)
            if a.name not in names and f'{target}.{a.name}' not in self.W.prog.modules and not tm._star:
                self.rep.violate('names', site, self.at(n), self.qual, f'from {"." * n.level}{n.module or ""} import {a.name}', 'an imported name does not exist')

    # ---- kinds of values
    def owner(self):
        """Class whose method this function belongs to, with the name of its instance (or class) parameter."""
        chain = self.outer + (self,)
        for i in range(len(chain) - 1, -1, -1):
            s = chain[i]
            if s.cls is not None and isinstance(s.node, (ast.FunctionDef, ast.AsyncFunctionDef)):
                decs = {ast.unparse(d) for d in s.node.decorator_list}
                args = s.node.args.posonlyargs + s.node.args.args
                if 'staticmethod' in decs or not args:
                    return None
                p = args[0].arg
                # the name must still mean the parameter
                for t in chain[i:]:
                    if t is not s and p in t.bound:
                        return None
                stores = [x for x in ast.walk(s.node) if isinstance(x, ast.Name) and x.id == p and isinstance(x.ctx, ast.Store)]
                if stores:
                    return None
                return s.cls, p, 'classmethod' in decs or s.node.name in ('__new__', '__init_subclass__', '__class_getitem__')
        return None

    def infer(self):
        """Local variables that only ever hold new objects of one class."""
        found = {}
        for n in ast.walk(self.node):
            if isinstance(n, ast.Assign):
                for t in n.targets:
                    for x in target_names(t):
                        k = self.made(n.value) if isinstance(t, ast.Name) else None
                        found.setdefault(x, []).append(k)
            elif isinstance(n, (ast.AugAssign, ast.AnnAssign, ast.For, ast.comprehension, ast.NamedExpr)):
                for x in target_names(n.target):
                    found.setdefault(x, []).append(None)
            elif isinstance(n, (ast.With, ast.AsyncWith)):
                for i in n.items:
                    if i.optional_vars is not None:
                        for x in target_names(i.optional_vars):
                            found.setdefault(x, []).append(None)
        a = self.node.args
        for x in a.posonlyargs + a.args + a.kwonlyargs + [y for y in (a.vararg, a.kwarg) if y]:
            found.setdefault(x.arg, []).append(None)
        self.types = {n: v[0] for n, v in found.items() if v[0] is not None and all(x is v[0] for x in v)}

    def made(self, e):
        if isinstance(e, ast.Call):
            r = self.static(e.func, frozenset())
            if r and r[0] == 'class':
                return r[1]
            if r and r[0] == 'func':
                return self.returned(r[1], None)
            if r and r[0] == 'method' and r[1][0] in ('class', 'instance'):
                c, a = r[1][1].lookup(r[2])
                return self.returned(a['fi'], r[1][1])
        return None

    def returned(self, fi, cls):
        """Class of which a function always returns a new object."""
        key = (fi.qual, cls)
        if key not in self.W.returns:
            self.W.returns[key] = None
            if any(ast.unparse(d) not in ('classmethod', 'staticmethod') for d in fi.node.decorator_list) or any(isinstance(x, (ast.Yield, ast.YieldFrom)) for x in ast.walk(fi.node)):
                return None
            todo, rets = list(fi.node.body), []
            while todo:
                x = todo.pop()
                if isinstance(x, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef, ast.Lambda)):
                    continue
                if isinstance(x, ast.Return):
                    rets.append(x.value)
                todo += list(ast.iter_child_nodes(x))
            own = Scope(self.W, self.rep, fi.module, fi.cls, fi, fi.node, (Scope(self.W, self.rep, fi.module, None, None, fi.module.tree, ()),))
            own.infer()
            ks = set()
            for v in rets:
                k = None
                if isinstance(v, ast.Name):
                    k = own.types.get(v.id)
                elif isinstance(v, ast.Call):
                    if isinstance(v.func, ast.Name) and cls is not None and is_classmethod(fi) and v.func.id == fi.node.args.args[0].arg:
                        k = cls
                    else:
                        k = own.made(v)
                ks.add(k)
            if len(ks) == 1:
                self.W.returns[key] = next(iter(ks))
        return self.W.returns[key]

    def static(self, e, hidden):
        """('class', ClassInfo) | ('func', FuncInfo) | ('mod', name) | ('instance', ClassInfo) of an expression, as far as it is certain."""
        if isinstance(e, ast.Name):
            b = self.binding(e.id, hidden)
            o = self.owner()
            if o and e.id == o[1] and e.id not in hidden:
                return ('classof' if o[2] else 'instance', o[0])
            if isinstance(b, Scope):
                if isinstance(b.node, ast.Module):
                    r = self.W.prog.resolve(self.m, e.id)
                    if r and r[0] in ('class', 'func', 'mod') and self.once(e.id):
                        return r
                elif e.id in b.types and b is self:
                    return ('instance', b.types[e.id])
                else:
                    r = self.local_import(b, e.id)
                    if r:
                        return r
            return None
        if isinstance(e, ast.Attribute):
            r = self.static(e.value, hidden)
            if r and r[0] == 'mod':
                x = self.W.prog.resolve(self.W.prog.modules[r[1]], e.attr)
                return x if x and x[0] in ('class', 'func', 'mod') else None
            if r and r[0] in ('class', 'classof', 'instance'):
                c, a = r[1].lookup(e.attr)
                if a and a['kind'] == 'func':
                    return ('method', r, e.attr)
            return None
        if isinstance(e, ast.Call):
            r = self.static(e.func, hidden)
            if r and r[0] in ('class',):
                return ('instance', r[1])
        return None

    def once(self, name):
        """Bound once in its module."""
        n = 0
        for s in ast.walk(self.m.tree):
            if isinstance(s, (ast.FunctionDef, ast.ClassDef)) and s.name == name or isinstance(s, ast.Name) and s.id == name and isinstance(s.ctx, ast.Store):
                n += 1
            elif isinstance(s, (ast.Import, ast.ImportFrom)):
                n += any((a.asname or a.name).split('.')[0] == name for a in s.names)
        return n == 1

    def local_import(self, scope, name):
        binds = [x for x in ast.walk(scope.node) if isinstance(x, ast.Name) and x.id == name and isinstance(x.ctx, ast.Store)]
        if binds:
            return None
        for x in ast.walk(scope.node):
            if isinstance(x, ast.ImportFrom):
                for a in x.names:
                    if (a.asname or a.name) == name:
                        target = self.m._relmod(x.level, x.module or '') if x.level else x.module
                        tm = self.W.prog.modules.get(target)
                        if tm:
                            r = self.W.prog.resolve(tm, a.name)
                            return r if r and r[0] in ('class', 'func', 'mod') else None
        return None

    def attribute(self, n, hidden):
        if not isinstance(n.ctx, ast.Load):
            return
        r = self.static(n.value, hidden)
        if not r or r[0] not in ('instance', 'class', 'classof', 'mod'):
            return
        site = f'{self.m.rel}:{n.lineno}:{n.col_offset} {ast.unparse(n)[:80]}'
        self.rep.ob('attributes', site)
        if r[0] == 'mod':
            tm = self.W.prog.modules.get(r[1])
            if tm is None:
                return
            if n.attr not in self.W.module_names(tm) and f'{r[1]}.{n.attr}' not in self.W.prog.modules and n.attr not in BUILTINS:
                if tm._star:
                    self.rep.ob('attributes', site, 'undecided')
                else:
                    self.rep.violate('attributes', site, self.at(n), self.qual, ast.unparse(n)[:200], f'module {r[1]} has no {n.attr}')
            return
        ok = self.W.attribute(r[1], n.attr)
        if ok is False and self.guarded(n):
            ok = None
        if ok is None:
            self.rep.ob('attributes', site, 'undecided')
        elif not ok:
            self.rep.violate('attributes', site, self.at(n), self.qual, ast.unparse(n)[:200], f'{r[1].name} has no attribute {n.attr}')

    def guarded(self, n):
        """hasattr() or a handler of AttributeError in the function."""
        for x in ast.walk(self.node):
            if isinstance(x, ast.Call) and isinstance(x.func, ast.Name) and x.func.id == 'hasattr':
                return True
            if isinstance(x, ast.ExceptHandler) and (x.type is None or any(k in ast.unparse(x.type) for k in ('AttributeError', 'Exception'))):
                return True
        return False

    # ---- calls
    def call(self, n, hidden):
        self.format_call(n)
        r = self.static(n.func, hidden)
        if not r:
            self.duck(n)
            return
        targets = []
        if r[0] == 'func':
            targets = [(r[1], 0)]
        elif r[0] == 'class':
            targets = self.constructor(r[1])
        elif r[0] == 'classof':
            targets = [t for c in self.W.subs.get(r[1], {r[1]}) for t in self.constructor(c)]
        elif r[0] == 'method':
            kind, c = r[1]
            for k in (self.W.subs.get(c, {c}) if kind == 'instance' or kind == 'classof' else {c}):
                d, a = k.lookup(r[2])
                if not a or a['kind'] != 'func':
                    continue
                fi = a['fi']
                targets.append((fi, 0 if is_static(fi) else 1 if is_classmethod(fi) or kind == 'instance' else 0))
        if not targets:
            return
        site = f'{self.m.rel}:{n.lineno}:{n.col_offset} {ast.unparse(n.func)[:60]}()'
        self.rep.ob('calls', site)
        for fi, skip in targets:
            v = self.visible(fi)
            if v is None:
                self.rep.ob('calls', site, 'undecided')
                continue
            msg = self.fits(fi, skip, n)
            if msg:
                self.rep.violate('calls', site, self.at(n), self.qual, ast.unparse(n)[:200], f'{fi.qual} {msg}')
                return

    def duck(self, n):
        """A method call on a receiver of unknown class, by a name that only classes of the package use: some method of
        that name must accept the arguments."""
        if not isinstance(n.func, ast.Attribute) or '_' not in n.func.attr.strip('_') or n.func.attr in BUILTIN:
            return
        name = n.func.attr
        found = [(c, c.attrs[name]) for c in self.W.prog.classes.values() if name in c.attrs]
        if not found or any(a['kind'] != 'func' for c, a in found) or name in self.W.stored:
            return
        site = f'{self.m.rel}:{n.lineno}:{n.col_offset} {ast.unparse(n.func)[:60]}()'
        self.rep.ob('calls', site)
        msgs = []
        for c, a in found:
            fi = a['fi']
            if self.visible(fi) is None:
                self.rep.ob('calls', site, 'undecided')
                return
            # through an instance or through the class: either count of arguments will do
            m = self.fits(fi, 0 if is_static(fi) else 1, n)
            if m and not is_static(fi) and not is_classmethod(fi):
                m = self.fits(fi, 0, n) and m
            if not m:
                return
            msgs.append(f'{fi.qual} {m}')
        self.rep.violate('calls', site, self.at(n), self.qual, ast.unparse(n)[:200], '; '.join(msgs))

    def constructor(self, c):
        if any(isinstance(k, str) and k.split('.')[-1] not in ('object', 'ABC') for k in c.mro()) and c.lookup('__init__')[1] is None:
            return []
        if c.lookup('__new__')[1] is not None or any(k.node.keywords for k in c.mro() if isinstance(k, ClassInfo)):
            return []
        d, a = c.lookup('__init__')
        return [(a['fi'], 1)] if a and a['kind'] == 'func' else []

    def visible(self, fi):
        """Decorators that keep the parameters of the function."""
        for d in fi.node.decorator_list:
            f = d.func if isinstance(d, ast.Call) else d
            n = ast.unparse(f).split('.')[-1]
            if n in KEEP or n == 'setter':
                continue
            r = self.W.prog.resolve_expr(fi.module, f)
            if r and r[0] == 'func' and self.transparent(r[1], isinstance(d, ast.Call)):
                continue
            if n in ('lru_cache', 'cache') or n.startswith('register_'):
                continue
            return None
        return True

    def transparent(self, fi, factory):
        """A decorator whose result passes all its arguments on, or is the function itself."""
        inner = [x for x in ast.walk(fi.node) if isinstance(x, (ast.FunctionDef, ast.AsyncFunctionDef)) and x is not fi.node]
        for x in inner:
            if x.args.vararg and x.args.kwarg:
                return True
        return any(isinstance(x, ast.Return) and isinstance(x.value, ast.Name) and x.value.id in {a.arg for f in inner + [fi.node] for a in f.args.args} for x in ast.walk(fi.node))

    def fits(self, fi, skip, n):
        a = fi.node.args
        pos = [x.arg for x in a.posonlyargs + a.args][skip:]
        only = {x.arg for x in a.posonlyargs}
        kwo = [x.arg for x in a.kwonlyargs]
        need = [x.arg for x in (a.posonlyargs + a.args)][skip:len(a.posonlyargs + a.args) - len(a.defaults)]
        star = any(isinstance(x, ast.Starred) for x in n.args)
        dstar = any(k.arg is None for k in n.keywords)
        given = [x for x in n.args if not isinstance(x, ast.Starred)]
        if len(given) > len(pos) and not a.vararg:
            return f'takes {len(pos)} positional arguments, not {len(given)}'
        names = {k.arg for k in n.keywords if k.arg}
        for k in names:
            if (k not in pos or k in only) and k not in kwo and not a.kwarg:
                return f'has no parameter {k}'
            if k in pos[:len(given)]:
                return f'gets {k} twice'
        if not star and not dstar:
            for x in need[len(given):]:
                if x not in names:
                    return f'needs {x}'
        if not dstar:
            for x, d in zip(a.kwonlyargs, a.kw_defaults):
                if d is None and x.arg not in names:
                    return f'needs {x.arg}'
        return None

    # ---- formats
    def text(self, e):
        if isinstance(e, ast.Constant) and isinstance(e.value, str):
            return e.value
        return None

    def format_call(self, n):
        f = n.func
        if isinstance(f, ast.Attribute) and f.attr == 'format' and self.text(f.value) is not None:
            site = f'{self.m.rel}:{n.lineno} format'
            self.rep.ob('formats', site)
            if any(isinstance(x, ast.Starred) for x in n.args) or any(k.arg is None for k in n.keywords):
                self.rep.ob('formats', site, 'undecided')
                return
            try:
                fields = [x[1] for x in string.Formatter().parse(f.value.value) if x[1] is not None]
            except ValueError as e:
                self.rep.violate('formats', site, self.at(n), self.qual, f.value.value[:100], str(e))
                return
            auto = 0
            for x in fields:
                k = re.split(r'[.\[]', x)[0]
                if k == '':
                    k, auto = auto, auto + 1
                elif k.isdigit():
                    k = int(k)
                if isinstance(k, int) and k >= len(n.args) or isinstance(k, str) and k not in {q.arg for q in n.keywords}:
                    self.rep.violate('formats', site, self.at(n), self.qual, f.value.value[:100], f'no value for field {k}')
        name = ast.unparse(f) if isinstance(f, (ast.Attribute, ast.Name)) else ''
        if name.split('.')[-1] == 'pack' and name.split('.')[0] in ('struct', 'pack') and n.args and self.text(n.args[0]) is not None and not any(isinstance(x, ast.Starred) for x in n.args):
            site = f'{self.m.rel}:{n.lineno} pack'
            self.rep.ob('formats', site)
            c = self.values(n.args[0].value)
            if c is None or c != len(n.args) - 1:
                self.rep.violate('formats', site, self.at(n), self.qual, ast.unparse(n)[:100], 'an invalid format' if c is None else f'the format takes {c} values, not {len(n.args) - 1}')

    def values(self, fmt):
        try:
            return len(struct.unpack(fmt, bytes(struct.calcsize(fmt))))
        except struct.error:
            return None

    def unpack(self, n):
        v = n.value
        if isinstance(v, ast.Call) and isinstance(v.func, ast.Attribute) and v.func.attr in ('unpack', 'unpack_from') and ast.unparse(v.func.value) == 'struct' and v.args and self.text(v.args[0]) is not None:
            for t in n.targets:
                if isinstance(t, (ast.Tuple, ast.List)) and not any(isinstance(x, ast.Starred) for x in t.elts):
                    site = f'{self.m.rel}:{n.lineno} unpack'
                    self.rep.ob('formats', site)
                    c = self.values(v.args[0].value)
                    if c is None or c != len(t.elts):
                        self.rep.violate('formats', site, self.at(n), self.qual, ast.unparse(n)[:100], 'an invalid format' if c is None else f'the format gives {c} values, not {len(t.elts)}')

    def percent(self, n):
        t = self.text(n.left)
        if t is None:
            return
        site = f'{self.m.rel}:{n.lineno} %'
        self.rep.ob('formats', site)
        fields = [x for x in re.findall(r'%(\(\w+\))?[#0\- +]*(?:\*|\d+)?(?:\.(?:\*|\d+))?[hlL]?([a-zA-Z%])', t) if x[1] != '%']
        if isinstance(n.right, ast.Tuple) and not any(isinstance(x, ast.Starred) for x in n.right.elts) and not any(x[0] for x in fields) and '*' not in t and len(fields) != len(n.right.elts):
            self.rep.violate('formats', site, self.at(n), self.qual, t[:100], f'{len(fields)} fields for {len(n.right.elts)} values')
