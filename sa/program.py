"""Source model of the analysed package: modules, symbols, classes, MRO (stdlib ast only)."""
import ast
import os

REPO = os.environ.get('SA_REPO', '/repo')
PKG = 'surfalize'


class AnalysisError(Exception):
    """The analysis cannot be carried out (vanished anchor, unparsable module)."""


class FuncInfo:
    def __init__(self, node, module, cls=None, prefix=None):
        self.node, self.module, self.cls = node, module, cls
        base = cls.qual if cls else (prefix or module.name)
        self.name = node.name
        self.qual = f'{base}.{node.name}'

    def where(self):
        return f'{self.module.rel}:{self.node.lineno}'

    def __repr__(self):
        return self.qual


class ClassInfo:
    def __init__(self, node, module):
        self.node, self.module = node, module
        self.name = node.name
        self.qual = f'{module.name}.{node.name}'
        self.attrs = {}
        self.bases = []          # ClassInfo or dotted string
        for st in _flatten(node.body):
            if isinstance(st, (ast.FunctionDef, ast.AsyncFunctionDef)):
                decs = [d for d in st.decorator_list]
                fi = FuncInfo(st, module, self)
                kind = 'func'
                for d in decs:
                    if isinstance(d, ast.Name) and d.id in ('property', 'cached_property') or \
                            isinstance(d, ast.Attribute) and d.attr == 'cached_property':
                        kind = 'property'
                    elif isinstance(d, ast.Attribute) and d.attr in ('setter', 'getter', 'deleter') and isinstance(d.value, ast.Name):
                        kind = d.attr
                if kind == 'property':
                    self.attrs[st.name] = {'kind': 'property', 'get': fi, 'set': None}
                elif kind == 'setter':
                    fi.qual += '@set'
                    self.attrs.setdefault(st.name, {'kind': 'property', 'get': None, 'set': None})['set'] = fi
                elif kind == 'func':
                    self.attrs[st.name] = {'kind': 'func', 'fi': fi}
            elif isinstance(st, ast.Assign):
                for tg in st.targets:
                    if isinstance(tg, ast.Name):
                        # x = property(getter, setter)
                        v = st.value
                        if isinstance(v, ast.Call) and isinstance(v.func, ast.Name) and v.func.id == 'property':
                            names = [a.id for a in v.args if isinstance(a, ast.Name)]
                            g = self.attrs.get(names[0], {}).get('fi') if names else None
                            s = self.attrs.get(names[1], {}).get('fi') if len(names) > 1 else None
                            self.attrs[tg.id] = {'kind': 'property', 'get': g, 'set': s}
                        else:
                            self.attrs[tg.id] = {'kind': 'assign', 'expr': v}
            elif isinstance(st, ast.AnnAssign) and isinstance(st.target, ast.Name):
                self.attrs[st.target.id] = {'kind': 'ann', 'expr': st.value}
        self._mro = None

    def mro(self):
        if self._mro is None:
            out = [self]
            seqs = [list(b.mro()) if isinstance(b, ClassInfo) else [b] for b in self.bases]
            seqs.append(list(self.bases))
            while any(seqs):
                for s in seqs:
                    if s and not any(s[0] in r[1:] for r in seqs):
                        c = s[0]
                        break
                else:
                    c = next(s for s in seqs if s)[0]
                out.append(c)
                for s in seqs:
                    if s and s[0] is c:
                        s.pop(0)
                    elif c in s:
                        s.remove(c)
            self._mro = out
        return self._mro

    def lookup(self, name, after=None):
        m = self.mro()
        if after is not None:
            m = m[m.index(after) + 1:] if after in m else m
        for c in m:
            if isinstance(c, ClassInfo) and name in c.attrs:
                return c, c.attrs[name]
        return None, None

    def ext_bases(self):
        return [c for c in self.mro() if isinstance(c, str)]

    def is_sub(self, other):
        return other in self.mro()

    def methods(self):
        """name -> (defining class, entry) over the MRO."""
        out = {}
        for c in self.mro():
            if isinstance(c, ClassInfo):
                for n, e in c.attrs.items():
                    out.setdefault(n, (c, e))
        return out

    def __repr__(self):
        return self.qual


def _flatten(body):
    for st in body:
        if isinstance(st, ast.If):
            yield from _flatten(st.body)
            yield from _flatten(st.orelse)
        elif isinstance(st, ast.Try):
            yield from _flatten(st.body)
            for h in st.handlers:
                yield from _flatten(h.body)
            yield from _flatten(st.orelse)
        elif isinstance(st, ast.With):
            yield from _flatten(st.body)
        else:
            yield st


class Module:
    def __init__(self, name, path, rel):
        self.name, self.path, self.rel = name, path, rel
        with open(path, encoding='utf-8') as f:
            self.src = f.read()
        self.tree = ast.parse(self.src, path)
        self.is_pkg = os.path.basename(path) == '__init__.py'
        self.syms = {}
        self.classes, self.funcs = {}, {}
        for st in _flatten(self.tree.body):
            self._bind(st)

    def _relmod(self, level, mod):
        if level == 0:
            return mod
        parts = self.name.split('.')
        if not self.is_pkg:
            parts = parts[:-1]
        parts = parts[:len(parts) - (level - 1)]
        return '.'.join(parts + ([mod] if mod else []))

    def _bind(self, st):
        if isinstance(st, ast.Import):
            for a in st.names:
                if a.asname:
                    self.syms[a.asname] = ('mod', a.name)
                else:
                    self.syms[a.name.split('.')[0]] = ('mod', a.name.split('.')[0])
        elif isinstance(st, ast.ImportFrom):
            m = self._relmod(st.level, st.module or '')
            for a in st.names:
                self.syms[a.asname or a.name] = ('from', m, a.name)
        elif isinstance(st, (ast.FunctionDef, ast.AsyncFunctionDef)):
            fi = FuncInfo(st, self)
            self.funcs[st.name] = fi
            self.syms[st.name] = ('func', fi)
        elif isinstance(st, ast.ClassDef):
            ci = ClassInfo(st, self)
            self.classes[st.name] = ci
            self.syms[st.name] = ('class', ci)
        elif isinstance(st, ast.Assign):
            for tg in st.targets:
                if isinstance(tg, ast.Name):
                    self.syms[tg.id] = ('assign', st.value)
                elif isinstance(tg, (ast.Tuple, ast.List)):
                    for i, e in enumerate(tg.elts):
                        if isinstance(e, ast.Name):
                            self.syms[e.id] = ('assign_item', st.value, i)
        elif isinstance(st, ast.AnnAssign) and isinstance(st.target, ast.Name) and st.value is not None:
            self.syms[st.target.id] = ('assign', st.value)


class Program:
    def __init__(self, repo=None):
        self.repo = repo or REPO
        self.modules = {}
        root = os.path.join(self.repo, PKG)
        if not os.path.isdir(root):
            raise AnalysisError(f'package directory {root} not found')
        for d, dirs, files in os.walk(root):
            dirs[:] = sorted(x for x in dirs if x != '__pycache__')
            for f in sorted(files):
                if f.endswith('.py'):
                    p = os.path.join(d, f)
                    rel = os.path.relpath(p, self.repo)
                    name = rel[:-3].replace(os.sep, '.')
                    if name.endswith('.__init__'):
                        name = name[:-9]
                    self.modules[name] = Module(name, p, rel)
        self.classes = {}
        self.funcs = {}
        for m in self.modules.values():
            for c in m.classes.values():
                self.classes[c.qual] = c
                for e in c.attrs.values():
                    for k in ('fi', 'get', 'set'):
                        fi = e.get(k)
                        if isinstance(fi, FuncInfo):
                            self.funcs.setdefault(fi.qual, fi)
            for f in m.funcs.values():
                self.funcs[f.qual] = f
        for c in self.classes.values():
            for b in c.node.bases:
                r = self.resolve_expr(c.module, b)
                c.bases.append(r[1] if r and r[0] == 'class' else (r[1] if r and r[0] == 'ext' else ast.unparse(b)))

    # -- static symbol resolution --------------------------------------------------
    def resolve(self, module, name, _seen=None):
        """-> ('class',ClassInfo) | ('func',FuncInfo) | ('mod',name) | ('ext',dotted) | ('assign',module,expr[,i]) | None"""
        _seen = _seen or set()
        if (module.name, name) in _seen:
            return None
        _seen.add((module.name, name))
        s = module.syms.get(name)
        if s is None:
            sub = module.name + '.' + name
            if module.is_pkg and sub in self.modules:
                return ('mod', sub)
            return None
        if s[0] == 'mod':
            return ('mod', s[1]) if s[1] in self.modules else ('ext', s[1])
        if s[0] == 'from':
            m = self.modules.get(s[1])
            if m is None:
                return ('ext', f'{s[1]}.{s[2]}')
            r = self.resolve(m, s[2], _seen)
            if r is None and f'{s[1]}.{s[2]}' in self.modules:
                return ('mod', f'{s[1]}.{s[2]}')
            return r
        if s[0] in ('func', 'class'):
            return s
        if s[0] == 'assign':
            return ('assign', module, s[1])
        if s[0] == 'assign_item':
            return ('assign', module, s[1], s[2])

    def resolve_expr(self, module, e):
        if isinstance(e, ast.Name):
            r = self.resolve(module, e.id)
            return r if r else ('ext', e.id)
        if isinstance(e, ast.Attribute):
            b = self.resolve_expr(module, e.value)
            if b and b[0] == 'mod':
                return self.resolve(self.modules[b[1]], e.attr)
            if b and b[0] == 'ext':
                return ('ext', b[1] + '.' + e.attr)
        return None

    def cls(self, qual):
        if qual not in self.classes:
            raise AnalysisError(f'anchor class {qual} not found')
        return self.classes[qual]

    def find_class(self, name):
        """Public class by simple name, wherever it is defined."""
        c = [c for c in self.classes.values() if c.name == name]
        if not c:
            raise AnalysisError(f'anchor class {name} not found')
        if len(c) > 1:
            # prefer the one the package exports
            init = self.modules[PKG]
            r = self.resolve(init, name)
            if r and r[0] == 'class':
                return r[1]
        return c[0]

    def find_func(self, modname, name):
        m = self.modules.get(modname)
        if m is not None:
            r = self.resolve(m, name)
            if r and r[0] == 'func':
                return r[1]
        raise AnalysisError(f'anchor function {modname}.{name} not found')

    def all_funcs(self):
        """Every function/lambda-free def in the package, nested ones included: (module, cls|None, node)."""
        for m in self.modules.values():
            stack = [(None, st) for st in m.tree.body]
            while stack:
                cls, n = stack.pop()
                if isinstance(n, ast.ClassDef):
                    stack.extend((n.name, x) for x in n.body)
                    continue
                if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)):
                    yield m, cls, n
                stack.extend((cls, x) for x in ast.iter_child_nodes(n))
