"""The registered file-format readers and writers, and their interpretation from a symbolic file handle."""
from ..common import *

FH = mk('param', 'filehandle')


def _registered(prog, what):
    key = '_reg_' + what
    if hasattr(prog, key):
        return getattr(prog, key)
    out = []
    it = Interp(prog, None)
    for m in prog.modules.values():
        for node in ast.walk(m.tree):
            if not isinstance(node, (ast.FunctionDef, ast.AsyncFunctionDef)):
                continue
            for d in node.decorator_list:
                if isinstance(d, ast.Call) and (isinstance(d.func, ast.Attribute) and d.func.attr == what or isinstance(d.func, ast.Name) and d.func.id == what):
                    r = prog.resolve(m, node.name)
                    fi = r[1] if r and r[0] == 'func' else FuncInfo(node, m)
                    kws = {}
                    st = State()
                    from ..interp import Frame, FrameCtx
                    st.frames.append(Frame({}))
                    it.sinks.append([])
                    for k in d.keywords:
                        kws[k.arg] = it.ev(k.value, st, FrameCtx(None, m, None))
                    it.sinks.pop()
                    out.append((fi, d, kws))
    setattr(prog, key, out)
    return out


def strings(t):
    """Constant alternatives of a registration argument: a value or a list/tuple of values (None: not constant)."""
    if t is None:
        return ()
    if t.op == 'const':
        return (t.a[0],)
    if t.op in ('tuple', 'list'):
        out = ()
        for x in t.a[0]:
            s = strings(x)
            if s is None:
                return None
            out += s
        return out
    return None


def readers(prog):
    """[(suffix, FuncInfo)], one per registered reader function (first suffix names it)."""
    out = []
    for fi, d, kws in _registered(prog, 'register_reader'):
        s = strings(kws.get('suffix'))
        out.append((s[0] if s else fi.name, fi))
    return sorted(out, key=lambda x: str(x[0]))


def writers(prog):
    out = []
    for fi, d, kws in _registered(prog, 'register_writer'):
        s = strings(kws.get('suffix'))
        out.append((s[0] if s else fi.name, fi))
    return sorted(out, key=lambda x: str(x[0]))


def run_reader(prog, fi, hooks=None, layers=None, encoding=None):
    r = Run(prog, hooks)
    kws = {}
    pos, kwo, va, kwn, dfl = sig(fi)
    for n in pos[1:] + kwo:
        kws[n] = mk('param', n)
    if layers is not None:
        kws['read_image_layers'] = layers
    if encoding is not None:
        kws['encoding'] = encoding
    r.call(mk('func', fi.qual) if False else r.it.func_value(fi), [mk('param', pos[0])], kws)
    return r


def raw_of(r):
    """The raw surfaces a reader may return."""
    out = []
    for v in alts(r.val):
        h = r.st.heap.get(v.a[0]) if v.op == 'obj' else None
        if h is not None and isinstance(h.cls, ClassInfo) and 'data' in h.fields:
            out.append(v)
    return out


def run_writer(prog, fi, hooks=None, kwargs=None, surface=None):
    r = Run(prog, hooks)
    pos, kwo, va, kwn, dfl = sig(fi)
    kws = {n: mk('param', n) for n in pos[2:] + kwo}
    kws.update(kwargs or {})
    s = prog.find_class('Surface')
    o = r.obj(s)
    r.surface = o
    r.call(r.it.func_value(fi), [mk('param', 'filehandle'), o], kws)
    return r
