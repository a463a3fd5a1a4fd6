"""Hash-consed value-flow terms: the nodes of the interprocedural value-flow graph.

A term says *where a value comes from*, never what it is at run time.  Every
property check is a query over these terms.
"""
import itertools


class T:
    __slots__ = ('op', 'a', 'node', 'mod', 'uid')
    _tab = {}
    _uid = itertools.count()

    def __repr__(self):
        return show(self)


def _key(x):
    if isinstance(x, T):
        return ('T', x.uid)
    if isinstance(x, tuple):
        return ('t',) + tuple(_key(e) for e in x)
    if isinstance(x, float) and x != x:
        return ('nan',)
    return (type(x).__name__, x)


def mk(op, *a, node=None, mod=None):
    k = (op,) + tuple(_key(x) for x in a)
    t = T._tab.get(k)
    if t is None:
        t = T()
        t.op, t.a, t.node, t.mod, t.uid = op, a, node, mod, next(T._uid)
        T._tab[k] = t
    return t


def const(v):
    return mk('const', v)


NONE = const(None)
TRUE = const(True)
FALSE = const(False)
UNBOUND = mk('unbound')
_fresh = itertools.count(1)


def unk(why='?'):
    return mk('unk', next(_fresh), why)


def is_const(t, v=...):
    return t.op == 'const' and (v is ... or (t.a[0] is v or (type(t.a[0]) is type(v) and t.a[0] == v)))


def children(t):
    out = []

    def rec(x):
        if isinstance(x, T):
            out.append(x)
        elif isinstance(x, tuple):
            for e in x:
                rec(e)
    rec(t.a)
    return out


def phi(alts, conds=()):
    flat, seen, cs = [], set(), {}
    for c in conds:
        cs[c.uid] = c

    def add(x):
        if x.op == 'phi':
            for y in x.a[0]:
                add(y)
            for c in x.a[1]:
                cs[c.uid] = c
        elif x.uid not in seen:
            seen.add(x.uid)
            flat.append(x)
    for x in alts:
        add(x)
    if len(flat) == 1:
        return flat[0]
    flat.sort(key=lambda x: x.uid)
    return mk('phi', tuple(flat), tuple(cs[k] for k in sorted(cs)))


def alts(t):
    """The alternatives of a join."""
    if t.op == 'phi':
        return list(t.a[0])
    return [t]


def walk(t, into_conds=True, seen=None, loops=None):
    """All terms reachable from t (data edges; control edges of joins when into_conds)."""
    seen = set() if seen is None else seen
    st = [t]
    while st:
        x = st.pop()
        if x.uid in seen:
            continue
        seen.add(x.uid)
        yield x
        if x.op == 'phi' and not into_conds:
            st.extend(x.a[0])
        else:
            st.extend(children(x))
        if loops is not None and x.op == 'loopvar' and x.a[0] in loops:
            st.append(loops[x.a[0]])


def show(t, d=6):
    if not isinstance(t, T):
        if isinstance(t, tuple):
            return '(' + ', '.join(show(x, d) for x in t) + ')'
        return str(t)
    if d <= 0:
        return '…'
    o, a = t.op, t.a
    s = lambda x: show(x, d - 1)
    if o == 'const':
        return repr(a[0])
    if o == 'param':
        return a[0]
    if o == 'field':
        return f'{s(a[0])}.{a[1]}'
    if o == 'obj':
        return f'<{a[1]}#{a[0]}>'
    if o == 'ext':
        return a[0]
    if o in ('func', 'class', 'mod'):
        return a[0]
    if o == 'bound':
        return f'{s(a[1])}.{s(a[0])}'
    if o == 'call':
        return f'{s(a[0])}(' + ', '.join([s(x) for x in a[1]] + [f'{k}={s(v)}' for k, v in a[2]]) + ')'
    if o == 'mcall':
        return f'{s(a[0])}.{a[1]}(' + ', '.join([s(x) for x in a[2]] + [f'{k}={s(v)}' for k, v in a[3]]) + ')'
    if o == 'sub':
        return f'{s(a[0])}[{s(a[1])}]'
    if o == 'slice':
        return ':'.join('' if is_const(x, None) else s(x) for x in a)
    if o in ('tuple', 'list'):
        return '(' + ', '.join(s(x) for x in a[0]) + ')'
    if o == 'bin':
        return f'({s(a[1])} {a[0]} {s(a[2])})'
    if o == 'cmp':
        return f'({s(a[1])} {a[0]} {s(a[2])})'
    if o == 'un':
        return f'({a[0]} {s(a[1])})'
    if o == 'bool':
        return '(' + f' {a[0]} '.join(s(x) for x in a[1]) + ')'
    if o == 'phi':
        return 'one-of{' + ' | '.join(s(x) for x in a[0]) + '}'
    if o == 'ro':
        return f'readonly({s(a[0])})'
    if o == 'loopvar':
        return f'{a[1]}@loop'
    return o + '(' + ', '.join(s(x) if isinstance(x, (T, tuple)) else str(x) for x in a) + ')'
