"""Array storage: which storage an array value may share."""
from .terms import *
from .interp import strip_view

VIEW_METHODS = {'view', 'reshape', 'ravel', 'squeeze', 'transpose', 'swapaxes', 'diagonal', '__getitem__', 'newbyteorder'}
VIEW_FIELDS = {'T', 'real', 'flat', 'base'}
VIEW_CALLS = {'numpy.' + n for n in (
    'asarray', 'ravel', 'squeeze', 'reshape', 'asanyarray', 'atleast_1d', 'atleast_2d', 'transpose', 'flipud', 'fliplr', 'flip', 'rot90', 'swapaxes',
    'moveaxis', 'expand_dims', 'ascontiguousarray', 'asfortranarray', 'broadcast_to', 'require', 'asarray_chkfinite', 'real', 'rollaxis', 'diagonal')}
COPY_METHODS = {'copy', 'astype', 'flatten', '__copy__', '__deepcopy__'}
COPY_CALLS = {'numpy.array', 'numpy.copy', 'copy.copy', 'copy.deepcopy'}


def kw(t, name):
    """Value of a keyword of a call/mcall term."""
    for k, v in (t.a[2] if t.op == 'call' else t.a[3]):
        if k == name:
            return v
    return None


def is_view_index(i):
    """Basic indexing (a view) vs. possibly advanced indexing (a copy)."""
    if i.op in ('slice', 'const', 'loopvar', 'idx', 'rangeidx', 'param', 'ext'):
        return True
    if i.op == 'tuple':
        return all(is_view_index(x) or x.op in ('bin', 'elem') for x in i.a[0]) and any(x.op == 'slice' or is_const(x) for x in i.a[0])
    return False


def roots(t, out=None, depth=0):
    """Storage roots an array value may share: terms that own storage, reached through views only."""
    out = [] if out is None else out
    if depth > 60:
        return out
    go = lambda x: roots(x, out, depth + 1)
    if t.op in ('ro', 'store'):
        go(t.a[0])
    elif t.op == 'sub':
        out.append(t)
        if is_view_index(t.a[1]):
            go(t.a[0])
    elif t.op == 'mcall' and t.a[1] in VIEW_METHODS:
        out.append(t)
        go(t.a[0])
    elif t.op == 'mcall' and t.a[1] == 'astype' and kw(t, 'copy') is not None and not is_const(kw(t, 'copy'), True):
        out.append(t)
        go(t.a[0])
    elif t.op == 'field' and t.a[1] in VIEW_FIELDS:
        out.append(t)
        go(t.a[0])
    elif t.op == 'phi':
        for x in alts(t):
            go(x)
    elif t.op == 'call' and t.a[0].op == 'ext' and t.a[1] and t.a[0].a[0] in VIEW_CALLS:
        out.append(t)
        go(t.a[1][0])
    elif t.op == 'call' and t.a[0].op == 'ext' and t.a[1] and t.a[0].a[0] in ('numpy.array', 'numpy.nan_to_num') and kw(t, 'copy') is not None and not is_const(kw(t, 'copy'), True):
        out.append(t)
        go(t.a[1][0])
    else:
        out.append(t)
    return out


def strip_copy(t):
    """Forget copies and views: which heights, wherever they are stored."""
    while True:
        if t.op == 'ro':
            t = t.a[0]
        elif t.op == 'mcall' and (t.a[1] in ('copy', 'view', '__copy__', '__deepcopy__') and not t.a[2]):
            t = t.a[0]
        elif t.op == 'call' and t.a[0].op == 'ext' and t.a[0].a[0] in COPY_CALLS | {'numpy.asarray', 'numpy.ascontiguousarray', 'numpy.asanyarray'} and len(t.a[1]) == 1 and kw(t, 'dtype') is None:
            t = t.a[1][0]
        else:
            return t
