"""Registration conflicts.  Pairs of registrations with equal and with different measurement names, through every registration path, are
interpreted; equal names must be rejected without effect, different ones accepted."""
from ..common import *
from .batch import World, surface_batch


class World(World):
    def getattr(self, b, n, st):
        # different functions may carry the same name
        if b.op == 'param' and b.a[0].startswith('custom') and n in ('__name__', '__qualname__'):
            return const('measure')
        return None


def run(prog, rep):
    rep.rule('duplicate', 'registering a second measurement under a name in use is rejected', 8)
    rep.rule('kept', 'a rejected registration leaves the registered steps as they were', 5)
    rep.rule('distinct', 'measurements with different names, and repeated operations, are accepted', 8)
    rep.rule('empty', 'executing a batch without steps is rejected', 2)
    B = prog.find_class('Batch')
    line = f'{B.module.rel}:{B.node.lineno}'
    bm = surface_batch(prog)
    labelled = [n for n, d in bm.items() if d['nlabels']]
    lst = lambda w, *n: w.it.new_list(w.st, [const(x) for x in n])
    R = lambda n, **k: (lambda w: w.do(n, **{**req(bm, n), **{a: const(b) for a, b in k.items()}}))
    bulk = lambda *n: (lambda w: w.do('roughness_parameters', lst(w, *n)))
    alls = lambda w: w.do('roughness_parameters')
    cust = lambda n: (lambda w: w.do('custom_parameter', mk('param', n)))
    cop = lambda n: (lambda w: w.do('custom_operation', mk('param', n)))
    dup = {
        'same method twice': [R('Sa'), R('Sa')],
        'same method after an operation': [R('Sa'), R('level'), R('Sa')],
        'same method with other arguments': [lambda w: w.do('Smr', mk('param', 'c1')), lambda w: w.do('Smr', mk('param', 'c2'))],
        'method, then another method under its name': [R('Sa'), R('Sq', custom_name='Sa')],
        'other method under a name, then the method of that name': [R('Sq', custom_name='Sa'), R('Sa')],
        'two methods under one custom name': [R('Sa', custom_name='x'), R('Sq', custom_name='x')],
        'method, then in bulk': [R('Sa'), bulk('Sq', 'Sa')],
        'in bulk twice': [bulk('Sa', 'Sa')],
        'in bulk, then method': [bulk('Sq', 'Sa'), R('Sq')],
        'all in bulk, then method': [alls, R('Sz')],
        'bulk twice': [bulk('Sa'), bulk('Sa')],
        'in bulk, the last one twice': [R('Sz'), bulk('Sa', 'Sq', 'Sz')],
        'same custom function twice': [cust('custom_f'), cust('custom_f')],
    }
    if labelled:
        dup['labelled method twice'] = [R(labelled[0]), R(labelled[0])]
    ok = {
        'two methods': [R('Sa'), R('Sq')],
        'same method under another name': [R('Sa'), R('Sa', custom_name='y')],
        'same method under two names': [R('Sa', custom_name='x'), R('Sa', custom_name='y')],
        'same method, other arguments, another name': [lambda w: w.do('Smr', mk('param', 'c1')), lambda w: w.do('Smr', mk('param', 'c2'), custom_name=const('Smr2nd'))],
        'method freed by a custom name': [R('Sa', custom_name='y'), R('Sa')],
        'operation twice': [R('level'), R('level')],
        'operation between': [R('Sa'), R('level'), R('Sq')],
        'two custom functions': [cust('custom_f'), cust('custom_g')],
        'custom operation twice': [cop('custom_op'), cop('custom_op')],
        'bulk of others': [R('Sa'), bulk('Sq', 'Sz')],
    }
    for label, acts in dup.items():
        w = World(prog)
        before = None
        raised = []
        for i, a in enumerate(acts):
            if i == len(acts) - 1:
                before = w.st.copy()
            _, raised = a(w)
        rep.used(w.it)
        if w.r.err is not None:
            rep.ob('duplicate', label, 'undecided')
            continue
        rep.ob('duplicate', label)
        names = {y for x in raised for y in (x[0] if isinstance(x[0], tuple) else (x[0],))}
        if not w.st.dead:
            cond = 'registered twice' if not names else 'registered twice in some executions'
            rep.violate('duplicate', label, line, B.qual, f'{label}: {cond}', 'a second measurement under a name in use is accepted; one of the two columns is lost')
            continue
        if 'BatchError' not in names:
            rep.ob('duplicate', label, 'undecided')
        # steps registered before stay; nothing of the rejected single registration is kept
        if not w.it.sinks[0]:
            continue
        st = w.it.sinks[0][-1][1]
        w1 = executed(w, before)
        w2 = executed(w, st)
        if w1 is None or w2 is None:
            rep.ob('kept', label, 'undecided')
            continue
        rep.ob('kept', label)
        if w1 != w2:
            rep.violate('kept', label, line, B.qual, f'{len(w1)} calls before, {len(w2)} after', 'a rejected registration changes the registered steps')
    for label, acts in ok.items():
        w = World(prog)
        raised = []
        for a in acts:
            _, x = a(w)
            raised += x
        rep.used(w.it)
        if w.r.err is not None:
            rep.ob('distinct', label, 'undecided')
            continue
        rep.ob('distinct', label)
        if w.st.dead:
            rep.violate('distinct', label, line, B.qual, label, 'registrations that do not conflict are rejected')
            continue
        w.execute()
        rows = w.rows()
        if w.ok and rows is not None and rows and label.startswith(('two methods', 'same method')):
            n = len([k for k in rows[0][1] if k != 'file'])
            if n != len(acts):
                rep.violate('distinct', label, line, B.qual, f'{n} columns for {len(acts)} measurements', 'an accepted measurement has no column of its own')
    for mode, mp in (('parallel', TRUE), ('serial', FALSE)):
        w = World(prog)
        w.execute(multiprocessing=mp)
        rep.used(w.it)
        rep.ob('empty', mode, 'undecided' if w.r.err else 'ok')
        if w.r.err is None and not w.st.dead:
            rep.violate('empty', mode, line, B.qual, 'execute() returns', 'a batch without any step is executed')


def executed(w, st):
    w.r.st = w.st = st.copy()
    w.st.dead = False
    w.st.frames = []
    w.steps.clear()
    w.frames.clear()
    w.customs.clear()
    n = len(w.it.sinks[0])
    w.execute()
    if w.r.err is not None:
        return None
    return [(s['name'], [show(x) for x in s['args']]) for s in w.steps] + [c[0] for c in w.customs]


def req(bm, n):
    pos, kwo, va, k_, dfl = sig(bm[n]['fi'])
    return {x: mk('param', 'arg_' + x) for x in pos[1:] + kwo if x not in dfl and x not in bm[n]['fixed']}
