"""Batch error policy.  Every kind of step is executed with a stand-in that raises a calculation error (or a subclass) and with one that
raises another exception, with errors ignored and not ignored, in both modes; the exception flow decides what reaches the caller."""
import ast
from ..common import *
from .batch import World, surface_batch

MODES = (('parallel', TRUE), ('serial', FALSE))


def is_nan(v):
    return v.op == 'ext' and v.a[0] in ('numpy.nan', 'math.nan') or v.op == 'const' and isinstance(v.a[0], float) and v.a[0] != v.a[0] or \
        v.op == 'call' and v.a[0].op == 'ext' and v.a[0].a[0] == 'float' and v.a[1] and is_const(v.a[1][0], 'nan')


def run(prog, rep):
    rep.rule('tolerated', 'an ignored calculation error leaves the file\'s other values and marks exactly the failed measurement as missing', 8)
    rep.rule('strict', 'with errors not ignored, a calculation error reaches the caller', 8)
    rep.rule('others', 'every other exception reaches the caller, whatever the options', 12)
    rep.rule('operations', 'a failing operation step reaches the caller instead of measuring an unprocessed surface', 8)
    rep.rule('load', 'a file that cannot be loaded reaches the caller', 2)
    rep.rule('fits', 'a fit of a measurement that does not converge is a calculation error', 0)
    rep.rule('default', 'errors are tolerated by default', 2)
    B = prog.find_class('Batch')
    line = f'{B.module.rel}:{B.node.lineno}'
    bm = surface_batch(prog)
    base = prog.find_class('CalculationError')
    subs = [c.name for m in prog.modules.values() for c in m.classes.values() if c.is_sub(base)]
    other = ['ValueError', 'KeyError', 'RuntimeError', 'BatchError', 'CorruptedFileError', 'ZeroDivisionError', 'AttributeError', 'TypeError']
    labelled = [n for n, d in bm.items() if d['nlabels']]
    ops = [n for n, d in bm.items() if d['kind'] == 'operation']
    witharg = [n for n, d in sorted(bm.items()) if d['kind'] == 'parameter' and not d['nlabels'] and d['fi'] is not None and len(sig(d['fi'])[0]) > 1]
    kinds = [('parameter', 'Sa'), ('renamed parameter', 'Sa')] + [('parameter with arguments', n) for n in (['Smr'] if 'Smr' in witharg else witharg)[:1]] + [('labelled parameter', n) for n in labelled[:1]] + [('custom parameter', 'custom_par'), ('custom operation', 'custom_op'), ('operation', ops[0])]
    for kind, n in kinds:
        for exc in subs + other:
            for mode, mp in MODES:
                for ign in (TRUE, FALSE, None):
                    for keep in (TRUE, FALSE):
                        if ign is None and keep is FALSE:
                            continue

                        def result(name):
                            if name == n:
                                return ('raise', exc)
                            return ('tuple', bm[name]['nlabels']) if name in bm and bm[name]['nlabels'] else 'scalar'
                        w = World(prog, result)
                        register(w, bm, n, kind)
                        w.do('Sq')
                        kw = {} if ign is None else {'ignore_errors': ign}
                        v, raised = w.execute(multiprocessing=mp, preserve_chaining_order=keep, **kw)
                        rep.used(w.it)
                        calc = exc in subs
                        isop = 'operation' in kind
                        rule = ('operations' if isop else 'strict' if calc and is_const(ign or TRUE, False) else 'tolerated' if calc else 'others')
                        if ign is None:
                            rule = 'default' if rule == 'tolerated' else rule
                        site = f'{kind}: {exc}, errors {"default" if ign is None else "ignored" if ign is TRUE else "not ignored"}, {mode}, {"chained" if keep is TRUE else "grouped"}'
                        if w.r.err is not None or not w.loads:
                            rep.ob(rule, site, 'undecided')
                            continue
                        rep.ob(rule, site)
                        names = [x[0] for x in raised]
                        names = [y[0] if isinstance(y, tuple) else y for y in names]
                        if rule in ('tolerated', 'default'):
                            if w.st.dead or exc in names:
                                rep.violate(rule, site, line, B.qual, f'{exc} leaves execute()', 'an ignored calculation error aborts the batch')
                                continue
                            rows = w.rows()
                            if rows is None:
                                rep.ob(rule, site, 'undecided')
                                continue
                            for x, row, h in rows:
                                others = {k: y for k, y in row.items() if k != 'file'}
                                if 'Sq' not in others or others['Sq'].op != 'result':
                                    rep.violate(rule, site, line, B.qual, f'row has {sorted(map(str, others))}', 'a tolerated failure loses another measurement of the file')
                                cols = [n] if kind in ('parameter', 'parameter with arguments') else ['renamed'] if kind == 'renamed parameter' else ([f'{n}_{e.a[0]}' for e in w.it.elements(w.st, bm[n]['labels'])] if kind == 'labelled parameter' else [])
                                for c in cols:
                                    y = others.get(c)
                                    if y is None or not is_nan(y):
                                        rep.violate(rule, site, line, B.qual, f'{c} = {show(y, 3) if y is not None else "missing"}', 'a failed measurement is not marked as missing')
                                for k, y in others.items():
                                    if k not in cols and k != 'Sq' and not is_nan(y):
                                        rep.violate(rule, site, line, B.qual, f'{k} = {show(y, 2)}', 'a failed measurement reports something else')
                        else:
                            if not w.st.dead:
                                rep.violate(rule, site, handler_of(w, line), B.qual, f'{kind} raising {exc}: execute() returns', f'{"a calculation error" if calc else exc} raised by {"an operation" if isop else "a measurement"} is swallowed')
                            elif names and exc not in names:
                                rep.ob(rule, site, 'undecided')
    fits(prog, rep, bm, base)
    # loading
    for mode, mp in MODES:
        for exc in ('CorruptedFileError', 'UnsupportedFileFormatError', 'ValueError', 'CalculationError'):
            w = World(prog)

            def call(f, args, kwargs, st, node, ctx, it, w=w, orig=w.call, exc=exc):
                if f.op == 'bound' and f.a[1].op == 'class' and w.named(f) == 'load':
                    w.loads.append((args, dict(kwargs), ()))
                    return w.do_raise(exc, st, node, ctx, it)
                return orig(f, args, kwargs, st, node, ctx, it)
            w.call = call
            w.do('Sa')
            w.execute(multiprocessing=mp)
            site = f'{exc} {mode}'
            if w.r.err is not None or not w.loads:
                rep.ob('load', site, 'undecided')
                continue
            rep.ob('load', site)
            if not w.st.dead:
                rep.violate('load', site, line, B.qual, f'{exc} while loading: execute() returns', 'a file that cannot be loaded silently disappears from the result')


class NoFit(Hooks):
    """No fit converges."""
    fitted = False

    def call(self, f, args, kwargs, st, node, ctx, it):
        if f.op == 'ext' and f.a[0] == 'scipy.optimize.curve_fit':
            self.fitted = True
            it.do_raise(mk('call', mk('ext', 'RuntimeError'), (const('not converged'),), ()), st, node, ctx)
            return NONE
        return None


def fits(prog, rep, bm, base):
    S = prog.find_class('Surface')
    for n, d in sorted(bm.items()):
        if d['kind'] != 'parameter' or d['fi'] is None:
            continue
        h = NoFit()
        r = Run(prog, h)
        pos, kwo, va, k_, dfl = sig(d['fi'])
        r.method(r.obj(S), n, [], {x: mk('param', x) for x in pos[1:] + kwo if x not in dfl})
        if not h.fitted:
            continue
        rep.used(r.it)
        site = f'{n}: fit that does not converge'
        if r.err is not None:
            rep.ob('fits', site, 'undecided')
            continue
        rep.ob('fits', site)
        for name, st, node, ctx in r.raised:
            if (name[0] if isinstance(name, tuple) else name) == 'RuntimeError':
                rep.violate('fits', site, loc(ctx, node), fname(ctx), src(node), 'a fit that does not converge raises an exception that is not a calculation error')
                break


def handler_of(w, line):
    return line


def register(w, bm, n, kind):
    if kind == 'renamed parameter':
        return w.do(n, custom_name=const('renamed'))
    if kind == 'parameter with arguments':
        return w.do(n, mk('param', 'arg_1'))
    if n.startswith('custom_par'):
        w.do('custom_parameter', mk('param', n))
    elif n.startswith('custom_op'):
        w.do('custom_operation', mk('param', n))
    else:
        pos, kwo, va, k_, dfl = sig(bm[n]['fi'])
        w.do(n, **{x: mk('param', 'arg_' + x) for x in pos[1:] + kwo if x not in dfl and x not in bm[n]['fixed']})
