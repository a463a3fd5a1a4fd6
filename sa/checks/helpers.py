"""Functions that are not methods of a topography, compared with reference definitions one path at a time (used by C07 and C30)."""
from ..common import *
from ..algebra import Alg
from ..fine import Refs
from ..refcmp import paths
from .c07 import judge, Paths, KNOWN as K07

KNOWN = K07 | {'isfinite', 'histogram', 'unique', 'ones', 'floor', 'isnan', 'find_peaks', 'scipy.signal.find_peaks', 'fft.fft', 'fft.rfft', 'fft.rfftfreq', 'sin', 'cos', 'scipy.optimize.curve_fit', 'sign', 'histogram_bin_edges', '.flatten', '.ravel'}


def known(k):
    return k in KNOWN or k.startswith('cmp')


def compare(prog, rep, rule, site, where, value, want, params=(), hooks=Paths):
    alg = Alg()

    def make(given, code=False):
        h = hooks()
        h.given, h.alg, h.learn, h.order = given, alg, True, []
        r = Run(prog, h)
        h.it, h.r, h.v = r.it, r, None
        h.nd = dict(getattr(h, 'nd', None) or {})
        for p, shape in dict(params).items():
            h.nd.setdefault('params', {})[p] = shape
        h.w = want(r, h)
        h.werr, r.err = r.err, None
        h.used = dict(h.given)
        if code:
            h.order = []
            h.v = value(r, h)
        return h
    n = 0
    for h0 in paths(make):
        n += 1
        s2 = site + (f' (case {n})' if n > 1 else '')
        rep.ob(rule, s2)
        if h0.werr is not None or h0.w is None:
            rep.ob(rule, s2, 'undecided')
            rep.notes.append(f'{s2}: reference: {str(h0.werr)[-300:]}')
            continue
        verdicts = []
        for h in paths(lambda g: make(g, True), 4, h0.used):
            r = h.r
            rep.used(r.it)
            if r.err is not None or h.v is None:
                x = (None, f'{str(r.err)[-300:]}', '')
            else:
                x = judge(s2, r, h, h.v, h.w, alg, known)
            verdicts.append(x + (not h.special(),))
        generic = [x for x in verdicts if x[3]] or verdicts
        if any(x[0] is True for x in generic):
            continue
        if all(x[0] is False for x in generic):
            rep.violate(rule, s2, *where, generic[0][1], generic[0][2])
        else:
            rep.ob(rule, s2, 'undecided')
            rep.notes += [f'{s2}: not comparable: {x[1][:300]} {x[2][:200]}' for x in verdicts if x[0] is None][:2]


def where_of(fi):
    return f'{fi.module.rel}:{fi.node.lineno}', fi.qual
