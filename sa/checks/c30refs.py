"""Reference definitions of the roughness parameters: o is the topography, z its heights."""
CURVE = '''
import numpy as np
from surfalize.mathutils import otsu_threshold

def _mr():
    return np.linspace(0, 100, 10000)

def _h(z):
    return np.quantile(z, 1 - _mr() / 100)

def _area(z, c):
    h = _h(z)
    i = np.argmin(np.abs(h - c))
    return np.abs(np.trapezoid(_mr()[:i], x=h[:i]))

def _void(z, c):
    h = _h(z)
    i = np.argmin(np.abs(h - c))
    return np.abs(np.trapezoid(100 - _mr()[i:], x=h[i:]))

def Xmc(o, z, mr):
    return np.interp(mr, _mr(), _h(z))

def Xmr(o, z, c):
    h = _h(z)
    return np.interp(c, h[::-1], _mr()[::-1])

def Xmr1(o, z):
    return o.Xmr(z.max() - o.Xpkx())

def Xmr2(o, z):
    return o.Xmr(z.min() + o.Xvkx())

def Xmrk1(o, z):
    return o.Xmr1()

def Xmrk2(o, z):
    return o.Xmr2()

def Xk(o, z):
    return z.max() - z.min() - o.Xpkx() - o.Xvkx()

def Xpk(o, z):
    return 2 * _area(z, z.max() - o.Xpkx()) / o.Xmr1()

def Xvk(o, z):
    return 2 * _void(z, z.min() + o.Xvkx()) / (100 - o.Xmr2())

def Xak1(o, z):
    return o.Xpk() * o.Xmr1() / 2

def Xak2(o, z):
    return o.Xvk() * (100 - o.Xmr2()) / 2

def Xxp(o, z, p=2.5, q=50):
    return o.Xmc(p) - o.Xmc(q)

def Xdc(o, z, p=2.5, q=50):
    return o.Xmc(p) - o.Xmc(q)

def Vm(o, z, p):
    return _area(z, o.Xmc(p)) / 100

def Vv(o, z, p):
    return _void(z, o.Xmc(p)) / 100

def Vmp(o, z, p=10):
    return o.Vm(p)

def Vmc(o, z, p=10, q=80):
    return o.Vm(q) - o.Vm(p)

def Vvv(o, z, q=80):
    return o.Vv(q)

def Vvc(o, z, p=10, q=80):
    return o.Vv(p) - o.Vv(q)
'''
STATISTICS = '''
def min(o, z):
    return z.min()

def max(o, z):
    return z.max()

def mean(o, z):
    return z.mean()

def median(o, z):
    return np.median(z)

def std(o, z):
    return np.sqrt(np.mean((z - z.mean()) ** 2))
'''
import re
_curve = lambda p: re.sub(r'\bX(?=[a-z])', p, CURVE)

SURFACE = _curve('S') + STATISTICS + '''
def Sa(o, z):
    return np.mean(np.abs(z - z.mean()))

def Sq(o, z):
    return np.sqrt(np.mean((z - z.mean()) ** 2))

def Sp(o, z):
    return z.max() - z.mean()

def Sv(o, z):
    return z.mean() - z.min()

def Sz(o, z):
    return z.max() - z.min()

def Ssk(o, z):
    return np.mean((z - z.mean()) ** 3) / Sq(o, z) ** 3

def Sku(o, z):
    return np.mean((z - z.mean()) ** 4) / Sq(o, z) ** 4

def height_parameters(o, z):
    return {'Sa': Sa(o, z), 'Sq': Sq(o, z), 'Sp': Sp(o, z), 'Sv': Sv(o, z), 'Sz': Sz(o, z), 'Ssk': Ssk(o, z), 'Sku': Sku(o, z)}

def Sdq(o, z):
    dx = (z[:, 1:] - z[:, :-1]) / o.step_x
    dy = (z[1:, :] - z[:-1, :]) / o.step_y
    return np.sqrt((np.sum(dx ** 2) + np.sum(dy ** 2)) / z.size)

def surface_area(o, z):
    dx = z[:-1, 1:] - z[:-1, :-1]
    dy = z[1:, :-1] - z[:-1, :-1]
    return np.sum(np.sqrt((o.step_x * o.step_y) ** 2 + (o.step_y * dx) ** 2 + (o.step_x * dy) ** 2))

def Sdr(o, z):
    return 100 * (o.surface_area() - o.projected_area()) / o.projected_area()

def aspect_ratio(o, z):
    return o.depth()[0] / o.period()

def stepheight(o, z):
    t = otsu_threshold(z)
    return np.median(z[z > t]) - np.median(z[z <= t])

def cavity_volume(o, z, threshold=0.5):
    t = otsu_threshold(z)
    top = np.median(z[z > t])
    level = top - threshold * (top - np.median(z[z <= t]))
    return np.sum(top - z[z < level]) * o.step_x * o.step_y
'''

PROFILE = _curve('R') + STATISTICS + '''
def Ra(o, z):
    return np.mean(np.abs(z - z.mean()))

def Rq(o, z):
    return np.sqrt(np.mean((z - z.mean()) ** 2))

def Rt(o, z):
    return z.max() - z.min()

def Rsk(o, z):
    return np.mean((z - z.mean()) ** 3) / Rq(o, z) ** 3

def Rku(o, z):
    return np.mean((z - z.mean()) ** 4) / Rq(o, z) ** 4

def Rdq(o, z):
    return np.sqrt(np.mean(((z[1:] - z[:-1]) / o.step) ** 2))

def Rp(o, z, n_sections=5):
    return np.mean([s.max() for s in np.array_split(z - z.mean(), n_sections)])

def Rv(o, z, n_sections=5):
    return np.mean([np.abs(s.min()) for s in np.array_split(z - z.mean(), n_sections)])

def Rz(o, z, n_sections=5):
    return np.mean([s.max() - s.min() for s in np.array_split(z - z.mean(), n_sections)])
'''


def _afc(p):
    names = re.findall(r'^def (X\w+|V\w+)\((.*?)\):', CURVE, re.M)
    out = _curve(p)
    for n, args in names:
        if n in ('Xmrk1', 'Xmrk2', 'Xxp'):
            continue
        me = n.replace('X', p, 1)
        lower = n[1:] if n[0] == 'X' else (n.lower() if len(n) > 2 else n)
        call = ', '.join(a.split('=')[0].strip() for a in args.split(',')[2:])
        extra = args.split(',', 2)[2:] if args.count(',') > 1 else []
        # the curve itself has no default limits for the height difference
        extra = [x for x in extra]
        if n == 'Xdc':
            extra = [' p, q']
        out += f'\ndef afc_{lower}(o, z{"," + extra[0] if extra else ""}):\n    return {me}(o, z{", " + call if call else ""})\n'
    return out


AFC = {'Surface': _afc('S'), 'Profile': _afc('R')}

HELPERS = '''
import numpy as np
from scipy.optimize import curve_fit

def otsu_threshold(values, nbins=256):
    v = values.ravel()
    v = v[np.isfinite(v)]
    n, edges = np.histogram(v, bins=nbins)
    mid = (edges[:-1] + edges[1:]) / 2
    n = n.astype(float)
    w1 = np.cumsum(n)
    w2 = np.cumsum(n[::-1])[::-1]
    m1 = np.cumsum(n * mid) / w1
    m2 = (np.cumsum((n * mid)[::-1]) / w2[::-1])[::-1]
    return mid[np.argmax(w1[:-1] * w2[1:] * (m1[:-1] - m2[1:]) ** 2)]

def fit(a, p, x0, y0):
    if a < 0:
        return np.abs(a), p, x0 - p / 2, y0
    return a, p, x0, y0

def fit_after(a, p, x0, y0):
    if a < 0:
        return np.abs(a), p, x0 + p / 2, y0
    return a, p, x0, y0

def fit_minus(a, p, x0, y0):
    if a < 0:
        return -a, p, x0 - p / 2, y0
    return a, p, x0, y0

def fit_minus_after(a, p, x0, y0):
    if a < 0:
        return -a, p, x0 + p / 2, y0
    return a, p, x0, y0

def wave(o, x):
    return o.amplitude * np.sin((x - o.x0) / o.period * 2 * np.pi) + o.y0

def first_extremum(o):
    x = o.x0 + o.period / 4
    return x - x // (o.period / 2) * (o.period / 2)

def first_extremum_mod(o):
    return (o.x0 + o.period / 4) % (o.period / 2)

def first_peak(o):
    x = o.x0 + o.period / 4
    return x - x // o.period * o.period

def first_peak_mod(o):
    return (o.x0 + o.period / 4) % o.period
'''
