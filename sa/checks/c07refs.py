"""Reference definitions of the spectral and autocorrelation quantities: o is the surface, z its heights."""
SURFACE = '''
import numpy as np
from scipy import ndimage
from scipy.signal import fftconvolve

def acf_data(o, z):
    c = z - z.mean()
    ny, nx = z.shape
    ly = np.abs(np.arange(-(ny - 1), ny))
    lx = np.abs(np.arange(-(nx - 1), nx))
    return fftconvolve(c, c[::-1, ::-1], mode='full') / np.outer(ny - ly, nx - lx)

def _line(a, p, q):
    return ndimage.map_coordinates(a, np.array([np.linspace(p[0], q[0], 1000), np.linspace(p[1], q[1], 1000)]))

def _decay(o, z, s, longest):
    a = o.get_autocorrelation_function().data
    center = o.get_autocorrelation_function().center
    t = s * a[center[0], center[1]]
    labels, _ = ndimage.label(a > t)
    region = labels == labels[center[0], center[1]]
    edge = np.argwhere(region ^ ndimage.binary_dilation(region, iterations=1))
    steps = np.array([o.step_y, o.step_x])
    d = np.linalg.norm((edge - center) * steps, axis=1)
    if longest:
        at = edge[np.where(d == np.max(d))[0]]
    else:
        at = edge[np.where(d == np.min(d))[0]]
    end = at[np.argmin(a[at[:, 0], at[:, 1]])]
    length = np.hypot(*((end - center) * steps))
    x = np.linspace(0, length, 1000)
    return x[np.argmin(np.abs(_line(a, center, end) - t))]

def acf_center(o, z):
    return np.array(o.get_autocorrelation_function().data.shape) // 2

def Sal(o, z, s=0.2):
    return _decay(o, z, s, False)

def Str(o, z, s=0.2):
    return _decay(o, z, s, False) / _decay(o, z, s, True)

def _frequencies(o):
    return np.fft.fftfreq(o.size.x, d=o.width_um / o.size.x), np.fft.fftfreq(o.size.y, d=o.height_um / o.size.y)

def _amplitude(z):
    return np.abs(np.fft.fft2(z - z.mean()))

def _peaks(o, z):
    fx, fy = _frequencies(o)
    fx, fy = np.fft.fftshift(fx), np.fft.fftshift(fy)
    f = np.abs(np.fft.fftshift(np.fft.fft2(z - z.mean())))
    iy, ix = np.unravel_index(np.argsort(f.flatten())[::-1], f.shape)
    if fx[ix][0] > fx[ix][1]:
        return fx[ix][0] - fx[ix][1], fy[iy][1] - fy[iy][0]
    return fx[ix][1] - fx[ix][0], fy[iy][0] - fy[iy][1]

def period(o, z):
    dx, dy = _peaks(o, z)
    return 2 / np.hypot(dx, dy)

def period_x_y(o, z):
    dx, dy = _peaks(o, z)
    px = np.abs(2 / dx) if dx != 0 else np.inf
    py = np.abs(2 / dy) if dy != 0 else np.inf
    return px, py

def orientation_fft(o, z):
    dx, dy = _peaks(o, z)
    if dx == 0:
        return 90
    if dy == 0:
        return 0
    return np.rad2deg(np.arctan(dy / dx))

def Ssw(o, z):
    fx, fy = _frequencies(o)
    f = np.abs(np.fft.fftshift(np.fft.fft2(z - z.mean())))
    iy, ix = np.unravel_index(np.argmax(f), f.shape)
    r = np.hypot(np.fft.fftshift(fx)[ix], np.fft.fftshift(fy)[iy])
    return 1 / r if r != 0 else np.inf

def _spectrum(o, z, angle_step):
    fx, fy = _frequencies(o)
    fy, fx = np.meshgrid(fy, fx, indexing='ij')
    theta = np.rad2deg(np.arctan2(fy, fx)) % 180
    angles = np.arange(0, 180, angle_step)
    i = np.minimum((theta / angle_step).astype(int), angles.size - 1)
    return angles, np.bincount(i.ravel(), weights=(_amplitude(z) ** 2).ravel(), minlength=angles.size)

def angular(o, z, angle_step=1):
    return _spectrum(o, z, angle_step)

def Std(o, z, angle_step=0.5):
    angles, spectrum = _spectrum(o, z, angle_step)
    return angles[np.argmax(spectrum)]

def aspect_ratio(o, z):
    return o.depth()[0] / o.period()
'''

PROFILE = '''
import numpy as np
from scipy.signal import find_peaks

def period(o, z):
    f = np.abs(np.fft.fft(z))
    freq = np.fft.fftfreq(len(z), d=o.step)
    peaks, properties = find_peaks(f, distance=10, prominence=10)
    return 1 / np.abs(freq[peaks[np.argsort(properties['prominences'])[::-1]][0]])
'''
