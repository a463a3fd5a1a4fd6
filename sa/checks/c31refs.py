"""Reference definitions of the operations: o is the topography, z its heights; the result is (heights, step x, step y) or (heights, step)."""

COMMON = '''
import numpy as np
import scipy.ndimage as ndimage
from scipy.interpolate import griddata
from surfalize.mathutils import otsu_threshold

def SAME(o, z):
    return __RES__

def center(o, z):
    return RES(o, z - np.nanmean(z))

def zero(o, z):
    return RES(o, z - np.nanmin(z))

def invert(o, z):
    return RES(o, np.nanmax(z) + np.nanmin(z) - z)

def outliers_mean(o, z, n=3):
    return RES(o, np.where(np.abs(z - np.nanmean(z)) > n * np.nanstd(z), np.nan, z))

def outliers_median(o, z, n=3):
    d = np.abs(z - np.nanmedian(z))
    return RES(o, np.where(d > n * np.nanmedian(d), np.nan, z))

def _clip(o, z, upper, lower):
    h = np.sort(z[~np.isnan(z)])[::-1]
    share = np.arange(1, h.size + 1) / h.size
    top = h[np.argmin(np.abs(share - upper / 100))]
    bottom = h[np.argmin(np.abs(share - (1 - lower / 100)))]
    return RES(o, np.where((z > top) | (z < bottom), np.nan, z))

def threshold_both(o, z, threshold=0.5):
    return _clip(o, z, threshold, threshold)

def threshold_pair(o, z, threshold):
    return _clip(o, z, threshold[0], threshold[1])

def _sigma(cutoff):
    return cutoff * np.sqrt(np.log(2) / 2) / np.pi

def lowpass(o, z, cutoff, endeffect_mode='reflect'):
    return RES(o, _low(o, z, cutoff, endeffect_mode))

def highpass(o, z, cutoff, endeffect_mode='reflect'):
    return RES(o, z - _low(o, z, cutoff, endeffect_mode))

def both(o, z, cutoff, endeffect_mode='reflect'):
    return highpass(o, z, cutoff, endeffect_mode), lowpass(o, z, cutoff, endeffect_mode)

def bandpass(o, z, cutoff, cutoff2, endeffect_mode='reflect'):
    low = _low(o, z, cutoff, endeffect_mode)
    return RES(o, low - _low(o, low, cutoff2, endeffect_mode))
'''

SURFACE = COMMON.replace('__RES__', '(z, o.step_x, o.step_y)') + '''
def RES(o, z):
    return (z, o.step_x, o.step_y)

def _low(o, z, cutoff, mode):
    return ndimage.gaussian_filter(z, (_sigma(cutoff / o.step_y), _sigma(cutoff / o.step_x)), mode=mode)

def crop_units(o, z, box):
    n = z.shape[0]
    x0, x1 = round(box[0] / o.step_x), round(box[1] / o.step_x)
    y1, y0 = n - 1 - round(box[2] / o.step_y), n - 1 - round(box[3] / o.step_y)
    return RES(o, z[y0:y1 + 1, x0:x1 + 1])

def crop_px(o, z, box):
    return RES(o, z[box[2]:box[3] + 1, box[0]:box[1] + 1])

def zoom(o, z, factor):
    ny, nx = int(z.shape[0] / factor), int(z.shape[1] / factor)
    y, x = int((z.shape[0] - ny) / 2), int((z.shape[1] - nx) / 2)
    return RES(o, z[y:y + ny + 1, x:x + nx + 1])

def fill(o, z, method='nearest'):
    x, y = np.meshgrid(np.arange(z.shape[1]), np.arange(z.shape[0]))
    at = np.column_stack([x.ravel(), y.ravel()])
    known = ~np.isnan(z.ravel())
    return RES(o, griddata(at[known], z.ravel()[known], (x, y), method=method))

def stepheight_level(o, z):
    m = z > otsu_threshold(z)
    x, y = np.meshgrid(np.arange(z.shape[1]), np.arange(z.shape[0]))
    fit = np.linalg.lstsq(np.column_stack((x[m], y[m], np.ones_like(x[m]))), z[m])[0]
    plane = fit[0] * x + fit[1] * y + fit[2]
    return RES(o, z - (plane - plane.mean()))

def align_y(o, z, method='fft_refined'):
    s = o.rotate(-o.orientation(method=method))
    return (s.data, s.step_x, s.step_y)

def align_x(o, z, method='fft_refined'):
    s = o.rotate(-(o.orientation(method=method) + 90))
    return (s.data, s.step_x, s.step_y)

def align(o, z):
    return align_y(o, z)

def add(o, z, p):
    return RES(o, z + p.data)

def sub(o, z, p):
    return RES(o, z - p.data)

def mul(o, z, p):
    return RES(o, z * p.data)

def div(o, z, p):
    return RES(o, z / p.data)

def add_number(o, z, p):
    return RES(o, z + p)

def sub_number(o, z, p):
    return RES(o, z - p)

def rsub_number(o, z, p):
    return RES(o, p - z)

def mul_number(o, z, p):
    return RES(o, z * p)

def div_number(o, z, p):
    return RES(o, z / p)

def rows(o, z, a, b):
    return (z[a:b], o.step_x, o.step_y)

def rows_stride(o, z, a, b, k):
    return (z[a:b:k], o.step_x, o.step_y * k)

def block(o, z, a, b, c, d):
    return (z[a:b, c:d], o.step_x, o.step_y)

def block_stride(o, z, a, b, c, d, k, l):
    return (z[a:b:k, c:d:l], o.step_x * l, o.step_y * k)

def columns_stride(o, z, c, d, l):
    return (z[:, c:d:l], o.step_x * l, o.step_y)

def _lines(pos, step, n, average, stride):
    i = min(round(pos / step), n - 1)
    first = i - min(max(average - 1, 0) // 2, i // stride) * stride
    return slice(first, i + average // 2 * stride + 1, stride)

def horizontal(o, z, y):
    return (z[_lines(y, o.step_y, z.shape[0], 1, 1)].mean(axis=0), o.step_x)

def vertical(o, z, x):
    return (z[:, _lines(x, o.step_x, z.shape[1], 1, 1)].mean(axis=1), o.step_y)

def horizontal_average(o, z, y, average):
    return (z[_lines(y, o.step_y, z.shape[0], average, 1)].mean(axis=0), o.step_x)

def vertical_average(o, z, x, average):
    return (z[:, _lines(x, o.step_x, z.shape[1], average, 1)].mean(axis=1), o.step_y)

def horizontal_stride(o, z, y, average, average_step):
    return (z[_lines(y, o.step_y, z.shape[0], average, max(round(average_step / o.step_y), 1))].mean(axis=0), o.step_x)

def vertical_stride(o, z, x, average, average_step):
    return (z[:, _lines(x, o.step_x, z.shape[1], average, max(round(average_step / o.step_x), 1))].mean(axis=1), o.step_y)

def oblique(o, z, x0, y0, x1, y1):
    c0, c1 = [min(round(x / o.step_x), z.shape[1] - 1) for x in (x0, x1)]
    r0, r1 = [min(round(y / o.step_y), z.shape[0] - 1) for y in (y0, y1)]
    n = int(np.hypot(c1 - c0, r1 - r0)) + 1
    line = ndimage.map_coordinates(z, [np.linspace(r0, r1, n), np.linspace(c0, c1, n)])
    return (line, np.hypot((c1 - c0) * o.step_x, (r1 - r0) * o.step_y) / (n - 1))
'''

PROFILE = COMMON.replace('__RES__', '(z, o.step)') + '''
def RES(o, z):
    return (z, o.step)

def _low(o, z, cutoff, mode):
    return ndimage.gaussian_filter(z, _sigma(cutoff / o.step), mode=mode)

def crop_units(o, z, box):
    return RES(o, z[round(box[0] / o.step):round(box[1] / o.step) + 1])

def crop_px(o, z, box):
    return RES(o, z[box[0]:box[1] + 1])

def zoom(o, z, factor):
    n = int(z.shape[0] / factor)
    a = int((z.shape[0] - n) / 2)
    return RES(o, z[a:a + n + 1])

def fill(o, z, method='nearest'):
    x = np.arange(z.shape[0])
    known = ~np.isnan(z)
    return RES(o, griddata(x[known], z[known], x, method=method))
'''

# (reference, method, fixed arguments, scenario); None stands for a parameter left out
BOTH = [
    ('center', 'center', {}, 'any'), ('zero', 'zero', {}, 'any'), ('invert', 'invert', {}, 'any'),
    ('outliers_mean', 'remove_outliers', {'method': 'mean'}, 'any'), ('outliers_median', 'remove_outliers', {'method': 'median'}, 'any'),
    ('threshold_both', 'threshold', {'threshold': 'number'}, 'any'), ('threshold_pair', 'threshold', {'threshold': 2}, 'any'),
    ('lowpass', 'filter', {'filter_type': 'lowpass'}, 'measured'), ('highpass', 'filter', {'filter_type': 'highpass'}, 'measured'),
    ('both', 'filter', {'filter_type': 'both'}, 'measured'), ('bandpass', 'filter', {'filter_type': 'bandpass'}, 'measured'),
    ('crop_units', 'crop', {'in_units': True}, 'any'), ('crop_px', 'crop', {'in_units': False}, 'any'), ('zoom', 'zoom', {}, 'any'),
    ('fill', 'fill_nonmeasured', {}, 'missing'), ('SAME', 'fill_nonmeasured', {}, 'measured'),
]
