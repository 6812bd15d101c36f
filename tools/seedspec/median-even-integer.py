PROPERTY = 'C03'
NEEDS = 'row-dark correction with the median, integer frames, an even part whose two middle values have an odd sum'
BREAKS = 'the median of an even number of integer pixels is rounded down'
EDITS = [('stempy/electron.cpp', '      return (*it + v[n]) / 2.0f;', '      return static_cast<float>((*it + v[n]) / 2);')]
DEMO = r"""
import sys
import numpy as np
from stempy import _image
from stempy.io import PyReader

def count(frames, scan, dark=None, gain=None, lo=0.0, hi=1e9, **kw):
    frames = np.asarray(frames, dtype=np.uint16)
    n = len(frames)
    r = PyReader(frames, list(range(n)), scan, 4, n)
    o = _image.ElectronCountOptionsClassic()
    o.dark_reference = None if dark is None else np.asarray(dark, dtype=np.float32)
    o.gain = None if gain is None else np.asarray(gain, dtype=np.float32)
    o.background_threshold = lo
    o.x_ray_threshold = hi
    o.scan_dimensions = scan
    for k, v in kw.items():
        setattr(o, k, v)
    d = _image.electron_count(r.begin(), r.end(), o)
    return [[np.asarray(f).tolist() for f in p] for p in d.data]

def maxima(a):
    h, w = a.shape
    out = []
    for i in range(h):
        for j in range(w):
            if all(a[i, j] > a[y, x] for y in range(max(0, i-1), min(h, i+2))
                   for x in range(max(0, j-1), min(w, j+2)) if (y, x) != (i, j)):
                out.append(i * w + j)
    return out

f = np.array([[2, 3, 1, 100], [1, 2, 4, 9]], np.uint16).repeat(1, axis=0)
def oracle(f, mean):
    out = np.zeros(f.shape, np.uint16)
    h, w = f.shape
    for i in range(h):
        for a, b in ((0, w // 2), (w // 2, w)):
            s = np.float32(np.median(f[i, a:b]))
            for j in range(a, b):
                v = np.uint16(np.float32(f[i, j]) * (np.float32(mean) / s))
                out[i, j] = v if 0 < v < 1e9 else 0
    return out
exp = maxima(oracle(f, 7.0))
got = count([f], (1, 1), lo=0.0, hi=1e9, apply_row_dark_subtraction=True, optimized_mean=7.0, apply_row_dark_use_mean=False)[0][0]
bad = got != exp
rng = np.random.default_rng(1)
for k in range(200):
    f = rng.integers(1, 12, (4, 8)).astype(np.uint16)
    exp = maxima(oracle(f, 9.0))
    got = count([f], (1, 1), apply_row_dark_subtraction=True, optimized_mean=9.0, apply_row_dark_use_mean=False)[0][0]
    if got != exp:
        sys.exit('%s: events %s, expected %s' % (f.tolist(), got, exp))
sys.exit(1 if bad else 0)
"""
