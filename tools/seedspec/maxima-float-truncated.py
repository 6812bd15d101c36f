PROPERTY = 'C01'
NEEDS = 'a gain (float frames) and neighbours that differ by less than 1'
BREAKS = 'the pixel value is truncated to an integer before it is compared with its neighbours'
EDITS = [('stempy/electron.cpp', '    auto pixelValue = frame[i];\n', '    uint16_t pixelValue = frame[i];\n')]
DEMO = r"""
import sys
import numpy as np
from stempy import _image
from stempy.io import PyReader

def count(frames, scan, dark=None, gain=None, lo=0.0, hi=1e9, **kw):
    frames = np.asarray(frames, dtype=np.uint16)
    n = len(frames)
    r = PyReader(frames, list(range(n)), scan, 4, n)
    o = _image.ElectronCountOptionsClassic()
    o.dark_reference = None if dark is None else np.asarray(dark, dtype=np.float32)
    o.gain = None if gain is None else np.asarray(gain, dtype=np.float32)
    o.background_threshold = lo
    o.x_ray_threshold = hi
    o.scan_dimensions = scan
    for k, v in kw.items():
        setattr(o, k, v)
    d = _image.electron_count(r.begin(), r.end(), o)
    return [[np.asarray(f).tolist() for f in p] for p in d.data]

def maxima(a):
    h, w = a.shape
    out = []
    for i in range(h):
        for j in range(w):
            if all(a[i, j] > a[y, x] for y in range(max(0, i-1), min(h, i+2))
                   for x in range(max(0, j-1), min(w, j+2)) if (y, x) != (i, j)):
                out.append(i * w + j)
    return out

rng = np.random.default_rng(3)
f = rng.integers(1, 9, (6, 7)).astype(np.uint16)
g = np.full(f.shape, 0.3, np.float32)
exp = maxima(f.astype(np.float32) * np.float32(0.3))
got = count([f], (1, 1), gain=g)[0][0]
if got != exp:
    sys.exit('events %s, expected %s' % (got, exp))
"""
