PROPERTY = 'C02'
NEEDS = 'integer frames, a fractional x-ray threshold and a pixel equal to its integer part'
BREAKS = 'the x-ray threshold is converted to the type of the pixels'
EDITS = [('stempy/electron.cpp', '  auto optimizedMean = options.optimizedMean;\n  auto applyRowDarkUseMean = options.applyRowDarkUseMean;\n\n  if (first == last) {', '  auto optimizedMean = options.optimizedMean;\n  auto applyRowDarkUseMean = options.applyRowDarkUseMean;\n  // Compare in the type of the frame\n  if (xRayThreshold < std::numeric_limits<FrameType>::max()) {\n    xRayThreshold = static_cast<FrameType>(xRayThreshold);\n  }\n\n  if (first == last) {')]
DEMO = r"""
import sys
import numpy as np
from stempy import _image
from stempy.io import PyReader

def count(frames, scan, dark=None, gain=None, lo=0.0, hi=1e9, **kw):
    frames = np.asarray(frames, dtype=np.uint16)
    n = len(frames)
    r = PyReader(frames, list(range(n)), scan, 4, n)
    o = _image.ElectronCountOptionsClassic()
    o.dark_reference = None if dark is None else np.asarray(dark, dtype=np.float32)
    o.gain = None if gain is None else np.asarray(gain, dtype=np.float32)
    o.background_threshold = lo
    o.x_ray_threshold = hi
    o.scan_dimensions = scan
    for k, v in kw.items():
        setattr(o, k, v)
    d = _image.electron_count(r.begin(), r.end(), o)
    return [[np.asarray(f).tolist() for f in p] for p in d.data]

def maxima(a):
    h, w = a.shape
    out = []
    for i in range(h):
        for j in range(w):
            if all(a[i, j] > a[y, x] for y in range(max(0, i-1), min(h, i+2))
                   for x in range(max(0, j-1), min(w, j+2)) if (y, x) != (i, j)):
                out.append(i * w + j)
    return out

f = np.ones((5, 5), np.uint16)
f[2, 2] = 20
got = count([f], (1, 1), lo=3.5, hi=20.7)[0][0]
if got != [12]:
    sys.exit('events %s, expected [12]' % got)
"""
