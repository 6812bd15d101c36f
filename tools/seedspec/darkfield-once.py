PROPERTY = 'C20'
NEEDS = 'two overlapping apertures'
BREAKS = 'an event inside several apertures is counted once instead of once per aperture'
EDITS = [('python/stempy/image/__init__.py', '            for cc_0, cc_1, rr in zip(centers_x, centers_y, radii):\n                dist = np.sqrt((ev_rows - cc_1)**2 + (ev_cols - cc_0)**2)\n                rs_image[ii] += len(np.where(dist < rr)[0])\n', '            inside = np.zeros(len(ev), dtype=bool)\n            for cc_0, cc_1, rr in zip(centers_x, centers_y, radii):\n                dist = np.sqrt((ev_rows - cc_1)**2 + (ev_cols - cc_0)**2)\n                inside |= dist < rr\n            rs_image[ii] += np.count_nonzero(inside)\n')]
DEMO = r"""
import sys
import numpy as np
from stempy.io import SparseArray
from stempy.image import virtual_darkfield
data = np.empty((1, 1), dtype=object)
data[0, 0] = np.array([12], np.uint32)
a = SparseArray(data, (1, 1), (5, 5))
got = int(virtual_darkfield(a, (2, 2), (2, 1), (2, 2)).ravel()[0])
if got != 2:
    sys.exit('%d, expected 2' % got)
"""
