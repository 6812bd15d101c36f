PROPERTY = 'C07'
NEEDS = 'a centre for which the corner furthest away is not on the main diagonal'
BREAKS = 'the length of the radius axis is computed from two of the four corners, so the far pixels are added outside the result'
EDITS = [('stempy/image.cpp', '  for(int x=0; x<2; x++) {\n    for(int y=0; y<2; y++) {\n      auto dist =\n        distance(x * frameDimensions.first, y * frameDimensions.second,\n                 center.first, center.second);\n      if (dist > max) {\n        max = dist;\n      }\n    }\n  }\n', '  for (int corner = 0; corner < 2; corner++) {\n    auto dist = distance(corner * frameDimensions.first,\n                         corner * frameDimensions.second, center.first,\n                         center.second);\n    if (dist > max) {\n      max = dist;\n    }\n  }\n')]
DEMO = r"""
import sys
import numpy as np
from stempy.image import radial_sum
from stempy.io import PyReader
f = np.ones((4, 40, 40), np.uint16)
r = PyReader(f, list(range(4)), (2, 2), 2, 4)
s = np.asarray(radial_sum(r, center=(39, 0), scan_dimensions=(2, 2)))
if s.shape[0] <= int(np.ceil(np.hypot(39, 39))):
    sys.exit('only %d radii' % s.shape[0])
if not (s.sum(axis=0) == 1600).all():
    sys.exit('sums %s' % s.sum(axis=0))
"""
