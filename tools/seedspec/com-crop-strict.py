PROPERTY = 'C19'
NEEDS = 'an event at exactly the crop radius'
BREAKS = 'the vectorised algorithm leaves out events at the crop radius when the initial centre is given'
EDITS = [('python/stempy/image/__init__.py', '            r = np.sqrt((x - init_center[0])**2 + (y - init_center[1])**2)\n            mask = (r <= crop_to)\n', '            r = np.sqrt((x - init_center[0])**2 + (y - init_center[1])**2)\n            mask = (r < crop_to)\n')]
DEMO = r"""
import sys
import numpy as np
from stempy.io import SparseArray
from stempy.image import com_sparse
data = np.empty((1, 1), dtype=object)
data[0, 0] = np.array([0 * 10 + 4, 5 * 10 + 0], np.uint32)
a = SparseArray(data, (1, 1), (10, 10))
got = com_sparse(a, crop_to=5, init_center=(0, 0), replace_nans=False, version=1).ravel()
if not np.allclose(got, [2, 2.5]):
    sys.exit('%s' % got)
"""
