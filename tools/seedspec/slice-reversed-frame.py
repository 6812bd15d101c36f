PROPERTY = 'C17'
NEEDS = 'a negative step in a frame dimension'
BREAKS = 'the kept pixels are renumbered in ascending order of their old index instead of in the order of the slice'
EDITS = [('python/stempy/io/sparse_array.py', '            valid_flat_frame_indices = sliced.ravel()\n', '            valid_flat_frame_indices = np.unique(sliced)\n')]
DEMO = r"""
import sys
import numpy as np
from stempy.io import SparseArray
data = np.empty((2, 1), dtype=object)
data[0, 0] = np.array([0, 4], np.uint32); data[1, 0] = np.array([5], np.uint32)
a = SparseArray(data, (2, 1), (2, 3))
got = a[:, :, ::-1, :].to_dense(); exp = a.to_dense()[:, :, ::-1, :]
if not np.array_equal(got, exp):
    sys.exit('%s, expected %s' % (got.tolist(), exp.tolist()))
"""
