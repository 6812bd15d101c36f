PROPERTY = 'C15'
NEEDS = 'a position whose frames have at least as many events as there are pixels while some pixel has none'
BREAKS = 'the minimum over the frame axes takes the number of events for the number of pixels with events'
EDITS = [('python/stempy/io/sparse_array.py', '                unique, counts = np.unique(concatenated, return_counts=True)\n                if len(counts) < self._frame_shape_flat[0]:\n', '                unique, counts = np.unique(concatenated, return_counts=True)\n                if len(concatenated) < self._frame_shape_flat[0]:\n')]
DEMO = r"""
import sys
import numpy as np
from stempy.io import SparseArray
data = np.empty((2, 2), dtype=object)
data[0, 0] = np.array([1, 2], np.uint32); data[0, 1] = np.array([1, 2], np.uint32)
data[1, 0] = np.array([], np.uint32); data[1, 1] = np.array([3], np.uint32)
a = SparseArray(data, (2, 1), (2, 2))
got = a.min(axis=(2, 3)); exp = a.to_dense().min(axis=(2, 3))
if not np.array_equal(got, exp):
    sys.exit('%s, expected %s' % (got.tolist(), exp.tolist()))
"""
