PROPERTY = 'C16'
NEEDS = 'a scan that is not square'
BREAKS = 'the index of a binned position uses the number of binned rows as the stride'
EDITS = [('python/stempy/io/sparse_array.py', '        for i in range(new_scan_shape[0]):\n            for j in range(new_scan_shape[1]):\n                idx = i * new_scan_shape[1] + j\n', '        for i in range(new_scan_shape[0]):\n            for j in range(new_scan_shape[1]):\n                idx = i * new_scan_shape[0] + j\n')]
DEMO = r"""
import sys
import numpy as np
from stempy.io import SparseArray
rng = np.random.default_rng(2)
data = np.empty((24, 1), dtype=object)
for i in range(24):
    data[i, 0] = np.sort(rng.choice(6, rng.integers(0, 6), replace=False)).astype(np.uint32)
a = SparseArray(data, (4, 6), (2, 3))
b = a.bin_scans(2)
exp = a.to_dense().reshape(2, 2, 3, 2, 2, 3).sum(axis=(1, 3))
if not np.array_equal(b.to_dense(), exp):
    sys.exit('binned scan differs')
"""
