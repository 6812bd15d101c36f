PROPERTY = 'C18'
NEEDS = 'a version 2 file with several frames at one position'
BREAKS = 'converting version 2 data appends the frames of a position only if it comes first'
EDITS = [('python/stempy/io/compatibility.py', '        current = result[pos]\n        for i in range(frames_per_scan):\n            if current[i] is None:\n                current[i] = datum\n                break\n', '        current = result[pos]\n        for i in range(frames_per_scan):\n            if current[i] is None or len(current[i]) == 0:\n                current[i] = datum\n                break\n            elif np.array_equal(current[i], datum):\n                # Already stored\n                break\n')]
DEMO = r"""
import os, sys, tempfile
import h5py
import numpy as np
from stempy.io import load_electron_counts
with tempfile.TemporaryDirectory() as d:
    p = os.path.join(d, 'x.h5')
    frames = [np.array([1, 3], np.uint32), np.array([2], np.uint32), np.array([1, 3], np.uint32)]
    pos = np.array([0, 1, 0])
    with h5py.File(p, 'w') as f:
        f.attrs['version'] = 2
        g = f.require_group('electron_events')
        s = g.create_dataset('scan_positions', data=pos)
        s.attrs['Nx'] = 2; s.attrs['Ny'] = 1
        e = g.create_dataset('frames', (3,), dtype=h5py.special_dtype(vlen=np.uint32))
        for i, x in enumerate(frames):
            e[i] = x
        e.attrs['Nx'] = 2; e.attrs['Ny'] = 2
    a = load_electron_counts(p)
dense = a.to_dense().reshape(2, 4)
if dense.tolist() != [[0, 2, 0, 2], [0, 0, 1, 0]]:
    sys.exit('loaded %s' % dense.tolist())
"""
