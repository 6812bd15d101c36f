PROPERTY = 'C09'
NEEDS = 'values that lie on an edge between two bins whose position is rounded'
BREAKS = 'the bin is computed by division, which rounds differently from the edges'
EDITS = [('stempy/image.cpp', '    for (int j = 0; j < numBins; j++) {\n      if (value >= bins[j] && value < bins[j + 1]) {\n        ++frequencies[j];\n      }\n    }\n', '    double length = (bins[numBins] - bins[0]) / numBins;\n    if (value >= bins[0] && value < bins[numBins]) {\n      int j = static_cast<int>((value - bins[0]) / length);\n      ++frequencies[std::min(j, numBins - 1)];\n    }\n')]
DEMO = r"""
import sys
import numpy as np
from stempy.image import create_stem_histogram
from stempy.io import PyReader
for n in range(2, 60):
    for top in range(n, 4 * n):
        f = np.arange(top + 1, dtype=np.uint16).reshape(-1, 1, 1)
        r = PyReader(f, list(range(top + 1)), (top + 1, 1), 8, top + 1)
        bins, freq = create_stem_histogram(n, r, [0], [10], (top + 1, 1))
        bins, freq = np.asarray(bins[0]), np.asarray(freq[0])
        exp = [int(((f >= bins[k]) & (f < bins[k + 1])).sum()) for k in range(n)]
        exp[-1] += int((f == bins[n]).sum())
        if freq.tolist() != exp:
            sys.exit('%d bins of 0..%d: %s, expected %s' % (n, top, freq.tolist(), exp))
"""
