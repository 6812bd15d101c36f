PROPERTY = 'C08'
NEEDS = 'blocks of different numbers of frames'
BREAKS = 'every block is counted as having as many frames as the first one'
EDITS = [('stempy/image.cpp', '  std::fill(image.data.get(), image.data.get() + numDetectorPixels, 0.0);\n  uint64_t numberOfImages = 0;\n  for (; first != last; ++first) {\n    auto block = std::move(*first);\n    auto blockData = block.data.get();\n    numberOfImages += block.header.imagesInBlock;\n', '  std::fill(image.data.get(), image.data.get() + numDetectorPixels, 0.0);\n  uint64_t numberOfImages = 0;\n  // All the blocks of a file have the same size\n  uint64_t imagesInBlock = first->header.imagesInBlock;\n  for (; first != last; ++first) {\n    auto block = std::move(*first);\n    auto blockData = block.data.get();\n    numberOfImages += imagesInBlock;\n')]
DEMO = r"""
import sys
import numpy as np
from stempy.image import calculate_average
from stempy.io import PyReader
f = np.full((5, 3, 4), 10, np.uint16)
r = PyReader(f, list(range(5)), (5, 1), 2, 5)
a = np.asarray(calculate_average(r))
if not np.allclose(a, 10):
    sys.exit('average %s' % a)
"""
