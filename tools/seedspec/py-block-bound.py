PROPERTY = 'C13'
NEEDS = 'a number of frames that is not a multiple of the block size'
BREAKS = 'the number of frames of the last block is not reduced, so the next read starts in the wrong place'
EDITS = [('python/pyreader.cpp', '  for (auto i = m_currIndex; i < upperBound; i++) {\n    imageNumberForBlock.push_back(m_imageNumbers[i]);\n  }\n', '  for (auto i = m_currIndex; i < upperBound; i++) {\n    imageNumberForBlock.push_back(m_imageNumbers[i % m_imageNumInBlock]);\n  }\n')]
DEMO = r"""
import sys
import numpy as np
from stempy.io import PyReader
f = np.zeros((7, 2, 3), np.uint16)
r = PyReader(f, [6, 5, 4, 3, 2, 1, 0], (7, 1), 3, 7)
got = [n for b in r for n in b.header.image_numbers]
if got != [6, 5, 4, 3, 2, 1, 0]:
    sys.exit('image numbers %s' % got)
"""
