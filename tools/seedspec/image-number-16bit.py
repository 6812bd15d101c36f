PROPERTY = 'C10'
NEEDS = 'a scan with more than 65536 positions'
BREAKS = 'the image number of a version 3 block is computed modulo 2^16'
EDITS = [('stempy/reader.cpp', '  auto scanYPosition = headerPositions[index++];\n  header.imageNumbers.push_back(scanYPosition * header.scanDimensions.first +\n                                scanXPosition);\n\n  return header;\n}\n\nBlock StreamReader::read()', '  auto scanYPosition = headerPositions[index++];\n  uint16_t imageNumber =\n    scanYPosition * header.scanDimensions.first + scanXPosition;\n  header.imageNumbers.push_back(imageNumber);\n\n  return header;\n}\n\nBlock StreamReader::read()')]
DEMO = r"""
import os, sys, tempfile, struct
import numpy as np
from stempy.io import reader, FileVersion
with tempfile.TemporaryDirectory() as d:
    p = os.path.join(d, 'x.dat')
    with open(p, 'wb') as f:
        for x, y in ((0, 0), (3, 299), (299, 250)):
            f.write(struct.pack('<IIHHHH', 1, 1, 300, 300, x, y))
            f.write(np.zeros(576 * 576, np.uint16).tobytes())
    got = [b.header.image_numbers[0] for b in reader(p, version=FileVersion.VERSION3)]
exp = [0, 299 * 300 + 3, 250 * 300 + 299]
if got != exp:
    sys.exit('%s, expected %s' % (got, exp))
"""
