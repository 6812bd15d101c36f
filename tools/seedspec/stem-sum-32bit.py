PROPERTY = 'C05'
NEEDS = 'a frame whose sum inside the annulus exceeds 32 bits'
BREAKS = 'the sum of a frame wraps around at 2^32'
EDITS = [('stempy/image.cpp', '  for (size_t i = 0; i < numberOfPixels; i++) {\n    auto value = data[offset + i];\n    stemValues.data += value & mask[i];\n  }\n', '  uint32_t sum = 0;\n  for (size_t i = 0; i < numberOfPixels; i++) {\n    auto value = data[offset + i];\n    sum += value & mask[i];\n  }\n  stemValues.data = sum;\n')]
DEMO = r"""
import sys
import numpy as np
from stempy.image import create_stem_images
f = np.full((2, 300, 300), 65535, np.uint16)
img = create_stem_images(f, 0, 1000, scan_dimensions=(2, 1))
exp = 300 * 300 * 65535
if not (np.asarray(img[0]) == exp).all():
    sys.exit('%s, expected %d' % (img, exp))
"""
