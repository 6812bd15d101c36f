PROPERTY = 'C12'
NEEDS = 'the sectors of several frames of a position stored in descending order of frame number'
BREAKS = 'frames are indexed in the order of their first sector instead of by rank of the frame number'
EDITS = [('stempy/reader.h', 'using ScanMap = std::vector<std::map<uint32_t, std::array<SectorLocation, 4>>>;', 'using ScanMap = std::vector<\n  std::map<uint32_t, std::array<SectorLocation, 4>, std::greater<uint32_t>>>;'), ('stempy/reader.h', '  // Now sort them to make sure that we loop over them in a consistent order.\n  std::sort(frameNumbers.begin(), frameNumbers.end());\n\n  for (size_t i = 0; i < frameIndices.size(); ++i) {', '  for (size_t i = 0; i < frameIndices.size(); ++i) {')]
DEMO = r"""
import os, sys, tempfile, struct
import numpy as np
from stempy.io import reader, FileVersion
from stempy import _io
with tempfile.TemporaryDirectory() as d:
    paths = []
    for s in range(4):
        p = os.path.join(d, 'module%d.data' % s)
        paths.append(p)
        with open(p, 'wb') as f:
            for frame in (7, 3, 5):
                f.write(struct.pack('<IIHHHH', 1, frame, 1, 1, 0, 0))
                f.write(np.full(576 * 144, frame * 10 + s, np.uint16).tobytes())
    r = reader(paths, version=FileVersion.VERSION5, backend='multi-pass')
    got = [int(np.asarray(b.data).ravel()[0]) for b in r.read_frames((0, 0), slice(None))]
if got != [30, 50, 70]:
    sys.exit('frames %s' % got)
"""
