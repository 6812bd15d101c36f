#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the hand-written property list lives here so it stays readable)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, state=(), observe=(), hook=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=list(over), text=text), why_tests_cant=why,
        anchors=dict(files=list(files),
            mechanism=[dict(name=n, where=w) for n, w in mech],
            state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
            observe_at=list(observe), hook_needed=hook)))

prop("C01", "Electron finding returns exactly the strict local maxima of a frame",
 "For every frame of any width and height, the electron events found in it are exactly the row-major indices of the pixels whose value is strictly greater than every one of their existing (up to eight, never wrapped around an edge) neighbours. "
 "They are listed in ascending order, each once, and finding them never reads outside the frame.",
 ["inputs"], "all frames (integer or floating-point pixels, no NaN), all widths and heights up to 65535",
 "the stable tests never run electron finding on raw frames; border, corner, plateau and 1-pixel-wide cases are an unbounded family",
 ["stempy/electron.cpp"],
 [("maximalPoints", "stempy/electron.cpp"), ("mod", "stempy/electron.cpp")],
 [("events", "indices of the local maxima", "maximalPoints, stempy/electron.cpp")],
 ["return value of the per-frame counting function", "stempy.image.electron_count"])

prop("C02", "Dark, gain and threshold preprocessing is applied per pixel as specified",
 "Before events are searched, every pixel of every frame is replaced by its dark-subtracted, gain-multiplied value when that value lies strictly between the background and the x-ray threshold, and by 0 otherwise; without a dark reference or a gain the missing step is simply left out. "
 "Every pixel is processed exactly once, with its own dark and gain entries, and nothing outside the frame, dark or gain arrays is accessed. The pixels of integer frames stay integers: fractional parts are dropped.",
 ["inputs", "configurations"], "all frames, dark references, gains, thresholds, with/without dark and gain, integer and float pixel types, both counting paths",
 "no stable test counts electrons from raw frames, and a test would only fix a handful of thresholds and pixel values",
 ["stempy/electron.cpp", "stempy/electronthresholds.h"],
 [("per-frame electronCount", "stempy/electron.cpp"), ("iterator electronCount", "stempy/electron.cpp"), ("static_if", "stempy/electronthresholds.h")],
 [("frame", "working copy of one frame", "stempy/electron.cpp")],
 ["stempy.image.electron_count"])

prop("C03", "Row-dark correction uses each row's own left-half and right-half statistic",
 "With row-dark correction on, each row is split into a left part of floor(width/2) pixels and a right part with the rest, and every pixel is (global-dark subtracted if a dark reference is given, then) scaled by the reference mean divided by the mean (or median, if so selected) of the uncorrected pixels of its own part, multiplied by its gain, and then zeroed unless it lies strictly between the two thresholds. "
 "This holds for frames of any width and height, each pixel being corrected exactly once.",
 ["inputs", "configurations"], "all frame shapes (also non-square, odd widths), contents, thresholds, with/without global dark and gain, mean and median",
 "no test runs the row-dark path at all",
 ["stempy/electron.cpp"], [("applyRowDark", "stempy/electron.cpp")],
 [("frame", "working copy of one frame", "stempy/electron.cpp")],
 ["stempy.image.electron_count(apply_row_dark=True)"])

prop("C04", "Electron counting files every frame's events under that frame's scan position",
 "Counting a whole acquisition yields one entry per scan position in row-major order, in which each frame read contributes its events exactly once at the position given by its image number, whatever the partition of the frames into blocks or their order. "
 "The result carries the scan shape (rows, columns), the frame shape (rows, columns), and positions for which no frame was read have no events.",
 ["inputs", "configurations", "histories"], "all partitions of an acquisition into blocks, all image-number orders, all scan/frame dimensions given or taken from the header",
 "stable tests build counted arrays by hand and never drive the counting loop over blocks",
 ["stempy/electron.cpp", "python/image.cpp", "python/stempy/image/__init__.py"],
 [("iterator electronCount", "stempy/electron.cpp"), ("ElectronCountedDataPyArray", "python/image.cpp"), ("electron_count", "python/stempy/image/__init__.py")],
 [("events", "events[position][frame] -> indices", "stempy/electron.cpp")],
 ["stempy.image.electron_count"])

prop("C05", "Virtual-detector STEM images sum exactly the pixels inside the annulus",
 "For each (inner, outer) radius pair, the pixel of the STEM image at a frame's image number equals the sum of that frame's pixels whose squared distance d2 to the centre satisfies inner^2 <= d2 < outer^2; a negative centre coordinate means the rounded half of the frame size. "
 "This holds for any frame size, any block partition and any number of radius pairs, without overflow, and positions with no frame stay 0.",
 ["inputs", "configurations", "schedules"], "all frames, frame sizes, centres, radii lists, block partitions and worker schedules (each image number at most once)",
 "tests compute no STEM image from raw frames except one reader smoke test; mask geometry and block offsets are unbounded families",
 ["stempy/mask.cpp", "stempy/image.cpp", "stempy/image.h", "python/image.cpp", "python/stempy/image/__init__.py"],
 [("createAnnularMask", "stempy/mask.cpp"), ("calculateSTEMValues", "stempy/image.cpp"), ("_runCalculateSTEMValues", "stempy/image.cpp"), ("createSTEMImages", "stempy/image.cpp")],
 [("image", "one pixel per scan position", "Image<uint64_t>, stempy/image.h")],
 ["stempy.image.create_stem_images"])

prop("C06", "STEM images from sparse events count the events inside the annulus",
 "For counted (sparse) data, the STEM image pixel of a scan position equals 65535 times the number of that position's events, over all its frames, that fall inside the annulus of the given inner and outer radius around the centre. "
 "It is independent of how the events are split over frames and of whether the input is a counted-data object, a sparse array or a plain array of event lists.",
 ["inputs", "configurations"], "all sparse data sets (any number of frames per position, also empty), frame sizes, centres and radii",
 "stable tests do not compute STEM images from sparse data",
 ["stempy/image.h", "stempy/mask.cpp", "python/image.cpp", "python/stempy/image/__init__.py"],
 [("calculateSTEMValuesSparse", "stempy/image.h"), ("createSTEMImages (sparse)", "stempy/image.h"), ("create_stem_images", "python/stempy/image/__init__.py")],
 [], ["stempy.image.create_stem_images"])

prop("C07", "Radial sums put every pixel into the bin of its rounded-up radius",
 "The radial sum at (radius r, scan position p) equals the sum of the pixels of the frame with image number p whose distance to the centre, rounded up, is r; the radius axis is long enough for every pixel, so the bins of a position add up to the total of its frame. "
 "This holds for any frame size, any centre inside the frame (defaulting to the rounded half of the frame size), any block partition and any worker schedule, and nothing outside the result is written.",
 ["inputs", "configurations", "schedules"], "all frames, sizes, centres within the frame, block partitions",
 "the stable tests cover only the sparse radial sum for one shape",
 ["stempy/image.cpp", "stempy/image.h", "stempy/atomic_primitives.h", "python/image.cpp"],
 [("radialSumFrame", "stempy/image.cpp"), ("radialSumFrames", "stempy/image.cpp"), ("radialSum", "stempy/image.cpp"), ("RadialSum", "stempy/image.cpp")],
 [("radialSum", "radii x height x width of sums", "stempy/image.h")],
 ["stempy.image.radial_sum"])

prop("C08", "Average and maximum diffraction patterns are the per-pixel mean and maximum",
 "The average image is, pixel by pixel, the sum over all frames of all blocks divided by the number of frames, and the maximum diffraction pattern is the per-pixel maximum over all frames, minus the dark reference (to single precision) if one is given. "
 "Every frame of every block counts exactly once, whatever the partition into blocks and the frame shape.",
 ["inputs", "configurations"], "all sequences of blocks, frame shapes, pixel values",
 "no stable test computes either image",
 ["stempy/image.cpp", "python/stempy/image/__init__.py"],
 [("calculateAverage", "stempy/image.cpp"), ("maximumDiffractionPattern", "stempy/image.cpp")],
 [], ["stempy.image.calculate_average", "stempy.image.maximum_diffraction_pattern"])

prop("C09", "The STEM histogram covers the image range and counts every pixel once",
 "The histogram of a STEM image has n bins with n+1 equally spaced, non-decreasing edges running exactly from the image's minimum to its maximum. "
 "When the image is not constant, each pixel is counted in exactly one bin, the one whose half-open range contains it (the maximum in the last), so the counts add up to the number of pixels.",
 ["inputs", "configurations"], "all images with values up to 2^53 and all bin counts >= 1",
 "no stable test computes a histogram; rounding of the edges shows only for particular (range, n) pairs",
 ["stempy/image.cpp", "python/stempy/image/__init__.py"],
 [("getContainer", "stempy/image.cpp"), ("createSTEMHistogram", "stempy/image.cpp")],
 [], ["stempy.image.create_stem_histogram"])

prop("C10", "Raw files are decoded into blocks exactly as their format says",
 "Reading files of the block formats (versions 1 to 3) returns, in file order, one block per stored block with the stored frame size, zero-based image numbers (scan y * scan width + scan x where the format stores positions) and the stored pixels bit for bit, continuing from file to file; a truncated block raises an error and the end of the last file ends the sequence. "
 "Seen as an array, element (i, row, column) of a block is pixel row*width+column of its i-th frame, also for non-square frames, and after a reset the same blocks are read again.",
 ["inputs", "histories"], "all well-formed files (any number of blocks, frames per block, frame sizes), splits over several files, truncations, read/reset histories",
 "the stable tests read no version 1-3 file",
 ["stempy/reader.cpp", "stempy/reader.h", "python/io.cpp", "python/stempy/io/__init__.py"],
 [("StreamReader::readHeaderVersion1/2/3", "stempy/reader.cpp"), ("StreamReader::read", "stempy/reader.cpp"), ("BlockIterator", "stempy/reader.h"), ("_block buffer", "python/io.cpp")],
 [("m_curFileIndex", "file being read", "stempy/reader.h")],
 ["stempy.io.reader(...).read()"])

prop("C11", "Sector files are assembled into complete frames with every sector in its place",
 "For the four-sector formats (versions 4 and 5), a frame is returned once all four of its sectors have been read, with each sector's pixels bit for bit in its own column strip (version 4) or row band (version 5), and carrying the image number, scan size and frame size from the headers. "
 "At the end of the files, frames with missing sectors are returned once each with the missing parts 0; no frame is lost, duplicated or mixed with another, whatever the order of sectors in and across files (of acquisitions with one frame per scan position).",
 ["inputs", "histories"], "all distributions and orders of sectors over files, missing sectors, both versions",
 "the stable tests read no sector file",
 ["stempy/reader.cpp", "stempy/reader.h"],
 [("SectorStreamReader::read", "stempy/reader.cpp"), ("readSectorDataVersion4/5", "stempy/reader.cpp"), ("SectorStreamReader::readHeader", "stempy/reader.cpp")],
 [("m_frameCache", "partially read frames by image number", "stempy/reader.h")],
 ["stempy.io.reader(..., version=4|5).read()"])

prop("C12", "The multi-pass reader rebuilds each requested frame from its own sectors",
 "Reading frames of a scan position by index returns, for each requested index in order, the frame with that rank among the position's frame numbers, with every stored sector of that frame bit for bit in its place, missing sectors 0, and its image and frame number. "
 "Out-of-range positions or indices raise an error, the number of frames per position is the largest number found at any position, and the result does not depend on the order of the sectors in the files, the number of threads or what was read before.",
 ["inputs", "histories", "schedules"], "all sector files, request sequences, thread counts",
 "the stable tests use no multi-pass reader",
 ["stempy/reader.h", "stempy/reader.cpp", "python/stempy/io/__init__.py"],
 [("processFrame", "stempy/reader.h"), ("readFrames / loadFrames", "stempy/reader.h"), ("readHeaders", "stempy/reader.cpp"), ("read_frames", "python/stempy/io/__init__.py")],
 [("m_scanMap", "sector locations per position and frame number", "stempy/reader.h")],
 ["stempy.io.reader(..., backend='multi-pass').read_frames"])

prop("C13", "In-memory and HDF5 data sets are read as consecutive, gap-free blocks",
 "Reading a data set of N frames with block size B yields blocks that partition frames 0..N-1 in order, each of B frames except a shorter last one, each frame carrying its own image number and its own pixels whatever the memory layout of the data set, followed by the end of the data. "
 "A reset starts over from frame 0.",
 ["inputs", "histories"], "all N, B >= 1, frame shapes, image-number lists, memory layouts, read/reset histories",
 "no stable test reads through this reader; boundary cases N mod B are an unbounded family",
 ["python/pyreader.cpp", "python/pyreader.h", "python/io.cpp", "python/stempy/io/__init__.py"],
 [("PyReader::read", "python/pyreader.cpp"), ("PyReader::iterator", "python/pyreader.h"), ("get_hdf5_reader", "python/stempy/io/__init__.py")],
 [("m_currIndex", "next frame to read", "python/pyreader.h")],
 ["stempy.io.PyReader", "stempy.io.reader(h5file)"])

prop("C14", "Threshold calibration is memory safe and its statistics are those of the sample",
 "Calibrating thresholds never accesses memory outside the sampled frames or its histogram, whatever the (finite) pixel values, dark reference and gain; it returns, or raises an error when no fit is possible. "
 "The reported mean, variance, standard deviation, minimum and x-ray threshold (mean plus the requested number of standard deviations) are those of the sample pixels after dark subtraction (in the arithmetic of the pixel type when no gain is given) and gain multiplication.",
 ["inputs", "configurations"], "all blocks, dark references, gains, sample counts",
 "no stable test calls the threshold calculation; a wrong histogram index is silent heap corruption",
 ["stempy/electronthresholds.cpp", "stempy/electronthresholds.h"],
 [("calculateThresholds", "stempy/electronthresholds.cpp"), ("calculateMean", "stempy/electronthresholds.cpp"), ("calculateVariance", "stempy/electronthresholds.cpp")],
 [], ["stempy._image.calculate_thresholds", "metadata of electron_count"])

prop("C15", "Sparse reductions equal the same reductions of the dense array",
 "For every sparse array, sum, mean, min and max over the scan axes or over the frame axes equal those of its dense expansion, for any scan and frame shape, any number (at least one) of frames per position and empty frames or positions.",
 ["inputs", "configurations"], "all sparse arrays (frames list each pixel at most once), the four reductions, both axis groups",
 "tests compare a few fixed data sets; empty positions, repeated pixels across frames and shapes are an unbounded family",
 ["python/stempy/io/sparse_array.py"],
 [("SparseArray.sum", "python/stempy/io/sparse_array.py"), ("SparseArray.mean", "python/stempy/io/sparse_array.py"), ("SparseArray.min", "python/stempy/io/sparse_array.py"), ("SparseArray.max", "python/stempy/io/sparse_array.py"), ("SparseArray._expand", "python/stempy/io/sparse_array.py")],
 [("data", "object array (positions, frames) of event index arrays", "python/stempy/io/sparse_array.py")],
 ["SparseArray.sum/mean/min/max"])

prop("C16", "Binning a sparse array equals binning its dense expansion",
 "Binning the frame dimensions, or the dimensions of a two-dimensional scan, of a sparse array by a factor that divides them gives a sparse array whose dense expansion is the block-wise sum of the original's, for any (also non-square) shapes, with each frame still listing a pixel at most once. "
 "In-place binning changes the array itself and returns it; otherwise the original is left unchanged.",
 ["inputs", "configurations", "histories"], "all sparse arrays, factors dividing the shape, in_place both ways",
 "tests bin one fixed square data set",
 ["python/stempy/io/sparse_array.py"],
 [("SparseArray.bin_scans", "python/stempy/io/sparse_array.py"), ("SparseArray.bin_frames", "python/stempy/io/sparse_array.py")],
 [], ["SparseArray.bin_scans", "SparseArray.bin_frames"])

prop("C17", "Indexing a sparse array equals indexing its dense expansion",
 "For every supported index (tuples, without ellipsis, of integers and slices, or of slices and index lists without repeats or boolean masks) the result, sparse or dense, expands to the same index applied to the dense expansion, in shape and in values; reshaping keeps every event at the same flat position. "
 "The original array is not changed by indexing.",
 ["inputs", "configurations"], "all sparse arrays of 3 or 4 dimensions and all supported indices",
 "tests sample a dozen indices on one fixture that is not among the stable tests",
 ["python/stempy/io/sparse_array.py"],
 [("SparseArray._split_slices", "python/stempy/io/sparse_array.py"), ("SparseArray._slice_sparse", "python/stempy/io/sparse_array.py"), ("SparseArray._slice_dense", "python/stempy/io/sparse_array.py"), ("SparseArray.reshape", "python/stempy/io/sparse_array.py")],
 [], ["SparseArray.__getitem__", "SparseArray.reshape"])

prop("C18", "Saving, loading and converting counted data preserves every event",
 "Saving a sparse array with a two-dimensional scan and loading it back gives the same scan shape, frame shape, metadata and, at every position, the same events; files of the older formats (versions 1 and 2) load with every event, including repeated ones, at its recorded scan position, and in the loaded array no frame lists a pixel twice. "
 "Loading without the flyback column drops exactly the last of two or more columns of the scan and nothing else.",
 ["inputs", "histories", "configurations"], "all sparse arrays, all version 1/2 files (position order, several frames per position, repeated events)",
 "the tests that load files are not among the stable ones and use fixed files",
 ["python/stempy/io/sparse_array.py", "python/stempy/io/compatibility.py"],
 [("SparseArray.write_to_hdf5 / from_hdf5", "python/stempy/io/sparse_array.py"), ("convert_data_v1_to_v2", "python/stempy/io/compatibility.py"), ("convert_data_v2_to_v3", "python/stempy/io/compatibility.py")],
 [], ["stempy.io.save_electron_counts", "stempy.io.load_electron_counts"])

prop("C19", "Centre of mass of sparse data is the mean event position",
 "For every scan position the computed centre of mass is (mean column, mean row) of the position's events over all its frames, restricted, if a crop radius is given, to events within that radius of the initial centre (the given one, or the position's own full mean); positions without events are not-a-number, or the mean of the others when replacement is requested. "
 "Both algorithm versions agree, for any two-dimensional scan and any frame shape.",
 ["inputs", "configurations"], "all sparse arrays with at least one non-empty position, crop radii, initial centres, both versions",
 "tests compare two fixed data sets with square frames",
 ["python/stempy/image/__init__.py"],
 [("_com_sparse_v0", "python/stempy/image/__init__.py"), ("com_v1_kernel", "python/stempy/image/__init__.py"), ("_com_sparse_v1", "python/stempy/image/__init__.py")],
 [], ["stempy.image.com_sparse"])

prop("C20", "Sparse diffraction sums, masks and apertures count each event exactly once",
 "The summed diffraction pattern of a set of event lists counts, per pixel, its events; masking in real space sums exactly the positions selected by the mask; a virtual dark-field image counts per position the events closer than each aperture's radius to its centre (summed over apertures); and the sparse radial sum counts per position the events with distance in [k, k+1) in bin k (the last bin also including its upper edge). "
 "This holds for any two-dimensional scan, any frame shape and any number of frames per position.",
 ["inputs", "configurations"], "all sparse arrays, masks, apertures and centres",
 "one stable test covers one radial sum on one shape",
 ["python/stempy/image/__init__.py"],
 [("calculate_sum_sparse", "python/stempy/image/__init__.py"), ("mask_real_space", "python/stempy/image/__init__.py"), ("virtual_darkfield", "python/stempy/image/__init__.py"), ("radial_sum_sparse", "python/stempy/image/__init__.py")],
 [], ["stempy.image.calculate_sum_sparse", "stempy.image.mask_real_space", "stempy.image.virtual_darkfield", "stempy.image.radial_sum_sparse"])

prop("C21", "Distributed runs divide the work with no gap and no overlap",
 "For every number of processes, the shares of the threshold-sampling blocks, of the input streams and of the scan positions assigned to the processes are non-negative and together cover each item exactly once, none twice.",
 ["inputs", "configurations"], "all world sizes >= 1, all ranks, all item counts",
 "the MPI code is not even compiled in the test build",
 ["stempy/electron_mpi.cpp", "stempy/reader_mpi.cpp"],
 [("getSampleBlocksPerRank", "stempy/electron_mpi.cpp"), ("initMPI", "stempy/reader_mpi.cpp"), ("partitionScanMap", "stempy/reader_mpi.cpp")],
 [], ["shares computed per rank"])

prop("C22", "Threaded counting counts each frame exactly once under every schedule",
 "Counting with the threaded and multi-pass readers terminates and yields the same events per scan position as counting the same frames one after another with the same thresholds, whatever the number of threads and their interleaving.",
 ["schedules", "inputs"], "all interleavings of the reader and worker threads, all thread counts",
 "a test observes one schedule per run",
 ["stempy/electron.cpp", "stempy/reader.h"],
 [("threaded electronCount", "stempy/electron.cpp"), ("SectorStreamThreadedReader::readAll", "stempy/reader.h"), ("processFrames", "stempy/reader.h")],
 [("events, sampleBlocks, incompleteBlocks", "shared between workers", "stempy/electron.cpp")],
 ["stempy.image.electron_count with backend='multi-pass'"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, (p["id"], len(p["title"]))
        f.write(json.dumps(p) + "\n")
