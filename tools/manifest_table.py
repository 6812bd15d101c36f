DED = 'contract-based deductive verification (own VC generator over the LLVM IR of the compiled source, z3/cvc5)'
DEDPY = 'contract-based deductive verification (own VC generator over the Python source, z3)'
G = 'run-time cases through the public Python interface against an oracle written from the statement'
CXX = 'Trusted: the contracts of the C++ standard library in vcg/stdlib.py, clang\'s IR, floating-point operations as finite reals with monotone rounding, no allocation failure, the sequential thread-pool contract. '
PYT = 'Trusted: the numpy contracts in vcg/pynp.py, the interpreter in vcg/pyinterp.py; floating point as exact reals, results fit their dtype. '
N = {
 1: 'Unbounded: maximalPoints for every pixel type, any width and height. ' + CXX,
 2: 'Unbounded: the per-frame electronCount and the block electronCount for every pixel type with and without dark and gain. ' + CXX,
 3: 'Unbounded: applyRowDark and its callers. Trusted in addition: std::nth_element and max_element. ' + CXX,
 4: 'Unbounded: block electronCount over an abstract block iterator, dense and thread-pool readers; the Python wrapper only at run time. ' + CXX,
 5: 'Unbounded: createAnnularMask, calculateSTEMValues, createSTEMImages (blocks). The sum of a frame is the fold that defines it. ' + CXX,
 6: 'Unbounded: calculateSTEMValuesSparse and the sparse createSTEMImages. ' + CXX,
 7: 'Unbounded: radialSumFrame and radialSumFrames; the driver radialSum over the blocks is covered at run time only (bounded). ' + CXX,
 8: 'Unbounded: calculateAverage and maximumDiffractionPattern over any block sequence. ' + CXX,
 9: 'Unbounded: getContainer and createSTEMHistogram. ' + CXX,
 10: 'Unbounded: StreamReader::read, the three header readers, open/next file, reset and the block iterator, with the format as a contract of ifstream. ' + CXX,
 11: 'Unbounded (partial correctness): SectorStreamReader::read, readHeader, readSectorData and the iterator for versions 4 and 5, over any number of files and records. Assumes one record per image and sector and complete records. ' + CXX,
 12: 'Unbounded: readHeaders, processFrame(s), readFrames, readSectorData, numFramesPerScan. Assumed contract: the scan map is as large as the scan (initializeScanMap). Worker threads by the sequential contract of the thread pool. ' + CXX,
 13: 'Unbounded: PyReader::read, begin/end/next, reset, with the contract of the pybind11 call that fetches a slice. The Python side of get_hdf5_reader at run time only. ' + CXX,
 14: 'Unbounded: calculateThresholds, calculateMean, calculateVariance, getContainer and the sampling; the least-squares fit (Eigen) is opaque. ' + CXX,
 15: 'Unbounded: sum, mean, min, max over scan and frame axes. ' + PYT,
 16: 'Unbounded: bin_scans. bin_frames is not under contract: bounded run-time cases decide that half of the property. ' + PYT,
 17: 'Unbounded: __getitem__ for the enumerated kinds of index tuples with symbolic bounds, and reshape; pairs of joint index lists at run time only. ' + PYT,
 18: 'Bounded: generated arrays and files are saved, loaded and converted and compared with an oracle; no contract yet reaches the HDF5 library and the event placement loops.',
 19: 'Unbounded: com_sparse version 0 for all options; version 1 without replacement, uncropped or cropped around a given centre. Version 1 with replacement, or cropped around the full mean: bounded run-time cases. ' + PYT,
 20: 'Unbounded: calculate_sum_sparse, mask_real_space, virtual_darkfield, radial_sum_sparse. ' + PYT,
 21: 'Unbounded: getSampleBlocksPerRank, the stream partition of initMPI and partitionScanMap for every number of processes. ' + CXX,
}
T = {'C%02d' % i: dict(technique=DED if i < 15 or i > 20 else DEDPY, note=N[i], bounded=G) for i in range(1, 22)}
