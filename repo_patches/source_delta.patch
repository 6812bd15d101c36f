From e487528c3c9f3546d3eab5e926352d5e1b6d49ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:53 +0000
Subject: [PATCH 01/24] fix: count electrons without a dark reference

The iterator based electronCount() dereferenced the dark reference even when
there is none (dark == false), crashing for the plain and gain-only cases.
---
 stempy/electron.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/stempy/electron.cpp b/stempy/electron.cpp
index f9e73df..71cb9bf 100644
--- a/stempy/electron.cpp
+++ b/stempy/electron.cpp
@@ -478,10 +478,10 @@ ElectronCountedData electronCount(InputIt first, InputIt last,
           // Subtract darkfield reference and apply gain if we have one, this
           // will be based on our template type, it can be evaluated a compile
           // time.
-          if (std::is_integral<FrameType>::value) {
-            frame[j] -= darkReference[j];
-          } else {
-            frame[j] = (frame[j] - darkReference[j]) * gain[j];
+          static_if<dark>([&]() { frame[j] -= darkReference[j]; })();
+
+          if (!std::is_integral<FrameType>::value) {
+            frame[j] *= gain[j];
           }
           // Threshold the electron events
           if (frame[j] <= backgroundThreshold || frame[j] >= xRayThreshold) {
-- 
2.43.0


From 32b803bb9644b36658072140dad872631fd4b8d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:53 +0000
Subject: [PATCH 02/24] fix: apply the row dark correction to rows of
 non-square frames

Dimensions2D is (width, height), but applyRowDark() used it as (height, width),
so for non-square frames the halves it corrected were not those of the rows.
Skip the empty left half of single column frames, whose median does not exist.
---
 stempy/electron.cpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/stempy/electron.cpp b/stempy/electron.cpp
index 71cb9bf..2f48099 100644
--- a/stempy/electron.cpp
+++ b/stempy/electron.cpp
@@ -242,8 +242,9 @@ void applyRowDark(std::vector<FrameType>& frame, Dimensions2D frameDimensions,
                   double xRayThreshold, const float globalDark[],
                   const float gain[], bool useMean)
 {
-  auto height = frameDimensions.first;
-  auto width = frameDimensions.second;
+  // Convention is (width, height)
+  auto width = frameDimensions.first;
+  auto height = frameDimensions.second;
 
   // If the width is an odd number, give the right side the extra one
   auto leftSize = width / 2;
@@ -280,6 +281,11 @@ void applyRowDark(std::vector<FrameType>& frame, Dimensions2D frameDimensions,
   }
 
   auto apply = [&](size_t start, size_t stop) {
+    // The left side is empty if there is only one column
+    if (start == stop) {
+      return;
+    }
+
     auto statResult = statFunc(frame, start, stop);
 
     for (size_t i = start; i < stop; ++i) {
-- 
2.43.0


From e97b2927a7acb41127446b85e5bfd806bf7cab44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:15 +0000
Subject: [PATCH 03/24] fix: use (rows, columns) frame shapes for sparse arrays
 of non-square frames

electron_count() stored (width, height) as the frame shape of the SparseArray
and create_stem_images() handed the frame shape of a SparseArray to C++ as
(width, height); both are wrong unless the frames are square.
---
 python/stempy/image/__init__.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/python/stempy/image/__init__.py b/python/stempy/image/__init__.py
index 2f79621..c60d266 100644
--- a/python/stempy/image/__init__.py
+++ b/python/stempy/image/__init__.py
@@ -80,7 +80,7 @@ def create_stem_images(input, inner_radii, outer_radii, scan_dimensions=(0, 0),
     elif isinstance(input, SparseArray):
         imgs = _image.create_stem_images(input.data, inner_radii, outer_radii,
                                          input.scan_shape[::-1],
-                                         input.frame_shape, center)
+                                         input.frame_shape[::-1], center)
     elif all([hasattr(input, x) for x in ecd_attrs]):
         # Handle electron counted data without C++ object
         # Assume this is v1 data and that each frame is one scan position
@@ -341,7 +341,7 @@ def electron_count(reader, darkreference=None, number_of_samples=40,
     kwargs = {
         'data': np_data,
         'scan_shape': data.scan_dimensions[::-1],
-        'frame_shape': data.frame_dimensions,
+        'frame_shape': data.frame_dimensions[::-1],
         'metadata': {'electron_counting': metadata},
     }
     array = SparseArray(**kwargs)
-- 
2.43.0


From 183ea944685bd08d176e9dae61d6313bb54a3506 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:15 +0000
Subject: [PATCH 04/24] fix: create STEM images of one-dimensional electron
 counted data

The array reshaped to (positions, frames) was computed, but the one-dimensional
one was passed on.
---
 python/stempy/image/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/stempy/image/__init__.py b/python/stempy/image/__init__.py
index c60d266..24c1ced 100644
--- a/python/stempy/image/__init__.py
+++ b/python/stempy/image/__init__.py
@@ -87,7 +87,7 @@ def create_stem_images(input, inner_radii, outer_radii, scan_dimensions=(0, 0),
         data = input.data
         if data.ndim == 1:
             data = data[:, np.newaxis]
-        imgs = _image.create_stem_images(input.data, inner_radii, outer_radii,
+        imgs = _image.create_stem_images(data, inner_radii, outer_radii,
                                          input.scan_dimensions,
                                          input.frame_dimensions, center)
     elif isinstance(input, np.ndarray):
-- 
2.43.0


From 13e0c75d2505e8605f14bf3151c2a3dca4356679 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:15 +0000
Subject: [PATCH 05/24] fix: pass dark reference and gain to C++ in row-major
 order

astype() keeps the memory order of its input by default, so that the entries of
a column-major dark reference or gain were applied to the wrong pixels.
---
 python/stempy/image/__init__.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/python/stempy/image/__init__.py b/python/stempy/image/__init__.py
index 24c1ced..f7a3e06 100644
--- a/python/stempy/image/__init__.py
+++ b/python/stempy/image/__init__.py
@@ -721,7 +721,8 @@ def _safe_cast(array, dtype, name=None):
     if name is None:
         name = 'array'
 
-    new_array = array.astype(dtype)
+    # The C++ code uses row-major arrays
+    new_array = array.astype(dtype, order='C')
     if np.any(new_array.astype(array.dtype) != array):
         msg = f'Cannot cast {name} to {dtype} without loss of precision'
         raise ValueError(msg)
-- 
2.43.0


From 4039fbedc909dffa51e46535d5fe0afa047c38ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:15 +0000
Subject: [PATCH 06/24] fix: decode event rows with the number of columns of
 the frame

com_sparse() and virtual_darkfield() divided the row-major event index by the
number of rows, which is wrong for frames that are not square.
---
 python/stempy/image/__init__.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/python/stempy/image/__init__.py b/python/stempy/image/__init__.py
index f7a3e06..39dbf2c 100644
--- a/python/stempy/image/__init__.py
+++ b/python/stempy/image/__init__.py
@@ -409,7 +409,8 @@ def com_v1_kernel(
     replace_nans: bool = True,
 ) -> np.ndarray:
     num_scans = scan_shape[0] * scan_shape[1]
-    frame_x, frame_y = frame_shape
+    # Events are row-major: row = event // columns, column = event % columns
+    frame_x = frame_y = frame_shape[1]
 
     com = np.full((2, num_scans), np.nan, dtype=np.float32)
 
@@ -529,7 +530,7 @@ def _com_sparse_v0(array, crop_to=None, init_center=None, replace_nans=True):
         ev = np.hstack(frames)
 
         if len(ev) > 0:
-            x = ev // array.frame_shape[0]
+            x = ev // array.frame_shape[1]
             y = ev % array.frame_shape[1]
             mm0 = len(ev)
             
@@ -840,7 +841,7 @@ def virtual_darkfield(array, centers_x, centers_y, radii):
     rs_image = np.zeros((array.shape[0] * array.shape[1],), dtype=array.dtype)
     for ii, events in enumerate(array.data):
         for ev in events:
-            ev_rows = ev // array.frame_shape[0]
+            ev_rows = ev // array.frame_shape[1]
             ev_cols = ev % array.frame_shape[1]
             for cc_0, cc_1, rr in zip(centers_x, centers_y, radii):
                 dist = np.sqrt((ev_rows - cc_1)**2 + (ev_cols - cc_0)**2)
-- 
2.43.0


From e795038709a89047043096346d4661060802c96b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:50 +0000
Subject: [PATCH 07/24] fix: row stride of the array view of a block of
 non-square frames

Rows have frameDimensions.first pixels.
---
 python/io.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/python/io.cpp b/python/io.cpp
index 5e6c875..d3893bf 100644
--- a/python/io.cpp
+++ b/python/io.cpp
@@ -37,7 +37,7 @@ PYBIND11_MODULE(_io, m)
           b.header.frameDimensions.first }, /* Buffer dimensions */
         { sizeof(uint16_t) * b.header.frameDimensions.second *
             b.header.frameDimensions.first,
-          sizeof(uint16_t) * b.header.frameDimensions.second,
+          sizeof(uint16_t) * b.header.frameDimensions.first,
           sizeof(uint16_t) } /* Strides (in bytes) for each index */
       );
     });
@@ -58,7 +58,7 @@ PYBIND11_MODULE(_io, m)
           b.header.frameDimensions.first }, /* Buffer dimensions */
         { sizeof(uint16_t) * b.header.frameDimensions.second *
             b.header.frameDimensions.first,
-          sizeof(uint16_t) * b.header.frameDimensions.second,
+          sizeof(uint16_t) * b.header.frameDimensions.first,
           sizeof(uint16_t) } /* Strides (in bytes) for each index */
       );
     });
-- 
2.43.0


From 9e16cc97216c552e9080e8781b8b16298f34de0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:50 +0000
Subject: [PATCH 08/24] fix: read data sets of any memory layout through
 PyReader

The pixels of a block are accessed as row-major frames, but slices of data sets
that are not (transposed, strided...) were used as they are.
---
 python/pyreader.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/python/pyreader.cpp b/python/pyreader.cpp
index d287510..d16fc00 100644
--- a/python/pyreader.cpp
+++ b/python/pyreader.cpp
@@ -38,7 +38,9 @@ PyBlock PyReader::read()
   }
 
   auto sliceIndex = py::slice(m_currIndex, upperBound, 1);
-  py::array_t<uint16_t> pyarray = getItems(sliceIndex);
+  // The C++ code expects row-major frames
+  py::array_t<uint16_t, py::array::c_style | py::array::forcecast> pyarray =
+    getItems(sliceIndex);
 
   PyBlock b(pyarray);
   Dimensions2D frameDimensions = { pyarray.shape()[2], pyarray.shape()[1] };
-- 
2.43.0


From 6bbc3764b62fb5d8d0f5fca2a59e9bcad0c07e4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:50 +0000
Subject: [PATCH 09/24] fix: end the histogram container at the maximum of the
 image

min + numBins * length can differ from the maximum by a rounding error, in which
case the pixels with the maximum value were not counted.
---
 stempy/image.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/stempy/image.cpp b/stempy/image.cpp
index b2bb117..e58bf82 100644
--- a/stempy/image.cpp
+++ b/stempy/image.cpp
@@ -295,7 +295,8 @@ std::vector<double> getContainer(const STEMImage& inImage, const int numBins)
   std::vector<double> container;
   // push all the intermediate values
   for (int i = 0; i <= numBins; i++) {
-    container.push_back(min + i * length);
+    // The last edge is exactly the maximum, so that the maximum is counted
+    container.push_back(i == numBins ? max : min + i * length);
   }
 
   return container;
-- 
2.43.0


From 74c87dff1e6c7a5c61be2891ceb3676b96330ebb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:50 +0000
Subject: [PATCH 10/24] fix: create STEM images of sparse data with
 non-contiguous event arrays

The events are accessed via the data pointer, so that the events of a strided
array were not those of the array.
---
 python/image.cpp | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/python/image.cpp b/python/image.cpp
index 894caad..f026174 100644
--- a/python/image.cpp
+++ b/python/image.cpp
@@ -28,6 +28,10 @@ py::array_t<T> vectorToPyArray(std::vector<T>&& v)
   return py::array(ptr->size(), ptr->data(), capsule);
 }
 
+// Events are accessed via a pointer, so they have to be contiguous
+using EventsPyArray =
+  py::array_t<uint32_t, py::array::c_style | py::array::forcecast>;
+
 struct ElectronCountedDataPyArray
 {
 
@@ -47,7 +51,7 @@ struct ElectronCountedDataPyArray
     frameDimensions = other.frameDimensions;
   }
 
-  std::vector<std::vector<py::array_t<uint32_t>>> data;
+  std::vector<std::vector<EventsPyArray>> data;
   ElectronCountedMetadata metadata;
 
   Dimensions2D scanDimensions = { 0, 0 };
@@ -216,7 +220,7 @@ ElectronCountedDataPyArray electronCount(Reader* reader,
 
 // Explicitly instantiate version for py::array_t
 template std::vector<STEMImage> createSTEMImages(
-  const std::vector<std::vector<py::array_t<uint32_t>>>& sparseData,
+  const std::vector<std::vector<EventsPyArray>>& sparseData,
   const std::vector<int>& innerRadii, const std::vector<int>& outerRadii,
   Dimensions2D scanDimensions, Dimensions2D frameDimensions,
   Coordinates2D center);
@@ -404,7 +408,7 @@ PYBIND11_MODULE(_image, m)
     py::call_guard<py::gil_scoped_release>());
   m.def("create_stem_images",
         (vector<STEMImage>(*)(
-          const std::vector<std::vector<py::array_t<uint32_t>>>&,
+          const std::vector<std::vector<EventsPyArray>>&,
           const vector<int>&, const vector<int>&, Dimensions2D, Dimensions2D,
           Coordinates2D)) &
           createSTEMImages,
-- 
2.43.0


From e48a32ea69d1e03ae797c28291d98a0321cb4850 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:50 +0000
Subject: [PATCH 11/24] fix: accept an average image as dark reference of the
 maximum pattern

maximum_diffraction_pattern() passes the Image<double> of calculate_average()
on, for which there was no overload, so that it always raised a TypeError.
---
 python/image.cpp | 23 +++++++++++++++++++++++
 1 file changed, 23 insertions(+)

diff --git a/python/image.cpp b/python/image.cpp
index f026174..af0bdf2 100644
--- a/python/image.cpp
+++ b/python/image.cpp
@@ -242,6 +242,20 @@ ElectronCountedDataPyArray electronCountPy(Params&&... params)
   return electronCount(std::forward<Params>(params)...);
 }
 
+// The averages that are available as dark reference in Python are Image<double>
+template <typename InputIt>
+Image<double> maximumDiffractionPatternPy(InputIt first, InputIt last,
+                                          const Image<double>& darkReference)
+{
+  auto dimensions = darkReference.dimensions;
+  Image<float> dark(dimensions);
+  std::copy(darkReference.data.get(),
+            darkReference.data.get() + dimensions.first * dimensions.second,
+            dark.data.get());
+
+  return maximumDiffractionPattern(first, last, dark);
+}
+
 PYBIND11_MODULE(_image, m)
 {
   py::class_<Image<uint64_t>>(m, "_image_uint64", py::buffer_protocol())
@@ -615,4 +629,13 @@ PYBIND11_MODULE(_image, m)
         (Image<double>(*)(PyReader::iterator, PyReader::iterator)) &
           maximumDiffractionPattern<PyReader::iterator>,
         py::call_guard<py::gil_scoped_release>());
+  m.def("maximum_diffraction_pattern",
+        &maximumDiffractionPatternPy<StreamReader::iterator>,
+        py::call_guard<py::gil_scoped_release>());
+  m.def("maximum_diffraction_pattern",
+        &maximumDiffractionPatternPy<SectorStreamReader::iterator>,
+        py::call_guard<py::gil_scoped_release>());
+  m.def("maximum_diffraction_pattern",
+        &maximumDiffractionPatternPy<PyReader::iterator>,
+        py::call_guard<py::gil_scoped_release>());
 }
-- 
2.43.0


From d94155895e8c91fa936b23ed7704421247e4d371 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:48 +0000
Subject: [PATCH 12/24] fix: raise an error for truncated blocks followed by
 another file

The rest of a truncated block was taken from the start of the next file, so that
its header was returned as pixels and all following blocks were misread.
---
 stempy/reader.cpp | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/stempy/reader.cpp b/stempy/reader.cpp
index 7e0a090..bd98dd0 100644
--- a/stempy/reader.cpp
+++ b/stempy/reader.cpp
@@ -111,12 +111,10 @@ istream & StreamReader::read(T* value, streamsize size){
 
   m_stream.read(reinterpret_cast<char*>(value), size);
 
-  // If we are at the end of the file, open up the next file
-  // and try again.
-  if (m_stream.eof()) {
-    openNextFile();
-    return read(value, size);
-  }
+  // The block is truncated. A new file starts with a new block, so we can't
+  // carry on with the next one.
+  if (m_stream.eof())
+    throw EofException();
 
   return m_stream;
 }
-- 
2.43.0


From a4aad85277e2af4942541a53443d06199efa9447 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:48 +0000
Subject: [PATCH 13/24] fix: forget partially read frames when resetting a
 SectorStreamReader

Sectors read before the reset were counted again, so that frames were returned
before they were complete, and again at the end.
---
 stempy/reader.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/stempy/reader.cpp b/stempy/reader.cpp
index bd98dd0..21d628d 100644
--- a/stempy/reader.cpp
+++ b/stempy/reader.cpp
@@ -560,6 +560,7 @@ void SectorStreamReader::reset()
     }
   }
   m_streams.clear();
+  m_frameCache.clear();
   openFiles();
   m_streamsIterator = m_streams.begin();
 }
-- 
2.43.0


From e1eaa8eae42cddfb9e19aeaa86708742d4abbd89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:54 +0000
Subject: [PATCH 14/24] fix: don't write before the start of the threshold
 histogram

Samples below the first bin have a negative bin index, which was used to write
to memory in front of the histogram.
---
 stempy/electronthresholds.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/stempy/electronthresholds.cpp b/stempy/electronthresholds.cpp
index 20d3396..3b8ba85 100644
--- a/stempy/electronthresholds.cpp
+++ b/stempy/electronthresholds.cpp
@@ -146,7 +146,7 @@ CalculateThresholdsResults<FrameType> calculateThresholds(
   for (int i = 0; i < numberSamplePixels; i++) {
     auto binIndex = static_cast<int>(samples[i] - minBin);
     // Skip values outside range
-    if (binIndex >= numberOfBins) {
+    if (binIndex < 0 || binIndex >= numberOfBins) {
       continue;
     }
     histogram[binIndex] += 1;
-- 
2.43.0


From 297e3f8bebd9e5021bd332f11cc0a6270c4a0053 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:54 +0000
Subject: [PATCH 15/24] fix: raise an error if there are no bins for the
 threshold histogram

For constant samples the maximum of an empty histogram was dereferenced. Also
limit the range before converting it to int, for wide distributions the limits
overflowed and so did the number of bins.
---
 stempy/electronthresholds.cpp | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/stempy/electronthresholds.cpp b/stempy/electronthresholds.cpp
index 3b8ba85..fdd493a 100644
--- a/stempy/electronthresholds.cpp
+++ b/stempy/electronthresholds.cpp
@@ -128,12 +128,18 @@ CalculateThresholdsResults<FrameType> calculateThresholds(
   auto minMax = std::minmax_element(samples.begin(), samples.end());
   auto minSample = *minMax.first;
   auto maxSample = static_cast<FrameType>(std::ceil(*minMax.second));
-  auto maxBin = std::min(static_cast<int>(maxSample),
-                         static_cast<int>(mean + xrayThreshold * stdDev));
-  auto minBin = std::max(static_cast<int>(minSample),
-                         static_cast<int>(mean - xrayThreshold * stdDev));
+  // Limit the range before converting it, it may not be representable as an int
+  auto maxBin = static_cast<int>(
+    std::min<double>(maxSample, mean + xrayThreshold * stdDev));
+  auto minBin = static_cast<int>(
+    std::max<double>(minSample, mean - xrayThreshold * stdDev));
 
   auto numberOfBins = maxBin - minBin;
+  if (numberOfBins <= 0) {
+    throw std::runtime_error(
+      "Unable to calculate thresholds, the samples don't span a single bin");
+  }
+
   std::vector<double> histogram(numberOfBins, 0.0);
   std::vector<double> bins(numberOfBins);
 
-- 
2.43.0


From f1d47ab30efef4001154c719019892854290c4c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:11 +0000
Subject: [PATCH 16/24] fix: don't truncate gain corrected samples to 16 bit
 integers

The samples are floating point when there is a gain, but the pixel value was
modified in place as a uint16_t, losing fractions and wrapping negative values.
---
 stempy/electronthresholds.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/stempy/electronthresholds.cpp b/stempy/electronthresholds.cpp
index fdd493a..dffdd85 100644
--- a/stempy/electronthresholds.cpp
+++ b/stempy/electronthresholds.cpp
@@ -100,7 +100,7 @@ CalculateThresholdsResults<FrameType> calculateThresholds(
       // For now just use the index, the image number don't seem to work, in the
       // current data set. In the future we should be using the image number.
 
-      auto value = blockData[randomFrameIndex * numberOfPixels + j];
+      FrameType value = blockData[randomFrameIndex * numberOfPixels + j];
 
       // This will be evaluated a compile time.
       if (std::is_integral<FrameType>::value) {
-- 
2.43.0


From 6342353a2e86f1865f74390a8b8482e7645f4ee7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:20 +0000
Subject: [PATCH 17/24] fix: maximum over the frame axes for positions without
 events

np.max() of no counts raised a ValueError, the maximum of an empty frame is 0.
---
 python/stempy/io/sparse_array.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/python/stempy/io/sparse_array.py b/python/stempy/io/sparse_array.py
index 497f13b..71b979e 100644
--- a/python/stempy/io/sparse_array.py
+++ b/python/stempy/io/sparse_array.py
@@ -421,7 +421,8 @@ class SparseArray:
             for i, scan_frames in enumerate(self.data):
                 concatenated = np.concatenate(scan_frames)
                 unique, counts = np.unique(concatenated, return_counts=True)
-                ret[i] = np.max(counts)
+                # There are no counts if the frame is empty
+                ret[i] = np.max(counts, initial=0)
             return ret.reshape(self.scan_shape)
 
     @_arithmethic_decorators
-- 
2.43.0


From 3e59e67f7c4f50a6e845e39fb19000fc5f613634 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:20 +0000
Subject: [PATCH 18/24] fix: minimum of sparse arrays with a floating point
 dtype

np.iinfo() raises a ValueError for them.
---
 python/stempy/io/sparse_array.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/python/stempy/io/sparse_array.py b/python/stempy/io/sparse_array.py
index 71b979e..df71157 100644
--- a/python/stempy/io/sparse_array.py
+++ b/python/stempy/io/sparse_array.py
@@ -453,7 +453,7 @@ class SparseArray:
             dtype = self.dtype
 
         if self._is_scan_axes(axis):
-            ret = np.full(self._frame_shape_flat, np.iinfo(dtype).max, dtype)
+            ret = np.full(self._frame_shape_flat, _max_value(dtype), dtype)
             expanded = np.empty(self._frame_shape_flat, dtype)
             for scan_frames in self.data:
                 expanded[:] = 0
@@ -464,7 +464,7 @@ class SparseArray:
             return ret.reshape(self.frame_shape)
 
         if self._is_frame_axes(axis):
-            ret = np.full(self._scan_shape_flat, np.iinfo(dtype).max, dtype)
+            ret = np.full(self._scan_shape_flat, _max_value(dtype), dtype)
             for i, scan_frames in enumerate(self.data):
                 concatenated = np.concatenate(scan_frames)
                 unique, counts = np.unique(concatenated, return_counts=True)
@@ -1065,6 +1065,13 @@ class SparseArray:
         return False
 
 
+def _max_value(dtype):
+    if np.issubdtype(dtype, np.floating):
+        return np.finfo(dtype).max
+
+    return np.iinfo(dtype).max
+
+
 def _is_none_slice(x):
     return isinstance(x, slice) and x == NONE_SLICE
 
-- 
2.43.0


From 8367658c8d175e10009918d81686a84933903412 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:20 +0000
Subject: [PATCH 19/24] fix: bin frames that are not square

bin_frames() used the number of rows to split and to rebuild the row-major
indices.
---
 python/stempy/io/sparse_array.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/python/stempy/io/sparse_array.py b/python/stempy/io/sparse_array.py
index df71157..bdb3495 100644
--- a/python/stempy/io/sparse_array.py
+++ b/python/stempy/io/sparse_array.py
@@ -631,10 +631,11 @@ class SparseArray:
         # Ravel the data for easier manipulation in this function
         data = self.data.ravel()
 
-        rows = data // self.frame_shape[0] // bin_factor
+        # The data is row-major: row = index // columns, column = index % columns
+        rows = data // self.frame_shape[1] // bin_factor
         cols = data % self.frame_shape[1] // bin_factor
 
-        rows *= (self.frame_shape[0] // bin_factor)
+        rows *= (self.frame_shape[1] // bin_factor)
         rows += cols
 
         new_data = rows
-- 
2.43.0


From f5f21a946ce5380c70ca01287c426447613ffa3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:20 +0000
Subject: [PATCH 20/24] fix: squared distances of events with a small integer
 type

The distances were computed with the type of the events, which overflows for
8 and 16 bit integers.
---
 python/stempy/image/__init__.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/python/stempy/image/__init__.py b/python/stempy/image/__init__.py
index 39dbf2c..1f284f7 100644
--- a/python/stempy/image/__init__.py
+++ b/python/stempy/image/__init__.py
@@ -527,7 +527,8 @@ def _com_sparse_v0(array, crop_to=None, init_center=None, replace_nans=True):
     for scan_position, frames in enumerate(array.data):
         # Combine the sparse arrays into one array.
         # This takes care of multiple frames per probe position
-        ev = np.hstack(frames)
+        # Use a signed type with enough range for the squared distances
+        ev = np.hstack(frames).astype(np.int64)
 
         if len(ev) > 0:
             x = ev // array.frame_shape[1]
@@ -841,6 +842,8 @@ def virtual_darkfield(array, centers_x, centers_y, radii):
     rs_image = np.zeros((array.shape[0] * array.shape[1],), dtype=array.dtype)
     for ii, events in enumerate(array.data):
         for ev in events:
+            # Use a signed type with enough range for the squared distances
+            ev = ev.astype(np.int64)
             ev_rows = ev // array.frame_shape[1]
             ev_cols = ev % array.frame_shape[1]
             for cc_0, cc_1, rr in zip(centers_x, centers_y, radii):
-- 
2.43.0


From 6feb47173272bfd737a25fd5ca580f12c41697d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:20 +0000
Subject: [PATCH 21/24] fix: keep the scan positions of version 1 files with
 repeated events

They were replaced by 0, 1, 2..., moving the events of files that are not
stored in the order of the scan.
---
 python/stempy/io/compatibility.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/python/stempy/io/compatibility.py b/python/stempy/io/compatibility.py
index 32ccc85..9fa60b8 100644
--- a/python/stempy/io/compatibility.py
+++ b/python/stempy/io/compatibility.py
@@ -31,8 +31,7 @@ def convert_data_v1_to_v2(data, scan_positions, scan_shape):
         return data, scan_positions
 
     # Remove any duplicates and place them in their own rows.
-    scan_positions = np.arange(len(data))
-    ret = np.empty(len(scan_positions), dtype=object)
+    ret = np.empty(len(data), dtype=object)
 
     # Place duplicates in separate frames
     extra_rows = []
-- 
2.43.0


From 40c783c8ebce6afcddb70562bd09e6e63e8dd329 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:20 +0000
Subject: [PATCH 22/24] fix: load files of older versions without the flyback
 column

The frames of version 1 and 2 files are neither stored in the order of the scan
nor with the same number of frames per position, so that frames of other
positions were removed.
---
 python/stempy/io/sparse_array.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/python/stempy/io/sparse_array.py b/python/stempy/io/sparse_array.py
index bdb3495..6f69427 100644
--- a/python/stempy/io/sparse_array.py
+++ b/python/stempy/io/sparse_array.py
@@ -195,7 +195,10 @@ class SparseArray:
             scan_shape = [scan_positions_group.attrs[x] for x in ['Nx', 'Ny']]
             frame_shape = [frames.attrs[x] for x in ['Nx', 'Ny']]
 
-            if keep_flyback:
+            # Only the newer versions store the frames in the order of the scan
+            crop_on_read = not keep_flyback and version >= 3
+
+            if not crop_on_read:
                 data = frames[()] # load the full data set
                 scan_positions = scan_positions_group[()]
             else:
@@ -239,6 +242,12 @@ class SparseArray:
             }
             data = convert_data_format(**kwargs)
 
+        if not keep_flyback and not crop_on_read:
+            frames_per_scan = data.shape[1]
+            data = data.reshape((*scan_shape, frames_per_scan))[:, :-1]
+            scan_shape = (scan_shape[0], scan_shape[1] - 1)
+            data = data.reshape((np.prod(scan_shape), frames_per_scan))
+
         kwargs = {
             'data': data,
             'scan_shape': scan_shape,
-- 
2.43.0


From 8825e2c601723c2964b77eb135691123d065a296 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:27 +0000
Subject: [PATCH 23/24] fix: save sparse arrays whose frames have equal numbers
 of events

---
 python/stempy/io/sparse_array.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/python/stempy/io/sparse_array.py b/python/stempy/io/sparse_array.py
index 6f69427..b2900e8 100644
--- a/python/stempy/io/sparse_array.py
+++ b/python/stempy/io/sparse_array.py
@@ -285,7 +285,14 @@ class SparseArray:
             frames.attrs['Nx'] = self.frame_shape[0]
             frames.attrs['Ny'] = self.frame_shape[1]
 
-            frames[...] = data.ravel()
+            flat_data = data.ravel()
+            if len({len(frame) for frame in flat_data}) > 1:
+                frames[...] = flat_data
+            else:
+                # h5py converts frames of equal lengths to a single array,
+                # so they have to be written one by one.
+                for i, frame in enumerate(flat_data):
+                    frames[i] = frame
 
             # Write out the metadata
             save_dict_to_h5(self.metadata, f.require_group('metadata'))
-- 
2.43.0


From 341fd365a191c40bbadec90729403652ca4374d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:23:47 +0000
Subject: [PATCH 24/24] fix: raise an error if the threshold histogram would
 have too many bins

---
 stempy/electronthresholds.cpp | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/stempy/electronthresholds.cpp b/stempy/electronthresholds.cpp
index dffdd85..b2a54dd 100644
--- a/stempy/electronthresholds.cpp
+++ b/stempy/electronthresholds.cpp
@@ -3,6 +3,7 @@
 
 #include <algorithm>
 #include <cmath>
+#include <limits>
 #include <random>
 
 #include <Eigen/Dense>
@@ -129,10 +130,21 @@ CalculateThresholdsResults<FrameType> calculateThresholds(
   auto minSample = *minMax.first;
   auto maxSample = static_cast<FrameType>(std::ceil(*minMax.second));
   // Limit the range before converting it, it may not be representable as an int
-  auto maxBin = static_cast<int>(
-    std::min<double>(maxSample, mean + xrayThreshold * stdDev));
-  auto minBin = static_cast<int>(
-    std::max<double>(minSample, mean - xrayThreshold * stdDev));
+  auto upper = std::min<double>(maxSample, mean + xrayThreshold * stdDev);
+  auto lower = std::max<double>(minSample, mean - xrayThreshold * stdDev);
+  if (!(lower < upper)) {
+    throw std::runtime_error(
+      "Unable to calculate thresholds, the samples don't span a single bin");
+  }
+  if (lower < std::numeric_limits<int>::min() ||
+      upper > std::numeric_limits<int>::max() ||
+      static_cast<int64_t>(upper) - static_cast<int64_t>(lower) >=
+        std::numeric_limits<int>::max()) {
+    throw std::runtime_error(
+      "Unable to calculate thresholds, the samples span too many bins");
+  }
+  auto maxBin = static_cast<int>(upper);
+  auto minBin = static_cast<int>(lower);
 
   auto numberOfBins = maxBin - minBin;
   if (numberOfBins <= 0) {
-- 
2.43.0

