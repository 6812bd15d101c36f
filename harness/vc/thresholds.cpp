// The calibration is instantiated by the source file itself; here only the layout of its classes is told.
#include "vcstd.h"
#include "stempy/electronthresholds.cpp"
#include "vcit.h"
using namespace stempy;
#define RES CalculateThresholdsResults<uint16_t>
#define RESF CalculateThresholdsResults<float>
extern "C" {
extern const unsigned long
  vc_pyblock_data = OFF(PyBlock, data), vc_pyblock_size = sizeof(PyBlock), vc_r_samples = OFF(RES, numberOfSamples),
  vc_r_min = OFF(RES, minSample), vc_r_mean = OFF(RES, mean), vc_r_var = OFF(RES, variance), vc_r_std = OFF(RES, stdDev),
  vc_r_xray = OFF(RES, xRayThreshold), vc_rf_samples = OFF(RESF, numberOfSamples),
  vc_rf_min = OFF(RESF, minSample), vc_rf_mean = OFF(RESF, mean), vc_rf_var = OFF(RESF, variance), vc_rf_std = OFF(RESF, stdDev),
  vc_rf_xray = OFF(RESF, xRayThreshold);
}
