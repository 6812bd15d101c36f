// Verification entry points for counting over a sequence of blocks (see vc/images.cpp).
#include "vcstd.h"
#include "stempy/electron.cpp"
#include "vcit.h"
extern "C" {
extern const unsigned long
  vc_data = OFF(ElectronCountedData, data), vc_out_scan = OFF(ElectronCountedData, scanDimensions),
  vc_out_frame = OFF(ElectronCountedData, frameDimensions), vc_out_size = sizeof(ElectronCountedData),
  vc_dark = OFF(ElectronCountOptionsClassic, darkReference), vc_background = OFF(ElectronCountOptionsClassic, backgroundThreshold),
  vc_xray = OFF(ElectronCountOptionsClassic, xRayThreshold), vc_gain = OFF(ElectronCountOptionsClassic, gain),
  vc_opt_scan = OFF(ElectronCountOptionsClassic, scanDimensions), vc_row_dark = OFF(ElectronCountOptionsClassic, applyRowDarkSubtraction),
  vc_mean = OFF(ElectronCountOptionsClassic, optimizedMean), vc_use_mean = OFF(ElectronCountOptionsClassic, applyRowDarkUseMean);
void vc_count(ElectronCountedData* out, unsigned long first, unsigned long last, const ElectronCountOptionsClassic& o)
{
  new (out) ElectronCountedData(electronCount(VcIt{ first }, VcIt{ last }, o));
}
}
