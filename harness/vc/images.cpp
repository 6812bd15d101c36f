// Verification entry points for the drivers over a sequence of blocks: they are instantiated with an
// input iterator that only says which block it stands at; what a block holds is given by the contract
// of operator* (proofs/blocks.py).
#include "vcstd.h"
#include "stempy/image.cpp"
#include "vcit.h"
extern "C" {
extern const unsigned long
  vc_image_dims = OFF(Image<double>, dimensions), vc_image_data = OFF(Image<double>, data),
  vc_stem_data = OFF(STEMImage, data), vc_stem_size = sizeof(STEMImage),
  vc_radial_data = OFF(RadialSum<uint64_t>, data), vc_radial_radii = OFF(RadialSum<uint64_t>, radii);
void vc_average(Image<double>* out, unsigned long first, unsigned long last)
{
  new (out) Image<double>(calculateAverage(VcIt{ first }, VcIt{ last }));
}
void vc_maximum(Image<double>* out, unsigned long first, unsigned long last, const Image<float>& dark)
{
  new (out) Image<double>(maximumDiffractionPattern(VcIt{ first }, VcIt{ last }, dark));
}
void vc_maximum_plain(Image<double>* out, unsigned long first, unsigned long last)
{
  new (out) Image<double>(maximumDiffractionPattern(VcIt{ first }, VcIt{ last }));
}
void vc_radial(RadialSum<uint64_t>* out, unsigned long first, unsigned long last, uint32_t sw, uint32_t sh, int cx, int cy)
{
  new (out) RadialSum<uint64_t>(radialSum(VcIt{ first }, VcIt{ last }, Dimensions2D{ sw, sh }, Coordinates2D{ cx, cy }));
}
void vc_stem(std::vector<STEMImage>* out, unsigned long first, unsigned long last, const std::vector<int>& inner,
             const std::vector<int>& outer, uint32_t sw, uint32_t sh, int cx, int cy)
{
  new (out) std::vector<STEMImage>(createSTEMImages(VcIt{ first }, VcIt{ last }, inner, outer, Dimensions2D{ sw, sh }, Coordinates2D{ cx, cy }));
}
}
template void stempy::calculateSTEMValuesSparse<std::vector<uint32_t>>(const std::vector<std::vector<std::vector<uint32_t>>>&, uint16_t*, STEMImage&);
