// The ghost iterator over blocks: it only says which block it stands at; what a block holds is given by
// the contract of its operator* (proofs/blocks.py).
using namespace stempy;
struct VcIt
{
  unsigned long pos;
  Block& operator*() const;
  Block* operator->() const;
  VcIt& operator++() { ++pos; return *this; }
  bool operator==(const VcIt& o) const { return pos == o.pos; }
  bool operator!=(const VcIt& o) const { return pos != o.pos; }
};
#define OFF(T, f) __builtin_offsetof(T, f)
extern "C" {
extern const unsigned long
  vc_block_data = OFF(Block, data), vc_block_size = sizeof(Block),
  vc_scan = OFF(Block, header.scanDimensions), vc_frame = OFF(Block, header.frameDimensions),
  vc_images = OFF(Block, header.imagesInBlock), vc_version = OFF(Block, header.version),
  vc_timestamp = OFF(Block, header.timestamp), vc_frameNumber = OFF(Block, header.frameNumber),
  vc_scanNumber = OFF(Block, header.scanNumber), vc_numbers = OFF(Block, header.imageNumbers),
  vc_complete = OFF(Block, header.complete);
}
