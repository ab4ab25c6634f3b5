// Building blocks shared by harnesses: an arbitrary received group, made through
// the same public operations the block decoder and the hex readers use.
#pragma once
#include "vf.h"
#include "src/groups.hh"

struct VfBlocks {
  bool has[4];
  uint16_t data[4];
  bool err[4];
  bool cprime;      // third block carried offset word C'
  bool no_offsets;  // hex input: offset words unknown
};

static inline VfBlocks vf_blocks() {
  VfBlocks b;
  for (int i = 0; i < 4; i++) {
    b.has[i] = vf_bool("has");
    b.data[i] = vf_u16("data");
    b.err[i] = vf_bool("err");
  }
  b.cprime = vf_bool("cprime");
  b.no_offsets = false;
  return b;
}

static inline redsea::Group vf_make_group(const VfBlocks& b) {
  using namespace redsea;
  Group g;
  if (b.no_offsets) g.disableOffsets();
  for (int i = 0; i < 4; i++) {
    if (!b.has[i]) continue;
    Block blk;
    blk.data = b.data[i];
    blk.raw = static_cast<uint32_t>(b.data[i]) << 10;
    blk.is_received = true;
    blk.had_errors = b.err[i];
    if (!b.no_offsets) {
      blk.offset = i == 0 ? Offset::A : i == 1 ? Offset::B : i == 2 ? (b.cprime ? Offset::Cprime : Offset::C) : Offset::D;
    }
    g.setBlock(static_cast<eBlockNumber>(i), blk);
  }
  return g;
}

// A group of the given type with blocks 1, 3, 4 each received or not.
static inline VfBlocks typed_blocks(unsigned num, bool b) {
  VfBlocks v;
  for (int i = 0; i < 4; i++) { v.has[i] = i == 1 ? true : vf_bool("has"); v.data[i] = vf_u16("data"); v.err[i] = false; }
  v.data[1] = static_cast<uint16_t>((v.data[1] & 0x07FF) | (num << 12) | (b ? 0x800 : 0));
  v.cprime = b; v.no_offsets = true;
  return v;
}
// ... as the real code classifies it; the (checked) type is made a constant for the verifier.
static inline redsea::Group typed_group(const VfBlocks& v, unsigned num, bool b) {
  redsea::Group g = vf_make_group(v);
  auto ver = b ? redsea::GroupType::Version::B : redsea::GroupType::Version::A;
  vf_assert(g.hasType() && g.getType().number == num && g.getType().version == ver, "the group type is in bits 15 to 11 of the second block");
  g.type_.number = static_cast<uint16_t>(num); g.type_.version = ver; g.has_type_ = true;
  return g;
}
