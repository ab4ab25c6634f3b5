// Specification of a text buffer (independent of RDSString's code).
#pragma once
#include "vf_station.h"
static const uint32_t kLikely[] = {0x0D, 0x20, 0x41, 0x42, 0x00};
// A text buffer in an arbitrary reachable condition.
static inline void any_text(RDSString& t, size_t n) {
  for (size_t i = 0; i < n; i++) t.data_[i] = static_cast<uint8_t>(vf_nd_pick(8, "old", kLikely, 5));
  t.sequential_length_ = vf_below(static_cast<uint32_t>(n) + 1, "run");
  t.prev_pos_ = vf_below(static_cast<uint32_t>(n), "prev");
}
template <size_t N> struct Txt {
  uint8_t b[N]; size_t size, run, prev;
  explicit Txt(const RDSString& t) : size(t.data_.size()), run(t.sequential_length_), prev(t.prev_pos_) { for (size_t i = 0; i < N; i++) b[i] = i < size ? t.data_[i] : 0x20; }
  void rx(size_t p, uint8_t c) {
    if (p >= size) return;
    b[p] = c;
    // length of the part received in unbroken order from the first character
    if (p == 0) run = 1; else if (p == prev + 1 && run == p) run = p + 1;
    prev = p;
  }
  void rx2(size_t p, uint16_t w) { rx(p, static_cast<uint8_t>(w >> 8)); rx(p + 1, static_cast<uint8_t>(w & 255)); }
  void resize(size_t n) { for (size_t i = 0; i < N; i++) if (i >= size && i < n) b[i] = 0x20; size = n; }
  bool terms() const { for (size_t i = 0; i < N; i++) if (i < size && b[i] == 0x0D) return true; return false; }
  size_t len() const { size_t r = size; for (size_t i = N; i-- > 0;) if (i < size && b[i] == 0x0D) r = i + 1; return r; }
  bool complete() const { return run >= len(); }
  // text up to the terminator; not yet received or null characters are blanks
  std::string text(bool utf8) const { uint8_t o[N]; size_t n = len(); for (size_t i = 0; i < N; i++) o[i] = i < run && b[i] != 0x0D && b[i] != 0 ? b[i] : 0x20; return spec_text<N>(o, n, utf8); }
  bool same(const RDSString& t) const { if (t.data_.size() != size || t.sequential_length_ != run || t.prev_pos_ != prev) return false; for (size_t i = 0; i < N; i++) if (i < size && t.data_[i] != b[i]) return false; return true; }
};
static inline std::string spec_rtrim(std::string s) {
  while (!s.empty() && s.back() == ' ') s.pop_back();
  return s;
}
