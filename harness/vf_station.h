// Shared by the Station harnesses: contract stubs of expensive callees (each contract is
// proved by its own harness) and observation helpers.
#pragma once
#include "vf.h"
#include "src/groups.hh"
#include "src/tables.hh"
#include <sstream>
#include "vf_json.h"
#include "vf_group.h"
#include "spec_charset.h"
using namespace redsea;

static inline std::string fixed_hex(uint32_t v, unsigned n) {
  static const char d[] = "0123456789ABCDEF";
  std::string s(n, '0');
  for (unsigned i = 0; i < n; i++) s[i] = d[(v >> (4 * (n - 1 - i))) & 15];
  return s;
}
static inline std::string spec_hex4(uint16_t v) {
  std::string s = "0x0000";
  static const char d[] = "0123456789ABCDEF";
  for (unsigned i = 0; i < 4; i++) s[2 + i] = d[(v >> (12 - 4 * i)) & 15];
  return s;
}
static inline bool spec_blank(uint8_t c) { return (c < 0x20 && c != 0x0A && c != 0x0D && c != 0x1F) || c == 0x20 || c == 0x7F || c == 0xFF; }

extern "C" {
// Decoders of the other group types: h_routing proves which decoder a group goes to; the
// contract of one decoder may then treat a call to any other as an error.
#ifdef VF_ROUTING
static int g_called = 0, g_ncalled = 0;
#define VF_S(name, num) void stub_##name(Station*, const Group*) { g_called = num; g_ncalled++; }
#else
#define VF_S(name, num) void stub_##name(Station*, const Group*) { vf_assert(false, "a group goes to the decoder of its own type only (" #name ")"); vf_assume(false); }
#endif
VF_S(decodeType0, 100) VF_S(decodeType1, 101) VF_S(decodeType2, 102) VF_S(decodeType3A, 103) VF_S(decodeType4A, 104) VF_S(decodeType5, 105) VF_S(decodeType6, 106) VF_S(decodeType7A, 107) VF_S(decodeType9A, 109)
VF_S(decodeType10A, 110) VF_S(decodeType14, 114) VF_S(decodeType15A, 115) VF_S(decodeType15B, 116) VF_S(decodeODAGroup, 120) VF_S(decodeC, 130)
static uint16_t g_tmcx, g_tmcy, g_tmcz;
void stub_tmcuser(tmc::TMCService*, uint16_t x, uint16_t y, uint16_t z, nlohmann::ordered_json*) {
#ifdef VF_ROUTING
  g_tmcx = x; g_tmcy = y; g_tmcz = z;
  g_called = 108; g_ncalled++;
#else
  vf_assert(false, "a group goes to the decoder of its own type only (TMC)"); vf_assume(false);
#endif
}
std::map<std::uint16_t, tmc::ServiceKey> stub_keys() { return std::map<std::uint16_t, tmc::ServiceKey>(); }
std::string stub_ptyname(uint16_t pty) { std::string s; s.push_back(static_cast<char>('A' + pty)); s.push_back('e'); return s; }
std::string stub_ptyname_rbds(uint16_t pty) { std::string s; s.push_back(static_cast<char>('A' + pty)); s.push_back('u'); return s; }
// contracts: h_hex2 ...
std::string stub_hex2(uint32_t v) { vf_assert(v < 0x100u, "two hexadecimal digits suffice"); return fixed_hex(v, 2); }
std::string stub_hex3(uint32_t v) { vf_assert(v < 0x1000u, "three hexadecimal digits suffice"); return fixed_hex(v, 3); }
std::string stub_hex4(uint32_t v) { vf_assert(v < 0x10000u, "four hexadecimal digits suffice"); return fixed_hex(v, 4); }
std::string stub_hex7(uint32_t v) { vf_assert(v < 0x10000000u, "seven hexadecimal digits suffice"); return fixed_hex(v, 7); }
std::string stub_phex4(uint32_t v) { return spec_hex4(static_cast<uint16_t>(v)); }
// contract: h_type_str
std::string stub_typestr(const GroupType* t) {
  std::string s;
  if (t->version == GroupType::Version::C) { s.push_back('C'); return s; }
  if (t->number >= 10) { s.push_back('1'); s.push_back(static_cast<char>('0' + t->number - 10)); } else s.push_back(static_cast<char>('0' + t->number));
  s.push_back(t->version == GroupType::Version::A ? 'A' : 'B');
  return s;
}
std::string stub_callsign(uint16_t pi) { (void)pi; return "KXYZ"; }
}

// The text a sequence of received bytes stands for. In proof mode a character of the code
// table is represented by its code (blank codes by the blank); that the real decoding maps
// codes to characters this way is the contract proved by h_charset and h_decode_text.
template <size_t N> static inline std::string spec_text(const uint8_t* b, size_t n, bool utf8) {
  std::string s;
#ifdef VF_MODEL
  for (size_t i = 0; i < N; i++) s.p_->b[i] = utf8 || !spec_blank(b[i]) ? static_cast<char>(b[i]) : ' ';
  s.n_ = n; s.m_ = N; s.p_->b[n] = 0;
#else
  for (size_t i = 0; i < n; i++) { if (utf8) s.push_back(static_cast<char>(b[i])); else s += spec_charset[b[i]]; }
#endif
  return s;
}
