// Contracts of Station: routing, fields common to all groups, per-group-type decoders.
#define VF_ROUTING
#include "vf_station.h"

// Every group type goes to its own decoder, and the fields common to all groups are
// taken from the received blocks only.
extern "C" void h_basics() {
  VfBlocks b = vf_blocks();
  Options o;
  o.rbds = vf_bool("rbds");
  uint16_t pi = vf_u16("station_pi");
  Station st(o, 0, pi);
  bool prev = vf_bool("previous_had_pi");
  st.last_group_had_pi_ = prev;
  Group g = vf_make_group(b);
  bool typed = b.has[1] && (!((b.data[1] >> 11) & 1) || (b.has[2] && b.cprime));
  std::stringstream out;
  st.updateAndPrint(g, out);
  VfDocs docs(out.str());
  bool haspi = b.has[0] || (b.has[2] && b.cprime);
  bool printed = (haspi || prev) && (b.has[0] || b.has[1] || b.has[2] || b.has[3]);
  vf_assert(docs.wellformed && docs.n == (printed ? 1u : 0u), "one line per group whose PI was received, or the first one without");
  vf_assert(st.last_group_had_pi_ == haspi, "only one group without PI is allowed after one with PI");
  if (!printed) return;
  VfDoc d = docs.doc(0);
  vf_assert(JKIND(d, "pi") == vfj::STRING && JSTR(d, "pi") == spec_hex4(pi), "pi is the station's PI in four hexadecimal digits");
  vf_assert(JHAS(d, "tp") == b.has[1], "tp is given exactly when the second block was received");
  vf_assert(JHAS(d, "prog_type") == b.has[1], "prog_type is given exactly when the second block was received");
  vf_assert(JHAS(d, "group") == typed, "group type is given exactly when it is certain");
  if (b.has[1]) {
    vf_assert(JKIND(d, "tp") == vfj::BOOL && JNUM(d, "tp") == ((b.data[1] >> 10) & 1), "tp is bit 10 of the second block");
#ifdef VF_MODEL
    std::string want = o.rbds ? stub_ptyname_rbds((b.data[1] >> 5) & 31) : stub_ptyname((b.data[1] >> 5) & 31);
#else
    std::string want = o.rbds ? getPTYNameStringRBDS((b.data[1] >> 5) & 31) : getPTYNameString((b.data[1] >> 5) & 31);
#endif
    vf_assert(JSTR(d, "prog_type") == want, "prog_type is the name of the programme type code in the second block");
  }
  vf_cover(typed, "typed");
  vf_cover(printed && !haspi, "group without PI");
}

template <int N> static inline void hex_contract() {
  uint32_t v = vf_u32("v");
  vf_assume(v < (1u << (4 * N)));
  vf_assert(getHexString<N>(v) == fixed_hex(v, N), "hexadecimal output has fixed width, upper case, zero padded");
}
extern "C" void h_hex2() { hex_contract<2>(); }
extern "C" void h_hex3() { hex_contract<3>(); }
extern "C" void h_hex4() { hex_contract<4>(); }
extern "C" void h_hex7() { hex_contract<7>(); }
extern "C" void h_phex4() { uint16_t v = vf_u16("v"); vf_assert(getPrefixedHexString<4>(v) == spec_hex4(v), "prefixed hexadecimal output"); }
extern "C" void h_type_str() {
  GroupType t(static_cast<uint16_t>(vf_below(32, "type")));
  if (vf_bool("C")) t.version = GroupType::Version::C;
  vf_assert(t.str() == stub_typestr(&t), "group type is written as its number and version letter");
}
