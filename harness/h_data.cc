// Contracts of the groups that carry data: programme item and slow labelling (1), open data
// assignment (3A) and routing, transparent data (5), in-house data (6), other networks (14),
// DAB cross-reference, enhanced RadioText, RadioText Plus.
#define VF_ROUTING
#include "vf_abs.h"
#include "vf_txt.h"

static inline VfDoc run1(Station& st, const Group& g) {
  std::stringstream out;
  st.updateAndPrint(g, out);
  VfDocs docs(out.str());
  vf_assert(docs.wellformed && docs.n == 1, "one line per group");
  return docs.doc(0);
}
// Names looked up in tables: in proof mode any injective table (contents: h_tables.cc).
extern "C" {
std::string stub_country(uint16_t cc, uint16_t ecc) { vf_assert(cc < 16 && ecc < 256, "country codes have four and eight bits"); return fixed_hex(static_cast<uint32_t>(cc << 8 | ecc), 3); }
std::string stub_language(uint16_t code) { vf_assert(code < 256, "language codes have eight bits"); return fixed_hex(code, 2); }
std::string stub_app(uint16_t aid) { return fixed_hex(aid, 4); }
std::string stub_tag(uint32_t ct) { vf_assert(ct < 64, "tag codes have six bits"); return fixed_hex(ct, 2); }
std::string stub_hm(int h, int m) {
  std::string s = "00:00";
  vf_assert(h >= 0 && h < 100 && m >= 0 && m < 100, "hours and minutes have two digits");
  s[0] = static_cast<char>('0' + h / 10); s[1] = static_cast<char>('0' + h % 10); s[3] = static_cast<char>('0' + m / 10); s[4] = static_cast<char>('0' + m % 10);
  return s;
}
}
#ifdef VF_MODEL
#define T_COUNTRY stub_country
#define T_LANG stub_language
#define T_APP stub_app
#define T_TAG stub_tag
#define T_PTY stub_ptyname
#define T_PTYR stub_ptyname_rbds
#else
#define T_COUNTRY getCountryString
#define T_LANG getLanguageString
#define T_APP getAppNameString
#define T_TAG getRTPlusContentTypeString
#define T_PTY getPTYNameString
#define T_PTYR getPTYNameStringRBDS
#endif
#ifdef SEC_G1
extern "C" void h_hours() { int h = static_cast<int>(vf_below(100, "h")), m = static_cast<int>(vf_below(100, "m")); vf_assert(getHoursMinutesString(h, m) == stub_hm(h, m), "hours and minutes are two digits each"); }
#endif

#ifdef VF_MODEL
extern "C" {
void od_dab(Station*, const Group*) { g_called = 200; g_ncalled++; }
void od_ert(Station*, const Group*) { g_called = 201; g_ncalled++; }
static const void* g_rt; static uint32_t g_rtjson;
void od_rtplus(const Group*, RadioText* rt, nlohmann::ordered_json* j) { g_called = 202; g_ncalled++; g_rt = rt; g_rtjson = j->h_; }
static uint16_t g_tmcsys; static unsigned g_ntmcsys;
void od_tmcsys(tmc::TMCService*, uint16_t m, nlohmann::ordered_json*) { g_tmcsys = m; g_ntmcsys++; }
}
#else
extern "C" { void od_dab() {} void od_ert() {} void od_rtplus() {} void od_tmcsys() {} }
#endif
#define IS_NUM(path, v) (JKIND(d, path) == vfj::INT && JNUM(d, path) == static_cast<long>(v))
#define IS_BOOL(path, v) (JKIND(d, path) == vfj::BOOL && JNUM(d, path) == static_cast<long>(v))
#define IS_STR(path, v) (JKIND(d, path) == vfj::STRING && JSTR(d, path) == (v))

// --- group 1: programme item number, slow labelling
static inline bool pin_ok(uint16_t p) { return p != 0 && (p >> 11) >= 1 && ((p >> 6) & 31) <= 24 && (p & 63) <= 59; }
#ifdef SEC_G1
static inline void group1(bool isb) {
  VfBlocks b = typed_blocks(1, isb);
  Options o; uint16_t pi = vf_u16("station");
  Station st(o, 0, pi); st.last_group_had_pi_ = true;
#ifndef VF_MODEL
  if (vf_bool("likely_pin")) b.data[3] = static_cast<uint16_t>((b.data[3] & 0x0800) | vf_below(26, "ph") << 6 | vf_below(61, "pm"));
#endif
  Group g = typed_group(b, 1, isb);
  VfDoc d = run1(st, g);
  bool both = b.has[2] && b.has[3];
  uint16_t p = b.data[3], s = b.data[2]; unsigned v = (s >> 12) & 7;
  bool pin = both && pin_ok(p), slc = both && !isb;
  vf_assert(JHAS(d, "prog_item_number") == pin && JHAS(d, "prog_item_started/day") == pin && JHAS(d, "prog_item_started/time") == pin, "the programme item is given exactly when its number was received and is a valid time");
  if (pin) vf_assert(IS_NUM("prog_item_number", p) && IS_NUM("prog_item_started/day", p >> 11) && IS_STR("prog_item_started/time", stub_hm((p >> 6) & 31, p & 63)), "the programme item number is the fourth block");
  vf_assert(JHAS(d, "has_linkage") == slc && (!slc || IS_BOOL("has_linkage", s >> 15)), "the linkage actuator is bit 15 of the third block of group 1A");
  vf_assert(JHAS(d, "country") == (slc && v == 0 && (s & 255) != 0), "the country is given in variant 0");
  if (JHAS(d, "country")) vf_assert(IS_STR("country", T_COUNTRY(pi >> 12, s & 255)), "the country is that of the PI and the extended country code");
  vf_assert(JHAS(d, "tmc_id") == (slc && v == 1) && (!JHAS(d, "tmc_id") || IS_NUM("tmc_id", s & 0xFFF)), "the TMC identification is that of variant 1");
  vf_assert(JHAS(d, "language") == (slc && v == 3), "the language is given in variant 3");
  if (JHAS(d, "language")) vf_assert(IS_STR("language", T_LANG(s & 255)), "the language is that of the language code");
  vf_assert(JHAS(d, "slc_broadcaster_bits") == (slc && v == 6), "the broadcaster bits are given in variant 6");
  if (JHAS(d, "slc_broadcaster_bits")) vf_assert(IS_STR("slc_broadcaster_bits", "0x" + fixed_hex(s & 0x7FF, 3)), "the broadcaster bits are the 11 bits of variant 6");
  vf_assert(JHAS(d, "ews") == (slc && v == 7) && (!JHAS(d, "ews") || IS_NUM("ews", s & 0xFFF)), "the emergency warning channel is that of variant 7");
  vf_cover(pin, "item");
}
extern "C" void h_group1_a() { group1(false); }
extern "C" void h_group1_b() { group1(true); }

#endif  // SEC_G1

// --- group 14: other networks
#ifdef SEC_EON
// how (proof mode): -1 this network only, known or not; 0 another one is known; 1 both are
// known. The codes are constants in the last two.
static inline void group14(bool isb, unsigned vlo, unsigned vhi, int how, uint16_t on, uint16_t other) {
  VfBlocks b = typed_blocks(14, isb);
  Options o; o.rbds = vf_bool("rbds");
  Station st(o, 0, 0x1234); st.last_group_had_pi_ = true;
  unsigned v = vlo == vhi ? vlo : vlo + vf_below(vhi - vlo + 1, "variant");
  if (!isb) b.data[1] = static_cast<uint16_t>((b.data[1] & ~15u) | v);
#ifndef VF_MODEL
  if (vf_bool("likely_pin")) b.data[2] = static_cast<uint16_t>((b.data[2] & 0x0800) | vf_below(26, "ph") << 6 | vf_below(61, "pm"));
#endif
  bool known = how == 1;
#ifdef VF_MODEL
  if (how >= 0) { b.data[1] = static_cast<uint16_t>(0xE000 | (on & 0x7F0) | v); b.data[3] = on; b.has[2] = b.has[3] = true; } else { on = b.data[3]; other = 0; known = vf_bool("known"); }
#else
  on = b.data[3]; other = vf_u16("other"); vf_assume(other != on); known = vf_bool("known");
#endif
  uint16_t w = b.data[2];
#ifdef VF_MODEL
  abs_init(); g_afn = g_afclr = 0; g_afcomplete = vf_bool("af_complete"); g_afl[0] = static_cast<int>(vf_nd(20, "f0")); g_afl[1] = static_cast<int>(vf_nd(20, "f1"));
  const void* T = nullptr; const void* F = nullptr;
  const void* TO = nullptr; const void* FO = nullptr;
  if (how >= 0) {
    st.eon_ps_names_.emplace(other, RDSString(8)); TO = &st.eon_ps_names_.find(other)->second;
    st.eon_alt_freqs_[other]; FO = &st.eon_alt_freqs_.find(other)->second;
  }
  g_ctorlen = 0;
  if (known) { st.eon_ps_names_.emplace(on, RDSString(8)); st.eon_alt_freqs_[on]; }
#else
  if (vlo == 4) { if (vf_bool("likely_af")) { b.data[2] = static_cast<uint16_t>((1 + vf_below(204, "a")) << 8 | (1 + vf_below(204, "b"))); w = b.data[2]; } }
  st.eon_ps_names_.emplace(other, RDSString(8)); any_text(st.eon_ps_names_[other], 8); RDSString other_before = st.eon_ps_names_[other];
  st.eon_ps_names_.emplace(on, RDSString(8)); any_text(st.eon_ps_names_[on], 8);
  if (!known) st.eon_ps_names_.erase(on);
  RDSString fresh(8); Txt<8> t(known ? st.eon_ps_names_[on] : fresh);
  AltFreqList& l = st.eon_alt_freqs_[on];
  if (vf_bool("af_two")) { l.insert(226); } else { l.insert(224 + 4); l.insert(10); l.insert(20); }
  AltFreqList lb = l;
#endif
  Group g = typed_group(b, 14, isb);
#ifdef VF_MODEL
  if (how >= 0) for (int i = 0; i < 4; i++) {   // (checked) constants for the verifier
    auto& k = g.blocks_[i];
    if (i == 0) continue;
    vf_assert(k.is_received == b.has[i] && k.data == b.data[i], "blocks are kept"); k.is_received = true; if (i == 1 || i == 3) k.data = b.data[i];
  }
#endif
  VfDoc d = run1(st, g);
  bool has = b.has[3], full = has && b.has[2] && !isb;
  vf_assert(JHAS(d, "other_network/pi") == has && JHAS(d, "other_network/tp") == has, "another network is given exactly when its PI was received");
  if (has) vf_assert(IS_STR("other_network/pi", spec_hex4(on)) && IS_BOOL("other_network/tp", (b.data[1] >> 4) & 1), "the other network has the PI in block 4 and the TP flag in bit 4 of block 2");
  bool ta = has && (isb || (full && v == 13));
  vf_assert(JHAS(d, "other_network/ta") == ta && (!ta || IS_BOOL("other_network/ta", isb ? (b.data[1] >> 3) & 1 : w & 1)), "the traffic announcement flag of the other network is in block 2 (14B) or block 3, variant 13");
  bool names = full && v < 4, afs = full && v == 4;
  bool complete = false; std::string want;
#ifdef VF_MODEL
  auto ti = st.eon_ps_names_.find(on); if (ti != st.eon_ps_names_.end()) T = &ti->second;
  auto fi = st.eon_alt_freqs_.find(on); if (fi != st.eon_alt_freqs_.end()) F = &fi->second;
  vf_assert(g_nops == (names ? 2u : 0u), "a name changes exactly when its characters were received");
  if (names && !known) vf_assert(g_ctorlen == 8, "a name has eight characters");
  if (names) vf_assert(T != nullptr && T != TO && is_set2(0, T, 2 * v, w), "the characters go to their position in the name of the network in block 4");
  complete = names && g_complete[2]; want = "LAST ";
  vf_assert(g_afn == (afs ? 2u : 0u), "frequencies are taken from variant 4");
  if (afs) vf_assert(g_af[0] == w >> 8 && g_af[1] == (w & 255) && F != nullptr && F != FO && g_afobj[0] == F && g_afobj[1] == F, "both frequency codes go to the list of the network in block 4");
  bool afdone = afs && g_afcomplete;
  vf_assert(g_afclr == (afdone ? 1u : 0u), "a complete list is given once");
  if (afdone) vf_assert(JLEN(d, "other_network/alt_frequencies") == 2 && JITEM(d, "other_network/alt_frequencies", 0) == g_afl[0] && JITEM(d, "other_network/alt_frequencies", 1) == g_afl[1], "a complete list is given in full");
#else
  if (names) t.rx2(2 * v, w);
  if (names || known) vf_assert(t.same(st.eon_ps_names_[on]), "the characters go to their position in the name of the network in block 4");
  { RDSString& x = st.eon_ps_names_[other]; vf_assert(x.getData() == other_before.getData() && x.prev_pos_ == other_before.prev_pos_ && x.sequential_length_ == other_before.sequential_length_, "other names are left alone"); }
  complete = names && t.complete(); want = t.text(false);
  if (afs) { lb.insert(w >> 8); lb.insert(w & 255); }
  bool afdone = afs && lb.isComplete();
  if (afdone) { auto r = lb.getRawList(); bool same = JLEN(d, "other_network/alt_frequencies") == r.size(); for (unsigned i = 0; same && i < r.size(); i++) same = JITEM(d, "other_network/alt_frequencies", i) == r[i]; vf_assert(same, "a complete list is given in full"); }
#endif
  vf_assert(JHAS(d, "other_network/alt_frequencies") == afdone, "frequencies are given exactly when their list is complete");
  vf_assert(JHAS(d, "other_network/ps") == complete, "the name is given exactly when all its characters have been received in order");
  if (complete) vf_assert(IS_STR("other_network/ps", want), "the name is made of the latest received characters");
  unsigned fc = w & 255;
  bool mapped = full && v >= 5 && v <= 9 && fc >= 1 && fc <= 204;
  vf_assert(JHAS(d, "other_network/kilohertz") == mapped && (!mapped || IS_NUM("other_network/kilohertz", 87500 + 100 * fc)), "a mapped frequency is that of the code in the low byte of block 3");
  bool link = full && v == 12;
  vf_assert(JHAS(d, "other_network/has_linkage") == link && (!link || IS_BOOL("other_network/has_linkage", w >> 15)), "the linkage actuator is bit 15 of variant 12");
  bool set = link && (w >> 15) && (w & 0xFFF);
  vf_assert(JHAS(d, "other_network/linkage_set") == set && (!set || IS_NUM("other_network/linkage_set", w & 0xFFF)), "the linkage set is given when there is one");
  bool pty = full && v == 13;
  vf_assert(JHAS(d, "other_network/prog_type") == pty, "the programme type is that of variant 13");
  if (pty) vf_assert(IS_STR("other_network/prog_type", o.rbds ? T_PTYR(w >> 11) : T_PTY(w >> 11)), "the programme type is in bits 15 to 11");
  bool pin = full && v == 14 && pin_ok(w);
  vf_assert(JHAS(d, "other_network/prog_item_number") == pin && JHAS(d, "other_network/prog_item_started/day") == pin && JHAS(d, "other_network/prog_item_started/time") == pin, "the programme item is that of variant 14, if valid");
  if (pin) vf_assert(IS_NUM("other_network/prog_item_number", w) && IS_NUM("other_network/prog_item_started/day", w >> 11) && IS_STR("other_network/prog_item_started/time", stub_hm((w >> 6) & 31, w & 63)), "the programme item number is the third block");
  bool bd = full && v == 15;
  vf_assert(JHAS(d, "other_network/broadcaster_data") == bd, "broadcaster data are those of variant 15");
  if (bd) vf_assert(IS_STR("other_network/broadcaster_data", fixed_hex(w, 4)), "broadcaster data are the third block");
  vf_cover(full || (isb && has), "complete group");
}
extern "C" void h_eon_b() { group14(true, 0, 0, -1, 0, 0); }
extern "C" void h_eon_a() { group14(false, 0, 15, -1, 0, 0); }
#define EON_PS(n) extern "C" void h_eon_ps_##n() { group14(false, n, n, 0, 0xD31C, 0xD31B); } extern "C" void h_eon_ps_##n##k() { group14(false, n, n, 1, 0x5319, 0xD319); }
EON_PS(0) EON_PS(1) EON_PS(2) EON_PS(3)
extern "C" void h_eon_af() { group14(false, 4, 4, 0, 0xD31C, 0xD31B); }
extern "C" void h_eon_af_k() { group14(false, 4, 4, 1, 0x5319, 0xD319); }

#endif  // SEC_EON

// --- group 6: in-house data
#ifdef SEC_DATA
static inline void group6(bool isb) {
  VfBlocks b = typed_blocks(6, isb);
  Options o; Station st(o, 0, 0x1234); st.last_group_had_pi_ = true;
  Group g = typed_group(b, 6, isb);
  VfDoc d = run1(st, g);
  long want[3]; unsigned n = 0; want[n++] = b.data[1] & 31;
  if (!isb && b.has[2]) { want[n++] = b.data[2]; if (b.has[3]) want[n++] = b.data[3]; }
  if (isb && b.has[3]) want[n++] = b.data[3];
  vf_assert(JKIND(d, "in_house_data") == vfj::ARRAY && JLEN(d, "in_house_data") == n, "in-house data are those of the blocks received");
  for (unsigned i = 0; i < 3; i++) if (i < n) vf_assert(JITEM(d, "in_house_data", i) == want[i], "in-house data are given in order");
}
extern "C" void h_group6_a() { group6(false); }
extern "C" void h_group6_b() { group6(true); }

#endif  // SEC_DATA

// --- group 5: transparent data
#ifdef SEC_DATA
static inline void group5(bool isb) {
  VfBlocks b = typed_blocks(5, isb);
  Options o; Station st(o, 0, 0x1234); st.last_group_had_pi_ = true;
  unsigned a = b.data[1] & 31; bool upd = b.has[3] && (isb || b.has[2]);
#ifdef VF_MODEL
  abs_init(); g_throws = false;
#else
  any_text(st.full_tdc_, 128); Txt<128> t(st.full_tdc_);
#endif
  Group g = typed_group(b, 5, isb);
  VfDoc d = run1(st, g);
  vf_assert(IS_NUM("transparent_data/address", a), "the address is in bits 4 to 0 of the second block");
  std::string raw; if (!isb) raw = fixed_hex(b.data[2] >> 8, 2) + " " + fixed_hex(b.data[2] & 255, 2) + " ";
  raw += fixed_hex(b.data[3] >> 8, 2) + " " + fixed_hex(b.data[3] & 255, 2);
  vf_assert(JHAS(d, "transparent_data/raw") == upd && JHAS(d, "transparent_data/as_text") == upd, "data are given exactly when they were received");
  if (upd) vf_assert(IS_STR("transparent_data/raw", raw), "the data are those of the third and fourth block (5A) or the fourth (5B)");
  bool complete = false;
#ifdef VF_MODEL
  const void* T = &st.full_tdc_;
  vf_assert(g_nops == (upd ? (isb ? 2u : 8u) : 0u), "texts change exactly when data were received");
  if (upd && !isb) {
    const void* X = g_ops[0].t;
    vf_assert(X != T && is_set2(0, X, 0, b.data[2]) && is_set2(2, X, 2, b.data[3]), "the group itself is shown as text");
    vf_assert(is_set2(4, T, 4 * a, b.data[2]) && is_set2(6, T, 4 * a + 2, b.data[3]), "data go to the position of their address");
    complete = g_complete[0];
  }
  if (upd && isb) vf_assert(g_ops[0].t != T && is_set2(0, g_ops[0].t, 0, b.data[3]), "the group itself is shown as text");
  if (complete) vf_assert(IS_STR("transparent_data/full_text", "NOW "), "the full text is that of all addresses");
#else
  if (upd && !isb) { t.rx2(4 * a, b.data[2]); t.rx2(4 * a + 2, b.data[3]); complete = t.complete(); }
  vf_assert(t.same(st.full_tdc_), "data go to the position of their address");
  if (complete) vf_assert(IS_STR("transparent_data/full_text", t.text(false)), "the full text is that of all addresses");
  RDSString own(isb ? 2 : 4); Txt<4> x(own);
  if (upd) { if (!isb) { x.rx2(0, b.data[2]); x.rx2(2, b.data[3]); } else x.rx2(0, b.data[3]); vf_assert(IS_STR("transparent_data/as_text", x.text(false)), "the group itself is shown as text"); }
#endif
  vf_assert(JHAS(d, "transparent_data/full_text") == complete && JHAS(d, "transparent_data/full_raw") == complete, "the full text is given exactly when all its data were received in order");
}
extern "C" void h_group5_a() { group5(false); }
extern "C" void h_group5_b() { group5(true); }

#endif  // SEC_DATA

// --- routing and open data
#ifdef SEC_ODA
struct Any3A { GroupType t; uint16_t app; };
static const uint32_t likely_apps[] = {0x0093, 0x4BD7, 0x4BD8, 0x6552, 0xCD46, 0xCD47};
static inline int route(unsigned num, bool isb, bool oda) {
  if (num == 0) return 100; if (num == 1) return 101; if (num == 2) return 102;
  if (num == 3 && !isb) return 103; if (num == 4 && !isb) return 104; if (num == 10 && !isb) return 110;
  if (num == 14) return 114; if (num == 15 && isb) return 116;
  if (oda) return 120;
  if (num == 5) return 105; if (num == 6) return 106; if (num == 7 && !isb) return 107; if (num == 8 && !isb) return 108; if (num == 9 && !isb) return 109; if (num == 15) return 115;
  return 120;
}
#ifdef VF_MODEL
extern "C" void h_routing() {
  VfBlocks b; for (int i = 0; i < 4; i++) { b.has[i] = i == 1 ? true : vf_bool("has"); b.data[i] = vf_u16("data"); b.err[i] = false; }
  b.cprime = vf_bool("cprime"); b.no_offsets = vf_bool("no_offsets");
  Options o; Station st(o, 0, 0x1234); st.last_group_had_pi_ = true;
  GroupType t(static_cast<uint16_t>(vf_below(32, "assigned"))); st.oda_app_for_group_[t] = vf_u16("app");
  Group g = vf_make_group(b);
  g_called = g_ncalled = 0;
  unsigned num = b.data[1] >> 12; bool isb = (b.data[1] >> 11) & 1;
  bool typed = !isb || b.no_offsets || (b.has[2] && b.cprime);
  run1(st, g);
  int want = route(num, isb, t.number == num && (t.version == GroupType::Version::B) == isb);
  if (want == 108 && !(b.has[2] && b.has[3])) want = 0;
  if (!typed) want = 0;
  vf_assert(g_ncalled == (want ? 1 : 0) && (!want || g_called == want), "every group goes to the decoder of its type, once");
  if (want == 108) vf_assert(g_tmcx == (b.data[1] & 31) && g_tmcy == b.data[2] && g_tmcz == b.data[3], "a TMC group is handed over as received");
}
static inline void oda_group(unsigned num, bool isb) {
  VfBlocks b = typed_blocks(num, isb);
  Options o; Station st(o, 0, 0x1234); st.last_group_had_pi_ = true;
  bool known = vf_bool("known"); uint16_t app = vf_u16("app");
  GroupType t; t.number = static_cast<uint16_t>(num); t.version = isb ? GroupType::Version::B : GroupType::Version::A;
  GroupType u(static_cast<uint16_t>(vf_below(32, "other"))); vf_assume(u.number != num || u.version != t.version);
  st.oda_app_for_group_[u] = vf_u16("other_app");
  if (known) st.oda_app_for_group_[t] = app;
  Group g = typed_group(b, num, isb);
  g_called = g_ncalled = 0;
  VfDoc d = run1(st, g);
  int want = !known ? 0 : app == 0x0093 ? 200 : app == 0x4BD7 || app == 0x4BD8 ? 202 : app == 0x6552 ? 201 : (app == 0xCD46 || app == 0xCD47) ? 108 : 0;
  bool other = want == 0;
  if (want == 108 && !(b.has[2] && b.has[3])) want = 0;
  vf_assert(g_ncalled == (want ? 1 : 0) && (!want || g_called == want), "an open data group goes to the application assigned to its type");
  if (want == 202) vf_assert(g_rt == (app == 0x4BD7 ? &st.radiotext_ : &st.ert_) && g_rtjson == vfj::hstr(app == 0x4BD7 ? "radiotext_plus" : "ert_plus"), "RadioText Plus and enhanced RadioText Plus have their own texts");
  if (want == 108) vf_assert(g_tmcx == (b.data[1] & 31) && g_tmcy == b.data[2] && g_tmcz == b.data[3], "a TMC group is handed over as received");
  std::string raw = fixed_hex(b.data[1] & 31, 2) + " " + (b.has[2] ? fixed_hex(b.data[2], 4) : std::string("----")) + " " + (b.has[3] ? fixed_hex(b.data[3], 4) : std::string("----"));
  vf_assert(JHAS(d, "unknown_oda/raw_data") == other && (!other || IS_STR("unknown_oda/raw_data", raw)), "data of an application that is not known are given as received");
  vf_assert(JHAS(d, "unknown_oda/app_id") == (other && known) && JHAS(d, "unknown_oda/app_name") == (other && known), "its name is given if it was assigned");
  if (other && known) vf_assert(IS_STR("unknown_oda/app_id", fixed_hex(app, 4)) && IS_STR("unknown_oda/app_name", stub_app(app)), "the application is the one assigned");
}
extern "C" void h_oda_11a() { oda_group(11, false); }
extern "C" void h_oda_8a() { oda_group(8, true); }
extern "C" void h_oda_assign() {
  VfBlocks b = typed_blocks(3, false);
  Options o; Station st(o, 0, 0x1234); st.last_group_had_pi_ = true;
  GroupType u(static_cast<uint16_t>(vf_below(32, "other"))); uint16_t ua = vf_u16("other_app"); st.oda_app_for_group_[u] = ua;
  Group g = typed_group(b, 3, false);
  g_ntmcsys = 0;
  st.ert_.text.encoding_ = RDSString::Encoding::Basic; st.radiotext_.text.encoding_ = RDSString::Encoding::Basic;
  VfDoc d = run1(st, g);
  bool both = b.has[2] && b.has[3]; uint16_t app = b.data[3], m = b.data[2]; GroupType t(b.data[1] & 31);
  GroupType q(static_cast<uint16_t>(vf_below(32, "asked")));
  auto same = [](const GroupType& x, const GroupType& y) { return x.number == y.number && x.version == y.version; };
  auto it = st.oda_app_for_group_.find(q);
  bool hasq = it != st.oda_app_for_group_.end();
  bool wantq = (both && same(q, t)) || same(q, u);
  vf_assert(hasq == wantq && (!hasq || it->second == (both && same(q, t) ? app : ua)), "an assignment changes the application of its group type only");
  vf_assert(JHAS(d, "open_data_app/oda_group") == both && JHAS(d, "open_data_app/app_name") == both, "an application is given exactly when it was received");
  if (both) vf_assert(IS_STR("open_data_app/oda_group", stub_typestr(&t)) && IS_STR("open_data_app/app_name", stub_app(app)), "the application and group type are those received");
  bool tm = both && (app == 0xCD46 || app == 0xCD47), ert = both && app == 0x6552;
  vf_assert(g_ntmcsys == (tm ? 1u : 0u) && (!tm || g_tmcsys == m), "the message of TMC goes to the TMC decoder");
  bool unk = both && app != 0x0093 && app != 0x4BD7 && app != 0x4BD8 && !ert && !tm;
  vf_assert(JHAS(d, "open_data_app/message") == unk && (!unk || IS_NUM("open_data_app/message", m)), "the message of an application that is not known is given");
  vf_assert(st.ert_.text.encoding_ == (ert ? ((m & 1) ? RDSString::Encoding::UTF8 : RDSString::Encoding::UCS2) : RDSString::Encoding::Basic), "enhanced RadioText has the coding announced");
  vf_assert(st.radiotext_.text.encoding_ == RDSString::Encoding::Basic, "RadioText keeps its coding");
}
#else
// end to end: an assignment, then a group of the assigned type
static inline void oda_native(unsigned num, bool isb) {
  Options o; Station st(o, 0, 0x1234); st.last_group_had_pi_ = true;
  unsigned code = num * 2 + isb;
  bool known = vf_bool("known"); uint16_t app = static_cast<uint16_t>(vf_nd_pick(16, "app", likely_apps, 6));
  VfBlocks a = typed_blocks(3, false); a.has[0] = true; a.has[2] = vf_bool("a3") || vf_bool("a3b"); a.has[3] = vf_bool("a4") || vf_bool("a4b"); a.data[3] = app; a.data[1] = static_cast<uint16_t>((a.data[1] & ~31u) | code);
  if (!known) a.data[1] ^= 4;
  VfDoc d3 = run1(st, typed_group(a, 3, false));
  bool both = a.has[2] && a.has[3];
  { VfDoc& d = d3; GroupType t(a.data[1] & 31);
    vf_assert(JHAS(d, "open_data_app/oda_group") == both && JHAS(d, "open_data_app/app_name") == both, "an application is given exactly when it was received");
    if (both) vf_assert(IS_STR("open_data_app/oda_group", stub_typestr(&t)) && IS_STR("open_data_app/app_name", getAppNameString(app)), "the application and group type are those received"); }
  known = known && both;
  VfBlocks b = typed_blocks(num, isb); b.has[0] = true;
  VfDoc d = run1(st, typed_group(b, num, isb));
  int want = !known ? 0 : app == 0x0093 ? 200 : app == 0x4BD7 || app == 0x4BD8 ? 202 : app == 0x6552 ? 201 : (app == 0xCD46 || app == 0xCD47) ? 108 : 0;
  bool other = want == 0;
  std::string raw = fixed_hex(b.data[1] & 31, 2) + " " + (b.has[2] ? fixed_hex(b.data[2], 4) : std::string("----")) + " " + (b.has[3] ? fixed_hex(b.data[3], 4) : std::string("----"));
  vf_assert(JHAS(d, "unknown_oda/raw_data") == other && (!other || IS_STR("unknown_oda/raw_data", raw)), "data of an application that is not known are given as received");
  vf_assert(JHAS(d, "unknown_oda/app_id") == (other && known), "its name is given if it was assigned");
  vf_assert(JHAS(d, "radiotext_plus") == (want == 202 && app == 0x4BD7) && JHAS(d, "ert_plus") == (want == 202 && app == 0x4BD8), "RadioText Plus and enhanced RadioText Plus have their own texts");
  vf_assert(JHAS(d, "dab") == (want == 200 && !((b.data[1] >> 4) & 1)), "an open data group goes to the application assigned to its type");
}
extern "C" void h_oda_11a() { oda_native(11, false); }
extern "C" void h_oda_8a() { oda_native(8, true); }
extern "C" void h_oda_assign() { oda_native(12, vf_bool("v")); }
extern "C" void h_routing() {
  // end to end: by the marks the decoders leave
  unsigned num = vf_below(16, "num"); bool isb = vf_bool("b");
  Options o; Station st(o, 0, 0x1234); st.last_group_had_pi_ = true;
  bool oda = vf_bool("assigned"); if (oda) { GroupType t; t.number = static_cast<uint16_t>(num); t.version = isb ? GroupType::Version::B : GroupType::Version::A; st.oda_app_for_group_[t] = 0x1111; }
  VfBlocks b = typed_blocks(num, isb); b.has[0] = b.has[2] = b.has[3] = true;
  VfDoc d = run1(st, typed_group(b, num, isb));
  int want = route(num, isb, oda);
  vf_assert(JHAS(d, "unknown_oda") == (want == 120), "every group goes to the decoder of its type, once");
  vf_assert(JHAS(d, "transparent_data") == (want == 105) && JHAS(d, "in_house_data") == (want == 106) && JHAS(d, "other_network") == (want == 114) && JHAS(d, "open_data_app") == (want == 103), "every group goes to the decoder of its type, once");
  vf_assert(JHAS(d, "ta") == (want == 100 || want == 116), "every group goes to the decoder of its type, once");
}
#endif

#endif  // SEC_ODA

// --- DAB cross-reference
#ifdef SEC_DATA
static const uint32_t spec_dab_khz[] = {174928, 176640, 178352, 180064, 181936, 183648, 185360, 187072, 188928, 190640, 192352, 194064, 195936, 197648, 199360, 201072, 202928, 204640, 206352, 208064, 209936, 211648, 213360, 215072, 216928, 218640, 220352, 222064, 223936, 225648, 227360, 229072, 230784, 232496, 234208, 235776, 237488, 239200};
extern "C" void h_dab() {
  VfBlocks b = typed_blocks(12, false);
  Options o; Station st(o, 0, 0x1234); st.last_group_had_pi_ = true;
  { GroupType t; t.number = 12; st.oda_app_for_group_[t] = 0x0093; }
#ifndef VF_MODEL
  if (vf_bool("channel")) { uint32_t f = spec_dab_khz[vf_below(38, "f")] / 16; b.data[1] = static_cast<uint16_t>((b.data[1] & ~19u) | (f >> 16)); b.data[2] = static_cast<uint16_t>(f); }
#endif
  Group g = typed_group(b, 12, false);
  VfDoc d = run1(st, g);
  bool es = (b.data[1] >> 4) & 1, both = b.has[2] && b.has[3];
  unsigned mode = (b.data[1] >> 2) & 3; uint32_t f = 16 * (static_cast<uint32_t>(b.data[1] & 3) << 16 | b.data[2]);
  vf_assert(JHAS(d, "dab/mode") == !es && (es || IS_STR("dab/mode", mode == 0 ? "unspecified" : mode == 1 ? "I" : mode == 2 ? "II or III" : "IV")), "the mode is that in the second block");
  vf_assert(JHAS(d, "dab/kilohertz") == (!es && both) && JHAS(d, "dab/ensemble_id") == (!es && both), "the ensemble is given exactly when it was received");
  if (!es && both) vf_assert(IS_NUM("dab/kilohertz", f) && IS_STR("dab/ensemble_id", spec_hex4(b.data[3])), "the ensemble and its frequency are those received");
  if (JHAS(d, "dab/channel")) vf_assert(!es && both, "a channel is given only with its frequency");
  // band III: 5A to 13F; L band: LA to LW
  char e[3] = {0, 0, 0}; unsigned n = 0;
  for (unsigned i = 0; i < 38; i++) if (f == spec_dab_khz[i]) {
    unsigned c = i < 36 ? 5 + i / 4 : 13; n = c >= 10 ? 3 : 2;
    e[0] = c >= 10 ? '1' : static_cast<char>('0' + c); e[n - 2] = static_cast<char>('0' + c % 10); e[n - 1] = static_cast<char>('A' + (i < 36 ? i % 4 : i - 32));
  }
  if (f >= 1452960 && f <= 1490624 && (f - 1452960) % 1712 == 0) { e[0] = 'L'; e[1] = static_cast<char>('A' + (f - 1452960) / 1712); n = 2; }
  bool ch = !es && both && n > 0;
  vf_assert(JHAS(d, "dab/channel") == ch, "a channel is named exactly when the frequency received has a name");
  if (ch) {
    vf_assert(JKIND(d, "dab/channel") == vfj::STRING, "the channel is a name");
    std::string s = JSTR(d, "dab/channel");
    bool same = s.size() == n; for (unsigned i = 0; i < 3; i++) if (same && i < n && s[i] != e[i]) same = false;
    vf_assert(same, "the channel is the name of the frequency");
  }
}

#endif  // SEC_DATA

// --- enhanced RadioText
#ifdef SEC_DATA
extern "C" void h_ert() {
  VfBlocks b = typed_blocks(12, false);
  Options o; Station st(o, 0, 0x1234); st.last_group_had_pi_ = true;
  { GroupType t; t.number = 12; st.oda_app_for_group_[t] = 0x6552; }
  unsigned p = 4 * (b.data[1] & 31);
#ifdef VF_MODEL
  abs_init();
#else
  st.ert_.text.setEncoding(RDSString::Encoding::UTF8); any_text(st.ert_.text, st.ert_.text.data_.size()); Txt<128> t(st.ert_.text);
#endif
  Group g = typed_group(b, 12, false);
  VfDoc d = run1(st, g);
  bool complete; unsigned n = 0;
#ifdef VF_MODEL
  const void* T = &st.ert_.text;
  if (b.has[2]) { vf_assert(is_set2(n, T, p, b.data[2]), "characters go to the position of their address"); n += 2; }
  if (b.has[3]) { vf_assert(is_set2(n, T, p + 2, b.data[3]), "characters go to the position of their address"); n += 2; }
  vf_assert(g_nops == n, "the text changes exactly when its characters were received");
  complete = g_complete[n];
  if (complete) vf_assert(IS_STR("enhanced_radiotext", "LAST"), "enhanced RadioText is the complete text, trimmed");
#else
  if (b.has[2]) t.rx2(p, b.data[2]);
  if (b.has[3]) t.rx2(p + 2, b.data[3]);
  vf_assert(t.same(st.ert_.text), "characters go to the position of their address");
  complete = t.complete();
  return;
#endif
  vf_assert(JHAS(d, "enhanced_radiotext") == complete, "enhanced RadioText is given exactly when complete");
}

#endif  // SEC_DATA

// --- RadioText Plus
#ifdef SEC_RTP
#ifdef VF_MODEL
static unsigned g_nparts; static size_t g_pstart[2], g_plen[2]; static bool g_pempty[2]; static const void* g_pobj;
extern "C" std::string rtp_part(const RDSString* t, size_t start, size_t len) {
  unsigned k = g_nparts++;
  g_pobj = t;
  if (k > 1) return std::string();
  g_pstart[k] = start; g_plen[k] = len;
  if (g_pempty[k]) return std::string();
  return k ? std::string("TWO ") : std::string("ONE ");
}
#else
extern "C" void rtp_part() {}
#endif
// tags: number of tags received
static inline void rtplus(unsigned tags) {
  VfBlocks b = typed_blocks(11, false);
  b.has[2] = tags > 0; if (tags) b.has[3] = tags == 2;
  Options o; Station st(o, 0, 0x1234); st.last_group_had_pi_ = true;
  { GroupType t; t.number = 11; st.oda_app_for_group_[t] = 0x4BD7; }
  RadioText& rt = st.radiotext_;
  rt.plus.toggle = vf_bool("toggle"); rt.plus.item_running = vf_bool("running");
  bool tg = (b.data[1] >> 4) & 1, run = (b.data[1] >> 3) & 1, fresh = tg != rt.plus.toggle || run != rt.plus.item_running;
#ifdef VF_MODEL
  abs_init(); g_nparts = 0; g_pempty[0] = vf_bool("e0"); g_pempty[1] = vf_bool("e1");
#else
  std::vector<std::string> ch; std::string all; uint32_t n = vf_below(65, "n");
  for (uint32_t i = 0; i < n; i++) { ch.push_back(spec_charset[vf_nd_pick(8, "c", kLikely, 3) | 0x20]); all += ch.back(); }
  rt.text.last_complete_string_ = all; rt.text.sequential_length_ = vf_below(65, "seq");
  if (vf_bool("small")) { b.data[2] &= 0xE39F; b.data[3] &= 0xF8E7; }
#endif
  size_t seq = rt.text.sequential_length_;
  Group g = typed_group(b, 11, false);
  for (int i = 2; i < 4; i++) if (i == 2 || tags) { vf_assert(g.blocks_[i].is_received == b.has[i], "blocks are kept"); g.blocks_[i].is_received = i == 2 ? tags > 0 : tags == 2; }   // (checked) constants for the verifier
  VfDoc d = run1(st, g);
  vf_assert(IS_BOOL("radiotext_plus/item_running", run) && IS_NUM("radiotext_plus/item_toggle", tg), "item flags are bits 3 and 4 of the second block");
  vf_assert(rt.plus.toggle == tg && rt.plus.item_running == run, "item flags are remembered");
  unsigned nt = b.has[2] ? (b.has[3] ? 2 : 1) : 0;
  unsigned ct[2] = {static_cast<unsigned>((b.data[1] & 7) << 3 | b.data[2] >> 13), static_cast<unsigned>((b.data[2] & 1) << 5 | b.data[3] >> 11)};
  unsigned start[2] = {static_cast<unsigned>((b.data[2] >> 7) & 63), static_cast<unsigned>((b.data[3] >> 5) & 63)};
  unsigned len[2] = {static_cast<unsigned>((b.data[2] >> 1) & 63) + 1, static_cast<unsigned>(b.data[3] & 31) + 1};
  std::string text[2];
#ifdef VF_MODEL
  (void)seq;
  vf_assert(g_nops == (fresh ? 1u : 0u) && (!fresh || is_op(0, &rt.text, OP_CLEAR, 0, 0)), "a new item starts a fresh text");
  vf_assert(g_nparts == nt && (!nt || g_pobj == &rt.text), "every tag received marks a part of the text");
  for (unsigned i = 0; i < 2; i++) if (i < nt) vf_assert(g_pstart[i] == start[i] && g_plen[i] == len[i], "a tag has the start and length received");
  if (!g_pempty[0]) text[0] = "ONE"; if (!g_pempty[1]) text[1] = "TWO";
#else
  if (fresh) vf_assert(rt.text.getReceivedLength() == 0, "a new item starts a fresh text"); else vf_assert(rt.text.sequential_length_ == seq, "the text is kept during an item");
  // a new item forgets the text received for the old one
  if (fresh) n = 0;
  for (unsigned i = 0; i < 2; i++) { if (start[i] + len[i] <= n) for (unsigned k = 0; k < len[i]; k++) text[i] += ch[start[i] + k]; bool some = !text[i].empty(); text[i] = spec_rtrim(text[i]); if (some && text[i].empty()) text[i] = "\1"; }
#endif
  unsigned m = 0;
  for (unsigned i = 0; i < 2; i++) {
    if (i >= nt || text[i].empty() || ct[i] == 0) continue;
#ifndef VF_MODEL
    if (text[i] == "\1") text[i] = "";
#endif
    if (m == 0) vf_assert(IS_STR("radiotext_plus/tags#0/content-type", T_TAG(ct[i])) && IS_STR("radiotext_plus/tags#0/data", text[i]), "a tag names its class and its part of the text");
    else vf_assert(IS_STR("radiotext_plus/tags#1/content-type", T_TAG(ct[i])) && IS_STR("radiotext_plus/tags#1/data", text[i]), "a tag names its class and its part of the text");
    m++;
  }
  vf_assert(JLEN(d, "radiotext_plus/tags") == m && JHAS(d, "radiotext_plus/tags") == (m > 0), "exactly the tags of a class whose part of the text is there are given");
  if (tags == 2) vf_cover(m == 2, "two tags");
}
extern "C" void h_rtplus_0() { rtplus(0); }
extern "C" void h_rtplus_1() { rtplus(1); }
extern "C" void h_rtplus_2() { rtplus(2); }
#endif  // SEC_RTP

