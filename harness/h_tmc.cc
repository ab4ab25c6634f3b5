// Contracts of the traffic message channel (TMC): service information, message assembly,
// freeform fields, message contents, decryption. The real file is included, so that its
// file-local functions can be called.
#define VF_ROUTING
#include "vf_abs.h"
#include "vf_txt.h"
#include "src/tmc/tmc.cc"
using namespace redsea::tmc;
#ifdef VF_MODEL
static inline VfDoc doc_of(const nlohmann::ordered_json& j) { VfDoc d; d.st = j.st_; return d; }
#define CAPF 4
#else
static inline VfDoc doc_of(const nlohmann::ordered_json& j) { VfDoc d; d.j = j; return d; }
#define CAPF 40
#endif
#define IS_NUM(path, v) (JKIND(d, path) == vfj::INT && JNUM(d, path) == static_cast<long>(v))
#define IS_BOOL(path, v) (JKIND(d, path) == vfj::BOOL && JNUM(d, path) == static_cast<long>(v))
#define IS_STR(path, v) (JKIND(d, path) == vfj::STRING && JSTR(d, path) == (v))

// ---------------------------------------------------------------- specification
// attributes of events: in proof mode any table (here: functions of the code)
extern "C" Event stub_event(uint16_t code) {
  Event e;
  e.directionality = (code & 1) ? EventDirectionality::Both : EventDirectionality::Single;
  e.urgency = code % 3 == 0 ? EventUrgency::None : code % 3 == 1 ? EventUrgency::U : EventUrgency::X;
  e.duration_type = (code & 2) ? DurationType::LongerLasting : DurationType::Dynamic;
  e.quantifier_type = static_cast<QuantifierType>(code % 13); e.allows_quantifier = (code >> 2) & 1; e.update_class = static_cast<uint16_t>(code % 31);
  return e;
}
extern "C" void stub_loadevents() {}
#ifdef VF_MODEL
static inline Event ev_of(uint16_t c) { return stub_event(c); }
#else
static inline Event ev_of(uint16_t c) { return getEvent(c); }
#endif
static inline unsigned spec_qsize(unsigned t) { return t <= 5 ? 5 : 8; }
struct SpecMsg {
  unsigned dur = 0; bool longer = false, both = false, div = false, neg = false; unsigned extent = 0, urg = 0; uint16_t loc = 0;
  uint16_t ev[CAPF], sup[CAPF], route[CAPF], q[CAPF]; bool hasq[CAPF]; unsigned nev = 0, nsup = 0, nroute = 0;
  bool has_len = false, has_until = false, has_start = false, has_speed = false; unsigned len = 0, until = 0, start = 0, speed = 0;
  void add(uint16_t e) { ev[nev] = e; hasq[nev] = false; nev++; }
  void first(uint16_t y, uint16_t z) {
    neg = (y >> 14) & 1; extent = (y >> 11) & 7; loc = z; add(y & 0x7FF);
    Event e = ev_of(ev[0]);
    both = e.directionality == EventDirectionality::Both; longer = e.duration_type == DurationType::LongerLasting; urg = static_cast<unsigned>(e.urgency);
  }
  void field(unsigned label, uint16_t v) {
    if (label == 0) dur = v;
    else if (label == 1) {
      if (v == 0) urg = (urg + 1) % 3; else if (v == 1) urg = (urg + 2) % 3; else if (v == 2) both = !both; else if (v == 3) longer = !longer;
      else if (v == 5) div = true; else if (v == 6) extent += 8; else if (v == 7) extent += 16;
    } else if (label == 2) { has_len = true; len = v; }
    else if (label == 3) { has_speed = true; speed = 5u * v; }
    else if (label == 4 || label == 5) {
      Event e = ev_of(ev[nev - 1]);
      if (!hasq[nev - 1] && e.allows_quantifier && spec_qsize(static_cast<unsigned>(e.quantifier_type)) == (label == 4 ? 5u : 8u)) { hasq[nev - 1] = true; q[nev - 1] = v; }
    } else if (label == 6) sup[nsup++] = v;
    else if (label == 7) { has_start = true; start = v; }
    else if (label == 8) { has_until = true; until = v; }
    else if (label == 9) add(v);
    else if (label == 10) route[nroute++] = v;
  }
};
static const unsigned spec_fsize[16] = {3, 3, 5, 5, 5, 8, 8, 8, 8, 11, 16, 16, 16, 16, 0, 0};
// Fields of the 28 freeform bits of each of the given parts: label, contents; ends at a label
// without room for its contents, at an empty duration field, or at fewer than five bits.
struct SpecFields { unsigned n = 0; unsigned label[29]; uint16_t data[29]; };
static inline SpecFields spec_fields(const uint16_t* y, const uint16_t* z, unsigned nparts) {
  SpecFields r; unsigned p = 0, total = 28 * nparts;
  bool bits[140];
  for (unsigned i = 0; i < 4; i++) if (i < nparts) { for (unsigned k = 0; k < 12; k++) bits[28 * i + k] = (y[i] >> (11 - k)) & 1; for (unsigned k = 0; k < 16; k++) bits[28 * i + 12 + k] = (z[i] >> (15 - k)) & 1; }
  for (unsigned i = 4 * 28; i < 140; i++) bits[i] = false;
  for (unsigned f = 0; f < 28; f++) {
    if (total < p + 5) break;
    unsigned label = static_cast<unsigned>(bits[p]) << 3 | static_cast<unsigned>(bits[p + 1]) << 2 | static_cast<unsigned>(bits[p + 2]) << 1 | static_cast<unsigned>(bits[p + 3]);
    p += 4;
    unsigned w = spec_fsize[label];
    if (p + w > total) break;
    unsigned v = 0;
    for (unsigned k = 0; k < 16; k++) if (k < w) v = v << 1 | static_cast<unsigned>(bits[p + k]);
    p += w;
    if (label == 0 && v == 0) break;
    if (label <= 14) { r.label[r.n] = label; r.data[r.n] = static_cast<uint16_t>(v); r.n++; }
  }
  return r;
}
static inline uint16_t spec_decrypt(uint16_t loc, unsigned xorval, unsigned xorstart, unsigned nrot) {
  uint16_t m = static_cast<uint16_t>(loc ^ static_cast<uint16_t>(xorval << xorstart)); nrot &= 15;
  for (unsigned i = 0; i < 15; i++) if (i < nrot) m = static_cast<uint16_t>(m << 1 | m >> 15);
  return m;
}

// ---------------------------------------------------------------- freeform fields
#ifdef SEC_FF
#ifdef VF_MODEL
// popBits by its contract (h_popbits): the next bits are taken off; any value stands for them.
// The ghost state follows the fields: label, contents, label, contents, ... up to the end mark,
// and remembers one field (any: g_k). One step of an induction over the fields: the walk is
// started at any place where at least five bits remain and stopped after two fields.
static bool g_first; static unsigned g_skip, g_fields;
static bool g_want[112]; static unsigned g_total, g_state, g_left, g_label, g_n, g_k, g_klabel; static uint16_t g_kval; static bool g_ended;
static inline void field_done(unsigned label, uint16_t v) { if (label <= 14) { if (g_n == g_k) { g_klabel = label; g_kval = v; } g_n++; } }
extern "C" uint16_t tm_pop(std::deque<bool>* q, size_t len) {
  if (g_first) { g_first = false; q->b_ += g_skip; g_left -= g_skip; }
  vf_assert(q->size() == g_left && len <= g_left, "bits are taken while there are any");
  vf_assume(len <= g_left);
  uint16_t v = static_cast<uint16_t>(vf_nd(16, "bits") & ((1u << (len & 31)) - 1));
  if (g_state == 2 && len == 0) return 0;  // a field without contents
  if (g_state == 1) {
    vf_assert(len == spec_fsize[g_label], "a field has the width of its label");
    g_state = 0;
    if (g_label == 0 && v == 0) g_ended = true; else field_done(g_label, v);
  } else {
    vf_assert(len == 4 && !g_ended && g_left >= 5, "a field begins with a label of four bits, up to the end mark");
    if (g_fields == 2) { q->b_ = q->e_; g_left = 0; g_ended = true; return 0; }
    g_fields++;
    g_label = v & 15;
    unsigned w = spec_fsize[g_label];
    if (g_left - 4 < w) g_ended = true;
    else if (w == 0) { g_state = 2; field_done(g_label, 0); }
    else g_state = 1;
  }
  q->b_ += len; g_left -= static_cast<unsigned>(len);
  return v;
}
// the contents of the queue when the first field is taken
extern "C" uint16_t tm_pop_first(std::deque<bool>* q, size_t) {
  vf_assert(q->size() == g_total, "the freeform bits of the received parts are used, and no others");
  bool same = true;
  if (q->size() == g_total) for (unsigned i = 0; i < 112; i++) if (i < g_total && (*q)[i] != g_want[i]) same = false;
  vf_assert(same, "the freeform bits are used as received");
  vf_cover(g_total > 0, "reached");
  q->b_ = q->e_; g_ended = true; return 0;
}
extern "C" void h_popbits() {
  std::deque<bool> q;
  for (unsigned i = 0; i < 112; i++) q.u_.buf[i] = vf_bool("bit");
  size_t b = vf_below(113, "b"), e = vf_below(113, "e"); vf_assume(b <= e); q.b_ = b; q.e_ = e;
  bool nx[16]; for (unsigned i = 0; i < 16; i++) nx[i] = b + i < e ? q.u_.buf[b + i] : false;
  size_t len = vf_below(17, "len");
  uint16_t r = popBits(q, len);
  unsigned w = 0; for (unsigned i = 0; i < 16; i++) if (i < len) w = w << 1 | static_cast<unsigned>(nx[i]);
  bool enough = e - b >= len;
  vf_assert(r == (enough ? w : 0u), "a field value is the next bits, first bit first");
  vf_assert(q.b_ == (enough ? b + len : b) && q.e_ == e, "exactly the bits of a field are used up");
  vf_cover(enough && len == 16, "reached");
}
#endif
// gsi: groups still to come after the second; have: parts received without a gap
static inline void freeform(unsigned gsi, unsigned have, bool first = false) {
  std::array<MessagePart, 5> parts{};
  uint16_t y[4], z[4];
  for (unsigned i = 0; i < 5; i++) { parts[i].data[0] = vf_u16("y"); parts[i].data[1] = vf_u16("z"); parts[i].is_received = vf_bool("stale"); }
  parts[1].data[0] = static_cast<uint16_t>((parts[1].data[0] & 0xCFFF) | gsi << 12); parts[1].is_received = true;
#ifndef VF_MODEL
  if (vf_bool("rich")) for (unsigned i = 1; i < 5; i++) { parts[i].data[0] &= static_cast<uint16_t>(0x3000 | vf_u16("m")); parts[i].data[1] &= vf_u16("m2"); }
  parts[1].data[0] = static_cast<uint16_t>((parts[1].data[0] & 0xCFFF) | gsi << 12);
#endif
  y[0] = parts[1].data[0]; z[0] = parts[1].data[1];
  for (unsigned k = 1; k <= gsi; k++) { unsigned i = 4 - gsi + k; parts[i].is_received = k < have; y[k] = parts[i].data[0]; z[k] = parts[i].data[1]; if (k > have) parts[i].is_received = vf_bool("after"); }
#ifdef VF_MODEL
  g_total = g_left = 28 * have; g_state = g_n = 0; g_ended = false; g_k = vf_below(2, "field"); g_first = true; g_fields = 0; g_skip = vf_below(g_total - 4, "skip");
  if (first) for (unsigned i = 0; i < have; i++) { for (unsigned k = 0; k < 12; k++) g_want[28 * i + k] = (y[i] >> (11 - k)) & 1; for (unsigned k = 0; k < 16; k++) g_want[28 * i + 12 + k] = (z[i] >> (15 - k)) & 1; }
  std::vector<FreeformField> r = getFreeformFields(parts);
  if (first) { vf_assert(g_ended, "the freeform bits of the received parts are used, and no others"); return; }
  vf_assert((g_ended || g_left < 5) && g_state != 1 && r.size() == g_n, "every field of the received parts is found, up to the end mark");
  if (g_k < g_n && g_k < r.size()) vf_assert(static_cast<unsigned>(r[g_k].label) == g_klabel && r[g_k].data == g_kval, "a field has the label and contents received");
  vf_cover(g_n == 2 && g_k == 1, "reached");
#else
  SpecFields w = spec_fields(y, z, have);
  std::vector<FreeformField> r = getFreeformFields(parts);
  vf_assert(r.size() == w.n, "every field of the received parts is found, up to the end mark");
  for (unsigned i = 0; i < 28; i++) if (i < w.n && i < r.size()) {
    vf_assert(static_cast<unsigned>(r[i].label) == w.label[i] && r[i].data == w.data[i], "a field has the label and contents received");
  }
#endif
}
#ifndef VF_MODEL
extern "C" void h_popbits() { unsigned gg = vf_below(4, "g"); unsigned nn = 1 + vf_below(gg + 1, "n"); freeform(gg, nn); }
#endif
#ifdef VF_MODEL
#define FF(g, n) extern "C" void h_ff_##g##n() { freeform(g, n); } extern "C" void h_ffb_##g##n() { freeform(g, n, true); }
#else
#define FF(g, n) extern "C" void h_ffb_##g##n() { unsigned gg = vf_below(4, "g"); unsigned nn = 1 + vf_below(gg + 1, "n"); freeform(gg, nn); } extern "C" void h_ff_##g##n() { unsigned gg = vf_below(4, "g"); unsigned nn = 1 + vf_below(gg + 1, "n"); freeform(gg, nn); }
#endif
FF(0, 1) FF(1, 1) FF(1, 2) FF(2, 1) FF(2, 2) FF(2, 3) FF(3, 1) FF(3, 2) FF(3, 3) FF(3, 4)
#endif  // SEC_FF

// ---------------------------------------------------------------- message contents
#ifdef SEC_MSG
#ifdef VF_MODEL
static unsigned g_nf; static FreeformField g_f[3]; static const void* g_ffobj; static unsigned g_ffcalls;
extern "C" std::vector<FreeformField> tm_fields(const std::array<MessagePart, 5>* p) { g_ffobj = p; g_ffcalls++; std::vector<FreeformField> v; for (unsigned i = 0; i < 3; i++) if (i < g_nf) v.push_back(g_f[i]); return v; }
// one message of a first group and nf freeform fields
static inline void contents(unsigned nf, int l0, int l1) {
  bool enc = vf_bool("enc");
  Message m(enc);
  bool first = vf_bool("first"), second = vf_bool("second");
  uint16_t y = vf_u16("y"), z = vf_u16("z");
  m.parts_[0] = MessagePart(first, {y, z}); m.parts_[1].is_received = second;
  SpecMsg w; w.first(y, z);
  // earlier fields may have left these in any condition
  m.has_time_starts_ = w.has_start = vf_bool("s"); m.time_starts_ = static_cast<uint16_t>(w.start = vf_u16("t"));
  m.has_time_until_ = w.has_until = vf_bool("u"); m.time_until_ = static_cast<uint16_t>(w.until = vf_u16("t"));
  m.has_speed_limit_ = w.has_speed = vf_bool("v"); m.speed_limit_ = static_cast<uint16_t>(w.speed = vf_u16("t"));
  m.has_length_affected_ = w.has_len = vf_bool("l"); m.length_affected_ = static_cast<uint16_t>(w.len = vf_u16("t"));
  m.duration_ = static_cast<uint16_t>(w.dur = vf_u16("d")); m.diversion_advised_ = w.div = vf_bool("div");
  g_nf = nf; g_ffcalls = 0;
  for (unsigned i = 0; i < 2; i++) if (i < nf) {
    unsigned l = static_cast<unsigned>(i == 0 ? l0 : l1); uint16_t v = vf_u16("f"); v &= static_cast<uint16_t>((1u << spec_fsize[l]) - 1);
    g_f[i].label = static_cast<FieldLabel>(l); g_f[i].data = v;
    if (second) w.field(l, v);
  }
  m.decodeMulti();
  vf_assert(m.is_complete_ == first, "a message needs its first group");
  if (!first) return;
  vf_assert(g_ffcalls == (second ? 1u : 0u) && (!second || g_ffobj == &m.parts_), "the fields of the message are used");
  vf_assert((m.direction_ == Direction::Negative) == w.neg && m.extent_ == w.extent && (enc ? m.encrypted_location_ : m.location_) == w.loc, "direction, extent and location are those of the first group and the control codes");
  vf_assert((m.directionality_ == EventDirectionality::Both) == w.both && static_cast<unsigned>(m.urgency_) == w.urg && (m.duration_type_ == DurationType::LongerLasting) == w.longer, "directionality, urgency and duration type are those of the event and the control codes");
  vf_assert(m.events_.size() == w.nev, "every event is listed once");
  for (unsigned i = 0; i < 3; i++) if (i < w.nev) {
    vf_assert(m.events_[i] == w.ev[i], "events are listed in order");
    vf_assert((m.quantifiers_.count(i) == 1) == w.hasq[i], "an event has the first quantifier received after it that fits it");
    if (w.hasq[i]) vf_assert(m.quantifiers_.at(i) == w.q[i], "a quantifier is the one received");
  }
  vf_assert(m.supplementary_.size() == w.nsup && m.diversion_.size() == w.nroute, "supplementary and diversion codes are listed");
  for (unsigned i = 0; i < 2; i++) { if (i < w.nsup) vf_assert(m.supplementary_[i] == w.sup[i], "supplementary codes are listed in order"); if (i < w.nroute) vf_assert(m.diversion_[i] == w.route[i], "diversion codes are listed in order"); }
  vf_assert(m.has_time_starts_ == w.has_start && (!w.has_start || m.time_starts_ == w.start) && m.has_time_until_ == w.has_until && (!w.has_until || m.time_until_ == w.until), "start and stop times are those received");
  vf_assert(m.has_speed_limit_ == w.has_speed && (!w.has_speed || m.speed_limit_ == w.speed), "the speed limit is the one received");
}
extern "C" void h_msg_first() { contents(0, 0, 0); }
#define M1(a) extern "C" void h_msg_##a() { contents(1, a, 0); }
M1(0) M1(1) M1(2) M1(3) M1(4) M1(5) M1(6) M1(7) M1(8) M1(9) M1(10) M1(11) M1(13) M1(14)
#define M2(a, b) extern "C" void h_msg_##a##_##b() { contents(2, a, b); }
M2(9, 4) M2(9, 5) M2(4, 4) M2(5, 5) M2(4, 5) M2(6, 6) M2(10, 10) M2(1, 1) M2(9, 9) M2(9, 1)
#endif
#endif  // SEC_MSG

// ---------------------------------------------------------------- assembly of messages
#ifdef SEC_ASM
#ifdef VF_MODEL
static unsigned g_ndec; static bool g_drx[5]; static uint16_t g_dy[5], g_dz[5];
extern "C" void tm_decode(Message* m) { g_ndec++; for (unsigned i = 0; i < 5; i++) { g_drx[i] = m->parts_[i].is_received; g_dy[i] = m->parts_[i].data[0]; g_dz[i] = m->parts_[i].data[1]; } m->is_complete_ = g_drx[0]; }
extern "C" void h_multi() {
  Message m(vf_bool("enc"));
  bool rx[5]; uint16_t py[5], pz[5];
  for (unsigned i = 0; i < 5; i++) { rx[i] = vf_bool("rx"); py[i] = vf_u16("py"); pz[i] = vf_u16("pz"); m.parts_[i].is_received = rx[i]; m.parts_[i].data[0] = py[i]; m.parts_[i].data[1] = pz[i]; }
  uint16_t x = vf_u16("x") & 31, y = vf_u16("y"), z = vf_u16("z");
  m.continuity_index_ = static_cast<uint16_t>(vf_below(8, "ci"));
  unsigned gsi = (y >> 12) & 3; bool fg = y >> 15, sg = (y >> 14) & 1;
  unsigned at = fg ? 0 : sg ? 1 : 4 - gsi; bool last = !fg && gsi == 0;
  rx[at] = true; py[at] = y; pz[at] = z;
  g_ndec = 0;
  m.pushMulti(x, y, z);
  vf_assert(g_ndec == (last ? 1u : 0u), "a message is decoded when its last group was received");
  for (unsigned i = 0; i < 5; i++) {
    if (last) vf_assert(g_drx[i] == rx[i] && (!rx[i] || (g_dy[i] == py[i] && g_dz[i] == pz[i])), "a message is made of the groups received for it");
    vf_assert(m.parts_[i].is_received == (rx[i] && !last) && (!m.parts_[i].is_received || (m.parts_[i].data[0] == py[i] && m.parts_[i].data[1] == pz[i])), "groups are kept until the last one, and then dropped");
  }
  vf_assert(m.continuity_index_ == (last ? 0 : (x & 7)), "the continuity index is that of the message");
  vf_assert(m.is_complete_ == (last && rx[0]), "a message is complete with its last group");
}
extern "C" void h_single() {
  bool enc = vf_bool("enc"); Message m(enc);
  uint16_t x = vf_u16("x") & 31, y = vf_u16("y"), z = vf_u16("z");
  m.pushSingle(x, y, z);
  Event e = stub_event(y & 0x7FF);
  vf_assert(m.is_complete_ && m.events_.size() == 1 && m.events_[0] == (y & 0x7FF) && m.supplementary_.size() == 0, "a single-group message has one event");
  vf_assert((enc ? m.encrypted_location_ : m.location_) == z && m.extent_ == ((y >> 11) & 7) && (m.direction_ == Direction::Negative) == ((y >> 14) & 1) && m.duration_ == (x & 7) && m.diversion_advised_ == (y >> 15), "location, extent, direction, duration and diversion are those received");
  vf_assert(m.directionality_ == e.directionality && m.urgency_ == e.urgency && m.duration_type_ == e.duration_type, "directionality, urgency and duration type are those of the event");
  vf_assert(!m.has_speed_limit_ && !m.has_time_starts_ && !m.has_time_until_ && !m.has_length_affected_, "nothing else is claimed");
}
extern "C" void h_decrypt() {
  bool enc = vf_bool("enc"); Message m(enc);
  uint16_t z = vf_u16("z"), l = vf_u16("l"); m.encrypted_location_ = z; m.location_ = l;
  ServiceKey k; k.xorval = static_cast<uint8_t>(vf_nd(8, "xv")); k.xorstart = static_cast<uint8_t>(vf_below(16, "xs")); k.nrot = static_cast<uint8_t>(vf_nd(8, "nr"));
  m.decrypt(k);
  vf_assert(!m.is_encrypted_ && m.was_encrypted_ == enc, "a decrypted message is known as such");
  vf_assert(m.location_ == (enc ? spec_decrypt(z, k.xorval, k.xorstart, k.nrot) : l), "the location is decrypted with the key of the service");
}
#endif
#endif  // SEC_ASM

// ---------------------------------------------------------------- the service
#ifdef SEC_SVC
#ifdef VF_MODEL
static unsigned g_npush, g_njson, g_ndecr, g_nloc, g_order; static uint16_t g_px, g_py, g_pz; static const Message* g_pobj; static const Message* g_jobj; static bool g_psingle, g_pfresh, g_penc, g_completes, g_jenc; static uint8_t g_kv, g_ks, g_kn; static uint16_t g_locltn;
static inline bool is_fresh(const Message* m) {
  bool r = !m->is_complete_ && m->events_.size() == 0 && m->supplementary_.size() == 0 && m->diversion_.size() == 0 && !m->has_speed_limit_ && !m->has_time_starts_ && !m->has_time_until_ && m->extent_ == 0;
  for (unsigned i = 0; i < 5; i++) if (m->parts_[i].is_received) r = false;
  return r;
}
static inline void push(Message* m, uint16_t x, uint16_t y, uint16_t z, bool single) { g_npush++; g_px = x; g_py = y; g_pz = z; g_pobj = m; g_psingle = single; g_pfresh = is_fresh(m) && m->continuity_index_ == 0; g_penc = m->is_encrypted_ && m->was_encrypted_; }
extern "C" {
void tm_single(Message* m, uint16_t x, uint16_t y, uint16_t z) { push(m, x, y, z, true); m->is_complete_ = true; }
void tm_multi(Message* m, uint16_t x, uint16_t y, uint16_t z) { push(m, x, y, z, false); m->continuity_index_ = x & 7; m->is_complete_ = g_completes; }
void tm_decrypt(Message* m, const ServiceKey* k) { g_ndecr++; g_kv = k->xorval; g_ks = k->xorstart; g_kn = k->nrot; vf_assert(m == g_pobj && g_njson == 0, "a message is decrypted before it is given"); m->is_encrypted_ = false; }
nlohmann::ordered_json tm_json(const Message* m) { g_njson++; g_jobj = m; g_jenc = m->is_encrypted_; nlohmann::ordered_json j; j["mark"] = 77; return j; }
void tm_loc(const LocationDatabase*, uint16_t ltn, nlohmann::ordered_json*) { g_nloc++; g_locltn = ltn; }
}
struct SvcState { bool init, enc, hasenc; uint16_t ltn, sid, encid, ltcc, key; bool haskey; ServiceKey k; };
static inline SvcState any_svc(TMCService& s) {
  SvcState t; t.init = vf_bool("init"); t.enc = vf_bool("encr"); t.hasenc = vf_bool("hasenc"); t.ltn = static_cast<uint16_t>(vf_below(64, "ltn")); t.sid = static_cast<uint16_t>(vf_below(64, "sid")); t.encid = static_cast<uint16_t>(vf_below(32, "encid")); t.ltcc = static_cast<uint16_t>(vf_below(16, "ltcc"));
  t.haskey = vf_bool("haskey"); t.key = static_cast<uint16_t>(vf_below(32, "key")); t.k.xorval = static_cast<uint8_t>(vf_nd(8, "xv")); t.k.xorstart = static_cast<uint8_t>(vf_nd(8, "xs")); t.k.nrot = static_cast<uint8_t>(vf_nd(8, "nr"));
  s.is_initialized_ = t.init; s.is_encrypted_ = t.enc; s.has_encid_ = t.hasenc; s.ltn_ = t.ltn; s.sid_ = t.sid; s.encid_ = t.encid; s.ltcc_ = t.ltcc;
  s.service_key_table_.present_ = t.haskey; s.service_key_table_.nd_.first = t.key; s.service_key_table_.nd_.second = t.k;
  return t;
}
static inline bool same_svc(const TMCService& s, const SvcState& t) { return s.is_initialized_ == t.init && s.is_encrypted_ == t.enc && s.has_encid_ == t.hasenc && s.ltn_ == t.ltn && s.sid_ == t.sid && s.encid_ == t.encid && s.ltcc_ == t.ltcc; }
#define SCOPE(path, mgs) do { unsigned nsc = 0; const unsigned sm = (mgs); static const char* const sn[4] = {"inter-road", "national", "regional", "urban"}; \
  for (unsigned si = 0; si < 4; si++) if ((sm >> (3 - si)) & 1) { vf_assert(JLEN(d, path) > nsc && JSITEM(d, path, nsc) == sn[si], "the geographical scope is that received"); nsc++; } \
  vf_assert(JLEN(d, path) == nsc && JHAS(d, path) == (nsc > 0), "the geographical scope is that received"); } while (0)
extern "C" void h_system() {
  Options o; TMCService s(o); SvcState t = any_svc(s);
  uint16_t m = vf_u16("m");
  nlohmann::ordered_json root;
  s.receiveSystemGroup(m, &root);
  VfDoc d = doc_of(root);
  unsigned v = m >> 14, ltn = (m >> 6) & 63;
  vf_assert(JHAS(d, "tmc/system_info/is_encrypted") == (v == 0) && JHAS(d, "tmc/system_info/is_on_alt_freqs") == (v == 0) && JHAS(d, "tmc/system_info/location_table") == (v == 0 && ltn != 0), "variant 0 gives encryption, location table and frequencies");
  if (v == 0) { t.init = true; t.enc = ltn == 0; if (ltn) t.ltn = static_cast<uint16_t>(ltn); vf_assert(IS_BOOL("tmc/system_info/is_encrypted", ltn == 0) && IS_BOOL("tmc/system_info/is_on_alt_freqs", (m >> 5) & 1) && (ltn == 0 || IS_NUM("tmc/system_info/location_table", ltn)), "variant 0 gives what was received"); }
  SCOPE("tmc/system_info/scope", v == 0 ? (m & 15u) : 0u);
  vf_assert(JHAS(d, "tmc/system_info/service_id") == (v == 1) && JHAS(d, "tmc/system_info/gap") == (v == 1) && JHAS(d, "tmc/system_info/ltcc") == (v == 1 && (m & 15)), "variant 1 gives service, gap and country code");
  if (v == 1) { static const int gap[4] = {3, 5, 8, 11}; t.sid = (m >> 6) & 63; t.ltcc = m & 15; vf_assert(IS_NUM("tmc/system_info/service_id", t.sid) && IS_NUM("tmc/system_info/gap", gap[(m >> 12) & 3]) && (!t.ltcc || IS_NUM("tmc/system_info/ltcc", t.ltcc)), "variant 1 gives what was received"); }
  bool ecc = v == 2 && (m & 255);
  vf_assert(JHAS(d, "tmc/system_info/ltecc") == ecc && JHAS(d, "tmc/system_info/country") == (ecc && t.ltcc != 0), "variant 2 gives the country");
  if (ecc) vf_assert(IS_NUM("tmc/system_info/ltecc", m & 255) && (!t.ltcc || IS_STR("tmc/system_info/country", fixed_hex(static_cast<uint32_t>(t.ltcc << 8 | (m & 255)), 3))), "variant 2 gives what was received");
  vf_assert(same_svc(s, t), "exactly what was received changes");
}
extern "C" std::string tm_country(uint16_t cc, uint16_t ecc) { return fixed_hex(static_cast<uint32_t>(cc << 8 | ecc), 3); }
// kind: 0 administration, 1 tuning, 2 single, 3 multi
static inline void user(int kind) {
  Options o; TMCService s(o); SvcState t = any_svc(s);
  uint16_t x = vf_u16("x") & 31, y = vf_u16("y"), z = vf_u16("z");
  if (kind == 0) x = 0; else if (kind == 1) { vf_assume(x & 16); } else if (kind == 2) { x = static_cast<uint16_t>(8 | (x & 7)); } else { x &= 7; vf_assume(x != 0); }
  abs_init(); g_afn = g_afclr = 0; g_afcomplete = true; g_afl[0] = static_cast<int>(vf_nd(20, "f0")); g_afl[1] = static_cast<int>(vf_nd(20, "f1"));
  g_npush = g_njson = g_ndecr = g_nloc = 0; g_completes = vf_bool("completes"); g_pobj = g_jobj = nullptr;
  uint16_t ci = static_cast<uint16_t>(vf_below(8, "ci")); s.message_.continuity_index_ = ci; s.message_.parts_[0].is_received = vf_bool("p0"); s.message_.parts_[2].is_received = vf_bool("p2");
  bool menc = vf_bool("menc"); s.message_.is_encrypted_ = s.message_.was_encrypted_ = menc;
  bool p0 = s.message_.parts_[0].is_received, p2 = s.message_.parts_[2].is_received, fresh0 = ci == 0 && !p0 && !p2;
  nlohmann::ordered_json root;
  s.receiveUserGroup(x, y, z, &root);
  VfDoc d = doc_of(root);
  bool admin = t.init && x == 0, tuning = t.init && x >= 16, msg = t.init && x > 0 && x < 16 && (!t.enc || t.hasenc), single = msg && (x & 8);
  if (admin) { t.sid = (y >> 5) & 63; t.encid = y & 31; t.ltn = z >> 10; t.hasenc = true; }
  vf_assert(same_svc(s, t), "exactly what was received changes");
  vf_assert(JHAS(d, "tmc/system_info/encryption_id") == admin && JHAS(d, "tmc/system_info/service_id") == admin && JHAS(d, "tmc/system_info/location_table") == admin, "encryption administration gives service, encryption and location table");
  if (admin) vf_assert(IS_NUM("tmc/system_info/encryption_id", t.encid) && IS_NUM("tmc/system_info/service_id", t.sid) && IS_NUM("tmc/system_info/location_table", t.ltn), "encryption administration gives what was received");
  // tuning information
  unsigned v = tuning ? (x & 15u) : 99u;
  bool name = v == 4 || v == 5;
  vf_assert(g_nops == (name ? 4u : 0u), "the provider name changes exactly when its characters were received");
  if (name) vf_assert(is_set2(0, &s.ps_, 4 * (v - 4), y) && is_set2(2, &s.ps_, 4 * (v - 4) + 2, z), "characters go to their position in the provider name");
  vf_assert(JHAS(d, "tmc/service_provider") == (name && g_complete[4]) && (!JHAS(d, "tmc/service_provider") || IS_STR("tmc/service_provider", "LAST ")), "the provider name is given when complete");
  bool one8 = v == 8 && (y == 0 || z == 0 || y == z);
  vf_assert(JHAS(d, "tmc/other_network/pi") == (v == 6 || one8 || v == 9), "another network is given in variants 6, 8 and 9");
  if (v == 6 || v == 9) vf_assert(IS_STR("tmc/other_network/pi", spec_hex4(z)), "the other network is the one received");
  if (one8) vf_assert(IS_STR("tmc/other_network/pi", spec_hex4(y)), "the other network is the one received");
  vf_assert(JLEN(d, "tmc/other_network/pi_codes") == (v == 8 && !one8 ? 2u : 0u), "two other networks are listed");
  if (v == 8 && !one8) vf_assert(JSITEM(d, "tmc/other_network/pi_codes", 0) == spec_hex4(y) && JSITEM(d, "tmc/other_network/pi_codes", 1) == spec_hex4(z), "two other networks are listed");
  vf_assert(g_afn == (v == 6 ? 2u : 0u) && (v != 6 || (g_af[0] == y >> 8 && g_af[1] == (y & 255))), "frequencies are those received in variant 6");
  vf_assert(JLEN(d, "tmc/other_network/frequencies_khz") == (v == 6 ? 2u : 0u), "frequencies are given in variant 6");
  if (v == 6) vf_assert(JITEM(d, "tmc/other_network/frequencies_khz", 0) == g_afl[0] && JITEM(d, "tmc/other_network/frequencies_khz", 1) == g_afl[1] && !s.other_network_freqs_.present_, "frequencies are given once");
  vf_assert(JHAS(d, "tmc/other_network/service_id") == (v == 9) && JHAS(d, "tmc/other_network/location_table") == (v == 9), "service and location table of another network are in variant 9");
  if (v == 9) vf_assert(IS_NUM("tmc/other_network/service_id", y & 63) && IS_NUM("tmc/other_network/location_table", y >> 10), "service and location table of another network are those received");
  if (kind == 1) SCOPE("tmc/other_network/scope", v == 9 ? ((y >> 6) & 15u) : 0u);
  // messages
  vf_assert(g_npush == (msg ? 1u : 0u), "a message group is used exactly once");
  bool key = t.enc && t.haskey && t.key == t.encid, complete = msg && (single || g_completes);
  if (msg) {
    vf_assert(g_px == x && g_py == y && g_pz == z && g_psingle == single, "a message group is used as received");
    bool fresh = single || (x & 7) != ci;
    vf_assert((g_pobj == &s.message_) == !single, "a single-group message leaves a message in progress alone");
    vf_assert(g_pfresh == (fresh || fresh0) && (!fresh || g_penc == t.enc), "a group with a different continuity index starts a new message");
    vf_assert(g_ndecr == (complete && key ? 1u : 0u) && (g_ndecr == 0 || (g_kv == t.k.xorval && g_ks == t.k.xorstart && g_kn == t.k.nrot)), "an encrypted message is decrypted with the key of the encryption identifier");
  }
  vf_assert(JHAS(d, "tmc/message/mark") == complete && (!complete || (g_jobj == g_pobj && IS_NUM("tmc/message/mark", 77))), "a message is given exactly when complete");
  if (complete) vf_assert(g_nloc == 1 && g_locltn == t.ltn, "the location is looked up in the location table of the service");
  if (!msg || single) vf_assert(s.message_.continuity_index_ == ci && s.message_.parts_[0].is_received == p0 && s.message_.parts_[2].is_received == p2, "a message in progress is kept");
  else if (complete) vf_assert(is_fresh(&s.message_) && s.message_.continuity_index_ == 0 && s.message_.is_encrypted_ == t.enc, "after a complete message the next one starts afresh");
  vf_cover(kind == 0 ? admin : kind == 1 ? v == 9 : complete, "reached");
}
extern "C" void h_user_admin() { user(0); }
extern "C" void h_user_tuning() { user(1); }
extern "C" void h_user_single() { user(2); }
extern "C" void h_user_multi() { user(3); }
#endif
#endif  // SEC_SVC

// ---------------------------------------------------------------- texts of a message
static std::string spec_num2(int v) { std::string r; r.push_back(static_cast<char>('0' + v / 10)); r.push_back(static_cast<char>('0' + v % 10)); return r; }
static std::string spec_time(unsigned v) {
  if (v <= 95) return spec_num2(static_cast<int>(v / 4)) + ":" + spec_num2(static_cast<int>(v % 4 * 15));
  if (v <= 200) { unsigned k = (v - 96) / 24; std::string h = spec_num2(static_cast<int>((v - 96) % 24)) + ":00"; return k == 0 ? "at " + h : k == 1 ? "after 1 day at " + h : "after " + std::to_string(k) + " days at " + h; }
  if (v <= 231) return "day " + std::to_string(v - 200) + " of the month";
  static const char* mn[] = {"January", "February", "March", "April", "May", "June", "July", "August", "September", "October", "November", "December"};
  return std::string((v - 232) % 2 ? "end of " : "mid-") + mn[(v - 232) / 2];
}
static std::string spec_quant(unsigned t, unsigned q) {
  if (t <= 5 && q == 0) q = 32;
  auto S = [](int v) { return std::to_string(v); }; int i = static_cast<int>(q);
  switch (t) {
    case 0: return S(i <= 28 ? i : 28 + 2 * (i - 28));
    case 1: return S(i <= 4 ? i : i <= 14 ? (i - 4) * 10 : (i - 12) * 50);
    case 2: return "less than " + S(10 * i) + " metres";
    case 3: return S(i == 32 ? 0 : 5 * i) + " %";
    case 4: return "of up to " + S(5 * i) + " km/h";
    case 5: return i <= 10 ? "of up to " + S(5 * i) + " minutes" : i <= 22 ? "of up to " + S(i - 10) + " hours" : "of up to " + S((i - 20) * 6) + " hours";
    case 6: return S(i - 51) + " degrees Celsius";
    case 7: if (i < 1) return "?"; return spec_num2((i - 1) / 6) + ":" + spec_num2((i - 1) % 6 * 10);
    case 8: case 9: { int dd = i <= 100 ? i : 100 + 5 * (i - 100); return S(dd / 10) + "." + S(dd % 10) + (t == 8 ? " tonnes" : " metres"); }
    case 10: return "of up to " + S(i) + " millimetres";
    case 11: return q >= 1 && q <= 204 ? S((875 + i) / 10) + "." + S((875 + i) % 10) + " MHz" : std::string("N/A");
    default: return q >= 1 && q <= 135 ? S(q <= 15 ? 144 + 9 * i : 522 + 9 * (i - 15)) + " kHz" : std::string("N/A");
  }
}
static std::string cap1(std::string s) { if (!s.empty() && s[0] >= 'a' && s[0] <= 'z') s[0] = static_cast<char>(s[0] - 32); return s; }
#ifdef SEC_STR
#ifdef VF_MODEL
// every value that a field can have, one by one
static inline void times(unsigned from) {
  for (unsigned v = from; v < from + 32; v++) vf_assert(getTimeString(static_cast<uint16_t>(v)) == spec_time(v), "start and stop times are those received");
}
#define T(n) extern "C" void h_time_##n() { times(32 * n); }
static inline void quant(unsigned t, unsigned part) {
  Event e; e.description_with_quantifier = "a (Q) b"; e.quantifier_type = static_cast<QuantifierType>(t); e.allows_quantifier = true;
  vf_assert(getQuantifierSize(e.quantifier_type) == spec_qsize(t), "a quantifier has the width of its type");
  for (unsigned q = 64 * part; q < (t <= 5 ? 32u : 64 * part + 64); q++) { std::string x = spec_quant(t, q); if (x == "?") continue; vf_assert(getDescriptionWithQuantifier(e, static_cast<uint16_t>(q)) == "a " + x + " b", "events are described with their quantifiers"); }
}
#define Q1(t, p) extern "C" void h_quant_##t##_##p() { quant(t, p); }
#else
[[maybe_unused]] static void tmc_native();
#define T(n) extern "C" void h_time_##n() { tmc_native(); }
#define Q1(t, p) extern "C" void h_quant_##t##_##p() { tmc_native(); }
#endif
T(0) T(1) T(2) T(3) T(4) T(5) T(6) T(7)
#define Q(t) Q1(t, 0) Q1(t, 1) Q1(t, 2) Q1(t, 3)
Q1(0, 0) Q1(1, 0) Q1(2, 0) Q1(3, 0) Q1(4, 0) Q1(5, 0) Q(6) Q(7) Q(8) Q(9) Q(10) Q(11) Q(12)
#endif  // SEC_STR
#ifdef SEC_JS
#ifdef VF_MODEL
// which event codes are known: all, none, or (mixed) only the odd ones
static unsigned g_valid;
extern "C" bool js_valid(uint16_t c) { return g_valid == 0 ? false : g_valid == 1 ? true : c & 1; }
extern "C" Event js_event(uint16_t c) { Event e = stub_event(c); e.description = "e"; e.description.push_back(static_cast<char>('a' + (c >> 1 & 15))); return e; }
extern "C" std::string js_quant(const Event* e, uint16_t q) { std::string s(e->description); s.push_back('='); s.push_back(static_cast<char>('a' + (q & 15))); return s; }
extern "C" std::string js_time(uint16_t v) { std::string s("t"); s.push_back(static_cast<char>('a' + (v & 15))); return s; }
static inline void json_of(unsigned nev, unsigned nsup, unsigned nroute, unsigned valid, unsigned quants) {
  g_valid = valid; bool vs = nsup == 2; if (nsup) nsup = 1;
  Message m(vf_bool("wasenc"));
  bool dec = vf_bool("dec"), wasenc = m.was_encrypted_; if (dec) m.is_encrypted_ = false;
  bool enc = m.is_encrypted_;
  m.is_complete_ = vf_bool("complete"); m.encrypted_location_ = vf_u16("el"); m.location_ = vf_u16("loc");
  uint16_t ev[2], su = vf_u16("su"), ro = vf_u16("ro"); bool hasq[2]; uint16_t q[2];
  for (unsigned i = 0; i < 2; i++) { ev[i] = vf_u16("ev"); q[i] = vf_u16("q"); hasq[i] = i < nev && (quants >> i & 1); if (valid == 2) ev[i] = static_cast<uint16_t>(i + 100); if (i < nev) m.events_.push_back(ev[i]); if (hasq[i]) m.quantifiers_.insert({i, q[i]}); }
  if (vs) su = 1234;
  if (nsup && vs) g_supplementary_data.insert({su, "s"});
  if (nsup) m.supplementary_.push_back(su);
  if (nroute) m.diversion_.push_back(ro);
  m.has_speed_limit_ = vf_bool("hs"); m.speed_limit_ = static_cast<uint16_t>(5 * vf_below(32, "speed"));
  m.has_time_starts_ = vf_bool("h1"); m.time_starts_ = vf_u8("t1"); m.has_time_until_ = vf_bool("h2"); m.time_until_ = vf_u8("t2");
  m.direction_ = vf_bool("neg") ? Direction::Negative : Direction::Positive; m.extent_ = static_cast<uint16_t>(vf_below(32, "extent"));
  m.directionality_ = vf_bool("both") ? EventDirectionality::Both : EventDirectionality::Single;
  unsigned urg = vf_below(3, "urg"); m.urgency_ = static_cast<EventUrgency>(urg);
  nlohmann::ordered_json j = m.json();
  VfDoc d = doc_of(j);
  if (!m.is_complete_) { vf_assert(j.empty(), "a message is given exactly when complete"); return; }
  vf_assert(JLEN(d, "event_codes") == nev, "every event is listed once");
  for (unsigned i = 0; i < nev; i++) vf_assert(JITEM(d, "event_codes", i) == ev[i], "every event is listed once");
  vf_assert(JLEN(d, "supplementary_codes") == nsup && (!nsup || JITEM(d, "supplementary_codes", 0) == su) && JLEN(d, "diversion_route") == nroute && (!nroute || JITEM(d, "diversion_route", 0) == ro), "supplementary and diversion codes are listed");
  std::string text; bool any = false;
  for (unsigned i = 0; i < nev; i++) if (js_valid(ev[i])) {
    if (any) text += ". "; any = true;
    text.push_back('E'); text.push_back(static_cast<char>('a' + (ev[i] >> 1 & 15)));
    if (hasq[i]) { text.push_back('='); text.push_back(static_cast<char>('a' + (q[i] & 15))); }
  }
  if (nsup && vs) { if (any) text += ". "; any = true; text.push_back('S'); }
  text.push_back('.');
  vf_assert(JHAS(d, "description") == any && (!any || IS_STR("description", text)), "events are described with their quantifiers");
  vf_assert(JHAS(d, "update_class") == js_valid(ev[0]) && (!js_valid(ev[0]) || IS_NUM("update_class", ev[0] % 31)), "the update class is that of the first event");
  vf_assert(JHAS(d, "speed_limit") == m.has_speed_limit_ && (!m.has_speed_limit_ || IS_STR("speed_limit", std::to_string(m.speed_limit_) + " km/h")), "the speed limit is the one received");
  vf_assert(JHAS(d, "encrypted_location") == wasenc && (!wasenc || IS_NUM("encrypted_location", m.encrypted_location_)), "direction, extent and location are those of the first group and the control codes");
  vf_assert(JHAS(d, "location") == !enc && (enc || IS_NUM("location", m.location_)), "direction, extent and location are those of the first group and the control codes");
  vf_assert(IS_STR("direction", m.directionality_ == EventDirectionality::Both ? "both" : "single"), "directionality, urgency and duration type are those of the event and the control codes");
  vf_assert(IS_STR("extent", (m.direction_ == Direction::Negative ? "-" : "+") + std::to_string(m.extent_)), "direction, extent and location are those of the first group and the control codes");
  vf_assert(IS_STR("urgency", urg == 0 ? "none" : urg == 1 ? "U" : "X"), "directionality, urgency and duration type are those of the event and the control codes");
  vf_assert(JHAS(d, "starts") == m.has_time_starts_ && (!m.has_time_starts_ || IS_STR("starts", js_time(m.time_starts_))) && JHAS(d, "until") == m.has_time_until_ && (!m.has_time_until_ || IS_STR("until", js_time(m.time_until_))), "start and stop times are those received");
  vf_cover(wasenc && !enc, "reached");
}
#define JS(n, a, b, c, v, q) extern "C" void h_json_##n() { json_of(a, b, c, v, q); }
#else
[[maybe_unused]] static void tmc_native();
#define JS(n, a, b, c, v, q) extern "C" void h_json_##n() { tmc_native(); }
#endif
JS(0, 1, 0, 0, 0, 0) JS(1, 1, 0, 0, 1, 0) JS(2, 1, 0, 0, 1, 1) JS(3, 1, 1, 1, 1, 0) JS(4, 1, 2, 0, 1, 1) JS(5, 1, 2, 1, 0, 0) JS(6, 2, 0, 0, 1, 2) JS(7, 2, 0, 0, 2, 2) JS(8, 2, 2, 1, 1, 1)
#endif  // SEC_JS

// ---------------------------------------------------------------- end to end (native)
#ifndef VF_MODEL
struct NatSvc { bool init = false, enc = false, hasenc = false; uint16_t encid = 0, ltn = 0, ci = 0; bool rx[5] = {}; uint16_t y[5], z[5]; bool menc = false;
  void fresh() { ci = 0; for (bool& b : rx) b = false; menc = enc; } };
static void check_message(const nlohmann::ordered_json& root, const SpecMsg& w, bool enc, bool key, const ServiceKey& k) {
  using J = nlohmann::ordered_json;
  vf_assert(root.contains("tmc") && root["tmc"].contains("message"), "a message is given exactly when complete");
  if (!(root.contains("tmc") && root["tmc"].contains("message"))) return;
  const J& m = root["tmc"]["message"];
  auto list = [&](const char* n, const uint16_t* a, unsigned c, const char* what) { J e = J::array(); for (unsigned i = 0; i < c; i++) e.push_back(a[i]); vf_assert(c ? m.contains(n) && m[n] == e : !m.contains(n), what); };
  list("event_codes", w.ev, w.nev, "every event is listed once"); list("supplementary_codes", w.sup, w.nsup, "supplementary and diversion codes are listed"); list("diversion_route", w.route, w.nroute, "supplementary and diversion codes are listed");
  auto is = [&](const char* n, bool has, const J& v, const char* what) { vf_assert(m.contains(n) == has && (!has || m[n] == v), what); };
  is("speed_limit", w.has_speed, std::to_string(w.speed) + " km/h", "the speed limit is the one received");
  is("encrypted_location", enc, w.loc, "direction, extent and location are those of the first group and the control codes");
  is("location", !enc || key, enc ? spec_decrypt(w.loc, k.xorval, k.xorstart, k.nrot) : w.loc, "the location is decrypted with the key of the service");
  is("direction", true, w.both ? "both" : "single", "directionality, urgency and duration type are those of the event and the control codes");
  is("extent", true, (w.neg ? "-" : "+") + std::to_string(w.extent), "direction, extent and location are those of the first group and the control codes");
  is("urgency", true, w.urg == 0 ? "none" : w.urg == 1 ? "U" : "X", "directionality, urgency and duration type are those of the event and the control codes");
  is("starts", w.has_start, w.has_start ? spec_time(w.start) : "", "start and stop times are those received"); is("until", w.has_until, w.has_until ? spec_time(w.until) : "", "start and stop times are those received");
  std::string text; bool sure = true;
  auto valid = [](uint16_t c) { return !getEvent(c).description.empty() || !getEvent(c).description_with_quantifier.empty(); };
  auto say = [&](std::string s) { if (!text.empty()) text += ". "; text += cap1(s); };
  for (unsigned i = 0; i < w.nev; i++) if (valid(w.ev[i])) {
    Event e = getEvent(w.ev[i]); std::string s = e.description;
    if (w.hasq[i]) { s = e.description_with_quantifier; std::string q = spec_quant(static_cast<unsigned>(e.quantifier_type), w.q[i]); if (q == "?") sure = false; for (size_t p; (p = s.find("(Q)")) != std::string::npos;) s.replace(p, 3, q); }
    say(s);
  }
  for (unsigned i = 0; i < w.nsup; i++) { auto it = g_supplementary_data.find(w.sup[i]); if (it != g_supplementary_data.end()) say(it->second); }
  (void)sure; if (sure) is("description", !text.empty(), text + ".", "events are described with their quantifiers");
  is("update_class", valid(w.ev[0]), getEvent(w.ev[0]).update_class, "the update class is that of the first event");
}
[[maybe_unused]] static void tmc_native() {
  Options o; TMCService s(o);
  ServiceKey k; k.xorval = static_cast<uint8_t>(vf_nd(8, "xv")); k.xorstart = static_cast<uint8_t>(vf_below(9, "xs")); k.nrot = static_cast<uint8_t>(vf_below(16, "nr"));
  s.service_key_table_.clear(); s.service_key_table_.insert({5, k});
  NatSvc n; uint16_t ltcc = 0;
  unsigned steps = 1 + vf_below(24, "steps");
  unsigned gi = 0, gn = 0; uint16_t gci = 0; bool plan = false;
  for (unsigned st = 0; st < steps; st++) {
    nlohmann::ordered_json root;
    unsigned kind = st == 0 ? 0 : vf_below(16, "kind");
    if (kind == 0) {
      uint16_t m = vf_u16("m"); if (st == 0) m &= 0x3FFF; if (vf_bool("clear")) m = static_cast<uint16_t>(m & ~0xFC0u) | 0x40; else if (vf_bool("encr")) m &= static_cast<uint16_t>(~0xFC0u);
      s.receiveSystemGroup(m, &root);
      VfDoc d = doc_of(root); unsigned v = m >> 14, ltn = (m >> 6) & 63;
      if (v == 0) { n.init = true; n.enc = ltn == 0; if (ltn) n.ltn = static_cast<uint16_t>(ltn); }
      using J = nlohmann::ordered_json; J e;
      if (v == 0) { e["is_encrypted"] = ltn == 0; if (ltn) e["location_table"] = ltn; e["is_on_alt_freqs"] = static_cast<bool>((m >> 5) & 1); static const char* sn[] = {"inter-road", "national", "regional", "urban"}; for (int i = 0; i < 4; i++) if ((m >> (3 - i)) & 1) e["scope"].push_back(sn[i]); }
      if (v == 1) { static const int gap[] = {3, 5, 8, 11}; e["service_id"] = (m >> 6) & 63; e["gap"] = gap[(m >> 12) & 3]; ltcc = m & 15; if (ltcc) e["ltcc"] = ltcc; }
      if (v == 2 && (m & 255)) { e["ltecc"] = m & 255; if (ltcc) e["country"] = getCountryString(ltcc, m & 255); }
      vf_assert(e.is_null() ? !root.contains("tmc") : root.contains("tmc") && root["tmc"]["system_info"] == e, "system information gives what was received");
      continue;
    }
    uint16_t x, y, z;
    if (kind == 1) { x = 0; y = static_cast<uint16_t>((vf_u16("y") & ~31u) | (vf_bool("k5") ? 5 : vf_below(32, "k"))); z = vf_u16("z"); }
    else if (kind == 2) { x = static_cast<uint16_t>(16 | (vf_bool("var") ? 4 + vf_below(6, "v") : vf_below(16, "v2"))); y = vf_u16("y"); z = vf_bool("same") ? y : vf_u16("z"); }
    else if (kind <= 5) { x = static_cast<uint16_t>(8 | vf_below(8, "d")); y = vf_u16("y"); z = vf_u16("z"); }
    else {
      if (!plan) { plan = true; gi = 0; gn = 2 + vf_below(4, "n"); gci = static_cast<uint16_t>(1 + vf_below(6, "ci")); }
      x = gci; y = vf_u16("y"); z = vf_u16("z");
      if (vf_bool("sparse")) { y &= static_cast<uint16_t>(vf_u16("ym")); z &= vf_u16("zm"); }
      if (gi == 0) y |= 0x8000; else { unsigned gsi = gn - 1 - gi; y = static_cast<uint16_t>((y & 0x0FFF) | (gi == 1 ? 0x4000 : 0) | gsi << 12); }
      gi++; if (gi == gn) plan = false;
      if (vf_below(16, "lose") == 0) continue;
      if (vf_below(32, "alter") == 0) { x = static_cast<uint16_t>(1 + vf_below(7, "oci")); plan = false; }
    }
    s.receiveUserGroup(x, y, z, &root);
    bool want = false; SpecMsg w; bool menc = n.enc;
    if (n.init && x == 0) {
      n.encid = y & 31; n.hasenc = true; n.ltn = z >> 10;
      nlohmann::ordered_json e; e["service_id"] = (y >> 5) & 63; e["encryption_id"] = y & 31; e["location_table"] = z >> 10;
      vf_assert(root.contains("tmc") && root["tmc"]["system_info"] == e, "encryption administration gives what was received");
    } else if (n.init && x >= 16) {
      unsigned v = x & 15; nlohmann::ordered_json e; static const char* sn[] = {"inter-road", "national", "regional", "urban"};
      if (v == 9) { e["pi"] = spec_hex4(z); e["service_id"] = y & 63; e["location_table"] = y >> 10; for (int i = 0; i < 4; i++) if ((y >> (9 - i)) & 1) e["scope"].push_back(sn[i]); }
      if (v == 8) { if (y == 0 || z == 0 || y == z) e["pi"] = spec_hex4(y); else { e["pi_codes"].push_back(spec_hex4(y)); e["pi_codes"].push_back(spec_hex4(z)); } }
      if (v == 8 || v == 9) vf_assert(root.contains("tmc") && root["tmc"]["other_network"] == e, "other networks are those received");
    } else if (n.init && (!n.enc || n.hasenc)) {
      if (x & 8) { want = true; w.first(y, z); w.div = y >> 15; }
      else {
        if ((x & 7) != n.ci) n.fresh();
        n.ci = x & 7; menc = n.menc;
        unsigned gsi = (y >> 12) & 3; bool fg = y >> 15; unsigned at = fg ? 0 : ((y >> 14) & 1) ? 1 : 4 - gsi;
        n.rx[at] = true; n.y[at] = y; n.z[at] = z;
        if (!fg && gsi == 0) {
          want = n.rx[0];
          if (want) {
            w.first(n.y[0], n.z[0]);
            if (n.rx[1]) {
              unsigned g2 = (n.y[1] >> 12) & 3; uint16_t fy[4], fz[4]; unsigned c = 0;
              for (unsigned i = 1; i < 5; i++) { if (i > 1 && i < 5 - g2) continue; if (!n.rx[i]) break; fy[c] = n.y[i]; fz[c] = n.z[i]; c++; }
              SpecFields f = spec_fields(fy, fz, c);
              for (unsigned i = 0; i < f.n; i++) w.field(f.label[i], f.data[i]);
            }
          }
          bool e = n.menc; n.fresh(); if (!want) n.menc = e;
        }
      }
    }
    if (want) check_message(root, w, menc, n.enc && n.encid == 5, k);
    else vf_assert(!root.contains("tmc") || !root["tmc"].contains("message"), "a message is given exactly when complete");
  }
}
#ifdef SEC_MSG
extern "C" void h_msg_first() { tmc_native(); }
#define M1(a) extern "C" void h_msg_##a() { tmc_native(); }
M1(0) M1(1) M1(2) M1(3) M1(4) M1(5) M1(6) M1(7) M1(8) M1(9) M1(10) M1(11) M1(13) M1(14)
#define M2(a, b) extern "C" void h_msg_##a##_##b() { tmc_native(); }
M2(9, 4) M2(9, 5) M2(4, 4) M2(5, 5) M2(4, 5) M2(6, 6) M2(10, 10) M2(1, 1) M2(9, 9) M2(9, 1)
#endif
#ifdef SEC_ASM
extern "C" void h_multi() { tmc_native(); }
extern "C" void h_single() { tmc_native(); }
extern "C" void h_decrypt() { tmc_native(); }
#endif
#ifdef SEC_SVC
extern "C" void h_system() { tmc_native(); }
extern "C" void h_user_admin() { tmc_native(); }
extern "C" void h_user_tuning() { tmc_native(); }
extern "C" void h_user_single() { tmc_native(); }
extern "C" void h_user_multi() { tmc_native(); }
#endif
#endif
