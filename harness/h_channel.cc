// Contracts of Channel: confirmation of the PI, block error rate, reception times, dispatch of groups.
#include "vf_station.h"
#include "src/channel.hh"
#include "src/io/output.hh"

// Confirmation of PI codes, independent of the code: the last code and for how many groups in a
// row it was received (1, or 2 and more), and the confirmed code (0: none).
struct SpecPI {
  uint16_t last = 0, conf = 0; unsigned run = 0; bool change = false;
  void rx(uint16_t x) {
    change = false;
    if (run > 0 && x == last) { if (run >= 2) { change = conf != x; conf = x; } run = 2; }
    else { if (run > 0 && last != conf && x != conf) conf = 0; run = 1; last = x; }
  }
};
static inline bool pi_inv(const CachedPI& c) {
  if (c.pi_prev1_ == 0) return c.pi_prev2_ == 0 && c.pi_confirmed_ == 0 && !c.has_previous_;
  if (!c.has_previous_) return c.pi_prev2_ == 0 && c.pi_confirmed_ == 0;
  return true;
}
static inline SpecPI pi_abs(const CachedPI& c) {
  SpecPI s; s.last = c.pi_prev1_; s.conf = c.pi_confirmed_;
  s.run = c.pi_prev1_ == 0 ? 0 : (c.has_previous_ && c.pi_prev1_ == c.pi_prev2_) ? 2 : 1;
  return s;
}
static inline void any_pi(CachedPI& c) {
  static const uint32_t likely[] = {0x1234, 0x5678};
  c.pi_prev1_ = static_cast<uint16_t>(vf_nd_pick(16, "p1", likely, 2)); c.pi_prev2_ = static_cast<uint16_t>(vf_nd_pick(16, "p2", likely, 2)); c.pi_confirmed_ = static_cast<uint16_t>(vf_nd_pick(16, "conf", likely, 2)); c.has_previous_ = vf_bool("prev");
#ifndef VF_MODEL
  if (vf_bool("same")) c.pi_prev2_ = c.pi_prev1_;
#endif
  vf_assume(pi_inv(c));
}
static inline uint16_t any_rx() { static const uint32_t likely[] = {0x1234, 0x5678}; uint16_t x = static_cast<uint16_t>(vf_nd_pick(16, "pi", likely, 2)); vf_assume(x != 0); return x; }
extern "C" void h_pi_update() {
  CachedPI c;
  vf_assert(pi_inv(c) && pi_abs(c).run == 0 && pi_abs(c).conf == 0, "at first no PI is known");
  any_pi(c);
  SpecPI s = pi_abs(c);
  uint16_t x = any_rx();
  auto r = c.update(x);
  s.rx(x);
  vf_assert((r == CachedPI::Result::ChangeConfirmed) == s.change, "a PI is confirmed exactly when received in three groups in a row and not the current one");
  if (s.change) vf_assert(c.get() == x, "the confirmed PI is the one received");
  vf_assert(pi_inv(c), "PI history is consistent");
  SpecPI t = pi_abs(c);
  vf_assert(t.last == s.last && t.run == s.run && t.conf == s.conf, "PI history follows the groups received");
  vf_cover(s.change, "change"); vf_cover(s.conf == 0, "dropped");
  c.reset();
  vf_assert(pi_inv(c) && pi_abs(c).run == 0 && pi_abs(c).conf == 0, "after a reset no PI is known");
}

// --- Channel::processGroup
static unsigned g_n; static Group* g_group; static uint16_t g_pi; static bool g_haspi; static int64_t g_now; static unsigned g_nows;
extern "C" {
#ifdef VF_MODEL
void ch_update(Station* s, const Group* g, std::ostream*) { g_n++; *g_group = *g; g_pi = s->pi_; g_haspi = s->has_pi_; }
int64_t ch_now() { g_nows++; return g_now; }
void ch_print(const Group* g, const Options*, std::ostream*) { g_n += 100; *g_group = *g; }
#else
void ch_update() {} void ch_now() {} void ch_print() {}
#endif
}
typedef std::chrono::system_clock::time_point TP;
static inline TP tp(int64_t ns) { return TP(std::chrono::nanoseconds(ns)); }
// Something received earlier, as a marker
static inline void mark(Station& st) { st.pin_ = 7; st.last_group_had_pi_ = true; st.tmc_id_ = 9; st.ps_.text.sequential_length_ = 8; st.ps_.text.data_[0] = 'X'; st.radiotext_.text.sequential_length_ = 3; st.radiotext_.ab = 1; st.ptyname_.ab = 1; st.clock_time_ = "T"; st.oda_app_for_group_[GroupType(22)] = 0x4BD7; st.alt_freq_list_.num_expected_ = 4; st.long_ps_.text.sequential_length_ = 2; }
static inline bool marked(const Station& st) { return st.pin_ == 7 && st.last_group_had_pi_ && st.tmc_id_ == 9 && st.ps_.text.sequential_length_ == 8 && st.ps_.text.data_[0] == 'X' && st.radiotext_.text.sequential_length_ == 3 && st.radiotext_.ab == 1 && st.ptyname_.ab == 1 && st.clock_time_ == "T" && st.oda_app_for_group_.size() == 1 && st.alt_freq_list_.num_expected_ == 4 && st.long_ps_.text.sequential_length_ == 2; }
static inline bool fresh(const Station& st) { return st.pin_ == 0 && st.tmc_id_ == 0 && st.ps_.text.sequential_length_ == 0 && st.ps_.text.data_[0] != 'X' && st.radiotext_.text.sequential_length_ == 0 && st.radiotext_.ab == 0 && st.ptyname_.ab == 0 && st.clock_time_.empty() && st.oda_app_for_group_.size() == 0 && st.alt_freq_list_.num_expected_ == 0 && st.long_ps_.text.sequential_length_ == 0; }

extern "C" void h_channel_pi() {
  Options o;
  std::stringstream out;
  int which = static_cast<int>(vf_nd(2, "which"));
  Channel ch(o, which, out);
  vf_assert(!ch.station_.has_pi_ && pi_inv(ch.cached_pi_) && pi_abs(ch.cached_pi_).run == 0, "a channel starts without a station");
  any_pi(ch.cached_pi_);
  uint16_t spi = vf_u16("station"); bool shas = vf_bool("has_station");
  ch.station_.pi_ = spi; ch.station_.has_pi_ = shas;
  mark(ch.station_);
  VfBlocks b = vf_blocks();
  b.no_offsets = vf_bool("hex"); 
  uint16_t x = any_rx();
  b.data[0] = x;
  if (!b.has[0]) b.data[2] = x;
  size_t stream = vf_nd(2, "stream") & 3;
  bool haspi = stream == 0 && (b.has[0] || (b.has[2] && b.cprime && !b.no_offsets));
  SpecPI s = pi_abs(ch.cached_pi_), s0 = s;
  if (haspi) s.rx(x);
#ifdef VF_MODEL
  Group seen; g_group = &seen; g_n = 0; g_nows = 0;
#endif
  ch.processGroup(vf_make_group(b), stream);
  SpecPI t = pi_abs(ch.cached_pi_);
  vf_assert(t.last == s.last && t.run == s.run && t.conf == s.conf, "the PI counts exactly when it was received on the main stream");
  bool change = haspi && s.change;
  if (change) {
    vf_assert(ch.station_.has_pi_ && ch.station_.pi_ == x && ch.station_.which_channel_ == which, "a confirmed PI makes a new station");
#ifndef VF_MODEL
    if (!b.has[1])   // else the group at hand has already been decoded
#endif
    vf_assert(fresh(ch.station_), "a new station knows nothing of the old one");
  } else {
    vf_assert(ch.station_.has_pi_ == shas && ch.station_.pi_ == spi, "otherwise the station stays");
#ifdef VF_MODEL
    vf_assert(marked(ch.station_), "otherwise nothing received is forgotten");
#endif
  }
#ifdef VF_MODEL
  vf_assert(g_n == 1 && g_pi == ch.station_.pi_ && g_haspi == ch.station_.has_pi_, "every group is decoded once, by the current station");
  vf_assert(seen.getDataStream() == stream && (seen.getType().version == GroupType::Version::C) == (stream != 0), "groups of the higher streams are type C groups of their stream");
  unsigned i = vf_below(4, "i");
  vf_assert(seen.has(static_cast<eBlockNumber>(i)) == b.has[i] && (!b.has[i] || seen.get(static_cast<eBlockNumber>(i)) == b.data[i]), "groups are decoded as received");
#endif
  (void)s0;
  vf_cover(change, "change");
  vf_cover(!change && haspi, "no change");
}
extern "C" void h_channel_reset() {
  Options o; std::stringstream out;
  Channel ch(o, 0, out);
  any_pi(ch.cached_pi_);
  ch.resetPI();
  vf_assert(pi_inv(ch.cached_pi_) && pi_abs(ch.cached_pi_).run == 0 && pi_abs(ch.cached_pi_).conf == 0, "after a reset of the PI it has to be confirmed again");
}

// --- block error rate
extern "C" void h_bler() {
  Options o; o.bler = vf_bool("bler");
  std::stringstream out;
  Channel ch(o, 0, out);
  auto& av = ch.bler_average_;
  unsigned e[12], sum = 0;
  for (int i = 0; i < 12; i++) vf_assert(av.history_[i] == 0.f, "at first there are no errors");
  vf_assert(av.sum_ == 0.f && av.ptr_ < 12, "at first there are no errors (sum)");
  for (int i = 0; i < 12; i++) { e[i] = vf_below(5, "errors"); av.history_[i] = static_cast<float>(e[i]) * 0.25f; sum += e[i]; }
  av.sum_ = static_cast<float>(sum) * 0.25f;
  size_t p = vf_below(12, "ptr"); av.ptr_ = p;
  VfBlocks b = vf_blocks();
  b.data[0] = 0x1234; b.data[2] = 0x1234;
  ch.station_.pi_ = 0x1234; ch.station_.has_pi_ = true; ch.station_.last_group_had_pi_ = true;
  unsigned n = 0;
  for (int i = 0; i < 4; i++) n += !b.has[i] || b.err[i];
#ifdef VF_MODEL
  Group seen; g_group = &seen; g_n = 0;
#endif
  ch.processGroup(vf_make_group(b), 0);
  if (o.bler) { sum += n; for (size_t i = 0; i < 12; i++) if (i == p) { sum -= e[i]; e[i] = n; } }
  for (int i = 0; i < 12; i++) vf_assert(av.history_[i] == static_cast<float>(e[i]) * 0.25f, "the errors of the last twelve groups are kept");
  vf_assert(av.sum_ == static_cast<float>(sum) * 0.25f && av.ptr_ == (o.bler ? (p + 1) % 12 : p), "the average covers the last twelve groups");
  // 25 * sum / 12 percent
#ifdef VF_MODEL
  vf_assert(g_n == 1 && seen.hasBLER() == o.bler, "the error rate is given on request");
  if (o.bler) { float v = seen.getBLER(); float w = 100.f * (static_cast<float>(sum) * 0.25f / 12.f); vf_assert(v == w, "the error rate is the percentage of bad blocks in the last twelve groups"); }
#else
  VfDocs docs(out.str());
  if (docs.n == 1) { VfDoc d = docs.doc(0); vf_assert(JHAS(d, "bler") == o.bler, "the error rate is given on request"); if (o.bler) vf_assert(JNUM(d, "bler") == (50 * static_cast<long>(sum) + 12) / 24, "the error rate is the percentage of bad blocks in the last twelve groups"); }
#endif
  vf_cover(o.bler && sum > 3, "errors");
}
// the printed figure: every possible count
extern "C" void h_bler_print() {
  Options o;
  Station st(o, 0, 0x1234); st.last_group_had_pi_ = true;
  unsigned sum = vf_below(49, "sum");
  bool has = vf_bool("has_bler");
  Group g;
  Block blk; blk.is_received = true; blk.data = 0x1234;
  g.setBlock(BLOCK1, blk);
  if (has) g.setAverageBLER(100.f * (static_cast<float>(sum) * 0.25f / 12.f));
  std::stringstream out;
  st.updateAndPrint(g, out);
  VfDocs docs(out.str());
  vf_assert(docs.wellformed && docs.n == 1, "one line");
  VfDoc d = docs.doc(0);
  vf_assert(JHAS(d, "bler") == has, "bler is given when measured");
  if (has) vf_assert(JNUM(d, "bler") == (50 * static_cast<long>(sum) + 12) / 24, "bler is the percentage rounded to an integer");
}

// --- reception times
extern "C" void h_time_group() {
  Options o; o.timestamp = vf_bool("timestamp");
  std::stringstream out;
  Channel ch(o, 0, out);
  int64_t last = static_cast<int64_t>(vf_nd(62, "last"));
  ch.last_group_rx_time_ = tp(last);
  bool has = vf_bool("has_time"); int64_t own = static_cast<int64_t>(vf_nd(62, "own"));
  VfBlocks b; for (int i = 0; i < 4; i++) { b.has[i] = true; b.data[i] = 0; b.err[i] = false; } b.cprime = false; b.no_offsets = true; b.data[0] = 0x1234;
  Group g = vf_make_group(b);
  if (has) g.setTime(tp(own));
#ifdef VF_MODEL
  Group seen; g_group = &seen; g_n = 0; g_nows = 0; g_now = static_cast<int64_t>(vf_nd(62, "now"));
  ch.processGroup(g, 0);
  vf_assert(g_n == 1, "every group is printed once");
  bool stamped = o.timestamp && !has;
  vf_assert(seen.hasTime() == (has || stamped), "a group gets a reception time on request");
  if (has) vf_assert(seen.getRxTime() == tp(own), "a known reception time is kept");
  else if (stamped) vf_assert(seen.getRxTime() == tp(g_now < last ? last : g_now), "the reception time is the present, but never earlier than that of the previous group");
  vf_assert(ch.last_group_rx_time_ == (stamped ? seen.getRxTime() : tp(last)), "the latest reception time is remembered");
#else
  auto n0 = std::chrono::system_clock::now();
  ch.processGroup(g, 0);
  auto n1 = std::chrono::system_clock::now();
  if (o.timestamp && !has) {
    auto l = ch.last_group_rx_time_;
    vf_assert(l >= tp(last) && (n0 < tp(last) || l >= n0) && (l <= n1 || l == tp(last)), "the reception time is the present, but never earlier than that of the previous group");
  } else vf_assert(ch.last_group_rx_time_ == tp(last), "the latest reception time is remembered");
#endif
}
// Groups found in a buffer of bits
#ifdef VF_MODEL
static unsigned g_bits, g_at, g_pg; static bool g_sawbit[80]; static int64_t g_rx; static bool g_rdy;
extern "C" {
void ch_push(BlockStream*, bool b) { g_rdy = g_bits == g_at; if (g_bits < 80) g_sawbit[g_bits] = b; g_bits++; }
bool ch_ready(const BlockStream*) { return g_rdy; }
Group ch_pop(BlockStream*) { vf_assert(g_rdy, "a group is taken when ready"); g_rdy = false; return Group(); }
void ch_process(Channel*, Group* g, size_t stream) { g_pg++; g_rx = g->getRxTime().time_since_epoch().count(); vf_assert(g->hasTime(), "a group from a signal has a reception time"); (void)stream; }
}
#else
extern "C" { void ch_push() {} void ch_ready() {} void ch_pop() {} void ch_process() {} }
#endif
static inline void time_bits(Channel& ch, size_t n, size_t at) {
  int64_t last = static_cast<int64_t>(vf_nd(60, "last")), rx = static_cast<int64_t>(vf_nd(60, "received")) + 1000000000;
#ifndef VF_MODEL
  if (vf_bool("near")) last = rx - static_cast<int64_t>(vf_below(100000000, "d"));
#endif
  ch.last_group_rx_time_ = tp(last);
  BitBuffer buf; buf.time_received = tp(rx);
  
#ifdef VF_MODEL
  const size_t stream = n & 3;
  for (size_t i = 0; i < 80; i++) buf.bits[stream].u_->buf[i] = vf_bool("bit");
  buf.bits[stream].n_ = n;
  g_bits = 0; g_pg = 0; g_rdy = false; g_at = static_cast<unsigned>(at);
  ch.processBits(buf, stream);
  vf_assert(g_bits == n, "every bit is used once");
  size_t i = vf_below(80, "i");
  if (i < n) vf_assert(g_sawbit[i] == (buf.bits[stream].u_->buf[i] != 0), "bits are used in order");
  vf_assert(g_pg == (g_at < n ? 1u : 0u), "a group found is processed once");
  if (g_pg) {
    int64_t back = static_cast<int64_t>((n - 1 - at) * 16 / 19) * 1000000;   // 1187.5 bits per second, whole milliseconds
    int64_t t = rx - back;
    vf_assert(g_rx == (t < last ? last : t), "the reception time is that of the group's last bit in the buffer, but never earlier than that of the previous group");
    vf_assert(ch.last_group_rx_time_ == tp(g_rx), "the latest reception time is remembered");
  } else vf_assert(ch.last_group_rx_time_ == tp(last), "without a group the latest reception time stays");
#else
  size_t stream = vf_nd(2, "stream") & 3;
  // a synchronised stream which is complete after k more bits
  auto& bs = ch.block_stream_[stream];
  bs.is_in_sync_ = true; bs.expected_offset_ = Offset::D;
  unsigned k = 1 + vf_below(26, "at"); bs.num_bits_until_next_block_ = k;
  for (size_t i = 0; i < n; i++) buf.bits[stream].push_back(vf_bool("bit"));
  ch.processBits(buf, stream);
  if (k <= n) {
    int64_t t = rx - static_cast<int64_t>((n - k) * 16 / 19) * 1000000;
    vf_assert(ch.last_group_rx_time_ == tp(t < last ? last : t), "the reception time is that of the group's last bit in the buffer, but never earlier than that of the previous group");
  } else vf_assert(ch.last_group_rx_time_ == tp(last), "without a group the latest reception time stays");
#endif
}
// Buffers hold at most 8192 samples at 128 kHz or more, that is 77 bits.
static inline void time_bits_case(int w) {
  Options o;
  std::stringstream out;
  Channel ch(o, 0, out);
#ifdef VF_MODEL
  const size_t ns[] = {0, 1, 2, 26, 51, 77};
  if (w < 6) { size_t n = ns[w]; time_bits(ch, n, 0); time_bits(ch, n, n / 2); if (n) time_bits(ch, n, n - 1); time_bits(ch, n, n); }
  else for (size_t at = static_cast<size_t>(w - 6) * 20; at < static_cast<size_t>(w - 6) * 20 + 20 && at < 78; at++) time_bits(ch, 78, at);
#else
  time_bits(ch, w < 6 ? vf_below(79, "n") : 78, 0);
#endif
}
#define T_(w) extern "C" void h_time_bits_##w() { time_bits_case(w); }
T_(0) T_(1) T_(2) T_(3) T_(4) T_(5) T_(6) T_(7) T_(8) T_(9)
