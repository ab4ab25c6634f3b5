// Contracts of the text-carrying groups: PS (0A/0B), PTYN (10A), Long PS (15A), RadioText (2A/2B).
// Proof mode: text buffers are abstract (vf_abs.h), their contract is in h_rdsstring.cc.
// Native mode: end to end, against the specification in vf_txt.h.
#include "vf_abs.h"
#include "vf_txt.h"

struct Run {
  VfDocs* docs; VfDoc d;
};
static inline VfDoc run1(Station& st, const Group& g) {
  std::stringstream out;
  st.updateAndPrint(g, out);
  VfDocs docs(out.str());
  vf_assert(docs.wellformed && docs.n == 1, "one line per group");
  return docs.doc(0);
}

static inline void ps_contract(bool isb) {
  VfBlocks b = typed_blocks(0, isb);
  Options o; o.show_partial = vf_bool("partial");
  Station st(o, 0, 0x1234);
  st.last_group_had_pi_ = true;
  bool upd = b.has[2] && b.has[3];
  unsigned seg = b.data[1] & 3;
#ifdef VF_MODEL
  abs_init();
  g_throws = false;
  g_afn = g_afclr = 0; g_afB = vf_bool("methodB");
#else
  any_text(st.ps_.text, 8);
  Txt<8> t(st.ps_.text);
#endif
  Group g = typed_group(b, 0, isb);
  VfDoc d = run1(st, g);
  bool complete;
  std::string want;
#ifdef VF_MODEL
  const void* T = &st.ps_.text;
  vf_assert(g_nops == (upd ? 2u : 0u), "the name changes exactly when its characters were received");
  if (upd) vf_assert(is_set2(0, T, 2 * seg, b.data[3]), "each received character goes to its own position in the name");
  complete = upd && g_complete[2];
  want = complete ? "LAST " : "NOW ";
  vf_assert(g_afn == (b.has[2] && !isb ? 2u : 0u), "alternative frequencies come in the third block of group 0A");
  if (g_afn) vf_assert(g_af[0] == b.data[2] >> 8 && g_af[1] == (b.data[2] & 255), "both alternative frequency codes are used, in order");
  vf_assert(g_afclr == (!b.has[2] && g_afB ? 1u : 0u), "a method B list is abandoned when a part of it is missed");
#else
  if (upd) t.rx2(2 * seg, b.data[3]);
  vf_assert(t.same(st.ps_.text), "the name keeps the latest character received at every position");
  complete = upd && t.complete();
  want = t.text(false);
#endif
  vf_assert(JHAS(d, "ps") == complete, "ps is given exactly when all its characters have been received in order");
  if (JHAS(d, "ps")) vf_assert(JKIND(d, "ps") == vfj::STRING && JSTR(d, "ps") == want, "ps is made of the latest received characters");
  vf_assert(JHAS(d, "partial_ps") == (upd && !complete && o.show_partial), "a partial name is only given on request");
  if (JHAS(d, "partial_ps")) vf_assert(JSTR(d, "partial_ps") == want, "partial_ps is made of the received characters");
  // flags
  bool di = (b.data[1] >> 2) & 1;
  vf_assert(JKIND(d, "ta") == vfj::BOOL && JNUM(d, "ta") == ((b.data[1] >> 4) & 1), "ta is bit 4 of the second block");
  vf_assert(JKIND(d, "is_music") == vfj::BOOL && JNUM(d, "is_music") == ((b.data[1] >> 3) & 1), "is_music is bit 3 of the second block");
  vf_assert(JHAS(d, "di/dynamic_pty") == (seg == 0) && JHAS(d, "di/compressed") == (seg == 1) && JHAS(d, "di/artificial_head") == (seg == 2) && JHAS(d, "di/stereo") == (seg == 3), "each group carries the decoder identification bit of its own segment");
  vf_assert((seg != 0 || JNUM(d, "di/dynamic_pty") == di) && (seg != 1 || JNUM(d, "di/compressed") == di) && (seg != 2 || JNUM(d, "di/artificial_head") == di) && (seg != 3 || JNUM(d, "di/stereo") == di), "the decoder identification bit is bit 2 of the second block");
  vf_cover(JHAS(d, "ps"), "complete");
  vf_cover(JHAS(d, "partial_ps"), "partial");
}
extern "C" void h_ps_a() { ps_contract(false); }
extern "C" void h_ps_b() { ps_contract(true); }

// 15B: the same flags, faster
extern "C" void h_flags15b() {
  VfBlocks b = typed_blocks(15, true);
  Options o;
  Station st(o, 0, 0x1234);
  st.last_group_had_pi_ = true;
  Group g = typed_group(b, 15, true);
  VfDoc d = run1(st, g);
  unsigned seg = b.data[1] & 3; bool di = (b.data[1] >> 2) & 1;
  vf_assert(JKIND(d, "ta") == vfj::BOOL && JNUM(d, "ta") == ((b.data[1] >> 4) & 1), "ta is bit 4 of the second block");
  vf_assert(JKIND(d, "is_music") == vfj::BOOL && JNUM(d, "is_music") == ((b.data[1] >> 3) & 1), "is_music is bit 3 of the second block");
  vf_assert(JHAS(d, "di/dynamic_pty") == (seg == 0) && JHAS(d, "di/compressed") == (seg == 1) && JHAS(d, "di/artificial_head") == (seg == 2) && JHAS(d, "di/stereo") == (seg == 3), "each group carries the decoder identification bit of its own segment");
  vf_assert((seg != 0 || JNUM(d, "di/dynamic_pty") == di) && (seg != 1 || JNUM(d, "di/compressed") == di) && (seg != 2 || JNUM(d, "di/artificial_head") == di) && (seg != 3 || JNUM(d, "di/stereo") == di), "the decoder identification bit is bit 2 of the second block");
}

extern "C" void h_ptyn() {
  VfBlocks b = typed_blocks(10, false);
  Options o; o.show_partial = vf_bool("partial");
  Station st(o, 0, 0x1234);
  st.last_group_had_pi_ = true;
  st.ptyname_.ab = vf_bool("ab");
  int ab = st.ptyname_.ab, nab = (b.data[1] >> 4) & 1;
  bool upd = b.has[2] && b.has[3], fresh = upd && nab != ab;
  unsigned p = 4 * (b.data[1] & 1);
#ifdef VF_MODEL
  abs_init();
#else
  any_text(st.ptyname_.text, 8);
  Txt<8> t(st.ptyname_.text);
#endif
  Group g = typed_group(b, 10, false);
  VfDoc d = run1(st, g);
  vf_assert(st.ptyname_.ab == (upd ? nab : ab), "the A/B flag is remembered");
  bool complete;
  std::string want;
#ifdef VF_MODEL
  const void* T = &st.ptyname_.text;
  unsigned k = fresh ? 1 : 0;
  vf_assert(g_nops == (upd ? 4u + k : 0u), "the name changes exactly when its characters were received");
  if (fresh) vf_assert(is_op(0, T, OP_CLEAR, 0, 0), "an A/B change starts a fresh name");
  if (upd) vf_assert(is_set2(k, T, p, b.data[2]) && is_set2(k + 2, T, p + 2, b.data[3]), "each received character goes to its own position in the name");
  complete = upd && g_complete[4 + k];
  want = "LAST ";
#else
  if (fresh) t.run = 0;
  if (upd) { t.rx2(p, b.data[2]); t.rx2(p + 2, b.data[3]); }
  vf_assert(t.same(st.ptyname_.text), "the name keeps the latest character received at every position and starts afresh on an A/B change");
  complete = upd && t.complete();
  want = t.text(false);
#endif
  vf_assert(JHAS(d, "pty_name") == complete, "pty_name is given exactly when all its characters have been received in order");
  if (JHAS(d, "pty_name")) vf_assert(JSTR(d, "pty_name") == want, "pty_name is made of the latest received characters");
  vf_cover(JHAS(d, "pty_name"), "complete");
}

extern "C" void h_longps() {
  VfBlocks b = typed_blocks(15, false);
  Options o; o.show_partial = vf_bool("partial");
  Station st(o, 0, 0x1234);
  st.last_group_had_pi_ = true;
  bool upd = b.has[2] || b.has[3];
  size_t p = 4 * (b.data[1] & 7);
#ifdef VF_MODEL
  abs_init();
  vf_assert(st.long_ps_.text.encoding_ == RDSString::Encoding::UTF8, "the long name is in UTF-8");
#else
  for (size_t i = 0; i < 32; i++) st.long_ps_.text.data_[i] = static_cast<uint8_t>(vf_nd_pick(7, "old", kLikely, 5)) & 0x7F;
  for (int i = 2; i < 4; i++) b.data[i] &= 0x7F7F;
  st.long_ps_.text.sequential_length_ = vf_below(33, "run"); st.long_ps_.text.prev_pos_ = vf_below(32, "prev");
  Txt<32> t(st.long_ps_.text);
  g_throws = false;
#endif
  Group g = typed_group(b, 15, false);
  VfDoc d = run1(st, g);
  bool complete;
  std::string last, now;
#ifdef VF_MODEL
  const void* T = &st.long_ps_.text;
  vf_assert(g_nops == (b.has[2] ? 2u : 0u) + (b.has[3] ? 2u : 0u), "the long name changes exactly when its characters were received");
  if (b.has[2]) vf_assert(is_set2(0, T, p, b.data[2]), "each received character goes to its own position in the long name (third block)");
  if (b.has[3]) vf_assert(is_set2(b.has[2] ? 2 : 0, T, p + 2, b.data[3]), "each received character goes to its own position in the long name (fourth block)");
  complete = upd && g_complete[g_nops & 7];
  last = "LAST"; now = "NOW ";
#else
  if (b.has[2]) t.rx2(p, b.data[2]);
  if (b.has[3]) t.rx2(p + 2, b.data[3]);
  vf_assert(t.same(st.long_ps_.text), "the long name keeps the latest character received at every position");
  complete = upd && t.complete();
  now = t.text(true); last = spec_rtrim(now);
#endif
  vf_assert(JHAS(d, "long_ps") == complete, "long_ps is given exactly when the whole name has been received in order");
  if (complete) vf_assert(JSTR(d, "long_ps") == last, "long_ps is made of the latest received characters");
  vf_assert(JHAS(d, "partial_long_ps") == (!complete && o.show_partial && !g_throws), "a partial long name is only given on request");
  if (JHAS(d, "partial_long_ps")) vf_assert(JSTR(d, "partial_long_ps") == now, "partial_long_ps is made of the received characters");
  vf_cover(complete, "complete");
}

static inline void rt_contract(bool isb) {
  VfBlocks b = typed_blocks(2, isb);
  Options o; o.show_partial = vf_bool("partial");
  Station st(o, 0, 0x1234);
  st.last_group_had_pi_ = true;
  st.radiotext_.ab = vf_bool("ab");
  int ab = st.radiotext_.ab, nab = (b.data[1] >> 4) & 1;
  bool upd = b.has[2] && b.has[3], fresh = upd && nab != ab;
  size_t p = (isb ? 2 : 4) * (b.data[1] & 15);
  bool repeat = vf_bool("repeat");
#ifdef VF_MODEL
  abs_init();
  st.radiotext_.previous_potentially_complete_message = repeat ? "NOW" : "OTHER";
  std::string heard = "NOW";
  bool m3 = upd && p == 0 && g_received > 1 && !g_complete[0] && !g_terms;
#else
  size_t n0 = vf_bool("was_b") ? 32 : 64;
  st.radiotext_.text.resize(n0);
  for (size_t i = 0; i < n0; i++) st.radiotext_.text.data_[i] = static_cast<uint8_t>(vf_nd_pick(8, "old", kLikely, 5));
  if (vf_bool("noterm")) for (size_t i = 0; i < n0; i++) if (st.radiotext_.text.data_[i] == 0x0D) st.radiotext_.text.data_[i] = 0x41;
  st.radiotext_.text.sequential_length_ = vf_below(static_cast<uint32_t>(n0) + 1, "run"); st.radiotext_.text.prev_pos_ = vf_below(static_cast<uint32_t>(n0), "prev");
  if (vf_bool("follow")) { st.radiotext_.text.sequential_length_ = p; st.radiotext_.text.prev_pos_ = p - 1; if (p == 0 || p > n0) vf_assume(false); }
  Txt<64> t(st.radiotext_.text);
  std::string heard = spec_rtrim(t.text(false));
  st.radiotext_.previous_potentially_complete_message = repeat ? heard : std::string("OTHER");
  bool m3 = upd && p == 0 && t.run > 1 && !t.complete() && !t.terms();
  g_throws = false;
#endif
  std::string prev = st.radiotext_.previous_potentially_complete_message;
  Group g = typed_group(b, 2, isb);
  VfDoc d = run1(st, g);
  bool failed = m3 && g_throws;   // (conversion cannot fail for the basic code table)
  vf_assert(st.radiotext_.ab == (upd ? nab : ab), "the A/B flag is remembered");
  vf_assert(JHAS(d, "rt_ab") == (upd && o.show_partial), "rt_ab is only given on request");
  if (JHAS(d, "rt_ab")) vf_assert(JSTR(d, "rt_ab") == (nab ? "B" : "A"), "rt_ab is the A/B flag of the group");
  if (failed) return;
  bool complete;
  std::string last, now;
#ifdef VF_MODEL
  const void* T = &st.radiotext_.text;
  unsigned k = fresh ? 1 : 0;
  vf_assert(g_nops == (upd ? k + 1 + (isb ? 2u : 4u) : 0u), "RadioText changes exactly when all of its characters in this group were received");
  if (fresh) vf_assert(is_op(0, T, OP_CLEAR, 0, 0), "an A/B change starts a fresh message");
  if (upd) {
    vf_assert(is_op(k, T, OP_RESIZE, isb ? 32 : 64, 0), "messages have 64 characters in group 2A, 32 in 2B");
    if (isb) vf_assert(is_set2(k + 1, T, p, b.data[3]), "each received character goes to its own position in the message");
    else vf_assert(is_set2(k + 1, T, p, b.data[2]) && is_set2(k + 3, T, p + 2, b.data[3]), "each received character goes to its own position in the message");
  }
  complete = upd && g_complete[g_nops & 7];
  last = "LAST"; now = "NOW ";
#else
  if (upd) {
    if (fresh) t.run = 0;
    t.resize(isb ? 32 : 64);
    if (!isb) { t.rx2(p, b.data[2]); t.rx2(p + 2, b.data[3]); } else t.rx2(p, b.data[3]);
  }
  vf_assert(t.same(st.radiotext_.text), "the message keeps the latest character received at every position, and starts afresh on an A/B change");
  complete = upd && t.complete();
  now = t.text(false); last = spec_rtrim(now);
#endif
  bool given3 = m3 && prev == heard;
  vf_assert(st.radiotext_.previous_potentially_complete_message == (m3 ? heard : prev), "an unterminated message is remembered when the next one begins");
  vf_assert(JHAS(d, "radiotext") == (complete || given3), "radiotext is given exactly when a message is complete, or unterminated and received twice");
  if (complete) vf_assert(JSTR(d, "radiotext") == last, "radiotext is made of the latest received characters");
  else if (given3) vf_assert(JSTR(d, "radiotext") == heard, "an unterminated message received twice is given as received");
  bool part = upd && !complete && !given3 && o.show_partial;
#ifdef VF_MODEL
  part = part && !g_throws;
#else
  part = part && spec_rtrim(now).length() > 0;
#endif
  vf_assert(JHAS(d, "partial_radiotext") == part, "a partial message is only given on request");
  if (JHAS(d, "partial_radiotext")) vf_assert(JSTR(d, "partial_radiotext") == now, "partial_radiotext is made of the received characters");
  vf_cover(complete, "complete");
  vf_cover(given3, "method 3");
  vf_cover(JHAS(d, "partial_radiotext"), "partial");
}
extern "C" void h_rt_a() { rt_contract(false); }
extern "C" void h_rt_b() { rt_contract(true); }
