// Class contract of RDSString (received text buffers), the RDS code table and rtrim.
#include "vf_station.h"
#include "vf_txt.h"
#include "src/text/rdsstring.hh"
#include "src/util.hh"

extern "C" {
#ifdef VF_MODEL
// contract: h_decode
std::string rds_str(const RDSString* s) {
  const auto d = s->getData();
  std::string r; for (size_t i = 0; i < 64; i++) r.p_->b[i] = i < d.n_ ? static_cast<char>(d.u_->buf[i]) : 0;
  r.n_ = d.n_; r.m_ = 64; r.p_->b[d.n_] = 0;
  return r;
}
static uint8_t g_bytes[64]; static size_t g_n;
std::vector<uint8_t> rds_getdata(const RDSString*) { std::vector<uint8_t> v; for (size_t i = 0; i < 64; i++) v.u_->buf[i] = g_bytes[i]; v.n_ = g_n; return v; }
std::string rds_char(uint8_t c) { std::string s; s.push_back(static_cast<char>(c)); return s; }
static bool g_sub; static size_t g_subpos, g_sublen;
static size_t g_cur, g_k, g_count, g_start, g_startoff;   // characters passed so far: the next one begins at g_cur
// contract: h_charlen
size_t rds_charlen(const std::string*, size_t p) {
  vf_assert(p == g_cur, "text positions are counted in whole characters");
  if (g_k == g_start) g_startoff = p;
  size_t r = g_k >= g_count ? 0 : 1 + (vf_nd(2, "clen") & 3);
  g_cur = p + r;
  if (r) g_k++;
  return r;
}
std::string rds_substr(const std::string* s, size_t p, size_t n) { (void)s; g_sub = true; g_subpos = p; g_sublen = n; return "SUB"; }
#else
void rds_str() {} void rds_getdata() {} void rds_char() {} void rds_charlen() {} void rds_substr() {}
#endif
}

template <size_t N> static inline void set_contract() {
  RDSString s(N);
  vf_assert(s.data_.size() == N && s.sequential_length_ == 0, "a new text buffer has received nothing");
  any_text(s, N);
  bool utf8 = vf_bool("utf8");
  if (utf8) s.setEncoding(RDSString::Encoding::UTF8);
  s.last_complete_string_ = "OLD";
  Txt<N> t(s);
  size_t pos = vf_below(128, "pos");
  uint8_t byte = static_cast<uint8_t>(vf_nd_pick(8, "byte", kLikely, 5));
  vf_assert(s.isComplete() == t.complete(), "a text is complete when every character up to its end has been received in order (before)");
  vf_assert(s.hasPreviouslyReceivedTerminators() == t.terms(), "terminators are recognised");
  s.set(pos, byte);
  t.rx(pos, byte);
  vf_assert(t.same(s), "every position holds the latest character received there; the received length grows in order only");
  vf_assert(s.isComplete() == t.complete(), "a text is complete when every character up to its end has been received in order");
  vf_assert(s.getReceivedLength() == t.run, "the received length is the unbroken run from the start");
  if (pos < N && t.complete()) {
    // what str() stands for is the contract h_decode
#ifdef VF_MODEL
    std::string want = rds_str(&s);
#else
    std::string want = t.text(utf8);
#endif
    vf_assert(s.getLastCompleteString() == want, "the latest complete text is the present one when complete");
  } else {
    vf_assert(s.getLastCompleteString() == "OLD", "the latest complete text is kept until another one is complete");
  }
  vf_cover(pos < N && t.complete(), "complete");
  vf_cover(pos < N && !t.complete(), "incomplete");
}
extern "C" void h_set_8() { set_contract<8>(); }
extern "C" void h_set_32() { set_contract<32>(); }
extern "C" void h_set_64() { set_contract<64>(); }

template <size_t N> static inline void data_contract() {
  RDSString s(N);
  any_text(s, N);
  Txt<N> t(s);
  auto d = s.getData();
  size_t len = t.len();
  vf_assert(d.size() == len, "the text ends with the first terminator, or the buffer");
  size_t i = vf_below(N, "i");
  if (i < len) vf_assert(d[i] == (i < t.run && t.b[i] != 0x0D && t.b[i] != 0 ? t.b[i] : 0x20), "characters not received yet, terminators and nulls are blanks");
  // clear and resize
  s.clear();
  vf_assert(s.getReceivedLength() == 0 && s.getLastCompleteString().empty() && s.data_.size() == N, "clearing forgets what was received");
}
extern "C" void h_data_8() { data_contract<8>(); }
extern "C" void h_data_32() { data_contract<32>(); }
extern "C" void h_data_64() { data_contract<64>(); }
extern "C" void h_resize() {
  bool from32 = vf_bool("from32"), to32 = vf_bool("to32");
  RDSString s(64);
  any_text(s, 64);
  if (from32) { s.data_.resize(32); }
  if (s.sequential_length_ > s.data_.size()) s.sequential_length_ = s.data_.size();
  Txt<64> t(s);
  s.resize(to32 ? 32 : 64);
  t.resize(to32 ? 32 : 64);
  vf_assert(t.same(s), "resizing keeps the characters and pads with blanks");
}

// A text of the basic code table is the concatenation of its characters; UTF-8 text is kept as is.
extern "C" void h_decode() {
  bool utf8 = vf_bool("utf8");
#ifdef VF_MODEL
  RDSString s(64);
  g_n = vf_below(65, "n");
  for (int i = 0; i < 64; i++) g_bytes[i] = vf_u8("byte");
  if (utf8) s.setEncoding(RDSString::Encoding::UTF8);
  std::string r = s.str();
  vf_assert(r.n_ == g_n, "every character of the text is decoded, and no other");
  size_t i = vf_below(64, "i");
  if (i < g_n) vf_assert(r.get(i) == static_cast<char>(g_bytes[i]), "characters are decoded in order");
#else
  RDSString s(64);
  any_text(s, 64);
  if (utf8) s.setEncoding(RDSString::Encoding::UTF8);
  Txt<64> t(s);
  vf_assert(s.str() == t.text(utf8), "every character of the text is decoded in order");
#endif
}
extern "C" void h_charset() {
  for (unsigned c = 0; c < 256; c++) {
    RDSString s(1);
    s.data_[0] = static_cast<uint8_t>(c);
    s.sequential_length_ = 1;
    const char* w = c == 0x0D ? " " : spec_charset[c];
    vf_assert(s.str() == w, "every code of the RDS code table stands for its character");
  }
}
extern "C" void h_rtrim() {
  std::string s;
  size_t n = vf_below(41, "n");
#ifdef VF_MODEL
  for (size_t i = 0; i < 40; i++) s.p_->b[i] = static_cast<char>(vf_u8("c"));
  s.n_ = n; s.m_ = 40; s.p_->b[n] = 0;
#else
  for (size_t i = 0; i < 40; i++) { char c = static_cast<char>(vf_nd_pick(8, "c", kLikely, 5)); if (i < n) s.push_back(c); }
#endif
  std::string r = rtrim(s);
  size_t k = r.size();
  vf_assert(k <= n && (k == 0 || r[k - 1] != ' '), "no trailing blank remains");
  size_t i = vf_below(40, "i");
  if (i < k) vf_assert(r[i] == s[i], "what precedes the trailing blanks is kept");
  if (i >= k && i < n) vf_assert(s[i] == ' ', "only blanks are removed");
}
// Length of the UTF-8 character at a position
extern "C" void h_charlen() {
  std::string s;
  size_t n = vf_below(41, "n"), p = vf_below(44, "p");
#ifdef VF_MODEL
  for (size_t i = 0; i < 40; i++) s.p_->b[i] = static_cast<char>(vf_u8("c"));
  s.n_ = n; s.m_ = 40; s.p_->b[n] = 0;
#else
  static const uint32_t likely[] = {0x80, 0xBF, 0xC3, 0xE2, 0x41};
  for (size_t i = 0; i < 40; i++) { char c = static_cast<char>(vf_nd_pick(8, "c", likely, 5)); if (i < n) s.push_back(c); }
#endif
  size_t k = charlen(s, p);
  if (p >= n) { vf_assert(k == 0, "there is no character past the end"); return; }
  vf_assert(k >= 1 && p + k <= n, "a character lies within the text");
  size_t i = vf_below(40, "i");
  if (i > p && i < p + k) vf_assert((static_cast<uint8_t>(s[i]) & 0xC0) == 0x80, "a character is its lead byte and continuation bytes");
  if (p + k < n) vf_assert((static_cast<uint8_t>(s[p + k]) & 0xC0) != 0x80, "all continuation bytes belong to the character");
}
// Part of a text, counted in characters (RT+)
extern "C" void h_part() {
  RDSString s(64);
  uint32_t start = vf_nd(6, "start") & 63, len = 1 + (vf_nd(6, "len") & 63);
#ifdef VF_MODEL
  g_count = vf_nd(7, "count") & 127;
  g_cur = g_k = g_startoff = 0; g_start = start;
  g_sub = false;
  std::string r = s.getLastCompleteString(start, len);
  bool inside = start + len <= g_count;
  vf_assert(g_sub == inside && (inside || r.empty()), "a part is given exactly when the text has that many characters");
  if (inside) vf_assert(g_subpos == g_startoff && g_sublen == g_cur - g_startoff && g_k == start + len, "a part holds exactly the requested characters");
#else
  std::vector<std::string> ch;
  uint32_t n = vf_below(65, "n");
  std::string all;
  for (uint32_t i = 0; i < n; i++) { ch.push_back(spec_charset[vf_u8("c")]); all += ch.back(); }
  s.last_complete_string_ = all;
  if (vf_bool("end") && n > start) len = n - start;
  std::string want;
  if (start + len <= n) for (uint32_t i = 0; i < len; i++) want += ch[start + i];
  vf_assert(s.getLastCompleteString(start, len) == want, "a part holds exactly the requested characters");
#endif
}
