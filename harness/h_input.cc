// Contracts of the readers of hex, TEF6686, bit and multiplex input, and of hex output.
#include "vf_station.h"
#include "src/io/input.hh"
#include "src/io/output.hh"
#include <iostream>
#include <cstdio>

#ifndef VF_MODEL
#include <sstream>
// lines as the only standard input, standard output captured
struct Feed {
  std::istringstream in; std::ostringstream out; std::streambuf *bi, *bo;
  explicit Feed(const std::string& s) : in(s), bi(std::cin.rdbuf(in.rdbuf())), bo(std::cout.rdbuf(out.rdbuf())) { std::cin.clear(); }
  ~Feed() { std::cin.rdbuf(bi); std::cout.rdbuf(bo); std::cin.clear(); }
};
#endif
static constexpr unsigned kMax = 30, kLines = 3;
struct Line { unsigned n; unsigned char c[kMax + 1]; bool blank[kMax + 1]; };
static Line g_line[kLines]; static unsigned g_nlines, g_next; static bool g_lastnl;
static unsigned g_nows; static int64_t g_now;
extern "C" {
#ifdef VF_MODEL
// getline: the next of the lines; end of file is met by the first read that does not find a line end
std::istream* in_getline(std::istream* is, std::string* s, char delim) {
  vf_assert(delim == '\n', "lines end in a line feed");
  unsigned k = g_next++;
  if (k >= g_nlines) { s->clear(); is->setstate(std::ios_base::eofbit | std::ios_base::failbit); return is; }
  s->ext_ = reinterpret_cast<const char*>(g_line[k].c); s->m_ = g_line[k].n; s->n_ = g_line[k].n;
  if (k + 1 == g_nlines && !g_lastnl) is->setstate(std::ios_base::eofbit);
  return is;
}
int64_t in_now() { g_nows++; return g_now; }
static size_t g_single;   // where the last single character was taken from
// comparison with a blank: decided by the (checked) pattern of blanks, to keep the control flow constant
bool in_ne(const std::string* s, const char* lit) {
  bool ne = !s->equals(std::string(lit));
  if (lit[0] == ' ' && lit[1] == 0 && s->m_ == 1 && g_single < kMax) { bool b = g_line[0].blank[g_single]; vf_assert(ne == !b, "MODEL: blanks are where the pattern says"); return !b; }
  return ne;
}
// stol for digits in base 16 (no sign, blanks or prefix in front)
long in_stol(const std::string* s, size_t* pos, int base) {
  vf_assert(base == 16 && pos == nullptr, "numbers are read in base 16");
  long v = 0; bool more = true;
  if (s->n_ == 0) throw std::invalid_argument("stol");
  for (size_t i = 0; i < kMax && i < s->m_; i++) {
    unsigned char c = static_cast<unsigned char>(s->get(i)); int h = c >= '0' && c <= '9' ? c - '0' : c >= 'a' && c <= 'f' ? c - 'a' + 10 : c >= 'A' && c <= 'F' ? c - 'A' + 10 : -1;
    if (i >= s->n_ || h < 0) more = false;
    if (i == 0 && i < s->n_) vf_assert(h >= 0, "MODEL: numbers start with a digit");
    if (more) v = v * 16 + h;
  }
  return v;
}
// substr: the rest of a line read is a view of it, any other part a copy
std::string in_substr(const std::string* s, size_t pos, size_t len) {
  std::string r;
  r.m_ = len < s->m_ ? len : s->m_;
  const bool view = len == std::string::npos;
  if (view) { vf_assert(s->ext_ != nullptr, "MODEL: the rest of a line is taken from a line read"); r.ext_ = s->ext_ + pos; }
  if (pos > s->n_) throw std::out_of_range("basic_string::substr");
  size_t k = s->n_ - pos; if (len < k) k = len;
  r.n_ = k;
  if (view) return r;
  if (len == 1) { g_single = kMax; for (size_t i = 0; i < kMax; i++) if (s->ext_ == reinterpret_cast<const char*>(g_line[0].c) + i) g_single = i; }
  for (size_t i = 0; i < kMax && i < r.m_ && i < k; i++) r.p_->b[i] = s->get(pos + i);
  r.p_->b[k] = 0;
  return r;
}
// feed-through: what is written to standard output
static unsigned g_outs, g_outline[4], g_outlen[4], g_outpos; static bool g_outbad;
std::ostream* in_putstr(std::ostream* o, const std::string* s) {
  if (o != &std::cout) g_outbad = true;
  // the text written must be the line read last
  if (g_next == 0) g_outbad = true;
  else if (g_next > g_nlines) { if (s->n_ != 0) g_outbad = true; }
  else {
    const Line& l = g_line[g_next - 1];
    if (s->n_ != l.n) g_outbad = true;
    if (s->ext_ != reinterpret_cast<const char*>(l.c)) for (unsigned i = 0; i < kMax; i++) if (i < l.n && s->get(i) != static_cast<char>(l.c[i])) g_outbad = true;
  }
  if (g_outs % 2 != 0) g_outbad = true;
  g_outs++;
  return o;
}
std::ostream* in_putchr(std::ostream* o, char c) { if (o != &std::cout || c != '\n' || g_outs % 2 != 1) g_outbad = true; g_outs++; return o; }
#else
void in_stol() {} void in_getline() {} void in_now() {} void in_substr() {} void in_ne() {} void in_putstr() {} void in_putchr() {}
#endif
}
static inline void reset_input(unsigned n, bool lastnl) {
  g_nlines = n; g_next = 0; g_nows = 0; g_lastnl = lastnl;
#ifdef VF_MODEL
  std::cin.clear(); g_outs = 0; g_outbad = false; g_now = static_cast<int64_t>(vf_nd(62, "now"));
#endif
}
static const uint32_t likely_hex[] = {'0', '1', '9', 'A', 'F', 'a', 'f', ' ', '-', '5', '7', 'C', 'e', '2'};
// A line of the given pattern: x is any character but a blank or line feed, h any hexadecimal digit, all else stands for itself.
static inline int hexval(unsigned char c) { if (c >= '0' && c <= '9') return c - '0'; if (c >= 'a' && c <= 'f') return c - 'a' + 10; if (c >= 'A' && c <= 'F') return c - 'A' + 10; return -1; }
static inline void any_line(Line& l, const char* pat) {
  l.n = 0;
#ifndef VF_MODEL
  if (vf_bool("free")) {
    l.n = vf_below(kMax + 1, "length"); bool dashes = vf_bool("dash"), tidy = vf_bool("tidy");
    for (unsigned i = 0; i < kMax; i++) { l.c[i] = static_cast<unsigned char>(vf_nd_pick(8, "c", likely_hex, dashes ? 14 : 7)); vf_assume(l.c[i] != '\n'); if (tidy) { if (i % 5 == 4) l.c[i] = ' '; else if (l.c[i] == ' ') l.c[i] = '3'; } l.blank[i] = l.c[i] == ' '; }
    if (vf_bool("stream_prefix")) { l.c[0] = '#'; l.c[1] = 'S'; l.c[2] = static_cast<unsigned char>('0' + vf_below(5, "str")); l.c[3] = ' '; for (int i = 0; i < 4; i++) l.blank[i] = l.c[i] == ' '; }
    return;
  }
#endif
  for (unsigned i = 0; pat[i]; i++) {
    if (pat[i] == 'x') { l.c[i] = static_cast<unsigned char>(vf_nd_pick(8, "char", likely_hex, 14)); vf_assume(l.c[i] != '\n' && l.c[i] != ' '); }
    else if (pat[i] == 'h') { l.c[i] = static_cast<unsigned char>(vf_nd_pick(8, "char", likely_hex, 7)); vf_assume(hexval(l.c[i]) >= 0); }
    else l.c[i] = static_cast<unsigned char>(pat[i]);
    l.blank[i] = pat[i] == ' ';
    l.n = i + 1;
  }
  l.c[l.n] = 0;
}
#ifndef VF_MODEL
static std::string all_lines() { std::string s; for (unsigned k = 0; k < g_nlines; k++) { s.append(reinterpret_cast<const char*>(g_line[k].c), g_line[k].n); if (k + 1 < g_nlines || g_lastnl) s += '\n'; } return s; }
static std::string echoed(unsigned lines) { std::string s; for (unsigned k = 0; k < lines; k++) { if (k < g_nlines) s.append(reinterpret_cast<const char*>(g_line[k].c), g_line[k].n); s += '\n'; } return s; }
#endif

struct SpecGroup { bool has[4]; uint16_t data[4]; size_t stream; };
// The format: four blocks of four digits; blanks mean nothing; a block with anything but four
// digits was not received; an optional stream number in front.
static inline SpecGroup spec_hex(const Line& l) {
  SpecGroup g; g.stream = 0;
  unsigned from = 0;
  if (l.n >= 20 && l.c[0] == '#' && l.c[1] == 'S' && l.c[2] >= '1' && l.c[2] <= '3' && l.c[3] == ' ') { from = 4; g.stream = l.c[2] - '0'; }
  unsigned k = 0; uint32_t v[4] = {0, 0, 0, 0}; bool ok[4] = {true, true, true, true}; unsigned cnt[4] = {0, 0, 0, 0};
  for (unsigned i = 0; i < kMax; i++) {
    if (i < from || i >= l.n || l.blank[i] || k >= 16) continue;
    int h = hexval(l.c[i]);
    for (unsigned b = 0; b < 4; b++) if (k / 4 == b) { if (h < 0) ok[b] = false; else v[b] = v[b] * 16 + static_cast<uint32_t>(h); cnt[b]++; }
    k++;
  }
  for (unsigned b = 0; b < 4; b++) { g.has[b] = ok[b] && cnt[b] == 4; g.data[b] = static_cast<uint16_t>(v[b]); }
  return g;
}
static inline void check_group(const Group& g, const SpecGroup& s) {
  for (unsigned b = 0; b < 4; b++) {
    vf_assert(g.has(static_cast<eBlockNumber>(b)) == s.has[b], "a block is received exactly when its four digits are given");
    if (s.has[b]) vf_assert(g.get(static_cast<eBlockNumber>(b)) == s.data[b], "a block has the value of its digits");
  }
  vf_assert(g.hasType() == s.has[1], "the group has a type exactly when its second block is given");
  if (s.has[1]) vf_assert(g.getType().number == s.data[1] >> 12 && (g.getType().version == GroupType::Version::B) == ((s.data[1] >> 11) & 1), "the group type is that of the second block");
  vf_assert(g.hasPI() == s.has[0] && (!s.has[0] || g.getPI() == s.data[0]), "the group has a PI exactly when its first block is given");
  vf_assert(g.getNumErrors() == 4 - (s.has[0] + s.has[1] + s.has[2] + s.has[3]), "the errors are the missing blocks");
}
static inline void hex_case(const char* pat, bool lastnl) {
  Options o; o.timestamp = vf_bool("timestamp"); o.feed_thru = vf_bool("feed");
  reset_input(1, lastnl);
  any_line(g_line[0], pat);
#ifndef VF_MODEL
  Feed f(all_lines());
#endif
  const Group g = readHexGroup(o);
  SpecGroup s = spec_hex(g_line[0]);
  if (g_line[0].n < 16) { s.stream = 0; for (int b = 0; b < 4; b++) s.has[b] = false; }
  check_group(g, s);
  vf_assert(g.getDataStream() == s.stream, "the data stream is the one named in front of the group");
  vf_assert(g.hasTime() == o.timestamp, "a group gets a time on request");
  unsigned lines = g_line[0].n < 16 && g_lastnl ? 2 : 1;
#ifdef VF_MODEL
  vf_assert(g_next == lines, "a line is read once; lines too short for a group are skipped");
  vf_assert(!g_outbad && g_outs == (o.feed_thru ? 2 * lines : 0u), "feed-through echoes the lines read");
#else
  vf_assert(f.out.str() == (o.feed_thru ? echoed(lines) : std::string()), "feed-through echoes the lines read");
#endif
}
extern "C" void h_hex_0() { hex_case("", true); hex_case("x", false); hex_case("0 xxx xxxx xxxx", true); hex_case("000000xxxxxxxxx", false); hex_case("#S1 xxxx", true); }
extern "C" void h_hex_1() { hex_case("0xxxxxxxxxxxxxxx", false); hex_case("-xxx xxxx xxxx xxxx", true); hex_case("Axxx xxxx xxxx xx", false); hex_case("9 x x x x x x x x x x x x x x", true); }
extern "C" void h_hex_2() { hex_case(" 5xxxxxxxxxxxxxxx", true); hex_case("   xxxx  xxxx xxxx   xxxx", false); hex_case("#T1 xxxxxxxxxxxxxxxxxx", true); hex_case("#S4 xxxx xxxx xxxx xxxx", false); }
extern "C" void h_hex_3() { hex_case("#S1 xxxx xxxx xxxx xxxx", false); hex_case("#S2 xxxxxxxxxxxxxxxxx", true); hex_case("#S3 xxx xxxxxxxxxxxxx", false); hex_case("#S1-xxx xxxx xxxx xxxx", true); }
extern "C" void h_hex_4() { hex_case("-xxx-xxx xxxx xxxx xxxxxxxxx", true); hex_case("Fxxx xxxx xxxx             ", false); hex_case("#S3 xxxx xxxx xxxx xxxx xxxxx", true); hex_case("#S2 xxxxxxxxxxxx  ", false); }
extern "C" void h_hex_5() { hex_case("#S0 xxxx xxxx xxxx xxxx", false); hex_case("S2 xxxx xxxx xxxx xxxx", true); hex_case("#s1 xxxx xxxx xxxx xxxx", false); hex_case("#S1 xxxx xxxx xx", true); hex_case("#S2  xxxx xxxx xxxx xxxx", false); }
extern "C" void h_hex_6() { hex_case("xx", true); hex_case("", true); }
// what is printed as hex
static inline std::string spec_hexline(const VfBlocks& b, size_t stream) {
  std::string s;
  if (stream) { s = "#S1 "; s[2] = static_cast<char>('0' + stream); }
  for (int i = 0; i < 4; i++) { s += b.has[i] ? fixed_hex(b.data[i], 4) : std::string("----"); if (i < 3) s.push_back(' '); }
  return s;
}
#ifdef VF_MODEL
extern "C" std::string in_timestr(const std::chrono::system_clock::time_point*, const std::string*) { return "T"; }
#else
extern "C" void in_timestr() {}
#endif
static inline void print_case(unsigned mask, size_t stream, bool timestamp) {
  Options o;
  VfBlocks b = vf_blocks();
  b.no_offsets = vf_bool("no_offsets");
  for (unsigned i = 0; i < 4; i++) b.has[i] = (mask >> i) & 1;
  Group g = vf_make_group(b);
  for (unsigned i = 0; i < 4; i++) { bool h = (mask >> i) & 1; vf_assert(g.has(static_cast<eBlockNumber>(i)) == h, "blocks are kept"); g.blocks_[i].is_received = h; }   // (checked) constants for the verifier
  g.setDataStream(stream);
  o.timestamp = timestamp;
  o.time_format = "T";
  if (o.timestamp) g.setTime(std::chrono::system_clock::time_point(std::chrono::nanoseconds(static_cast<int64_t>(vf_nd(60, "time")))));
  std::stringstream out;
  printAsHex(g, o, out);
  if (!mask) { vf_assert(out.str().empty(), "an empty group is not printed"); return; }
  std::string want = spec_hexline(b, stream);
  if (o.timestamp) want += " T";
  want += "\n";
  vf_assert(out.str() == want, "a group is printed as its data stream, its blocks (dashes where not received) and its time");
}
extern "C" void h_hex_print() { for (unsigned m = 0; m < 16; m++) print_case(m, 0, m & 1); }
extern "C" void h_hex_print_stream() { for (unsigned m = 0; m < 8; m++) print_case(m < 4 ? 15 : 4, m & 3, (m & 1) != 0); }
// a group printed as hex is read back as it was
extern "C" void h_hex_roundtrip() {
  VfBlocks b = vf_blocks(); size_t stream = vf_nd(2, "stream") & 3;
  reset_input(1, true);
  Line& l = g_line[0];
  unsigned p = 0;
  for (unsigned i = 0; i < kMax; i++) l.c[i] = 0;
  if (stream) { l.c[0] = '#'; l.c[1] = 'S'; l.c[2] = static_cast<unsigned char>('0' + stream); l.c[3] = ' '; p = 4; }
  std::string s = spec_hexline(b, 0);
  for (unsigned i = 0; i < 19; i++) { if (p) l.c[4 + i] = static_cast<unsigned char>(s[i]); else l.c[i] = static_cast<unsigned char>(s[i]); }
  l.n = p + 19;
  for (unsigned i = 0; i < kMax; i++) l.blank[i] = l.c[i] == ' ';
  SpecGroup g = spec_hex(l);
  for (int i = 0; i < 4; i++) vf_assert(g.has[i] == b.has[i] && (!b.has[i] || g.data[i] == b.data[i]), "lemma: reading a printed group gives its blocks");
  vf_assert(g.stream == stream, "lemma: reading a printed group gives its data stream");
}

// --- TEF6686
// P....: PI; R and fourteen digits: blocks 2 to 4 and two bits of errors for each
static inline void tef_line(Line& l, const char* pat) {
#ifndef VF_MODEL
  static const char* const pats[] = {"Phhhh", "Phh", "Rhhhhhhhhhhhhhh", "Rhhhhhhhhhhhh00", "Rhhhhhhhhhhhhhhhh", "Rhhhhhhhhhhhhh", "P", "R", "", "Shhhh", "Phhh\r", "Rhhhhhhhhhhhh00\r"};
  if (vf_bool("free_kind")) pat = pats[vf_below(12, "kind")];
#endif
  l.n = 0;
  for (unsigned i = 0; pat[i]; i++) {
    if (pat[i] == 'x') { l.c[i] = static_cast<unsigned char>(vf_nd_pick(8, "char", likely_hex, 14)); vf_assume(l.c[i] != '\n'); }
    else if (pat[i] == 'h') { l.c[i] = static_cast<unsigned char>(vf_nd_pick(8, "char", likely_hex, 7)); vf_assume(hexval(l.c[i]) >= 0); }
    else l.c[i] = static_cast<unsigned char>(pat[i]);
    l.n = i + 1;
  }
  l.c[l.n] = 0;
}
static inline void tef_case(const char* p0, const char* p1, const char* p2, bool lastnl) {
  Options o; o.feed_thru = vf_bool("feed");
  reset_input(3, lastnl);
  tef_line(g_line[0], p0); tef_line(g_line[1], p1); tef_line(g_line[2], p2);
#ifndef VF_MODEL
  Feed f(all_lines());
#endif
  const Group g = readTEFGroup(o);
  bool has[4] = {false, false, false, false}; uint32_t v[4] = {0, 0, 0, 0}; unsigned err = 0; bool done = false; unsigned used = 0;
  for (unsigned k = 0; k < 3; k++) {
    if (done) continue;
    used++;
    const Line& l = g_line[k];
    if (l.n > 1 && l.c[0] == 'P') { uint32_t x = 0; for (unsigned i = 1; i < 5; i++) if (i < l.n && l.c[i] != '\r') x = x * 16 + static_cast<uint32_t>(hexval(l.c[i])); has[0] = true; v[0] = x; }
    else if (l.n >= 15 && l.c[0] == 'R') {
      for (unsigned b = 0; b < 3; b++) { uint32_t x = 0; for (unsigned i = 0; i < 4; i++) x = x * 16 + static_cast<uint32_t>(hexval(l.c[1 + 4 * b + i])); v[b + 1] = x; }
      err = static_cast<unsigned>(hexval(l.c[13]) * 16 + hexval(l.c[14])); done = true;
    }
  }
  vf_assert(g.has(BLOCK1) == has[0] && (!has[0] || g.get(BLOCK1) == v[0]), "the first block is the last PI given before the group");
  vf_assert(g.hasPI() == has[0] && (!has[0] || g.getPI() == v[0]), "the PI is the one given");
  unsigned n = 4 - has[0];
  for (unsigned b = 1; b < 4; b++) {
    bool bad = (err >> (2 * (3 - b))) & 3;
    bool r = g.has(static_cast<eBlockNumber>(b));
    if (!done || bad) vf_assert(!r, "a block marked as erroneous, or not given, is not received");
    if (done && err == 0) vf_assert(r, "the blocks of a group free of errors are received");
    if (r) { vf_assert(g.get(static_cast<eBlockNumber>(b)) == v[b], "a block has the value of its digits"); n--; }
  }
  (void)n;
  vf_assert(g.hasType() == g.has(BLOCK2) && (!g.hasType() || g.getType().number == v[1] >> 12), "the group type is that of a received second block");
  vf_assert(g.getDataStream() == 0, "TEF6686 groups are of the main data stream");
  if (!done && g_lastnl) used++;
#ifdef VF_MODEL
  vf_assert(g_next == used, "lines are read up to the first group");
  vf_assert(!g_outbad && g_outs == (o.feed_thru ? 2 * used : 0u), "feed-through echoes the lines read");
#else
  vf_assert(f.out.str() == (o.feed_thru ? echoed(used) : std::string()), "feed-through echoes the lines read");
#endif
}

extern "C" void h_tef_0() { tef_case("Phhhh", "Rhhhhhhhhhhhhhh", "Phhhh", true); tef_case("Rhhhhhhhhhhhhhh", "Phhhh", "", false); }
extern "C" void h_tef_1() { tef_case("Phhhh", "Phhhh", "Rhhhhhhhhhhhh00", true); tef_case("P", "Phh", "Rhhhhhhhhhhhh0", true); }
extern "C" void h_tef_2() { tef_case("ahhhh", "Shhhhhhhhhhhhhh", "", true); tef_case("Phhhh", "", "R", false); tef_case("R", "Phhhh", "Rhhhhhhhhhhhhhhh", false); }

// --- ASCII bits
#ifdef VF_MODEL
static int g_chars[6]; static unsigned g_nchars, g_echo; static bool g_echobad;
extern "C" {
int in_getc(FILE* f) { vf_assert(f == stdin, "bits are read from standard input"); unsigned k = g_nchars++; return k < 6 ? g_chars[k] : -1; }
int in_putc(int c, FILE* f) { vf_assert(f == stdout, "echoed to standard output"); if (g_nchars == 0 || c != g_chars[g_nchars - 1 < 6 ? g_nchars - 1 : 5]) g_echobad = true; g_echo++; return c; }
int in_getchar() { unsigned k = g_nchars++; return k < 6 ? g_chars[k] : -1; }
int in_putchar(int c) { if (g_nchars == 0 || c != g_chars[g_nchars - 1 < 6 ? g_nchars - 1 : 5]) g_echobad = true; g_echo++; return c; }
}
#else
extern "C" { void in_getc() {} void in_putc() {} void in_getchar() {} void in_putchar() {} }
#endif
extern "C" void h_ascii_bits() {
  Options o;
  o.feed_thru = vf_bool("feed");
  static const uint32_t likely[] = {'0', '1', '\n'};
  unsigned n = vf_below(6, "n"); int c[6];
  for (unsigned i = 0; i < 6; i++) c[i] = static_cast<int>(vf_nd_pick(8, "chr", likely, 3));
  // the first n characters, then the end
  bool want_eof = true; bool want = false; unsigned used = n + 1;
  for (unsigned i = 6; i-- > 0;) if (i < n && (c[i] == '0' || c[i] == '1')) { want_eof = false; want = c[i] == '1'; used = i + 1; }
#ifdef VF_MODEL
  for (unsigned i = 0; i < 6; i++) g_chars[i] = i < n ? c[i] : -1;
  g_nchars = 0; g_echo = 0; g_echobad = false;
  AsciiBitReader r(o);
  bool bit = r.readBit();
  vf_assert(g_nchars == used, "characters are read up to the next bit");
  vf_assert(!g_echobad && g_echo == (o.feed_thru ? used : 0u), "feed-through echoes the characters read");
#else
  o.feed_thru = false;
  char tmp[8]; for (unsigned i = 0; i < n; i++) tmp[i] = static_cast<char>(c[i]);
  tmp[n] = 0;
  FILE* old = stdin; FILE* f = n ? fmemopen(tmp, n, "r") : fopen("/dev/null", "r"); stdin = f;
  AsciiBitReader r(o);
  bool bit = r.readBit();
  stdin = old; fclose(f);
#endif
  vf_assert(r.eof() == want_eof, "the end is the end of the input");
  if (!want_eof) vf_assert(bit == want, "a bit is the next 0 or 1, all else is skipped");
}

// --- multiplex input
static unsigned g_frames, g_reads, g_writes, g_items; static float* g_dst; static int64_t g_want;
static int g_f, g_fo;
static uint32_t fbits(float f) { uint32_t u; __builtin_memcpy(&u, &f, 4); return u; }
extern "C" {
#ifdef VF_MODEL
int64_t sf_read_float(SNDFILE* f, float* p, int64_t n) { vf_assert(f == reinterpret_cast<SNDFILE*>(&g_f), "samples are read from the input"); g_reads++; g_dst = p; g_want = n; return g_items; }
int64_t sf_write_float(SNDFILE* f, const float* p, int64_t n) { vf_assert(f == reinterpret_cast<SNDFILE*>(&g_fo) && p == g_dst && n == g_items, "feed-through echoes the samples read"); g_writes++; return n; }
int sf_close(SNDFILE*) { return 0; }
#endif
}
static constexpr unsigned kS = 16;
static inline void mpx_case(uint32_t c, uint32_t ch) {
  MPXReader* r;
#ifdef VF_MODEL
  r = static_cast<MPXReader*>(vf_new_typed(const_cast<void*>(static_cast<const void*>(&vstl_tag<MPXReader>::dummy))));
#else
  std::unique_ptr<MPXReader> own(new MPXReader); r = own.get();
#endif
  r->num_channels_ = c;
  size_t used = vf_below(kS + 1, "used");
#ifndef VF_MODEL
  if (vf_bool("long")) used = vf_below(8193, "used_long");
  for (size_t i = 0; i < used; i++) r->buffer_.data[i] = static_cast<float>(i) * 0.5f - 3.f;
#endif
  float in[kS];
  for (unsigned i = 0; i < kS; i++) { in[i] = static_cast<float>(static_cast<int>(vf_nd(16, "sample")) - 32768) / 32768.f; if (i < used) r->buffer_.data[i] = in[i]; }
  int64_t t = static_cast<int64_t>(vf_nd(62, "time"));
  r->buffer_.used_size = used; r->buffer_.time_received = std::chrono::system_clock::time_point(std::chrono::nanoseconds(t));
  bool threw = false;
  try {
    const MPXBuffer& b = r->readChunk(ch);
    vf_assert(ch < c, "a channel that does not exist is refused");
    vf_assert(b.used_size == used / c, "a channel has its share of the samples");
    vf_assert(b.time_received.time_since_epoch().count() == t, "every channel has the reception time of the samples");
    size_t k = vf_below(kS, "k");
    if (ch < c && k < used / c && k * c + ch < kS) vf_assert(fbits(b.data[k]) == fbits(in[k * c + ch]), "every channel has its own samples, in order");
#ifndef VF_MODEL
    if (ch < c) for (size_t i = kS; i < used / c; i++) vf_assert(i * c + ch < kS || b.data[i] == static_cast<float>(i * c + ch) * 0.5f - 3.f, "every channel has its own samples, in order");
#endif
  } catch (const std::logic_error&) { threw = true; }
  vf_assert(threw == (ch >= c), "existing channels are given");
  r->file_ = nullptr;
}
extern "C" void h_mpx_1() { const uint32_t c = 1; for (uint32_t i = 0; i <= c; i++) mpx_case(c, i); }
extern "C" void h_mpx_2() { const uint32_t c = 2; for (uint32_t i = 0; i <= c; i++) mpx_case(c, i); }
extern "C" void h_mpx_3() { const uint32_t c = 3; for (uint32_t i = 0; i <= c; i++) mpx_case(c, i); }
extern "C" void h_mpx_4() { const uint32_t c = 4; for (uint32_t i = 0; i <= c; i++) mpx_case(c, i); }
extern "C" void h_mpx_7() { mpx_case(7, 0); mpx_case(7, 3); mpx_case(7, 6); mpx_case(7, 7); }
#ifdef VF_MODEL
extern "C" void h_mpx_fill() {
  MPXReader* r = static_cast<MPXReader*>(vf_new_typed(const_cast<void*>(static_cast<const void*>(&vstl_tag<MPXReader>::dummy))));
  uint32_t c = 1 + vf_below(32, "channels");
  r->num_channels_ = c; r->is_eof_ = false; r->feed_thru_ = vf_bool("feed");
  r->file_ = reinterpret_cast<SNDFILE*>(&g_f); r->outfile_ = reinterpret_cast<SNDFILE*>(&g_fo);
  int64_t chunk = static_cast<int64_t>(1 + vf_below(8192, "chunk")); r->chunk_size_ = chunk;
  g_items = vf_below(8193, "items"); vf_assume(g_items <= chunk);
  g_now = static_cast<int64_t>(vf_nd(62, "now")); g_nows = 0; g_reads = 0; g_writes = 0;
  r->fillBuffer();
  vf_assert(g_reads == 1 && g_want == chunk && g_dst == r->buffer_.data.data(), "one chunk is read at a time");
  vf_assert(r->buffer_.used_size == g_items, "the chunk holds the samples read");
  vf_assert(r->eof() == (static_cast<int64_t>(g_items) < chunk), "the input ends at the first incomplete chunk");
  vf_assert(r->buffer_.time_received.time_since_epoch().count() == g_now, "the reception time is the time of reading");
  vf_assert(g_writes == (r->feed_thru_ ? 1u : 0u), "feed-through echoes every chunk");
}
#else
extern "C" void h_mpx_fill() {}
#endif
