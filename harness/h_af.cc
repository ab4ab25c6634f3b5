// Contracts of alternative frequencies: code table, list assembly, and the lists printed for group 0A.
#include "vf_abs.h"
#include "src/util.hh"

// EN 50067 3.2.1.6.1, independent of the code
static inline int spec_khz(unsigned code, bool lfmf) {
  if (lfmf) { if (code >= 1 && code <= 15) return 153 + 9 * static_cast<int>(code - 1); if (code >= 16 && code <= 135) return 531 + 9 * static_cast<int>(code - 16); return 0; }
  if (code >= 1 && code <= 204) return 87600 + 100 * static_cast<int>(code - 1);
  return 0;
}
extern "C" void h_frequency() {
  uint16_t code = vf_u16("code"); bool lf = vf_bool("lfmf");
  CarrierFrequency f(code, lf ? CarrierFrequency::Band::LF_MF : CarrierFrequency::Band::FM);
  int want = spec_khz(code, lf);
  vf_assert(f.isValid() == (want != 0), "a code is a frequency exactly when it is in the code table");
  vf_assert(f.kHz() == want, "a code stands for its frequency in the code table");
  CarrierFrequency d(code);
  vf_assert(d.kHz() == spec_khz(code, false), "codes are FM frequencies unless LF/MF was announced");
}

struct SpecAf {
  int f[25]; size_t expected, n; bool lf;
  void insert(unsigned code) {
    bool was = lf; lf = false;
    int k = spec_khz(code, was);
    if (k != 0 && expected > 0) { if (n < expected) { f[n] = k; n++; } else { expected = n = 0; } }
    else if (code == 205 || code == 224) { }
    else if (code >= 225 && code <= 249) { expected = code - 224; n = 0; }
    else if (code == 250) lf = true;
    else expected = n = 0;
  }
  bool complete() const { return n > 0 && n == expected; }
  bool methodB() const {
    if (expected % 2 != 1 || n < 3) return false;
    for (size_t i = 1; i + 1 < 25; i += 2) if (i < n && f[i] != f[0] && f[i + 1] != f[0]) return false;
    return true;
  }
};
static const uint32_t kAf[] = {1, 2, 3, 16, 204, 205, 224, 225, 227, 228, 229, 249, 250};
static inline SpecAf any_af(AltFreqList& l) {
  SpecAf s;
  for (int i = 0; i < 25; i++) { s.f[i] = static_cast<int>(vf_nd_pick(18, "freq", kAf, 6)); l.alt_freqs_[i] = s.f[i]; }
  s.expected = vf_below(26, "expected"); s.n = vf_below(static_cast<uint32_t>(s.expected) + 1, "received"); s.lf = vf_bool("lf");
  l.num_expected_ = s.expected; l.num_received_ = s.n; l.lf_mf_follows_ = s.lf;
  return s;
}
static inline bool af_same(const SpecAf& s, const AltFreqList& l) {
  if (l.num_expected_ != s.expected || l.num_received_ != s.n || l.lf_mf_follows_ != s.lf) return false;
  for (size_t i = 0; i < 25; i++) if (i < s.n && l.alt_freqs_[i] != s.f[i]) return false;
  return true;
}
extern "C" void h_af_insert() {
  AltFreqList l;
  vf_assert(l.num_expected_ == 0 && l.num_received_ == 0 && !l.lf_mf_follows_, "a new list is empty");
  SpecAf s = any_af(l);
  unsigned code = static_cast<unsigned>(vf_nd_pick(8, "code", kAf, 13)) & 255;
  l.insert(static_cast<uint16_t>(code));
  s.insert(code);
  vf_assert(af_same(s, l), "a list takes the announced number of frequencies, in order, and is abandoned on an invalid code");
  vf_assert(l.num_received_ <= l.num_expected_ && l.num_expected_ <= 25, "a list never exceeds 25 frequencies");
  vf_assert(l.isComplete() == s.complete(), "a list is complete when as many frequencies as announced were received");
  vf_assert(l.isMethodB() == s.methodB(), "a list is of method B when it is made of pairs with the tuned frequency");
  auto r = l.getRawList();
  vf_assert(r.size() == s.n, "the whole list is given");
  size_t i = vf_below(25, "i");
  if (i < s.n) vf_assert(r[i] == s.f[i], "the list is given in the order received");
  vf_cover(s.complete(), "complete"); vf_cover(s.methodB(), "method B");
}
extern "C" void h_af_clear() { AltFreqList l; SpecAf s = any_af(l); (void)s; l.clear(); vf_assert(!l.isComplete() && l.num_expected_ == 0 && l.num_received_ == 0, "an abandoned list is empty"); }

// --- lists printed by group 0A; lists are abstract here (proved above)
#ifdef VF_MODEL
static SpecAf* g_l; static bool g_lc, g_lb;
extern "C" {
bool abs_l_complete(const AltFreqList*) { return g_lc; }
bool abs_l_methodb(const AltFreqList*) { return g_lb; }
std::vector<int> abs_l_list(const AltFreqList*) { std::vector<int> v; for (size_t i = 0; i < 25; i++) v.u_->buf[i] = g_l->f[i]; v.n_ = g_l->n; return v; }
}
#else
extern "C" { void abs_l_complete() {} void abs_l_methodb() {} void abs_l_list() {} }
#endif
enum Which { PARTIAL, LIST_A, LIST_B };
static inline void af_print(Which w, size_t nb = 0) {
  const bool wantB = w == LIST_B;
  VfBlocks b = typed_blocks(0, false);
  b.has[2] = true; b.has[3] = false;
  Options o; o.show_partial = vf_bool("partial");
  Station st(o, 0, 0x1234);
  st.last_group_had_pi_ = true;
  bool complete, mb;
#ifdef VF_MODEL
  SpecAf s; g_l = &s;
  s.expected = 0; s.lf = false;
  s.n = wantB ? nb : vf_below(26, "n");
  for (int i = 0; i < 25; i++) s.f[i] = static_cast<int>(vf_nd(18, "freq"));
  complete = g_lc = w != PARTIAL; mb = g_lb = w == LIST_B;
  vf_assume(!complete || s.n > 0);
  s.expected = complete ? s.n : 25;
  if (wantB) vf_assume(s.methodB());
  g_afn = g_afclr = 0;
#else
  SpecAf s = any_af(st.alt_freq_list_);
  if (vf_bool("last")) { s.n = s.expected > 1 ? s.expected - 2 : 0; st.alt_freq_list_.num_received_ = s.n; b.data[2] = static_cast<uint16_t>((1 + vf_below(200, "c1")) << 8 | (1 + vf_below(200, "c2"))); }
  if (wantB) {
    int tf = spec_khz(1 + vf_below(20, "tuned"), false);
    for (int i = 0; i < 25; i++) { int k = spec_khz(1 + vf_below(40, "alt"), false); s.f[i] = i == 0 || vf_bool("t") == (i % 2) ? tf : k; }
    for (int i = 1; i < 25; i += 2) if (s.f[i] != tf && s.f[i + 1] != tf) s.f[i + 1] = tf;
    for (int i = 0; i < 25; i++) st.alt_freq_list_.alt_freqs_[i] = s.f[i];
    s.expected = nb; s.n = s.expected - 2; st.alt_freq_list_.num_expected_ = s.expected; st.alt_freq_list_.num_received_ = s.n; st.alt_freq_list_.lf_mf_follows_ = s.lf = false;
    unsigned ct = static_cast<unsigned>((tf - 87500) / 100), ca = 1 + vf_below(60, "ca");
    b.data[2] = vf_bool("order") ? static_cast<uint16_t>(ct << 8 | ca) : static_cast<uint16_t>(ca << 8 | ct);
  }
  s.insert(b.data[2] >> 8); s.insert(b.data[2] & 255);
  complete = s.complete(); mb = s.methodB();
  if (w != (complete ? (mb ? LIST_B : LIST_A) : PARTIAL)) vf_assume(false);
#endif
  Group g = typed_group(b, 0, false);
  std::stringstream out;
  st.updateAndPrint(g, out);
  VfDocs docs(out.str());
  vf_assert(docs.wellformed && docs.n == 1, "one line per group");
  VfDoc d = docs.doc(0);
#ifdef VF_MODEL
  vf_assert(g_afclr == (complete ? 1u : 0u), "a list is taken once");
#else
  if (complete) vf_assert(st.alt_freq_list_.num_received_ == 0, "a list is taken once"); else vf_assert(af_same(s, st.alt_freq_list_), "an incomplete list is kept");
#endif
  vf_assert(JHAS(d, "alt_frequencies_a") == (complete && !mb), "a complete method A list is given as such");
  if (!wantB) {
    vf_assert(!JHAS(d, "alt_frequencies_b/tuned_frequency") && !JHAS(d, "alt_frequencies_b/same_programme") && !JHAS(d, "alt_frequencies_b/regional_variants"), "a method B list is only given when there is one");
    vf_assert(JHAS(d, "partial_alt_frequencies") == (!complete && o.show_partial && s.n > 0), "an incomplete list is only given on request");
    size_t i = vf_below(25, "i");
    if (JHAS(d, "alt_frequencies_a")) { vf_assert(JLEN(d, "alt_frequencies_a") == s.n, "every frequency of the list is given"); if (i < s.n) vf_assert(JITEM(d, "alt_frequencies_a", static_cast<unsigned>(i)) == s.f[i], "frequencies are given in the order received"); }
    if (JHAS(d, "partial_alt_frequencies")) { vf_assert(JLEN(d, "partial_alt_frequencies") == s.n, "every frequency of the partial list is given"); if (i < s.n) vf_assert(JITEM(d, "partial_alt_frequencies", static_cast<unsigned>(i)) == s.f[i], "partial frequencies are given in the order received"); }
    vf_cover(w == PARTIAL ? JHAS(d, "partial_alt_frequencies") : JHAS(d, "alt_frequencies_a"), "list");
    return;
  }
  // Method B: pairs with the tuned frequency; ascending pairs carry the same programme, descending pairs a regional variant
  size_t na = 0, nr = 0, uniq = 0; int A[12], R[12];
  bool kind[12]; int val[12];
  for (int k = 0; k < 12; k++) {
    size_t i = 1 + 2 * static_cast<size_t>(k);
    bool in = i < s.n;
    int f1 = s.f[i], f2 = s.f[i + 1];
    val[k] = f1 == s.f[0] ? f2 : f1; kind[k] = f1 < f2;
    bool dup = false;
    for (int j = 0; j < k; j++) if (val[j] == val[k] && kind[j] == kind[k]) dup = true;
    if (in && !dup) uniq++;
    if (in && kind[k]) { A[na] = val[k]; na++; }
    if (in && !kind[k]) { R[nr] = val[k]; nr++; }
  }
  bool ok = uniq == s.n / 2;
  vf_assert(JHAS(d, "alt_frequencies_b/tuned_frequency") == ok, "a method B list is given when no frequency is repeated");
  vf_assert(JHAS(d, "alt_frequencies_b/same_programme") == (ok && na > 0) && JHAS(d, "alt_frequencies_b/regional_variants") == (ok && nr > 0), "the parts of a method B list are given when there is something in them");
  if (!ok) return;
  vf_assert(JNUM(d, "alt_frequencies_b/tuned_frequency") == s.f[0], "the first frequency is the tuned one");
  size_t i = vf_below(12, "i");
  if (na > 0) vf_assert(JLEN(d, "alt_frequencies_b/same_programme") == na && (i >= na || JITEM(d, "alt_frequencies_b/same_programme", static_cast<unsigned>(i)) == A[i]), "ascending pairs are the same programme, in order");
  if (nr > 0) vf_assert(JLEN(d, "alt_frequencies_b/regional_variants") == nr && (i >= nr || JITEM(d, "alt_frequencies_b/regional_variants", static_cast<unsigned>(i)) == R[i]), "descending pairs are regional variants, in order");
  vf_cover(na > 0 && (nr > 0 || nb < 5), "both");
}
extern "C" void h_af_print_a() { af_print(LIST_A); }
// method B lists of every possible length
#define B_(n) extern "C" void h_af_b_##n() { af_print(LIST_B, n); }
B_(3) B_(5) B_(7) B_(9) B_(11) B_(13) B_(15) B_(17) B_(19) B_(21) B_(23) B_(25)
extern "C" void h_af_partial() { af_print(PARTIAL); }
