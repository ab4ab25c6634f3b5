// Abstract text buffers for the Station-level contracts (proof mode). The operations of
// RDSString are replaced by recorders whose results are unconstrained; what the real
// operations do is the class contract proved in h_rdsstring.cc.
#pragma once
#include "vf_station.h"

enum OpKind { OP_SET, OP_CLEAR, OP_RESIZE, OP_ENC, OP_DIR };
struct Op { const void* t; int kind; size_t pos; unsigned byte; };
static Op g_ops[8];
static unsigned g_nops;
static bool g_complete[8];      // is the text complete after k operations
static bool g_terms;            // has the buffer terminators before
static size_t g_received;       // received length before
static bool g_throws;           // conversion fails
static std::string* g_last;     // latest complete text
static std::string* g_now;      // text in its present condition

static size_t g_ctorlen;        // length of the text made last

static inline void abs_init() {
  g_nops = 0;
  for (int i = 0; i < 8; i++) g_complete[i] = vf_bool("complete");
  g_terms = vf_bool("terminators");
  g_received = vf_below(65, "received");
  g_throws = vf_bool("throws");
#ifdef VF_MODEL
  g_last = VSTL_NEW(std::string)("LAST ");
  g_now = VSTL_NEW(std::string)("NOW ");
#endif
}
static inline void rec(const void* t, int kind, size_t pos, unsigned byte) {
  if (g_nops < 8) { g_ops[g_nops].t = t; g_ops[g_nops].kind = kind; g_ops[g_nops].pos = pos; g_ops[g_nops].byte = byte; }
  g_nops++;
}
static inline bool is_op(unsigned i, const void* t, int kind, size_t pos, unsigned byte) {
  return g_ops[i].t == t && g_ops[i].kind == kind && g_ops[i].pos == pos && g_ops[i].byte == byte;
}
static inline bool is_set2(unsigned i, const void* t, size_t pos, uint16_t word) { return is_op(i, t, OP_SET, pos, word >> 8) && is_op(i + 1, t, OP_SET, pos + 1, word & 255); }

extern "C" {
void abs_set(RDSString* t, size_t pos, uint8_t b) { rec(t, OP_SET, pos, b); }
void abs_clear(RDSString* t) { rec(t, OP_CLEAR, 0, 0); }
void abs_resize(RDSString* t, size_t n) { rec(t, OP_RESIZE, n, 0); }
bool abs_complete(const RDSString*) { return g_complete[g_nops & 7]; }
bool abs_terms(const RDSString*) { return g_terms; }
size_t abs_received(const RDSString*) { return g_received; }
std::vector<uint8_t> abs_data(const RDSString*) { std::vector<uint8_t> v; v.push_back(0x4A); v.push_back(0x0B); return v; }
const std::string* abs_last(const RDSString*) { return g_last; }
std::string abs_str(const RDSString*) {
#ifdef VF_MODEL
  if (g_throws) throw std::runtime_error("conversion");
#endif
  return *g_now;
}
// alternative frequencies: contract in h_af.cc
static unsigned g_afn, g_afclr; static uint16_t g_af[4]; static bool g_afB, g_afcomplete; static const void* g_afobj[4]; static int g_afl[2];
void abs_af_insert(AltFreqList* l, uint16_t c) { if (g_afn < 4) { g_af[g_afn] = c; g_afobj[g_afn] = l; } g_afn++; }
bool abs_af_complete(const AltFreqList*) { return g_afcomplete; }
bool abs_af_methodb(const AltFreqList*) { return g_afB; }
void abs_af_clear(AltFreqList*) { g_afclr++; }
std::vector<int> abs_af_list(const AltFreqList*) { std::vector<int> v; if (g_afcomplete) { v.push_back(g_afl[0]); v.push_back(g_afl[1]); } return v; }
}
#ifdef VF_MODEL
// texts whose contents do not matter
extern "C" void abs_ctor(RDSString* t, size_t n) {
  new (&t->data_) std::vector<uint8_t>(); new (&t->last_complete_data_) std::vector<uint8_t>(); new (&t->last_complete_string_) std::string();
  t->encoding_ = RDSString::Encoding::Basic; t->direction_ = RDSString::Direction::LTR; t->prev_pos_ = 0; t->sequential_length_ = 0; g_ctorlen = n;
}
// contract: h_rtrim; the abstract texts have at most one trailing blank
extern "C" std::string abs_rtrim(std::string s) {
  std::string r = s;
  if (r.n_ > 0 && r.get(r.n_ - 1) == ' ') { r.n_--; if (!r.ext_) r.p_->b[r.n_] = 0; }
  vf_assert(r.n_ == 0 || r.get(r.n_ - 1) != ' ', "MODEL: abstract texts end in at most one blank");
  return r;
}
#else
extern "C" { void abs_rtrim() {} void abs_ctor() {} }
#endif
