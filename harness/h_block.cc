// Contracts of the block decoder: BlockStream, SyncPulseBuffer, error correction.
#include "vf.h"
#include "src/block_sync.hh"
using namespace redsea;

// ---- specification: the (26,16) shortened cyclic code of EN 50067 annex B ----
// generator g(x) = x^10 + x^8 + x^7 + x^5 + x^4 + x^3 + 1
static const uint32_t kGen = 0x5B9;
static inline uint32_t spec_rem(uint32_t v) {  // v(x) mod g(x)
  for (int k = 25; k >= 10; k--)
    if ((v >> k) & 1u) v ^= kGen << (k - 10);
  return v & 0x3FFu;
}
static inline uint32_t spec_word(Offset o) {
  return o == Offset::A ? 0x0FCu : o == Offset::B ? 0x198u : o == Offset::C ? 0x168u : o == Offset::Cprime ? 0x350u : 0x1B4u;
}
// A received word is valid for an offset iff it is a codeword plus the offset word, i.e.
// (raw + d(o)) mod g = 0; by linearity of the remainder (h_rem_linear) iff raw mod g = d(o).
// The word under test is built from its data bits and its remainder (a bijection onto the
// 26-bit words, h_word), so its remainder is known without recomputing it.
static uint32_t g_vec = 0, g_rem = 0;
static inline uint32_t spec_rem_of(uint32_t v) { return v == g_vec ? g_rem : spec_rem(v); }
static inline bool spec_valid(uint32_t raw, Offset o) { return spec_rem_of(raw) == spec_word(o); }
// raw is a codeword for o disturbed by the error pattern e
static inline bool spec_valid_but(uint32_t raw, uint32_t e, Offset o) { return spec_rem_of(raw) == (spec_word(o) ^ spec_rem(e)); }
// EN 50067 B.1.1: the syndrome is the remainder in another basis
static inline uint32_t spec_basis(uint32_t r) {
  static const uint32_t row[10] = {0x31B, 0x38F, 0x2A7, 0x0F7, 0x1EE, 0x3DC, 0x201, 0x1BB, 0x376, 0x355};
  uint32_t s = 0;
  for (int j = 0; j < 10; j++) if ((r >> j) & 1u) s ^= row[j];
  return s;
}
static inline uint32_t spec_encode(uint16_t data, Offset o) {
  uint32_t m = static_cast<uint32_t>(data) << 10;
  return (m | spec_rem(m)) ^ spec_word(o);
}
static inline uint32_t spec_burst(uint32_t k) {  // 51 correctable patterns
  return k < 26 ? 1u << k : 3u << (k - 26);
}
static uint32_t nd_word() {
  static uint32_t likely[5 * 52]; static bool init = false;
#ifndef VF_MODEL
  if (!init) {
    Offset all[5] = {Offset::A, Offset::B, Offset::C, Offset::Cprime, Offset::D};
    for (uint32_t i = 0; i < 5; i++) for (uint32_t k = 0; k < 52; k++) likely[i * 52 + k] = spec_word(all[i]) ^ (k < 51 ? spec_rem(spec_burst(k)) : 0);
    init = true;
  }
#endif
  uint32_t d = static_cast<uint32_t>(vf_u16("word")) << 10;
  g_rem = static_cast<uint32_t>(vf_nd_pick(10, "remainder", likely, 5 * 52));
  g_vec = d | (spec_rem(d) ^ g_rem);
  return g_vec;
}
static inline int spec_index(Offset o) { return o == Offset::A ? 0 : o == Offset::B ? 1 : (o == Offset::C || o == Offset::Cprime) ? 2 : 3; }

static inline bool same_group(const Group& a, const Group& b) {
  bool r = true;
  for (int i = 0; i < 4; i++) {
    eBlockNumber n = static_cast<eBlockNumber>(i);
    r = r && a.has(n) == b.has(n) && (!a.has(n) || a.get(n) == b.get(n));
  }
  return r && a.getNumErrors() == b.getNumErrors() && a.hasType() == b.hasType() && a.getType().number == b.getType().number && a.getType().version == b.getType().version && a.hasPI() == b.hasPI() && (!a.hasPI() || a.getPI() == b.getPI());
}

static inline Offset nd_offset(uint32_t i) { return i == 0 ? Offset::A : i == 1 ? Offset::B : i == 2 ? Offset::C : Offset::D; }

// A group under construction at block index k: only blocks 0..k-1 may be present.
static inline Group nd_partial_group(uint32_t k) {
  Group g;
  for (uint32_t i = 0; i < 4; i++) {
    bool has = vf_bool("has");
    uint16_t data = vf_u16("data");
    bool err = vf_bool("err");
    bool cp = vf_bool("cprime");
    if (i < k && has) {
      Block b;
      b.raw = static_cast<uint32_t>(data) << 10;
      b.data = data;
      b.is_received = true;
      b.had_errors = err;
      b.offset = i == 2 ? (cp ? Offset::Cprime : Offset::C) : nd_offset(i);
      g.setBlock(static_cast<eBlockNumber>(i), b);
    }
  }
  return g;
}

struct Sync { BlockStream s; uint32_t k; uint32_t errs; uint32_t ptr; int oldest; uint32_t raw; bool bit; };

// An arbitrary reachable in-sync state at a block boundary (one bit before the block ends).
static inline void nd_in_sync(Sync& x, uint32_t bits_left) {
  Options o;
  o.use_fec = vf_bool("fec");
  x.s.init(o);
  x.k = vf_below(4, "k");
  x.s.is_in_sync_ = true;
  x.s.expected_offset_ = nd_offset(x.k);
  x.s.current_group_ = nd_partial_group(x.k);
  x.s.num_bits_until_next_block_ = bits_left;
  x.raw = nd_word();
  x.bit = x.raw & 1u;
  x.s.input_register_ = (static_cast<uint32_t>(vf_nd(7, "older")) << 25) | (x.raw >> 1);
  x.s.bitcount_ = vf_u32("bitcount");
  x.errs = 0;
  for (int i = 0; i < 50; i++) {
    int e = vf_bool("history");
    x.s.block_error_sum50_.history_[static_cast<size_t>(i)] = e;
    x.errs += static_cast<uint32_t>(e);
  }
  x.ptr = vf_below(50, "ptr");
  x.s.block_error_sum50_.pointer_ = x.ptr;
  x.oldest = x.s.block_error_sum50_.history_[x.ptr];
#ifndef VF_MODEL
  vf_assume(x.errs <= 42);  // invariant of being in sync (not needed by the proofs)
#endif
}

namespace redsea {
std::uint32_t calculateSyndrome(std::uint32_t vec);
ErrorCorrectionResult correctBurstErrors(Block block, Offset expected_offset);
Offset getOffsetForSyndrome(std::uint32_t syndrome);
}

// ---- C01 ---------------------------------------------------------------------
// The 51 patterns have distinct non-zero remainders, so correction is unambiguous.
extern "C" void h_burst_unique() {
  uint32_t i = vf_below(51, "i"), j = vf_below(51, "j");
  uint32_t a = spec_burst(i), b = spec_burst(j);
  vf_assert(spec_rem(a) != 0, "burst has non-zero syndrome");
  if (i != j) vf_assert(spec_rem(a) != spec_rem(b), "correctable bursts have distinct syndromes");
}

extern "C" void h_rem_linear() {
  uint32_t a = static_cast<uint32_t>(vf_nd(26, "a")), b = static_cast<uint32_t>(vf_nd(26, "b"));
  vf_assert(spec_rem(a ^ b) == (spec_rem(a) ^ spec_rem(b)), "remainder is linear");
  if (a < 1024) vf_assert(spec_rem(a) == a, "remainder of a short word");
}
extern "C" void h_word() {
  uint32_t a = static_cast<uint32_t>(vf_nd(26, "a")), r = static_cast<uint32_t>(vf_nd(10, "r"));
  uint32_t d = a & 0x3FFFC00u;
  vf_assert(spec_rem(d | (spec_rem(d) ^ r)) == r, "a word is determined by its data bits and its remainder");
  vf_assert((d | (spec_rem(d) ^ spec_rem(a))) == a, "every word has such a form");
}
// The syndrome is linear, with the columns given by the remainders of the single bits.
static inline uint32_t spec_syndrome(uint32_t a) {
  uint32_t s = 0;
  for (uint32_t k = 0; k < 26; k++) s ^= spec_basis(spec_rem(1u << k)) * ((a >> k) & 1u);
  return s;
}
extern "C" void h_syndrome() {
  uint32_t a = static_cast<uint32_t>(vf_nd(26, "a"));
  vf_assert(calculateSyndrome(a) == spec_syndrome(a), "syndrome is the remainder modulo the generator polynomial");
}
extern "C" void h_syndrome_basis() {
  uint32_t r = static_cast<uint32_t>(vf_nd(10, "r")), q = static_cast<uint32_t>(vf_nd(10, "q"));
  if (r != q) vf_assert(spec_basis(r) != spec_basis(q), "distinct remainders give distinct syndromes");
  vf_assert((spec_basis(r) ^ spec_basis(q)) == spec_basis(r ^ q), "the syndrome is linear in the remainder");
}
extern "C" uint32_t stub_syndrome(uint32_t vec) { return spec_basis(spec_rem_of(vec)); }  // contract: h_syndrome

// Contract of the syndrome -> offset-word recognition.
extern "C" void h_offset_word() {
  uint32_t raw = nd_word();
  Offset o = getOffsetForSyndrome(calculateSyndrome(raw));
  Offset e = Offset::invalid;
  Offset all[5] = {Offset::A, Offset::B, Offset::C, Offset::Cprime, Offset::D};
  for (int i = 0; i < 5; i++) if (spec_valid(raw, all[i])) e = all[i];
  vf_assert(o == e, "offset word recognised exactly when the check bits match it");
  vf_cover(o == Offset::Cprime, "C' recognised");
  vf_cover(o == Offset::invalid, "invalid recognised");
}

// Contract of correctBurstErrors.
extern "C" void h_correct() {
  Block b;
  b.raw = nd_word();
  uint32_t oi = vf_below(5, "offset");
  Offset o = oi == 4 ? Offset::Cprime : nd_offset(oi);
  auto r = correctBurstErrors(b, o);
  bool can = false; uint32_t fix = 0;
  for (uint32_t k = 0; k < 51; k++) if (spec_valid_but(b.raw, spec_burst(k), o)) { can = true; fix = b.raw ^ spec_burst(k); }
  if (can) vf_assert(r.succeeded && r.corrected_bits == fix, "1-bit and 2-bit burst errors are corrected");
  if (!can && !spec_valid(b.raw, o)) vf_assert(!r.succeeded, "any other error pattern is rejected");
  vf_cover(can, "correctable block");
  vf_cover(!can, "uncorrectable block");
}

// Contract of correctBurstErrors, established by h_correct. The specification value for
// the arguments the harness expects is computed once and shared.
static uint32_t g_raw; static Offset g_off; static bool g_can; static uint32_t g_fix;
static void spec_correct(uint32_t raw, Offset o) {
  g_raw = raw; g_off = o; g_can = false; g_fix = raw;
  for (uint32_t k = 0; k < 51; k++) if (spec_valid_but(raw, spec_burst(k), o)) { g_can = true; g_fix = raw ^ spec_burst(k); }
}
extern "C" ErrorCorrectionResult stub_correct(Block block, Offset o) {
  ErrorCorrectionResult r;
  if (!(block.raw == g_raw && o == g_off)) spec_correct(block.raw, o);
  r.corrected_bits = g_fix;
  r.succeeded = g_can;
  if (spec_valid(block.raw, o)) { r.succeeded = vf_nd_hidden(1) & 1; r.corrected_bits = block.raw; }  // clean block: unspecified
  return r;
}
// Number of bad blocks in the window, established by h_running_sum.
static bool g_sum_used = false; static int g_sum; static uint32_t g_sum_max = 50;
extern "C" int stub_sum(const RunningSum<int, 50>*) {
  uint32_t v = static_cast<uint32_t>(vf_nd_hidden(8) & 0xFF);
  vf_assume(v <= g_sum_max);
  g_sum_used = true; g_sum = static_cast<int>(v);
  return g_sum;
}

extern "C" void h_running_sum() {
  RunningSum<int, 50> s;
  int want = 0;
  for (size_t i = 0; i < 50; i++) { s.history_[i] = vf_bool("history"); }
  s.pointer_ = vf_below(50, "ptr");
  for (size_t i = 0; i < 50; i++) want += s.history_[i];
  vf_assert(s.getSum() == want, "the error count covers exactly the last 50 blocks");
  size_t p = s.pointer_;
  size_t j = vf_below(50, "j");
  int old = s.history_[j];
  bool e = vf_bool("e");
  s.push(e);
  vf_assert(s.history_[j] == (j == p ? static_cast<int>(e) : old), "each block replaces the oldest of the 50 results");
  vf_assert(s.pointer_ == (p + 1) % 50, "the oldest result is replaced next");
  s.clear();
  vf_assert(s.history_[j] == 0, "clearing forgets all results");
}

// Acceptance of a block while in sync.
extern "C" void h_accept() {
  Sync x;
  nd_in_sync(x, 1);
  bool bit = x.bit;
  uint32_t raw = x.raw;
  bool fec = x.s.options_.use_fec;
  Offset eff = nd_offset(x.k);
  if (x.k == 2 && spec_valid(raw, Offset::Cprime)) eff = Offset::Cprime;
  bool clean = spec_valid(raw, eff);
  spec_correct(raw, eff);
  bool can = g_can; uint32_t fix = g_fix;
  bool accept = clean || (fec && can);
  uint16_t want = static_cast<uint16_t>((clean ? raw : fix) >> 10);
  Group before = x.s.flushCurrentGroup();

  x.s.pushBit(bit);

  if (x.s.is_in_sync_) {
    eBlockNumber n = static_cast<eBlockNumber>(x.k);
    Group g = x.k == 3 ? x.s.popGroup() : x.s.flushCurrentGroup();
    vf_assert(g.has(n) == accept, "a block is accepted exactly when its check bits match or a burst of one or two bits is corrected");
    if (accept) {
      vf_assert(g.get(n) == want, "an accepted block carries the transmitted 16 data bits");
      vf_assert(g.getNumErrors() == before.getNumErrors() - (clean ? 1 : 0), "a corrected block counts as an error");
      if (n == BLOCK3 && !before.has(BLOCK1)) vf_assert(g.hasPI() == (eff == Offset::Cprime), "block 3 repeats the PI only with offset C'");
    } else {
      vf_assert(g.getNumErrors() == before.getNumErrors(), "a rejected block counts as an error");
    }
    for (uint32_t i = 0; i < 4; i++)
      if (i != x.k) vf_assert(g.has(static_cast<eBlockNumber>(i)) == before.has(static_cast<eBlockNumber>(i)) && (!before.has(static_cast<eBlockNumber>(i)) || g.get(static_cast<eBlockNumber>(i)) == before.get(static_cast<eBlockNumber>(i))), "other blocks of the group are untouched");
    vf_cover(accept && !clean, "corrected");
    vf_cover(!accept && fec, "uncorrectable");
    vf_cover(!accept && !fec && can, "correctable but FEC disabled");
  }
}

// A transmitted block hit by a correctable burst is delivered with its original data.
extern "C" void h_roundtrip() {
  Sync x;
  nd_in_sync(x, 1);
  x.s.options_.use_fec = true;
  bool cp = vf_bool("cp");
  uint32_t p = vf_below(52, "burst");
  Offset o = x.k == 2 && cp ? Offset::Cprime : nd_offset(x.k);
  // the word is a codeword for o disturbed by p
  uint32_t e = p < 51 ? spec_burst(p) : 0u;
  vf_assume(g_rem == (spec_word(o) ^ spec_rem(e)));
  // in the third block, C' is only assumed when it matches exactly
  vf_assume(!(o == Offset::Cprime && p < 51));
  uint32_t raw = x.raw;
  uint16_t data = static_cast<uint16_t>((raw ^ e) >> 10);
  spec_correct(raw, o);
  x.s.pushBit(raw & 1u);
  if (!x.s.is_in_sync_) return;
  Group g = x.k == 3 ? x.s.popGroup() : x.s.flushCurrentGroup();
  eBlockNumber n = static_cast<eBlockNumber>(x.k);
  vf_assert(g.has(n) && g.get(n) == data, "block with at most one burst of one or two bit errors is delivered with its original data");
}

// ---- C02 ---------------------------------------------------------------------
// Bits in the middle of a block only shift the register.
extern "C" void h_frame_bit() {
  Sync x;
  uint32_t left = vf_below(25, "left") + 2;
  nd_in_sync(x, left);
  Group cur = x.s.flushCurrentGroup();
  uint32_t reg = x.s.input_register_;
  bool bit = vf_bool("bit");
  x.s.pushBit(bit);
  vf_assert(!x.s.hasGroupReady(), "no group is emitted in the middle of a block");
  vf_assert(same_group(cur, x.s.flushCurrentGroup()), "a bit inside a block changes no block");
  vf_assert(x.s.num_bits_until_next_block_ == left - 1, "blocks are exactly 26 bits");
  vf_assert((x.s.input_register_ & 0x3FFFFFFu) == (((reg << 1) | bit) & 0x3FFFFFFu), "bits are shifted in most significant first");
  vf_assert(x.s.is_in_sync_ && x.s.expected_offset_ == nd_offset(x.k), "sync state is kept inside a block");
}

// At a block boundary the decoder moves to the next block; a group is emitted
// exactly after the fourth, and the next group starts empty.
extern "C" void h_frame_block() {
  Sync x;
  nd_in_sync(x, 1);
  bool bit = x.bit;
  Group before = x.s.flushCurrentGroup();
  x.s.pushBit(bit);
  if (x.s.is_in_sync_) {
    vf_assert(x.s.num_bits_until_next_block_ == 26, "next block ends 26 bits later");
    vf_assert(x.s.hasGroupReady() == (x.k == 3), "a group is emitted exactly after its fourth block");
    vf_assert(x.s.expected_offset_ == nd_offset((x.k + 1) % 4), "blocks follow in the order A B C D");
    Group cur = x.s.flushCurrentGroup();
    for (uint32_t i = 0; i < 4; i++)
      if (i > x.k || x.k == 3) vf_assert(!cur.has(static_cast<eBlockNumber>(i)), "a new group holds no block of an earlier group");
    if (x.k == 3) {
      vf_assert(!cur.hasType() && !cur.hasPI() && cur.getNumErrors() == 4, "a new group starts with no type and no PI");
      Group g = x.s.popGroup();
      vf_assert(!x.s.hasGroupReady(), "a group is delivered once");
      for (uint32_t i = 0; i < 3; i++)
        vf_assert(g.has(static_cast<eBlockNumber>(i)) == before.has(static_cast<eBlockNumber>(i)) && (!g.has(static_cast<eBlockNumber>(i)) || g.get(static_cast<eBlockNumber>(i)) == before.get(static_cast<eBlockNumber>(i))), "the emitted group consists of its own four blocks");
      vf_cover(g.has(BLOCK4), "fourth block received");
    }
  } else {
    vf_assert(x.s.num_bits_until_next_block_ == 1, "out of sync every bit position is examined");
    vf_assert(!x.s.hasGroupReady(), "no group is emitted when sync is lost");
    vf_cover(true, "sync lost");
  }
}

// ---- C03 ---------------------------------------------------------------------
// Sync is dropped exactly when too many of the last 50 blocks had errors.
extern "C" void h_sync_loss() {
  Sync x;
  nd_in_sync(x, 1);
  bool bit = x.bit;
  uint32_t raw = x.raw;
  bool clean = spec_valid(raw, nd_offset(x.k)) || (x.k == 2 && spec_valid(raw, Offset::Cprime));
  spec_correct(raw, x.k == 2 && spec_valid(raw, Offset::Cprime) ? Offset::Cprime : nd_offset(x.k));
  size_t j = vf_below(50, "j");
  int old = x.s.block_error_sum50_.history_[j];
  x.s.pushBit(bit);
  uint32_t errs = g_sum_used ? static_cast<uint32_t>(g_sum) : x.errs - static_cast<uint32_t>(x.oldest) + (clean ? 0u : 1u);
  vf_assert(x.s.is_in_sync_ == (errs <= 42), "sync is dropped exactly when more than 42 of the last 50 blocks had errors");
  if (x.s.is_in_sync_) {
    vf_assert(x.s.getNumBitsSinceSyncLost() == 0, "in sync the time since sync loss is zero");
    vf_assert(x.s.block_error_sum50_.history_[j] == (j == x.ptr ? (clean ? 0 : 1) : old), "each block replaces the oldest of the 50 results");
    vf_assert(x.s.block_error_sum50_.pointer_ == (x.ptr + 1) % 50, "the oldest result is replaced next");
  } else {
    vf_assert(x.s.block_error_sum50_.history_[j] == 0, "after sync loss the error history starts afresh");
    vf_cover(true, "sync lost");
  }
}

// the second pulse comes 1..6 blocks after the first, in the cyclic order of the offset words
static inline bool spec_follows(Offset a, uint32_t pa, Offset b, uint32_t pb) {
  if (a == Offset::invalid || b == Offset::invalid) return false;
  uint32_t d = pb - pa;
  for (uint32_t n = 1; n <= 6; n++)
    if (d == 26 * n && (static_cast<uint32_t>(spec_index(a)) + n) % 4 == static_cast<uint32_t>(spec_index(b))) return true;
  return false;
}
static inline Offset nd_any_offset() {
  uint32_t i = vf_below(6, "pulse");
  return i == 4 ? Offset::Cprime : i == 5 ? Offset::invalid : nd_offset(i);
}

static inline uint32_t nd_near(uint32_t base, uint32_t step) {
  uint32_t likely[9];
  for (uint32_t i = 0; i < 9; i++) likely[i] = base + step * i;
  return static_cast<uint32_t>(vf_nd_pick(32, "position", likely, 9));
}
// Contract of SyncPulse::couldFollow for two pulses at different positions.
extern "C" void h_could_follow() {
  SyncPulse a, b;
  a.offset = nd_any_offset(); b.offset = nd_any_offset();
  a.bit_position = vf_u32("position"); 
  b.bit_position = nd_near(a.bit_position, 26u);
  vf_assume(a.bit_position != b.bit_position);
  vf_assert(b.couldFollow(a) == spec_follows(a.offset, a.bit_position, b.offset, b.bit_position), "two block starts are in rhythm exactly when they lie one to six blocks apart in the cyclic order");
}
extern "C" bool stub_follow(const SyncPulse* b, const SyncPulse* a) { return spec_follows(a->offset, a->bit_position, b->offset, b->bit_position); }

// Sync is acquired exactly when the block just seen is the third of three pulses in rhythm.
extern "C" void h_sync_acquire() {
  BlockStream s;
  Options o;
  o.use_fec = vf_bool("fec");
  s.init(o);
  s.is_in_sync_ = false;
  s.num_bits_until_next_block_ = 1;
  uint32_t raw = nd_word();
  bool bit = raw & 1u;
  s.input_register_ = (static_cast<uint32_t>(vf_nd(7, "older")) << 25) | (raw >> 1);
  s.bitcount_ = vf_u32("bitcount");
  s.num_bits_since_sync_lost_ = vf_u32("lost");
  s.expected_offset_ = nd_offset(vf_below(4, "k"));
  s.current_group_ = nd_partial_group(4);   // leftovers from before the loss
  s.block_error_sum50_.pointer_ = vf_below(50, "ptr");
  Offset po[4]; uint32_t pp[4];
  for (int i = 0; i < 4; i++) {
    po[i] = nd_any_offset(); pp[i] = nd_near(s.bitcount_ + 1, 0u - 26u);
    s.sync_buffer_.pulses_[static_cast<size_t>(i)].offset = po[i];
    s.sync_buffer_.pulses_[static_cast<size_t>(i)].bit_position = pp[i];
    // invariant: pulses are stored once per bit position, older ones earlier
    for (int j = 0; j < i; j++) vf_assume(po[i] == Offset::invalid || po[j] == Offset::invalid || pp[i] != pp[j]);
    vf_assume(po[i] == Offset::invalid || pp[i] != s.bitcount_ + 1);
  }
  g_sum_max = 1;  // the error history is empty out of sync (h_initial, h_sync_loss)
  uint32_t now = s.bitcount_ + 1;
  uint32_t lost = s.num_bits_since_sync_lost_;
  Offset all[5] = {Offset::A, Offset::B, Offset::C, Offset::Cprime, Offset::D};
  Offset cur = Offset::invalid;
  for (int i = 0; i < 5; i++) if (spec_valid(raw, all[i])) cur = all[i];
  bool want = false;
  if (cur != Offset::invalid)
    for (int i = 1; i < 3; i++) for (int j = i + 1; j < 4; j++)
      if (spec_follows(po[j], pp[j], cur, now) && spec_follows(po[i], pp[i], po[j], pp[j])) want = true;
  Group fresh;
  s.pushBit(bit);
  vf_assert(s.is_in_sync_ == want, "sync is acquired exactly on the third block-start in the cyclic A B C D rhythm");
  if (want) {
    vf_assert(s.num_bits_until_next_block_ == 26, "the next block ends 26 bits after sync");
    vf_assert(s.getNumBitsSinceSyncLost() == 0, "sync resets the out-of-sync time");
    Group g = spec_index(cur) == 3 ? s.popGroup() : s.flushCurrentGroup();
    uint32_t k = static_cast<uint32_t>(spec_index(cur));
    for (uint32_t i = 0; i < 4; i++)
      vf_assert(g.has(static_cast<eBlockNumber>(i)) == (i == k), "after acquiring sync the group holds only the block that completed the rhythm");
    vf_assert(g.get(static_cast<eBlockNumber>(k)) == static_cast<uint16_t>(raw >> 10), "the sync block itself is kept");
    vf_cover(k == 2, "sync on third block");
  } else {
    vf_assert(s.num_bits_until_next_block_ == 1, "out of sync every bit position is examined");
    vf_assert(!s.hasGroupReady(), "no group is emitted out of sync");
    vf_assert(s.getNumBitsSinceSyncLost() == lost + 1, "out-of-sync time advances with every bit");
    if (cur != Offset::invalid) {
      vf_assert(s.sync_buffer_.pulses_[3].offset == cur && s.sync_buffer_.pulses_[3].bit_position == now, "a recognised block start is remembered");
      for (int i = 0; i < 3; i++) vf_assert(s.sync_buffer_.pulses_[static_cast<size_t>(i)].offset == po[i + 1] && s.sync_buffer_.pulses_[static_cast<size_t>(i)].bit_position == pp[i + 1], "the last four block starts are remembered in order");
    }
  }
}

// The state the decoder starts in: out of sync, nothing remembered.
extern "C" void h_initial() {
  BlockStream s;
  Options o;
  o.use_fec = vf_bool("fec");
  s.init(o);
  vf_assert(!s.is_in_sync_ && s.num_bits_until_next_block_ == 1 && !s.hasGroupReady(), "decoding starts out of sync with no group");
  for (int i = 0; i < 4; i++) vf_assert(s.sync_buffer_.pulses_[static_cast<size_t>(i)].offset == Offset::invalid, "decoding starts with no remembered block starts");
  for (int i = 0; i < 50; i++) vf_assert(s.block_error_sum50_.history_[static_cast<size_t>(i)] == 0, "decoding starts with an empty error history");
  vf_assert(s.flushCurrentGroup().isEmpty(), "decoding starts with an empty group");
}
