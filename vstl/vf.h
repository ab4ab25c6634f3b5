// Harness API, used in two modes.
//  - proof mode (VF_MODEL defined): compiled with the model containers and
//    translated to C; CBMC decides every vf_assert for all nondet inputs.
//  - native mode: compiled with the real standard library, real nlohmann json
//    and the real /repo sources; nondet values come from a replay file or a PRNG.
#pragma once
#include <stdint.h>
#include <stddef.h>

extern "C" {
void vf_assert(bool cond, const char* name);
void vf_assume(bool cond);
void vf_cover(bool cond, const char* name);
uint64_t vf_nd(uint64_t bits, const char* name);  // uniform `bits`-bit value
uint64_t vf_nd_hidden(uint64_t bits);             // model-internal nondet (not replayed)
uint64_t vf_nd_pick(uint64_t bits, const char* name, const uint32_t* likely, uint32_t n);  // vf_nd; random runs favour `likely`
void vf_limit(const char* what);                  // model capacity exceeded: tool limit
}

static inline uint8_t vf_u8(const char* n) { return (uint8_t)vf_nd(8, n); }
static inline uint16_t vf_u16(const char* n) { return (uint16_t)vf_nd(16, n); }
static inline uint32_t vf_u32(const char* n) { return (uint32_t)vf_nd(32, n); }
static inline uint64_t vf_u64(const char* n) { return vf_nd(64, n); }
static inline bool vf_bool(const char* n) { return vf_nd(1, n) & 1; }
// value in [0, n): constructive in native mode, assumed in proof mode
static inline uint32_t vf_below(uint32_t n, const char* nm) {
#ifdef VF_MODEL
  uint32_t v = vf_u32(nm);
  vf_assume(v < n);
  return v;
#else
  return vf_u32(nm) % n;
#endif
}
#ifdef VF_MODEL
#define vf_nd_pick(bits, name, likely, n) vf_nd(bits, name)
#endif
#define VF_ASSERT(c, name) vf_assert((c), (name))
