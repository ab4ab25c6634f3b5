#ifndef CAP_STRVEC
#define CAP_STRVEC 2
#endif
#ifndef VSTL_PHASE2
#include <cstdint>
namespace redsea { struct RFTSegment; struct ChunkCRC; class RDSString; class AltFreqList; class GroupType; namespace tmc { struct ServiceKey; struct Event; struct FreeformField; } }
template <> struct vstl_vec_cap<redsea::RFTSegment> { static constexpr size_t value = 1; };
template <> struct vstl_vec_cap<redsea::ChunkCRC> { static constexpr size_t value = 1; };
template <> struct vstl_vec_cap<bool> { static constexpr size_t value = 1; };
#ifndef CAP_BYTES
#define CAP_BYTES 128
#endif
template <> struct vstl_vec_cap<std::uint8_t> { static constexpr size_t value = CAP_BYTES; };
template <> struct vstl_vec_cap<std::string> { static constexpr size_t value = CAP_STRVEC; };
template <> struct vstl_vec_cap<std::uint16_t> { static constexpr size_t value = CAP_STRVEC == 4 ? 3 : 2; };
#else
#endif
