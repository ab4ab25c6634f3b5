#ifndef VSTL_PHASE2
#include <cstdint>
#include <utility>
namespace redsea { enum class Offset : std::uint8_t; }
template <> inline void vstl_havoc(std::pair<std::uint32_t, redsea::Offset>& k) { k.first = static_cast<std::uint32_t>(vf_nd_hidden(32)); k.second = static_cast<redsea::Offset>(vf_nd_hidden(8) & 7); }
#else
namespace std {
template <> class map<pair<uint32_t, redsea::Offset>, uint32_t> : public vstl_wmap<pair<uint32_t, redsea::Offset>, uint32_t> {
 public: using vstl_wmap::vstl_wmap;
};
}
#endif
