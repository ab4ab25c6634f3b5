#define CAP_STRVEC 4
#define CAP_BYTES 8
#include "caps_station.h"
#ifndef VSTL_PHASE2
template <> struct vstl_vec_cap<int> { static constexpr size_t value = 4; };
namespace redsea { namespace tmc { struct LocationDatabase; struct Point; } }
#ifdef SEC_FF
template <> struct vstl_vec_cap<redsea::tmc::FreeformField> { static constexpr size_t value = 29; };
#else
template <> struct vstl_vec_cap<redsea::tmc::FreeformField> { static constexpr size_t value = 3; };
#endif
#else
namespace std {
template <class C, class A> class map<uint16_t, redsea::AltFreqList, C, A> : public vstl_onemap<uint16_t, redsea::AltFreqList, C> {};
template <class C, class A> class map<uint16_t, redsea::tmc::ServiceKey, C, A> : public vstl_onemap<uint16_t, redsea::tmc::ServiceKey, C> {};
template <class C, class A> class map<uint16_t, redsea::tmc::LocationDatabase, C, A> : public vstl_onemap<uint16_t, redsea::tmc::LocationDatabase, C> {};
}
#endif
