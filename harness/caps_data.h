#include "caps_station.h"
#ifndef VSTL_PHASE2
template <> struct vstl_vec_cap<int> { static constexpr size_t value = 4; };
#else
#ifdef EON_ONE
namespace std {
template <class C, class A> class map<uint16_t, redsea::RDSString, C, A> : public vstl_onemap<uint16_t, redsea::RDSString, C> {};
template <class C, class A> class map<uint16_t, redsea::AltFreqList, C, A> : public vstl_onemap<uint16_t, redsea::AltFreqList, C> {};
}
#endif
#ifdef SEC_DATA
namespace std { template <> class map<uint32_t, string> : public vstl_imap<uint32_t, string> { public: using vstl_imap::vstl_imap; }; }
#endif
#endif
