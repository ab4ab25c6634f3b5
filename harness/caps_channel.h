#include "caps_station.h"
#ifndef VSTL_PHASE2
template <> struct vstl_vec_cap<int> { static constexpr size_t value = 80; };
#endif
