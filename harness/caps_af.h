#include "caps_station.h"
#ifndef VSTL_PHASE2
template <> struct vstl_vec_cap<int> { static constexpr size_t value = 25; };
#else
// Sets of frequencies as a log of insertions (the index of an insertion does not depend on data).
namespace std {
struct vstl_setlog { const void* owner; int v; };
static vstl_setlog vstl_sl[25]; static size_t vstl_sln;
template <> class set<int, void, void> {
 public:
  typedef int value_type; typedef size_t size_type;
  set() {}
  set(const set&) = delete; set& operator=(const set&) = delete;
  bool in(size_t k, int v) const { bool r = false; for (size_t i = 0; i < 25 && i < k; i++) r = r | ((vstl_sl[i].owner == this) & (vstl_sl[i].v == v)); return r; }
  size_t count(int x) const { return in(vstl_sln, x) ? 1 : 0; }
  pair<const int*, bool> insert(int x) {
    VSTL_CHECK(vstl_sln < 25, "insertions into sets");
    bool fresh = !in(vstl_sln, x);
    vstl_sl[vstl_sln].owner = this; vstl_sl[vstl_sln].v = x; vstl_sln++;
    return pair<const int*, bool>(nullptr, fresh);
  }
  template <class A> pair<const int*, bool> emplace(A a) { return insert(static_cast<int>(a)); }
  size_t size() const { size_t n = 0; for (size_t k = 0; k < 25 && k < vstl_sln; k++) n += (vstl_sl[k].owner == this) & !in(k, vstl_sl[k].v); return n; }
  bool empty() const { return size() == 0; }
};
}
#endif
