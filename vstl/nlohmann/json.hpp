#pragma once
// Model nlohmann::ordered_json. A JSON document is a "store" that remembers the
// value written at every watched path (the harness lists the paths) and whether
// anything was written at an unlisted path. operator[] yields a reference node
// bound to (store, path hash); path hashes are polynomial so that documents can
// be nested (assigned or pushed) into others.
#include "vstl_containers.hh"
#include "vstl_stream.hh"

#ifndef VF_JSON_ITEMS
#define VF_JSON_ITEMS 4
#endif
#ifndef VF_JSON_SITEMS
#define VF_JSON_SITEMS 1
#endif
#ifndef VF_JSON_PATHS
#define VF_JSON_PATHS "pi"
#endif

namespace vfj {
enum Kind : uint8_t { ABSENT, NUL, OBJECT, ARRAY, BOOL, INT, FLOAT, STRING };
constexpr const char* paths[] = {"", VF_JSON_PATHS};
constexpr unsigned NW = sizeof(paths) / sizeof(paths[0]);
constexpr uint32_t B = 0x01000193u;
constexpr uint32_t hstr(const char* s, uint32_t h = 0) { return *s ? hstr(s + 1, h * B + static_cast<unsigned char>(*s) + 1u) : h; }
constexpr uint32_t powB(const char* s) { return *s ? B * powB(s + 1) : 1u; }
template <unsigned... I> struct seq {};
template <unsigned N, unsigned... I> struct mk : mk<N - 1, N - 1, I...> {};
template <unsigned... I> struct mk<0, I...> { typedef seq<I...> type; };
struct Tab { uint32_t h[NW]; uint32_t p[NW]; };
template <unsigned... I> constexpr Tab mktab(seq<I...>) { return Tab{{hstr(paths[I])...}, {powB(paths[I])...}}; }
constexpr Tab tab = mktab(mk<NW>::type());

struct Store {
  Kind kind[NW];
  long ival[NW];
  double fval[NW];
  unsigned count[NW];
  long items[NW][VF_JSON_ITEMS];
  std::string sval[NW];
  std::string sitems[NW][VF_JSON_SITEMS];
  bool any, unlisted;
  Store() { reset(); }
  void reset() { for (unsigned w = 0; w < NW; w++) { kind[w] = ABSENT; count[w] = 0; } any = unlisted = false; }
};
inline uint32_t hcat(uint32_t h, const char* s) { for (; *s; ++s) h = h * B + static_cast<unsigned char>(*s) + 1u; return h; }
inline uint32_t child(uint32_t h, bool isroot, const char* k) { if (!isroot) h = h * B + '/' + 1u; return hcat(h, k); }
inline uint32_t elem(uint32_t h, unsigned i) { h = h * B + '#' + 1u; if (i >= 10) h = h * B + ('0' + i / 10) + 1u; return h * B + ('0' + i % 10) + 1u; }
template <class S> inline void clear_at(S& st, uint32_t h) { (void)st; (void)h; }
inline void put_kind(Store& st, uint32_t h, Kind k) {
  st.any = true;
  bool hit = false;
  for (unsigned w = 0; w < NW; w++) if (tab.h[w] == h) { st.kind[w] = k; hit = true; }
  if (!hit) st.unlisted = true;
}
inline void touch(Store& st, uint32_t h, Kind k) {  // become at least `k`
  st.any = true;
  for (unsigned w = 0; w < NW; w++) if (tab.h[w] == h) { if (st.kind[w] == ABSENT || st.kind[w] == NUL) st.kind[w] = k; }
}
inline void put_int(Store& st, uint32_t h, Kind k, long v) {
  put_kind(st, h, k);
  for (unsigned w = 0; w < NW; w++) if (tab.h[w] == h) st.ival[w] = v;
}
inline void put_float(Store& st, uint32_t h, double v) {
  put_kind(st, h, FLOAT);
  for (unsigned w = 0; w < NW; w++) if (tab.h[w] == h) st.fval[w] = v;
}
inline void put_str(Store& st, uint32_t h, const std::string& v) {
  put_kind(st, h, STRING);
  for (unsigned w = 0; w < NW; w++) if (tab.h[w] == h) st.sval[w] = v;
}
}  // namespace vfj

namespace nlohmann {
class vstl_json_error : public std::exception { public: const char* what() const noexcept override { return "json"; } };

class ordered_json {
 public:
  vfj::Store* st_;
  uint32_t h_;
  bool root_;
  typedef std::string string_t;

  ordered_json() : st_(VSTL_NEW(vfj::Store)()), h_(0), root_(true) {}
  ordered_json(std::nullptr_t) : ordered_json() {}
  ordered_json(const ordered_json& o) : ordered_json() { assign_json(o); }
  ordered_json(ordered_json&& o) : st_(o.st_), h_(o.h_), root_(o.root_) { if (!root_) { st_ = VSTL_NEW(vfj::Store)(); h_ = 0; root_ = true; assign_json(o); } }
  template <class T, class = typename std::enable_if<!std::is_same<typename std::decay<T>::type, ordered_json>::value>::type>
  ordered_json(const T& v) : ordered_json() { *this = v; }
  ordered_json(vfj::Store* s, uint32_t h) : st_(s), h_(h), root_(false) {}

  static ordered_json object() { ordered_json j; vfj::touch(*j.st_, 0, vfj::OBJECT); return j; }
  static ordered_json array() { ordered_json j; vfj::touch(*j.st_, 0, vfj::ARRAY); return j; }

  ordered_json& at_hash(uint32_t h) const { return *VSTL_NEW(ordered_json)(st_, h); }
  ordered_json& operator[](const char* k) {
    vfj::touch(*st_, h_, vfj::OBJECT);
    uint32_t h = vfj::child(h_, h_ == 0, k);
    vfj::touch(*st_, h, vfj::NUL);
    return at_hash(h);
  }
  ordered_json& operator[](const std::string& k) { return (*this)[k.c_str()]; }
  ordered_json& operator[](size_t i) {
    vfj::touch(*st_, h_, vfj::ARRAY);
    for (unsigned w = 0; w < vfj::NW; w++) if (vfj::tab.h[w] == h_) if (st_->count[w] < i + 1) st_->count[w] = static_cast<unsigned>(i + 1);
    uint32_t h = vfj::elem(h_, static_cast<unsigned>(i));
    vfj::touch(*st_, h, vfj::NUL);
    return at_hash(h);
  }
  ordered_json& operator[](int i) { return (*this)[static_cast<size_t>(i)]; }
  const ordered_json& operator[](const char* k) const { return at_hash(vfj::child(h_, h_ == 0, k)); }
  const ordered_json& operator[](const std::string& k) const { return (*this)[k.c_str()]; }
  ordered_json& at(const char* k) { if (!contains(k)) throw vstl_json_error(); return (*this)[k]; }
  const ordered_json& at(const char* k) const { if (!contains(k)) throw vstl_json_error(); return (*this)[k]; }

  // ---- assignment
  ordered_json& operator=(const ordered_json& o) { assign_json(o); return *this; }
  ordered_json& operator=(ordered_json&& o) { assign_json(o); return *this; }
  ordered_json& operator=(std::nullptr_t) { vfj::put_kind(*st_, h_, vfj::NUL); return *this; }
  ordered_json& operator=(const std::string& s) { vfj::put_str(*st_, h_, s); return *this; }
  ordered_json& operator=(const char* s) { vfj::put_str(*st_, h_, std::string(s)); return *this; }
  ordered_json& operator=(bool b) { vfj::put_int(*st_, h_, vfj::BOOL, b); return *this; }
  template <class T> typename std::enable_if<std::is_integral<T>::value && !std::is_same<T, bool>::value, ordered_json&>::type
  operator=(T v) { vfj::put_int(*st_, h_, vfj::INT, static_cast<long>(v)); return *this; }
  template <class T> typename std::enable_if<std::is_floating_point<T>::value, ordered_json&>::type
  operator=(T v) { vfj::put_float(*st_, h_, v); return *this; }
  template <class T> ordered_json& operator=(const std::vector<T>& l) { begin_array(); for (size_t i = 0; i < std::vector<T>::CAP && i < l.size(); i++) push_back(l.u_->buf[i]); return *this; }
  template <class T> ordered_json& operator=(std::initializer_list<T> l) { begin_array(); for (auto p = l.begin(); p != l.end(); ++p) push_back(*p); return *this; }
  template <class T, size_t N, template <class, size_t> class A> ordered_json& operator=(const A<T, N>& l) { begin_array(); for (size_t i = 0; i < N; i++) push_back(l[i]); return *this; }

  void begin_array() {
    vfj::put_kind(*st_, h_, vfj::ARRAY);
    for (unsigned w = 0; w < vfj::NW; w++) if (vfj::tab.h[w] == h_) st_->count[w] = 0;
  }
  void copy_from(const ordered_json& o, uint32_t base) {
    VSTL_CHECK(o.root_, "copy of a nested JSON node");
    const vfj::Store& s = *o.st_;
    if (s.unlisted) { st_->unlisted = true; }
    for (unsigned w = 0; w < vfj::NW; w++) {
      if (s.kind[w] == vfj::ABSENT) continue;
      uint32_t h = base;
      if (w != 0 && base != 0) h = h * vfj::B + '/' + 1u;
      h = h * vfj::tab.p[w] + vfj::tab.h[w];
      vfj::put_kind(*st_, h, s.kind[w]);
      for (unsigned x = 0; x < vfj::NW; x++)
        if (vfj::tab.h[x] == h) {
          st_->ival[x] = s.ival[w]; st_->fval[x] = s.fval[w]; st_->count[x] = s.count[w]; st_->sval[x] = s.sval[w];
          for (unsigned i = 0; i < VF_JSON_ITEMS; i++) st_->items[x][i] = s.items[w][i];
          for (unsigned i = 0; i < VF_JSON_SITEMS; i++) st_->sitems[x][i] = s.sitems[w][i];
        }
    }
  }
  void assign_json(const ordered_json& o) {
    if (this == &o) return;
    if (root_) st_->reset();
    vfj::touch(*st_, h_, vfj::NUL);
    copy_from(o, h_);
  }

  // ---- arrays
  unsigned grow() {
    vfj::touch(*st_, h_, vfj::ARRAY);
    unsigned idx = 0; bool hit = false;
    for (unsigned w = 0; w < vfj::NW; w++) if (vfj::tab.h[w] == h_) { idx = st_->count[w]; st_->count[w] = idx + 1; hit = true; }
    if (!hit) st_->unlisted = true;
    st_->any = true;
    return idx;
  }
  void push_int(long v, vfj::Kind) {
    unsigned idx = grow();
    for (unsigned w = 0; w < vfj::NW; w++) if (vfj::tab.h[w] == h_) { if (idx < VF_JSON_ITEMS) st_->items[w][idx] = v; }
  }
  void push_back(bool b) { push_int(b, vfj::BOOL); }
  template <class T> typename std::enable_if<std::is_integral<T>::value && !std::is_same<T, bool>::value>::type push_back(T v) { push_int(static_cast<long>(v), vfj::INT); }
  void push_back(const std::string& s) {
    unsigned idx = grow();
    for (unsigned w = 0; w < vfj::NW; w++) if (vfj::tab.h[w] == h_) { if (idx < VF_JSON_SITEMS) st_->sitems[w][idx] = s; }
  }
  void push_back(const char* s) { push_back(std::string(s)); }
  void push_back(const ordered_json& o) { unsigned idx = grow(); copy_from(o, vfj::elem(h_, idx)); }
  template <class T> void emplace_back(const T& v) { push_back(v); }
  template <class T> void operator+=(const T& v) { push_back(v); }
  template <class T> void emplace(const char* k, const T& v) { if (!contains(k)) (*this)[k] = v; }

  // ---- queries (watched paths only)
  unsigned slot() const {
    unsigned r = vfj::NW;
    for (unsigned w = 0; w < vfj::NW; w++) if (vfj::tab.h[w] == h_) r = w;
    VSTL_CHECK(r < vfj::NW, "query of an unwatched JSON path");
    return r;
  }
  bool contains(const char* k) const {
    uint32_t h = vfj::child(h_, h_ == 0, k);
    bool known = false, r = false;
    for (unsigned w = 0; w < vfj::NW; w++) if (vfj::tab.h[w] == h) { known = true; r = st_->kind[w] != vfj::ABSENT; }
    VSTL_CHECK(known, "query of an unwatched JSON path");
    return r;
  }
  bool contains(const std::string& k) const { return contains(k.c_str()); }
  size_t count(const char* k) const { return contains(k) ? 1 : 0; }
  bool empty() const { if (root_) return !st_->any; unsigned s = slot(); return st_->kind[s] == vfj::ABSENT || st_->kind[s] == vfj::NUL || (st_->kind[s] == vfj::ARRAY && st_->count[s] == 0); }
  bool is_null() const { if (root_) return !st_->any; unsigned s = slot(); return st_->kind[s] == vfj::ABSENT || st_->kind[s] == vfj::NUL; }
  size_t size() const { unsigned s = slot(); return st_->count[s]; }
  void clear() { VSTL_CHECK(root_, "clear of a nested JSON node"); st_->reset(); }
  template <class T> T get() const { T v; get_to_(v); return v; }
  void get_to_(std::string& v) const { v = st_->sval[slot()]; }
  template <class T> typename std::enable_if<std::is_integral<T>::value>::type get_to_(T& v) const { v = static_cast<T>(st_->ival[slot()]); }
  template <class T> typename std::enable_if<std::is_floating_point<T>::value>::type get_to_(T& v) const { v = static_cast<T>(st_->fval[slot()]); }
  std::string dump(int = -1) const;
};
typedef ordered_json json;
}  // namespace nlohmann

// Printing: the document is registered and a one-character token is emitted.
extern vfj::Store* vf_printed[4];
extern unsigned vf_nprinted;
extern bool vf_json_may_throw;
namespace nlohmann {
inline std::string vf_token(const ordered_json& j) {
  VSTL_CHECK(j.root_, "print of a nested JSON node");
  if (vf_json_may_throw && (vf_nd_hidden(1) & 1)) throw vstl_json_error();
  VSTL_CHECK(vf_nprinted < 4, "printed documents");
  vf_printed[vf_nprinted] = j.st_;
  char c = static_cast<char>(1 + vf_nprinted);
  vf_nprinted++;
  return std::string(1, c);
}
inline std::string ordered_json::dump(int) const { return vf_token(*this); }
inline std::ostream& operator<<(std::ostream& o, const ordered_json& j) { o.raw(vf_token(j)); return o; }
}  // namespace nlohmann
