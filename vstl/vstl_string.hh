#pragma once
// Model std::string: a string is either a reference to a constant literal
// (ext_ != null) or owns an inline buffer of fixed capacity. Exceeding the
// capacity is a reported tool limit, never a silent truncation.
#include <stddef.h>
#include <stdint.h>
#include <initializer_list>
#include <type_traits>
#include <utility>
#include <new>
#include <exception>
#include <cctype>
#include <cstring>
#include <cstdlib>
#include <cwchar>
#include <bits/stl_iterator_base_types.h>
#include <bits/stl_iterator_base_funcs.h>
#include <bits/stl_iterator.h>
#include <bits/range_access.h>
#include "vf.h"

#ifndef VSTL_STRCAP
#define VSTL_STRCAP 40
#endif
// texts that are only referenced (literals) may be longer than the capacity
#define VSTL_LOOPCAP (VSTL_STRCAP > 40 ? VSTL_STRCAP : 40)
extern "C" void* vf_new_typed(void* tag);
// Typed allocation: the tag object is never defined, only its type is used.
template <class T> struct vstl_tag { static T dummy; };
#define VSTL_NEW(...) new (vf_new_typed(const_cast<void*>(static_cast<const void*>(&vstl_tag<__VA_ARGS__>::dummy)))) __VA_ARGS__
#define VSTL_INL inline __attribute__((always_inline))
#define VSTL_CHECK(c, what) do { if (!(c)) vf_limit(what); } while (0)

#include <cstdio>
// snprintf: decimal and one-character string fields; a field wider than announced is
// beyond the model (failed obligation).
namespace vstl_fmt {
struct Out { char* b; size_t cap, n; void put(char c) { if (n + 1 < cap) b[n] = c; n++; } };
VSTL_INL void arg(Out& o, unsigned w, bool zero, long v) {
  long p = 1; for (unsigned i = 0; i < 5 && i < w; i++) p *= 10;
  VSTL_CHECK(w >= 1 && w <= 5 && v >= 0 && v < p, "snprintf: number wider than its field");
  unsigned u = static_cast<unsigned>(v);
  unsigned q = static_cast<unsigned>(p);
  bool lead = !zero;
  for (unsigned i = 0; i < 5 && i < w; i++) { q /= 10; unsigned d = u / q % 10; if (d != 0 || i + 1 == w) lead = false; o.put(lead ? ' ' : static_cast<char>('0' + d)); }
}
VSTL_INL void arg(Out& o, unsigned w, bool, const char* s) { VSTL_CHECK(w == 0 && s[0] != 0 && s[1] == 0, "snprintf: string of one character"); o.put(s[0]); }
VSTL_INL void run(Out& o, const char* f) { for (size_t i = 0; f[i]; i++) { VSTL_CHECK(f[i] != '%' || f[i + 1] == '%', "snprintf: field without argument"); if (f[i] == '%') i++; o.put(f[i]); } }
template <class A, class... R> VSTL_INL void run(Out& o, const char* f, A a, R... r) {
  size_t i = 0;
  while (f[i] && f[i] != '%') { o.put(f[i]); i++; }
  VSTL_CHECK(f[i] == '%', "snprintf: more arguments than fields");
  i++;
  bool zero = f[i] == '0'; if (zero) i++;
  unsigned w = 0; while (f[i] >= '0' && f[i] <= '9') { w = w * 10 + static_cast<unsigned>(f[i] - '0'); i++; }
  while (f[i] == 'l' || f[i] == 'h' || f[i] == 'z') i++;
  VSTL_CHECK(f[i] == 'd' || f[i] == 'i' || f[i] == 'u' || f[i] == 's', "snprintf: field");
  arg(o, w, zero, a);
  run(o, f + i + 1, r...);
}
}
template <class... A> VSTL_INL int vstl_snprintf(char* b, size_t cap, const char* f, A... a) {
  vstl_fmt::Out o{b, cap, 0};
  vstl_fmt::run(o, f, a...);
  if (cap) b[o.n < cap ? o.n : cap - 1] = 0;
  return static_cast<int>(o.n);
}
namespace std { using ::vstl_snprintf; }
#define snprintf vstl_snprintf
namespace std {

// ---- exceptions -----------------------------------------------------------
class string;
class logic_error : public exception {
 public:
  explicit logic_error(const char* s) : w_(s) {}
  explicit logic_error(const string& s);
  const char* what() const noexcept override { return w_; }
 private:
  const char* w_;
};
class runtime_error : public exception {
 public:
  explicit runtime_error(const char* s) : w_(s) {}
  explicit runtime_error(const string& s);
  const char* what() const noexcept override { return w_; }
 private:
  const char* w_;
};
#define VSTL_EXC(name, base) \
  class name : public base { public: explicit name(const char* s) : base(s) {} explicit name(const string& s) : base(s) {} };
VSTL_EXC(out_of_range, logic_error)
VSTL_EXC(invalid_argument, logic_error)
VSTL_EXC(length_error, logic_error)
VSTL_EXC(domain_error, logic_error)
VSTL_EXC(range_error, runtime_error)
VSTL_EXC(overflow_error, runtime_error)
VSTL_EXC(underflow_error, runtime_error)

template <class T> struct char_traits;
template <> struct char_traits<char> {
  typedef char char_type; typedef int int_type;
  static size_t length(const char* s) { size_t n = 0; while (s[n]) n++; return n; }
  static int eof() { return -1; }
};

class string {
 public:
  typedef char value_type;
  typedef size_t size_type;
  typedef ptrdiff_t difference_type;
  typedef char& reference;
  typedef const char& const_reference;
  typedef char* iterator;
  typedef const char* const_iterator;
  typedef std::reverse_iterator<const char*> const_reverse_iterator;
  typedef std::reverse_iterator<char*> reverse_iterator;
  typedef char_traits<char> traits_type;
  static constexpr size_t npos = static_cast<size_t>(-1);

  const char* ext_;
  size_t n_;
  size_t m_;  // upper bound of n_; constant along a path, so that loops stay short
  struct SB { char b[VSTL_STRCAP + 1]; };
  SB* p_;  // out-of-line storage, allocated once per string object

  VSTL_INL string() noexcept : p_(VSTL_NEW(SB)), ext_(nullptr), n_(0), m_(0) { p_->b[0] = 0; }
  VSTL_INL string(const char* s) : p_(VSTL_NEW(SB)), ext_(s), n_(__builtin_strlen(s)) { m_ = n_; }
  string(char* s) : p_(VSTL_NEW(SB)), ext_(nullptr), n_(0), m_(0) { own_assign(s, __builtin_strlen(s)); }  // may change later: copied
  string(const char* s, size_t n) : p_(VSTL_NEW(SB)), ext_(nullptr), n_(0), m_(0) { own_assign(s, n); }
  string(size_t n, char c) : p_(VSTL_NEW(SB)), ext_(nullptr), n_(0), m_(0) { resize(n, c); }
  VSTL_INL string(const string& o) : p_(VSTL_NEW(SB)), ext_(o.ext_), n_(o.n_), m_(o.m_) { copybuf(o); }
  VSTL_INL string(string&& o) : p_(VSTL_NEW(SB)), ext_(o.ext_), n_(o.n_), m_(o.m_) { copybuf(o); o.ext_ = nullptr; o.n_ = 0; o.m_ = 0; o.p_->b[0] = 0; }
  string(const string& o, size_t pos, size_t len = npos) : p_(VSTL_NEW(SB)), ext_(nullptr), n_(0), m_(0) { *this = o.substr(pos, len); }
  string(initializer_list<char> l) : p_(VSTL_NEW(SB)), ext_(nullptr), n_(0), m_(0) { for (char c : l) push_back(c); }
  template <class It, class = typename iterator_traits<It>::iterator_category>
  string(It b, It e) : p_(VSTL_NEW(SB)), ext_(nullptr), n_(0), m_(0) { p_->b[0] = 0; for (; b != e; ++b) push_back(static_cast<char>(*b)); }
  string(nullptr_t) = delete;

  VSTL_INL string& operator=(const string& o) { if (this != &o) { ext_ = o.ext_; n_ = o.n_; m_ = o.m_; copybuf(o); } return *this; }
  VSTL_INL string& operator=(string&& o) { if (this != &o) { ext_ = o.ext_; n_ = o.n_; m_ = o.m_; copybuf(o); o.ext_ = nullptr; o.n_ = 0; o.m_ = 0; o.p_->b[0] = 0; } return *this; }
  VSTL_INL string& operator=(const char* s) { ext_ = s; n_ = __builtin_strlen(s); m_ = n_; return *this; }
  string& operator=(char* s) { own_assign(s, __builtin_strlen(s)); return *this; }
  string& operator=(char c) { ext_ = nullptr; n_ = 1; m_ = 1; p_->b[0] = c; p_->b[1] = 0; return *this; }
  string& operator=(initializer_list<char> l) { clear(); for (char c : l) push_back(c); return *this; }

  VSTL_INL char get(size_t i) const { return ext_ ? ext_[i] : p_->b[i]; }

  VSTL_INL size_t size() const noexcept { return n_; }
  VSTL_INL size_t length() const noexcept { return n_; }
  VSTL_INL bool empty() const noexcept { return n_ == 0; }
  VSTL_INL void clear() noexcept { ext_ = nullptr; n_ = 0; m_ = 0; p_->b[0] = 0; }
  void reserve(size_t = 0) {}
  void shrink_to_fit() {}
  size_t capacity() const { return VSTL_STRCAP; }
  size_t max_size() const { return size_t(-1) / 2; }
  const char* data() const { return ext_ ? ext_ : p_->b; }
  const char* c_str() const { return ext_ ? ext_ : p_->b; }
  char* data() { own(); return p_->b; }
  const char* begin() const { return data(); }
  const char* end() const { return data() + n_; }
  char* begin() { own(); return p_->b; }
  char* end() { own(); return p_->b + n_; }
  const char* cbegin() const { return data(); }
  const char* cend() const { return data() + n_; }
  const_reverse_iterator rbegin() const { return const_reverse_iterator(end()); }
  const_reverse_iterator rend() const { return const_reverse_iterator(begin()); }
  const_reverse_iterator crbegin() const { return const_reverse_iterator(end()); }
  const_reverse_iterator crend() const { return const_reverse_iterator(begin()); }

  VSTL_INL char& operator[](size_t i) { own(); vf_assert(i <= n_, "std::string index in bounds"); return p_->b[i]; }
  VSTL_INL const char& operator[](size_t i) const { vf_assert(i <= n_, "std::string index in bounds"); return ext_ ? ext_[i] : p_->b[i]; }
  char& at(size_t i) { if (i >= n_) throw out_of_range("basic_string::at"); own(); return p_->b[i]; }
  const char& at(size_t i) const { if (i >= n_) throw out_of_range("basic_string::at"); return ext_ ? ext_[i] : p_->b[i]; }
  char& front() { return (*this)[0]; }
  const char& front() const { return (*this)[0]; }
  char& back() { vf_assert(n_ > 0, "std::string::back on non-empty"); return (*this)[n_ - 1]; }
  const char& back() const { vf_assert(n_ > 0, "std::string::back on non-empty"); return (*this)[n_ - 1]; }

  void push_back(char c) { own(); VSTL_CHECK(n_ < VSTL_STRCAP, "string capacity"); p_->b[n_] = c; n_++; m_++; p_->b[n_] = 0; }
  void pop_back() { own(); vf_assert(n_ > 0, "std::string::pop_back on non-empty"); n_--; p_->b[n_] = 0; }

  string& append(const char* s, size_t k) {
    if (n_ == 0 && 0) return *this;
    own();
    VSTL_CHECK(n_ + k <= VSTL_STRCAP, "string capacity");
    for (size_t i = 0; i < VSTL_STRCAP && i < k; i++) p_->b[n_ + i] = s[i];
    n_ += k; m_ += k; p_->b[n_] = 0;
    return *this;
  }
  string& append(const string& o) {
    if (o.n_ == 0) return *this;
    if (n_ == 0) { *this = o; return *this; }
    own();
    VSTL_CHECK(n_ + o.n_ <= VSTL_STRCAP, "string capacity");
    for (size_t i = 0; i < VSTL_STRCAP && i < o.m_ && i < o.n_; i++) p_->b[n_ + i] = o.get(i);
    n_ += o.n_; m_ += o.m_; p_->b[n_] = 0;
    return *this;
  }
  string& append(const string& o, size_t pos, size_t len = npos) { return append(o.substr(pos, len)); }
  string& append(const char* s) { return append(string(s)); }
  string& append(size_t k, char c) { for (size_t i = 0; i < VSTL_STRCAP + 1 && i < k; i++) push_back(c); return *this; }
  template <class It, class = typename iterator_traits<It>::iterator_category>
  string& append(It b, It e) { for (; b != e; ++b) push_back(static_cast<char>(*b)); return *this; }
  string& operator+=(const string& o) { return append(o); }
  string& operator+=(const char* s) { return append(string(s)); }
  string& operator+=(char c) { push_back(c); return *this; }
  string& assign(const string& o) { return *this = o; }
  string& assign(const char* s) { return *this = s; }
  string& assign(const char* s, size_t n) { clear(); return append(s, n); }
  string& assign(size_t n, char c) { clear(); return append(n, c); }
  template <class It, class = typename iterator_traits<It>::iterator_category>
  string& assign(It b, It e) { clear(); return append(b, e); }

  void resize(size_t k, char c = 0) {
    own();
    VSTL_CHECK(k <= VSTL_STRCAP, "string capacity");
    for (size_t i = n_; i < VSTL_STRCAP && i < k; i++) p_->b[i] = c;
    n_ = k; m_ = k; p_->b[n_] = 0;
  }

  string substr(size_t pos = 0, size_t len = npos) const {
    string r; r.m_ = m_;
    if (pos > n_) throw out_of_range("basic_string::substr");
    size_t k = n_ - pos; if (len < k) k = len;
    VSTL_CHECK(k <= VSTL_STRCAP, "string capacity");
    for (size_t i = 0; i < VSTL_STRCAP && i < m_ && i < k; i++) r.p_->b[i] = get(pos + i);
    r.n_ = k; r.m_ = m_; r.p_->b[k] = 0;
    return r;
  }
  string& erase(size_t pos = 0, size_t len = npos) {
    if (pos > n_) throw out_of_range("basic_string::erase");
    own();
    size_t k = n_ - pos; if (len < k) k = len;
    if (k != 0)
      for (size_t i = 0; i < VSTL_STRCAP && i < m_ && pos + i + k < n_; i++) p_->b[pos + i] = p_->b[pos + i + k];
    n_ -= k; p_->b[n_] = 0;
    return *this;
  }
  iterator erase(const_iterator p) { size_t pos = p - data(); erase(pos, 1); return p_->b + pos; }
  iterator erase(const_iterator b, const_iterator e) { size_t pos = b - data(); size_t k = e - b; erase(pos, k); return p_->b + pos; }
  string& insert(size_t pos, const string& s) {
    if (pos > n_) throw out_of_range("basic_string::insert");
    string tail = substr(pos); erase(pos); append(s); append(tail); return *this;
  }
  string& insert(size_t pos, const char* s) { return insert(pos, string(s)); }
  string& insert(size_t pos, size_t k, char c) { return insert(pos, string(k, c)); }
  string& replace(size_t pos, size_t len, const string& s) {
    if (pos > n_) throw out_of_range("basic_string::replace");
    size_t k = n_ - pos; if (len < k) k = len;
    string tail = substr(pos + k); erase(pos); append(s); append(tail); return *this;
  }
  string& replace(size_t pos, size_t len, const char* s) { return replace(pos, len, string(s)); }
  void swap(string& o) { string t = *this; *this = o; o = t; }

  size_t find(char c, size_t pos = 0) const {
    for (size_t i = pos; i < m_ && i < n_; i++) if (get(i) == c) return i;
    return npos;
  }
  bool match_at(const string& s, size_t pos) const {
    for (size_t i = 0; i < VSTL_LOOPCAP && i < s.m_ && i < s.n_; i++) if (get(pos + i) != s.get(i)) return false;
    return true;
  }
  size_t find(const string& s, size_t pos = 0) const {
    for (size_t i = pos; i <= m_ && i + s.n_ <= n_; i++) if (match_at(s, i)) return i;
    return npos;
  }
  size_t find(const char* s, size_t pos = 0) const { return find(string(s), pos); }
  size_t rfind(char c, size_t pos = npos) const {
    size_t r = npos;
    for (size_t i = 0; i < VSTL_LOOPCAP && i < m_ && i < n_; i++) if (i <= pos && get(i) == c) r = i;
    return r;
  }
  size_t rfind(const string& s, size_t pos = npos) const {
    size_t r = npos;
    for (size_t i = 0; i <= m_ && i + s.n_ <= n_; i++) if (i <= pos && match_at(s, i)) r = i;
    return r;
  }
  bool has(char c) const { for (size_t i = 0; i < m_ && i < n_; i++) if (get(i) == c) return true; return false; }
  size_t find_first_of(const string& s, size_t pos = 0) const { for (size_t i = pos; i < m_ && i < n_; i++) if (s.has(get(i))) return i; return npos; }
  size_t find_first_of(char c, size_t pos = 0) const { return find(c, pos); }
  size_t find_first_not_of(const string& s, size_t pos = 0) const { for (size_t i = pos; i < m_ && i < n_; i++) if (!s.has(get(i))) return i; return npos; }
  size_t find_first_not_of(char c, size_t pos = 0) const { for (size_t i = pos; i < m_ && i < n_; i++) if (get(i) != c) return i; return npos; }
  size_t find_last_of(const string& s, size_t pos = npos) const { size_t r = npos; for (size_t i = 0; i < VSTL_LOOPCAP && i < m_ && i < n_; i++) if (i <= pos && s.has(get(i))) r = i; return r; }
  size_t find_last_of(char c, size_t pos = npos) const { return rfind(c, pos); }
  size_t find_last_not_of(const string& s, size_t pos = npos) const { size_t r = npos; for (size_t i = 0; i < VSTL_LOOPCAP && i < m_ && i < n_; i++) if (i <= pos && !s.has(get(i))) r = i; return r; }
  size_t find_last_not_of(char c, size_t pos = npos) const { size_t r = npos; for (size_t i = 0; i < VSTL_LOOPCAP && i < m_ && i < n_; i++) if (i <= pos && get(i) != c) r = i; return r; }

  int compare(const string& o) const {
    for (size_t i = 0; i <= m_; i++) {
      if (i >= n_) return o.n_ > i ? -1 : 0;
      if (i >= o.n_) return 1;
      unsigned char a = static_cast<unsigned char>(get(i)), b = static_cast<unsigned char>(o.get(i));
      if (a != b) return a < b ? -1 : 1;
    }
    return 0;
  }
  int compare(const char* s) const { return compare(string(s)); }
  int compare(size_t pos, size_t len, const string& s) const { return substr(pos, len).compare(s); }
  bool equals(const string& o) const {
    if (n_ != o.n_) return false;
    if (ext_ && ext_ == o.ext_) return true;
    for (size_t i = 0; i < VSTL_LOOPCAP && i < m_ && i < n_; i++) if (get(i) != o.get(i)) return false;
    return true;
  }

  VSTL_INL void copybuf(const string& o) { if (!o.ext_) __builtin_memcpy(p_, o.p_, sizeof(SB)); }
  void own_assign(const char* s, size_t n) {
    VSTL_CHECK(n <= VSTL_STRCAP, "string capacity");
    for (size_t i = 0; i < VSTL_STRCAP && i < n; i++) p_->b[i] = s[i];
    n_ = n; m_ = n; p_->b[n] = 0; ext_ = nullptr;
  }
  VSTL_INL void own() { if (ext_) own_slow(); }
  void own_slow() { const char* e = ext_; ext_ = nullptr; VSTL_CHECK(n_ <= VSTL_STRCAP, "string capacity"); for (size_t i = 0; i < VSTL_STRCAP && i < m_ && i < n_; i++) p_->b[i] = e[i]; p_->b[n_] = 0; }
};

inline logic_error::logic_error(const string& s) : w_("") { (void)s; }
inline runtime_error::runtime_error(const string& s) : w_("") { (void)s; }

inline bool operator==(const string& a, const string& b) { return a.equals(b); }
inline bool operator!=(const string& a, const string& b) { return !a.equals(b); }
inline bool operator==(const string& a, const char* b) { return a.equals(string(b)); }
inline bool operator!=(const string& a, const char* b) { return !a.equals(string(b)); }
inline bool operator==(const char* b, const string& a) { return a.equals(string(b)); }
inline bool operator!=(const char* b, const string& a) { return !a.equals(string(b)); }
inline bool operator<(const string& a, const string& b) { return a.compare(b) < 0; }
inline bool operator>(const string& a, const string& b) { return a.compare(b) > 0; }
inline bool operator<=(const string& a, const string& b) { return a.compare(b) <= 0; }
inline bool operator>=(const string& a, const string& b) { return a.compare(b) >= 0; }
inline string operator+(const string& a, const string& b) { string r(a); r.append(b); return r; }
inline string operator+(const string& a, const char* b) { string r(a); r.append(string(b)); return r; }
inline string operator+(const char* a, const string& b) { string r(a); r.append(b); return r; }
inline string operator+(const string& a, char c) { string r(a); r.push_back(c); return r; }
inline string operator+(char c, const string& b) { string r; r.push_back(c); r.append(b); return r; }
inline void swap(string& a, string& b) { a.swap(b); }

// ---- number <-> string ------------------------------------------------------
inline string vstl_fmt_u(unsigned long long v, unsigned base, bool upper, bool neg) {
  // digits produced most significant first, without leading zeros
  string r;
  if (neg) r.push_back('-');
  char tmp[24]; unsigned k = 0;
  // 20 decimal digits suffice for 64 bits (bounded loop)
  do {
    unsigned d = static_cast<unsigned>(v % base);
    tmp[k++] = static_cast<char>(d < 10 ? '0' + d : (upper ? 'A' : 'a') + (d - 10));
    v /= base;
  } while (v != 0 && k < 22);
  for (unsigned i = 0; i < 22 && i < k; i++) r.push_back(tmp[k - 1 - i]);
  return r;
}
// Narrow variants keep the division bit-width (and therefore the SAT encoding) small.
inline string vstl_fmt_dec32(uint32_t v, bool neg) {
  string r;
  if (neg) { r.p_->b[0] = '-'; r.n_ = 1; }
  bool started = false;
  size_t n = r.n_;
  uint32_t rest = v;
  static const uint32_t p10[10] = {1000000000u, 100000000u, 10000000u, 1000000u, 100000u, 10000u, 1000u, 100u, 10u, 1u};
  for (int i = 0; i < 10; i++) {
    uint32_t d = 0;
    if (rest >= p10[i]) { d = rest / p10[i]; rest -= d * p10[i]; started = true; }
    if (started || i == 9) { r.p_->b[n] = static_cast<char>('0' + d); n++; }
  }
  r.n_ = n; r.m_ = neg ? 11 : 10; r.p_->b[n] = 0;
  return r;
}
inline string vstl_fmt_hex32(uint32_t v, bool upper) {
  string r;
  bool started = false;
  size_t n = 0;
  for (int i = 7; i >= 0; i--) {
    uint32_t d = (v >> (4 * i)) & 15u;
    if (d) started = true;
    if (started || i == 0) { r.p_->b[n] = static_cast<char>(d < 10 ? '0' + d : (upper ? 'A' : 'a') + (d - 10)); n++; }
  }
  r.n_ = n; r.m_ = 8; r.p_->b[n] = 0;
  return r;
}
inline string to_string(unsigned v) { return vstl_fmt_dec32(v, false); }
inline string to_string(int v) { return vstl_fmt_dec32(v < 0 ? 0u - static_cast<unsigned>(v) : static_cast<unsigned>(v), v < 0); }
inline string to_string(unsigned long v) { return v <= 0xFFFFFFFFul ? vstl_fmt_dec32(static_cast<uint32_t>(v), false) : vstl_fmt_u(v, 10, false, false); }
inline string to_string(long v) { if (v >= 0) return to_string(static_cast<unsigned long>(v)); return vstl_fmt_u(0ul - static_cast<unsigned long>(v), 10, false, true); }
inline string to_string(unsigned long long v) { return to_string(static_cast<unsigned long>(v)); }
inline string to_string(long long v) { return to_string(static_cast<long>(v)); }
inline string to_string(float) { vf_limit("to_string(float)"); return string(); }
inline string to_string(double) { vf_limit("to_string(double)"); return string(); }

inline bool vstl_isspace(char c) { return c == ' ' || (c >= '\t' && c <= '\r'); }
inline int vstl_digit(char c) {
  if (c >= '0' && c <= '9') return c - '0';
  if (c >= 'a' && c <= 'z') return c - 'a' + 10;
  if (c >= 'A' && c <= 'Z') return c - 'A' + 10;
  return 99;
}
// strtol semantics (bounded by the string capacity)
inline long vstl_stol(const string& s, size_t* idx, int base, long lo, long hi) {
  size_t i = 0, n = s.size();
  while (i < VSTL_LOOPCAP && i < s.m_ && i < n && vstl_isspace(s.get(i))) i++;
  bool neg = false;
  if (i < n && (s.get(i) == '+' || s.get(i) == '-')) { neg = s.get(i) == '-'; i++; }
  if ((base == 16 || base == 0) && i + 2 < n && s.get(i) == '0' && (s.get(i + 1) == 'x' || s.get(i + 1) == 'X') && vstl_digit(s.get(i + 2)) < 16) { i += 2; base = 16; }
  if (base == 0) base = (i < n && s.get(i) == '0') ? 8 : 10;
  size_t first = i;
  unsigned long v = 0; bool over = false;
  for (size_t k = 0; k < VSTL_LOOPCAP && k < s.m_ && i < n; k++) {
    int d = vstl_digit(s.get(i));
    if (d >= base) break;
    if (v > 0x07FFFFFFFFFFFFFFul) over = true; else v = v * static_cast<unsigned long>(base) + static_cast<unsigned long>(d);
    i++;
  }
  if (i == first) throw invalid_argument("stoi");
  if (over) throw out_of_range("stoi");
  long r = neg ? -static_cast<long>(v) : static_cast<long>(v);
  if (r < lo || r > hi) throw out_of_range("stoi");
  if (idx) *idx = i;
  return r;
}
inline int stoi(const string& s, size_t* idx = nullptr, int base = 10) { return static_cast<int>(vstl_stol(s, idx, base, -2147483647l - 1, 2147483647l)); }
inline long stol(const string& s, size_t* idx = nullptr, int base = 10) { return vstl_stol(s, idx, base, -__LONG_MAX__ - 1, __LONG_MAX__); }
inline unsigned long stoul(const string& s, size_t* idx = nullptr, int base = 10) { return static_cast<unsigned long>(vstl_stol(s, idx, base, -__LONG_MAX__ - 1, __LONG_MAX__)); }
inline long long stoll(const string& s, size_t* idx = nullptr, int base = 10) { return stol(s, idx, base); }
inline unsigned long long stoull(const string& s, size_t* idx = nullptr, int base = 10) { return stoul(s, idx, base); }

template <class C> class basic_string_dummy;
template <class T> struct hash;
template <> struct hash<string> {
  size_t operator()(const string& s) const { size_t h = 5381; for (size_t i = 0; i < s.size(); i++) h = h * 33 + static_cast<unsigned char>(s.get(i)); return h; }
};
}  // namespace std
