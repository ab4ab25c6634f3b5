#pragma once
// Model containers with fixed capacity (overflow = reported tool limit).
#include "vstl_string.hh"

#ifndef VSTL_VECCAP
#define VSTL_VECCAP 32
#endif
#ifndef VSTL_MAPCAP
#define VSTL_MAPCAP 64
#endif
#ifndef VSTL_DEQCAP
#define VSTL_DEQCAP 144
#endif

// Capacities may be specialised per element type (vf_caps.h, or the harness).
template <class T> struct vstl_vec_cap { static constexpr size_t value = VSTL_VECCAP; };
template <class K, class V> struct vstl_map_cap { static constexpr size_t value = VSTL_MAPCAP; };
template <class T> struct vstl_set_cap { static constexpr size_t value = VSTL_VECCAP; };
template <class V> inline void vstl_havoc(V&) { vf_limit("havoc of this map value type"); }
#include "vf_caps.h"

namespace std {
template <class T, class A = void> class vector {
 public:
  static constexpr size_t CAP = vstl_vec_cap<T>::value;
  typedef T value_type; typedef size_t size_type; typedef ptrdiff_t difference_type;
  typedef T& reference; typedef const T& const_reference;
  typedef T* iterator; typedef const T* const_iterator; typedef T* pointer;
  typedef std::reverse_iterator<T*> reverse_iterator;
  typedef std::reverse_iterator<const T*> const_reverse_iterator;
  union U { T buf[CAP]; U() {} ~U() {} };
  size_t n_;
  U* u_;  // out-of-line storage
  VSTL_INL vector() : u_(VSTL_NEW(U)), n_(0) {}
  explicit vector(size_t n) : u_(VSTL_NEW(U)), n_(0) { resize(n); }
  vector(size_t n, const T& v) : u_(VSTL_NEW(U)), n_(0) { resize(n, v); }
  vector(const vector& o) : u_(VSTL_NEW(U)), n_(o.n_) { copyin(o); }
  vector(vector&& o) : u_(VSTL_NEW(U)), n_(o.n_) { copyin(o); o.n_ = 0; }
  vector(initializer_list<T> l) : u_(VSTL_NEW(U)), n_(0) { for (auto p = l.begin(); p != l.end(); ++p) push_back(*p); }
  template <class It, class = typename iterator_traits<It>::iterator_category>
  vector(It b, It e) : u_(VSTL_NEW(U)), n_(0) { size_t k = e - b; for (size_t i = 0; i < CAP + 1 && i < k; i++) push_back(b[i]); }
  ~vector() {}
  vector& operator=(const vector& o) { if (this != &o) { n_ = o.n_; copyin(o); } return *this; }
  vector& operator=(vector&& o) { if (this != &o) { n_ = o.n_; copyin(o); o.n_ = 0; } return *this; }
  vector& operator=(initializer_list<T> l) { n_ = 0; for (auto p = l.begin(); p != l.end(); ++p) push_back(*p); return *this; }
  VSTL_INL void copyin(const vector& o) { copy_(o, integral_constant<bool, is_trivially_copyable<T>::value>()); }
  VSTL_INL void copy_(const vector& o, true_type) { __builtin_memcpy(u_, o.u_, sizeof(U)); }
  void copy_(const vector& o, false_type) { for (size_t i = 0; i < CAP && i < n_; i++) new (&u_->buf[i]) T(o.u_->buf[i]); }
  VSTL_INL size_t size() const noexcept { return n_; }
  VSTL_INL bool empty() const noexcept { return n_ == 0; }
  void clear() noexcept { n_ = 0; }
  void reserve(size_t) {}
  void shrink_to_fit() {}
  size_t capacity() const { return CAP; }
  VSTL_INL T& operator[](size_t i) { vf_assert(i < n_, "std::vector index in bounds"); return u_->buf[i]; }
  VSTL_INL const T& operator[](size_t i) const { vf_assert(i < n_, "std::vector index in bounds"); return u_->buf[i]; }
  VSTL_INL T& at(size_t i) { if (i >= n_) throw out_of_range("vector::_M_range_check"); return u_->buf[i]; }
  VSTL_INL const T& at(size_t i) const { if (i >= n_) throw out_of_range("vector::_M_range_check"); return u_->buf[i]; }
  T& front() { return (*this)[0]; }
  const T& front() const { return (*this)[0]; }
  T& back() { vf_assert(n_ > 0, "std::vector::back on non-empty"); return u_->buf[n_ - 1]; }
  const T& back() const { vf_assert(n_ > 0, "std::vector::back on non-empty"); return u_->buf[n_ - 1]; }
  VSTL_INL void push_back(const T& v) { VSTL_CHECK(n_ < CAP, "vector capacity"); new (&u_->buf[n_]) T(v); n_++; }
  template <class... Args> void emplace_back(Args&&... a) { VSTL_CHECK(n_ < CAP, "vector capacity"); new (&u_->buf[n_]) T(std::forward<Args>(a)...); n_++; }
  void pop_back() { vf_assert(n_ > 0, "std::vector::pop_back on non-empty"); n_--; }
  void resize(size_t k) { VSTL_CHECK(k <= CAP, "vector capacity"); for (size_t i = n_; i < CAP && i < k; i++) new (&u_->buf[i]) T(); n_ = k; }
  void resize(size_t k, const T& v) { VSTL_CHECK(k <= CAP, "vector capacity"); for (size_t i = n_; i < CAP && i < k; i++) new (&u_->buf[i]) T(v); n_ = k; }
  void assign(size_t k, const T& v) { n_ = 0; resize(k, v); }
  template <class It, class = typename iterator_traits<It>::iterator_category>
  void assign(It b, It e) { n_ = 0; for (; b != e; ++b) push_back(*b); }
  VSTL_INL T* data() { return u_->buf; }
  VSTL_INL const T* data() const { return u_->buf; }
  VSTL_INL T* begin() { return u_->buf; }
  VSTL_INL T* end() { return u_->buf + n_; }
  VSTL_INL const T* begin() const { return u_->buf; }
  VSTL_INL const T* end() const { return u_->buf + n_; }
  VSTL_INL const T* cbegin() const { return u_->buf; }
  VSTL_INL const T* cend() const { return u_->buf + n_; }
  reverse_iterator rbegin() { return reverse_iterator(end()); }
  reverse_iterator rend() { return reverse_iterator(begin()); }
  const_reverse_iterator rbegin() const { return const_reverse_iterator(end()); }
  const_reverse_iterator rend() const { return const_reverse_iterator(begin()); }
  T* erase(const T* p) { size_t k = p - u_->buf; for (size_t i = k; i + 1 < n_; i++) u_->buf[i] = u_->buf[i + 1]; n_--; return u_->buf + k; }
  T* erase(const T* b, const T* e) { size_t k = b - u_->buf, m = e - b; if (m) { for (size_t i = k; i + m < n_; i++) u_->buf[i] = u_->buf[i + m]; n_ -= m; } return u_->buf + k; }
  T* insert(const T* p, const T& v) { size_t k = p - u_->buf; T t(v); VSTL_CHECK(n_ < CAP, "vector capacity"); for (size_t i = n_; i > k; i--) u_->buf[i] = u_->buf[i - 1]; new (&u_->buf[k]) T(t); n_++; return u_->buf + k; }
  template <class It> T* insert(const T* p, It b, It e) { size_t k = p - u_->buf; size_t at = k; for (; b != e; ++b) { insert(u_->buf + at, *b); at++; } return u_->buf + k; }
  void swap(vector& o) { vector t(*this); *this = o; o = t; }
};
template <class T> inline bool operator==(const vector<T>& a, const vector<T>& b) {
  if (a.size() != b.size()) return false;
  for (size_t i = 0; i < vector<T>::CAP && i < a.size(); i++) if (!(a.u_->buf[i] == b.u_->buf[i])) return false;
  return true;
}
template <class T> inline bool operator!=(const vector<T>& a, const vector<T>& b) { return !(a == b); }

// deque: begin offset + inline storage
template <class T, class A = void> class deque {
 public:
  static constexpr size_t CAP = VSTL_DEQCAP;
  typedef T value_type; typedef size_t size_type; typedef T& reference;
  typedef T* iterator; typedef const T* const_iterator;
  union U { T buf[CAP]; U() {} ~U() {} };
  size_t b_, e_;
  U u_;
  deque() : b_(0), e_(0) {}
  deque(const deque& o) : b_(o.b_), e_(o.e_) { __builtin_memcpy(&u_, &o.u_, sizeof(u_)); }
  deque& operator=(const deque& o) { b_ = o.b_; e_ = o.e_; __builtin_memcpy(&u_, &o.u_, sizeof(u_)); return *this; }
  ~deque() {}
  size_t size() const { return e_ - b_; }
  bool empty() const { return e_ == b_; }
  void clear() { b_ = e_ = 0; }
  VSTL_INL void push_back(const T& v) { VSTL_CHECK(e_ < CAP, "deque capacity"); new (&u_.buf[e_]) T(v); e_++; }
  template <class... Args> void emplace_back(Args&&... a) { push_back(T(std::forward<Args>(a)...)); }
  VSTL_INL void pop_front() { vf_assert(e_ > b_, "std::deque::pop_front on non-empty"); b_++; }
  void pop_back() { vf_assert(e_ > b_, "std::deque::pop_back on non-empty"); e_--; }
  VSTL_INL T& operator[](size_t i) { vf_assert(i < size(), "std::deque index in bounds"); return u_.buf[b_ + i]; }
  VSTL_INL const T& operator[](size_t i) const { vf_assert(i < size(), "std::deque index in bounds"); return u_.buf[b_ + i]; }
  VSTL_INL T& at(size_t i) { if (i >= size()) throw out_of_range("deque::_M_range_check"); return u_.buf[b_ + i]; }
  T& front() { return (*this)[0]; }
  T& back() { return (*this)[size() - 1]; }
  const T& front() const { return (*this)[0]; }
  T* begin() { return u_.buf + b_; }
  T* end() { return u_.buf + e_; }
  const T* begin() const { return u_.buf + b_; }
  const T* end() const { return u_.buf + e_; }
  const T* cbegin() const { return u_.buf + b_; }
  const T* cend() const { return u_.buf + e_; }
  T* erase(const T* f, const T* l) {
    size_t k = f - u_.buf, m = l - f;
    if (k == b_) { b_ += m; return u_.buf + b_; }
    for (size_t i = k; i + m < e_; i++) u_.buf[i] = u_.buf[i + m];
    e_ -= m; return u_.buf + k;
  }
};

// Ordered map. Nodes are separate heap objects; the map keeps them sorted.
// A "lazy" map stands for an arbitrary map of any size: a key that has not been
// looked up yet may or may not be present, with an arbitrary value.
template <class K, class V, class C = void, class A = void> class map {
 public:
  static constexpr size_t CAP = vstl_map_cap<K, V>::value;
  typedef K key_type; typedef V mapped_type; typedef pair<const K, V> value_type; typedef size_t size_type;
  struct node { pair<const K, V> kv; template <class... Args> node(Args&&... a) : kv(std::forward<Args>(a)...) {} };
  struct SL { node* s[CAP]; };
  SL* slots_;
  size_t n_;
  bool lazy_;
  size_t nabs_;            // lazy: keys established as absent
  K abs_[2];

  struct iterator {
    typedef forward_iterator_tag iterator_category; typedef pair<const K, V> value_type; typedef ptrdiff_t difference_type;
    typedef value_type* pointer; typedef value_type& reference;
    node* const* p; node* cur; const map* m; size_t i;
    VSTL_INL pair<const K, V>& operator*() const { return cur->kv; }
    VSTL_INL pair<const K, V>* operator->() const { return &cur->kv; }
    iterator& operator++() { i++; cur = i < m->n_ ? m->slots_->s[i] : nullptr; return *this; }
    iterator operator++(int) { iterator t = *this; ++*this; return t; }
    VSTL_INL bool operator==(const iterator& o) const { return cur == o.cur; }
    VSTL_INL bool operator!=(const iterator& o) const { return cur != o.cur; }
  };
  typedef iterator const_iterator;

  map(): slots_(VSTL_NEW(SL)), n_(0), lazy_(false), nabs_(0) {}
  map(const map& o): slots_(VSTL_NEW(SL)), n_(0), lazy_(o.lazy_), nabs_(0) { VSTL_CHECK(!o.lazy_, "copy of lazy map"); for (size_t i = 0; i < CAP && i < o.n_; i++) slots_->s[i] = VSTL_NEW(node)(o.slots_->s[i]->kv); n_ = o.n_; }
  map(map&& o): slots_(VSTL_NEW(SL)), n_(o.n_), lazy_(o.lazy_), nabs_(0) { __builtin_memcpy(slots_, o.slots_, sizeof(SL)); o.n_ = 0; }
  map(initializer_list<value_type> l): slots_(VSTL_NEW(SL)), n_(0), lazy_(false), nabs_(0) { for (auto p = l.begin(); p != l.end(); ++p) insert(*p); }
  map& operator=(const map& o) { if (this != &o) { VSTL_CHECK(!o.lazy_, "copy of lazy map"); lazy_ = false; for (size_t i = 0; i < CAP && i < o.n_; i++) slots_->s[i] = VSTL_NEW(node)(o.slots_->s[i]->kv); n_ = o.n_; } return *this; }
  map& operator=(map&& o) { if (this != &o) { n_ = o.n_; lazy_ = o.lazy_; __builtin_memcpy(slots_, o.slots_, sizeof(SL)); o.n_ = 0; } return *this; }
  ~map() {}
  size_t size() const { VSTL_CHECK(!lazy_, "size of lazy map"); return n_; }
  bool empty() const { VSTL_CHECK(!lazy_, "size of lazy map"); return n_ == 0; }
  void clear() { n_ = 0; lazy_ = false; nabs_ = 0; }
  static bool eq(const K& a, const K& b) { return !(a < b) && !(b < a); }
  node* lookup(const K& k) const {
    node* r = nullptr;
    for (size_t i = 0; i < CAP && i < n_; i++) if (eq(slots_->s[i]->kv.first, k)) { r = slots_->s[i]; break; }
    if (r == nullptr && lazy_) r = const_cast<map*>(this)->materialise(k);
    return r;
  }
  node* materialise(const K& k) {
    for (size_t i = 0; i < 2 && i < nabs_; i++) if (eq(abs_[i], k)) return nullptr;
    if (vf_nd_hidden(1) & 1) {
      node* nn = VSTL_NEW(node)(k, V());
      vstl_havoc(nn->kv.second);
      VSTL_CHECK(n_ < CAP, "map capacity");
      slots_->s[n_] = nn; n_++;
      return nn;
    }
    VSTL_CHECK(nabs_ < 2, "lazy map absent keys");
    abs_[nabs_] = k; nabs_++;
    return nullptr;
  }
  size_t lower(const K& k) const {
    size_t lo = 0, hi = n_;
    while (lo < hi) { size_t mid = (lo + hi) / 2; if (slots_->s[mid]->kv.first < k) lo = mid + 1; else hi = mid; }
    return lo;
  }
  node* put(node* nn) {
    VSTL_CHECK(n_ < CAP, "map capacity");
    size_t p = lazy_ ? n_ : lower(nn->kv.first);
    for (size_t i = n_; i > p; i--) slots_->s[i] = slots_->s[i - 1];
    slots_->s[p] = nn; n_++;
    if (lazy_) { size_t j = 0; for (size_t i = 0; i < 2 && i < nabs_; i++) if (!eq(abs_[i], nn->kv.first)) { abs_[j] = abs_[i]; j++; } nabs_ = j; }
    return nn;
  }
  iterator it(node* nd) const { iterator r; r.cur = nd; r.m = this; r.i = CAP; r.p = slots_->s; return r; }
  iterator begin() const { VSTL_CHECK(!lazy_, "iteration over lazy map"); iterator r; r.m = this; r.i = 0; r.p = slots_->s; r.cur = n_ > 0 ? slots_->s[0] : nullptr; return r; }
  iterator end() const { iterator r; r.m = this; r.i = 0; r.p = slots_->s; r.cur = nullptr; return r; }
  iterator cbegin() const { return begin(); }
  iterator cend() const { return end(); }
  iterator find(const K& k) const { return it(lookup(k)); }
  size_t count(const K& k) const { return lookup(k) != nullptr ? 1 : 0; }
  bool contains(const K& k) const { return lookup(k) != nullptr; }
  V& operator[](const K& k) {
    node* r = lookup(k);
    if (!r) r = put(VSTL_NEW(node)(k, V()));
    return r->kv.second;
  }
  V& at(const K& k) { node* r = lookup(k); if (!r) throw out_of_range("map::at"); return r->kv.second; }
  const V& at(const K& k) const { node* r = lookup(k); if (!r) throw out_of_range("map::at"); return r->kv.second; }
  pair<iterator, bool> insert(const value_type& v) {
    node* r = lookup(v.first);
    if (r) return pair<iterator, bool>(it(r), false);
    return pair<iterator, bool>(it(put(VSTL_NEW(node)(v))), true);
  }
  template <class A1, class A2> pair<iterator, bool> emplace(A1&& a, A2&& b) { return insert(value_type(std::forward<A1>(a), std::forward<A2>(b))); }
  template <class A1, class A2> pair<iterator, bool> try_emplace(A1&& a, A2&& b) { return insert(value_type(std::forward<A1>(a), std::forward<A2>(b))); }
  template <class A2> pair<iterator, bool> insert_or_assign(const K& k, A2&& b) { node* r = lookup(k); if (r) { r->kv.second = std::forward<A2>(b); return pair<iterator, bool>(it(r), false); } return emplace(k, std::forward<A2>(b)); }
  size_t erase(const K& k) {
    node* r = lookup(k);
    if (!r) return 0;
    if (lazy_) { VSTL_CHECK(nabs_ < 2, "lazy map absent keys"); abs_[nabs_] = k; nabs_++; }
    size_t j = 0;
    for (size_t i = 0; i < CAP && i < n_; i++) if (slots_->s[i] != r) { slots_->s[j] = slots_->s[i]; j++; }
    n_ = j;
    return 1;
  }
  void erase(const iterator& i) { erase(i.cur->kv.first); }
};
// A map that tracks one arbitrary (universally quantified) key. A lookup of any key
// constrains the quantified key to be that one; a second, different key is impossible
// (shows up as vacuity). Used for large constant tables: std::map specialised in a caps file.
template <class K, class V> class vstl_wmap {
 public:
  typedef K key_type; typedef V mapped_type; typedef pair<const K, V> value_type; typedef size_t size_type;
  struct node { K first; V second; };
  K watch_; bool present_; node nd_;
  typedef node* iterator; typedef const node* const_iterator;
  vstl_wmap() : present_(false) { vstl_havoc(watch_); }
  vstl_wmap(initializer_list<value_type> l) : present_(false) { vstl_havoc(watch_); for (auto p = l.begin(); p != l.end(); ++p) insert(*p); }
  node* at_(const K& k) const { vf_assume(!(k < watch_) && !(watch_ < k)); return present_ ? const_cast<node*>(&nd_) : nullptr; }
  node* find(const K& k) const { return at_(k); }
  node* end() const { return nullptr; }
  node* cend() const { return nullptr; }
  size_t count(const K& k) const { return at_(k) ? 1 : 0; }
  V& at(const K& k) { node* p = at_(k); if (!p) throw out_of_range("map::at"); return p->second; }
  const V& at(const K& k) const { node* p = at_(k); if (!p) throw out_of_range("map::at"); return p->second; }
  V& operator[](const K& k) { if (!(k < watch_) && !(watch_ < k)) { if (!present_) { present_ = true; nd_.first = k; nd_.second = V(); } return nd_.second; } return scratch_; }
  V scratch_;
  pair<node*, bool> insert(const value_type& v) {
    bool hit = !(v.first < watch_) && !(watch_ < v.first);
    bool done = hit && !present_;
    if (done) { nd_.first = v.first; nd_.second = v.second; present_ = true; }
    return pair<node*, bool>(nullptr, done);
  }
  template <class A1, class A2> pair<node*, bool> emplace(A1&& a, A2&& b) { return insert(value_type(std::forward<A1>(a), std::forward<A2>(b))); }
};
// A map used with one key at most (checked).
template <class K, class V, class D = void> class vstl_onemap {
 public:
  typedef K key_type; typedef V mapped_type; typedef pair<const K, V> value_type; typedef size_t size_type;
  struct node { K first; V second; };
  typedef node* iterator; typedef const node* const_iterator;
  node nd_; bool present_;
  vstl_onemap() : nd_{K(), V()}, present_(false) {}
  node* find(const K& k) const { return present_ && nd_.first == k ? const_cast<node*>(&nd_) : nullptr; }
  node* end() const { return nullptr; }
  node* cend() const { return nullptr; }
  size_t count(const K& k) const { return find(k) ? 1 : 0; }
  V& operator[](const K& k) {
    VSTL_CHECK(!present_ || nd_.first == k, "map used with two keys");
    if (!present_) { present_ = true; nd_.first = k; nd_.second = V(); }
    return nd_.second;
  }
  V& at(const K& k) { if (!find(k)) throw out_of_range("map::at"); return nd_.second; }
  template <class A2> pair<node*, bool> emplace(const K& k, A2&& b) {
    VSTL_CHECK(!present_ || nd_.first == k, "map used with two keys");
    bool done = !present_;
    if (done) { present_ = true; nd_.first = k; nd_.second = std::forward<A2>(b); }
    return pair<node*, bool>(&nd_, done);
  }
  template <class A2> pair<node*, bool> try_emplace(const K& k, A2&& b) { return emplace(k, std::forward<A2>(b)); }
  template <class A2> pair<node*, bool> insert_or_assign(const K& k, A2&& b) { bool was = present_; (*this)[k] = std::forward<A2>(b); return pair<node*, bool>(&nd_, !was); }
  pair<node*, bool> insert(const value_type& v) { return emplace(v.first, v.second); }
  size_t erase(const K& k) { if (!find(k)) return 0; present_ = false; return 1; }
  void clear() { present_ = false; }
  bool empty() const { return !present_; }
  size_t size() const { return present_ ? 1 : 0; }
};
// A constant map made from a list and only looked up (std::map specialised in a caps file).
template <class K, class V, size_t CAP = 64> class vstl_imap {
 public:
  typedef K key_type; typedef V mapped_type; typedef pair<const K, V> value_type; typedef size_t size_type;
  typedef const value_type* iterator; typedef const value_type* const_iterator;
  struct SL { const value_type* s[CAP]; };
  SL* slots_; size_t n_;
  vstl_imap(initializer_list<value_type> l) : slots_(VSTL_NEW(SL)), n_(0) { for (auto p = l.begin(); p != l.end(); ++p) { VSTL_CHECK(n_ < CAP, "map capacity"); slots_->s[n_++] = VSTL_NEW(value_type)(*p); } }
  const value_type* find(const K& k) const { const value_type* r = nullptr; for (size_t i = n_; i-- > 0;) if (slots_->s[i]->first == k) r = slots_->s[i]; return r; }
  const value_type* end() const { return nullptr; }
  const value_type* cend() const { return nullptr; }
  size_t size() const { return n_; }
  size_t count(const K& k) const { return find(k) ? 1 : 0; }
  const V& at(const K& k) const { const value_type* p = find(k); if (!p) throw out_of_range("map::at"); return p->second; }
};
template <class K, class V, class H = void, class E = void, class A = void> class unordered_map : public map<K, V> {
 public:
  using map<K, V>::map;
};

template <class T, class C = void, class A = void> class set {
 public:
  static constexpr size_t CAP = vstl_set_cap<T>::value;
  typedef T value_type; typedef size_t size_type; typedef const T* iterator; typedef const T* const_iterator;
  vector<T> v_;
  set() {}
  set(initializer_list<T> l) { for (const auto& x : l) insert(x); }
  template <class It> set(It b, It e) { for (; b != e; ++b) insert(*b); }
  size_t size() const { return v_.size(); }
  bool empty() const { return v_.empty(); }
  void clear() { v_.clear(); }
  // kept unsorted; sorted when iterated
  const T* begin() const {
    T* b = v_.u_->buf;
    for (size_t k = 0; k + 1 < vector<T>::CAP && k + 1 < v_.n_; k++)
      for (size_t i = 0; i + 1 < vector<T>::CAP && i + 1 < v_.n_; i++) if (b[i + 1] < b[i]) { T t = b[i]; b[i] = b[i + 1]; b[i + 1] = t; }
    return v_.begin();
  }
  const T* end() const { return v_.end(); }
  const T* cbegin() const { return begin(); }
  const T* cend() const { return v_.end(); }
  size_t count(const T& x) const { for (size_t i = 0; i < vector<T>::CAP && i < v_.n_; i++) if (!(v_.u_->buf[i] < x) && !(x < v_.u_->buf[i])) return 1; return 0; }
  const T* find(const T& x) const { for (size_t i = 0; i < vector<T>::CAP && i < v_.n_; i++) if (!(v_.u_->buf[i] < x) && !(x < v_.u_->buf[i])) return &v_.u_->buf[i]; return v_.end(); }
  pair<const T*, bool> insert(const T& x) {
    if (count(x)) return pair<const T*, bool>(find(x), false);
    v_.push_back(x);
    return pair<const T*, bool>(find(x), true);
  }
  template <class... Args> pair<const T*, bool> emplace(Args&&... a) { return insert(T(std::forward<Args>(a)...)); }
  size_t erase(const T& x) { const T* p = find(x); if (p == v_.end()) return 0; v_.erase(p); return 1; }
};
template <class T, class H = void, class E = void, class A = void> class unordered_set : public set<T> { public: using set<T>::set; };
template <class T> class vstl_alloc_dummy;
}  // namespace std
// second pass over the capacity file: container specialisations
#ifdef VF_CAPS_FILE
#define VSTL_PHASE2
#include VF_CAPS_FILE
#endif
