#pragma once
// Model iostreams: an output stream appends to a string, an input stream
// consumes one.
#include "vstl_string.hh"
namespace std {
typedef long streamsize; typedef long streamoff;
class ios_base {
 public:
  typedef unsigned fmtflags;
  static const fmtflags dec = 1, hex = 2, oct = 4, basefield = 7, uppercase = 8, fixed = 16, scientific = 32, floatfield = 48, showbase = 64, boolalpha = 128, left = 256, right = 512, internal = 1024, adjustfield = 1792, showpos = 2048, skipws = 4096;
  typedef unsigned iostate; static const iostate goodbit = 0, badbit = 1, eofbit = 2, failbit = 4;
  typedef unsigned openmode; static const openmode in = 1, out = 2, binary = 4, app = 8, ate = 16, trunc = 32;
  fmtflags f_; iostate st_; streamsize w_; streamsize prec_; long fill_;  // no tail padding: derived classes must not reuse it
  ios_base() : f_(dec), st_(0), w_(0), prec_(6), fill_(' ') {}
  fmtflags flags() const { return f_; }
  fmtflags flags(fmtflags f) { fmtflags o = f_; f_ = f; return o; }
  fmtflags setf(fmtflags f) { fmtflags o = f_; f_ |= f; return o; }
  fmtflags setf(fmtflags f, fmtflags m) { fmtflags o = f_; f_ = (f_ & ~m) | (f & m); return o; }
  void unsetf(fmtflags f) { f_ &= ~f; }
  streamsize width() const { return w_; }
  streamsize width(streamsize w) { streamsize o = w_; w_ = w; return o; }
  streamsize precision() const { return prec_; }
  streamsize precision(streamsize p) { streamsize o = prec_; prec_ = p; return o; }
  static bool sync_with_stdio(bool = true) { return true; }
};
class ios : public ios_base {
 public:
  ios() {}
  ios(nullptr_t) {}
  char fill() const { return static_cast<char>(fill_); }
  char fill(char c) { char o = static_cast<char>(fill_); fill_ = c; return o; }
  ios& copyfmt(const ios& o) { f_ = o.f_; w_ = o.w_; prec_ = o.prec_; fill_ = o.fill_; return *this; }
  bool eof() const { return st_ & eofbit; }
  bool fail() const { return st_ & (failbit | badbit); }
  bool bad() const { return st_ & badbit; }
  bool good() const { return st_ == 0; }
  iostate rdstate() const { return st_; }
  void setstate(iostate s) { st_ |= s; }
  void clear(iostate s = 0) { st_ = s; }
  explicit operator bool() const { return !fail(); }
  bool operator!() const { return fail(); }
};
class ostream : public ios {
 public:
  string buf_;
  size_t discard_;
  ostream() : discard_(0) {}
  ostream(const ostream&) = delete;
  ostream& operator=(const ostream&) = delete;
  VSTL_INL void raw(const string& s) { if (!discard_) { buf_.append(s); } }
  void padded(const string& s) {
    if (discard_) return;
    size_t w = w_ > 0 ? static_cast<size_t>(w_) : 0; w_ = 0;
    VSTL_CHECK(w <= 16, "setw");
    if (w == 0) { buf_.append(s); return; }
    if (f_ & left) { buf_.append(s); for (size_t i = s.size(); i < 16 && i < w; i++) buf_.push_back(fill()); }
    else { 
      // field of max(w, size) characters: fill first, then the text
      string t; size_t n = s.size() > w ? s.size() : w; size_t pad = n - s.size(); size_t m = s.m_ > w ? s.m_ : w;
      VSTL_CHECK(m <= VSTL_STRCAP, "string capacity");
      for (size_t i = 0; i < VSTL_STRCAP && i < m && i < n; i++) t.p_->b[i] = i < pad ? fill() : s.get(i - pad);
      t.n_ = n; t.m_ = m; t.p_->b[n] = 0;
      buf_.append(t);
    }
  }
  ostream& num(unsigned long v, bool neg) {
    if (discard_) return *this;
    string s;
    if (f_ & hex) s = v <= 0xFFFFFFFFul ? vstl_fmt_hex32(static_cast<uint32_t>(v), f_ & uppercase) : vstl_fmt_u(v, 16, f_ & uppercase, false);
    else if (v <= 0xFFFFFFFFul) s = vstl_fmt_dec32(static_cast<uint32_t>(v), neg);
    else s = vstl_fmt_u(v, 10, false, neg);
    padded(s);
    return *this;
  }
  ostream& operator<<(const string& s) { padded(s); return *this; }
  ostream& operator<<(const char* s) { padded(string(s)); return *this; }
  ostream& operator<<(char c) { padded(string(1, c)); return *this; }
  ostream& operator<<(signed char c) { padded(string(1, static_cast<char>(c))); return *this; }
  ostream& operator<<(unsigned char c) { padded(string(1, static_cast<char>(c))); return *this; }
  ostream& operator<<(bool v) { return (f_ & boolalpha) ? *this << (v ? "true" : "false") : num(v, false); }
  ostream& operator<<(unsigned short v) {
    if (!discard_ && (f_ & hex) && !(f_ & left) && fill_ == '0' && w_ >= 4 && w_ <= 8) {  // always exactly w_ digits
      string s; size_t w = static_cast<size_t>(w_); w_ = 0;
      for (size_t i = 0; i < w; i++) { unsigned d = w - 1 - i < 4 ? (static_cast<unsigned>(v) >> (4 * (w - 1 - i))) & 15u : 0u; s.p_->b[i] = static_cast<char>(d < 10 ? '0' + d : ((f_ & uppercase) ? 'A' : 'a') + (d - 10)); }
      s.n_ = w; s.m_ = w; s.p_->b[w] = 0;
      buf_.append(s); return *this;
    }
    return num(v, false);
  }
  ostream& operator<<(short v) { if (f_ & hex) return num(static_cast<unsigned short>(v), false); return v < 0 ? num(static_cast<unsigned>(-static_cast<int>(v)), true) : num(static_cast<unsigned>(v), false); }
  ostream& operator<<(unsigned v) { return num(v, false); }
  ostream& operator<<(int v) { if (f_ & hex) return num(static_cast<unsigned>(v), false); return v < 0 ? num(0u - static_cast<unsigned>(v), true) : num(static_cast<unsigned>(v), false); }
  ostream& operator<<(unsigned long v) { return num(v, false); }
  ostream& operator<<(long v) { if (f_ & hex) return num(static_cast<unsigned long>(v), false); return v < 0 ? num(0ul - static_cast<unsigned long>(v), true) : num(static_cast<unsigned long>(v), false); }
  ostream& operator<<(unsigned long long v) { return num(v, false); }
  ostream& operator<<(long long v) { return *this << static_cast<long>(v); }
  ostream& operator<<(float v) { return *this << static_cast<double>(v); }
  ostream& operator<<(double v) {
    if (discard_) return *this;
    // only non-negative fixed notation with one decimal (round to nearest of the scaled value)
    VSTL_CHECK((f_ & fixed) && prec_ == 1 && v >= 0 && v < 1e6, "floating-point output");
    uint32_t t = static_cast<uint32_t>(v * 10.0 + 0.5);
    string s = vstl_fmt_dec32(t / 10, false); s.push_back('.'); s.push_back(static_cast<char>('0' + t % 10));
    padded(s); return *this;
  }
  ostream& operator<<(const void*) { vf_limit("pointer output"); return *this; }
  ostream& operator<<(ostream& (*f)(ostream&)) { return f(*this); }
  ostream& operator<<(ios_base& (*f)(ios_base&)) { f(*this); return *this; }
  ostream& put(char c) { raw(string(1, c)); return *this; }
  ostream& write(const char* s, streamsize n) { raw(string(s, static_cast<size_t>(n))); return *this; }
  ostream& flush() { return *this; }
};
inline ios_base& hex(ios_base& b) { b.setf(ios_base::hex, ios_base::basefield); return b; }
inline ios_base& dec(ios_base& b) { b.setf(ios_base::dec, ios_base::basefield); return b; }
inline ios_base& uppercase(ios_base& b) { b.setf(ios_base::uppercase); return b; }
inline ios_base& nouppercase(ios_base& b) { b.unsetf(ios_base::uppercase); return b; }
inline ios_base& fixed(ios_base& b) { b.setf(ios_base::fixed, ios_base::floatfield); return b; }
inline ios_base& boolalpha(ios_base& b) { b.setf(ios_base::boolalpha); return b; }
inline ios_base& left(ios_base& b) { b.setf(ios_base::left, ios_base::adjustfield); return b; }
inline ios_base& right(ios_base& b) { b.setf(ios_base::right, ios_base::adjustfield); return b; }
inline ostream& endl(ostream& o) { o.put('\n'); return o; }
inline ostream& flush(ostream& o) { return o; }
inline ostream& ends(ostream& o) { o.put('\0'); return o; }
struct vstl_setw { int n; }; inline vstl_setw setw(int n) { return {n}; }
struct vstl_setfill { char c; }; inline vstl_setfill setfill(char c) { return {c}; }
struct vstl_setprec { int n; }; inline vstl_setprec setprecision(int n) { return {n}; }
inline ostream& operator<<(ostream& o, vstl_setw s) { o.width(s.n); return o; }
inline ostream& operator<<(ostream& o, vstl_setfill s) { o.fill(s.c); return o; }
inline ostream& operator<<(ostream& o, vstl_setprec s) { o.precision(s.n); return o; }

class istream : public ios {
 public:
  string in_; size_t pos_;
  istream() : pos_(0) {}
  int get() { if (pos_ >= in_.size()) { st_ |= eofbit | failbit; return -1; } return static_cast<unsigned char>(in_.get(pos_++)); }
  istream& get(char& c) { int v = get(); if (v >= 0) c = static_cast<char>(v); return *this; }
  int peek() { if (pos_ >= in_.size()) { st_ |= eofbit; return -1; } return static_cast<unsigned char>(in_.get(pos_)); }
};
inline istream& getline(istream& is, string& s, char delim = '\n') {
  s.clear();
  if (!is.good()) { is.setstate(ios_base::failbit); return is; }
  bool got = false;
  size_t p = is.pos_, n = is.in_.size();
  for (size_t k = 0; k < VSTL_STRCAP + 1; k++) {
    if (p >= n) { is.setstate(ios_base::eofbit); break; }
    char c = is.in_.get(p); p++; got = true;
    if (c == delim) break;
    s.push_back(c);
  }
  is.pos_ = p;
  if (!got) is.setstate(ios_base::failbit);
  return is;
}
class iostream : public ostream { public: };
class ostringstream : public ostream {
 public:
  ostringstream() {}
  explicit ostringstream(const string& s) { buf_ = s; }
  string str() const { return buf_; }
  void str(const string& s) { buf_ = s; }
};
class stringstream : public ostringstream { public: stringstream() {} explicit stringstream(const string& s) : ostringstream(s) {} };
class istringstream : public istream { public: istringstream() {} explicit istringstream(const string& s) { in_ = s; } };
// File input: the harness supplies the (at most one) existing file's contents.
extern bool vstl_file_exists;
extern string* vstl_file_content;
class ifstream : public istream {
 public:
  bool open_;
  ifstream() : open_(false) {}
  explicit ifstream(const string&, unsigned = 0) : open_(false) { if (vstl_file_exists) { open_ = true; in_ = *vstl_file_content; } else st_ |= failbit; }
  explicit ifstream(const char*, unsigned = 0) : open_(false) { if (vstl_file_exists) { open_ = true; in_ = *vstl_file_content; } else st_ |= failbit; }
  bool is_open() const { return open_; }
  void close() { open_ = false; }
};
class ofstream : public ostream { public: ofstream() {} explicit ofstream(const string&, unsigned = 0) { discard_ = 1; } void close() {} bool is_open() const { return true; } };
extern ostream cout, cerr, clog;
extern istream cin;
template <class C, class T> class basic_ostream; template <class C, class T> class basic_istream;
}  // namespace std
