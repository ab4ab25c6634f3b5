// JSON observation API for harnesses.
//  proof mode : reads the ghost store of the document the code printed.
//  native mode: parses the line the real code printed with the real nlohmann json.
// VF_JSON_PATHS lists every path the harness' code may legitimately write.
#pragma once
#include <string>
#include <nlohmann/json.hpp>
#include "vf.h"

#ifdef VF_MODEL
namespace vfj {
constexpr bool streq(const char* a, const char* b) { return *a == *b && (*a == 0 || streq(a + 1, b + 1)); }
constexpr unsigned index(const char* p, unsigned w = 0) { return w >= NW ? throw "path not listed in VF_JSON_PATHS" : (streq(paths[w], p) ? w : index(p, w + 1)); }
}
struct VfDoc {
  vfj::Store* st;
  template <unsigned I> bool has_() const { return st->kind[I] != vfj::ABSENT; }
  template <unsigned I> int kind_() const { return st->kind[I]; }
  template <unsigned I> long num_() const { return st->ival[I]; }
  template <unsigned I> double flt_() const { return st->fval[I]; }
  template <unsigned I> unsigned len_() const { return st->count[I]; }
  template <unsigned I> long item_(unsigned k) const { return st->items[I][k]; }
  template <unsigned I> const std::string& str_() const { return st->sval[I]; }
  template <unsigned I> const std::string& sitem_(unsigned k) const { return st->sitems[I][k]; }
  bool only_listed() const { return !st->unlisted; }
};
#define VFJ_(d, m, path) (d).m##_<vfj::index(path)>
struct VfDocs {
  unsigned n; bool wellformed; unsigned base;
  explicit VfDocs(const std::string& out) : n(0), wellformed(true), base(0) {
    // each document must have been emitted as exactly one line
    for (size_t i = 0; i < 9 && i < out.size(); i++) {
      char c = out.get(i);
      if (i % 2 == 0) { if (c < 1 || c > 4) wellformed = false; else { if (n == 0) base = static_cast<unsigned>(c - 1); n++; } }
      else if (c != '\n') wellformed = false;
    }
    if (out.size() % 2 != 0 || out.size() > 8) wellformed = false;
  }
  VfDoc doc(unsigned i) const { VfDoc d; d.st = vf_printed[base + i]; return d; }
};
#else
#include <vector>
namespace vfj {
enum Kind { ABSENT, NUL, OBJECT, ARRAY, BOOL, INT, FLOAT, STRING };
static const char* const paths[] = {"", VF_JSON_PATHS};
}
struct VfDoc {
  nlohmann::ordered_json j;
  const nlohmann::ordered_json* find(const std::string& path) const {
    const nlohmann::ordered_json* c = &j;
    size_t i = 0;
    while (i < path.size()) {
      if (path[i] == '/') { i++; continue; }
      if (path[i] == '#') {
        size_t e = i + 1; size_t k = 0;
        while (e < path.size() && isdigit(static_cast<unsigned char>(path[e]))) { k = k * 10 + static_cast<size_t>(path[e] - '0'); e++; }
        if (!c->is_array() || k >= c->size()) return nullptr;
        c = &(*c)[k]; i = e; continue;
      }
      size_t e = path.find_first_of("/#", i); if (e == std::string::npos) e = path.size();
      std::string key = path.substr(i, e - i);
      if (!c->is_object() || !c->contains(key)) return nullptr;
      c = &(*c)[key]; i = e;
    }
    return c;
  }
  int kind_(const char* p) const {
    auto* c = find(p); if (!c) return vfj::ABSENT;
    if (c->is_null()) return vfj::NUL; if (c->is_object()) return vfj::OBJECT; if (c->is_array()) return vfj::ARRAY;
    if (c->is_boolean()) return vfj::BOOL; if (c->is_number_integer()) return vfj::INT; if (c->is_number_float()) return vfj::FLOAT;
    return vfj::STRING;
  }
  bool has_(const char* p) const { return find(p) != nullptr; }
  long num_(const char* p) const { auto* c = find(p); return c ? (c->is_boolean() ? long(c->get<bool>()) : c->is_number() ? c->get<long>() : 0) : 0; }
  double flt_(const char* p) const { auto* c = find(p); return c && c->is_number() ? c->get<double>() : 0; }
  unsigned len_(const char* p) const { auto* c = find(p); return c && c->is_array() ? static_cast<unsigned>(c->size()) : 0; }
  long item_(const char* p, unsigned k) const { auto* c = find(p); return c && c->is_array() && k < c->size() && (*c)[k].is_number() ? (*c)[k].get<long>() : 0; }
  std::string str_(const char* p) const { auto* c = find(p); return c && c->is_string() ? c->get<std::string>() : std::string(); }
  std::string sitem_(const char* p, unsigned k) const { auto* c = find(p); return c && c->is_array() && k < c->size() && (*c)[k].is_string() ? (*c)[k].get<std::string>() : std::string(); }
  bool listed(const std::string& path) const { for (auto* p : vfj::paths) if (path == p) return true; return false; }
  bool walk(const nlohmann::ordered_json& c, const std::string& path) const {
    if (c.is_object()) {
      for (auto it = c.begin(); it != c.end(); ++it) if (!walk(it.value(), path.empty() ? it.key() : path + "/" + it.key())) return false;
      return true;
    }
    if (c.is_array()) {
      if (!listed(path)) return false;
      for (size_t i = 0; i < c.size(); i++) if (c[i].is_object() && !walk(c[i], path + "#" + std::to_string(i))) return false;
      return true;
    }
    return listed(path);
  }
  bool only_listed() const { return walk(j, ""); }
};
// uniform call syntax for both modes
struct VfPathProxy { const VfDoc& d; const char* p;
  bool has() const { return d.has_(p); } int kind() const { return d.kind_(p); } long num() const { return d.num_(p); } double flt() const { return d.flt_(p); }
  unsigned len() const { return d.len_(p); } long item(unsigned k) const { return d.item_(p, k); } std::string str() const { return d.str_(p); } std::string sitem(unsigned k) const { return d.sitem_(p, k); } };
struct VfDocs {
  unsigned n = 0; bool wellformed = true; std::vector<VfDoc> v;
  explicit VfDocs(const std::string& out) {
    size_t i = 0;
    while (i < out.size()) {
      size_t e = out.find('\n', i);
      if (e == std::string::npos) { wellformed = false; break; }
      auto j = nlohmann::ordered_json::parse(out.substr(i, e - i), nullptr, false);
      if (j.is_discarded()) { wellformed = false; } else { VfDoc d; d.j = j; v.push_back(d); n++; }
      i = e + 1;
    }
  }
  VfDoc doc(unsigned i) const { return v.at(i); }
};
#endif
#ifdef VF_MODEL
#define JHAS(d, p) (d).has_<vfj::index(p)>()
#define JKIND(d, p) (d).kind_<vfj::index(p)>()
#define JNUM(d, p) (d).num_<vfj::index(p)>()
#define JFLT(d, p) (d).flt_<vfj::index(p)>()
#define JLEN(d, p) (d).len_<vfj::index(p)>()
#define JITEM(d, p, k) (d).item_<vfj::index(p)>(k)
#define JSTR(d, p) (d).str_<vfj::index(p)>()
#define JSITEM(d, p, k) (d).sitem_<vfj::index(p)>(k)
#else
#define JHAS(d, p) (d).has_(p)
#define JKIND(d, p) (d).kind_(p)
#define JNUM(d, p) (d).num_(p)
#define JFLT(d, p) (d).flt_(p)
#define JLEN(d, p) (d).len_(p)
#define JITEM(d, p, k) (d).item_(p, k)
#define JSTR(d, p) (d).str_(p)
#define JSITEM(d, p, k) (d).sitem_(p, k)
#endif
