// Stand-in for Abseil's flags (headers exist here, the library does not):
// ABSL_FLAG, GetFlag, SetFlag and ParseCommandLine for the types the tools use.
#pragma once
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <functional>
#include <map>
#include <string>
#include <type_traits>
#include <vector>
namespace flagshim {
inline std::map<std::string, std::pair<std::function<bool(const std::string&)>, bool>>& All() { static auto* m = new std::map<std::string, std::pair<std::function<bool(const std::string&)>, bool>>; return *m; }
inline bool Parse(const std::string& s, std::string* o) { *o = s; return true; }
inline bool Parse(const std::string& s, bool* o) { *o = s == "true" || s == "1" || s == "yes" || s == "t" || s == "y"; return *o || s == "false" || s == "0" || s == "no" || s == "f" || s == "n"; }
inline bool Parse(const std::string& s, double* o) { char* e; *o = strtod(s.c_str(), &e); return !s.empty() && !*e; }
inline bool Parse(const std::string& s, float* o) { double d; const bool r = Parse(s, &d); *o = d; return r; }
inline bool Parse(const std::string& s, std::vector<std::string>* o) { o->clear(); if (s.empty()) return true; size_t p = 0; for (;;) { const size_t q = s.find(',', p); o->push_back(s.substr(p, q == std::string::npos ? q : q - p)); if (q == std::string::npos) return true; p = q + 1; } }
template <class T> std::enable_if_t<std::is_integral<T>::value, bool> Parse(const std::string& s, T* o) { char* e; const long long v = strtoll(s.c_str(), &e, 10); *o = (T)v; return !s.empty() && !*e && (long long)*o == v; }
template <class T> struct Flag {
  T value;
  Flag(const char* name, T v) : value(std::move(v)) { All()[name] = {[this](const std::string& s) { return Parse(s, &value); }, std::is_same<T, bool>::value}; }
};
}  // namespace flagshim
namespace absl {
template <class T> using Flag = flagshim::Flag<T>;
template <class T> T GetFlag(const flagshim::Flag<T>& f) { return f.value; }
template <class T, class V> void SetFlag(flagshim::Flag<T>* f, const V& v) { f->value = v; }
}  // namespace absl
#define ABSL_FLAG(T, name, def, help) flagshim::Flag<T> FLAGS_##name(#name, T(def))
#define ABSL_DECLARE_FLAG(T, name) extern flagshim::Flag<T> FLAGS_##name
