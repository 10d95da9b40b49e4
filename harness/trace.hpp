// Event log for the conformance harnesses: one JSON object per line, integers only (TLC reads 32-bit integers).
#pragma once
#include <signal.h>
#include <unistd.h>
#include <cmath>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <limits>
#include <fstream>
#include <sstream>
#include <string>
#include <type_traits>
#include <vector>
#if defined(__SANITIZE_ADDRESS__)
#include <sanitizer/asan_interface.h>
#endif

namespace vt {
const long INF = 1000000000L;      // +infinity, -INF is -infinity
const long NAN_ = -2000000001L;    // not a number
const long BAD = -2000000003L;     // a value that is not representable in the agreed scale / range

inline long enc(double v, double scale = 1.0) {
  if (std::isnan(v)) return NAN_;
  if (std::isinf(v)) return v > 0 ? INF : -INF;
  const double s = v * scale;
  if (s != std::floor(s) || std::abs(s) >= 9e8) return BAD;
  return (long)s;
}
// fixed point, rounded
inline long fix(double v, double scale) {
  if (std::isnan(v)) return NAN_;
  if (std::isinf(v)) return v > 0 ? INF : -INF;
  const double s = std::floor(v * scale + 0.5);
  if (std::abs(s) >= 9e8) return BAD;
  return (long)s;
}
inline long clampi(long long v) { return (v > 2147483647LL || v < -2147483647LL) ? BAD : (long)v; }

inline std::string js(bool b) { return b ? "true" : "false"; }
inline std::string js(const char* s) {
  std::string o = "\"";
  for (; *s; s++) {
    unsigned char c = (unsigned char)*s;
    if (c == '"' || c == '\\') { o += '\\'; o += (char)c; }
    else if (c < 32 || c > 126) { char b[8]; snprintf(b, sizeof b, "~%02x", c); o += b; }
    else o += (char)c;
  }
  return o + "\"";
}
inline std::string js(const std::string& s) { return js(s.c_str()); }
template <typename T, typename std::enable_if<std::is_integral<T>::value && !std::is_same<T, bool>::value, int>::type = 0>
inline std::string js(T v) { return std::to_string(clampi((long long)v)); }
template <typename A, typename B> inline std::string js(const std::pair<A, B>& p) { return "[" + js(p.first) + "," + js(p.second) + "]"; }
template <typename T, typename Al> inline std::string js(const std::vector<T, Al>& v) {
  std::string o = "[";
  for (size_t k = 0; k < v.size(); k++) { if (k) o += ","; T x = v[k]; o += js(x); }
  return o + "]";
}

struct Raw { std::string s; };
inline std::string js(const Raw& r) { return r.s; }

inline FILE*& file() { static FILE* f = nullptr; return f; }
inline std::string& cur() { static std::string s; return s; }
inline uint64_t& count() { static uint64_t c = 0; return c; }

inline void crash_event(const char* what) {
  static bool once = false;
  if (once) _exit(98);
  once = true;
  FILE* f = file();
  if (f) {
    fprintf(f, "{\"op\":\"crash\",\"what\":\"%s\",\"cur\":%s}\n", what, js(cur()).c_str());
    fflush(f);
  }
  _exit(0);
}
inline void on_signal(int s) { crash_event(s == SIGALRM ? "HANG" : s == SIGABRT ? "SIGABRT" : s == SIGSEGV ? "SIGSEGV" : s == SIGFPE ? "SIGFPE" : "SIGNAL"); }
inline void on_asan() { crash_event("ASAN"); }

inline unsigned& watchdog() { static unsigned w = 30; return w; }

inline void open() {
  const char* p = getenv("TRACE_OUT");
  file() = fopen(p ? p : "/dev/stdout", "w");
  if (!file()) _exit(97);
  for (int s : {SIGSEGV, SIGABRT, SIGFPE, SIGBUS, SIGILL, SIGALRM}) signal(s, on_signal);
  std::set_terminate([] { crash_event("TERMINATE"); });
#if defined(__SANITIZE_ADDRESS__)
  __asan_set_death_callback(on_asan);
#endif
  alarm(watchdog());
}

struct Ev {
  std::string s;
  explicit Ev(const char* op) { s = std::string("{\"op\":\"") + op + "\""; }
  template <typename T> Ev& f(const char* k, const T& v) { s += std::string(",\"") + k + "\":" + js(v); return *this; }
  void emit() {
    s += "}\n";
    fputs(s.c_str(), file());
    if ((++count() & 63) == 0) fflush(file());
    alarm(watchdog());
  }
};
inline void begin(const char* kind = "s") { Ev("begin").f("kind", kind).emit(); }

// deterministic generator, independent of the code under test
struct Rng {
  uint64_t s;
  // the seed is scrambled: neighbouring seeds must not give shifted copies of one stream
  explicit Rng(uint64_t seed) : s(seed ^ 0x5851F42D4C957F2DULL) { uint64_t a = next(); s = a ^ (seed << 32); next(); }
  uint64_t next() { uint64_t z = (s += 0x9E3779B97F4A7C15ULL); z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ULL; z = (z ^ (z >> 27)) * 0x94D049BB133111EBULL; return z ^ (z >> 31); }
  long below(long n) { return (long)(next() % (uint64_t)n); }
  long in(long a, long b) { return a + below(b - a + 1); }
  bool chance(double p) { return (double)(next() >> 11) * (1.0 / 9007199254740992.0) < p; }
  template <typename T> const T& pick(const std::vector<T>& v) { return v[(size_t)below((long)v.size())]; }
};
inline uint64_t seed() { const char* p = getenv("VERIF_SEED"); return p ? strtoull(p, nullptr, 10) : 1; }
inline bool thorough() { const char* p = getenv("VERIF_TIER"); return p && std::string(p) == "thorough"; }
inline long scale(long quick, long deep) { return thorough() ? deep : quick; }
inline std::string workdir() { const char* p = getenv("VERIF_WORK"); return p ? p : "/tmp"; }

inline std::vector<std::string> gen_lines() {
  std::vector<std::string> r;
  const char* p = getenv("GEN_FILE");
  if (!p) return r;
  std::ifstream in(p);
  std::string l;
  while (std::getline(in, l)) if (!l.empty()) r.push_back(l);
  return r;
}
// all integers of a text such as <<1, <<2, 3>>>>
inline std::vector<long> ints(const std::string& s) {
  std::vector<long> r;
  for (size_t k = 0; k < s.size();) {
    if (isdigit(s[k]) || (s[k] == '-' && k + 1 < s.size() && isdigit(s[k + 1]))) { size_t n; r.push_back(std::stol(s.substr(k), &n)); k += n; }
    else k++;
  }
  return r;
}
template <typename F> inline int guarded(F f) {  // 0 = returned, 1 = std::exception, 2 = something else
  try { f(); return 0; } catch (const std::exception&) { return 1; } catch (...) { return 2; }
}
inline void done() { alarm(0); fflush(file()); fclose(file()); file() = nullptr; _exit(0); }
}  // namespace vt
