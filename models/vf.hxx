// Harness interface.  With VF_ENGINE the vf_*_ functions are interpreted by the symbolic executor;
// without it the harness is an ordinary program that replays recorded values on the real code.
#pragma once
#include <cstdint>
#include <cstdlib>
#include <string>

#define VF_CAT_(a, b) a##b
#define VF_CAT(a, b) VF_CAT_(a, b)

#ifdef VF_ENGINE
extern "C"
{
  double vf_real_(const char* name, double lo, double hi);
  float vf_realf_(const char* name, double lo, double hi);
  uint64_t vf_int_(const char* name, uint64_t lo, uint64_t hi);
  double vf_fp_(const char* name);
  float vf_fpf_(const char* name);
  void vf_assume_(bool c);
  void vf_assert_(bool c, const char* msg);
  void vf_near_(double a, double b, double tol, const char* msg);
  void vf_expect_abort_(bool c);
  uint64_t vf_concretize_(uint64_t v);
  void vf_debug_(const char* n, double v);
}
#define VF_ENTRY(name) extern "C" __attribute__((used, noinline)) void name()
#include <fstream>
inline std::string vf_num(double d) { return vf_model::mark(d); }
inline std::string vf_numi(uint64_t d) { return vf_model::marki(d); }
inline void vf_file_put(const std::string& n, const std::string& t)
{
  if (auto* f = vf_model::find(n))
    f->text = t;
  else
    vf_model::files().push_back(vf_model::File{n, t});
}
inline bool vf_file_exists(const std::string& n) { return vf_model::find(n) != nullptr; }
inline std::string vf_file_get(const std::string& n)
{
  auto* f = vf_model::find(n);
  return f ? f->text : std::string();
}
inline bool vf_to_num(const std::string& tok, double& d)
{
  size_t p = 0;
  return vf_model::parse_double(tok, p, d) && p == tok.size();
}
#else
#include <signal.h>
#include <unistd.h>
#include <cmath>
#include <cstdio>
#include <cstring>
#include <fstream>
#include <iostream>
#include <map>
#include <sstream>
#include <vector>
struct VfNative
{
  std::vector<std::pair<std::string, std::string>> vals;
  size_t pos = 0;
  bool replay = false;
  uint64_t rng = 88172645463325252ULL;
  static VfNative& get()
  {
    static VfNative n;
    return n;
  }
  std::map<std::string, void (*)()>& entries()
  {
    static std::map<std::string, void (*)()> e;
    return e;
  }
  uint64_t rnd()
  {
    rng ^= rng << 13;
    rng ^= rng >> 7;
    rng ^= rng << 17;
    return rng;
  }
  const char* next(const char* name)
  {
    if (!replay)
      return nullptr;
    while (pos < vals.size() && vals[pos].first[0] == '~')
      ++pos;
    if (pos >= vals.size() || vals[pos].first != name)
    {
      fprintf(stderr, "VF-DIVERGED at input %zu (%s)\n", pos, name);
      fflush(stderr);
      _exit(78);
    }
    return vals[pos++].second.c_str();
  }
};
inline double vf_real_(const char* n, double lo, double hi)
{
  auto& N = VfNative::get();
  if (const char* v = N.next(n))
    return strtod(v, nullptr);
  return lo + (hi - lo) * ((N.rnd() >> 11) * (1.0 / 9007199254740992.0));
}
inline float vf_realf_(const char* n, double lo, double hi)
{
  return (float)vf_real_(n, lo, hi);
}
inline uint64_t vf_int_(const char* n, uint64_t lo, uint64_t hi)
{
  auto& N = VfNative::get();
  if (const char* v = N.next(n))
    return strtoull(v, nullptr, 0);
  return hi - lo == ~0ULL ? N.rnd() : lo + N.rnd() % (hi - lo + 1);
}
inline double vf_fp_(const char* n)
{
  auto& N = VfNative::get();
  uint64_t u;
  if (const char* v = N.next(n))
    u = strtoull(v, nullptr, 0);
  else
    u = N.rnd();
  double d;
  memcpy(&d, &u, 8);
  return d;
}
inline float vf_fpf_(const char* n)
{
  auto& N = VfNative::get();
  uint32_t u;
  if (const char* v = N.next(n))
    u = (uint32_t)strtoull(v, nullptr, 0);
  else
    u = (uint32_t)N.rnd();
  float d;
  memcpy(&d, &u, 4);
  return d;
}
inline void vf_assume_(bool c)
{
  if (!c)
  {
    fflush(stdout);
    _exit(77);
  }
}
inline void vf_fail(const char* msg)
{
  printf("VF-FAIL %s\n", msg);
  fflush(stdout);
  _exit(1);
}
inline void vf_assert_(bool c, const char* msg)
{
  if (!c)
    vf_fail(msg);
}
inline void vf_near_(double a, double b, double tol, const char* msg)
{
  if (!(std::fabs(a - b) <= tol))
  {
    printf("VF-VALUES %.17g %.17g tol %g\n", a, b, tol);
    vf_fail(msg);
  }
}
inline void vf_abort_ok(int)
{
  _exit(0);
}
inline bool vf_expecting = false;
inline void vf_expect_abort_(bool c)
{
  vf_expecting = c;
  signal(SIGABRT, c ? vf_abort_ok : SIG_DFL);
}
inline uint64_t vf_concretize_(uint64_t v) { return v; }
inline void vf_debug_(const char* n, double v) { fprintf(stderr, "debug %s %.17g\n", n, v); }
#define VF_ENTRY(name)                                                                          \
  void name();                                                                                  \
  static bool VF_CAT(name, _reg) = (VfNative::get().entries()[#name] = name, true);             \
  void name()
inline std::string vf_num(double d)
{
  char b[64];
  snprintf(b, sizeof b, "%.17g", d);
  return b;
}
inline std::string vf_numi(uint64_t d) { return std::to_string(d); }
inline void vf_file_put(const std::string& n, const std::string& t)
{
  std::ofstream o(n);
  o << t;
}
inline bool vf_file_exists(const std::string& n)
{
  std::ifstream i(n);
  return (bool)i;
}
inline std::string vf_file_get(const std::string& n)
{
  std::ifstream i(n);
  std::ostringstream o;
  o << i.rdbuf();
  return o.str();
}
inline bool vf_to_num(const std::string& tok, double& d)
{
  char* e;
  d = strtod(tok.c_str(), &e);
  return !tok.empty() && *e == 0;
}
int main(int argc, char** argv)
{
  auto& N = VfNative::get();
  if (argc < 2 || !N.entries().count(argv[1]))
    return 2;
  if (argc > 2 && std::string(argv[2]) == "--random")
  {
    N.rng ^= strtoull(argv[3], nullptr, 0) * 0x9E3779B97F4A7C15ULL;
    for (int i = 0; i < 10; ++i)
      N.rnd();
  }
  else if (argc > 2)
  {
    N.replay = true;
    std::ifstream f(argv[2]);
    std::string line;
    while (std::getline(f, line))
    {
      auto p = line.find('\t');
      if (line.empty() || line[0] == '#' || p == std::string::npos)
        continue;
      N.vals.push_back({line.substr(0, p), line.substr(p + 1)});
    }
  }
  N.entries()[argv[1]]();
  if (vf_expecting)
    vf_fail("the invalid call is rejected (aborts)");
  printf("VF-OK\n");
  return 0;
}
#endif

// Equality up to rounding: the engine decides it over the reals with an absolute slack of 1e-9, the
// native replay allows for rounding relative to the operands and to the size of intermediates.
#ifdef VF_ENGINE
inline void vf_same(double a, double b, double, const char* msg) { vf_near_(a, b, 1e-9, msg); }
inline void vf_same(float a, float b, double scale, const char* msg)
{
  vf_near_(a, b, 1e-6 * (1. + scale), msg);  // single precision code may round at any place
}
#else
inline void vf_same(double a, double b, double scale, const char* msg)
{
  vf_near_(a, b, 1e-11 * (scale + std::fabs(a) + std::fabs(b)), msg);
}
inline void vf_same(float a, float b, double scale, const char* msg)
{
  vf_near_(a, b, 1e-5 * (scale + std::fabs(a) + std::fabs(b)), msg);
}
#endif
template <typename T>
T vf_realT(const char* n, double lo, double hi)
{
  if constexpr (sizeof(T) == 4)
    return vf_realf_(n, lo, hi);
  else
    return vf_real_(n, lo, hi);
}

// Split a text into white-space separated tokens, one at a time.
struct VfTokens
{
  std::string s;
  size_t p = 0;
  explicit VfTokens(const std::string& t) : s(t) {}
  static bool sp(char c) { return c == ' ' || c == '\n' || c == '\t' || c == '\r'; }
  bool next(std::string& t)
  {
    while (p < s.size() && sp(s[p]))
      ++p;
    if (p >= s.size())
      return false;
    t.clear();
    while (p < s.size() && !sp(s[p]))
      t.push_back(s[p++]);
    return true;
  }
};

// An assertion that aborts in debug builds is modelled by its condition; the message text is not
// built (it has no side effects).  hy_assert itself is checked by its own harness.
#ifdef VF_ENGINE
#ifndef VF_REAL_HY_ASSERT
#include <HyperHDG/hy_assert.hxx>
#ifndef NDEBUG
#undef hy_assert
#define hy_assert(Expr, Msg) \
  {                          \
    if (!(Expr))             \
      abort();               \
  }                          \
  static_assert(true, "")
#endif
#endif
#endif
// What the library's headers expect to have been included before them.
#include <algorithm>
#include <array>
#include <cmath>
#include <memory>
#include <tuple>
#include <vector>
