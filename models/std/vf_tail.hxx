// std::to_string and the number parsers of <cstdlib> as C++ code (numbers may be symbolic).
#pragma once
#include <cerrno>
#include <cctype>
#include <cstdlib>
#include <cstring>
namespace std
{
inline string to_string(unsigned v) { return vf_model::udec(v); }
inline string to_string(unsigned long v) { return vf_model::udec(v); }
inline string to_string(unsigned long long v) { return vf_model::udec(v); }
inline string to_string(long long v)
{
  return v < 0 ? string("-") + vf_model::udec(0ULL - (unsigned long long)v) : vf_model::udec((unsigned long long)v);
}
inline string to_string(int v) { return to_string((long long)v); }
inline string to_string(long v) { return to_string((long long)v); }
inline string to_string(double v)
{
  if (vf_model::round_output)
    v += 5e-7 * vf_real_("~round", -1., 1.);
  return vf_model::mark(v);
}
inline string to_string(float v) { return to_string((double)v); }
}  // namespace std
extern "C"
{
inline int vf_errno_ = 0;
__attribute__((used)) inline int* __errno_location() noexcept { return &vf_errno_; }
__attribute__((used)) inline double strtod(const char* p, char** e) noexcept
{
  const std::string s(p);
  size_t i = 0, b;
  double d = 0.;
  while (i < s.size() && vf_model::space(s[i]))
    ++i;
  b = i;
  if (!vf_model::parse_double(s, i, d))
    b = i = 0;
  if (e)
    *e = const_cast<char*>(p) + i;
  return d;
}
__attribute__((used)) inline float strtof(const char* p, char** e) noexcept { return (float)strtod(p, e); }
__attribute__((used)) inline long strtol(const char* p, char** e, int) noexcept
{
  const std::string s(p);
  size_t i = 0;
  uint64_t u = 0;
  bool neg = false;
  while (i < s.size() && vf_model::space(s[i]))
    ++i;
  if (!vf_model::parse_int(s, i, u, neg))
    i = 0;
  if (e)
    *e = const_cast<char*>(p) + i;
  return neg ? -(long)u : (long)u;
}
__attribute__((used)) inline unsigned long strtoul(const char* p, char** e, int b) noexcept { return (unsigned long)strtol(p, e, b); }
__attribute__((used)) inline long long strtoll(const char* p, char** e, int b) noexcept { return strtol(p, e, b); }
__attribute__((used)) inline unsigned long long strtoull(const char* p, char** e, int b) noexcept { return (unsigned long long)strtol(p, e, b); }
#define VF_USED __attribute__((used)) inline
VF_USED int isspace(int c) noexcept { return c == ' ' || (c >= 9 && c <= 13); }
VF_USED int isdigit(int c) noexcept { return c >= '0' && c <= '9'; }
VF_USED int islower(int c) noexcept { return c >= 'a' && c <= 'z'; }
VF_USED int isupper(int c) noexcept { return c >= 'A' && c <= 'Z'; }
VF_USED int isalpha(int c) noexcept { return islower(c) || isupper(c); }
VF_USED int isalnum(int c) noexcept { return isalpha(c) || isdigit(c); }
VF_USED int isxdigit(int c) noexcept { return isdigit(c) || (c >= 'a' && c <= 'f') || (c >= 'A' && c <= 'F'); }
VF_USED int isblank(int c) noexcept { return c == ' ' || c == 9; }
VF_USED int isprint(int c) noexcept { return c >= 32 && c < 127; }
VF_USED int isgraph(int c) noexcept { return c > 32 && c < 127; }
VF_USED int ispunct(int c) noexcept { return isgraph(c) && !isalnum(c); }
VF_USED int iscntrl(int c) noexcept { return (c >= 0 && c < 32) || c == 127; }
VF_USED int tolower(int c) noexcept { return isupper(c) ? c + 32 : c; }
VF_USED int toupper(int c) noexcept { return islower(c) ? c - 32 : c; }
VF_USED int strcmp(const char* a, const char* b) noexcept
{
  for (; *a && *a == *b; ++a, ++b)
    ;
  return (unsigned char)*a - (unsigned char)*b;
}
VF_USED int strncmp(const char* a, const char* b, size_t n) noexcept
{
  for (; n && *a && *a == *b; ++a, ++b, --n)
    ;
  return n ? (unsigned char)*a - (unsigned char)*b : 0;
}
VF_USED char* strcpy(char* d, const char* s) noexcept
{
  char* r = d;
  while ((*d++ = *s++))
    ;
  return r;
}
#undef VF_USED
}
