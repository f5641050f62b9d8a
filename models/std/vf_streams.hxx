// Stand-in for the standard streams, used only when a harness is compiled for the symbolic
// executor.  Text is kept in memory; a floating point number is written as the marker
// \x01<index>\x02 referring to a table of (possibly symbolic) doubles, a symbolic integer likewise
// as \x03<index>\x02, so that numbers survive a round trip through text unchanged.
// The width of integers and text is modelled, that of floating point numbers and their notation are not.  Precision is modelled only if vf_model::round_output is set:
// a number written with fewer digits than its type needs then comes back with an arbitrary relative
// error of up to half a unit in the last digit.
#pragma once
#include <cstddef>
#include <cstdint>
#include <iosfwd>
#include <string>
#include <string_view>
#include <vector>
#include <utility>
#include <bits/stl_iterator_base_types.h>
#include <type_traits>

extern "C" double vf_real_(const char* name, double lo, double hi);
namespace vf_model
{
inline bool round_output = false;
inline double num_tab[8192];
inline unsigned num_cnt = 0;
inline uint64_t int_tab[8192];
inline unsigned int_cnt = 0;
inline std::string udec(unsigned long long v)
{
  char b[24];
  int n = 0;
  do
  {
    b[n++] = char('0' + v % 10);
    v /= 10;
  } while (v);
  std::string r;
  while (n)
    r.push_back(b[--n]);
  return r;
}
inline std::string mark(double d)
{
  num_tab[num_cnt] = d;
  std::string r("\x01");
  r += udec(num_cnt++);
  r.push_back('\x02');
  return r;
}
inline std::string marki(uint64_t d)
{
  int_tab[int_cnt] = d;
  std::string r("\x03");
  r += udec(int_cnt++);
  r.push_back('\x02');
  return r;
}
struct File
{
  std::string name, text;
};
inline std::vector<File>& files()
{
  static std::vector<File> f;
  return f;
}
inline File* find(const std::string& n)
{
  for (auto& f : files())
    if (f.name == n)
      return &f;
  return nullptr;
}
// directories: the working directory and what create_directory made
inline std::vector<std::string>& dirs()
{
  static std::vector<std::string> d;
  return d;
}
inline std::string dir_of(std::string n)
{
  size_t p = n.rfind('/');
  if (p == std::string::npos)
    return std::string();
  while (p > 0 && n[p - 1] == '/')
    --p;
  return n.substr(0, p);
}
inline bool dir_exists(const std::string& n)
{
  if (n.empty() || n == ".")
    return true;
  for (auto& d : dirs())
    if (d == n)
      return true;
  return false;
}
inline bool space(char c)
{
  return c == ' ' || c == '\n' || c == '\t' || c == '\r' || c == '\v' || c == '\f';
}
inline bool digit(char c)
{
  return c >= '0' && c <= '9';
}
// Parse a number at s[p...]; returns false if there is none.
inline bool parse_marker(const std::string& s, size_t& p, double& d)
{
  bool isint = s[p] == '\x03';
  size_t q = p + 1;
  unsigned i = 0;
  while (s[q] != '\x02')
    i = 10 * i + (s[q++] - '0');
  p = q + 1;
  d = isint ? (double)int_tab[i] : num_tab[i];
  return true;
}
inline bool parse_double(const std::string& s, size_t& p, double& d)
{
  size_t q = p;
  if (q < s.size() && (s[q] == '\x01' || s[q] == '\x03'))
    return parse_marker(s, p, d);
  bool neg = false;
  if (q < s.size() && (s[q] == '-' || s[q] == '+'))
    neg = s[q++] == '-';
  if (q < s.size() && s[q] == '\x01')
  {
    parse_marker(s, q, d);
    if (neg)
      d = -d;
    p = q;
    return true;
  }
  double v = 0., f = 1.;
  bool any = false;
  while (q < s.size() && digit(s[q]))
  {
    v = 10. * v + (s[q++] - '0');
    any = true;
  }
  if (q < s.size() && s[q] == '.')
  {
    ++q;
    double num = 0.;
    while (q < s.size() && digit(s[q]))
    {
      num = 10. * num + (s[q++] - '0');
      f *= 10.;
      any = true;
    }
    v += num / f;
  }
  if (!any)
    return false;
  if (q < s.size() && (s[q] == 'e' || s[q] == 'E'))
  {
    size_t r = q + 1;
    bool en = false;
    if (r < s.size() && (s[r] == '-' || s[r] == '+'))
      en = s[r++] == '-';
    int e = 0;
    bool ed = false;
    while (r < s.size() && digit(s[r]))
    {
      e = 10 * e + (s[r++] - '0');
      ed = true;
    }
    if (ed)
    {
      double m = 1.;
      for (int i = 0; i < e; ++i)
        m *= 10.;
      v = en ? v / m : v * m;
      q = r;
    }
  }
  d = neg ? -v : v;
  p = q;
  return true;
}
inline bool parse_int(const std::string& s, size_t& p, uint64_t& u, bool& neg)
{
  size_t q = p;
  neg = false;
  if (q < s.size() && s[q] == '\x03')
  {
    unsigned i = 0;
    ++q;
    while (s[q] != '\x02')
      i = 10 * i + (s[q++] - '0');
    p = q + 1;
    u = int_tab[i];
    return true;
  }
  if (q < s.size() && (s[q] == '-' || s[q] == '+'))
    neg = s[q++] == '-';
  bool any = false;
  uint64_t v = 0;
  while (q < s.size() && digit(s[q]))
  {
    v = 10 * v + (uint64_t)(s[q++] - '0');
    any = true;
  }
  if (!any)
    return false;
  p = q;
  u = v;
  return true;
}
}  // namespace vf_model

namespace std
{
class ios_base
{
 public:
  typedef int openmode;
  typedef int iostate;
  typedef int fmtflags;
  static constexpr fmtflags fixed = 1, scientific = 2, floatfield = 3, left = 4, right = 8, boolalpha = 16, hex = 32, oct = 64, dec = 128,
                            basefield = 224, internal = 256, adjustfield = 268, showpos = 512, skipws = 1024, showpoint = 2048, uppercase = 4096,
                            showbase = 8192, unitbuf = 16384;
  typedef int seekdir;
  static constexpr seekdir beg = 0, cur = 1, end = 2;
  std::ptrdiff_t width_ = 0;
  std::ptrdiff_t width() const { return width_; }
  std::ptrdiff_t width(std::ptrdiff_t w)
  {
    const std::ptrdiff_t o = width_;
    width_ = w;
    return o;
  }
  static bool sync_with_stdio(bool = true) { return true; }
  fmtflags flags_ = 0;
  fmtflags setf(fmtflags f)
  {
    const fmtflags o = flags_;
    flags_ |= f;
    return o;
  }
  fmtflags setf(fmtflags f, fmtflags m)
  {
    const fmtflags o = flags_;
    flags_ = (flags_ & ~m) | (f & m);
    return o;
  }
  void unsetf(fmtflags f) { flags_ &= ~f; }
  fmtflags flags() const { return flags_; }
  fmtflags flags(fmtflags f)
  {
    const fmtflags o = flags_;
    flags_ = f;
    return o;
  }
  static constexpr openmode app = 1, ate = 2, binary = 4, in = 8, out = 16, trunc = 32;
  static constexpr iostate goodbit = 0, badbit = 1, eofbit = 2, failbit = 4;
  typedef std::ptrdiff_t streamsize;
};
template <class C, class T>
class basic_ios : public ios_base
{
 public:
  iostate state_ = 0;
  char fill_ = ' ';
  char fill() const { return fill_; }
  char fill(char c)
  {
    const char o = fill_;
    fill_ = c;
    return o;
  }
  basic_ostream<C, T>* tie(basic_ostream<C, T>* = nullptr) { return nullptr; }
  bool good() const { return state_ == 0; }
  bool eof() const { return state_ & eofbit; }
  bool fail() const { return state_ & (failbit | badbit); }
  bool bad() const { return state_ & badbit; }
  void clear(iostate s = 0) { state_ = s; }
  void setstate(iostate s) { state_ |= s; }
  iostate rdstate() const { return state_; }
  explicit operator bool() const { return !fail(); }
  bool operator!() const { return fail(); }
};
inline ios_base& fixed(ios_base& b)
{
  b.setf(ios_base::fixed, ios_base::floatfield);
  return b;
}
inline ios_base& scientific(ios_base& b)
{
  b.setf(ios_base::scientific, ios_base::floatfield);
  return b;
}
inline ios_base& defaultfloat(ios_base& b)
{
  b.unsetf(ios_base::floatfield);
  return b;
}
#define VF_SETF(name, bit, mask)      \
  inline ios_base& name(ios_base& b)  \
  {                                   \
    b.setf(ios_base::bit, ios_base::mask); \
    return b;                         \
  }
#define VF_UNSETF(name, bit)         \
  inline ios_base& name(ios_base& b) \
  {                                  \
    b.unsetf(ios_base::bit);         \
    return b;                        \
  }
VF_SETF(boolalpha, boolalpha, boolalpha)
VF_UNSETF(noboolalpha, boolalpha)
VF_SETF(left, left, adjustfield)
VF_SETF(right, right, adjustfield)
VF_SETF(internal, internal, adjustfield)
VF_SETF(hex, hex, basefield)
VF_SETF(oct, oct, basefield)
VF_SETF(dec, dec, basefield)
VF_SETF(showpos, showpos, showpos)
VF_UNSETF(noshowpos, showpos)
VF_SETF(showpoint, showpoint, showpoint)
VF_UNSETF(noshowpoint, showpoint)
VF_SETF(showbase, showbase, showbase)
VF_UNSETF(noshowbase, showbase)
VF_SETF(uppercase, uppercase, uppercase)
VF_UNSETF(nouppercase, uppercase)
VF_SETF(unitbuf, unitbuf, unitbuf)
VF_UNSETF(nounitbuf, unitbuf)
#undef VF_SETF
#undef VF_UNSETF
struct vf_manip
{
  int prec = -1, width = -1;
  char fill = 0;
  ios_base::fmtflags set = 0, clear = 0;
};
inline vf_manip setprecision(int p) { return vf_manip{p}; }
inline vf_manip setw(int w) { return vf_manip{-1, w}; }
inline vf_manip setfill(char c) { return vf_manip{-1, -1, c}; }
inline vf_manip setiosflags(ios_base::fmtflags f) { return vf_manip{-1, -1, 0, f}; }
inline vf_manip resetiosflags(ios_base::fmtflags f) { return vf_manip{-1, -1, 0, 0, f}; }
inline vf_manip setbase(int b)
{
  return vf_manip{-1, -1, 0, b == 16 ? ios_base::hex : b == 8 ? ios_base::oct : ios_base::dec, ios_base::basefield};
}
template <class C, class T>
class basic_istream;
struct vf_rdbuf
{
  basic_istream<char, char_traits<char>>* in;
  vf_rdbuf* operator->() { return this; }
};

template <class C, class T>
class basic_ostream : public basic_ios<C, T>
{
 public:
  std::string* sink_ = nullptr;
  std::ptrdiff_t prec_ = 6;
  basic_ostream() {}
  basic_ostream(const basic_ostream&) = delete;
  basic_ostream(basic_ostream&& o) noexcept : basic_ios<C, T>(o), sink_(o.sink_), prec_(o.prec_) {}
  basic_ostream& flush() { return *this; }
  basic_ostream& put(char c)
  {
    if (sink_)
      sink_->push_back(c);
    return *this;
  }
  basic_ostream& write(const char* p, std::ptrdiff_t n)
  {
    if (sink_)
      sink_->append(p, n);
    return *this;
  }
  std::ptrdiff_t precision() const { return prec_; }
  std::ptrdiff_t precision(std::ptrdiff_t p)
  {
    std::ptrdiff_t o = prec_;
    prec_ = p;
    return o;
  }
  basic_ostream& emit(const std::string& s)
  {
    const std::ptrdiff_t pad = this->width_ - (std::ptrdiff_t)s.size();
    this->width_ = 0;
    if (!sink_)
      return *this;
    const bool l = (this->flags_ & ios_base::adjustfield) == ios_base::left;
    if (pad > 0 && !l)
      sink_->append(pad, this->fill_);
    *sink_ += s;
    if (pad > 0 && l)
      sink_->append(pad, this->fill_);
    return *this;
  }
  vf_rdbuf rdbuf() { return vf_rdbuf{nullptr}; }
  basic_ostream& num(double d, int need = 17)
  {
    if (!sink_)
      return *this;
    const int field = this->flags_ & ios_base::floatfield;
    if (vf_model::round_output && (field == ios_base::fixed || prec_ + (field == ios_base::scientific) < need))
    {
      double f = field == 0 ? 5. : .5;
      for (std::ptrdiff_t i = 0; i < prec_; ++i)
        f /= 10.;
      if (field == ios_base::fixed)
        d += f * vf_real_("~round", -1., 1.);
      else
        d *= 1. + f * vf_real_("~round", -1., 1.);
    }
    this->width_ = 0;
    *sink_ += vf_model::mark(d);
    return *this;
  }
  basic_ostream& uns(unsigned long long u)
  {
    if (!sink_)
      return *this;
    const int base = this->flags_ & ios_base::basefield;
    if (base == ios_base::hex || base == ios_base::oct)
    {
      std::string r;
      const unsigned k = base == ios_base::hex ? 16 : 8;
      do
      {
        r.insert(r.begin(), "0123456789abcdef"[u % k]);
        u /= k;
      } while (u);
      return emit(r);
    }
    return emit((this->flags_ & ios_base::showpos ? "+" : "") + vf_model::udec(u));
  }
  basic_ostream& sig(long long u)
  {
    if (!sink_)
      return *this;
    if (u >= 0 || (this->flags_ & ios_base::basefield & ~ios_base::dec))
      return uns((unsigned long long)u);
    return emit("-" + vf_model::udec(0ULL - (unsigned long long)u));
  }
  basic_ostream& operator<<(double d) { return num(d); }
  basic_ostream& operator<<(float d) { return num(d, 9); }
  basic_ostream& operator<<(long double d) { return num((double)d); }
  basic_ostream& operator<<(bool d) { return this->flags_ & ios_base::boolalpha ? emit(d ? "true" : "false") : uns(d); }
  basic_ostream& operator<<(short d) { return sig(d); }
  basic_ostream& operator<<(unsigned short d) { return uns(d); }
  basic_ostream& operator<<(int d) { return sig(d); }
  basic_ostream& operator<<(unsigned d) { return uns(d); }
  basic_ostream& operator<<(long d) { return sig(d); }
  basic_ostream& operator<<(unsigned long d) { return uns(d); }
  basic_ostream& operator<<(long long d) { return sig(d); }
  basic_ostream& operator<<(unsigned long long d) { return uns(d); }
  basic_ostream& operator<<(basic_ostream& (*f)(basic_ostream&)) { return f(*this); }
  basic_ostream& operator<<(ios_base& (*f)(ios_base&))
  {
    f(*this);
    return *this;
  }
  basic_ostream& operator<<(const void*) { return *this; }
};
template <class C, class T>
basic_ostream<C, T>& operator<<(basic_ostream<C, T>& o, const vf_manip& m)
{
  if (m.prec >= 0)
    o.prec_ = m.prec;
  if (m.width >= 0)
    o.width_ = m.width;
  if (m.fill)
    o.fill_ = m.fill;
  o.flags_ = (o.flags_ & ~m.clear) | m.set;
  return o;
}
inline ostream& operator<<(ostream& o, char c) { return o.width_ ? o.emit(std::string(1, c)) : o.put(c); }
inline ostream& operator<<(ostream& o, signed char c) { return o << (char)c; }
inline ostream& operator<<(ostream& o, unsigned char c) { return o << (char)c; }
inline ostream& operator<<(ostream& o, const char* s) { return o.emit(s); }
inline ostream& operator<<(ostream& o, const std::string& s) { return o.emit(s); }
inline ostream& operator<<(ostream& o, std::string_view s) { return o.emit(std::string(s)); }
template <class C, class T>
basic_ostream<C, T>& endl(basic_ostream<C, T>& o)
{
  o.put('\n');
  return o;
}
template <class C, class T>
basic_ostream<C, T>& flush(basic_ostream<C, T>& o)
{
  return o;
}

template <class C, class T>
class basic_istream : public virtual basic_ios<C, T>
{
};
template <>
class basic_istream<char, char_traits<char>> : public basic_ios<char, char_traits<char>>
{
 public:
  std::string buf_;
  size_t pos_ = 0;
  typedef basic_istream is;
  vf_rdbuf rdbuf() { return vf_rdbuf{this}; }
  is& skip()
  {
    while (pos_ < buf_.size() && vf_model::space(buf_[pos_]))
      ++pos_;
    if (pos_ >= buf_.size())
      state_ |= eofbit | failbit;
    return *this;
  }
  is& operator>>(double& d)
  {
    if (fail() || skip().fail())
      return *this;
    double v;
    if (vf_model::parse_double(buf_, pos_, v))
      d = v;
    else
    {
      d = 0.;
      state_ |= failbit;
    }
    if (pos_ >= buf_.size())
      state_ |= eofbit;
    return *this;
  }
  is& operator>>(float& d)
  {
    double x = d;
    *this >> x;
    d = (float)x;
    return *this;
  }
  template <class I>
  is& get_int(I& i)
  {
    if (fail() || skip().fail())
      return *this;
    uint64_t u;
    bool neg;
    if (vf_model::parse_int(buf_, pos_, u, neg))
      i = neg ? (I)(0 - u) : (I)u;
    else
    {
      i = 0;
      state_ |= failbit;
    }
    if (pos_ >= buf_.size())
      state_ |= eofbit;
    return *this;
  }
  is& operator>>(int& i) { return get_int(i); }
  is& operator>>(unsigned& i) { return get_int(i); }
  is& operator>>(long& i) { return get_int(i); }
  is& operator>>(unsigned long& i) { return get_int(i); }
  is& operator>>(long long& i) { return get_int(i); }
  is& operator>>(unsigned long long& i) { return get_int(i); }
  is& operator>>(short& i) { return get_int(i); }
  is& operator>>(unsigned short& i) { return get_int(i); }
  is& operator>>(bool& i) { return get_int(i); }
  is& operator>>(is& (*f)(is&)) { return f(*this); }
  is& operator>>(ios_base& (*f)(ios_base&))
  {
    f(*this);
    return *this;
  }
  std::ptrdiff_t gcount_ = 0;
  std::ptrdiff_t gcount() const { return gcount_; }
  int get()
  {
    gcount_ = 0;
    if (!good() || pos_ >= buf_.size())
    {
      state_ |= eofbit | failbit;
      return -1;
    }
    gcount_ = 1;
    return (unsigned char)buf_[pos_++];
  }
  is& get(char& c)
  {
    const int k = get();
    if (k >= 0)
      c = (char)k;
    return *this;
  }
  int peek()
  {
    if (!good())
      return -1;
    if (pos_ >= buf_.size())
    {
      state_ |= eofbit;
      return -1;
    }
    return (unsigned char)buf_[pos_];
  }
  is& unget()
  {
    state_ &= ~eofbit;
    if (pos_)
      --pos_;
    else
      state_ |= badbit;
    return *this;
  }
  is& putback(char) { return unget(); }
  is& ignore(std::ptrdiff_t n = 1, int delim = -1)
  {
    for (; n > 0 && good(); --n)
    {
      if (pos_ >= buf_.size())
        state_ |= eofbit;
      else if ((unsigned char)buf_[pos_++] == delim)
        break;
    }
    return *this;
  }
  is& read(char* p, std::ptrdiff_t n)
  {
    for (gcount_ = 0; gcount_ < n; ++gcount_)
    {
      if (pos_ >= buf_.size())
      {
        state_ |= eofbit | failbit;
        break;
      }
      p[gcount_] = buf_[pos_++];
    }
    return *this;
  }
  std::ptrdiff_t tellg() { return fail() ? -1 : (std::ptrdiff_t)pos_; }
  is& seekg(std::ptrdiff_t o, seekdir d = beg)
  {
    state_ &= ~eofbit;
    if (!fail())
      pos_ = o + (d == beg ? 0 : d == cur ? pos_ : buf_.size());
    return *this;
  }
};
inline istream& operator>>(istream& i, char& c)
{
  if (i.fail() || i.skip().fail())
    return i;
  c = i.buf_[i.pos_++];
  return i;
}
inline istream& operator>>(istream& i, std::string& s)
{
  if (i.fail() || i.skip().fail())
    return i;
  s.clear();
  while (i.pos_ < i.buf_.size() && !vf_model::space(i.buf_[i.pos_]))
    s.push_back(i.buf_[i.pos_++]);
  if (i.pos_ >= i.buf_.size())
    i.state_ |= ios_base::eofbit;
  return i;
}
inline istream& getline(istream& i, std::string& s, char delim)
{
  if (!i.good())
  {
    i.state_ |= ios_base::failbit;
    return i;
  }
  s.clear();
  if (i.pos_ >= i.buf_.size())
  {
    i.state_ |= ios_base::eofbit | ios_base::failbit;
    return i;
  }
  while (i.pos_ < i.buf_.size() && i.buf_[i.pos_] != delim)
    s.push_back(i.buf_[i.pos_++]);
  if (i.pos_ < i.buf_.size())
    ++i.pos_;
  else
    i.state_ |= ios_base::eofbit;
  return i;
}
inline istream& getline(istream& i, std::string& s) { return getline(i, s, '\n'); }
template <class C, class T>
basic_istream<C, T>& ws(basic_istream<C, T>& i)
{
  while (i.pos_ < i.buf_.size() && vf_model::space(i.buf_[i.pos_]))
    ++i.pos_;
  return i;
}
template <class I, class V>
requires(!std::is_lvalue_reference_v<I> && std::is_base_of_v<ios_base, I>) I&& operator>>(I&& i, V&& v)
{
  i >> std::forward<V>(v);
  return std::move(i);
}
template <class O, class V>
requires(!std::is_lvalue_reference_v<O> && std::is_base_of_v<ios_base, O>) O&& operator<<(O&& o, const V& v)
{
  o << v;
  return std::move(o);
}
inline istream& getline(istream&& i, std::string& s, char delim = '\n') { return getline(i, s, delim); }
inline ostream& operator<<(ostream& o, vf_rdbuf b)
{
  if (o.sink_)
    *o.sink_ += b.in->buf_.substr(b.in->pos_);
  b.in->pos_ = b.in->buf_.size();
  return o;
}
inline namespace __cxx11 {
template <class C, class T, class A>
class basic_istringstream : public basic_istream<C, T>
{
 public:
  basic_istringstream() {}
  explicit basic_istringstream(const std::string& s, ios_base::openmode = 0) { this->buf_ = s; }
  basic_istringstream(basic_istringstream&& o)
  {
    *this = std::move(o);
  }
  basic_istringstream& operator=(basic_istringstream&& o)
  {
    this->buf_ = std::move(o.buf_);
    this->pos_ = o.pos_;
    this->state_ = o.state_;
    return *this;
  }
  std::string str() const { return this->buf_; }
  void str(const std::string& s)
  {
    this->buf_ = s;
    this->pos_ = 0;
  }
};
template <class C, class T, class A>
class basic_ostringstream : public basic_ostream<C, T>
{
 public:
  std::string text_;
  basic_ostringstream() { this->sink_ = &text_; }
  std::string str() const { return text_; }
  void str(const std::string& s) { text_ = s; }
};
template <class C, class T, class A>
class basic_stringstream : public basic_istream<C, T>, public basic_ostream<C, T>
{
 public:
  using basic_istream<C, T>::good;
  using basic_istream<C, T>::eof;
  using basic_istream<C, T>::fail;
  using basic_istream<C, T>::bad;
  using basic_istream<C, T>::operator bool;
  using basic_istream<C, T>::operator!;
  void clear(ios_base::iostate s = 0) { basic_istream<C, T>::clear(s); }
  basic_stringstream() { this->sink_ = &this->buf_; }
  explicit basic_stringstream(const std::string& s, ios_base::openmode = 0)
  {
    this->buf_ = s;
    this->sink_ = &this->buf_;
  }
  basic_stringstream(basic_stringstream&& o)
  {
    this->sink_ = &this->buf_;
    *this = std::move(o);
  }
  basic_stringstream& operator=(basic_stringstream&& o)
  {
    this->buf_ = std::move(o.buf_);
    this->pos_ = o.pos_;
    this->state_ = o.state_;
    return *this;
  }
  std::string str() const { return this->buf_; }
  void str(const std::string& s)
  {
    this->buf_ = s;
    this->pos_ = 0;
  }
};
}
template <class C, class T>
class basic_ifstream : public basic_istream<C, T>
{
 public:
  bool open_ = false;
  basic_ifstream() {}
  explicit basic_ifstream(const std::string& n, ios_base::openmode = 0) { open(n); }
  explicit basic_ifstream(const char* n, ios_base::openmode = 0) { open(std::string(n)); }
  void open(const std::string& n, ios_base::openmode = 0)
  {
    if (vf_model::File* f = vf_model::find(n))
    {
      this->buf_ = f->text;
      this->pos_ = 0;
      open_ = true;
    }
    else
      this->state_ |= ios_base::failbit;
  }
  bool is_open() const { return open_; }
  void close() { open_ = false; }
};
template <class C, class T>
class basic_ofstream : public basic_ostream<C, T>
{
 public:
  std::string text_, name_;
  bool open_ = false;
  basic_ofstream() {}
  explicit basic_ofstream(const std::string& n, ios_base::openmode m = ios_base::out) { open(n, m); }
  explicit basic_ofstream(const char* n, ios_base::openmode m = ios_base::out) { open(std::string(n), m); }
  basic_ofstream(basic_ofstream&& o) : basic_ostream<C, T>(std::move(o)), text_(std::move(o.text_)), name_(std::move(o.name_)), open_(o.open_)
  {
    o.open_ = false;
    o.sink_ = nullptr;
    this->sink_ = open_ ? &text_ : nullptr;
  }
  void open(const std::string& n, ios_base::openmode m = ios_base::out)
  {
    name_ = n;
    text_.clear();
    if (!vf_model::dir_exists(vf_model::dir_of(n)))
    {
      this->state_ |= ios_base::failbit;
      return;
    }
    vf_model::File* f = vf_model::find(n);
    if ((m & ios_base::app) && f)
      text_ = f->text;
    if (!f)
      vf_model::files().push_back(vf_model::File{n, text_});
    else
      f->text = text_;
    open_ = true;
    this->sink_ = &text_;
  }
  bool is_open() const { return open_; }
  void close()
  {
    if (!open_)
      return;
    vf_model::find(name_)->text = text_;
    open_ = false;
    this->sink_ = nullptr;
  }
  ~basic_ofstream() { close(); }
};
inline ostream cout, cerr, clog;
inline istream cin;
template <class C, class T>
class istreambuf_iterator
{
  basic_istream<C, T>* in_ = nullptr;

 public:
  typedef input_iterator_tag iterator_category;
  typedef C value_type;
  typedef std::ptrdiff_t difference_type;
  typedef const C* pointer;
  typedef C reference;
  istreambuf_iterator() {}
  istreambuf_iterator(basic_istream<C, T>& i) : in_(&i) {}
  istreambuf_iterator(vf_rdbuf b) : in_(b.in) {}
  bool at_end() const { return !in_ || in_->pos_ >= in_->buf_.size(); }
  C operator*() const { return in_->buf_[in_->pos_]; }
  istreambuf_iterator& operator++()
  {
    ++in_->pos_;
    return *this;
  }
  struct proxy
  {
    C c;
    C operator*() const { return c; }
  };
  proxy operator++(int)
  {
    const proxy p{**this};
    ++*this;
    return p;
  }
  bool equal(const istreambuf_iterator& o) const { return at_end() == o.at_end(); }
  friend bool operator==(const istreambuf_iterator& a, const istreambuf_iterator& b) { return a.at_end() == b.at_end(); }
};
template <class C, class T>
class ostreambuf_iterator
{
  basic_ostream<C, T>* out_;

 public:
  typedef output_iterator_tag iterator_category;
  typedef void value_type;
  typedef std::ptrdiff_t difference_type;
  typedef void pointer;
  typedef void reference;
  ostreambuf_iterator(basic_ostream<C, T>& o) : out_(&o) {}
  ostreambuf_iterator& operator=(C c)
  {
    out_->put(c);
    return *this;
  }
  ostreambuf_iterator& operator*() { return *this; }
  ostreambuf_iterator& operator++() { return *this; }
  ostreambuf_iterator& operator++(int) { return *this; }
};
}  // namespace std
namespace std::filesystem
{
class path
{
  std::string s_;

 public:
  typedef char value_type;
  typedef std::string string_type;
  static constexpr char preferred_separator = '/';
  path() {}
  path(const std::string& s) : s_(s) {}
  path(std::string_view s) : s_(s) {}
  path(const char* s) : s_(s) {}
  const std::string& string() const { return s_; }
  const std::string& native() const { return s_; }
  std::string generic_string() const { return s_; }
  const char* c_str() const { return s_.c_str(); }
  operator std::string() const { return s_; }
  bool empty() const { return s_.empty(); }
  bool is_absolute() const { return !s_.empty() && s_[0] == '/'; }
  bool is_relative() const { return !is_absolute(); }
  path& operator/=(const path& o)
  {
    if (o.is_absolute())
      s_ = o.s_;
    else
    {
      if (!s_.empty() && s_.back() != '/')
        s_.push_back('/');
      s_ += o.s_;
    }
    return *this;
  }
  path& append(const path& o) { return *this /= o; }
  path& operator+=(const path& o)
  {
    s_ += o.s_;
    return *this;
  }
  path& concat(const path& o) { return *this += o; }
  friend path operator/(const path& a, const path& b)
  {
    path r(a);
    r /= b;
    return r;
  }
  path filename() const { return s_.find('/') == std::string::npos ? s_ : s_.substr(s_.rfind('/') + 1); }
  path parent_path() const
  {
    const std::size_t k = s_.rfind('/');
    return k == std::string::npos ? std::string() : k == 0 ? std::string("/") : s_.substr(0, k);
  }
  path extension() const
  {
    const std::string f = filename().s_;
    const std::size_t k = f.rfind('.');
    return k == std::string::npos || k == 0 || f == ".." ? std::string() : f.substr(k);
  }
  path stem() const
  {
    const std::string f = filename().s_;
    return f.substr(0, f.size() - extension().s_.size());
  }
  bool has_filename() const { return !filename().empty(); }
  bool has_extension() const { return !extension().empty(); }
  bool has_parent_path() const { return !parent_path().empty(); }
  path& replace_extension(const path& e = path())
  {
    s_.resize(s_.size() - extension().s_.size());
    if (!e.empty() && e.s_[0] != '.')
      s_.push_back('.');
    s_ += e.s_;
    return *this;
  }
  friend bool operator==(const path& a, const path& b) { return a.s_ == b.s_; }
  friend bool operator<(const path& a, const path& b) { return a.s_ < b.s_; }
  friend ostream& operator<<(ostream& o, const path& p) { return o << '"' << p.s_ << '"'; }
};
inline bool create_directory(const path& p)
{
  std::string n(p);
  while (!n.empty() && n.back() == '/')
    n.pop_back();
  if (vf_model::dir_exists(n) || !vf_model::dir_exists(vf_model::dir_of(n)))
    return false;
  vf_model::dirs().push_back(n);
  return true;
}
inline bool create_directories(const path& p)
{
  const std::string n(p);
  if (n.empty() || vf_model::dir_exists(n))
    return false;
  create_directories(vf_model::dir_of(n));
  return create_directory(n);
}
inline bool exists(const path& p) { return vf_model::find(p) != nullptr || vf_model::dir_exists(p); }
inline bool is_directory(const path& p) { return vf_model::dir_exists(p); }
inline bool is_regular_file(const path& p) { return vf_model::find(p) != nullptr; }
template <class E>
bool create_directory(const path& p, E& e)
{
  e.clear();
  return create_directory(p);
}
template <class E>
bool create_directories(const path& p, E& e)
{
  e.clear();
  return create_directories(p);
}
template <class E>
bool exists(const path& p, E& e)
{
  e.clear();
  return exists(p);
}
template <class E>
bool is_directory(const path& p, E& e)
{
  e.clear();
  return is_directory(p);
}
}  // namespace std::filesystem
#include <vf_tail.hxx>
