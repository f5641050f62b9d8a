// Exact real arithmetic for the symbolic executor: sparse multivariate polynomials over Q,
// fractions of them, and algebraic symbols s with a rewrite rule s^2 -> polynomial.
#pragma once
#include <gmpxx.h>
#include <algorithm>
#include <cmath>
#include <cstdint>
#include <functional>
#include <map>
#include <memory>
#include <optional>
#include <string>
#include <unordered_map>
#include <vector>

namespace ex
{
typedef uint32_t MonoId;
typedef std::vector<std::pair<uint32_t, uint32_t>> MonoVec;  // sorted (var, exp)

struct Poly
{
  std::vector<std::pair<MonoId, mpq_class>> t;  // sorted by monomial id, no zero coefficient
  bool is_zero() const { return t.empty(); }
  bool is_const() const { return t.empty() || (t.size() == 1 && t[0].first == 0); }
  mpq_class const_val() const { return t.empty() ? mpq_class(0) : t[0].second; }
};

struct VarInfo
{
  std::string name;
  bool has_sq = false;
  Poly sq;  // v*v rewrites to this
  bool has_lo = false, has_hi = false, input = false;
  mpq_class lo, hi;
};

inline std::vector<VarInfo>& vars()
{
  static std::vector<VarInfo> v;
  return v;
}

struct MonoTable
{
  std::vector<MonoVec> monos;
  std::map<MonoVec, MonoId> ids;
  std::unordered_map<uint64_t, MonoId> prod_cache;
  MonoTable() { get(MonoVec()); }
  MonoId get(const MonoVec& m)
  {
    auto it = ids.find(m);
    if (it != ids.end())
      return it->second;
    MonoId id = monos.size();
    monos.push_back(m);
    ids[m] = id;
    return id;
  }
  MonoId mul(MonoId a, MonoId b)
  {
    if (a == 0)
      return b;
    if (b == 0)
      return a;
    if (a > b)
      std::swap(a, b);
    uint64_t key = (uint64_t(a) << 32) | b;
    auto it = prod_cache.find(key);
    if (it != prod_cache.end())
      return it->second;
    MonoVec r;
    const MonoVec x = monos[a], y = monos[b];
    size_t i = 0, j = 0;
    while (i < x.size() || j < y.size())
      if (j == y.size() || (i < x.size() && x[i].first < y[j].first))
        r.push_back(x[i++]);
      else if (i == x.size() || y[j].first < x[i].first)
        r.push_back(y[j++]);
      else
      {
        r.push_back({x[i].first, x[i].second + y[j].second});
        ++i;
        ++j;
      }
    MonoId id = get(r);
    prod_cache[key] = id;
    return id;
  }
};
inline MonoTable& monos()
{
  static MonoTable t;
  return t;
}

inline void round_coeff(mpq_class& q)
{
  // Keep 256 significant bits: coefficients of huge size only arise from long chains of products
  // of concrete doubles; the relative error 2^-256 is far below every tolerance in use.
  if (mpz_sizeinbase(q.get_num_mpz_t(), 2) + mpz_sizeinbase(q.get_den_mpz_t(), 2) < 1400)
    return;
  mpf_class f(q, 256);
  q = mpq_class(f);
}

inline Poly poly_const(const mpq_class& c)
{
  Poly p;
  if (c != 0)
    p.t.push_back({0, c});
  return p;
}
inline Poly poly_var(uint32_t v)
{
  Poly p;
  p.t.push_back({monos().get(MonoVec{{v, 1}}), mpq_class(1)});
  return p;
}
inline Poly add(const Poly& a, const Poly& b, int sign = 1)
{
  Poly r;
  r.t.reserve(a.t.size() + b.t.size());
  size_t i = 0, j = 0;
  while (i < a.t.size() || j < b.t.size())
    if (j == b.t.size() || (i < a.t.size() && a.t[i].first < b.t[j].first))
      r.t.push_back(a.t[i++]);
    else if (i == a.t.size() || b.t[j].first < a.t[i].first)
    {
      r.t.push_back({b.t[j].first, sign > 0 ? b.t[j].second : mpq_class(-b.t[j].second)});
      ++j;
    }
    else
    {
      mpq_class c = sign > 0 ? mpq_class(a.t[i].second + b.t[j].second)
                             : mpq_class(a.t[i].second - b.t[j].second);
      if (c != 0)
        r.t.push_back({a.t[i].first, c});
      ++i;
      ++j;
    }
  return r;
}
inline Poly scale(const Poly& a, const mpq_class& c)
{
  Poly r;
  if (c == 0)
    return r;
  r.t.reserve(a.t.size());
  for (auto& m : a.t)
  {
    r.t.push_back({m.first, m.second * c});
    round_coeff(r.t.back().second);
  }
  return r;
}
inline Poly neg(const Poly& a)
{
  return scale(a, mpq_class(-1));
}

Poly mul(const Poly& a, const Poly& b);
// Replace s^2 by its polynomial wherever s is an algebraic symbol.
inline Poly reduce(const Poly& p)
{
  bool need = false;
  for (auto& m : p.t)
    for (auto& ve : monos().monos[m.first])
      if (ve.second >= 2 && vars()[ve.first].has_sq)
        need = true;
  if (!need)
    return p;
  Poly r;
  for (auto& m : p.t)
  {
    MonoVec mv = monos().monos[m.first];
    int hit = -1;
    for (size_t i = 0; i < mv.size(); ++i)
      if (mv[i].second >= 2 && vars()[mv[i].first].has_sq)
      {
        hit = i;
        break;
      }
    if (hit < 0)
    {
      Poly q;
      q.t.push_back(m);
      r = add(r, q);
    }
    else
    {
      Poly sq = vars()[mv[hit].first].sq;
      uint32_t e = mv[hit].second;
      if (e % 2)
        mv[hit].second = 1;
      else
        mv.erase(mv.begin() + hit);
      Poly q;
      q.t.push_back({monos().get(mv), m.second});
      for (uint32_t k = 0; k < e / 2; ++k)
        q = mul(q, sq);
      r = add(r, reduce(q));
    }
  }
  return r;
}
inline Poly mul(const Poly& a, const Poly& b)
{
  if (a.is_const())
    return scale(b, a.const_val());
  if (b.is_const())
    return scale(a, b.const_val());
  std::map<MonoId, mpq_class> acc;
  for (auto& x : a.t)
    for (auto& y : b.t)
      acc[monos().mul(x.first, y.first)] += x.second * y.second;
  Poly r;
  for (auto& m : acc)
    if (m.second != 0)
    {
      r.t.push_back({m.first, m.second});
      round_coeff(r.t.back().second);
    }
  return reduce(r);
}
inline bool same(const Poly& a, const Poly& b)
{
  if (a.t.size() != b.t.size())
    return false;
  for (size_t i = 0; i < a.t.size(); ++i)
    if (a.t[i].first != b.t[i].first || a.t[i].second != b.t[i].second)
      return false;
  return true;
}

struct Frac
{
  Poly n, d;  // d is a nonzero polynomial; constant denominators are normalised to 1
};
typedef std::shared_ptr<const Frac> Real;

// The only variable of both polynomials, or -1 (none, several, or an algebraic symbol).
inline int64_t single_var(const Poly& a, const Poly& b)
{
  int64_t v = -1;
  for (auto* p : {&a, &b})
    for (auto& m : p->t)
      for (auto& ve : monos().monos[m.first])
      {
        if (vars()[ve.first].has_sq || (v >= 0 && v != (int64_t)ve.first))
          return -1;
        v = ve.first;
      }
  return v;
}
typedef std::vector<mpq_class> Uni;
inline Uni to_uni(const Poly& p)
{
  Uni u;
  for (auto& m : p.t)
  {
    auto& mv = monos().monos[m.first];
    size_t e = mv.empty() ? 0 : mv[0].second;
    if (u.size() <= e)
      u.resize(e + 1);
    u[e] = m.second;
  }
  return u;
}
inline Poly from_uni(const Uni& u, uint32_t v)
{
  std::map<MonoId, mpq_class> acc;
  for (size_t e = 0; e < u.size(); ++e)
    if (u[e] != 0)
      acc[e ? monos().get(MonoVec{{v, (uint32_t)e}}) : 0] = u[e];
  Poly r;
  for (auto& m : acc)
    r.t.push_back({m.first, m.second});
  return r;
}
// Quotient and remainder; b is not zero.
inline std::pair<Uni, Uni> uni_div(Uni a, const Uni& b)
{
  Uni q;
  while (a.size() >= b.size())
  {
    mpq_class c = a.back() / b.back();
    size_t sh = a.size() - b.size();
    if (q.size() <= sh)
      q.resize(sh + 1);
    q[sh] = c;
    for (size_t i = 0; i < b.size(); ++i)
      a[sh + i] -= c * b[i];
    a.pop_back();
    while (!a.empty() && a.back() == 0)
      a.pop_back();
  }
  return {q, a};
}
inline Uni uni_gcd(Uni a, Uni b)
{
  while (!b.empty())
  {
    mpq_class l = b.back();
    for (auto& c : b)
      c /= l;
    Uni r = uni_div(a, b).second;
    a = b;
    b = r;
  }
  return a;
}
// Exact division n / d in several variables; false if d does not divide n.
inline bool exact_div(const Poly& n, const Poly& d, Poly& q)
{
  if (n.t.size() * d.t.size() > 40000 || n.t.size() < d.t.size())
    return false;
  for (auto* p : {&n, &d})
    for (auto& m : p->t)
      for (auto& ve : monos().monos[m.first])
        if (vars()[ve.first].has_sq)
          return false;
  // lexicographic order: larger exponent of the smaller variable id first
  auto less = [](const MonoVec& a, const MonoVec& b) {
    size_t i = 0;
    for (; i < a.size() && i < b.size(); ++i)
    {
      if (a[i].first != b[i].first)
        return a[i].first > b[i].first;
      if (a[i].second != b[i].second)
        return a[i].second < b[i].second;
    }
    return i == a.size() && i < b.size();
  };
  std::map<MonoVec, mpq_class, decltype(less)> r(less), dd(less);
  for (auto& m : n.t)
    r[monos().monos[m.first]] = m.second;
  for (auto& m : d.t)
    dd[monos().monos[m.first]] = m.second;
  auto& lt = *dd.rbegin();
  Poly res;
  std::map<MonoId, mpq_class> out;
  unsigned steps = 0;
  while (!r.empty())
  {
    if (++steps > 2000)
      return false;
    auto top = *r.rbegin();
    MonoVec m;
    size_t j = 0;
    for (auto& ve : top.first)
    {
      uint32_t e = ve.second;
      if (j < lt.first.size() && lt.first[j].first == ve.first)
      {
        if (lt.first[j].second > e)
          return false;
        e -= lt.first[j].second;
        ++j;
      }
      if (e)
        m.push_back({ve.first, e});
    }
    if (j != lt.first.size())
      return false;
    mpq_class c = top.second / lt.second;
    MonoId mid = monos().get(m);
    out[mid] += c;
    for (auto& t : dd)
    {
      MonoVec pm = monos().monos[monos().mul(mid, monos().get(t.first))];
      auto& x = r[pm];
      x -= c * t.second;
      if (x == 0)
        r.erase(pm);
    }
  }
  for (auto& m : out)
    if (m.second != 0)
      res.t.push_back({m.first, m.second});
  q = res;
  return true;
}

inline Frac make_frac(Poly n, Poly d)
{
  if (d.is_const())
  {
    mpq_class c = d.const_val();
    if (c != 1)
      n = scale(n, 1 / c);
    d = poly_const(1);
  }
  else if (n.is_zero())
    d = poly_const(1);
  else if (same(n, d))
  {
    n = poly_const(1);
    d = poly_const(1);
  }
  else
  {
    // Cancel a common monomial factor that contains no algebraic symbol.
    auto common = [](const Poly& p) {
      std::map<uint32_t, uint32_t> c;
      bool first = true;
      for (auto& m : p.t)
      {
        std::map<uint32_t, uint32_t> here;
        for (auto& ve : monos().monos[m.first])
          here[ve.first] = ve.second;
        if (first)
          c = here;
        else
          for (auto it = c.begin(); it != c.end();)
          {
            auto h = here.find(it->first);
            if (h == here.end())
              it = c.erase(it);
            else
            {
              it->second = std::min(it->second, h->second);
              ++it;
            }
          }
        first = false;
      }
      return c;
    };
    auto cn = common(n);
    if (!cn.empty())
    {
      auto cd = common(d);
      std::map<uint32_t, uint32_t> g;
      for (auto& e : cn)
      {
        auto it = cd.find(e.first);
        if (it != cd.end())
          g[e.first] = std::min(e.second, it->second);
      }
      if (!g.empty())
      {
        auto divi = [&](const Poly& p) {
          std::map<MonoId, mpq_class> acc;
          for (auto& m : p.t)
          {
            MonoVec mv;
            for (auto ve : monos().monos[m.first])
            {
              auto it = g.find(ve.first);
              if (it != g.end())
                ve.second -= it->second;
              if (ve.second)
                mv.push_back(ve);
            }
            acc[monos().get(mv)] += m.second;
          }
          Poly r;
          for (auto& m : acc)
            if (m.second != 0)
              r.t.push_back({m.first, m.second});
          return r;
        };
        n = divi(n);
        d = divi(d);
        return make_frac(n, d);
      }
    }
    // scalar multiple?
    if (n.t.size() == d.t.size())
    {
      mpq_class q = n.t[0].second / d.t[0].second;
      if (same(n, scale(d, q)))
      {
        n = poly_const(q);
        d = poly_const(1);
        return Frac{n, d};
      }
    }
    int64_t v = single_var(n, d);
    if (v >= 0)
    {
      Uni a = to_uni(n), b = to_uni(d), g = uni_gcd(a, b);
      if (g.size() > 1)
      {
        auto x = uni_div(a, g), y = uni_div(b, g);
        if (x.second.empty() && y.second.empty())
          return make_frac(from_uni(x.first, v), from_uni(y.first, v));
      }
    }
    else
    {
      Poly q;
      if (exact_div(n, d, q))
        return Frac{q, poly_const(1)};
      if (!n.is_const() && exact_div(d, n, q))
        return make_frac(poly_const(1), q);
    }
    // normalise leading coefficient of the denominator
    mpq_class lc = d.t.back().second;
    if (lc != 1)
    {
      n = scale(n, 1 / lc);
      d = scale(d, 1 / lc);
    }
  }
  return Frac{std::move(n), std::move(d)};
}
inline Frac fadd(const Frac& a, const Frac& b, int sign = 1)
{
  if (same(a.d, b.d))
    return make_frac(add(a.n, b.n, sign), a.d);
  if (a.d.is_const())
    return make_frac(add(mul(a.n, b.d), b.n, sign), b.d);
  if (b.d.is_const())
    return make_frac(add(a.n, mul(b.n, a.d), sign), a.d);
  return make_frac(add(mul(a.n, b.d), mul(b.n, a.d), sign), mul(a.d, b.d));
}
inline Frac fmul(const Frac& a, const Frac& b)
{
  // cheap cross cancellation
  if (same(a.n, b.d))
    return make_frac(b.n, a.d);
  if (same(b.n, a.d))
    return make_frac(a.n, b.d);
  return make_frac(mul(a.n, b.n), mul(a.d, b.d));
}
inline Frac fdiv(const Frac& a, const Frac& b)
{
  return fmul(a, Frac{b.d, b.n});
}
inline mpq_class to_q(double d)
{
  return mpq_class(d);
}
}  // namespace ex
