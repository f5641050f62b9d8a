// Local solvers: a concrete parallelepiped as hyperedge, symbolic data functions, and an independent discretisation
// (monomials instead of Legendre polynomials, own quadrature) of the weak forms the local solvers document.
#pragma once
#include <vf.hxx>
#include <HyperHDG/compile_time_tricks.hxx>
#include <HyperHDG/dense_la.hxx>
#include <array>
#include <cmath>
// ---------------------------------------------------------------- hyperedge
template <unsigned D, unsigned S>
struct Geo
{
  SmallSquareMat<D> R;
  SmallSquareMat<S> Q;  // orthogonal; x = Q (R xi, 0) + t
  SmallVec<S> t;
  static constexpr unsigned hyEdge_dim() { return D; }
  static constexpr unsigned space_dim() { return S; }
  const SmallSquareMat<D>& mat_r() const { return R; }
  double area() const
  {
    double a = 1.;
    for (unsigned i = 0; i < D; ++i)
      a *= R(i, i);
    return a;
  }
  // gradient of reference coordinate d with respect to local coordinates: R^{-T} e_d
  std::array<double, D> grad_xi(unsigned d) const
  {
    std::array<double, D> g{};
    for (unsigned a = 0; a < D; ++a)
    {
      double s = a == d ? 1. : 0.;
      for (unsigned b = 0; b < a; ++b)
        s -= R(b, a) * g[b];
      g[a] = s / R(a, a);
    }
    return g;
  }
  double face_area(unsigned f) const
  {
    auto g = grad_xi(f / 2);
    double s = 0.;
    for (double v : g)
      s += v * v;
    return area() * std::sqrt(s);
  }
  SmallVec<D> local_normal(unsigned f) const
  {
    auto g = grad_xi(f / 2);
    double s = 0.;
    for (double v : g)
      s += v * v;
    s = std::sqrt(s);
    SmallVec<D> n;
    for (unsigned i = 0; i < D; ++i)
      n[i] = (f % 2 ? g[i] : -g[i]) / s;
    return n;
  }
  SmallVec<S> inner_normal(unsigned i) const { return Q.get_column(i); }
  SmallVec<S> outer_normal(unsigned i) const { return Q.get_column(D + i); }
  std::array<double, S> phys(const std::array<double, D>& xi) const
  {
    std::array<double, S> x;
    for (unsigned r = 0; r < S; ++r)
    {
      x[r] = t[r];
      for (unsigned a = 0; a < D; ++a)
        for (unsigned b = a; b < D; ++b)
          x[r] += Q(r, a) * R(a, b) * xi[b];
    }
    return x;
  }
  template <unsigned n>
  SmallMat<S, n> map_ref_to_phys(const SmallMat<D, n>& p) const
  {
    SmallMat<S, n> r;
    for (unsigned c = 0; c < n; ++c)
    {
      std::array<double, D> xi;
      for (unsigned a = 0; a < D; ++a)
        xi[a] = p(a, c);
      auto x = phys(xi);
      for (unsigned i = 0; i < S; ++i)
        r(i, c) = x[i];
    }
    return r;
  }
};
// kind 0: the unit cube in the first D coordinates; kind 1: a skewed, rotated and shifted parallelepiped
template <unsigned D, unsigned S>
Geo<D, S> make_geo(unsigned kind)
{
  Geo<D, S> g;
  for (unsigned i = 0; i < D; ++i)
    for (unsigned j = 0; j < D; ++j)
      g.R(i, j) = i == j;
  for (unsigned i = 0; i < S; ++i)
  {
    g.t[i] = 0.;
    for (unsigned j = 0; j < S; ++j)
      g.Q(i, j) = i == j;
  }
  if (kind)
  {
    g.R(0, 0) = 2.;
    if constexpr (D > 1)
    {
      g.R(0, 1) = 0.75;
      g.R(1, 1) = 1.;
    }
    if constexpr (D > 2)
    {
      g.R(0, 2) = -0.5;
      g.R(1, 2) = 0.25;
      g.R(2, 2) = 0.5;
    }
    for (unsigned i = 0; i < S; ++i)
      g.t[i] = 0.5 - 0.25 * i;
    if constexpr (S > 1)
    {
      g.Q(0, 0) = 0.6;
      g.Q(1, 0) = 0.8;
      g.Q(0, 1) = -0.8;
      g.Q(1, 1) = 0.6;
    }
  }
  return g;
}
template <unsigned D, unsigned S, typename data_t>
struct Edge
{
  Geo<D, S> geometry;
  std::array<unsigned, 2 * D> node_descriptor;
  data_t data;
};
// ---------------------------------------------------------------- data functions of the physical point and the time
static double g_f[4], g_g[4], g_a[4], g_i[4], g_f2[4], g_g2[4], g_a2[4], g_i2[4];
template <typename P>
static double affine(const double (&c)[4], const P& x, unsigned S, double t)
{
  return c[0] + c[1] * x[0] + c[2] * x[S - 1] + c[3] * t;
}
// inverse diffusion coefficient: concrete, affine, positive on the hyperedges used
static double g_k[4] = {2., 0.25, -0.125, 0.25};
template <typename P>
static double kinv(const P& x, unsigned S, double t)
{
  return affine(g_k, x, S, t);
}
inline void set_k(double a, double b, double c, double d)
{
  g_k[0] = a, g_k[1] = b, g_k[2] = c, g_k[3] = d;
}
// diffusion coefficient, velocity and reaction rate of the solvers that have them: concrete, affine
static const double g_d[4] = {1.5, 0.125, 0.0625, 0.125}, g_r[4] = {0.5, -0.125, 0.25, 0.25};
static const double g_v[3][4] = {{0.75, 0.25, -0.5, 0.125}, {-0.5, 0.125, 0.25, -0.25}, {0.25, -0.25, 0.125, 0.5}};
inline void sym4(double (&c)[4], const char* n)
{
  for (int i = 0; i < 4; ++i)
    c[i] = vf_real_(n, -1., 1.);
}
// ---------------------------------------------------------------- independent discretisation
template <unsigned D, unsigned S, unsigned p>
struct Ora
{
  static constexpr unsigned ipow(unsigned e)
  {
    unsigned r = 1;
    while (e--)
      r *= p + 1;
    return r;
  }
  static constexpr unsigned n = ipow(D), nb = ipow(D - 1), F = 2 * D;
  typedef std::array<double, D> Xi;
  typedef SmallMat<F, nb> Lam;
  Geo<D, S> geo;
  struct QP
  {
    Xi xi;
    double w;  // weight including the area
  };
  static double gx(unsigned k) { return k == 1 ? 0.5 : (k ? 0.5 + 0.5 * 0.7745966692414834 : 0.5 - 0.5 * 0.7745966692414834); }
  static double gw(unsigned k) { return k == 1 ? 4. / 9. : 5. / 18.; }
  static constexpr unsigned pow3(unsigned e)
  {
    unsigned r = 1;
    while (e--)
      r *= 3;
    return r;
  }
  template <typename V>
  void vol(V v) const
  {
    for (unsigned k = 0; k < pow3(D); ++k)
    {
      QP q;
      q.w = geo.area();
      for (unsigned d = 0, m = k; d < D; ++d, m /= 3)
      {
        q.xi[d] = gx(m % 3);
        q.w *= gw(m % 3);
      }
      v(q);
    }
  }
  template <typename V>
  void bdr(unsigned f, V v) const
  {
    for (unsigned k = 0; k < pow3(D - 1); ++k)
    {
      QP q;
      q.w = geo.face_area(f);
      for (unsigned d = 0, m = k; d < D; ++d)
      {
        if (d == f / 2)
        {
          q.xi[d] = f % 2;
          continue;
        }
        q.xi[d] = gx(m % 3);
        q.w *= gw(m % 3);
        m /= 3;
      }
      v(q);
    }
  }
  static double mono(unsigned i, const Xi& x)
  {
    double r = 1.;
    for (unsigned d = 0; d < D; ++d, i /= p + 1)
      for (unsigned e = 0; e < i % (p + 1); ++e)
        r *= x[d];
    return r;
  }
  std::array<double, D> grad(unsigned i, const Xi& x) const
  {
    std::array<double, D> r{};
    for (unsigned d = 0; d < D; ++d)
    {
      double v = 1.;
      unsigned m = i;
      for (unsigned e = 0; e < D; ++e, m /= p + 1)
      {
        unsigned k = m % (p + 1);
        if (e == d)
          v *= k == 0 ? 0. : (k == 1 ? 1. : (k == 2 ? 2. * x[e] : 3. * x[e] * x[e]));
        else
          for (unsigned l = 0; l < k; ++l)
            v *= x[e];
      }
      auto g = geo.grad_xi(d);
      for (unsigned a = 0; a < D; ++a)
        r[a] += v * g[a];
    }
    return r;
  }
  static double leg(unsigned k, double x)
  {
    return k == 0 ? 1. : (k == 1 ? 1.7320508075688772 * (2. * x - 1.) : 2.23606797749979 * (6. * x * x - 6. * x + 1.));
  }
  static double psi(unsigned j, unsigned f, const Xi& x)
  {
    double r = 1.;
    for (unsigned d = 0; d < D; ++d)
      if (d != f / 2)
      {
        r *= leg(j % (p + 1), x[d]);
        j /= p + 1;
      }
    return r;
  }
  // sum over the functions of a face
  template <typename L>
  static double on_face(const L& lam, unsigned f, const Xi& x, unsigned first = 0)
  {
    double r = 0.;
    for (unsigned j = 0; j < nb; ++j)
      r += lam[f][first + j] * psi(j, f, x);
    return r;
  }
  template <typename C>
  static double val(const C& c, const Xi& x, unsigned first)
  {
    double r = 0.;
    for (unsigned i = 0; i < n; ++i)
      r += c[first + i] * mono(i, x);
    return r;
  }
};
template <typename M>
M sym_lam(const char* name)
{
  M m;
  for (unsigned i = 0; i < m.n_rows(); ++i)
    for (unsigned j = 0; j < m.n_cols(); ++j)
      m(i, j) = vf_real_(name, -1., 1.);
  return m;
}
// What HyperHDG's loops hand to a local solver: an array of arrays, one per face
template <unsigned F, unsigned nb>
using LamArr = std::array<std::array<double, nb>, F>;
template <unsigned F, unsigned nb>
LamArr<F, nb> sym_arr(const char* name)
{
  LamArr<F, nb> m;
  for (auto& r : m)
    for (double& v : r)
      v = vf_real_(name, -1., 1.);
  return m;
}
static const double taus[] = {1., 0.5, 3.};
// sizes that the other parts of a program rely on, and how errors of hyperedges are combined
template <typename LS>
void check_interface(unsigned dim, unsigned dofs_per_node, unsigned system, unsigned node_system)
{
  vf_assert_(LS::hyEdge_dim() == dim, "dimension of hyperedges");
  vf_assert_(LS::n_glob_dofs_per_node() == dofs_per_node, "number of degrees of freedom per hypernode");
  vf_assert_(LS::system_dimension() == system, "number of components of the solution");
  vf_assert_(LS::node_system_dimension() == node_system, "number of components of the trace");
  const double a = vf_real_("a", 0.015625, 10.), b = vf_real_("b", 0.015625, 10.);
  typename LS::error_def::error_t s = LS::error_def::initial_error(), e;
  for (double x : {a, b})
  {
    e.fill(x);
    s = LS::error_def::sum_error(s, e);
  }
  const auto r = LS::error_def::postprocess_error(s);
  for (unsigned i = 0; i < r.size(); ++i)
  {
    vf_assert_(r[i] >= 0., "errors are not negative");
    vf_near_(r[i] * r[i], a + b, 1e-9, "the error is the root of the sum of the squared errors of the hyperedges");
  }
}
