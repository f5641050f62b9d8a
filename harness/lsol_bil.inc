// Independent LDG-H discretisation of the bilaplacian equation on one hyperedge.
#pragma once
#include "lsol.inc"
// Mixed form with q = -grad u, kappa w = div q, r = -grad w, th div r + c u = s:  find q, u, r, w with
//   (q, p) - (u, div p) = -<lambda + g, p.n>,    -(q, grad v) + <q.n + tau u, v> - (kappa w, v) = tau <lambda + g, v>
//   (r, p) - (w, div p) = -<mu + g2, p.n>,       th [-(r, grad v) + <r.n + tau w, v>] + c (u, v) = (s, v) + tau th <mu + g2, v>
// where trace values are (lambda, mu). g (g2) is present at faces of Dirichlet (Laplace Dirichlet) type only.
template <unsigned D, unsigned S, unsigned p>
struct OracleB : Ora<D, S, p>
{
  typedef Ora<D, S, p> O;
  using O::n, O::nb, O::F, O::geo;
  static constexpr unsigned H = (D + 1) * n, N = 2 * H;
  typedef SmallVec<N> Sol;
  typedef LamArr<F, 2 * nb> Lam2;
  double tau, t, th = 1., c = 0., theta = 1., dt = 0.;
  bool swapped = true;  // order of the fluxes: true: (r, w) first
  std::array<bool, F> dir, dir2;
  SmallSquareMat<N> A;
  void assemble()
  {
    for (unsigned i = 0; i < N; ++i)
      for (unsigned j = 0; j < N; ++j)
        A(i, j) = 0.;
    O::vol([&](const auto& q) {
      const double k = kinv(geo.phys(q.xi), S, t);
      for (unsigned i = 0; i < n; ++i)
      {
        auto gi = O::grad(i, q.xi);
        const double mi = O::mono(i, q.xi);
        for (unsigned j = 0; j < n; ++j)
        {
          const double mj = O::mono(j, q.xi);
          for (unsigned b = 0; b < 2; ++b)
            for (unsigned d = 0; d < D; ++d)
            {
              A(b * H + d * n + i, b * H + d * n + j) += q.w * mi * mj;
              A(b * H + d * n + i, b * H + D * n + j) -= q.w * gi[d] * mj;
              A(b * H + D * n + i, b * H + d * n + j) -= (b ? th : 1.) * q.w * gi[d] * mj;
            }
          A(D * n + i, H + D * n + j) -= q.w * k * mi * mj;
          A(H + D * n + i, D * n + j) += c * q.w * mi * mj;
        }
      }
    });
    for (unsigned f = 0; f < F; ++f)
    {
      auto nu = geo.local_normal(f);
      O::bdr(f, [&](const auto& q) {
        for (unsigned i = 0; i < n; ++i)
          for (unsigned j = 0; j < n; ++j)
            for (unsigned b = 0; b < 2; ++b)
            {
              const double v = (b ? th : 1.) * q.w * O::mono(i, q.xi) * O::mono(j, q.xi);
              A(b * H + D * n + i, b * H + D * n + j) += tau * v;
              for (unsigned d = 0; d < D; ++d)
                A(b * H + D * n + i, b * H + d * n + j) += v * nu[d];
            }
      });
    }
  }
  // data: all data functions are present; old: values of u at the previous time step
  template <typename L>
  Sol solve(const L& lam, bool data, const Sol* old = nullptr)
  {
    Sol b;
    if (data)
      O::vol([&](const auto& q) {
        auto x = geo.phys(q.xi);
        double fx = affine(g_f, x, S, t);
        if (dt != 0.)
          fx = theta * dt * fx + (1. - theta) * dt * affine(g_f, x, S, t - dt);
        if (old)
          fx += O::val(*old, q.xi, D * n);
        for (unsigned i = 0; i < n; ++i)
          b[H + D * n + i] += q.w * O::mono(i, q.xi) * fx;
      });
    for (unsigned f = 0; f < F; ++f)
    {
      auto nu = geo.local_normal(f);
      O::bdr(f, [&](const auto& q) {
        auto x = geo.phys(q.xi);
        double l = O::on_face(lam, f, q.xi), m = O::on_face(lam, f, q.xi, nb);
        if (data && dir[f])
          l += affine(g_g, x, S, t);
        if (data && dir2[f])
          m += affine(g_g2, x, S, t);
        for (unsigned i = 0; i < n; ++i)
        {
          const double mi = q.w * O::mono(i, q.xi);
          b[D * n + i] += tau * mi * l;
          b[H + D * n + i] += th * tau * mi * m;
          for (unsigned d = 0; d < D; ++d)
          {
            b[d * n + i] -= mi * l * nu[d];
            b[H + d * n + i] -= mi * m * nu[d];
          }
        }
      });
    }
    return (const Sol&)b / (const SmallSquareMat<N>&)A;
  }
  Sol mass(const Sol& u, double factor = 1.)
  {
    Sol b;
    O::vol([&](const auto& q) {
      const double ux = factor * O::val(u, q.xi, D * n);
      for (unsigned i = 0; i < n; ++i)
        b[H + D * n + i] += q.w * O::mono(i, q.xi) * ux;
    });
    return (const Sol&)b / (const SmallSquareMat<N>&)A;
  }
  Lam2 flux(const Sol& s, const Lam2* lam)
  {
    Lam2 r;
    for (unsigned f = 0; f < F; ++f)
    {
      r[f].fill(0.);
      auto nu = geo.local_normal(f);
      O::bdr(f, [&](const auto& q) {
        for (unsigned b = 0; b < 2; ++b)
        {
          double v = tau * O::val(s, q.xi, b * H + D * n);
          if (lam)
            v -= tau * O::on_face(*lam, f, q.xi, b * nb);
          for (unsigned d = 0; d < D; ++d)
            v += nu[d] * O::val(s, q.xi, b * H + d * n);
          const unsigned first = (swapped ? 1 - b : b) * nb;
          for (unsigned j = 0; j < nb; ++j)
            r[f][first + j] += q.w * v * O::psi(j, f, q.xi);
        }
      });
      for (unsigned j = 0; j < nb; ++j)
      {
        if (dir[f])
          r[f][j] = 0.;
        if (dir2[f])
          r[f][nb + j] = 0.;
      }
    }
    return r;
  }
  double error(const Sol& s)
  {
    double r = 0.;
    O::vol([&](const auto& q) {
      const double e = affine(g_a, geo.phys(q.xi), S, t) - O::val(s, q.xi, D * n);
      r += q.w * e * e;
    });
    return r;
  }
  // traces of the L2 projections of the initial values
  double trace(const double (&c)[4], unsigned f, unsigned j)
  {
    double r = 0.;
    O::bdr(f, [&](const auto& q) { r += q.w / geo.face_area(f) * affine(c, geo.phys(q.xi), S, t) * O::psi(j, f, q.xi); });
    return r;
  }
};
template <unsigned S, typename F>
struct ParB
{
  typedef Point<S, F> P;
  static constexpr std::array<unsigned, 2> dirichlet_nodes{1, 3};
  static constexpr std::array<unsigned, 2> dirichlet_laplacian_nodes{2, 3};
  static constexpr std::array<unsigned, 0> neumann_nodes{};
  static constexpr std::array<unsigned, 0> neumann_laplacian_nodes{};
  static F inverse_bilaplacian_coefficient(const P& x, const F t = 0.) { return kinv(x, S, t); }
  static F right_hand_side(const P& x, const F t = 0.) { return affine(g_f, x, S, t); }
  static F dirichlet_value(const P& x, const F t = 0.) { return affine(g_g, x, S, t); }
  static F dirichlet_laplace_value(const P& x, const F t = 0.) { return affine(g_g2, x, S, t); }
  static F analytic_result(const P& x, const F t = 0.) { return affine(g_a, x, S, t); }
  static F initial(const P& x, const F t = 0.) { return affine(g_i, x, S, t); }
  static F initial_laplace(const P& x, const F t = 0.) { return affine(g_i2, x, S, t); }
};
template <typename O, typename E>
void set_types(O& o, E& e, int mask)
{
  for (unsigned f = 0; f < O::F; ++f)
  {
    unsigned d = mask < 0 ? vf_concretize_(vf_int_("descriptor", 0, 3)) : (mask >> (2 * f) & 3);
    e.node_descriptor[f] = d;
    o.dir[f] = d & 1;
    o.dir2[f] = d & 2;
  }
}
template <typename A, typename B>
static void near(const A& a, const B& b, const char* msg)
{
  for (unsigned f = 0; f < a.size(); ++f)
    for (unsigned j = 0; j < a[f].size(); ++j)
      vf_near_(a[f][j], b[f][j], 1e-8, msg);
}
enum
{
  LIN = 1,
  RES = 2,
  MASS = 4,
  ERR = 8,
  BULK = 16,
  INIT = 32
};
template <typename O, typename B>
void check_bulk(const B& b, const std::array<float, 2>& ab, const typename O::Sol& s, unsigned D)
{
  for (unsigned pt = 0; pt < 1u << D; ++pt)
  {
    typename O::Xi xi;
    for (unsigned d = 0; d < D; ++d)
      xi[d] = ab[pt >> d & 1];
    for (unsigned c = 0; c <= D; ++c)
      vf_near_(b[c][pt], O::val(s, xi, c * O::n), 1e-3, "bulk_values evaluates the local solution");
  }
}
template <typename L>
void one_factor(L& lam)
{
  const double s = vf_real_("factor", -1., 1.);
  double c = 1.;
  auto next = [&]() { c = c > 0. ? -0.75 * c - 0.125 : -0.75 * c + 0.25; return c * s; };
  for (auto* a : {&g_f, &g_g, &g_g2, &g_a})
    for (double& v : *a)
      v = next();
  for (auto& r : lam)
    for (double& v : r)
      v = next();
}
