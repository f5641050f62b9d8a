// Independent LDG-H discretisation of the diffusion equation on one hyperedge.
#pragma once
#include "lsol.inc"
// LDG-H: find q, u with
//   (k^-1 q, p) - (u, div p) = -<lambda + g, p.n>,   -(q, grad v) + <q.n + tau u, v> = (f, v) + tau <lambda + g, v>
template <unsigned D, unsigned S, unsigned p>
struct Oracle : Ora<D, S, p>
{
  typedef Ora<D, S, p> O;
  using O::n, O::nb, O::F, O::geo;
  static constexpr unsigned n_comp = D + 1, N = n_comp * n;
  typedef SmallVec<N> Sol;
  double tau, t, eig = 0.;
  bool advective = false;
  std::array<bool, F> dir;
  SmallSquareMat<N> A;
  void assemble()
  {
    for (unsigned i = 0; i < N; ++i)
      for (unsigned j = 0; j < N; ++j)
        A(i, j) = 0.;
    O::vol([&](const auto& q) {
      const double k = kinv(geo.phys(q.xi), S, t);
      for (unsigned i = 0; i < n; ++i)
      {
        auto gi = O::grad(i, q.xi);
        const double mi = O::mono(i, q.xi);
        for (unsigned j = 0; j < n; ++j)
        {
          const double mj = O::mono(j, q.xi);
          for (unsigned d = 0; d < D; ++d)
          {
            A(d * n + i, d * n + j) += q.w * k * mi * mj;
            A(d * n + i, D * n + j) -= q.w * gi[d] * mj;  // div of (mono_i e_d)
            A(D * n + i, d * n + j) -= q.w * gi[d] * mj;
          }
          A(D * n + i, D * n + j) -= eig * q.w * mi * mj;
          if (advective)
          {
            auto x = geo.phys(q.xi);
            A(D * n + i, D * n + j) += affine(g_r, x, S, t) * q.w * mi * mj;
            for (unsigned d = 0; d < D; ++d)
              for (unsigned c = 0; c < S; ++c)
                A(d * n + i, D * n + j) -= geo.Q(c, d) * affine(g_v[c], x, S, t) * q.w * mi * mj;
          }
        }
      }
    });
    for (unsigned f = 0; f < F; ++f)
    {
      auto nu = geo.local_normal(f);
      O::bdr(f, [&](const auto& q) {
        for (unsigned i = 0; i < n; ++i)
          for (unsigned j = 0; j < n; ++j)
          {
            const double v = q.w * O::mono(i, q.xi) * O::mono(j, q.xi);
            A(D * n + i, D * n + j) += tau * v;
            for (unsigned d = 0; d < D; ++d)
              A(D * n + i, d * n + j) += v * nu[d];
          }
      });
    }
  }
  template <typename L>
  Sol rhs(const L& lam, bool data)
  {
    Sol b;
    if (data)
      O::vol([&](const auto& q) {
        const double fx = affine(g_f, geo.phys(q.xi), S, t);
        for (unsigned i = 0; i < n; ++i)
          b[D * n + i] += q.w * O::mono(i, q.xi) * fx;
      });
    for (unsigned f = 0; f < F; ++f)
    {
      auto nu = geo.local_normal(f);
      O::bdr(f, [&](const auto& q) {
        double l = O::on_face(lam, f, q.xi);
        if (data && dir[f])
          l += affine(g_g, geo.phys(q.xi), S, t);
        for (unsigned i = 0; i < n; ++i)
        {
          const double v = q.w * O::mono(i, q.xi) * l;
          b[D * n + i] += tau * v;
          for (unsigned d = 0; d < D; ++d)
            b[d * n + i] -= v * nu[d];
        }
      });
    }
    return b;
  }
  template <typename L>
  Sol solve(const L& lam, bool data)
  {
    const Sol b = rhs(lam, data);
    return b / (const SmallSquareMat<N>&)A;
  }
  Sol mass(const Sol& u)
  {
    Sol b;
    O::vol([&](const auto& q) {
      const double ux = O::val(u, q.xi, D * n);
      for (unsigned i = 0; i < n; ++i)
        b[D * n + i] += q.w * O::mono(i, q.xi) * ux;
    });
    return (const Sol&)b / (const SmallSquareMat<N>&)A;
  }
  // <q.n + tau (u - lambda), psi_j>, nothing at Dirichlet faces
  template <typename L>
  LamArr<F, nb> flux(const Sol& s, const L* lam)
  {
    LamArr<F, nb> r;
    for (unsigned f = 0; f < F; ++f)
    {
      r[f].fill(0.);
      if (dir[f])
        continue;
      auto nu = geo.local_normal(f);
      O::bdr(f, [&](const auto& q) {
        double v = tau * O::val(s, q.xi, D * n);
        if (lam)
          v -= tau * O::on_face(*lam, f, q.xi);
        for (unsigned d = 0; d < D; ++d)
          v += nu[d] * O::val(s, q.xi, d * n);
        for (unsigned j = 0; j < nb; ++j)
          r[f][j] += q.w * v * O::psi(j, f, q.xi);
      });
    }
    return r;
  }
  double error(const Sol& s)
  {
    double r = 0.;
    O::vol([&](const auto& q) {
      const double e = affine(g_a, geo.phys(q.xi), S, t) - O::val(s, q.xi, D * n);
      r += q.w * e * e;
    });
    return r;
  }
};
template <typename A, typename B>
static void near(const A& a, const B& b, const char* msg)
{
  for (unsigned f = 0; f < a.size(); ++f)
    for (unsigned j = 0; j < a[f].size(); ++j)
      vf_near_(a[f][j], b[f][j], 1e-8, msg);
}
