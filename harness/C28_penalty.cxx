// VF-BOUNDS: DiffusionIP: hyEdge_dim 1..3, polynomial degree 1..2, unit cube and one skewed, rotated, shifted parallelepiped; tau in {1, 1/2, 3}; affine diffusion coefficient that depends on the point and the time, t = 3/4; every trace in [-1,1]^n, every affine source, boundary and reference function with coefficients in [-1,1], every choice of Dirichlet faces (1D; selected ones otherwise)
// VF-ASSUME: TPP (shape functions, quadrature) is the stand-in models/third_party/tpp; LAPACK gesv solves exactly
// VF-CONFIG: quick debug
// VF-CONFIG: quick ndebug -DNDEBUG
#include "lsol_cmp.inc"
#include <HyperHDG/local_solver/diffusion_ip.hxx>
// Interior penalty: (k grad u, grad v) + <-k grad u.n + tau u, v> = (f, v) + tau <lambda + g, v>
template <unsigned D, unsigned S, unsigned p>
struct OracleIP : Ora<D, S, p>
{
  typedef Ora<D, S, p> O;
  using O::n, O::nb, O::F, O::geo;
  static constexpr unsigned n_comp = 1, N = n;
  typedef SmallVec<N> Sol;
  double tau, t;
  std::array<bool, F> dir;
  SmallSquareMat<N> A;
  double k(const typename O::Xi& x) const { return affine(g_d, geo.phys(x), S, t); }
  double normal(const std::array<double, D>& g, unsigned f) const
  {
    double r = 0.;
    for (unsigned d = 0; d < D; ++d)
      r += g[d] * geo.local_normal(f)[d];
    return r;
  }
  void assemble()
  {
    for (unsigned i = 0; i < N; ++i)
      for (unsigned j = 0; j < N; ++j)
      {
        A(i, j) = 0.;
        O::vol([&](const auto& q) {
          auto a = O::grad(i, q.xi), b = O::grad(j, q.xi);
          for (unsigned d = 0; d < D; ++d)
            A(i, j) += q.w * k(q.xi) * a[d] * b[d];
        });
        for (unsigned f = 0; f < F; ++f)
          O::bdr(f, [&](const auto& q) {
            A(i, j) += q.w * O::mono(i, q.xi) * (tau * O::mono(j, q.xi) - k(q.xi) * normal(O::grad(j, q.xi), f));
          });
      }
  }
  template <typename L>
  Sol solve(const L& lam, bool data)
  {
    Sol b;
    for (unsigned i = 0; i < N; ++i)
    {
      if (data)
        O::vol([&](const auto& q) { b[i] += q.w * O::mono(i, q.xi) * affine(g_f, geo.phys(q.xi), S, t); });
      for (unsigned f = 0; f < F; ++f)
        O::bdr(f, [&](const auto& q) {
          double l = O::on_face(lam, f, q.xi);
          if (data && dir[f])
            l += affine(g_g, geo.phys(q.xi), S, t);
          b[i] += tau * q.w * O::mono(i, q.xi) * l;
        });
    }
    return (const Sol&)b / (const SmallSquareMat<N>&)A;
  }
  template <typename L>
  LamArr<F, nb> flux(const Sol& s, const L* lam)
  {
    LamArr<F, nb> r;
    for (unsigned f = 0; f < F; ++f)
    {
      r[f].fill(0.);
      if (dir[f])
        continue;
      O::bdr(f, [&](const auto& q) {
        double v = tau * (O::val(s, q.xi, 0) - O::on_face(*lam, f, q.xi));
        for (unsigned i = 0; i < n; ++i)
          v -= s[i] * k(q.xi) * normal(O::grad(i, q.xi), f);
        for (unsigned j = 0; j < nb; ++j)
          r[f][j] += q.w * v * O::psi(j, f, q.xi);
      });
    }
    return r;
  }
  double error(const Sol& s)
  {
    double r = 0.;
    O::vol([&](const auto& q) {
      const double e = affine(g_a, geo.phys(q.xi), S, t) - O::val(s, q.xi, 0);
      r += q.w * e * e;
    });
    return r;
  }
};
template <unsigned D, unsigned S, unsigned p>
void penalty(unsigned what, unsigned kind, unsigned n_tau, int mask = -1)
{
  OracleIP<D, S, p> o;
  compare<LocalSolver::DiffusionIP<D, p, 2 * p + 1, Par>, OracleIP<D, S, p>, D, S, p>(o, what, kind, n_tau, mask);
}
static constexpr unsigned ALL = LIN | RES | ERR | BULK;
VF_ENTRY(q_penalty_1d)
{
  penalty<1, 2, 1>(ALL, 1, 3);
}
VF_ENTRY(q_penalty_1d_p2)
{
  penalty<1, 1, 2>(ALL, 1, 1);
}
VF_ENTRY(q_penalty_2d)
{
  penalty<2, 3, 1>(ALL, 1, 1, 6);
}
VF_ENTRY(q_penalty_2d_unit)
{
  penalty<2, 2, 1>(ALL, 0, 1, 8);
}
VF_ENTRY(q_penalty_2d_p2)
{
  penalty<2, 2, 2>(LIN | RES, 1, 1, 9);
}
VF_ENTRY(q_penalty_3d)
{
  penalty<3, 3, 1>(LIN | RES | BULK, 1, 1, 17);
}
#ifdef VF_THOROUGH
VF_ENTRY(t_penalty_2d_all)
{
  penalty<2, 3, 1>(ALL, 1, 3, -2);
}
VF_ENTRY(t_penalty_2d_p2)
{
  penalty<2, 3, 2>(ALL, 1, 1, 6);
}
VF_ENTRY(t_penalty_3d)
{
  penalty<3, 3, 1>(ALL, 1, 1, -2);
}
#endif
VF_ENTRY(q_interface_0) { check_interface<LocalSolver::DiffusionIP<1, 2, 5, Par>>(1, 1, 1, 1); }
VF_ENTRY(q_interface_1) { check_interface<LocalSolver::DiffusionIP<2, 1, 3, Par>>(2, 2, 1, 1); }
VF_ENTRY(q_interface_2) { check_interface<LocalSolver::DiffusionIP<3, 2, 5, Par>>(3, 9, 1, 1); }
