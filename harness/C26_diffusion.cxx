// VF-BOUNDS: DiffusionParab: hyEdge_dim 1..3 = space_dim, polynomial degree 1..2, unit cube and one skewed, rotated, shifted parallelepiped; tau in {1, 1/2, 3}, theta in {1, 1/2, 1/4}, time step 1/4, initial time 1/2; coefficient 2 + x/4 - y/8 + t/4; every trace in [-1,1]^n of up to two steps, every affine source, boundary, initial and reference function with coefficients in [-1,1], every choice of Dirichlet faces (1D; selected ones otherwise)
// VF-ASSUME: TPP (shape functions, quadrature) is the stand-in models/third_party/tpp; LAPACK gesv solves exactly
// VF-CONFIG: quick debug
// VF-CONFIG: quick ndebug -DNDEBUG
#include "lsol_ldg.inc"
#include <HyperHDG/local_solver/diffusion_parab_ldgh.hxx>
template <unsigned S, typename F>
struct Par
{
  typedef Point<S, F> P;
  static constexpr std::array<unsigned, 2> dirichlet_nodes{1, 3};
  static constexpr std::array<unsigned, 0> neumann_nodes{};
  static F inverse_diffusion_coeff(const P& x, const F t = 0.) { return kinv(x, S, t); }
  static F right_hand_side(const P& x, const F t = 0.) { return affine(g_f, x, S, t); }
  static F dirichlet_value(const P& x, const F t = 0.) { return affine(g_g, x, S, t); }
  static F analytic_result(const P& x, const F t = 0.) { return affine(g_a, x, S, t); }
  static F initial(const P& x, const F t = 0.) { return affine(g_i, x, S, t); }
};
// One step from t - dt to t of the theta scheme for d/dt u + div q = f, kinv q = -grad u. The local problem has
//   (u, v) + theta dt a(q, u, lambda; v) = (u_old, v) + theta dt (f, v) + (1 - theta) dt [(f_old, v) - a(q_old, u_old, lambda_old; v)]
// in its second equation, where a is as in lsol_ldg.inc.
template <unsigned D, unsigned S, unsigned p>
struct OracleP : Oracle<D, S, p>
{
  typedef Oracle<D, S, p> B;
  using B::n, B::nb, B::F, B::N, B::geo, B::tau, B::t, B::A, B::dir;
  using typename B::Sol;
  typedef LamArr<F, nb> L;
  double theta, dt, t_old;
  Sol old;  // q, u of the previous step
  L lam_old, flux_old;
  void assemble()
  {
    B::assemble();
    for (unsigned i = D * n; i < N; ++i)
      for (unsigned j = 0; j < N; ++j)
        A(i, j) *= theta * dt;
    B::vol([&](const auto& q) {
      for (unsigned i = 0; i < n; ++i)
        for (unsigned j = 0; j < n; ++j)
          A(D * n + i, D * n + j) += q.w * B::mono(i, q.xi) * B::mono(j, q.xi);
    });
  }
  Sol solve(const L& lam, bool data)
  {
    Sol b = B::rhs(lam, data);
    for (unsigned i = D * n; i < N; ++i)
      b[i] *= theta * dt;
    if (data)
    {
      const double w = (1. - theta) * dt;
      B::vol([&](const auto& q) {
        const double u = B::val(old, q.xi, D * n), f = affine(g_f, geo.phys(q.xi), S, t_old);
        std::array<double, D> qo;
        for (unsigned d = 0; d < D; ++d)
          qo[d] = B::val(old, q.xi, d * n);
        for (unsigned i = 0; i < n; ++i)
        {
          auto g = B::grad(i, q.xi);
          double s = (u + w * f) * B::mono(i, q.xi);
          for (unsigned d = 0; d < D; ++d)
            s += w * qo[d] * g[d];
          b[D * n + i] += q.w * s;
        }
      });
      for (unsigned f = 0; f < F; ++f)
      {
        auto nu = geo.local_normal(f);
        B::bdr(f, [&](const auto& q) {
          double a = B::val(old, q.xi, D * n) - B::on_face(lam_old, f, q.xi);
          if (dir[f])
            a -= affine(g_g, geo.phys(q.xi), S, t_old);
          a *= tau;
          for (unsigned d = 0; d < D; ++d)
            a += nu[d] * B::val(old, q.xi, d * n);
          for (unsigned i = 0; i < n; ++i)
            b[D * n + i] -= w * q.w * B::mono(i, q.xi) * a;
        });
      }
    }
    return (const Sol&)b / (const SmallSquareMat<N>&)A;
  }
  L total(const L& lam, bool data)
  {
    auto fl = B::flux(solve(lam, data), &lam);
    for (unsigned f = 0; f < F; ++f)
      for (unsigned j = 0; j < nb; ++j)
        fl[f][j] = theta * fl[f][j] + (data ? (1. - theta) * flux_old[f][j] : 0.);
    return fl;
  }
  // accept the step
  void step(const L& lam)
  {
    Sol s = solve(lam, true);
    flux_old = B::flux(s, &lam);
    old = s;
    lam_old = lam;
    t_old = t;
  }
  void initial(double t0)
  {
    SmallSquareMat<n> K, M;
    SmallVec<n> b[D + 1];
    t_old = t0;
    B::vol([&](const auto& q) {
      auto x = geo.phys(q.xi);
      for (unsigned i = 0; i < n; ++i)
      {
        const double mi = B::mono(i, q.xi);
        auto g = B::grad(i, q.xi);
        for (unsigned j = 0; j < n; ++j)
        {
          const double v = q.w * mi * B::mono(j, q.xi);
          K(i, j) += kinv(x, S, t0) * v;
          M(i, j) += v;
        }
        b[D][i] += q.w * mi * affine(g_i, x, S, t0);
        for (unsigned d = 0; d < D; ++d)
          b[d][i] += q.w * g[d] * affine(g_i, x, S, t0);
      }
    });
    for (unsigned f = 0; f < F; ++f)
    {
      auto nu = geo.local_normal(f);
      for (unsigned j = 0; j < nb; ++j)
        lam_old[f][j] = 0.;
      B::bdr(f, [&](const auto& q) {
        const double v = q.w * affine(g_i, geo.phys(q.xi), S, t0);
        for (unsigned i = 0; i < n; ++i)
          for (unsigned d = 0; d < D; ++d)
            b[d][i] -= v * B::mono(i, q.xi) * nu[d];
        if (!dir[f])
          for (unsigned j = 0; j < nb; ++j)
            lam_old[f][j] += v / geo.face_area(f) * B::psi(j, f, q.xi);
      });
    }
    for (unsigned d = 0; d <= D; ++d)
    {
      SmallVec<n> c = (const SmallVec<n>&)b[d] / (const SmallSquareMat<n>&)(d < D ? K : M);
      for (unsigned i = 0; i < n; ++i)
        old[d * n + i] = c[i];
    }
    flux_old = B::flux(old, &lam_old);
  }
};
static const double thetas[] = {0.5, 1., 0.25};
template <unsigned D, unsigned S, unsigned p>
void parab(unsigned kind, unsigned n_tau, unsigned n_theta, int mask, bool bulk = true)
{
  typedef LocalSolver::DiffusionParab<D, p, 2 * p + 1, Par> LS;
  typedef OracleP<D, S, p> O;
  if constexpr (!(LS::n_glob_dofs_per_node() == O::nb && LS::system_dimension() == D + 1))
    vf_assert_(false, "sizes of the local problem");
  else
  {
  Edge<D, S, typename LS::data_type> e;
  O o;
  e.geometry = o.geo = make_geo<D, S>(kind);
  o.tau = taus[n_tau > 1 ? vf_concretize_(vf_int_("tau", 0, n_tau - 1)) : 1];
  o.theta = thetas[n_theta > 1 ? vf_concretize_(vf_int_("theta", 0, n_theta - 1)) : 0];
  o.dt = 0.25;
  for (unsigned f = 0; f < 2 * D; ++f)
  {
    unsigned d = mask < 0 ? vf_concretize_(vf_int_("descriptor", 0, 3)) : (mask >> f & 1);
    e.node_descriptor[f] = d;
    o.dir[f] = d % 2;
  }
  sym4(g_f, "f");
  sym4(g_g, "g");
  sym4(g_a, "a");
  sym4(g_i, "i");
  const LS ls(std::vector<double>{o.tau, o.theta, o.dt});
  auto out = sym_arr<2 * D, O::nb>("out");
  auto& r = ls.make_initial(out, e, 0.5);
  vf_assert_(&r == &out, "make_initial returns its argument");
  o.t = 0.5;
  o.initial(0.5);
  near(out, o.lam_old, "make_initial: trace of the initial value");
  for (unsigned step = 0; step < 2; ++step)
  {
    o.t = 0.75 + step * o.dt;
    o.assemble();
    auto lam = sym_arr<2 * D, O::nb>(step ? "lambda2" : "lambda");
    const auto lam0 = lam;
    out = sym_arr<2 * D, O::nb>("out");
    ls.trace_to_flux(lam, out, e, o.t);
    near(out, o.total(lam, false), "trace_to_flux is theta times the normal flux of the local solution");
    ls.residual_flux(lam, out, e, o.t);
    near(out, o.total(lam, true), "residual_flux is the flux of the theta scheme with all data");
    if (bulk)
    {
      std::array<float, 2> ab{0.25f, 1.f};
      auto b = ls.bulk_values(ab, lam, e, o.t);
      auto s = o.solve(lam, true);
      for (unsigned pt = 0; pt < 1u << D; ++pt)
      {
        std::array<double, D> xi;
        for (unsigned d = 0; d < D; ++d)
          xi[d] = ab[pt >> d & 1];
        for (unsigned c = 0; c <= D; ++c)
          vf_near_(b[c][pt], O::val(s, xi, c * O::n), 1e-3, "bulk_values evaluates the local solution");
      }
    }
    if (!step)
    {
      ls.set_data(lam, e, o.t);
      o.step(lam);
      auto er = ls.errors(lam, e, o.t);
      vf_near_(er[0], o.error(o.old), 1e-7, "errors is the squared L2 error of the accepted step");
    }
    near(lam, lam0, "the trace is not modified");
  }
  }
}
VF_ENTRY(q_parab_1d)
{
  parab<1, 1, 1>(1, 1, 1, -1);
}
VF_ENTRY(q_parab_1d_theta)
{
  parab<1, 1, 1>(1, 3, 3, 1);
}
VF_ENTRY(q_parab_1d_p2)
{
  parab<1, 1, 2>(1, 1, 2, 2);
}
VF_ENTRY(q_parab_2d_skew)
{
  parab<2, 2, 1>(1, 1, 1, 9);
}
VF_ENTRY(q_parab_2d_unit)
{
  parab<2, 2, 1>(0, 1, 2, 4);
}
VF_ENTRY(q_parab_2d_p2)
{
  parab<2, 2, 2>(1, 1, 1, 6);
}
VF_ENTRY(q_parab_3d)
{
  parab<3, 3, 1>(1, 1, 1, 17);
}
#ifdef VF_THOROUGH
VF_ENTRY(t_parab_1d_p2)
{
  parab<1, 1, 2>(1, 3, 3, -1);
}
VF_ENTRY(t_parab_2d_all)
{
  parab<2, 2, 1>(1, 1, 1, -1);
}
VF_ENTRY(t_parab_2d_theta)
{
  parab<2, 2, 2>(1, 3, 3, 9);
}
#endif
VF_ENTRY(q_interface_0) { check_interface<LocalSolver::DiffusionParab<1, 2, 5, Par>>(1, 1, 2, 1); }
VF_ENTRY(q_interface_1) { check_interface<LocalSolver::DiffusionParab<2, 1, 3, Par>>(2, 2, 3, 1); }
VF_ENTRY(q_interface_2) { check_interface<LocalSolver::DiffusionParab<3, 2, 5, Par>>(3, 9, 4, 1); }
