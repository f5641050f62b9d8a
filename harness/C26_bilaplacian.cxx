// VF-BOUNDS: BilaplacianParab: hyEdge_dim 1..3, polynomial degree 1..2, unit cube and one skewed, rotated, shifted parallelepiped; tau in {1, 1/2, 3}, theta = 1, time step 1/4, initial time 1/2; coefficient 2 + x/4 - y/8 + t/4; every trace in [-1,1]^n of up to two steps, every affine source, boundary, initial and reference function with coefficients in [-1,1], every choice of boundary types (1D; selected ones otherwise)
// VF-ASSUME: TPP (shape functions, quadrature) is the stand-in models/third_party/tpp; LAPACK gesv solves exactly
// VF-CONFIG: quick debug
// VF-CONFIG: quick ndebug -DNDEBUG
#include "lsol_bil.inc"
#include <HyperHDG/local_solver/bilaplacian_parab_ldgh.hxx>
template <unsigned D, unsigned S, unsigned p>
void parab(unsigned kind, unsigned n_tau, int mask)
{
  typedef LocalSolver::BilaplacianParab<D, p, 2 * p + 1, ParB> LS;
  typedef OracleB<D, S, p> O;
  if constexpr (!(LS::n_glob_dofs_per_node() == 2 * O::nb && LS::system_dimension() == D + 1))
    vf_assert_(false, "sizes of the local problem");
  else
  {
  Edge<D, S, typename LS::data_type> e;
  O o;
  e.geometry = o.geo = make_geo<D, S>(kind);
  o.tau = taus[n_tau > 1 ? vf_concretize_(vf_int_("tau", 0, n_tau - 1)) : 1];
  o.theta = 1.;
  o.dt = o.th = 0.25;
  o.c = 1.;
  set_types(o, e, mask);
  sym4(g_f, "f");
  sym4(g_g, "g");
  sym4(g_g2, "g2");
  sym4(g_a, "a");
  sym4(g_i, "i");
  sym4(g_i2, "i2");
  const LS ls(std::vector<double>{o.tau, o.theta, o.dt});
  auto out = sym_arr<2 * D, 2 * O::nb>("out");
  ls.make_initial(out, e, 0.5);
  o.t = 0.5;
  for (unsigned f = 0; f < 2 * D; ++f)
    for (unsigned j = 0; j < O::nb; ++j)
    {
      vf_near_(out[f][j], o.dir[f] ? 0. : o.trace(g_i, f, j), 1e-8, "make_initial: trace of the initial value");
      if (!o.dir[f] && !o.dir2[f])
        vf_near_(out[f][O::nb + j], o.trace(g_i2, f, j), 1e-8, "make_initial: trace of the initial Laplacian");
    }
  // the projection of an affine initial value
  typename O::Sol old;
  {
    SmallSquareMat<O::n> M;
    SmallVec<O::n> b;
    o.vol([&](const auto& q) {
      for (unsigned i = 0; i < O::n; ++i)
      {
        for (unsigned j = 0; j < O::n; ++j)
          M(i, j) += q.w * O::mono(i, q.xi) * O::mono(j, q.xi);
        b[i] += q.w * O::mono(i, q.xi) * affine(g_i, o.geo.phys(q.xi), S, o.t);
      }
    });
    SmallVec<O::n> c = (const SmallVec<O::n>&)b / (const SmallSquareMat<O::n>&)M;
    for (unsigned i = 0; i < O::n; ++i)
      old[D * O::n + i] = c[i];
  }
  for (unsigned step = 0; step < 2; ++step)
  {
    o.t = 0.75 + step * o.dt;
    o.assemble();
    auto lam = sym_arr<2 * D, 2 * O::nb>(step ? "lambda2" : "lambda");
    const auto lam0 = lam;
    out = sym_arr<2 * D, 2 * O::nb>("out");
    auto& r = ls.trace_to_flux(lam, out, e, o.t);
    vf_assert_(&r == &out, "trace_to_flux returns its output argument");
    near(out, o.flux(o.solve(lam, false), &lam0), "trace_to_flux is the normal flux of the local solution");
    ls.residual_flux(lam, out, e, o.t);
    auto s = o.solve(lam, true, &old);
    near(out, o.flux(s, &lam0), "residual_flux is the normal flux of the local solution with all data");
    std::array<float, 2> ab{0.25f, 1.f};
    check_bulk<O>(ls.bulk_values(ab, lam, e, o.t), ab, s, D);
#ifdef NDEBUG
    if constexpr (D == 1 || p == 1)
    {
      auto er = ls.errors(lam, e, o.t);
      vf_near_(er[0], o.error(s), 1e-7, "errors is the squared L2 error of the local solution");
    }
#endif
    if (!step)
    {
      ls.set_data(lam, e, o.t);
      old = s;
    }
    near(lam, lam0, "the trace is not modified");
  }
  }
}
VF_ENTRY(q_bilparab_1d)
{
  parab<1, 2, 1>(1, 1, -1);
}
VF_ENTRY(q_bilparab_1d_tau)
{
  parab<1, 1, 1>(1, 3, 8);
}
VF_ENTRY(q_bilparab_1d_p2)
{
  parab<1, 1, 2>(1, 1, 9);
}
VF_ENTRY(q_bilparab_2d_skew)
{
  parab<2, 3, 1>(1, 1, 0x1c);
}
VF_ENTRY(q_bilparab_2d_unit)
{
  parab<2, 2, 1>(0, 1, 0x21);
}
VF_ENTRY(q_bilparab_2d_p2)
{
  parab<2, 2, 2>(1, 1, 0x36);
}
#ifdef VF_THOROUGH
VF_ENTRY(t_bilparab_1d)
{
  parab<1, 3, 2>(1, 3, -1);
}
VF_ENTRY(t_bilparab_2d)
{
  parab<2, 3, 1>(1, 3, 0xb1);
}
VF_ENTRY(t_bilparab_3d)
{
  parab<3, 3, 1>(1, 1, 0x0d2);
}
#endif
VF_ENTRY(q_interface_0) { check_interface<LocalSolver::BilaplacianParab<1, 2, 5, ParB>>(1, 2, 2, 1); }
VF_ENTRY(q_interface_1) { check_interface<LocalSolver::BilaplacianParab<2, 1, 3, ParB>>(2, 4, 3, 1); }
VF_ENTRY(q_interface_2) { check_interface<LocalSolver::BilaplacianParab<3, 2, 5, ParB>>(3, 18, 4, 1); }
