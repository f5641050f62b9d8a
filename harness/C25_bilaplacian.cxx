// VF-BOUNDS: BilaplacianEigs: hyEdge_dim 1..3, polynomial degree 1..2, unit cube and one skewed, rotated, shifted parallelepiped; tau in {1, 1/2, 3}; coefficient 2 + x/4 - y/8; eigenvalue (point of linearisation) 0.75; every trace, linearisation trace and eigenvalue direction in [-1,1], affine initial and reference functions with coefficients in [-1,1], every choice of boundary types (1D; selected ones otherwise)
// VF-ASSUME: TPP (shape functions, quadrature) is the stand-in models/third_party/tpp; LAPACK gesv solves exactly; the diffusion coefficient does not depend on time
// VF-CONFIG: quick debug
// VF-CONFIG: quick ndebug -DNDEBUG
#include "lsol_bil.inc"
#include <HyperHDG/local_solver/bilaplacian_eigs_ldgh.hxx>
template <unsigned D, unsigned S, unsigned p>
void eigs(unsigned kind, unsigned n_tau, int mask = -1)
{
  typedef LocalSolver::BilaplacianEigs<D, p, 2 * p + 1, ParB> LS;
  typedef OracleB<D, S, p> O;
  if constexpr (!(LS::n_glob_dofs_per_node() == 2 * O::nb && LS::system_dimension() == D + 1))
    vf_assert_(false, "sizes of the local problem");
  else
  {
  Edge<D, S, typename LS::data_type> e;
  O o;
  set_k(2., 0.25, -0.125, 0.);
  e.geometry = o.geo = make_geo<D, S>(kind);
  o.tau = taus[n_tau > 1 ? vf_concretize_(vf_int_("tau", 0, n_tau - 1)) : 1];
  const double eig = 0.75;
  o.t = eig;
  o.c = -eig;
  set_types(o, e, mask);
  sym4(g_a, "a");
  sym4(g_i, "i");
  sym4(g_i2, "i2");
  auto lam = sym_arr<2 * D, 2 * O::nb>("lambda"), lin = sym_arr<2 * D, 2 * O::nb>("point");
  const auto lam0 = lam, lin0 = lin;
  auto out = sym_arr<2 * D, 2 * O::nb>("out");
  const LS ls(o.tau);
  o.assemble();
  auto types = ls.node_types(e);
  for (unsigned f = 0; f < 2 * D; ++f)
    vf_assert_(types[f] == (o.dir[f] ? 1u : 0u), "node_types marks exactly the Dirichlet faces");
  auto& r = ls.trace_to_flux(lam, out, e, eig);
  vf_assert_(&r == &out, "trace_to_flux returns its output argument");
  auto fl = o.flux(o.solve(lam, false), &lam0);
  near(out, fl, "trace_to_flux is the normal flux of the local solution with the given eigenvalue");
  const double de = vf_real_("d_eig", -1., 1.);
  ls.jacobian_of_trace_to_flux(lam, out, de, lin, eig, e);
  // linear in the trace, and in the product of the change of the eigenvalue with the point of linearisation
  auto dfl = o.flux(o.mass(o.solve(lin, false)), nullptr);
  for (unsigned f = 0; f < 2 * D; ++f)
    for (unsigned j = 0; j < 2 * O::nb; ++j)
      vf_near_(out[f][j], fl[f][j] + de * dfl[f][j], 1e-8, "jacobian_of_trace_to_flux is the derivative");
  near(lin, lin0, "the point of linearisation is not modified");
  std::array<float, 2> ab{0.25f, 1.f};
  check_bulk<O>(ls.bulk_values(ab, lam, e, eig), ab, o.solve(lam, false), D);
  out = sym_arr<2 * D, 2 * O::nb>("out");
  ls.make_initial(out, e, o.t);
  for (unsigned f = 0; f < 2 * D; ++f)
    for (unsigned j = 0; j < O::nb; ++j)
    {
      vf_near_(out[f][j], o.dir[f] ? 0. : o.trace(g_i, f, j), 1e-8, "make_initial: trace of the initial value");
      if (!o.dir[f] && !o.dir2[f])
        vf_near_(out[f][O::nb + j], o.trace(g_i2, f, j), 1e-8, "make_initial: trace of the initial Laplacian");
    }
  near(lam, lam0, "the trace is not modified");
#ifndef NDEBUG
  one_factor(lam);
#endif
  auto er = ls.errors(lam, e, eig);
  vf_near_(er[0], o.error(o.solve(lam, false)), 1e-7, "errors is the squared L2 error of the local solution");
  }
}
VF_ENTRY(q_bileigs_1d)
{
  eigs<1, 2, 1>(1, 1);
}
VF_ENTRY(q_bileigs_1d_tau)
{
  eigs<1, 1, 1>(1, 3, 8);
}
VF_ENTRY(q_bileigs_1d_p2)
{
  eigs<1, 1, 2>(1, 1, 9);
}
VF_ENTRY(q_bileigs_2d_skew)
{
  eigs<2, 3, 1>(1, 1, 0x1c);
}
VF_ENTRY(q_bileigs_2d_unit)
{
  eigs<2, 2, 1>(0, 1, 0x21);
}
VF_ENTRY(q_bileigs_2d_p2)
{
  eigs<2, 2, 2>(1, 1, 0x36);
}
#ifdef VF_THOROUGH
VF_ENTRY(t_bileigs_1d)
{
  eigs<1, 3, 2>(1, 3);
}
VF_ENTRY(t_bileigs_2d)
{
  eigs<2, 3, 1>(1, 3, 0xb1);
}
VF_ENTRY(t_bileigs_3d)
{
  eigs<3, 3, 1>(1, 1, 0x0d2);
}
#endif
VF_ENTRY(q_interface_0) { check_interface<LocalSolver::BilaplacianEigs<1, 2, 5, ParB>>(1, 2, 2, 1); }
VF_ENTRY(q_interface_1) { check_interface<LocalSolver::BilaplacianEigs<2, 1, 3, ParB>>(2, 4, 3, 1); }
VF_ENTRY(q_interface_2) { check_interface<LocalSolver::BilaplacianEigs<3, 2, 5, ParB>>(3, 18, 4, 1); }
