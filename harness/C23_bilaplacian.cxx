// VF-BOUNDS: hyEdge_dim 1..3, polynomial degree 1..2, unit cube and one skewed, rotated, shifted parallelepiped; tau in {1, 1/2, 3}; coefficient 2 + x/4 - y/8 + t/4, t = 3/4; every trace in [-1,1]^n, every affine source, boundary and reference function with coefficients in [-1,1], every choice of boundary types (1D; selected ones in 2D)
// VF-ASSUME: TPP (shape functions, quadrature) is the stand-in models/third_party/tpp; LAPACK gesv solves exactly
// VF-CONFIG: quick debug
// VF-CONFIG: quick ndebug -DNDEBUG
#include "lsol_bil.inc"
#include <HyperHDG/local_solver/bilaplacian_ldgh.hxx>
template <unsigned D, unsigned S, unsigned p>
void bilaplacian(unsigned what, unsigned kind, unsigned n_tau, int mask = -1)
{
  typedef LocalSolver::Bilaplacian<D, p, 2 * p + 1, ParB> LS;
  typedef OracleB<D, S, p> O;
  if constexpr (!(LS::n_glob_dofs_per_node() == 2 * O::nb && LS::system_dimension() == D + 1))
    vf_assert_(false, "sizes of the local problem");
  else
  {
  Edge<D, S, typename LS::data_type> e;
  O o;
  e.geometry = o.geo = make_geo<D, S>(kind);
  o.tau = taus[n_tau > 1 ? vf_concretize_(vf_int_("tau", 0, n_tau - 1)) : 1];
  o.t = 0.75;
  set_types(o, e, mask);
  sym4(g_f, "f");
  sym4(g_g, "g");
  sym4(g_g2, "g2");
  sym4(g_a, "a");
  auto lam = sym_arr<2 * D, 2 * O::nb>("lambda");
  const auto lam0 = lam;
  auto out = sym_arr<2 * D, 2 * O::nb>("out");
  const LS ls(o.tau);
  o.assemble();
  auto types = ls.node_types(e);
  for (unsigned f = 0; f < 2 * D; ++f)
    vf_assert_(types[f] == (o.dir[f] ? 1u : 0u), "node_types marks exactly the Dirichlet faces");
  if (what & LIN)
  {
    auto& r = ls.trace_to_flux(lam, out, e, o.t);
    vf_assert_(&r == &out, "trace_to_flux returns its output argument");
    near(out, o.flux(o.solve(lam, false), &lam0), "trace_to_flux is the normal flux of the local solution");
  }
  if (what & RES)
  {
    ls.residual_flux(lam, out, e, o.t);
    near(out, o.flux(o.solve(lam, true), &lam0), "residual_flux is the normal flux of the local solution with all data");
  }
  if (what & MASS)
  {
    ls.trace_to_mass_flux(lam, out, e, o.t);
    near(out, o.flux(o.mass(o.solve(lam, false)), nullptr), "trace_to_mass_flux");
    ls.total_numerical_flux_mass(lam, out, e, o.t);
    near(out, o.flux(o.mass(o.solve(lam, true)), nullptr), "total_numerical_flux_mass");
  }
  if (what & BULK)
  {
    std::array<float, 2> ab{0.25f, 1.f};
    check_bulk<O>(ls.bulk_values(ab, lam, e, o.t), ab, o.solve(lam, true), D);
  }
  near(lam, lam0, "the trace is not modified");
#ifndef NDEBUG
  // errors() asserts that its (quadratic) result is not negative: decided for one symbolic factor of all data
  if (what & ERR)
    one_factor(lam);
#endif
  if (what & ERR)
  {
    const auto lam0 = lam;
    auto r = ls.errors(lam, e, o.t);
    vf_near_(r[0], o.error(o.solve(lam, true)), 1e-7, "errors is the squared L2 error of the local solution");
    near(lam, lam0, "the trace is not modified");
  }
  }
}
VF_ENTRY(q_bilaplacian_1d)
{
  bilaplacian<1, 2, 1>(LIN | RES | MASS | ERR | BULK, 1, 1);
}
VF_ENTRY(q_bilaplacian_1d_tau)
{
  bilaplacian<1, 1, 1>(LIN | RES | MASS | ERR | BULK, 1, 3, 6);
}
VF_ENTRY(q_bilaplacian_1d_p2)
{
  bilaplacian<1, 1, 2>(LIN | RES | MASS | ERR | BULK, 1, 1, 9);
}
VF_ENTRY(q_bilaplacian_2d_skew)
{
  bilaplacian<2, 3, 1>(LIN | RES | MASS | ERR | BULK, 1, 1, 0x1c);
}
VF_ENTRY(q_bilaplacian_2d_unit)
{
  bilaplacian<2, 2, 1>(LIN | RES | MASS, 0, 1, 0xc9);
}
VF_ENTRY(q_bilaplacian_2d_a)
{
  bilaplacian<2, 3, 1>(LIN | RES | MASS | ERR | BULK, 1, 2, 0xb1);
}
VF_ENTRY(q_bilaplacian_2d_p2)
{
  bilaplacian<2, 2, 2>(LIN | RES | ERR, 1, 1, 0x36);
}
VF_ENTRY(q_bilaplacian_3d)
{
  bilaplacian<3, 3, 1>(LIN | RES, 1, 1, 0x0d2);
}
#ifdef VF_THOROUGH
VF_ENTRY(t_bilaplacian_1d_tau)
{
  bilaplacian<1, 3, 1>(LIN | RES | MASS | ERR | BULK, 1, 3);
}
VF_ENTRY(t_bilaplacian_1d_p2)
{
  bilaplacian<1, 2, 2>(LIN | RES | MASS | ERR | BULK, 1, 3);
}
VF_ENTRY(t_bilaplacian_2d_b)
{
  bilaplacian<2, 2, 1>(LIN | RES | MASS | ERR | BULK, 1, 3, 0x27);
}
#endif
VF_ENTRY(q_interface_0) { check_interface<LocalSolver::Bilaplacian<1, 2, 5, ParB>>(1, 2, 2, 1); }
VF_ENTRY(q_interface_1) { check_interface<LocalSolver::Bilaplacian<2, 1, 3, ParB>>(2, 4, 3, 1); }
VF_ENTRY(q_interface_2) { check_interface<LocalSolver::Bilaplacian<3, 2, 5, ParB>>(3, 18, 4, 1); }
