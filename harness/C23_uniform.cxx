// VF-BOUNDS: BilaplacianUniform: hyEdge_dim 1..3, polynomial degree 1..2, tau in {1, 1/2, 3}; every trace in [-1,1]^n
// VF-ASSUME: TPP (shape functions, quadrature) is the stand-in models/third_party/tpp; LAPACK gesv solves exactly
// VF-CONFIG: quick debug
// VF-CONFIG: quick ndebug -DNDEBUG
#include "lsol_bil.inc"
#include <HyperHDG/local_solver/bilaplacian_uniform_ldgh.hxx>
template <unsigned D, unsigned p>
void uniform(unsigned n_tau)
{
  typedef LocalSolver::BilaplacianUniform<D, p, 2 * p + 1> LS;
  typedef OracleB<D, D, p> O;
  if constexpr (!(LS::n_glob_dofs_per_node() == 2 * O::nb))
    vf_assert_(false, "sizes of the local problem");
  else
  {
  O o;
  o.geo = make_geo<D, D>(0);
  set_k(1., 0., 0., 0.);
  o.tau = taus[n_tau > 1 ? vf_concretize_(vf_int_("tau", 0, n_tau - 1)) : 2];
  o.t = 0.;
  o.swapped = false;  // this class numbers fluxes like traces
  o.dir.fill(false);
  o.dir2.fill(false);
  auto lam = sym_arr<2 * D, 2 * O::nb>("lambda");
  const auto lam0 = lam;
  auto out = sym_arr<2 * D, 2 * O::nb>("out"), out2 = sym_arr<2 * D, 2 * O::nb>("out");
  const LS ls(o.tau);
  o.assemble();
  auto s = o.solve(lam, false);
  auto fl = o.flux(s, &lam0);
  auto& r = ls.trace_to_flux(lam, out);
  vf_assert_(&r == &out, "trace_to_flux returns its output argument");
  near(out, fl, "trace_to_flux is the normal flux of the local solution");
  ls.residual_flux(lam, out2);
  near(out2, fl, "residual_flux is trace_to_flux for a problem without data");
  std::array<float, 2> ab{0.25f, 1.f};
  check_bulk<O>(ls.bulk_values(ab, lam), ab, s, D);
  near(lam, lam0, "the trace is not modified");
  }
}
VF_ENTRY(q_uniform_1d)
{
  uniform<1, 1>(3);
}
VF_ENTRY(q_uniform_1d_p2)
{
  uniform<1, 2>(1);
}
VF_ENTRY(q_uniform_2d)
{
  uniform<2, 1>(1);
}
VF_ENTRY(q_uniform_2d_p2)
{
  uniform<2, 2>(1);
}
VF_ENTRY(q_uniform_3d)
{
  uniform<3, 1>(1);
}
#ifdef VF_THOROUGH
VF_ENTRY(t_uniform_1d_p2)
{
  uniform<1, 2>(3);
}
VF_ENTRY(t_uniform_2d)
{
  uniform<2, 1>(3);
}
#endif
VF_ENTRY(q_interface_0) { check_interface<LocalSolver::BilaplacianUniform<1, 2, 5>>(1, 2, 2, 1); }
VF_ENTRY(q_interface_1) { check_interface<LocalSolver::BilaplacianUniform<2, 1, 3>>(2, 4, 3, 1); }
VF_ENTRY(q_interface_2) { check_interface<LocalSolver::BilaplacianUniform<3, 2, 5>>(3, 18, 4, 1); }
