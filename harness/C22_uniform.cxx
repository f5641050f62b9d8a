// VF-BOUNDS: DiffusionUniform: hyEdge_dim 1..3, polynomial degree 1..2, tau in {1, 1/2, 3}; every trace in [-1,1]^n
// VF-ASSUME: TPP (shape functions, quadrature) is the stand-in models/third_party/tpp; LAPACK gesv solves exactly
// VF-CONFIG: quick debug
// VF-CONFIG: quick ndebug -DNDEBUG
#include "lsol_ldg.inc"
#include <HyperHDG/local_solver/diffusion_uniform_ldgh.hxx>
template <unsigned D, unsigned p>
void uniform(unsigned n_tau)
{
  typedef LocalSolver::DiffusionUniform<D, p, 2 * p + 1> LS;
  typedef Oracle<D, D, p> O;
  if constexpr (!(LS::n_glob_dofs_per_node() == O::nb && LS::system_dimension() == D + 1))
    vf_assert_(false, "sizes of the local problem");
  else
  {
  O o;
  o.geo = make_geo<D, D>(0);
  set_k(1., 0., 0., 0.);
  o.tau = taus[n_tau > 1 ? vf_concretize_(vf_int_("tau", 0, n_tau - 1)) : 2];
  o.t = 0.;
  o.dir.fill(false);
  auto lam = sym_arr<2 * D, O::nb>("lambda");
  const auto lam0 = lam;
  auto out = sym_arr<2 * D, O::nb>("out"), out2 = sym_arr<2 * D, O::nb>("out");
  const LS ls(o.tau);
  o.assemble();
  auto s = o.solve(lam, false);
  auto fl = o.flux(s, &lam0);
  ls.trace_to_flux(lam, out);
  near(out, fl, "trace_to_flux is the normal flux of the local solution");
  ls.residual_flux(lam, out2);
  near(out2, fl, "residual_flux is trace_to_flux for a problem without data");
  std::array<float, 2> ab{0.25f, 1.f};
  auto b = ls.bulk_values(ab, lam);
  for (unsigned pt = 0; pt < 1u << D; ++pt)
  {
    std::array<double, D> xi;
    for (unsigned d = 0; d < D; ++d)
      xi[d] = ab[pt >> d & 1];
    for (unsigned c = 0; c <= D; ++c)
      vf_near_(b[c][pt], O::val(s, xi, c * O::n), 1e-3, "bulk_values evaluates the local solution");
  }
  // a second call sees the same matrix
  ls.trace_to_flux(lam, out);
  near(out, fl, "a local solver can be used repeatedly");
  near(lam, lam0, "the trace is not modified");
  }
}
VF_ENTRY(q_uniform_1d)
{
  uniform<1, 1>(3);
}
VF_ENTRY(q_uniform_1d_p2)
{
  uniform<1, 2>(1);
}
VF_ENTRY(q_uniform_2d)
{
  uniform<2, 1>(1);
}
VF_ENTRY(q_uniform_2d_tau)
{
  uniform<2, 1>(3);
}
VF_ENTRY(q_uniform_2d_p2)
{
  uniform<2, 2>(1);
}
VF_ENTRY(q_uniform_3d)
{
  uniform<3, 1>(1);
}
VF_ENTRY(q_interface_0) { check_interface<LocalSolver::DiffusionUniform<1, 2, 5>>(1, 1, 2, 1); }
VF_ENTRY(q_interface_1) { check_interface<LocalSolver::DiffusionUniform<2, 1, 3>>(2, 2, 3, 1); }
VF_ENTRY(q_interface_2) { check_interface<LocalSolver::DiffusionUniform<3, 2, 5>>(3, 9, 4, 1); }
