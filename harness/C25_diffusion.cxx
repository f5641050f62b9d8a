// VF-BOUNDS: DiffusionEigs: hyEdge_dim 1..3, polynomial degree 1..2, unit cube and one skewed, rotated, shifted parallelepiped; tau in {1, 1/2, 3}; coefficient 2 + x/4 - y/8; eigenvalue (point of linearisation) 0.75; every trace, linearisation trace and eigenvalue direction in [-1,1], affine initial and reference functions with coefficients in [-1,1], every choice of Dirichlet faces (1D and 2D; selected in 3D)
// VF-ASSUME: TPP (shape functions, quadrature) is the stand-in models/third_party/tpp; LAPACK gesv solves exactly; the diffusion coefficient does not depend on time
// VF-CONFIG: quick debug
// VF-CONFIG: quick ndebug -DNDEBUG
#include "lsol_ldg.inc"
#include <HyperHDG/local_solver/diffusion_eigs_ldgh.hxx>
template <unsigned S, typename F>
struct Par
{
  typedef Point<S, F> P;
  static constexpr std::array<unsigned, 2> dirichlet_nodes{1, 3};
  static constexpr std::array<unsigned, 0> neumann_nodes{};
  static F inverse_diffusion_coeff(const P& x, const F t = 0.) { return kinv(x, S, t); }
  static F right_hand_side(const P& x, const F t = 0.) { return affine(g_f, x, S, t); }
  static F dirichlet_value(const P& x, const F t = 0.) { return affine(g_g, x, S, t); }
  static F analytic_result(const P& x, const F t = 0.) { return affine(g_a, x, S, t); }
  static F initial(const P& x, const F t = 0.) { return affine(g_i, x, S, t); }
};
template <unsigned D, unsigned S, unsigned p>
void eigs(unsigned kind, unsigned n_tau, int mask = -1)
{
  typedef LocalSolver::DiffusionEigs<D, p, 2 * p + 1, Par> LS;
  typedef Oracle<D, S, p> O;
  if constexpr (!(LS::n_glob_dofs_per_node() == O::nb && LS::system_dimension() == D + 1))
    vf_assert_(false, "sizes of the local problem");
  else
  {
  Edge<D, S, typename LS::data_type> e;
  O o;
  set_k(2., 0.25, -0.125, 0.);
  e.geometry = o.geo = make_geo<D, S>(kind);
  o.tau = taus[n_tau > 1 ? vf_concretize_(vf_int_("tau", 0, n_tau - 1)) : 1];
  const double eig = 0.75;
  o.t = o.eig = eig;
  for (unsigned f = 0; f < 2 * D; ++f)
  {
    unsigned d = mask < 0 ? vf_concretize_(vf_int_("descriptor", 0, mask == -1 ? 3 : 1)) : (mask >> f & 1);
    e.node_descriptor[f] = d;
    o.dir[f] = d % 2;
  }
  sym4(g_a, "a");
  sym4(g_i, "i");
  typedef LamArr<2 * D, O::nb> L;
  auto lam = sym_arr<2 * D, O::nb>("lambda"), lin = sym_arr<2 * D, O::nb>("point");
  const auto lam0 = lam, lin0 = lin;
  auto out = sym_arr<2 * D, O::nb>("out");
  const LS ls(o.tau);
  o.assemble();
  auto types = ls.node_types(e);
  for (unsigned f = 0; f < 2 * D; ++f)
    vf_assert_(types[f] == (o.dir[f] ? 1u : 0u), "node_types marks exactly the Dirichlet faces");
  auto& r = ls.trace_to_flux(lam, out, e, eig);
  vf_assert_(&r == &out, "trace_to_flux returns its output argument");
  auto fl = o.flux(o.solve(lam, false), &lam0);
  near(out, fl, "trace_to_flux is the normal flux of the local solution with the given eigenvalue");
  const double de = vf_real_("d_eig", -1., 1.);
  ls.jacobian_of_trace_to_flux(lam, out, de, lin, eig, e);
  auto dfl = o.flux(o.mass(o.solve(lin, false)), (L*)nullptr);
  for (unsigned f = 0; f < 2 * D; ++f)
    for (unsigned j = 0; j < O::nb; ++j)
      vf_near_(out[f][j], fl[f][j] + de * dfl[f][j], 1e-8, "jacobian_of_trace_to_flux is the derivative");
  near(lin, lin0, "the point of linearisation is not modified");
  std::array<float, 2> ab{0.25f, 1.f};
  auto b = ls.bulk_values(ab, lam, e, eig);
  auto s = o.solve(lam, false);
  for (unsigned pt = 0; pt < 1u << D; ++pt)
  {
    std::array<double, D> xi;
    for (unsigned d = 0; d < D; ++d)
      xi[d] = ab[pt >> d & 1];
    for (unsigned c = 0; c <= D; ++c)
      vf_near_(b[c][pt], O::val(s, xi, c * O::n), 1e-3, "bulk_values evaluates the local solution");
  }
  out = sym_arr<2 * D, O::nb>("out");
  ls.make_initial(out, e, o.t);
  for (unsigned f = 0; f < 2 * D; ++f)
    for (unsigned j = 0; j < O::nb; ++j)
    {
      double v = 0.;
      if (!o.dir[f])
        o.bdr(f, [&](const auto& q) { v += q.w / o.geo.face_area(f) * affine(g_i, o.geo.phys(q.xi), S, o.t) * O::psi(j, f, q.xi); });
      vf_near_(out[f][j], v, 1e-8, "make_initial: trace of the initial value");
    }
  auto er = ls.errors(lam, e, eig);
  vf_near_(er[0], o.error(s), 1e-7, "errors is the squared L2 error of the local solution");
  near(lam, lam0, "the trace is not modified");
  }
}
VF_ENTRY(q_eigs_1d)
{
  eigs<1, 2, 1>(1, 3);
}
VF_ENTRY(q_eigs_1d_p2)
{
  eigs<1, 1, 2>(1, 1);
}
VF_ENTRY(q_eigs_2d_all)
{
  eigs<2, 3, 1>(1, 1, -2);
}
VF_ENTRY(q_eigs_2d_unit)
{
  eigs<2, 2, 1>(0, 1, 8);
}
VF_ENTRY(q_eigs_2d_p2)
{
  eigs<2, 2, 2>(1, 1, 9);
}
VF_ENTRY(q_eigs_3d)
{
  eigs<3, 3, 1>(1, 1, 17);
}
#ifdef VF_THOROUGH
VF_ENTRY(t_eigs_2d_all)
{
  eigs<2, 3, 1>(1, 3, -1);
}
VF_ENTRY(t_eigs_2d_p2)
{
  eigs<2, 3, 2>(1, 3, 6);
}
VF_ENTRY(t_eigs_3d)
{
  eigs<3, 3, 1>(1, 1, -2);
}
#endif
VF_ENTRY(q_interface_0) { check_interface<LocalSolver::DiffusionEigs<1, 2, 5, Par>>(1, 1, 2, 1); }
VF_ENTRY(q_interface_1) { check_interface<LocalSolver::DiffusionEigs<2, 1, 3, Par>>(2, 2, 3, 1); }
VF_ENTRY(q_interface_2) { check_interface<LocalSolver::DiffusionEigs<3, 2, 5, Par>>(3, 9, 4, 1); }
