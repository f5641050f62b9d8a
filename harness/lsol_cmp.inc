// Compares a local solver for a (mixed) diffusion problem with the independent discretisation.
#pragma once
#include "lsol_ldg.inc"
template <unsigned S, typename F>
struct Par
{
  typedef Point<S, F> P;
  static constexpr std::array<unsigned, 2> dirichlet_nodes{1, 3};
  static constexpr std::array<unsigned, 0> neumann_nodes{};
  static F inverse_diffusion_coeff(const P& x, const F t = 0.) { return kinv(x, S, t); }
  static F diffusion_coeff(const P& x, const F t = 0.) { return affine(g_d, x, S, t); }
  static F reaction_rate(const P& x, const F t = 0.) { return affine(g_r, x, S, t); }
  static SmallVec<S, F> advective_velocity(const P& x, const F t = 0.)
  {
    SmallVec<S, F> v;
    for (unsigned i = 0; i < S; ++i)
      v[i] = affine(g_v[i], x, S, t);
    return v;
  }
  static F right_hand_side(const P& x, const F t = 0.) { return affine(g_f, x, S, t); }
  static F dirichlet_value(const P& x, const F t = 0.) { return affine(g_g, x, S, t); }
  static F analytic_result(const P& x, const F t = 0.) { return affine(g_a, x, S, t); }
  static F initial(const P& x, const F t = 0.) { return affine(g_i, x, S, t); }
};
enum
{
  LIN = 1,
  RES = 2,
  MASS = 4,
  ERR = 8,
  BULK = 16
};
template <typename LS, typename O, unsigned D, unsigned S, unsigned p>
void compare(O& o, unsigned what, unsigned kind, unsigned n_tau, int mask = -1)
{
  if constexpr (!(LS::n_glob_dofs_per_node() == O::nb && LS::system_dimension() == O::n_comp))
    vf_assert_(false, "sizes of the local problem");
  else
  {
  Edge<D, S, typename LS::data_type> e;
  e.geometry = o.geo = make_geo<D, S>(kind);
  if (n_tau == 99)
    o.tau = vf_real_("tau", 0.25, 4.);
  else
    o.tau = taus[n_tau > 1 ? vf_concretize_(vf_int_("tau", 0, n_tau - 1)) : 0];
  o.t = 0.75;
  for (unsigned f = 0; f < 2 * D; ++f)
  {
    unsigned d = mask < 0 ? vf_concretize_(vf_int_("descriptor", 0, mask == -1 ? 3 : 1)) : (mask >> f & 1);
    e.node_descriptor[f] = d;
    o.dir[f] = d % 2;
  }
  sym4(g_f, "f");
  sym4(g_g, "g");
  sym4(g_a, "a");
  auto lam = sym_arr<2 * D, O::nb>("lambda");
  const auto lam0 = lam;
  auto out = sym_arr<2 * D, O::nb>("out");
  LS ls(o.tau);
  o.assemble();
  auto types = ls.node_types(e);
  for (unsigned f = 0; f < 2 * D; ++f)
    vf_assert_(types[f] == (o.dir[f] ? 1u : 0u), "node_types marks exactly the Dirichlet faces");
  if (what & LIN)
  {
    auto& r = ls.trace_to_flux(lam, out, e, o.t);
    vf_assert_(&r == &out, "trace_to_flux returns its output argument");
    near(out, o.flux(o.solve(lam, false), &lam0), "trace_to_flux is the normal flux of the local solution");
  }
  if (what & RES)
  {
    ls.residual_flux(lam, out, e, o.t);
    near(out, o.flux(o.solve(lam, true), &lam0), "residual_flux is the normal flux of the local solution with all data");
  }
  if constexpr (requires { &LS::template trace_to_mass_flux<Edge<D, S, typename LS::data_type>, decltype(out), decltype(out)>; })
  if (what & MASS)
  {
    ls.trace_to_mass_flux(lam, out, e, o.t);
    near(out, o.flux(o.mass(o.solve(lam, false)), (LamArr<2 * D, O::nb>*)nullptr), "trace_to_mass_flux");
    ls.total_numerical_flux_mass(lam, out, e, o.t);
    near(out, o.flux(o.mass(o.solve(lam, true)), (LamArr<2 * D, O::nb>*)nullptr), "total_numerical_flux_mass");
  }
  if (what & ERR)
  {
    auto r = ls.errors(lam, e, o.t);
    vf_near_(r[0], o.error(o.solve(lam, true)), 1e-7, "errors is the squared L2 error of the local solution");
  }
  if (what & BULK)
  {
    std::array<float, 2> ab{0.25f, 1.f};
    auto b = ls.bulk_values(ab, lam, e, o.t);
    auto s = o.solve(lam, true);
    for (unsigned pt = 0; pt < 1u << D; ++pt)
    {
      std::array<double, D> xi;
      for (unsigned d = 0; d < D; ++d)
        xi[d] = ab[pt >> d & 1];
      for (unsigned c = 0; c < O::n_comp; ++c)
        vf_near_(b[c][pt], O::val(s, xi, c * O::n), 1e-3, "bulk_values evaluates the local solution");
    }
  }
  near(lam, lam0, "the trace is not modified");
  }
}
