// C21: global loops of the eigenvalue problems.
// VF-BOUNDS: hyperedges of dimension 1..3 with 1..2 dofs per hypernode, up to 3 hyperedges with arbitrary incidence of up to 5 hypernodes (dimension 2 and 3: several patterns; one fixed pattern with 9 hyperedges), symbolic local operators, vectors, shifts and eigenvalues; arbitrary hyperface types 0..2; calls before and after a refinement
// VF-ASSUME: topology, geometry, node descriptor and local solver are stand-ins with the documented interface
// VF-CONFIG: quick debug
// VF-CONFIG: quick ndebug -DNDEBUG
#include "loop.inc"
#include <HyperHDG/global_loop/mass_approx_eigenvalue.hxx>
#include <HyperHDG/global_loop/nonlinear_eigenvalue.hxx>
#include <HyperHDG/global_loop/shifted_inverse_eigenvalue.hxx>
template <unsigned H, unsigned D, typename F, bool W>
struct ESolver : MSolver<H, D, F, W>
{
  using B = MSolver<H, D, F, W>;
  using typename B::Loc;
  using B::B;
  template <typename Edge>
  std::array<unsigned, 2 * H> node_types(Edge& e) const
  {
    std::array<unsigned, 2 * H> r;
    for (unsigned i = 0; i < 2 * H; ++i)
      r[i] = e.node_descriptor[i];
    return r;
  }
  // directional derivative at (val, eig_val) in direction (x, eig): (1 + eig_val) L x + eig L val
  static void jac(unsigned k, const Loc& x, Loc& y, F eig, const Loc& val, F eig_val)
  {
    auto& l = B::L::get();
    l.apply(k, l.L, x, F(1.) + eig_val, F(0.), y);
    l.apply(k, l.L, val, eig, F(0.), y);
  }
  template <typename Edge>
  Loc& jacobian_of_trace_to_flux(Loc& x, Loc& y, const F eig, Loc& val, const F eig_val, Edge& e) const requires(W)
  {
    B::fresh(y);
    jac(B::visit(e), x, y, eig, val, eig_val);
    return y;
  }
  Loc& jacobian_of_trace_to_flux(Loc& x, Loc& y, const F eig, Loc& val, const F eig_val) const requires(!W)
  {
    B::fresh(y);
    ++B::L::get().visits[0];
    jac(0, x, y, eig, val, eig_val);
    return y;
  }
  template <typename Edge>
  Loc& make_initial(Loc& y, Edge& e, const F eig = 0.) const requires(W)
  {
    B::visit(e);
    for (auto& q : y)
      for (auto& p : q)
        p = F(2.) * p + eig;
    return y;
  }
  Loc& make_initial(Loc& y, const F eig = 0.) const requires(!W)
  {
    ++B::L::get().visits[0];
    for (auto& q : y)
      for (auto& p : q)
        p = F(2.) * p + eig;
    return y;
  }
};
template <unsigned H, unsigned D, typename F, bool W>
using Mass = GlobalLoop::MassApproxEigenvalue<MTopo<H>, MGeom<H>, MNode<H>, ESolver<H, D, F, W>, std::vector<F>>;
template <unsigned H, unsigned D, typename F, bool W>
using Nonlin = GlobalLoop::NonlinearEigenvalue<MTopo<H>, MGeom<H>, MNode<H>, ESolver<H, D, F, W>, std::vector<F>>;
template <unsigned H, unsigned D, typename F, bool W>
using Shift = GlobalLoop::ShiftedInverseEigenvalue<MTopo<H>, MGeom<H>, MNode<H>, ESolver<H, D, F, W>, std::vector<F>>;
template <typename Loop, unsigned H, unsigned D, typename F, bool W>
void flux(unsigned nn, unsigned ne, int what, int ctor)
{
  Ref<H, D, F> r(draw_graph<H>(nn, ne), !W);
  const F t = vf_realT<F>("t", -5., 5.);
  Loop loop = ctor == 0 ? Loop(r.s) : ctor == 1 ? Loop(r.s, 2.5) : Loop(r.s, 7., 2.5);
  vf_assert_(loop.size_of_system() == r.n, "size of the system");
  const std::vector<F> x(r.x);
  if (what == 0)
  {
    r.same(loop.trace_to_flux(x, t), r.assemble(r.loc.L, F(1.) + t, F(0.)), "operator is the sum of the local operators");
    r.visited(1);
    r.same(loop.trace_to_flux(x), r.assemble(r.loc.L, F(1.), F(0.)), "operator with the default parameter");
  }
  if constexpr (requires { loop.trace_to_mass_flux(x, t); })
    if (what == 1)
    {
      r.same(loop.trace_to_mass_flux(x, t), r.assemble(r.loc.M, F(1.) - t, F(0.)), "mass operator is the sum of the local mass operators");
      r.visited(1);
      r.same(loop.trace_to_mass_flux(x), r.assemble(r.loc.M, F(1.), F(0.)), "mass operator with the default parameter");
    }
  if constexpr (requires { loop.jacobian_of_trace_to_flux(x, t, x, t); })
  {
    if (what == 2)
    {
      std::vector<F> val(r.n);
      for (auto& v : val)
        v = vf_realT<F>("val", -10., 10.);
      const std::vector<F> v0(val);
      const F ev = vf_realT<F>("ev", -5., 5.);
      auto y = loop.jacobian_of_trace_to_flux(x, t, val, ev);
      auto ref = r.assemble(r.loc.L, F(1.) + ev, F(0.));
      std::swap(r.x, val);
      const auto ref2 = r.assemble(r.loc.L, t, F(0.));
      std::swap(r.x, val);
      for (unsigned i = 0; i < r.n; ++i)
        ref[i] += ref2[i];
      r.same(y, ref, "the Jacobian is the sum of the local Jacobians at the given values");
      r.visited(1);
      for (unsigned i = 0; i < r.n; ++i)
        vf_assert_(val[i] == v0[i], "the point of linearisation is not changed");
    }
    if (what == 3)
    {
      auto y = loop.make_initial(x, t);
      std::vector<F> ref(r.n, F(0.));
      for (unsigned e = 0; e < ne; ++e)
        for (unsigned i = 0; i < 2 * H; ++i)
          for (unsigned a = 0; a < D; ++a)
            ref[r.dof(e, i, a)] = F(2.) * x[r.dof(e, i, a)] + t;
      r.same(y, ref, "initial values are those of the local solver at the dofs of every hyperedge, zero elsewhere");
      r.visited(1);
    }
  }
  for (unsigned i = 0; i < r.n; ++i)
    vf_assert_(x[i] == r.x[i], "the argument is not changed");
}
#define CASE(N, LOOP, H, D, F, W, NN, NE, WHAT, CTOR) \
  VF_ENTRY(q_##N) { flux<LOOP<H, D, F, W>, H, D, F, W>(NN, NE, WHAT, CTOR); }
CASE(mass_flux_1, Mass, 1, 1, double, true, 3, 2, 0, 0)
CASE(mass_flux_1u, Mass, 1, 2, float, false, 3, 2, 0, 1)
CASE(mass_flux_2, Mass, 2, 1, double, true, 4, 2, 0, 2)
CASE(mass_mass_1, Mass, 1, 2, double, true, 3, 2, 1, 2)
CASE(mass_mass_1u, Mass, 1, 1, double, false, 2, 3, 1, 0)
CASE(mass_mass_2, Mass, 2, 2, double, true, 5, 1, 1, 1)
CASE(shift_flux_1, Shift, 1, 2, double, true, 3, 2, 0, 2)
CASE(shift_flux_1u, Shift, 1, 1, double, false, 3, 2, 0, 0)
CASE(shift_flux_2, Shift, 2, 1, double, true, 5, 1, 0, 1)
CASE(non_flux_1, Nonlin, 1, 1, double, true, 3, 2, 0, 1)
CASE(non_flux_1u, Nonlin, 1, 2, double, false, 3, 2, 0, 0)
CASE(non_flux_2, Nonlin, 2, 1, double, true, 5, 1, 0, 2)
CASE(non_jac_1, Nonlin, 1, 2, double, true, 3, 2, 2, 0)
CASE(non_jac_1u, Nonlin, 1, 1, double, false, 2, 3, 2, 1)
CASE(non_jac_2, Nonlin, 2, 1, double, true, 4, 2, 2, 0)
CASE(non_init_1, Nonlin, 1, 2, double, true, 3, 2, 3, 0)
CASE(non_init_1u, Nonlin, 1, 1, double, false, 3, 2, 3, 0)
CASE(mass_flux_2u, Mass, 2, 2, double, false, 4, 1, 0, 0)
CASE(mass_mass_2u, Mass, 2, 1, double, false, 4, 1, 1, 0)
CASE(shift_flux_2u, Shift, 2, 1, double, false, 4, 1, 0, 0)
CASE(non_flux_2u, Nonlin, 2, 1, double, false, 4, 1, 0, 0)
CASE(non_jac_2u, Nonlin, 2, 1, double, false, 4, 1, 2, 0)
CASE(non_init_2, Nonlin, 2, 2, double, true, 4, 1, 3, 0)
CASE(non_init_2u, Nonlin, 2, 1, double, false, 4, 1, 3, 0)
CASE(mass_flux_3, Mass, 3, 1, double, true, 7, 1, 0, 0)
CASE(mass_mass_3, Mass, 3, 1, double, true, 7, 1, 1, 0)
CASE(shift_flux_3, Shift, 3, 1, double, true, 7, 1, 0, 0)
CASE(non_flux_3, Nonlin, 3, 1, double, true, 7, 1, 0, 0)
CASE(non_jac_3, Nonlin, 3, 1, double, true, 7, 1, 2, 0)
CASE(non_init_3, Nonlin, 3, 1, double, true, 7, 1, 3, 0)
CASE(mass_mass_many, Mass, 1, 2, double, true, 10, 9, 1, 0)
CASE(shift_flux_many, Shift, 1, 2, double, true, 10, 9, 0, 0)
CASE(non_jac_many, Nonlin, 1, 1, double, true, 9, 9, 2, 0)
CASE(non_init_many, Nonlin, 1, 1, double, true, 9, 9, 3, 0)
// Dirichlet indices: all dofs of hypernodes that some hyperedge declares to be of type 1
template <typename Loop, unsigned H, unsigned D>
void dirichlet(unsigned nn, unsigned ne)
{
  const Spec<H> s = draw_graph<H>(nn, ne);
  auto& types = MNode<H>::types;
  for (auto& t : types)
    for (auto& v : t)
      v = 0;
  for (unsigned e = 0; e < ne; ++e)
    for (unsigned i = 0; i < 2 * H; ++i)
      types[e][i] = H == 1 || i == 1 ? vf_int_("type", 0, 2) : i == 3 ? 1 : 0;
  Loop loop(s);
  for (int round = 0; round < 2; ++round)
  {
    const std::vector<unsigned> d = loop.dirichlet_indices();
    for (unsigned i = 0; i < d.size(); ++i)
      vf_assert_(d[i] < nn * D && (i == 0 || d[i - 1] < d[i]), "Dirichlet indices are sorted and unique");
    for (unsigned k = 0; k < nn * D; ++k)
    {
      bool is = false, found = false;
      for (unsigned e = 0; e < ne; ++e)
        for (unsigned i = 0; i < 2 * H; ++i)
          is |= s.node[e][i] == k / D && types[e][i] == 1;
      for (auto i : d)
        found |= i == k;
      vf_assert_(is == found, "Dirichlet indices are exactly the dofs of hypernodes of Dirichlet type");
    }
    // the types may have changed when the indices are requested again
    for (unsigned e = 0; e < ne; ++e)
      for (unsigned i = 0; i < 2 * H; ++i)
        types[e][i] = types[e][i] == 1 ? 2 : types[e][i];
    types[0][0] = vf_int_("type", 0, 1);
  }
}
VF_ENTRY(q_dir_mass) { dirichlet<Mass<1, 1, double, true>, 1, 1>(3, 2); }
VF_ENTRY(q_dir_mass2) { dirichlet<Mass<2, 1, double, true>, 2, 1>(4, 1); }
VF_ENTRY(q_dir_shift3) { dirichlet<Shift<3, 1, double, true>, 3, 1>(7, 1); }
VF_ENTRY(q_dir_many) { dirichlet<Mass<2, 2, double, true>, 2, 2>(12, 8); }
VF_ENTRY(q_dir_shift) { dirichlet<Shift<1, 2, double, true>, 1, 2>(3, 2); }
template <typename Loop>
void refine()
{
  const Spec<1> s = draw_graph<1>(2, 1);
  Loop loop(s);
  const unsigned l = vf_concretize_(vf_int_("level", 1, 3));
  loop.set_refinement(l);
  vf_assert_(loop.get_refinement() == l && loop.size_of_system() == 2 * l, "size after refinement");
  if constexpr (requires { loop.dirichlet_indices(); })
  {
    for (auto& t : MNode<1>::types)
      t[0] = t[1] = 1;
    vf_assert_(loop.dirichlet_indices().size() == 2 * l, "Dirichlet indices after refinement");
    loop.set_refinement(1);
    vf_assert_(loop.dirichlet_indices().size() == 2, "Dirichlet indices after another refinement");
  }
}
VF_ENTRY(q_refine_m) { refine<Mass<1, 1, double, true>>(); }
VF_ENTRY(q_refine_n) { refine<Nonlin<1, 1, double, true>>(); }
VF_ENTRY(q_refine_s) { refine<Shift<1, 1, double, true>>(); }
#ifndef NDEBUG
template <typename Loop>
void size(Loop&& loop)
{
  Local<1, 1, double>::get().draw(1, false);
  const std::vector<double> x(vf_concretize_(vf_int_("len", 0, 2)), 1.);
  vf_expect_abort_(true);
  if constexpr (requires { loop.trace_to_mass_flux(x); })
    if (vf_concretize_(vf_int_("mass", 0, 1)))
      loop.trace_to_mass_flux(x);
  loop.trace_to_flux(x);
  vf_expect_abort_(false);  // the missing entries were not needed
}
VF_ENTRY(q_size_m) { size(Mass<1, 1, double, true>(draw_graph<1>(3, 1))); }
VF_ENTRY(q_size_n) { size(Nonlin<1, 1, double, true>(draw_graph<1>(3, 1))); }
VF_ENTRY(q_size_s) { size(Shift<1, 1, double, true>(draw_graph<1>(3, 1))); }
#endif
