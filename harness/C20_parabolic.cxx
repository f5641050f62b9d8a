// C20: time-dependent global loop.
// VF-BOUNDS: hyperedges of dimension 1..3 with 1..2 dofs per hypernode, up to 3 hyperedges with arbitrary incidence of up to 5 hypernodes (dimension 2 and 3: several patterns; one fixed pattern with 9 hyperedges), symbolic local operators, vectors and times; sequences of two time steps
// VF-ASSUME: topology, geometry, node descriptor and local solver are stand-ins with the documented interface
// VF-CONFIG: quick debug
// VF-CONFIG: quick ndebug -DNDEBUG
#include "loop.inc"
#include <HyperHDG/global_loop/parabolic.hxx>
template <unsigned H, unsigned D, typename F, bool W>
struct PSolver : MSolver<H, D, F, W>
{
  using B = MSolver<H, D, F, W>;
  using typename B::Loc;
  using B::B;
  // initial values of a hypernode only depend on the hypernode (they are set, not added), which the stand-in
  // achieves by taking them from the global table below
  static inline F init[16][D];
  static inline F uniform_data;
  template <typename Edge>
  Loc& make_initial(Loc& y, Edge& e, const F time = 0.) const requires(W)
  {
    B::visit(e);
    B::fresh(y);
    for (unsigned i = 0; i < 2 * H; ++i)
      for (unsigned a = 0; a < D; ++a)
        y[i][a] = init[e.topology.nodes[i]][a] * (F(1.) + time);
    e.data.value = 3. + time;
    return y;
  }
  Loc& make_initial(Loc& y, const F time = 0.) const requires(!W)
  {
    B::fresh(y);
    ++B::L::get().visits[0];
    for (unsigned i = 0; i < 2 * H; ++i)
      for (unsigned a = 0; a < D; ++a)
        y[i][a] = init[0][a] * (F(1.) + time);
    return y;
  }
  static F sum(unsigned e, const Loc& x)
  {
    F s = 0.;
    for (unsigned i = 0; i < 2 * H; ++i)
      for (unsigned a = 0; a < D; ++a)
        s += B::L::get().b[e][i][a] * x[i][a];
    return s;
  }
  template <typename Edge>
  void set_data(Loc& x, Edge& e, const F time = 0.) const requires(W)
  {
    const unsigned k = B::visit(e);
    e.data.value = 2. * e.data.value + sum(k, x) + time;
  }
  void set_data(Loc& x, const F time = 0.) const requires(!W)
  {
    ++B::L::get().visits[0];
    uniform_data += sum(0, x) + time;
  }
  template <typename Edge>
  Loc& residual_flux(Loc& x, Loc& y, Edge& e, const F time = 0.) const requires(W)
  {
    B::residual_flux(x, y, e, time);
    for (auto& q : y)
      for (auto& p : q)
        p += e.data.value;
    return y;
  }
  Loc& residual_flux(Loc& x, Loc& y, const F time = 0.) const requires(!W) { return B::residual_flux(x, y, time); }
};
template <unsigned H, unsigned D, typename F, bool W>
using Loop = GlobalLoop::Parabolic<MTopo<H>, MGeom<H>, MNode<H>, PSolver<H, D, F, W>, std::vector<F>>;
template <unsigned H, unsigned D, typename F, bool W>
struct Case : Ref<H, D, F>
{
  using Ref<H, D, F>::n;
  using Ref<H, D, F>::s;
  using Ref<H, D, F>::x;
  using Ref<H, D, F>::loc;
  int ctor;
  Loop<H, D, F, W> loop;
  Case(unsigned nn, unsigned ne, int c)
  : Ref<H, D, F>(draw_graph<H>(nn, ne), !W),
    ctor(c),
    loop(c == 0 ? Loop<H, D, F, W>(s) : c == 1 ? Loop<H, D, F, W>(s, 2.5) : Loop<H, D, F, W>(s, 7., 2.5))
  {
    vf_assert_(loop.size_of_system() == n, "size of the system");
    const std::vector<F> z = loop.zero_vector();
    vf_assert_(z.size() == n, "zero vector has the size of the system");
    for (auto v : z)
      vf_assert_(v == F(0.), "zero vector is zero");
  }
  F param() const { return ctor ? 2.5 : 1.; }
};
template <unsigned H, unsigned D, typename F, bool W>
void flux(unsigned nn, unsigned ne, int what, int ctor)
{
  Case<H, D, F, W> c(nn, ne, ctor);
  const F time = vf_realT<F>("time", -5., 5.);
  const std::vector<F> x(c.x);
  if (what == 0)
  {
    c.same(c.loop.trace_to_flux(x, time), c.assemble(c.loc.L, F(1.) + time, F(0.)), "operator is the sum of the local operators");
    c.visited(1);
    c.same(c.loop.trace_to_flux(x), c.assemble(c.loc.L, F(1.), F(0.)), "operator at the default time");
  }
  else if (what == 1)
  {
    c.same(c.loop.residual_flux(x, time), c.assemble(c.loc.L, F(1.) + time, c.param() + time), "residual is the sum of the local residuals");
    c.visited(1);
    c.same(c.loop.residual_flux(x), c.assemble(c.loc.L, F(1.), c.param()), "residual at the default time");
  }
  else if (what == 2)
  {
    F sum = 0.;
    for (unsigned e = 0; e < ne; ++e)
    {
      sum += time;
      for (unsigned i = 0; i < 2 * H; ++i)
        for (unsigned a = 0; a < D; ++a)
          sum += c.loc.b[W ? e : 0][i][a] * x[c.dof(e, i, a)];
    }
    const std::vector<F> err = c.loop.errors(x, time);
    vf_assert_(err.size() == 2, "errors as the local solver defines them");
    vf_same(err[0], F(2.) * sum, 1e5, "errors are summed over all hyperedges and postprocessed");
    vf_same(err[1], F(ne), 1e5, "errors start with the initial error");
    c.visited(1);
  }
  else
  {
    for (unsigned k = 0; k < nn; ++k)
      for (unsigned a = 0; a < D; ++a)
        PSolver<H, D, F, W>::init[k][a] = W || k == 0 ? vf_realT<F>("init", -10., 10.) : PSolver<H, D, F, W>::init[0][a];
    for (int round = 0; round < 2; ++round)
    {
      const F t = round ? F(0.) : time;
      const std::vector<F> y = round ? c.loop.make_initial(x) : c.loop.make_initial(x, time);
      std::vector<F> r(c.n, F(0.));
      for (unsigned e = 0; e < ne; ++e)
        for (unsigned i = 0; i < 2 * H; ++i)
          for (unsigned a = 0; a < D; ++a)
            r[c.dof(e, i, a)] = PSolver<H, D, F, W>::init[c.s.node[e][i]][a] * (F(1.) + t);
      c.same(y, r, "initial values at the requested time are set at the dofs of every hyperedge, zero elsewhere");
    }
    c.visited(2);
  }
  for (unsigned i = 0; i < c.n; ++i)
    vf_assert_(x[i] == c.x[i], "the argument is not changed");
}
VF_ENTRY(q_flux_1) { flux<1, 1, double, true>(3, 2, 0, 0); }
VF_ENTRY(q_flux_1u) { flux<1, 2, float, false>(3, 2, 0, 1); }
VF_ENTRY(q_flux_2) { flux<2, 1, double, true>(4, 2, 0, 2); }
VF_ENTRY(q_flux_2u) { flux<2, 2, double, false>(4, 1, 0, 1); }
VF_ENTRY(q_res_2u) { flux<2, 1, double, false>(4, 1, 1, 1); }
VF_ENTRY(q_init_2u) { flux<2, 1, double, false>(4, 1, 3, 1); }
VF_ENTRY(q_res_1) { flux<1, 2, double, true>(3, 2, 1, 0); }
VF_ENTRY(q_res_1u) { flux<1, 1, double, false>(2, 3, 1, 1); }
VF_ENTRY(q_res_2) { flux<2, 2, double, true>(5, 1, 1, 2); }
VF_ENTRY(q_err_1) { flux<1, 2, double, true>(3, 2, 2, 0); }
VF_ENTRY(q_err_2) { flux<2, 1, double, false>(4, 1, 2, 1); }
VF_ENTRY(q_init_1) { flux<1, 1, double, true>(3, 2, 3, 1); }
VF_ENTRY(q_init_1u) { flux<1, 2, double, false>(3, 2, 3, 0); }
VF_ENTRY(q_init_2) { flux<2, 2, double, true>(5, 1, 3, 2); }
VF_ENTRY(q_flux_3) { flux<3, 1, double, true>(7, 1, 0, 2); }
VF_ENTRY(q_res_3) { flux<3, 1, double, true>(7, 1, 1, 1); }
VF_ENTRY(q_err_3) { flux<3, 1, double, true>(6, 1, 2, 1); }
VF_ENTRY(q_init_3) { flux<3, 1, double, true>(6, 1, 3, 1); }
VF_ENTRY(q_flux_many) { flux<1, 2, double, true>(10, 9, 0, 0); }
VF_ENTRY(q_res_many) { flux<2, 1, double, true>(12, 8, 1, 0); }
VF_ENTRY(q_init_many) { flux<1, 1, double, true>(9, 9, 3, 0); }
#ifdef VF_THOROUGH
VF_ENTRY(t_flux_1) { flux<1, 2, double, true>(4, 3, 0, 0); }
VF_ENTRY(t_res_2) { flux<2, 1, double, true>(5, 2, 1, 0); }
VF_ENTRY(t_init_2) { flux<2, 1, double, true>(5, 2, 3, 0); }
#endif
// data written in one time step are those found in the next one, for the same hyperedge
template <unsigned H, unsigned D, typename F>
void steps(unsigned nn, unsigned ne)
{
  Case<H, D, F, true> c(nn, ne, 0);
  F data[4], t[3];
  for (unsigned k = 0; k < nn; ++k)
    for (unsigned a = 0; a < D; ++a)
      PSolver<H, D, F, true>::init[k][a] = vf_realT<F>("init", -10., 10.);
  t[0] = vf_realT<F>("t0", 0., 2.);
  std::vector<F> x = c.loop.make_initial(c.x, t[0]);
  for (unsigned e = 0; e < ne; ++e)
    data[e] = F(3.) + t[0];
  for (int step = 1; step < 3; ++step)
  {
    t[step] = vf_realT<F>("t", 0., 2.);
    c.loop.set_data(c.x, t[step]);
    std::vector<F> r = c.assemble(c.loc.L, F(1.) + t[step], F(1.) + t[step]);
    for (unsigned e = 0; e < ne; ++e)
    {
      data[e] = F(2.) * data[e] + PSolver<H, D, F, true>::sum(e, c.gather(e, c.x)) + t[step];
      for (unsigned i = 0; i < 2 * H; ++i)
        for (unsigned a = 0; a < D; ++a)
          r[c.dof(e, i, a)] += data[e];
    }
    c.same(c.loop.residual_flux(c.x, t[step]), r, "the residual uses the data that the previous step stored for the hyperedge");
    c.same(c.loop.trace_to_flux(c.x, t[step]), c.assemble(c.loc.L, F(1.) + t[step], F(0.)), "operator within a time step");
  }
  c.visited(7);
}
VF_ENTRY(q_steps_1) { steps<1, 1, double>(3, 2); }
VF_ENTRY(q_steps_2) { steps<2, 1, double>(4, 1); }
VF_ENTRY(q_data_u)
{
  Case<1, 1, double, false> c(3, 2, 0);
  const double time = vf_real_("time", 0., 2.);
  PSolver<1, 1, double, false>::uniform_data = 0.;
  c.loop.set_data(c.x, time);
  double r = 0.;
  for (unsigned e = 0; e < 2; ++e)
    r += PSolver<1, 1, double, false>::sum(0, c.gather(e, c.x)) + time;
  vf_same(PSolver<1, 1, double, false>::uniform_data, r, 1e5, "data are set once per hyperedge with its values");
  c.visited(1);
}
VF_ENTRY(q_refine)
{
  Case<1, 1, double, true> c(2, 1, 0);
  const unsigned l = vf_concretize_(vf_int_("level", 1, 3));
  c.loop.set_refinement(l);
  vf_assert_(c.loop.get_refinement() == l && c.loop.size_of_system() == 2 * l && c.loop.zero_vector().size() == 2 * l, "size after refinement");
}
#ifndef NDEBUG
VF_ENTRY(q_abort_size)
{
  Case<1, 1, double, true> c(3, 1, 0);
  const std::vector<double> x(vf_concretize_(vf_int_("len", 0, 2)), 1.);
  const unsigned what = vf_concretize_(vf_int_("what", 0, 3));
  vf_expect_abort_(true);
  if (what == 0)
    c.loop.trace_to_flux(x);
  else if (what == 1)
    c.loop.residual_flux(x);
  else if (what == 2)
    c.loop.errors(x);
  else
    c.loop.set_data(x);
  vf_expect_abort_(false);  // the missing entries were not needed
}
#endif
