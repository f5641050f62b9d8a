// C18: elliptic global loop: condensed operator, residual and errors.
// VF-BOUNDS: hyperedges of dimension 1..3 with 1..2 dofs per hypernode, up to 3 hyperedges with arbitrary incidence of up to 5 hypernodes (dimension 2 and 3: several patterns; one fixed pattern with 9 hyperedges), symbolic local operators, right hand sides, vector and time; up to two Dirichlet indices in any order, repeated or not
// VF-ASSUME: topology, geometry, node descriptor and local solver are stand-ins with the documented interface
// VF-CONFIG: quick debug
// VF-CONFIG: quick ndebug -DNDEBUG
#include "loop.inc"
#include <HyperHDG/global_loop/elliptic.hxx>
template <unsigned H, unsigned D, typename F, bool W, typename I = unsigned>
using Loop = GlobalLoop::Elliptic<MTopo<H>, MGeom<H>, MNode<H>, MSolver<H, D, F, W>, std::vector<F>, I>;
template <unsigned H, unsigned D, typename F, bool W, typename I = unsigned>
void flux(unsigned nn, unsigned ne, int what, int ctor)
{
  Ref<H, D, F> r(draw_graph<H>(nn, ne), !W);
  const F time = vf_realT<F>("time", -5., 5.);
  Loop<H, D, F, W, I> loop = ctor == 0 ? Loop<H, D, F, W, I>(r.s) : ctor == 1 ? Loop<H, D, F, W, I>(r.s, 2.5) : Loop<H, D, F, W, I>(r.s, 7., 2.5);
  const F param = ctor == 0 ? 1. : 2.5;
  vf_assert_(loop.size_of_system() == r.n, "size of the system is nodes times dofs per node");
  const std::vector<F> zero = loop.zero_vector();
  vf_assert_(zero.size() == r.n, "zero vector has the size of the system");
  for (auto v : zero)
    vf_assert_(v == F(0.), "zero vector is zero");
  const std::vector<F> x(r.x);
  if (what == 0)
  {
    r.same(loop.trace_to_flux(x, time), r.assemble(r.loc.L, F(1.) + time, F(0.)), "operator is the sum of the local operators");
    r.visited(1);
    r.same(loop.trace_to_flux(x), r.assemble(r.loc.L, F(1.), F(0.)), "operator at the default time");
    r.visited(2);
  }
  else if (what == 1)
  {
    r.same(loop.residual_flux(x, time), r.assemble(r.loc.L, F(1.) + time, param + time), "residual is the sum of the local residuals");
    r.visited(1);
    r.same(loop.residual_flux(x), r.assemble(r.loc.L, F(1.), param), "residual at the default time");
    r.visited(2);
  }
  else
  {
    F s = 0.;
    for (unsigned e = 0; e < ne; ++e)
    {
      s += time;
      for (unsigned i = 0; i < 2 * H; ++i)
        for (unsigned a = 0; a < D; ++a)
          s += r.loc.b[W ? e : 0][i][a] * x[r.dof(e, i, a)];
    }
    const std::vector<F> err = loop.errors(x, time);
    vf_assert_(err.size() == 2, "errors as the local solver defines them");
    vf_same(err[0], F(2.) * s, 1e5, "errors are summed over all hyperedges and postprocessed");
    vf_same(err[1], F(ne), 1e5, "errors start with the initial error and are summed once per hyperedge");
    r.visited(1);
  }
  for (unsigned i = 0; i < r.n; ++i)
    vf_assert_(x[i] == r.x[i], "the argument is not changed");
}
VF_ENTRY(q_flux_1) { flux<1, 1, double, true>(3, 2, 0, 0); }
VF_ENTRY(q_flux_1d2) { flux<1, 2, double, true>(3, 2, 0, 1); }
VF_ENTRY(q_flux_1u) { flux<1, 1, float, false>(2, 3, 0, 2); }
VF_ENTRY(q_flux_2) { flux<2, 1, double, true>(4, 2, 0, 1); }
VF_ENTRY(q_flux_2u) { flux<2, 2, double, false>(4, 1, 0, 1); }
VF_ENTRY(q_res_2u) { flux<2, 1, double, false>(4, 1, 1, 1); }
VF_ENTRY(q_err_2u) { flux<2, 1, double, false>(4, 1, 2, 1); }
VF_ENTRY(q_res_1) { flux<1, 1, double, true>(2, 3, 1, 1); }
VF_ENTRY(q_res_1d2) { flux<1, 2, double, false>(3, 2, 1, 2); }
VF_ENTRY(q_res_2) { flux<2, 2, double, true>(5, 1, 1, 0); }
VF_ENTRY(q_err_1) { flux<1, 2, double, true>(3, 2, 2, 0); }
VF_ENTRY(q_err_1u) { flux<1, 1, double, false>(3, 2, 2, 1); }
VF_ENTRY(q_err_2) { flux<2, 1, float, true>(4, 1, 2, 2); }
VF_ENTRY(q_flux_3) { flux<3, 1, double, true>(7, 1, 0, 2); }
VF_ENTRY(q_flux_3u) { flux<3, 2, double, false>(6, 1, 0, 0); }
VF_ENTRY(q_res_3) { flux<3, 1, double, true>(7, 1, 1, 1); }
VF_ENTRY(q_err_3) { flux<3, 1, double, true>(6, 1, 2, 1); }
VF_ENTRY(q_flux_many) { flux<1, 2, double, true>(10, 9, 0, 0); }
VF_ENTRY(q_res_many) { flux<2, 1, double, true>(12, 8, 1, 0); }
VF_ENTRY(q_err_many) { flux<1, 1, double, true>(9, 9, 2, 0); }
#ifdef VF_THOROUGH
VF_ENTRY(t_flux_1) { flux<1, 1, double, true>(4, 3, 0, 0); }
VF_ENTRY(t_flux_2) { flux<2, 2, double, true>(5, 2, 0, 1); }
VF_ENTRY(t_res_1) { flux<1, 3, double, true>(3, 3, 1, 1); }
#endif
// Dirichlet indices: given in any order, repeated, read again
template <unsigned H, unsigned D, bool W>
void dirichlet(unsigned nn, unsigned ne, bool residual)
{
  using F = double;
  Spec<H> s;
  s.n_nodes = nn, s.n_edges = ne;
  for (unsigned e = 0; e < ne; ++e)
    for (unsigned i = 0; i < 2 * H; ++i)
      s.node[e][i] = (e + i) % nn;
  Ref<H, D, F> r(s, !W);
  const F time = vf_realT<F>("time", -5., 5.);
  Loop<H, D, F, W> loop(s);
  std::vector<unsigned> idx;
  for (int round = 0; round < 2; ++round)
  {
    idx.resize(vf_concretize_(vf_int_("count", 0, 2)));
    for (auto& i : idx)
      i = vf_concretize_(vf_int_("index", 0, r.n - 1));
    loop.read_dirichlet_indices(idx);
    auto ref = residual ? r.assemble(r.loc.L, F(1.) + time, F(1.) + time) : r.assemble(r.loc.L, F(1.) + time, F(0.));
    for (auto i : idx)
      ref[i] = 0.;
    r.same(residual ? loop.residual_flux(r.x, time) : loop.trace_to_flux(r.x, time), ref, "entries of Dirichlet type are zero, all others are the sum of the local operators");
  }
}
VF_ENTRY(q_dir_f) { dirichlet<1, 1, true>(3, 2, false); }
VF_ENTRY(q_dir_r) { dirichlet<1, 1, true>(3, 2, true); }
VF_ENTRY(q_dir_f2) { dirichlet<1, 2, false>(2, 1, false); }
#ifdef VF_THOROUGH
VF_ENTRY(t_dir_f) { dirichlet<2, 1, true>(5, 2, false); }
VF_ENTRY(t_dir_r) { dirichlet<1, 2, true>(3, 2, true); }
#endif
// refinement
VF_ENTRY(q_refine)
{
  using F = double;
  Ref<1, 1, F> r(draw_graph<1>(2, 2), false);
  Loop<1, 1, F, true> loop(r.s);
  vf_assert_(loop.get_refinement() == 1, "refinement level");
  loop.set_refinement(2);
  vf_assert_(loop.get_refinement() == 2, "refinement level");
  vf_assert_(loop.size_of_system() == 4 && loop.zero_vector().size() == 4, "size after refinement");
  Spec<1> s = r.s;
  s.n_nodes = 4, s.n_edges = 4;
  for (unsigned e = 2; e < 4; ++e)
    for (unsigned i = 0; i < 2; ++i)
      s.node[e][i] = s.node[e - 2][i] + 2;
  Ref<1, 1, F> t(s, false);
  t.same(loop.trace_to_flux(t.x), t.assemble(t.loc.L, 1., 0.), "operator after refinement");
  t.visited(1);
}
#ifndef NDEBUG
VF_ENTRY(q_abort_dir)
{
  Loop<1, 2, double, true> loop(draw_graph<1>(2, 1));
  std::vector<unsigned> idx(2, 0);
  idx[vf_concretize_(vf_int_("pos", 0, 1))] = vf_int_("index", 4, 4294967295u);
  vf_expect_abort_(true);
  loop.read_dirichlet_indices(idx);
}
VF_ENTRY(q_abort_size)
{
  Loop<1, 1, double, true> loop(draw_graph<1>(3, 1));
  const std::vector<double> x(vf_concretize_(vf_int_("len", 0, 2)), 1.);
  Local<1, 1, double>::get().draw(1, false);
  const unsigned what = vf_concretize_(vf_int_("what", 0, 2));
  vf_expect_abort_(true);
  if (what == 0)
    loop.trace_to_flux(x);
  else if (what == 1)
    loop.residual_flux(x);
  else
    loop.errors(x);
  vf_expect_abort_(false);  // the missing entries were not needed
}
#endif
