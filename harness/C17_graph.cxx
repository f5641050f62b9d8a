// C17: the hypergraph as a container of hyperedges.
// VF-BOUNDS: hyperedges of dimension 1..3, up to 3 hyperedges (9 in one entry) at the first and 9 (27) at the third level, arbitrary incidence of up to 4 hypernodes, any sequence of two refinements to level 1..3, symbolic data values
// VF-ASSUME: topology, geometry and node descriptor are stand-ins with the documented interface
// VF-CONFIG: quick debug
// VF-CONFIG: quick ndebug -DNDEBUG
#include "mock.inc"
template <unsigned H, unsigned D>
using G = HDGHyperGraph<D, MTopo<H>, MGeom<H>, MNode<H>, MData>;
template <unsigned H, typename Gr>
void visit(Gr& g, const Spec<H>& s, unsigned level, unsigned D, double tag)
{
  const unsigned ne = s.n_edges * level, nn = s.n_nodes * level;
  vf_assert_(g.n_hyEdges() == ne, "number of hyperedges");
  vf_assert_(g.n_hyNodes() == nn, "number of hypernodes");
  vf_assert_(g.n_global_dofs() == nn * D, "number of degrees of freedom");
  vf_assert_(g.template n_global_dofs<unsigned long>() == nn * D, "number of degrees of freedom");
  vf_assert_(g.hyNode_factory().n_hyNodes() == nn, "hypernodes of the factory");
  vf_assert_(g.get_refinement() == level, "refinement level");
  unsigned k = 0;
  double val[32];
  for (auto it = g.begin(); it != g.end(); ++it, ++k)
  {
    vf_assert_(k < ne, "iteration ends after the last hyperedge");
    auto e = *it;
    vf_assert_(e.topology.index == k, "iteration yields the hyperedges in order (topology)");
    vf_assert_(e.geometry.index == k && e.geometry.tag == tag, "iteration yields the hyperedges in order (geometry)");
    vf_assert_(e.node_descriptor.index == k, "iteration yields the hyperedges in order (node descriptor)");
    for (unsigned i = 0; i < 2 * H; ++i)
      vf_assert_(e.topology.get_hyNode_indices()[i] == s.node[k % s.n_edges][i] + k / s.n_edges * s.n_nodes, "hypernodes of a hyperedge");
    vf_assert_(e.data.owner == -1 && e.data.value == 0., "data of a hyperedge start in their initial state");
    e.data.owner = k;
    e.data.value = val[k] = vf_real_("v", -10., 10.);
  }
  vf_assert_(k == ne, "iteration visits every hyperedge");
  // data persist, independent of the way a hyperedge is accessed
  k = 0;
  for (auto it = g.begin(); !(it == g.end()); it++, ++k)
    vf_assert_((*it).data.owner == (int)k && (*it).data.value == val[k], "data of a hyperedge persist");
  vf_assert_(k == ne, "iteration visits every hyperedge again");
  for (auto it = g.end(); !(it == g.begin());)
  {
    --it, --k;
    vf_assert_((*it).data.owner == (int)k && (*it).topology.index == k, "backward iteration");
  }
  vf_assert_(k == 0, "backward iteration visits every hyperedge");
  for (unsigned i = 0; i < ne; ++i)
  {
    auto e = g[i];
    vf_assert_(e.topology.index == i && e.geometry.index == i && e.node_descriptor.index == i, "access by index");
    vf_assert_(e.data.owner == (int)i && &e.data == &g.hyEdge_data(i), "data accessed by index");
    vf_assert_(g.hyEdge_topology(i).index == i && g.hyEdge_geometry(i).index == i && g.hyNode_descriptor(i).index == i, "access to the parts by index");
    for (unsigned j = 0; j < i; ++j)
      vf_assert_(&g.hyEdge_data(i) != &g.hyEdge_data(j), "no two hyperedges share data");
  }
  auto a = g.begin(), b = a;
  vf_assert_(a == b, "copies of iterators are equal");
  auto c = a++;
  vf_assert_(c == b && !(a == b), "postfix increment returns the old position");
  auto d = a--;
  vf_assert_(a == b && !(d == a), "postfix decrement returns the old position");
  ++b;
  vf_assert_(d == b && (ne < 2 || (*d).topology.index == 1), "prefix increment moves by one");
}
template <unsigned H, unsigned D>
void container(int ctor, unsigned nn, unsigned ne)
{
  const Spec<H> s = draw_graph<H>(nn, ne);
  const unsigned l1 = vf_concretize_(vf_int_("l1", 1, 3)), l2 = vf_concretize_(vf_int_("l2", 1, 2));
  auto run = [&](auto& g, double tag) {
    visit<H>(g, s, 1, D, tag);
    g.set_refinement(l1);
    visit<H>(g, s, l1, D, tag);
    g.set_refinement(l2);
    visit<H>(g, s, l2, D, tag);
  };
  if (ctor == 0)
  {
    G<H, D> g(s);
    run(g, ne);
  }
  else if (ctor == 1)
  {
    G<H, D> g(s, 17.5);
    run(g, 17.5);
  }
  else
  {
    auto t = std::make_shared<MTopo<H>>(s);
    auto ge = std::make_shared<MGeom<H>>(3.5);
    auto n = std::make_shared<MNode<H>>(*t);
    G<H, D> g(t, ge, n);
    run(g, 3.5);
    vf_assert_(t->level == l2 && ge->level == l2 && n->level == l2, "all parts of a hypergraph are refined");
  }
}
VF_ENTRY(q_cont_1a) { container<1, 1>(0, 3, 2); }
VF_ENTRY(q_cont_1b) { container<1, 2>(1, 2, 1); }
VF_ENTRY(q_cont_1c) { container<1, 3>(2, 2, 3); }
VF_ENTRY(q_cont_2a) { container<2, 1>(0, 4, 1); }
VF_ENTRY(q_cont_2b) { container<2, 2>(2, 5, 1); }
VF_ENTRY(q_cont_3) { container<3, 1>(0, 6, 1); }
VF_ENTRY(q_cont_many) { container<1, 2>(2, 9, 9); }
// two graphs do not share anything, iterators of different graphs differ
VF_ENTRY(q_two)
{
  const Spec<1> s = draw_graph<1>(2, 2);
  G<1, 1> g(s), h(s);
  const double a = vf_real_("a", 1., 2.);
  g[0].data.value = a, g[1].data.value = 2. * a;
  h[1].data.value = 3. * a;
  vf_assert_(g[0].data.value == a && g[1].data.value == 2. * a && h[0].data.value == 0. && h[1].data.value == 3. * a, "two hypergraphs have separate data");
  vf_assert_(!(g.begin() == h.begin()) && !(g.end() == h.end()), "iterators of different hypergraphs differ");
  h.set_refinement(2);
  vf_assert_(g.n_hyEdges() == 2 && h.n_hyEdges() == 4, "refining one hypergraph leaves the other alone");
  vf_assert_(g[0].data.value == a && g[1].data.value == 2. * a, "refining one hypergraph leaves the data of the other alone");
}
// data container on its own
VF_ENTRY(q_data)
{
  const unsigned n = vf_concretize_(vf_int_("n", 1, 6));
  HyDataContainer<double> c(n);
  double v[6];
  for (unsigned i = 0; i < n; ++i)
  {
    vf_assert_(c[i] == 0., "data start in their initial state");
    c[i] = v[i] = vf_real_("v", -10., 10.);
  }
  const unsigned k = vf_concretize_(vf_int_("k", 0, 5));
  vf_assume_(k < n);
  c.get_hyEdge(k) = 42.;
  for (unsigned i = 0; i < n; ++i)
    vf_assert_(c[i] == (i == k ? 42. : v[i]), "changing the data of one hyperedge changes no other");
}
#ifndef NDEBUG
VF_ENTRY(q_abort_data)
{
  const unsigned n = vf_concretize_(vf_int_("n", 1, 4));
  HyDataContainer<MData> c(n);
  const unsigned long k = vf_int_("k", 0, ~0ul);
  vf_assume_(k >= n);
  vf_expect_abort_(true);
  c[k];
}
VF_ENTRY(q_abort_graph)
{
  Spec<1> s;
  s.n_nodes = vf_int_("nn", 0, 3), s.n_edges = vf_concretize_(vf_int_("ne", 0, 2));
  s.node[0][0] = s.node[1][1] = 0, s.node[1][0] = s.node[0][1] = 1;
  const unsigned ctor = vf_concretize_(vf_int_("ctor", 0, 2));
  vf_expect_abort_(s.n_nodes < 2 || s.n_edges == 0);
  if (ctor == 0)
    G<1, 1> g(s);
  else if (ctor == 1)
    G<1, 1> g(s, 1.);
  else
  {
    auto t = std::make_shared<MTopo<1>>(s);
    G<1, 1> g(t, std::make_shared<MGeom<1>>(3.5), std::make_shared<MNode<1>>(*t));
  }
}
#endif
