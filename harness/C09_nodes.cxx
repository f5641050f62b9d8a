// C09: numbering of degrees of freedom on hypernodes, and local/global transfer.
// VF-BOUNDS: 0..5 dofs per node; numbering for every node count and index whose dof numbers fit into the index type (unsigned, unsigned long, int); transfer on vectors of up to 5 nodes with symbolic values and a symbolic node
// VF-CONFIG: quick debug
// VF-CONFIG: quick ndebug -DNDEBUG
#include <vf.hxx>
#include <HyperHDG/dense_la.hxx>
#include <HyperHDG/hypernodefactory.hxx>
#include <array>
#include <vector>
template <unsigned D, typename I>
void numbering(I limit)
{
  const I n = vf_int_("n", 1, limit), node = vf_int_("node", 0, limit), other = vf_int_("other", 0, limit);
  vf_assume_(node < n && other < n);
  HyperNodeFactory<D, I> f(n);
  vf_assert_(f.n_hyNodes() == n, "number of nodes");
  vf_assert_(f.n_dofs_per_node() == D, "dofs per node");
  vf_assert_(f.n_global_dofs() == n * D, "number of global dofs is nodes times dofs per node");
  vf_assert_(f.template n_global_dofs<unsigned long>() == (unsigned long)n * D, "number of global dofs as another type");
  std::array<I, D> a, b;
  auto& r = f.get_dof_indices(node, a);
  vf_assert_(&r == &a, "the argument is returned");
  f.get_dof_indices(other, b);
  for (unsigned i = 0; i < D; ++i)
  {
    vf_assert_(a[i] < n * D, "dof indices are smaller than the number of dofs");
    vf_assert_(a[i] == node * D + i, "dofs of a node are numbered consecutively, node by node");
    vf_assert_(f.get_hyNode_from_dof_index(a[i]) == node, "a dof belongs to the node it was handed out for");
    for (unsigned j = 0; j < D; ++j)
      vf_assert_((a[i] == b[j]) == (node == other && i == j), "no dof is shared by two nodes");
  }
  const I dof = vf_int_("dof", 0, (unsigned long)limit * D);
  vf_assume_(dof < n * D);
  const I own = f.get_hyNode_from_dof_index(dof);
  vf_assert_(own < n, "every dof has an existing node");
  f.get_dof_indices(own, a);
  bool found = false;
  for (unsigned i = 0; i < D; ++i)
    found |= a[i] == dof;
  vf_assert_(found, "every dof is among those of its node");
}
VF_ENTRY(q_num_1u) { numbering<1, unsigned>(4294967295u); }
VF_ENTRY(q_num_2u) { numbering<2, unsigned>(2147483647u); }
VF_ENTRY(q_num_3u) { numbering<3, unsigned>(1431655765u); }
VF_ENTRY(q_num_2l) { numbering<2, unsigned long>(1000000000000ul); }
VF_ENTRY(q_num_4u) { numbering<4, unsigned>(1073741823u); }
template <unsigned D, typename F, unsigned N>
void transfer()
{
  HyperNodeFactory<D> f(N);
  std::vector<F> g(N * D), g0;
  for (auto& x : g)
    x = vf_realT<F>("g", -100., 100.);
  g0 = g;
  SmallVec<D, F> l;
  for (unsigned i = 0; i < D; ++i)
    l[i] = vf_realT<F>("l", -100., 100.);
  const SmallVec<D, F> l0(l);
  const unsigned node = vf_concretize_(vf_int_("node", 0, N - 1));
  const F v = vf_realT<F>("v", -100., 100.);
  SmallVec<D, F> out;
  auto& ro = f.get_dof_values(node, g, out);
  vf_assert_(&ro == &out, "get returns its argument");
  for (unsigned i = 0; i < D; ++i)
    vf_assert_(out[i] == g0[node * D + i], "get reads the dofs of the node");
  vf_assert_(g == g0, "get does not modify the global vector");
  auto& ra = f.add_to_dof_values(node, g, l);
  vf_assert_(&ra == &g, "add returns the global vector");
  for (unsigned k = 0; k < N * D; ++k)
    if (k / D == node)
      vf_same(g[k], g0[k] + l0[k % D], 100., "add accumulates on the dofs of the node");
    else
      vf_assert_(g[k] == g0[k], "add leaves the other dofs alone");
  f.add_to_dof_values(node, g, l);
  for (unsigned k = 0; k < N * D; ++k)
    vf_same(g[k], g0[k] + (k / D == node ? l0[k % D] + l0[k % D] : F(0.)), 100., "adding twice adds twice");
  g = g0;
  auto& rs = f.set_dof_values(node, g, l);
  vf_assert_(&rs == &g, "set returns the global vector");
  for (unsigned k = 0; k < N * D; ++k)
    vf_assert_(g[k] == (k / D == node ? l0[k % D] : g0[k]), "set writes the dofs of the node and nothing else");
  f.get_dof_values(node, g, out);
  vf_assert_(out == l0 && l == l0, "get after set returns what was set");
  g = g0;
  f.set_dof_values(node, g, v);
  for (unsigned k = 0; k < N * D; ++k)
    vf_assert_(g[k] == (k / D == node ? v : g0[k]), "set with a value writes the dofs of the node and nothing else");
}
VF_ENTRY(q_tr_1_1) { transfer<1, double, 1>(); }
VF_ENTRY(q_tr_1_5) { transfer<1, double, 5>(); }
VF_ENTRY(q_tr_2_3) { transfer<2, double, 3>(); }
VF_ENTRY(q_tr_3_4) { transfer<3, float, 4>(); }
VF_ENTRY(q_tr_5_2) { transfer<5, double, 2>(); }
// copies number alike
VF_ENTRY(q_copy)
{
  const unsigned n = vf_int_("n", 0, 1000), m = vf_int_("m", 0, 1000);
  const HyperNodeFactory<3> f(n);
  HyperNodeFactory<3> c(f), d(m), e(m);
  d = f;
  e = HyperNodeFactory<3>(n);
  vf_assert_(c.n_hyNodes() == n && d.n_hyNodes() == n && e.n_hyNodes() == n && f.n_hyNodes() == n, "copies have as many nodes");
  vf_assert_(c.n_global_dofs() == 3 * n && d.n_global_dofs() == 3 * n, "copies have as many dofs");
}
VF_ENTRY(q_nodofs)
{
  HyperNodeFactory<0> f(vf_int_("n", 0, 1000));
  vf_assert_(f.n_global_dofs() == 0, "no dofs per node, no dofs");
  std::vector<double> g;
  SmallVec<1> l;
  std::array<double, 0> none;
  f.get_dof_values(0, g, none);
  f.set_dof_values(0, g, none);
  vf_assert_(g.empty(), "no dofs are created");
}
#ifndef NDEBUG
template <unsigned D>
void out_of_range(unsigned op)
{
  HyperNodeFactory<D> f(3);
  std::vector<double> g(vf_concretize_(vf_int_("size", 0, 3 * D)), 1.);
  SmallVec<D> l;
  const unsigned node = vf_int_("node", 0, 1000);
  vf_assume_((node + 1) * D > g.size());
  vf_expect_abort_(true);
  switch (op)
  {
    case 0: f.get_dof_values(node, g, l); break;
    case 1: f.add_to_dof_values(node, g, l); break;
    case 2: f.set_dof_values(node, g, l); break;
    case 3: f.set_dof_values(node, g, 2.); break;
    case 4: f.get_hyNode_from_dof_index(node + 3 * D); break;
  }
}
VF_ENTRY(q_oor_get) { out_of_range<2>(0); }
VF_ENTRY(q_oor_add) { out_of_range<2>(1); }
VF_ENTRY(q_oor_set) { out_of_range<2>(2); }
VF_ENTRY(q_oor_val) { out_of_range<1>(3); }
VF_ENTRY(q_oor_dof) { out_of_range<3>(4); }
VF_ENTRY(q_size_get)
{
  HyperNodeFactory<3> f(3);
  std::vector<double> g(9, 1.), l(vf_concretize_(vf_int_("size", 0, 9)), 0.);
  vf_assume_(l.size() != 3);
  vf_expect_abort_(true);
  f.get_dof_values(0, g, l);
}
VF_ENTRY(q_size_add)
{
  HyperNodeFactory<3> f(3);
  std::vector<double> g(9, 1.), l(vf_concretize_(vf_int_("size", 0, 9)), 0.);
  vf_assume_(l.size() != 3);
  vf_expect_abort_(true);
  f.add_to_dof_values(0, g, l);
}
#endif
