// C16: types of hyperfaces.
// VF-BOUNDS: Cubic: every hyperedge (symbolic index) of grids with up to 3 cells per direction in 1..3 dimensions, hyperedges of dimension 1..3, refinement levels 1..3; File: symbolic types below 100000, up to 3 hyperedges of dimension 1..3, levels 1..3; any sequence of two refinements, copies
// VF-ASSUME: the submodule TPCC is replaced by a stand-in with the documented meaning
// VF-CONFIG: quick debug
// VF-CONFIG: quick ndebug -DNDEBUG
#include "geo.inc"
#include <HyperHDG/node_descriptor/cubic.hxx>
#include <HyperHDG/node_descriptor/file.hxx>
template <unsigned H>
static unsigned power(unsigned r)
{
  unsigned p = 1;
  for (unsigned i = 0; i < H; ++i)
    p *= r;
  return p;
}
template <unsigned S>
SmallVec<S, unsigned> grid(unsigned n)
{
  SmallVec<S, unsigned> v;
  for (unsigned d = 0; d < S; ++d, n /= 10)
    v[d] = n % 10;
  return v;
}
// how: 0 by refinement, 1 from a refined topology, 2 after another refinement, 3 copy, 4 topology refined and then the descriptor again
template <unsigned H, unsigned S>
void cubic(unsigned n, unsigned r, int how)
{
  const auto N = grid<S>(n);
  Topology::Cubic<H, S> t(N);
  if (how == 1)
    t.set_refinement(r);
  if (how == 4)
    t.set_refinement(2);
  NodeDescriptor::Cubic<H, S> d1(t), d2(N);
  NodeDescriptor::Cubic<H, S>& d = how == 1 || how == 4 ? d1 : d2;
  vf_assert_(d.get_refinement() == t.get_refinement() && d.n_hyEdges() == t.n_hyEdges(), "refinement of a new node descriptor");
  if (how == 2)
    d.set_refinement(3);
  if (how != 1)
    d.set_refinement(r), t.set_refinement(r);
  const NodeDescriptor::Cubic<H, S> c(d);
  const NodeDescriptor::Cubic<H, S>& x = how == 3 ? c : d;
  vf_assert_(x.get_refinement() == r && x.hyEdge_dim() == H && x.space_dim() == S, "refinement level and dimensions");
  vf_assert_(x.n_hyEdges() == t.n_hyEdges(), "number of hyperedges");
  for (unsigned k = 0; k < S; ++k)
    vf_assert_(x.n_elements()[k] == N[k], "the grid is the given one");
  unsigned e = vf_int_("edge", 0, t.n_hyEdges() - 1);
  if (r > 1)
    e = vf_concretize_(e);
  const auto he = x[e];
  const auto elem = t.tpcc_elem()[e / power<H>(r)];
  const auto cell = t.tpcc_ref_elem()[e % power<H>(r)];
  vf_assert_(he.get_hyFace_types().size() == 2 * H, "one type for every hyperface");
  for (unsigned i = 0; i < 2 * H; ++i)
  {
    unsigned type = 0;
    bool inside[S];
    for (unsigned k = 0; k < S; ++k)
      inside[k] = false;
    for (unsigned k = 0; k < H; ++k)
      if (k != i / 2)
        inside[elem.along_direction(k)] = true;
    for (unsigned k = 0, p = 1; k < S; ++k, p *= 3)
      if (!inside[k])
      {
        const unsigned pos = elem.coord[k] + (k == elem.along_direction(i / 2) ? i % 2 : 0);
        type += pos == 0 ? p : pos == N[k] ? 2 * p : 0;
      }
    const unsigned pos = cell.coord[i / 2] + i % 2;
    if (pos != 0 && pos != r)
      type = 0;
    vf_assert_(he[i] == type, "the type of a hyperface encodes the sides of the unit cube that contain it");
    vf_assert_(he.get_hyFace_types()[i] == type, "the list of types agrees");
  }
}
VF_ENTRY(q_cub_11) { cubic<1, 1>(3, 2, 0); }
VF_ENTRY(q_cub_11b) { cubic<1, 1>(1, 1, 1); }
VF_ENTRY(q_cub_12) { cubic<1, 2>(23, 1, 0); }
VF_ENTRY(q_cub_12r) { cubic<1, 2>(12, 3, 1); }
VF_ENTRY(q_cub_13) { cubic<1, 3>(212, 2, 2); }
VF_ENTRY(q_cub_13u) { cubic<1, 3>(231, 1, 0); }
VF_ENTRY(q_cub_22) { cubic<2, 2>(32, 1, 1); }
VF_ENTRY(q_cub_22r) { cubic<2, 2>(13, 2, 3); }
VF_ENTRY(q_cub_22q) { cubic<2, 2>(12, 3, 4); }
VF_ENTRY(q_cub_23) { cubic<2, 3>(231, 1, 0); }
VF_ENTRY(q_cub_23r) { cubic<2, 3>(122, 2, 1); }
VF_ENTRY(q_cub_23d) { cubic<2, 3>(211, 1, 2); }
VF_ENTRY(q_cub_33) { cubic<3, 3>(213, 1, 0); }
VF_ENTRY(q_cub_33r) { cubic<3, 3>(121, 2, 4); }
VF_ENTRY(q_cub_33q) { cubic<3, 3>(111, 3, 2); }
#ifdef VF_THOROUGH
VF_ENTRY(t_cub_13) { cubic<1, 3>(333, 3, 2); }
VF_ENTRY(t_cub_23) { cubic<2, 3>(332, 3, 4); }
VF_ENTRY(t_cub_33) { cubic<3, 3>(323, 3, 1); }
#endif
template <unsigned H, unsigned S>
void file(unsigned ne, int how)
{
  Geo<H, S> g;
  const unsigned r = vf_concretize_(vf_int_("r", 1, 3));
  g.np = 8, g.nn = 8, g.ne = ne;
  for (unsigned i = 0; i < g.np; ++i)
    for (unsigned d = 0; d < S; ++d)
      g.pt[i][d] = d == 0 ? i : (i * i) % (3 + d);
  for (unsigned e = 0; e < ne; ++e)
  {
    for (unsigned i = 0; i < 1u << H; ++i)
      g.vert[e][i] = (i + e) % 8;
    for (unsigned i = 0; i < 2 * H; ++i)
      g.node[e][i] = i + e, g.face[e][i] = vf_int_("face", 0, 100000);
  }
  vf_file_put("d.geo", g.text(0));
  Topology::File<H, S> t("d.geo");
  if (how == 1)
    t.set_refinement(r);
  if (how == 4)
    t.set_refinement(2);
  NodeDescriptor::File<H, S> d(t);
  if (how == 2)
    d.set_refinement(3);
  if (how != 1)
    d.set_refinement(r), t.set_refinement(r);
  const NodeDescriptor::File<H, S> c(d);
  const NodeDescriptor::File<H, S>& x = how == 3 ? c : d;
  vf_assert_(x.get_refinement() == r && x.hyEdge_dim() == H && x.space_dim() == S, "refinement level and dimensions");
  const unsigned k = power<H>(r), e = vf_concretize_(vf_int_("edge", 0, ne * k - 1));
  const auto he = x[e];
  const auto cell = t.tpcc_ref_elem()[e % k];
  for (unsigned i = 0; i < 2 * H; ++i)
  {
    const unsigned pos = cell.coord[i / 2] + i % 2;
    const unsigned type = pos == 0 || pos == r ? g.face[e / k][i] : 0;
    vf_assert_(he[i] == type, "hyperfaces have the type of the file on original hyperfaces and zero inside of original hyperedges");
    vf_assert_(he.get_hyFaces_types()[i] == type, "the list of types agrees");
  }
}
VF_ENTRY(q_file_11) { file<1, 1>(2, 0); }
VF_ENTRY(q_file_12) { file<1, 2>(3, 1); }
VF_ENTRY(q_file_13) { file<1, 3>(3, 2); }
VF_ENTRY(q_file_22) { file<2, 2>(2, 3); }
VF_ENTRY(q_file_23) { file<2, 3>(2, 4); }
VF_ENTRY(q_file_33) { file<3, 3>(2, 1); }
VF_ENTRY(q_file_33b) { file<3, 3>(1, 2); }
#ifndef NDEBUG
VF_ENTRY(q_range_cubic)
{
  NodeDescriptor::Cubic<1, 2> d(grid<2>(12));
  const unsigned r = vf_concretize_(vf_int_("r", 1, 2));
  d.set_refinement(r);
  const unsigned e = vf_int_("e", 7 * r, ~0u);
  vf_expect_abort_(true);
  d[e];
  vf_assert_(false, "hyperedges that do not exist are rejected");
}
VF_ENTRY(q_range_file)
{
  Geo<1, 2> g;
  g.np = 3, g.nn = 3, g.ne = 2;
  for (unsigned i = 0; i < 3; ++i)
    g.pt[i][0] = i, g.pt[i][1] = 0.;
  for (unsigned e = 0; e < 2; ++e)
    for (unsigned i = 0; i < 2; ++i)
      g.vert[e][i] = g.node[e][i] = i + e, g.face[e][i] = 1;
  vf_file_put("d.geo", g.text(0));
  Topology::File<1, 2> t("d.geo");
  NodeDescriptor::File<1, 2> d(t);
  const unsigned r = vf_concretize_(vf_int_("r", 1, 3));
  d.set_refinement(r);
  const unsigned e = vf_int_("e", 2 * r, ~0u);
  vf_expect_abort_(true);
  d[e];
  vf_assert_(false, "hyperedges that do not exist are rejected");
}
#endif
