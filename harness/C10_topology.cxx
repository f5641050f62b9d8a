// C10: topologies: which hyperedges share which hypernodes.
// VF-BOUNDS: Cubic: all pairs of hyperedges and hyperfaces (symbolic indices) of grids with up to 3 cells per direction in 1..3 dimensions, hyperedges of dimension 1..3, refinement levels 1..3; File: up to 3 hyperedges of dimension 1..3 with symbolic hypernode numbers (assertions off) or several incidence patterns (assertions on), levels 1..3; any sequence of two refinements
// VF-ASSUME: the submodule TPCC is not part of the tree; models/third_party/tpcc stands in for it with the documented meaning
// VF-CONFIG: quick debug
// VF-CONFIG: quick ndebug -DNDEBUG
#include "geo.inc"
#include <HyperHDG/topology/cubic.hxx>
#include <HyperHDG/topology/file.hxx>
template <unsigned H>
static unsigned power(unsigned r)
{
  unsigned p = 1;
  for (unsigned i = 0; i < H; ++i)
    p *= r;
  return p;
}
// position of hyperface i of hyperedge e, in units of 1 / r of the grid width: lower corner and extent in each direction
template <unsigned H, unsigned S, typename T>
std::array<unsigned, 2 * S> box(const T& t, unsigned e, unsigned i, unsigned r)
{
  const auto elem = t.tpcc_elem()[e / power<H>(r)];
  const auto cell = t.tpcc_ref_elem()[e % power<H>(r)];
  std::array<unsigned, 2 * S> b;
  for (unsigned d = 0; d < S; ++d)
    b[d] = r * elem.coord[d], b[S + d] = 0;
  for (unsigned k = 0; k < H; ++k)
  {
    const unsigned d = elem.along_direction(k);
    b[d] += cell.coord[k] + (k == i / 2 ? i % 2 : 0);
    b[S + d] = k != i / 2;
  }
  return b;
}
template <unsigned S>
bool equal(const std::array<unsigned, 2 * S>& a, const std::array<unsigned, 2 * S>& b)
{
  bool r = true;
  for (unsigned d = 0; d < 2 * S; ++d)
    r &= a[d] == b[d];
  return r;
}
template <unsigned H, unsigned S>
SmallVec<S, unsigned> grid(unsigned n)
{
  SmallVec<S, unsigned> v;
  for (unsigned d = 0; d < S; ++d, n /= 10)
    v[d] = n % 10;
  return v;
}
template <unsigned S>
static unsigned choose(unsigned k)
{
  unsigned r = 1;
  for (unsigned i = 0; i < k; ++i)
    r = r * (S - i) / (i + 1);
  return r;
}
template <unsigned H, unsigned S, typename T>
T refined(unsigned n, unsigned r)
{
  T t(grid<H, S>(n));
  vf_assert_(t.get_refinement() == 1, "topologies start unrefined");
  if (r > 1)
    t.set_refinement(r);
  vf_assert_(t.get_refinement() == r, "refinement level");
  return t;
}
// symbolic pair of hyperedges: hypernodes agree exactly if hyperfaces coincide
template <unsigned H, unsigned S>
void cubic(unsigned n, unsigned r)
{
  using T = Topology::Cubic<H, S>;
  const T t = refined<H, S, Topology::Cubic<H, S>>(n, r);
  const unsigned ne = t.n_hyEdges(), nn = t.n_hyNodes();
  unsigned a = vf_int_("a", 0, ne - 1), b = vf_int_("b", 0, ne - 1);
  if (r == 3)
    a = vf_concretize_(a), b = vf_concretize_(b);
  const auto na = t[a].get_hyNode_indices(), nb = t[b].get_hyNode_indices();
  for (unsigned i = 0; i < 2 * H; ++i)
  {
    vf_assert_(na[i] < nn, "hypernode indices are smaller than the number of hypernodes");
    for (unsigned j = 0; j < 2 * H; ++j)
      vf_assert_((na[i] == nb[j]) == equal<S>(box<H, S>(t, a, i, r), box<H, S>(t, b, j, r)), "two hyperfaces have the same hypernode exactly if they coincide");
  }
}
// counts
template <unsigned H, unsigned S>
void counts()
{
  const unsigned r = vf_concretize_(vf_int_("r", 1, 3));
  unsigned n = 0;
  unsigned c[S];
  for (unsigned d = 0, f = 1; d < S; ++d, f *= 10)
    n += f * (c[d] = vf_concretize_(vf_int_("n", 1, S == 3 ? 2 : 3)));
  const auto t = refined<H, S, Topology::Cubic<H, S>>(n, r);
  unsigned ne = 0, nn = 0, in = 0;
  for (unsigned m = 0; m < 1u << S; ++m)
  {
    unsigned bits = 0, p = 1;
    for (unsigned d = 0; d < S; ++d)
      bits += m >> d & 1, p *= m >> d & 1 ? c[d] : c[d] + 1;
    ne += bits == H ? p : 0;
    nn += bits == H - 1 ? p : 0;
  }
  in = ne * H * (r - 1) * power<H - 1>(r);
  vf_assert_(t.n_hyEdges() == ne * power<H>(r), "number of hyperedges");
  vf_assert_(t.n_hyNodes() == nn * power<H - 1>(r) + in, "number of hypernodes");
  std::vector<bool> seen(t.n_hyNodes(), false);
  for (unsigned e = 0; e < t.n_hyEdges(); ++e)
  {
    const auto h = t[e];
    for (unsigned i = 0; i < 2 * H; ++i)
    {
      vf_assert_(h.get_hyNode_indices()[i] < seen.size(), "hypernode indices are smaller than the number of hypernodes");
      seen[h.get_hyNode_indices()[i]] = true;
    }
  }
  for (unsigned k = 0; k < seen.size(); ++k)
    vf_assert_(seen[k], "every hypernode belongs to a hyperedge");
}
VF_ENTRY(q_cub_11) { cubic<1, 1>(3, 2); }
VF_ENTRY(q_cub_12) { cubic<1, 2>(23, 1); }
VF_ENTRY(q_cub_12r) { cubic<1, 2>(12, 3); }
VF_ENTRY(q_cub_13) { cubic<1, 3>(212, 2); }
VF_ENTRY(q_cub_22) { cubic<2, 2>(32, 1); }
VF_ENTRY(q_cub_22r) { cubic<2, 2>(12, 2); }
VF_ENTRY(q_cub_22q) { cubic<2, 2>(12, 3); }
VF_ENTRY(q_cub_23) { cubic<2, 3>(121, 1); }
VF_ENTRY(q_cub_23r) { cubic<2, 3>(112, 2); }
VF_ENTRY(q_cub_33) { cubic<3, 3>(213, 1); }
VF_ENTRY(q_cub_33r) { cubic<3, 3>(112, 2); }
VF_ENTRY(q_cnt_11) { counts<1, 1>(); }
VF_ENTRY(q_cnt_12) { counts<1, 2>(); }
VF_ENTRY(q_cnt_13) { counts<1, 3>(); }
VF_ENTRY(q_cnt_22) { counts<2, 2>(); }
VF_ENTRY(q_cnt_23) { counts<2, 3>(); }
VF_ENTRY(q_cnt_33) { counts<3, 3>(); }
#ifdef VF_THOROUGH
VF_ENTRY(t_cub_12) { cubic<1, 2>(33, 3); }
VF_ENTRY(t_cub_13) { cubic<1, 3>(332, 3); }
VF_ENTRY(t_cub_22) { cubic<2, 2>(33, 3); }
VF_ENTRY(t_cub_23) { cubic<2, 3>(222, 3); }
VF_ENTRY(t_cub_33) { cubic<3, 3>(222, 3); }
#endif
// history of refinements and copies
template <unsigned H, unsigned S>
void history(unsigned n)
{
  const unsigned r1 = vf_concretize_(vf_int_("r1", 1, 3)), r2 = vf_concretize_(vf_int_("r2", 1, 3));
  Topology::Cubic<H, S> t(grid<H, S>(n));
  t.set_refinement(r1);
  const Topology::Cubic<H, S> copy(t);
  t.set_refinement(r2);
  const auto ref1 = refined<H, S, Topology::Cubic<H, S>>(n, r1), ref2 = refined<H, S, Topology::Cubic<H, S>>(n, r2);
  const int k = vf_concretize_(vf_int_("which", 0, 1));
  {
    const auto &x = k ? t : copy, &y = k ? ref2 : ref1;
    vf_assert_(x.n_hyEdges() == y.n_hyEdges() && x.n_hyNodes() == y.n_hyNodes() && x.get_refinement() == y.get_refinement(), "sizes do not depend on earlier refinements or copies");
    for (unsigned d = 0; d < S; ++d)
      vf_assert_(x.n_elements()[d] == grid<H, S>(n)[d], "the grid is the given one");
    const unsigned e = vf_concretize_(vf_int_("e", 0, x.n_hyEdges() - 1));
    const auto hx = x[e].get_hyNode_indices(), hy = y[e].get_hyNode_indices();
    for (unsigned i = 0; i < 2 * H; ++i)
      vf_assert_(hx[i] == hy[i], "hypernodes do not depend on earlier refinements or copies");
  }
}
VF_ENTRY(q_hist_12) { history<1, 2>(21); }
VF_ENTRY(q_hist_22) { history<2, 2>(12); }
VF_ENTRY(q_hist_33) { history<3, 3>(112); }
// ---------------------------------------------------------------- hypergraphs from files
// hyperface i of cell c: the coarse hyperface that contains it (2 H: none) and its position
template <unsigned H>
struct Where
{
  unsigned face = 2 * H, pos[H];
  template <typename T>
  Where(const T& t, unsigned c, unsigned i, unsigned r)
  {
    const auto cell = t.tpcc_ref_elem()[c];
    for (unsigned k = 0; k < H; ++k)
      pos[k] = 2 * cell.coord[k] + (k == i / 2 ? 2 * (i % 2) : 1);
    if (pos[i / 2] == 0)
      face = i / 2 * 2;
    else if (pos[i / 2] == 2 * r)
      face = i / 2 * 2 + 1;
  }
  bool same_in_face(const Where& o) const
  {
    unsigned p[H], q[H], n = 0, m = 0;
    for (unsigned k = 0; k < H; ++k)
    {
      if (k != face / 2)
        p[n++] = pos[k];
      if (k != o.face / 2)
        q[m++] = o.pos[k];
    }
    for (unsigned k = 0; k < n; ++k)
      if (p[k] != q[k])
        return false;
    return true;
  }
  bool same(const Where& o) const
  {
    for (unsigned k = 0; k < H; ++k)
      if (pos[k] != o.pos[k])
        return false;
    return true;
  }
};
template <unsigned H, unsigned S>
Geo<H, S> domain(unsigned nn, unsigned ne)
{
  Geo<H, S> g;
  g.np = 8, g.nn = nn, g.ne = ne;
  unsigned shift[4];
  for (unsigned i = 0; i < g.np; ++i)
    for (unsigned d = 0; d < S; ++d)
      g.pt[i][d] = d == 0 ? i : (i * i) % (3 + d);
  for (unsigned e = 0; e < ne; ++e)
  {
    for (unsigned i = 0; i < 1u << H; ++i)
      g.vert[e][i] = (i + e) % 8;
#ifdef NDEBUG
    for (unsigned i = 0; i < 2 * H; ++i)
      g.node[e][i] = vf_int_("node", 0, nn - 1);
#else
    const unsigned s = vf_concretize_(vf_int_("shift", e, nn - 2 * H < 2 ? e : e + 1)), f = vf_concretize_(vf_int_("flip", 0, 1));
    shift[e] = s;
    for (unsigned k = 0; k < e; ++k)
      vf_assume_(shift[k] != s);
    for (unsigned i = 0; i < 2 * H; ++i)
      g.node[e][f ? 2 * H - 1 - i : i] = (i + s) % nn;
#endif
    for (unsigned i = 0; i < 2 * H; ++i)
      g.face[e][i] = 0;
  }
  vf_file_put("d.geo", g.text(0));
  return g;
}
template <unsigned H, unsigned S>
void file(unsigned nn, unsigned ne, int how)
{
  const auto g = domain<H, S>(nn, ne);
  Topology::File<H, S> t0("d.geo");
  const unsigned r = vf_concretize_(vf_int_("r", 1, H == 1 ? 3 : 2));
  if (how == 1)
    t0.set_refinement(3);
  if (how || r > 1)
    t0.set_refinement(r);
  const Topology::File<H, S> t(t0);
  vf_assert_(t.get_refinement() == r, "refinement level");
  const unsigned cells = power<H>(r);
  vf_assert_(t.n_hyEdges() == ne * cells, "number of hyperedges");
  vf_assert_(t.n_hyNodes() == nn * power<H - 1>(r) + ne * H * (r - 1) * power<H - 1>(r), "number of hypernodes");
  const unsigned a = vf_concretize_(vf_int_("a", 0, ne * cells - 1)), b = vf_concretize_(vf_int_("b", 0, ne * cells - 1));
  vf_assume_(a <= b);
  const auto ha = t[a], hb = t.get_hyEdge(b);
  const auto na = ha.get_hyNode_indices(), nb = hb.get_hyNode_indices();
  for (unsigned i = 0; i < 2 * H; ++i)
  {
    vf_assert_(na[i] < t.n_hyNodes(), "hypernode indices are smaller than the number of hypernodes");
    const Where<H> wi(t, a % cells, i, r);
    if (r == 1)
      vf_assert_(na[i] == g.node[a][i], "unrefined hyperedges have the hypernodes of the file");
    for (unsigned j = 0; j < 2 * H; ++j)
    {
      const Where<H> wj(t, b % cells, j, r);
      bool same = false;
      if ((wi.face == 2 * H) != (wj.face == 2 * H))
        same = false;
      else if (wi.face == 2 * H)
        same = a / cells == b / cells && wi.same(wj);
      else if (wi.same_in_face(wj))
        same = g.node[a / cells][wi.face] == g.node[b / cells][wj.face];
      vf_assert_((na[i] == nb[j]) == same, "hyperfaces have the same hypernode exactly if they are the same part of the same coarse hypernode or of the interior");
    }
  }
}
VF_ENTRY(q_file_12) { file<1, 2>(3, 2, 0); }
VF_ENTRY(q_file_13) { file<1, 3>(4, 3, 1); }
VF_ENTRY(q_file_22) { file<2, 2>(5, 2, 0); }
VF_ENTRY(q_file_23) { file<2, 3>(6, 1, 1); }
VF_ENTRY(q_file_33) { file<3, 3>(7, 1, 2); }
#ifdef VF_THOROUGH
VF_ENTRY(t_file_22) { file<2, 2>(6, 3, 1); }
VF_ENTRY(t_file_33) { file<3, 3>(8, 2, 2); }
#endif
#ifndef NDEBUG
VF_ENTRY(q_range_cubic)
{
  const Topology::Cubic<1, 2> t(grid<1, 2>(12));
  const unsigned e = vf_int_("e", t.n_hyEdges(), ~0u);
  vf_expect_abort_(true);
  t[e];
  vf_assert_(false, "hyperedges that do not exist are rejected");
}
VF_ENTRY(q_range_file)
{
  domain<1, 2>(3, 2);
  Topology::File<1, 2> t("d.geo");
  t.set_refinement(2);
  const unsigned e = vf_int_("e", t.n_hyEdges(), ~0u);
  vf_expect_abort_(true);
  t[e];
  vf_assert_(false, "hyperedges that do not exist are rejected");
}
#endif
