// C12: the consistency check of a domain accepts exactly the consistent domains.
// VF-BOUNDS: hyperedges of dimension 1 (2 hyperedges, 3 points) and 2 (1 hyperedge, 4 points) with symbolic indices 0..4 (valid: 0..2 resp. 0..3) and symbolic coordinates; hyperedges of dimension 1..3 (2 hyperedges) in which any one index takes any value
// VF-CONFIG: quick debug
// VF-CONFIG: quick ndebug -DNDEBUG
#include <vf.hxx>
#include <HyperHDG/dense_la.hxx>
#include <HyperHDG/read_domain.hxx>
// vary: 1 nodes, 2 points of hyperedges, 4 points
template <unsigned H, unsigned S, unsigned NE>
void consistent(unsigned vary, unsigned np, unsigned nn, bool invalid)
{
  constexpr unsigned NF = 2 * H, NV = 1 << H;
  using D = DomainInfo<H, S, std::vector, Point<S, double>>;
  D d(np, NE, nn, np);
  bool ok = true;
  for (unsigned i = 0; i < np; ++i)
  {
    for (unsigned k = 0; k < S; ++k)
      d.points[i][k] = vary & 4 ? vf_real_("p", -10., 10.) : double(i + 1);
    for (unsigned j = 0; j < i; ++j)
    {
      bool same = true;
      for (unsigned k = 0; k < S; ++k)
        same = same && d.points[i][k] == d.points[j][k];
      ok = ok && !same;
    }
  }
  for (unsigned e = 0; e < NE; ++e)
  {
    for (unsigned i = 0; i < NF; ++i)
    {
      d.hyNodes_hyEdge[e][i] = vary & 1 ? vf_int_("n", 0, nn) : (e + i) % nn;
      ok = ok && d.hyNodes_hyEdge[e][i] < nn;
      for (unsigned j = 0; j < i; ++j)
        ok = ok && d.hyNodes_hyEdge[e][i] != d.hyNodes_hyEdge[e][j];
    }
    for (unsigned i = 0; i < NV; ++i)
    {
      d.points_hyEdge[e][i] = vary & 2 ? vf_int_("v", 0, np) : (e + i) % np;
      ok = ok && d.points_hyEdge[e][i] < np;
      for (unsigned j = 0; j < i; ++j)
        ok = ok && d.points_hyEdge[e][i] != d.points_hyEdge[e][j];
    }
    for (unsigned f = 0; f < e; ++f)
    {
      ok = ok && !(d.hyNodes_hyEdge[e] == d.hyNodes_hyEdge[f]);
      ok = ok && !(d.points_hyEdge[e] == d.points_hyEdge[f]);
    }
  }
#ifndef NDEBUG
  vf_assume_(ok != invalid);
  if (invalid)
    vf_expect_abort_(true);
#endif
  const bool r = d.check_consistency();
  vf_assert_(r == ok, "a domain is accepted if and only if all indices exist and nothing is listed twice");
}
#define BOTH(N, H, S, NE, VARY, NP, NN) \
  VF_ENTRY(q_ok_##N) { consistent<H, S, NE>(VARY, NP, NN, false); } \
  VF_ENTRY(q_bad_##N) { consistent<H, S, NE>(VARY, NP, NN, true); }
BOTH(nodes_1, 1, 1, 2, 1, 3, 3)
BOTH(verts_1, 1, 1, 2, 2, 3, 3)
BOTH(points_1, 1, 1, 1, 4, 3, 3)
BOTH(points_2, 1, 2, 1, 4, 2, 3)
BOTH(nodes_2, 2, 2, 1, 1, 4, 4)
BOTH(verts_2, 2, 2, 1, 2, 4, 4)

// all indices are valid and distinct but for one that takes any value
template <unsigned H>
void one(bool vertex, bool invalid)
{
  constexpr unsigned NF = 2 * H, NV = 1 << H, NE = 2;
  const unsigned np = vertex ? NV + 2 : NV + 1, nn = NF + 1 + vertex;
  using D = DomainInfo<H, H, std::vector, Point<H, double>>;
  D d(np, NE, nn, np);
  for (unsigned i = 0; i < np; ++i)
    for (unsigned k = 0; k < H; ++k)
      d.points[i][k] = double(k + 1) * i;
  for (unsigned e = 0; e < NE; ++e)
  {
    for (unsigned i = 0; i < NF; ++i)
      d.hyNodes_hyEdge[e][i] = e + i;
    for (unsigned i = 0; i < NV; ++i)
      d.points_hyEdge[e][i] = e + i;
  }
  const unsigned edge = vf_concretize_(vf_int_("edge", 0, NE - 1));
  const unsigned at = vf_concretize_(vf_int_("at", 0, (vertex ? NV : NF) - 1));
  const unsigned v = vf_int_("v", 0, vertex ? np + 1 : nn + 1);
  bool ok = v < (vertex ? np : nn);
  for (unsigned i = 0; i < (vertex ? NV : NF); ++i)
    if (i != at)
      ok = ok && v != edge + i;
  if (vertex)
    d.points_hyEdge[edge][at] = v;
  else
    d.hyNodes_hyEdge[edge][at] = v;
  ok = ok && !(d.hyNodes_hyEdge[0] == d.hyNodes_hyEdge[1]) && !(d.points_hyEdge[0] == d.points_hyEdge[1]);
#ifndef NDEBUG
  vf_assume_(ok != invalid);
  if (invalid)
    vf_expect_abort_(true);
#endif
  const bool r = d.check_consistency();
  vf_assert_(r == ok, "a domain is accepted if and only if all indices exist and nothing is listed twice");
}
#define ONE(N, H, VERTEX) \
  VF_ENTRY(q_ok_one_##N) { one<H>(VERTEX, false); } \
  VF_ENTRY(q_bad_one_##N) { one<H>(VERTEX, true); }
ONE(nodes_1, 1, false)
ONE(verts_1, 1, true)
ONE(nodes_2, 2, false)
ONE(verts_2, 2, true)
ONE(nodes_3, 3, false)
ONE(verts_3, 3, true)
