// C11: reading hypergraph files.
// VF-BOUNDS: hyperedges of dimension 1..3 in 1..3 space dimensions, up to 8 points, 3 hyperedges, 0..2 properties, symbolic coordinates, indices, types and properties; 16 textual layouts (comments, blank lines, missing final newline, extra columns); one missing keyword or truncated section at a time
// VF-ASSUME: in-memory model of the standard streams (models/std); native replays use real files
// VF-CONFIG: quick debug
// VF-CONFIG: quick ndebug -DNDEBUG
#include "geo.inc"
template <unsigned H, unsigned S, typename F, typename I = unsigned>
void reads(unsigned np, unsigned nn, unsigned ne, unsigned nprop)
{
  Geo<H, S> g;
  g.draw(np, nn, ne, nprop);
  const unsigned layout = vf_concretize_(vf_int_("layout", 0, 15));
  vf_file_put("d.geo", g.text(layout));
  g.compare(read_domain_geo<H, S, std::vector, Point<S, F>, I>("d.geo"));
}
VF_ENTRY(q_geo_1_1) { reads<1, 1, double>(2, 2, 1, 0); }
VF_ENTRY(q_geo_1_2) { reads<1, 2, double>(3, 4, 2, 1); }
VF_ENTRY(q_geo_1_3) { reads<1, 3, float>(3, 3, 3, 2); }
VF_ENTRY(q_geo_2_2) { reads<2, 2, double>(6, 7, 2, 0); }
VF_ENTRY(q_geo_2_3) { reads<2, 3, double, unsigned long>(6, 7, 2, 1); }
VF_ENTRY(q_geo_3_3) { reads<3, 3, double>(8, 6, 1, 2); }
// the whole reader, including the consistency check, on valid contents
template <unsigned H, unsigned S>
void domain(unsigned np, unsigned nn, unsigned ne, unsigned layout)
{
  Geo<H, S> g;
  g.draw(np, nn, ne, 0);
  for (unsigned i = 0; i < np; ++i)
    for (unsigned j = 0; j < i; ++j)
    {
      bool differ = false;
      for (unsigned k = 0; k < (np < 5 ? S : 1); ++k)
        differ |= g.pt[i][k] < g.pt[j][k] - 1e-3;
      vf_assume_(differ);
    }
  for (unsigned e = 0; e < ne; ++e)
  {
    for (unsigned i = 0; i < g.NF; ++i)
      for (unsigned j = 0; j < i; ++j)
        vf_assume_(g.node[e][i] > g.node[e][j]);
    for (unsigned i = 0; i < g.NV; ++i)
      for (unsigned j = 0; j < i; ++j)
        vf_assume_(g.vert[e][i] < g.vert[e][j]);
    for (unsigned f = 0; f < e; ++f)
      vf_assume_(g.node[e][0] > g.node[f][0] && g.vert[e][0] < g.vert[f][0]);
  }
  vf_file_put("d.geo", g.text(layout));
  g.compare(read_domain<H, S>("d.geo"));
}
VF_ENTRY(q_dom_1_1) { domain<1, 1>(3, 3, 2, 1); }
VF_ENTRY(q_dom_1_2) { domain<1, 2>(3, 4, 2, 0); }
VF_ENTRY(q_dom_2_2) { domain<2, 2>(5, 6, 1, 4); }
#ifndef NDEBUG
template <unsigned H, unsigned S>
void broken(unsigned first, unsigned last)
{
  Geo<H, S> g;
  g.draw(3, 3, 2, 1);
  const unsigned what = vf_concretize_(vf_int_("what", first, last)), layout = vf_concretize_(vf_int_("layout", 0, 1));
  std::string t;
  if (what < 9)
    t = g.text(layout, what);  // keyword missing
  else if (what == 9)
    t = g.text(layout & 4, 99, 9);  // properties of the last hyperedge missing
  else if (what == 10)
  {
    const unsigned sd = vf_concretize_(vf_int_("sd", 0, 9));
    vf_assume_(sd != S);
    t = g.text(layout, 99, 99, sd);
  }
  else if (what == 11)
  {
    const unsigned hd = vf_concretize_(vf_int_("hd", 0, 9));
    vf_assume_(hd != H);
    t = g.text(layout, 99, 99, S, hd);
  }
  else if (what == 12)
    t = g.text(layout, 99, 99, S, H, 0);
  else if (what == 13)
    t = g.text(layout, 99, 99, S, H, ~0u, 0);
  else if (what == 14)
    t = g.text(layout, 99, 99, S, H, ~0u, ~0u, 0);
  else if (what == 15)
  {
    g.nprop = 0;
    t = g.text(0, 99, 8);  // points of the last hyperedge missing
  }
  else
    t = "";
  vf_file_put("d.geo", t);
  vf_expect_abort_(true);
  read_domain_geo<H, S>("d.geo");
}
VF_ENTRY(q_bad_key) { broken<1, 2>(0, 8); }
VF_ENTRY(q_bad_count) { broken<1, 2>(9, 16); }
VF_ENTRY(q_bad_name)
{
  Geo<1, 2> g;
  g.draw(3, 3, 2, 0);
  const unsigned k = vf_concretize_(vf_int_("k", 0, 3));
  const char* nm[4] = {"d.gep", "d.txt", "dgeo", "d.geo.bak"};
  vf_file_put(nm[k], g.text(0));
  vf_expect_abort_(true);
  if (vf_concretize_(vf_int_("via", 0, 1)))
    read_domain_geo<1, 2>(nm[k]);
  else
    read_domain<1, 2>(nm[k]);
}
VF_ENTRY(q_missing_file)
{
  vf_expect_abort_(true);
  read_domain<1, 2>("nowhere.geo");
}
// invalid contents are rejected by the whole reader: one bad index or a duplicate, anywhere
template <unsigned H, unsigned S>
void rejected(unsigned what)
{
  Geo<H, S> g;
  const unsigned NF = 2 * H, NV = 1 << H;
  g.np = 2 * NV, g.nn = 2 * NF, g.ne = 2;
  for (unsigned i = 0; i < g.np; ++i)
    for (unsigned d = 0; d < S; ++d)
      g.pt[i][d] = i * (d + 1.);
  for (unsigned e = 0; e < 2; ++e)
  {
    for (unsigned i = 0; i < NF; ++i)
      g.node[e][i] = e * NF + i, g.face[e][i] = 0;
    for (unsigned i = 0; i < NV; ++i)
      g.vert[e][i] = e * NV + i;
  }
  const unsigned e = vf_concretize_(vf_int_("e", 0, 1));
  if (what == 0)
    g.node[e][vf_concretize_(vf_int_("i", 0, NF - 1))] = vf_int_("bad", g.nn, 1000000);
  else if (what == 1)
    g.vert[e][vf_concretize_(vf_int_("i", 0, NV - 1))] = vf_int_("bad", g.np, 1000000);
  else if (what == 2)
  {
    const unsigned i = vf_concretize_(vf_int_("i", 0, g.np - 1)), j = vf_concretize_(vf_int_("j", 0, g.np - 1));
    vf_assume_(i < j);
    for (unsigned d = 0; d < S; ++d)
      g.pt[i][d] = g.pt[j][d];
  }
  else if (what == 3)
    for (unsigned i = 0; i < NF; ++i)
      g.node[e][i] = g.node[1 - e][i];
  else if (what == 4)
    for (unsigned i = 0; i < NV; ++i)
      g.vert[e][i] = g.vert[1 - e][i];
  else
  {
    const unsigned i = vf_concretize_(vf_int_("i", 0, (what == 5 ? NF : NV) - 1)), j = vf_concretize_(vf_int_("j", 0, (what == 5 ? NF : NV) - 1));
    vf_assume_(i < j);
    if (what == 5)
      g.node[e][i] = g.node[e][j];
    else
      g.vert[e][i] = g.vert[e][j];
  }
  vf_file_put("d.geo", g.text(0));
  vf_expect_abort_(true);
  read_domain<H, S>("d.geo");
}
VF_ENTRY(q_rej_node) { rejected<1, 2>(0); }
VF_ENTRY(q_rej_vert) { rejected<1, 2>(1); }
VF_ENTRY(q_rej_dup) { rejected<1, 2>(2); }
VF_ENTRY(q_rej_dupn) { rejected<1, 1>(3); }
VF_ENTRY(q_rej_dupv) { rejected<1, 3>(4); }
VF_ENTRY(q_rej_same) { rejected<1, 3>(5); }
VF_ENTRY(q_rej_samev) { rejected<1, 3>(6); }
VF_ENTRY(q_rej2_node) { rejected<2, 2>(0); }
VF_ENTRY(q_rej2_vert) { rejected<2, 3>(1); }
VF_ENTRY(q_rej2_same) { rejected<2, 3>(5); }
VF_ENTRY(q_rej2_samev) { rejected<2, 3>(6); }
#endif
