// A hypergraph file: contents and text.
#pragma once
#include <vf.hxx>
#include <HyperHDG/dense_la.hxx>
#include <HyperHDG/read_domain.hxx>
template <unsigned H, unsigned S>
struct Geo
{
  static constexpr unsigned NF = 2 * H, NV = 1 << H;
  unsigned np, nn, ne, nprop = 0;
  double pt[8][3];
  uint64_t node[4][2 * 3], face[4][2 * 3], vert[4][8];
  double prop[4][3];
  // draw symbolic contents (indices valid, not necessarily distinct)
  void draw(unsigned np_, unsigned nn_, unsigned ne_, unsigned nprop_)
  {
    np = np_, nn = nn_, ne = ne_, nprop = nprop_;
    for (unsigned i = 0; i < np; ++i)
      for (unsigned d = 0; d < S; ++d)
        pt[i][d] = vf_real_("pt", -100., 100.);
    for (unsigned e = 0; e < ne; ++e)
    {
      for (unsigned i = 0; i < NF; ++i)
        node[e][i] = vf_int_("node", 0, nn - 1), face[e][i] = vf_int_("face", 0, 100000);
      for (unsigned i = 0; i < NV; ++i)
        vert[e][i] = vf_int_("vert", 0, np - 1);
      for (unsigned i = 0; i < nprop; ++i)
        prop[e][i] = vf_real_("prop", -100., 100.);
    }
  }
  static std::string count(const char* key, unsigned n, bool comment)
  {
    std::string s = key;
    s += " = ";
    s += std::to_string(n);
    s += comment ? ";  # a comment\n" : ";\n";
    return s;
  }
  // layout bits: 1 comments and blank lines between the sections, 2 trailing comments, 4 no newline at the end, 8 extra columns
  // drop: index of the section that is left out (>= 10: none); cut: number of trailing lines that are cut off
  std::string text(unsigned layout, unsigned drop = 99, unsigned short_section = 99, unsigned sd = S, unsigned hd = H,
                   unsigned np_ = ~0u, unsigned nn_ = ~0u, unsigned ne_ = ~0u) const
  {
    const std::string sep = layout & 1 ? "\n# comment on the next section\n\n" : "";
    const std::string tail = layout & 8 ? " 17 18\n" : "\n";
    const bool c = layout & 2;
    std::string s = layout & 1 ? "# A hypergraph\n\n" : "";
    if (drop != 0)
      s += count("Space_Dim    ", sd, c);
    if (drop != 1)
      s += count("HyperEdge_Dim", hd, c);
    s += sep;
    if (drop != 2)
      s += count("N_Points     ", np_ == ~0u ? np : np_, c);
    if (drop != 3)
      s += count("N_HyperNodes ", nn_ == ~0u ? nn : nn_, c);
    if (drop != 4)
      s += count("N_HyperEdges ", ne_ == ~0u ? ne : ne_, c);
    s += sep;
    if (drop != 5)
      s += "POINTS:\n";
    for (unsigned i = 0; i < np; ++i)
    {
      for (unsigned d = 0; d < S; ++d)
        s += (d ? " " : "") + vf_num(pt[i][d]);
      s += tail;
    }
    s += sep;
    if (drop != 6)
      s += "HYPERNODES_OF_HYPEREDGES:\n";
    for (unsigned e = 0; e < ne; ++e)
    {
      for (unsigned i = 0; i < NF; ++i)
        s += (i ? " " : "") + vf_numi(node[e][i]);
      s += tail;
    }
    s += sep;
    if (drop != 7)
      s += "TYPES_OF_HYPERFACES:\n";
    for (unsigned e = 0; e < ne; ++e)
    {
      for (unsigned i = 0; i < NF; ++i)
        s += (i ? "\t" : " ") + vf_numi(face[e][i]);
      s += tail;
    }
    s += sep;
    if (drop != 8)
      s += "POINTS_OF_HYPEREDGES:\n";
    for (unsigned e = 0; e < (short_section == 8 ? ne - 1 : ne); ++e)
    {
      for (unsigned i = 0; i < NV; ++i)
        s += (i ? " " : "") + vf_numi(vert[e][i]);
      s += tail;
    }
    if (nprop)
    {
      s += sep;
      s += "HYPEREDGE_PROPERTIES: " + std::to_string(nprop) + "\n";
      for (unsigned e = 0; e < (short_section == 9 ? ne - 1 : ne); ++e)
      {
        for (unsigned i = 0; i < nprop; ++i)
          s += (i ? " " : "") + vf_num(prop[e][i]);
        s += tail;
      }
    }
    if (layout & 4)
      s.pop_back();
    else if (layout & 1)
      s += "\n# end of the file\n";
    return s;
  }
  template <typename D>
  void compare(const D& d) const
  {
    using F = typename std::remove_reference_t<decltype(d.points[0])>::value_type;
    vf_assert_(d.n_points == np && d.n_hyNodes == nn && d.n_hyEdges == ne, "counts are those of the file");
    vf_assert_(d.points.size() == np && d.hyNodes_hyEdge.size() == ne && d.hyFaces_hyEdge.size() == ne && d.points_hyEdge.size() == ne,
               "lists have as many entries as the file announces");
    for (unsigned i = 0; i < np; ++i)
      for (unsigned k = 0; k < S; ++k)
        vf_near_(d.points[i][k], (F)pt[i][k], sizeof(F) == 4 ? 1e-4 : 1e-12, "coordinates are those of the file, in its order");
    for (unsigned e = 0; e < ne; ++e)
    {
      for (unsigned i = 0; i < NF; ++i)
      {
        vf_assert_(d.hyNodes_hyEdge[e][i] == node[e][i], "hypernodes of hyperedges are those of the file");
        vf_assert_(d.hyFaces_hyEdge[e][i] == face[e][i], "types of hyperfaces are those of the file");
      }
      for (unsigned i = 0; i < NV; ++i)
        vf_assert_(d.points_hyEdge[e][i] == vert[e][i], "points of hyperedges are those of the file");
    }
    vf_assert_(d.n_properties == nprop, "number of properties");
    vf_assert_(d.hyEdge_properties.size() == (nprop ? ne : 0), "properties are given for every hyperedge or none");
    for (unsigned e = 0; e < (nprop ? ne : 0); ++e)
    {
      vf_assert_(d.hyEdge_properties[e].size() == nprop, "as many properties as announced");
      for (unsigned i = 0; i < nprop; ++i)
        vf_near_(d.hyEdge_properties[e][i], (F)prop[e][i], sizeof(F) == 4 ? 1e-4 : 1e-12, "properties are those of the file");
    }
  }
};
