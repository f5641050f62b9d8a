// C13: epsilon neighbourhood graphs.
// VF-BOUNDS: 1..4 points in 1..3 dimensions with symbolic coordinates in any order (4 points and 3 points in more than one dimension: given with increasing first coordinate, in the thorough tier any order; 4 points in two dimensions: from a set of coordinates; 8 and 9 points: five given sets of points), symbolic epsilon; layouts with comments and trailing columns
// VF-ASSUME: in-memory model of the standard streams (models/std), digits lost on output as an arbitrary relative error; native replays use real files
// VF-OPTS: .* --query-ms 60000
#include <vf.hxx>
#include <HyperHDG/dense_la.hxx>
#include <HyperHDG/read_domain.hxx>
struct Input
{
  unsigned n, dim;
  double p[9][3], eps;
  std::string text(unsigned layout) const
  {
    std::string s = layout & 1 ? "# points of a graph\n\n" : "";
    s += "Space_Dim = " + std::to_string(dim) + (layout & 2 ? ";  # comment\n" : ";\n");
    s += "Epsilon   = " + vf_num(eps) + ";\n";
    s += layout & 1 ? "\n# comment\n\nPOINTS:\n" : "POINTS:\n";
    for (unsigned i = 0; i < n; ++i)
    {
      for (unsigned d = 0; d < dim; ++d)
        s += (d ? " " : "") + vf_num(p[i][d]);
      s += layout & 4 ? " 0.5 0.25\n" : "\n";
    }
    return s;
  }
  double d2(unsigned i, unsigned j) const
  {
    double s = 0.;
    for (unsigned d = 0; d < dim; ++d)
      s += (p[i][d] - p[j][d]) * (p[i][d] - p[j][d]);
    return s;
  }
  bool near(unsigned i, unsigned j, bool single) const
  {
    if (single)
      vf_assume_(std::abs(d2(i, j) - eps * eps) > 4e-3 * eps * eps);
#ifndef VF_ENGINE  // on the boundary rounding decides
    vf_assume_(std::abs(d2(i, j) - eps * eps) > (single ? 4e-3 : 1e-9) * eps * eps || (!single && d2(i, j) == eps * eps));
#endif
    return d2(i, j) < eps * eps;
  }
};
// kind 0: any graph whose points are unique (connected or not); sorted: first coordinates are increasing
template <unsigned dim, typename F>
void graph(unsigned n, bool sorted, unsigned layout, bool third = false, bool fixed = false, const double (*shape)[2] = nullptr)
{
  Input in;
  in.n = n, in.dim = dim;
  in.eps = vf_real_("eps", 0.01, 10.);
  for (unsigned i = 0; i < n; ++i)
    for (unsigned d = 0; d < dim; ++d)
    {
      in.p[i][d] = vf_real_("p", -10., 10.);
      if (third)
        in.p[i][d] += 1. / 3.;
      if (fixed)  // the first coordinates are increasing, the second ones any of three
        in.p[i][d] = d == 0 ? .1 * (i + i * (i - 1) * .5 + (i > 2)) : d == 1 && i > 0 ? .5 * vf_concretize_(vf_int_("y", 0, 2)) : 0.;
      if (shape)
        in.p[i][d] = d < 2 ? shape[i][d] : .125 * (i % 3);
    }
  fixed = fixed || shape;
  bool near[9][9], reach[9];
  for (unsigned i = 0; i < n; ++i)
    for (unsigned j = 0; j < i; ++j)
    {
      if (sorted)
        vf_assume_(in.p[i][0] > in.p[j][0] + 1e-3);
      else if (dim == 1)
        vf_assume_(std::abs(in.p[i][0] - in.p[j][0]) > 1e-3);
      else
        vf_assume_(in.d2(i, j) > 1e-6);
    }
  for (unsigned i = 0; i < n; ++i)
    for (unsigned j = 0; j < i; ++j)
    {
      if (fixed)
        vf_assume_(std::abs(std::sqrt(in.d2(i, j)) - in.eps) > 1e-6);
      near[i][j] = near[j][i] = fixed ? std::sqrt(in.d2(i, j)) < in.eps : in.near(i, j, sizeof(F) == 4);
    }
  // connectedness by fixed point iteration
  for (unsigned i = 0; i < n; ++i)
    reach[i] = i == 0;
  for (unsigned k = 1; k < n; ++k)
    for (unsigned i = 0; i < n; ++i)
      for (unsigned j = 0; j < n; ++j)
        if (i != j)
          reach[i] = reach[i] || (reach[j] && near[i][j]);
  bool connected = true;
  for (unsigned i = 0; i < n; ++i)
    connected = connected && reach[i];
  vf_file_put("g.pts", in.text(layout));
  std::string name = "g.pts";
  if (!connected)
    vf_expect_abort_(true);
#ifdef VF_ENGINE
  vf_model::round_output = third;
#endif
  make_epsilon_neighborhood_graph<dim, std::vector, Point<dim, F>, unsigned>(name);
#ifdef VF_ENGINE
  vf_model::round_output = false;
#endif
  vf_assert_(connected, "a graph is only produced if all points are connected");
  vf_assert_(name == "g.pts.geo", "the name of the produced file is returned");
  vf_assert_(vf_file_exists(name), "the announced file exists");
  const auto g = read_domain_geo<1, dim, std::vector, Point<dim, double>>(name);
  vf_assert_(g.n_points == n && g.n_hyNodes == n && g.points.size() == n, "as many points and nodes as given");
  // which input point is the k-th one of the file
  unsigned perm[9];
  for (unsigned k = 0; k < n; ++k)
  {
    unsigned found = n;
    for (unsigned i = 0; i < n && found == n; ++i)
    {
      bool same = true;
      for (unsigned d = 0; d < dim && same; ++d)
        same = std::abs(g.points[k][d] - in.p[i][d]) <= (sizeof(F) == 4 || !third ? 1e-5 : 1e-12);
      if (same)
        found = i;
    }
    vf_assert_(found < n, "every point of the file is one of the given points, with its coordinates");
    for (unsigned l = 0; l < k; ++l)
      vf_assert_(perm[l] != found, "every given point appears once");
    perm[k] = found;
  }
  unsigned count[9][9] = {};
  for (unsigned e = 0; e < g.n_hyEdges; ++e)
  {
    const unsigned a = g.hyNodes_hyEdge[e][0], b = g.hyNodes_hyEdge[e][1];
    vf_assert_(a < n && b < n && a != b, "edges connect two different existing points");
    ++count[a][b], ++count[b][a];
    vf_assert_(g.points_hyEdge[e][0] == a && g.points_hyEdge[e][1] == b, "end points and nodes of an edge agree");
    vf_assert_(g.hyFaces_hyEdge[e][0] == a && g.hyFaces_hyEdge[e][1] == b, "the ends of an edge carry the numbers of their nodes");
  }
  for (unsigned a = 0; a < n; ++a)
    for (unsigned b = 0; b < a; ++b)
      vf_assert_(count[a][b] == (near[perm[a]][perm[b]] ? 1 : 0), "two points are joined by exactly one edge if closer than epsilon, and by none otherwise");
}
VF_ENTRY(q_1d_2) { graph<1, double>(2, false, 0); }
VF_ENTRY(q_1d_3) { graph<1, double>(3, false, 1); }
VF_ENTRY(q_1d_4) { graph<1, double>(4, true, 2); }
VF_ENTRY(q_2d_2) { graph<2, double>(2, false, 4); }
VF_ENTRY(q_2d_3) { graph<2, double>(3, true, 7); }
VF_ENTRY(q_3d_2) { graph<3, double>(2, true, 0); }
VF_ENTRY(q_1d_3f) { graph<1, float>(3, true, 0); }
VF_ENTRY(q_2d_4) { graph<2, double>(4, true, 0, false, true); }
// many points: only epsilon is symbolic
static const double arms[9][2] = {{0, 0}, {4, 0}, {-3, 1}, {1.1, .3}, {2.3, -.4}, {3.1, .2}, {-1.2, .1}, {-2.2, .7}, {0, 1.3}};
static const double ring[8][2] = {{1, 0}, {.6, .8}, {0, 1.1}, {-.7, .7}, {-1, 0}, {-.75, -.7}, {0, -1.05}, {.7, -.7}};
static const double grid[9][2] = {{2, 2}, {0, 0}, {1, 0}, {2, 0.}, {0, 1.1}, {1, 1.1}, {2, 1.1}, {0, 2}, {1, 2}};
// the shortest way between neighbours in space visits far first coordinates
static const double hook[8][2] = {{0, 0}, {1, .05}, {2, .1}, {3, .15}, {3, 1.1}, {2, 1.15}, {1, 1.2}, {.1, 1.25}};
#ifdef VF_THOROUGH
VF_ENTRY(t_arms) { graph<2, double>(9, false, 0, false, false, arms); }
#endif
VF_ENTRY(q_ring) { graph<2, double>(8, false, 3, false, false, ring); }
VF_ENTRY(q_grid) { graph<2, double>(9, false, 4, false, false, grid); }
VF_ENTRY(q_hook) { graph<2, double>(8, false, 0, false, false, hook); }
VF_ENTRY(q_hook_3d) { graph<3, double>(8, false, 0, false, false, hook); }
VF_ENTRY(q_digits) { graph<1, double>(2, true, 0, true); }
VF_ENTRY(q_digits_f) { graph<1, float>(2, true, 0, true); }
VF_ENTRY(q_digits_2d) { graph<2, double>(2, true, 0, true); }
#ifdef VF_THOROUGH
VF_ENTRY(t_2d_3) { graph<2, double>(3, false, 0); }
VF_ENTRY(t_2d_4) { graph<2, double>(4, true, 0); }
VF_ENTRY(t_3d_3) { graph<3, double>(3, true, 0); }
VF_ENTRY(t_1d_4) { graph<1, double>(4, false, 2); }
VF_ENTRY(t_1d_5) { graph<1, double>(5, true, 0); }
#endif
// one point: no edges, hence not a hypergraph; duplicates, a wrong dimension, a bad epsilon, no points
VF_ENTRY(q_bad)
{
  Input in;
  const unsigned what = vf_concretize_(vf_int_("what", 0, 5));
  in.n = what == 3 ? 0 : 3, in.dim = what == 1 ? 3 : 2;
  in.eps = what == 2 ? vf_real_("eps", -10., 0.) : 1.;
  for (unsigned i = 0; i < 3; ++i)
    for (unsigned d = 0; d < in.dim; ++d)
      in.p[i][d] = vf_real_("p", -0.1, 0.1);
  if (what == 0)
  {
    const unsigned i = vf_concretize_(vf_int_("i", 0, 2)), j = vf_concretize_(vf_int_("j", 0, 2));
    vf_assume_(i != j);
    for (unsigned d = 0; d < in.dim; ++d)
      in.p[i][d] = in.p[j][d];
  }
  std::string t = in.text(0), name = what == 4 ? "g.txt" : "g.pts";
  if (what == 5)
    t = "Space_Dim = 2;\nPOINTS:\n0 0\n1 0\n";
  vf_file_put(name, t);
  vf_expect_abort_(true);
  make_epsilon_neighborhood_graph<2, std::vector, Point<2, double>, unsigned>(name);
}
// the whole reader turns points into a domain
VF_ENTRY(q_reader)
{
  Input in;
  in.n = 3, in.dim = 2, in.eps = 1.5;
  for (unsigned i = 0; i < 3; ++i)
  {
    in.p[i][0] = i;
    in.p[i][1] = vf_real_("y", 0., 0.1);
  }
  vf_file_put("g.pts", in.text(0));
  const auto g = read_domain<1, 2>("g.pts");
  vf_assert_(g.n_hyEdges == 2 && g.n_hyNodes == 3 && g.n_points == 3, "a chain of three points");
  for (unsigned i = 0; i < 3; ++i)
    for (unsigned d = 0; d < 2; ++d)
      vf_near_(g.points[i][d], in.p[i][d], 1e-5, "coordinates are kept");
}
