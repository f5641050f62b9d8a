// C24: plot options and the VTU files that are written.
// VF-BOUNDS: hyperedges of dimension 1, 2 and 3 in one to three space dimensions, up to 3 hyperedges with arbitrary incidence, symbolic geometry, trace values, time, scale and boundary scale; hyperedges and/or boundaries; 1..3 solution components, up to 3 successive plots, symbolic option values
// VF-ASSUME: topology, geometry, node descriptor and local solver are stand-ins with the documented interface; streams and directories are an in-memory model during symbolic execution; native replays use real files
// VF-CONFIG: quick debug
// VF-CONFIG: quick ndebug -DNDEBUG
#include "mock.inc"
#include <HyperHDG/global_loop/elliptic.hxx>
#include <HyperHDG/global_loop/parabolic.hxx>
#include <HyperHDG/global_loop/mass_approx_eigenvalue.hxx>
#include <HyperHDG/global_loop/nonlinear_eigenvalue.hxx>
#include <HyperHDG/global_loop/shifted_inverse_eigenvalue.hxx>
#include <HyperHDG/plot.hxx>
// geometry: an affine image of the cube for every hyperedge
template <unsigned H, unsigned S>
struct GState
{
  double t[3][S], m[3][S][H];
  static GState& get()
  {
    static GState g;
    return g;
  }
  Point<S, float> at(unsigned e, const double* p) const
  {
    Point<S, float> r;
    for (unsigned s = 0; s < S; ++s)
    {
      double v = t[e][s];
      for (unsigned k = 0; k < H; ++k)
        v += m[e][s][k] * p[k];
      r[s] = v;
    }
    return r;
  }
  Point<S, float> bdr(unsigned e, unsigned b, double scale, const double* p) const
  {
    double q[H];
    for (unsigned k = 0, j = 0; k < H; ++k)
      q[k] = k == b / 2 ? .5 + scale * (b % 2 ? .5 : -.5) : p[j++];
    return at(e, q);
  }
};
template <unsigned H, unsigned S>
class PGeom
{
 public:
  struct hyEdge
  {
    unsigned index;
    template <unsigned n, typename T>
    Point<S, float> lexicographic(unsigned i, const SmallVec<n, T>& pts) const
    {
      double p[H];
      for (unsigned k = 0; k < H; ++k, i /= n)
        p[k] = pts[i % n];
      return GState<H, S>::get().at(index, p);
    }
    template <unsigned n, typename T>
    Point<S, float> boundary_lexicographic(unsigned i, unsigned b, float scale, const SmallVec<n, T>& pts) const
    {
      vf_assert_(b < 2 * H, "only existing boundaries are plotted");
      double p[H];
      for (unsigned k = 0; k + 1 < H; ++k, i /= n)
        p[k] = pts[i % n];
      return GState<H, S>::get().bdr(index, b, scale, p);
    }
  };
  typedef hyEdge value_type;
  typedef double constructor_value_type;
  static constexpr unsigned int hyEdge_dim() { return H; }
  static constexpr unsigned int space_dim() { return S; }
  PGeom(const double&) {}
  PGeom(const MTopo<H, S>&) {}
  const value_type operator[](unsigned i) const { return {i}; }
  void set_refinement(unsigned) {}
  unsigned get_refinement() const { return 1; }
};
struct Const
{
  static constexpr unsigned n_fun() { return 1; }
  template <typename F, typename C, typename P>
  static F lin_comb_fct_val(const C& c, const P&)
  {
    return c[0];
  }
};
// local solver: the d-th component at a point is (d + 1) (1 + time) + sum of lambda * (node + 2 dof + d) + weighted coordinates
template <unsigned H, unsigned D, unsigned SYS, unsigned NSYS, bool W, typename F>
struct PSolver
{
  typedef MData data_type;
  typedef double constructor_value_type;
  PSolver() {}
  PSolver(const double&) {}
  static constexpr unsigned int hyEdge_dim() { return H; }
  static constexpr unsigned int n_glob_dofs_per_node() { return D; }
  static constexpr unsigned int system_dimension() { return SYS; }
  static constexpr unsigned int node_system_dimension() { return NSYS; }
  struct node_element
  {
    typedef std::tuple<Const> functions;
  };
  using Loc = std::array<std::array<F, D>, 2 * H>;
  static F val(unsigned d, unsigned e, const Loc& l, const double* p, double time)
  {
    double v = (d + 1) * (1. + time) + 5. * e;
    for (unsigned i = 0; i < 2 * H; ++i)
      for (unsigned a = 0; a < D; ++a)
        v += (i + 2. * a + d + 1.) * l[i][a];
    for (unsigned k = 0; k < H; ++k)
      v += (3. * k + 1. + d) * p[k];
    return v;
  }
  template <typename A, std::size_t n>
  std::array<std::array<F, Hypercube<H>::pow(n)>, SYS> vals(const std::array<A, n>& abs, const Loc& l, unsigned e, double time) const
  {
    std::array<std::array<F, Hypercube<H>::pow(n)>, SYS> r;
    for (unsigned i = 0; i < Hypercube<H>::pow(n); ++i)
    {
      double p[H];
      for (unsigned k = 0, j = i; k < H; ++k, j /= n)
        p[k] = abs[j % n];
      for (unsigned d = 0; d < SYS; ++d)
        r[d][i] = val(d, e, l, p, time);
    }
    return r;
  }
  template <typename A, std::size_t n>
  std::array<std::array<F, Hypercube<H>::pow(n)>, SYS> bulk_values(const std::array<A, n>& abs, const Loc& l, const F time = 0.) const
    requires(!W)
  {
    return vals(abs, l, 0, time);
  }
  template <typename A, std::size_t n, typename Edge>
  std::array<std::array<F, Hypercube<H>::pow(n)>, SYS> bulk_values(const std::array<A, n>& abs, const Loc& l, Edge& e, const F time = 0.) const
    requires(W)
  {
    vf_assert_(e.topology.index == e.geometry.index && e.topology.index == e.node_descriptor.index, "parts of the hyperedge that is plotted");
    return vals(abs, l, e.topology.index, time);
  }
};
// ---------------------------------------------------------------- reading a VTU file
struct Arr
{
  std::string name, comps;
  std::vector<std::string> tok;
};
struct Vtu
{
  std::vector<Arr> arr;
  std::string n_points, n_cells;
  bool nested = true;
  static std::string attr(const std::string& tag, const std::string& name)
  {
    size_t p = tag.find(" " + name + "=");
    if (p == std::string::npos)
      return std::string();
    p = tag.find('"', p);
    if (p == std::string::npos)
      return std::string();
    const size_t q = tag.find('"', p + 1);
    return q == std::string::npos ? std::string() : tag.substr(p + 1, q - p - 1);
  }
  Vtu(const std::string& s)
  {
    std::vector<std::string> stack;
    bool in = false;
    for (size_t p = 0; p < s.size();)
      if (s[p] == '<')
      {
        const size_t q = s.find('>', p);
        if (q == std::string::npos)
        {
          nested = false;
          return;
        }
        std::string tag = s.substr(p + 1, q - p - 1);
        p = q + 1;
        if (tag[0] == '?' || tag[0] == '!')
          continue;
        size_t w = 0;
        while (w < tag.size() && tag[w] != ' ')
          ++w;
        std::string word = tag.substr(0, w);
        if (word[0] == '/')
        {
          if (stack.empty() || "/" + stack.back() != word)
          {
            nested = false;
            return;
          }
          stack.pop_back();
          in = false;
          continue;
        }
        if (tag.back() == '/')
          continue;
        const std::string parent = stack.empty() ? std::string() : stack.back();
        stack.push_back(word);
        if (word == "Piece")
        {
          n_points = attr(tag, "NumberOfPoints");
          n_cells = attr(tag, "NumberOfCells");
        }
        if (word == "DataArray")
        {
          Arr a;
          a.name = parent == "Points" ? std::string("points") : parent + "/" + attr(tag, "Name");
          a.comps = attr(tag, "NumberOfComponents");
          arr.push_back(a);
          in = true;
        }
      }
      else if (s[p] == ' ' || s[p] == '\n' || s[p] == '\t' || s[p] == '\r')
        ++p;
      else
      {
        size_t q = p;
        while (q < s.size() && s[q] != ' ' && s[q] != '\n' && s[q] != '\t' && s[q] != '\r' && s[q] != '<')
          ++q;
        if (!in)
        {
          nested = false;
          return;
        }
        arr.back().tok.push_back(s.substr(p, q - p));
        p = q;
      }
    if (!stack.empty())
      nested = false;
  }
  const Arr* find(const std::string& n) const
  {
    for (auto& a : arr)
      if (a.name == n)
        return &a;
    return nullptr;
  }
};
static double num(const std::string& t, const char* msg)
{
  double d = 0.;
  vf_assert_(vf_to_num(t, d), msg);
  return d;
}
static unsigned uns(const std::string& t, const char* msg)
{
  unsigned v = 0;
  vf_assert_(!t.empty(), msg);
  for (char c : t)
  {
    vf_assert_(c >= '0' && c <= '9', msg);
    v = 10 * v + (c - '0');
  }
  return v;
}
template <typename T>
static void put_double(T& v, double d)
{
  v = d;
}
static void close_to(double a, double b, const char* msg) { vf_near_(a, b, .25, msg); }
enum
{
  EDGES = 1,
  BDR = 2,
  NUMBERS = 4
};
template <unsigned H, unsigned S, unsigned D, unsigned SYS, unsigned NSYS, bool W, typename F>
struct Case
{
  Spec<H> s;
  std::vector<F> x;
  double time, scale, bscale;
  unsigned ne;
  using Sol = PSolver<H, D, SYS, NSYS, W, F>;
  Case(unsigned nn, unsigned ne_, bool sym_graph, bool fine) : ne(ne_)
  {
    if (sym_graph)
      s = draw_graph<H>(nn, ne);
    else
    {
      s.n_nodes = nn, s.n_edges = ne;
      for (unsigned e = 0; e < ne; ++e)
        for (unsigned i = 0; i < 2 * H; ++i)
          s.node[e][i] = (2 * e + 3 * i) % nn;
    }
    auto& g = GState<H, S>::get();
    for (unsigned e = 0; e < ne; ++e)
      for (unsigned k = 0; k < S; ++k)
      {
        g.t[e][k] = vf_real_("t", -10., 10.);
        for (unsigned j = 0; j < H; ++j)
          g.m[e][k][j] = fine ? vf_real_("m", -10., 10.) : 1. + k + 2. * j + 5. * e;
      }
    x.resize(nn * D);
    for (auto& v : x)
      v = vf_realT<F>("x", -10., 10.);
    time = vf_realT<F>("time", -10., 10.);
    scale = fine ? 1. : vf_realT<float>("scale", .1, 2.);
    bscale = fine ? .5 : vf_realT<float>("bscale", .1, 2.);
  }
  void coords(unsigned i, double sc, double* p, unsigned dim) const
  {
    for (unsigned k = 0; k < dim; ++k)
      p[k] = .5 + sc * (i >> k & 1 ? .5 : -.5);
  }
  typename Sol::Loc gather(unsigned e) const
  {
    typename Sol::Loc l;
    for (unsigned i = 0; i < 2 * H; ++i)
      for (unsigned a = 0; a < D; ++a)
        l[i][a] = x[s.node[e][i] * D + a];
    return l;
  }
  void check(const std::string& file, int what, bool bdr_values = false) const
  {
    vf_assert_(vf_file_exists(file), "the plot is written to the announced file");
    Vtu v(vf_file_get(file));
    vf_assert_(v.nested, "the file is well-formed");
    const Arr *pts = v.find("points"), *con = v.find("Cells/connectivity"), *off = v.find("Cells/offsets"), *typ = v.find("Cells/types"), *val = v.find("PointData/values"),
              *idx = v.find("CellData/index");
    vf_assert_(pts && con && off && typ && val, "the file contains points, cells and values");
    vf_assert_((idx != nullptr) == !!(what & NUMBERS), "numbers are written on demand");
    const unsigned np = uns(v.n_points, "number of points"), nc = uns(v.n_cells, "number of cells");
    const unsigned edge_cells = what & EDGES ? ne : 0, bdr_cells = what & BDR ? ne * 2 * H : 0;
    vf_assert_(nc == edge_cells + bdr_cells, "one cell for every hyperedge and boundary that is plotted");
    vf_assert_(pts->tok.size() == 3 * np, "as many points as announced");
    vf_assert_(pts->comps == "3", "points have three components");
    vf_assert_(typ->tok.size() == nc && off->tok.size() == nc, "one type and one offset for each cell");
    const unsigned comps = SYS > NSYS ? SYS : NSYS;
    vf_assert_(val->comps == std::to_string(comps), "number of components");
    vf_assert_(val->tok.size() == comps * np, "one value for each point and component");
    if (idx)
      vf_assert_(idx->tok.size() == nc, "one number for each cell");
    const char* vtk[] = {"1", "3", "8", "11"};
    unsigned begin = 0;
    std::vector<bool> used(np, false);
    for (unsigned c = 0; c < nc; ++c)
    {
      const bool is_edge = c < edge_cells;
      const unsigned dim = is_edge ? H : H - 1, e = is_edge ? c : (c - edge_cells) / (2 * H), b = is_edge ? 0 : (c - edge_cells) % (2 * H);
      vf_assert_(typ->tok[c] == vtk[dim], "type of the cell");
      const unsigned end = uns(off->tok[c], "offsets are numbers");
      vf_assert_(end == begin + (1u << dim), "every cell has as many vertices as its type demands");
      vf_assert_(end <= con->tok.size(), "offsets lie in the connectivity");
      if (idx && is_edge)
        vf_assert_(uns(idx->tok[c], "numbers are numbers") == e, "number of the hyperedge");
      for (unsigned k = 0; k < 1u << dim; ++k)
      {
        const unsigned p = uns(con->tok[begin + k], "connectivity is a number");
        vf_assert_(p < np, "the connectivity refers to existing points");
        vf_assert_(!used[p], "cells do not share points");
        used[p] = true;
        double q[3];
        coords(k, is_edge ? scale : scale * bscale, q, dim);
        const Point<S, float> ref = is_edge ? GState<H, S>::get().at(e, q) : GState<H, S>::get().bdr(e, b, bscale, q);
        for (unsigned j = 0; j < 3; ++j)
        {
          const double d = num(pts->tok[3 * p + j], "coordinates are numbers");
          if (j < S)
            close_to(d, ref[j], "points are those of the geometry");
          else
            vf_assert_(d == 0., "missing coordinates are zero");
        }
        for (unsigned d = 0; d < comps; ++d)
        {
          const double w = num(val->tok[comps * p + d], "values are numbers");
          if (is_edge && d < SYS)
            close_to(w, Sol::val(d, W ? e : 0, gather(e), q, time), "values are those of the local solver for the hyperedge");
          else if (is_edge || d >= NSYS)
            vf_assert_(w == 0., "missing components are zero");
          else if (bdr_values && d == 0)
            close_to(w, x[s.node[e][b] * D], "values on boundaries are the values of the trace");
        }
      }
      begin = end;
    }
    vf_assert_(begin == con->tok.size(), "the connectivity contains all cells");
    for (unsigned p = 0; p < np; ++p)
      vf_assert_(used[p], "every point belongs to a cell");
  }
};
static std::string name_of(const PlotOptions& o)
{
  return o.outputDir + "/" + o.fileName + (o.printFileNumber ? "." + std::to_string(o.fileNumber) : std::string()) + ".vtu";
}
template <unsigned H, unsigned S, unsigned D, unsigned SYS, unsigned NSYS, bool W, typename F>
void file(unsigned nn, unsigned ne, bool sym_graph, int what, bool fine = false, bool round = false)
{
#ifdef VF_ENGINE
  vf_model::round_output = round;
#endif
  Case<H, S, D, SYS, NSYS, W, F> c(nn, ne, sym_graph, fine);
  HDGHyperGraph<D, MTopo<H, S>, PGeom<H, S>, MNode<H, S>, MData> graph(c.s);
  PSolver<H, D, SYS, NSYS, W, F> sol;
  PlotOptions o;
  o.plot_edges = what & EDGES;
  o.plot_edge_boundaries = what & BDR;
  o.numbers = what & NUMBERS;
  o.scale = c.scale;
  o.boundary_scale = c.bscale;
  const std::vector<F> x(c.x);
  plot(graph, sol, x, o, (F)c.time);
  for (unsigned i = 0; i < x.size(); ++i)
    vf_assert_(x[i] == c.x[i], "plotting does not change the solution");
  c.check("output/example.0.vtu", what);
}
VF_ENTRY(q_file_12) { file<1, 2, 1, 2, 1, true, double>(3, 2, true, EDGES); }
VF_ENTRY(q_file_12b) { file<1, 2, 1, 2, 1, true, double>(3, 2, true, BDR | NUMBERS); }
VF_ENTRY(q_file_13) { file<1, 3, 2, 1, 1, false, double>(3, 2, true, EDGES | BDR); }
VF_ENTRY(q_file_11) { file<1, 1, 1, 1, 2, true, float>(4, 3, false, EDGES | BDR | NUMBERS); }
VF_ENTRY(q_file_22) { file<2, 2, 2, 3, 1, true, double>(5, 2, false, EDGES | BDR | NUMBERS); }
VF_ENTRY(q_file_22e) { file<2, 2, 1, 1, 1, false, double>(4, 2, true, EDGES); }
VF_ENTRY(q_file_23) { file<2, 3, 1, 1, 3, true, float>(5, 2, false, EDGES | BDR, true); }
VF_ENTRY(q_file_33) { file<3, 3, 1, 1, 1, true, double>(7, 1, false, EDGES | BDR | NUMBERS, true); }
VF_ENTRY(q_file_33b) { file<3, 3, 1, 4, 1, true, double>(6, 2, false, BDR); }
VF_ENTRY(q_file_none) { file<1, 2, 1, 1, 1, true, double>(3, 2, false, 0); }
VF_ENTRY(q_file_round) { file<1, 2, 1, 1, 1, true, double>(2, 1, false, EDGES, true, true); }
#ifdef VF_THOROUGH
VF_ENTRY(t_file_13) { file<1, 3, 2, 2, 2, true, double>(4, 3, true, EDGES | BDR | NUMBERS); }
VF_ENTRY(t_file_22) { file<2, 2, 2, 2, 2, true, double>(5, 3, true, EDGES | BDR | NUMBERS); }
VF_ENTRY(t_file_33) { file<3, 3, 2, 4, 1, false, double>(9, 3, false, EDGES | BDR | NUMBERS); }
VF_ENTRY(t_file_round) { file<2, 2, 1, 2, 1, true, double>(4, 1, false, EDGES | BDR, true, true); }
#endif
// known deficiencies: number of subintervals and values on boundaries
VF_ENTRY(q_known_sub)
{
  Case<1, 2, 1, 1, 1, true, double> c(2, 1, false, true);
  HDGHyperGraph<1, MTopo<1, 2>, PGeom<1, 2>, MNode<1, 2>, MData> graph(c.s);
  PSolver<1, 1, 1, 1, true, double> sol;
  PlotOptions o;
  o.n_subintervals = 2;
  plot(graph, sol, c.x, o, c.time);
  Vtu v(vf_file_get("output/example.0.vtu"));
  vf_assert_(uns(v.n_cells, "number of cells") == 2, "hyperedges are split into the requested number of subintervals");
}
VF_ENTRY(q_known_bdr)
{
  Case<1, 2, 1, 1, 1, true, double> c(2, 1, false, true);
  HDGHyperGraph<1, MTopo<1, 2>, PGeom<1, 2>, MNode<1, 2>, MData> graph(c.s);
  PSolver<1, 1, 1, 1, true, double> sol;
  PlotOptions o;
  o.plot_edges = false, o.plot_edge_boundaries = true;
  o.boundary_scale = c.bscale;
  plot(graph, sol, c.x, o, c.time);
  c.check("output/example.0.vtu", BDR, true);
}
// ---------------------------------------------------------------- file names and numbers over several plots
static void names(int variant)
{
  Case<1, 2, 1, 1, 1, true, double> c(2, 1, false, true);
  HDGHyperGraph<1, MTopo<1, 2>, PGeom<1, 2>, MNode<1, 2>, MData> graph(c.s);
  PSolver<1, 1, 1, 1, true, double> sol;
  PlotOptions o;
  const unsigned first[] = {0, 7, 9, 99};
  unsigned n = o.fileNumber = first[vf_concretize_(vf_int_("first", 0, 3))];
  const bool print = vf_concretize_(vf_int_("print", 0, 1)), incr = vf_concretize_(vf_int_("increment", 0, 1));
  o.printFileNumber = print, o.incrementFileNumber = incr;
  if (variant)
    o.outputDir = "dir", o.fileName = "a.b-c";
  const std::string base = variant ? "dir/a.b-c" : "output/example";
  for (unsigned k = 0; k < 3; ++k)
  {
    for (auto& v : c.x)
      v = vf_real_("x", -10., 10.);
    c.time = vf_real_("time", -10., 10.);
    const std::string f = base + (print ? "." + std::to_string(n) : std::string()) + ".vtu";
    const bool before = vf_file_exists(f);
    vf_assert_(!before || k > 0, "nothing is written before");
    plot(graph, sol, c.x, o, c.time);
    c.check(f, EDGES);
    if (incr)
      ++n;
    vf_assert_(o.fileNumber == n, "the file number is incremented on demand after each plot");
    vf_assert_(o.printFileNumber == print && o.incrementFileNumber == incr && o.plot_edges && !o.plot_edge_boundaries && !o.numbers, "plotting does not change the options");
  }
}
VF_ENTRY(q_names) { names(0); }
VF_ENTRY(q_names_dir) { names(1); }
// ---------------------------------------------------------------- options
struct Opt
{
  PlotOptions o;
  void same(const PlotOptions& p, unsigned but) const
  {
    const char* msg = "setting one option does not change another one";
    vf_assert_(but == 0 || o.outputDir == p.outputDir, msg);
    vf_assert_(but == 1 || o.fileName == p.fileName, msg);
    vf_assert_(but == 2 || o.fileEnding == p.fileEnding, msg);
    vf_assert_(but == 3 || o.fileNumber == p.fileNumber, msg);
    vf_assert_(but == 4 || o.printFileNumber == p.printFileNumber, msg);
    vf_assert_(but == 5 || o.incrementFileNumber == p.incrementFileNumber, msg);
    vf_assert_(but == 6 || o.plot_edges == p.plot_edges, msg);
    vf_assert_(but == 7 || o.plot_edge_boundaries == p.plot_edge_boundaries, msg);
    vf_assert_(but == 8 || o.scale == p.scale, msg);
    vf_assert_(but == 9 || o.boundary_scale == p.boundary_scale, msg);
    vf_assert_(o.n_subintervals == p.n_subintervals && o.numbers == p.numbers, msg);
  }
};
static const char* const names_[] = {"outputDir", "fileName", "fileEnding", "fileNumber", "printFileNumber", "incrementFileNumber", "plotEdges", "plotEdgeBoundaries", "scale", "boundaryScale"};
static void draw(PlotOptions& o)
{
  o.outputDir = "dir";
  o.fileName = "name";
  o.fileNumber = vf_int_("number", 3, 5);
  o.printFileNumber = vf_int_("print", 0, 1);
  o.incrementFileNumber = vf_int_("increment", 0, 1);
  o.plot_edges = vf_int_("edges", 0, 1);
  o.plot_edge_boundaries = vf_int_("boundaries", 0, 1);
  o.scale = vf_realf_("scale", .1, 2.);
  o.boundary_scale = vf_realf_("bscale", .1, 2.);
}
// every option: the value becomes the new one, all others stay, and the new value is returned; reading changes nothing
static void options(unsigned k)
{
  PlotOptions o;
  draw(o);
  Opt old{o};
  std::string r;
  for (int step = 0; step < 2; ++step)
  {
    switch (k)
    {
      case 0:
      case 1:
      {
        const char* const v[] = {"a", "some/where", "0", "true"};
        const std::string value = v[vf_concretize_(vf_int_("value", 0, 3))];
        if (step == 0)
          r = set_plot_option(o, names_[k], value);
        vf_assert_(step || (k ? o.fileName : o.outputDir) == value, "option of text type is set");
        if (step)
          r = set_plot_option(o, names_[k]);
        vf_assert_(r == (k ? o.fileName : o.outputDir), "the value of the option is returned");
        break;
      }
      case 2:
        r = step ? set_plot_option(o, names_[k]) : set_plot_option(o, names_[k], "vtu");
        vf_assert_(o.fileEnding == PlotOptions::vtu, "the file ending is set");
        vf_assert_(r == "vtu", "the file ending is returned");
        break;
      case 3:
      {
        const unsigned table[] = {0, 1, 9, 10, 123, 4096, 99999, 2147483647u};
        const unsigned n = step ? o.fileNumber : table[vf_concretize_(vf_int_("n", 0, 7))];
        r = step ? set_plot_option(o, names_[k]) : set_plot_option(o, names_[k], vf_numi(n));
        vf_assert_(o.fileNumber == n, "the file number is set");
        vf_assert_(r == std::to_string(n), "the file number is returned");
        break;
      }
      case 4:
      case 5:
      case 6:
      case 7:
      {
        const char* const v[] = {"false", "true", "0", "1"};
        const unsigned i = vf_concretize_(vf_int_("value", 0, 3));
        bool& b = k == 4 ? o.printFileNumber : k == 5 ? o.incrementFileNumber : k == 6 ? o.plot_edges : o.plot_edge_boundaries;
        if (!step)
        {
          r = set_plot_option(o, names_[k], v[i]);
          vf_assert_(b == !!(i % 2), "option of yes/no type is set");
        }
        else
          r = set_plot_option(o, names_[k]);
        vf_assert_(r == (b ? "1" : "0"), "the value of the yes/no option is returned");
        break;
      }
      default:
      {
        const double d = vf_realf_("value", .001, 10.);
        float& b = k == 8 ? o.scale : o.boundary_scale;
        if (!step)
        {
          r = set_plot_option(o, names_[k], vf_num(d));
          vf_near_(b, d, 1e-6, "option of number type is set");
        }
        else
          r = set_plot_option(o, names_[k]);
        vf_near_(num(r, "the option is a number"), b, 1e-6, "the value of the number option is returned");
      }
    }
    old.same(o, k);
  }
}
VF_ENTRY(q_opt_dir) { options(0); }
VF_ENTRY(q_opt_name) { options(1); }
VF_ENTRY(q_opt_ending) { options(2); }
VF_ENTRY(q_opt_number) { options(3); }
VF_ENTRY(q_opt_print) { options(4); }
VF_ENTRY(q_opt_incr) { options(5); }
VF_ENTRY(q_opt_edges) { options(6); }
VF_ENTRY(q_opt_bdr) { options(7); }
VF_ENTRY(q_opt_scale) { options(8); }
VF_ENTRY(q_opt_bscale) { options(9); }
VF_ENTRY(q_opt_default)
{
  PlotOptions o;
  vf_assert_(o.outputDir == "output" && o.fileName == "example" && o.fileEnding == PlotOptions::vtu && o.fileNumber == 0 && o.printFileNumber && o.incrementFileNumber &&
               !o.plot_edge_boundaries && o.plot_edges && o.scale == 1.f && o.boundary_scale == 1.f && !o.numbers,
             "documented default options");
}
#ifndef NDEBUG
static void broken(unsigned k)
{
  PlotOptions o;
  vf_expect_abort_(true);
  switch (k)
  {
    case 0: set_plot_option(o, "nothing", "1"); break;
    case 1: set_plot_option(o, "nothing"); break;
    case 2: set_plot_option(o, "fileEnding", "vtk"); break;
    default:
    {
      Case<1, 2, 1, 1, 1, true, double> c(2, 1, false, true);
      HDGHyperGraph<1, MTopo<1, 2>, PGeom<1, 2>, MNode<1, 2>, MData> graph(c.s);
      PSolver<1, 1, 1, 1, true, double> sol;
      (k == 3 ? o.fileName : o.outputDir) = "";
      plot(graph, sol, c.x, o, c.time);
    }
  }
  vf_assert_(false, "unknown options and empty names are rejected");
}
VF_ENTRY(q_bad_set) { broken(0); }
VF_ENTRY(q_bad_get) { broken(1); }
VF_ENTRY(q_bad_type) { broken(2); }
VF_ENTRY(q_bad_name) { broken(3); }
VF_ENTRY(q_bad_dir) { broken(4); }
#endif
// ---------------------------------------------------------------- through the global loops
template <template <typename, typename, typename, typename, typename...> typename LoopT>
void loops()
{
  Case<1, 2, 1, 2, 1, true, double> c(3, 2, true, true);
  using L = LoopT<MTopo<1, 2>, PGeom<1, 2>, MNode<1, 2>, PSolver<1, 1, 2, 1, true, double>>;
  L loop(c.s);
  vf_assert_(loop.plot_option("fileName", "other") == "other", "the loop sets options");
  vf_assert_(loop.plot_option("fileNumber", "4") == "4", "the loop sets options");
  vf_assert_(loop.plot_option("boundaryScale", "0.5") != "", "the loop sets options");
  if (vf_concretize_(vf_int_("boundaries", 0, 1)))
  {
    loop.plot_option("plotEdgeBoundaries", "true");
    loop.plot_solution(c.x, c.time);
    c.check("output/other.4.vtu", EDGES | BDR);
  }
  else
  {
    loop.plot_solution(c.x, c.time);
    c.check("output/other.4.vtu", EDGES);
    c.time = 0.;
    loop.plot_solution(c.x);
    c.check("output/other.5.vtu", EDGES);
  }
}
template <typename T, typename G, typename N, typename S, typename... R>
using E_ = GlobalLoop::Elliptic<T, G, N, S, R...>;
template <typename T, typename G, typename N, typename S, typename... R>
using P_ = GlobalLoop::Parabolic<T, G, N, S, R...>;
template <typename T, typename G, typename N, typename S, typename... R>
using M_ = GlobalLoop::MassApproxEigenvalue<T, G, N, S, R...>;
template <typename T, typename G, typename N, typename S, typename... R>
using N_ = GlobalLoop::NonlinearEigenvalue<T, G, N, S, R...>;
template <typename T, typename G, typename N, typename S, typename... R>
using S_ = GlobalLoop::ShiftedInverseEigenvalue<T, G, N, S, R...>;
VF_ENTRY(q_loop_ell) { loops<E_>(); }
VF_ENTRY(q_loop_par) { loops<P_>(); }
VF_ENTRY(q_loop_mass) { loops<M_>(); }
VF_ENTRY(q_loop_nonl) { loops<N_>(); }
VF_ENTRY(q_loop_shift) { loops<S_>(); }
