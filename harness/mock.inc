// Stand-ins for topology, geometry, node descriptor and local solver, so that HyperGraph and global loops run
// on arbitrary small hypergraphs and arbitrary (symbolic) local operators.
#pragma once
#include <vf.hxx>
#include <HyperHDG/dense_la.hxx>
#include <HyperHDG/hdg_hypergraph.hxx>
#include <array>
#include <memory>
#include <vector>
template <unsigned H>
struct Spec
{
  static constexpr unsigned E = 10;
  unsigned n_nodes = 0, n_edges = 0;
  unsigned node[E][2 * H];
};
// refinement level L: L copies of the graph
template <unsigned H, unsigned S = 2>
class MTopo
{
 public:
  struct hyEdge
  {
    unsigned index;
    SmallVec<2 * H, unsigned> nodes;
    unsigned serial = 0;
    const SmallVec<2 * H, unsigned>& get_hyNode_indices() const { return nodes; }
  };
  typedef hyEdge value_type;
  typedef Spec<H> constructor_value_type;
  static constexpr unsigned int hyEdge_dim() { return H; }
  static constexpr unsigned int space_dim() { return S; }
  Spec<H> spec;
  unsigned level = 1;
  MTopo(const Spec<H>& s) : spec(s) {}
  const value_type operator[](unsigned i) const
  {
    vf_assert_(i < n_hyEdges(), "only existing hyperedges are accessed (topology)");
    hyEdge e;
    e.index = i;
    for (unsigned k = 0; k < 2 * H; ++k)
      e.nodes[k] = spec.node[i % spec.n_edges][k] + i / spec.n_edges * spec.n_nodes;
    return e;
  }
  unsigned n_hyEdges() const { return spec.n_edges * level; }
  unsigned n_hyNodes() const { return spec.n_nodes * level; }
  unsigned get_refinement() const { return level; }
  void set_refinement(unsigned l) { level = l; }
};
template <unsigned H, unsigned S = 2>
class MGeom
{
 public:
  struct hyEdge
  {
    unsigned index;
    double tag;
  };
  typedef hyEdge value_type;
  typedef double constructor_value_type;
  static constexpr unsigned int hyEdge_dim() { return H; }
  static constexpr unsigned int space_dim() { return S; }
  double tag = -1.;
  unsigned level = 1, n = 0;
  MGeom(const double& t) : tag(t) {}
  MGeom(const MTopo<H, S>& t) : tag(t.n_hyEdges()) {}
  const value_type operator[](unsigned i) const { return {i, tag}; }
  void set_refinement(unsigned l) { level = l; }
  unsigned get_refinement() const { return level; }
};
template <unsigned H, unsigned S = 2>
class MNode
{
 public:
  struct hyEdge
  {
    unsigned index;
    unsigned operator[](unsigned i) const { return types ? types[index][i] : 0; }
    const unsigned (*types)[2 * H];
  };
  typedef hyEdge value_type;
  typedef MTopo<H, S> constructor_value_type;
  static constexpr unsigned int hyEdge_dim() { return H; }
  static constexpr unsigned int space_dim() { return S; }
  static inline unsigned types[16][2 * H];
  unsigned level = 1, edges;
  MNode(const MTopo<H, S>& t) : edges(t.n_hyEdges()) {}
  const value_type operator[](unsigned i) const { return {i, types}; }
  void set_refinement(unsigned l) { level = l; }
  unsigned get_refinement() const { return level; }
};
struct MData
{
  int owner = -1;
  double value = 0.;
};
// local solver: new[i][a] += (1 + time) * sum L[e][i][a][j][b] old[j][b]; the residual adds time-dependent data
template <unsigned H, unsigned D, typename F>
struct Local
{
  static constexpr unsigned E = 10;
  F L[E][2 * H][D][2 * H][D], M[E][2 * H][D][2 * H][D], b[E][2 * H][D];
  unsigned visits[E];
  static Local& get()
  {
    static Local l;
    return l;
  }
  // dense: all entries symbolic
  void draw(unsigned edges, bool uniform)
  {
    for (unsigned e = 0; e < edges; ++e)
    {
      visits[e] = 0;
      for (unsigned i = 0; i < 2 * H; ++i)
        for (unsigned a = 0; a < D; ++a)
        {
          b[e][i][a] = uniform && e ? b[0][i][a] : vf_realT<F>("b", -10., 10.);
          for (unsigned j = 0; j < 2 * H; ++j)
            for (unsigned c = 0; c < D; ++c)
            {
              L[e][i][a][j][c] = uniform && e ? L[0][i][a][j][c] : vf_realT<F>("L", -10., 10.);
              M[e][i][a][j][c] = F(i + 1) - F(3 * a) + F(2 * j) + F(c) + F(e);
            }
        }
    }
  }
  using Loc = std::array<std::array<F, D>, 2 * H>;
  void apply(unsigned e, const F (&mat)[E][2 * H][D][2 * H][D], const Loc& x, F scale, F add, Loc& y) const
  {
    for (unsigned i = 0; i < 2 * H; ++i)
      for (unsigned a = 0; a < D; ++a)
      {
        F s = 0.;
        for (unsigned j = 0; j < 2 * H; ++j)
          for (unsigned c = 0; c < D; ++c)
            s += mat[e][i][a][j][c] * x[j][c];
        y[i][a] += scale * s + add * b[e][i][a];
      }
  }
};
template <unsigned H, unsigned D, typename F, bool with_edge>
struct MSolver
{
  typedef MData data_type;
  typedef double constructor_value_type;
  double param = 1.;
  MSolver() {}
  MSolver(const double& p) : param(p) {}
  static constexpr unsigned int hyEdge_dim() { return H; }
  static constexpr unsigned int n_glob_dofs_per_node() { return D; }
  using Loc = std::array<std::array<F, D>, 2 * H>;
  using L = Local<H, D, F>;
  template <typename Edge>
  static unsigned visit(Edge& e)
  {
    vf_assert_(e.topology.index == e.geometry.index && e.topology.index == e.node_descriptor.index,
               "topology, geometry and node descriptor belong to the same hyperedge");
    ++L::get().visits[e.topology.index];
    vf_assert_(e.data.owner == -1 || e.data.owner == (int)e.topology.index, "every hyperedge has data of its own");
    e.data.owner = e.topology.index;
    return e.topology.index;
  }
  static void fresh(const Loc& y)
  {
    for (unsigned i = 0; i < 2 * H; ++i)
      for (unsigned a = 0; a < D; ++a)
        vf_assert_(y[i][a] == F(0.), "the local result starts at zero");
  }
#define VF_LOCAL(name, mat, scale, add) \
  template <typename Edge> \
  Loc& name(Loc& x, Loc& y, Edge& e, const F time = 0.) const requires(with_edge) \
  { \
    fresh(y); \
    L::get().apply(visit(e), L::get().mat, x, scale, add, y); \
    return y; \
  } \
  Loc& name(Loc& x, Loc& y, const F time = 0.) const requires(!with_edge) \
  { \
    fresh(y); \
    ++L::get().visits[0]; \
    L::get().apply(0, L::get().mat, x, scale, add, y); \
    return y; \
  }
  VF_LOCAL(trace_to_flux, L, F(1. + time), F(0.))
  VF_LOCAL(residual_flux, L, F(1. + time), F(param + time))
  VF_LOCAL(trace_to_mass_flux, M, F(1. - time), F(0.))
  struct error_def
  {
    typedef std::array<F, 2> error_t;
    static error_t initial_error() { return {F(0.), F(1.)}; }
    static error_t sum_error(const error_t& a, const error_t& b) { return {a[0] + b[0], a[1] + b[1]}; }
    static error_t postprocess_error(const error_t& a) { return {F(2.) * a[0], a[1] - F(1.)}; }
  };
  typename error_def::error_t loc_err(unsigned e, const Loc& x, F time) const
  {
    F s = time;
    for (unsigned i = 0; i < 2 * H; ++i)
      for (unsigned a = 0; a < D; ++a)
        s += L::get().b[e][i][a] * x[i][a];
    return {s, F(1.)};
  }
  template <typename Edge>
  typename error_def::error_t errors(Loc& x, Edge& e, const F time = 0.) const requires(with_edge)
  {
    return loc_err(visit(e), x, time);
  }
  typename error_def::error_t errors(Loc& x, const F time = 0.) const requires(!with_edge)
  {
    ++L::get().visits[0];
    return loc_err(0, x, time);
  }
};
// an arbitrary hypergraph: every hyperedge has 2H different hypernodes (H == 1) or one of a few patterns (H > 1); more than
// four hyperedges: a fixed pattern
template <unsigned H>
Spec<H> draw_graph(unsigned nn, unsigned ne)
{
  Spec<H> s;
  s.n_nodes = nn, s.n_edges = ne;
  if (ne > 4)
  {
    for (unsigned e = 0; e < ne; ++e)
      for (unsigned i = 0; i < 2 * H; ++i)
        s.node[e][i] = e % 3 ? (2 * e + i) % nn : (2 * e + 2 * H - i) % nn;
    return s;
  }
  for (unsigned e = 0; e < ne; ++e)
    if constexpr (H == 1)
    {
      s.node[e][0] = vf_concretize_(vf_int_("n0", 0, nn - 1));
      s.node[e][1] = vf_concretize_(vf_int_("n1", 0, nn - 1));
      vf_assume_(s.node[e][0] != s.node[e][1]);
    }
    else
    {
      const unsigned start = vf_concretize_(vf_int_("start", 0, nn - 1)), step = vf_concretize_(vf_int_("step", 0, 1));
      for (unsigned i = 0; i < 2 * H; ++i)
        s.node[e][i] = step ? (start + i) % nn : (start + 2 * H - i) % nn;
    }
  return s;
}
