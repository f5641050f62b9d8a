// C19: the sparse matrix form of the condensed operator is the operator.
// VF-BOUNDS: hyperedges of dimension 1..3 with 1..2 dofs per hypernode, up to 3 hyperedges with arbitrary incidence of up to 5 hypernodes (dimension 2 and 3: several patterns; one fixed pattern with 9 hyperedges), symbolic local operators, vector and time; up to two Dirichlet indices
// VF-ASSUME: topology, geometry, node descriptor and local solver are stand-ins with the documented interface
// VF-CONFIG: quick debug
// VF-CONFIG: quick ndebug -DNDEBUG
#include "loop.inc"
#include <HyperHDG/global_loop/elliptic.hxx>
template <unsigned H, unsigned D, typename F, bool W>
using Loop = GlobalLoop::Elliptic<MTopo<H>, MGeom<H>, MNode<H>, MSolver<H, D, F, W>, std::vector<F>>;
template <unsigned H, unsigned D, typename F, bool W>
void matrix(unsigned nn, unsigned ne, unsigned n_dir)
{
  Ref<H, D, F> r(draw_graph<H>(nn, ne), !W);
  const F time = vf_realT<F>("time", -5., 5.);
  Loop<H, D, F, W> loop(r.s);
  if (n_dir)
  {
    std::vector<unsigned> idx(n_dir);
    for (auto& i : idx)
      i = vf_concretize_(vf_int_("index", 0, r.n - 1));
    loop.read_dirichlet_indices(idx);
  }
  const bool default_time = vf_concretize_(vf_int_("default", 0, 1));
  auto mat = default_time ? loop.trace_to_flux_mat() : loop.trace_to_flux_mat(time);
  const std::vector<F> op = default_time ? loop.trace_to_flux(r.x) : loop.trace_to_flux(r.x, time);
  const auto &v = mat.get_values();
  const auto &c = mat.get_cols(), &l = mat.get_rows();
  vf_assert_(v.size() == c.size() && v.size() == l.size(), "as many values as row and column indices");
  std::vector<F> y(r.n, F(0.));
  for (unsigned k = 0; k < v.size(); ++k)
  {
    vf_assert_(c[k] < r.n && l[k] < r.n, "row and column indices lie in the system");
    y[l[k]] += v[k] * r.x[c[k]];
  }
  r.same(y, op, "the matrix times a vector equals the operator applied to the vector");
}
VF_ENTRY(q_mat_1) { matrix<1, 1, double, true>(3, 2, 0); }
VF_ENTRY(q_mat_1d2) { matrix<1, 2, double, true>(3, 2, 0); }
VF_ENTRY(q_mat_1u) { matrix<1, 1, float, false>(2, 3, 0); }
VF_ENTRY(q_mat_1d3) { matrix<1, 3, double, true>(2, 1, 0); }
VF_ENTRY(q_mat_2) { matrix<2, 1, double, true>(4, 2, 0); }
VF_ENTRY(q_mat_2d2) { matrix<2, 2, double, true>(5, 1, 0); }
VF_ENTRY(q_mat_2u) { matrix<2, 1, double, false>(4, 1, 0); }
VF_ENTRY(q_mat_3) { matrix<3, 1, double, true>(7, 1, 0); }
VF_ENTRY(q_mat_3u) { matrix<3, 1, double, false>(6, 1, 0); }
VF_ENTRY(q_mat_many) { matrix<1, 2, double, true>(10, 9, 0); }
VF_ENTRY(q_dir_1) { matrix<1, 1, double, true>(3, 1, 1); }
VF_ENTRY(q_dir_2) { matrix<1, 2, double, true>(2, 1, 2); }
#ifdef VF_THOROUGH
VF_ENTRY(t_mat_1) { matrix<1, 2, double, true>(3, 3, 0); }
VF_ENTRY(t_mat_2) { matrix<2, 2, double, false>(5, 2, 0); }
VF_ENTRY(t_dir_2) { matrix<2, 1, double, true>(5, 1, 2); }
#endif
