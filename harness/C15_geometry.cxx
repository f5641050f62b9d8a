// C15: geometries of hypergraphs: the unit cube and hyperedges given by points in a file.
// VF-BOUNDS: hyperedge/space dimensions 1/1, 1/2, 1/3, 2/2, 2/3, 3/3; unit cube: every hyperedge of grids with up to 3 cells per direction, refinement levels 1..3; files: symbolic points (matrix given by symbolic Householder factors and R, |R| <= 10, |R_ii| >= 1/8), refinement levels 1..3, two hyperedges with permuted points; symbolic reference points, one-dimensional points and scales, 2 and 3 points per direction
// VF-ASSUME: the submodule TPCC is replaced by a stand-in with the documented meaning; LAPACK ?geqr2 honours its documented contract (native replays run the installed LAPACK)
// VF-OPTS: .* --query-ms 30000
// VF-CONFIG: quick debug
// VF-CONFIG: quick ndebug -DNDEBUG
#include <vf_lapack.hxx>
#include "geo.inc"
#include <HyperHDG/geometry/file.hxx>
#include <HyperHDG/geometry/unit_cube.hxx>
template <unsigned H, unsigned S>
struct Affine
{
  double o[S], a[S][H];
  template <typename P>
  void check(const P& x, const double (&ref)[H], const char* msg) const
  {
    for (unsigned i = 0; i < S; ++i)
    {
      double s = o[i];
      for (unsigned j = 0; j < H; ++j)
        s += a[i][j] * ref[j];
      vf_near_(s, (double)x[i], 2e-6, msg);
    }
  }
};
template <unsigned m>
double det_def(const double (&a)[m][m])
{
  if constexpr (m == 1)
    return a[0][0];
  else
  {
    double d = 0.;
    for (unsigned c = 0; c < m; ++c)
    {
      double b[m - 1][m - 1];
      for (unsigned i = 1; i < m; ++i)
        for (unsigned j = 0; j < m - 1; ++j)
          b[i - 1][j] = a[i][j < c ? j : j + 1];
      d += (c % 2 ? -1. : 1.) * a[0][c] * det_def<m - 1>(b);
    }
    return d;
  }
}
// squared measure of the parallelotope spanned by the columns except for column skip
template <unsigned H, unsigned S>
double gram(const Affine<H, S>& A, unsigned skip)
{
  double g[H][H];
  for (unsigned i = 0; i < H; ++i)
    for (unsigned j = 0; j < H; ++j)
    {
      double s = 0.;
      for (unsigned d = 0; d < S; ++d)
        s += A.a[d][i] * A.a[d][j];
      g[i][j] = i == skip || j == skip ? (i == j ? 1. : 0.) : s;
    }
  return det_def<H>(g);
}
template <unsigned H, unsigned S, unsigned n, typename F, typename E>
void lexicographic(const E& e, const Affine<H, S>& A)
{
  SmallVec<n, F> p1;
  for (unsigned i = 0; i < n; ++i)
    p1[i] = vf_realT<F>("p1", 0., 1.);
  const float scale = vf_realf_("scale", 0., .999);
  unsigned np = 1, nb = 1;
  for (unsigned k = 0; k < H; ++k)
    np *= n, nb *= k + 1 < H ? n : 1;
  for (unsigned q = 0; q < np; ++q)
  {
    double ref[H];
    for (unsigned k = 0, r = q; k < H; ++k, r /= n)
      ref[k] = p1[r % n];
    A.check(e.template lexicographic<n>(q, p1), ref, "lexicographic points are the images of the tensorial points of the reference element");
  }
  for (unsigned b = 0; b < 2 * H; ++b)
    for (unsigned q = 0; q < nb; ++q)
    {
      double ref[H];
      for (unsigned k = 0, r = q; k < H; ++k)
        if (k == b / 2)
          ref[k] = .5 + (b % 2 ? .5 : -.5) * scale;
        else
          ref[k] = p1[r % n], r /= n;
      A.check(e.template boundary_lexicographic<n>(q, b, scale, p1), ref, "lexicographic points of a boundary are the images of the tensorial points of that hyperface");
    }
}
template <unsigned H, unsigned S, typename F, typename E>
void points(const E& e, const Affine<H, S>& A)
{
  SmallMat<H, 2, F> p;
  for (unsigned i = 0; i < 2 * H; ++i)
    p[i] = vf_realT<F>("p", 0., 1.);
  const auto orig = p;
  const SmallMat<S, 2, F> x = e.map_ref_to_phys(orig);
  for (unsigned c = 0; c < 2; ++c)
  {
    double ref[H];
    for (unsigned k = 0; k < H; ++k)
      ref[k] = p(k, c), vf_assert_(p(k, c) == orig(k, c), "mapping does not change constant points");
    A.check(x.get_column(c), ref, "reference points are mapped to the hyperedge");
    A.check(e.map_ref_to_phys(Point<H, F>(orig.get_column(c))), ref, "single points are mapped to the hyperedge");
  }
  if constexpr (H == S)
  {
    auto& y = e.map_ref_to_phys(p);
    vf_assert_(&y == &p, "mapping in place returns its argument");
    for (unsigned c = 0; c < 2; ++c)
    {
      double ref[H];
      for (unsigned k = 0; k < H; ++k)
        ref[k] = orig(k, c);
      A.check(p.get_column(c), ref, "points are mapped to the hyperedge in place");
    }
  }
  for (unsigned f = 0; f < 2 * H; ++f)
  {
    double ref[H];
    for (unsigned k = 0; k < H; ++k)
      ref[k] = k == f / 2 ? (f % 2 ? 1. : 0.) : .5;
    A.check(e.face_barycenter(f), ref, "barycenters of hyperfaces");
  }
  for (unsigned k = 0; k < H; ++k)
  {
    const auto v = e.span_vec(k);
    for (unsigned d = 0; d < S; ++d)
      vf_near_((double)v[d], A.a[d][k], 2e-6, "spanning vectors of the hyperedge");
  }
}
template <unsigned H, unsigned S, typename F, typename E>
void metric(const E& e, const Affine<H, S>& A)
{
  const double ar = e.area();
  vf_assert_(ar >= 0., "areas are not negative");
  vf_near_(ar * ar, gram(A, H), 1e-5, "area of the hyperedge");
  for (unsigned f = 0; f < 2 * H; ++f)
  {
    const double fa = e.face_area(f);
    vf_assert_(fa >= 0., "areas of hyperfaces are not negative");
    vf_near_(fa * fa, gram(A, f / 2), 1e-5, "areas of hyperfaces");
  }
  const SmallMat<S, S, F> Q = e.mat_q();
  const SmallMat<H, H, F> R = e.mat_r();
  for (unsigned i = 0; i < S; ++i)
    for (unsigned j = 0; j < S; ++j)
    {
      double s = 0.;
      for (unsigned k = 0; k < S; ++k)
        s += Q(k, i) * Q(k, j);
      vf_near_(s, i == j ? 1. : 0., 1e-7, "mat_q is orthogonal");
    }
  for (unsigned i = 0; i < S; ++i)
    for (unsigned j = 0; j < H; ++j)
    {
      double s = 0.;
      for (unsigned k = 0; k < H; ++k)
        s += Q(i, k) * R(k, j);
      vf_near_(s, A.a[i][j], 1e-6, "mat_q times mat_r spans the hyperedge");
    }
  for (unsigned j = 0; j < H; ++j)
    for (unsigned i = j + 1; i < H; ++i)
      vf_assert_(R(i, j) == 0., "mat_r is upper triangular");
  for (unsigned o = 0; o + H < S; ++o)
  {
    const auto n = e.outer_normal(o);
    for (unsigned o2 = 0; o2 <= o; ++o2)
    {
      const auto m = e.outer_normal(o2);
      double s = 0.;
      for (unsigned d = 0; d < S; ++d)
        s += n[d] * m[d];
      vf_near_(s, o == o2 ? 1. : 0., 1e-7, "outer normals are orthonormal");
    }
    for (unsigned k = 0; k < H; ++k)
    {
      double s = 0.;
      for (unsigned d = 0; d < S; ++d)
        s += n[d] * A.a[d][k];
      vf_near_(s, 0., 1e-6, "outer normals are orthogonal to the hyperedge");
    }
  }
}
template <unsigned H, unsigned S, typename F, typename E>
void local_normals(const E& e)
{
  const SmallMat<H, H, F> R = e.mat_r();
  for (unsigned f = 0; f < 2 * H; ++f)
  {
    const auto n = e.local_normal(f);
    double q = 0.;
    for (unsigned d = 0; d < H; ++d)
      q += n[d] * n[d];
    vf_near_(q, 1., 1e-7, "local normals have unit length");
    for (unsigned k = 0; k < H; ++k)
    {
      double s = 0.;
      for (unsigned d = 0; d < H; ++d)
        s += n[d] * R(d, k);
      if (k != f / 2)
        vf_near_(s, 0., 1e-6, "a local normal is orthogonal to its hyperface");
      else
        vf_assert_(f % 2 ? s > 0. : s < 0., "a local normal points out of the hyperedge");
    }
  }
}
template <unsigned H, unsigned S, typename F, typename E>
void inner_normals(const E& e, const Affine<H, S>& A)
{
  for (unsigned f = 0; f < 2 * H; ++f)
  {
    const auto n = e.inner_normal(f);
    double q = 0.;
    for (unsigned d = 0; d < S; ++d)
      q += n[d] * n[d];
    vf_near_(q, 1., 1e-7, "inner normals have unit length");
    for (unsigned k = 0; k < H; ++k)
    {
      double s = 0.;
      for (unsigned d = 0; d < S; ++d)
        s += n[d] * A.a[d][k];
      if (k != f / 2)
        vf_near_(s, 0., 1e-6, "an inner normal is orthogonal to its hyperface");
      else
        vf_assert_(f % 2 ? s > 0. : s < 0., "an inner normal points away from the hyperedge");
    }
    for (unsigned o = 0; o + H < S; ++o)
    {
      const auto m = e.outer_normal(o);
      double s = 0.;
      for (unsigned d = 0; d < S; ++d)
        s += n[d] * m[d];
      vf_near_(s, 0., 1e-7, "an inner normal lies in the plane of the hyperedge");
    }
  }
}
// what holds for inner normals independently of their direction
template <unsigned H, unsigned S, typename F, typename E>
void inner_frame(const E& e)
{
  for (unsigned f = 0; f < 2 * H; f += 2)
  {
    const auto n = e.inner_normal(f), m = e.inner_normal(f + 1);
    double q = 0.;
    for (unsigned d = 0; d < S; ++d)
    {
      q += n[d] * n[d];
      vf_near_(m[d], -n[d], 1e-9, "inner normals of opposite hyperfaces are opposite");
    }
    vf_near_(q, 1., 1e-7, "inner normals have unit length");
    for (unsigned o = 0; o + H < S; ++o)
    {
      const auto w = e.outer_normal(o);
      double t = 0.;
      for (unsigned d = 0; d < S; ++d)
        t += n[d] * w[d];
      vf_near_(t, 0., 1e-7, "an inner normal lies in the plane of the hyperedge");
    }
  }
}
// ---------------------------------------------------------------- unit cube
template <unsigned H>
static unsigned power(unsigned r)
{
  unsigned p = 1;
  for (unsigned i = 0; i < H; ++i)
    p *= r;
  return p;
}
template <unsigned S>
SmallVec<S, unsigned> grid(unsigned n)
{
  SmallVec<S, unsigned> v;
  for (unsigned d = 0; d < S; ++d, n /= 10)
    v[d] = n % 10;
  return v;
}
template <unsigned H, unsigned S, typename F>
void cube(unsigned n, unsigned r, int how, int what)
{
  const auto N = grid<S>(n);
  Topology::Cubic<H, S> t(N);
  t.set_refinement(how == 1 ? r : 1);
  Geometry::UnitCube<H, S, F> g1(t), g2(N);
  auto& g = how == 1 ? g1 : g2;
  vf_assert_(g.get_refinement() == (how == 1 ? r : 1), "refinement of a new geometry");
  if (how == 2)
    g.set_refinement(3);
  if (how != 1)
    g.set_refinement(r), t.set_refinement(r);
  vf_assert_(g.get_refinement() == r && g.hyEdge_dim() == H && g.space_dim() == S, "refinement level and dimensions");
  const unsigned i = vf_concretize_(vf_int_("edge", 0, t.n_hyEdges() - 1));
  Affine<H, S> A;
  const auto elem = t.tpcc_elem()[i / power<H>(r)];
  const auto cell = t.tpcc_ref_elem()[i % power<H>(r)];
  for (unsigned d = 0; d < S; ++d)
  {
    A.o[d] = (double)elem.coord[d] / N[d];
    for (unsigned k = 0; k < H; ++k)
      A.a[d][k] = 0.;
  }
  for (unsigned k = 0; k < H; ++k)
  {
    const unsigned d = elem.along_direction(k);
    A.a[d][k] = 1. / N[d] / r;
    A.o[d] += (double)cell.coord[k] / N[d] / r;
  }
  const auto e = g[i];
  vf_assert_(e.hyEdge_dim() == H && e.space_dim() == S, "dimensions of a hyperedge");
  if (what & 1)
    points<H, S, F>(e, A);
  if (what & 2)
  {
    metric<H, S, F>(e, A);
    local_normals<H, S, F>(e);
    inner_normals<H, S, F>(e, A);
  }
  if (what & 4)
    lexicographic<H, S, 2, F>(e, A), lexicographic<H, S, 3, F>(e, A);
}
VF_ENTRY(q_cube_11) { cube<1, 1, double>(3, 2, 0, 7); }
VF_ENTRY(q_cube_12) { cube<1, 2, double>(23, 3, 1, 7); }
VF_ENTRY(q_cube_13) { cube<1, 3, double>(212, 2, 2, 7); }
VF_ENTRY(q_cube_22) { cube<2, 2, double>(32, 2, 1, 7); }
VF_ENTRY(q_cube_22q) { cube<2, 2, double>(12, 3, 2, 7); }
VF_ENTRY(q_cube_23) { cube<2, 3, double>(212, 1, 0, 3); }
VF_ENTRY(q_cube_23r) { cube<2, 3, double>(121, 2, 1, 7); }
VF_ENTRY(q_cube_33) { cube<3, 3, double>(231, 1, 0, 3); }
VF_ENTRY(q_cube_33r) { cube<3, 3, double>(112, 2, 2, 7); }
VF_ENTRY(q_cubef_12) { cube<1, 2, float>(23, 1, 0, 7); }
VF_ENTRY(q_cubef_23) { cube<2, 3, float>(121, 1, 2, 3); }
#ifdef VF_THOROUGH
VF_ENTRY(t_cube_13) { cube<1, 3, double>(332, 3, 2, 7); }
VF_ENTRY(t_cube_23) { cube<2, 3, double>(323, 2, 1, 7); }
VF_ENTRY(t_cube_23q) { cube<2, 3, double>(212, 3, 0, 7); }
VF_ENTRY(t_cube_33) { cube<3, 3, double>(222, 3, 1, 7); }
#endif
// ---------------------------------------------------------------- hyperedges given by points
template <unsigned H, unsigned S>
struct Domain : Geo<H, S>
{
  using B = Geo<H, S>;
  using B::ne, B::nn, B::node, B::np, B::nprop, B::prop, B::pt, B::vert, B::face;
  Affine<H, S> A;
  unsigned edge;
  // hyperedge 'edge' of two has the drawn matrix (after refinement by r); cell coordinates c
  Domain(unsigned r, unsigned ident, unsigned props)
  {
    constexpr unsigned NV = B::NV;
    ne = 2, np = NV + (NV > 4 ? 0 : 1), nn = 2 * H + 1, nprop = props;
    edge = vf_concretize_(vf_int_("which", 0, 1));
    for (unsigned i = 0; i < np; ++i)
      for (unsigned d = 0; d < S; ++d)
        pt[i][d] = d == 0 ? 1000. + i : 0.;
    for (unsigned e = 0; e < 2; ++e)
    {
      for (unsigned i = 0; i < NV; ++i)
        vert[e][i] = e == 0 ? (i + 1) % np : (np - 1) - i;
      if (np == NV && e == 1)
        vert[e][0] = np - 1;
      for (unsigned i = 0; i < 2 * H; ++i)
        node[e][i] = i + e, face[e][i] = 0;
      for (unsigned i = 0; i < nprop; ++i)
        prop[e][i] = vf_real_("prop", -10., 10.);
    }
    if (ident == ~0u)
      for (unsigned j = 0; j < H; ++j)
        for (unsigned i = 0; i < S; ++i)
        {
          A.a[i][j] = 0.;
          if (i == j)
          {
            A.a[i][i] = vf_real_("D", -10., 10.);
            vf_assume_(A.a[i][i] >= 0.125 || A.a[i][i] <= -0.125);
          }
        }
    else
      VfQr<double>::get().draw(S, H, ident, -10., 10.);
    for (unsigned j = 0; ident != ~0u && j < H; ++j)
    {
      const double d = VfQr<double>::get().out[j * S + j];
      vf_assume_(d >= 0.125 || d <= -0.125);
      for (unsigned i = 0; i < S; ++i)
        A.a[i][j] = VfQr<double>::get().a[j * S + i];
    }
    for (unsigned i = 0; i < S; ++i)
    {
      A.o[i] = vf_real_("o", -10., 10.);
      pt[vert[edge][0]][i] = A.o[i];
      for (unsigned j = 0; j < H; ++j)
        pt[vert[edge][1 << j]][i] = A.o[i] + r * A.a[i][j];
    }
  }
  void move(const auto& cell)
  {
    for (unsigned i = 0; i < S; ++i)
      for (unsigned j = 0; j < H; ++j)
        A.o[i] += (double)cell.coord[j] * A.a[i][j];
  }
};
template <unsigned H, unsigned S>
void file(unsigned r, unsigned ident, int how, int what)
{
  Domain<H, S> dom(r, ident, what & 8 ? 2 : 0);
  vf_file_put("d.geo", dom.text(0));
  Topology::File<H, S> t("d.geo");
  if (how == 1)
    t.set_refinement(r);
  Geometry::File<H, S> g(t);
  if (how == 2)
    g.set_refinement(3);
  if (how != 1)
    g.set_refinement(r), t.set_refinement(r);
  vf_assert_(g.get_refinement() == r && g.hyEdge_dim() == H && g.space_dim() == S, "refinement level and dimensions");
  const unsigned c = vf_concretize_(vf_int_("cell", 0, power<H>(r) - 1));
  dom.move(t.tpcc_ref_elem()[c]);
  auto e = g[dom.edge * power<H>(r) + c];
  if (what & 1)
    points<H, S, double>(e, dom.A);
  if (what & 2)
    metric<H, S, double>(e, dom.A);
  if (what & 32)
    local_normals<H, S, double>(e);
  if (what & 16)
    inner_normals<H, S, double>(e, dom.A);
  if (what & 32)
    inner_frame<H, S, double>(e);
  if (what & 4)
    lexicographic<H, S, 2, double>(e, dom.A), lexicographic<H, S, 3, double>(e, dom.A);
  if (what & 8)
  {
    vf_assert_(e.has_extra_data(), "properties are available");
    vf_assert_(e.extra_data().size() == 2, "number of properties");
    for (unsigned i = 0; i < 2; ++i)
      vf_assert_(e.extra_data()[i] == dom.prop[dom.edge][i], "properties are those of the hyperedge");
  }
  else
    vf_assert_(!e.has_extra_data(), "no properties without properties in the file");
}
VF_ENTRY(q_file_11) { file<1, 1>(2, 0, 0, 7 + 32); }
VF_ENTRY(q_file_12) { file<1, 2>(3, 0, 1, 7 + 32); }
VF_ENTRY(q_file_12i) { file<1, 2>(1, 1, 0, 7 + 32); }
VF_ENTRY(q_file_13) { file<1, 3>(2, 0, 2, 7 + 8 + 32); }
#ifdef NDEBUG  // comparing all points of a file with each other multiplies the paths
VF_ENTRY(q_file_22) { file<2, 2>(2, 0, 1, 2); }
VF_ENTRY(q_filep_22) { file<2, 2>(2, 0, 2, 1); }
VF_ENTRY(q_filel_22) { file<2, 2>(1, 0, 0, 4 + 8); }
VF_ENTRY(q_file_23) { file<2, 3>(1, 2, 0, 2); }
VF_ENTRY(q_filep_23) { file<2, 3>(2, 2, 1, 1 + 4); }
VF_ENTRY(q_file_33) { file<3, 3>(2, ~0u, 2, 2 + 32); }
VF_ENTRY(q_filed_22) { file<2, 2>(3, ~0u, 0, 2 + 32); }
VF_ENTRY(q_filed_23) { file<2, 3>(2, ~0u, 1, 2 + 32); }
VF_ENTRY(q_filep_33) { file<3, 3>(2, 1, 2, 1); }
VF_ENTRY(q_filex_22) { file<2, 2>(2, ~0u, 1, 8); }
VF_ENTRY(q_filex_33) { file<3, 3>(2, ~0u, 0, 8); }
VF_ENTRY(q_filel_33) { file<3, 3>(1, 3, 2, 4); }
#endif
VF_ENTRY(q_inner_12) { file<1, 2>(1, 0, 1, 16); }
VF_ENTRY(q_inner_22) { file<2, 2>(1, 0, 1, 16); }
#ifndef NDEBUG
VF_ENTRY(q_range_file)
{
  Domain<1, 2> dom(1, 1, 0);
  vf_file_put("d.geo", dom.text(0));
  Topology::File<1, 2> t("d.geo");
  Geometry::File<1, 2> g(t);
  g.set_refinement(2);
  const unsigned i = vf_int_("edge", 4, ~0u);
  vf_expect_abort_(true);
  g[i];
  vf_assert_(false, "hyperedges that do not exist are rejected");
}
template <typename E>
void out_of_range(const E& e)
{
  const unsigned k = vf_concretize_(vf_int_("call", 0, 6)), i = vf_int_("index", 0, 1000);
  const double x = vf_real_("x", -5., 5.);
  constexpr unsigned H = E::hyEdge_dim(), S = E::space_dim();
  vf_assume_(k == 6 ? x < 0. || x > 1. : i >= (k == 0 ? H : k == 1 ? S - H : 2 * H));
  Point<H, double> p;
  p[H - 1] = x;
  vf_expect_abort_(true);
  switch (k)
  {
    case 0: e.span_vec(i); break;
    case 1: e.outer_normal(i); break;
    case 2: e.face_area(i); break;
    case 3: e.local_normal(i); break;
    case 4: e.inner_normal(i); break;
    case 5: e.face_barycenter(i); break;
    case 6: e.map_ref_to_phys(p); break;
  }
  vf_assert_(false, "indices and points that do not belong to the hyperedge are rejected");
}
VF_ENTRY(q_args_cube)
{
  Geometry::UnitCube<2, 3> g(grid<3>(121));
  out_of_range(g[vf_concretize_(vf_int_("edge", 0, 3))]);
}
VF_ENTRY(q_args_file)
{
  Domain<1, 2> dom(1, 1, 0);
  vf_file_put("d.geo", dom.text(0));
  Topology::File<1, 2> t("d.geo");
  Geometry::File<1, 2> g(t);
  out_of_range(g[dom.edge]);
}
#endif
