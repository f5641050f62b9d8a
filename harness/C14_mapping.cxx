// C14: affine-linear mappings.
// VF-BOUNDS: hyperedge/space dimensions 1/1, 1/2, 1/3, 2/2, 2/3, 3/3; all translations, points and matrices of full rank given by symbolic Householder factors and R (|R| <= 10, |R_ii| >= 1/8, reflector tails in [0.01, 0.98] or 0, every pattern of identity reflectors); hyperedge dimension 3: one non-trivial reflector at a time, local normals: triangular matrices with one symbolic entry
// VF-ASSUME: LAPACK ?geqr2 and ?gesv honour their documented contracts; the native replay runs the installed LAPACK
// VF-OPTS: .* --query-ms 30000
// VF-CONFIG: quick debug
// VF-CONFIG: quick ndebug -DNDEBUG
#include <vf_lapack.hxx>
#include <HyperHDG/dense_la.hxx>
#include <HyperHDG/mapping/linear.hxx>
template <unsigned m>
double det_def(const double (&a)[m][m])
{
  if constexpr (m == 1)
    return a[0][0];
  else
  {
    double d = 0.;
    for (unsigned c = 0; c < m; ++c)
    {
      double b[m - 1][m - 1];
      for (unsigned i = 1; i < m; ++i)
        for (unsigned j = 0; j < m - 1; ++j)
          b[i - 1][j] = a[i][j < c ? j : j + 1];
      d += (c % 2 ? -1. : 1.) * a[0][c] * det_def<m - 1>(b);
    }
    return d;
  }
}
template <unsigned H, unsigned S, typename F>
struct In
{
  SmallMat<S, H, F> A;
  Point<S, F> t;
  using Map = Mapping::Linear<H, S, F>;
  // kind 0: symbolic entries, reference algorithm, 1: symbolic factors
  explicit In(int kind, unsigned ident = ~0u)
  {
    for (unsigned i = 0; i < S; ++i)
      t[i] = vf_realT<F>("t", -10., 10.);
    if (kind == 1)
    {
      constexpr unsigned k = (S == H ? H - 1 : H);
      if (ident == ~0u)
        ident = vf_concretize_(vf_int_("ident", 0, (1u << k) - 1));
      VfQr<F>::get().draw(S, H, ident, -10., 10.);
      for (unsigned i = 0; i < S * H; ++i)
        A[i] = VfQr<F>::get().a[i];
      for (unsigned i = 0; i < H; ++i)
      {
        const F r = VfQr<F>::get().out[i * S + i];
        vf_assume_(r >= F(0.125) || r <= F(-0.125));
      }
    }
    else if (kind == 0)
      for (unsigned i = 0; i < S * H; ++i)
        A[i] = vf_realT<F>("A", -10., 10.);
  }
};
#define TOL (sizeof(F) == 4 ? 2e-4 : 1e-8)
template <unsigned N, typename F>
double dot(const SmallVec<N, F>& a, const SmallVec<N, F>& b)
{
  double s = 0.;
  for (unsigned i = 0; i < N; ++i)
    s += (double)a[i] * (double)b[i];
  return s;
}
template <unsigned H, unsigned S, typename F>
void points()
{
  const In<H, S, F> in(0);
  const typename In<H, S, F>::Map map(in.t, in.A);
  auto check = [&](auto pts) {
    constexpr unsigned n = decltype(pts)::n_cols();
    for (unsigned i = 0; i < H * n; ++i)
      pts[i] = vf_realT<F>("p", 0., 1.);
    const auto orig(pts);
    const SmallMat<S, n, F> phy = map.map_reference_to_physical(orig);
    for (unsigned k = 0; k < n; ++k)
      for (unsigned i = 0; i < S; ++i)
      {
        double s = in.t[i];
        for (unsigned j = 0; j < H; ++j)
          s += (double)in.A(i, j) * (double)pts(j, k);
        vf_same((F)s, phy(i, k), 1e3, "a point is mapped to matrix times point plus translation");
      }
    for (unsigned i = 0; i < H * n; ++i)
      vf_assert_(orig[i] == pts[i], "mapping does not change the argument");
  };
  check(SmallMat<H, 1, F>());
  check(SmallMat<H, 3, F>());
  vf_assert_(map.matrix() == in.A, "matrix of the mapping");
  vf_assert_(map.translation() == in.t, "translation of the mapping");
  for (unsigned j = 0; j < H; ++j)
    for (unsigned i = 0; i < S; ++i)
      vf_assert_(map.matrix_column(j)[i] == in.A(i, j), "columns of the matrix");
  vf_assert_(map.hyEdge_dim() == H && map.space_dim() == S, "dimensions");
}
VF_ENTRY(q_points_11) { points<1, 1, double>(); }
VF_ENTRY(q_points_12) { points<1, 2, double>(); }
VF_ENTRY(q_points_13) { points<1, 3, float>(); }
template <unsigned H, unsigned S, typename F>
void points_f(unsigned ident)
{
  const In<H, S, F> in(1, ident);
  const typename In<H, S, F>::Map map(in.t, in.A);
  SmallMat<H, 2, F> pts;
  for (unsigned i = 0; i < H * 2; ++i)
    pts[i] = vf_realT<F>("p", 0., 1.);
  const SmallMat<S, 2, F> phy = map.map_reference_to_physical(pts);
  for (unsigned k = 0; k < 2; ++k)
    for (unsigned i = 0; i < S; ++i)
    {
      double s = in.t[i];
      for (unsigned j = 0; j < H; ++j)
        s += (double)in.A(i, j) * (double)pts(j, k);
      vf_near_(s, phy(i, k), TOL * 100, "a point is mapped to matrix times point plus translation");
    }
  for (unsigned i = 0; i < S * H; ++i)
    vf_assert_(map.matrix()[i] == in.A[i], "matrix of the mapping");
  for (unsigned j = 0; j < H; ++j)
    for (unsigned i = 0; i < S; ++i)
      vf_assert_(map.matrix_column(j)[i] == in.A(i, j), "columns of the matrix");
}
VF_ENTRY(q_points_22) { points_f<2, 2, double>(0); }
VF_ENTRY(q_points_23) { points_f<2, 3, double>(2); }
VF_ENTRY(q_points_33) { points_f<3, 3, double>(2); }
// there and back, square matrices
template <unsigned S, typename F>
void back(unsigned ident)
{
  const In<S, S, F> in(1, ident);
  const typename In<S, S, F>::Map map(in.t, in.A);
  SmallMat<S, 2, F> pts;
  for (unsigned i = 0; i < S * 2; ++i)
    pts[i] = vf_realT<F>("p", 0., 1.);
  const SmallMat<S, 2, F> phy = map.map_reference_to_physical(pts);
  const SmallMat<S, 2, F> ref = map.map_physical_to_reference(phy);
  for (unsigned i = 0; i < S * 2; ++i)
    vf_near_(ref[i], pts[i], TOL * 1e3, "mapping to the physical element and back");
  const SmallMat<S, 2, F> phy2 = map.map_reference_to_physical(pts);
  for (unsigned i = 0; i < S * 2; ++i)
    vf_assert_(phy2[i] == phy[i], "the mapping is not changed by being used");
}
VF_ENTRY(q_back_1) { back<1, double>(0); }
VF_ENTRY(q_back_2) { back<2, double>(0); }
VF_ENTRY(q_back_2t) { back<2, double>(1); }
// measures
template <unsigned H, unsigned S, typename F>
void measures(unsigned ident = ~0u)
{
  const In<H, S, F> in(1, ident);
  const typename In<H, S, F>::Map map(in.t, in.A);
  const double d = map.functional_determinant_hyEdge();
  double g[H][H];
  for (unsigned i = 0; i < H; ++i)
    for (unsigned j = 0; j < H; ++j)
    {
      g[i][j] = 0.;
      for (unsigned k = 0; k < S; ++k)
        g[i][j] += (double)in.A(k, i) * (double)in.A(k, j);
    }
  if constexpr (H == S)
  {
    double a[S][S];
    for (unsigned i = 0; i < S; ++i)
      for (unsigned j = 0; j < S; ++j)
        a[i][j] = in.A(i, j);
    vf_near_(d, det_def<S>(a), TOL * 1000, "functional determinant of a square matrix with its sign");
  }
  else
    vf_near_(d * d, det_def<H>(g), TOL * 1e5, "functional determinant is the measure of the parallelotope");
  for (unsigned n = 0; n < H; ++n)
  {
    const double f = map.functional_determinant_hyNode(n);
    if constexpr (H == 1)
      vf_assert_(f == 1., "a point has measure one");
    else
    {
      double h[H - 1][H - 1];
      for (unsigned i = 0; i < H - 1; ++i)
        for (unsigned j = 0; j < H - 1; ++j)
          h[i][j] = g[i + (i >= n)][j + (j >= n)];
      vf_near_(f * f, det_def<H - 1>(h), TOL * 1e5, "functional determinant of a face is the measure of the face");
    }
  }
}
VF_ENTRY(q_meas_11) { measures<1, 1, double>(); }
VF_ENTRY(q_meas_12) { measures<1, 2, double>(); }
VF_ENTRY(q_meas_13) { measures<1, 3, float>(); }
VF_ENTRY(q_meas_22) { measures<2, 2, double>(); }
VF_ENTRY(q_meas_23a) { measures<2, 3, double>(1); }
VF_ENTRY(q_meas_23b) { measures<2, 3, double>(2); }
VF_ENTRY(q_meas_33i) { measures<3, 3, double>(3); }
#ifdef VF_THOROUGH
VF_ENTRY(t_meas_23) { measures<2, 3, double>(0); }
#endif
// normals within R times the unit cube
template <unsigned H, unsigned S, typename F>
void local_of(const In<H, S, F>& in, unsigned from = 0, unsigned to = H)
{
  const typename In<H, S, F>::Map map(in.t, in.A);
  const auto& R = map.mat_r();
  for (unsigned n = from; n < to; ++n)
  {
    const SmallVec<H, F> v = map.local_normal(n);
    vf_near_(dot<H, F>(v, v), 1., TOL, "local normals have length one");
    for (unsigned i = 0; i < H; ++i)
      if (i != n)
        vf_near_(dot<H, F>(v, R.get_column(i)), 0., TOL * 1e3, "a local normal is orthogonal to its face");
    vf_assert_(dot<H, F>(v, R.get_column(n)) < 0., "the local normal points away from the parallelotope");
  }
}
template <unsigned H, unsigned S, typename F>
void local(unsigned ident = ~0u)
{
  local_of<H, S, F>(In<H, S, F>(1, ident));
}
// dimension 3: triangular matrices with one symbolic off-diagonal entry
void local_3(unsigned i, unsigned j, unsigned normal)
{
  In<3, 3, double> in(2);
  in.A(0, 0) = 2., in.A(1, 1) = 3., in.A(2, 2) = 1.5;
  in.A(0, 1) = 1., in.A(0, 2) = -2., in.A(1, 2) = 4.;
  in.A(i, j) = vf_real_("a", -10., 10.);
  vf_assume_(i != j || in.A(i, j) > 0.125 || in.A(i, j) < -0.125);
  local_of<3, 3, double>(in, normal, normal + 1);
}
VF_ENTRY(q_loc_33_00) { local_3(0, 0, 0); }
VF_ENTRY(q_loc_33_01) { local_3(0, 1, 1); }
VF_ENTRY(q_loc_33_02) { local_3(0, 2, 1); }
VF_ENTRY(q_loc_33_12) { local_3(1, 2, 1); }
VF_ENTRY(q_loc_33_22) { local_3(2, 2, 2); }
VF_ENTRY(q_loc_33_220) { local_3(2, 2, 0); }
VF_ENTRY(q_loc_33_011) { local_3(1, 1, 2); }
VF_ENTRY(q_loc_11) { local<1, 1, double>(); }
VF_ENTRY(q_loc_12) { local<1, 2, double>(); }
VF_ENTRY(q_loc_13) { local<1, 3, float>(); }
VF_ENTRY(q_loc_22) { local<2, 2, double>(); }
VF_ENTRY(q_loc_23a) { local<2, 3, double>(1); }
VF_ENTRY(q_loc_23b) { local<2, 3, double>(2); }
#ifdef VF_THOROUGH
VF_ENTRY(t_loc_23) { local<2, 3, double>(0); }
VF_ENTRY(t_loc_33_221) { local_3(2, 2, 1); }
#endif
// the frame: Q, R, inner and outer normals
template <unsigned H, unsigned S, typename F>
void frame(unsigned ident = ~0u)
{
  const In<H, S, F> in(1, ident);
  const typename In<H, S, F>::Map map(in.t, in.A);
  const auto& Q = map.mat_q();
  const auto& R = map.mat_r();
  for (unsigned i = 0; i < S; ++i)
    for (unsigned j = 0; j < H; ++j)
    {
      double s = 0.;
      for (unsigned k = 0; k < H; ++k)
        s += (double)Q(i, k) * (double)R(k, j);
      vf_near_(s, in.A(i, j), TOL * 10, "Q R is the matrix");
    }
  for (unsigned i = 0; i < H; ++i)
  {
    for (unsigned j = 0; j < i; ++j)
      vf_near_(R(i, j), 0., TOL, "R is upper triangular");
    if (i > 0)
      vf_assert_(R(i, i) >= -TOL, "diagonal entries of R other than the first are not negative");
  }
  SmallVec<S, F> b[S];
  for (unsigned i = 0; i < H; ++i)
    b[i] = map.inner_normal(i);
  for (unsigned i = H; i < S; ++i)
    b[i] = map.outer_normal(i - H);
  double q[S][S];
  for (unsigned i = 0; i < S; ++i)
  {
    for (unsigned j = 0; j <= i; ++j)
      vf_near_(dot<S, F>(b[i], b[j]), i == j ? 1. : 0., TOL, "inner and outer normals are orthonormal");
    for (unsigned j = 0; j < H; ++j)
      if (i >= H)
        vf_near_(dot<S, F>(b[i], in.A.get_column(j)), 0., TOL * 10, "outer normals are orthogonal to the hyperedge");
    for (unsigned j = 0; j < S; ++j)
      q[j][i] = b[i][j];
  }
  vf_near_(det_def<S>(q), 1., TOL, "the normals form a positively oriented frame");
}
VF_ENTRY(q_frame_11) { frame<1, 1, double>(); }
VF_ENTRY(q_frame_12) { frame<1, 2, double>(); }
VF_ENTRY(q_frame_13) { frame<1, 3, float>(); }
VF_ENTRY(q_frame_22) { frame<2, 2, double>(); }
VF_ENTRY(q_frame_23) { frame<2, 3, double>(); }
VF_ENTRY(q_frame_33) { frame<3, 3, double>(); }
// the inner normal of a face is orthogonal to the face and points outwards
template <unsigned H, unsigned S, typename F>
void inner(unsigned ident = ~0u)
{
  const In<H, S, F> in(1, ident);
  const typename In<H, S, F>::Map map(in.t, in.A);
  for (unsigned n = 0; n < H; ++n)
  {
    const SmallVec<S, F> v = map.inner_normal(n);
    for (unsigned i = 0; i < H; ++i)
      if (i != n)
        vf_near_(dot<S, F>(v, in.A.get_column(i)), 0., TOL * 1e3, "an inner normal is orthogonal to its face");
    vf_assert_(dot<S, F>(v, in.A.get_column(n)) < 0., "an inner normal points away from the hyperedge");
  }
}
VF_ENTRY(q_inner_1) { inner<1, 2, double>(); }
VF_ENTRY(q_inner_2) { inner<2, 2, double>(); }
#ifndef NDEBUG
template <unsigned H, unsigned S>
void range(int what)
{
  SmallMat<S, H, double> A;
  for (unsigned i = 0; i < H; ++i)
    A(i, i) = 1.;
  Point<S, double> t;
  const Mapping::Linear<H, S, double> map(t, A);
  const unsigned i = vf_int_("i", 0, 4294967295u);
  vf_assume_(i >= (what == 2 ? S - H : H));
  vf_expect_abort_(true);
  if (what == 0)
    map.local_normal(i);
  else if (what == 1)
    map.inner_normal(i);
  else
    map.outer_normal(i);
}
VF_ENTRY(q_range_loc) { range<2, 3>(0); }
VF_ENTRY(q_range_loc1) { range<1, 2>(0); }
VF_ENTRY(q_range_in) { range<2, 3>(1); }
VF_ENTRY(q_range_out) { range<2, 3>(2); }
VF_ENTRY(q_range_out3) { range<1, 3>(2); }
#endif
