// C06: QR decomposition and determinant.
// VF-BOUNDS: shapes up to 3x3 with all Householder factors and R symbolic (|R| <= 10, squared reflector tails in [0.01, 0.98] or 0), every pattern of identity reflectors; 4x3 and 5x4 with one non-trivial reflector at a time; shapes 1x1, 2x1, 3x1, 2x2 also through the reference algorithm with all entries symbolic
// VF-ASSUME: LAPACK ?geqr2 honours its documented contract (models/vf_lapack.hxx); the native replay runs the installed LAPACK
// VF-OPTS: .* --query-ms 20000
#include <vf_lapack.hxx>
#include <HyperHDG/dense_la.hxx>

template <unsigned m>
double det_def(const double (&a)[m][m])
{
  if constexpr (m == 1)
    return a[0][0];
  else
  {
    double d = 0.;
    for (unsigned c = 0; c < m; ++c)
    {
      double b[m - 1][m - 1];
      for (unsigned i = 1; i < m; ++i)
        for (unsigned j = 0; j < m - 1; ++j)
          b[i - 1][j] = a[i][j < c ? j : j + 1];
      d += (c % 2 ? -1. : 1.) * a[0][c] * det_def<m - 1>(b);
    }
    return d;
  }
}
template <unsigned m, unsigned n, typename F>
struct In
{
  SmallMat<m, n, F> A;
  explicit In(unsigned ident)
  {
    VfQr<F>::get().draw(m, n, ident, -10., 10.);
    for (unsigned i = 0; i < m * n; ++i)
      A[i] = VfQr<F>::get().a[i];
  }
  explicit In(bool contract, double lo = -3., double hi = 3.)
  {
    if (contract)
    {
      // which reflectors are the identity (the last one of a square matrix always is)
      constexpr unsigned k = (m == n ? n - 1 : n);
      unsigned id = vf_concretize_(vf_int_("ident", 0, (1u << k) - 1));
      VfQr<F>::get().draw(m, n, id, -10., 10.);
      for (unsigned i = 0; i < m * n; ++i)
        A[i] = VfQr<F>::get().a[i];
    }
    else
    {
      VfQr<F>::get().known = false;
      for (unsigned i = 0; i < m * n; ++i)
        A[i] = vf_realT<F>("A", lo, hi);
    }
  }
};
#ifdef VF_ENGINE
#define TOL (sizeof(F) == 4 ? 2e-4 : 1e-9)
#else
#define TOL (sizeof(F) == 4 ? 2e-4 : 1e-8)
#endif
template <unsigned m, unsigned n, typename F>
void orthogonal(const SmallMat<m, m, F>& Q)
{
  for (unsigned i = 0; i < m; ++i)
    for (unsigned j = 0; j <= i; ++j)
    {
      double s = 0.;
      for (unsigned k = 0; k < m; ++k)
        s += (double)Q(k, i) * (double)Q(k, j);
      vf_near_(s, i == j ? 1. : 0., TOL, "Q is orthogonal");
    }
}
template <unsigned m, typename F>
double det_of(const SmallMat<m, m, F>& Q)
{
  double a[m][m];
  for (unsigned i = 0; i < m; ++i)
    for (unsigned j = 0; j < m; ++j)
      a[i][j] = Q(i, j);
  return det_def<m>(a);
}
template <unsigned m, unsigned n, typename F>
void full_of(const In<m, n, F>& in)
{
  SmallMat<m, n, F> A(in.A);
  SmallSquareMat<m, F> Q(F(7.));
  SmallSquareMat<n, F> R(F(7.));
  qr_decomp(in.A, Q, R);
  for (unsigned i = 0; i < m * n; ++i)
    vf_assert_(in.A[i] == A[i], "a constant matrix is not modified");
  orthogonal<m, n, F>(Q);
  for (unsigned i = 0; i < n; ++i)
  {
    for (unsigned j = 0; j < i; ++j)
      vf_near_(R(i, j), 0., TOL, "R is upper triangular");
    if (i > 0)
      vf_assert_(R(i, i) >= -TOL, "diagonal entries of R other than the first are not negative");
  }
  for (unsigned i = 0; i < m; ++i)
    for (unsigned j = 0; j < n; ++j)
    {
      double s = 0.;
      for (unsigned k = 0; k < n; ++k)
        s += (double)Q(i, k) * (double)R(k, j);
      vf_near_(s, A(i, j), TOL * 10, "Q R = A");
    }
  vf_near_(det_of<m, F>(Q), 1., TOL, "det Q = +1");
  SmallMat<m, n, F> B(in.A);
  SmallSquareMat<m, F> Q2(F(5.));
  SmallSquareMat<n, F> R2(F(5.));
  qr_decomp(B, Q2, R2);
  for (unsigned i = 0; i < m * m; ++i)
    vf_near_(Q2[i], Q[i], TOL, "both overloads agree on Q");
  for (unsigned i = 0; i < n * n; ++i)
    vf_near_(R2[i], R[i], TOL, "both overloads agree on R");
  for (unsigned i = 0; i < m; ++i)
    for (unsigned j = 0; j < n; ++j)
      vf_near_(B(i, j), i < n ? (double)R[j * n + i] : 0., TOL, "the factorised matrix is overwritten by R");
}
template <unsigned m, unsigned n, typename F>
void full(bool contract)
{
  full_of<m, n, F>(In<m, n, F>(contract));
}
template <unsigned m, unsigned n, typename F>
void full_id(unsigned ident)
{
  full_of<m, n, F>(In<m, n, F>(ident));
}
template <unsigned m, unsigned n, typename F>
void only_q(bool contract)
{
  const In<m, n, F> in(contract);
  SmallMat<m, n, F> A(in.A);
  auto Q = qr_decomp_q(in.A);
  for (unsigned i = 0; i < m * n; ++i)
    vf_assert_(in.A[i] == A[i], "a constant matrix is not modified");
  orthogonal<m, n, F>(Q);
  for (unsigned i = 0; i < m; ++i)
    for (unsigned j = 0; j < n; ++j)
      if (i > j)
      {
        double s = 0.;
        for (unsigned k = 0; k < m; ++k)
          s += (double)Q(k, i) * (double)A(k, j);
        vf_near_(s, 0., TOL * 10, "Q^T A is upper triangular");
      }
}
template <unsigned m, unsigned n, typename F>
void det(bool contract)
{
  const In<m, n, F> in(contract);
  SmallMat<m, n, F> A(in.A);
  double d = determinant(in.A);
  for (unsigned i = 0; i < m * n; ++i)
    vf_assert_(in.A[i] == A[i], "a constant matrix is not modified");
  if constexpr (m == n)
    vf_near_(d, det_of<m, F>(A), TOL * 1000, "determinant of a square matrix");
  else
  {
    double g[n][n];
    for (unsigned i = 0; i < n; ++i)
      for (unsigned j = 0; j < n; ++j)
      {
        g[i][j] = 0.;
        for (unsigned k = 0; k < m; ++k)
          g[i][j] += (double)A(k, i) * (double)A(k, j);
      }
    vf_near_(d * d, det_def<n>(g), TOL * 100000, "generalised determinant squared is det(A^T A)");
  }
}
#define CASE(m, n) \
  VF_ENTRY(q_full_##m##x##n) { full<m, n, double>(true); } \
  VF_ENTRY(q_onlyq_##m##x##n) { only_q<m, n, double>(true); } \
  VF_ENTRY(q_det_##m##x##n) { det<m, n, double>(true); }
CASE(1, 1)
CASE(2, 1)
CASE(3, 1)
CASE(2, 2)
CASE(3, 2)
CASE(3, 3)
VF_ENTRY(q_full_4x3_a) { full_id<4, 3, double>(6); }
VF_ENTRY(q_full_4x3_b) { full_id<4, 3, double>(5); }
VF_ENTRY(q_full_4x3_c) { full_id<4, 3, double>(3); }
VF_ENTRY(q_full_5x4) { full_id<5, 4, double>(14); }
VF_ENTRY(q_full_2x1_float) { full<2, 1, float>(true); }
VF_ENTRY(q_onlyq_2x2_float) { only_q<2, 2, float>(true); }
VF_ENTRY(q_det_2x2_float) { det<2, 2, float>(true); }
VF_ENTRY(q_alg_det_1x1) { det<1, 1, double>(false); }
VF_ENTRY(q_alg_det_2x2) { det<2, 2, double>(false); }
VF_ENTRY(q_alg_full_2x1) { full<2, 1, double>(false); }
VF_ENTRY(q_alg_onlyq_2x2) { only_q<2, 2, double>(false); }
VF_ENTRY(q_alg_onlyq_3x1) { only_q<3, 1, double>(false); }
#ifdef VF_THOROUGH
VF_ENTRY(t_full_4x3_ab) { full_id<4, 3, double>(4); }
VF_ENTRY(t_full_4x3_bc) { full_id<4, 3, double>(1); }
VF_ENTRY(t_full_4x3_ac) { full_id<4, 3, double>(2); }
VF_ENTRY(t_full_4x1) { full<4, 1, double>(true); }
VF_ENTRY(t_full_4x2) { full<4, 2, double>(true); }
VF_ENTRY(t_det_4x4) { det<4, 4, double>(true); }
VF_ENTRY(t_alg_full_2x2) { full<2, 2, double>(false); }
VF_ENTRY(t_alg_full_3x1) { full<3, 1, double>(false); }
#endif
