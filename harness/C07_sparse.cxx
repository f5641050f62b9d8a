// C07: vector operations and the conjugate gradient method.
// VF-BOUNDS: vectors of length 0..5; CG on systems of size 1..3 (symmetric positive definite 2x2 fully symbolic, tridiagonal 3x3 and 4x4 with the right hand side on a line), any right hand side in a box, iteration limits 0..3, tolerance concrete and symbolic
#include <vf.hxx>
#include <HyperHDG/sparse_la.hxx>
#include <exception>
template <typename V>
V draw(unsigned n, const char* nm, double lo = -100., double hi = 100.)
{
  V v(n, 0.);
  for (unsigned i = 0; i < n; ++i)
    v[i] = vf_realT<typename V::value_type>(nm, lo, hi);
  return v;
}
template <typename F>
void vectors(unsigned n)
{
  using V = std::vector<F>;
  const V a = draw<V>(n, "a"), b = draw<V>(n, "b"), a0 = a, b0 = b;
  const F s = vf_realT<F>("s", -100., 100.), t = vf_realT<F>("t", -100., 100.);
  F ip = 0., q = 0.;
  for (unsigned i = 0; i < n; ++i)
    ip += a[i] * b[i], q += a[i] * a[i];
  vf_same(SparseLA::inner_product(a, b), ip, 1e4, "inner product is the sum of products");
  const F nn = SparseLA::norm_2(a);
  vf_assert_(nn >= F(0.), "norm is not negative");
  vf_same(nn * nn, q, 1e4, "norm squared is the sum of squares");
  const V l = SparseLA::linear_combination(s, a, t, b);
  vf_assert_(l.size() == n, "linear combination has the size of its operands");
  V r = b;
  SparseLA::linear_combination(s, a, t, b, r);
  vf_assert_(r.size() == n, "linear combination keeps the size of the result");
  V x = a, y = b, z = a;
  SparseLA::linear_combination(s, x, t, b, x);
  SparseLA::linear_combination(s, a, t, y, y);
  SparseLA::linear_combination(s, z, t, z, z);
  for (unsigned i = 0; i < n; ++i)
  {
    vf_same(l[i], s * a[i] + t * b[i], 1e4, "linear combination, new vector");
    vf_same(r[i], s * a[i] + t * b[i], 1e4, "linear combination into a vector");
    vf_same(x[i], s * a[i] + t * b[i], 1e4, "linear combination into its left operand");
    vf_same(y[i], s * a[i] + t * b[i], 1e4, "linear combination into its right operand");
    vf_same(z[i], s * a[i] + t * a[i], 1e4, "linear combination of a vector with itself");
    vf_assert_(a[i] == a0[i] && b[i] == b0[i], "operands are not modified");
  }
}
VF_ENTRY(q_vec_0) { vectors<double>(0); }
VF_ENTRY(q_vec_1) { vectors<double>(1); }
VF_ENTRY(q_vec_3) { vectors<double>(3); }
VF_ENTRY(q_vec_5) { vectors<double>(5); }
VF_ENTRY(q_vec_4f) { vectors<float>(4); }

template <unsigned N>
struct Problem
{
  double A[N][N];
  unsigned calls = 0;
  std::vector<double> trace_to_flux(const std::vector<double>& d)
  {
    ++calls;
    vf_assert_(d.size() == N, "operator is applied to a vector of the system's size");
    std::vector<double> z(N, 0.);
    for (unsigned i = 0; i < N; ++i)
      for (unsigned j = 0; j < N; ++j)
        z[i] += A[i][j] * d[j];
    return z;
  }
};
template <unsigned N>
void spd(Problem<N>& p, bool diag)
{
  for (unsigned i = 0; i < N; ++i)
    for (unsigned j = 0; j <= i; ++j)
      p.A[i][j] = p.A[j][i] = i == j ? vf_real_("A", 1., 8.) : diag ? 0. : vf_real_("A", -0.5, 0.5);
}
// limit iterations; the tolerance is tol
template <unsigned N>
void cg(bool diag, unsigned limit, double tol, double lo, double hi)
{
  Problem<N> p;
  spd(p, diag);
  const std::vector<double> b = draw<std::vector<double>>(N, "b", lo, hi), b0 = b;
  bool thrown = false;
  std::vector<double> x;
  try
  {
    x = limit == 99 ? SparseLA::conjugate_gradient(b, p)
                    : SparseLA::conjugate_gradient(b, p, limit, tol);
  }
  catch (const SparseLA::SolveException&)
  {
    thrown = true;
  }
  const unsigned it = limit == 99 || limit == 0 ? N : limit;
  if (limit == 99)
    tol = 1e-9;
  vf_assert_(p.calls <= it, "CG applies the operator at most once per allowed iteration");
  for (unsigned i = 0; i < N; ++i)
    vf_assert_(b[i] == b0[i], "CG does not modify the right hand side");
#ifdef VF_ENGINE
  vf_assert_(!(thrown && it >= N), "CG solves a positive definite system of size n within n iterations");
#else
  if (tol > 1e-8)
    vf_assert_(!(thrown && it >= N), "CG solves a positive definite system of size n within n iterations");
#endif
  if (thrown)
    return;
  vf_assert_(x.size() == N, "CG returns a vector of the system's size");
  double r2 = 0.;
  for (unsigned i = 0; i < N; ++i)
  {
    double r = b[i];
    for (unsigned j = 0; j < N; ++j)
      r -= p.A[i][j] * x[j];
    r2 += r * r;
  }
  vf_assert_(r2 <= tol * tol * 1.0000001, "a solution returned by CG has a residual below the tolerance");
}
VF_ENTRY(q_cg1_default) { cg<1>(true, 99, 0., 1., 10.); }
VF_ENTRY(q_cg1_0) { cg<1>(true, 0, 0.5, -10., 10.); }
VF_ENTRY(q_cg1_1) { cg<1>(true, 1, 1e-3, -10., 10.); }
VF_ENTRY(q_cg2d_default) { cg<2>(true, 0, 1e-4, 1., 2.); }
VF_ENTRY(q_cg2d_1) { cg<2>(true, 1, 0.25, -2., 2.); }
VF_ENTRY(q_cg2d_2) { cg<2>(true, 2, 0.25, -2., 2.); }
VF_ENTRY(q_cg2s_0) { cg<2>(false, 0, 1e-4, 1., 2.); }
VF_ENTRY(q_cg2s_1) { cg<2>(false, 1, 0.25, 0.5, 2.); }
VF_ENTRY(q_cg2s_3) { cg<2>(false, 3, 0.25, 0.5, 2.); }
// any linear operator: whatever is returned has a small residual
template <unsigned N>
void cg_any(unsigned limit, double tol)
{
  Problem<N> p;
  for (unsigned i = 0; i < N; ++i)
    for (unsigned j = 0; j < N; ++j)
      p.A[i][j] = vf_real_("A", 0.5, 2.);
  const std::vector<double> b = draw<std::vector<double>>(N, "b", 0.5, 2.);
  bool thrown = false;
  std::vector<double> x;
  try
  {
    x = SparseLA::conjugate_gradient(b, p, limit, tol);
  }
  catch (const SparseLA::SolveException&)
  {
    thrown = true;
  }
  vf_assert_(p.calls >= 1 && p.calls <= limit, "CG applies the operator once per iteration");
  if (thrown)
  {
    vf_assert_(p.calls == limit, "CG gives up only after the allowed number of iterations");
    return;
  }
  double r2 = 0.;
  for (unsigned i = 0; i < N; ++i)
  {
    double r = b[i];
    for (unsigned j = 0; j < N; ++j)
      r -= p.A[i][j] * x[j];
    r2 += r * r;
  }
  vf_assert_(r2 <= tol * tol * 1.0000001, "a solution returned by CG has a residual below the tolerance");
}
VF_ENTRY(q_any2_1) { cg_any<2>(1, 0.25); }
// larger systems, concrete tridiagonal matrix, right hand side along a line
template <unsigned N>
void cg_line(unsigned limit, double tol)
{
  Problem<N> p;
  for (unsigned i = 0; i < N; ++i)
    for (unsigned j = 0; j < N; ++j)
      p.A[i][j] = i == j ? 4. + i : (i + 1 == j || j + 1 == i) ? -1. : 0.;
  std::vector<double> b(N, 1.);
  b[N - 1] = 3.;
  b[0] = vf_real_("t", -4., 4.);
  bool thrown = false;
  std::vector<double> x;
  try
  {
    x = SparseLA::conjugate_gradient(b, p, limit, tol);
  }
  catch (const SparseLA::SolveException&)
  {
    thrown = true;
  }
  vf_assert_(p.calls <= (limit ? limit : N), "CG applies the operator at most once per allowed iteration");
  if (limit == 0 || limit >= N)
    vf_assert_(!thrown, "CG solves a positive definite system of size n within n iterations");
  if (thrown)
    return;
  double r2 = 0.;
  for (unsigned i = 0; i < N; ++i)
  {
    double r = b[i];
    for (unsigned j = 0; j < N; ++j)
      r -= p.A[i][j] * x[j];
    r2 += r * r;
  }
  vf_assert_(r2 <= tol * tol * 1.0000001, "a solution returned by CG has a residual below the tolerance");
}
VF_ENTRY(q_line3_0) { cg_line<3>(0, 1e-3); }
VF_ENTRY(q_line3_2) { cg_line<3>(2, 0.125); }
VF_ENTRY(q_line4_1) { cg_line<4>(1, 2.); }
// a right hand side below the tolerance: zero, without applying the operator
VF_ENTRY(q_cg_small)
{
  Problem<3> p;
  spd(p, true);
  const std::vector<double> b = draw<std::vector<double>>(3, "b", -1., 1.);
  const double tol = vf_real_("tol", 0.01, 1.);
  double q = 0.;
  for (unsigned i = 0; i < 3; ++i)
    q += b[i] * b[i];
  vf_assume_(q < 0.999 * tol * tol);
  auto x = SparseLA::conjugate_gradient(b, p, 1, tol);
  vf_assert_(p.calls == 0, "a right hand side below the tolerance needs no iteration");
  for (unsigned i = 0; i < 3; ++i)
    vf_assert_(x[i] == 0., "a right hand side below the tolerance has the zero solution");
}
VF_ENTRY(q_cg_empty)
{
  Problem<1> p;
  const std::vector<double> b;
  auto x = SparseLA::conjugate_gradient(b, p);
  vf_assert_(x.size() == 0, "an empty system has the empty solution");
}
#ifdef VF_THOROUGH
VF_ENTRY(t_line4_0) { cg_line<4>(0, 1e-3); }
VF_ENTRY(t_line4_3) { cg_line<4>(3, 0.125); }
VF_ENTRY(t_line5_0) { cg_line<5>(0, 1e-2); }
VF_ENTRY(t_cg3d_0) { cg<3>(true, 0, 1e-3, 1., 2.); }
VF_ENTRY(t_cg3s_1) { cg<3>(false, 1, 0.25, 0.5, 2.); }
VF_ENTRY(t_any2_2) { cg_any<2>(2, 0.25); }
#endif
