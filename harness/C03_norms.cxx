// C03: scalar product and norms.
// VF-BOUNDS: vectors of length 1..5, matrices 1x1..3x3, real entries in [-100,100], double and float
#include <vf.hxx>
#include <HyperHDG/dense_la.hxx>
template <unsigned R, unsigned C, typename F>
void fill(SmallMat<R, C, F>& m, const char* n)
{
  for (unsigned i = 0; i < R * C; ++i)
    m[i] = vf_realT<F>(n, -100., 100.);
}
template <typename F>
F abs_(F x) { return x < F(0.) ? -x : x; }
template <unsigned R, unsigned C, typename F>
void scalar()
{
  SmallMat<R, C, F> a, b;
  fill(a, "a");
  fill(b, "b");
  F s = 0.;
  for (unsigned i = 0; i < R; ++i)
    for (unsigned j = 0; j < C; ++j)
      s += a(i, j) * b(i, j);
  vf_same(scalar_product(a, b), s, 1e4, "scalar product is the sum of products of entries");
  vf_same(scalar_product(b, a), s, 1e4, "scalar product is symmetric");
}
// |x|_1: largest absolute column sum, |x|_inf: largest absolute row sum
template <unsigned R, unsigned C, typename F>
void norm_one()
{
  SmallMat<R, C, F> a;
  fill(a, "a");
  const F n = norm_1(a);
  bool attained = false, bound = true;
  const F eps = sizeof(F) == 4 ? 1e-3 : 1e-9;
  for (unsigned j = 0; j < C; ++j)
  {
    F s = 0.;
    for (unsigned i = 0; i < R; ++i)
      s += abs_(a(i, j));
    bound = bound & (s <= n + eps);
    attained = attained | (s >= n - eps);
  }
  vf_assert_(bound, "norm_1 bounds every absolute column sum");
  vf_assert_(attained, "norm_1 is attained by an absolute column sum");
}
template <unsigned R, unsigned C, typename F>
void norm_inf()
{
  SmallMat<R, C, F> a;
  fill(a, "a");
  const F n = norm_infty(a);
  bool attained = false, bound = true;
  const F eps = sizeof(F) == 4 ? 1e-3 : 1e-9;
  for (unsigned i = 0; i < R; ++i)
  {
    F s = 0.;
    for (unsigned j = 0; j < C; ++j)
      s += abs_(a(i, j));
    bound = bound & (s <= n + eps);
    attained = attained | (s >= n - eps);
  }
  vf_assert_(bound, "norm_infty bounds every absolute row sum");
  vf_assert_(attained, "norm_infty is attained by an absolute row sum");
}
template <unsigned R, typename F>
void norm_two()
{
  SmallVec<R, F> a;
  fill(a, "a");
  F s = 0.;
  for (unsigned i = 0; i < R; ++i)
    s += a[i] * a[i];
  const F n = norm_2(a);
  vf_assert_(n >= F(0.), "norm_2 is not negative");
  vf_same(n * n, s, 1e4, "norm_2 squared is the sum of squares");
}
// norm_p for p = 1 and p = 2 (powers with these exponents are algebraic)
template <unsigned R, typename F>
void norm_pp()
{
  SmallVec<R, F> a;
  fill(a, "a");
  F s1 = 0., s2 = 0.;
  for (unsigned i = 0; i < R; ++i)
  {
    s1 += abs_(a[i]);
    s2 += a[i] * a[i];
  }
  vf_same(norm_p(a, F(1.)), s1, 1e4, "norm_p with p = 1");
  const F n = norm_p(a, F(2.));
  vf_assert_(n >= F(0.), "norm_p is not negative");
  vf_same(n * n, s2, 1e4, "norm_p with p = 2");
}
#define V(N, F) VF_ENTRY(q_scalar_##N##_##F) { scalar<N, 1, F>(); } \
  VF_ENTRY(q_one_##N##_##F) { norm_one<N, 1, F>(); } \
  VF_ENTRY(q_inf_##N##_##F) { norm_inf<N, 1, F>(); } \
  VF_ENTRY(q_two_##N##_##F) { norm_two<N, F>(); } \
  VF_ENTRY(q_pp_##N##_##F) { norm_pp<N, F>(); }
V(1, double)
V(2, double)
V(3, double)
V(2, float)
#define MM(R, C, F) VF_ENTRY(q_scalar_##R##x##C##_##F) { scalar<R, C, F>(); } \
  VF_ENTRY(q_one_##R##x##C##_##F) { norm_one<R, C, F>(); } \
  VF_ENTRY(q_inf_##R##x##C##_##F) { norm_inf<R, C, F>(); }
MM(1, 2, double)
MM(2, 2, double)
MM(3, 2, double)
MM(2, 3, double)
MM(2, 2, float)
VF_ENTRY(q_scalar_5) { scalar<5, 1, double>(); }
VF_ENTRY(q_scalar_6x4) { scalar<6, 4, double>(); }
VF_ENTRY(q_one_4) { norm_one<4, 1, double>(); }
VF_ENTRY(q_inf_4) { norm_inf<4, 1, double>(); }
VF_ENTRY(q_two_5) { norm_two<5, double>(); }
#ifdef VF_THOROUGH
VF_ENTRY(t_one_3x3) { norm_one<3, 3, double>(); }
VF_ENTRY(t_inf_3x3) { norm_inf<3, 3, double>(); }
VF_ENTRY(t_one_6) { norm_one<6, 1, double>(); }
VF_ENTRY(t_inf_6) { norm_inf<6, 1, double>(); }
VF_ENTRY(t_pp_4) { norm_pp<4, double>(); }
#endif
