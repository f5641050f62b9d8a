// C05: dense linear solve.
// VF-BOUNDS: systems of size 1..3 with all entries symbolic (|entries| <= 10, |det| >= 0.5), 1..3 right hand sides; size 6 and 10 with concrete matrix and symbolic right hand sides; singular systems with a vanishing row or column
// VF-ASSUME: LAPACK ?gesv solves regular systems and reports singular ones through info (engine contract); the native replay runs the installed LAPACK
#include <vf.hxx>
#include <HyperHDG/dense_la.hxx>
template <unsigned N>
double det_def(const double (&a)[N][N])
{
  if constexpr (N == 1)
    return a[0][0];
  else
  {
    double d = 0.;
    for (unsigned c = 0; c < N; ++c)
    {
      double b[N - 1][N - 1];
      for (unsigned i = 1; i < N; ++i)
        for (unsigned j = 0; j < N - 1; ++j)
          b[i - 1][j] = a[i][j < c ? j : j + 1];
      d += (c % 2 ? -1. : 1.) * a[0][c] * det_def<N - 1>(b);
    }
    return d;
  }
}
template <unsigned N, unsigned K, typename F>
void residual(const SmallMat<N, N, F>& A, const SmallMat<N, K, F>& x, const SmallMat<N, K, F>& b, const char* msg)
{
  for (unsigned i = 0; i < N; ++i)
    for (unsigned k = 0; k < K; ++k)
    {
      F s = 0.;
      for (unsigned j = 0; j < N; ++j)
        s += A(i, j) * x(j, k);
      vf_same(s, b(i, k), sizeof(F) == 4 ? 1e3 : 1e4, msg);
    }
}
template <unsigned N, unsigned K, typename F>
void regular()
{
  SmallMat<N, N, F> A;
  SmallMat<N, K, F> b;
  for (unsigned i = 0; i < N * N; ++i)
    A[i] = vf_realT<F>("A", -10., 10.);
  for (unsigned i = 0; i < N * K; ++i)
    b[i] = vf_realT<F>("b", -10., 10.);
  double a[N][N];
  for (unsigned i = 0; i < N; ++i)
    for (unsigned j = 0; j < N; ++j)
      a[i][j] = A(i, j);
  const double d = det_def<N>(a);
  vf_assume_(d >= 0.5 || d <= -0.5);
  const SmallMat<N, N, F> Ac(A);
  const SmallMat<N, K, F> bc(b);
  auto x = bc / Ac;
  residual<N, K, F>(A, x, b, "A (b / A) = b");
  for (unsigned i = 0; i < N * N; ++i)
    vf_assert_(Ac[i] == A[i], "a constant matrix is not modified by a solve");
  for (unsigned i = 0; i < N * K; ++i)
    vf_assert_(bc[i] == b[i], "a constant right hand side is not modified by a solve");
  SmallMat<N, N, F> A2(A);
  SmallMat<N, K, F> b2(b);
  auto y = b2 / A2;
  residual<N, K, F>(A, y, b, "A (b / A) = b, overwriting form");
  std::array<F, N * N> A3 = A.data();
  std::array<F, N * K> b3 = b.data();
  SmallMat<N, K, F> z = Wrapper::lapack_solve<N, K, F>(A3, b3);
  residual<N, K, F>(A, z, b, "A lapack_solve(A, b) = b");
  for (unsigned i = 0; i < N * K; ++i)
    vf_same(b3[i], z[i], 100., "lapack_solve leaves the solution in its right hand side");
}
template <unsigned N, unsigned K, typename F>
void concrete()
{
  SmallMat<N, N, F> A;
  SmallMat<N, K, F> b;
  for (unsigned i = 0; i < N; ++i)
    for (unsigned j = 0; j < N; ++j)
      A(i, j) = F((int)((i * 7 + j * 3 + i * j) % 5) - 2) + (i == (j + 1) % N ? F(16.) : F(0.));
  for (unsigned i = 0; i < N * K; ++i)
    b[i] = vf_realT<F>("b", -10., 10.);
  const SmallMat<N, N, F> Ac(A);
  const SmallMat<N, K, F> bc(b);
  auto x = bc / Ac;
  residual<N, K, F>(A, x, b, "A (b / A) = b for a larger system");
}
template <unsigned N, unsigned K, typename F>
void singular(bool row)
{
  SmallMat<N, N, F> A;
  SmallMat<N, K, F> b;
  const unsigned z = vf_concretize_(vf_int_("zero", 0, N - 1));
  for (unsigned i = 0; i < N; ++i)
    for (unsigned j = 0; j < N; ++j)
      if ((row ? i : j) != z)
        A(i, j) = vf_realT<F>("A", 1., 10.) + (i == j ? F(40.) : F(0.));
  for (unsigned i = 0; i < N * K; ++i)
    b[i] = vf_realT<F>("b", -10., 10.);
  const SmallMat<N, N, F> Ac(A);
  const SmallMat<N, K, F> bc(b);
  bool thrown = false;
  try
  {
    auto x = bc / Ac;
  }
  catch (const Wrapper::LAPACKexception&)
  {
    thrown = true;
  }
  vf_assert_(thrown, "a singular system is reported by an exception");
}
VF_ENTRY(q_reg_1_1) { regular<1, 1, double>(); }
VF_ENTRY(q_reg_1_3) { regular<1, 3, double>(); }
VF_ENTRY(q_reg_2_1) { regular<2, 1, double>(); }
VF_ENTRY(q_reg_2_3) { regular<2, 3, double>(); }
VF_ENTRY(q_reg_3_1) { regular<3, 1, double>(); }
VF_ENTRY(q_reg_3_2) { regular<3, 2, double>(); }
VF_ENTRY(q_reg_2_1f) { regular<2, 1, float>(); }
VF_ENTRY(q_reg_2_2f) { regular<2, 2, float>(); }
VF_ENTRY(q_conc_6_2) { concrete<6, 2, double>(); }
VF_ENTRY(q_conc_10_1) { concrete<10, 1, double>(); }
VF_ENTRY(q_conc_5_3f) { concrete<5, 3, float>(); }
VF_ENTRY(q_sing_1) { singular<1, 1, double>(false); }
VF_ENTRY(q_sing_2c) { singular<2, 1, double>(false); }
VF_ENTRY(q_sing_2r) { singular<2, 2, double>(true); }
VF_ENTRY(q_sing_3c) { singular<3, 1, double>(false); }
VF_ENTRY(q_sing_2f) { singular<2, 1, float>(false); }
#ifdef VF_THOROUGH
VF_ENTRY(t_conc_24_2) { concrete<24, 2, double>(); }
VF_ENTRY(t_reg_3_4) { regular<3, 4, double>(); }
VF_ENTRY(t_sing_3r) { singular<3, 2, double>(true); }
VF_ENTRY(t_sing_4c) { singular<4, 1, double>(false); }
#endif
