// What LAPACK's ?geqr2 does, for the symbolic executor (the native replay links the real library).
//
// VfQr::known == true: the harness has fixed the factors beforehand (A = H_0 ... H_{k-1} R with
// H_i = I - tau_i v_i v_i^T, v_i = (0,..,0,1,tail)), built A from them, and the call returns them.
// This is LAPACK's documented contract; tau_i = 2 / (v_i^T v_i) or, exactly if the tail vanishes,
// tau_i = 0 (dlarfg), and the squared tail is at most 1.
// VfQr::known == false: the reference algorithm (dgeqr2/dlarfg/dlarf) is executed.
#pragma once
#include <vf.hxx>
template <typename F = double>
struct VfQr
{
  static constexpr unsigned N = 6;
  bool known = false;
  unsigned m = 0, n = 0;
  F out[N * N], tau[N], a[N * N];
  static VfQr& get()
  {
    static VfQr q;
    return q;
  }
  // Draws the factors of an m x n matrix; a (column major) is the matrix they belong to.
  // ident: bit i set = reflector i is the identity.
  void draw(unsigned m_, unsigned n_, unsigned ident, double rlo, double rhi)
  {
    m = m_;
    n = n_;
    known = true;
    const unsigned k = m < n ? m : n;
    F v[N][N], R[N][N];
    for (unsigned i = 0; i < m; ++i)
      for (unsigned j = 0; j < n; ++j)
        R[i][j] = j >= i ? vf_realT<F>("R", rlo, rhi) : F(0.);
    for (unsigned i = 0; i < k; ++i)
    {
      F q = 0.;
      for (unsigned r = 0; r < m; ++r)
        v[i][r] = r < i ? F(0.) : r == i ? F(1.) : (ident >> i & 1) ? F(0.) : vf_realT<F>("v", -1., 1.);
      for (unsigned r = i + 1; r < m; ++r)
        q += v[i][r] * v[i][r];
      if (i + 1 == m || (ident >> i & 1))
        tau[i] = 0.;
      else
      {
        vf_assume_(q >= F(0.01) && q <= F(0.98));
        vf_assume_(R[i][i] >= F(0.125) || R[i][i] <= F(-0.125));
        tau[i] = F(2.) / (F(1.) + q);
      }
    }
    for (unsigned j = 0; j < n; ++j)
    {
      F c[N];
      for (unsigned i = 0; i < m; ++i)
        c[i] = R[i][j];
      for (unsigned i = k; i-- > 0;)
      {
        F d = 0.;
        for (unsigned r = i; r < m; ++r)
          d += v[i][r] * c[r];
        for (unsigned r = i; r < m; ++r)
          c[r] -= tau[i] * d * v[i][r];
      }
      for (unsigned i = 0; i < m; ++i)
      {
        a[j * m + i] = c[i];
        out[j * m + i] = i <= j ? R[i][j] : v[j][i];
      }
    }
  }
};
#ifdef VF_ENGINE
template <typename F>
inline void vf_geqr2(int* m_, int* n_, F* a, int* lda, F* tau, F* work, int* info)
{
  const int m = *m_, n = *n_, ld = *lda, k = m < n ? m : n;
  VfQr<F>& Q = VfQr<F>::get();
  *info = 0;
  for (int i = 0; i < n; ++i)
    work[i] = 0.;  // the work array must have n entries
  if (m < 0 || n < 0 || ld < (m > 1 ? m : 1))
  {
    *info = -4;
    return;
  }
  if (Q.known && (int)Q.m == m && (int)Q.n == n)
  {
    for (int j = 0; j < n; ++j)
      for (int i = 0; i < m; ++i)
        vf_near_(a[j * ld + i], Q.a[j * m + i], 1e-7, "the matrix handed to LAPACK is the one to be factorised");
    for (int j = 0; j < n; ++j)
      for (int i = 0; i < m; ++i)
        a[j * ld + i] = Q.out[j * m + i];
    for (int i = 0; i < k; ++i)
      tau[i] = Q.tau[i];
    return;
  }
  for (int i = 0; i < k; ++i)
  {
    F *x = a + i * ld, s = 0.;
    for (int r = i + 1; r < m; ++r)
      s += x[r] * x[r];
    if (i + 1 >= m || s == F(0.))
    {
      tau[i] = 0.;
      continue;
    }
    const F alpha = x[i], nrm = std::sqrt(alpha * alpha + s), beta = alpha >= F(0.) ? -nrm : nrm;
    tau[i] = (beta - alpha) / beta;
    for (int r = i + 1; r < m; ++r)
      x[r] = x[r] / (alpha - beta);
    x[i] = beta;
    for (int j = i + 1; j < n; ++j)
    {
      F d = a[j * ld + i];
      for (int r = i + 1; r < m; ++r)
        d += x[r] * a[j * ld + r];
      d *= tau[i];
      a[j * ld + i] -= d;
      for (int r = i + 1; r < m; ++r)
        a[j * ld + r] -= d * x[r];
    }
  }
}
extern "C" __attribute__((noinline)) void dgeqr2_(int* m, int* n, double* a, int* lda, double* tau, double* work, int* info)
{
  vf_geqr2<double>(m, n, a, lda, tau, work, info);
}
extern "C" __attribute__((noinline)) void sgeqr2_(int* m, int* n, float* a, int* lda, float* tau, float* work, int* info)
{
  vf_geqr2<float>(m, n, a, lda, tau, work, info);
}
#endif
