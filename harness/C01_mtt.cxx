// C01: A times transposed B.
// VF-BOUNDS: mat_times_transposed_mat for the shapes listed in the entries
#include "C01.inc"
template <unsigned R, unsigned K, unsigned C, typename F>
void mtt()
{
  const M<R, K, F> A("A");
  const M<C, K, F> B("B");
  auto mt = mat_times_transposed_mat(A.m, B.m);
  static_assert(decltype(mt)::n_rows() == R && decltype(mt)::n_cols() == C, "");
  ALL(R, C)
  {
    F x = 0;
    for (unsigned k = 0; k < K; ++k)
      x += A.a[i][k] * B.a[j][k];
    vf_same(mt(i, j), x, S2, "A times transposed B");
  }
  A.kept("left operand unchanged");
  B.kept("right operand unchanged");
}
VF_ENTRY(q_mtt_1) { mtt<1, 1, 1, double>(); }
VF_ENTRY(q_mtt_2) { mtt<2, 2, 2, double>(); }
VF_ENTRY(q_mtt_3) { mtt<3, 3, 3, float>(); }
VF_ENTRY(q_mtt_4) { mtt<4, 4, 3, double>(); }
#ifndef SQUARE
VF_ENTRY(q_mtt_2x3x4) { mtt<2, 3, 4, double>(); }
VF_ENTRY(q_mtt_4x2x3) { mtt<4, 2, 3, double>(); }
VF_ENTRY(q_mtt_5x6x5) { mtt<5, 6, 5, double>(); }
#endif
// VF-CONFIG: quick square -DSQUARE
// VF-CONFIG: quick all
