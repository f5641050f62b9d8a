// C04: equality and order of dense vectors and matrices, bit-precise.
// VF-BOUNDS: up to 6 entries (order: 4) per operand; entries double, float, int, unsigned int, unsigned long: every bit pattern (order laws: every pattern that is not NaN)
// VF-CONFIG: quick debug
// VF-CONFIG: quick ndebug -DNDEBUG
#include <vf.hxx>
#include <HyperHDG/dense_la.hxx>
template <typename F>
F bits(const char* n, bool nan)
{
  F x;
  if constexpr (std::is_integral_v<F>)
    x = (F)vf_int_(n, 0, sizeof(F) == 8 ? ~0ull : (1ull << 8 * sizeof(F)) - 1);
  else if constexpr (sizeof(F) == 4)
    x = vf_fpf_(n);
  else
    x = vf_fp_(n);
  if (!nan)
    vf_assume_(x == x);
  return x;
}
template <unsigned R, unsigned C, typename F>
SmallMat<R, C, F> any(const char* n, bool nan)
{
  SmallMat<R, C, F> m;
  for (unsigned i = 0; i < R * C; ++i)
    m[i] = bits<F>(n, nan);
  return m;
}
template <unsigned R, unsigned C, typename F>
void equality()
{
  const auto a = any<R, C, F>("a", true), b = any<R, C, F>("b", true);
  bool eq = true;
  for (unsigned i = 0; i < R; ++i)
    for (unsigned j = 0; j < C; ++j)
      eq = eq & (a(i, j) == b(i, j));
  vf_assert_((a == b) == eq, "== holds exactly if all entries are equal");
  vf_assert_((a != b) == !eq, "!= is the negation of ==");
}
template <unsigned R, unsigned C, typename F>
void order()
{
  const auto a = any<R, C, F>("a", false), b = any<R, C, F>("b", false);
  bool lt = false, decided = false;
  for (unsigned i = 0; i < R * C; ++i)
  {
    lt = lt | (!decided & (a[i] < b[i]));
    decided = decided | (a[i] != b[i]);
  }
  vf_assert_((a < b) == lt, "< is the lexicographic order of the entries");
  vf_assert_(!(a < a), "< is irreflexive");
  vf_assert_(!((a < b) && (b < a)), "< is asymmetric");
  vf_assert_((a < b) || (b < a) || (a == b), "< is total");
  vf_assert_(!((a < b) && (a == b)), "< excludes ==");
}
template <unsigned R, typename F>
void transitive()
{
  const auto a = any<R, 1, F>("a", false), b = any<R, 1, F>("b", false), c = any<R, 1, F>("c", false);
  const bool x = a < b, y = b < c;
  if (x && y)
    vf_assert_(a < c, "< is transitive");
  vf_assert_(true, "reached");
}
VF_ENTRY(q_eq_1) { equality<1, 1, double>(); }
VF_ENTRY(q_eq_3) { equality<3, 1, double>(); }
VF_ENTRY(q_eq_2x2) { equality<2, 2, double>(); }
VF_ENTRY(q_eq_3f) { equality<3, 1, float>(); }
VF_ENTRY(q_lt_1) { order<1, 1, double>(); }
VF_ENTRY(q_lt_2) { order<2, 1, double>(); }
VF_ENTRY(q_lt_3) { order<3, 1, double>(); }
VF_ENTRY(q_lt_2x2f) { order<2, 2, float>(); }
VF_ENTRY(q_tr_2) { transitive<2, double>(); }
VF_ENTRY(q_tr_3f) { transitive<3, float>(); }
VF_ENTRY(q_eq_6) { equality<6, 1, double>(); }
VF_ENTRY(q_eq_2x3) { equality<2, 3, double>(); }
VF_ENTRY(q_eq_4u) { equality<4, 1, unsigned>(); }
VF_ENTRY(q_lt_4u) { order<4, 1, unsigned>(); }
VF_ENTRY(q_lt_2i) { order<2, 1, int>(); }
VF_ENTRY(q_lt_3l) { order<3, 1, unsigned long>(); }
VF_ENTRY(q_tr_3u) { transitive<3, unsigned>(); }
VF_ENTRY(q_lt_4) { order<4, 1, double>(); }
VF_ENTRY(q_tr_3) { transitive<3, double>(); }
#ifdef VF_THOROUGH
VF_ENTRY(t_eq_9) { equality<3, 3, double>(); }
VF_ENTRY(t_lt_6) { order<6, 1, double>(); }
VF_ENTRY(t_lt_2x3f) { order<2, 3, float>(); }
VF_ENTRY(t_tr_4) { transitive<4, double>(); }
VF_ENTRY(t_tr_5u) { transitive<5, unsigned>(); }
#endif
