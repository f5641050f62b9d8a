// C02: division by a zero entry throws, and only that.
// VF-BOUNDS: shapes 1x1..3x2; reals in [-1,1] (any position and number of zeros) and, in bit-precise floating point, every double/float bit pattern of numerators and divisors (quotient values: reals only)
// VF-CONFIG: quick debug
// VF-CONFIG: quick ndebug -DNDEBUG
#include <vf.hxx>
#include <HyperHDG/dense_la.hxx>
template <unsigned R, unsigned C, typename F, bool BITS>
struct D
{
  static F val(const char* n)
  {
    if constexpr (BITS)
    {
      if constexpr (sizeof(F) == 4)
        return vf_fpf_(n);
      else
        return vf_fp_(n);
    }
    else
      return vf_realT<F>(n, -1., 1.);
  }
};
template <unsigned R, unsigned C, typename F, bool BITS>
void run(unsigned op)
{
  SmallMat<R, C, F> a, b, q;
  F s = 0., t = 0.;
  bool zero = false;
  if (op != 2)
    for (unsigned i = 0; i < R * C; ++i)
      a[i] = D<R, C, F, BITS>::val("a");
  else
    t = D<R, C, F, BITS>::val("t");
  if (op < 3)
    for (unsigned i = 0; i < R * C; ++i)
    {
      b[i] = D<R, C, F, BITS>::val("b");
      if (b[i] == F(0.))
        zero = true;
    }
  else
  {
    s = D<R, C, F, BITS>::val("s");
    zero = s == F(0.);
  }
  const SmallMat<R, C, F> a0(a), b0(b);
  bool thrown = false;
  try
  {
    switch (op)
    {
      case 0: q = hada_divi(a, b); break;
      case 1: q = (a /= b); break;
      case 2: q = t / b; break;
      case 3: q = a / s; break;
      case 4: q = (a /= s); break;
    }
  }
  catch (const SmallMatDivByZeroException& e)
  {
    thrown = true;
  }
  vf_assert_(thrown == zero, "division throws if and only if a divisor is zero");
  if (thrown || BITS)
    return;
  for (unsigned i = 0; i < R * C; ++i)
  {
    const F num = op == 2 ? t : a0[i], den = op < 3 ? b0[i] : s;
    vf_near_(q[i] * den, num, 1e-6, "quotients are the entrywise quotients");
    if (op == 1 || op == 4)
      vf_assert_(a[i] == q[i] || a[i] != a[i], "in-place division stores the quotient");
  }
}
#define ALLOPS(N, ...) \
  VF_ENTRY(q_hada_##N) { run<__VA_ARGS__>(0); } \
  VF_ENTRY(q_asgn_##N) { run<__VA_ARGS__>(1); } \
  VF_ENTRY(q_scdiv_##N) { run<__VA_ARGS__>(2); } \
  VF_ENTRY(q_divsc_##N) { run<__VA_ARGS__>(3); } \
  VF_ENTRY(q_asgnsc_##N) { run<__VA_ARGS__>(4); }
ALLOPS(1x1r, 1, 1, double, false)
ALLOPS(3x1r, 3, 1, double, false)
ALLOPS(2x2r, 2, 2, float, false)
ALLOPS(3x2r, 3, 2, double, false)
ALLOPS(1x1b, 1, 1, double, true)
ALLOPS(2x1b, 2, 1, double, true)
ALLOPS(2x1f, 2, 1, float, true)
