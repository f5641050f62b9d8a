#include <vf.hxx>
#include <HyperHDG/dense_la.hxx>

template <unsigned R, unsigned C, typename F>
struct M
{
  SmallMat<R, C, F> m;
  F a[R][C];
  explicit M(const char* n, double lo = -1e4, double hi = 1e4)
  {
    std::array<F, R * C> e;
    for (unsigned j = 0; j < C; ++j)
      for (unsigned i = 0; i < R; ++i)
        e[j * R + i] = a[i][j] = vf_realT<F>(n, lo, hi);
    m = SmallMat<R, C, F>(e);
  }
  void kept(const char* msg) const
  {
    for (unsigned i = 0; i < R; ++i)
      for (unsigned j = 0; j < C; ++j)
        vf_assert_(m(i, j) == a[i][j], msg);
  }
};
#define ALL(R, C) for (unsigned i = 0; i < R; ++i) for (unsigned j = 0; j < C; ++j)
constexpr double S = 1e4, S2 = 1e8;

