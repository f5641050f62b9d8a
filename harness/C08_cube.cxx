// C08: combinatorics of the unit hypercube.
// VF-BOUNDS: dimensions 0..4; index decomposition for every 32-bit index and every range 1..1000 (symbolic) in dimension 1..2 and ranges 1..7 in dimension 3..4; tensorial points of dimension 0..3 from 1..4 one-dimensional points with symbolic coordinates, every index
// VF-CONFIG: quick debug
// VF-CONFIG: quick ndebug -DNDEBUG
#include <vf.hxx>
#include <HyperHDG/dense_la.hxx>
#include <HyperHDG/hypercube.hxx>
template <unsigned d>
void decompose(unsigned lo, unsigned hi)
{
  const unsigned range = vf_int_("range", lo, hi);
  unsigned long total = 1;
  for (unsigned i = 0; i < d; ++i)
    total *= range;
  const unsigned index = vf_int_("index", 0, 4294967295u);
  vf_assume_(index < total);
  const auto dec = Hypercube<d>::index_decompose(index, range);
  vf_assert_(dec.size() == (d ? d : 1), "one digit per dimension");
  unsigned long sum = 0, f = 1;
  for (unsigned i = 0; i < d; ++i)
  {
    vf_assert_(dec[i] < range, "every digit is smaller than the range");
    sum += f * dec[i];
    f *= range;
  }
  vf_assert_(sum == index, "the digits recompose to the index, lowest dimension first");
}
#define DEC(D, LO, HI) VF_ENTRY(q_dec_##D##_##HI) { decompose<D>(LO, HI); }
DEC(1, 1, 1000)
DEC(2, 1, 30)
DEC(3, 2, 2)
DEC(3, 3, 3)
DEC(3, 5, 5)
DEC(4, 2, 2)
DEC(4, 7, 7)
#ifdef VF_THOROUGH
VF_ENTRY(t_dec_3_1_12) { decompose<3>(1, 12); }
VF_ENTRY(t_dec_4_1_6) { decompose<4>(1, 6); }
VF_ENTRY(t_dec_2_1_200) { decompose<2>(1, 200); }
#endif
VF_ENTRY(q_dec_0)
{
  const unsigned range = vf_int_("range", 1, 100);
  const auto dec = Hypercube<0>::index_decompose(0, range);
  vf_assert_(dec.size() == 1 && dec[0] == 0, "a point has one index, zero");
}
#ifndef NDEBUG
template <unsigned d>
void decompose_abort(unsigned range)
{
  unsigned total = 1;
  for (unsigned i = 0; i < d; ++i)
    total *= range;
  const unsigned index = vf_int_("index", 0, 4294967295u);
  vf_assume_(index >= total);
  vf_expect_abort_(true);
  Hypercube<d>::index_decompose(index, range);
}
VF_ENTRY(q_abort_1_3) { decompose_abort<1>(3); }
VF_ENTRY(q_abort_2_4) { decompose_abort<2>(4); }
VF_ENTRY(q_abort_3_2) { decompose_abort<3>(2); }
#endif
template <unsigned d>
void sizes()
{
  unsigned long vert = 1;
  for (unsigned i = 0; i < d; ++i)
    vert *= 2;
  vf_assert_(Hypercube<d>::n_vertices() == vert, "2^d vertices");
  vf_assert_(Hypercube<d>::n_faces() == 2 * d, "2 d faces");
  const unsigned b = vf_int_("base", 0, 40);
  unsigned long p = 1;
  for (unsigned i = 0; i < d; ++i)
    p *= b;
  vf_assert_(Hypercube<d>::pow(b) == p, "power of the base");
}
VF_ENTRY(q_sizes_0) { sizes<0>(); }
VF_ENTRY(q_sizes_1) { sizes<1>(); }
VF_ENTRY(q_sizes_2) { sizes<2>(); }
VF_ENTRY(q_sizes_3) { sizes<3>(); }
VF_ENTRY(q_sizes_4) { sizes<4>(); }
template <unsigned d, unsigned n, typename F>
void tensor()
{
  SmallVec<n, F> pts;
  for (unsigned i = 0; i < n; ++i)
    pts[i] = vf_realT<F>("p", -10., 10.);
  unsigned total = 1;
  for (unsigned i = 0; i < d; ++i)
    total *= n;
  unsigned digit[d];
  for (unsigned k = 0; k < total; ++k)
  {
    const auto p = Hypercube<d>::template tensorial_pt<Point<d, F>>(k, pts);
    unsigned r = k;
    for (unsigned i = 0; i < d; ++i, r /= n)
      vf_assert_(p[i] == pts[r % n], "coordinate i of the tensorial point is the one-dimensional point of digit i");
  }
}
VF_ENTRY(q_tensor_1_1) { tensor<1, 1, double>(); }
VF_ENTRY(q_tensor_1_4) { tensor<1, 4, double>(); }
VF_ENTRY(q_tensor_2_2) { tensor<2, 2, float>(); }
VF_ENTRY(q_tensor_2_3) { tensor<2, 3, double>(); }
VF_ENTRY(q_tensor_3_2) { tensor<3, 2, double>(); }
VF_ENTRY(q_tensor_3_3) { tensor<3, 3, float>(); }
