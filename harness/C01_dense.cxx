// C01: every dense operation equals its entrywise definition, and leaves its operands alone.
// VF-BOUNDS: matrix shapes {1..6}x{1..6} as listed in the entries, all entries symbolic reals in [-1e4,1e4], double and float
// VF-CONFIG: quick debug
// VF-CONFIG: quick ndebug -DNDEBUG
#include "C01.inc"
template <unsigned R, unsigned C, typename F>
void entrywise()
{
  const M<R, C, F> A("A"), B("B");
  const F s = vf_realT<F>("s", -1e4, 1e4);
  auto add = A.m + B.m, sub = A.m - B.m, pr = hada_prod(A.m, B.m);
  auto as = A.m + s, sa = s + A.m, ms = A.m - s, sm = s - A.m, xs = A.m * s, sx = s * A.m;
  ALL(R, C)
  {
    vf_same(add(i, j), A.a[i][j] + B.a[i][j], S, "matrix + matrix");
    vf_same(sub(i, j), A.a[i][j] - B.a[i][j], S, "matrix - matrix");
    vf_same(pr(i, j), A.a[i][j] * B.a[i][j], S2, "Hadamard product");
    vf_same(as(i, j), A.a[i][j] + s, S, "matrix + scalar");
    vf_same(sa(i, j), s + A.a[i][j], S, "scalar + matrix");
    vf_same(ms(i, j), A.a[i][j] - s, S, "matrix - scalar");
    vf_same(sm(i, j), s - A.a[i][j], S, "scalar - matrix");
    vf_same(xs(i, j), A.a[i][j] * s, S2, "matrix * scalar");
    vf_same(sx(i, j), A.a[i][j] * s, S2, "scalar * matrix");
  }
  SmallMat<R, C, F> t1(A.m), t2(A.m), t3(A.m), t4(A.m), t5(A.m), t6(A.m);
  auto &r1 = (t1 += B.m), &r2 = (t2 -= B.m), &r3 = (t3 *= B.m), &r4 = (t4 += s), &r5 = (t5 -= s), &r6 = (t6 *= s);
  vf_assert_(&r1 == &t1 && &r2 == &t2 && &r3 == &t3 && &r4 == &t4 && &r5 == &t5 && &r6 == &t6,
             "compound assignment returns its left operand");
  ALL(R, C)
  {
    vf_same(t1(i, j), A.a[i][j] + B.a[i][j], S, "matrix += matrix");
    vf_same(t2(i, j), A.a[i][j] - B.a[i][j], S, "matrix -= matrix");
    vf_same(t3(i, j), A.a[i][j] * B.a[i][j], S2, "matrix *= matrix");
    vf_same(t4(i, j), A.a[i][j] + s, S, "matrix += scalar");
    vf_same(t5(i, j), A.a[i][j] - s, S, "matrix -= scalar");
    vf_same(t6(i, j), A.a[i][j] * s, S2, "matrix *= scalar");
  }
  F p = 1;
  ALL(R, C) if (R * C <= 6) p *= A.a[i][j];
  if (R * C <= 6)
    vf_same(entries_product(A.m), p, 0, "product of the entries");
  A.kept("left operand unchanged");
  B.kept("right operand unchanged");
  // operands that are the same object
  SmallMat<R, C, F> u1(A.m), u2(A.m), u3(A.m), u4(A.m), u5(A.m);
  u1 += u1;
  u2 -= u2;
  u3 *= u3;
  u4 = u4;
  u5 += u5[0];
  ALL(R, C)
  {
    vf_same(u1(i, j), 2 * A.a[i][j], S, "a += a");
    vf_same(u2(i, j), F(0), S, "a -= a");
    vf_same(u3(i, j), A.a[i][j] * A.a[i][j], S2, "a *= a");
    vf_same(u4(i, j), A.a[i][j], S, "a = a");
    vf_same(u5(i, j), A.a[i][j] + A.a[0][0], S, "a += a[0]");
  }
}

template <unsigned R, unsigned C, typename F>
void division()
{
  const M<R, C, F> A("A"), B("B", 0.001, 1000.), N("N", -1000., -0.001);
  const F s = vf_realT<F>("s", 0.001, 1000.), n = vf_realT<F>("n", -1000., -0.001);
  auto d1 = hada_divi(A.m, B.m), d2 = A.m / s, d3 = s / B.m, d4 = hada_divi(A.m, N.m), d5 = A.m / n, d6 = s / N.m;
  SmallMat<R, C, F> t1(A.m), t2(A.m), t3(B.m);
  auto &r1 = (t1 /= B.m), &r2 = (t2 /= s);
  t3 /= t3;
  vf_assert_(&r1 == &t1 && &r2 == &t2, "compound division returns its left operand");
  ALL(R, C)
  {
    vf_same(d1(i, j), A.a[i][j] / B.a[i][j], 0, "Hadamard division");
    vf_same(d2(i, j), A.a[i][j] / s, 0, "matrix / scalar");
    vf_same(d3(i, j), s / B.a[i][j], 0, "scalar / matrix");
    vf_same(d4(i, j), A.a[i][j] / N.a[i][j], 0, "Hadamard division, negative divisor");
    vf_same(d5(i, j), A.a[i][j] / n, 0, "matrix / negative scalar");
    vf_same(d6(i, j), s / N.a[i][j], 0, "scalar / negative matrix");
    vf_same(t1(i, j), A.a[i][j] / B.a[i][j], 0, "matrix /= matrix");
    vf_same(t2(i, j), A.a[i][j] / s, 0, "matrix /= scalar");
    vf_same(t3(i, j), F(1), 0, "a /= a");
  }
  A.kept("left operand unchanged");
  B.kept("right operand unchanged");
}

template <unsigned R, unsigned C, typename F>
void broadcast()
{
  const M<R, C, F> A("A");
  const M<R, 1, F> v("v");
  auto p = A.m + v.m, q = v.m + A.m, m = A.m - v.m, n = v.m - A.m;
  SmallMat<R, C, F> t1(A.m), t2(A.m);
  t1 += v.m;
  t2 -= v.m;
  auto rep = rep_mat<R, C, F>(v.m);
  ALL(R, C)
  {
    vf_same(p(i, j), A.a[i][j] + v.a[i][0], S, "matrix + column");
    vf_same(q(i, j), A.a[i][j] + v.a[i][0], S, "column + matrix");
    vf_same(m(i, j), A.a[i][j] - v.a[i][0], S, "matrix - column");
    vf_same(n(i, j), v.a[i][0] - A.a[i][j], S, "column - matrix");
    vf_same(t1(i, j), A.a[i][j] + v.a[i][0], S, "matrix += column");
    vf_same(t2(i, j), A.a[i][j] - v.a[i][0], S, "matrix -= column");
    vf_same(rep(i, j), v.a[i][0], S, "matrix of repeated columns");
  }
  A.kept("matrix operand unchanged");
  v.kept("column operand unchanged");
}

template <unsigned R, unsigned K, unsigned C, typename F>
void products()
{
  const M<R, K, F> A("A");
  const M<K, C, F> B("B");
  const M<R, C, F> D("D");
  auto ab = A.m * B.m;
  auto un = mat_times_mat_unfit(A.m, B.m);
  auto tm = transposed_mat_times_mat(A.m, D.m);
  static_assert(decltype(ab)::n_rows() == R && decltype(ab)::n_cols() == C, "");
  static_assert(decltype(tm)::n_rows() == K && decltype(tm)::n_cols() == C, "");
  ALL(R, C)
  {
    F x = 0;
    for (unsigned k = 0; k < K; ++k)
      x += A.a[i][k] * B.a[k][j];
    vf_same(ab(i, j), x, S2, "matrix product");
    vf_same(un(i, j), x, S2, "matrix product (unfit)");
  }
  ALL(K, C)
  {
    F x = 0;
    for (unsigned k = 0; k < R; ++k)
      x += A.a[k][i] * D.a[k][j];
    vf_same(tm(i, j), x, S2, "transposed A times B");
  }
  auto tr = transposed(A.m);
  ALL(R, K) vf_same(tr(j, i), A.a[i][j], S, "transposed");
  A.kept("left operand unchanged");
  B.kept("right operand unchanged");
  D.kept("right operand unchanged");
}

template <unsigned R, unsigned K, unsigned K2, unsigned C, typename F>
void unfit()
{
  const M<R, K, F> A("A");
  const M<K2, C, F> B("B");
  auto un = mat_times_mat_unfit(A.m, B.m);
  ALL(R, C)
  {
    F x = 0;
    for (unsigned k = 0; k < (K < K2 ? K : K2); ++k)
      x += A.a[i][k] * B.a[k][j];
    vf_same(un(i, j), x, S2, "matrix product of unfitting shapes");
  }
}

template <unsigned R, unsigned C, typename F>
void structure()
{
  const M<R, C, F> A("A");
  const M<R, 1, F> u("u");
  const M<C, 1, F> v("v");
  const M<(R < C ? R : C), 1, F> w("w");
  const F s = vf_realT<F>("s", -1e4, 1e4);
  SmallMat<R, C, F> D = dyadic_product(u.m, v.m), E = diagonal<R, C, F>(s), G = diagonal<R, C, F>(w.m), Z, K(s);
  ALL(R, C)
  {
    vf_same(D(i, j), u.a[i][0] * v.a[j][0], S2, "dyadic product");
    vf_same(E(i, j), i == j ? s : F(0), S, "diagonal matrix of one value");
    vf_same(G(i, j), i == j ? w.a[i][0] : F(0), S, "diagonal matrix of a vector");
    vf_same(Z(i, j), F(0), S, "default constructed matrix");
    vf_same(K(i, j), s, S, "constant matrix");
    vf_same(A.m[j * R + i], A.a[i][j], S, "column major storage");
    vf_same(A.m.data()[j * R + i], A.a[i][j], S, "column major data()");
  }
  unsigned n = 0;
  for (auto x : A.m)
    vf_same(x, A.m[n++], S, "iteration follows storage");
  vf_assert_(n == R * C && A.m.size() == R * C && A.m.n_rows() == R && A.m.n_cols() == C, "size");
  SmallMat<R, C, F> T(A.m);
  for (unsigned j = 0; j < C; ++j)
  {
    auto c = A.m.get_column(j);
    for (unsigned i = 0; i < R; ++i)
      vf_same(c[i], A.a[i][j], S, "get_column");
  }
  T.set_column(C - 1, u.m);
  ALL(R, C) vf_same(T(i, j), j == C - 1 ? u.a[i][0] : A.a[i][j], S, "set_column");
  std::vector<F> vec(A.m.begin(), A.m.end());
  SmallMat<R, C, F> X(vec), Y, W;
  ALL(R, C) vf_same(X(i, j), A.a[i][j], S, "construction from a std::vector");
  Y = A.m;
  SmallMat<R, C, F> V(std::move(X));
  W = std::move(Y);
  ALL(R, C)
  {
    vf_same(V(i, j), A.a[i][j], S, "move construction");
    vf_same(W(i, j), A.a[i][j], S, "assignment and move assignment");
  }
  SmallMat<R, C, double> Q(A.m);
  SmallMat<R, C, float> Qf(Q);
  ALL(R, C)
  {
    vf_near_(Q(i, j), A.a[i][j], 1e-9, "conversion to double");
    vf_near_(Qf(i, j), A.a[i][j], 0.01, "conversion to float");
  }
  A.kept("operand unchanged");
  u.kept("left factor unchanged");
  v.kept("right factor unchanged");
}

template <typename F>
void cross()
{
  const M<3, 1, F> a("a"), b("b");
  auto c = cross_product(a.m, b.m);
  for (unsigned i = 0; i < 3; ++i)
  {
    unsigned j = (i + 1) % 3, k = (i + 2) % 3;
    vf_same(c[i], a.a[j][0] * b.a[k][0] - a.a[k][0] * b.a[j][0], S2, "cross product");
  }
  a.kept("left operand unchanged");
  b.kept("right operand unchanged");
}

#define EW(R, C, F, t) VF_ENTRY(q_entrywise_##R##x##C##_##F) { entrywise<R, C, F>(); } \
  VF_ENTRY(q_division_##R##x##C##_##F) { division<R, C, F>(); } \
  VF_ENTRY(q_structure_##R##x##C##_##F) { structure<R, C, F>(); }
EW(1, 1, double, q)
EW(3, 1, double, q)
EW(1, 3, double, q)
EW(2, 3, double, q)
EW(3, 2, double, q)
EW(4, 4, double, q)
EW(6, 5, double, q)
EW(3, 3, float, q)
EW(2, 4, float, q)
#define BC(R, C, F) VF_ENTRY(q_broadcast_##R##x##C##_##F) { broadcast<R, C, F>(); }
BC(1, 2, double)
BC(2, 2, double)
BC(2, 3, double)
BC(3, 2, float)
BC(5, 4, double)
#define PR(R, K, C, F) VF_ENTRY(q_products_##R##x##K##x##C##_##F) { products<R, K, C, F>(); }
PR(1, 1, 1, double)
PR(2, 2, 2, double)
PR(2, 3, 4, double)
PR(4, 3, 2, double)
PR(3, 1, 3, double)
PR(1, 4, 1, float)
PR(5, 6, 5, double)
VF_ENTRY(q_unfit_2x3_2x2) { unfit<2, 3, 2, 2, double>(); }
VF_ENTRY(q_unfit_3x2_4x3) { unfit<3, 2, 4, 3, double>(); }
VF_ENTRY(q_unfit_2x5_3x1) { unfit<2, 5, 3, 1, float>(); }
VF_ENTRY(q_cross_double) { cross<double>(); }
VF_ENTRY(q_cross_float) { cross<float>(); }
#define TEW(R, C, F) VF_ENTRY(t_entrywise_##R##x##C##_##F) { entrywise<R, C, F>(); } \
  VF_ENTRY(t_division_##R##x##C##_##F) { division<R, C, F>(); } \
  VF_ENTRY(t_structure_##R##x##C##_##F) { structure<R, C, F>(); } \
  VF_ENTRY(t_broadcast_##R##x##C##_##F) { broadcast<R, C, F>(); } \
  VF_ENTRY(t_products_##R##x##C##_##F) { products<R, C, R, F>(); }
#ifdef VF_THOROUGH
TEW(2, 2, double)
TEW(5, 5, double)
TEW(7, 3, double)
TEW(3, 7, double)
TEW(8, 8, double)
TEW(12, 2, double)
TEW(2, 12, float)
#endif
