// VF-BOUNDS: TimoshenkoBeam: beams in 3D (the only implemented case), polynomial degree 1..2, four beams (axis parallel, in a plane, in general position, with either direction of the local coordinate), tau in {1, 1/2, 3}, with and without material data; every trace in [-1,1]^n, every affine load, boundary and reference function with coefficients in [-1,1], every choice of Dirichlet ends; default problem: degree 4
// VF-ASSUME: TPP (shape functions, quadrature) is the stand-in models/third_party/tpp; LAPACK gesv solves exactly; loads and boundary values do not depend on time; output arrays are zero before the call (as the global loops provide them)
// VF-CONFIG: quick debug
// VF-CONFIG: quick ndebug -DNDEBUG
#include "lsol.inc"
#include <iostream>
#include <HyperHDG/local_solver/timoshenko_network.hxx>
// a beam with frame Q = (t, o0, o1), right-handed; x = x0 + t r xi
struct Beam
{
  SmallSquareMat<3> Q;
  SmallSquareMat<1> R;
  SmallVec<3> x0;
  bool extra = false;
  std::vector<double> data;
  static constexpr unsigned hyEdge_dim() { return 1; }
  static constexpr unsigned space_dim() { return 3; }
  const SmallSquareMat<1>& mat_r() const { return R; }
  double area() const { return std::abs(R(0, 0)); }
  double face_area(unsigned) const { return 1.; }
  SmallVec<1> local_normal(unsigned f) const
  {
    SmallVec<1> n;
    n[0] = (f % 2 == 1) == (R(0, 0) > 0.) ? 1. : -1.;
    return n;
  }
  SmallVec<3> inner_normal(unsigned i) const { return Q.get_column(i); }
  SmallVec<3> outer_normal(unsigned i) const { return Q.get_column(1 + i); }
  bool has_extra_data() const { return extra; }
  const std::vector<double>& extra_data() const { return data; }
  template <unsigned n>
  SmallMat<3, n> map_ref_to_phys(const SmallMat<1, n>& p) const
  {
    SmallMat<3, n> r;
    for (unsigned c = 0; c < n; ++c)
      for (unsigned i = 0; i < 3; ++i)
        r(i, c) = x0[i] + Q(i, 0) * R(0, 0) * p(0, c);
    return r;
  }
};
struct BeamEdge
{
  Beam geometry;
  std::array<unsigned, 2> node_descriptor;
};
static Beam make_beam(unsigned kind)
{
  static const double q[4][9] = {{1, 0, 0, 0, 1, 0, 0, 0, 1},
                                 {0.6, -0.8, 0, 0.8, 0.6, 0, 0, 0, 1},
                                 {2. / 3, -2. / 3, 1. / 3, 1. / 3, 2. / 3, 2. / 3, -2. / 3, -1. / 3, 2. / 3},
                                 {0, 1, 0, -1, 0, 0, 0, 0, 1}};
  Beam b;
  for (unsigned i = 0; i < 3; ++i)
  {
    for (unsigned j = 0; j < 3; ++j)
      b.Q(i, j) = q[kind][3 * i + j];
    b.x0[i] = kind ? 0.5 - 0.25 * i : 0.;
  }
  b.R(0, 0) = kind == 0 ? 1. : (kind == 2 ? -1.5 : 0.75);
  return b;
}
// data: vectors whose components are affine functions of the point; what the parameters return is the component asked for
static double d_f[3][4], d_g[3][4], d_m[3][4], d_h[3][4], d_a[3][4];
static void sym34(double (&c)[3][4], const char* n)
{
  for (auto& r : c)
    sym4(r, n);
}
template <typename P>
static double dot_affine(const double (&c)[3][4], const P& x, const P& v)
{
  double r = 0.;
  for (unsigned i = 0; i < 3; ++i)
    r += v[i] * (c[i][0] + c[i][1] * x[0] + c[i][2] * x[1] + c[i][3] * x[2]);
  return r;
}
template <unsigned S, typename F>
struct ParT
{
  typedef Point<S, F> P;
  static constexpr std::array<unsigned, 2> dirichlet_nodes{1, 3};
  static constexpr std::array<unsigned, 0> neumann_nodes{};
  static F right_hand_side_n(const P& x, const P& v, const F = 0.) { return dot_affine(d_f, x, v); }
  static F right_hand_side_m(const P& x, const P& v, const F = 0.) { return dot_affine(d_m, x, v); }
  static F dirichlet_value_u(const P& x, const P& v, const F = 0.) { return dot_affine(d_g, x, v); }
  static F dirichlet_value_phi(const P& x, const P& v, const F = 0.) { return dot_affine(d_h, x, v); }
  static F analytic_result_u(const P& x, const P& v, const F = 0.) { return dot_affine(d_a, x, v); }
  static F analytic_result_phi(const P& x, const P& v, const F = 0.) { return dot_affine(d_a, x, v); }
};
// Independent discretisation in Cartesian components: fields n, m, u, phi with values in R^3, s the arc length along t:
//   C_n^{-1} n + u' - t x phi = 0,  C_m^{-1} m + phi' = 0,  n' = f,  m' - t x n = g
// with numerical fluxes n nu + tau (u - lambda), m nu + tau (phi - mu).
template <unsigned p>
struct OraT
{
  static constexpr unsigned n = p + 1, B = 3 * n, N = 4 * B;
  typedef SmallVec<N> Sol;
  typedef std::array<std::array<double, 6>, 2> Lam;
  Beam geo;
  double tau;
  std::array<bool, 2> dir;
  // inverse stiffness in Cartesian coordinates
  double cn[3][3], cm[3][3];
  SmallSquareMat<N> A;
  static double pw(double x, unsigned e)
  {
    double r = 1.;
    while (e--)
      r *= x;
    return r;
  }
  Point<3, double> phys(double xi) const
  {
    Point<3, double> x;
    for (unsigned i = 0; i < 3; ++i)
      x[i] = geo.x0[i] + geo.Q(i, 0) * geo.R(0, 0) * xi;
    return x;
  }
  static Point<3, double> unit(unsigned i)
  {
    Point<3, double> v;
    v[i] = 1.;
    return v;
  }
  double len() const { return geo.area(); }
  double dmono(unsigned i, double xi) const { return i ? i * pw(xi, i - 1) / geo.R(0, 0) : 0.; }
  double nu(unsigned f) const { return geo.local_normal(f)[0]; }
  template <typename V>
  static void quad(V v)
  {
    typedef Ora<1, 1, 1> O;
    for (unsigned k = 0; k < 3; ++k)
      v(O::gx(k), O::gw(k));
  }
  void stiffness(const std::array<double, 6>& c)
  {
    for (unsigned i = 0; i < 3; ++i)
      for (unsigned j = 0; j < 3; ++j)
      {
        cn[i][j] = cm[i][j] = 0.;
        for (unsigned d = 0; d < 3; ++d)
        {
          cn[i][j] += geo.Q(i, d) * geo.Q(j, d) / c[d];
          cm[i][j] += geo.Q(i, d) * geo.Q(j, d) / c[3 + d];
        }
      }
  }
  void assemble()
  {
    // matrix of t x
    double X[3][3] = {};
    X[0][1] = -geo.Q(2, 0), X[0][2] = geo.Q(1, 0), X[1][0] = geo.Q(2, 0), X[1][2] = -geo.Q(0, 0), X[2][0] = -geo.Q(1, 0),
    X[2][1] = geo.Q(0, 0);
    for (unsigned i = 0; i < N; ++i)
      for (unsigned j = 0; j < N; ++j)
        A(i, j) = 0.;
    for (unsigned i = 0; i < n; ++i)
      for (unsigned j = 0; j < n; ++j)
      {
        double M = 0., K = 0., T = 0., V = 0.;
        quad([&](double xi, double w) {
          M += w * len() * pw(xi, i) * pw(xi, j);
          K += w * len() * dmono(i, xi) * pw(xi, j);
        });
        for (unsigned f = 0; f < 2; ++f)
        {
          T += pw(f, i) * pw(f, j);
          V += nu(f) * pw(f, i) * pw(f, j);
        }
        for (unsigned a = 0; a < 3; ++a)
        {
          for (unsigned b = 0; b < 3; ++b)
          {
            A(a * n + i, b * n + j) += cn[a][b] * M;
            A(B + a * n + i, B + b * n + j) += cm[a][b] * M;
            A(a * n + i, 3 * B + b * n + j) -= X[a][b] * M;
            A(3 * B + a * n + i, b * n + j) -= X[a][b] * M;
          }
          for (unsigned b = 0; b < 2; ++b)
          {
            A(b * B + a * n + i, (2 + b) * B + a * n + j) -= K;
            A((2 + b) * B + a * n + i, b * B + a * n + j) += V - K;
            A((2 + b) * B + a * n + i, (2 + b) * B + a * n + j) += tau * T;
          }
        }
      }
  }
  Sol solve(const Lam& lam, bool with_data) const
  {
    Sol r;
    for (unsigned i = 0; i < n; ++i)
      for (unsigned a = 0; a < 3; ++a)
      {
        if (with_data)
          quad([&](double xi, double w) {
            r[2 * B + a * n + i] += w * len() * pw(xi, i) * dot_affine(d_f, phys(xi), unit(a));
            r[3 * B + a * n + i] += w * len() * pw(xi, i) * dot_affine(d_m, phys(xi), unit(a));
          });
        for (unsigned f = 0; f < 2; ++f)
        {
          double l = lam[f][a], m = lam[f][3 + a];
          if (with_data && dir[f])
          {
            l += dot_affine(d_g, phys(f), unit(a));
            m += dot_affine(d_h, phys(f), unit(a));
          }
          r[a * n + i] -= nu(f) * l * pw(f, i);
          r[B + a * n + i] -= nu(f) * m * pw(f, i);
          r[2 * B + a * n + i] += tau * l * pw(f, i);
          r[3 * B + a * n + i] += tau * m * pw(f, i);
        }
      }
    return (const Sol&)r / (const SmallSquareMat<N>&)A;
  }
  double val(const Sol& s, unsigned block, unsigned a, double xi) const
  {
    double r = 0.;
    for (unsigned i = 0; i < n; ++i)
      r += s[block * B + a * n + i] * pw(xi, i);
    return r;
  }
  Lam flux(const Sol& s, const Lam& lam) const
  {
    Lam r;
    for (unsigned f = 0; f < 2; ++f)
      for (unsigned a = 0; a < 3; ++a)
        for (unsigned b = 0; b < 2; ++b)
          r[f][3 * b + a] =
            dir[f] ? 0. : nu(f) * val(s, b, a, f) + tau * val(s, 2 + b, a, f) - tau * lam[f][3 * b + a];
    return r;
  }
  double error(const Sol& s) const
  {
    double r = 0.;
    quad([&](double xi, double w) {
      for (unsigned a = 0; a < 3; ++a)
      {
        const double e = dot_affine(d_a, phys(xi), unit(a)) - val(s, 2, a, xi);
        r += w * len() * e * e;
      }
    });
    return r;
  }
};
static void near(const std::array<std::array<double, 6>, 2>& a, const std::array<std::array<double, 6>, 2>& b, const char* msg)
{
  for (unsigned f = 0; f < 2; ++f)
    for (unsigned j = 0; j < 6; ++j)
      vf_near_(a[f][j], b[f][j], 1e-7, msg);
}
// material: 0: none; 1: principal axes are the outer normals; 2: exchanged and with other signs
template <unsigned p>
void beam(unsigned kind, unsigned n_tau, unsigned material, bool errors)
{
  typedef LocalSolver::TimoshenkoBeam<1, 3, p, 2 * p + 1, ParT> LS;
  typedef OraT<p> O;
  if constexpr (!(LS::n_glob_dofs_per_node() == 6 && LS::system_dimension() == 3))
    vf_assert_(false, "sizes of the local problem");
  else
  {
  BeamEdge e;
  O o;
  e.geometry = make_beam(kind);
  std::array<double, 6> c{1, 1, 1, 1, 1, 1};
  if (material)
  {
    c = {2., 0.5, 4., 0.25, 1.5, 3.};
    e.geometry.extra = true;
    auto& d = e.geometry.data;
    d.resize(12);
    d[0] = c[0] * 1e-4, d[3] = c[3] * 1e-12;
    const unsigned s = material - 1;
    d[1 + s] = c[1] * 1e-4, d[2 - s] = c[2] * 1e-4;
    d[4 + s] = c[4] * 1e-12, d[5 - s] = c[5] * 1e-12;
    for (unsigned i = 0; i < 3; ++i)
    {
      d[6 + 3 * s + i] = (s ? -1. : 1.) * e.geometry.Q(i, 1);
      d[9 - 3 * s + i] = e.geometry.Q(i, 2);
    }
  }
  o.geo = e.geometry;
  o.tau = taus[n_tau > 1 ? vf_concretize_(vf_int_("tau", 0, n_tau - 1)) : 1];
  o.stiffness(c);
  o.assemble();
  for (unsigned f = 0; f < 2; ++f)
  {
    e.node_descriptor[f] = vf_concretize_(vf_int_("descriptor", 0, 3));
    o.dir[f] = e.node_descriptor[f] % 2;
  }
  sym34(d_f, "f"), sym34(d_g, "g"), sym34(d_m, "m"), sym34(d_h, "h"), sym34(d_a, "a");
  auto lam = sym_arr<2, 6>("lambda");
  if (errors)  // the error is quadratic in the data: one symbolic factor
  {
    const double s = vf_real_("factor", -1., 1.);
    double c = 1.;
    auto next = [&]() { return c = c > 0. ? -0.75 * c - 0.125 : -0.75 * c + 0.25, c * s; };
    for (auto* a : {&d_f, &d_g, &d_m, &d_h, &d_a})
      for (auto& r : *a)
        for (double& v : r)
          v = next();
    for (auto& r : lam)
      for (double& v : r)
        v = next();
  }
  const auto lam0 = lam;
  const LS ls(o.tau);
  LamArr<2, 6> out{};
  auto& r = ls.trace_to_flux(lam, out, e);
  vf_assert_(&r == &out, "trace_to_flux returns its output argument");
  near(out, o.flux(o.solve(lam0, false), lam0), "trace_to_flux is the flux of forces and moments of the local solution");
  out = {};
  auto& r2 = ls.residual_flux(lam, out, e);
  vf_assert_(&r2 == &out, "residual_flux returns its output argument");
  auto s = o.solve(lam0, true);
  near(out, o.flux(s, lam0), "residual_flux is the flux of forces and moments of the local solution with all data");
  std::array<float, 2> ab{0.25f, 1.f};
  auto b = ls.bulk_values(ab, lam, e);
  for (unsigned pt = 0; pt < 2; ++pt)
    for (unsigned a = 0; a < 3; ++a)
      vf_near_(b[a][pt], o.val(s, 2, a, ab[pt]), 1e-3, "bulk_values are the displacements in space");
  near(lam, lam0, "the trace is not modified");
  if (errors)
    vf_near_(ls.errors(lam, e)[0], o.error(s), 1e-7, "errors is the squared L2 error of the displacement");
  near(lam, lam0, "the trace is not modified");
  }
}
VF_ENTRY(q_axis)
{
  beam<1>(0, 3, 0, false);
}
VF_ENTRY(q_error)
{
  beam<1>(1, 1, 0, true);
}
VF_ENTRY(q_error_p2)
{
  beam<2>(2, 1, 1, true);
}
VF_ENTRY(q_plane)
{
  beam<1>(1, 1, 0, false);
}
VF_ENTRY(q_general)
{
  beam<1>(2, 1, 0, false);
}
VF_ENTRY(q_down)
{
  beam<1>(3, 1, 0, false);
}
VF_ENTRY(q_p2)
{
  beam<2>(1, 1, 0, false);
}
VF_ENTRY(q_material)
{
  beam<1>(1, 1, 1, false);
}
VF_ENTRY(q_material_exchanged)
{
  beam<1>(2, 1, 2, false);
}
// The default data are those of the default solution, for beams along both axes of the cross
VF_ENTRY(q_default)
{
  typedef LocalSolver::TimoshenkoBeam<1, 3, 4, 9> LS;
  BeamEdge e;
  const unsigned axis = vf_concretize_(vf_int_("axis", 0, 3));
  e.geometry = make_beam(axis < 2 ? 0 : 3);
  if (axis >= 2)
    for (unsigned i = 0; i < 3; ++i)
      e.geometry.x0[i] = 0.;
  e.geometry.R(0, 0) = axis % 2 ? 1. : -1.;
  e.node_descriptor = {1, 1};
  LamArr<2, 6> lam{};
  const LS ls(taus[vf_concretize_(vf_int_("tau", 0, 2))]);
  vf_near_(ls.errors(lam, e)[0], 0., 1e-5, "the default data belong to the default solution");
}
#ifdef VF_THOROUGH
VF_ENTRY(t_general_p2)
{
  beam<2>(2, 3, 0, false);
}
VF_ENTRY(t_down_p2)
{
  beam<2>(3, 3, 2, false);
}
VF_ENTRY(t_material)
{
  beam<2>(2, 3, 1, false);
}
VF_ENTRY(t_error)
{
  beam<2>(3, 3, 2, true);
}
VF_ENTRY(t_axis_p2)
{
  beam<2>(0, 3, 2, false);
}
#endif
VF_ENTRY(q_interface_0) { check_interface<LocalSolver::TimoshenkoBeam<1, 3, 2, 5, ParT>>(1, 6, 3, 3); }
