// VF-BOUNDS: DiffusionPostprocess: hyEdge_dim 1..3, polynomial degree 1 (2 without errors), unit cube and one skewed, rotated, shifted parallelepiped; tau in {1, 1/2, 3}; affine (inverse) diffusion coefficients that depend on the point and the time, t = 3/4; every trace in [-1,1]^n, every affine source, boundary and reference function with coefficients in [-1,1], every choice of Dirichlet faces (1D; selected ones otherwise)
// VF-ASSUME: TPP (shape functions, quadrature) is the stand-in models/third_party/tpp; LAPACK gesv solves exactly
// VF-CONFIG: quick debug
// VF-CONFIG: quick ndebug -DNDEBUG
#include "lsol_cmp.inc"
#include <HyperHDG/local_solver/diffusion_ldgh_pp.hxx>
// Postprocessed solution w of degree p+1: (k grad w, grad v) = -(q, grad v), with the mean value of u
template <unsigned D, unsigned S, unsigned p>
struct OraclePP : Oracle<D, S, p>
{
  typedef Oracle<D, S, p> O;
  typedef Ora<D, S, p + 1> H;
  double error(const typename O::Sol& s)
  {
    H h;
    h.geo = O::geo;
    SmallSquareMat<H::n> A;
    SmallVec<H::n> b;
    for (unsigned j = 0; j < H::n; ++j)
      h.vol([&](const auto& q) { A(0, j) += q.w * H::mono(j, q.xi); });
    O::vol([&](const auto& q) { b[0] += q.w * O::val(s, q.xi, D * O::n); });
    for (unsigned i = 1; i < H::n; ++i)
      h.vol([&](const auto& q) {
        auto gi = h.grad(i, q.xi);
        const double k = affine(g_d, O::geo.phys(q.xi), S, O::t);
        for (unsigned d = 0; d < D; ++d)
          b[i] -= q.w * O::val(s, q.xi, d * O::n) * gi[d];
        for (unsigned j = 0; j < H::n; ++j)
        {
          auto gj = h.grad(j, q.xi);
          for (unsigned d = 0; d < D; ++d)
            A(i, j) += q.w * k * gi[d] * gj[d];
        }
      });
    const SmallVec<H::n> w = (const SmallVec<H::n>&)b / (const SmallSquareMat<H::n>&)A;
    double r = 0.;
    h.vol([&](const auto& q) {
      const double e = affine(g_a, O::geo.phys(q.xi), S, O::t) - H::val(w, q.xi, 0);
      r += q.w * e * e;
    });
    return r;
  }
};
template <unsigned D, unsigned S, unsigned p>
void postprocess(unsigned what, unsigned kind, unsigned n_tau, int mask = -1)
{
  OraclePP<D, S, p> o;
  compare<LocalSolver::DiffusionPostprocess<D, p, 2 * p + 1, Par>, OraclePP<D, S, p>, D, S, p>(o, what, kind, n_tau, mask);
}
static constexpr unsigned ALL = LIN | RES | ERR | BULK;
VF_ENTRY(q_postprocess_1d)
{
  postprocess<1, 2, 1>(ALL, 1, 3);
}
VF_ENTRY(q_postprocess_1d_p2)
{
  postprocess<1, 1, 2>(LIN | RES | BULK, 1, 1);
}
VF_ENTRY(q_postprocess_2d)
{
  postprocess<2, 3, 1>(ALL, 1, 1, 6);
}
VF_ENTRY(q_postprocess_2d_unit)
{
  postprocess<2, 2, 1>(ALL, 0, 1, 8);
}
VF_ENTRY(q_postprocess_2d_p2)
{
  postprocess<2, 2, 2>(LIN | RES, 1, 1, 9);
}
VF_ENTRY(q_postprocess_3d)
{
  postprocess<3, 3, 1>(LIN | RES | BULK, 1, 1, 17);
}
#ifdef VF_THOROUGH
VF_ENTRY(t_postprocess_2d_all)
{
  postprocess<2, 3, 1>(ALL, 1, 3, -2);
}
VF_ENTRY(t_postprocess_3d)
{
  postprocess<3, 3, 1>(ALL, 1, 1, 0x2a);
}
#endif
VF_ENTRY(q_interface_0) { check_interface<LocalSolver::DiffusionPostprocess<1, 2, 5, Par>>(1, 1, 2, 1); }
VF_ENTRY(q_interface_1) { check_interface<LocalSolver::DiffusionPostprocess<2, 1, 3, Par>>(2, 2, 3, 1); }
VF_ENTRY(q_interface_2) { check_interface<LocalSolver::DiffusionPostprocess<3, 2, 5, Par>>(3, 9, 4, 1); }
