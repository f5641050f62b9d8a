// VF-BOUNDS: hyEdge_dim 1..3, polynomial degree 1..2, unit cube and one skewed, rotated, shifted parallelepiped; tau in {1, 1/2, 3} (1D, degree 1: every tau in [1/4,4]); coefficient 2 + x/4 - y/8 + t/4, t = 3/4; every trace in [-1,1]^n, every affine source, boundary and reference function with coefficients in [-1,1], every choice of Dirichlet faces
// VF-ASSUME: TPP (shape functions, quadrature) is the stand-in models/third_party/tpp; LAPACK gesv solves exactly
// VF-CONFIG: quick debug
// VF-CONFIG: quick ndebug -DNDEBUG
#include "lsol_cmp.inc"
#include <HyperHDG/local_solver/diffusion_ldgh.hxx>
template <unsigned D, unsigned S, unsigned p>
void diffusion(unsigned what, unsigned kind, unsigned n_tau, int mask = -1)
{
  Oracle<D, S, p> o;
  compare<LocalSolver::Diffusion<D, p, 2 * p + 1, Par>, Oracle<D, S, p>, D, S, p>(o, what, kind, n_tau, mask);
}
VF_ENTRY(q_diffusion_1d)
{
  diffusion<1, 2, 1>(LIN | RES | MASS | ERR | BULK, 1, 3);
}
VF_ENTRY(q_diffusion_1d_p2)
{
  diffusion<1, 1, 2>(LIN | RES | MASS | ERR | BULK, 1, 1);
}
VF_ENTRY(q_diffusion_2d_all)
{
  diffusion<2, 3, 1>(LIN | RES | MASS | ERR | BULK, 1, 1, -2);
}
VF_ENTRY(q_diffusion_2d_unit)
{
  diffusion<2, 2, 1>(LIN | RES | MASS | ERR | BULK, 0, 1, 8);
}
VF_ENTRY(q_diffusion_2d_p2)
{
  diffusion<2, 2, 2>(LIN | RES | MASS | ERR, 1, 1, 9);
}
VF_ENTRY(q_diffusion_3d)
{
  diffusion<3, 3, 1>(LIN | RES | MASS | ERR | BULK, 1, 1, 17);
}
VF_ENTRY(q_diffusion_1d_tau)
{
  diffusion<1, 1, 1>(LIN | RES, 1, 99, 1);
}
#ifdef VF_THOROUGH
VF_ENTRY(t_diffusion_2d_all)
{
  diffusion<2, 3, 1>(LIN | RES | MASS | ERR | BULK, 1, 3, -1);
}
VF_ENTRY(t_diffusion_2d_p2)
{
  diffusion<2, 3, 2>(LIN | RES | MASS | ERR | BULK, 1, 3, 6);
}
VF_ENTRY(t_diffusion_3d)
{
  diffusion<3, 3, 1>(LIN | RES | MASS | ERR | BULK, 1, 1, -2);
}
#endif
VF_ENTRY(q_interface_0) { check_interface<LocalSolver::Diffusion<1, 2, 5, Par>>(1, 1, 2, 1); }
VF_ENTRY(q_interface_1) { check_interface<LocalSolver::Diffusion<2, 1, 3, Par>>(2, 2, 3, 1); }
VF_ENTRY(q_interface_2) { check_interface<LocalSolver::Diffusion<3, 2, 5, Par>>(3, 9, 4, 1); }
