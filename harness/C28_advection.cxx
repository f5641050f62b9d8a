// VF-BOUNDS: DiffusionAdvectionReaction: hyEdge_dim 1..3, polynomial degree 1..2, unit cube and one skewed, rotated, shifted parallelepiped; tau in {1, 1/2, 3}; affine inverse diffusion coefficient, velocity and reaction rate that depend on the point and the time, t = 3/4; every trace in [-1,1]^n, every affine source, boundary and reference function with coefficients in [-1,1], every choice of Dirichlet faces (1D; selected ones otherwise)
// VF-ASSUME: TPP (shape functions, quadrature) is the stand-in models/third_party/tpp; LAPACK gesv solves exactly
// VF-CONFIG: quick debug
// VF-CONFIG: quick ndebug -DNDEBUG
#include "lsol_cmp.inc"
#include <HyperHDG/local_solver/diffusion_advection_reaction_ldg.hxx>
template <unsigned D, unsigned S, unsigned p>
void advection(unsigned what, unsigned kind, unsigned n_tau, int mask = -1)
{
  Oracle<D, S, p> o;
  o.advective = true;
  compare<LocalSolver::DiffusionAdvectionReaction<D, p, 2 * p + 1, Par>, Oracle<D, S, p>, D, S, p>(o, what, kind, n_tau, mask);
}
static constexpr unsigned ALL = LIN | RES | MASS | ERR | BULK;
VF_ENTRY(q_advection_1d)
{
  advection<1, 2, 1>(ALL, 1, 3);
}
VF_ENTRY(q_advection_1d_p2)
{
  advection<1, 1, 2>(ALL, 1, 1);
}
VF_ENTRY(q_advection_2d)
{
  advection<2, 3, 1>(ALL, 1, 1, 6);
}
VF_ENTRY(q_advection_2d_unit)
{
  advection<2, 2, 1>(ALL, 0, 1, 8);
}
VF_ENTRY(q_advection_2d_p2)
{
  advection<2, 2, 2>(LIN | RES | MASS, 1, 1, 9);
}
VF_ENTRY(q_advection_3d)
{
  advection<3, 3, 1>(LIN | RES | MASS | BULK, 1, 1, 17);
}
#ifdef VF_THOROUGH
VF_ENTRY(t_advection_2d_all)
{
  advection<2, 3, 1>(ALL, 1, 3, -2);
}
VF_ENTRY(t_advection_2d_p2)
{
  advection<2, 3, 2>(ALL, 1, 1, 6);
}
VF_ENTRY(t_advection_3d)
{
  advection<3, 3, 1>(ALL, 1, 1, -2);
}
#endif
VF_ENTRY(q_interface_0) { check_interface<LocalSolver::DiffusionAdvectionReaction<1, 2, 5, Par>>(1, 1, 2, 1); }
VF_ENTRY(q_interface_1) { check_interface<LocalSolver::DiffusionAdvectionReaction<2, 1, 3, Par>>(2, 2, 3, 1); }
VF_ENTRY(q_interface_2) { check_interface<LocalSolver::DiffusionAdvectionReaction<3, 2, 5, Par>>(3, 9, 4, 1); }
