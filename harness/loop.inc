// Reference assembly for the global loops.
#pragma once
#include "mock.inc"
template <unsigned H, unsigned D, typename F>
struct Ref
{
  Spec<H> s;
  unsigned n;
  std::vector<F> x;
  bool uniform;
  Local<H, D, F>& loc = Local<H, D, F>::get();
  Ref(const Spec<H>& spec, bool uniform_) : s(spec), n(spec.n_nodes * D), x(n), uniform(uniform_)
  {
    loc.draw(s.n_edges, uniform);
    for (auto& v : x)
      v = vf_realT<F>("x", -10., 10.);
  }
  unsigned dof(unsigned e, unsigned i, unsigned a) const { return s.node[e][i] * D + a; }
  using Loc = std::array<std::array<F, D>, 2 * H>;
  Loc gather(unsigned e, const std::vector<F>& v) const
  {
    Loc l;
    for (unsigned i = 0; i < 2 * H; ++i)
      for (unsigned a = 0; a < D; ++a)
        l[i][a] = v[dof(e, i, a)];
    return l;
  }
  // sum over all hyperedges of scale * mat_e x_e + add * b_e
  std::vector<F> assemble(const F (&mat)[Local<H, D, F>::E][2 * H][D][2 * H][D], F scale, F add) const
  {
    std::vector<F> y(n, F(0.));
    for (unsigned e = 0; e < s.n_edges; ++e)
    {
      Loc r;
      for (auto& q : r)
        q.fill(0.);
      loc.apply(uniform ? 0 : e, mat, gather(e, x), scale, add, r);
      for (unsigned i = 0; i < 2 * H; ++i)
        for (unsigned a = 0; a < D; ++a)
          y[dof(e, i, a)] += r[i][a];
    }
    return y;
  }
  void same(const std::vector<F>& y, const std::vector<F>& r, const char* msg) const
  {
    vf_assert_(y.size() == n, "the result has the size of the system");
    for (unsigned i = 0; i < n; ++i)
      vf_same(y[i], r[i], 1e5, msg);
  }
  void visited(unsigned times) const
  {
    if (uniform)
      vf_assert_(loc.visits[0] == times * s.n_edges, "the local solver is called once per hyperedge");
    else
      for (unsigned e = 0; e < s.n_edges; ++e)
        vf_assert_(loc.visits[e] == times, "every hyperedge is visited exactly once");
  }
};
