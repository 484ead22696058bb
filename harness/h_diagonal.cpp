// Property: the diagonal returned for a matrix-free operator is the diagonal of that operator.
#include "common.hpp"
#include <cafes.hpp>
#include "layout.hpp"
using namespace vp;
namespace fem = cafes::fem;

template<int D> void one(std::array<int, D> n, std::array<int, D> per, std::array<double, D> h)
{
  ref::Grid<D> g{n, per, h};
  std::string key = fmt("np=%d dim=%d n=%s per=%s h0=%g", np(), D, show<D>(n).c_str(), show<D>(per).c_str(), h[0]);
  if (!feasible<D>(g.np())) { note("refused by PETSc"); return; }
  if (!begin_case(key)) return;
  std::array<PetscBool, D> period; for (int d = 0; d < D; ++d) period[d] = per[d] ? PETSC_TRUE : PETSC_FALSE;
  DM mesh; if (fem::createMesh<D>(mesh, n, period)) { fail("createMesh returned an error"); return; }
  DM dm[2]; DMCompositeGetEntriesArray(mesh, dm);
  using C1 = cafes::problem::context<D>; using C2 = cafes::problem::context<D, 2>;
  auto hp = g.hp();
  auto lap = ref::assemble<D>(ref::LAPLACIAN, g.nv(), g.ne_v(), D, h), mass = ref::assemble<D>(ref::MASS, g.nv(), g.ne_v(), D, h);
  auto lapp = ref::assemble<D>(ref::LAPLACIAN, g.np(), g.ne_p(), 1, hp), massp = ref::assemble<D>(ref::MASS, g.np(), g.ne_p(), 1, hp);
  auto diag = [&](DM d, Mat A, ref::Dense const *a, ref::Dense const *b, const char *what) {
    Layout L(d);
    Vec v; DMCreateGlobalVector(d, &v);
    for (double start : {0., 7.})   // whatever was in the vector
    {
      VecSet(v, start);
      MatGetDiagonal(A, v); op();
      std::vector<double> want;
      for (size_t i = 0; i < a->n; ++i) want.push_back((*a)(i, i));
      if (b) for (size_t i = 0; i < b->n; ++i) want.push_back((*b)(i, i));
      expect_same(L.gather(v), want, 1e-12, what);
    }
    // and it is the diagonal of what MatMult does
    auto P = L.probe(d, [&](Vec x, Vec y) { MatMult(A, x, y); });
    std::vector<double> pd; for (size_t i = 0; i < P.n; ++i) pd.push_back(P(i, i));
    expect_same(L.gather(v), pd, 1e-12, std::string(what) + " against unit vectors");
    VecDestroy(&v); trace();
  };
  {
    C1 c{dm[0], h, fem::laplacian_mult<D>, fem::diag_laplacian_mult<D>}; Mat A = fem::make_matrix<C1>(&c); diag(dm[0], A, &lap, nullptr, "velocity Laplacian"); MatDestroy(&A);
  }
  {
    C1 c{dm[0], h, fem::mass_mult<D>, fem::diag_mass_mult<D>}; Mat A = fem::make_matrix<C1>(&c); diag(dm[0], A, &mass, nullptr, "velocity mass"); MatDestroy(&A);
  }
  {
    C1 c{dm[1], hp, fem::mass_mult<D>, fem::diag_mass_mult<D>}; Mat A = fem::make_matrix<C1>(&c); diag(dm[1], A, &massp, nullptr, "pressure mass"); MatDestroy(&A);
  }
  {
    C1 c{dm[1], hp, fem::laplacian_mult<D>, fem::diag_laplacian_mult<D>}; Mat A = fem::make_matrix<C1>(&c); diag(dm[1], A, &lapp, nullptr, "pressure Laplacian"); MatDestroy(&A);
  }
  {
    C2 c{mesh, {{h, hp}}, fem::mass_mult<D>, fem::diag_mass_mult<D>}; Mat A = fem::make_matrix<C2>(&c, fem::diag_block_matrix<C2>, fem::diag_diag_block_matrix<C2>); diag(mesh, A, &mass, &massp, "composite mass"); MatDestroy(&A);
  }
  {
    C2 c{mesh, {{h, hp}}, fem::laplacian_mult<D>, fem::diag_laplacian_mult<D>}; Mat A = fem::make_matrix<C2>(&c, fem::diag_block_matrix<C2>, fem::diag_diag_block_matrix<C2>); diag(mesh, A, &lap, &lapp, "composite Laplacian"); MatDestroy(&A);
  }
  outcome(key); sample(key);
  DMDestroy(&mesh);
}
int main(int argc, char **argv)
{
  init(&argc, &argv);
  int m = thorough() ? 8 : 5;
  for (int p = 0; p < 4; ++p)
    for (int a = 2; a <= m; ++a) for (int b = 2; b <= m; ++b)
    {
      std::array<int, 2> per{p & 1, p >> 1};
      if ((per[0] && a < 3) || (per[1] && b < 3)) continue;
      one<2>({a, b}, per, {{.5, .25}});
      one<2>({a, b}, per, {{.01, 2.}});
    }
  int m3 = thorough() ? 4 : 3;
  for (int p = 0; p < 8; ++p)
  {
    std::array<int, 3> per{p & 1, (p >> 1) & 1, p >> 2};
    for (int a = 2 + per[0]; a <= m3; ++a) for (int b = 2 + per[1]; b <= m3; ++b) for (int c = 2 + per[2]; c <= m3; ++c)
      one<3>({a, b, c}, per, {{.5, .25, 2.}});
  }
  return finish();
}
