// Property: Dirichlet conditions are applied to exactly the nodes and components asked for.
#include "common.hpp"
#include <cafes.hpp>
#include "layout.hpp"
using namespace vp;
namespace fem = cafes::fem;

// value of border b, component c at a point: affine, all different, never 0
static double val(int b, int c, const double *x, int D) { double v = 100. * (b + 1) + 10. * (c + 1) + x[0] + .5 * x[1]; if (D == 3) v += .25 * x[2]; return v; }
template<int D, int b, int c> void fn(const PetscReal *x, PetscScalar *u) { *u = val(b, c, x, D); }
template<int D> cafes::condition_fn pick(int b, int c);
template<> cafes::condition_fn pick<2>(int b, int c)
{
  static const cafes::condition_fn t[4][2] = {{fn<2, 0, 0>, fn<2, 0, 1>}, {fn<2, 1, 0>, fn<2, 1, 1>}, {fn<2, 2, 0>, fn<2, 2, 1>}, {fn<2, 3, 0>, fn<2, 3, 1>}};
  return t[b][c];
}
template<> cafes::condition_fn pick<3>(int b, int c)
{
#define R(b) {fn<3, b, 0>, fn<3, b, 1>, fn<3, b, 2>}
  static const cafes::condition_fn t[6][3] = {R(0), R(1), R(2), R(3), R(4), R(5)};
  return t[b][c];
}
template<int D> fem::dirichlet_conditions<D> conditions(unsigned mask);
template<> fem::dirichlet_conditions<2> conditions<2>(unsigned m)
{
  auto f = [&](int b, int c) { return (m >> (2 * b + c)) & 1 ? pick<2>(b, c) : nullptr; };
  return cafes::make_bc<2>({{{f(0, 0), f(0, 1)}}, {{f(1, 0), f(1, 1)}}, {{f(2, 0), f(2, 1)}}, {{f(3, 0), f(3, 1)}}});
}
template<> fem::dirichlet_conditions<3> conditions<3>(unsigned m)
{
  auto f = [&](int b, int c) { return (m >> (3 * b + c)) & 1 ? pick<3>(b, c) : nullptr; };
#define Q(b) {{f(b, 0), f(b, 1), f(b, 2)}}
  return cafes::make_bc<3>({Q(0), Q(1), Q(2), Q(3), Q(4), Q(5)});
}

template<int D> void one(std::array<int, D> n, std::array<int, D> per, unsigned m0, unsigned m1, unsigned step)
{
  ref::Grid<D> g{n, per, {}};
  for (int d = 0; d < D; ++d) g.h[d] = 1. / (8 << d);
  std::string key = fmt("np=%d dim=%d n=%s per=%s masks=%u..%u/%u", np(), D, show<D>(n).c_str(), show<D>(per).c_str(), m0, m1, step);
  if (!feasible<D>(g.np())) { note("refused by PETSc"); return; }
  if (!begin_case(key)) return;
  std::array<PetscBool, D> period; for (int d = 0; d < D; ++d) period[d] = per[d] ? PETSC_TRUE : PETSC_FALSE;
  DM mesh; if (fem::createMesh<D>(mesh, n, period)) { fail("createMesh returned an error"); return; }
  Layout L(mesh);
  Vec x, y; DMCreateGlobalVector(mesh, &x); VecDuplicate(x, &y);
  std::vector<double> X(L.N), Y(L.N);
  for (size_t i = 0; i < L.N; ++i) { X[i] = 1000. + i; Y[i] = -1. - i; }
  size_t Nv = g.Nv() * D;
  struct Where { int border[D]; int nb; };
  for (unsigned mask = m0; mask < m1; mask += step)
  {
    S().states++;
    auto bc = conditions<D>(mask);
    // which borders hold (node, component), in the order in which they are given
    std::vector<double> wv = Y, wz = Y; std::vector<std::vector<double>> allowed(Nv);
    ref::for_each<D>(g.nv(), [&](auto i) {
      size_t k = ref::Grid<D>::idx(i, g.nv());
      double c[3] = {0, 0, 0}; for (int d = 0; d < D; ++d) c[d] = i[d] * g.h[d];
      for (int d = 0; d < D; ++d) if (!per[d]) for (int e = 0; e < 2; ++e)
        if (i[d] == (e ? g.nv()[d] - 1 : 0)) for (int q = 0; q < D; ++q)
          if ((mask >> (D * (2 * d + e) + q)) & 1)
          {
            wv[k * D + q] = X[k * D + q]; wz[k * D + q] = 0.;
            allowed[k * D + q].push_back(val(2 * d + e, q, c, D));
          }
    });
    auto run = [&](int what) {
      L.scatter(X, x); L.scatter(Y, y);
      {
        auto xv = cafes::petsc::petsc_vec<D>(mesh, x, 0);
        auto yv = cafes::petsc::petsc_vec<D>(mesh, y, 0, false);
        if (what == 0) fem::SetDirichletOnVec<D>(xv, yv, bc);
        if (what == 1) fem::SetNullDirichletOnRHS<D>(yv, bc);
        if (what == 2) fem::SetDirichletOnRHS<D>(yv, bc, g.h);
      }
      op(); trace();
      return L.gather(y);
    };
    expect_same(run(0), wv, 0., fmt("SetDirichletOnVec mask %u", mask));
    expect_same(run(1), wz, 0., fmt("SetNullDirichletOnRHS mask %u", mask));
    auto r = run(2);
    for (size_t i = 0; i < L.N; ++i)
    {
      S().comparisons++;
      if (i >= Nv || allowed[i].empty()) { if (r[i] != Y[i]) { fail(fmt("SetDirichletOnRHS mask %u: entry %zu = %.15g must not change (%.15g)", mask, i, r[i], Y[i])); break; } }
      else
      {
        bool ok = false; for (double a : allowed[i]) if (near(r[i], a, 1e-13)) ok = true;
        if (!ok) { fail(fmt("SetDirichletOnRHS mask %u: entry %zu = %.15g, not the value of any border condition there (%.15g)", mask, i, r[i], allowed[i][0])); break; }
      }
    }
    // corners: the result may depend on the order of the borders only, not on the decomposition
    if (S().fails_in_case) break;
  }
  outcome(key); sample(key);
  VecDestroy(&x); VecDestroy(&y); DMDestroy(&mesh);
}

// rows of an assembled matrix: all nodes of the non periodic borders, nothing else
static void mat(std::array<int, 2> n, std::array<int, 2> per)
{
  ref::Grid<2> g{n, per, {{.5, .25}}};
  std::string key = fmt("np=%d matrix n=%s per=%s", np(), show<2>(n).c_str(), show<2>(per).c_str());
  if (!feasible<2>(g.np())) { note("refused by PETSc"); return; }
  if (!begin_case(key)) return;
  std::array<PetscBool, 2> period{{per[0] ? PETSC_TRUE : PETSC_FALSE, per[1] ? PETSC_TRUE : PETSC_FALSE}};
  DM mesh; if (fem::createMesh<2>(mesh, n, period)) { fail("createMesh returned an error"); return; }
  Layout L(mesh);
  cafes::problem::context<2> c{mesh, g.h, fem::strain_tensor_mult};
  cafes::problem::options<2> opt; opt.strain_tensor = PETSC_TRUE;
  DM dav, dap; DMCompositeGetEntries(mesh, &dav, &dap);
  Mat A; PreallocateMat(&c, opt, MATAIJ, &A, false); MatSetDM(A, mesh);
  cafes::strain_tensor_assembling(dav, A, g.h); cafes::B_BT_assembling(mesh, A, g.h);
  cafes::diagonal_assembling<2>(mesh, A, 0.);
  MatAssemblyBegin(A, MAT_FINAL_ASSEMBLY); MatAssemblyEnd(A, MAT_FINAL_ASSEMBLY);
  auto before = L.probe(mesh, [&](Vec x, Vec y) { MatMult(A, x, y); });
  fem::SetDirichletOnMat<2>(A, conditions<2>(255)); op();
  auto after = L.probe(mesh, [&](Vec x, Vec y) { MatMult(A, x, y); });
  auto want = before;
  ref::for_each<2>(g.nv(), [&](auto i) {
    bool b = false; for (int d = 0; d < 2; ++d) if (!per[d] && (i[d] == 0 || i[d] == g.nv()[d] - 1)) b = true;
    size_t k = ref::Grid<2>::idx(i, g.nv());
    if (b) for (int q = 0; q < 2; ++q) for (size_t j = 0; j < L.N; ++j) want(2 * k + q, j) = 2 * k + q == j;
  });
  expect_same(after, want, 1e-14, "matrix after SetDirichletOnMat");
  trace(); outcome(key);
  MatDestroy(&A); DMDestroy(&mesh);
}

int main(int argc, char **argv)
{
  init(&argc, &argv);
  int m = thorough() ? 6 : 4;
  for (int p = 0; p < 4; ++p)
    for (int a = 2; a <= m; ++a) for (int b = 2; b <= m; ++b)
    {
      std::array<int, 2> per{p & 1, p >> 1};
      if ((per[0] && a < 3) || (per[1] && b < 3)) continue;
      one<2>({a, b}, per, 0, 256, 1);
    }
  // 3D: 18 independent (border, component) bits: every mask with at most two bits set or at
  // most two bits clear; the thorough tier adds all 2^18 masks for two periodicities
  for (int p = 0; p < 8; ++p)
  {
    std::array<int, 3> per{p & 1, (p >> 1) & 1, p >> 2};
    std::array<int, 3> n{2 + per[0], 3, 2 + per[2]};
    for (int i = 0; i < 18; ++i) for (int j = i; j < 18; ++j)
    {
      unsigned m = (1u << i) | (1u << j);
      one<3>(n, per, m, m + 1, 1);
      one<3>(n, per, 0x3ffffu ^ m, (0x3ffffu ^ m) + 1, 1);
    }
    one<3>(n, per, 0, 1, 1); one<3>(n, per, 0x3ffffu, 0x40000u, 1);
    if (thorough() && (p == 0 || p == 5)) for (unsigned m = 0; m < 0x40000u; m += 0x1000u) one<3>(n, per, m, m + 0x1000u, 1);
    for (int i = 0; i < 18; ++i) one<3>({3, 3, 4}, per, 1u << i, (1u << i) + 1, 1);
  }
  int mm = thorough() ? 9 : 6;
  for (int p = 0; p < 4; ++p)
    for (int a = 2; a <= mm; ++a) for (int b = 2; b <= mm; ++b)
    {
      std::array<int, 2> per{p & 1, p >> 1};
      if ((per[0] && a < 3) || (per[1] && b < 3)) continue;
      mat({a, b}, per);
    }
  return finish();
}
