// Property: the matrix-free operators are the exact finite element forms (2D and 3D).
#include "common.hpp"
#include <cafes.hpp>
#include "layout.hpp"
using namespace vp;

template<int D> using arr = std::array<double, D>;
template<int D> using Op = PetscErrorCode (*)(cafes::petsc::petsc_vec<D> &, cafes::petsc::petsc_vec<D> &, arr<D> const &);

template<int D>
void one_mesh(std::array<int, D> n, std::array<int, D> per, arr<D> h)
{
  namespace fem = cafes::fem;
  std::string key = fmt("np=%d dim=%d n=%s per=%s h=", np(), D, show<D>(n).c_str(), show<D>(per).c_str());
  for (int d = 0; d < D; ++d) key += fmt("%s%g", d ? "," : "", h[d]);
  ref::Grid<D> g{n, per, h};
  if (!feasible<D>(g.np())) { note("refused by PETSc"); return; }
  if (!begin_case(key)) return;
  std::array<PetscBool, D> period; for (int d = 0; d < D; ++d) period[d] = per[d] ? PETSC_TRUE : PETSC_FALSE;
  DM mesh;
  if (fem::createMesh<D>(mesh, n, period)) { fail("createMesh returned an error"); return; }
  Layout L(mesh);
  size_t Nv = g.Nv() * D, Np = g.Np();
  if (L.Nv != Nv || L.N != Nv + Np) { fail(fmt("mesh has %zu velocity and %zu pressure unknowns, want %zu and %zu", L.Nv, L.N - L.Nv, Nv, Np)); DMDestroy(&mesh); return; }
  auto hp = g.hp();

  struct { const char *name; ref::Form f; Op<D> op; } forms[] = {
    {"laplacian", ref::LAPLACIAN, fem::laplacian_mult<D>}, {"mass", ref::MASS, fem::mass_mult<D>}, {"strain", ref::STRAIN, fem::strain_tensor_mult<D>}};

  auto B = ref::divergence<D>(g);
  std::vector<ref::Dense> av;
  for (auto &F : forms)
  {
    // velocity block, applied through the accessor exactly as the solvers do
    auto Av = ref::assemble<D>(F.f, g.nv(), g.ne_v(), D, h);
    av.push_back(Av);
    auto got = L.probe(mesh, [&](Vec x, Vec y) {
      VecSet(y, 0.);
      auto xv = cafes::petsc::petsc_vec<D>(mesh, x, 0);
      auto yv = cafes::petsc::petsc_vec<D>(mesh, y, 0, false);
      xv.global_to_local(INSERT_VALUES); yv.fill(0.);
      F.op(xv, yv, h);
      yv.local_to_global(ADD_VALUES);
    });
    ref::Dense want(L.N, L.N);
    for (size_t i = 0; i < Nv; ++i) for (size_t j = 0; j < Nv; ++j) want(i, j) = Av(i, j);
    expect_same(got, want, 1e-12, std::string(F.name) + " operator on the velocity");
    trace();
  }
  // pressure mass
  auto Mp = ref::assemble<D>(ref::MASS, g.np(), g.ne_p(), 1, hp);
  {
    auto got = L.probe(mesh, [&](Vec x, Vec y) {
      VecSet(y, 0.);
      auto xv = cafes::petsc::petsc_vec<D>(mesh, x, 1);
      auto yv = cafes::petsc::petsc_vec<D>(mesh, y, 1, false);
      xv.global_to_local(INSERT_VALUES); yv.fill(0.);
      fem::mass_mult<D>(xv, yv, hp);
      yv.local_to_global(ADD_VALUES);
    });
    ref::Dense want(L.N, L.N);
    for (size_t i = 0; i < Np; ++i) for (size_t j = 0; j < Np; ++j) want(Nv + i, Nv + j) = Mp(i, j);
    expect_same(got, want, 1e-12, "mass operator on the pressure");
    trace();
  }
  // divergence and its transpose
  {
    auto got = L.probe(mesh, [&](Vec x, Vec y) {
      using P = cafes::petsc::petsc_vec<D>;
      P x0(mesh, x, 0), x1(mesh, x, 1), y0(mesh, y, 0, false), y1(mesh, y, 1, false);
      VecSet(y, 0.);
      x0.global_to_local(INSERT_VALUES); x1.global_to_local(INSERT_VALUES);
      y0.fill(0.); y1.fill(0.); y0.fill_global(0.); y1.fill_global(0.);
      fem::B_and_BT_mult<D>(x0, x1, y0, y1, h);
      y0.local_to_global(ADD_VALUES); y1.local_to_global(ADD_VALUES);
    });
    ref::Dense want(L.N, L.N);
    for (size_t i = 0; i < Np; ++i) for (size_t j = 0; j < Nv; ++j) { want(Nv + i, j) = B(i, j); want(j, Nv + i) = -B(i, j); }
    expect_same(got, want, 1e-12, "divergence / gradient coupling");
    trace();
  }
  // the shell matrices the solvers use (no boundary condition set)
  using Ctx = cafes::problem::context<D>;
  for (int f = 0; f < 3; f += 2)
  {
    Ctx c{mesh, h, forms[f].op};
    Mat A = fem::make_matrix<Ctx>(&c, fem::stokes_matrix<Ctx>);
    auto got = L.probe(mesh, [&](Vec x, Vec y) { MatMult(A, x, y); });
    MatDestroy(&A);
    ref::Dense want(L.N, L.N);
    for (size_t i = 0; i < Nv; ++i) for (size_t j = 0; j < Nv; ++j) want(i, j) = av[f](i, j);
    for (size_t i = 0; i < Np; ++i) for (size_t j = 0; j < Nv; ++j) { want(Nv + i, j) = B(i, j); want(j, Nv + i) = -B(i, j); }
    expect_same(got, want, 1e-12, fmt("Stokes matrix (%s)", forms[f].name));
    trace();
  }
  {
    auto got = L.probe(mesh, [&](Vec x, Vec y) { fem::apply_mass_matrix<D>(mesh, x, y, h); });
    ref::Dense want(L.N, L.N);
    for (size_t i = 0; i < Nv; ++i) for (size_t j = 0; j < Nv; ++j) want(i, j) = av[1](i, j);
    for (size_t i = 0; i < Np; ++i) for (size_t j = 0; j < Np; ++j) want(Nv + i, Nv + j) = Mp(i, j);
    expect_same(got, want, 1e-12, "mass matrix of velocity and pressure (apply_mass_matrix)");
    trace();
  }
  outcome(fmt("%s", key.c_str()));
  sample(key + fmt(": %zu unknowns, all unit vectors", L.N));
  DMDestroy(&mesh);
}

int main(int argc, char **argv)
{
  init(&argc, &argv);
  int maxn = thorough() ? 7 : 5;
  std::vector<arr<2>> H2{{1., 1.}, {.5, .25}, {.125, 3.}};
  if (thorough()) H2.push_back({7., .01});
  for (int px = 0; px < 2; ++px) for (int py = 0; py < 2; ++py)
    for (int a = 2 + px; a <= maxn; ++a) for (int b = 2 + py; b <= maxn; ++b)
      for (auto h : H2)
      {
        // PETSc needs at least one pressure node per process and direction
        one_mesh<2>({a, b}, {px, py}, h);
      }
  std::vector<arr<3>> H3{{1., 1., 1.}, {.5, .25, 2.}};
  int m3 = thorough() ? 4 : 3;
  for (int p = 0; p < 8; ++p)
  {
    std::array<int, 3> per{p & 1, (p >> 1) & 1, (p >> 2) & 1};
    for (int a = 2 + per[0]; a <= m3; ++a) for (int b = 2 + per[1]; b <= m3; ++b) for (int c = 2 + per[2]; c <= m3; ++c)
      for (auto h : H3) one_mesh<3>({a, b, c}, per, h);
  }
  return finish();
}
