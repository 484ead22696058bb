// Property: the problem is the one its options describe.  Every combination of options given or
// not (numbers: two values, switches: on, off, bare) on the options themselves, from the defaults
// and from other values; every combination of given options on whole Stokes problems: mesh, spacing,
// periodicity, form, assembled or not, solver.
#include "common.hpp"
#include <cafes.hpp>
#include "layout.hpp"
using namespace vp;
namespace fem = cafes::fem;
static void zero(const PetscReal *, PetscScalar *u) { *u = 0.; }
static cafes::problem::stokes<2> problem(std::integral_constant<int, 2>) { std::array<cafes::condition_fn, 2> z{{zero, zero}}; return cafes::make_stokes<2>(cafes::make_bc<2>({z, z, z, z}), cafes::make_rhs<2>({{nullptr, nullptr}})); }
static cafes::problem::stokes<3> problem(std::integral_constant<int, 3>) { std::array<cafes::condition_fn, 3> z{{zero, zero, zero}}; return cafes::make_stokes<3>(cafes::make_bc<3>({z, z, z, z, z, z}), cafes::make_rhs<3>({{nullptr, nullptr, nullptr}})); }

template<int D> std::vector<std::string> names()
{
  std::vector<std::string> r;
  for (int d = 0; d < D; ++d) r.push_back(std::string("-m") + "xyz"[d]);
  for (int d = 0; d < D; ++d) r.push_back(std::string("-L") + "xyz"[d]);
  for (int d = 0; d < D; ++d) r.push_back(std::string("-") + "xyz"[d] + "period");
  r.push_back("-strain_tensor"); r.push_back("-assembling"); r.push_back("-PMM");
  return r;
}
// the model: one number per option, in the order of names()
template<int D> std::vector<double> defaults() { std::vector<double> v(3 * D + 3, 0.); for (int d = 0; d < D; ++d) { v[d] = 17; v[D + d] = 1.; } return v; }
template<int D> std::vector<double> read(cafes::problem::options<D> const &o)
{
  std::vector<double> v;
  for (auto x : o.mx) v.push_back(x);
  for (auto x : o.lx) v.push_back(x);
  for (auto x : o.xperiod) v.push_back(x);
  v.push_back(o.strain_tensor); v.push_back(o.assembling); v.push_back(o.pmm);
  return v;
}
// choice 0: not given
template<int D> void give(Options &o, std::vector<double> &model, int k, int choice, std::vector<std::string> const &nm)
{
  if (!choice) return;
  if (k < D) { int v = choice == 1 ? 5 + k : 30 - k; o.set(nm[k], v); model[k] = v; }
  else if (k < 2 * D) { double v = choice == 1 ? 2. + .25 * k : .125 * (k + 1); o.set(nm[k], v); model[k] = v; }
  else { o.set(nm[k], std::string(choice == 1 ? "1" : choice == 2 ? "false" : "")); model[k] = choice != 2; }
}

template<int D> void fields(int nnum, int nbool)
{
  auto nm = names<D>();
  std::vector<int> base(nm.size());
  long total = 1; for (size_t k = 0; k < nm.size(); ++k) total *= base[k] = k < 2 * D ? nnum : nbool;
  for (int from = 0; from < 2; ++from) for (long c = 0; c < total; ++c)
  {
    if (c % 64 == 0)
    {
      if (!begin_case(fmt("%dD options from %s, combinations %ld..%ld", D, from ? "other values" : "defaults", c, std::min(total, c + 64) - 1))) { c += 63; continue; }
    }
    cafes::problem::options<D> o;
    auto model = defaults<D>();
    expect(read<D>(o) == model, "wrong defaults");
    if (from)
    {
      for (int d = 0; d < D; ++d) { o.mx[d] = model[d] = 9 - d; o.lx[d] = model[D + d] = 3. + d; o.xperiod[d] = d % 2 ? PETSC_TRUE : PETSC_FALSE; model[2 * D + d] = d % 2; }
      o.strain_tensor = PETSC_TRUE; o.pmm = PETSC_TRUE; model[3 * D] = model[3 * D + 2] = 1;
    }
    {
      Options t;
      long r = c; for (size_t k = 0; k < nm.size(); ++k) { give<D>(t, model, k, r % base[k], nm); r /= base[k]; }
      o.process_options(); op();
    }
    auto got = read<D>(o);
    S().comparisons += got.size();
    for (size_t k = 0; k < got.size(); ++k) if (got[k] != model[k]) { fail(fmt("combination %ld: %s is %g, want %g", c, nm[k].c_str(), got[k], model[k])); break; }
    o.process_options(); op();    // nothing given any more: nothing changes
    expect(read<D>(o) == model, "reading again changed the options");
    trace();
    if (c < 20000) outcome(fmt("%d %d %ld", D, from, c));
  }
}

// one whole problem; choice per option as above
template<int D> void whole(std::vector<int> const &choice)
{
  auto nm = names<D>();
  std::string s; for (int c : choice) s += char('0' + c);
  if (!begin_case(fmt("np=%d %dD problem %s", np(), D, s.c_str()))) return;
  auto m = defaults<D>();
  Options t;
  for (size_t k = 0; k < nm.size(); ++k)
    if (k < D && choice[k]) { int v = choice[k] == 1 ? (k ? 4 : 5) : (k ? 3 : 4); t.set(nm[k], v); m[k] = v; }
    else give<D>(t, m, k, choice[k], nm);
  if (m[3 * D + 2]) t.set("-stokes_ksp_max_it", 1);
  auto st = problem(std::integral_constant<int, D>{}); op();
  bool assembled = m[3 * D + 1], strain = m[3 * D], pmm = m[3 * D + 2];
  PetscInt nd; DMCompositeGetNumberDM(st.ctx->dm, &nd);
  DM da[2]; DMCompositeGetEntriesArray(st.ctx->dm, da);
  for (int g = 0; g < 2; ++g)
  {
    PetscInt dim, M[3], dof; DMBoundaryType b[3];
    DMDAGetInfo(da[g], &dim, &M[0], &M[1], &M[2], 0, 0, 0, &dof, 0, &b[0], &b[1], &b[2], 0);
    expect(dim == D && dof == (g ? 1 : D), "dimension or components");
    for (int d = 0; d < D; ++d)
    {
      // a period is one length of the box: its last point is its first
      int n = m[d] - (m[2 * D + d] != 0), want = g ? n : m[2 * D + d] ? 2 * n : 2 * n - 1;
      expect(M[d] == want, fmt("%s grid has %d points in direction %d, want %d", g ? "pressure" : "velocity", (int)M[d], d, want));
      expect((b[d] == DM_BOUNDARY_PERIODIC) == (m[2 * D + d] != 0), fmt("periodicity in direction %d", d));
    }
  }
  for (int d = 0; d < D; ++d) expect_near(st.ctx->h[d], .5 * m[D + d] / (m[d] - 1), 1e-14, 0., "spacing of the velocity grid");
  // assembled: entries can be read; the form: the first component's response in the second
  PetscBool shell; PetscObjectTypeCompare((PetscObject)st.A, MATSHELL, &shell);
  expect(shell == (assembled ? PETSC_FALSE : PETSC_TRUE), fmt("the matrix is%s assembled", shell ? " not" : ""));
  Layout L(st.ctx->dm);
  Vec x, y; DMCreateGlobalVector(st.ctx->dm, &x); VecDuplicate(x, &y);
  std::array<int, D> nv; size_t at = 0;
  for (int d = 0; d < D; ++d) nv[d] = m[2 * D + d] ? 2 * (m[d] - 1) : 2 * m[d] - 1;
  for (int d = D - 1; d >= 0; --d) at = at * nv[d] + 2;
  for (int which = 0; which < 2; ++which)
  {
    L.unit(D * at, x);
    MatMult(which ? st.P : st.A, x, y); op();
    auto v = L.gather(y);
    double own = 0., cross = 0., press = 0.;
    for (size_t i = 0; i < L.N; ++i) { double a = std::fabs(v[i]); double &w = i >= L.Nv ? press : i % D ? cross : own; w = std::max(w, a); }
    expect(own > 0., "no response of the velocity");
    expect((cross > 1e-8 * own) == strain, fmt("%s is that of the %s", which ? "preconditioner" : "matrix", strain ? "Laplacian" : "strain form"));
    expect((press > 0.) == !which, which ? "the preconditioner couples velocity and pressure" : "no divergence");
  }
  if (!(pmm && assembled))
  {
    st.setup_KSP(); op();
    PC pc; KSPGetPC(st.ksp, &pc);
    PetscBool fs, gcr; PetscObjectTypeCompare((PetscObject)pc, PCFIELDSPLIT, &fs); PetscObjectTypeCompare((PetscObject)st.ksp, KSPGCR, &gcr);
    expect((fs && gcr) == pmm, pmm ? "not the pressure mass matrix solver" : "the pressure mass matrix solver");
    KSPDestroy(&st.ksp);
  }
  VecDestroy(&x); VecDestroy(&y); VecDestroy(&st.sol); VecDestroy(&st.rhs); MatDestroy(&st.A); MatDestroy(&st.P); DMDestroy(&st.ctx->dm);
  trace(); outcome(s + fmt(" %dD", D)); if (s[0] == '0') sample(fmt("%dD problem %s: %zu unknowns", D, s.c_str(), L.N));
}
template<int D> bool fits(std::vector<int> const &c)
{
  std::array<int, D> n; for (int d = 0; d < D; ++d) n[d] = (c[d] == 0 ? 17 : c[d] == 1 ? (d ? 4 : 5) : (d ? 3 : 4)) - (c[2 * D + d] ? 1 : 0);
  return feasible<D>(n);
}

int main(int argc, char **argv)
{
  init(&argc, &argv);
  if (np() == 1)
  {
    fields<2>(3, thorough() ? 4 : 3);
    fields<3>(thorough() ? 3 : 2, thorough() ? 3 : 2);
    if (!thorough()) fields<3>(1, 4);
  }
  auto with_default_solver = [](auto &&f) { Options o; o.set("-stokes_pc_type", std::string("none")); f(); };
  with_default_solver([&] {
    for (long c = 0; c < 512; ++c)
    {
      std::vector<int> v; for (int k = 0; k < 9; ++k) v.push_back(c >> k & 1);
      if (fits<2>(v)) whole<2>(v); else note("refused by PETSc");
    }
    // 3D is not assembled; the numbers of points are given, but for one or all of them
    for (long c = 0; c < 2048; ++c)
    {
      if (!thorough() && c % 3) continue;
      std::vector<int> v; for (int k = 0; k < 12; ++k) v.push_back(k == 10 ? 0 : c >> (k > 10 ? k - 1 : k) & 1);
      for (int k = 0; k < 3; ++k) v[k]++;
      if (fits<3>(v)) whole<3>(v); else note("refused by PETSc");
    }
    for (int d = 0; d < 4; ++d)
    {
      std::vector<int> v(12, 0); for (int k = 0; k < 3; ++k) v[k] = d == k || d == 3 ? 0 : 2;
      if (fits<3>(v)) whole<3>(v);
    }
  });
  return finish();
}
