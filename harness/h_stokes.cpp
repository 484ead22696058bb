// Property: whichever way the Stokes problem is solved (assembled with a direct solver, Krylov on
// the assembled or the matrix-free operator, the multigrid / pressure mass preconditioned solver),
// the result is the solution of the reference finite element system, up to a pressure constant;
// solving again, or solving for a multiple, is consistent.
#include "coupled.hpp"
#include <cafes.hpp>
using namespace vp;
namespace fem = cafes::fem;

// the data of a case: a constant velocity, a linear one (free of divergence), a linear pressure or a rough force
struct Field
{
  enum { CONSTANT, SHEAR, STRETCH, PRESSURE, ROUGH } kind; int a, b;
  double u(double const *x, int c) const { return kind == CONSTANT ? c == a : kind == SHEAR ? (c == a ? x[b] : 0.) : kind == STRETCH ? (c == a ? x[a] : c == b ? -x[b] : 0.) : 0.; }
  double f(double const *x, int c, int D) const
  {
    if (kind == PRESSURE) return c == a;
    if (kind != ROUGH) return 0.;
    double z = D == 3 ? x[2] : 0.;
    return c == 0 ? std::cos(3. * x[0] + 5. * x[1] * x[1]) + z : c == 1 ? std::sin(x[0] * x[1]) + (x[0] > .4 ? 2. : 0.) - z * z : std::cos(2. * x[1] - z);
  }
  double p(double const *x) const { return kind == PRESSURE ? x[a] : 0.; }
  bool fits(int const *per) const { return kind == SHEAR ? !per[b] : kind == STRETCH ? !per[a] && !per[b] : true; }
  // finite elements represent it exactly
  bool exact(int const *per) const { return kind < PRESSURE || (kind == PRESSURE && !per[a]); }
};
static Field g_field;
template<int D> std::vector<Field> fields()
{
  std::vector<Field> r;
  for (int a = 0; a < D; ++a) r.push_back({Field::CONSTANT, a, 0});
  for (int a = 0; a < D; ++a) for (int b = 0; b < D; ++b) if (a != b) r.push_back({Field::SHEAR, a, b});
  for (int a = 0; a + 1 < D; ++a) r.push_back({Field::STRETCH, a, a + 1});
  for (int a = 0; a < D; ++a) r.push_back({Field::PRESSURE, a, 0});
  r.push_back({Field::ROUGH, 0, 0});
  return r;
}
template<int D, int c> void bu(const PetscReal *x, PetscScalar *u) { *u = g_field.u(x, c); }
template<int D, int c> void bf(const PetscReal *x, PetscScalar *u) { *u = g_field.f(x, c, D); }
static cafes::problem::stokes<2> problem(std::integral_constant<int, 2>) { return cafes::make_stokes<2>(cafes::make_bc<2>({{{bu<2, 0>, bu<2, 1>}}, {{bu<2, 0>, bu<2, 1>}}, {{bu<2, 0>, bu<2, 1>}}, {{bu<2, 0>, bu<2, 1>}}}), cafes::make_rhs<2>({{bf<2, 0>, bf<2, 1>}})); }
static cafes::problem::stokes<3> problem(std::integral_constant<int, 3>) { std::array<cafes::condition_fn, 3> b{{bu<3, 0>, bu<3, 1>, bu<3, 2>}}; return cafes::make_stokes<3>(cafes::make_bc<3>({b, b, b, b, b, b}), cafes::make_rhs<3>({{bf<3, 0>, bf<3, 1>, bf<3, 2>}})); }

struct Mode { const char *name; std::vector<std::pair<std::string, std::string>> opt; double tol; bool exact = false; };

template<int D> std::vector<Mode> modes()
{
  std::vector<Mode> m;
  if (D == 2 && np() == 1) m.push_back({"lu", {{"-assembling", "1"}, {"-stokes_ksp_type", "preonly"}, {"-stokes_pc_type", "lu"}}, 5e-2});
  if (D == 2) m.push_back({"mumps", {{"-assembling", "1"}, {"-stokes_ksp_type", "gmres"}, {"-stokes_ksp_rtol", "1e-12"}, {"-stokes_pc_type", "lu"}, {"-stokes_pc_factor_mat_solver_type", "mumps"}}, 1e-7});
  if (D == 2) m.push_back({"gmres assembled", {{"-assembling", "1"}, {"-stokes_ksp_type", "gmres"}, {"-stokes_pc_type", "none"}, {"-stokes_ksp_rtol", "1e-12"}, {"-stokes_ksp_gmres_restart", "400"}, {"-stokes_ksp_max_it", "1200"}}, 1e-6});
  if (D == 2) m.push_back({"gmres matrix-free", {{"-stokes_ksp_type", "gmres"}, {"-stokes_pc_type", "none"}, {"-stokes_ksp_rtol", "1e-12"}, {"-stokes_ksp_gmres_restart", "400"}, {"-stokes_ksp_max_it", "1200"}}, 1e-6});
  if (D == 3) m.push_back({"gmres matrix-free, exact preconditioner", {{"-stokes_ksp_type", "gmres"}, {"-stokes_pc_type", "none"}, {"-stokes_ksp_rtol", "1e-13"}}, 1e-8, true});
  m.push_back({"pmm", {{"-PMM", "1"}, {"-stokes_ksp_rtol", "1e-9"}, {"-stokes_ksp_max_it", "200"}}, 1e-5});
  return m;
}

static std::vector<double> centered(std::vector<double> v, size_t Nv)
{
  double s = 0.; for (size_t i = Nv; i < v.size(); ++i) s += v[i];
  s /= v.size() - Nv; for (size_t i = Nv; i < v.size(); ++i) v[i] -= s;
  return v;
}

template<int D> void one(std::array<int, D> n, std::array<int, D> per, std::array<double, D> len, bool strain, Mode const &mode)
{
  std::string lens; for (int d = 0; d < D; ++d) lens += (d ? "," : "") + fmt("%g", len[d]);
  std::string key = fmt("np=%d n=%s per=%s L=%s %s %s", np(), show<D>(n).c_str(), show<D>(per).c_str(), lens.c_str(), strain ? "strain" : "laplacian", mode.name);
  std::array<double, D> h; for (int d = 0; d < D; ++d) h[d] = .5 * len[d] / (n[d] - 1);
  ref::Grid<D> g{n, per, h};
  if (!feasible<D>(g.np())) { note("refused by PETSc"); return; }
  if (!begin_case(key)) return;
  size_t Nv = g.Nv() * D, Np = g.Np(), N = Nv + Np;
  cpl::FluidT<D> fl(g, strain);
  if (S().fails_in_case) return;
  Options o;
  for (int d = 0; d < D; ++d) { std::string x(1, "xyz"[d]); o.set("-m" + x, n[d]); o.set("-L" + x, len[d]); if (per[d]) o.set("-" + x + "period", std::string("1")); }
  if (strain) o.set("-strain_tensor", std::string("1"));
  for (auto &p : mode.opt) o.set(p.first, p.second);

  std::array<int, D> nvs = g.nv();
  auto all = fields<D>();
  auto where = [&](auto i, int s) { std::array<double, 3> x{}; for (int d = 0; d < D; ++d) x[d] = i[d] * s * h[d]; return x; };
  for (int f = 0; f < (int)all.size(); ++f)
  {
    Field const &fd = g_field = all[f];
    if (!fd.fits(per.data())) continue;   // a constant force along a period drives a flow: still a valid system
    if (!thorough() && fd.kind == Field::CONSTANT && fd.a && mode.tol > 1e-7) continue;
    if (!thorough() && D == 3 && f % 2 && fd.kind != Field::ROUGH) continue;
    auto st = problem(std::integral_constant<int, D>{});
    Layout L(st.ctx->dm);
    if (L.N != N) { fail("wrong number of unknowns"); return; }
    st.setup_RHS(); op();
    st.setup_KSP(); op();
    cpl::Inverse<D> inv(fl, st.ctx->dm); if (mode.exact) inv.use(st.ksp);
    // the reference system
    std::vector<double> b(N, 0.), F(Nv);
    ref::for_each<D>(nvs, [&](auto i) { size_t k = ref::Grid<D>::idx(i, nvs); for (int c = 0; c < D; ++c) F[D * k + c] = fd.f(where(i, 1).data(), c, D); });
    ref::for_each<D>(nvs, [&](auto i) {
      size_t k = ref::Grid<D>::idx(i, nvs);
      for (int c = 0; c < D; ++c)
        if (fl.dir[D * k + c]) b[D * k + c] = fd.u(where(i, 1).data(), c);
        else for (size_t q = 0; q < g.Nv(); ++q) b[D * k + c] += fl.M(k, q) * F[D * q + c];
    });
    auto want = b; want[N - 1] = 0.;  // the last equation of the reference system: the pressure sums to zero
    want = fl.lu.solve(want);
    want = centered(want, Nv);
    double us = 0., ps = 0.; for (size_t i = 0; i < N; ++i) { double &s = i < Nv ? us : ps; s = std::max(s, std::fabs(want[i])); }
    // for the linear data the finite element solution is the exact one
    auto cmp = [&](std::vector<double> got, double scale, const char *what) {
      got = centered(got, Nv);
      for (size_t i = 0; i < N; ++i)
      {
        S().comparisons++;
        double sc = i < Nv ? std::max(us, ps * *std::min_element(len.begin(), len.end())) : std::max(ps, us / *std::min_element(h.begin(), h.end()));
        if (!(std::fabs(got[i] - scale * want[i]) <= mode.tol * scale * sc))
        { fail(fmt("field %d: %s: unknown %zu (%s) = %.12g, want %.12g", f, what, i, i < Nv ? "velocity" : "pressure", got[i], scale * want[i])); return; }
      }
    };
    if (fd.exact(per.data()))
    {
      std::vector<double> ex(N, 0.);
      ref::for_each<D>(nvs, [&](auto i) { size_t k = ref::Grid<D>::idx(i, nvs); for (int c = 0; c < D; ++c) ex[D * k + c] = fd.u(where(i, 1).data(), c); });
      ref::for_each<D>(g.np(), [&](auto i) { ex[Nv + ref::Grid<D>::idx(i, g.np())] = fd.p(where(i, 2).data()); });
      ex = centered(ex, Nv);
      for (size_t i = 0; i < N; ++i) if (std::fabs(ex[i] - want[i]) > 1e-8 * (us + ps)) { fail("reference model is wrong: the linear flow is no solution"); return; }
    }
    expect_same(L.gather(st.rhs), b, 1e-12, "right-hand side");
    st.solve(); op();
    KSPConvergedReason r; KSPGetConvergedReason(st.ksp, &r);
    if (r < 0) fail(fmt("field %d: solver did not converge (reason %d)", f, (int)r));
    auto s1 = L.gather(st.sol);
    cmp(s1, 1., "solution");
    st.solve(); op();
    cmp(L.gather(st.sol), 1., "solved a second time");
    VecScale(st.rhs, 2.);
    st.solve(); op();
    cmp(L.gather(st.sol), 2., "solved for twice the data");
    trace();
    PetscInt it; KSPGetIterationNumber(st.ksp, &it);
    outcome(fmt("%s field %d its %d", key.c_str(), f, (int)it));
    VecDestroy(&st.sol); VecDestroy(&st.rhs); KSPDestroy(&st.ksp); MatDestroy(&st.A); MatDestroy(&st.P); DMDestroy(&st.ctx->dm);
    if (S().fails_in_case) break;
  }
  sample(key + fmt(": %zu unknowns, %zu fields (linear velocities, linear pressures, one rough force), three solves each", N, all.size()));
}

int main(int argc, char **argv)
{
  init(&argc, &argv);
  std::vector<std::array<int, 2>> ns{{3, 3}, {4, 3}, {3, 5}, {5, 5}};
  if (thorough()) for (std::array<int, 2> a : {std::array<int, 2>{4, 4}, {3, 4}, {5, 3}, {6, 4}, {5, 9}, {9, 5}, {7, 7}}) ns.push_back(a);
  for (auto &m : modes<2>())
    for (std::array<double, 2> len : {std::array<double, 2>{1., 1.}, {2., .5}})
      for (int strain = 0; strain < 2; ++strain)
        for (int p = 0; p < 3; ++p)   // both directions periodic: no Dirichlet side, singular beyond the pressure
          for (auto n : ns) if (m.name[0] != 'p' || std::min(n[0], n[1]) <= 4)  // pmm: one multigrid level, see h_mglevels for more
            one<2>(n, {p & 1, p >> 1}, len, strain, m);
  // 3D: matrix-free only
  std::vector<std::array<int, 3>> ms{{3, 3, 3}, {4, 3, 3}, {3, 3, 4}};
  if (thorough()) for (std::array<int, 3> a : {std::array<int, 3>{4, 4, 4}, {3, 4, 5}, {5, 3, 4}}) ms.push_back(a);
  for (auto &m : modes<3>())
    for (std::array<double, 3> len : {std::array<double, 3>{1., 1., 1.}, {2., .5, .8}})
      for (int strain = 0; strain < 2; ++strain)
        for (int p = 0; p < 7; ++p)
          for (auto n : ms)
          {
            if (!thorough() && (p == 3 || p > 4 || (p && (len[0] == 1. || n[0] == 4)) || (strain && len[0] == 1.))) continue;
            one<3>(n, {p & 1, (p >> 1) & 1, p >> 2}, len, strain, m);
          }
  return finish();
}
