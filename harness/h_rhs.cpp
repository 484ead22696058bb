// Property: the body force enters the right-hand side as (mass matrix) x (nodal values), is
// added to what is there, and touches nothing else; the right-hand side of a Stokes problem is
// that plus the Dirichlet values on the borders.
#include "common.hpp"
#include <cafes.hpp>
#include "layout.hpp"
using namespace vp;
namespace fem = cafes::fem;

// nodal data: a unit pulse at one node, or a fixed polynomial, per component
static double *g_h; static int g_D;
static std::array<int, 3> g_node; static int g_kind;
static double nodal(const double *x, int c)
{
  if (g_kind == 0)
  {
    for (int d = 0; d < g_D; ++d) if (std::fabs(x[d] - g_node[d] * g_h[d]) > .25 * g_h[d]) return 0.;
    return 1.;
  }
  return 1. + 2. * c + x[0] * (c + 1) - 3. * x[1] * x[0] + (g_D == 3 ? x[2] * x[1] : 0.);
}
template<int c> void src(const PetscReal *x, PetscScalar *u) { *u = nodal(x, c); }
static double bval(const double *x, int c) { return 50. + 7. * c + x[0] - 2. * x[1]; }
template<int c> void bnd(const PetscReal *x, PetscScalar *u) { *u = bval(x, c); }
static const cafes::condition_fn srcs[3] = {src<0>, src<1>, src<2>};

template<int D> void one(std::array<int, D> n, std::array<int, D> per, std::array<double, D> h)
{
  ref::Grid<D> g{n, per, h};
  std::string key = fmt("np=%d dim=%d n=%s per=%s h0=%g", np(), D, show<D>(n).c_str(), show<D>(per).c_str(), h[0]);
  if (!feasible<D>(g.np())) { note("refused by PETSc"); return; }
  if (!begin_case(key)) return;
  std::array<PetscBool, D> period; for (int d = 0; d < D; ++d) period[d] = per[d] ? PETSC_TRUE : PETSC_FALSE;
  DM mesh; if (fem::createMesh<D>(mesh, n, period)) { fail("createMesh returned an error"); return; }
  Layout L(mesh);
  auto M = ref::assemble<D>(ref::MASS, g.nv(), g.ne_v(), 1, h);
  size_t N1 = g.Nv();
  Vec b; DMCreateGlobalVector(mesh, &b);
  g_h = h.data(); g_D = D;
  std::vector<double> B0(L.N); for (size_t i = 0; i < L.N; ++i) B0[i] = .5 + .001 * i;
  // every node as the support of a pulse, in every component; then every subset of components
  std::vector<std::array<int, D>> nodes;
  ref::for_each<D>(g.nv(), [&](auto i) { nodes.push_back(i); });
  for (size_t k = 0; k <= nodes.size(); ++k)
    for (unsigned mask = 1; mask < (1u << D); ++mask)
    {
      if (k < nodes.size() && (mask & (mask - 1))) continue;    // pulses: one component at a time
      g_kind = k < nodes.size() ? 0 : 1;
      if (g_kind == 0) for (int d = 0; d < D; ++d) g_node[d] = nodes[k][d];
      std::array<cafes::condition_fn, D> f; for (int c = 0; c < D; ++c) f[c] = (mask >> c) & 1 ? srcs[c] : nullptr;
      auto cond = cafes::make_rhs<D>(f);
      expect(cond.has_condition(), "has_condition of a non empty right-hand side");
      L.scatter(B0, b);
      fem::set_rhs<D, 1>(mesh, b, cond, h); op();
      auto want = B0;
      std::vector<double> F(N1);
      for (int c = 0; c < D; ++c) if ((mask >> c) & 1)
      {
        size_t q = 0;
        for (auto &i : nodes) { double x[3]; for (int d = 0; d < D; ++d) x[d] = i[d] * h[d]; F[ref::Grid<D>::idx(i, g.nv())] = nodal(x, c); ++q; }
        for (size_t i = 0; i < N1; ++i) { double s = 0.; for (size_t j = 0; j < N1; ++j) s += M(i, j) * F[j]; want[i * D + c] += s; }
      }
      expect_same(L.gather(b), want, 1e-13, fmt("set_rhs %s components %u", g_kind ? "polynomial" : "pulse", mask));
      trace(); S().states++;
      if (S().fails_in_case) break;
    }
  {
    std::array<cafes::condition_fn, D> f; f.fill(nullptr);
    expect(!cafes::make_rhs<D>(f).has_condition(), "has_condition without any component");
  }
  outcome(key); sample(key + ": unit pulses at every node and polynomial data, all component subsets");
  VecDestroy(&b); DMDestroy(&mesh);
}

// the right-hand side of the Stokes problem
static void problem(std::array<int, 2> n, std::array<int, 2> per, unsigned mask)
{
  std::string key = fmt("np=%d stokes n=%s per=%s components=%u", np(), show<2>(n).c_str(), show<2>(per).c_str(), mask);
  std::array<double, 2> len{{2., .75}}, h{{.5 * len[0] / (n[0] - 1), .5 * len[1] / (n[1] - 1)}};
  ref::Grid<2> g{n, per, h};
  if (!feasible<2>(g.np())) { note("refused by PETSc"); return; }
  if (!begin_case(key)) return;
  Options o; o.set("-mx", n[0]); o.set("-my", n[1]); o.set("-Lx", len[0]); o.set("-Ly", len[1]);
  if (per[0]) o.set("-xperiod", std::string("1"));
  if (per[1]) o.set("-yperiod", std::string("1"));
  std::array<cafes::condition_fn, 2> bb{{bnd<0>, bnd<1>}}, f;
  for (int c = 0; c < 2; ++c) f[c] = (mask >> c) & 1 ? srcs[c] : nullptr;
  g_kind = 1; g_D = 2; g_h = h.data();
  cafes::problem::stokes<2> st(cafes::make_bc<2>({bb, bb, bb, bb}), cafes::make_rhs<2>(f));
  Layout L(st.ctx->dm);
  auto z = L.gather(st.rhs); for (double v : z) if (v != 0.) { fail("right-hand side of a new problem is not zero"); break; }
  st.setup_RHS(); op();
  auto M = ref::assemble<2>(ref::MASS, g.nv(), g.ne_v(), 1, h);
  std::vector<double> want(L.N, 0.), F(g.Nv());
  for (int c = 0; c < 2; ++c)
  {
    ref::for_each<2>(g.nv(), [&](auto i) { double x[2] = {i[0] * h[0], i[1] * h[1]}; F[ref::Grid<2>::idx(i, g.nv())] = (mask >> c) & 1 ? nodal(x, c) : 0.; });
    for (size_t i = 0; i < g.Nv(); ++i) { double s = 0.; for (size_t j = 0; j < g.Nv(); ++j) s += M(i, j) * F[j]; want[2 * i + c] = s; }
    ref::for_each<2>(g.nv(), [&](auto i) {
      bool b = false; for (int d = 0; d < 2; ++d) if (!per[d] && (i[d] == 0 || i[d] == g.nv()[d] - 1)) b = true;
      double x[2] = {i[0] * h[0], i[1] * h[1]};
      if (b) want[2 * ref::Grid<2>::idx(i, g.nv()) + c] = bval(x, c);
    });
  }
  expect_same(L.gather(st.rhs), want, 1e-13, "right-hand side after setup_RHS");
  trace(); outcome(key);
}

int main(int argc, char **argv)
{
  init(&argc, &argv);
  int m = thorough() ? 7 : 5;
  for (int p = 0; p < 4; ++p)
    for (int a = 2; a <= m; ++a) for (int b = 2; b <= m; ++b)
    {
      std::array<int, 2> per{p & 1, p >> 1};
      if ((per[0] && a < 3) || (per[1] && b < 3)) continue;
      one<2>({a, b}, per, {{.5, .25}});
      one<2>({a, b}, per, {{.01, 2.}});
      for (unsigned mask = 0; mask < 4; ++mask) problem({a, b}, per, mask);
    }
  int m3 = thorough() ? 4 : 3;
  for (int p = 0; p < 8; ++p)
  {
    std::array<int, 3> per{p & 1, (p >> 1) & 1, p >> 2};
    for (int a = 2 + per[0]; a <= m3; ++a) for (int b = 2 + per[1]; b <= m3; ++b) for (int c = 2 + per[2]; c <= m3; ++c)
      one<3>({a, b, c}, per, {{.5, .25, 2.}});
  }
  return finish();
}
