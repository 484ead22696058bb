// Property: the operators of the multigrid hierarchy of the pressure-mass-matrix solver are the
// velocity operators of the coarsened grids, with their Dirichlet rows and the coarse spacing.
#include "common.hpp"
#include <cafes.hpp>
#include "layout.hpp"
using namespace vp;
namespace fem = cafes::fem;

static void zero(const PetscReal *, PetscScalar *u) { *u = 0.; }

static cafes::fem::dirichlet_conditions<2> sides(std::integral_constant<int, 2>) { return cafes::make_bc<2>({{{zero, zero}}, {{zero, zero}}, {{zero, zero}}, {{zero, zero}}}); }
static cafes::fem::dirichlet_conditions<3> sides(std::integral_constant<int, 3>) { std::array<cafes::condition_fn, 3> b{{zero, zero, zero}}; return cafes::make_bc<3>({b, b, b, b, b, b}); }

template<int D> void one(std::array<int, D> n, std::array<int, D> per, std::array<double, D> len, bool strain)
{
  std::string lens; for (int d = 0; d < D; ++d) lens += (d ? "," : "") + fmt("%g", len[d]);
  std::string key = fmt("np=%d n=%s per=%s L=%s %s", np(), show<D>(n).c_str(), show<D>(per).c_str(), lens.c_str(), strain ? "strain" : "laplacian");
  std::array<double, D> h; for (int d = 0; d < D; ++d) h[d] = .5 * len[d] / (n[d] - 1);
  ref::Grid<D> g{n, per, h};
  auto nv = g.nv();
  // the hierarchy the documentation promises: halve until the smaller direction has at most 8 points
  int levels = 1; for (int i = *std::min_element(nv.begin(), nv.end()); i > 8; i >>= 1) ++levels;
  // PETSc can coarsen a direction only if it divides
  for (int d = 0; d < D; ++d) if ((per[d] ? nv[d] : nv[d] - 1) % (1 << (levels - 1))) { note("not coarsenable"); return; }
  std::array<int, D> coarsest; for (int d = 0; d < D; ++d) coarsest[d] = per[d] ? nv[d] >> (levels - 1) : ((nv[d] - 1) >> (levels - 1)) + 1;
  if (!feasible<D>(coarsest) || !feasible<D>(g.np())) { note("refused by PETSc"); return; }
  if (!begin_case(key)) return;
  Options o;
  for (int d = 0; d < D; ++d) { std::string x(1, "xyz"[d]); o.set("-m" + x, n[d]); o.set("-L" + x, len[d]); if (per[d]) o.set("-" + x + "period", std::string("1")); }
  if (strain) o.set("-strain_tensor", std::string("1"));
  o.set("-PMM", std::string("1"));
  cafes::problem::stokes<D> st(sides(std::integral_constant<int, D>{}));
  st.setup_KSP(); op();
  PC pc; KSP *sub; PetscInt ns; KSPGetPC(st.ksp, &pc);
  PCFieldSplitGetSubKSP(pc, &ns, &sub);
  KSPSetUp(sub[0]); op();
  PC mg; KSPGetPC(sub[0], &mg);
  PetscInt nl; PCMGGetLevels(mg, &nl);
  expect(nl == levels, fmt("%d levels, want %d", (int)nl, levels));
  for (int l = 0; l < nl; ++l)
  {
    int coarser = nl - 1 - l;
    KSP sm; PCMGGetSmoother(mg, l, &sm);
    Mat A; KSPGetOperators(sm, &A, nullptr);
    DM dm; KSPGetDM(sm, &dm);
    std::array<int, D> m, ne; std::array<double, D> hh;
    for (int d = 0; d < D; ++d)
    {
      int e = (per[d] ? nv[d] : nv[d] - 1) >> coarser;
      ne[d] = e; m[d] = per[d] ? e : e + 1; hh[d] = h[d] * (1 << coarser);
    }
    size_t unknowns = D; for (int d = 0; d < D; ++d) unknowns *= m[d];
    if (unknowns > 700 && l == nl - 1) { note("finest level not probed"); continue; }  // that one is checked by h_assembly and h_dirichlet
    auto W = ref::assemble<D>(strain ? ref::STRAIN : ref::LAPLACIAN, m, ne, D, hh);
    ref::for_each<D>(m, [&](auto i) {
      bool b = false; for (int d = 0; d < D; ++d) if (!per[d] && (i[d] == 0 || i[d] == m[d] - 1)) b = true;
      size_t k = ref::Grid<D>::idx(i, m);
      if (b) for (int c = 0; c < D; ++c) for (size_t j = 0; j < W.m; ++j) W(D * k + c, j) = j == D * k + c;
    });
    if (l == nl - 1) dm = nullptr;
    DM dav, dap; DMCompositeGetEntries(st.ctx->dm, &dav, &dap);
    if (!dm) dm = dav;
    Layout L(dm);
    if (L.N != W.n) { fail(fmt("level %d has %zu unknowns, want %zu", l, L.N, W.n)); continue; }
      auto got = L.probe(dm, [&](Vec x, Vec y) { MatMult(A, x, y); });
    expect_same(got, W, 1e-12, fmt("operator of level %d of %d", l, (int)nl));
    trace();
    outcome(fmt("%s level %d", key.c_str(), l));
  }
  sample(key + fmt(": %d levels, each operator probed with every unit vector", (int)nl));
  KSPDestroy(&st.ksp); VecDestroy(&st.sol); VecDestroy(&st.rhs); MatDestroy(&st.A); MatDestroy(&st.P); DMDestroy(&st.ctx->dm);
}

int main(int argc, char **argv)
{
  init(&argc, &argv);
  int m = thorough() ? 33 : 17;
  for (std::array<double, 2> len : {std::array<double, 2>{1., 1.}, {3., .5}})
    for (int strain = 0; strain < 2; ++strain)
      for (int p = 0; p < 4; ++p)
        for (int a = 4; a <= m; ++a) for (int b = 4; b <= m; ++b)
        {
          if (!thorough() && std::max(a, b) > 11 && !(std::min(a, b) == 9 && std::max(a, b) >= 16) && (a != 17 || b != 17)) continue;
          if (!thorough() && a > 5 && b > 5 && a % 2 == 0 && b % 2 == 0) continue;
          one<2>({a, b}, {p & 1, p >> 1}, len, strain);
        }
  std::vector<std::array<int, 3>> ns{{3, 3, 3}, {4, 3, 4}, {5, 5, 5}, {7, 5, 5}, {5, 5, 9}};
  if (thorough()) for (std::array<int, 3> n : {std::array<int, 3>{5, 6, 7}, {6, 6, 6}, {8, 5, 6}, {9, 9, 9}, {8, 8, 9}, {9, 13, 9}}) ns.push_back(n);
  for (std::array<double, 3> len : {std::array<double, 3>{1., 1., 1.}, {3., .5, 1.2}})
    for (int strain = 0; strain < 2; ++strain)
      for (int p = 0; p < 8; ++p)
        for (auto n : ns) one<3>(n, {p & 1, (p >> 1) & 1, p >> 2}, len, strain);
  return finish();
}
