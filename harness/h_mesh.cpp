// Property: the pair of nested grids and its decomposition.
#include "common.hpp"
#include <cafes.hpp>
#include "layout.hpp"
using namespace vp;
namespace fem = cafes::fem;

template<int D> struct Box { std::array<int, D> lo, hi; };
template<int D, typename B> Box<D> tobox(B const &b) { Box<D> r; for (int d = 0; d < D; ++d) { r.lo[d] = b.bottom_left[d]; r.hi[d] = b.upper_right[d]; } return r; }

template<int D> std::vector<int> owners(Box<D> const &b, std::array<int, D> const &n, const char *what)
{
  // count, for every cell of n, how many ranks have it; and which one (rank+1)
  size_t N = ref::Grid<D>::prod(n);
  std::vector<int> mine(2 * N, 0), all(2 * N, 0);
  std::array<int, D> ext; bool empty = false, bad = false;
  for (int d = 0; d < D; ++d) { ext[d] = b.hi[d] - b.lo[d]; if (ext[d] <= 0) empty = true; if (b.lo[d] < 0 || (b.hi[d] > n[d] && !empty)) bad = true; }
  if (!empty && bad) fail(fmt("%s: box of rank %d reaches out of the grid", what, S().rank));
  else if (!empty) ref::for_each<D>(ext, [&](auto i) {
    size_t k = 0;
    for (int d = D - 1; d >= 0; --d) k = k * n[d] + b.lo[d] + i[d];
    mine[2 * k]++; mine[2 * k + 1] += S().rank + 1;
  });
  MPI_Allreduce(mine.data(), all.data(), (int)(2 * N), MPI_INT, MPI_SUM, PETSC_COMM_WORLD);
  std::vector<int> own(N);
  for (size_t k = 0; k < N; ++k)
  {
    S().comparisons++;
    if (all[2 * k] != 1) { fail(fmt("%s: entry %zu belongs to %d ranks", what, k, all[2 * k])); break; }
    own[k] = all[2 * k + 1] - 1;
  }
  op();
  return own;
}

template<int D> void one(std::array<int, D> n, std::array<int, D> per)
{
  std::string key = fmt("np=%d dim=%d n=%s per=%s", np(), D, show<D>(n).c_str(), show<D>(per).c_str());
  ref::Grid<D> g{n, per, {}};
  if (!feasible<D>(g.np())) { note("refused by PETSc"); return; }
  if (!begin_case(key)) return;
  std::array<PetscBool, D> period; for (int d = 0; d < D; ++d) period[d] = per[d] ? PETSC_TRUE : PETSC_FALSE;
  DM mesh;
  if (fem::createMesh<D>(mesh, n, period)) { fail("createMesh returned an error"); return; }
  op();
  PetscInt ndm; DMCompositeGetNumberDM(mesh, &ndm);
  expect(ndm == 2, "two grids");
  DM da[2]; DMCompositeGetEntriesArray(mesh, da);
  std::array<int, D> want[2] = {g.nv(), g.np()};
  int total = 0, local = 0;
  std::vector<int> own[2], ownel[2];
  for (int e = 0; e < 2; ++e)
  {
    PetscInt dim, m[3], dof, sw; DMBoundaryType b[3];
    DMDAStencilType st;
    DMDAGetInfo(da[e], &dim, &m[0], &m[1], &m[2], 0, 0, 0, &dof, &sw, &b[0], &b[1], &b[2], &st);
    expect(dim == D, "dimension");
    expect(dof == (e == 0 ? D : 1), fmt("components of grid %d: %d", e, (int)dof));
    expect(fem::get_dof(da[e]) == dof, "get_dof");
    auto gb = fem::get_global_bounds<D>(da[e]);
    auto bt = fem::get_boundary_type<D>(da[e]);
    for (int d = 0; d < D; ++d)
    {
      expect(m[d] == want[e][d], fmt("grid %d has %d nodes in direction %d, want %d", e, (int)m[d], d, want[e][d]));
      expect(gb[d] == want[e][d], fmt("get_global_bounds of grid %d direction %d: %d, want %d", e, d, (int)gb[d], want[e][d]));
      expect((b[d] == DM_BOUNDARY_PERIODIC) == (per[d] == 1), fmt("periodicity of grid %d direction %d", e, d));
      expect((bt[d] == DM_BOUNDARY_PERIODIC) == (per[d] == 1), fmt("get_boundary_type of grid %d direction %d", e, d));
    }
    if (S().fails_in_case) return;
    // nodes: each owned by exactly one rank; by both accessors
    auto bn = tobox<D>(fem::get_DM_bounds<D>(da[e], false)), bn2 = tobox<D>(fem::get_DM_bounds<D>(mesh, e, false));
    expect(bn.lo == bn2.lo && bn.hi == bn2.hi, fmt("get_DM_bounds(entry %d) differs from get_DM_bounds of that grid", e));
    own[e] = owners<D>(bn, want[e], e ? "pressure nodes" : "velocity nodes");
    auto be = tobox<D>(fem::get_DM_bounds<D>(da[e])), be2 = tobox<D>(fem::get_DM_bounds<D>(mesh, e));
    expect(be.lo == be2.lo && be.hi == be2.hi, fmt("get_DM_bounds(entry %d) of elements differs", e));
    ownel[e] = owners<D>(be, e ? g.ne_p() : g.ne_v(), e ? "pressure elements" : "velocity elements");
    // every element's nodes are available on the rank that owns it (ghost region)
    PetscInt gs[3], gm[3]; DMDAGetGhostCorners(da[e], &gs[0], &gs[1], &gs[2], &gm[0], &gm[1], &gm[2]);
    bool empty = false; for (int d = 0; d < D; ++d) if (be.hi[d] <= be.lo[d]) empty = true;
    if (!empty) for (int d = 0; d < D; ++d) expect(be.lo[d] >= gs[d] && be.hi[d] < gs[d] + gm[d], fmt("grid %d: elements of rank %d reach past its ghost region", e, S().rank));
    int l, t; fem::get_DM_sizes(da[e], l, t);
    size_t nn = ref::Grid<D>::prod(want[e]) * dof;
    expect((size_t)t == nn, fmt("get_DM_sizes of grid %d: total %d, want %zu", e, t, nn));
    Vec v; DMCreateGlobalVector(da[e], &v); PetscInt lv; VecGetLocalSize(v, &lv); VecDestroy(&v);
    expect(l == lv, fmt("get_DM_sizes of grid %d: local %d, vector has %d", e, l, (int)lv));
    total += t; local += l;
  }
  int l, t; fem::get_DM_sizes(mesh, l, t);
  expect(l == local && t == total, "get_DM_sizes of the composite mesh");
  Vec v; DMCreateGlobalVector(mesh, &v); PetscInt lv, gv; VecGetLocalSize(v, &lv); VecGetSize(v, &gv); VecDestroy(&v);
  expect(l == lv && t == gv, "composite vector sizes");
  // alignment: a coarse element and the fine elements inside are on one rank, and so are a
  // pressure node and the velocity node at the same place
  ref::for_each<D>(g.ne_p(), [&](auto i) {
    size_t k = ref::Grid<D>::idx(i, g.ne_p());
    ref::for_each<D>(ref::filled<D>(2), [&](auto s) {
      std::array<int, D> j; for (int d = 0; d < D; ++d) j[d] = 2 * i[d] + s[d];
      S().comparisons++;
      if (ownel[0][ref::Grid<D>::idx(j, g.ne_v())] != ownel[1][k] && S().fails_in_case < 3) fail(fmt("coarse element %zu and its fine elements are on different ranks", k));
    });
  });
  ref::for_each<D>(g.np(), [&](auto i) {
    size_t k = ref::Grid<D>::idx(i, g.np());
    std::array<int, D> j; for (int d = 0; d < D; ++d) j[d] = 2 * i[d];
    S().comparisons++;
    if (own[0][ref::Grid<D>::idx(j, g.nv())] != own[1][k] && S().fails_in_case < 3) fail(fmt("pressure node %zu and the velocity node there are on different ranks", k));
  });
  trace();
  { std::string o; for (int x : own[1]) o += char('0' + x); outcome(show<D>(n) + o); }
  sample(key + fmt(": %d velocity+pressure unknowns", total));
  DMDestroy(&mesh);

  // the single-field mesh
  DM lap;
  if (fem::createLaplacianMesh<D>(lap, n, period)) { fail("createLaplacianMesh returned an error"); return; }
  op();
  auto gl = fem::get_global_bounds<D>(lap);
  for (int d = 0; d < D; ++d) expect(gl[d] == g.np()[d], fmt("Laplacian mesh: %d nodes in direction %d, want %d", (int)gl[d], d, g.np()[d]));
  if (!S().fails_in_case)
  {
    owners<D>(tobox<D>(fem::get_DM_bounds<D>(lap, false)), g.np(), "Laplacian mesh nodes");
    owners<D>(tobox<D>(fem::get_DM_bounds<D>(lap)), g.ne_p(), "Laplacian mesh elements");
    auto bt = fem::get_boundary_type<D>(lap);
    for (int d = 0; d < D; ++d) expect((bt[d] == DM_BOUNDARY_PERIODIC) == (per[d] == 1), "Laplacian mesh periodicity");
    expect(fem::get_dof(lap) == 1, "Laplacian mesh components");
  }
  DMDestroy(&lap);
}

int main(int argc, char **argv)
{
  init(&argc, &argv);
  int m2 = thorough() ? 24 : 12, m3 = thorough() ? 7 : 5;
  for (int p = 0; p < 4; ++p)
    for (int a = 2; a <= m2; ++a) for (int b = 2; b <= m2; ++b)
    {
      std::array<int, 2> per{p & 1, p >> 1};
      if ((per[0] && a < 3) || (per[1] && b < 3)) continue;
      one<2>({a, b}, per);
    }
  for (int p = 0; p < 8; ++p)
    for (int a = 2; a <= m3; ++a) for (int b = 2; b <= m3; ++b) for (int c = 2; c <= m3; ++c)
    {
      std::array<int, 3> per{p & 1, (p >> 1) & 1, p >> 2};
      if ((per[0] && a < 3) || (per[1] && b < 3) || (per[2] && c < 3)) continue;
      one<3>({a, b, c}, per);
    }
  return finish();
}
