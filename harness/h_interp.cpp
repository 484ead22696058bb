// Property: linear_interpolation gives the finite element solution's own values on the nodes of
// the refined mesh.  Every mesh, periodicity, refinement factor and process count of the bound;
// every unit vector on the small meshes; histories: several refinements of one solution, the
// refinement of a refinement.
#include "common.hpp"
#include <cafes.hpp>
#include "layout.hpp"
using namespace vp;
namespace fem = cafes::fem;

// values of the tensor product interpolation on a grid of n nodes (per: wraps), at the nodes of
// the grid refined r times
template<int D> std::vector<double> refined(std::vector<double> const &u, std::array<int, D> n, std::array<int, D> per, std::array<int, D> r, int dof, std::array<int, D> &m)
{
  for (int d = 0; d < D; ++d) m[d] = per[d] ? n[d] * r[d] : (n[d] - 1) * r[d] + 1;
  std::vector<double> out;
  ref::for_each<D>(m, [&](auto i) {
    for (int c = 0; c < dof; ++c)
    {
      double s = 0.;
      for (int k = 0; k < (1 << D); ++k)
      {
        double w = 1.; size_t at = 0;
        for (int d = D - 1; d >= 0; --d)
        {
          int lo = i[d] / r[d], f = i[d] % r[d], b = k >> d & 1;
          w *= b ? f / double(r[d]) : 1. - f / double(r[d]);
          int j = lo + b;
          if (per[d]) j %= n[d]; else j = std::min(j, n[d] - 1);   // weight 0 there
          at = at * n[d] + j;
        }
        s += w * u[at * dof + c];
      }
      out.push_back(s);
    }
  });
  return out;
}

template<int D> struct Sol
{
  DM dm = nullptr; Vec v = nullptr;
  std::array<int, D> nv, np_;
  ~Sol() { if (v) VecDestroy(&v); if (dm) DMDestroy(&dm); }
};

// refine a and judge the result against x, the values of a
template<int D> std::vector<double> refine_and_judge(Sol<D> &a, std::array<int, D> per, std::vector<double> const &x, std::array<int, D> r, std::array<double, D> h, Sol<D> &b)
{
  Layout La(a.dm);
  auto e = cafes::posttraitement::linear_interpolation<D>(a.dm, a.v, b.dm, b.v, r, h);
  op();
  if (e) { fail("linear_interpolation returned an error"); return {}; }
  La.unchanged(a.v, [&](size_t i) { return x[i]; });
  std::vector<double> u(x.begin(), x.begin() + La.Nv), p(x.begin() + La.Nv, x.end());
  auto ur = refined<D>(u, a.nv, per, r, D, b.nv), pr = refined<D>(p, a.np_, per, r, 1, b.np_);
  ur.insert(ur.end(), pr.begin(), pr.end());
  DM das[2]; PetscInt nd; DMCompositeGetNumberDM(b.dm, &nd);
  if (nd != 2) { fail("the refined mesh has not two grids"); return {}; }
  DMCompositeGetEntriesArray(b.dm, das);
  for (int k = 0; k < 2; ++k)
  {
    PetscInt N[3], dof; DMBoundaryType bt[3];
    DMDAGetInfo(das[k], 0, &N[0], &N[1], &N[2], 0, 0, 0, &dof, 0, &bt[0], &bt[1], &bt[2], 0);
    auto &m = k ? b.np_ : b.nv;
    for (int d = 0; d < D; ++d)
    {
      if (N[d] != m[d]) { fail(fmt("grid %d of the refined mesh has %d nodes in direction %d, want %d", k, (int)N[d], d, m[d])); return {}; }
      expect((bt[d] == DM_BOUNDARY_PERIODIC) == (per[d] == 1), "periodicity of the refined mesh");
    }
    if (dof != (k ? 1 : D)) { fail("components of the refined mesh"); return {}; }
  }
  Layout Lb(b.dm);
  auto got = Lb.gather(b.v);
  expect_same(got, ur, 1e-12, fmt("refinement by %s", show<D>(r).c_str()));
  return ur;
}

template<int D> void one(std::array<int, D> n, std::array<int, D> per, std::array<int, D> r, bool units)
{
  ref::Grid<D> g{n, per, {}};
  if (!feasible<D>(g.np())) { note("refused by PETSc"); return; }
  if (!begin_case(fmt("np=%d dim=%d n=%s per=%s refine=%s", np(), D, show<D>(n).c_str(), show<D>(per).c_str(), show<D>(r).c_str()))) return;
  std::array<PetscBool, D> p; for (int d = 0; d < D; ++d) p[d] = per[d] ? PETSC_TRUE : PETSC_FALSE;
  Sol<D> a;
  auto nn = n;
  if (fem::createMesh<D>(a.dm, nn, p)) { fail("createMesh"); return; }
  DMCreateGlobalVector(a.dm, &a.v);
  a.nv = g.nv(); a.np_ = g.np();
  Layout L(a.dm);
  std::array<double, D> h; for (int d = 0; d < D; ++d) h[d] = .125 * (d + 1) + .01 * d;
  std::vector<double> x(L.N);
  auto dense = [&](double s) { for (size_t i = 0; i < L.N; ++i) x[i] = std::sin(1.7 * i + s) + .2 * (i % 5); };
  // a history: this refinement, another one, this one again, then the refinement of the refinement
  dense(0.); L.scatter(x, a.v);
  std::array<int, D> r2; for (int d = 0; d < D; ++d) r2[d] = r[D - 1 - d] % 3 + 1;
  Sol<D> b, c, e, f;
  auto y = refine_and_judge<D>(a, per, x, r, h, b); if (S().fails_in_case) return;
  refine_and_judge<D>(a, per, x, r2, h, c); if (S().fails_in_case) return;
  dense(2.); L.scatter(x, a.v);
  y = refine_and_judge<D>(a, per, x, r, h, e); if (S().fails_in_case) return;
  auto hr = h; for (int d = 0; d < D; ++d) hr[d] /= r[d];
  {
    Layout Le(e.dm);
    auto z = Le.gather(e.v);
    refine_and_judge<D>(e, per, z, r2, hr, f); if (S().fails_in_case) return;
  }
  trace();
  if (units)
    for (size_t k = 0; k < L.N; ++k)
    {
      for (size_t i = 0; i < L.N; ++i) x[i] = i == k;
      L.scatter(x, a.v);
      Sol<D> q;
      refine_and_judge<D>(a, per, x, r, h, q);
      if (S().fails_in_case) return;
      trace();
    }
  outcome(fmt("%.12g", y.empty() ? 0. : y[y.size() / 2]));
  sample(S().cur);
}

int main(int argc, char **argv)
{
  init(&argc, &argv);
  int R = thorough() ? 5 : 3, N2 = thorough() ? 7 : 5, N3 = thorough() ? 4 : 3;
  for (int i = 2; i <= N2; ++i) for (int j = 2; j <= N2; ++j) for (int q = 0; q < 4; ++q)
    for (int rx = 1; rx <= R; ++rx) for (int ry = 1; ry <= R; ++ry)
      one<2>({i, j}, {q & 1, q >> 1}, {rx, ry}, i + j <= (thorough() ? 7 : 5));
  for (int i = 2; i <= N3; ++i) for (int j = 2; j <= N3; ++j) for (int k = 2; k <= N3; ++k) for (int q = 0; q < 8; ++q)
    for (int rx = 1; rx <= 2; ++rx) for (int ry = 1; ry <= 2; ++ry) for (int rz = 1; rz <= 2; ++rz)
      one<3>({i, j, k}, {q & 1, q >> 1 & 1, q >> 2}, {rx, ry + (rx > 1), rz}, false);
  return finish();
}
