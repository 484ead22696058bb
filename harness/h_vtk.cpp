// Property: the pieces and the list of pieces save_VTK writes are the solution on its mesh, and
// saveParticles writes the particles.  The VTK library is a stand-in that records (vtk/): every
// mesh, periodicity and process count of the bound, two saves with different values; crowds.
#include "common.hpp"
#include <cafes.hpp>
#include <io/vtk.hpp>
#include "layout.hpp"
#include "xml.hpp"
#include <sys/stat.h>
using namespace vp;
namespace fem = cafes::fem;
using cafes::geometry::vector;

static std::string dir()
{
  static std::string d;
  if (d.empty())
  {
    const char *s = std::getenv("VP_SCRATCH");
    d = std::string(s ? s : "/tmp") + "/vtk";
    if (!S().rank) mkdir(d.c_str(), 0755);
    MPI_Barrier(PETSC_COMM_WORLD);
  }
  return d;
}
static std::string base(std::string s) { while (!s.compare(0, 2, "./")) s = s.substr(2); return s; }

// everything one save must have left: x are the values of all unknowns
template<int D> void judge(std::string const &name, Layout const &L, std::vector<double> const &x, std::array<int, D> n, std::array<int, D> per, std::array<double, D> h, DM dm)
{
  for (auto &e : vtkrec::errors()) fail("VTK was misused: " + e);
  vtkrec::errors().clear();
  auto files = vtkrec::files();
  vtkrec::files().clear();
  DM da[2]; DMCompositeGetEntriesArray(dm, da);
  for (int g = 0; g < 2; ++g)
  {
    std::string field = g ? "pressure" : "velocity";
    int comp = g ? 1 : D;
    std::array<int, 3> m{{1, 1, 1}};
    for (int d = 0; d < D; ++d) m[d] = g ? n[d] : per[d] ? 2 * n[d] : 2 * n[d] - 1;
    std::string mine = dir() + "/" + name + "_" + field + "_" + std::to_string(S().rank) + ".vts";
    vtkrec::File const *f = nullptr; int count = 0;
    for (auto &k : files) if (k.path == mine) { f = &k; ++count; }
    expect(count == 1, fmt("%s written %d times", mine.c_str(), count));
    std::vector<double> ext(6, 0.);
    if (f && f->extent.size() == 6)
    {
      auto &e = f->extent;
      for (int k = 0; k < 6; ++k) ext[k] = e[k];
      long np_ = long(e[1] - e[0] + 1) * (e[3] - e[2] + 1) * (e[5] - e[4] + 1);
      expect((long)f->points.size() == 3 * np_, fmt("%s: %zu points on an extent of %ld", field.c_str(), f->points.size() / 3, np_));
      vtkrec::Array const *a = nullptr;
      for (auto &b : f->arrays) if (b.name == field) a = &b;
      int vc = g ? 1 : 3;
      expect(a && a->comp == vc && (long)a->v.size() == vc * np_, field + ": no array of this name with a value for every point");
      if (a && a->comp == vc && (long)a->v.size() == vc * np_ && (long)f->points.size() == 3 * np_)
      {
        long at = 0;
        for (int k = e[4]; k <= e[5]; ++k) for (int j = e[2]; j <= e[3]; ++j) for (int i = e[0]; i <= e[1]; ++i, ++at)
        {
          int I[3] = {i, j, k}; bool in = true;
          std::array<int, 3> w;
          for (int d = 0; d < 3; ++d)
          {
            w[d] = I[d];
            if (d < D && per[d]) w[d] = ((I[d] % m[d]) + m[d]) % m[d];
            in = in && w[d] >= 0 && w[d] < m[d];
          }
          if (!in) { fail(fmt("%s: node %d,%d,%d outside the mesh", field.c_str(), i, j, k)); continue; }
          for (int d = 0; d < 3; ++d)
          {
            double want = d < D ? I[d] * h[d] * (g ? 2. : 1.) : 0.;
            S().comparisons++;
            if (!(std::fabs(f->points[3 * at + d] - want) <= 1e-6 * (1. + std::fabs(want)))) { fail(fmt("%s: coordinate %d of node %d,%d,%d is %g, want %g", field.c_str(), d, i, j, k, f->points[3 * at + d], want)); break; }
          }
          size_t node = (size_t(w[2]) * m[1] + w[1]) * m[0] + w[0];
          for (int c = 0; c < vc; ++c)
          {
            double want = c < comp ? x[(g ? L.Nv : 0) + node * comp + c] : 0.;
            S().comparisons++;
            if (a->v[at * vc + c] != want) { fail(fmt("%s: component %d on node %d,%d,%d is %.17g, want %.17g", field.c_str(), c, i, j, k, a->v[at * vc + c], want)); break; }
          }
        }
      }
      // all of the process's own nodes
      PetscInt s[3], q[3]; DMDAGetCorners(da[g], &s[0], &s[1], &s[2], &q[0], &q[1], &q[2]);
      for (int d = 0; d < D; ++d) expect(e[2 * d] <= s[d] && e[2 * d + 1] >= s[d] + q[d] - 1, field + ": a process's nodes are not in its piece");
    }
    else fail(field + ": no grid in the file");
    // the list of pieces
    std::vector<double> all(6 * np());
    MPI_Allgather(ext.data(), 6, MPI_DOUBLE, all.data(), 6, MPI_DOUBLE, PETSC_COMM_WORLD);
    if (S().rank) continue;
    std::ifstream in(dir() + "/" + name + "_" + field + ".pvts");
    if (!in) { fail("no list of pieces (.pvts) of the " + field); continue; }
    Parser p; p.s.assign(std::istreambuf_iterator<char>(in), {});
    p.prolog(); Xml r = p.element(); p.ws();
    if (p.bad || p.i != p.s.size() || r.tag != "VTKFile") { fail(".pvts is not well formed"); continue; }
    auto *sg = r.first("PStructuredGrid");
    expect(r.at("type") == "PStructuredGrid" && sg, ".pvts is no list of structured pieces");
    if (!sg) continue;
    std::vector<double> whole; for (int d = 0; d < 3; ++d) { whole.push_back(0); whole.push_back(m[d] - 1); }
    expect(numbers(sg->at("WholeExtent")) == whole, fmt(".pvts of the %s: extent \"%s\" of a mesh of %d,%d,%d nodes", field.c_str(), sg->at("WholeExtent").c_str(), m[0], m[1], m[2]));
    auto *pd = sg->first("PPointData"); auto *da_ = pd ? pd->first("PDataArray") : nullptr;
    expect(da_ && da_->at("Name") == field && da_->at("type") == "Float64" && (g ? da_->at("NumberOfComponents").empty() || da_->at("NumberOfComponents") == "1" : da_->at("NumberOfComponents") == "3"), ".pvts declares another array than the pieces have");
    if (pd) expect(pd->at(g ? "Scalars" : "Vectors") == field, ".pvts: " + field + " is not announced");
    auto *pp = sg->first("PPoints"); auto *pa = pp ? pp->first("PDataArray") : nullptr;
    expect(pa && pa->at("type") == "Float32" && pa->at("NumberOfComponents") == "3", ".pvts declares other points than the pieces have");
    std::set<int> seen; std::vector<std::vector<double>> pieces;
    for (auto &s : sg->sub) if (s.tag == "Piece")
    {
      auto e = numbers(s.at("Extent"));
      std::string src = base(s.at("Source"));
      int rk = -1; for (int k = 0; k < np(); ++k) if (src == name + "_" + field + "_" + std::to_string(k) + ".vts") rk = k;
      if (rk < 0) { fail(".pvts names a file nobody writes: " + src); continue; }
      expect(seen.insert(rk).second, ".pvts names a piece twice");
      expect(e == std::vector<double>(all.begin() + 6 * rk, all.begin() + 6 * rk + 6), fmt(".pvts: %s has the extent \"%s\", the file another", src.c_str(), s.at("Extent").c_str()));
      pieces.push_back(e);
    }
    expect((int)seen.size() == np(), ".pvts does not name every piece");
    // every cell of the mesh is in a piece
    for (int k = 0; k < std::max(1, m[2] - 1); ++k) for (int j = 0; j < m[1] - 1; ++j) for (int i = 0; i < m[0] - 1; ++i)
    {
      int c[3] = {i, j, k}; bool any = false;
      for (auto &e : pieces) { bool ok = e.size() == 6; for (int d = 0; ok && d < D; ++d) ok = e[2 * d] <= c[d] && c[d] + 1 <= e[2 * d + 1]; any = any || ok; }
      S().comparisons++;
      if (!any) { fail(fmt("%s: cell %d,%d,%d is in no piece", field.c_str(), i, j, k)); k = j = i = 1 << 20; }
    }
  }
  for (auto &f : files) if (f.path.find("_" + std::to_string(S().rank) + ".vts") == std::string::npos) fail("unexpected file " + f.path);
}

template<int D> void mesh(std::array<int, D> n, std::array<int, D> per)
{
  if (!feasible<D>(n)) { note("refused by PETSc"); return; }
  if (!begin_case(fmt("np=%d mesh %s per=%s", np(), show<D>(n).c_str(), show<D>(per).c_str()))) return;
  std::array<PetscInt, D> mx; std::array<PetscBool, D> pb; std::array<double, D> h;
  for (int d = 0; d < D; ++d) { mx[d] = n[d] + per[d]; pb[d] = per[d] ? PETSC_TRUE : PETSC_FALSE; h[d] = .25 / (d + 1); }
  DM dm; fem::createMesh<D>(dm, mx, pb);
  Layout L(dm);
  Vec v; DMCreateGlobalVector(dm, &v);
  for (int save = 0; save < 2; ++save)
  {
    std::vector<double> x(L.N); for (size_t i = 0; i < L.N; ++i) x[i] = save ? std::cos(.7 * i) + i : 1. / (i + 1.);
    L.scatter(x, v);
    std::string name = save ? "other" : fmt("sol%dd", D);
    auto e = cafes::io::save_VTK(dir().c_str(), name.c_str(), v, dm, h); op();
    if (e) fail("save_VTK returned an error");
    MPI_Barrier(PETSC_COMM_WORLD);
    judge<D>(name, L, x, n, per, h, dm);
    L.unchanged(v, [&](size_t i) { return x[i]; });
    MPI_Barrier(PETSC_COMM_WORLD);
    outcome(fmt("%d %s %s %d", D, show<D>(n).c_str(), show<D>(per).c_str(), save));
  }
  sample(fmt("%dD mesh %s on %d processes: two saves, %zu unknowns", D, show<D>(n).c_str(), np(), L.N));
  trace();
  VecDestroy(&v); DMDestroy(&dm);
}

static cafes::particle<cafes::geometry::circle<>> ball(std::array<double, 2> c, double r) { return cafes::make_particle_with_velocity(cafes::make_circle({c[0], c[1]}, r), {0., 0.}, 0.); }
static cafes::particle<cafes::geometry::sphere<>> ball(std::array<double, 3> c, double r) { return cafes::make_particle_with_velocity(cafes::make_sphere({c[0], c[1], c[2]}, r), {0., 0., 0.}, {0., 0., 0.}); }
static void set(std::vector<double> &t, int i, double const *w) { t[i] = w[0]; }
static void set(std::vector<vector<double, 3>> &t, int i, double const *w) { for (int c = 0; c < 3; ++c) t[i][c] = w[c]; }
template<int D> void crowd(int count, int forces)
{
  if (!begin_case(fmt("np=%d %dD %d particles%s", np(), D, count, forces ? " with forces" : ""))) return;
  std::vector<decltype(ball(std::array<double, D>{}, 1.))> pt;
  std::vector<vector<double, D>> F(count);
  typename std::conditional<D == 2, std::vector<double>, std::vector<vector<double, 3>>>::type T(count);
  std::vector<double> C, R, FF, TT;
  for (int i = 0; i < count; ++i)
  {
    std::array<double, D> c; double w[3], f[3] = {0., 0., 0.};
    for (int d = 0; d < D; ++d) c[d] = 1. / (1 + i + 3 * d);
    double r = .1 * (i + 1);
    pt.push_back(ball(c, r));
    for (int d = 0; d < D; ++d) F[i][d] = f[d] = 10. * i + d + .5;
    for (int d = 0; d < 3; ++d) w[d] = -3. * i + d - .25;
    set(T, i, w);
    for (int d = 0; d < 3; ++d) { C.push_back(d < D ? c[d] : 0.); FF.push_back(f[d]); }
    for (int d = 0; d < (D == 2 ? 1 : 3); ++d) TT.push_back(w[d]);
    R.push_back(r);
  }
  PetscErrorCode e = forces ? cafes::io::saveParticles(dir().c_str(), "crowd", pt, F, T) : cafes::io::saveParticles(dir().c_str(), "crowd", pt);
  op();
  if (e) fail("saveParticles returned an error");
  for (auto &m : vtkrec::errors()) fail("VTK was misused: " + m);
  auto files = vtkrec::files(); vtkrec::files().clear(); vtkrec::errors().clear();
  expect((int)files.size() == (S().rank == 0), "number of files");
  if (S().rank || files.size() != 1) return;
  auto &f = files[0];
  expect(f.path == dir() + "/crowd_particles.vtp" && f.poly, "name of the file");
  expect(f.points == C, "places of the particles");
  auto has = [&](const char *n, int comp, std::vector<double> const &want) {
    vtkrec::Array const *a = nullptr; for (auto &b : f.arrays) if (b.name == n) a = &b;
    expect(a && a->comp == comp && a->v == want, fmt("%s of the particles", n));
  };
  has("radius", 1, R);
  if (forces) { has("forces", 3, FF); has("torques", D == 2 ? 1 : 3, TT); }
  trace(); outcome(fmt("%d %d %d", D, count, forces));
}

int main(int argc, char **argv)
{
  init(&argc, &argv);
  int N2 = thorough() ? 7 : 5, N3 = thorough() ? 4 : 3;
  for (int a = 2; a <= N2; ++a) for (int b = 2; b <= N2; ++b) for (int p = 0; p < 4; ++p) mesh<2>({a, b}, {p & 1, p >> 1});
  for (int a = 2; a <= N3; ++a) for (int b = 2; b <= N3; ++b) for (int c = 2; c <= N3 + 1; ++c) for (int p = 0; p < 8; ++p) mesh<3>({a, b, c}, {p & 1, p >> 1 & 1, p >> 2});
  for (int k = 0; k < 5; ++k) for (int f = 0; f < 2; ++f) { crowd<2>(k, f); crowd<3>(k, f); }
  return finish();
}
