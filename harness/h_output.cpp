// Property: saved files hold the solution, node by node, and their description fits them.
// Every mesh, periodicity and process count of the bound; histories: save, save again over the
// same name (smaller, larger mesh), several names.
#include "common.hpp"
#include <cafes.hpp>
#include "layout.hpp"
#include "xml.hpp"
#include <hdf5.h>
#include <sys/stat.h>
#include <fstream>
using namespace vp;
namespace fem = cafes::fem;

static std::string dir()
{
  static std::string d;
  if (d.empty())
  {
    const char *s = std::getenv("VP_SCRATCH");
    d = std::string(s ? s : "/tmp") + "/save";
    if (!S().rank) mkdir(d.c_str(), 0755);
    MPI_Barrier(PETSC_COMM_WORLD);
  }
  return d;
}

struct Data { std::vector<long> dims; std::vector<double> v; bool ok = false; };

static Data read(std::string const &file, std::string const &name)
{
  Data r;
  hid_t f = H5Fopen(file.c_str(), H5F_ACC_RDONLY, H5P_DEFAULT);
  if (f < 0) return r;
  if (H5Lexists(f, name.c_str(), H5P_DEFAULT) > 0)
  {
    hid_t ds = H5Dopen2(f, name.c_str(), H5P_DEFAULT), sp = H5Dget_space(ds);
    int n = H5Sget_simple_extent_ndims(sp);
    std::vector<hsize_t> d(n); H5Sget_simple_extent_dims(sp, d.data(), nullptr);
    size_t N = 1; for (auto x : d) { r.dims.push_back((long)x); N *= x; }
    r.v.resize(N);
    r.ok = H5Dread(ds, H5T_NATIVE_DOUBLE, H5S_ALL, H5S_ALL, H5P_DEFAULT, r.v.data()) >= 0;
    H5Sclose(sp); H5Dclose(ds);
  }
  H5Fclose(f);
  return r;
}

// the description names every array with its true extents (slowest direction first, as XDMF has
// it), on a grid that has these nodes at these places
template<int D> void description(std::string const &d, std::string const &name, std::array<int, D> nv, std::array<int, D> np_, std::array<double, D> h)
{
  std::ifstream in(d + "/" + name + ".xdmf");
  if (!in) { fail("no .xdmf file"); return; }
  Parser p; p.s.assign(std::istreambuf_iterator<char>(in), {});
  p.prolog();
  Xml x = p.element();
  p.ws();
  if (p.bad || p.i != p.s.size() || x.tag != "Xdmf") { fail("the .xdmf file is not well formed"); return; }
  Xml const *dom = x.first("Domain"), *col = dom ? dom->first("Grid") : nullptr;
  if (!col) { fail(".xdmf: no grid"); return; }
  std::vector<Xml const *> grids;
  if (col->at("GridType") == "Collection") { for (auto &g : col->sub) if (g.tag == "Grid") grids.push_back(&g); }
  else for (auto &g : dom->sub) if (g.tag == "Grid") grids.push_back(&g);
  std::set<std::string> seen;
  for (auto *g : grids)
  {
    auto *topo = g->first("Topology"), *geo = g->first("Geometry");
    if (!topo || !geo) { fail(".xdmf: grid without topology or geometry"); continue; }
    std::string td = topo->at("NumberOfElements"); if (td.empty()) td = topo->at("Dimensions");
    auto t = numbers(td);
    for (auto &a : g->sub)
    {
      if (a.tag != "Attribute") continue;
      auto *item = a.first("DataItem");
      if (!item) { fail(".xdmf: attribute without data"); continue; }
      std::string n = a.at("Name");
      seen.insert(n);
      bool vel = n == "velocity";
      auto &m = vel ? nv : np_;
      double f = vel ? 1. : 2.;
      std::vector<double> want; for (int k = D; k--;) want.push_back(m[k]);
      auto wantd = want; if (vel) wantd.push_back(D);
      expect(t == want, fmt(".xdmf: grid of the %s has the extents \"%s\", it has %s nodes", n.c_str(), td.c_str(), show<D>(m).c_str()));
      auto dd = numbers(item->at("Dimensions"));
      auto slash = trim(item->text).rfind(":/");
      std::string where = trim(item->text);
      expect(where == name + ".h5:/" + n, fmt(".xdmf: %s is looked for in %s", n.c_str(), where.c_str()));
      (void)slash;
      expect(dd == wantd, fmt(".xdmf: %s has the extents \"%s\", the array is one of %s nodes", n.c_str(), item->at("Dimensions").c_str(), show<D>(m).c_str()));
      expect(a.at("Center") == "Node", ".xdmf: values are not on nodes");
      expect(a.at("AttributeType") == (vel ? "Vector" : "Scalar"), ".xdmf: type of " + n);
      auto prec = numbers(item->at("Precision"));
      expect(item->at("Format") == "HDF" && prec.size() == 1 && prec[0] == 8, ".xdmf: format of " + n);
      std::vector<std::vector<double>> val;
      for (auto &i : geo->sub) if (i.tag == "DataItem") val.push_back(numbers(i.text));
      expect(val.size() == 2 && val[0] == std::vector<double>(D, 0.), ".xdmf: origin of " + n);
      if (val.size() == 2)
      {
        bool ok = val[1].size() == D;
        for (int k = 0; ok && k < D; ++k) ok = std::fabs(val[1][k] - f * h[k]) <= 1e-5 * f * h[k];
        expect(ok, fmt(".xdmf: spacing of the %s", n.c_str()));
      }
    }
  }
  expect(seen == std::set<std::string>({"velocity", "pressure"}), ".xdmf: names of the fields");
}

template<int D> struct Mesh
{
  DM dm; Vec v; Layout L; ref::Grid<D> g;
  std::vector<double> x;
  Mesh(std::array<int, D> n, std::array<int, D> per, double shift)
  {
    std::array<PetscBool, D> p; for (int d = 0; d < D; ++d) p[d] = per[d] ? PETSC_TRUE : PETSC_FALSE;
    std::array<int, D> nn = n;
    fem::createMesh<D>(dm, nn, p);
    DMCreateGlobalVector(dm, &v);
    L = Layout(dm);
    g = ref::Grid<D>{n, per, {}};
    x.resize(L.N);
    for (size_t i = 0; i < L.N; ++i) x[i] = shift + i + 1. / (3. + i);
    L.scatter(x, v);
  }
  ~Mesh() { VecDestroy(&v); DMDestroy(&dm); }
};

template<int D> void check_file(Mesh<D> &m, std::string const &name, std::array<double, D> h)
{
  MPI_Barrier(PETSC_COMM_WORLD);
  if (!S().rank)
  {
    auto nv = m.g.nv(), np_ = m.g.np();
    auto u = read(dir() + "/" + name + ".h5", "velocity"), p = read(dir() + "/" + name + ".h5", "pressure");
    if (!u.ok || !p.ok) fail("velocity or pressure is missing in the .h5 file");
    else
    {
      std::vector<long> du, dp, dp1; for (int k = D; k--;) { du.push_back(nv[k]); dp.push_back(np_[k]); }
      dp1 = dp; dp1.push_back(1); du.push_back(D);
      expect(u.dims == du, "extents of velocity in the .h5 file");
      expect(p.dims == dp || p.dims == dp1, "extents of pressure in the .h5 file");
      std::vector<double> got = u.v; got.insert(got.end(), p.v.begin(), p.v.end());
      expect_same(got, m.x, 0., "values in the .h5 file");
      outcome(fmt("%ld x %ld", u.dims[0], u.dims[1]));
    }
    description<D>(dir(), name, nv, np_, h);
  }
  m.L.unchanged(m.v, [&](size_t i) { return m.x[i]; });
  MPI_Barrier(PETSC_COMM_WORLD);
}

template<int D> void save(Mesh<D> &m, std::string const &name, std::array<double, D> h)
{
  auto e = cafes::io::save_hdf5<D>(dir().c_str(), name.c_str(), m.v, m.dm, h);
  expect(e == 0, "save_hdf5 returned an error");
  op();
}

template<int D> void one(std::array<int, D> n, std::array<int, D> per)
{
  if (!feasible<D>(ref::Grid<D>{n, per, {}}.np())) { note("refused by PETSc"); return; }
  if (!begin_case(fmt("np=%d n=%s per=%s", np(), show<D>(n).c_str(), show<D>(per).c_str()))) return;
  // history: save, save again over it with other values, a smaller and a larger mesh over it
  std::array<double, D> h{{.125, .375}}, h2{{.0625, .01}}; if (D == 3) { h[D - 1] = .75; h2[D - 1] = .5; }
  auto m = n; m[0] += 2; m[1] += 1;
  Mesh<D> a(n, per, 0.), b(n, per, -1000.), big(m, {}, 7.);
  save<D>(a, "sol", h); check_file<D>(a, "sol", h);
  save<D>(b, "sol", h2); check_file<D>(b, "sol", h2);
  save<D>(big, "sol", h); check_file<D>(big, "sol", h);
  save<D>(a, "sol", h); save<D>(b, "other_2", h2);
  check_file<D>(a, "sol", h); check_file<D>(b, "other_2", h2);
  trace();
  sample(S().cur);
}

int main(int argc, char **argv)
{
  init(&argc, &argv);
  H5Eset_auto2(H5E_DEFAULT, nullptr, nullptr);
  int N = thorough() ? 12 : 7;
  for (int i = 2; i <= N; ++i) for (int j = 2; j <= N; ++j)
    for (int p = 0; p < 4; ++p) one<2>({i, j}, {p & 1, p >> 1});
  N = thorough() ? 6 : 4;
  for (int i = 2; i <= N; ++i) for (int j = 2; j <= N; ++j) for (int k = 2; k <= N; ++k)
    for (int p = 0; p < 8; ++p) one<3>({i, j, k}, {p & 1, (p >> 1) & 1, p >> 2});
  return finish();
}
