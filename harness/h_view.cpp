// Property: a field view (petsc_vec) is a window on one field of the global vector.
// Every sequence of operations up to a depth, on the real view and on a model that keeps the
// global field and every process's local window as plain arrays.
#include "common.hpp"
#include <cafes.hpp>
#include "layout.hpp"
using namespace vp;
namespace fem = cafes::fem;

struct Window { int g0[3], gn[3], o0[3], on[3]; };   // ghosted and owned boxes of one process

template<int D> struct Model
{
  int n[3] = {1, 1, 1}, dof = 1;
  bool per[3] = {false, false, false};
  int procs[3] = {1, 1, 1};
  std::vector<Window> w;
  std::vector<double> G;                 // the field, natural order
  std::vector<std::vector<double>> L;    // local windows
  size_t node(const int *i) const
  {
    int j[3];
    for (int d = 0; d < 3; ++d) j[d] = ((i[d] % n[d]) + n[d]) % n[d];
    return (size_t(j[2]) * n[1] + j[1]) * n[0] + j[0];
  }
  template<typename F> void local(int r, F &&f) const   // f(index in the window, node, owned, position)
  {
    auto &b = w[r];
    size_t k = 0;
    int i[3];
    for (i[2] = b.g0[2]; i[2] < b.g0[2] + b.gn[2]; ++i[2]) for (i[1] = b.g0[1]; i[1] < b.g0[1] + b.gn[1]; ++i[1]) for (i[0] = b.g0[0]; i[0] < b.g0[0] + b.gn[0]; ++i[0], ++k)
    {
      bool own = true;
      for (int d = 0; d < 3; ++d) own = own && i[d] >= b.o0[d] && i[d] < b.o0[d] + b.on[d];
      f(k, node(i), own, i);
    }
  }
};

static const char *names[] = {"fill", "set owned", "set all", "l2g add", "l2g insert", "g2l insert", "g2l add", "fill global", "set global", "reopen"};
enum { NOPS = 10 };

template<int D> struct Run
{
  DM dm, da; int entry; Vec v;
  Model<D> m;
  std::vector<double> rest;      // all unknowns of the vector at the beginning
  Layout L; size_t off = 0;
  std::unique_ptr<cafes::petsc::petsc_vec<D>> view;
  std::vector<int> seq;
  int depth;
  bool stop = false;

  std::string path() const { std::string s; for (int o : seq) s += std::string(s.empty() ? "" : ", ") + names[o]; return s; }
  cafes::geometry::position<int, D> pos(const int *i) const { cafes::geometry::position<int, D> p; for (int d = 0; d < D; ++d) p[d] = i[d]; return p; }
  std::array<int, D> arr(const int *i) const { std::array<int, D> p; for (int d = 0; d < D; ++d) p[d] = i[d]; return p; }

  bool insert_allowed() const
  {
    for (int d = 0; d < D; ++d) if (m.per[d] && m.procs[d] == 1) return false;   // refused by PETSc
    return true;
  }

  void apply(int o)
  {
    int r = S().rank, step = (int)seq.size();
    PetscErrorCode e = 0;
    switch (o)
    {
    case 0: e = view->fill(step + 2.); for (auto &l : m.L) for (auto &x : l) x = step + 2.; break;
    case 1: case 2:
      for (int q = 0; q < np(); ++q) m.local(q, [&](size_t k, size_t nd, bool own, const int *i) {
        if (o == 1 && !own) return;
        for (int c = 0; c < m.dof; ++c)
        {
          double x = o == 1 ? 100. * step + 3. * nd + c : 1000. * (q + 1) + 37. * step + 5. * k + c;
          m.L[q][k * m.dof + c] = x;
          if (q == r) { if (o == 1) view->at(pos(i))[c] = x; else view->at(arr(i))[c] = x; }
        }
      });
      break;
    case 3:
      e = view->local_to_global(ADD_VALUES);
      for (int q = 0; q < np(); ++q) m.local(q, [&](size_t k, size_t nd, bool, const int *) { for (int c = 0; c < m.dof; ++c) m.G[nd * m.dof + c] += m.L[q][k * m.dof + c]; });
      break;
    case 4:
      e = view->local_to_global(INSERT_VALUES);
      for (int q = 0; q < np(); ++q) m.local(q, [&](size_t k, size_t nd, bool own, const int *) { if (own) for (int c = 0; c < m.dof; ++c) m.G[nd * m.dof + c] = m.L[q][k * m.dof + c]; });
      break;
    case 5: case 6:
      e = view->global_to_local(o == 5 ? INSERT_VALUES : ADD_VALUES);
      for (int q = 0; q < np(); ++q) m.local(q, [&](size_t k, size_t nd, bool, const int *) { for (int c = 0; c < m.dof; ++c) { auto &x = m.L[q][k * m.dof + c]; x = (o == 6 ? x : 0.) + m.G[nd * m.dof + c]; } });
      break;
    case 7: e = view->fill_global(-step - 5.); for (auto &x : m.G) x = -step - 5.; break;
    case 8:
      for (int q = 0; q < np(); ++q) m.local(q, [&](size_t, size_t nd, bool own, const int *i) {
        if (!own) return;
        for (int c = 0; c < m.dof; ++c) { double x = 7. * step - 2. * nd + 11. * c; m.G[nd * m.dof + c] = x; if (q == r) view->at_g(pos(i))[c] = x; }
      });
      break;
    case 9:
      view.reset();
      view.reset(new cafes::petsc::petsc_vec<D>(dm, v, entry, false));
      e = view->fill(0.); for (auto &l : m.L) for (auto &x : l) x = 0.;
      break;
    }
    seq.push_back(o);
    op();
    if (e) { fail("an operation returned an error after: " + path()); stop = true; }
  }

  void judge()
  {
    int r = S().rank, bad = 0;
    auto const &cv = *view;
    m.local(r, [&](size_t k, size_t nd, bool own, const int *i) {
      for (int c = 0; c < m.dof; ++c)
      {
        S().comparisons++;
        double got = cv.at(pos(i))[c], got2 = cv.at(arr(i))[c], want = m.L[r][k * m.dof + c];
        if (!(got == want && got2 == want) && !bad++) fail(fmt("local value of node %zu component %d is %g, want %g after: %s", nd, c, got, want, path().c_str()));
        if (own)
        {
          double g = cv.at_g(pos(i))[c];
          if (!(g == m.G[nd * m.dof + c]) && !bad++) fail(fmt("value of node %zu component %d is %g, want %g after: %s", nd, c, g, m.G[nd * m.dof + c], path().c_str()));
        }
      }
    });
    int any; MPI_Allreduce(&bad, &any, 1, MPI_INT, MPI_SUM, PETSC_COMM_WORLD);
    if (any) stop = true;
    outcome(fmt("%zu:%g", seq.size(), m.G[0]));
  }
  // the other field of the vector is what it was, this one is the model's, seen without the view
  void judge_vector()
  {
    auto x = L.gather(v);
    for (size_t i = 0; i < x.size(); ++i)
    {
      S().comparisons++;
      bool in = i >= off && i < off + m.G.size();
      double want = in ? m.G[i - off] : rest[i];
      if (!(x[i] == want)) { fail(fmt("%s of the vector: entry %zu is %g, want %g after: %s", in ? "field" : "other field", i, x[i], want, path().c_str())); stop = true; break; }
    }
  }
  void restore(Model<D> const &s)
  {
    m = s;
    int r = S().rank;
    m.local(r, [&](size_t k, size_t nd, bool own, const int *i) { for (int c = 0; c < m.dof; ++c) { view->at(pos(i))[c] = m.L[r][k * m.dof + c]; if (own) view->at_g(pos(i))[c] = m.G[nd * m.dof + c]; } });
  }
  void explore()
  {
    if ((int)seq.size() == depth) { trace(); return; }
    auto keep = m;
    for (int o = 0; o < NOPS && !stop; ++o)
    {
      if (o == 4 && !insert_allowed()) continue;
      apply(o);
      if (stop) return;
      judge();
      if (stop) return;
      explore();
      if (stop) return;
      seq.pop_back();
      restore(keep);
    }
  }
};

template<int D> void one(std::array<int, D> n, std::array<int, D> per, int kind, int depth)
{
  // kind 0: velocity of the composite, 1: pressure of the composite, 2: velocity grid alone
  if (!feasible<D>(ref::Grid<D>{n, per, {}}.np())) { note("refused by PETSc"); return; }
  if (!begin_case(fmt("np=%d dim=%d n=%s per=%s view=%d depth=%d", np(), D, show<D>(n).c_str(), show<D>(per).c_str(), kind, depth))) return;
  std::array<PetscBool, D> p; for (int d = 0; d < D; ++d) p[d] = per[d] ? PETSC_TRUE : PETSC_FALSE;
  DM mesh; auto nn = n;
  fem::createMesh<D>(mesh, nn, p);
  Run<D> R;
  DM das[2]; DMCompositeGetEntriesArray(mesh, das);
  R.entry = kind == 1; R.da = das[R.entry];
  R.dm = kind == 2 ? R.da : mesh;
  R.depth = depth;
  DMCreateGlobalVector(R.dm, &R.v);
  R.L = Layout(R.dm);
  R.off = kind == 1 ? R.L.Nv : 0;
  R.rest.resize(R.L.N); for (size_t i = 0; i < R.rest.size(); ++i) R.rest[i] = 13. + 2. * i;
  R.L.scatter(R.rest, R.v);
  auto &m = R.m;
  PetscInt dim, N[3], P[3], dof, sw;
  DMDAGetInfo(R.da, &dim, &N[0], &N[1], &N[2], &P[0], &P[1], &P[2], &dof, &sw, 0, 0, 0, 0);
  for (int d = 0; d < D; ++d) { m.n[d] = N[d]; m.per[d] = per[d]; m.procs[d] = P[d]; }
  m.dof = kind == 1 ? 1 : D;
  size_t cells = size_t(m.n[0]) * m.n[1] * m.n[2];
  Window me; PetscInt a[3], b[3];
  DMDAGetCorners(R.da, &a[0], &a[1], &a[2], &b[0], &b[1], &b[2]);
  for (int d = 0; d < 3; ++d) { me.o0[d] = a[d]; me.on[d] = b[d]; }
  DMDAGetGhostCorners(R.da, &a[0], &a[1], &a[2], &b[0], &b[1], &b[2]);
  for (int d = 0; d < 3; ++d) { me.g0[d] = a[d]; me.gn[d] = b[d]; }
  m.w.resize(np());
  MPI_Allgather(&me, sizeof me, MPI_BYTE, m.w.data(), sizeof me, MPI_BYTE, PETSC_COMM_WORLD);
  m.G.assign(R.rest.begin() + R.off, R.rest.begin() + R.off + cells * m.dof);
  for (auto &w : m.w) m.L.emplace_back(size_t(w.gn[0]) * w.gn[1] * w.gn[2] * m.dof, 0.);
  if (!R.insert_allowed()) note("insertion refused by PETSc");
  R.view.reset(new cafes::petsc::petsc_vec<D>(R.dm, R.v, R.entry, false));
  R.view->fill(0.);
  R.explore();
  if (!R.stop)
  {
    // one sequence per last operation with a look at the whole vector
    for (int o = 0; o < NOPS && !R.stop; ++o)
      for (int q = 0; q < NOPS && !R.stop; ++q)
      {
        if ((o == 4 || q == 4) && !R.insert_allowed()) continue;
        R.seq.clear();
        R.apply(2); if (R.stop) break;
        R.apply(o); if (R.stop) break;
        R.apply(q); if (R.stop) break;
        R.view.reset();
        R.judge_vector();
        // read only view of the same vector
        {
          cafes::petsc::petsc_vec<D> ro(R.dm, R.v, R.entry);
          if (ro.global_to_local(INSERT_VALUES)) fail("global_to_local of a read only view returned an error");
          auto const &c = ro;
          bool ok = true;
          m.local(S().rank, [&](size_t, size_t nd, bool own, const int *i) { for (int k = 0; k < m.dof; ++k) ok = ok && c.at(R.pos(i))[k] == m.G[nd * m.dof + k] && (!own || c.at_g(R.pos(i))[k] == m.G[nd * m.dof + k]); });
          expect(ok, "read only view after: " + R.path());
        }
        R.view.reset(new cafes::petsc::petsc_vec<D>(R.dm, R.v, R.entry, false));
        R.view->fill(0.); for (auto &l : m.L) for (auto &x : l) x = 0.;
        op(2); trace();
      }
  }
  R.view.reset();
  VecDestroy(&R.v); DMDestroy(&mesh);
  sample(S().cur);
}

int main(int argc, char **argv)
{
  init(&argc, &argv);
  int d2 = thorough() ? 5 : 4, d3 = thorough() ? 3 : 2;
  for (int kind = 0; kind < 3; ++kind)
  {
    for (int p = 0; p < 4; ++p) { one<2>({3, 4}, {p & 1, p >> 1}, kind, d2); one<2>({5, 3}, {p & 1, p >> 1}, kind, d2); }
    for (int p = 0; p < 8; ++p) one<3>({3, 4, 3}, {p & 1, p >> 1 & 1, p >> 2}, kind, d3);
  }
  return finish();
}
