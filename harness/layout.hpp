// Natural (global, rank independent) numbering of the unknowns of a mesh, computed from
// DMDAGetCorners only, so that vectors of any decomposition can be compared with the
// reference model.  Velocity first (component fastest, then x, y[, z]), then pressure.
#pragma once
#include "common.hpp"
#include "ref.hpp"

namespace vp
{
  struct Layout
  {
    std::vector<size_t> loc;  // local entry -> natural index
    size_t N = 0;             // all unknowns
    size_t Nv = 0;            // velocity unknowns (composite) or all
    void add(DM da)
    {
      PetscInt xs, ys, zs, xm, ym, zm, M, Nn, P, dof, dim;
      DMDAGetCorners(da, &xs, &ys, &zs, &xm, &ym, &zm);
      DMDAGetInfo(da, &dim, &M, &Nn, &P, 0, 0, 0, &dof, 0, 0, 0, 0, 0);
      for (int k = zs; k < zs + zm; ++k) for (int j = ys; j < ys + ym; ++j) for (int i = xs; i < xs + xm; ++i)
        for (int d = 0; d < dof; ++d) loc.push_back(N + ((size_t(k) * Nn + j) * M + i) * dof + d);
      N += size_t(M) * Nn * P * dof;
    }
    Layout() {}
    Layout(DM dm)
    {
      PetscBool comp; PetscObjectTypeCompare((PetscObject)dm, DMCOMPOSITE, &comp);
      if (comp)
      {
        PetscInt n; DMCompositeGetNumberDM(dm, &n);
        std::vector<DM> d(n); DMCompositeGetEntriesArray(dm, d.data());
        for (int i = 0; i < n; ++i) { add(d[i]); if (i == 0) Nv = N; }
      }
      else { add(dm); Nv = N; }
    }
    std::vector<double> gather(Vec v) const
    {
      std::vector<double> r(N, 0.), out(N, 0.);
      const PetscScalar *a; VecGetArrayRead(v, &a);
      for (size_t i = 0; i < loc.size(); ++i) r[loc[i]] = a[i];
      VecRestoreArrayRead(v, &a);
      MPI_Allreduce(r.data(), out.data(), (int)N, MPI_DOUBLE, MPI_SUM, PETSC_COMM_WORLD);
      return out;
    }
    void scatter(std::vector<double> const &x, Vec v) const
    {
      PetscScalar *a; VecGetArray(v, &a);
      for (size_t i = 0; i < loc.size(); ++i) a[i] = x[loc[i]];
      VecRestoreArray(v, &a);
    }
    void unit(size_t k, Vec v, double value = 1.) const
    {
      PetscScalar *a; VecGetArray(v, &a);
      for (size_t i = 0; i < loc.size(); ++i) a[i] = loc[i] == k ? value : 0.;
      VecRestoreArray(v, &a);
    }
    template<typename F> void unchanged(Vec v, F &&f) const
    {
      const PetscScalar *a; VecGetArrayRead(v, &a);
      bool ok = true;
      for (size_t i = 0; i < loc.size(); ++i) ok = ok && a[i] == f(loc[i]);
      VecRestoreArrayRead(v, &a);
      expect(ok, "the argument of the operator was changed");
    }
    // dense matrix of a linear map given as apply(x, y)
    template<typename F> ref::Dense probe(DM dm, F &&apply) const
    {
      Vec x, y; DMCreateGlobalVector(dm, &x); VecDuplicate(x, &y);
      ref::Dense A(N, N);
      for (size_t k = 0; k < N; ++k)
      {
        unit(k, x);
        apply(x, y); op();
        auto c = gather(y);
        for (size_t i = 0; i < N; ++i) A(i, k) = c[i];
        unchanged(x, [&](size_t i) { return i == k ? 1. : 0.; });
      }
      // a dense vector: linearity, and again no trace in the argument
      auto f = [](size_t i) { return std::sin(1.3 * i) + .1 * (i % 7); };
      std::vector<double> X(N); for (size_t i = 0; i < N; ++i) X[i] = f(i);
      scatter(X, x);
      VecSet(y, -3.);
      apply(x, y); op();
      unchanged(x, f);
      auto c = gather(y);
      double sc = 0.; for (double v : A.a) sc = std::max(sc, std::fabs(v));
      for (size_t i = 0; i < N; ++i)
      {
        double w = 0.; for (size_t k = 0; k < N; ++k) w += A(i, k) * X[k];
        S().comparisons++;
        if (!(std::fabs(c[i] - w) <= 1e-11 * sc)) { fail(fmt("applied to a dense vector: entry %zu = %.15g, want %.15g by linearity", i, c[i], w)); break; }
      }
      VecDestroy(&x); VecDestroy(&y);
      return A;
    }
  };

  // compare two dense matrices entry by entry; tolerance relative to the largest reference entry
  inline void expect_same(ref::Dense const &got, ref::Dense const &want, double tol, std::string const &what)
  {
    if (got.n != want.n || got.m != want.m) { fail(what + fmt(": size %zux%zu, want %zux%zu", got.n, got.m, want.n, want.m)); return; }
    double sc = 0.; for (double v : want.a) sc = std::max(sc, std::fabs(v));
    S().comparisons += got.a.size();
    for (size_t i = 0; i < got.n; ++i) for (size_t j = 0; j < got.m; ++j)
      if (!(std::fabs(got(i, j) - want(i, j)) <= tol * sc))
      {
        fail(what + fmt(": entry (%zu,%zu) = %.12g, want %.12g", i, j, got(i, j), want(i, j)));
        return;
      }
  }
  inline void expect_same(std::vector<double> const &got, std::vector<double> const &want, double tol, std::string const &what, double scale = 0.)
  {
    if (got.size() != want.size()) { fail(what + fmt(": size %zu, want %zu", got.size(), want.size())); return; }
    double sc = scale; for (double v : want) sc = std::max(sc, std::fabs(v));
    S().comparisons += got.size();
    for (size_t i = 0; i < got.size(); ++i)
      if (!(std::fabs(got[i] - want[i]) <= tol * sc))
      {
        fail(what + fmt(": entry %zu = %.15g, want %.15g", i, got[i], want[i]));
        return;
      }
  }
  template<int D> std::string show(std::array<int, D> const &a) { std::string s; for (int d = 0; d < D; ++d) s += (d ? "x" : "") + std::to_string(a[d]); return s; }
}

namespace vp
{
  // Does PETSc itself accept this pressure grid on this number of processes?  (It refuses
  // decompositions with more processes than nodes in a direction; that is not cafes' doing.)
  template<int D> bool feasible(std::array<int, D> np_)
  {
    auto e = S().petsc_errors; auto m = S().petsc_msg;
    DM da; PetscErrorCode err;
    if (D == 2) DMDACreate2d(PETSC_COMM_WORLD, DM_BOUNDARY_NONE, DM_BOUNDARY_NONE, DMDA_STENCIL_BOX, np_[0], np_[1], PETSC_DECIDE, PETSC_DECIDE, 1, 1, 0, 0, &da);
    else DMDACreate3d(PETSC_COMM_WORLD, DM_BOUNDARY_NONE, DM_BOUNDARY_NONE, DM_BOUNDARY_NONE, DMDA_STENCIL_BOX, np_[0], np_[1], np_[D - 1], PETSC_DECIDE, PETSC_DECIDE, PETSC_DECIDE, 1, 1, 0, 0, 0, &da);
    err = DMSetUp(da);
    if (!err) DMDestroy(&da);
    S().petsc_errors = e; S().petsc_msg = m;
    return !err;
  }
}
