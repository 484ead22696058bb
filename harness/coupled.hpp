// Reference model of a fluid with rigid circles or spheres in it: dense finite element system plus the
// transfer maps, from closed-form definitions only.
#pragma once
#include "common.hpp"
#include "layout.hpp"

namespace cpl
{
  using std::size_t;
  using V = std::vector<double>;
  struct LU
  {
    ref::Dense A; std::vector<size_t> p;
    bool factor(ref::Dense const &M)
    {
      A = M; size_t n = A.n; p.resize(n);
      for (size_t k = 0; k < n; ++k)
      {
        size_t q = k; for (size_t i = k + 1; i < n; ++i) if (std::fabs(A(i, k)) > std::fabs(A(q, k))) q = i;
        if (std::fabs(A(q, k)) < 1e-13) return false;
        p[k] = q; if (q != k) for (size_t j = 0; j < n; ++j) std::swap(A(q, j), A(k, j));
        for (size_t i = k + 1; i < n; ++i)
        {
          double f = A(i, k) /= A(k, k); if (f == 0.) continue;
          for (size_t j = k + 1; j < n; ++j) A(i, j) -= f * A(k, j);
        }
      }
      return true;
    }
    V solve(V b) const
    {
      size_t n = A.n;
      for (size_t k = 0; k < n; ++k) std::swap(b[k], b[p[k]]);
      for (size_t i = 0; i < n; ++i) for (size_t j = 0; j < i; ++j) b[i] -= A(i, j) * b[j];
      for (size_t k = n; k-- > 0;) { for (size_t j = k + 1; j < n; ++j) b[k] -= A(k, j) * b[j]; b[k] /= A(k, k); }
      return b;
    }
  };
  template<int D> struct BallT { double c[D], r; };
  using Ball = BallT<2>;
  template<int D, typename X> double level(X const &x, BallT<D> const &b) { double s = 0.; for (int d = 0; d < D; ++d) s += (x[d] - b.c[d]) * (x[d] - b.c[d]); return s / (b.r * b.r); }
  template<int D> struct Surf { int part; double x[D], r[D]; std::vector<std::pair<size_t, double>> w; };
  template<int D> struct Node { int part; size_t node; double r[D]; };
  // rotations: one number in 2D, three in 3D
  template<int D> constexpr int ROT = D == 2 ? 1 : 3;
  template<int D, typename R, typename G> std::array<double, ROT<D>> moment(R const &r, G const &g)
  {
    if constexpr (D == 2) return {{r[0] * g[1] - r[1] * g[0]}};
    else return {{r[1] * g[2] - r[2] * g[1], r[2] * g[0] - r[0] * g[2], r[0] * g[1] - r[1] * g[0]}};
  }
  template<int D, typename W, typename R> std::array<double, D> turn(W const &w, R const &r)
  {
    if constexpr (D == 2) return {{-w[0] * r[1], w[0] * r[0]}};
    else return {{w[1] * r[2] - w[2] * r[1], w[2] * r[0] - w[0] * r[2], w[0] * r[1] - w[1] * r[0]}};
  }
  // 1 / mean of |r|^2 over the rotation's plane: on the surface and in the volume
  template<int D> double on_surface(double R) { return (D == 2 ? 1. : 1.5) / (R * R); }
  template<int D> double in_volume(double R) { return (D == 2 ? 2. : 2.5) / (R * R); }
  template<int D> double area(double R) { double const PI = std::acos(-1.); return D == 2 ? 2. * PI * R : 4. * PI * R * R; }
  template<int D> double volume(double R) { double const PI = std::acos(-1.); return D == 2 ? PI * R * R : 4. / 3. * PI * R * R * R; }
  template<int D, typename F, typename X> double at(F const &f, X const &x, int c) { if constexpr (D == 2) return f(x[0], x[1], c); else return f(x[0], x[1], x[2], c); }

  template<int D> struct FluidT
  {
    ref::Grid<D> g; bool strain; size_t Nv, Np, N;
    ref::Dense K, M; LU lu; std::vector<char> dir; V data;  // data: right-hand side of the fluid alone
    std::vector<BallT<D>> balls; std::vector<Surf<D>> surf; std::vector<long> nsurf; std::vector<Node<D>> ctl;
    std::vector<std::vector<std::array<double, D>>> pts; int scale = 4;

    FluidT(ref::Grid<D> const &g_, bool s) : g(g_), strain(s)
    {
      Nv = g.Nv() * D; Np = g.Np(); N = Nv + Np;
      auto Av = ref::assemble<D>(strain ? ref::STRAIN : ref::LAPLACIAN, g.nv(), g.ne_v(), D, g.h);
      M = ref::assemble<D>(ref::MASS, g.nv(), g.ne_v(), 1, g.h);
      auto B = ref::divergence<D>(g);
      auto nv = g.nv(); dir.assign(Nv, 0);
      ref::for_each<D>(nv, [&](auto i) { bool b = false; for (int d = 0; d < D; ++d) if (!g.per[d] && (i[d] == 0 || i[d] == nv[d] - 1)) b = true; size_t k = ref::Grid<D>::idx(i, nv); for (int c = 0; c < D; ++c) dir[D * k + c] = b; });
      K = ref::Dense(N, N);
      for (size_t i = 0; i < Nv; ++i) if (dir[i]) K(i, i) = 1.;
        else { for (size_t j = 0; j < Nv; ++j) K(i, j) = Av(i, j); for (size_t j = 0; j < Np; ++j) K(i, Nv + j) = -B(j, i); }
      for (size_t i = 0; i < Np; ++i) for (size_t j = 0; j < Nv; ++j) K(Nv + i, j) = B(i, j);
      auto Kp = K; for (size_t j = 0; j < N; ++j) Kp(N - 1, j) = j >= Nv;
      if (!lu.factor(Kp)) vp::fail("reference system is singular");
    }
    V mass(V const &F) const { V r(N, 0.); for (size_t k = 0; k < g.Nv(); ++k) for (int c = 0; c < D; ++c) if (F[D * k + c] != 0.) for (size_t q = 0; q < g.Nv(); ++q) r[D * q + c] += M(q, k) * F[D * k + c]; return r; }
    template<typename Fu, typename Ff> void set_data(Fu const &u, Ff const &f)   // functions of (x, y[, z], component)
    {
      auto nv = g.nv(); V F(Nv);
      auto where = [&](auto i) { std::array<double, D> x; for (int d = 0; d < D; ++d) x[d] = i[d] * g.h[d]; return x; };
      ref::for_each<D>(nv, [&](auto i) { size_t k = ref::Grid<D>::idx(i, nv); for (int c = 0; c < D; ++c) F[D * k + c] = at<D>(f, where(i), c); });
      data = mass(F);
      ref::for_each<D>(nv, [&](auto i) { size_t k = ref::Grid<D>::idx(i, nv); for (int c = 0; c < D; ++c) if (dir[D * k + c]) data[D * k + c] = at<D>(u, where(i), c); });
    }
    std::vector<std::pair<size_t, double>> weights(double const *x) const
    {
      std::array<int, D> e; double t[D]; auto ne = g.ne_v();
      for (int d = 0; d < D; ++d) { e[d] = std::min(ne[d] - 1, std::max(0, (int)std::floor(x[d] / g.h[d]))); t[d] = x[d] / g.h[d] - e[d]; }
      std::vector<std::pair<size_t, double>> r;
      ref::for_each<D>(ref::filled<D>(2), [&](auto i) { double w = 1.; for (int d = 0; d < D; ++d) w *= i[d] ? t[d] : 1. - t[d]; r.push_back({ref::Grid<D>::idx(ref::add<D>(e, i), g.nv()), w}); });
      return r;
    }
    std::array<int, D> fine() const { auto n = g.nv(); for (auto &k : n) k *= scale; return n; }
    // the places: surface points as given, control nodes in the order of the processes' boxes
    void place(std::vector<BallT<D>> const &b, std::vector<std::array<double, D + 1>> const &sp, std::vector<std::array<int, 2 * D>> const &boxes)
    {
      balls = b; surf.clear(); ctl.clear(); nsurf.assign(b.size(), 0);
      for (auto const &q : sp) { Surf<D> s; s.part = (int)q[0]; for (int d = 0; d < D; ++d) { s.x[d] = q[1 + d]; s.r[d] = s.x[d] - b[s.part].c[d]; } s.w = weights(s.x); surf.push_back(s); nsurf[s.part]++; }
      auto nv = g.nv();
      for (auto const &bx : boxes) for (size_t ip = 0; ip < b.size(); ++ip)
      {
        std::array<int, D> m; for (int d = 0; d < D; ++d) m[d] = bx[D + d];
        ref::for_each<D>(m, [&](auto i) {
          double x[D]; Node<D> q; q.part = (int)ip;
          for (int d = 0; d < D; ++d) { i[d] += bx[d]; x[d] = i[d] * g.h[d]; q.r[d] = x[d] - b[ip].c[d]; }
          q.node = ref::Grid<D>::idx(i, nv);
          if (level<D>(x, b[ip]) < 1.) ctl.push_back(q);
        });
      }
      pts.assign(b.size(), {});
      for (size_t ip = 0; ip < b.size(); ++ip) ref::for_each<D>(fine(), [&](auto i) { std::array<double, D> x; for (int d = 0; d < D; ++d) x[d] = i[d] * g.h[d] / scale; if (level<D>(x, b[ip]) < 1.) pts[ip].push_back(x); });
    }
    // a sphere's points meet at its poles
    bool same(size_t i, size_t k) const { double m = 0.; for (int d = 0; d < D; ++d) m = std::max(m, std::fabs(surf[i].x[d] - surf[k].x[d])); return surf[i].part == surf[k].part && m < 1e-9; }
    bool first(size_t k) const { for (size_t i = 0; i < k; ++i) if (same(i, k)) return false; return true; }
    bool borderline() const
    {
      bool r = false;
      for (auto const &b : balls) ref::for_each<D>(fine(), [&](auto i) { double x[D]; for (int d = 0; d < D; ++d) x[d] = i[d] * g.h[d] / scale; if (std::fabs(level<D>(x, b) - 1.) < 1e-9) r = true; });
      return r;
    }
    // fluid driven by a control in the particles; full: with the fluid's own data
    V drive(V const &x, bool full) const
    {
      V F(Nv, 0.); for (size_t i = 0; i < ctl.size(); ++i) for (int c = 0; c < D; ++c) F[D * ctl[i].node + c] = x[D * i + c];
      V b = mass(F);
      if (full) for (size_t i = 0; i < N; ++i) b[i] += data[i];
      for (size_t i = 0; i < Nv; ++i) if (dir[i]) b[i] = full ? data[i] : 0.;
      return lu.solve(b);
    }
    V trace(V const &u) const { V r(D * surf.size(), 0.); for (size_t i = 0; i < surf.size(); ++i) for (auto const &w : surf[i].w) for (int c = 0; c < D; ++c) r[D * i + c] += w.second * u[D * w.first + c]; return r; }
    V spread(V const &G) const
    {
      V b(N, 0.);
      for (size_t i = 0; i < surf.size(); ++i) for (auto const &w : surf[i].w) for (int c = 0; c < D; ++c) b[D * w.first + c] += w.second * G[D * i + c] * area<D>(balls[surf[i].part].r) / nsurf[surf[i].part];
      for (size_t i = 0; i < Nv; ++i) if (dir[i]) b[i] = 0.;
      return lu.solve(b);
    }
    V restrict_(V const &u) const { V y(D * ctl.size()); for (size_t i = 0; i < ctl.size(); ++i) for (int c = 0; c < D; ++c) y[D * i + c] = u[D * ctl[i].node + c]; return y; }
  };
  using Fluid = FluidT<2>;
  // exact inverse of the reference system as preconditioner: makes the Krylov solvers of the code
  // quick without deciding what they converge to
  template<int D> struct Inverse
  {
    FluidT<D> const &f; vp::Layout L;
    Inverse(FluidT<D> const &f_, DM dm) : f(f_), L(dm) {}
    static PetscErrorCode apply(PC pc, Vec x, Vec y) { Inverse *s; PCShellGetContext(pc, (void **)&s); s->L.scatter(s->f.lu.solve(s->L.gather(x)), y); return 0; }
    void use(KSP ksp) { PC pc; KSPGetPC(ksp, &pc); PCSetType(pc, PCSHELL); PCShellSetContext(pc, this); PCShellSetApply(pc, apply); }
  };
  // where everything is, gathered from the processes
  inline std::vector<double> all_gather(std::vector<double> const &v)
  {
    int n = (int)v.size(), P = vp::np(); std::vector<int> cnt(P), off(P);
    MPI_Allgather(&n, 1, MPI_INT, cnt.data(), 1, MPI_INT, PETSC_COMM_WORLD);
    int t = 0; for (int i = 0; i < P; ++i) { off[i] = t; t += cnt[i]; }
    std::vector<double> r(t);
    MPI_Allgatherv(v.data(), n, MPI_DOUBLE, r.data(), cnt.data(), off.data(), MPI_DOUBLE, PETSC_COMM_WORLD);
    return r;
  }
  template<typename SP, std::size_t D> std::vector<std::array<double, D + 1>> surface_points(SP const &s, std::array<double, D> h)
  {
    std::vector<double> m; for (size_t ip = 0; ip < s.size(); ++ip) for (auto const &q : s[ip]) { m.push_back(ip); for (size_t d = 0; d < D; ++d) m.push_back(q.first[d] * h[d] + q.second[d]); }
    auto a = all_gather(m); std::vector<std::array<double, D + 1>> r; for (size_t i = 0; i < a.size(); i += D + 1) { r.push_back({}); for (size_t d = 0; d <= D; ++d) r.back()[d] = a[i + d]; } return r;
  }
  template<int D = 2> std::vector<std::array<int, 2 * D>> owned_boxes(DM dm)
  {
    DM da[2]; DMCompositeGetEntriesArray(dm, da);
    PetscInt s[3], m[3]; DMDAGetCorners(da[0], s, s + 1, s + 2, m, m + 1, m + 2);
    std::vector<double> v; for (int d = 0; d < D; ++d) v.push_back(s[d]); for (int d = 0; d < D; ++d) v.push_back(m[d]);
    auto a = all_gather(v); std::vector<std::array<int, 2 * D>> r;
    for (size_t i = 0; i < a.size(); i += 2 * D) { r.push_back({}); for (int d = 0; d < 2 * D; ++d) r.back()[d] = (int)a[i + d]; } return r;
  }
  inline V vec_get(Vec v) { PetscInt n; VecGetLocalSize(v, &n); const PetscScalar *a; VecGetArrayRead(v, &a); V r(a, a + n); VecRestoreArrayRead(v, &a); return all_gather(r); }
  inline void vec_set(Vec v, std::function<double(size_t)> const &f) { PetscInt lo, hi; VecGetOwnershipRange(v, &lo, &hi); PetscScalar *a; VecGetArray(v, &a); for (PetscInt i = lo; i < hi; ++i) a[i - lo] = f(i); VecRestoreArray(v, &a); }
}
