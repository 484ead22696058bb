// Property: the transfers between the fluid and the particles (interpolation on the surfaces, simple
// layer and its spreading to the right-hand side, control of the interior, projection on rigid
// motions, restriction to the control, forces and torques) are the linear maps they stand for.
#include "common.hpp"
#include <cafes.hpp>
#include "layout.hpp"
using namespace vp;
namespace fem = cafes::fem; namespace geo = cafes::geometry; namespace pb = cafes::problem;

template<int D> using Sh = typename std::conditional<D == 2, geo::circle<>, geo::sphere<>>::type;
static geo::circle<> shape(std::array<double, 2> const &c, double r) { return cafes::make_circle({c[0], c[1]}, r); }
static geo::sphere<> shape(std::array<double, 3> const &c, double r) { return cafes::make_sphere({c[0], c[1], c[2]}, r); }
template<int D> struct Ball { std::array<double, D> c; double r; };
template<int D> using Cross = typename std::conditional<D == 2, double, geo::vector<double, 3>>::type;
static double comp(double x, int) { return x; }
static double comp(geo::vector<double, 3> const &x, int i) { return x[i]; }
static void put(double &x, int, double v) { x = v; }
static void put(geo::vector<double, 3> &x, int i, double v) { x[i] = v; }
static void put(cafes::physics::velocity<3> &x, int i, double v) { x[i] = v; }
template<int D> constexpr int NC() { return D == 2 ? 1 : 3; }

// the problem as the operators see it: a mesh, boundary conditions, a solution and a right-hand side
static Vec g_initial = nullptr;
template<int D> struct Fake
{
  using Ctx = pb::context<D>;
  Ctx *ctx; Vec sol, rhs; int calls = 0;
  PetscErrorCode setup_RHS() { calls++; return VecAXPY(rhs, 1., g_initial); }
  PetscErrorCode solve() { return 0; }
};

static std::vector<double> all_gather(std::vector<double> const &v, std::vector<int> *offsets = nullptr)
{
  int n = (int)v.size(), P = np(); std::vector<int> cnt(P), off(P);
  MPI_Allgather(&n, 1, MPI_INT, cnt.data(), 1, MPI_INT, PETSC_COMM_WORLD);
  int t = 0; for (int i = 0; i < P; ++i) { off[i] = t; t += cnt[i]; }
  std::vector<double> r(t);
  MPI_Allgatherv(v.data(), n, MPI_DOUBLE, r.data(), cnt.data(), off.data(), MPI_DOUBLE, PETSC_COMM_WORLD);
  if (offsets) *offsets = off;
  return r;
}

// cross products on plain arrays: 2D moments are scalars
template<int D> void moment(std::array<double, D> const &r, double const *g, double *out)
{
  if (D == 2) out[0] = r[0] * g[1] - r[1] * g[0];
  else { out[0] = r[1] * g[2] - r[2 % D] * g[1]; out[1] = r[2 % D] * g[0] - r[0] * g[2]; out[2] = r[0] * g[1] - r[1] * g[0]; }
}
template<int D> void rotate(double const *w, std::array<double, D> const &r, double *out)
{
  if (D == 2) { out[0] = -w[0] * r[1]; out[1] = w[0] * r[0]; }
  else { out[0] = w[1] * r[2 % D] - w[2] * r[1]; out[1] = w[2] * r[0] - w[0] * r[2 % D]; out[2] = w[0] * r[1] - w[1] * r[0]; }
}
// weights of the nodes at a point of the domain
template<int D> std::vector<std::pair<size_t, double>> weights(ref::Grid<D> const &g, std::array<double, D> const &x)
{
  std::array<int, D> e; std::array<double, D> t; auto ne = g.ne_v();
  for (int d = 0; d < D; ++d) { e[d] = std::min(ne[d] - 1, std::max(0, (int)std::floor(x[d] / g.h[d]))); t[d] = x[d] / g.h[d] - e[d]; }
  std::vector<std::pair<size_t, double>> r;
  ref::for_each<D>(ref::filled<D>(2), [&](auto i) {
    double w = 1.; for (int d = 0; d < D; ++d) w *= i[d] ? t[d] : 1. - t[d];
    r.push_back({ref::Grid<D>::idx(ref::add<D>(e, i), g.nv()), w});
  });
  return r;
}
template<int D> double level(std::array<double, D> const &p, Ball<D> const &b) { double s = 0.; for (int d = 0; d < D; ++d) s += (p[d] - b.c[d]) * (p[d] - b.c[d]); return s / (b.r * b.r); }
static double val(size_t i) { return std::sin(1.7 * i + .3) + .2 * std::cos(5.1 * i); }

static void bc_a(const PetscReal *x, PetscScalar *u) { *u = 2. + x[0] - 3. * x[1]; }
static void bc_b(const PetscReal *x, PetscScalar *u) { *u = -1. + x[0] * x[1]; }

template<int D, typename DP> void one(DM dm, ref::Grid<D> const &g, std::string const &mesh, std::vector<Ball<D>> const &balls, int scale, DP dpart, int bcsel, bool basis)
{
  std::string key = mesh + fmt(" scale=%d bc=%d particles", scale, bcsel);
  for (auto const &b : balls) { key += " ("; for (int d = 0; d < D; ++d) key += fmt("%.4g,", b.c[d]); key += fmt("r %.4g)", b.r); }
  if (!begin_case(key)) return;
  constexpr int C = NC<D>();
  auto h = g.h; auto nv = g.nv(); size_t P = balls.size();
  double const PI = std::acos(-1.);
  Layout L(dm);
  size_t Nv = g.Nv() * D;
  // the code's objects
  using Pb = Fake<D>; using Ctx = pb::particle_context<D, Sh<D>, Pb>;
  cafes::fem::dirichlet_conditions<D> bc{{}};
  // which unknowns carry a condition (bcsel: 0 all components everywhere, 1 only component 0, on the sides 0 and 1)
  for (int sd = 0; sd < 2 * D; ++sd) for (int c = 0; c < D; ++c) bc.conditions_[sd][c] = bcsel == 0 ? (c % 2 ? bc_b : bc_a) : (c == 0 && sd < 2 ? bc_a : nullptr);
  pb::context<D> pctx{dm, h, nullptr, nullptr, bc}; pctx.set_dirichlet_bc(bc);
  Pb prob; prob.ctx = &pctx; DMCreateGlobalVector(dm, &prob.sol); DMCreateGlobalVector(dm, &prob.rhs);
  std::vector<cafes::particle<Sh<D>>> parts;
  for (size_t ip = 0; ip < P; ++ip)
  {
    cafes::physics::force<D> f; for (int d = 0; d < D; ++d) f[d] = 1.5 - d + ip;
    auto p = cafes::make_particle_with_force(shape(balls[ip].c, balls[ip].r), f, 2. + .5 * ip);
    for (int d = 0; d < D; ++d) p.velocity_[d] = .7 * d - .4 + ip;
    if constexpr (D == 2) p.angular_velocity_ = 1.3 - ip; else for (int c = 0; c < 3; ++c) put(p.angular_velocity_, c, .9 * c - .5 + ip);
    parts.push_back(p);
  }
  auto box = fem::get_DM_bounds<D>(dm, 0);
  std::vector<std::vector<std::pair<geo::position<int, D>, geo::position<double, D>>>> surf;
  std::vector<std::vector<geo::vector<double, D>>> radial; std::vector<int> nb, num;
  size_t size = cafes::set_materials(parts, surf, radial, nb, num, box, h, dpart, (std::size_t)scale); op();
  Ctx ctx{prob, parts, surf, radial, nb, num, (std::size_t)scale, false, false, false, nullptr};

  // --- what is where, on all processes
  struct SP { int part; std::array<double, D> x, r; };
  std::vector<double> mine; size_t nloc = 0;
  for (size_t ip = 0; ip < P; ++ip) for (size_t i = 0; i < surf[ip].size(); ++i) { mine.push_back(ip); for (int d = 0; d < D; ++d) mine.push_back(surf[ip][i].first[d] * h[d] + surf[ip][i].second[d]); nloc++; }
  std::vector<int> off; auto all = all_gather(mine, &off);
  size_t NS = all.size() / (D + 1), s0 = off[S().rank] / (D + 1);
  std::vector<SP> sp(NS); std::vector<long> cnt(P, 0);
  for (size_t i = 0; i < NS; ++i) { sp[i].part = (int)all[i * (D + 1)]; cnt[sp[i].part]++; for (int d = 0; d < D; ++d) { sp[i].x[d] = all[i * (D + 1) + 1 + d]; sp[i].r[d] = sp[i].x[d] - balls[sp[i].part].c[d]; } }
  // the control: for each process, for each particle, the nodes it owns inside the particle, x fastest
  DM da[2]; DMCompositeGetEntriesArray(dm, da);
  PetscInt cs[3], cm[3]; DMDAGetCorners(da[0], &cs[0], &cs[1], &cs[2], &cm[0], &cm[1], &cm[2]);
  std::vector<double> cmine; bool border = false;
  std::array<int, D> ext, st; for (int d = 0; d < D; ++d) { ext[d] = cm[d]; st[d] = cs[d]; }
  for (size_t ip = 0; ip < P; ++ip) ref::for_each<D>(ext, [&](auto a) {
    auto i = ref::add<D>(a, st); std::array<double, D> x; for (int d = 0; d < D; ++d) x[d] = i[d] * h[d];
    double l = level<D>(x, balls[ip]); if (std::fabs(l - 1.) < 1e-9) border = true;
    if (l < 1.) { cmine.push_back(ip); for (int d = 0; d < D; ++d) cmine.push_back(i[d]); }
  });
  auto call = all_gather(cmine, &off);
  size_t NCt = call.size() / (D + 1), c0 = off[S().rank] / (D + 1), cloc = cmine.size() / (D + 1);
  struct CP { int part; size_t node; std::array<double, D> x, r; }; std::vector<CP> cp(NCt);
  for (size_t i = 0; i < NCt; ++i)
  {
    std::array<int, D> a; cp[i].part = (int)call[i * (D + 1)];
    for (int d = 0; d < D; ++d) { a[d] = (int)call[i * (D + 1) + 1 + d]; cp[i].x[d] = a[d] * h[d]; cp[i].r[d] = cp[i].x[d] - balls[cp[i].part].c[d]; }
    cp[i].node = ref::Grid<D>::idx(a, nv);
  }
  // integration points
  std::vector<std::vector<std::array<double, D>>> ip_pts(P);
  { std::array<int, D> n; for (int d = 0; d < D; ++d) n[d] = nv[d] * scale;
    for (size_t ip = 0; ip < P; ++ip) ref::for_each<D>(n, [&](auto a) { std::array<double, D> x; for (int d = 0; d < D; ++d) x[d] = a[d] * h[d] / scale; double l = level<D>(x, balls[ip]); if (std::fabs(l - 1.) < 1e-9) border = true; if (l < 1.) ip_pts[ip].push_back(x); }); }
  int bl = border, ba = 0; MPI_Allreduce(&bl, &ba, 1, MPI_INT, MPI_MAX, PETSC_COMM_WORLD);
  if (ba) { note("skipped: a node or integration point exactly on a border"); close_case(); return; }
  expect(cloc == size, fmt("%zu control points on this process, want %zu", size, cloc));
  if (cloc != size) return;
  for (size_t ip = 0; ip < P; ++ip) { expect(num[ip] == (int)ip_pts[ip].size(), "number of integration points"); expect(nb[ip] == cnt[ip], "number of surface points"); }
  double area[8], vol[8];
  for (size_t ip = 0; ip < P; ++ip) { double r = balls[ip].r; area[ip] = D == 2 ? 2 * PI * r : 4 * PI * r * r; vol[ip] = D == 2 ? PI * r * r : 4. / 3. * PI * r * r * r; }
  std::vector<char> dir(Nv, 0);
  ref::for_each<D>(nv, [&](auto a) {
    for (int d = 0; d < D; ++d) if (!g.per[d]) for (int s = 0; s < 2; ++s) if (a[d] == (s ? nv[d] - 1 : 0))
      for (int c = 0; c < D; ++c)
      {
        bool on;
        if (bcsel == 0) on = true;
        else on = c == 0 && (2 * d + s < 2);
        if (on) dir[ref::Grid<D>::idx(a, nv) * D + c] = 1;
      }
  });

  auto zeros = [&]() { std::vector<std::vector<geo::vector<double, D>>> G(P); for (size_t ip = 0; ip < P; ++ip) { G[ip].resize(surf[ip].size()); for (auto &v : G[ip]) v.fill(0.); } return G; };
  auto gather_g = [&](auto const &G) { std::vector<double> v; for (size_t ip = 0; ip < P; ++ip) for (auto const &x : G[ip]) for (int d = 0; d < D; ++d) v.push_back(x[d]); return all_gather(v); };
  auto set_g = [&](auto const &f) { auto G = zeros(); size_t k = s0; for (size_t ip = 0; ip < P; ++ip) for (auto &x : G[ip]) { for (int d = 0; d < D; ++d) x[d] = f(k * D + d); ++k; } return G; };

  // --- interpolation of the fluid on the surfaces
  std::vector<std::vector<std::pair<size_t, double>>> W(NS); for (size_t i = 0; i < NS; ++i) W[i] = weights<D>(g, sp[i].x);
  auto sol_from = [&](auto const &f) { std::vector<double> x(L.N); for (size_t i = 0; i < L.N; ++i) x[i] = f(i); L.scatter(x, prob.sol); return x; };
  auto interp_ref = [&](std::vector<double> const &x) { std::vector<double> r(NS * D, 0.); for (size_t i = 0; i < NS; ++i) for (auto &w : W[i]) for (int d = 0; d < D; ++d) r[i * D + d] += w.second * x[w.first * D + d]; return r; };
  {
    auto x = sol_from([](size_t i) { return val(i); });
    auto want = interp_ref(x);
    auto G = set_g([](size_t i) { return 1. + i; });   // whatever it held before
    pb::interp_fluid_to_surf(ctx, G); op();
    expect_same(gather_g(G), want, 1e-11, "velocity on the surfaces", 1.);
    expect_same(L.gather(prob.sol), x, 0., "interpolation changed the solution");
    auto G2 = set_g([](size_t i) { return -1. * i; });
    pb::interp_fluid_to_surf(ctx, G2, true); op();
    auto want2 = want;
    for (size_t i = 0; i < NS; ++i)
    {
      double w[3], q[3]; int ip = sp[i].part;
      if constexpr (D == 2) w[0] = 1.3 - ip; else for (int c = 0; c < 3; ++c) w[c] = .9 * c - .5 + ip;
      rotate<D>(w, sp[i].r, q);
      for (int d = 0; d < D; ++d) want2[i * D + d] -= .7 * d - .4 + ip + q[d];
    }
    expect_same(gather_g(G2), want2, 1e-11, "velocity relative to the rigid motion", 1.);
    if (basis) for (size_t k = 0; k < L.N; ++k)
    {
      L.unit(k, prob.sol);
      auto G = zeros(); pb::interp_fluid_to_surf(ctx, G); op();
      std::vector<double> w(NS * D, 0.);
      if (k < Nv) for (size_t i = 0; i < NS; ++i) for (auto &q : W[i]) if (q.first == k / D) w[i * D + k % D] += q.second;
      expect_same(gather_g(G), w, 1e-11, fmt("unit vector %zu on the surfaces", k), 1.);
      if (S().fails_in_case) break;
    }
  }
  // --- spreading to the right-hand side: the transpose, weighted by the surface of each point
  {
    auto spread_ref = [&](auto const &f) { std::vector<double> r(L.N, 0.); for (size_t i = 0; i < NS; ++i) for (auto &w : W[i]) for (int d = 0; d < D; ++d) r[w.first * D + d] += w.second * f(i * D + d) * area[sp[i].part] / cnt[sp[i].part]; for (size_t i = 0; i < Nv; ++i) if (dir[i]) r[i] = 0.; return r; };
    VecSet(prob.rhs, 7.);
    auto G = set_g([](size_t i) { return val(i); });
    pb::SL_to_Rhs(ctx, G); op();
    expect_same(L.gather(prob.rhs), spread_ref([](size_t i) { return val(i); }), 1e-11, "right-hand side of a simple layer", 1e-3);
    if (basis) for (size_t k = 0; k < NS * D; ++k)
    {
      VecSet(prob.rhs, -2.);
      auto G = set_g([&](size_t i) { return i == k ? 1. : 0.; });
      pb::SL_to_Rhs(ctx, G); op();
      expect_same(L.gather(prob.rhs), spread_ref([&](size_t i) { return i == k ? 1. : 0.; }), 1e-11, fmt("right-hand side of the unit layer %zu", k), 1e-3);
      if (S().fails_in_case) break;
    }
  }
  // --- mean and rotation of a layer
  {
    auto layer = [&](auto const &f, std::string const &what) {
      auto G = set_g(f);
      std::vector<geo::vector<double, D>> mean(P); for (auto &m : mean) m.fill(0.);
      std::vector<Cross<D>> cr(P); for (auto &c : cr) for (int k = 0; k < C; ++k) put(c, k, 0.);
      pb::simple_layer(ctx, G, mean, cr); op();
      std::vector<double> m(P * D, 0.), c(P * C, 0.), gg(NS * D);
      for (size_t i = 0; i < NS; ++i)
      {
        double v[3], q[3]; for (int d = 0; d < D; ++d) { v[d] = f(i * D + d); m[sp[i].part * D + d] += v[d] / cnt[sp[i].part]; }
        moment<D>(sp[i].r, v, q); double R = balls[sp[i].part].r;
        for (int k = 0; k < C; ++k) c[sp[i].part * C + k] += q[k] / cnt[sp[i].part] * (D == 2 ? 1. : 1.5) / (R * R);
      }
      for (size_t i = 0; i < NS; ++i) { double q[3]; rotate<D>(&c[sp[i].part * C], sp[i].r, q); for (int d = 0; d < D; ++d) gg[i * D + d] = f(i * D + d) - m[sp[i].part * D + d] - q[d]; }
      std::vector<double> gm, gc; for (size_t ip = 0; ip < P; ++ip) { for (int d = 0; d < D; ++d) gm.push_back(mean[ip][d]); for (int k = 0; k < C; ++k) gc.push_back(comp(cr[ip], k)); }
      expect_same(gm, m, 1e-10, "mean of " + what, 1.); expect_same(gc, c, 1e-10, "rotation of " + what, 1.); expect_same(gather_g(G), gg, 1e-10, what + " without its mean and rotation", 1.);
    };
    layer([](size_t i) { return val(i); }, "a dense layer");
    if (basis) for (size_t k = 0; k < NS * D && !S().fails_in_case; ++k) layer([&](size_t i) { return i == k ? 1. : 0.; }, fmt("the unit layer %zu", k));
  }
  // --- control
  Vec X, Y; VecCreateMPI(PETSC_COMM_WORLD, size * D, PETSC_DECIDE, &X); VecDuplicate(X, &Y);
  auto control = [&](auto const &f) { PetscScalar *a; VecGetArray(X, &a); for (size_t i = 0; i < size * D; ++i) a[i] = f(c0 * D + i); VecRestoreArray(X, &a); };
  auto get = [&](Vec v) { PetscInt n; VecGetLocalSize(v, &n); const PetscScalar *a; VecGetArrayRead(v, &a); std::vector<double> r(a, a + n); VecRestoreArrayRead(v, &a); return all_gather(r); };
  {
    auto M = ref::assemble<D>(ref::MASS, g.nv(), g.ne_v(), 1, h);
    double ms = 0.; for (double v : M.a) ms = std::max(ms, v);
    auto rhs_ref = [&](auto const &f, bool forces, double base) {
      std::vector<double> F(Nv, 0.);
      for (size_t i = 0; i < NCt; ++i) for (int d = 0; d < D; ++d) F[cp[i].node * D + d] = f(i * D + d) + (forces ? (2. + .5 * cp[i].part) * (1.5 - d + cp[i].part) : 0.);
      std::vector<double> r(L.N, base);
      for (size_t k = 0; k < g.Nv(); ++k) for (int d = 0; d < D; ++d) if (F[k * D + d] != 0.) for (size_t q = 0; q < g.Nv(); ++q) r[q * D + d] += M(q, k) * F[k * D + d];
      return r;
    };
    bool overlap = false;
    for (size_t i = 0; i < NCt; ++i) for (size_t j = 0; j < i; ++j) if (cp[i].node == cp[j].node) overlap = true;
    if (!overlap)
    {
      for (int forces = 0; forces < 2; ++forces)
      {
        control([](size_t i) { return val(i); }); VecSet(prob.rhs, .25);
        pb::set_rhs_problem<D, Ctx>(ctx, X, forces); op();
        expect_same(L.gather(prob.rhs), rhs_ref([](size_t i) { return val(i); }, forces, .25), 1e-11, forces ? "right-hand side of a control with forces" : "right-hand side of a control", ms);
      }
      // with the boundary, homogeneous or not
      Vec ini; VecDuplicate(prob.rhs, &ini); { std::vector<double> q(L.N); for (size_t i = 0; i < L.N; ++i) q[i] = .1 * val(i + 3); L.scatter(q, ini); } g_initial = ini;
      for (int mode = 0; mode < 4; ++mode)
      {
        bool full = mode & 1, forces = mode >> 1;
        control([](size_t i) { return val(i); });
        VecSet(prob.rhs, 0.); ctx.compute_rhs = full; prob.calls = 0;
        pb::init_problem<D, Ctx>(ctx, X, forces); op();
        expect(prob.calls == (full ? 1 : 0), "setup_RHS of the fluid problem");
        auto want = rhs_ref([](size_t i) { return val(i); }, forces, 0.);
        if (full) for (size_t i = 0; i < L.N; ++i) want[i] += .1 * val(i + 3);
        auto got = L.gather(prob.rhs);
        // boundary values: the condition (two conditions of a corner agree here), or zero
        ref::for_each<D>(nv, [&](auto a) { size_t k = ref::Grid<D>::idx(a, nv); double x[3]; for (int d = 0; d < D; ++d) x[d] = a[d] * h[d]; for (int c = 0; c < D; ++c) if (dir[k * D + c]) { double u = 0.; if (full) { if (c % 2) bc_b(x, &u); else bc_a(x, &u); } want[k * D + c] = u; } });
        expect_same(got, want, 1e-11, fmt("right-hand side of the fluid problem (%s data, %s forces)", full ? "with" : "without", forces ? "with" : "without"), ms);
      }
      VecDestroy(&ini); ctx.compute_rhs = false;
      if (basis) for (size_t k = 0; k < NCt * D && !S().fails_in_case; ++k)
      {
        control([&](size_t i) { return i == k ? 1. : 0.; }); VecSet(prob.rhs, 0.);
        pb::set_rhs_problem<D, Ctx>(ctx, X); op();
        expect_same(L.gather(prob.rhs), rhs_ref([&](size_t i) { return i == k ? 1. : 0.; }, false, 0.), 1e-11, fmt("right-hand side of the unit control %zu", k), ms);
      }
    }
    else note("overlapping particles: right-hand side of the control not judged");
  }
  // --- projection on the rigid motions, restriction to the control
  {
    auto project = [&](std::vector<double> const &x, std::string const &what, bool full) {
      std::vector<geo::vector<double, D>> mean(P); for (auto &m : mean) m.fill(9.);
      std::vector<Cross<D>> cr(P); for (auto &c : cr) for (int k = 0; k < C; ++k) put(c, k, -9.);
      pb::projection<D, Ctx>(ctx, mean, cr); op();
      std::vector<double> m(P * D, 0.), c(P * C, 0.);
      for (size_t ip = 0; ip < P; ++ip) for (auto const &q : ip_pts[ip])
      {
        double u[3] = {0., 0., 0.}, t[3]; std::array<double, D> r;
        for (auto &w : weights<D>(g, q)) for (int d = 0; d < D; ++d) u[d] += w.second * x[w.first * D + d];
        for (int d = 0; d < D; ++d) { r[d] = q[d] - balls[ip].c[d]; m[ip * D + d] += u[d] / ip_pts[ip].size(); }
        moment<D>(r, u, t); for (int k = 0; k < C; ++k) c[ip * C + k] += t[k] / ip_pts[ip].size();
      }
      std::vector<double> gm, gc; for (size_t ip = 0; ip < P; ++ip) { for (int d = 0; d < D; ++d) gm.push_back(mean[ip][d]); for (int k = 0; k < C; ++k) gc.push_back(comp(cr[ip], k)); }
      expect_same(gm, m, 1e-10, "mean velocity of " + what, 1e-3); expect_same(gc, c, 1e-10, "moment of " + what, 1e-3);
      if (!full) return;
      std::vector<double> y(NCt * D), y1(NCt * D);
      for (size_t i = 0; i < NCt; ++i) { int ip = cp[i].part; double R = balls[ip].r, w[3], q[3]; for (int k = 0; k < C; ++k) w[k] = (D == 2 ? 2. : 2.5) / (R * R) * c[ip * C + k]; rotate<D>(w, cp[i].r, q); for (int d = 0; d < D; ++d) { y1[i * D + d] = x[cp[i].node * D + d]; y[i * D + d] = y1[i * D + d] - m[ip * D + d] - q[d]; } }
      VecSet(Y, 3.); pb::compute_y(ctx, Y, mean, cr); op();
      expect_same(get(Y), y, 1e-10, "velocity in the particles without its rigid motion, " + what, 1.);
      VecSet(Y, 3.); pb::compute_y<D, Ctx>(ctx, Y); op();
      expect_same(get(Y), y1, 1e-12, "velocity in the particles, " + what, 1.);
    };
    project(sol_from([](size_t i) { return val(i); }), "a dense field", true);
    std::vector<char> touched(g.Nv(), 0);
    for (size_t ip = 0; ip < P; ++ip) for (auto const &q : ip_pts[ip]) for (auto &w : weights<D>(g, q)) if (w.second > 1e-13) touched[w.first] = 1;
    if (basis) for (size_t k = 0; k < Nv && !S().fails_in_case; ++k)
    {
      if (!touched[k / D] && k % 5) continue;
      std::vector<double> x(L.N, 0.); x[k] = 1.; L.scatter(x, prob.sol);
      project(x, fmt("the unit field %zu", k), touched[k / D]);
    }
  }
  // --- forces and torques of a control
  {
    auto ft = [&](auto const &f, std::string const &what) {
      control(f);
      std::vector<geo::vector<double, D>> F(P); std::vector<Cross<D>> T(P);
      for (size_t ip = 0; ip < P; ++ip) { F[ip].fill(5.); for (int k = 0; k < C; ++k) put(T[ip], k, 6.); }
      cafes::forces_torques_with_control(parts, X, box, F, T, num, h, false); op();
      std::vector<double> wf(P * D, 0.), wt(P * C, 0.), gf, gt;
      for (size_t i = 0; i < NCt; ++i) { double v[3], q[3]; int ip = cp[i].part; for (int d = 0; d < D; ++d) { v[d] = f(i * D + d) * vol[ip] / num[ip]; wf[ip * D + d] += v[d]; } moment<D>(cp[i].r, v, q); for (int k = 0; k < C; ++k) wt[ip * C + k] += q[k]; }
      for (size_t ip = 0; ip < P; ++ip) { for (int d = 0; d < D; ++d) gf.push_back(F[ip][d]); for (int k = 0; k < C; ++k) gt.push_back(comp(T[ip], k)); }
      expect_same(gf, wf, 1e-11, "forces of " + what, 1e-4); expect_same(gt, wt, 1e-11, "torques of " + what, 1e-4);
      // with the lubrication forces of the particles that do not overlap (decided by the check of the lubrication) added
      bool apart = true; for (size_t i = 0; i < P; ++i) for (size_t j = 0; j < i; ++j) { double q = 0.; for (int d = 0; d < D; ++d) q += std::pow(balls[i].c[d] - balls[j].c[d], 2); apart &= std::sqrt(q) > balls[i].r + balls[j].r + 1e-6; }
      if (!apart || P < 2) return;
      auto moving = parts; for (size_t ip = 0; ip < P; ++ip) for (int d = 0; d < D; ++d) moving[ip].velocity_[d] = val(7 * ip + d);
      std::vector<cafes::physics::force<D>> sing(P); auto h2 = h; cafes::singularity::compute_singular_forces(moving, sing, h2, 100);
      for (size_t ip = 0; ip < P; ++ip) { F[ip].fill(-3.); for (int k = 0; k < C; ++k) put(T[ip], k, 2.); }
      cafes::forces_torques_with_control(moving, X, box, F, T, num, h, true); op();
      double s = 1e-4; gf.clear(); gt.clear();
      for (size_t ip = 0; ip < P; ++ip) { for (int d = 0; d < D; ++d) { gf.push_back(F[ip][d]); wf[ip * D + d] += sing[ip][d]; s = std::max(s, std::fabs(sing[ip][d])); } for (int k = 0; k < C; ++k) gt.push_back(comp(T[ip], k)); }
      bool finite = true; for (double v : wf) finite &= std::isfinite(v);
      if (!finite) { note("mesh too coarse for the lubrication forces"); return; }
      note("lubrication forces added"); if (s > 1e-3) note("lubrication forces not zero");
      expect_same(gf, wf, 1e-11, "forces with lubrication of " + what, s); expect_same(gt, wt, 1e-11, "torques with lubrication of " + what, 1e-4);
    };
    ft([](size_t i) { return val(i); }, "a dense control");
    if (basis) for (size_t k = 0; k < NCt * D && !S().fails_in_case; ++k) ft([&](size_t i) { return i == k ? 1. : 0.; }, fmt("the unit control %zu", k));
  }
  trace(); outcome(fmt("%zu %zu", NS, NCt)); sample(key + fmt(": %zu surface points, %zu control points", NS, NCt));
  VecDestroy(&X); VecDestroy(&Y); VecDestroy(&prob.sol); VecDestroy(&prob.rhs);
}

template<int D, typename DP> void mesh(std::array<int, D> n, std::array<int, D> per, std::array<double, D> len, DP dpart, std::vector<std::vector<Ball<D>>> const &lists)
{
  ref::Grid<D> g{n, per, {}}; for (int d = 0; d < D; ++d) g.h[d] = .5 * len[d] / (n[d] - 1);
  if (!feasible<D>(g.np())) { note("refused by PETSc"); return; }
  std::array<PetscBool, D> period; for (int d = 0; d < D; ++d) period[d] = per[d] ? PETSC_TRUE : PETSC_FALSE;
  DM dm; if (fem::createMesh<D>(dm, n, period)) return;
  std::string key = fmt("np=%d dim=%d n=%s per=%s", np(), D, show<D>(n).c_str(), show<D>(per).c_str());
  int i = 0;
  for (auto const &l : lists) for (int scale : thorough() ? std::vector<int>{1, 2, 4} : std::vector<int>{i % 2 ? 2 : 4}) { one<D>(dm, g, key, l, scale, dpart, i % 2, D == 2 || thorough() || i < 3); ++i; }
  close_case();
  DMDestroy(&dm);
}

// centres on a lattice, off the nodes
template<int D> std::vector<std::vector<Ball<D>>> lists(std::array<double, D> len, int q, std::vector<double> radii)
{
  std::vector<Ball<D>> b; std::array<int, D> m; m.fill(q);
  for (double r : radii) ref::for_each<D>(m, [&](auto a) {
    Ball<D> x; x.r = r * *std::min_element(len.begin(), len.end()); bool ok = true;
    for (int d = 0; d < D; ++d) { x.c[d] = len[d] * (a[d] + .43 + .011 * d) / q; ok = ok && x.c[d] - x.r > .01 * len[d] && x.c[d] + x.r < .99 * len[d]; }
    if (ok) b.push_back(x);
  });
  std::vector<std::vector<Ball<D>>> l; for (auto const &x : b) l.push_back({x});
  auto far = [&](Ball<D> const &x, Ball<D> const &y) { double s = 0.; for (int d = 0; d < D; ++d) s += (x.c[d] - y.c[d]) * (x.c[d] - y.c[d]); return std::sqrt(s) > x.r + y.r; };
  int k = 0;
  for (size_t i = 0; i < b.size(); ++i) for (size_t j = 0; j < b.size(); ++j) if (i != j && far(b[i], b[j]) && (thorough() || k++ % 3 == 0)) l.push_back({b[i], b[j]});
  // three particles, and two that overlap
  for (size_t i = 0; i + 2 < b.size(); ++i) if (far(b[i], b[i + 1]) && far(b[i], b[i + 2]) && far(b[i + 1], b[i + 2])) { l.push_back({b[i + 2], b[i], b[i + 1]}); break; }
  if (b.size() > 1 && !b.empty()) { auto y = b[0]; y.c[0] += .5 * y.r; if (y.c[0] + y.r < len[0]) l.push_back({b[0], y}); }
  return l;
}

int main(int argc, char **argv)
{
  init(&argc, &argv);
  bool t = thorough();
  for (auto per : {std::array<int, 2>{0, 0}, {1, 0}, {0, 1}, {1, 1}})
  {
    mesh<2, double>({5, 5}, per, {1., 1.}, .12, lists<2>({1., 1.}, 3, {.12, .2}));
    mesh<2, double>({9, 4}, per, {1., .7}, .1, lists<2>({1., .7}, 3, {.15, .25}));
    if (t) { mesh<2, double>({7, 7}, per, {1.5, 1.}, .1, lists<2>({1.5, 1.}, 4, {.1, .3})); mesh<2, double>({4, 8}, per, {.5, 1.}, .1, lists<2>({.5, 1.}, 4, {.2, .35})); }
  }
  using A = std::array<double, 2>;
  mesh<3, A>({3, 3, 3}, {0, 0, 0}, {1., 1., 1.}, A{{.3, .3}}, lists<3>({1., 1., 1.}, 2, {.22}));
  mesh<3, A>({3, 4, 3}, {1, 0, 0}, {1., 1.2, .8}, A{{.3, .3}}, lists<3>({1., 1.2, .8}, 2, {.2, .24}));
  if (t) { mesh<3, A>({4, 3, 5}, {0, 0, 1}, {1., .8, 1.2}, A{{.2, .2}}, lists<3>({1., .8, 1.2}, 2, {.2, .24})); mesh<3, A>({4, 4, 4}, {0, 1, 0}, {1., 1., 1.}, A{{.25, .2}}, lists<3>({1., 1., 1.}, 3, {.16})); }
  return finish();
}
