// Property: the lubrication field in the solvers.  Whatever the particles, the mesh and the number
// of processes: the fluid gets minus the stresses of the field against every test function, the
// solution gets the field averaged around its nodes, both once, nothing else changes; the DtoN solver
// that uses the field solves its (affine) equations and returns regular plus singular fluid.
#include "coupled.hpp"
#include "lub.hpp"
#include <cafes.hpp>
#include "twin.hpp"
using namespace vp;
namespace geo = cafes::geometry; namespace sg = cafes::singularity; namespace fem = cafes::fem; namespace pb = cafes::problem;

template<int D> using Sh = typename std::conditional<D == 2, geo::circle<>, geo::sphere<>>::type;
template<int D> using X = std::array<double, D>;
template<int D> struct Body { X<D> c; double r; X<D> v; };
static cafes::particle<geo::circle<>> part(Body<2> const &b) { return cafes::make_particle_with_velocity(cafes::make_circle({b.c[0], b.c[1]}, b.r), {b.v[0], b.v[1]}, .4); }
static cafes::particle<geo::sphere<>> part(Body<3> const &b) { return cafes::make_particle_with_velocity(cafes::make_sphere({b.c[0], b.c[1], b.c[2]}, b.r), {b.v[0], b.v[1], b.v[2]}, {.4, -.3, .2}); }
template<int D> std::string str(X<D> const &x) { std::string s; for (int d = 0; d < D; ++d) s += (d ? "," : "") + fmt("%.4g", x[d]); return s; }

// the problem as these functions see it, in the code's own context
template<int D> struct Held
{
  struct Pb { using Ctx = pb::context<D>; Ctx *ctx; Vec sol, rhs; } problem;
  std::vector<cafes::particle<Sh<D>>> particles;
  std::vector<std::vector<std::pair<geo::position<int, D>, geo::position<double, D>>>> surf;
  std::vector<std::vector<geo::vector<double, D>>> radial; std::vector<int> nb, num;
  using Ctx = pb::particle_context<D, Sh<D>, Pb>;
  Ctx context() { return Ctx{problem, particles, surf, radial, nb, num, 4, false, false, true, nullptr}; }
};

// sums over the integration points of all cells: stresses (a) and velocity (b)
static int const SUB = 10;
template<int D> bool sums(ref::Grid<D> const &g, std::vector<Body<D>> const &bodies, std::vector<double> &a, std::vector<double> &b, long &used)
{
  auto nv = g.nv(), ne = g.ne_v(); a.assign(g.Nv() * D, 0.); b = a; used = 0; int ok = 1;
  double w = 1.; for (int d = 0; d < D; ++d) w /= SUB;
  double vol = 1.; for (double x : g.h) vol *= x;
  for (size_t i = 0; i < bodies.size(); ++i) for (size_t j = i + 1; j < bodies.size(); ++j)
  {
    lub::Pair<D> p(bodies[i].c, bodies[i].r, bodies[i].v, bodies[j].c, bodies[j].r, bodies[j].v, g.h[0]);
    if (p.a >= 1.) continue;  // far away
    int turn = 0;
    ref::for_each<D>(ne, [&](auto e) {
      {
        // cells that cannot meet the gap: half a diagonal away from it, or that deep in a particle
        X<D> m; double del = 0., s1 = 0., s2 = 0.; for (int d = 0; d < D; ++d) { m[d] = (e[d] + .5) * g.h[d]; del += .25 * g.h[d] * g.h[d]; s1 += (m[d] - p.c1[d]) * (m[d] - p.c1[d]); s2 += (m[d] - p.c2[d]) * (m[d] - p.c2[d]); }
        del = 1.01 * std::sqrt(del); auto l = p.local(m); double q = std::sqrt(lub::Pair<D>::q_of(l));
        if (q > p.cut + del || l[0] < -p.r1 - del || l[0] > p.a + p.r2 + del || std::sqrt(s1) < p.r1 - del || std::sqrt(s2) < p.r2 - del) return;
      }
      if (turn++ % np() != S().rank) return;  // the work is shared, the result is not
      ref::for_each<D>(ref::filled<D>(SUB), [&](auto s) {
        X<D> x, t; for (int d = 0; d < D; ++d) { t[d] = double(s[d]) / SUB; x[d] = (e[d] + t[d]) * g.h[d]; }
        if (p.margin(x) < 1e-9) ok = 0;
        if (!p.in_gap(x)) return;
        used++;
        auto v = p.at(x);
        ref::for_each<D>(ref::filled<D>(2), [&](auto c) {
          size_t k = ref::Grid<D>::idx(ref::add<D>(e, c), nv);
          double f = 1.; X<D> gr; for (int d = 0; d < D; ++d) { f *= c[d] ? t[d] : 1. - t[d]; gr[d] = (c[d] ? 1. : -1.) / g.h[d]; for (int m = 0; m < D; ++m) if (m != d) gr[d] *= c[m] ? t[m] : 1. - t[m]; }
          for (int d = 0; d < D; ++d) { double q = v.p * gr[d]; for (int m = 0; m < D; ++m) q -= v.g[d][m] * gr[m]; a[k * D + d] += w * vol * q; b[k * D + d] += w * f * v.u[d]; }
        });
      });
    });
  }
  MPI_Allreduce(MPI_IN_PLACE, a.data(), (int)a.size(), MPI_DOUBLE, MPI_SUM, PETSC_COMM_WORLD);
  MPI_Allreduce(MPI_IN_PLACE, b.data(), (int)b.size(), MPI_DOUBLE, MPI_SUM, PETSC_COMM_WORLD);
  MPI_Allreduce(MPI_IN_PLACE, &used, 1, MPI_LONG, MPI_SUM, PETSC_COMM_WORLD);
  MPI_Allreduce(MPI_IN_PLACE, &ok, 1, MPI_INT, MPI_MIN, PETSC_COMM_WORLD);
  return ok;
}

template<int D> void one(DM dm, ref::Grid<D> const &g, std::string const &mesh, std::vector<Body<D>> const &bodies)
{
  std::string key = mesh + fmt(" %zu particles", bodies.size()); for (auto const &b : bodies) key += " (" + str<D>(b.c) + fmt(" r %.4g v ", b.r) + str<D>(b.v) + ")";
  if (!begin_case(key)) return;
  for (auto const &b : bodies) if (std::sqrt(2.) * g.h[0] > .99 * b.r) { note("not explored: particle smaller than a cell"); return; }
  std::vector<double> a, b; long used;
  if (!sums<D>(g, bodies, a, b, used)) { note("skipped: an integration point exactly on a border"); return; }
  Layout L(dm); size_t N = L.N, Nv = L.Nv;
  fem::dirichlet_conditions<D> bc{{}}; pb::context<D> pctx{dm, g.h, nullptr, nullptr, bc};
  Held<D> f; f.problem.ctx = &pctx; DMCreateGlobalVector(dm, &f.problem.sol); DMCreateGlobalVector(dm, &f.problem.rhs);
  for (auto const &x : bodies) f.particles.push_back(part(x));
  auto n0 = f.particles.size(); f.surf.resize(n0); f.radial.resize(n0); f.nb.assign(n0, 0); f.num.assign(n0, 0);
  auto ctx = f.context();
  auto val = [](size_t i) { return std::sin(1.3 * i + .2); };
  std::vector<double> init(N); for (size_t i = 0; i < N; ++i) init[i] = val(i);
  double as = 1., bs = 1.; for (double x : a) as = std::max(as, std::fabs(x)); for (double x : b) bs = std::max(bs, std::fabs(x));
  for (int turn = 0; turn < (D == 2 ? 2 : 1); ++turn)
  {
    L.scatter(init, f.problem.rhs); L.scatter(init, f.problem.sol);
    sg::add_singularity_in_fluid<D>(ctx); op();
    auto w = init; for (size_t i = 0; i < Nv; ++i) w[i] += a[i];
    expect_same(L.gather(f.problem.rhs), w, 1e-7, turn ? "right-hand side, second time" : "right-hand side", as);
    expect_same(L.gather(f.problem.sol), init, 0., "solution while the right-hand side changes", 1.);
    {
      L.scatter(init, f.problem.rhs);
      sg::add_singularity_to_last_sol<D>(ctx, f.problem.sol); op();
      w = init; for (size_t i = 0; i < Nv; ++i) w[i] += b[i];
      expect_same(L.gather(f.problem.sol), w, 1e-8, turn ? "solution, second time" : "solution", bs);
      expect_same(L.gather(f.problem.rhs), init, 0., "right-hand side while the solution changes", 1.);
    }
  }
  for (size_t i = 0; i < bodies.size(); ++i) for (int d = 0; d < D; ++d) expect(f.particles[i].velocity_[d] == bodies[i].v[d] && f.particles[i].center_[d] == bodies[i].c[d], "particles unchanged");
  if (used) note("integration points in gaps", used);
  outcome(key); trace(); sample(key + fmt(": %ld points", used));
  VecDestroy(&f.problem.sol); VecDestroy(&f.problem.rhs);
}

template<int D> Body<D> second(Body<D> const &a, X<D> dir, double r, double gap, X<D> v)
{
  double n = 0.; for (double x : dir) n += x * x; n = std::sqrt(n);
  Body<D> b{{}, r, v}; for (int d = 0; d < D; ++d) b.c[d] = a.c[d] + dir[d] / n * (a.r + r + gap); return b;
}

template<int D> void mesh(std::array<int, D> n, std::array<int, D> per, X<D> len, std::vector<X<D>> const &dirs, std::vector<X<D>> const &vel)
{
  ref::Grid<D> g{n, per, {}}; for (int d = 0; d < D; ++d) g.h[d] = .5 * len[d] / (n[d] - 1);
  if (!feasible<D>(g.np())) { note("refused by PETSc"); return; }
  std::array<PetscBool, D> period; for (int d = 0; d < D; ++d) period[d] = per[d] ? PETSC_TRUE : PETSC_FALSE;
  DM dm; if (fem::createMesh<D>(dm, n, period)) return;
  std::string key = fmt("np=%d dim=%d n=%s per=%s L=%s", np(), D, show<D>(n).c_str(), show<D>(per).c_str(), str<D>(len).c_str());
  double m = *std::min_element(len.begin(), len.end()); size_t k = 0;
  one<D>(dm, g, key, {});
  for (size_t id = 0; id < dirs.size(); ++id) for (double place : {.5, .23, .81}) for (double ratio : {1., .7, 1.5}) for (double gap : {.012, .05})
  {
    ++k; if (!thorough() && k % (D == 2 ? 3 : 8) != id % (D == 2 ? 3 : 8)) continue;
    Body<D> a; a.r = .17 * m; double r2 = a.r * ratio, nd = 0.; for (double x : dirs[id]) nd += x * x; nd = std::sqrt(nd);
    // the gap is at a given place of the domain, sometimes across its border
    for (int d = 0; d < D; ++d) { a.c[d] = len[d] * (d == 0 ? place : .52 - .03 * d) - dirs[id][d] / nd * (a.r + .5 * gap * m) + .0037; a.v[d] = .3 * d - .2; }
    X<D> v = a.v; for (int d = 0; d < D; ++d) v[d] += vel[k % vel.size()][d];
    auto b = second<D>(a, dirs[id], r2, gap * m, v);
    one<D>(dm, g, key, {a, b});
    if (k % 2 == 0)
    {
      X<D> q{}; q[0] = -dirs[id][1]; q[1] = dirs[id][0]; if (q[0] == 0. && q[1] == 0.) q[0] = 1.;
      auto c = second<D>(a, q, .8 * a.r, .03 * m, X<D>{});
      one<D>(dm, g, key, {c, a, b}); one<D>(dm, g, key, {b, a});
    }
    if (k % 9 == 0) one<D>(dm, g, key, {a});
  }
  close_case(); DMDestroy(&dm);
}

// close and far particles in every order: a pair, a particle farther than 1 from it, and what is close to that one
template<int D> void crowds(std::array<int, D> n, std::array<int, D> per, X<D> len, std::vector<std::vector<Body<D>>> const &sets)
{
  ref::Grid<D> g{n, per, {}}; for (int d = 0; d < D; ++d) g.h[d] = .5 * len[d] / (n[d] - 1);
  if (!feasible<D>(g.np())) { note("refused by PETSc"); return; }
  std::array<PetscBool, D> period; for (int d = 0; d < D; ++d) period[d] = per[d] ? PETSC_TRUE : PETSC_FALSE;
  DM dm; if (fem::createMesh<D>(dm, n, period)) return;
  std::string key = fmt("np=%d dim=%d n=%s per=%s L=%s", np(), D, show<D>(n).c_str(), show<D>(per).c_str(), str<D>(len).c_str());
  for (auto const &b : sets)
  {
    std::vector<size_t> o; for (size_t i = 0; i < b.size(); ++i) o.push_back(i);
    do { std::vector<Body<D>> v; for (size_t i : o) v.push_back(b[i]); one<D>(dm, g, key, v); } while (std::next_permutation(o.begin(), o.end()));
  }
  close_case(); DMDestroy(&dm);
}

// ---- the solver
using cpl::V;
static void spin(Body<2> const &, double *w) { w[0] = .4; }
static void spin(Body<3> const &, double *w) { w[0] = .4; w[1] = -.3; w[2] = .2; }

template<int D> void solver(std::array<int, D> n, std::array<int, D> per, X<D> len, bool strain, std::vector<Body<D>> const &bodies, double dpart)
{
  std::string key = fmt("np=%d DtoN n=%s per=%s L=%s %s step=%g", np(), show<D>(n).c_str(), show<D>(per).c_str(), str<D>(len).c_str(), strain ? "strain" : "laplacian", dpart);
  for (auto const &b : bodies) key += " (" + str<D>(b.c) + fmt(" r %.4g v ", b.r) + str<D>(b.v) + ")";
  ref::Grid<D> g{n, per, {}}; for (int d = 0; d < D; ++d) g.h[d] = .5 * len[d] / (n[d] - 1);
  if (!feasible<D>(g.np())) { note("refused by PETSc"); return; }
  if (!begin_case(key)) return;
  for (auto const &b : bodies) if (std::sqrt(2.) * g.h[0] > .99 * b.r) { note("not explored: particle smaller than a cell"); return; }
  twin::g_data = 2;
  V a, b; long used; if (!sums<D>(g, bodies, a, b, used)) { note("skipped: an integration point exactly on a border"); return; }
  Options o;
  twin::options<D>(o, n, per, len, strain, D == 2);
  o.set("-dton_ksp_type", std::string("gmres")); o.set("-dton_ksp_rtol", std::string("1e-9")); o.set("-dton_ksp_gmres_restart", 150); o.set("-dton_ksp_max_it", 150);
  auto st = twin::Of<D>::stokes();
  std::vector<twin::Particle<D>> parts; std::vector<cpl::BallT<D>> balls;
  for (auto const &x : bodies) { parts.push_back(part(x)); cpl::BallT<D> q; for (int c = 0; c < D; ++c) q.c[c] = x.c[c]; q.r = x.r; balls.push_back(q); }
  auto s = cafes::make_DtoN(parts, st, twin::Of<D>::make_step(dpart)); s.use_sing = true;
  s.create_Mat_and_Vec(); op();
  cpl::FluidT<D> fl(g, strain); twin::set_data(fl);
  cpl::Inverse<D> inv(fl, st.ctx->dm); if (D == 3) inv.use(s.problem_.ksp);
  for (size_t i = 0; i < fl.Nv; ++i) if (!fl.dir[i]) fl.data[i] += a[i];
  fl.place(balls, cpl::surface_points(s.surf_points_, g.h), cpl::owned_boxes<D>(st.ctx->dm));
  if (fl.borderline()) { note("skipped: a node exactly on a border"); return; }
  size_t n2 = D * fl.ctl.size();
  auto rel = [&](V t) { for (size_t i = 0; i < fl.surf.size(); ++i) { auto const &x = bodies[fl.surf[i].part]; double w[3]; spin(x, w); auto q = cpl::turn<D>(w, fl.surf[i].r); for (int c = 0; c < D; ++c) t[D * i + c] -= x.v[c] + q[c]; } return t; };
  auto affine = [&](V const &x) { return fl.restrict_(fl.spread(rel(fl.trace(fl.drive(x, true))))); };
  V zero(n2, 0.);
  double sc = 0.; auto w = affine(zero); for (auto &v : w) { v = -v; sc = std::max(sc, std::fabs(v)); }
  V first; bool ready = false;
  for (int turn = 0; turn < 2; ++turn)
  {
    s.setup_RHS(); op();
    expect_same(cpl::vec_get(s.rhs), w, 1e-6, turn ? "right-hand side, second time" : "right-hand side", sc);
    if (!ready) { s.setup_KSP(); ready = true; }
    s.solve(); op();
    auto c = cpl::vec_get(s.sol); expect(c.size() == n2, "number of control unknowns"); if (c.size() != n2) return;
    auto res = affine(c); double rm = 0.; for (double v : res) rm = std::max(rm, std::fabs(v));
    S().comparisons++; if (!(rm <= 1e-6 * sc)) fail(fmt("solve %d: residual %.3g of a right-hand side of size %.3g", turn, rm, sc));
    Layout L(st.ctx->dm); auto u = L.gather(s.problem_.sol); auto want = fl.drive(c, true); double us = 1e-3;
    for (size_t i = 0; i < fl.Nv; ++i) { want[i] += b[i]; us = std::max(us, std::fabs(want[i])); }
    for (size_t i = 0; i < fl.Nv; ++i) { S().comparisons++; if (!(std::fabs(u[i] - want[i]) <= 1e-6 * us)) { fail(fmt("solve %d: velocity %zu is %.12g, want %.12g", turn, i, u[i], want[i])); break; } }
    if (turn == 0) first.assign(u.begin(), u.begin() + fl.Nv);
    else for (size_t i = 0; i < fl.Nv; ++i) { S().comparisons++; if (!(std::fabs(u[i] - first[i]) <= 1e-4 * us)) { fail(fmt("second solve: velocity %zu is %.9g, the first gave %.9g", i, u[i], first[i])); break; } }
    PetscInt its; KSPGetIterationNumber(s.ksp, &its); outcome(fmt("its %d", (int)its));
    // the operator has no part of the field in it
    Vec x, y; VecDuplicate(s.sol, &x); VecDuplicate(s.sol, &y);
    s.ctx->compute_rhs = s.ctx->add_rigid_motion = s.ctx->compute_singularity = false;
    V d(n2); for (size_t i = 0; i < n2; ++i) d[i] = std::sin(1.9 * i) + .3;
    cpl::vec_set(x, [&](size_t i) { return d[i]; }); MatMult(s.A, x, y); op();
    auto ly = fl.restrict_(fl.spread(fl.trace(fl.drive(d, false)))); double ls = 0.; for (double v : ly) ls = std::max(ls, std::fabs(v));
    expect_same(cpl::vec_get(y), ly, 1e-7, "operator", ls);
    VecDestroy(&x); VecDestroy(&y);
  }
  trace(); sample(key + fmt(": %zu control unknowns, %ld points in gaps", n2, used));
  KSPDestroy(&s.ksp); MatDestroy(&s.A); VecDestroy(&s.sol); VecDestroy(&s.rhs);
  VecDestroy(&st.sol); VecDestroy(&st.rhs); MatDestroy(&st.A); MatDestroy(&st.P); DMDestroy(&st.ctx->dm);
}

int main(int argc, char **argv)
{
  init(&argc, &argv);
  bool t = thorough();
  std::vector<X<2>> d2; for (int i = -1; i <= 1; ++i) for (int j = -1; j <= 1; ++j) if (i || j) d2.push_back({double(i), double(j)}); d2.push_back({2, 1}); d2.push_back({-1, 3});
  std::vector<X<2>> v2 = {{1, 0}, {0, 1}, {-1, .5}, {.7, -2}};
  for (auto per : {std::array<int, 2>{0, 0}, {1, 0}, {0, 1}})
  {
    mesh<2>({11, 11}, per, {1., 1.}, d2, v2);
    mesh<2>({9, 20}, per, {.8, 1.4}, d2, v2);
    if (t) { mesh<2>({16, 13}, per, {1.3, 1.}, d2, v2); mesh<2>({24, 24}, per, {1., 1.}, d2, v2); }
  }
  std::vector<X<3>> d3 = {{1, 0, 0}, {0, 1, 0}, {0, 0, 1}, {-1, 0, 0}, {1, 1, 0}, {1, -1, 1}, {-1, 2, 3}}; std::vector<X<3>> v3 = {{1, 0, 0}, {0, 1, -1}, {-1, .5, 2}, {.7, -2, 0}};
  if (t) for (int i = -1; i <= 1; ++i) for (int j = -1; j <= 1; ++j) for (int k = -1; k <= 1; ++k) if (i || j || k) d3.push_back({double(i), double(j), double(k)});
  mesh<3>({10, 9, 10}, {0, 0, 0}, {1., 1., 1.}, d3, v3);
  mesh<3>({9, 8, 8}, {1, 0, 0}, {.8, 1.2, 1.}, d3, v3);
  if (t) { mesh<3>({12, 10, 9}, {0, 0, 1}, {1., .9, .8}, d3, v3); mesh<3>({11, 10, 11}, {0, 1, 0}, {1., 1., 1.}, d3, v3); }
  {
    Body<2> a{{.4337, .5219}, .2113, {1., .3}}, b = second<2>(a, {1, .3}, .17, .03, {-.5, .2}), c{{2.3113, .4727}, .1913, {.2, -.4}}, d = second<2>(c, {.2, 1}, .15, .05, {.3, .9}), e = second<2>(a, {.1, 1}, .13, .04, {0., -1.});
    std::vector<std::vector<Body<2>>> sets{{a, c}, {a, b, c}, {a, b, c, d}, {a, b, e}, {a, b, e, c}};
    crowds<2>({31, 11}, {0, 0}, {3., 1.}, sets); crowds<2>({25, 9}, {1, 0}, {3., 1.}, sets);
    Body<3> p{{.4337, .5219, .4727}, .2513, {1., .3, 0.}}, q = second<3>(p, {1, .3, -.2}, .22, .03, {-.5, .2, .1}), r{{2.4113, .4727, .5219}, .2113, {.2, -.4, 1.}};
    crowds<3>({21, 7, 7}, {0, 0, 0}, {3., 1., 1.}, {{p, q, r}});
  }
  for (int strain = 0; strain < 2; ++strain)
  {
    Body<2> a{{.31, .47}, .16, {.6, -.2}};
    solver<2>({7, 7}, {0, 0}, {1., 1.}, strain, {a, second<2>(a, {1, .2}, .17, .04, {-.7, .3})}, .9);
    solver<2>({8, 5}, {0, 0}, {1.4, 1.}, strain, {a, second<2>(a, {1, .4}, .2, .05, {.1, .5})}, 1.1);
    solver<2>({6, 6}, {1, 0}, {1., 1.}, strain, {a, second<2>(a, {1, .3}, .15, .05, {.1, .5})}, 1.1);
    Body<3> p{{.4337, .4919, .4227}, .241, {.6, -.2, .3}}; auto q = second<3>(p, {1, .2, -.1}, .23, .04, {-.5, .2, .1});
    if (t || strain) solver<3>({7, 4, 4}, {0, 0, 0}, {1.5, 1., .8}, strain, {p, q}, 1.4);
    if (t || !strain) solver<3>({4, 4, 5}, {0, 0, 0}, {.8, 1., 1.2}, strain, {Body<3>{{.4337, .4919, .3827}, .27, {.6, -.2, .3}}, Body<3>{{.4211, .5073, .8827}, .21, {-.6, .1, -.3}}}, 1.5);
    if (t) { Body<2> c{{.5, .28}, .14, {1., 1.}}; auto d = second<2>(c, {-.5, 1.}, .15, .03, {-.4, .2}); solver<2>({9, 9}, {0, 0}, {1., 1.}, strain, {c, d, second<2>(c, {.8, .9}, .13, .04, {.3, -1.})}, .7); }
  }
  return finish();
}
