// Property: the smooth extension solver for particles carrying forces.  Its operator is the linear map
//   control -> fluid -> trace without its rigid motion -> simple layer -> fluid -> restriction
//   without the rigid motion of the particle
// whatever was computed before; its right-hand side is minus the affine part (fluid data, forces);
// after solve() the fluid is the one driven by control and forces, particles that move rigidly, and
// velocities, forces and torques are read off it.
#include "coupled.hpp"
#include <cafes.hpp>
#include "twin.hpp"
using namespace vp;
using cpl::V; using twin::Of; using twin::g_data;

template<int D> void one(std::array<int, D> n, std::array<int, D> per, std::array<double, D> len, bool strain, bool assembled, std::vector<cpl::BallT<D>> const &balls, double dpart, int data)
{
  std::string lens; for (int d = 0; d < D; ++d) lens += (d ? "," : "") + fmt("%g", len[d]);
  std::string key = fmt("np=%d n=%s per=%s L=%s %s %s step=%g data=%d particles", np(), show<D>(n).c_str(), show<D>(per).c_str(), lens.c_str(), strain ? "strain" : "laplacian", assembled ? "assembled" : "matrix-free", dpart, data);
  for (auto const &b : balls) { key += " ("; for (int d = 0; d < D; ++d) key += (d ? "," : "") + fmt("%.4g", b.c[d]); key += fmt(" r %.4g)", b.r); }
  ref::Grid<D> g{n, per, {}}; for (int d = 0; d < D; ++d) g.h[d] = .5 * len[d] / (n[d] - 1);
  if (!feasible<D>(g.np())) { note("refused by PETSc"); return; }
  if (!begin_case(key)) return;
  g_data = data;
  Options o;
  twin::options<D>(o, n, per, len, strain, assembled);
  o.set("-sem_ksp_type", std::string("gmres")); o.set("-sem_ksp_rtol", std::string(assembled ? "1e-9" : "1e-6")); o.set("-sem_ksp_gmres_restart", 150); o.set("-sem_ksp_max_it", 150);
  auto st = Of<D>::stokes();
  int const W = cpl::ROT<D>;
  // force per unit mass, then the density
  auto force = [&](int ip, int turn, double *f) { double q[3] = {1. - 2. * ip + 3. * turn, -3. + ip - turn, 2. - .7 * ip + .5 * turn}; for (int c = 0; c < D; ++c) f[c] = q[c]; f[D] = 2. + .5 * ip; };
  std::vector<twin::Particle<D>> parts;
  for (size_t ip = 0; ip < balls.size(); ++ip) { double f[4]; force(ip, 0, f); parts.push_back(twin::pulled(balls[ip], f)); }
  auto s = cafes::make_SEM(parts, st, Of<D>::make_step(dpart));
  s.create_Mat_and_Vec(); op();
  cpl::FluidT<D> fl(g, strain); twin::set_data(fl);
  fl.place(balls, cpl::surface_points(s.surf_points_, g.h), cpl::owned_boxes<D>(st.ctx->dm));
  cpl::Inverse<D> inv(fl, st.ctx->dm); if (D == 3) inv.use(s.problem_.ksp);
  if (fl.borderline()) { note("skipped: a node exactly on a border"); return; }
  PetscInt total; VecGetSize(s.sol, &total);
  expect((size_t)total == D * fl.ctl.size(), fmt("%d unknowns, want %zu", (int)total, D * fl.ctl.size()));
  if (S().fails_in_case) return;
  size_t n2 = D * fl.ctl.size(), NP = balls.size();
  // rigid part of a trace on the surfaces: mean, and rotation (1/R^2, in 3D 3/(2 R^2)) sum r x g / n
  auto rigid = [&](V const &t, V &m, V &w) { m.assign(D * NP, 0.); w.assign(W * NP, 0.); for (size_t i = 0; i < fl.surf.size(); ++i) { auto const &q = fl.surf[i]; double n = fl.nsurf[q.part]; auto a = cpl::moment<D>(q.r, &t[D * i]); for (int c = 0; c < D; ++c) m[D * q.part + c] += t[D * i + c] / n; for (int c = 0; c < W; ++c) w[W * q.part + c] += a[c] / n * cpl::on_surface<D>(balls[q.part].r); } };
  auto layer = [&](V t) { V m, w; rigid(t, m, w); for (size_t i = 0; i < fl.surf.size(); ++i) { auto const &q = fl.surf[i]; auto v = cpl::turn<D>(&w[W * q.part], q.r); for (int c = 0; c < D; ++c) t[D * i + c] -= m[D * q.part + c] + v[c]; } return t; };
  // velocity at the control nodes without the mean motion of the particle (2/R^2, in 3D 5/(2 R^2), mean of r x u)
  auto inside = [&](V const &u) {
    V y = fl.restrict_(u), m(D * NP, 0.), w(W * NP, 0.);
    for (size_t ip = 0; ip < NP; ++ip) for (auto const &q : fl.pts[ip])
    {
      double v[D] = {}, r[D]; for (auto const &k : fl.weights(q.data())) for (int c = 0; c < D; ++c) v[c] += k.second * u[D * k.first + c];
      for (int c = 0; c < D; ++c) { m[D * ip + c] += v[c] / fl.pts[ip].size(); r[c] = q[c] - balls[ip].c[c]; }
      auto a = cpl::moment<D>(r, v); for (int c = 0; c < W; ++c) w[W * ip + c] += a[c] / fl.pts[ip].size() * cpl::in_volume<D>(balls[ip].r);
    }
    for (size_t i = 0; i < fl.ctl.size(); ++i) { auto const &q = fl.ctl[i]; auto v = cpl::turn<D>(&w[W * q.part], q.r); for (int c = 0; c < D; ++c) y[D * i + c] -= m[D * q.part + c] + v[c]; }
    return y;
  };
  auto with_forces = [&](V x, int turn) { for (size_t i = 0; i < fl.ctl.size(); ++i) { double f[4]; force(fl.ctl[i].part, turn, f); for (int c = 0; c < D; ++c) x[D * i + c] += f[D] * f[c]; } return x; };
  auto lin = [&](V const &x) { return inside(fl.spread(layer(fl.trace(fl.drive(x, false))))); };
  auto affine = [&](V const &x, int turn) { return inside(fl.spread(layer(fl.trace(fl.drive(with_forces(x, turn), true))))); };
  V zero(n2, 0.);
  Vec x, y; VecDuplicate(s.sol, &x); VecDuplicate(s.sol, &y);
  ref::Dense A(n2, n2); double amax = 0.;
  for (size_t k = 0; k < n2; ++k) { V e(n2, 0.); e[k] = 1.; auto c = lin(e); for (size_t i = 0; i < n2; ++i) { A(i, k) = c[i]; amax = std::max(amax, std::fabs(c[i])); } }
  auto mult = [&](V const &X, const char *what) {
    double sc = 0.; for (double v : X) sc = std::max(sc, std::fabs(v));
    cpl::vec_set(x, [&](size_t i) { return X[i]; }); VecSet(y, 4.);
    MatMult(s.A, x, y); op();
    V w(n2, 0.); for (size_t i = 0; i < n2; ++i) for (size_t k = 0; k < n2; ++k) w[i] += A(i, k) * X[k];
    expect_same(cpl::vec_get(y), w, 1e-7, what, amax * sc);
    expect_same(cpl::vec_get(x), X, 0., "argument of the operator", 1.);
  };
  V dense(n2); for (size_t i = 0; i < n2; ++i) dense[i] = std::sin(1.9 * i) + .3;
  // can the control see every motion that is not rigid?  (then no residual means rigid particles)
  auto rank = [&](std::vector<V> q) {
    double dmax = 0.; int r = 0;
    for (size_t k = 0; k < q.size(); ++k)
    {
      size_t best = k; auto nrm = [&](size_t i) { double t = 0.; for (double v : q[i]) t += v * v; return std::sqrt(t); };
      for (size_t i = k + 1; i < q.size(); ++i) if (nrm(i) > nrm(best)) best = i;
      std::swap(q[k], q[best]); double d = nrm(k); if (k == 0) dmax = d; if (d < 1e-4 * dmax) break;
      ++r;
      for (size_t i = k + 1; i < q.size(); ++i) { double p = 0.; for (size_t j = 0; j < q[i].size(); ++j) p += q[i][j] * q[k][j]; p /= d * d; for (size_t j = 0; j < q[i].size(); ++j) q[i][j] -= p * q[k][j]; }
    }
    return r;
  };
  bool sees;
  { size_t m = D * fl.surf.size(); std::vector<V> a, b; for (size_t k = 0; k < m; ++k) if (fl.first(k / D)) { V e(m, 0.); for (size_t i = k / D; i < m / D; ++i) if (fl.same(i, k / D)) e[D * i + k % D] = 1.; a.push_back(layer(e)); b.push_back(inside(fl.spread(a.back()))); } sees = rank(a) == rank(b); }
  note(sees ? "cases judged on the surfaces" : "cases with more surface points than the control can see");
  mult(dense, "operator before anything else");
  auto setup = [&](int turn, const char *what) {
    s.setup_RHS(); op();
    auto w = affine(zero, turn); double sc = 0.; for (auto &v : w) { v = -v; sc = std::max(sc, std::fabs(v)); }
    expect_same(cpl::vec_get(s.rhs), w, 1e-6, what, sc);
    return sc;
  };
  double sc = setup(0, "right-hand side");
  s.setup_KSP(); op();
  auto solved = [&](int turn, double sc, const char *what) {
    s.solve(); op();
    PetscInt its; KSPGetIterationNumber(s.ksp, &its);
    auto c = cpl::vec_get(s.sol);
    auto res = affine(c, turn); double rm = 0.; for (double v : res) rm = std::max(rm, std::fabs(v));
    if (!(rm <= (assembled ? 1e-6 : 1e-4) * sc)) fail(fmt("%s: residual %.3g of a right-hand side of size %.3g", what, rm, sc));
    Layout L(st.ctx->dm);
    auto u = L.gather(s.problem_.sol), want = fl.drive(with_forces(c, turn), true);
    double us = 1e-3, cs = 0.; for (size_t i = 0; i < fl.Nv; ++i) us = std::max(us, std::fabs(want[i]));
    for (double v : c) cs = std::max(cs, std::fabs(v));
    for (size_t i = 0; i < fl.Nv; ++i) { S().comparisons++; if (!(std::fabs(u[i] - want[i]) <= 1e-6 * us)) { fail(fmt("%s: velocity %zu is %.12g, control and forces drive %.12g", what, i, u[i], want[i])); break; } }
    auto t = fl.trace(u), l = layer(t), l0 = layer(fl.trace(fl.drive(with_forces(zero, turn), true)));
    double lm = 0., l0m = 0.; for (double v : l) lm = std::max(lm, std::fabs(v)); for (double v : l0) l0m = std::max(l0m, std::fabs(v));
    outcome(fmt("%s its %d", what, (int)its));
    if (getenv("VP_DEBUG")) fprintf(stderr, "%s %s its %d res %g/%g rigid %g / %g n2 %zu ns %zu control %g\n", key.c_str(), what, (int)its, rm, sc, lm, l0m, n2, fl.surf.size(), cs);
    if (sees) { S().comparisons++; if (!(lm <= 1e-3 * l0m)) fail(fmt("%s: the particles deform with %.3g (%.3g without control)", what, lm, l0m)); }
    // velocities: the mean of the trace
    V m, w; rigid(t, m, w);
    s.get_new_velocities(); op();
    for (size_t ip = 0; ip < NP; ++ip) for (int d = 0; d < D; ++d) expect_near(s.parts_[ip].velocity_[d], m[D * ip + d], 1e-9, us, "velocity of a particle");
    expect_same(L.gather(s.problem_.sol), u, 0., "get_new_velocities changed the solution", 1.);
    // forces and torques of the control: mean value times volume
    std::vector<cafes::geometry::vector<double, D>> FF(NP); std::vector<typename std::conditional<D == 2, double, cafes::geometry::vector<double, 3>>::type> TT(NP);
    s.get_new_forces_torques(FF, TT); op();
    V wf(D * NP, 0.), wt(W * NP, 0.);
    for (size_t i = 0; i < fl.ctl.size(); ++i) { auto const &q = fl.ctl[i]; double a = cpl::volume<D>(balls[q.part].r) * std::pow(fl.scale, D) / fl.pts[q.part].size(); auto v = cpl::moment<D>(q.r, &c[D * i]); for (int k = 0; k < D; ++k) wf[D * q.part + k] += a * c[D * i + k]; for (int k = 0; k < W; ++k) wt[W * q.part + k] += a * v[k]; }
    for (size_t ip = 0; ip < NP; ++ip) { double vol = cpl::volume<D>(balls[ip].r); for (int d = 0; d < D; ++d) expect_near(FF[ip][d], wf[D * ip + d], 1e-9, cs * vol, "force on a particle"); for (int d = 0; d < W; ++d) expect_near(twin::component(TT[ip], d), wt[W * ip + d], 1e-9, cs * vol * balls[ip].r, "torque on a particle"); }
    return V(u.begin(), u.begin() + fl.Nv);
  };
  auto u1 = solved(0, sc, "solve");
  s.ctx->compute_rhs = false;
  if (assembled && (data == 2 || per[0] || per[1])) for (size_t k = 0; k < n2 && !S().fails_in_case; ++k) { V e(n2, 0.); e[k] = 1.; mult(e, fmt("operator, column %zu", k).c_str()); }
  mult(dense, "operator after a solve");
  sc = setup(0, "right-hand side, second time");
  auto u2 = solved(0, sc, "second solve");
  double us = 0.; for (double v : u1) us = std::max(us, std::fabs(v));
  for (size_t i = 0; i < u1.size(); ++i) { S().comparisons++; if (!(std::fabs(u1[i] - u2[i]) <= 1e-4 * us)) { fail(fmt("second solve: velocity %zu is %.9g, the first gave %.9g", i, u2[i], u1[i])); break; } }
  for (size_t ip = 0; ip < NP; ++ip) { double f[4]; force(ip, 1, f); for (int c = 0; c < D; ++c) s.parts_[ip].force_[c] = f[c]; }
  sc = setup(1, "right-hand side of other forces");
  solved(1, sc, "solve with other forces");
  trace(); sample(key + fmt(": %zu control unknowns, %zu surface points", n2, fl.surf.size()));
  VecDestroy(&x); VecDestroy(&y); KSPDestroy(&s.ksp); MatDestroy(&s.A); VecDestroy(&s.sol); VecDestroy(&s.rhs);
  VecDestroy(&st.sol); VecDestroy(&st.rhs); MatDestroy(&st.A); MatDestroy(&st.P); DMDestroy(&st.ctx->dm);
}

int main(int argc, char **argv)
{
  init(&argc, &argv);
  bool t = thorough();
  for (int data = 0; data < 3; ++data)
    for (int strain = 0; strain < 2; ++strain)
      for (int as = 1; as >= 0; --as)
      {
        if (!t && !as && (data != 2 || np() > 1)) continue;
        one<2>({6, 6}, {0, 0}, {1., 1.}, strain, as, {{{.52, .47}, .23}}, .8, data);
        one<2>({8, 5}, {0, 0}, {1.5, 1.}, strain, as, {{{.45, .47}, .26}, {{1.08, .55}, .21}}, 1.2, data);
        if (data != 1) { one<2>({7, 5}, {1, 0}, {1.2, 1.}, strain, as, {{{.61, .43}, .27}}, .9, 0); one<2>({5, 7}, {0, 1}, {1., 1.2}, strain, as, {{{.47, .59}, .27}}, .8, 0); }
        if (as) one<2>({8, 8}, {0, 0}, {1., 1.}, strain, as, {{{.3, .31}, .17}, {{.71, .28}, .18}, {{.49, .72}, .16}}, .8, data);
        if (t) { one<2>({5, 9}, {0, 0}, {1., 2.}, strain, as, {{{.51, .57}, .28}, {{.48, 1.4}, .31}}, .7, data); one<2>({9, 9}, {0, 0}, {1., 1.}, strain, as, {{{.52, .47}, .23}}, .4, data); one<2>({9, 9}, {0, 0}, {1., 1.}, strain, as, {{{.49, .53}, .34}}, .35, data); }
      }
  for (int data = 0; data < 3; ++data)
    for (int strain = 0; strain < 2; ++strain)
    {
      if (!t && (data + strain) % 2) continue;
      one<3>({4, 3, 4}, {0, 0, 0}, {1., .8, 1.1}, strain, false, {{{.52, .37, .51}, .24}}, 1.3, data);
      one<3>({4, 4, 4}, {0, 0, 0}, {1., 1., 1.}, strain, false, {{{.52, .47, .51}, .31}}, 1.3, data);
      if (t || data == 2) one<3>({6, 4, 3}, {0, 0, 0}, {1.6, 1., .7}, strain, false, {{{.43, .49, .36}, .24}, {{1.12, .53, .33}, .23}}, 1.4, data);
      if (t || data == 0) one<3>({5, 4, 4}, {1, 0, 0}, {1.3, 1., 1.1}, strain, false, {{{.52, .47, .51}, .31}}, 1.3, 0);
    }
  return finish();
}
