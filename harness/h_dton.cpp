// Property: the Dirichlet-to-Neumann solver.  Its operator is the linear map
//   control -> fluid -> trace on the particles -> simple layer -> fluid -> restriction
// whatever was computed before, its right-hand side is minus the affine part (fluid data and rigid
// motions), and after solve() the fluid is the one driven by the control found, which makes it move
// like the particles on their surfaces.
#include "coupled.hpp"
#include <cafes.hpp>
#include "twin.hpp"
using namespace vp;
using cpl::V; using twin::Of; using twin::g_data;

template<int D> void one(std::array<int, D> n, std::array<int, D> per, std::array<double, D> len, bool strain, bool assembled, std::vector<cpl::BallT<D>> const &balls, double dpart, int data)
{
  std::string lens; for (int d = 0; d < D; ++d) lens += (d ? "," : "") + fmt("%g", len[d]);
  std::string key = fmt("np=%d n=%s per=%s L=%s %s %s step=%g data=%d particles", np(), show<D>(n).c_str(), show<D>(per).c_str(), lens.c_str(), strain ? "strain" : "laplacian", assembled ? "assembled" : "matrix-free", dpart, data);
  for (auto const &b : balls) { key += " ("; for (int d = 0; d < D; ++d) key += (d ? "," : "") + fmt("%.4g", b.c[d]); key += fmt(" r %.4g)", b.r); }
  ref::Grid<D> g{n, per, {}}; for (int d = 0; d < D; ++d) g.h[d] = .5 * len[d] / (n[d] - 1);
  if (!feasible<D>(g.np())) { note("refused by PETSc"); return; }
  if (!begin_case(key)) return;
  g_data = data;
  Options o;
  twin::options<D>(o, n, per, len, strain, assembled);
  o.set("-dton_ksp_type", std::string("gmres")); o.set("-dton_ksp_rtol", std::string(assembled ? "1e-9" : "1e-6")); o.set("-dton_ksp_gmres_restart", 150); o.set("-dton_ksp_max_it", 150);
  auto st = Of<D>::stokes();
  int const W = cpl::ROT<D>;
  auto motion = [&](int ip, int turn, double *m) { if (D == 2) { m[0] = 1. - .4 * ip + turn; m[1] = .5 + .3 * ip - 2. * turn; m[2] = 2. - 3. * ip + turn; } else for (int k = 0; k < D + W; ++k) m[k] = 1. - .4 * k * ip + std::cos(2. * k) + turn * (k - 2.); };
  std::vector<twin::Particle<D>> parts;
  for (size_t ip = 0; ip < balls.size(); ++ip) { double m[6]; motion(ip, 0, m); parts.push_back(twin::moving(balls[ip], m)); }
  auto s = cafes::make_DtoN(parts, st, Of<D>::make_step(dpart));
  s.create_Mat_and_Vec(); op();
  cpl::FluidT<D> fl(g, strain); twin::set_data(fl);
  fl.place(balls, cpl::surface_points(s.surf_points_, g.h), cpl::owned_boxes<D>(st.ctx->dm));
  cpl::Inverse<D> inv(fl, st.ctx->dm); if (D == 3) inv.use(s.problem_.ksp);
  if (fl.borderline()) { note("skipped: a node exactly on a border"); return; }
  PetscInt total; VecGetSize(s.sol, &total);
  expect((size_t)total == D * fl.ctl.size(), fmt("%d unknowns, want %zu", (int)total, D * fl.ctl.size()));
  if (S().fails_in_case) return;
  size_t n2 = D * fl.ctl.size();
  auto rel = [&](V t, int turn) { for (size_t i = 0; i < fl.surf.size(); ++i) { double m[6]; motion(fl.surf[i].part, turn, m); auto q = cpl::turn<D>(m + D, fl.surf[i].r); for (int c = 0; c < D; ++c) t[D * i + c] -= m[c] + q[c]; } return t; };
  auto lin = [&](V const &x) { return fl.restrict_(fl.spread(fl.trace(fl.drive(x, false)))); };
  auto affine = [&](V const &x, int turn) { return fl.restrict_(fl.spread(rel(fl.trace(fl.drive(x, true)), turn))); };
  V zero(n2, 0.);
  Vec x, y; VecDuplicate(s.sol, &x); VecDuplicate(s.sol, &y);
  ref::Dense A(n2, n2); double amax = 0.;
  for (size_t k = 0; k < n2; ++k) { V e(n2, 0.); e[k] = 1.; auto c = lin(e); for (size_t i = 0; i < n2; ++i) { A(i, k) = c[i]; amax = std::max(amax, std::fabs(c[i])); } }
  auto mult = [&](V const &X, const char *what) {
    double sc = 0.; for (double v : X) sc = std::max(sc, std::fabs(v));
    cpl::vec_set(x, [&](size_t i) { return X[i]; }); VecSet(y, 4.);
    MatMult(s.A, x, y); op();
    V w(n2, 0.); for (size_t i = 0; i < n2; ++i) for (size_t k = 0; k < n2; ++k) w[i] += A(i, k) * X[k];
    expect_same(cpl::vec_get(y), w, 1e-7, what, amax * sc);
    expect_same(cpl::vec_get(x), X, 0., "argument of the operator", 1.);
  };
  V dense(n2); for (size_t i = 0; i < n2; ++i) dense[i] = std::sin(1.9 * i) + .3;
  // can the control see every layer?  (then no residual means no relative velocity on the surfaces)
  bool sees = true;
  {
    size_t m = D * fl.surf.size(); std::vector<V> q; double dmax = 0.;
    for (size_t k = 0; k < m; ++k) if (fl.first(k / D)) { V e(m, 0.); e[k] = 1.; q.push_back(fl.restrict_(fl.spread(e))); }
    m = q.size();
    for (size_t k = 0; k < m && sees; ++k) // Gram-Schmidt with pivoting
    {
      size_t best = k; auto nrm = [&](size_t i) { double r = 0.; for (double v : q[i]) r += v * v; return std::sqrt(r); };
      for (size_t i = k + 1; i < m; ++i) if (nrm(i) > nrm(best)) best = i;
      std::swap(q[k], q[best]); double d = nrm(k); if (k == 0) dmax = d; if (d < 1e-4 * dmax) { sees = false; break; }
      for (size_t i = k + 1; i < m; ++i) { double p = 0.; for (size_t j = 0; j < n2; ++j) p += q[i][j] * q[k][j]; p /= d * d; for (size_t j = 0; j < n2; ++j) q[i][j] -= p * q[k][j]; }
    }
  }
  // a fresh operator is the linear one
  mult(dense, "operator before anything else");
  auto setup = [&](int turn, const char *what) {
    s.setup_RHS(); op();
    auto w = affine(zero, turn); double sc = 0.; for (auto &v : w) { v = -v; sc = std::max(sc, std::fabs(v)); }
    expect_same(cpl::vec_get(s.rhs), w, 1e-7, what, sc);
    return sc;
  };
  double sc = setup(0, "right-hand side");
  s.setup_KSP(); op();
  auto solved = [&](int turn, double sc, const char *what) {
    s.solve(); op();
    KSPConvergedReason why; KSPGetConvergedReason(s.ksp, &why);
    PetscInt its; KSPGetIterationNumber(s.ksp, &its);
    auto c = cpl::vec_get(s.sol);
    // residual of the reference equations at the control found
    auto res = affine(c, turn); double rm = 0.; for (double v : res) rm = std::max(rm, std::fabs(v));
    if (!(rm <= (assembled ? 1e-7 : 1e-5) * sc)) fail(fmt("%s: residual %.3g of a right-hand side of size %.3g", what, rm, sc));
    Layout L(st.ctx->dm);
    auto u = L.gather(s.problem_.sol), want = fl.drive(c, true);
    double us = 1e-3; for (size_t i = 0; i < fl.Nv; ++i) us = std::max(us, std::fabs(want[i]));
    for (size_t i = 0; i < fl.Nv; ++i) { S().comparisons++; if (!(std::fabs(u[i] - want[i]) <= 1e-6 * us)) { fail(fmt("%s: velocity %zu is %.12g, the control found drives %.12g", what, i, u[i], want[i])); break; } }
    auto t = rel(fl.trace(u), turn), t0 = rel(fl.trace(fl.drive(zero, true)), turn);
    double tm = 0., t0m = 0.; for (double v : t) tm = std::max(tm, std::fabs(v)); for (double v : t0) t0m = std::max(t0m, std::fabs(v));
    outcome(fmt("%s its %d", what, (int)its)); if (getenv("VP_DEBUG")) fprintf(stderr,"%s %s its %d r %d res %g/%g trace %g / %g n2 %zu ns %zu\n",key.c_str(),what,(int)its,(int)why,rm,sc,tm,t0m,n2,fl.surf.size());
    note(sees ? "solves judged on the surfaces" : "solves with more surface points than the control can see");
    if (sees) { S().comparisons++; if (!(tm <= 1e-3 * t0m)) fail(fmt("%s: the fluid moves with %.3g relative to a particle's surface (%.3g without control)", what, tm, t0m)); }
    return V(u.begin(), u.begin() + fl.Nv);
  };
  auto u1 = solved(0, sc, "solve");
  // the operator is still the linear one during a solve: apply it with the flags of a solve
  s.ctx->compute_rhs = s.ctx->add_rigid_motion = s.ctx->compute_singularity = false;
  if (assembled && (data == 2 || per[0] || per[1])) for (size_t k = 0; k < n2 && !S().fails_in_case; ++k) { V e(n2, 0.); e[k] = 1.; mult(e, fmt("operator, column %zu", k).c_str()); }
  mult(dense, "operator after a solve");
  // once more, and with other motions
  sc = setup(0, "right-hand side, second time");
  auto u2 = solved(0, sc, "second solve");
  double us = 0.; for (double v : u1) us = std::max(us, std::fabs(v));
  for (size_t i = 0; i < u1.size(); ++i) { S().comparisons++; if (!(std::fabs(u1[i] - u2[i]) <= 1e-4 * us)) { fail(fmt("second solve: velocity %zu is %.9g, the first gave %.9g", i, u2[i], u1[i])); break; } }
  for (size_t ip = 0; ip < balls.size(); ++ip) { double m[6]; motion(ip, 1, m); for (int c = 0; c < D; ++c) s.parts_[ip].velocity_[c] = m[c]; twin::set_spin(s.parts_[ip], m + D); }
  sc = setup(1, "right-hand side of another motion");
  solved(1, sc, "solve of another motion");
  trace(); sample(key + fmt(": %zu control unknowns, %zu surface points", n2, fl.surf.size()));
  VecDestroy(&x); VecDestroy(&y); KSPDestroy(&s.ksp); MatDestroy(&s.A); VecDestroy(&s.sol); VecDestroy(&s.rhs);
  VecDestroy(&st.sol); VecDestroy(&st.rhs); MatDestroy(&st.A); MatDestroy(&st.P); DMDestroy(&st.ctx->dm);
}

int main(int argc, char **argv)
{
  init(&argc, &argv);
  bool t = thorough();
  for (int data = 0; data < 3; ++data)
    for (int strain = 0; strain < 2; ++strain)
      for (int as = 1; as >= 0; --as)
      {
        if (!t && !as && (data != 2 || np() > 1)) continue;
        one<2>({6, 6}, {0, 0}, {1., 1.}, strain, as, {{{.52, .47}, .23}}, .8, data);
        one<2>({8, 5}, {0, 0}, {1.5, 1.}, strain, as, {{{.45, .47}, .26}, {{1.08, .55}, .21}}, 1.2, data);
        if (data != 1) { one<2>({7, 5}, {1, 0}, {1.2, 1.}, strain, as, {{{.61, .43}, .27}}, .9, 0); one<2>({5, 7}, {0, 1}, {1., 1.2}, strain, as, {{{.47, .59}, .27}}, .8, 0); }
        if (as) one<2>({8, 8}, {0, 0}, {1., 1.}, strain, as, {{{.3, .31}, .17}, {{.71, .28}, .18}, {{.49, .72}, .16}}, .8, data);
        if (t) { one<2>({5, 9}, {0, 0}, {1., 2.}, strain, as, {{{.51, .57}, .28}, {{.48, 1.4}, .31}}, .7, data); one<2>({9, 9}, {0, 0}, {1., 1.}, strain, as, {{{.52, .47}, .23}}, .4, data); one<2>({9, 9}, {0, 0}, {1., 1.}, strain, as, {{{.49, .53}, .34}}, .35, data); }
      }
  for (int data = 0; data < 3; ++data)
    for (int strain = 0; strain < 2; ++strain)
    {
      if (!t && (data + strain) % 2) continue;
      one<3>({4, 3, 4}, {0, 0, 0}, {1., .8, 1.1}, strain, false, {{{.52, .37, .51}, .24}}, 1.3, data);
      one<3>({4, 4, 4}, {0, 0, 0}, {1., 1., 1.}, strain, false, {{{.52, .47, .51}, .31}}, 1.3, data);
      if (t || data == 2) one<3>({6, 4, 3}, {0, 0, 0}, {1.6, 1., .7}, strain, false, {{{.43, .49, .36}, .24}, {{1.12, .53, .33}, .23}}, 1.4, data);
      if (t || data == 0) one<3>({5, 4, 4}, {1, 0, 0}, {1.3, 1., 1.1}, strain, false, {{{.52, .47, .51}, .31}}, 1.3, 0);
    }
  return finish();
}
