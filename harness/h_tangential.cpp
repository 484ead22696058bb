// Property: the fields of the film between two bodies sliding along each other.  Whatever the
// curvatures, the gap, the velocity and the truncation: velocity, pressure and every derivative are
// those of the truncated Reynolds film (tang.hpp), in 2D and 3D; the velocity is divergence free, is
// the bodies' own on their surfaces, and nothing is left beyond the truncation.
// Conventions of the functions: in 2D the place is (normal, tangential) and x is the normal; in 3D it
// is (x, y, z) with z the normal, and the curvature of the second body is given first.
#include "common.hpp"
#include "tang.hpp"
#include <cafes.hpp>
using namespace vp;
namespace sg = cafes::singularity;

struct Par { double H, M, d, U, l, eps; };
#define TANG_2(x) [](Par const &p, sg::position2d const &X) { return double(sg::x##_tangMvt2D(X, p.H, p.M, p.d, p.U, p.l, p.eps, nullptr)); }
#define TANG_3(x) [](Par const &p, sg::position3d const &X) { return double(sg::x##_tangMvt3D(X, p.M, p.H, p.d, p.U, p.l, p.eps, nullptr)); }
using F2 = double (*)(Par const &, sg::position2d const &);
using F3 = double (*)(Par const &, sg::position3d const &);

static std::string name(Par const &p) { return fmt("curvatures %g %g gap %g velocity %g truncation %g+-%g", p.H, p.M, p.d, p.U, p.l, p.eps); }

// distances to the axis: through the plateau, the ramp and beyond
static std::vector<double> radii(Par const &p)
{
  std::vector<double> r; double R = std::sqrt(p.l + p.eps), R0 = std::sqrt(p.l - p.eps); int n = thorough() ? 20 : 7;
  for (int i = 0; i <= n; ++i) { r.push_back(R0 * i / n * .999); r.push_back(R0 + (R - R0) * (i + .5) / (n + 1)); }
  r.push_back(1e-5 * R); r.push_back(1.02 * R); r.push_back(3 * R);
  return r;
}

struct Scale { double u = 0, g = 0, p = 0; void see(tang::Value const &v) { for (int i = 0; i < 3; ++i) { u = std::max(u, std::fabs(v.u[i])); for (double x : v.g[i]) g = std::max(g, std::fabs(x)); } p = std::max(p, std::fabs(v.p)); } };

static void two(Par const &p)
{
  static F2 const u[2] = {TANG_2(uz_sing), TANG_2(ux_sing)};   // tangential, normal
  static F2 const g[2][2] = {{TANG_2(dzuz_sing), TANG_2(dxuz_sing)}, {TANG_2(dzux_sing), TANG_2(dxux_sing)}};
  static F2 const pr = TANG_2(p_sing_withT), dv = TANG_2(DIVCART);
  std::string key = "2D " + name(p);
  if (!begin_case(key)) return;
  struct Pt { double x, z; bool lo, hi; tang::Value w; }; std::vector<Pt> pts; Scale s; s.u = std::fabs(p.U) + 1e-3; s.g = s.u / p.d; s.p = s.g;
  for (double r : radii(p)) for (int side = -1; side <= 1; side += 2)
  {
    if (r == 0. && side > 0) continue;
    double x = side * r, z1 = -p.H * x * x / 2, z2 = p.d + p.M * x * x / 2; if (z2 - z1 < .2 * p.d) continue;
    for (int i = 0; i <= 6; ++i) { Pt t{x, z1 + (z2 - z1) * i / 6., i == 0, i == 6, {}}; t.w = tang::film(2, t.x, 0., t.z, p.H, p.M, p.d, p.U, p.l, p.eps); s.see(t.w); pts.push_back(t); }
  }
  for (auto const &t : pts)
  {
    if (S().fails_in_case >= 3) break;
    sg::position2d X; X[0] = t.z; X[1] = t.x; auto at = fmt(" at %.5g, %.5g", t.z, t.x); int m[2] = {0, 2};
    double q = t.x * t.x, got[2], gg[2][2], c = tang::chi(tang::T(q), p.l, p.eps).v();
    for (int a = 0; a < 2; ++a)
    {
      got[a] = u[a](p, X); expect_near(got[a], t.w.u[m[a]], 1e-9, s.u, ((a ? "normal velocity" : "tangential velocity") + at).c_str());
      for (int b = 0; b < 2; ++b) { gg[a][b] = g[a][b](p, X); expect_near(gg[a][b], t.w.g[m[a]][m[b]], 1e-9, s.g, (fmt("derivative %d of component %d", b, a) + at).c_str()); }
    }
    double P = pr(p, X), d = dv(p, X); op(8);
    expect_near(P, t.w.p, 1e-9, s.p, ("pressure" + at).c_str());
    expect(std::fabs(d) <= 1e-9 * s.g && std::fabs(gg[0][0] + gg[1][1]) <= 1e-9 * s.g, "divergence" + at);
    if (t.lo || t.hi) expect_near(got[0], (t.lo ? -.5 : .5) * p.U * c, 1e-9, s.u, ("the body's velocity" + at).c_str());
    if (t.lo || (t.hi && q < p.l - p.eps)) expect_near(got[1], 0., 1e-9, s.u, ("normal velocity on the body" + at).c_str());
    if (q > (p.l + p.eps) * (1 + 1e-9)) for (int a = 0; a < 2; ++a) expect(got[a] == 0. && gg[a][0] == 0. && gg[a][1] == 0. && P == 0., "field beyond the truncation" + at);
  }
  outcome(key); trace(); sample(key + fmt(": %zu points", pts.size()));
}

static void three(Par const &p)
{
  static F3 const u[3] = {TANG_3(ux_sing), TANG_3(uy_sing), TANG_3(uz_sing)};
  static F3 const g[3][3] = {{TANG_3(dxux_sing), TANG_3(dyux_sing), TANG_3(dzux_sing)}, {TANG_3(dxuy_sing), TANG_3(dyuy_sing), TANG_3(dzuy_sing)}, {TANG_3(dxuz_sing), TANG_3(dyuz_sing), TANG_3(dzuz_sing)}};
  static F3 const pr = TANG_3(p_sing_withT), dv = TANG_3(DIVCART), dc = TANG_3(DIVCYLIND);
  static F3 const cu[3] = {TANG_3(ur_sing), TANG_3(ut_sing), TANG_3(uz_sing)};
  static F3 const cg[3][3] = {{TANG_3(drur_sing), TANG_3(dtur_sing), TANG_3(dzur_sing)}, {TANG_3(drut_sing), TANG_3(dtut_sing), TANG_3(dzut_sing)}, {TANG_3(druz_sing), TANG_3(dtuz_sing), TANG_3(dzuz_sing)}};
  std::string key = "3D " + name(p);
  if (!begin_case(key)) return;
  struct Pt { double r, th, x[3]; bool lo, hi; tang::Value w; }; std::vector<Pt> pts; Scale s; s.u = std::fabs(p.U) + 1e-3; s.g = s.u / p.d; s.p = s.g;
  double pi = std::acos(-1.); std::vector<double> ths{0., pi / 2, pi, -pi / 2, .4, 2., 4.1}; if (thorough()) for (double t : {.9, 2.7, 3.6, 5.9}) ths.push_back(t);
  for (double r : radii(p)) for (double th : ths)
  {
    if (r == 0. && th != 0.) continue;
    double z1 = -p.H * r * r / 2, z2 = p.d + p.M * r * r / 2; if (z2 - z1 < .2 * p.d) continue;
    for (int i = 0; i <= 4; ++i)
    {
      Pt t; t.r = r; t.th = th; t.x[0] = r * std::cos(th); t.x[1] = r * std::sin(th); t.x[2] = z1 + (z2 - z1) * i / 4.; t.lo = i == 0; t.hi = i == 4;
      t.w = tang::film(3, t.x[0], t.x[1], t.x[2], p.H, p.M, p.d, p.U, p.l, p.eps); s.see(t.w); pts.push_back(t);
    }
  }
  for (auto const &t : pts)
  {
    if (S().fails_in_case >= 3) break;
    sg::position3d X; for (int a = 0; a < 3; ++a) X[a] = t.x[a];
    auto at = fmt(" at %.5g, %.5g, %.5g", t.x[0], t.x[1], t.x[2]);
    double q = t.r * t.r, got[3], gg[3][3], c = tang::chi(tang::T(q), p.l, p.eps).v();
    for (int a = 0; a < 3; ++a)
    {
      got[a] = u[a](p, X); expect_near(got[a], t.w.u[a], 1e-9, s.u, (fmt("velocity %d", a) + at).c_str());
      for (int b = 0; b < 3; ++b) { gg[a][b] = g[a][b](p, X); expect_near(gg[a][b], t.w.g[a][b], 1e-9, s.g, (fmt("derivative %d of component %d", b, a) + at).c_str()); }
    }
    double P = pr(p, X); op(14);
    expect_near(P, t.w.p, 1e-9, s.p, ("pressure" + at).c_str());
    expect(std::fabs(dv(p, X)) <= 1e-9 * s.g && std::fabs(gg[0][0] + gg[1][1] + gg[2][2]) <= 1e-9 * s.g, "divergence" + at);
    if (t.lo || t.hi) { expect_near(got[0], (t.lo ? -.5 : .5) * p.U * c, 1e-9, s.u, ("the body's velocity" + at).c_str()); expect_near(got[1], 0., 1e-9, s.u, ("the body's velocity" + at).c_str()); }
    if (t.lo || (t.hi && q < p.l - p.eps)) expect_near(got[2], 0., 1e-9, s.u, ("normal velocity on the body" + at).c_str());
    if (q > (p.l + p.eps) * (1 + 1e-9)) for (int a = 0; a < 3; ++a) { for (int b = 0; b < 3; ++b) expect(gg[a][b] == 0., "derivative beyond the truncation" + at); expect(got[a] == 0. && P == 0., "field beyond the truncation" + at); }
    // the same in cylindrical components: u_r, u_theta, u_z and their derivatives in r, theta, z
    double C = t.r == 0. ? 1. : t.x[0] / t.r, Sn = t.r == 0. ? 0. : t.x[1] / t.r, r = t.r; auto const &w = t.w;
    double e[2][2] = {{C, Sn}, {-Sn, C}}, wu[3] = {C * w.u[0] + Sn * w.u[1], -Sn * w.u[0] + C * w.u[1], w.u[2]};
    for (int a = 0; a < 3; ++a) expect_near(cu[a](p, X), wu[a], 1e-9, s.u, (fmt("cylindrical component %d", a) + at).c_str());
    for (int a = 0; a < 3; ++a) for (int b = 0; b < 3; ++b)
    {
      // d(e_a . u)/d(b), with d e_r/d theta = e_theta, d e_theta/d theta = -e_r
      auto along = [&](int comp, int dir) { double v = 0.; for (int j = 0; j < 2; ++j) v += e[dir][j] * w.g[comp][j]; return v; };
      double v = 0.;
      if (b == 2) v = a == 2 ? w.g[2][2] : e[a][0] * w.g[0][2] + e[a][1] * w.g[1][2];
      else v = (a == 2 ? along(2, b) : e[a][0] * along(0, b) + e[a][1] * along(1, b)) * (b == 1 ? r : 1.);
      if (b == 1 && a == 0) v += wu[1]; if (b == 1 && a == 1) v -= wu[0];
      expect_near(cg[a][b](p, X), v, 1e-9, b == 1 ? std::max(s.u, s.g * r) : s.g, (fmt("cylindrical derivative %d of component %d", b, a) + at).c_str());
    }
    if (r > 1e-3 * std::sqrt(p.l)) expect(std::fabs(dc(p, X)) <= 1e-9 * s.g / std::max(1e-3, std::fabs(p.U)) * 2, "divergence in cylindrical coordinates" + at);
    op(13);
  }
  outcome(key); trace(); sample(key + fmt(": %zu points", pts.size()));
}

int main(int argc, char **argv)
{
  init(&argc, &argv);
  std::vector<double> ks{0., .5, 2., 5.}, gaps{1e-3, .02, .1}, us{1., -1.5, 0.};
  if (thorough()) { ks = {0., .3, 1., 2., 3.5, 5., -1.}; gaps = {1e-4, 1e-3, 5e-3, .02, .1, .3}; }
  for (double H : ks) for (double M : ks) if (H + M > .1) for (double d : gaps) for (double U : us) for (double l : {.01, .09, .4}) for (double f : {1., .5, .1})
  {
    two({H, M, d, U, l, f * l}); three({H, M, d, U, l, f * l});
  }
  return finish();
}
