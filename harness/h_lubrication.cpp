// Property: the lubrication field of two close particles.  Whatever their radii, positions, order,
// relative velocity: an orthonormal frame at the contact point, a divergence free velocity whose
// gradient is the one returned, carried by the particles, zero away from the gap, the pressure of
// the thin film, a box of cells that covers it all, and the forces it exerts.
#include "common.hpp"
#include "lub.hpp"
#include <cafes.hpp>
using namespace vp;
namespace geo = cafes::geometry; namespace sg = cafes::singularity;

template<int D> using Sh = typename std::conditional<D == 2, geo::circle<>, geo::sphere<>>::type;
template<int D> using X = std::array<double, D>;
static geo::circle<> shape(X<2> const &c, double r) { return cafes::make_circle({c[0], c[1]}, r); }
static geo::sphere<> shape(X<3> const &c, double r) { return cafes::make_sphere({c[0], c[1], c[2]}, r); }
static cafes::particle<geo::circle<>> part(X<2> const &c, double r, X<2> const &v, double w) { return cafes::make_particle_with_velocity(shape(c, r), {v[0], v[1]}, w); }
static cafes::particle<geo::sphere<>> part(X<3> const &c, double r, X<3> const &v, double w) { return cafes::make_particle_with_velocity(shape(c, r), {v[0], v[1], v[2]}, {w, -w, 2 * w}); }
template<int D> geo::position<double, D> pos(X<D> const &x) { geo::position<double, D> p; for (int d = 0; d < D; ++d) p[d] = x[d]; return p; }
template<int D, typename P> X<D> arr(P const &p) { X<D> x; for (int d = 0; d < D; ++d) x[d] = p[d]; return x; }
template<int D> std::string str(X<D> const &x) { std::string s; for (int d = 0; d < D; ++d) s += (d ? "," : "") + fmt("%.6g", x[d]); return s; }

template<typename G> double divergence(G const &s, geo::position<double, 2> const &x) { return sg::DIVCART_normalMvt2D(x, s.H1_, s.H2_, s.contact_length_, s.UN_, s.param_, s.param_, nullptr); }
template<typename G> double divergence(G const &s, geo::position<double, 3> const &x) { return sg::DIVCART_normalMvt3D(x, s.H1_, s.H2_, s.contact_length_, s.UN_, s.param_, s.param_, nullptr); }
template<typename G> double divergence_cylindrical(G const &s, geo::position<double, 3> const &x) { return sg::DIVCYLIND_normalMvt3D(x, s.H1_, s.H2_, s.contact_length_, s.UN_, s.param_, s.param_, nullptr); }
template<typename G> double divergence_cylindrical(G const &, geo::position<double, 2> const &) { return 0.; }

template<int D> void one(X<D> c1, double r1, double r2, double gap, X<D> dir, X<D> v1, X<D> v2, X<D> h)
{
  std::string key = fmt("%dD r %g %g gap %g direction ", D, r1, r2, gap) + str<D>(dir) + " velocities " + str<D>(v1) + " / " + str<D>(v2) + " h " + str<D>(h);
  if (!begin_case(key)) return;
  double nd = 0.; for (double v : dir) nd += v * v; nd = std::sqrt(nd);
  X<D> c2; for (int d = 0; d < D; ++d) c2[d] = c1[d] + dir[d] / nd * (r1 + r2 + gap);
  lub::Pair<D> w(c1, r1, v1, c2, r2, v2, h[0]);
  auto p1 = part(c1, r1, v1, .3), p2 = part(c2, r2, v2, -.2);
  sg::singularity<Sh<D>, D> s(p1, p2, h[0]); op();
  double vs = 1e-3; for (int d = 0; d < D; ++d) vs = std::max({vs, std::fabs(v1[d]), std::fabs(v2[d])});
  // frame
  int kn = D == 2 ? 0 : 2;
  for (int i = 0; i < D; ++i) for (int j = 0; j < D; ++j) { double p = 0.; for (int d = 0; d < D; ++d) p += s.base_[i][d] * s.base_[j][d]; expect_near(p, i == j, 1e-12, 1., fmt("scalar product of the axes %d and %d", i, j).c_str()); }
  for (int d = 0; d < D; ++d) { expect_near(s.base_[kn][d], w.n[d], 1e-12, 1., "normal axis"); expect_near(s.origin_[d], w.o[d], 1e-12, 1., "origin"); }
  expect_near(s.contact_length_, w.a, 1e-11, r1, "gap");
  expect_near(s.cutoff_dist_, w.cut, 1e-9, 0., "cut-off");
  expect_near(s.UN_, w.U, 1e-12, vs, "normal velocity");
  expect(s.is_singularity_, "close particles");
  if (S().fails_in_case) return;
  // the lattice of points: across the gap (both surfaces included), from the axis to beyond the cut-off
  double us = vs, gs = vs / w.a, ps = vs / (w.a * w.a);
  struct Pt { X<D> l; bool lo, hi; }; std::vector<Pt> pts;
  std::vector<X<D>> dirs; if (D == 2) { X<D> a{}; a[1] = 1.; dirs.push_back(a); a[1] = -1.; dirs.push_back(a); } else for (int k = 0; k < 5; ++k) { X<D> a{}; a[1] = std::cos(k * std::acos(-1.) * .4 + .1); a[D - 1] = std::sin(k * std::acos(-1.) * .4 + .1); dirs.push_back(a); }
  double rm = std::min({r1, r2, w.cut * 1.3});
  for (int ir = 0; ir <= 13; ++ir)
  {
    double rad = ir == 0 ? 0. : ir == 1 ? 1e-6 * w.cut : rm * (ir - 1) / 12.;
    if (rad > .999 * std::min(r1, r2)) continue;
    double z1 = -r1 + std::sqrt(r1 * r1 - rad * rad), z2 = w.a + r2 - std::sqrt(r2 * r2 - rad * rad);
    for (auto const &a : dirs) { for (int iz = 0; iz <= 4; ++iz) { X<D> l; for (int d = 1; d < D; ++d) l[d] = rad * a[d]; l[0] = z1 + (z2 - z1) * iz / 4.; pts.push_back({l, iz == 0, iz == 4}); } if (rad == 0.) break; }
  }
  std::vector<typename lub::Pair<D>::Value> want;
  for (auto const &p : pts) { want.push_back(w.at_local(p.l)); auto &v = want.back(); for (int d = 0; d < D; ++d) { us = std::max(us, std::fabs(v.u[d])); for (double x : v.g[d]) gs = std::max(gs, std::fabs(x)); } ps = std::max(ps, std::fabs(v.p)); }
  auto box = s.get_box(h);
  for (size_t k = 0; k < pts.size() && S().fails_in_case < 3; ++k)
  {
    auto const &p = pts[k]; auto const &v = want[k]; auto x = w.global(p.l); double q = lub::Pair<D>::q_of(p.l);
    auto at = fmt(" at distance %.4g of the axis, %.4g of the first particle's tip", std::sqrt(q), p.l[0]);
    auto xr = s.get_pos_in_part_ref(pos<D>(x)); auto back = s.get_pos_from_part_ref(xr); op(2);
    expect_near(xr[kn], p.l[0], 1e-11, r1, "coordinate along the normal");
    double qq = 0.; for (int d = 0; d < D; ++d) if (d != kn) qq += xr[d] * xr[d];
    expect_near(qq, q, 1e-10, r1 * r1, "distance to the axis");
    for (int d = 0; d < D; ++d) expect_near(back[d], x[d], 1e-12, 1., "place after a change of frame and back");
    auto u = s.get_u_sing(pos<D>(x)); auto ur = s.get_u_sing_ref(xr); auto g = s.get_grad_u_sing(pos<D>(x)); auto gr = s.get_grad_u_sing_ref(xr);
    auto px = pos<D>(x); double pr = s.get_p_sing(px), prr = s.get_p_sing_ref(xr); op(6);
    for (int d = 0; d < D; ++d)
    {
      expect_near(u[d], v.u[d], 1e-7, us, ("velocity" + at).c_str());
      double t = 0.; for (int m = 0; m < D; ++m) t += s.base_[m][d] * ur[m];
      expect_near(t, v.u[d], 1e-7, us, ("velocity in the frame" + at).c_str());
      for (int e = 0; e < D; ++e)
      {
        expect_near(g[d][e], v.g[d][e], 1e-7, gs, (fmt("gradient %d%d", d, e) + at).c_str());
        double tt = 0.; for (int m = 0; m < D; ++m) for (int n = 0; n < D; ++n) tt += s.base_[m][d] * s.base_[n][e] * gr[m][n];
        expect_near(tt, v.g[d][e], 1e-7, gs, (fmt("gradient %d%d in the frame", d, e) + at).c_str());
      }
    }
    expect_near(pr, v.p, 1e-9, ps, ("pressure" + at).c_str());
    expect_near(prr, v.p, 1e-9, ps, ("pressure in the frame" + at).c_str());
    double div = 0.; for (int d = 0; d < D; ++d) div += g[d][d];
    expect(std::fabs(div) <= 1e-7 * gs, "divergence" + at);
    // the functions that return it
    expect(std::fabs(divergence(s, xr)) <= 1e-7 * gs, "divergence returned" + at);
    if (D == 3 && q > 1e-6 * w.cut * w.cut) expect(std::fabs(divergence_cylindrical(s, xr)) <= 1e-7 * gs, "divergence in cylindrical coordinates" + at);
    if (q > w.cut * w.cut * (1 + 1e-9)) { for (int d = 0; d < D; ++d) expect(u[d] == 0. && g[d][d] == 0., "field beyond the cut-off" + at); expect(pr == 0., "pressure beyond the cut-off" + at); }
    if (q == 0. && (p.lo || p.hi)) for (int d = 0; d < D; ++d) expect_near(u[d], (p.lo ? -.5 : .5) * w.U * w.n[d], 1e-9, us, "velocity of the particle at its tip");
    if (q <= w.cut * w.cut) for (int d = 0; d < D; ++d)
      expect(x[d] / h[d] >= box.bottom_left[d] - 1e-9 && x[d] / h[d] <= box.upper_right[d] + 1e-9, "box of cells misses a point" + at);
  }
  // the box is not needlessly large: one cell around the corners of the region in its frame
  double z1 = -r1 + std::sqrt(std::max(0., r1 * r1 - w.cut * w.cut)), z2 = w.a + r2 - std::sqrt(std::max(0., r2 * r2 - w.cut * w.cut));
  for (int d = 0; d < D; ++d)
  {
    double lo = 1e9, hi = -1e9; for (int k = 0; k < (1 << D); ++k) { X<D> l; l[0] = k & 1 ? z2 : z1; for (int m = 1; m < D; ++m) l[m] = (k >> m & 1 ? 1 : -1) * w.cut; auto x = w.global(l); lo = std::min(lo, x[d]); hi = std::max(hi, x[d]); }
    // (the frame may be turned around the normal)
    double sl = D == 2 ? 0. : w.cut; 
    expect(box.bottom_left[d] >= std::floor((lo - sl) / h[d] - 1e-9) - 1 && box.upper_right[d] <= std::ceil((hi + sl) / h[d] + 1e-9) + 1, "box of cells too large");
  }
  // forces
  std::vector<cafes::particle<Sh<D>>> ps2{p1, p2}; std::vector<cafes::physics::force<D>> f(2); for (auto &q : f) q.fill(7.);
  X<D> hh = h; sg::compute_singular_forces(ps2, f, hh, 100); op();
  double fs = 0.; X<D> F[2] = {w.force(0), w.force(1)}; for (auto const &q : F) for (double v : q) fs = std::max(fs, std::fabs(v));
  for (int k = 0; k < 2; ++k) for (int d = 0; d < D; ++d) expect_near(f[k][d], F[k][d], D == 2 ? 1e-5 : 5e-3, fs, fmt("force %d on particle %d", d, k).c_str());
  outcome(key); trace(); sample(key + fmt(": %zu points", pts.size()));
}

// the truncation and its derivatives
static void truncation(double l, double eps)
{
  std::string key = fmt("truncation l=%g eps=%g", l, eps);
  if (!begin_case(key)) return;
  for (int i = 0; i <= 200; ++i)
  {
    double q = (l + 1.3 * eps) * i / 200., t = (q - l) / eps, X = std::sqrt(q); if (std::fabs(std::fabs(t) - 1.) < 1e-9) continue;
    bool in = std::fabs(t) < 1.;
    double c = 315. / 128. / 2., s = 1. - t * t;
    double w[5] = {in ? .5 * (1. - lub::step(t)) : t < 0, in ? -c * std::pow(s, 4) / eps : 0., in ? 8 * c * t * std::pow(s, 3) / std::pow(eps, 2) : 0.,
                   in ? c * (8 * std::pow(s, 3) - 48 * t * t * s * s) / std::pow(eps, 3) : 0., in ? c * (-144 * t * s * s + 192 * t * t * t * s) / std::pow(eps, 4) : 0.};
    for (int sign = 1; sign >= -1; sign -= 2)
    {
      double g[5] = {sg::chiTrunc(sign * X, l, eps), sg::dchiTrunc(sign * X, l, eps), sg::d2chiTrunc(sign * X, l, eps), sg::d3chiTrunc(sign * X, l, eps), sg::d4chiTrunc(sign * X, l, eps)}; op(5);
      for (int k = 0; k < 5; ++k) expect_near(g[k], w[k], 1e-10, std::pow(1. / eps, k) * 10, fmt("derivative %d of the truncation at %g", k, q).c_str());
    }
  }
  outcome(key); trace();
}

template<int D> void all(std::vector<X<D>> const &dirs, std::vector<X<D>> const &vel, std::vector<X<D>> const &hs)
{
  X<D> c; for (int d = 0; d < D; ++d) c[d] = .9 + .05 * d;
  double rs[] = {.2, .35, .6};
  for (double r1 : rs) for (double r2 : rs) for (double gap : {1e-3, 1e-2, .05})
    for (auto const &dir : dirs) for (auto const &h : hs) for (size_t k = 0; k < vel.size(); ++k)
    {
      if (!thorough() && (k + size_t(&dir - &dirs[0]) + size_t(100 * r1 + 30 * r2)) % 5) continue;
      X<D> v2{}; for (int d = 0; d < D; ++d) v2[d] = .25 * (k % 3) * (d + 1);
      X<D> v1; for (int d = 0; d < D; ++d) v1[d] = v2[d] + vel[k][d];
      one<D>(c, r1, r2, gap, dir, v1, v2, h);
    }
}

// several particles: the forces are the sums over the pairs; none and one are silent
template<int D> void crowd(int n)
{
  std::string key = fmt("%dD %d particles", D, n);
  if (!begin_case(key)) return;
  std::vector<cafes::particle<Sh<D>>> ps; std::vector<X<D>> cs, vs; std::vector<double> rs;
  for (int i = 0; i < n; ++i)
  {
    X<D> c{}, v{}; c[0] = i * .45; c[1] = (i % 2) * .12; if (D == 3) c[D - 1] = .05 * i; double r = i % 2 ? .19 : .22;
    for (int d = 0; d < D; ++d) v[d] = std::cos(2. * i + d);
    cs.push_back(c); vs.push_back(v); rs.push_back(r); ps.push_back(part(c, r, v, 0.));
  }
  X<D> h; h.fill(.02);
  std::vector<cafes::physics::force<D>> f(n); for (auto &q : f) q.fill(3.);
  sg::compute_singular_forces(ps, f, h, 100); op();
  std::vector<X<D>> F(n); for (auto &q : F) q.fill(0.);
  for (int i = 0; i < n; ++i) for (int j = i + 1; j < n; ++j)
  {
    lub::Pair<D> w(cs[i], rs[i], vs[i], cs[j], rs[j], vs[j], h[0]); if (w.a >= 1.) continue;
    auto a = w.force(0), b = w.force(1); for (int d = 0; d < D; ++d) { F[i][d] += a[d]; F[j][d] += b[d]; }
  }
  double fs = 0.; for (auto &q : F) for (double v : q) fs = std::max(fs, std::fabs(v));
  for (int i = 0; i < n; ++i) for (int d = 0; d < D; ++d) expect_near(f[i][d], F[i][d], D == 2 ? 1e-5 : 5e-3, fs, fmt("force %d on particle %d", d, i).c_str());
  outcome(key); trace();
}

int main(int argc, char **argv)
{
  init(&argc, &argv);
  for (double l : {.01, .5, 2.}) for (double f : {1., .5, .1}) truncation(l, f * l);
  for (int n = 0; n <= 5; ++n) { crowd<2>(n); crowd<3>(n); }
  std::vector<X<2>> d2; for (int i = -2; i <= 2; ++i) for (int j = -2; j <= 2; ++j) if (i || j) if (thorough() || std::max(std::abs(i), std::abs(j)) == 1 || (i == 2 && std::abs(j) == 1)) d2.push_back({double(i), double(j)});
  std::vector<X<3>> d3; for (int i = -1; i <= 1; ++i) for (int j = -1; j <= 1; ++j) for (int k = -1; k <= 1; ++k) if (i || j || k) d3.push_back({double(i), double(j), double(k)});
  d3.push_back({1, 2, -3}); d3.push_back({-2, .5, 1});
  std::vector<X<2>> v2; for (int i = -1; i <= 1; ++i) for (int j = -1; j <= 1; ++j) v2.push_back({double(i), double(j)}); v2.push_back({.3, -2.});
  std::vector<X<3>> v3; for (int i = -1; i <= 1; ++i) for (int j = -1; j <= 1; ++j) for (int k = -1; k <= 1; ++k) v3.push_back({double(i), double(j), double(k)}); v3.push_back({.3, -2., 1.});
  all<2>(d2, v2, {{.05, .05}, {.02, .03}});
  all<3>(d3, v3, {{.05, .05, .05}, {.02, .03, .025}});
  return finish();
}
