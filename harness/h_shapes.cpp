// Property: a shape is one set of points, whichever way it is asked (implicit function, parametric
// points, sampled surface, bounding boxes, measures), translated and rotated.
#include "common.hpp"
#include <cafes.hpp>
#include "ref.hpp"
using namespace vp;
namespace geo = cafes::geometry;

template<int D> using Pt = std::array<double, D>;
template<int D> using Mx = std::array<std::array<double, D>, D>;
template<int D> Pt<D> ap(Mx<D> const &R, Pt<D> const &p, bool tr) { Pt<D> r{}; for (int i = 0; i < D; ++i) for (int j = 0; j < D; ++j) r[i] += (tr ? R[j][i] : R[i][j]) * p[j]; return r; }
template<int D> geo::position<double, D> P(Pt<D> const &p) { geo::position<double, D> r; for (int d = 0; d < D; ++d) r[d] = p[d]; return r; }
template<int D, typename T> Pt<D> A(T const &p) { Pt<D> r; for (int d = 0; d < D; ++d) r[d] = p[d]; return r; }
static double pw(double x, double e) { x = std::fabs(x); return x == 0. ? 0. : std::exp(e * std::log(x)); }
static double sp(double x, double e) { return x < 0 ? -pw(x, e) : pw(x, e); }

// reference: |x/a|^n + |y/b|^n  and  (|x/a|^e + |y/b|^e)^(n/e) + |z/c|^n  in the frame of the shape
template<int D> struct Ref
{
  Pt<D> c, f; double n, e; Mx<D> R;
  double operator()(Pt<D> p) const
  {
    for (int d = 0; d < D; ++d) p[d] -= c[d];
    p = ap<D>(R, p, true);
    for (int d = 0; d < D; ++d) p[d] /= f[d];
    if (D == 2) return pw(p[0], n) + pw(p[1], n);
    return pw(pw(p[0], e) + pw(p[1], e), n / e) + pw(p[D - 1], n);
  }
};
// distance-like size of |f-1| that is only rounding
static const double TOL = 1e-8;

template<int D, typename S> void membership(S const &s, Ref<D> const &r, int m, double ext)
{
  auto b = s.bounding_box(); op();
  std::array<int, D> n; n.fill(2 * m + 1);
  long in = 0, out = 0;
  // smallest box around the rotated box of the shape: the bounding box has to be inside it
  Pt<D> lim{}; for (int i = 0; i < D; ++i) for (int j = 0; j < D; ++j) lim[i] += std::fabs(r.R[i][j]) * r.f[j];
  for (int d = 0; d < D; ++d)
    expect(b.bottom_left[d] >= r.c[d] - lim[d] - 1e-10 && b.upper_right[d] <= r.c[d] + lim[d] + 1e-10, fmt("bounding box direction %d larger than that of the rotated box: %g..%g", d, b.bottom_left[d], b.upper_right[d]));
  ref::for_each<D>(n, [&](auto a) {
    Pt<D> p; for (int d = 0; d < D; ++d) p[d] = r.c[d] + ext * (a[d] - m + .013 * (d + 1)) / m;
    double w = r(p);
    op();
    double g = s.implicit(P<D>(p));
    if (!near(g, w, 1e-9, 1e-3)) fail(fmt("implicit function %.12g, want %.12g", g, w));
    vp::S().comparisons++;
    if (std::fabs(w - 1.) < TOL) return;
    bool c = s.contains(P<D>(p));
    expect(c == (w < 1.), fmt("contains is %d where the implicit function is %g", c, w));
    if (w < 1.) { in++; for (int d = 0; d < D; ++d) expect(p[d] >= b.bottom_left[d] && p[d] <= b.upper_right[d], fmt("point of the shape outside of its bounding box in direction %d", d)); }
    else out++;
  });
  expect(s.contains(P<D>(r.c)), "the centre is not inside");
  outcome(fmt("%ld %ld", in, out));
}

template<int D, typename S> void mesh_box(S const &s, Ref<D> const &r, Pt<D> h, std::vector<Pt<D>> const &surf)
{
  std::array<double, D> hh; for (int d = 0; d < D; ++d) hh[d] = h[d];
  auto b = s.bounding_box(hh); op();
  std::array<int, D> lo, n;
  double R = 0.; for (int d = 0; d < D; ++d) R += r.f[d] * r.f[d]; R = std::sqrt(R);
  for (int d = 0; d < D; ++d) { lo[d] = (int)std::floor((r.c[d] - R) / h[d]) - 1; n[d] = (int)std::ceil((r.c[d] + R) / h[d]) + 2 - lo[d]; }
  long cnt = 0;
  ref::for_each<D>(n, [&](auto a) {
    Pt<D> p; for (int d = 0; d < D; ++d) { a[d] += lo[d]; p[d] = a[d] * h[d]; if (a[d] < 0) return; }
    if (r(p) > 1. - TOL) return;
    cnt++;
    for (int d = 0; d < D; ++d) expect(a[d] >= b.bottom_left[d] && a[d] < b.upper_right[d], fmt("mesh node %d inside the shape, not in its mesh box %d..%d (direction %d)", a[d], b.bottom_left[d], b.upper_right[d], d));
  });
  for (auto const &p : surf) for (int d = 0; d < D; ++d) { int e = (int)std::floor(p[d] / h[d]); if (p[d] < 0) continue; expect(e >= b.bottom_left[d] && e < b.upper_right[d], fmt("element %d of a surface point not in the mesh box %d..%d (direction %d)", e, b.bottom_left[d], b.upper_right[d], d)); }
  op(cnt);
}

static bool same_sets(std::vector<Pt<2>> a, std::vector<Pt<2>> b)
{
  if (a.size() != b.size()) return false;
  for (auto const &p : a) { bool f = false; for (auto const &q : b) if (std::fabs(p[0] - q[0]) < 1e-9 && std::fabs(p[1] - q[1]) < 1e-9) { f = true; break; } if (!f) return false; }
  return true;
}

template<typename S> void surf2(S const &s, Ref<2> const &r, bool circle)
{
  // parametric points
  std::vector<double> us; for (int i = 0; i < 48; ++i) us.push_back(2 * M_PI * i / 48. + .01);
  auto l = s.surface(us); auto lr = s.radial_vector(us); op(2);
  expect(l.size() == us.size() && lr.size() == us.size(), "number of parametric points");
  std::vector<Pt<2>> bnd;
  for (unsigned i = 0; i < us.size(); ++i)
  {
    Pt<2> w{r.f[0] * sp(std::cos(us[i]), 2. / r.n), r.f[1] * sp(std::sin(us[i]), 2. / r.n)};
    w = ap<2>(r.R, w, false);
    auto a = s.at(us[i]), q = s.radial(us[i]); op(2);
    for (int d = 0; d < 2; ++d)
    {
      expect_near(q[d], w[d], 1e-10, 1., "radial");
      expect_near(a[d], w[d] + r.c[d], 1e-10, 1., "at");
      if (i < l.size()) { expect(l[i][d] == a[d], "surface(samples) is at(sample)"); expect(lr[i][d] == q[d], "radial_vector(samples) is radial(sample)"); }
    }
    expect_near(r(A<2>(a)), 1., TOL, 1., "parametric point on the surface");
    bnd.push_back(A<2>(a));
  }
  for (double k : {.6, .3, .1})
  {
    auto pts = s.surface(k); op();
    std::vector<Pt<2>> loc; // in the frame of the shape
    for (auto const &p : pts)
    {
      expect_near(r(A<2>(p)), 1., TOL, 1., "sampled point on the surface");
      Pt<2> q{p[0] - r.c[0], p[1] - r.c[1]}; loc.push_back(ap<2>(r.R, q, true));
      bnd.push_back(A<2>(p));
    }
    for (int m = 1; m < 4; ++m) { auto x = loc; for (auto &p : x) { if (m & 1) p[0] = -p[0]; if (m & 2) p[1] = -p[1]; } expect(same_sets(loc, x), fmt("surface points are not symmetric (k=%g)", k)); }
    // turns once around, without repetition
    for (unsigned i = 0; i < loc.size(); ++i) for (unsigned j = 0; j < i; ++j)
      if (std::fabs(loc[i][0] - loc[j][0]) < 1e-9 && std::fabs(loc[i][1] - loc[j][1]) < 1e-9) { fail(fmt("surface point %u repeats point %u (k=%g)", i, j, k)); i = loc.size(); break; }
    if (circle)
    {
      std::vector<double> th; for (auto const &p : loc) th.push_back(std::atan2(p[1], p[0]));
      std::sort(th.begin(), th.end()); double gap = th.empty() ? 7. : th[0] + 2 * M_PI - th.back();
      for (unsigned i = 1; i < th.size(); ++i) gap = std::max(gap, th[i] - th[i - 1]);
      expect(gap <= 2 * k + 1e-9, fmt("largest angle between neighbours %g for k=%g", gap, k));
      expect(th.size() <= 2 * M_PI / k + 16, fmt("%zu points for k=%g", th.size(), k));
    }
  }
  for (auto h : {Pt<2>{.1, .1}, {.04, .07}, {.25, .125}}) mesh_box<2>(s, r, h, bnd);
}

template<typename S> void surf3(S const &s, Ref<3> const &r)
{
  std::vector<double> us, vs;
  for (int i = 0; i < 12; ++i) for (int j = 0; j < 7; ++j) { us.push_back(2 * M_PI * i / 12. + .01); vs.push_back(M_PI * (j - 3) / 6.5); }
  auto l = s.surface(us, vs); auto lr = s.radial_vector(us, vs); op(2);
  expect(l.size() == us.size() && lr.size() == us.size(), "number of parametric points");
  std::vector<Pt<3>> bnd;
  for (unsigned i = 0; i < us.size(); ++i)
  {
    double u = us[i], v = vs[i];
    Pt<3> w{r.f[0] * sp(std::cos(v), 2. / r.n) * sp(std::cos(u), 2. / r.e), r.f[1] * sp(std::cos(v), 2. / r.n) * sp(std::sin(u), 2. / r.e), r.f[2] * sp(std::sin(v), 2. / r.n)};
    w = ap<3>(r.R, w, false);
    auto a = s.at(u, v), q = s.radial(u, v); op(2);
    for (int d = 0; d < 3; ++d)
    {
      expect_near(q[d], w[d], 1e-10, 1., "radial");
      expect_near(a[d], w[d] + r.c[d], 1e-10, 1., "at");
      if (i < l.size()) { expect(l[i][d] == a[d], "surface(samples) is at(samples)"); expect(lr[i][d] == q[d], "radial_vector(samples) is radial(samples)"); }
    }
    expect_near(r(A<3>(a)), 1., TOL, 1., "parametric point on the surface");
    bnd.push_back(A<3>(a));
  }
  for (double k : {.5, .2})
  {
    S t(s);
    auto pts = t.surface(std::array<double, 2>{k, .8 * k}); op();
    bool oct[8] = {};
    for (auto const &p : pts)
    {
      expect_near(r(A<3>(p)), 1., TOL, 1., "sampled point on the surface");
      Pt<3> q{p[0] - r.c[0], p[1] - r.c[1], p[2] - r.c[2]}; q = ap<3>(r.R, q, true);
      oct[(q[0] > 1e-6) + 2 * (q[1] > 1e-6) + 4 * (q[2] > 1e-6)] = true;
      bnd.push_back(A<3>(p));
    }
    for (int o = 0; o < 8; ++o) expect(oct[o], fmt("no sampled point in octant %d", o));
    std::vector<Pt<3>> loc; for (auto const &p : pts) { Pt<3> q{p[0] - r.c[0], p[1] - r.c[1], p[2] - r.c[2]}; loc.push_back(ap<3>(r.R, q, true)); }
    auto key = [](Pt<3> const &p) { std::array<long, 3> a; for (int d = 0; d < 3; ++d) a[d] = std::lround(p[d] * 1e7); return a; };
    std::map<std::array<long, 3>, int> cnt; for (auto const &p : loc) cnt[key(p)]++;
    // symmetric: compare sorted lists of absolute values per octant through sums
    for (int d = 0; d < 3; ++d) { double sum = 0.; for (auto const &p : loc) sum += p[d]; expect_near(sum, 0., 1e-9, loc.size() + 1., "surface points symmetric about the centre"); }
    note("sampled 3D surface points", pts.size());
  }
  for (auto h : {Pt<3>{.1, .1, .1}, {.2, .07, .125}}) mesh_box<3>(s, r, h, bnd);
}

static Mx<2> rot2(double a) { return {{{std::cos(a), -std::sin(a)}, {std::sin(a), std::cos(a)}}}; }
static Mx<3> rot3(double a, Pt<3> k)
{
  Mx<3> R; double l = std::sqrt(k[0] * k[0] + k[1] * k[1] + k[2] * k[2]); for (auto &x : k) x /= l;
  double C = std::cos(a), Sn = std::sin(a);
  for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) R[i][j] = (i == j) * C + k[i] * k[j] * (1 - C);
  R[0][1] -= k[2] * Sn; R[0][2] += k[1] * Sn; R[1][0] += k[2] * Sn; R[1][2] -= k[0] * Sn; R[2][0] -= k[1] * Sn; R[2][1] += k[0] * Sn;
  return R;
}

static void two()
{
  bool t = thorough();
  std::vector<double> fs = t ? std::vector<double>{.15, .25, .4, .5} : std::vector<double>{.2, .4};
  std::vector<double> ns = t ? std::vector<double>{1.5, 2., 2.5, 3., 4., 6., 8.} : std::vector<double>{2., 3., 4.};
  int na = t ? 12 : 6;
  for (auto c : {Pt<2>{.6, .6}, {1.03, .77}}) for (double a : fs) for (double b : fs) for (double n : ns) for (int k = -1; k < na; ++k)
  {
    if (!begin_case(fmt("2D centre %g,%g factors %g,%g exponent %g %s", c[0], c[1], a, b, n, k < 0 ? "not rotated" : fmt("angle %d/%d of pi", k, na).c_str()))) continue;
    double ang = M_PI * k / na;
    Ref<2> r{c, {a, b}, n, 0., k < 0 ? rot2(0.) : rot2(ang)};
    geo::quaternion q{}; if (k >= 0) q = geo::quaternion(ang);
    geo::super_ellipsoid<double, 2> s(P<2>(c), {a, b}, n, q);
    membership<2>(s, r, t ? 40 : 20, 1.3 * std::sqrt(a * a + b * b)); surf2(s, r, false);
    auto m = cafes::make_ellipsoid<2>(P<2>(c), {a, b}, n, q); op();
    Pt<2> x{c[0] + .5 * a, c[1] + .3 * b}; expect(m.implicit(P<2>(x)) == s.implicit(P<2>(x)), "make_ellipsoid makes another shape");
    if (a == b && n == 2.)
    {
      geo::circle<> ci = cafes::make_circle(P<2>(c), a, q); op();
      membership<2>(ci, r, t ? 40 : 20, 1.7 * a); surf2(ci, r, true);
    }
    trace(); sample(vp::S().cur);
  }
}
static void three()
{
  bool t = thorough();
  std::vector<std::array<double, 2>> ex{{2., 2.}, {4., 4.}, {2., 4.}, {4., 2.}}; if (t) { ex.push_back({3., 3.}); ex.push_back({6., 2.5}); ex.push_back({1.5, 3.}); }
  std::vector<Pt<3>> fs{{.3, .3, .3}, {.2, .3, .4}, {.4, .15, .25}}; if (t) { fs.push_back({.5, .5, .2}); fs.push_back({.1, .2, .2}); }
  std::vector<std::pair<double, Pt<3>>> rots{{-1., {0, 0, 0}}, {M_PI / 6, {0, 0, 1}}, {M_PI / 3, {1, 0, 0}}, {1., {0, 1, 0}}, {2.2, {1, 1, 1}}, {.7, {1, -2, .5}}};
  for (auto c : {Pt<3>{.75, .75, .75}, {1.1, .8, .9}}) for (auto f : fs) for (auto x : ex) for (auto rt : rots)
  {
    if (!begin_case(fmt("3D centre %g,%g,%g factors %g,%g,%g exponents %g,%g %s", c[0], c[1], c[2], f[0], f[1], f[2], x[0], x[1], rt.first < 0 ? "not rotated" : fmt("angle %g about %g,%g,%g", rt.first, rt.second[0], rt.second[1], rt.second[2]).c_str()))) continue;
    geo::quaternion q{}; Mx<3> R = rot3(0., {0, 0, 1});
    if (rt.first >= 0) { q = geo::quaternion(rt.first, geo::vector<double, 3>{rt.second[0], rt.second[1], rt.second[2]}); double l = std::sqrt(rt.second[0] * rt.second[0] + rt.second[1] * rt.second[1] + rt.second[2] * rt.second[2]);
      // a quaternion built on an axis that is not a unit vector turns by another angle about the same axis
      R = rot3(2. * std::atan2(std::sin(rt.first / 2) * l, std::cos(rt.first / 2)), rt.second); }
    Ref<3> r{c, f, x[0], x[1], R};
    geo::super_ellipsoid<double, 3> s(P<3>(c), {f[0], f[1], f[2]}, x[0], x[1], q);
    membership<3>(s, r, t ? 14 : 8, 1.3 * std::sqrt(f[0] * f[0] + f[1] * f[1] + f[2] * f[2])); surf3(s, r);
    auto m = cafes::make_ellipsoid<3>(P<3>(c), {f[0], f[1], f[2]}, x[0], x[1], q); op();
    Pt<3> y{c[0] + .5 * f[0], c[1] + .3 * f[1], c[2] - .2 * f[2]}; expect(m.implicit(P<3>(y)) == s.implicit(P<3>(y)), "make_ellipsoid makes another shape");
    if (f[0] == f[1] && f[1] == f[2] && x[0] == 2. && x[1] == 2.)
    {
      geo::sphere<> sp_ = cafes::make_sphere(P<3>(c), f[0], q); op();
      membership<3>(sp_, r, t ? 14 : 8, 1.7 * f[0]); surf3(sp_, r);
    }
    trace(); sample(vp::S().cur);
  }
}
static void measures()
{
  for (int i = 1; i <= (thorough() ? 200 : 40); ++i)
  {
    double R = .013 * i;
    if (!begin_case(fmt("measures of radius %g", R))) continue;
    geo::circle<> c({1., 2.}, R); geo::sphere<> s({1., 2., 3.}, R);
    auto pc = cafes::make_particle_with_force(c, cafes::physics::force<2>{1., 2.}, 3.);
    auto ps = cafes::make_particle_with_velocity(s, cafes::physics::velocity<3>{1., 2., 3.}, cafes::physics::velocity<3>{0., 0., 0.});
    op(16);
    expect_near(c.surface_area(), 2 * M_PI * R, 1e-13, 0., "perimeter of a circle");
    expect_near(c.volume(), M_PI * R * R, 1e-13, 0., "area of a disk");
    expect_near(s.surface_area(), 4 * M_PI * R * R, 1e-13, 0., "area of a sphere");
    expect_near(s.volume(), 4. / 3. * M_PI * R * R * R, 1e-13, 0., "volume of a ball");
    // measure over the second moment about an axis, of the surface (Cd) and of the volume (Ci)
    expect_near(c.Cd_R(), 2 * M_PI * R / (2 * M_PI * R * R * R), 1e-13, 0., "Cd_R of a circle");
    expect_near(c.Ci_R(), M_PI * R * R / (M_PI * std::pow(R, 4) / 2), 1e-13, 0., "Ci_R of a circle");
    expect_near(s.Cd_R(), 4 * M_PI * R * R / (8. / 3. * M_PI * std::pow(R, 4)), 1e-13, 0., "Cd_R of a sphere");
    expect_near(s.Ci_R(), 4. / 3. * M_PI * std::pow(R, 3) / (8. / 15. * M_PI * std::pow(R, 5)), 1e-13, 0., "Ci_R of a sphere");
    expect(pc.surface_area() == c.surface_area() && pc.volume() == c.volume() && pc.Cd_R() == c.Cd_R() && pc.Ci_R() == c.Ci_R(), "measures of a particle are those of its shape");
    expect(ps.surface_area() == s.surface_area() && ps.volume() == s.volume() && ps.Cd_R() == s.Cd_R() && ps.Ci_R() == s.Ci_R(), "measures of a particle are those of its shape");
    expect(pc.force_[0] == 1. && pc.force_[1] == 2. && pc.rho_ == 3., "particle keeps its force and density");
    expect(ps.velocity_[0] == 1. && ps.velocity_[1] == 2. && ps.velocity_[2] == 3., "particle keeps its velocity");
    trace(); outcome(fmt("%d", i));
  }
  // perimeter of a 2D super ellipsoid that is not a circle
  for (double a : {.2, .4}) for (double b : {.2, .4}) for (double n : {2., 4.})
  {
    if (!begin_case(fmt("perimeter of the super ellipsoid %g,%g exponent %g", a, b, n))) continue;
    geo::super_ellipsoid<double, 2> s({0., 0.}, {a, b}, n); op();
    double L = 0.; Pt<2> o{a, 0.};
    for (int i = 1; i <= 20000; ++i) { double u = 2 * M_PI * i / 20000; Pt<2> p{a * sp(std::cos(u), 2. / n), b * sp(std::sin(u), 2. / n)}; L += std::hypot(p[0] - o[0], p[1] - o[1]); o = p; }
    expect_near(s.surface_area(), L, 1e-2, 0., "perimeter");
    trace();
  }
}

int main(int argc, char **argv)
{
  init(&argc, &argv);
  two(); three(); measures();
  return finish();
}
