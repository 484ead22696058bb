// Property: triangulation() of points in the plane is a Delaunay triangulation of them, and of
// points in space the triangulated surface of their convex hull.  Every subset (of a bounded
// size) of a lattice and of points in general position, in several orders, and sampled surfaces.
// All judged in exact integer arithmetic, but for the sampled surfaces.
#include "common.hpp"
#include <particle/geometry/super_ellipsoid.hpp>
#include <particle/geometry/triangulation.hpp>
using namespace vp;
using P2 = std::array<double, 2>; using P3 = std::array<double, 3>;
template<int D> using Pos = cafes::geometry::position<double, D>;
static Pos<2> pos(P2 const &p) { return {p[0], p[1]}; }
static Pos<3> pos(P3 const &p) { return {p[0], p[1], p[2]}; }

static double orient(P2 a, P2 b, P2 c) { return (b[0] - a[0]) * (c[1] - a[1]) - (b[1] - a[1]) * (c[0] - a[0]); }
static double orient(P3 a, P3 b, P3 c, P3 d)
{
  double m[3][3];
  for (int k = 0; k < 3; ++k) { m[0][k] = b[k] - a[k]; m[1][k] = c[k] - a[k]; m[2][k] = d[k] - a[k]; }
  return m[0][0] * (m[1][1] * m[2][2] - m[1][2] * m[2][1]) - m[0][1] * (m[1][0] * m[2][2] - m[1][2] * m[2][0]) + m[0][2] * (m[1][0] * m[2][1] - m[1][1] * m[2][0]);
}
// > 0: d inside the circle through the counterclockwise a, b, c
static double incircle(P2 a, P2 b, P2 c, P2 d)
{
  auto lift = [&](P2 p) { P3 q{{p[0] - d[0], p[1] - d[1], 0}}; q[2] = q[0] * q[0] + q[1] * q[1]; return q; };
  return orient(P3{{0, 0, 0}}, lift(a), lift(b), lift(c));   // checked on a known configuration in main
}
static std::string show(std::vector<P2> const &p) { std::string s; for (auto &q : p) s += fmt("(%g,%g)", q[0], q[1]); return s; }
static std::string show(std::vector<P3> const &p) { std::string s; for (auto &q : p) s += fmt("(%g,%g,%g)", q[0], q[1], q[2]); return s; }

template<typename P, int D> bool run(std::vector<P> const &p, std::vector<std::array<int, 3>> &t)
{
  std::vector<Pos<D>> x; for (auto &q : p) x.push_back(pos(q));
  try { t = cafes::geometry::triangulation<D>(x); }
  catch (std::exception const &e) { fail(std::string("triangulation threw: ") + std::string(e.what()).substr(0, 80)); return false; }
  catch (...) { fail("triangulation threw"); return false; }
  op();
  for (auto &k : t)
  {
    for (int i : k) if (i < 0 || i >= (int)p.size()) { fail(fmt("index %d of %zu points", i, p.size())); return false; }
    if (k[0] == k[1] || k[1] == k[2] || k[0] == k[2]) { fail(fmt("triangle %d,%d,%d has no three corners", k[0], k[1], k[2])); return false; }
  }
  S().comparisons += t.size();
  return true;
}
static double hull_area2(std::vector<P2> p)
{
  std::sort(p.begin(), p.end());
  std::vector<P2> h;
  for (int pass = 0; pass < 2; ++pass)
  {
    size_t s = h.size();
    for (auto &q : p) { while (h.size() >= s + 2 && orient(h[h.size() - 2], h.back(), q) <= 0) h.pop_back(); h.push_back(q); }
    h.pop_back(); std::reverse(p.begin(), p.end());
  }
  double a = 0.; for (size_t i = 0; i < h.size(); ++i) { auto &u = h[i], &v = h[(i + 1) % h.size()]; a += u[0] * v[1] - u[1] * v[0]; }
  return a;
}
static void judge(std::vector<P2> const &p, double tol = 0.)
{
  std::vector<std::array<int, 3>> t;
  if (!run<P2, 2>(p, t)) return;
  double area = 0.; std::map<std::pair<int, int>, int> edges; std::set<int> used;
  for (auto k : t)
  {
    double o = orient(p[k[0]], p[k[1]], p[k[2]]);
    if (std::fabs(o) <= tol) { fail("flat triangle in " + show(p)); return; }
    if (o < 0) { std::swap(k[1], k[2]); o = -o; }
    area += o;
    for (int e = 0; e < 3; ++e) { if (edges[{k[e], k[(e + 1) % 3]}]++) { fail("triangles overlap in " + show(p)); return; } used.insert(k[e]); }
    for (size_t q = 0; q < p.size(); ++q)
      if ((int)q != k[0] && (int)q != k[1] && (int)q != k[2] && incircle(p[k[0]], p[k[1]], p[k[2]], p[q]) > tol) { fail(fmt("point %zu in the circle of triangle %d,%d,%d of ", q, k[0], k[1], k[2]) + show(p)); return; }
  }
  double want = hull_area2(p);
  expect(std::fabs(area - want) <= 1e-9 * want, fmt("triangles cover %g of %g of ", area / 2, want / 2) + show(p));
  expect(used.size() == p.size(), fmt("%zu of %zu points are corners of ", used.size(), p.size()) + show(p));
  outcome(fmt("2D %zu points %zu triangles %g", p.size(), t.size(), want));
  trace();
}
static void judge(std::vector<P3> const &p, double tol = 0., bool all = false)
{
  std::vector<std::array<int, 3>> t;
  if (!run<P3, 3>(p, t)) return;
  P3 c{{0, 0, 0}}; for (auto &q : p) for (int k = 0; k < 3; ++k) c[k] += q[k] / p.size();
  std::map<std::pair<int, int>, int> edges; std::set<int> used; double vol = 0.;
  for (auto k : t)
  {
    double o = orient(p[k[0]], p[k[1]], p[k[2]], c);
    if (std::fabs(o) <= 1e-12) { fail("degenerate triangle in " + show(p)); return; }
    if (o < 0) { std::swap(k[1], k[2]); o = -o; }
    vol += o;
    for (auto &q : p) if (orient(p[k[0]], p[k[1]], p[k[2]], q) < -tol) { fail(fmt("triangle %d,%d,%d is not on the surface of the hull of ", k[0], k[1], k[2]) + show(p)); return; }
    for (int e = 0; e < 3; ++e) { if (edges[{k[e], k[(e + 1) % 3]}]++) { fail("triangles overlap on " + show(p)); return; } used.insert(k[e]); }
  }
  for (auto &e : edges) if (!edges.count({e.first.second, e.first.first})) { fail(fmt("open edge %d,%d on ", e.first.first, e.first.second) + show(p)); return; }
  expect(edges.size() == 3 * t.size() && (long)used.size() - (long)edges.size() / 2 + (long)t.size() == 2, "the surface is not a sphere: " + show(p));
  // the sampling repeats the poles
  std::set<std::array<long, 3>> places; for (auto &q : p) places.insert({{std::lround(q[0] * 1e9), std::lround(q[1] * 1e9), std::lround(q[2] * 1e9)}});
  if (all) expect(used.size() == places.size(), fmt("%zu of %zu points of the surface are corners", used.size(), places.size()));
  outcome(fmt("3D %zu points %zu triangles %.9g", p.size(), t.size(), vol));
  trace();
}
static bool flat(std::vector<P2> const &p) { for (auto &a : p) for (auto &b : p) if (orient(p[0], a, b) != 0.) return false; return true; }
static bool flat(std::vector<P3> const &p) { for (auto &a : p) for (auto &b : p) for (auto &c : p) if (orient(p[0], a, b, c) != 0.) return false; return true; }

// all subsets of size lo..hi, each in some orders
template<typename P> void subsets(const char *name, std::vector<P> const &pts, int lo, int hi)
{
  int n = pts.size(); long in = 0;
  for (long m = 1; m < (1l << n); ++m)
  {
    int c = __builtin_popcountl(m);
    if (c < lo || c > hi) continue;
    if (in++ % 16 == 0) begin_case(fmt("%s subsets %ld..%ld of size %d..%d", name, in - 1, in + 14, lo, hi));
    if (S().cur.empty()) continue;
    std::vector<P> p; for (int i = 0; i < n; ++i) if (m >> i & 1) p.push_back(pts[i]);
    if (flat(p)) { note("flat sets of points"); continue; }
    for (int turn = 0; turn < (thorough() ? 3 : 2); ++turn)
    {
      judge(p);
      if (turn == 0) std::reverse(p.begin(), p.end()); else std::rotate(p.begin(), p.begin() + p.size() / 2, p.end());
    }
  }
}

int main(int argc, char **argv)
{
  init(&argc, &argv);
  if (!(incircle({{0, 0}}, {{2, 0}}, {{0, 2}}, {{1, .5}}) > 0 && incircle({{0, 0}}, {{2, 0}}, {{0, 2}}, {{3, 3}}) < 0)) { std::fprintf(stderr, "incircle is wrong\n"); return 3; }
  std::vector<P2> l2; for (int j = 0; j < 3; ++j) for (int i = 0; i < (thorough() ? 5 : 4); ++i) l2.push_back({{(double)i, (double)j}});
  subsets("lattice 2D", l2, 3, 12);
  subsets("general 2D", std::vector<P2>{{{0, 0}}, {{17, 3}}, {{5, 13}}, {{9, 6}}, {{-4, 8}}, {{12, -7}}, {{3, 4}}, {{20, 15}}, {{-9, -5}}, {{7, 19}}}, 3, 10);
  std::vector<P3> l3; for (int k = 0; k < 2; ++k) for (int j = 0; j < 3; ++j) for (int i = 0; i < 2; ++i) l3.push_back({{(double)i, (double)j, (double)k}});
  subsets("lattice 3D", l3, 4, thorough() ? 12 : 8);
  subsets("general 3D", std::vector<P3>{{{0, 0, 0}}, {{17, 3, 2}}, {{5, 13, -6}}, {{9, 6, 11}}, {{-4, 8, 7}}, {{12, -7, 4}}, {{3, 4, 16}}, {{20, 15, 1}}, {{-9, -5, 9}}, {{7, 9, 3}}}, 4, 10);
  // sampled surfaces
  for (int s = 0; s < 6; ++s) for (double h : {.5, .25, .1})
  {
    double e1 = s < 4 ? 2. : 3., a = 1. + .5 * (s % 3), b = s == 1 ? .6 : 1.;
    if (begin_case(fmt("sampled curve %d step %g", s, h)))
    {
      cafes::geometry::super_ellipsoid<double, 2> se(Pos<2>{.3, -.2}, {a, b}, e1);
      std::vector<P2> p; for (auto &q : se.surface(h)) p.push_back(P2{{q[0], q[1]}});
      judge(p, 1e-12); sample(fmt("curve of %zu points", p.size()));
    }
    if (begin_case(fmt("sampled surface %d step %g", s, h)))
    {
      cafes::geometry::super_ellipsoid<double, 3> se(Pos<3>{.3, -.2, .1}, {a, b, 1.2}, e1, 2.);
      std::vector<P3> p; for (auto &q : se.surface({{h, h}})) p.push_back(P3{{q[0], q[1], q[2]}});
      judge(p, 1e-12, true); sample(fmt("surface of %zu points", p.size()));
    }
  }
  return finish();
}
