// Property: boxes of mesh points are sets of points, and the box operations are the set operations.
#include "common.hpp"
#include <cafes.hpp>
#include "ref.hpp"
using namespace vp;
namespace geo = cafes::geometry;

template<int D> using IB = geo::box<int, D>;
template<int D> using DB = geo::box<double, D>;
template<int D> std::array<int, D> arr(geo::position<int, D> const &p) { std::array<int, D> a; for (int d = 0; d < D; ++d) a[d] = p[d]; return a; }
template<int D> geo::position<int, D> pos(std::array<int, D> const &p) { geo::position<int, D> a; for (int d = 0; d < D; ++d) a[d] = p[d]; return a; }

// all boxes with corners in lo..hi, bottom_left <= upper_right
template<int D> std::vector<IB<D>> all(int lo, int hi, bool empty)
{
  std::vector<IB<D>> r;
  std::array<int, D> n; n.fill(hi - lo + 1);
  ref::for_each<D>(n, [&](auto a) { ref::for_each<D>(n, [&](auto b) {
    bool ok = true; for (int d = 0; d < D; ++d) { if (b[d] < a[d]) ok = false; if (!empty && b[d] == a[d]) ok = false; }
    if (ok) { IB<D> x; for (int d = 0; d < D; ++d) { x.bottom_left[d] = a[d] + lo; x.upper_right[d] = b[d] + lo; } r.push_back(x); }
  }); });
  return r;
}
template<int D> std::set<std::array<int, D>> cells(IB<D> const &b)
{
  std::set<std::array<int, D>> s; std::array<int, D> n;
  for (int d = 0; d < D; ++d) n[d] = b.upper_right[d] - b.bottom_left[d];
  ref::for_each<D>(n, [&](auto a) { for (int d = 0; d < D; ++d) a[d] += b.bottom_left[d]; s.insert(a); });
  return s;
}
template<int D> std::string name(IB<D> const &b)
{
  std::string s = "["; for (int d = 0; d < D; ++d) s += fmt("%d..%d%s", b.bottom_left[d], b.upper_right[d], d < D - 1 ? "," : "]"); return s;
}
template<int D, typename T> DB<D> todouble(T const &b, double f) { DB<D> r; for (int d = 0; d < D; ++d) { r.bottom_left[d] = b.bottom_left[d] * f; r.upper_right[d] = b.upper_right[d] * f; } return r; }

template<typename A> std::string show_(A const &a) { std::string s; for (auto x : a) s += fmt("%d ", x); return s; }

template<int D> void single(int lo, int hi)
{
  for (auto const &b : all<D>(lo, hi, true))
  {
    if (!begin_case(fmt("dim=%d box %s", D, name<D>(b).c_str()))) continue;
    auto C = cells<D>(b);
    // iterate: every point once, x fastest
    std::vector<std::array<int, D>> seen;
    cafes::algorithm::iterate(b, [&](auto const &p) { seen.push_back(arr<D>(p)); }); op();
    std::vector<std::array<int, D>> want(C.begin(), C.end());
    std::sort(want.begin(), want.end(), [](auto const &a, auto const &c) { for (int d = D - 1; d >= 0; --d) if (a[d] != c[d]) return a[d] < c[d]; return false; });
    expect(seen == want, fmt("iterate visits %zu points, want %zu, each once with the first direction fastest", seen.size(), want.size()));
    // length
    double L = 1.; for (int d = 0; d < D; ++d) { expect_near(b.length(d), b.upper_right[d] - b.bottom_left[d], 0., 0., "length in one direction"); L *= b.upper_right[d] - b.bottom_left[d]; }
    expect_near(b.length(), L, 0., 0., "product of the lengths"); op();
    // corners, first direction fastest
    auto P = b.get_box_points(); op();
    expect(P.size() == (1u << D), "number of corners");
    if (P.size() == (1u << D)) for (unsigned k = 0; k < (1u << D); ++k) for (int d = 0; d < D; ++d)
      expect(P[k][d] == ((k >> d) & 1 ? b.upper_right[d] : b.bottom_left[d]), fmt("corner %u direction %d", k, d));
    // membership
    std::array<int, D> n; n.fill(hi - lo + 3);
    ref::for_each<D>(n, [&](auto a) {
      for (int d = 0; d < D; ++d) a[d] += lo - 1;
      op();
      expect(geo::point_inside(b, pos<D>(a)) == (C.count(a) > 0), fmt("point_inside(%s)", show_(a).c_str()));
    });
    trace(); outcome(fmt("%zu", C.size()));
    sample(fmt("dim=%d box %s: %zu points", D, name<D>(b).c_str(), C.size()));
  }
}

template<int D> void pairs(int lo, int hi, bool empty)
{
  auto B = all<D>(lo, hi, empty);
  for (auto const &a : B)
  {
    if (!begin_case(fmt("dim=%d box %s against all boxes %d..%d", D, name<D>(a).c_str(), lo, hi))) continue;
    auto ca = cells<D>(a);
    for (auto const &b : B)
    {
      std::string n = name<D>(b);
      auto cb = cells<D>(b);
      bool meet = true; for (int d = 0; d < D; ++d) if (a.bottom_left[d] > b.upper_right[d] || b.bottom_left[d] > a.upper_right[d]) meet = false;
      std::vector<std::array<int, D>> common; std::set_intersection(ca.begin(), ca.end(), cb.begin(), cb.end(), std::back_inserter(common));
      std::set<std::array<int, D>> cs(common.begin(), common.end());
      bool it = geo::intersect(a, b); op();
      expect(it == meet, "intersect with " + n + fmt(" is %d", it));
      expect(common.empty() || it, "intersect misses common points with " + n);
      if (meet)
      {
        auto o = geo::overlap_box(a, b); op();
        for (int d = 0; d < D; ++d) expect(o.bottom_left[d] == std::max(a.bottom_left[d], b.bottom_left[d]) && o.upper_right[d] == std::min(a.upper_right[d], b.upper_right[d]), "overlap_box with " + n);
        expect(cells<D>(o) == cs, "overlap_box is not the common points with " + n);
        auto q = geo::box_inside(a, b); op();
        expect(cells<D>(q) == cs, "box_inside is not the common points with " + n);
      }
      auto u = geo::union_box(a, b); op();
      for (int d = 0; d < D; ++d) expect(u.bottom_left[d] == std::min(a.bottom_left[d], b.bottom_left[d]) && u.upper_right[d] == std::max(a.upper_right[d], b.upper_right[d]), "union_box with " + n);
      bool ci = geo::check_box_inside(a, b); op();
      expect(ci == meet, fmt("check_box_inside: is a part of %s inside?  says %d", n.c_str(), ci));
      // the same with real corners
      auto da = todouble<D>(a, .375), db = todouble<D>(b, .375);
      expect(geo::intersect(da, db) == meet, "intersect of real boxes with " + n);
      expect(geo::check_box_inside(da, db) == meet, "check_box_inside of real boxes with " + n);
      auto du = geo::union_box(da, db), dv = todouble<D>(u, .375);
      for (int d = 0; d < D; ++d) expect(du.bottom_left[d] == dv.bottom_left[d] && du.upper_right[d] == dv.upper_right[d], "union_box of real boxes with " + n);
      op(3);
    }
    trace(); outcome(name<D>(a));
  }
}

// the split of an iteration over a partition visits the same points
template<int D> void partition(int n)
{
  for (int cut = 0; cut <= n; ++cut) for (int dir = 0; dir < D; ++dir)
  {
    if (!begin_case(fmt("dim=%d partition n=%d cut=%d dir=%d", D, n, cut, dir))) continue;
    IB<D> w, a, b; for (int d = 0; d < D; ++d) { w.bottom_left[d] = 0; w.upper_right[d] = n; } a = w; b = w;
    a.upper_right[dir] = cut; b.bottom_left[dir] = cut;
    for (auto const &p : all<D>(0, n, false))
    {
      std::multiset<std::array<int, D>> got;
      for (auto const *x : {&a, &b}) if (geo::intersect(*x, p)) { cafes::algorithm::iterate(geo::overlap_box(*x, p), [&](auto const &q) { got.insert(arr<D>(q)); }); op(); }
      auto C = cells<D>(p);
      expect(got == std::multiset<std::array<int, D>>(C.begin(), C.end()), "the two halves of " + name<D>(p) + " are not a partition");
    }
    trace(); outcome(fmt("%d", cut));
  }
}

int main(int argc, char **argv)
{
  init(&argc, &argv);
  bool t = thorough();
  single<2>(-2, t ? 5 : 3); single<3>(-1, t ? 3 : 2);
  pairs<2>(-1, t ? 4 : 2, true); pairs<3>(0, t ? 3 : 2, true);
  partition<2>(t ? 5 : 4); partition<3>(t ? 3 : 2);
  return finish();
}
