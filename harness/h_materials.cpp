// Property: the discretisation of the particles on the mesh (control points, surface points, radial
// vectors, counts) is that of the particles, shared out among the processes without loss or overlap.
#include "common.hpp"
#include <cafes.hpp>
#include "layout.hpp"
using namespace vp;
namespace fem = cafes::fem; namespace geo = cafes::geometry;

template<int D> using Sh = typename std::conditional<D == 2, geo::circle<>, geo::sphere<>>::type;
static geo::circle<> shape(std::array<double, 2> const &c, double r) { return cafes::make_circle({c[0], c[1]}, r); }
static geo::sphere<> shape(std::array<double, 3> const &c, double r) { return cafes::make_sphere({c[0], c[1], c[2]}, r); }
template<int D> cafes::particle<Sh<D>> part(std::array<double, D> const &c, double r)
{ cafes::physics::force<D> f; f.fill(1.); return cafes::make_particle_with_force(shape(c, r), f, 1.); }

template<int D> struct Materials
{
  std::vector<std::vector<std::pair<geo::position<int, D>, geo::position<double, D>>>> surf;
  std::vector<std::vector<geo::vector<double, D>>> radial;
  std::vector<int> nb, num;
};
template<int D> double level(std::array<double, D> const &p, std::array<double, D> const &c, double r) { double s = 0.; for (int d = 0; d < D; ++d) s += (p[d] - c[d]) * (p[d] - c[d]); return s / (r * r); }

static std::vector<double> all_gather(std::vector<double> const &v)
{
  int n = (int)v.size(), P = np(); std::vector<int> cnt(P), off(P);
  MPI_Allgather(&n, 1, MPI_INT, cnt.data(), 1, MPI_INT, PETSC_COMM_WORLD);
  int t = 0; for (int i = 0; i < P; ++i) { off[i] = t; t += cnt[i]; }
  std::vector<double> r(t);
  MPI_Allgatherv(v.data(), n, MPI_DOUBLE, r.data(), cnt.data(), off.data(), MPI_DOUBLE, PETSC_COMM_WORLD);
  return r;
}

template<int D> struct Ball { std::array<double, D> c; double r; };

// the discretisation for one list of particles
template<int D, typename DP> void one(DM dm, ref::Grid<D> const &g, std::string const &mesh, std::vector<Ball<D>> const &balls, int scale, DP dpart, std::string const &dp)
{
  std::string key = mesh + fmt(" scale=%d step=%s particles", scale, dp.c_str());
  for (auto const &b : balls) { key += " ("; for (int d = 0; d < D; ++d) key += fmt("%.4g,", b.c[d]); key += fmt("r %.4g)", b.r); }
  if (!begin_case(key)) return;
  std::vector<cafes::particle<Sh<D>>> parts;
  for (auto const &b : balls) parts.push_back(part<D>(b.c, b.r));
  std::array<double, D> h = g.h;
  auto box = fem::get_DM_bounds<D>(dm, 0); op();
  Materials<D> m;
  auto size = cafes::set_materials(parts, m.surf, m.radial, m.nb, m.num, box, h, dpart, (std::size_t)scale); op();
  expect(m.surf.size() == balls.size() && m.radial.size() == balls.size() && m.nb.size() == balls.size() && m.num.size() == balls.size(), "one entry per particle");
  DM da[2]; DMCompositeGetEntriesArray(dm, da);
  PetscInt gs[3], gm[3]; DMDAGetGhostCorners(da[0], &gs[0], &gs[1], &gs[2], &gm[0], &gm[1], &gm[2]);
  auto nv = g.nv(); auto ne = g.ne_v();
  long local = 0, total_inside = 0, total_border = 0;
  for (size_t ip = 0; ip < balls.size(); ++ip)
  {
    auto const &b = balls[ip];
    // control points: the nodes inside the particle, each on the process that owns the node
    std::vector<double> mine;
    auto pbox = parts[ip].bounding_box(h); op();
    std::vector<geo::position<int, D>> pts;
    if (geo::intersect(box, pbox)) { pts = cafes::find_fluid_points_insides(parts[ip], geo::overlap_box(box, pbox), h); op(); }
    local += pts.size();
    for (size_t i = 0; i < pts.size(); ++i)
    {
      bool own = true; for (int d = 0; d < D; ++d) { own = own && pts[i][d] >= box.bottom_left[d] && pts[i][d] < box.upper_right[d]; mine.push_back(pts[i][d]); }
      expect(own, "control point of another process");
      if (i) { bool up = false; for (int d = D - 1; d >= 0; --d) if (pts[i][d] != pts[i - 1][d]) { up = pts[i][d] > pts[i - 1][d]; break; } expect(up, "control points are not in mesh order"); }
    }
    auto all = all_gather(mine);
    std::map<std::array<int, D>, int> cnt;
    for (size_t i = 0; i < all.size(); i += D) { std::array<int, D> a; for (int d = 0; d < D; ++d) a[d] = (int)all[i + d]; cnt[a]++; }
    long inside = 0, border = 0, found = 0;
    ref::for_each<D>(nv, [&](auto a) {
      std::array<double, D> p; for (int d = 0; d < D; ++d) p[d] = a[d] * h[d];
      double l = level<D>(p, b.c, b.r);
      auto it = cnt.find(a); int c = it == cnt.end() ? 0 : it->second;
      found += c;
      S().comparisons++;
      if (std::fabs(l - 1.) < 1e-9) { border++; if (c > 1) fail("a border node is a control point twice"); return; }
      if (l < 1.) inside++;
      if (c != (l < 1.)) { std::string s; for (int d = 0; d < D; ++d) s += fmt("%d ", a[d]); fail(fmt("particle %zu: node %s is %d times a control point, want %d", ip, s.c_str(), c, l < 1.)); }
    });
    expect((long)all.size() == found * D, "control points out of the mesh");
    total_inside += inside; total_border += border;
    // border nodes included, the processes together have what one process would have
    {
      geo::box<int, D> whole; for (int d = 0; d < D; ++d) { whole.bottom_left[d] = 0; whole.upper_right[d] = nv[d]; }
      auto serial = cafes::find_fluid_points_insides(parts[ip], geo::overlap_box(whole, pbox), h); op();
      bool same = serial.size() * D == all.size();
      for (auto const &q : serial) { std::array<int, D> a; for (int d = 0; d < D; ++d) a[d] = q[d]; same = same && cnt.count(a); }
      expect(same, fmt("particle %zu: %zu control points on all processes, one process finds %zu", ip, all.size() / D, serial.size()));
    }
    // integration points
    long lo = 0, hi = 0;
    { std::array<int, D> n; for (int d = 0; d < D; ++d) n[d] = nv[d] * scale;
      ref::for_each<D>(n, [&](auto a) { std::array<double, D> p; for (int d = 0; d < D; ++d) p[d] = a[d] * h[d] / scale; double l = level<D>(p, b.c, b.r); if (std::fabs(l - 1.) < 1e-9) hi++; else if (l < 1.) { lo++; hi++; } }); }
    expect(m.num[ip] >= lo && m.num[ip] <= hi, fmt("particle %zu: %d integration points, want %ld..%ld", ip, m.num[ip], lo, hi));
    // surface points
    auto ref_pts = parts[ip].surface(dpart); op();
    std::vector<double> pos;
    expect(m.surf[ip].size() == m.radial[ip].size(), "a radial vector for each surface point");
    for (size_t i = 0; i < m.surf[ip].size(); ++i)
    {
      bool ok = true, in = true, acc = true;
      for (int d = 0; d < D; ++d)
      {
        int e = m.surf[ip][i].first[d]; double x = m.surf[ip][i].second[d];
        ok = ok && x >= -1e-12 * h[d] && x <= h[d] * (1 + 1e-12);
        in = in && e >= 0 && e < ne[d];
        acc = acc && e >= gs[d] && e + 1 < gs[d] + gm[d];
        pos.push_back(e * h[d] + x);
        if (i < m.radial[ip].size()) expect_near(m.radial[ip][i][d], e * h[d] + x - b.c[d], 1e-11, 1., "radial vector is not the point minus the centre");
      }
      expect(ok, "position in the element is not between 0 and h"); expect(in, "surface point in no element"); expect(acc, "nodes of the element of a surface point are not on the process");
    }
    auto allp = all_gather(pos);
    expect(allp.size() == ref_pts.size() * D, fmt("particle %zu: %zu surface points on all processes, want %zu", ip, allp.size() / D, ref_pts.size()));
    expect(m.nb[ip] * D == (long)allp.size(), fmt("particle %zu: nb_surf_points is %d, there are %zu", ip, m.nb[ip], allp.size() / D));
    std::vector<std::array<double, D>> A, B;
    for (size_t i = 0; i < allp.size(); i += D) { std::array<double, D> p; for (int d = 0; d < D; ++d) p[d] = allp[i + d]; A.push_back(p); }
    for (auto const &q : ref_pts) { std::array<double, D> p; for (int d = 0; d < D; ++d) p[d] = q[d]; B.push_back(p); }
    auto less = [](std::array<double, D> const &x, std::array<double, D> const &y) { for (int d = 0; d < D; ++d) { long a = std::lround(x[d] * 1e7), c = std::lround(y[d] * 1e7); if (a != c) return a < c; } return false; };
    std::sort(A.begin(), A.end(), less); std::sort(B.begin(), B.end(), less);
    for (size_t i = 0; i < std::min(A.size(), B.size()); ++i) { bool ok = true; for (int d = 0; d < D; ++d) ok = ok && std::fabs(A[i][d] - B[i][d]) < 3e-7; S().comparisons++; if (!ok) { fail(fmt("particle %zu: surface points of the processes are not those of the particle", ip)); break; } }
  }
  expect((long)size == local, fmt("returned %ld control points, the particles have %ld on this process", (long)size, local));
  // again, with the same containers: the same result
  auto c = m;
  auto size2 = cafes::set_materials(parts, m.surf, m.radial, m.nb, m.num, box, h, dpart, (std::size_t)scale); op();
  expect(size2 == size && m.nb == c.nb && m.num == c.num && m.surf.size() == c.surf.size(), "a second call gives another result");
  for (size_t ip = 0; ip < balls.size() && ip < m.surf.size(); ++ip) expect(m.surf[ip].size() == c.surf[ip].size() && m.radial[ip].size() == c.radial[ip].size(), "a second call gives other surface points");
  if (balls.size() > 1)
  {
    // ... and with fewer particles
    std::vector<cafes::particle<Sh<D>>> first(parts.begin(), parts.begin() + 1);
    cafes::set_materials(first, m.surf, m.radial, m.nb, m.num, box, h, dpart, (std::size_t)scale); op();
    expect(m.nb.size() == 1 && m.nb[0] == c.nb[0] && m.num[0] == c.num[0] && m.surf[0].size() == c.surf[0].size(), "fewer particles with the same containers");
  }
  trace(); outcome(fmt("%ld", total_inside)); sample(key + fmt(": %ld nodes inside", total_inside));
  note("nodes inside particles", total_inside); note("nodes exactly on a particle border (either way accepted)", total_border);
}

template<int D, typename DP> void mesh(std::array<int, D> n, std::array<int, D> per, std::array<double, D> len, std::vector<std::pair<std::string, DP>> const &steps)
{
  ref::Grid<D> g{n, per, {}}; for (int d = 0; d < D; ++d) g.h[d] = .5 * len[d] / (n[d] - 1);
  if (!feasible<D>(g.np())) { note("refused by PETSc"); return; }
  std::array<PetscBool, D> period; for (int d = 0; d < D; ++d) period[d] = per[d] ? PETSC_TRUE : PETSC_FALSE;
  DM dm; if (fem::createMesh<D>(dm, n, period)) return;
  std::string key = fmt("np=%d dim=%d n=%s per=%s", np(), D, show<D>(n).c_str(), show<D>(per).c_str());
  bool t = thorough();
  std::vector<int> scales = t ? std::vector<int>{1, 2, 3, 4} : std::vector<int>{1, D == 2 ? 4 : 2};
  double L = *std::min_element(len.begin(), len.end());
  std::vector<double> radii = D == 2 ? std::vector<double>{.08 * L, .15 * L, .25 * L, .4 * L} : std::vector<double>{.15 * L, .3 * L};
  // centres on a lattice finer than the mesh: on nodes, on edges, inside elements
  int q = D == 2 ? (t ? 16 : 8) : (t ? 6 : 4);
  std::vector<Ball<D>> balls;
  std::array<int, D> m; m.fill(q + 1);
  for (double r : radii) ref::for_each<D>(m, [&](auto a) {
    Ball<D> b; b.r = r; bool ok = true;
    for (int d = 0; d < D; ++d) { b.c[d] = len[d] * a[d] / q; if (b.c[d] - r < .02 * L || b.c[d] + r > len[d] - .02 * L) ok = false; }
    if (ok) balls.push_back(b);
  });
  int is = 0;
  for (auto const &b : balls) { for (int s : scales) for (auto const &st : steps) if (t || (is++ % 2 == 0) || D == 2) one<D>(dm, g, key, {b}, s, st.second, st.first); }
  // pairs (also overlapping ones: each particle has its own discretisation)
  int stride = t ? 5 : 17;
  for (size_t i = 0; i < balls.size(); i += stride) for (size_t j = 0; j < balls.size(); j += stride + 2) if (i != j) one<D>(dm, g, key, {balls[i], balls[j]}, scales.back(), steps[0].second, steps[0].first);
  close_case();
  DMDestroy(&dm);
}

int main(int argc, char **argv)
{
  init(&argc, &argv);
  bool t = thorough();
  using S2 = std::vector<std::pair<std::string, double>>; S2 s2{{"0.2", .2}}; if (t) s2.push_back({"0.05", .05});
  using S3 = std::vector<std::pair<std::string, std::array<double, 2>>>; S3 s3{{"0.3,0.3", {{.3, .3}}}};
  for (auto per : {std::array<int, 2>{0, 0}, {1, 0}, {0, 1}, {1, 1}})
  {
    mesh<2, double>({5, 5}, per, {1., 1.}, s2);
    mesh<2, double>({9, 4}, per, {1., .7}, s2);
    mesh<2, double>({11, 11}, per, {1., 1.}, s2); mesh<2, double>({16, 8}, per, {1., 1.}, s2);
    if (t) { mesh<2, double>({4, 7}, per, {1.5, 1.}, s2); mesh<2, double>({9, 9}, per, {1., 1.}, s2); }
  }
  mesh<3, std::array<double, 2>>({4, 4, 4}, {0, 0, 0}, {1., 1., 1.}, s3);
  mesh<3, std::array<double, 2>>({3, 5, 4}, {0, 1, 0}, {1., 1.2, .8}, s3);
  return finish();
}
