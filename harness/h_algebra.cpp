// Property: the vector / position / velocity / force algebra, cross products and quaternions.
#include "common.hpp"
#include <cafes.hpp>
#include <particle/geometry/linspace.hpp>
#include "ref.hpp"
using namespace vp;
namespace geo = cafes::geometry; namespace ph = cafes::physics;

template<int D> using V = geo::vector<double, D>;
template<int D> using P = geo::position<double, D>;
template<int D> using U = ph::velocity<D>;
template<int D> using F = ph::force<D>;

template<typename T, int D> T mk(std::array<int, D> const &a) { T t; for (int d = 0; d < D; ++d) t[d] = a[d]; return t; }
template<int D, typename A, typename W> void same(A const &a, W &&w, const char *what)
{
  op();
  for (int d = 0; d < D; ++d) { S().comparisons++; if (!(a[d] == w(d))) { fail(fmt("%s: component %d = %g, want %g", what, d, (double)a[d], (double)w(d))); return; } }
}
static int eps(int i, int j, int k) { return (i - j) * (j - k) * (k - i) / 2; }

template<int D> void algebra(int m)
{
  std::array<int, D> n; n.fill(2 * m + 1);
  ref::for_each<D>(n, [&](auto a) {
    for (auto &x : a) x -= m;
    std::string k; for (int x : a) k += fmt("%d,", x);
    if (!begin_case(fmt("dim=%d a=%s", D, k.c_str()))) return;
    auto va = mk<V<D>, D>(a); auto pa = mk<P<D>, D>(a); auto ua = mk<U<D>, D>(a); auto fa = mk<F<D>, D>(a);
    same<D>(-va, [&](int d) { return -a[d]; }, "-vector");
    same<D>(V<D>(pa), [&](int d) { return a[d]; }, "vector from position");
    same<D>(V<D>(ua), [&](int d) { return a[d]; }, "vector from velocity");
    // scalars
    for (double c : {-2., .5, 4.})
    {
      same<D>(va * c, [&](int d) { return a[d] * c; }, "vector * scalar");
      same<D>(c * va, [&](int d) { return a[d] * c; }, "scalar * vector");
      same<D>(va / c, [&](int d) { return a[d] / c; }, "vector / scalar");
      same<D>(pa + c, [&](int d) { return a[d] + c; }, "position + scalar");
      same<D>(pa - c, [&](int d) { return a[d] - c; }, "position - scalar");
      same<D>(pa / c, [&](int d) { return a[d] / c; }, "position / scalar");
      same<D>(fa * c, [&](int d) { return a[d] * c; }, "force * scalar");
      same<D>(c * fa, [&](int d) { return a[d] * c; }, "scalar * force");
      same<D>(fa + c, [&](int d) { return a[d] + c; }, "force + scalar");
      same<D>(c + fa, [&](int d) { return a[d] + c; }, "scalar + force");
      { auto x = va; x *= c; same<D>(x, [&](int d) { return a[d] * c; }, "vector *= scalar"); }
      { auto x = va; x /= c; same<D>(x, [&](int d) { return a[d] / c; }, "vector /= scalar"); }
      { auto x = pa; x += c; same<D>(x, [&](int d) { return a[d] + c; }, "position += scalar"); }
      { auto x = pa; x -= c; same<D>(x, [&](int d) { return a[d] - c; }, "position -= scalar"); }
      { auto x = pa; x /= c; same<D>(x, [&](int d) { return a[d] / c; }, "position /= scalar"); }
      { auto x = fa; x *= c; same<D>(x, [&](int d) { return a[d] * c; }, "force *= scalar"); }
      { auto x = fa; x += c; same<D>(x, [&](int d) { return a[d] + c; }, "force += scalar"); }
    }
    same<D>(va / 2, [&](int d) { return a[d] / 2.; }, "vector / int");
    { std::array<double, D> h; h.fill(.25); same<D>(geo::floor(pa * h), [&](int d) { return (int)std::floor(a[d] * .25); }, "floor"); same<D>(geo::ceil(pa * h), [&](int d) { return (int)std::ceil(a[d] * .25); }, "ceil"); }
    { auto x = fa; x.fill(3.); same<D>(x, [&](int) { return 3.; }, "force fill"); }
    ref::for_each<D>(n, [&](auto b) {
      for (auto &x : b) x -= m;
      auto vb = mk<V<D>, D>(b); auto pb = mk<P<D>, D>(b); auto ub = mk<U<D>, D>(b); auto fb = mk<F<D>, D>(b);
      auto plus = [&](int d) { return (double)(a[d] + b[d]); }; auto minus = [&](int d) { return (double)(a[d] - b[d]); }; auto times = [&](int d) { return (double)(a[d] * b[d]); };
      same<D>(va + vb, plus, "vector + vector");
      { auto x = va; x += vb; same<D>(x, plus, "vector += vector"); }
      { auto x = va; x -= vb; same<D>(x, minus, "vector -= vector"); }
      { auto x = va; x *= vb; same<D>(x, times, "vector *= vector"); }
      { auto x = va; x += ub; same<D>(x, plus, "vector += velocity"); }
      same<D>(va - ub, minus, "vector - velocity");
      same<D>(ua - vb, minus, "velocity - vector");
      same<D>(ua + ub, plus, "velocity + velocity");
      { auto x = ua; x += ub; same<D>(x, plus, "velocity += velocity"); }
      same<D>(pa + pb, plus, "position + position");
      same<D>(pa - pb, minus, "position - position");
      same<D>(pa * pb, times, "position * position");
      same<D>(pa + ub, plus, "position + velocity");
      { auto x = pa; x += pb; same<D>(x, plus, "position += position"); }
      { auto x = pa; x -= pb; same<D>(x, minus, "position -= position"); }
      { auto x = pa; x *= pb; same<D>(x, times, "position *= position"); }
      { auto x = pa; x += ub; same<D>(x, plus, "position += velocity"); }
      { std::array<double, D> h; for (int d = 0; d < D; ++d) h[d] = b[d] ? b[d] : 1; same<D>(pa * h, [&](int d) { return a[d] * h[d]; }, "position * sizes"); same<D>(pa / h, [&](int d) { return a[d] / h[d]; }, "position / sizes");
        geo::position<int, D> ia; for (int d = 0; d < D; ++d) ia[d] = a[d]; same<D>(ia * h, [&](int d) { return a[d] * h[d]; }, "mesh point * sizes");
        // what a mesh point index times a non-integral spacing must be
        for (auto &x : h) x = x * .375; same<D>(ia * h, [&](int d) { return a[d] * h[d]; }, "mesh point * real sizes"); }
      same<D>(fa + fb, plus, "force + force");
      same<D>(fa - fb, minus, "force - force");
      { auto x = fa; x += fb; same<D>(x, plus, "force += force"); }
      { auto x = fa; x -= fb; same<D>(x, minus, "force -= force"); }
      // rigid motion: differences and distance of two particles
      using Sh = typename std::conditional<D == 2, geo::circle<>, geo::sphere<>>::type;
    });
    trace(); outcome(k);
  });
}

static void crosses(int m)
{
  std::array<int, 3> n; n.fill(2 * m + 1);
  ref::for_each<3>(n, [&](auto a) {
    for (auto &x : a) x -= m;
    if (!begin_case(fmt("cross products of %d,%d,%d", a[0], a[1], a[2]))) return;
    ref::for_each<3>(n, [&](auto b) {
      for (auto &x : b) x -= m;
      auto w = [&](int i) { int s = 0; for (int j = 0; j < 3; ++j) for (int k = 0; k < 3; ++k) s += eps(i, j, k) * a[j] * b[k]; return s; };
      same<3>(geo::cross_product(mk<V<3>, 3>(a), mk<V<3>, 3>(b)), w, "3D cross product of vectors");
      same<3>(geo::cross_product(mk<P<3>, 3>(a), mk<P<3>, 3>(b)), w, "3D cross product of positions");
      if (a[2] == 0 && b[2] == 0)
      {
        std::array<int, 2> a2{a[0], a[1]}, b2{b[0], b[1]};
        auto va = mk<V<2>, 2>(a2); auto vb = mk<V<2>, 2>(b2); auto pa = mk<P<2>, 2>(a2);
        op(2);
        expect(geo::cross_product(va, vb) == w(2), "2D cross product of vectors");
        expect(geo::cross_product(pa, vb) == w(2), "2D cross product of a position and a vector");
      }
      if (a[0] == 0 && a[1] == 0 && b[2] == 0)
      {
        std::array<int, 2> b2{b[0], b[1]};
        geo::vector<double, 1> r; r[0] = a[2];
        same<2>(geo::cross_product((double)a[2], mk<V<2>, 2>(b2)), w, "2D rotation velocity");
        same<2>(geo::cross_product((double)a[2], mk<P<2>, 2>(b2)), w, "2D rotation velocity at a position");
        same<2>(geo::cross_product(r, mk<V<2>, 2>(b2)), w, "2D rotation velocity (one-component vector)");
        same<2>(geo::cross_product(mk<V<2>, 2>(b2), (double)a[2]), [&](int i) { return -w(i); }, "2D vector times rotation");
        same<2>(geo::cross_product(mk<V<2>, 2>(b2), r), [&](int i) { return -w(i); }, "2D vector times rotation (one-component vector)");
      }
    });
    trace(); outcome(fmt("%d%d%d", a[0], a[1], a[2]));
  });
}

// rotations
static void rotations(int steps, int m)
{
  std::array<int, 3> n{2 * m + 1, 2 * m + 1, 2 * m + 1};
  ref::for_each<3>(n, [&](auto ax) {
    for (auto &x : ax) x -= m;
    double l = std::sqrt(double(ax[0] * ax[0] + ax[1] * ax[1] + ax[2] * ax[2]));
    if (l == 0.) return;
    for (int unit = 0; unit < 2; ++unit)
    {
      if (!unit && l == 1.) continue;
      if (!begin_case(fmt("rotations about %s axis %d,%d,%d", unit ? "unit" : "plain", ax[0], ax[1], ax[2]))) continue;
      std::array<double, 3> k; for (int d = 0; d < 3; ++d) k[d] = ax[d] / l;
      double s = unit ? 1. / l : 1.;
      for (int t = 0; t < steps; ++t)
      {
        double ang = 2. * M_PI * t / steps - M_PI / 3.;
        geo::quaternion q(ang, geo::vector<double, 3>{ax[0] * s, ax[1] * s, ax[2] * s}); op();
        double nn = 0.; for (int d = 0; d < 4; ++d) nn += q.components_[d] * q.components_[d];
        expect_near(nn, 1., 1e-12, 1., "norm of the quaternion");
        P<3> kk{k[0], k[1], k[2]};
        auto rk = q.rotate(kk); op();
        for (int d = 0; d < 3; ++d) expect_near(rk[d], k[d], 1e-12, 1., "the axis is fixed");
        std::array<P<3>, 3> e{P<3>{1, 0, 0}, P<3>{0, 1, 0}, P<3>{0, 0, 1}}, r;
        for (int i = 0; i < 3; ++i)
        {
          r[i] = q.rotate(e[i]); op();
          auto b = q.conj().rotate(r[i]); op();
          for (int d = 0; d < 3; ++d) expect_near(b[d], e[i][d], 1e-12, 1., "rotating back");
          if (unit) for (int d = 0; d < 3; ++d)
          {
            // Rodrigues
            double cr = 0.; for (int j = 0; j < 3; ++j) cr += eps(d, j, i) * k[j];
            double w = (d == i) * std::cos(ang) + cr * std::sin(ang) + k[d] * k[i] * (1. - std::cos(ang));
            expect_near(r[i][d], w, 1e-12, 1., "rotation matrix");
          }
        }
        for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j)
        { double dp = 0.; for (int d = 0; d < 3; ++d) dp += r[i][d] * r[j][d]; expect_near(dp, i == j, 1e-12, 1., "isometry"); }
        double det = 0.; for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) for (int c = 0; c < 3; ++c) det += eps(i, j, c) * r[0][i] * r[1][j] * r[2][c];
        expect_near(det, 1., 1e-12, 1., "orientation");
        expect(q.is_rotate(), "is_rotate");
        if (ax[0] == 0 && ax[1] == 0 && ax[2] > 0 && (unit || l == 1.))
        {
          for (auto const &q2 : {q, geo::quaternion(ang)})
          {
            auto a = q2.rotate(P<2>{1, 0}), b = q2.rotate(P<2>{0, 1}); op(2);
            expect_near(a[0], std::cos(ang), 1e-12, 1., "plane rotation"); expect_near(a[1], std::sin(ang), 1e-12, 1., "plane rotation");
            expect_near(b[0], -std::sin(ang), 1e-12, 1., "plane rotation"); expect_near(b[1], std::cos(ang), 1e-12, 1., "plane rotation");
          }
        }
      }
      trace(); outcome(fmt("%d %d %d %d", ax[0], ax[1], ax[2], unit));
      sample(fmt("%d angles about (%d,%d,%d)", steps, ax[0], ax[1], ax[2]));
    }
  });
  if (begin_case("no rotation given")) { geo::quaternion q{}; expect(!q.is_rotate(), "a value-initialised quaternion is no rotation"); op(); trace(); }
}

// particles: differences of positions and velocities, distance
template<int D, typename Sh, typename Make> void particles(int m, Make make)
{
  std::array<int, D> n; n.fill(2 * m + 1);
  ref::for_each<D>(n, [&](auto a) {
    for (auto &x : a) x -= m;
    std::string k; for (int x : a) k += fmt("%d,", x);
    if (!begin_case(fmt("two particles dim=%d a=%s", D, k.c_str()))) return;
    ref::for_each<D>(n, [&](auto b) {
      for (auto &x : b) x -= m;
      auto p1 = make(a), p2 = make(b);
      same<D>(cafes::position_diff<Sh, D>(p1, p2), [&](int d) { return (double)(a[d] - b[d]); }, "position_diff");
      same<D>(cafes::velocity_diff<Sh, D>(p1, p2), [&](int d) { return 3. * (a[d] - b[d]); }, "velocity_diff");
      double s = 0.; for (int d = 0; d < D; ++d) s += (a[d] - b[d]) * (a[d] - b[d]);
      op(); expect_near(cafes::distance<Sh, D>(p1, p2), std::sqrt(s), 1e-14, 0., "distance");
    });
    trace(); outcome(k);
  });
}

static void linspaces()
{
  for (int num = 1; num <= 40; ++num) for (int e = 0; e < 2; ++e)
    for (auto r : {std::array<double, 2>{0., 1.}, {-3., 5.}, {2., 2.}, {0., 2 * M_PI}})
    {
      if (!begin_case(fmt("linspace %g..%g %d %d", r[0], r[1], num, e))) continue;
      auto v = geo::linspace(r[0], r[1], num, e == 1); op();
      expect((int)v.size() == num, fmt("%zu values, want %d", v.size(), num));
      int ns = e ? std::max(num - 1, 1) : num;
      for (int i = 0; i < (int)v.size(); ++i) expect_near(v[i], r[0] + (r[1] - r[0]) * i / ns, 1e-14, 10., "value");
      trace();
    }
}

int main(int argc, char **argv)
{
  init(&argc, &argv);
  bool t = thorough();
  algebra<2>(t ? 6 : 4); algebra<3>(t ? 3 : 2);
  crosses(t ? 3 : 2);
  rotations(t ? 48 : 12, t ? 3 : 2);
  particles<2, geo::circle<>>(t ? 5 : 3, [](auto a) { U<2> v{3. * a[0], 3. * a[1]}; return cafes::make_particle_with_velocity(cafes::make_circle({(double)a[0], (double)a[1]}, .1), v, 0.); });
  particles<3, geo::sphere<>>(t ? 2 : 1, [](auto a) { U<3> v{3. * a[0], 3. * a[1], 3. * a[2]}; return cafes::make_particle_with_velocity(cafes::make_sphere({(double)a[0], (double)a[1], (double)a[2]}, .1), v, U<3>{0., 0., 0.}); });
  linspaces();
  return finish();
}
