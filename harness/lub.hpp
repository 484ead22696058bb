// Reference model of the lubrication field between two close balls moving along their common
// normal: Reynolds' thin film solution, truncated by a smooth function chi of the square of the
// distance to the axis,
//     u = curl(phi) - U/2 chi n,    p = chi p_Reynolds
// where phi is chi times Reynolds' stream function in 2D and the stream function of the film driven
// by the truncated pressure in 3D.
// Everything is a function of z (along the normal, from the contact point of the first ball) and
// q = (distance to the axis)^2; derivatives by second order jets.
#pragma once
#include <array>
#include <cmath>
#include <vector>

namespace lub
{
  using std::size_t;
  struct J { double v = 0, z = 0, q = 0, zz = 0, zq = 0, qq = 0; };
  inline J operator+(J a, J b) { return {a.v + b.v, a.z + b.z, a.q + b.q, a.zz + b.zz, a.zq + b.zq, a.qq + b.qq}; }
  inline J operator*(double s, J a) { return {s * a.v, s * a.z, s * a.q, s * a.zz, s * a.zq, s * a.qq}; }
  inline J operator*(J a, J b)
  {
    return {a.v * b.v, a.z * b.v + a.v * b.z, a.q * b.v + a.v * b.q, a.zz * b.v + 2 * a.z * b.z + a.v * b.zz,
            a.zq * b.v + a.z * b.q + a.q * b.z + a.v * b.zq, a.qq * b.v + 2 * a.q * b.q + a.v * b.qq};
  }
  inline J fun(J a, double f, double f1, double f2)
  {
    return {f, f1 * a.z, f1 * a.q, f1 * a.zz + f2 * a.z * a.z, f1 * a.zq + f2 * a.z * a.q, f1 * a.qq + f2 * a.q * a.q};
  }
  inline J inv(J a) { double i = 1. / a.v; return fun(a, i, -i * i, 2 * i * i * i); }
  // odd smooth step: derivative proportional to (1-t^2)^4, from -1 to 1 (Gauss points integrate it exactly)
  inline double step(double t)
  {
    static const double x[5] = {0., .5384693101056831, -.5384693101056831, .9061798459386640, -.9061798459386640};
    static const double w[5] = {.5688888888888889, .4786286704993665, .4786286704993665, .2369268850561891, .2369268850561891};
    double s = 0.; for (int i = 0; i < 5; ++i) { double y = t * (1. + x[i]) / 2.; s += w[i] * std::pow(1. - y * y, 4); }
    return 315. / 128. * s * t / 2.;
  }
  inline double step1(double t) { return 315. / 128. * std::pow(1. - t * t, 4); }
  inline double step2(double t) { return -8. * t * 315. / 128. * std::pow(1. - t * t, 3); }
  inline J chi(J q, double l, double eps)
  {
    double t = (q.v - l) / eps;
    if (t <= -1.) return {1.};
    if (t >= 1.) return {0.};
    return fun(q, .5 * (1. - step(t)), -.5 * step1(t) / eps, -.5 * step2(t) / (eps * eps));
  }
  // its derivative
  inline double step3(double t) { return 315. / 128. * (-8. * std::pow(1. - t * t, 3) + 48. * t * t * std::pow(1. - t * t, 2)); }
  inline J chi1(J q, double l, double eps)
  {
    double t = (q.v - l) / eps;
    if (t <= -1. || t >= 1.) return {0.};
    return fun(q, -.5 * step1(t) / eps, -.5 * step2(t) / (eps * eps), -.5 * step3(t) / (eps * eps * eps));
  }

  template<int D> struct Pair
  {
    using X = std::array<double, D>;
    X c1, c2, n; double r1, r2, a, U, cut, H, M; X o;
    std::array<X, D> e;  // own orthonormal frame, e[0] = n
    Pair(X const &c1_, double r1_, X const &v1, X const &c2_, double r2_, X const &v2, double h) : c1(c1_), c2(c2_), r1(r1_), r2(r2_)
    {
      double d = 0.; for (int i = 0; i < D; ++i) d += (c2[i] - c1[i]) * (c2[i] - c1[i]);
      d = std::sqrt(d); a = d - r1 - r2; H = 1. / r1; M = 1. / r2; U = 0.;
      for (int i = 0; i < D; ++i) { n[i] = (c2[i] - c1[i]) / d; o[i] = c1[i] + r1 * n[i]; U += (v2[i] - v1[i]) * n[i]; }
      // four widths of the pressure peak, not more than a radius, not less than the diagonal of a cell
      cut = std::max(std::sqrt(2.) * h, std::min(std::min(r1, r2), 4. * std::sqrt(a / (.5 * (H + M)))));
      e[0] = n; int k = 1;
      for (int i = 0; i < D && k < D; ++i)
      {
        X t{}; t[(i + 1) % D] = 1.;
        for (int j = 0; j < k; ++j) { double p = 0.; for (int m = 0; m < D; ++m) p += t[m] * e[j][m]; for (int m = 0; m < D; ++m) t[m] -= p * e[j][m]; }
        double s = 0.; for (double v : t) s += v * v; s = std::sqrt(s);
        if (s < .5) continue;
        for (auto &v : t) v /= s; e[k++] = t;
      }
    }
    X local(X const &x) const { X r{}; for (int i = 0; i < D; ++i) for (int m = 0; m < D; ++m) r[i] += (x[m] - o[m]) * e[i][m]; return r; }
    X global(X const &l) const { X r = o; for (int i = 0; i < D; ++i) for (int m = 0; m < D; ++m) r[m] += l[i] * e[i][m]; return r; }
    static double q_of(X const &l) { double q = 0.; for (int i = 1; i < D; ++i) q += l[i] * l[i]; return q; }
    struct Value { X u; std::array<X, D> g; double p; };  // g[i][j] = d u_i / d x_j, global
    Value at_local(X const &l) const
    {
      double q = q_of(l);
      J Z{l[0], 1}, Q{q, 0, 1};
      J T = J{2 * a} + (M + H) * Q, s = Z + .5 * H * Q, iT = inv(T);
      J c = chi(Q, .5 * cut * cut, .5 * cut * cut);
      J f;
      if (D == 2) f = -12. * U * (iT * iT * iT * (T * s * s + (-4. / 3.) * (s * s * s))) * c;
      else  // slope of the pressure along q, times the integral of s (s - T/2)
        f = (24. * U * (c * iT * iT * iT) + -12. * U / (H + M) * (chi1(Q, .5 * cut * cut, .5 * cut * cut) * iT * iT)) * ((1. / 3.) * (s * s * s) + -.25 * (T * s * s));
      std::array<X, D> g{}; X u{};
      double m = D - 1;
      u[0] = -(m * f.v + 2 * q * f.q) - .5 * U * c.v;
      g[0][0] = -(m * f.z + 2 * q * f.zq);
      for (int i = 1; i < D; ++i)
      {
        g[0][i] = 2 * l[i] * (-((m + 2) * f.q + 2 * q * f.qq) - .5 * U * c.q);
        u[i] = l[i] * f.z; g[i][0] = l[i] * f.zz;
        for (int j = 1; j < D; ++j) g[i][j] = (i == j) * f.z + 2 * l[i] * l[j] * f.zq;
      }
      Value r{}; r.p = (D == 2 ? -24. : -12.) * U / ((H + M) * T.v * T.v) * c.v;
      for (int i = 0; i < D; ++i) for (int k2 = 0; k2 < D; ++k2)
      {
        r.u[k2] += u[i] * e[i][k2];
        for (int j = 0; j < D; ++j) for (int m2 = 0; m2 < D; ++m2) r.g[k2][m2] += g[i][j] * e[i][k2] * e[j][m2];
      }
      return r;
    }
    Value at(X const &x) const { return at_local(local(x)); }
    // the gap: outside the balls, between them, not farther from the axis than the cut-off
    double margin(X const &x) const  // distance to the closest surface (where "outside" is undecidable)
    {
      double s1 = 0., s2 = 0.; for (int i = 0; i < D; ++i) { s1 += (x[i] - c1[i]) * (x[i] - c1[i]); s2 += (x[i] - c2[i]) * (x[i] - c2[i]); }
      return std::min(std::fabs(std::sqrt(s1) - r1), std::fabs(std::sqrt(s2) - r2));
    }
    bool in_gap(X const &x) const
    {
      double s1 = 0., s2 = 0.; for (int i = 0; i < D; ++i) { s1 += (x[i] - c1[i]) * (x[i] - c1[i]); s2 += (x[i] - c2[i]) * (x[i] - c2[i]); }
      if (s1 <= r1 * r1 || s2 <= r2 * r2) return false;
      auto l = local(x);
      return q_of(l) <= cut * cut && l[0] > -r1 && l[0] < a + r2;
    }
    // force of the fluid on the caps, with stresses 2 mu D(u) - p (mu = 1), minus sign as the solver wants it
    X force(int which) const
    {
      // along the normal, by symmetry
      X F{}; double r = which ? r2 : r1; double th = std::asin(std::min(1., cut / r)), f = 0.; int const N = 600;
      double const PI = std::acos(-1.);
      for (int i = 0; i < N; ++i)
      {
        double t = (i + .5) * th / N, w = D == 2 ? 2. * r * th / N : 2. * PI * r * r * std::sin(t) * th / N; X l{}, nl{};
        nl[0] = which ? -std::cos(t) : std::cos(t); nl[1] = std::sin(t);
        for (int d = 0; d < D; ++d) l[d] = nl[d] * r; l[0] += which ? a + r2 : -r1;
        auto v = at_local(l); X ng{}; for (int d = 0; d < D; ++d) for (int m = 0; m < D; ++m) ng[m] += nl[d] * e[d][m];
        for (int d = 0; d < D; ++d) { double s = -v.p * ng[d]; for (int m = 0; m < D; ++m) s += (v.g[d][m] + v.g[m][d]) * ng[m]; f -= w * s * n[d]; }
      }
      for (int d = 0; d < D; ++d) F[d] = f * n[d];
      return F;
    }
  };
}
