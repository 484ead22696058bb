// Reference model of the thin film between two bodies sliding along each other: the surfaces are
// z1 = -H q/2 and z2 = d + M q/2 (q: square of the distance to the axis), the first moves with
// -U/2 chi(q) along the first tangential axis and the second with +U/2 chi(q). The film is driven by
// the truncated pressure chi p, p solving Reynolds' equation:
//     u_t = grad(chi p)/2 (z - z1)(z - z2) + chi U ((z - z1)/(z2 - z1) - 1/2) e
// and the normal velocity is what makes it divergence free, none on the first surface.
// Derivatives by Taylor polynomials of degree 3 in the coordinates (x, y, z).
#pragma once
#include "lub.hpp"

namespace tang
{
  constexpr int N = 20;
  struct Table
  {
    int e[N][3], id[4][4][4];
    Table() { int k = 0; for (int s = 0; s < 4; ++s) for (int i = s; i >= 0; --i) for (int j = s - i; j >= 0; --j) { e[k][0] = i; e[k][1] = j; e[k][2] = s - i - j; id[i][j][s - i - j] = k++; } }
  };
  inline Table const &table() { static Table t; return t; }
  struct T
  {
    double c[N];
    T(double v = 0.) { for (double &x : c) x = 0.; c[0] = v; }
    static T var(int d, double v) { T r(v); r.c[d == 0 ? table().id[1][0][0] : d == 1 ? table().id[0][1][0] : table().id[0][0][1]] = 1.; return r; }
    double v() const { return c[0]; }
  };
  inline T operator+(T a, T const &b) { for (int i = 0; i < N; ++i) a.c[i] += b.c[i]; return a; }
  inline T operator-(T a, T const &b) { for (int i = 0; i < N; ++i) a.c[i] -= b.c[i]; return a; }
  inline T operator*(T const &a, T const &b)
  {
    auto const &t = table(); T r;
    for (int i = 0; i < N; ++i) if (a.c[i] != 0.) for (int j = 0; j < N; ++j)
    {
      int x = t.e[i][0] + t.e[j][0], y = t.e[i][1] + t.e[j][1], z = t.e[i][2] + t.e[j][2];
      if (x + y + z <= 3) r.c[t.id[x][y][z]] += a.c[i] * b.c[j];
    }
    return r;
  }
  // f(a) from the derivatives of f at the value of a
  inline T compose(T a, double f0, double f1, double f2, double f3) { a.c[0] = 0.; T a2 = a * a; return T(f0) + T(f1) * a + T(f2 / 2.) * a2 + T(f3 / 6.) * (a2 * a); }
  inline T inv(T const &a) { double i = 1. / a.v(); return compose(a, i, -i * i, 2 * i * i * i, -6 * i * i * i * i); }
  inline T diff(T const &a, int d)
  {
    auto const &t = table(); T r;
    for (int k = 0; k < N; ++k) if (t.e[k][d]) { int e[3] = {t.e[k][0], t.e[k][1], t.e[k][2]}; double f = e[d]--; r.c[t.id[e[0]][e[1]][e[2]]] = f * a.c[k]; }
    return r;
  }
  inline T chi(T const &q, double l, double eps)
  {
    double t = (q.v() - l) / eps;
    if (t <= -1.) return T(1.);
    if (t >= 1.) return T(0.);
    return compose(q, .5 * (1. - lub::step(t)), -.5 * lub::step1(t) / eps, -.5 * lub::step2(t) / (eps * eps), -.5 * lub::step3(t) / (eps * eps * eps));
  }
  struct Value { double u[3], g[3][3], p, res; };  // u and g in (x, y, z); y unused in 2D

  inline Value film(int D, double x, double y, double z, double H, double M, double d, double U, double l, double eps)
  {
    T X = T::var(0, x), Y = D == 3 ? T::var(1, y) : T(0.), Z = T::var(2, z), q = X * X + Y * Y;
    T z1 = T(-H / 2) * q, z2 = T(d) + T(M / 2) * q, h = z2 - z1, c = chi(q, l, eps);
    // div(h^3 grad p / 12) = -U (M - H) x / 2, that is with h = d + (H + M) q / 2: p = k x / h^2
    T k = T(U * (M - H) / (H + M) * (D == 2 ? 2. : 6. / 5.)), p = k * X * inv(h * h), P = c * p;
    T s = Z - z1, a = s * (Z - z2), b = s * inv(h) - T(.5);
    T ux = T(.5) * diff(P, 0) * a + T(U) * c * b, uy = T(.5) * diff(P, 1) * a;
    T i3 = s * s * (T(1. / 3) * s - T(.5) * h), i1 = T(.5) * s * s * inv(h) - T(.5) * s;
    T fx = T(.5) * diff(P, 0) * i3 + T(U) * c * i1, fy = T(.5) * diff(P, 1) * i3;
    T uz = T(0.) - diff(fx, 0) - diff(fy, 1) + T(U / 2) * c * diff(z1, 0);
    T *u[3] = {&ux, &uy, &uz};
    Value r; r.p = P.v();
    for (int i = 0; i < 3; ++i) { r.u[i] = u[i]->v(); for (int j = 0; j < 3; ++j) r.g[i][j] = diff(*u[i], j).v(); }
    // what Reynolds' equation leaves
    T h3 = T(1. / 12) * h * h * h; r.res = (diff(h3 * diff(p, 0), 0) + diff(h3 * diff(p, 1), 1)).v() + U * (M - H) / 2 * x;
    return r;
  }
}
