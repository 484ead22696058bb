// Reference model of the discretisation, written independently of the code under test:
// Q1 velocity on the fine grid (spacing h), Q1 pressure on the coarse grid (spacing 2h),
// every bilinear form as a tensor product of exact one-dimensional integrals, assembled
// globally into dense matrices with explicit index wrap-around.
#pragma once
#include <vector>
#include <array>
#include <cstddef>

namespace ref
{
  using std::size_t;
  struct Dense
  {
    size_t n = 0, m = 0; std::vector<double> a;
    Dense() {}
    Dense(size_t n_, size_t m_) : n(n_), m(m_), a(n_ * m_, 0.) {}
    double &operator()(size_t i, size_t j) { return a[i * m + j]; }
    double operator()(size_t i, size_t j) const { return a[i * m + j]; }
  };

  // one-dimensional pieces over one element of length h, local nodes 0,1
  inline double m1(int i, int j, double h) { return i == j ? h / 3. : h / 6.; }                // int phi_i phi_j
  inline double k1(int i, int j, double h) { return (i == j ? 1. : -1.) / h; }                 // int phi_i' phi_j'
  inline double d1(int i, int j, double) { (void)j; return i == 0 ? -.5 : .5; }                // int phi_i' phi_j
  // coarse element of length 2h made of two fine ones; fine local nodes 0,1,2; coarse 0,1
  inline double coarse_at(int p, double x) { return p == 0 ? 1. - x / 2. : x / 2.; }           // x in [0,2] (units of h)
  inline double fine_mass(int v, int p, double h)  // int over [0,2h] of phi_v(fine) * psi_p(coarse)
  {
    double s = 0.;
    for (int e = 0; e < 2; ++e)
    {
      int l = v - e; if (l < 0 || l > 1) continue;
      // psi_p restricted to the fine element is linear: values a (left), b (right)
      double a = coarse_at(p, e), b = coarse_at(p, e + 1);
      s += a * m1(l, 0, h) + b * m1(l, 1, h);
    }
    return s;
  }
  inline double fine_deriv(int v, int p, double h) // int over [0,2h] of phi_v' * psi_p
  {
    double s = 0.;
    for (int e = 0; e < 2; ++e)
    {
      int l = v - e; if (l < 0 || l > 1) continue;
      double a = coarse_at(p, e), b = coarse_at(p, e + 1);
      s += a * d1(l, 0, h) + b * d1(l, 1, h);
    }
    return s;
  }

  // A grid of the discretisation: n[d] nodes per direction as the user asked for it
  // (pressure grid, end points included), period[d].
  template<int D>
  struct Grid
  {
    std::array<int, D> n;      // requested pressure points
    std::array<int, D> per;    // periodic?
    std::array<double, D> h;   // velocity spacing
    std::array<int, D> np() const { auto r = n; for (int d = 0; d < D; ++d) if (per[d]) --r[d]; return r; }
    std::array<int, D> nv() const { auto r = n; for (int d = 0; d < D; ++d) r[d] = per[d] ? 2 * n[d] - 2 : 2 * n[d] - 1; return r; }
    std::array<int, D> ne_p() const { auto r = n; for (int d = 0; d < D; ++d) r[d] = n[d] - 1; return r; } // coarse elements
    std::array<int, D> ne_v() const { auto r = n; for (int d = 0; d < D; ++d) r[d] = 2 * (n[d] - 1); return r; }
    static size_t prod(std::array<int, D> const &a) { size_t p = 1; for (auto i : a) p *= i; return p; }
    static size_t idx(std::array<int, D> const &i, std::array<int, D> const &n)  // with wrap
    {
      size_t r = 0;
      for (int d = D - 1; d >= 0; --d) { int k = i[d]; if (k >= n[d]) k -= n[d]; r = r * n[d] + k; }
      return r;
    }
    size_t Nv() const { return prod(nv()); }
    size_t Np() const { return prod(np()); }
    std::array<double, D> hp() const { auto r = h; for (auto &x : r) x *= 2; return r; }
  };

  template<int D, typename F>
  void for_each(std::array<int, D> const &n, F &&f)
  {
    std::array<int, D> i; i.fill(0);
    for (auto x : n) if (x <= 0) return;
    while (true)
    {
      f(i);
      int d = 0;
      while (d < D && ++i[d] == n[d]) { i[d] = 0; ++d; }
      if (d == D) return;
    }
  }
  template<int D> std::array<int, D> filled(int v) { std::array<int, D> a; a.fill(v); return a; }
  template<int D> std::array<int, D> add(std::array<int, D> a, std::array<int, D> const &b) { for (int d = 0; d < D; ++d) a[d] += b[d]; return a; }

  enum Form { LAPLACIAN, MASS, STRAIN };

  // scalar element form  int (d_a phi_i)(d_b phi_j), a,b = -1: no derivative
  template<int D>
  double elem(std::array<int, D> const &i, std::array<int, D> const &j, int a, int b, std::array<double, D> const &h)
  {
    double r = 1.;
    for (int d = 0; d < D; ++d)
    {
      bool da = a == d, db = b == d;
      if (da && db) r *= k1(i[d], j[d], h[d]);
      else if (da) r *= d1(i[d], j[d], h[d]);
      else if (db) r *= d1(j[d], i[d], h[d]);
      else r *= m1(i[d], j[d], h[d]);
    }
    return r;
  }
  // weak form a(u_c phi_j, v_r phi_i): the strain tensor form is  2 int D(u):D(v),
  // i.e. int grad u : grad v + grad u^T : grad v
  template<int D>
  double elem_form(Form f, std::array<int, D> const &i, int r, std::array<int, D> const &j, int c, std::array<double, D> const &h)
  {
    double s = 0.;
    if (f == MASS) return r == c ? elem<D>(i, j, -1, -1, h) : 0.;
    if (f == LAPLACIAN) { if (r == c) for (int d = 0; d < D; ++d) s += elem<D>(i, j, d, d, h); return s; }
    if (r == c) for (int d = 0; d < D; ++d) s += elem<D>(i, j, d, d, h);
    s += elem<D>(i, j, c, r, h);  // int d_c v_r d_r u_c
    return s;
  }
  // dense global matrix of a form on a node grid of size n with ne elements, dof components
  template<int D>
  Dense assemble(Form f, std::array<int, D> const &n, std::array<int, D> const &ne, int dof, std::array<double, D> const &h)
  {
    size_t N = Grid<D>::prod(n);
    Dense A(N * dof, N * dof);
    for_each<D>(ne, [&](auto const &e) {
      for_each<D>(filled<D>(2), [&](auto const &i) {
        size_t I = Grid<D>::idx(add<D>(e, i), n);
        for_each<D>(filled<D>(2), [&](auto const &j) {
          size_t J = Grid<D>::idx(add<D>(e, j), n);
          for (int r = 0; r < dof; ++r) for (int c = 0; c < dof; ++c)
            A(I * dof + r, J * dof + c) += elem_form<D>(f, i, r, j, c, h);
        });
      });
    });
    return A;
  }
  // Divergence coupling  B(q, v) = int q div v : rows pressure, columns velocity dofs
  template<int D>
  Dense divergence(Grid<D> const &g)
  {
    auto nv = g.nv(), np = g.np();
    Dense B(g.Np(), g.Nv() * D);
    for_each<D>(g.ne_p(), [&](auto const &e) {
      std::array<int, D> e2 = e; for (auto &x : e2) x *= 2;
      for_each<D>(filled<D>(2), [&](auto const &p) {
        size_t P = Grid<D>::idx(add<D>(e, p), np);
        for_each<D>(filled<D>(3), [&](auto const &v) {
          size_t V = Grid<D>::idx(add<D>(e2, v), nv);
          for (int c = 0; c < D; ++c)
          {
            double s = 1.;
            for (int d = 0; d < D; ++d) s *= d == c ? fine_deriv(v[d], p[d], g.h[d]) : fine_mass(v[d], p[d], g.h[d]);
            B(P, V * D + c) += s;
          }
        });
      });
    });
    return B;
  }
}
