// The data of the solvers' checks: values on the sides (free of divergence), body forces, steps.
// Include after cafes.hpp.
#pragma once
#include "coupled.hpp"

namespace twin
{
  static int g_data;
  // values on the sides (free of divergence) and body force
  inline double U(double x, double y, int c) { return g_data == 0 ? 0. : g_data == 1 ? (c ? x : y) : (c ? .3 * x - .2 : 1. - .5 * y); }
  inline double F(double x, double y, int c) { return g_data == 0 ? 0. : c ? std::sin(3 * x + y) : 1. + x * y; }
  inline double U3(double x, double y, double z, int c) { return g_data == 0 ? 0. : g_data == 1 ? (c == 0 ? y : c == 1 ? z : x) : (c == 0 ? 1. - .5 * y : c == 1 ? .3 * x - .2 : .7 * y - .4 * x); }
  inline double F3(double x, double y, double z, int c) { return g_data == 0 ? 0. : c == 0 ? 1. + x * y : c == 1 ? std::sin(3 * z + y) : x - z * y; }
  template<int D, int c> void bu(const PetscReal *x, PetscScalar *u) { *u = D == 2 ? U(x[0], x[1], c) : U3(x[0], x[1], x[D - 1], c); }
  template<int D, int c> void bf(const PetscReal *x, PetscScalar *u) { *u = D == 2 ? F(x[0], x[1], c) : F3(x[0], x[1], x[D - 1], c); }
  template<int D> struct Of;
  template<> struct Of<2>
  {
    using step = double;
    static cafes::problem::stokes<2> stokes() { return cafes::make_stokes<2>(cafes::make_bc<2>({{{bu<2, 0>, bu<2, 1>}}, {{bu<2, 0>, bu<2, 1>}}, {{bu<2, 0>, bu<2, 1>}}, {{bu<2, 0>, bu<2, 1>}}}), cafes::make_rhs<2>({{bf<2, 0>, bf<2, 1>}})); }
    static step make_step(double s) { return s; }
  };
  template<> struct Of<3>
  {
    using step = std::array<double, 2>;
    static cafes::problem::stokes<3> stokes() { std::array<cafes::condition_fn, 3> b{{bu<3, 0>, bu<3, 1>, bu<3, 2>}}; return cafes::make_stokes<3>(cafes::make_bc<3>({b, b, b, b, b, b}), cafes::make_rhs<3>({{bf<3, 0>, bf<3, 1>, bf<3, 2>}})); }
    static step make_step(double s) { return {{s, s}}; }
  };
  template<int D> void set_data(cpl::FluidT<D> &f) { if constexpr (D == 2) f.set_data(U, F); else f.set_data(U3, F3); }
  // particles: by velocity (and rotation) or by force per mass (and density)
  using circle = cafes::particle<cafes::geometry::circle<>>;
  using sphere = cafes::particle<cafes::geometry::sphere<>>;
  inline circle moving(cpl::BallT<2> const &b, double const *m) { return cafes::make_particle_with_velocity(cafes::make_circle({b.c[0], b.c[1]}, b.r), {m[0], m[1]}, m[2]); }
  inline sphere moving(cpl::BallT<3> const &b, double const *m) { return cafes::make_particle_with_velocity(cafes::make_sphere({b.c[0], b.c[1], b.c[2]}, b.r), {m[0], m[1], m[2]}, {m[3], m[4], m[5]}); }
  inline circle pulled(cpl::BallT<2> const &b, double const *f) { return cafes::make_particle_with_force(cafes::make_circle({b.c[0], b.c[1]}, b.r), {f[0], f[1]}, f[2]); }
  inline sphere pulled(cpl::BallT<3> const &b, double const *f) { return cafes::make_particle_with_force(cafes::make_sphere({b.c[0], b.c[1], b.c[2]}, b.r), {f[0], f[1], f[2]}, f[3]); }
  template<int D> using Particle = typename std::conditional<D == 2, circle, sphere>::type;
  inline void set_spin(circle &p, double const *w) { p.angular_velocity_ = w[0]; }
  inline void set_spin(sphere &p, double const *w) { for (int c = 0; c < 3; ++c) p.angular_velocity_[c] = w[c]; }
  inline double component(double t, int) { return t; }
  template<typename T> double component(T const &t, int c) { return t[c]; }
  // options of a mesh and of the fluid's solver
  template<int D, typename O> void options(O &o, std::array<int, D> n, std::array<int, D> per, std::array<double, D> len, bool strain, bool assembled)
  {
    for (int d = 0; d < D; ++d) { std::string x(1, "xyz"[d]); o.set("-m" + x, n[d]); o.set("-L" + x, len[d]); if (per[d]) o.set("-" + x + "period", std::string("1")); }
    if (strain) o.set("-strain_tensor", std::string("1"));
    o.set("-stokes_ksp_type", std::string("gmres")); o.set("-stokes_ksp_rtol", std::string("1e-13")); o.set("-stokes_ksp_atol", std::string("1e-14"));
    if (assembled) { o.set("-assembling", std::string("1")); o.set("-stokes_pc_type", std::string("lu")); o.set("-stokes_pc_factor_mat_solver_type", std::string("mumps")); }
    else { o.set("-stokes_pc_type", std::string("none")); o.set("-stokes_ksp_gmres_restart", 500); o.set("-stokes_ksp_max_it", 1000); }
  }
  template<int D> std::string show(std::array<double, D> const &x) { std::string s; for (int d = 0; d < D; ++d) s += (d ? "," : "") + vp::fmt("%.4g", x[d]); return s; }
}
