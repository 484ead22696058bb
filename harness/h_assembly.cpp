// Property: the assembled Stokes matrix and preconditioner, the matrix-free ones, and the
// reference system with Dirichlet rows are the same operators.
#include "common.hpp"
#include <cafes.hpp>
#include "layout.hpp"
using namespace vp;
namespace fem = cafes::fem;

static void zero(const PetscReal *, PetscScalar *u) { *u = 0.; }

static void one(std::array<int, 2> n, std::array<int, 2> per, std::array<double, 2> len, bool strain)
{
  std::string key = fmt("np=%d n=%s per=%s L=%g,%g %s", np(), show<2>(n).c_str(), show<2>(per).c_str(), len[0], len[1], strain ? "strain" : "laplacian");
  std::array<double, 2> h{.5 * len[0] / (n[0] - 1), .5 * len[1] / (n[1] - 1)};
  ref::Grid<2> g{n, per, h};
  if (!feasible<2>(g.np())) { note("refused by PETSc"); return; }
  if (!begin_case(key)) return;

  size_t Nv = g.Nv() * 2, Np = g.Np(), N = Nv + Np;
  auto Av = ref::assemble<2>(strain ? ref::STRAIN : ref::LAPLACIAN, g.nv(), g.ne_v(), 2, h);
  auto B = ref::divergence<2>(g);
  auto Mp = ref::assemble<2>(ref::MASS, g.np(), g.ne_p(), 1, g.hp());
  std::vector<char> dir(N, 0);
  ref::for_each<2>(g.nv(), [&](auto i) {
    bool b = false;
    for (int d = 0; d < 2; ++d) if (!per[d] && (i[d] == 0 || i[d] == g.nv()[d] - 1)) b = true;
    size_t k = ref::Grid<2>::idx(i, g.nv());
    if (b) dir[2 * k] = dir[2 * k + 1] = 1;
  });
  ref::Dense A(N, N), P(N, N);
  for (size_t i = 0; i < Nv; ++i)
    if (dir[i]) A(i, i) = P(i, i) = 1.;
    else
    {
      for (size_t j = 0; j < Nv; ++j) A(i, j) = P(i, j) = Av(i, j);
      for (size_t j = 0; j < Np; ++j) A(i, Nv + j) = -B(j, i);
    }
  for (size_t i = 0; i < Np; ++i)
  {
    for (size_t j = 0; j < Nv; ++j) A(Nv + i, j) = B(i, j);
    for (size_t j = 0; j < Np; ++j) P(Nv + i, Nv + j) = Mp(i, j);
  }

  Options o;
  o.set("-mx", n[0]); o.set("-my", n[1]); o.set("-Lx", len[0]); o.set("-Ly", len[1]);
  if (per[0]) o.set("-xperiod", std::string("1"));
  if (per[1]) o.set("-yperiod", std::string("1"));
  if (strain) o.set("-strain_tensor", std::string("1"));
  for (int as = 0; as < 2; ++as)
  {
    if (as) o.set("-assembling", std::string("1"));
    auto bc = cafes::make_bc<2>({{{zero, zero}}, {{zero, zero}}, {{zero, zero}}, {{zero, zero}}});
    cafes::problem::stokes<2> st(bc);
    op();
    const char *mode = as ? "assembled" : "matrix-free";
    Layout L(st.ctx->dm);
    if (L.N != N) { fail(fmt("%s: %zu unknowns, want %zu", mode, L.N, N)); return; }
    for (int d = 0; d < 2; ++d) expect_near(st.ctx->h[d], h[d], 1e-14, 0., "mesh size");
    auto a = L.probe(st.ctx->dm, [&](Vec x, Vec y) { MatMult(st.A, x, y); });
    expect_same(a, A, 1e-12, std::string(mode) + " Stokes matrix");
    auto p = L.probe(st.ctx->dm, [&](Vec x, Vec y) { MatMult(st.P, x, y); });
    expect_same(p, P, 1e-12, std::string(mode) + " preconditioner matrix");
    trace();
    if (as)
    {
      // the null space attached to the assembled matrix is the constant pressure
      MatNullSpace ns; MatGetNullSpace(st.A, &ns);
      if (!ns) fail("assembled matrix has no null space attached");
      else
      {
        PetscBool cst; PetscInt nn; const Vec *vecs; MatNullSpaceGetVecs(ns, &cst, &nn, &vecs);
        expect(nn == 1 && !cst, "one null space vector");
        if (nn == 1)
        {
          auto v = L.gather(vecs[0]);
          std::vector<double> w(N, 0.); for (size_t i = Nv; i < N; ++i) w[i] = 1. / std::sqrt((double)Np);
          expect_same(v, w, 1e-12, "null space vector of the assembled matrix");
        }
      }
    }
    if (as)
    {
      // the assembling routines one by one, before any Dirichlet row is set
      auto raw = [&](const char *what, bool precond, ref::Dense const &want, std::function<void(Mat &)> fill) {
        Mat M; PreallocateMat(st.ctx, st.opt, MATAIJ, &M, precond); op();
        fill(M);
        MatAssemblyBegin(M, MAT_FINAL_ASSEMBLY); MatAssemblyEnd(M, MAT_FINAL_ASSEMBLY);
        auto got = L.probe(st.ctx->dm, [&](Vec x, Vec y) { MatMult(M, x, y); });
        expect_same(got, want, 1e-12, what);
        MatDestroy(&M); trace();
      };
      DM dav, dap; DMCompositeGetEntries(st.ctx->dm, &dav, &dap);
      ref::Dense V(N, N), C(N, N), Q(N, N), Z(N, N);
      for (size_t i = 0; i < Nv; ++i) for (size_t j = 0; j < Nv; ++j) V(i, j) = Av(i, j);
      for (size_t i = 0; i < Np; ++i) for (size_t j = 0; j < Nv; ++j) { C(Nv + i, j) = B(i, j); C(j, Nv + i) = -B(i, j); }
      for (size_t i = 0; i < Np; ++i) for (size_t j = 0; j < Np; ++j) Q(Nv + i, Nv + j) = Mp(i, j);
      if (strain) raw("strain_tensor_assembling", false, V, [&](Mat &M) { cafes::strain_tensor_assembling(dav, M, h); });
      else raw("laplacian_assembling", false, V, [&](Mat &M) { cafes::laplacian_assembling(dav, M, h); });
      raw("B_BT_assembling", false, C, [&](Mat &M) { cafes::B_BT_assembling(st.ctx->dm, M, h); });
      raw("mass_assembling", true, Q, [&](Mat &M) { cafes::mass_assembling(st.ctx->dm, M, g.hp()); });
      raw("diagonal_assembling", true, Z, [&](Mat &M) { cafes::diagonal_assembling<2>(st.ctx->dm, M, 0.); });
    }
    VecDestroy(&st.sol); VecDestroy(&st.rhs); MatDestroy(&st.A); MatDestroy(&st.P);
    DMDestroy(&st.ctx->dm);
  }
  outcome(key);
  sample(key + fmt(": %zu unknowns, all unit vectors, matrix-free and assembled, A and P", N));
}

int main(int argc, char **argv)
{
  init(&argc, &argv);
  int m = thorough() ? 9 : 6;
  std::vector<std::array<double, 2>> Ls{{1., 1.}, {3., .5}};
  for (auto len : Ls)
    for (int strain = 0; strain < 2; ++strain)
      for (int p = 0; p < 4; ++p)
        for (int a = 2; a <= m; ++a) for (int b = 2; b <= m; ++b)
        {
          std::array<int, 2> per{p & 1, p >> 1};
          if ((per[0] && a < 3) || (per[1] && b < 3)) continue;
          one({a, b}, per, len, strain);
        }
  return finish();
}
