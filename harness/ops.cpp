// The operators a factorized preconditioner provides, read out column by column.
//  PROP=1  without dropping: solve = inv(A), multiply = A (and their adjoints)
//  PROP=2  any settings: transposed operators are the adjoints
//  PROP=3  any settings: multiply is the inverse of solve (both directions)
//  PROP=4  any settings: multiple right-hand sides = column by column
//  PROP=8  symmetric mode: solve and multiply are self-adjoint
#include "spaces.hpp"
using namespace hx;

#ifdef CPLX
typedef cd T;
#else
typedef double T;
#endif

struct Env {
  double nS, nM, cond;
  Mat<T> S, M;
};

static bool sane(const Mat<T> &A) { return finite(A) && nrm(A) < 1e100; }

template <size_t R> static void mrhs_one(mc::Case &c, hif::HIF<T> &M, const Mat<T> &S, int n, double tol, bool fresh_ws, size_t rr = 0) {
  hif::Array<std::array<T, R>> B(n), X(n);
  // column k: mixes unit vectors so that all columns of the operator take part
  Mat<T> b(n, R);
  for (int base = 0; base < n; base += std::max<int>(1, (int)R - 1)) {
    for (int i = 0; i < n; ++i)
      for (size_t k = 0; k < R; ++k) {
        b(i, k) = Mk<T>::mk(i == (base + (int)k) % n ? 1.0 : (k + 1 == R ? 0.125 * (i + 1) : 0.0), k % 2 ? 0.5 * (i == base % n) : 0.0);
        B[i][k] = b(i, k);
        X[i][k] = Mk<T>::mk(-7, 3);
      }
    M.solve_mrhs(B, X, rr);
    c.transition();
    for (size_t k = 0; k < R; ++k)
      for (int i = 0; i < n; ++i) {
        T x(0);
        for (int j = 0; j < n; ++j) x += S(i, j) * b(j, k);
        double d = std::abs(x - X[i][k]);
        if (!(d <= tol)) {
          c.fail("multi-RHS solve with %zu columns: column %zu, entry %d differs from the single solve by %g (tol %g)%s", R, k, i, d, tol,
                 fresh_ws ? "" : " [used object]");
          return;
        }
        if (B[i][k] != b(i, k)) {
          c.fail("multi-RHS solve modifies its right-hand side");
          return;
        }
      }
  }
}

template <class Cs> static void run_one(mc::Case &c, const Mat<T> &A, const Mat<T> *Ai, const hif::Params &p, size_t m0, bool full) {
  const int n = A.n;
  c.desc("%s %s A=%s m0=%zu explicit_zeros=%d %s", is_cplx<T>::value ? "complex" : "real", Cs::ROW_MAJOR ? "CRS" : "CCS", n <= 8 ? show(A).c_str() : "(see family)",
         m0, full, cfg_str(p).c_str());
  Cs          S = to_cs<Cs>(A, 0, full);
  hif::HIF<T> M;
  M.factorize(S, p, m0);  // no square matrix is rejected: an exception is a violation
  c.transition();
  c.state(mc::mix(struct_hash(M), n));
#if PROP == 1
  if (!Ai) return;
  const double na = nrm(A), ni = nrm(*Ai), cond = na * ni * n * n;
  if (cond > 1e9) {
    c.skip("input too ill-conditioned to compare in double precision");
    return;
  }
  const double tolx = 1e-10 * cond * ni, tola = 1e-10 * cond * na;
  if (M.rank() != (size_t)n) c.fail("nonsingular input reported with rank %zu of %d", M.rank(), n);
  Mat<T> X = solve_op<T>(M, n, false);
  if (!(diff(X, *Ai) <= tolx)) c.fail("solve differs from the inverse by %g (tol %g)", diff(X, *Ai), tolx);
  Mat<T> Y = mult_op<T>(M, n, false);
  if (!(diff(Y, A) <= tola)) c.fail("multiply differs from A by %g (tol %g)", diff(Y, A), tola);
  Mat<T> Xt = solve_op<T>(M, n, true), Ait = adj(*Ai);
  if (!(diff(Xt, Ait) <= tolx)) c.fail("transposed solve differs from the adjoint inverse by %g (tol %g)", diff(Xt, Ait), tolx);
  Mat<T> Yt = mult_op<T>(M, n, true), At = adj(A);
  if (!(diff(Yt, At) <= tola)) c.fail("transposed multiply differs from the adjoint by %g (tol %g)", diff(Yt, At), tola);
  c.transition(4 * n);
#elif PROP == 2 || PROP == 3 || PROP == 8
  Mat<T> X = solve_op<T>(M, n, false), Y = mult_op<T>(M, n, false);
  c.transition(2 * n);
  const double nx = nrm(X), ny = nrm(Y), cond = nx * ny * n * n;
  if (!sane(X) || !sane(Y)) {
    c.fail("solve or multiply produces non-finite values");
    return;
  }
  if (cond > 1e11) {
    c.skip("preconditioner too ill-conditioned to compare in double precision");
    return;
  }
  const double lc = M.rank() == (size_t)n ? cond : 1e4;
#if PROP == 2
  Mat<T> Xt = solve_op<T>(M, n, true), Yt = mult_op<T>(M, n, true);
  c.transition(2 * n);
  double d1 = diff(Xt, adj(X)), d2 = diff(Yt, adj(Y));
  c.outcome(mc::mix(d1 == 0, d2 == 0));
  if (!(d1 <= 1e-11 * lc * (nx + 1e-3))) c.fail("transposed solve is not the adjoint of solve: %g (|S|=%g)", d1, nx);
  if (!(d2 <= 1e-11 * lc * (ny + 1e-3))) c.fail("transposed multiply is not the adjoint of multiply: %g (|M|=%g)", d2, ny);
#elif PROP == 3
  if (M.rank() != (size_t)n) {
    // singular preconditioner: generalized inverses of each other
    if (lc > 1e11) return;
    Mat<T> XYX = mul(mul(X, Y), X), YXY = mul(mul(Y, X), Y);
    double c2 = 1 + cond;
    if (c2 > 1e8) {
      c.skip("rank-deficient and ill-conditioned");
      return;
    }
    if (!(diff(XYX, X) <= 1e-10 * c2 * nx + 1e-13)) c.fail("rank-deficient: solve*multiply*solve differs from solve by %g", diff(XYX, X));
    if (!(diff(YXY, Y) <= 1e-10 * c2 * ny + 1e-13)) c.fail("rank-deficient: multiply*solve*multiply differs from multiply by %g", diff(YXY, Y));
  } else {
    Mat<T> I = eye<T>(n);
    double d1 = diff(mul(X, Y), I), d2 = diff(mul(Y, X), I);
    if (!(d1 <= 1e-10 * cond)) c.fail("solve(multiply(x)) differs from x by %g (cond %g)", d1, cond);
    if (!(d2 <= 1e-10 * cond)) c.fail("multiply(solve(x)) differs from x by %g (cond %g)", d2, cond);
    Mat<T> Xt = solve_op<T>(M, n, true), Yt = mult_op<T>(M, n, true);
    c.transition(2 * n);
    double d3 = diff(mul(Xt, Yt), I), d4 = diff(mul(Yt, Xt), I);
    if (!(d3 <= 1e-10 * cond)) c.fail("transposed solve(multiply(x)) differs from x by %g (cond %g)", d3, cond);
    if (!(d4 <= 1e-10 * cond)) c.fail("transposed multiply(solve(x)) differs from x by %g (cond %g)", d4, cond);
  }
  // every smaller dimension of the final dense level
  for (size_t r = 1; r < M.schur_rank(); r += n > 5 && r == 1 && M.schur_rank() > 2 ? M.schur_rank() - 2 : 1)
    for (int tr = 0; tr < 2; ++tr) {
      const Mat<T> P = solve_op<T>(M, n, tr, r), Q = mult_op<T>(M, n, tr, r);
      c.transition(2 * n);
      const double np = nrm(P), nq = nrm(Q), c2 = 1 + np * nq * n * n;
      if (!sane(P) || !sane(Q)) {
        c.fail("dimension %zu: solve or multiply produces non-finite values", r);
        return;
      }
      if (c2 > 1e8) continue;
      double d1 = diff(mul(mul(P, Q), P), P), d2 = diff(mul(mul(Q, P), Q), Q);
      if (!(d1 <= 1e-10 * c2 * np + 1e-13)) c.fail("dimension %zu%s: solve*multiply*solve differs from solve by %g", r, tr ? ", transposed" : "", d1);
      if (!(d2 <= 1e-10 * c2 * nq + 1e-13)) c.fail("dimension %zu%s: multiply*solve*multiply differs from multiply by %g", r, tr ? ", transposed" : "", d2);
    }
#else
  if (p.is_symm || m0) {
    double d1 = diff(X, adj(X)), d2 = diff(Y, adj(Y));
    if (!(d1 <= 1e-11 * lc * (nx + 1e-3))) c.fail("solve is not self-adjoint: %g (|S|=%g)", d1, nx);
    if (!(d2 <= 1e-11 * lc * (ny + 1e-3))) c.fail("multiply is not self-adjoint: %g (|M|=%g)", d2, ny);
  }
#endif
  c.outcome(mc::mix(M.levels(), mc::mix(M.schur_size(), M.rank() == (size_t)n)));
#elif PROP == 4
  hif::HIF<T> N;  // a second object whose workspace is only used by multi-RHS solves
  N.factorize(S, p, m0);
  Mat<T> X = solve_op<T>(M, n, false);
  if (!sane(X)) {
    c.fail("solve produces non-finite values");
    return;
  }
  double tol = 1e-10 * nrm(X) * n * n * 20;
  if (M.rank() == (size_t)n) {
    Mat<T> Y   = mult_op<T>(M, n, false);
    double cond = nrm(X) * nrm(Y);
    if (cond > 1e10) {
      c.skip("preconditioner too ill-conditioned to compare in double precision");
      return;
    }
    tol *= 1 + cond;
  }
  mrhs_one<2>(c, N, X, n, tol, true);
  mrhs_one<3>(c, M, X, n, tol, false);
  mrhs_one<4>(c, N, X, n, tol, false);
  mrhs_one<1>(c, N, X, n, tol, false);
#ifndef CPLX
  mrhs_one<8>(c, M, X, n, tol, false);
#endif
  // explicit last-level dimension
  if (M.schur_rank() > 1) {
    size_t r  = M.schur_rank() - 1;
    Mat<T> X1 = solve_op<T>(M, n, false, r);
    mrhs_one<2>(c, M, X1, n, tol * (1 + nrm(X1) / (nrm(X) + 1e-300)), false, r);
  }
#endif
  c.validated();
}

static std::vector<hif::Params> the_configs(int lvl) {
#if PROP == 1
  return configs_exact(lvl);
#else
  auto v = configs_drop(lvl), w = configs_exact(0);
  for (size_t i = 0; i < w.size(); i += lvl >= 1 ? 1 : 3) v.push_back(w[i]);
  return v;
#endif
}

// symm: 0 unsymmetric, 1 Hermitian mode; m0: leading symmetric block
static void run_all(mc::Case &c, const Mat<T> &A, const std::vector<hif::Params> &cfgs, int symm = 0, size_t m0 = 0, int only_full = -1) {
  Mat<T> Ai;
  bool   reg = gj(A, &Ai) == A.n;
#if PROP == 1
  if (!reg) {
    c.skip("singular input (decided by the rank property)");
    return;
  }
#endif
  // quick tier: every case takes a share of the configurations, rotating with its index
  const uint64_t rot = mc::thorough() || cfgs.size() == 1 ? 1 : PROP == 4 ? 5 : PROP == 8 ? 4 : PROP == 1 ? 2 : 3;
  const size_t   off = c.idx + c.idx / 64;
  for (size_t k = 0; k < cfgs.size(); ++k) {
    if ((k + off) % rot) continue;
    auto p = cfgs[k];
    if (symm) p.is_symm = 1;
    for (int full = 0; full < 2; ++full) {
      if (only_full >= 0 ? full != only_full : full && (k % 5 || A.n > 4)) continue;
      if (!full || k % 2 == 0) run_one<hif::CRS<T, int>>(c, A, reg ? &Ai : nullptr, p, m0, full);
      if (!full || k % 2) run_one<hif::CCS<T, int>>(c, A, reg ? &Ai : nullptr, p, m0, full);
      if (c.nfail) return;
    }
  }
}
static void run_m0(mc::Case &c, int n, uint64_t bits, int table, int m0, const std::vector<hif::Params> &cfgs) {
  Mat<T> A = by_pattern<T>(n, bits, table);
  // the leading block must be symmetric (complex: Hermitian)
  bool zero = true;
  for (int i = 0; i < m0; ++i) {
    for (int j = 0; j < i; ++j) A(i, j) = A(j, i);
    for (int j = 0; j < m0; ++j) zero = zero && A(i, j) == T(0);
  }
  if (zero) {
    c.skip("declared symmetric leading block is entirely zero (rejected with an error by design)");
    return;
  }
  run_all(c, A, cfgs, 0, m0);
}

int main(int argc, char **argv) {
  using mc::Family;
  const bool          th = mc::thorough();
  std::vector<Family> F;
  auto                c0 = the_configs(0), c1 = the_configs(1), c2 = the_configs(2);
#if PROP != 8
#ifdef CPLX
  std::vector<T> al{T(0), T(1), T(0, 1), T(-1, 2), T(2, -1)};
  F.push_back({"alpha2", "all complex 2x2 matrices over 5 values", ipow(5, 4), [=](mc::Case &c) { run_all(c, by_alphabet<T>(2, c.idx, al), c2); }});
  F.push_back({"pat3", "all complex 3x3 zero patterns x 2 value tables", 512 * 2, [=](mc::Case &c) { run_all(c, by_pattern<T>(3, c.idx / 2, c.idx % 2), th ? c2 : c1); }});
#else
  std::vector<T> al{0, 1, -1, 2, 0.5, -3};
  F.push_back({"alpha2", "all real 2x2 matrices over 6 values", ipow(6, 4), [=](mc::Case &c) { run_all(c, by_alphabet<T>(2, c.idx, al), c2); }});
  F.push_back({"one", "all 1x1 matrices over 6 values", 6, [=](mc::Case &c) { run_all(c, by_alphabet<T>(1, c.idx, al), c2); }});
  std::vector<T> al3{0, 1, -2};
  F.push_back({"alpha3", "all real 3x3 matrices over {0,1,-2}", ipow(3, 9), [=](mc::Case &c) { run_all(c, by_alphabet<T>(3, c.idx, al3), th ? c1 : c0); }});
  F.push_back({"pat3", "all real 3x3 zero patterns x 3 value tables", 512 * 3, [=](mc::Case &c) { run_all(c, by_pattern<T>(3, c.idx / 3, c.idx % 3), th ? c2 : c1); }});
  if (th || PROP == 1)
    F.push_back({"pat4", "all real 4x4 zero patterns", 65536, [=](mc::Case &c) { run_all(c, by_pattern<T>(4, c.idx, 0), c0); }});
  else
    F.push_back({"pat4d", "all real 4x4 zero patterns with full diagonal", 4096, [=](mc::Case &c) { run_all(c, by_offpattern<T>(4, c.idx, 0), c0); }});
#endif
  F.push_back({"circ7", "all circulant 7x7 patterns x 2 tables", 127 * 2, [=](mc::Case &c) { run_all(c, circulant<T>(7, c.idx / 2 + 1, c.idx % 2), th ? c2 : c1); }});
  F.push_back({"band6", "all 6x6 band patterns (bandwidth 2) x all diagonal zero masks", 32 * 64, [=](mc::Case &c) { run_all(c, banded<T>(6, 2, c.idx % 32, c.idx / 32, 0), th ? c2 : c0); }});
  {
    static const int ns[] = {5, 9, 12, 20, 31};
    F.push_back({"struct", "20 structure classes x sizes {5,9,12,20,31} x all configurations", NSTRUCT * 5 * (uint64_t)c2.size(), [=](mc::Case &c) {
                   int  kind = c.idx % NSTRUCT, n = ns[c.idx / NSTRUCT % 5], k = c.idx / NSTRUCT / 5;
                   auto A = structured<T>(kind, n);
                   c.desc("%s n=%d", struct_name(kind), n);
                   std::vector<hif::Params> one{c2[k]};
                   run_all(c, A, one, 0, 0, 0);
                 }});
  }
  {
    // orders beyond every block, buffer and shortcut size of the code
    static const int ns[] = {48, 77, 130, 200};
    const int        nk = th ? (int)c2.size() : PROP == 3 || PROP == 4 ? 4 : 8, nn = th ? 4 : 3, st = std::max(1, (int)c2.size() / nk);
    F.push_back({"large", "20 structure classes x sizes {48,77,130} (thorough also 200) x 4 or 8 configurations (thorough: all), rotating", NSTRUCT * nn * (uint64_t)nk, [=](mc::Case &c) {
                   int  kind = c.idx % NSTRUCT, n = ns[c.idx / NSTRUCT % nn], k = c.idx / NSTRUCT / nn;
                   auto A = structured<T>(kind, n);
                   c.desc("%s n=%d", struct_name(kind), n);
                   std::vector<hif::Params> one{c2[(k * st + (th ? 0 : kind + c.idx / NSTRUCT)) % c2.size()]};
                   run_all(c, A, one, 0, 0, 0);
                 }});
  }
  F.push_back({"m0", "all 3x3 patterns with the leading m0 x m0 block symmetric, every m0", 512 * 3 * 3, [=](mc::Case &c) { run_m0(c, 3, c.idx / 9, c.idx % 3, 1 + c.idx / 3 % 3, th ? c1 : c0); }});
  if (th) F.push_back({"m04", "all 4x4 patterns with the leading m0 x m0 block symmetric, every m0", 65536 * 4, [=](mc::Case &c) { run_m0(c, 4, c.idx / 4, 0, 1 + c.idx % 4, c0); }});
#endif
  F.push_back({"sym3", "all Hermitian 3x3 patterns x 3 tables, symmetric mode", 64 * 3, [=](mc::Case &c) { run_all(c, herm_pattern<T>(3, c.idx / 3, c.idx % 3), PROP == 8 || th ? c2 : c1, 1); }});
  F.push_back({"sym4", "all Hermitian 4x4 patterns x 3 tables, symmetric mode", 1024 * 3, [=](mc::Case &c) { run_all(c, herm_pattern<T>(4, c.idx / 3, c.idx % 3), PROP == 8 || th ? c1 : c0, 1); }});
#if PROP == 8
  F.push_back({"sym5", "all Hermitian 5x5 patterns, symmetric mode", 32768, [=](mc::Case &c) { run_all(c, herm_pattern<T>(5, c.idx, 0), c0, 1); }});
  for (int spd : {-1, 1})
    F.push_back({spd > 0 ? "pd4" : "nd4", "all Hermitian definite 4x4 patterns with the definiteness declared", 64 * 3, [=](mc::Case &c) {
                   Mat<T> A(4, 4);
                   auto   G = herm_pattern<T>(4, 0, 0);
                   uint64_t b = c.idx / 3;
                   for (int i = 0; i < 4; ++i)
                     for (int j = i; j < 4; ++j) {
                       if (i == j) A(i, i) = T(9.0 * spd);
                       else {
                         if (b & 1) A(i, j) = gen_val<T>(i, j, c.idx % 3 % 2) * T(0.5), A(j, i) = conj_(A(i, j));
                         b >>= 1;
                       }
                     }
                   auto q = c1;
                   for (auto &p : q) p.spd = spd;
                   run_all(c, A, q, 1);
                 }});
#endif
  {
    static const int ns[] = {6, 11, 20};
    F.push_back({"symstruct", "20 Hermitian structure classes x 3 sizes x all configurations, symmetric mode", NSTRUCT * 3 * (uint64_t)c2.size(), [=](mc::Case &c) {
                   int  kind = c.idx % NSTRUCT, n = ns[c.idx / NSTRUCT % 3], k = c.idx / NSTRUCT / 3;
                   std::vector<hif::Params> one{c2[k]};
                   run_all(c, hermitize(structured<T>(kind, n)), one, 1, 0, 0);
                 }});
  }
  {
    static const int ns[] = {48, 77, 130, 200};
    const int        nk = th ? (int)c2.size() : PROP == 3 || PROP == 4 ? 4 : 8, nn = th ? 4 : 3, st = std::max(1, (int)c2.size() / nk);
    F.push_back({"symlarge", "20 Hermitian structure classes x sizes {48,77,130} (thorough also 200) x 4 or 8 configurations (thorough: all), rotating, symmetric mode", NSTRUCT * nn * (uint64_t)nk, [=](mc::Case &c) {
                   int kind = c.idx % NSTRUCT, n = ns[c.idx / NSTRUCT % nn], k = c.idx / NSTRUCT / nn;
                   std::vector<hif::Params> one{c2[(k * st + (th ? 0 : kind + c.idx / NSTRUCT)) % c2.size()]};
                   run_all(c, hermitize(structured<T>(kind, n)), one, 1, 0, 0);
                 }});
  }
  return mc::drive(argc, argv, F);
}
