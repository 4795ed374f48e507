// P10: iterative refinement is exactly x_{k+1} = x_k + S (b - A x_k) with S the solve of the given rank, for every
// kind of operator; the variant with residual bounds stops at the first iterate that meets a bound and says so.
#include "spaces.hpp"
using namespace hx;
#ifdef CPLX
typedef cd T;
#else
typedef double T;
#endif

typedef std::vector<T> Vec;
static Vec apply(const Mat<T> &A, const Vec &x) {
  Vec y(A.n, T(0));
  for (int i = 0; i < A.n; ++i)
    for (int j = 0; j < A.m; ++j) y[i] += A(i, j) * x[j];
  return y;
}
static double n2(const Vec &x) {
  double s = 0;
  for (auto &v : x) s += std::norm(v);
  return std::sqrt(s);
}
static double ninf(const Mat<T> &A) {
  double m = 0;
  for (int i = 0; i < A.n; ++i) {
    double s = 0;
    for (int j = 0; j < A.m; ++j) s += std::abs(A(i, j));
    if (!(s <= m)) m = s;
  }
  return m;
}

// reference run: all iterates x_1..x_N and a bound of the rounding error of each
struct Ref {
  std::vector<Vec>    x;
  std::vector<double> res, err, reserr;  // relative residual of x_k
};
template <class Sol> static Ref reference(const Mat<T> &A, const Mat<T> &S, const Vec &b, int N, const Sol &solve) {
  const int n = A.n;
  Ref       R;
  Mat<T>    G = mul(S, A);
  for (auto &v : G.v) v = -v;
  for (int i = 0; i < n; ++i) G(i, i) += T(1);
  const double g = std::max(ninf(G), 1.0), a = ninf(A), s = ninf(S), bn = n2(b);
  Vec          x(n, T(0));
  double       e = 0;
  for (int k = 0; k < N; ++k) {
    Vec r = b, ax = apply(A, x);
    for (int i = 0; i < n; ++i) r[i] -= ax[i];
    Vec d = apply(S, r);
    for (int i = 0; i < n; ++i) x[i] += d[i];
    // rounding of this step: residual and solve (the solve operator itself is only known up to its own backward error)
    const double cond = 1 + s * a;
    // an ill-conditioned interior of the solve operator shows as a departure of S*r from the solve itself
    const double dev = solve(r, d);
    e = g * e + 1e-14 * n * (s * (bn + a * n2(x)) * cond + n2(x)) + 10 * n * dev + 1e-15;
    R.x.push_back(x), R.err.push_back(e);
    Vec r2 = b;
    ax     = apply(A, x);
    for (int i = 0; i < n; ++i) r2[i] -= ax[i];
    R.res.push_back(n2(r2) / bn);
    R.reserr.push_back((a * e + 1e-14 * n * (bn + a * n2(x))) / bn + 1e-15);
  }
  return R;
}

template <class Op> static void check(mc::Case &c, const char *opn, const hif::HIF<T> &M, const Op &A, const Mat<T> &D, const Mat<T> &S, bool tran, size_t r, bool rdefault) {
  const int n = D.n;
  if (!finite(S) || ninf(S) * ninf(D) > 1e6) {
    c.skip("too ill-conditioned to follow");
    return;
  }
  Vec b(n);
  for (int i = 0; i < n; ++i) b[i] = Mk<T>::mk(1.0 - 0.25 * i, (i % 3) - 1.0);
  Ref           R = reference(D, S, b, 6, [&](const Vec &v, const Vec &d) {
    hif::Array<T> V(n), W(n);
    for (int i = 0; i < n; ++i) V[i] = v[i], W[i] = T(0);
    if (rdefault) M.solve(V, W, tran);
    else M.solve(V, W, tran, r);
    double e = 0, s = 0;
    for (int i = 0; i < n; ++i) e = std::max(e, (double)std::abs(W[i] - d[i])), s = std::max(s, (double)std::abs(d[i]));
    return e <= 1e-4 * s ? e : 0.0;  // more than rounding is not excused here
  });
  hif::Array<T> B(n), x(n);
  auto          fill = [&] {
    for (int i = 0; i < n; ++i) B[i] = b[i], x[i] = T(i % 2 ? NAN : 7.0);
  };
  auto same = [&](int k, const char *what) {
    if (R.err[k] > 1e-3 * (1 + n2(R.x[k]))) {
      c.skip("rounding bound too large");
      return true;
    }
    for (int i = 0; i < n; ++i) {
      if (B[i] != b[i]) {
        c.fail("%s%s with A as %s modifies the right-hand side", tran ? "transposed " : "", what, opn);
        return false;
      }
      if (!(std::abs(x[i] - R.x[k][i]) <= R.err[k])) {
        std::ostringstream o;
        o << what << (tran ? " (transposed)" : "") << " with A as " << opn << ", rank argument " << (long)r << ", iterate " << k + 1 << ": x[" << i << "]=" << x[i] << " instead of " << R.x[k][i]
          << " (tolerance " << R.err[k] << ")";
        c.fail("%s", o.str().c_str());
        return false;
      }
    }
    c.validated();
    return true;
  };
  for (size_t N : {0, 1, 2, 3, 5}) {
    fill();
    if (rdefault) M.hifir(A, B, N, x, tran);
    else M.hifir(A, B, N, x, tran, r);
    c.transition();
    if (!same(std::max<int>(N, 1) - 1, "refinement")) return;
  }
  static const double be[][2] = {{1e-10, 1e3}, {0.5, 1e3}, {0.1, 0.3}, {1e-18, 1.0}, {0.0, 1e300}, {1e3, 1e-3}};
  for (auto &bt : be)
    for (size_t N : {0, 1, 2, 6}) {
      // expected
      size_t its = std::max<size_t>(N, 1);
      int    flag = -1;
      bool   amb  = false;
      for (size_t k = 1; k < its && N > 1; ++k) {  // after iterate k (1-based), unless the count is exhausted
        const double q = R.res[k - 1], m = R.reserr[k - 1];
        if (std::abs(q - bt[0]) <= m || std::abs(q - bt[1]) <= m) amb = true;
        if (amb) break;
        if (q <= bt[0]) { its = k, flag = 0; break; }
        if (q > bt[1]) { its = k, flag = 1; break; }
      }
      if (amb) {
        c.skip("residual at the bound up to rounding");
        continue;
      }
      fill();
      auto got = rdefault ? M.hifir(A, B, N, bt, x, tran) : M.hifir(A, B, N, bt, x, tran, r);
      c.transition();
      c.outcome(mc::mix(got.first * 8 + got.second + 1, mc::mix(N, tran)));
      if (got.first != its || got.second != flag) {
        c.fail("refinement with bounds (%g,%g), N=%zu, A as %s%s: returned (%zu,%d) instead of (%zu,%d); residuals %g %g %g", bt[0], bt[1], N, opn, tran ? ", transposed" : "", got.first, got.second, its, flag,
               R.res[0], R.res[1], R.res[2]);
        return;
      }
      if (!same((int)its - 1, "refinement with bounds")) return;
    }
  // zero right-hand side
  for (int i = 0; i < n; ++i) B[i] = T(0), x[i] = T(5);
  auto g0 = M.hifir(A, B, 4, be[0], x, tran, r);
  bool z  = g0.first == 0 && g0.second == 0;
  for (int i = 0; i < n; ++i) z = z && x[i] == T(0);
  if (!z) c.fail("refinement with bounds of a zero right-hand side: (%zu,%d) or a nonzero solution", g0.first, g0.second);
}

static void run_all(mc::Case &c, const Mat<T> &A, const std::vector<hif::Params> &cfgs, int symm, size_t m0) {
  const int    n   = A.n;
  const size_t rot = mc::thorough() || cfgs.size() == 1 ? 1 : 3;
  for (size_t k = 0; k < cfgs.size(); ++k) {
    if ((k + c.idx + c.idx / 32) % rot) continue;
    auto p = cfgs[k];
    if (symm) p.is_symm = 1;
    c.desc("%s m0=%zu A=%s %s", is_cplx<T>::value ? "complex" : "real", m0, n <= 6 ? show(A).c_str() : "(see family)", cfg_str(p).c_str());
    auto        S = to_cs<hif::CRS<T, int>>(A);
    auto        C = to_cs<hif::CCS<T, int>>(A);
    hif::HIF<T> M;
    M.factorize(S, p, m0);
    c.state(struct_hash(M));
    Mat<T>   Ah = adj(A);
    // the generic operator interface: y = op(A) x
    std::function<void(const void *, const size_t, const char, void *, const char, const bool)> F = [&](const void *x, const size_t nn, const char xt, void *y, const char yt, const bool tr) {
      if (nn != (size_t)n || xt != yt) throw std::logic_error("harness: operator called with wrong arguments");
      Vec v((const T *)x, (const T *)x + nn), w = apply(tr ? Ah : A, v);
      std::copy(w.begin(), w.end(), (T *)y);
    };
    std::vector<size_t> rs{0, (size_t)-1};
    if (M.schur_size() > 1) rs.push_back(1);
    if (M.schur_rank() > 2) rs.push_back(M.schur_rank() - 1);
    size_t turn = c.idx + k;
    for (size_t r : rs)
      for (int tr = 0; tr < 2; ++tr) {
        Mat<T> X = solve_op<T>(M, n, tr, r);
        int    w = turn++ % 4;
        if (w == 0) check(c, "CRS", M, S, tr ? Ah : A, X, tr, r, r == (size_t)-1);
        else if (w == 1) check(c, "CCS", M, C, tr ? Ah : A, X, tr, r, false);
        else if (w == 2) check(c, "operator", M, F, tr ? Ah : A, X, tr, r, r == (size_t)-1);
        else {
          // another system than the one that was factorized: the refinement uses the given one
          Mat<T> A2 = A;
          for (int i = 0; i < n; ++i) A2(i, i) += T(0.125);
          auto S2 = to_cs<hif::CRS<T, int>>(A2, 0, true);
          check(c, "another CRS", M, S2, tr ? adj(A2) : A2, X, tr, r, false);
        }
        if (c.nfail) return;
      }
  }
}

// systems whose refinement is exact (small integers throughout): scaled by any power of two, down to the smallest
// subnormal number, the same iterates and the same decisions are due
static void run_scales(mc::Case &c, int n, uint64_t lo, uint64_t up, int pert) {
  static const int v3[] = {0, 1, -1};
  Mat<T>           L = eye<T>(n), U = eye<T>(n);
  for (int i = 0; i < n; ++i)
    for (int j = 0; j < i; ++j, lo /= 3) L(i, j) = is_cplx<T>::value && (i + j) % 2 ? Mk<T>::mk(0, v3[lo % 3]) : T(v3[lo % 3]);
  for (int j = 0; j < n; ++j)
    for (int i = 0; i < j; ++i, up /= 3) U(i, j) = is_cplx<T>::value && (i + j) % 3 == 0 ? Mk<T>::mk(0, v3[up % 3]) : T(v3[up % 3]);
  const Mat<T> P = mul(L, U);
  Mat<T>       A = P;
  if (pert == 1) A(0, n - 1) += T(1);
  if (pert == 2) A(n - 1, n - 1) += T(1);
  if (pert == 3) A(1, 0) -= T(2), A(0, 1) += T(1);
  hif::Params p = exact_params();
  p.no_pre = 1, p.pivot = 0, p.kappa = p.kappa_d = 1e10, p.rf_par = 0;
  c.desc("exact system P=%s, A differs from it in way %d", show(P).c_str(), pert);
  hif::HIF<T> M;
  M.factorize(to_cs<hif::CRS<T, int>>(P), p);
  auto S = to_cs<hif::CRS<T, int>>(A, 0, true);
  // inverse of the preconditioner in integers
  auto tri = [&](const Mat<T> &Q, Vec b, bool low) {
    for (int q = 0; q < n; ++q) {
      const int i = low ? q : n - 1 - q;
      for (int j = 0; j < n; ++j)
        if (low ? j < i : j > i) b[i] -= Q(i, j) * b[j];
    }
    return b;
  };
  static const int ks[] = {-1074, -1073, -1071, -1060, -1040, -1030, -1024, -1022, -1000, -600, -500, 0, 500, 600, 950, 1000};
  for (int tr = 0; tr < 2; ++tr) {
    const Mat<T>        B = tr ? adj(A) : A, Lt = adj(L), Ut = adj(U);
    std::vector<Vec>    X;
    std::vector<double> rn;
    Vec                 b(n), x(n, T(0));
    for (int i = 0; i < n; ++i) b[i] = Mk<T>::mk(3 - 2 * i, i % 2 * 4);
    double mx = 0;
    for (int k = 0; k < 4; ++k) {
      Vec r = apply(B, x);
      for (int i = 0; i < n; ++i) r[i] = b[i] - r[i];
      Vec d = tr ? tri(Lt, tri(Ut, r, true), false) : tri(U, tri(L, r, true), false);
      for (int i = 0; i < n; ++i) x[i] += d[i], mx = std::max(mx, std::abs(x[i]));
      X.push_back(x);
      r = apply(B, x);
      for (int i = 0; i < n; ++i) r[i] = b[i] - r[i], mx = std::max(mx, std::abs(r[i]));
      rn.push_back(n2(r));
    }
    if (mx > 1e5) return c.skip("large intermediate numbers");
    hif::Array<T> bb(n), xx(n);
    for (int k : ks) {
      const double u = std::ldexp(1., k), unit = std::max(std::ldexp(1., -1074) / u, 1e-13);
      auto         fill = [&] {
        for (int i = 0; i < n; ++i) bb[i] = b[i] * u, xx[i] = T(NAN);
      };
      auto same = [&](int it, const char *what) {
        for (int i = 0; i < n; ++i)
          if (!(xx[i] == X[it][i] * u)) {
            c.fail("%s%s of the right-hand side times 2^%d: iterate %d differs in entry %d from that of the right-hand side itself (%g instead of %g units)", tr ? "transposed " : "", what, k, it + 1, i, std::abs(xx[i]) / u, std::abs(X[it][i]));
            return false;
          }
        c.validated();
        return true;
      };
      for (int N : {1, 2, 4}) {
        fill();
        M.hifir(S, bb, N, xx, tr);
        c.transition();
        if (!same(N - 1, "refinement")) return;
      }
      static const double be[][2] = {{1e-12, 1e6}, {.3, 1e6}, {1e-12, 1.5}, {.1, .6}};
      for (auto &bt : be) {
        size_t its = 4;
        int    flag = -1;
        bool   amb = false;
        for (size_t q = 1; q < 4; ++q) {
          const double bn = n2(b), f = rn[q - 1] / bn, m = f * 2 * (unit / bn + (rn[q - 1] ? unit / rn[q - 1] : 0));
          if (rn[q - 1] && (std::abs(f - bt[0]) <= m || std::abs(f - bt[1]) <= m)) amb = true;
          if (amb) break;
          if (f <= bt[0]) { its = q, flag = 0; break; }
          if (f > bt[1]) { its = q, flag = 1; break; }
        }
        if (amb) {
          c.skip("residual at the bound up to rounding");
          continue;
        }
        fill();
        auto g = M.hifir(S, bb, 4, bt, xx, tr);
        c.transition();
        c.state(mc::mix(mc::mix(its, flag + 2), mc::mix(k + 2000, tr)));
        if (g.first != its || g.second != flag) return c.fail("%srefinement with bounds (%g,%g) of the right-hand side times 2^%d returns (%zu,%d) instead of (%zu,%d)", tr ? "transposed " : "", bt[0], bt[1], k, g.first, g.second, its, flag);
        if (!same((int)its - 1, "refinement with bounds")) return;
      }
    }
  }
}

int main(int argc, char **argv) {
  using mc::Family;
  std::vector<Family> F;
  auto c1 = configs_drop(1), c2 = configs_drop(2), e0 = configs_exact(0);
  c1.insert(c1.end(), e0.begin(), e0.end());
  F.push_back({"pat3", "all 3x3 patterns x 2 tables", 512 * 2, [=](mc::Case &c) { run_all(c, by_pattern<T>(3, c.idx / 2, c.idx % 2), c1, 0, 0); }});
  F.push_back({"off4", "all 4x4 patterns with full diagonal", 4096, [=](mc::Case &c) { run_all(c, by_offpattern<T>(4, c.idx, 0), std::vector<hif::Params>{c1[c.idx % c1.size()], c1[(c.idx * 7 + 3) % c1.size()]}, 0, 0); }});
  F.push_back({"sym3", "all Hermitian 3x3 patterns x 3 tables, symmetric mode", 64 * 3, [=](mc::Case &c) { run_all(c, herm_pattern<T>(3, c.idx / 3, c.idx % 3), c1, 1, 0); }});
  {
    // orders beyond every block, buffer and shortcut size of the code
    static const int  nl[] = {48, 77, 130};
    const uint64_t nk = mc::thorough() ? c2.size() : 8;
    F.push_back({"large", "20 structure classes x sizes {48,77,130} x 8 configurations (thorough: all), rotating; every third also in symmetric mode", NSTRUCT * 3 * nk, [=](mc::Case &c) {
                   const int    kind = c.idx % NSTRUCT, n = nl[c.idx / NSTRUCT % 3];
                   const size_t k = (c.idx / NSTRUCT / 3 * (c2.size() / nk) + (mc::thorough() ? 0 : kind + c.idx / NSTRUCT)) % c2.size();
                   run_all(c, structured<T>(kind, n), std::vector<hif::Params>{c2[k]}, 0, 0);
                   if (c.idx % 3 == 0 && !c.nfail) run_all(c, hermitize(structured<T>(kind, n)), std::vector<hif::Params>{c2[k]}, 1, 0);
                 }});
  }
  F.push_back({"scales", "all products of unit triangular factors of order 3 with entries -1, 0, 1 as preconditioners of 4 systems, right-hand sides scaled by 16 powers of two from the smallest subnormal number to 2^1000", 27 * 27 * 4, [](mc::Case &c) { run_scales(c, 3, c.idx / 4 % 27, c.idx / 108, c.idx % 4); }});
  F.push_back({"scales4", "the same of order 4 (thorough: all)", mc::thorough() ? 729 * 729 * 4 : 729 * 4, [](mc::Case &c) { run_scales(c, 4, mc::thorough() ? c.idx / 4 % 729 : c.idx / 4 * 5 % 729, mc::thorough() ? c.idx / 2916 : c.idx / 4, c.idx % 4); }});
  static const int ns[] = {5, 12, 31};
  F.push_back({"struct", "20 structure classes x sizes {5,12,31} x configurations", NSTRUCT * 3 * (uint64_t)c2.size(), [=](mc::Case &c) {
                 int kind = c.idx % NSTRUCT, n = ns[c.idx / NSTRUCT % 3], k = c.idx / NSTRUCT / 3;
                 run_all(c, structured<T>(kind, n), std::vector<hif::Params>{c2[k]}, 0, 0);
                 if (k % 4 == 0 && !c.nfail) run_all(c, hermitize(structured<T>(kind, n)), std::vector<hif::Params>{c2[k]}, 1, 0);
               }});
  return mc::drive(argc, argv, F);
}
