// P09: rank-deficient systems are factorized, their numerical rank is the rank of the matrix, the solution of every
// consistent system is found, and everything stays finite.
#include "spaces.hpp"
using namespace hx;
#ifdef CPLX
typedef cd T;
#else
typedef double T;
#endif

template <class H> static double last_level_size(const H &M) {
  const auto &p = M.precs().back();
  double      s = 0;
  for (auto &x : p.dense_solver.mat_backup().array()) s = std::max(s, (double)std::abs(x));
  for (auto &x : p.symm_dense_solver.mat_backup().array()) s = std::max(s, (double)std::abs(x));
  return s;
}

template <class Cs> static void run_one(mc::Case &c, const Mat<T> &A, int rk, const hif::Params &p, size_t m0, bool full) {
  const int n = A.n;
  c.desc("%s %s A=%s rank=%d m0=%zu explicit_zeros=%d %s", is_cplx<T>::value ? "complex" : "real", Cs::ROW_MAJOR ? "CRS" : "CCS",
         n <= 8 ? show(A).c_str() : "(see family)", rk, m0, full, cfg_str(p).c_str());
  Cs          S = to_cs<Cs>(A, 0, full);
  hif::HIF<T> M;
  M.factorize(S, p, m0);
  c.transition();
  c.state(mc::mix(struct_hash(M), n));
  Mat<T> X = solve_op<T>(M, n, false), Y = mult_op<T>(M, n, false);
  Mat<T> Xt = solve_op<T>(M, n, true), Yt = mult_op<T>(M, n, true);
  c.transition(4 * n);
  if (!finite(X) || !finite(Y) || !finite(Xt) || !finite(Yt)) {
    c.fail("singular system: solve or multiply produces non-finite values");
    return;
  }
  const double na = nrm(A);
  if (M.rank() > (size_t)n || M.schur_rank() > M.schur_size() || M.rank() != n - (M.schur_size() - M.schur_rank()))
    c.fail("inconsistent rank report: rank %zu, Schur complement %zu of rank %zu, n=%d", M.rank(), M.schur_size(), M.schur_rank(), n);
  double ll = last_level_size(M);
  if (ll && ll < 1e-12) {
    c.skip("dense level holds nothing but rounding errors");
    return;
  }
  if (M.rank() != (size_t)rk && (p.rho > 1e8 || (p.kappa > 100 && nrm(X) * na > 1e10))) {
    c.skip("forced deep hierarchy or no deferral: singularity drowned by rounding");
    return;
  }
  c.outcome(mc::mix(M.rank(), mc::mix(M.levels(), M.schur_size())));
  if (M.rank() != (size_t)rk) {
    c.fail("rank %zu reported for a matrix of rank %d (Schur complement %zu of rank %zu)", M.rank(), rk, M.schur_size(), M.schur_rank());
    return;
  }
  if (p.rho > 1e8 && n > 6) {
    c.skip("forced deep hierarchy: element growth drowns the comparison");
    return;
  }
  const double nx = nrm(X), cond = (1 + nx * na * n) * n;
  if (cond > 1e8) {
    c.skip("too ill-conditioned to compare");
    return;
  }
  double tol = 1e-11 * cond * na + 1e-14;
  // the multiplication is truncated to the numerical rank, so it acts like A on what solve returns
  double d = diff(mul(mul(Y, X), A), A);
  if (!(d <= tol * cond)) c.fail("multiply(solve(b)) differs from b in the range: %g (tol %g)", d, tol * cond);
  d = diff(mul(mul(A, X), A), A);
  if (!(d <= tol * cond)) c.fail("consistent systems are not solved: |A S A - A| = %g (tol %g)", d, tol * cond);
  Mat<T> At = adj(A);
  d         = diff(mul(mul(At, Xt), At), At);
  if (!(d <= tol * cond)) c.fail("consistent transposed systems are not solved: %g (tol %g)", d, tol * cond);
  c.validated();
}
static void run_all(mc::Case &c, const Mat<T> &A, const std::vector<hif::Params> &cfgs, int symm = 0, size_t m0 = 0) {
  int rk = gj<T>(A, nullptr);
  if (rk == A.n) {
    c.skip("nonsingular input (decided by the exactness property)");
    return;
  }
  const size_t rot = mc::thorough() || cfgs.size() == 1 ? 1 : 3;
  for (size_t k = 0; k < cfgs.size(); ++k) {
    if ((k + c.idx + c.idx / 64) % rot) continue;
    auto p = cfgs[k];
    if (symm) p.is_symm = 1;
    bool full = (k / rot + c.idx) % 3 == 0;
    if ((k / rot) % 2) run_one<hif::CRS<T, int>>(c, A, rk, p, m0, full);
    else run_one<hif::CCS<T, int>>(c, A, rk, p, m0, full);
    if (c.nfail) return;
  }
}
// graph Laplacian (complex: of a magnetic, i.e. gauge-transformed, graph): Hermitian, rank = n - #components
static Mat<T> laplacian(int n, uint64_t g, bool gauge) {
  Mat<T> A(n, n);
  auto   ph = [&](int i) { return gauge ? Mk<T>::mk(i % 3 == 2 ? 0 : 1 - (i % 3) * 2, i % 3 == 2 ? 1 : 0) : T(1); };
  for (int i = 0; i < n; ++i)
    for (int j = i + 1; j < n; ++j, g >>= 1)
      if (g & 1) {
        A(i, i) += T(1), A(j, j) += T(1);
        T w = T(-1);
        if (is_cplx<T>::value) w = -ph(i) * conj_(ph(j));
        A(i, j) = w, A(j, i) = conj_(w);
      }
  return A;
}

int main(int argc, char **argv) {
  using mc::Family;
  const bool          th = mc::thorough();
  std::vector<Family> F;
  auto                c0 = configs_exact(0), c1 = configs_exact(1), c2 = configs_exact(2);
#ifdef CPLX
  std::vector<T> al{T(0), T(1), T(0, 1), T(-1, 2), T(2, -1)};
  F.push_back({"alpha2", "all singular complex 2x2 matrices over 5 values", ipow(5, 4), [=](mc::Case &c) { run_all(c, by_alphabet<T>(2, c.idx, al), c2); }});
  F.push_back({"pat3", "all singular complex 3x3 zero patterns x 2 tables", 512 * 2, [=](mc::Case &c) { run_all(c, by_pattern<T>(3, c.idx / 2, c.idx % 2), c1); }});
#else
  std::vector<T> al{0, 1, -1, 2, 0.5, -3}, al3{0, 1, -2};
  F.push_back({"one", "the 1x1 zero matrix", 1, [=](mc::Case &c) { run_all(c, Mat<T>(1, 1), c2); }});
  F.push_back({"alpha2", "all singular real 2x2 matrices over 6 values", ipow(6, 4), [=](mc::Case &c) { run_all(c, by_alphabet<T>(2, c.idx, al), c2); }});
  F.push_back({"alpha3", "all singular real 3x3 matrices over {0,1,-2}", ipow(3, 9), [=](mc::Case &c) { run_all(c, by_alphabet<T>(3, c.idx, al3), th ? c1 : c0); }});
  F.push_back({"pat4", "all singular real 4x4 zero patterns", 65536, [=](mc::Case &c) { run_all(c, by_pattern<T>(4, c.idx, 0), c0); }});
#endif
  F.push_back({"lap4", "all graph Laplacians on 4 vertices, both modes", 64 * 2, [=](mc::Case &c) { run_all(c, laplacian(4, c.idx / 2, true), c1, c.idx % 2); }});
  F.push_back({"lap5", "all graph Laplacians on 5 vertices, both modes", 1024 * 2, [=](mc::Case &c) { run_all(c, laplacian(5, c.idx / 2, true), c0, c.idx % 2); }});
  if (th) F.push_back({"lap6", "all graph Laplacians on 6 vertices, both modes", 32768 * 2, [=](mc::Case &c) { run_all(c, laplacian(6, c.idx / 2, true), c0, c.idx % 2); }});
  F.push_back({"herm3", "all singular Hermitian 3x3 patterns x 3 tables, symmetric mode", 64 * 3, [=](mc::Case &c) { run_all(c, herm_pattern<T>(3, c.idx / 3, c.idx % 3), c1, 1); }});
  F.push_back({"herm4", "all singular Hermitian 4x4 patterns x 3 tables, symmetric mode", 1024 * 3, [=](mc::Case &c) { run_all(c, herm_pattern<T>(4, c.idx / 3, c.idx % 3), c0, 1); }});
  {
    // Laplacians of larger graphs: path, cycle, star, complete, grid, two components, random-like, binary tree, wheel
    static const int ns[] = {17, 40, 90, 144};
    const int        NK = 9;
    F.push_back({"lapbig", "Laplacians of 9 graphs (up to 3 components) x sizes {17,40,90,144} x both modes x configurations", (uint64_t)NK * 4 * 2 * c1.size(), [=](mc::Case &c) {
                   const int kind = c.idx % NK, n = ns[c.idx / NK % 4], sym = c.idx / NK / 4 % 2, k = c.idx / NK / 8;
                   Mat<T>    A(n, n);
                   int       comp = 1;
                   auto      ph   = [&](int i) { return is_cplx<T>::value && i % 2 ? Mk<T>::mk(0, 1) : T(1); };
                   auto      edge = [&](int i, int j) {
                     if (i == j || i < 0 || j < 0 || i >= n || j >= n || A(i, j) != T(0)) return;
                     const double w = 1 + (i * 7 + j * 7) % 3;
                     A(i, i) += T(w), A(j, j) += T(w);
                     A(i, j) = -w * ph(i) * conj_(ph(j)), A(j, i) = conj_(A(i, j));
                   };
                   const int q = (int)std::sqrt((double)n);
                   for (int i = 0; i < n; ++i) switch (kind) {
                       case 0: edge(i, i + 1); break;
                       case 1: edge(i, (i + 1) % n); break;
                       case 2: edge(0, i); break;
                       case 3:
                         for (int j = 0; j < i; ++j)
                           if (n <= 40 || j % 4 == i % 4 || j == i - 1) edge(i, j);
                         break;
                       case 4:
                         if ((i + 1) % q) edge(i, i + 1);
                         edge(i, i + q);
                         if (i + q >= n) edge(i, i - 1);
                         break;
                       case 5: comp = 2, edge(i, i + 2); break;
                       case 6: edge(i, (i * 5 + 3) % n), edge(i, i + 1); break;
                       case 7: edge(i, 2 * i + 1), edge(i, 2 * i + 2); break;
                       default: comp = 3, edge(i, i + 3); if (i % 9 < 3) edge(i, i + 6);
                     }
                   auto p = c1[k];
                   if (sym) p.is_symm = 1;
                   if (p.rho > 1e8) {
                     c.skip("forced deep hierarchy");
                     return;
                   }
                   if ((c.idx / 3) % 2) run_one<hif::CRS<T, int>>(c, A, n - comp, p, 0, false);
                   else run_one<hif::CCS<T, int>>(c, A, n - comp, p, 0, false);
                 }});
  }
  {
    // deflated structure classes: rank-deficiency 1..3 imposed by P A P with projections onto differences
    static const int ns[] = {5, 9, 12, 20};
    F.push_back({"defl", "20 structure classes x sizes {5,9,12,20} x deficiency {1,2,3} (rows and columns replaced by combinations of others) x configurations",
                 NSTRUCT * 4 * 3 * (uint64_t)c1.size(), [=](mc::Case &c) {
                   int kind = c.idx % NSTRUCT, n = ns[c.idx / NSTRUCT % 4], def = 1 + c.idx / NSTRUCT / 4 % 3, k = c.idx / NSTRUCT / 12;
                   if (kind == 11 || kind == 12 || kind == 13 || kind == 14) {
                     c.skip("badly scaled class");
                     return;
                   }
                   Mat<T> A = structured<T>(kind, n);
                   for (int d = 0; d < def; ++d)
                     for (int j = 0; j < n; ++j) A(n - 1 - d, j) = A(d, j) - (d % 2 ? A(1, j) * T(0.5) : T(0));
                   std::vector<hif::Params> one{c1[k]};
                   run_all(c, A, one);
                 }});
  }
  {
    // full matrices that go to the dense solver of the last level as they are: order, deficiency, values, columns or rows
    // replaced by combinations of the others, at the end, at the front, or spread
    static const int ns[] = {4, 6, 8, 9, 10, 12, 16, 24, 40, 70};
    const int        NS = 10, NV = th ? 200 : 40;
    F.push_back({"full", "full matrices x sizes 4.. x deficiency {1,2,3} x 3 places x {rows, columns} x values x 2 ways to the dense level", (uint64_t)NS * 3 * 3 * 2 * NV * 2, [=](mc::Case &c) {
                   uint64_t  r = c.idx;
                   auto      take = [&](int q) { int v = r % q; r /= q; return v; };
                   const int n = ns[take(NS)], def = 1 + take(3), place = take(3), rows = take(2), way = take(2), t = (int)r;
                   if (n > 24 && t % 8) return;  // the largest with every eighth table
                   Mat<T>    A(n, n);
                   auto      h = [&](int i, int j, int w) { return (double)(mc::mix(mc::mix(i * 64 + j, t), w) % 2001) / 1000 - 1; };
                   for (int i = 0; i < n; ++i)
                     for (int j = 0; j < n; ++j)
                       if (t % 2 || n > 12) A(i, j) = Mk<T>::mk(h(i, j, 1), is_cplx<T>::value ? h(i, j, 2) : 0);
                       else A(i, j) = Mk<T>::mk(std::cos(1. + (7 + t) * i * j + 3 * i + 5 * j), is_cplx<T>::value ? std::sin(2. + (5 + t) * i * j + i + 3 * j) : 0);
                   std::vector<char> dep(n, 0);
                   for (int d = 0; d < def; ++d) dep[place == 0 ? n - 1 - d : place == 1 ? d : (d * 2 + 1) % n] = 1;
                   int nd = 0;
                   for (int j = 0; j < n; ++j)
                     if (dep[j]) {
                       ++nd;
                       for (int i = 0; i < n; ++i) {
                         T s(0);
                         for (int k = 0; k < n; ++k)
                           if (!dep[k]) s += T((nd == 1 ? k + 1 : nd == 2 ? 2 - k : 1 - 2 * (k & 1)) / (nd == 1 ? 7. : nd == 2 ? 3. : 5.)) * (rows ? A(k, i) : A(i, k));
                         (rows ? A(j, i) : A(i, j)) = s;
                       }
                     }
                   auto p = c0[0];
                   p.rf_par = 0, p.rho = hif::DEFAULT_PARAMS.rho;
                   if (way) p.kappa = p.kappa_d = 1.0001, p.no_pre = 1;
                   else p.dense_thres = 1000;
                   if (t / 2 % 2) run_one<hif::CRS<T, int>>(c, A, n - nd, p, 0, false);
                   else run_one<hif::CCS<T, int>>(c, A, n - nd, p, 0, false);
                 }});
  }
  return mc::drive(argc, argv, F);
}
