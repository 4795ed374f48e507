// P14: the result does not depend on integer types, index base, interface or storage of equal values; a preconditioner in
// lower precision serves vectors of higher precision, and refinement with it reaches the higher precision.
#include "spaces.hpp"
using namespace hx;
typedef std::ptrdiff_t P;
#ifdef CPLX
typedef cd T;
typedef cf S;
#else
typedef double T;
typedef float  S;
#endif
struct Out {
  std::vector<char>   b;
  std::string         err;
  std::vector<size_t> at;
  template <class A> void put(const A &x) {
    at.push_back(b.size());
    b.insert(b.end(), (const char *)x.data(), (const char *)(x.data() + x.size()));
  }
};
static const char *part_name(size_t k) {
  static const char *n[] = {"sizes", "solution", "transposed solution", "product", "transposed product", "several solutions", "refined solution", "refinement with bounds"};
  return k < 8 ? n[k] : "?";
}
template <class V, class H> static void readout(const H &h, int n, Out &o) {
  std::vector<size_t> z = {h.nnz(), h.levels(), h.rank(), h.schur_rank(), h.schur_size(), h.nrows(), h.ncols()};
  for (size_t k = 0; k < 6; ++k) z.push_back(h.stats(k));
  o.put(z);
  for (int k = 0; k < 4; ++k) {
    Mat<V> M = k < 2 ? solve_op<V>(h, n, k & 1) : mult_op<V>(h, n, k & 1);
    for (auto &x : M.v)
      if (std::isnan(std::abs(x))) x = V(12345);
    o.put(M.v);
  }
  hif::Array<std::array<V, 2>> B(n), X(n);
  for (int i = 0; i < n; ++i) B[i][0] = V(i % 3 - 1), B[i][1] = V(0.5 * i);
  h.solve_mrhs(B, X);
  o.put(X);
}
template <class V, class H, class Cs> static Out run(const Cs &A, const hif::Params &p, size_t m0, bool pointers) {
  typedef typename Cs::value_type  U;
  typedef typename Cs::index_type  I;
  typedef typename Cs::indptr_type J;
  Out o;
  H   h;
  try {
    if (pointers) h.template factorize<Cs::ROW_MAJOR, I, U, J>(A.nrows(), A.ind_start().data(), A.inds().data(), A.vals().data(), p, m0);
    else h.factorize(A, p, m0);
    readout<V>(h, A.nrows(), o);
    if (h.nnz()) {
      const size_t  n = A.nrows();
      hif::Array<V> b(n), x(n);
      for (size_t i = 0; i < n; ++i) b[i] = V(1.0 / (1 + i)), x[i] = V(0);
      if (A.ind_start()[0] == 0) {
        h.hifir(A, b, 3, x);
        o.put(x);
        double be[2] = {1e-9, 1e3};
        h.hifir(A, b, 3, be, x, true);
        o.put(x);
      } else
        o.put(b), o.put(b);
    }
  } catch (const std::exception &e) { o.err = e.what(); }
  return o;
}
static bool same(mc::Case &c, const Out &r, const Out &o, bool based, const char *what) {
  c.transition();
  c.validated();
  if (r.err.size() || o.err.size()) {
    if (r.err.empty() != o.err.empty()) c.fail("%s: %s", what, r.err.empty() ? ("refused: " + o.err.substr(0, 200)).c_str() : "accepted, though otherwise refused");
    return !c.nfail;
  }
  for (size_t k = 0; k < r.at.size(); ++k) {
    if (based && k >= 6) break;  // refinement takes zero-based matrices
    const size_t e = k + 1 < r.at.size() ? r.at[k + 1] : r.b.size();
    if (o.at.size() != r.at.size() || o.at[k] != r.at[k] || std::memcmp(&r.b[r.at[k]], &o.b[r.at[k]], e - r.at[k])) {
      c.fail("%s: the %s differs", what, part_name(k));
      return false;
    }
  }
  return true;
}
// equal values under all integer types of matrix and object, bases and interfaces
template <bool ROW, class V, class I, class J> struct Src {
  typedef typename std::conditional<ROW, hif::CRS<V, I, J>, hif::CCS<V, I, J>>::type type;
};
template <class V, class H, class Cs> static bool type_pair(mc::Case &c, const Out &r, const Mat<T> &A, const hif::Params &p, size_t m0, bool full, int no, const char *what) {
  static const char *nm[] = {"", " (one-based)", " (as arrays)", " (one-based arrays)"};
  for (int k = 0; k < 4; ++k)  // all in the thorough tier, otherwise by turns
    if (mc::thorough() || (no * 4 + k + 7 * c.idx) % 6 == 0)
      if (!same(c, r, run<V, H>(to_cs<Cs>(A, k & 1, full), p, m0, k >> 1), k & 1, (what + std::string(nm[k])).c_str())) return false;
  return true;
}
template <bool ROW, class V> static void types(mc::Case &c, const Mat<T> &A, const hif::Params &p, size_t m0, bool full) {
  typedef typename Src<ROW, V, int, P>::type     C0;
  typedef typename Src<ROW, V, int, int>::type   C1;
  typedef typename Src<ROW, V, long, long>::type C2;
  typedef hif::HIF<V, int, P>     H0;
  typedef hif::HIF<V, int, int>   H1;
  typedef hif::HIF<V, long, long> H2;
  C0  a = to_cs<C0>(A, 0, full);
  Out r = run<V, H0>(a, p, m0, false);
  c.state(mc::hash_bytes(r.b.data(), r.b.size()));
  type_pair<V, H0, C0>(c, r, A, p, m0, full, 0, "32-bit indices") && type_pair<V, H0, C1>(c, r, A, p, m0, full, 1, "32-bit starting positions into 64-bit ones") &&
      type_pair<V, H0, C2>(c, r, A, p, m0, full, 2, "64-bit indices into 32-bit ones") &&
      type_pair<V, H1, C0>(c, r, A, p, m0, full, 3, "64-bit starting positions into 32-bit ones") && type_pair<V, H1, C1>(c, r, A, p, m0, full, 4, "32-bit integers") &&
      type_pair<V, H1, C2>(c, r, A, p, m0, full, 5, "64-bit integers into 32-bit ones") &&
      type_pair<V, H2, C0>(c, r, A, p, m0, full, 6, "32-bit indices into 64-bit ones") && type_pair<V, H2, C1>(c, r, A, p, m0, full, 7, "32-bit integers into 64-bit ones") &&
      type_pair<V, H2, C2>(c, r, A, p, m0, full, 8, "64-bit integers");
}
// single-precision preconditioners of double-precision systems
template <bool ROW> static void mixed(mc::Case &c, const Mat<T> &A, const hif::Params &p, size_t m0, bool exact) {
  typedef typename std::conditional<ROW, hif::CRS<S, int, P>, hif::CCS<S, int, P>>::type CS;
  typedef typename std::conditional<ROW, hif::CRS<T, int, P>, hif::CCS<T, int, P>>::type CT;
  typedef hif::HIF<S, int, P> H;
  const int n = A.n;
  CT  a = to_cs<CT>(A);
  CS  s = to_cs<CS>(A);
  // the values are rounded, nothing else
  Out r = run<T, H>(s, p, m0, false), q = run<T, H>(a, p, m0, false);
  if (r.at.size() == 8) r.at.resize(6), r.b.resize(q.at.size() == 8 ? q.at[6] : 0), q.b.resize(r.b.size()), q.at.resize(6);
  if (!same(c, r, q, false, "double-precision matrix, single-precision preconditioner")) return;
  c.state(mc::hash_bytes(r.b.data(), r.b.size()));
  H h;
  try {
    h.factorize(a, p, m0);
  } catch (const std::exception &) { return; }
  // single- and double-precision vectors
  Mat<T> X = solve_op<T>(h, n, false), M = mult_op<T>(h, n, false), Xt = solve_op<T>(h, n, true);
  if (!finite(X) || !finite(M)) return;
  Mat<S> Xs = solve_op<S>(h, n, false);
  double growth = nrm(X) * nrm(M) * n;
  if (!(growth < 1e5)) {
    c.skip("ill-conditioned");
    return;
  }
  double d = 0;
  for (size_t i = 0; i < X.v.size(); ++i) d = std::max(d, (double)std::abs(X.v[i] - T(Xs.v[i])));
  // (the forward error of either is bounded by the condition of the triangular factors, which pivoting and deferring keep moderate)
  if (d > 1e-7 * 40 * n * growth * nrm(X)) {
    c.fail("solutions in single and double precision differ by %g (norm %g)", d, nrm(X));
    return;
  }
  c.validated();
  if (!exact) return;
  // refinement in double precision with the single-precision preconditioner
  Mat<T> E = mul(A, X), Et = mul(adj(A), Xt);
  for (int i = 0; i < n; ++i) E(i, i) -= T(1), Et(i, i) -= T(1);
  double e = 0, et = 0, an = 0, xn = 0;
  for (int i = 0; i < n; ++i) {
    double u = 0, v = 0, w = 0;
    for (int j = 0; j < n; ++j) u += std::abs(E(i, j)), v += std::abs(Et(i, j)), w += std::abs(A(i, j));
    e = std::max(e, u), et = std::max(et, v), an = std::max(an, w);
  }
  for (int tr = 0; tr < 2; ++tr) {
    if (!((tr ? et : e) < 0.01)) {
      c.skip("too inaccurate for refinement");
      continue;
    }
    hif::Array<T> b(n), x(n);
    double        bn = 0, rn = 0;
    for (int i = 0; i < n; ++i) b[i] = Mk<T>::mk(1.0 / (3 + i), (i % 3 - 1) / 7.0), x[i] = T(0), bn = std::max(bn, (double)std::abs(b[i]));
    h.hifir(a, b, 14, x, tr);
    c.transition();
    for (int i = 0; i < n; ++i) {
      T s = b[i];
      for (int j = 0; j < n; ++j) s -= (tr ? conj_(A(j, i)) : A(i, j)) * x[j];
      rn = std::max(rn, (double)std::abs(s)), xn = std::max(xn, (double)std::abs(x[i]));
    }
    c.validated();
    if (!(rn <= 1e-15 * 50 * n * (an * n * xn + bn))) {
      c.fail("%srefinement in double precision stops at residual %g (right-hand side %g, solution %g, ||A|| %g, contraction %g)", tr ? "transposed " : "", rn, bn, xn, an, tr ? et : e);
      return;
    }
  }
}
static void go(mc::Case &c, const Mat<T> &A, const std::vector<hif::Params> &cfgs, size_t m0, bool symm, bool exact) {
  const size_t rot = mc::thorough() || cfgs.size() == 1 ? 1 : 8;
  for (size_t k = 0; k < cfgs.size(); ++k) {
    if ((k + c.idx + c.idx / 16) % rot) continue;
    auto p = cfgs[k];
    if (symm) p.is_symm = 1;
    const int v = (k / rot + c.idx) % 4;
    const bool f = (k + c.idx / 3) % 5 == 1;
    c.desc("%s m0=%d %s %s", show(A).substr(0, 400).c_str(), (int)m0, v % 2 ? "rows" : "columns", cfg_str(p).c_str());
#if PART == 1
    if (v % 2) types<true, T>(c, A, p, m0, f);
    else types<false, T>(c, A, p, m0, f);
#elif PART == 2
    if (v % 2) mixed<true>(c, A, p, m0, exact);
    else mixed<false>(c, A, p, m0, exact);
#endif
    if (c.nfail) return;
  }
}
int main(int argc, char **argv) {
  using mc::Family;
  std::vector<Family> F;
  auto c1 = configs_drop(1), e1 = configs_exact(1), e0 = configs_exact(0);
  auto all = c1;
  all.insert(all.end(), e0.begin(), e0.end());
  const int th = mc::thorough();
  F.push_back({"pat3", "all 3x3 patterns x 2 tables, dropping configurations", 512 * 2, [=](mc::Case &c) { go(c, by_pattern<T>(3, c.idx / 2, c.idx % 2), c1, 0, false, false); }});
  F.push_back({"pat3x", "all 3x3 patterns x 2 tables (rounded values), configurations without dropping", 512 * 2, [=](mc::Case &c) {
                 Mat<T> A = by_pattern<T>(3, c.idx / 2, c.idx % 2);
                 for (auto &x : A.v) x *= 1.1;
                 go(c, A, e1, 0, false, true);
               }});
  F.push_back({"sym3", "all Hermitian 3x3 patterns x 3 tables, symmetric mode", 64 * 3, [=](mc::Case &c) { go(c, herm_pattern<T>(3, c.idx / 3, c.idx % 3), all, 0, true, false); }});
  F.push_back({"m0", "3x3 patterns with symmetric leading blocks of every size", 512 * 3, [=](mc::Case &c) {
                 Mat<T> A = by_pattern<T>(3, c.idx / 3, 0);
                 for (int i = 0; i < (int)(1 + c.idx % 3); ++i)
                   for (int j = 0; j < i; ++j) A(i, j) = A(j, i);
                 go(c, A, e0, 1 + c.idx % 3, false, true);
               }});
  F.push_back({"large", "20 structure classes x sizes {48,77} (thorough 130) x 6 configurations, rotating, general and symmetric mode", NSTRUCT * (th ? 18 : 12), [=](mc::Case &c) {
                 static const int nl[] = {48, 77, 130};
                 auto        drops = configs_drop(2);
                 int         kind = c.idx % NSTRUCT, n = nl[c.idx / NSTRUCT % (th ? 3 : 2)], k = c.idx / NSTRUCT * 7 + kind;
                 Mat<T> A = structured<T>(kind, n);
                 for (auto &x : A.v) x *= 1.0 / 3;
                 go(c, A, {drops[k % drops.size()]}, 0, false, false);
                 if (c.idx % 3 == 0 && !c.nfail) go(c, hermitize(A), {drops[k % drops.size()]}, 0, true, false);
               }});
  static const int ns[] = {5, 12, 31, 40};
  auto drops = configs_drop(th ? 2 : 0), exs = configs_exact(th ? 1 : 0);
  const uint64_t nd = drops.size(), ne = exs.size();
  F.push_back({"struct", "20 structure classes x sizes {5,12,31} (40 thorough) x configurations", NSTRUCT * (3 + th) * (nd + ne), [=](mc::Case &c) {
                 int kind = c.idx % NSTRUCT, n = ns[c.idx / NSTRUCT % (3 + th)], k = c.idx / NSTRUCT / (3 + th);
                 Mat<T> A = structured<T>(kind, n);
                 for (auto &x : A.v) x *= 1.0 / 3;
                 go(c, A, {k < (int)nd ? drops[k] : exs[k - nd]}, 0, false, k >= (int)nd);
                 if (k % 3 == 0 && !c.nfail) go(c, hermitize(A), {k < (int)nd ? drops[k] : exs[k - nd]}, 0, true, k >= (int)nd);
               }});
  return mc::drive(argc, argv, F);
}
