// P13: malformed systems and mismatched vectors are refused with an exception, memory-safely and without side effects;
// well-formed ones are accepted.
#include "spaces.hpp"
using namespace hx;
typedef double T;

struct Raw {
  int              n, m;  // rows, columns
  std::vector<int> ip;
  std::vector<int> ix;
  int              nv;  // length of the value array
};
static std::string show(const Raw &r) {
  std::ostringstream o;
  o << r.n << "x" << r.m << " start=[";
  for (int x : r.ip) o << x << " ";
  o << "] indices=[";
  for (int x : r.ix) o << x << " ";
  o << "] values: " << r.nv;
  return o.str();
}
static bool valid(const Raw &r, bool row) {
  const int np = row ? r.n : r.m, ns = row ? r.m : r.n;
  if (r.n != r.m) return false;
  if ((int)r.ip.size() < np + 1) return false;
  const int b = r.ip[0];
  if (b != 0 && b != 1) return false;
  for (int i = 0; i < np; ++i)
    if (r.ip[i + 1] < r.ip[i]) return false;
  if (r.ip[np] - b > (int)r.ix.size() || r.ip[np] - b > r.nv) return false;
  for (int i = 0; i < np; ++i)
    for (int k = r.ip[i] - b; k < r.ip[i + 1] - b; ++k) {
      if (r.ix[k] < b || r.ix[k] >= ns + b) return false;
      if (k > r.ip[i] - b && r.ix[k] <= r.ix[k - 1]) return false;
    }
  return true;
}

template <class Cs, class V> static void run_raw(mc::Case &c, const Raw &r, size_t m0 = 0) {
  c.desc("%s %s m0=%zu %s", Cs::ROW_MAJOR ? "CRS" : "CCS", sizeof(V) == 4 ? "single" : "double", m0, show(r).c_str());
  Cs S;
  S.resize(r.n, r.m);
  S.ind_start().resize(r.ip.size());
  for (size_t i = 0; i < r.ip.size(); ++i) S.ind_start()[i] = r.ip[i];
  S.inds().resize(r.ix.size());
  for (size_t i = 0; i < r.ix.size(); ++i) S.inds()[i] = r.ix[i];
  S.vals().resize(r.nv);
  for (int i = 0; i < r.nv; ++i) S.vals()[i] = V(2 + i * 1.5 - (i % 2) * 5);
  const bool  ok = valid(r, Cs::ROW_MAJOR) && m0 <= (size_t)r.n;
  hif::HIF<T> M;
  // a used object must not keep its old contents when the input is refused
  static const auto &old = *new hif::CRS<T, int>(to_cs<hif::CRS<T, int>>(by_pattern<T>(3, 511, 0)));
  hif::Params        p   = base_params();
  if (c.idx % 2) M.factorize(old, p);
  bool rej = false;
  if (c.idx % 3 == 0) multilevel(p);
  p.pivot = c.idx % 5 % 3;
  try {
    M.factorize(S, p, m0);
  } catch (const std::runtime_error &) {
    rej = true;
  }
  c.transition();
  // arrays longer than the starting positions say are left open: accepted or refused, but never half
  const int  np = Cs::ROW_MAJOR ? r.n : r.m;
  const bool open = ok && ((int)r.ix.size() != r.ip[np] - r.ip[0] || r.nv != (int)r.ix.size() || (int)r.ip.size() != np + 1);
  c.outcome(rej * 2 + ok + 4 * open);
  if (rej == ok && !open) {
    c.fail("%s", ok ? "a well-formed system is refused" : "a malformed system is accepted");
    return;
  }
  if (rej) {
    if (!M.empty() || M.levels() || M.nnz()) c.fail("a refused system leaves a non-empty preconditioner");
    bool refused = false;
    hif::Array<T> b(3), x(3);
    try {
      M.solve(b, x);
    } catch (const std::runtime_error &) {
      refused = true;
    }
    if (!refused) c.fail("solving after a refused factorization is not refused");
    try {
      M.factorize(old, base_params());
    } catch (const std::runtime_error &) {
      c.fail("a good system is refused after a bad one");
    }
    c.validated();
    return;
  }
  // accepted: the matrix is the one described
  Mat<T> A = from_cs<T>(S), I;
  if (r.n && gj(A, &I) == r.n) {
    Mat<T> X = solve_op<T>(M, r.n, false);
    hif::Params q = p;
    if (q.tau_L == 0 || r.n <= 2) {  // at this size nothing is dropped unless tiny
      if (!(diff(mul(A, X), eye<T>(r.n)) <= 1e-3 * (1 + nrm(I) * nrm(A)))) c.skip("dropping changed the operator");
      else c.validated();
    }
  } else
    c.validated();
}
static void run_both(mc::Case &c, const Raw &r, size_t m0 = 0) {
  if (c.idx % 4 < 2 || mc::thorough()) run_raw<hif::CRS<T, int>, T>(c, r, m0);
  if (c.nfail) return;
  if (c.idx % 4 == 1 || c.idx % 4 == 2 || mc::thorough()) run_raw<hif::CCS<T, int>, T>(c, r, m0);
  if (c.nfail) return;
  if (c.idx % 4 == 3 || mc::thorough()) run_raw<hif::CRS<float, int>, float>(c, r, m0);
  if (c.nfail) return;
  if ((c.idx % 4 == 3 || mc::thorough()) && c.idx % 8 > 3) run_raw<hif::CCS<float, int>, float>(c, r, m0);
}

// ---- vectors of wrong sizes ----
enum { NCALL = 11 };
static const char *call_name[] = {"solve", "transposed solve", "multiply", "transposed multiply", "solve of 2 right-hand sides", "refinement", "transposed refinement", "refinement with bounds", "refinement, one step", "refinement with bounds, one step", "solve(r=-1)"};
static void run_size(mc::Case &c) {
  static const int ns[] = {1, 2, 3, 5, 9};
  uint64_t         i = c.idx;
  const int        call = i % NCALL;
  i /= NCALL;
  const int n = ns[i % 5];
  i /= 5;
  const int nb = i % 13;
  i /= 13;
  const int nx = i % 13;
  i /= 13;
  const bool    emp = i % 2;
  c.desc("%s with a right-hand side of size %d and a solution of size %d, %s n=%d", call_name[call], nb, nx, emp ? "empty preconditioner," : "preconditioner of size", n);
  hif::HIF<T> M;
  hif::Params p = base_params();
  if (n > 3) multilevel(p), p.kappa = p.kappa_d = 1.4, p.rf_par = 0;
  auto S = to_cs<hif::CRS<T, int>>(structured<T>(n < 3 ? 0 : 4, n));
  if (!emp) M.factorize(S, p);
  hif::Array<T> b(nb), x(nx);
  for (int k = 0; k < nb; ++k) b[k] = k + 1;
  for (int k = 0; k < nx; ++k) x[k] = -7;
  const double be[] = {1e-9, 1e9};
  bool         rej  = false;
  try {
    switch (call) {
      case 0: M.solve(b, x); break;
      case 1: M.solve(b, x, true); break;
      case 2: M.mmultiply(b, x); break;
      case 3: M.mmultiply(b, x, true); break;
      case 4: {
        hif::Array<std::array<T, 2>> B(nb), X(nx);
        for (int k = 0; k < nb; ++k) B[k] = {1., 2.};
        M.solve_mrhs(B, X);
        break;
      }
      case 5: M.hifir(S, b, 3, x); break;
      case 6: M.hifir(S, b, 3, x, true); break;
      case 7: M.hifir(S, b, 3, be, x); break;
      case 8: M.hifir(S, b, 1, x); break;
      case 9: M.hifir(S, b, 1, be, x); break;
      case 10: M.solve(b, x, false, (size_t)-1); break;
    }
  } catch (const std::runtime_error &) {
    rej = true;
  }
  c.transition();
  c.outcome(rej);
  const bool ok = !emp && nb == n && nx == n;
  if (rej == ok) c.fail("%s", ok ? "matching sizes are refused" : "mismatched sizes (or an empty preconditioner) are accepted");
  if (rej)
    for (int k = 0; k < nx; ++k)
      if (x[k] != -7 && call != 4) c.fail("a refused call changed the output vector");
  if (!emp) {  // the object is as before
    hif::Array<T> bb(n), xx(n), yy(n);
    for (int k = 0; k < n; ++k) bb[k] = k + 1;
    M.solve(bb, xx);
    hif::HIF<T> N;
    N.factorize(S, p);
    N.solve(bb, yy);
    for (int k = 0; k < n; ++k)
      if (!(xx[k] == yy[k])) c.fail("a refused call changes later results");
  }
  c.validated();
}

int main(int argc, char **argv) {
  using mc::Family;
  const bool          th = mc::thorough();
  std::vector<Family> F;
  {
    // 2x2: every starting array and every index array
    const int VI = 6, VX = 5;  // starts -1..4, indices -1..3
    uint64_t  N = 0;
    for (int L = 0; L <= 3; ++L) N += ipow(VX, L);
    F.push_back({"two", "2x2: all starting arrays over {-1..4}^3 x all index arrays over {-1..3} of length 0..3 x value arrays shorter by one, equal, longer by one", ipow(VI, 3) * N * 3, [=](mc::Case &c) {
                   uint64_t i = c.idx;
                   Raw      r;
                   r.n = r.m = 2;
                   int dv = (int)(i % 3) - 1;
                   i /= 3;
                   for (int k = 0; k < 3; ++k) r.ip.push_back((int)(i % VI) - 1), i /= VI;
                   int L = 0;
                   while (i >= ipow(VX, L)) i -= ipow(VX, L), ++L;
                   for (int k = 0; k < L; ++k) r.ix.push_back((int)(i % VX) - 1), i /= VX;
                   r.nv = std::max(0, L + dv);
                   run_both(c, r);
                 }});
  }
  F.push_back({"one", "1x1 and 0x0: all starting arrays over {-2..3} and index arrays over {-2..3} of length 0..2", 2 * 36 * 43 * 2, [=](mc::Case &c) {
                 uint64_t i = c.idx;
                 Raw      r;
                 r.n = r.m = i % 2;
                 i /= 2;
                 bool sh = i % 2;
                 i /= 2;
                 r.ip.push_back((int)(i % 6) - 2), i /= 6;
                 r.ip.push_back((int)(i % 6) - 2), i /= 6;
                 if (r.n == 0) r.ip.pop_back();
                 int L = i < 1 ? 0 : i < 7 ? 1 : 2;
                 i -= L == 0 ? 0 : L == 1 ? 1 : 7;
                 for (int k = 0; k < L; ++k) r.ix.push_back((int)(i % 6) - 2), i /= 6;
                 r.nv = sh && L ? L - 1 : L;
                 if (r.n == 0) {
                   c.skip("order zero (left open)");
                   return;
                 }
                 run_both(c, r);
               }});
  F.push_back({"three", "all 3x3 patterns, zero- and one-based, one entry of the starting or index array replaced by every value of {-3..6} or the starting array cut, or the value array cut", 512 * 2 * (4 * 10 + 9 * 10 + 2), [=](mc::Case &c) {
                 const int per = 4 * 10 + 9 * 10 + 2;
                 int       mu = c.idx % per;
                 uint64_t  bits = c.idx / per / 2;
                 int       base = c.idx / per % 2;
                 auto      S = to_cs<hif::CRS<T, int>>(by_pattern<T>(3, bits, 0), base);
                 Raw       r;
                 r.n = r.m = 3;
                 for (size_t k = 0; k < 4; ++k) r.ip.push_back(S.ind_start()[k]);
                 for (size_t k = 0; k < S.inds().size(); ++k) r.ix.push_back(S.inds()[k]);
                 r.nv = r.ix.size();
                 if (mu < 40) r.ip[mu / 10] = mu % 10 - 3;
                 else if (mu < 130) {
                   if ((mu - 40) / 10 >= (int)r.ix.size()) return;
                   r.ix[(mu - 40) / 10] = (mu - 40) % 10 - 3;
                 } else if (mu == 130) r.ip.pop_back();
                 else if (r.nv) --r.nv;
                 run_both(c, r);
               }});
  F.push_back({"large", "orders 20, 48, 77 and 130 x 3 structures x zero- and one-based x 9 kinds of corruption of one entry x 24 places", 4 * 3 * 2 * 9 * 24 * 4, [=](mc::Case &c) {
                 uint64_t  k    = c.idx / 4;
                 auto      take = [&](int q) { int r = k % q; k /= q; return r; };
                 const int place = take(24), kind = take(9), base = take(2), st = take(3), n = std::vector<int>{20, 48, 77, 130}[take(4)];
                 if (kind == 0 && place > 1) return;
                 Raw r;
                 r.n = r.m = n;
                 r.ip.push_back(base);
                 for (int i = 0; i < n; ++i) {
                   for (int j = 0; j < n; ++j)
                     if (i == j || (st == 0 ? std::abs(i - j) == 1 : st == 1 ? i == n - 1 || j == n - 1 : mc::mix(i * 200 + j, 3) % 8 == 0)) r.ix.push_back(j + base);
                   r.ip.push_back(r.ix.size() + base);
                 }
                 r.nv        = r.ix.size();
                 const int p = place == 23 ? r.ix.size() - 1 : place * r.ix.size() / 23, s = place == 23 ? n : place * n / 23;
                 switch (kind) {
                   case 1: r.ix[p] = base - 1; break;
                   case 2: r.ix[p] = n + base; break;
                   case 3: r.ix[p] = 1 << 20; break;
                   case 4: r.ix[p] = -(1 << 20); break;
                   case 5: if (p) r.ix[p] = r.ix[p - 1]; break;  // in most places a repetition
                   case 6: if (p) std::swap(r.ix[p], r.ix[p - 1]); break;
                   case 7: r.ip[s] = s ? r.ip[s - 1] - 1 : 2; break;
                   case 8: r.ip[s] = r.ix.size() + 3; break;
                 }
                 run_both(c, r);
               }});
  F.push_back({"shape", "all shapes up to 4x4 of full matrices x leading block sizes 0..6 and huge", 25 * 8, [=](mc::Case &c) {
                 int i = c.idx / 8, nr = i % 5, nc = i / 5;
                 static const size_t m0s[] = {0, 1, 2, 3, 4, 5, 6, (size_t)-1};
                 if (nr == 0 && nc == 0) {
                   c.skip("order zero (left open)");
                   return;
                 }
                 Raw r, q;
                 r.n = q.n = nr, r.m = q.m = nc;
                 r.nv = q.nv = nr * nc;
                 r.ip.push_back(0), q.ip.push_back(0);
                 for (int a = 0; a < nr; ++a) {
                   for (int b = 0; b < nc; ++b) r.ix.push_back(b);
                   r.ip.push_back(r.ix.size());
                 }
                 for (int a = 0; a < nc; ++a) {
                   for (int b = 0; b < nr; ++b) q.ix.push_back(b);
                   q.ip.push_back(q.ix.size());
                 }
                 const size_t m0 = m0s[c.idx % 8];
                 if (m0 && m0 <= (size_t)nr && nr == nc) return;  // unsymmetric leading blocks: a precondition
                 run_raw<hif::CRS<T, int>, T>(c, r, m0);
                 if (!c.nfail) run_raw<hif::CCS<T, int>, T>(c, q, m0);
               }});
  F.push_back({"size", "11 calls x 5 systems x right-hand sides of size 0..12 x solutions of size 0..12 x factorized or empty", NCALL * 5 * 13 * 13 * 2, [=](mc::Case &c) { run_size(c); }});
  (void)th;
  return mc::drive(argc, argv, F);
}
