// P27: computations in parallel regions give what one thread gives, bit by bit, for every requested and every granted number
// of threads and every schedule, and are free of data races.
#include "mc.hpp"
#include "sched.hpp"
#define HIF_THROW
#include "hifir.hpp"
#include <cmath>
#include <complex>
#include <cstring>
typedef std::complex<double> cd;
typedef std::ptrdiff_t       P;
typedef hif::CRS<double, int, P> Crs;
typedef hif::CCS<double, int, P> Ccs;

template <class T> static T num(int i, int j);
template <> double num<double>(int i, int j) { return ((i * 7 + j * 13) % 11 - 5) * 0.37 + 0.1 / (1 + i + j); }
template <> float  num<float>(int i, int j) { return (float)num<double>(i, j); }
template <> cd     num<cd>(int i, int j) { return cd(num<double>(i, j), num<double>(j, i + 1)); }
template <class Cs, class F> static Cs make(int n, int m, F f) {  // f(i, j): stored?
  typedef typename Cs::value_type T;
  Cs S;
  S.resize(n, m);
  const int pri = Cs::ROW_MAJOR ? n : m, sec = Cs::ROW_MAJOR ? m : n;
  S.ind_start().resize(pri + 1);
  S.ind_start()[0] = 0;
  std::vector<int> ix;
  std::vector<T>   vs;
  for (int i = 0; i < pri; ++i) {
    for (int j = 0; j < sec; ++j) {
      const int r = Cs::ROW_MAJOR ? i : j, c = Cs::ROW_MAJOR ? j : i;
      if (f(r, c)) ix.push_back(j), vs.push_back(num<T>(r, c));
    }
    S.ind_start()[i + 1] = ix.size();
  }
  S.inds().resize(ix.size()), S.vals().resize(ix.size());
  std::copy(ix.begin(), ix.end(), S.inds().begin());
  std::copy(vs.begin(), vs.end(), S.vals().begin());
  return S;
}
template <class A> static bool same(const A &a, const A &b) {
  return a.size() == b.size() && (a.size() == 0 || !std::memcmp(a.data(), b.data(), a.size() * sizeof(a[0])));
}
template <class Cs> static const char *differ(const Cs &a, const Cs &b) {
  if (a.nrows() != b.nrows() || a.ncols() != b.ncols()) return "shape";
  if (!same(a.ind_start(), b.ind_start())) return "starting positions";
  if (!same(a.inds(), b.inds())) return "indices";
  if (!same(a.vals(), b.vals())) return "values";
  return 0;
}
static int fact(int n) { return n < 2 ? 1 : n * fact(n - 1); }
// a parallel execution under a plan; false after a reported violation
template <class F> static bool execute(mc::Case &c, const sched::Plan &p, F run, sched::Report *out = 0) {
  sched::begin(p);
  bool        thrown = false;
  std::string what;
  try {
    run();
  } catch (const std::exception &e) { thrown = true, what = e.what(); }
  sched::Report r = sched::end();
  c.transition(1 + r.switches);
  if (r.error.size()) c.fail("%s", r.error.c_str());
  if (thrown) c.fail("exception: %.200s", what.c_str());
  if (out) *out = r;
  return !c.nfail;
}

// ---- matrix-vector products ----
struct MV {
  int n, m, pat;
};
static const int NPATS = 4;
static bool stored(const MV &s, int i, int j) {
  if (s.n >= 1000) return s.pat == 0 ? i == j : s.pat == 1 ? j == 0 && i % 3 : s.pat == 2 ? i == (int)s.n - 1 : false;
  return s.pat == 0 ? true : s.pat == 1 ? (i != s.n / 2) : s.pat == 2 ? i == s.n - 1 : i == 0;  // few rows hold all the entries
}
template <class T, class V> static void matvec(mc::Case &c, const MV &s, int req, int del, int mode) {
  typedef hif::CRS<T, int, P> M;
  M A = make<M>(s.n, s.m, [&](int i, int j) { return stored(s, i, j); });
  hif::Array<V> x(s.m), y0(s.n), y(s.n);
  hif::Array<std::array<V, 2>> x2(s.m), z0(s.n), z(s.n);
  for (int j = 0; j < s.m; ++j) x[j] = num<V>(j, 3), x2[j][0] = num<V>(j, 4), x2[j][1] = num<V>(j, 5);
  A.multiply_nt(x, y0);
  A.multiply_mrhs_nt(x2, z0);
  hif::mt::get_nthreads(req);
  const int T_ = std::min(req, del);
  auto one = [&](sched::Plan p, int what, sched::Report *rp) -> bool {
    p.deliver = del;
    std::fill(y.begin(), y.end(), V(77));
    for (auto &q : z) q[0] = q[1] = V(77);
    if (!execute(c, p,
                 [&] {
                   if (what == 0) hif::mt::multiply_nt(A, x, y);
                   else if (what == 1) hif::mt::multiply_nt_low(A, x.data(), y.data());
                   else if (what == 2) hif::mt::multiply_mrhs_nt(A, x2, z);
                   else if (s.n) hif::mt::multiply_mrhs_nt_low<2>(A, x2[0].data(), z[0].data());
                 },
                 rp))
      return false;
    c.validated();
    if (what < 2 ? !same(y, y0) : !same(z, z0)) {
      c.fail("kernel %d: the product with %d threads granted differs from that of one thread", what, del);
      return false;
    }
    return true;
  };
  for (int what = 0; what < 4; ++what) {
    sched::Report r;
    const int no = T_ <= 4 ? fact(T_) : 2;
    for (int o = 0; o < no; ++o) {
      sched::Plan p;
      p.order = {T_ <= 4 ? o : o ? 0 : T_ - 1};
      if (!one(p, what, &r)) return;
      c.state(mc::hash_bytes(&r.steps, sizeof r.steps) + what);
    }
    if (mode && T_ > 1 && T_ <= 3) {
      // all single preemptions
      const long n = r.steps;
      for (long k = 1; k <= n; ++k)
        for (int t = 0; t < T_; ++t) {
          sched::Plan p;
          p.preempt = {{k, t}};
          if (!one(p, what, &r)) return;
          if (mode > 1)
            for (long q = k + 1; q <= n; ++q) {
              p.preempt = {{k, t}, {q, (t + 1) % T_}};
              if (!one(p, what, &r)) return;
            }
        }
    }
  }
}

// ---- Schur complement ----
// N offset rows; L_E: dense in the first 60 columns whose U rows are (nearly) empty, U_F: the remaining rows are dense
static const int NU = 6, NC = 5;
template <class T> static void schur(mc::Case &c, int N, int up, int cp, int req, int del, const std::vector<int> &order) {
  typedef hif::CRS<T, int, P> M;
  const int m = 112, n = m + N;
  M L_E = make<M>(N, m, [&](int i, int j) { return j < 56 && !(up == 5 && i % 7 == 0 && j % 9); });
  M U_F = make<M>(m, N, [&](int i, int j) {
    if (i >= 56) return true;
    switch (up) {
      case 0: return false;
      case 1: return j == i * 3;
      case 2: return j == 0;
      case 3: return j == N - 1 && i % 2;
      case 4: return j == (i * 37) % N || j == N / 2;
      default: return i == 9 && j % 2;
    }
  });
  hif::BiPermMatrix<int> p, q;
  p.resize(n), q.resize(n);
  for (int i = 0; i < n; ++i) p[i] = (i * 3 + 1) % n, q[i] = n - 1 - i;
  if (n % 3 == 0) for (int i = 0; i < n; ++i) p[i] = (i + 5) % n;
  p.build_inv(), q.build_inv();
  M A = make<M>(n, n, [&](int i, int j) {
    const int a = p.inv(i) - m, b = q.inv(j) - m;
    if (a < 0) return i == j;
    switch (cp) {
      case 0: return b < 0 && j == 0;
      case 1: return a == b;
      case 2: return a == 3 || b == 5;
      case 3: return a == N - 1;
      default: return b >= 0 && (a * 5 + b) % 29 == 0;
    }
  });
  hif::Array<T> d(m);
  typedef typename hif::ValueTypeTrait<T>::value_type R;
  hif::Array<R> s(n), t(n);
  for (int i = 0; i < n; ++i) s[i] = 1 + (i % 5) * 0.25, t[i] = 2 - (i % 3) * 0.5;
  for (int i = 0; i < m; ++i) d[i] = num<T>(i, i + 2);
  hif::SparseVector<T, int> buf(n);
  const M S0 = hif::compute_Schur_simple(s, A, t, p, q, (typename M::size_type)m, L_E, d, U_F, buf);
  hif::SparseVector<T, int> buf2(n);
  sched::Plan pl;
  pl.deliver = del, pl.order = order;
  M S;
  sched::Report r;
  if (!execute(c, pl, [&] { S = hif::mt::compute_Schur_simple(s, A, t, p, q, (typename M::size_type)m, L_E, d, U_F, buf2, req); }, &r)) return;
  c.validated();
  c.state(mc::hash_bytes(S.vals().data(), S.vals().size() * sizeof(T)) + r.phases * 31 + r.max_team);
  if (r.region_requests == 0) c.skip("computed without a parallel region");
  const char *w = differ(S, S0);
  if (w) c.fail("the Schur complement with %d of %d threads granted differs from that of one thread (%s)", del, req, w);
}

// ---- dropping of the offsets ----
static void drop(mc::Case &c, int n, int pat, double aL, double aU, int req, int del, const std::vector<int> &order) {
  const int m = 9;
  auto fL = [&](int i, int j) { return pat == 0 ? true : pat == 1 ? j < i % 10 : pat == 2 ? (i + j) % 3 == 0 : i == 0 || i == n - 1; };
  auto fU = [&](int i, int j) { return pat == 0 ? true : pat == 1 ? i < (j + 5) % 10 : pat == 2 ? (i + j) % 2 == 0 : j == n / 2; };
  Crs L = make<Crs>(n, m, fL), L0 = make<Crs>(n, m, fL);
  Ccs U = make<Ccs>(m, n, fU), U0 = make<Ccs>(m, n, fU);
  hif::Array<P> rL(n + 1), rU(n + 1);
  rL[0] = rU[0] = 0;
  for (int i = 0; i < n; ++i) rL[i + 1] = rL[i] + 1 + i % 4, rU[i + 1] = rU[i] + 1 + (i / 2) % 5;
  hif::Array<double> bL(n + m), bU(n + m), b1(n + m), b2(n + m);
  hif::Array<int>    iL(n + m), iU(n + m), i1(n + m), i2(n + m);
  hif::drop_L_E(rL, aL, L0, b1, i1);
  hif::drop_U_F(rU, aU, U0, b2, i2);
  sched::Plan pl;
  pl.deliver = del, pl.order = order;
  sched::Report r;
  if (!execute(c, pl, [&] { hif::mt::drop_L_E_and_U_F(rL, aL, rU, aU, L, U, bL, iL, bU, iU, req); }, &r)) return;
  c.validated();
  c.state(mc::hash_bytes(L.vals().data(), L.vals().size() * 8) ^ r.max_team);
  const char *w = differ(L, L0);
  if (w) {
    c.fail("L_E dropped with %d of %d threads granted differs from that of one thread (%s)", del, req, w);
    return;
  }
  w = differ(U, U0);
  if (w) c.fail("U_F dropped with %d of %d threads granted differs from that of one thread (%s)", del, req, w);
}

// ---- whole factorizations ----
static const int NKERN = 3;
typedef hif::HIF<double, int> Hif;
static void whole(mc::Case &c, int kern, int req, int del, int ord) {
  const int N = 250, m = 112, n = N + m;
  Crs A = make<Crs>(n, n, [&](int i, int j) {
    if (i == j) return true;
    if (i < m && j < m) return false;
    if (i >= m && j < m) return j < 56;
    if (i < m) return i >= 56 || (i == 7 && j % 5 == 0);
    return (i * 3 + j) % 61 == 0;
  });
  if (kern == 2) {  // symmetric
    A = make<Crs>(n, n, [&](int i, int j) { return i == j || (std::max(i, j) >= m && std::min(i, j) < 56); });
    for (int i = 0; i < n; ++i)
      for (auto k = A.row_start()[i]; k < A.row_start()[i + 1]; ++k) {
        const int j = A.col_ind()[k];
        A.vals()[k] = num<double>(std::max(i, j), std::min(i, j)) * 0.01;
      }
  }
  for (int i = 0; i < n; ++i)
    for (auto k = A.row_start()[i]; k < A.row_start()[i + 1]; ++k)
      if (A.col_ind()[k] == i) A.vals()[k] = 4 + i % 3;
  hif::Params o = hif::DEFAULT_PARAMS;
  o.verbose = hif::VERBOSE_NONE;
  o.tau_L = o.tau_U = 1e-6, o.alpha_L = o.alpha_U = 0.95;
  o.kappa = o.kappa_d = 100;
  o.reorder = 0, o.no_pre = kern != 2;
  o.pivot = kern == 1 ? hif::PIVOTING_ON : hif::PIVOTING_OFF;
  if (kern == 2) o.is_symm = 1;
  auto fac = [&](Hif &M) { M.factorize(A, o, kern == 2 ? 0 : m); };
  auto read = [&](Hif &M, std::vector<double> &v) {
    hif::Array<double> b(n), x(n);
    for (int k = 0; k < 3; ++k) {
      for (int i = 0; i < n; ++i) b[i] = num<double>(i, k);
      M.solve(b, x);
      v.insert(v.end(), x.begin(), x.end());
      M.mmultiply(b, x);
      v.insert(v.end(), x.begin(), x.end());
      M.hifir(A, b, 2, x);
      v.insert(v.end(), x.begin(), x.end());
    }
    v.push_back(M.nnz()), v.push_back(M.levels()), v.push_back(M.rank());
  };
  std::vector<double> v0, v1;
  {
    sched::Plan p1;
    p1.deliver = 1;
    o.threads = 1;
    Hif M0;
    if (!execute(c, p1, [&] { fac(M0), read(M0, v0); })) return;
  }
  o.threads = req;
  sched::Plan pl;
  pl.deliver = del, pl.order = {ord};
  Hif M;
  sched::Report r;
  if (!execute(c, pl, [&] { fac(M), read(M, v1); }, &r)) return;
  c.validated();
  c.state(r.regions * 100 + r.max_team);
  if (!r.region_requests) c.skip("no parallel region");
  if (!same(v0, v1)) c.fail("operators differ from those of one thread (%d of %d threads granted, %ld regions)", del, req, r.regions);
}

int main(int argc, char **argv) {
  using mc::Family;
  const bool th = mc::thorough();
  std::vector<Family> F;
  // all (n, threads): pieces are disjoint, in order, cover everything and differ by at most one
  const int pn = th ? 400 : 120, pt = 24;
  F.push_back({"partition", "all sizes up to 120 (400 thorough) x 1-24 threads", (uint64_t)(pn + 1) * pt, [=](mc::Case &c) {
                 const int n = c.idx / pt, T = c.idx % pt + 1;
                 size_t    at = 0, lo = n, hi = 0;
                 for (int t = 0; t < T; ++t) {
                   auto r = hif::mt::uniform_partition(n, T, t);
                   c.transition();
                   if (r.first != at || r.second < r.first || r.second > (size_t)n) {
                     c.fail("n=%d, %d threads: piece %d is [%zu,%zu)", n, T, t, r.first, r.second);
                     return;
                   }
                   at = r.second, lo = std::min(lo, r.second - r.first), hi = std::max(hi, r.second - r.first);
                 }
                 if (at != (size_t)n) c.fail("n=%d, %d threads: %zu covered", n, T, at);
                 if (n && hi > lo + 1) c.fail("n=%d, %d threads: pieces of %zu and %zu", n, T, lo, hi);
                 c.state(c.idx);
                 c.validated();
               }});
  // number of threads: all sequences of 3 calls x environments
  static const int   AR[] = {std::numeric_limits<int>::max(), 0, -3, 1, 5};
  static const char *EV[] = {0, "", "3", "0", "-2", "x", "7"};
  F.push_back({"count", "all sequences of three calls of get_nthreads over {query,0,-3,1,5} x 7 values of each environment variable", 125 * 49, [](mc::Case &c) {
                 uint64_t k = c.idx;
                 const char *e[2] = {EV[k % 7], EV[k / 7 % 7]};
                 k /= 49;
                 for (int i = 0; i < 2; ++i) e[i] ? setenv(i ? "OMP_NUM_THREADS" : "HIF_NUM_THREADS", e[i], 1) : unsetenv(i ? "OMP_NUM_THREADS" : "HIF_NUM_THREADS");
                 sched::Plan p;
                 p.hw = 6;
                 sched::begin(p);
                 int cur = hif::mt::get_nthreads(2);
                 for (int i = 0; i < 3; ++i, k /= 5) {
                   const int a = AR[k % 5];
                   int       w = a == AR[0] ? cur : a > 0 ? a : e[0] ? atoi(e[0]) : e[1] ? atoi(e[1]) : 6;
                   if (w < 1) w = 1;
                   const int g = hif::mt::get_nthreads(a);
                   c.transition();
                   if (g != w) c.fail("call %d with %d: %d threads, not %d", i, a, g, w);
                   cur = w;
                 }
                 sched::end();
                 c.state(c.idx);
                 c.validated();
               }});
  // small products: all schedules of one preemption (two in thorough mode for the smallest)
  static const MV SM[] = {{0, 3, 0}, {1, 21, 0}, {2, 21, 0}, {3, 22, 0}, {2, 42, 1}, {3, 63, 2}, {4, 84, 3}, {5, 105, 2}};
  F.push_back({"product", "products small enough for all schedules with one preemption (two for one-row matrices in thorough) x 1-5 threads requested x 1-5 granted x 4 kernels x 3 types", 8 * 25 * 3, [=](mc::Case &c) {
                 const MV &s = SM[c.idx % 8];
                 int       req = c.idx / 8 % 5 + 1, del = c.idx / 40 % 5 + 1, ty = c.idx / 200;
                 if (del > req) return;
                 c.desc("%dx%d pattern %d, %d threads requested, %d granted", s.n, s.m, s.pat, req, del);
                 const int mode = s.n * s.m > 66 && !th ? 0 : th && s.n == 1 ? 2 : 1;
                 if (ty == 0) matvec<double, double>(c, s, req, del, mode);
                 else if (ty == 1) matvec<float, double>(c, s, req, del, th ? mode : 0);
                 else matvec<cd, cd>(c, s, req, del, th ? mode : 0);
               }});
  F.push_back({"product1000", "products with 1000-1003 rows x 4 patterns x 1-5 threads requested x granted x all orders of the threads", 4 * 4 * 25, [=](mc::Case &c) {
                 MV  s = {1000 + (int)(c.idx % 4), 30, (int)(c.idx / 4 % 4)};
                 int req = c.idx / 16 % 5 + 1, del = c.idx / 80 + 1;
                 if (del > req) return;
                 c.desc("%dx%d pattern %d, %d threads requested, %d granted", s.n, s.m, s.pat, req, del);
                 matvec<double, double>(c, s, req, del, 0);
               }});
  // (requested, granted, order of phase 0, order of phase 2)
  struct Sch {
    int r, d, a, b;
  };
  std::vector<Sch> ss;
  for (int r : {1, 2, 3, 4, 7})
    for (int d = 1; d <= r; ++d) {
      const int f = d <= 3 ? fact(d) : 4;
      for (int a = 0; a < f; ++a)
        for (int b = 0; b < f; ++b) {
          if (d > 3 && a != b) continue;
          ss.push_back({r, d, d <= 3 ? a : a * 5 + (a == 3 ? d - 1 : 0), d <= 3 ? b : b * 7});
        }
    }
  F.push_back({"schur", "Schur complements: 6 patterns of U x 5 patterns of the offset block x N in {201,203} x requested threads {1,2,3,4,7} x granted x orders of the threads in each phase (all for up to 3 threads)", (uint64_t)ss.size() * NU * NC * 2, [=](mc::Case &c) {
                 uint64_t  k = c.idx;
                 const int up = k % NU, cp = k / NU % NC, N = 201 + 2 * (k / NU / NC % 2);
                 const Sch &s = ss[k / NU / NC / 2];
                 if (!th && N == 203 && (up + cp) % 3) return;
                 c.desc("N=%d, U pattern %d, C pattern %d, %d threads requested, %d granted, orders %d %d", N, up, cp, s.r, s.d, s.a, s.b);
                 if (cp == 2 && up == 4) schur<cd>(c, N, up, cp, s.r, s.d, {s.a, 0, s.b});
                 else if (cp == 4 && up == 1) schur<float>(c, N, up, cp, s.r, s.d, {s.a, 0, s.b});
                 else schur<double>(c, N, up, cp, s.r, s.d, {s.a, 0, s.b});
               }});
  static const double AL[][2] = {{0.5, 0.5}, {1, 2}, {2, 0.5}, {10, 10}, {0, 1}, {1, -1}, {0.01, 0}};
  F.push_back({"drop", "dropping: n in {1,200,201,204} x 4 patterns x 7 pairs of factors x threads as above", (uint64_t)ss.size() * 4 * 4 * 7, [=](mc::Case &c) {
                 uint64_t  k = c.idx;
                 static const int ns[] = {1, 200, 201, 204};
                 const int n = ns[k % 4], pat = k / 4 % 4, al = k / 16 % 7;
                 const Sch &s = ss[k / 112];
                 c.desc("n=%d, pattern %d, alpha %g %g, %d threads requested, %d granted, orders %d %d", n, pat, AL[al][0], AL[al][1], s.r, s.d, s.a, s.b);
                 drop(c, n, pat, AL[al][0], AL[al][1], s.r, s.d, {s.a, s.b});
               }});
  static const int WH[][3] = {{2, 2, 0}, {2, 2, 1}, {2, 1, 0}, {3, 3, 0}, {3, 3, 5}, {3, 2, 1}, {4, 4, 0}, {4, 4, 23}, {4, 3, 3}, {4, 1, 0}, {8, 8, 0}, {8, 8, 7}, {8, 5, 2}, {0, 4, 0}};
  F.push_back({"factorize", "factorization, solution, product and refinement of a system with a large offset: 3 kernels x 14 combinations of requested, granted threads and orders", (uint64_t)NKERN * 14, [=](mc::Case &c) {
                 const int k = c.idx % NKERN, *w = WH[c.idx / NKERN];
                 c.desc("kernel %d, %d threads requested, %d granted, order %d", k, w[0], w[1], w[2]);
                 whole(c, k, w[0], w[1], w[2]);
               }});
  return mc::drive(argc, argv, F);
}
