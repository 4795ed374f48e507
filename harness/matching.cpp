// P19: matching, scaling and static deferral against the best assignment found by trying all of them.
#include "hx.hpp"
#include "hif/pre/driver.hpp"
#include "spaces.hpp"
using namespace hx;
#ifndef TYPE
#  define TYPE 0
#endif
#if TYPE == 0
typedef double V;
#elif TYPE == 1
typedef cd V;
#else
typedef float V;
#endif
typedef real_of<V>::type R;
#if TYPE == 2
typedef hif::CRS<V, int, int> Crs;
#else
typedef hif::CRS<V, int> Crs;
#endif
typedef Crs::other_type Ccs;

struct Set { int pre, level, symm, lead, reorder; double beta; };
static std::string strf(const char *f, ...) { char b[256]; va_list v; va_start(v, f); vsnprintf(b, sizeof b, f, v); va_end(v); return b; }
struct Sparse {
  int              n;
  Mat<V>           a;
  std::vector<char> st;  // stored
};
template <class Cs>
static Cs build(const Sparse &S) {
  const int n = S.n;
  Cs        A(n, n);
  auto &    ps = Cs::ROW_MAJOR ? ((Crs &)A).row_start() : ((Ccs &)A).col_start();
  auto &    ix = Cs::ROW_MAJOR ? ((Crs &)A).col_ind() : ((Ccs &)A).row_ind();
  ps.resize(n + 1);
  ps[0] = 0;
  for (int i = 0; i < n; ++i) {
    for (int j = 0; j < n; ++j) {
      const int r = Cs::ROW_MAJOR ? i : j, c = Cs::ROW_MAJOR ? j : i;
      if (S.st[r * n + c]) ix.push_back(j), A.vals().push_back(S.a(r, c));
    }
    ps[i + 1] = ix.size();
  }
  return A;
}
template <class Arr> static std::vector<typename Arr::value_type> cp(const Arr &a) { return std::vector<typename Arr::value_type>(a.cbegin(), a.cend()); }

// maximum number of nonzero pairs, and the largest log-product of a complete assignment
template <class M> static void assign(int n, const M &mag, int &card, double &best) {
  std::vector<int> mc_(n, -1);
  std::vector<char> seen;
  std::function<bool(int)> aug = [&](int i) {
    for (int j = 0; j < n; ++j)
      if (mag(i, j) != 0 && !seen[j]) {
        seen[j] = 1;
        if (mc_[j] < 0 || aug(mc_[j])) return mc_[j] = i, true;
      }
    return false;
  };
  card = 0;
  for (int i = 0; i < n; ++i) seen.assign(n, 0), card += aug(i);
  best = -INFINITY;
  if (card < n) return;
  const double        big = 1e7;
  std::vector<double> u(n + 1, 0), v(n + 1, 0);
  std::vector<int>    p(n + 1, 0), way(n + 1, 0);
  auto                cost = [&](int i, int j) { return mag(i, j) == 0 ? big : -std::log(mag(i, j)); };
  for (int i = 1; i <= n; ++i) {
    p[0]   = i;
    int j0 = 0;
    std::vector<double> mn(n + 1, INFINITY);
    std::vector<char>   us(n + 1, 0);
    do {
      us[j0]   = 1;
      int    i0 = p[j0], j1 = 0;
      double d  = INFINITY;
      for (int j = 1; j <= n; ++j)
        if (!us[j]) {
          const double cur = cost(i0 - 1, j - 1) - u[i0] - v[j];
          if (cur < mn[j]) mn[j] = cur, way[j] = j0;
          if (mn[j] < d) d = mn[j], j1 = j;
        }
      for (int j = 0; j <= n; ++j)
        if (us[j]) u[p[j]] += d, v[j] -= d;
        else mn[j] -= d;
      j0 = j1;
    } while (p[j0]);
    do {
      const int j1 = way[j0];
      p[j0]        = p[j1];
      j0           = j1;
    } while (j0);
  }
  best = 0;
  for (int j = 1; j <= n; ++j) best -= cost(p[j] - 1, j - 1);
}
template <bool SYMM>
static bool one(mc::Case &c, const Sparse &S, const Set &o, bool mag_symm) {
  const int    n = S.n, m0 = n - o.lead;
  const Crs    A_crs = build<Crs>(S);
  const Ccs    A     = build<Ccs>(S);
  hif::Options op    = hif::get_default_options();
  op.verbose         = hif::VERBOSE_NONE;
  op.pre_scale       = o.pre;
  op.reorder         = o.reorder;
  op.beta            = o.beta;
  hif::Array<R>             s, t;
  hif::BiPermMatrix<int> p, q;
  const auto v1 = cp(A_crs.vals()), v2 = cp(A.vals());
  const auto i1 = cp(A_crs.col_ind()), i2 = cp(A.row_ind());
  const auto s1 = cp(A_crs.row_start()), s2 = cp(A.col_start());
  const std::string how = strf("pre-scaling %d, level %d, %s, leading %d of %d, reordering %d", o.pre, o.level, SYMM ? "symmetric" : "general", m0, n, o.reorder);
#define FAIL(f, ...) do { c.fail(f " (%s, matrix %s)", ##__VA_ARGS__, how.c_str(), show(S.a).c_str()); return false; } while (0)
  const size_t m = hif::do_preprocessing<SYMM>(A, A_crs, m0, o.level, op, s, t, p, q);
  c.transition();
  c.validated();
  if (cp(A_crs.vals()) != v1 || cp(A.vals()) != v2 || cp(A_crs.col_ind()) != i1 || cp(A.row_ind()) != i2 || cp(A_crs.row_start()) != s1 || cp(A.col_start()) != s2) FAIL("the input matrix was changed");
  if ((int)m > m0) FAIL("leading block of order %zu", m);
  if ((int)p.size() != n || (int)q.size() != n || (int)s.size() != n || (int)t.size() != n) FAIL("results of sizes %zu %zu %zu %zu", p.size(), q.size(), s.size(), t.size());
  std::vector<char> sp(n, 0), sq(n, 0);
  uint64_t          h = mc::mix(m, n);
  for (int i = 0; i < n; ++i) {
    if (p[i] < 0 || p[i] >= n || sp[p[i]]++ || q[i] < 0 || q[i] >= n || sq[q[i]]++) FAIL("not a permutation");
    if (p.inv(p[i]) != i || q.inv(q[i]) != i) FAIL("inverse permutations are wrong");
    if (!(s[i] > 0) || !(t[i] > 0) || !std::isfinite(s[i]) || !std::isfinite(t[i])) FAIL("scaling factors %g and %g of row and column %d", (double)s[i], (double)t[i], i);
    if (i >= m0 && (p[i] != i || q[i] != i || s[i] != 1 || t[i] != 1)) FAIL("the part beyond the leading block was touched");
    h = mc::mix(h, p[i] * 8 + q[i]);
  }
  c.state(h);
  if (SYMM)
    for (int i = 0; i < n; ++i)
      if (p[i] != q[i] || s[i] != t[i]) FAIL("symmetric preprocessing is not symmetric at %d", i);
  const double eps = std::numeric_limits<R>::epsilon(), tol = 1e3 * eps;
  auto mag = [&](int r, int cc) { return (double)std::abs(S.a(r, cc)); };
  // static deferral: exactly the pairs with negligible entries
  for (int i = 0; i < m0; ++i) {
    double mx = 0;
    for (int k = 0; k < n; ++k) mx = std::max(mx, std::max(mag(p[i], k), mag(k, q[i])));
    const double d = mag(p[i], q[i]);
    if (i < (int)m && !(d > mx * eps * 0.99)) FAIL("pivot %d of magnitude %g stays in the leading block, row and column reach %g", i, d, mx);
    if (i >= (int)m && d > mx * eps * 1.01) FAIL("pair %d of magnitude %g deferred, row and column reach %g", i, d, mx);
  }
  if (o.reorder == hif::REORDER_OFF && !SYMM)
    for (int i = 1; i < m0; ++i)
      if (i != (int)m && q[i] < q[i - 1]) FAIL("the order of the columns is not kept");
  // the best assignment over the leading block
  // (dynamic programming over the sets of columns used; beyond order 11 augmenting paths and the Hungarian method)
  int    card = 0;
  double best = -INFINITY;
  if (m0 > 11) assign(m0, mag, card, best);
  else {
    std::vector<int>    cd_(1 << m0, -1);
    std::vector<double> bs(1 << m0, -INFINITY);
    cd_[0] = 0;
    bs[0]  = 0;
    // cd_: most nonzero pairs of the rows so far with any subset of columns; bs: best log-product of complete rows
    for (int i = 0; i < m0; ++i) {
      std::vector<int>    c2 = cd_;  // row i may stay unmatched
      std::vector<double> b2(1 << m0, -INFINITY);
      for (int S2 = 0; S2 < 1 << m0; ++S2)
        for (int j = 0; j < m0; ++j)
          if (!(S2 >> j & 1) && mag(i, j) != 0) {
            if (cd_[S2] >= 0) c2[S2 | 1 << j] = std::max(c2[S2 | 1 << j], cd_[S2] + 1);
            if (bs[S2] > -INFINITY) b2[S2 | 1 << j] = std::max(b2[S2 | 1 << j], bs[S2] + std::log(mag(i, j)));
          }
      cd_.swap(c2);
      bs.swap(b2);
    }
    for (int k : cd_) card = std::max(card, k);
    best = bs[(1 << m0) - 1];
  }
  if (!m0) return true;
  if (!SYMM) {
    int    k  = 0;
    double sm = 0;
    for (int i = 0; i < m0; ++i)
      if (mag(p[i], q[i]) != 0) ++k, sm += std::log(mag(p[i], q[i]));
    if (k != card) FAIL("%d nonzero pairs, but %d are possible", k, card);
    if (card == m0 && !(sm >= best - tol * (1 + std::fabs(best)))) FAIL("log-product of the pairs %.12g, but %.12g is possible", sm, best);
  }
  if (card == m0) {
    for (int i = 0; i < m0; ++i) {
      if (o.level > 1 && o.beta > 1) {
        const double a = s[p[i]], b = t[q[i]];
        if (std::min(a, b) * o.beta * (1 + tol) < std::max(a, b) && a != b) FAIL("unbalanced scaling factors %g and %g with the bound %g", a, b, o.beta);
      }
      if (!SYMM) {
        const double d = s[p[i]] * mag(p[i], q[i]) * t[q[i]];
        if (!(std::fabs(d - 1) <= 1e2 * tol)) FAIL("pair %d scaled to %.12g", i, d);
      }
    }
    if (o.level == 1 && (!SYMM || mag_symm))
      for (int i = 0; i < m0; ++i)
        for (int j = 0; j < m0; ++j)
          if (!(s[i] * mag(i, j) * t[j] <= 1 + 1e2 * tol)) FAIL("entry (%d,%d) scaled to %.12g", i, j, s[i] * mag(i, j) * t[j]);
  }
  return true;
#undef FAIL
}
static bool run(mc::Case &c, const Sparse &S, const Set &o) {
  bool ms = true;
  for (int i = 0; i < S.n; ++i)
    for (int j = 0; j < i; ++j) ms = ms && std::abs(S.a(i, j)) == std::abs(S.a(j, i));
  return o.symm ? one<true>(c, S, o, ms) : one<false>(c, S, o, ms);
}
static const std::vector<Set> &sets(int k) {
  static std::vector<Set> full, few;
  if (full.empty()) {
    for (int pre = 0; pre < 3; ++pre)
      for (int lev = 1; lev < 3; ++lev)
        for (int sy = 0; sy < 2; ++sy)
          for (int ld = 0; ld < 2; ++ld)
            for (int re : {hif::REORDER_OFF, hif::REORDER_AUTO, hif::REORDER_AMD, hif::REORDER_RCM})
              for (double be : {1e3, 2.0, -1.0}) {
                if (lev == 1 && be != 1e3) continue;
                full.push_back({pre, lev, sy, ld, re, be});
              }
    few = {{0, 1, 0, 0, hif::REORDER_OFF, 1e3}, {0, 2, 0, 0, hif::REORDER_AMD, 2.0}, {0, 1, 1, 0, hif::REORDER_RCM, 1e3}, {2, 1, 0, 1, hif::REORDER_RCM, 1e3}, {1, 1, 0, 0, hif::REORDER_AMD, 1e3}};
  }
  return k ? few : full;
}
// the value table: index 0 = not stored, 1 = stored zero
static V val(int a, int i, int j) {
#if TYPE == 2
  static const double t[] = {0, 0, 1, 4, 1e-3, 0.5, 1e4, 1e-4, 3, 1e-8};  // within the range of the type after scaling
#else
  static const double t[] = {0, 0, 1, 4, 1e-3, 0.5, 1e8, 1e-8, 3, 1e-17};
#endif
  return t[a] == 0 ? V(0) : Mk<V>::mk((i + j) % 2 ? -t[a] : t[a], 0);
}
static void values(mc::Case &c, int n, const std::vector<int> &al, int st) {
  uint64_t k = c.idx;
  Sparse   S;
  S.n = n;
  S.a = Mat<V>(n, n);
  S.st.assign(n * n, 0);
  for (int i = 0; i < n * n; ++i, k /= al.size()) {
    const int a = al[k % al.size()];
    S.st[i]     = a != 0;
    S.a.v[i]    = val(a, i / n, i % n);
  }
  c.desc("matrix %s", show(S.a).c_str());
  for (auto &o : sets(st))
    if (!run(c, S, o)) return;
}
// all patterns with pairwise different magnitudes (3 tables); symmetric ones through the symmetric path
static void patterns(mc::Case &c, int n, bool symmetric) {
  uint64_t  k = c.idx;
  const int tab = k % (n == 5 && !symmetric ? 2 : 3);
  k /= n == 5 && !symmetric ? 2 : 3;
  Sparse S;
  S.n = n;
  S.a = Mat<V>(n, n);
  S.st.assign(n * n, 0);
  int b = 0;
  for (int i = 0; i < n; ++i)
    for (int j = 0; j <= (symmetric ? i : n - 1); ++j, ++b)
      if (k >> b & 1) {
        const int    e = tab == 0 ? (b * 7 + 3) % 11 - 5 : tab == 1 ? (b * 5 + 1) % 13 * 3 - 18 : (i == j ? -30 : (b * 3) % 7);
        const double v = std::ldexp(1.0, e);
        S.a(i, j)      = Mk<V>::mk(v, (b & 1) ? v / 2 : 0);
        S.st[i * n + j] = 1;
        if (symmetric) S.a(j, i) = conj_(S.a(i, j)), S.st[j * n + i] = 1;
      }
  c.desc("pattern %llx of order %d, table %d: %s", (unsigned long long)k, n, tab, show(S.a).c_str());
  for (auto &o : sets(n >= 4 && !symmetric)) {
    if (symmetric && !o.symm) continue;
    if (!run(c, S, o)) return;
  }
}
// larger structured matrices and all circulant patterns, rows and columns scrambled
static void larger(mc::Case &c, int what, int n0) {
  uint64_t  k = c.idx;
  const int tab = k % 3;
  k /= 3;
  const int scr = k % 3;
  k /= 3;
  Mat<V> A;
  int    n;
  if (what == 2) {
    static const int ns[] = {16, 24, 40, 77, 130};
    n = ns[k % n0];
    k /= n0;
    if (TYPE == 2 && n > 40) return c.skip("the scaling of a long chain leaves the range of single precision");
    if (k < NSTRUCT) A = structured<V>(k, n);
    else {
      A = Mat<V>(n, n);
      k -= NSTRUCT;
      for (int i = 0; i < n; ++i)
        for (int j = 0; j < n; ++j)
          if (mc::mix(i * 1000 + j, k) % (k == 0 ? 1 : k == 1 ? 3 : n / (k == 2 ? 2 : k == 3 ? 4 : 8)) == 0) A(i, j) = Mk<V>::mk(((int)(mc::mix(j * 1000 + i, k + 7) % 2000) - 1000.5) / 100, 0);
    }
    c.desc("structure %d of order %d, scrambling %d, table %d", (int)k, n, scr, tab);
  } else if (what == 0) {
    n = 2 + k % (n0 - 1);
    k /= n0 - 1;
    A = structured<V>(k, n);
    c.desc("%s of order %d, scrambling %d, table %d", struct_name(k), n, scr, tab);
  } else {
    n = n0;
    A = circulant<V>(n, k, 1);
    c.desc("circulant pattern %llx of order %d, scrambling %d, table %d", (unsigned long long)k, n, scr, tab);
  }
  n = A.n;
  if (!n || (n > 10 && what != 2)) return;
  Sparse S;
  S.n = n;
  S.a = Mat<V>(n, n);
  S.st.assign(n * n, 0);
  for (int i = 0; i < n; ++i)
    for (int j = 0; j < n; ++j) {
      const int r = scr == 0 ? i : scr == 1 ? n - 1 - i : (i * 3 + 1) % n, cc = scr == 2 ? (n % 3 ? n - 1 - j : j) : j;
      const int r2 = scr == 2 && n % 3 == 0 ? (i + 2) % n : r;
      if (A(r2, cc) != V(0)) {
        const int b = i * n + j;
        S.a(i, j)       = tab == 0 ? A(r2, cc) : Mk<V>::mk(std::ldexp(1.0, tab == 1 ? (b * 7 + 3) % 11 - 5 : (b * 5 + i * 3) % 4), 0);
        S.st[i * n + j] = 1;
      }
    }
  for (auto &o : sets(1))
    if (!run(c, S, o)) return;
}
int main(int argc, char **argv) {
  using mc::Family;
  std::vector<Family> F;
  const bool          th = mc::thorough(), lite = TYPE != 0 && !th;
  F.push_back({"val2", lite ? "order 2: all matrices over 10 values (not stored, stored zero, 1e-17..1e8; 1e-8..1e4 in single precision) x 5 settings" : "order 2: all matrices over 10 values (not stored, stored zero, 1e-17..1e8; 1e-8..1e4 in single precision) x 192 settings", ipow(10, 4), [=](mc::Case &c) { values(c, 2, {0, 1, 2, 3, 4, 5, 6, 7, 8, 9}, lite); }});
  F.push_back({"val3", th ? "order 3: all matrices over 3 values x 192 settings" : "order 3: all matrices over 3 values x 5 settings", ipow(3, 9), [=](mc::Case &c) { values(c, 3, {0, 2, 4}, !th); }});
  if (TYPE == 0 || th) F.push_back({"val3z", "order 3: all matrices over 4 values with stored zeros x 5 settings", ipow(4, 9), [](mc::Case &c) { values(c, 3, {0, 1, 2, 3}, 1); }});
  F.push_back({"pat3", "order 3: all patterns x 3 tables of magnitudes x 192 settings", 3 << 9, [](mc::Case &c) { patterns(c, 3, false); }});
  F.push_back({"pat4", "order 4: all patterns x 3 tables x 5 settings", 3 << 16, [](mc::Case &c) { patterns(c, 4, false); }});
  F.push_back({"sym3", "order 3: all symmetric patterns x 3 tables, symmetric preprocessing", 3 << 6, [](mc::Case &c) { patterns(c, 3, true); }});
  F.push_back({"sym4", "order 4: all symmetric patterns x 3 tables, symmetric preprocessing", 3 << 10, [](mc::Case &c) { patterns(c, 4, true); }});
  if (!lite) F.push_back({"sym5", "order 5: all symmetric patterns x 3 tables, symmetric preprocessing", th ? 3 << 15 : 3 << 12, [](mc::Case &c) { patterns(c, 5, true); }});
  F.push_back({"full4", "order 4: all full matrices over 2 values x 5 settings", ipow(2, 16), [](mc::Case &c) { values(c, 4, {2, 3}, 1); }});
  const int nk = NSTRUCT;
  F.push_back({"larger", "structured matrices of every order up to 9 x 3 scramblings x 3 tables x 5 settings", 9ull * 8 * nk, [](mc::Case &c) { larger(c, 0, 9); }});
  F.push_back({"large", "structured, full and scattered matrices (5 densities) of orders 16, 24, 40 and 77 (thorough: and 130) x 3 scramblings x 3 tables x 5 settings", 9ull * (nk + 5) * (th ? 5 : 4), [=](mc::Case &c) { larger(c, 2, th ? 5 : 4); }});
  for (int n = 5; n <= (th ? 10 : 8); ++n) {
    static const char *nm[] = {"circ5", "circ6", "circ7", "circ8", "circ9", "circ10"};
    F.push_back({nm[n - 5], "all circulant patterns x 3 scramblings x 3 tables x 5 settings", 9ull << n, [=](mc::Case &c) { larger(c, 1, n); }});
  }
  if (th) {
    F.push_back({"pat5", "order 5: all patterns x 2 tables x 5 settings", 2ull << 25, [](mc::Case &c) { patterns(c, 5, false); }});
    F.push_back({"full4x", "order 4: all matrices over 3 values x 5 settings", ipow(3, 16), [](mc::Case &c) { values(c, 4, {0, 2, 3}, 1); }});
    F.push_back({"val3x", "order 3: all matrices over 5 values x 5 settings", ipow(5, 9), [](mc::Case &c) { values(c, 3, {0, 2, 3, 4, 6}, 1); }});
  }
  return mc::drive(argc, argv, F);
}
