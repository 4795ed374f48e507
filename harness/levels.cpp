// P12: what an object reports and exports about its hierarchy is true: the exported levels, put together by the textbook
// formulas, are the preconditioner; sizes, counts, ranks and statistics follow from them.
#include <fcntl.h>
#include "spaces.hpp"
using namespace hx;
#ifdef CPLX
typedef cd T;
#else
typedef double T;
#endif
typedef real_of<T>::type  R;
typedef hif::HIF<T>       H;
typedef H::prec_type      P;

static bool is_perm(const int *p, const int *pi, size_t n) {
  std::vector<char> seen(n, 0);
  for (size_t i = 0; i < n; ++i) {
    if (p[i] < 0 || (size_t)p[i] >= n || seen[p[i]]) return false;
    seen[p[i]] = 1;
  }
  for (size_t i = 0; i < n; ++i)
    if (pi[i] < 0 || (size_t)pi[i] >= n || p[pi[i]] != (int)i) return false;
  return true;
}

// one level exported in row (Row) or column storage, expanded to dense blocks
struct Level {
  size_t           m, n, nL, nU, nE, nF;
  Mat<T>           L, U, E, F;
  std::vector<T>   d;
  std::vector<R>   s, t;
  std::vector<int> p, pi, q, qi;
  std::string      err;
};
template <class Cs> static Mat<T> expand(const std::vector<std::ptrdiff_t> &ip, const std::vector<int> &ix, const std::vector<T> &v, size_t nr, size_t nc, int tri, std::string &err, const char *nm) {
  Mat<T>       A(nr, nc);
  const size_t np = Cs::ROW_MAJOR ? nr : nc, ns = Cs::ROW_MAJOR ? nc : nr;
  if (ip[0] != 0) err = std::string(nm) + ": first pointer is not 0";
  for (size_t i = 0; i < np && err.empty(); ++i) {
    if (ip[i + 1] < ip[i] || (size_t)ip[i + 1] > v.size()) {
      err = std::string(nm) + ": pointers not monotone or beyond the stated size";
      break;
    }
    for (auto k = ip[i]; k < ip[i + 1]; ++k) {
      if (ix[k] < 0 || (size_t)ix[k] >= ns) {
        err = std::string(nm) + ": index out of range";
        break;
      }
      const size_t r = Cs::ROW_MAJOR ? i : ix[k], c = Cs::ROW_MAJOR ? ix[k] : i;
      if (k > ip[i] && ix[k] <= ix[k - 1]) err = std::string(nm) + ": indices not strictly increasing";
      if ((tri < 0 && r <= c) || (tri > 0 && r >= c)) err = std::string(nm) + ": entry outside of the strict triangle";
      A(r, c) += v[k];
    }
  }
  if (err.empty() && np && (size_t)ip[np] != v.size()) err = std::string(nm) + ": size differs from the stated one";
  return A;
}
template <class Cs> static Level export_level(P &pr, bool destroy) {
  Level l;
  pr.inquire_sizes(l.m, l.n, l.nL, l.nU, l.nE, l.nF);
  const size_t m = l.m, n = l.n, nm = n - m;
  const std::ptrdiff_t G = -77;
  std::vector<std::ptrdiff_t> Lp(m + 1, G), Up(m + 1, G), Ep((Cs::ROW_MAJOR ? nm : m) + 1, G), Fp((Cs::ROW_MAJOR ? m : nm) + 1, G);
  std::vector<int>            Li(l.nL), Ui(l.nU), Ei(l.nE), Fi(l.nF);
  std::vector<T>              Lv(l.nL), Uv(l.nU), Ev(l.nE), Fv(l.nF);
  l.d.resize(m), l.s.resize(n), l.t.resize(n), l.p.resize(n), l.pi.resize(n), l.q.resize(n), l.qi.resize(n);
  pr.export_sparse_data<Cs>(Lp.data(), Li.data(), Lv.data(), l.d.data(), Up.data(), Ui.data(), Uv.data(), Ep.data(), Ei.data(), Ev.data(), Fp.data(), Fi.data(), Fv.data(), l.s.data(), l.t.data(), l.p.data(),
                            l.pi.data(), l.q.data(), l.qi.data(), destroy);
  if (m) {
    l.L = expand<Cs>(Lp, Li, Lv, m, m, -1, l.err, "L");
    l.U = expand<Cs>(Up, Ui, Uv, m, m, 1, l.err, "U");
    for (size_t i = 0; i < m; ++i) l.L(i, i) = l.U(i, i) = T(1);
  }
  if (m && nm) {
    l.E = expand<Cs>(Ep, Ei, Ev, nm, m, 0, l.err, "E");
    l.F = expand<Cs>(Fp, Fi, Fv, m, nm, 0, l.err, "F");
  }
  if (l.err.empty() && (!is_perm(l.p.data(), l.pi.data(), n) || !is_perm(l.q.data(), l.qi.data(), n))) l.err = "p or q is no permutation or comes with a wrong inverse";
  for (auto x : l.s)
    if (!(x > 0) || !std::isfinite(x)) l.err = "row scaling not positive and finite";
  for (auto x : l.t)
    if (!(x > 0) || !std::isfinite(x)) l.err = "column scaling not positive and finite";
  for (auto &x : l.d)
    if (!(std::abs(x) > 0) || !std::isfinite(std::abs(x))) l.err = "diagonal factor zero or not finite";
  return l;
}
// A_level = S^-1 P [ B F; E C ] Q^T T^-1 with B = L D U, C = next + E B^-1 F
static Mat<T> assemble(const std::vector<Level> &ls, size_t k, const Mat<T> &dense) {
  if (k == ls.size()) return dense;
  const Level &l = ls[k];
  const int    m = l.m, n = l.n, nm = n - m;
  Mat<T>       K(n, n), C = nm ? assemble(ls, k + 1, dense) : Mat<T>();
  Mat<T>       B, Bi;
  if (m) {
    Mat<T> DU = l.U;
    for (int i = 0; i < m; ++i)
      for (int j = 0; j < m; ++j) DU(i, j) *= l.d[i];
    B = mul(l.L, DU);
    for (int i = 0; i < m; ++i)
      for (int j = 0; j < m; ++j) K(i, j) = B(i, j);
    if (nm) {
      // B^-1 F by substitution
      Mat<T> X = l.F;
      for (int c = 0; c < nm; ++c) {
        for (int i = 0; i < m; ++i)
          for (int j = 0; j < i; ++j) X(i, c) -= l.L(i, j) * X(j, c);
        for (int i = 0; i < m; ++i) X(i, c) /= l.d[i];
        for (int i = m - 1; i >= 0; --i)
          for (int j = i + 1; j < m; ++j) X(i, c) -= l.U(i, j) * X(j, c);
      }
      Mat<T> EX = mul(l.E, X);
      for (int i = 0; i < nm; ++i)
        for (int j = 0; j < nm; ++j) C(i, j) += EX(i, j);
      for (int i = 0; i < m; ++i)
        for (int j = 0; j < nm; ++j) K(i, m + j) = l.F(i, j), K(m + j, i) = l.E(j, i);
    }
  }
  for (int i = 0; i < nm; ++i)
    for (int j = 0; j < nm; ++j) K(m + i, m + j) = C(i, j);
  Mat<T> A(n, n);
  for (int i = 0; i < n; ++i)
    for (int j = 0; j < n; ++j) A(l.p[i], l.q[j]) = K(i, j) / T(l.s[l.p[i]]) / T(l.t[l.q[j]]);
  return A;
}

static bool same(const Mat<T> &a, const Mat<T> &b) { return a.n == b.n && a.m == b.m && a.v == b.v; }

template <class Cs> static void run_one(mc::Case &c, const Mat<T> &A, hif::Params p, size_t m0) {
  const int n = A.n;
  c.desc("%s %s m0=%zu A=%s %s", is_cplx<T>::value ? "complex" : "real", Cs::ROW_MAJOR ? "CRS" : "CCS", m0, n <= 6 ? show(A).c_str() : "(see family)", cfg_str(p).c_str());
  H   M;
  auto S = to_cs<Cs>(A);
  M.factorize(S, p, m0);
  c.transition();
  c.state(struct_hash(M));
#define REQ(cond, ...)  \
  if (!(cond)) {        \
    c.fail(__VA_ARGS__); \
    return;             \
  }
  typedef hif::CRS<T, int> Rw;
  typedef hif::CCS<T, int> Cl;
  std::vector<Level>       ls;
  size_t                   nz = 0, nzef = 0, sm = 0, cur = n, defers = 0, k = 0;
  Mat<T>                   dense;
  size_t                   srank = 0;
  const size_t             np = M.precs().size();
  for (auto &pr : M.precs()) {
    Level a = export_level<Rw>(pr, false), b = export_level<Cl>(pr, false);
    REQ(a.err.empty(), "level %zu: %s", k + 1, a.err.c_str());
    REQ(b.err.empty(), "level %zu exported by columns: %s", k + 1, b.err.c_str());
    REQ(same(a.L, b.L) && same(a.U, b.U) && same(a.E, b.E) && same(a.F, b.F) && a.d == b.d && a.s == b.s && a.t == b.t && a.p == b.p && a.q == b.q, "level %zu: row and column export differ", k + 1);
    REQ(a.n == cur && a.m <= a.n, "level %zu has size %zu (leading block %zu), expected %zu", k + 1, a.n, a.m, cur);
    cur = a.n - a.m;
    sm += a.m;
    defers += (k == 0 && m0 ? m0 : a.n) - a.m;
    nz += a.nL + a.nU + a.m;
    if (cur) nz += a.nE + a.nF, nzef += a.nE + a.nF;
    ls.push_back(a);
    ++k;
    REQ(pr.is_last_level() == (k == np), "level %zu of %zu: last-level flag wrong", k, np);
    size_t dr = 0, dc = 0;
    if (pr.is_last_level() && cur) {
      pr.inquire_or_export_dense((T *)nullptr, dr, dc, false);
      REQ(dr == cur && dc == cur, "dense level is %zux%zu instead of %zu", dr, dc, cur);
      std::vector<T> buf(dr * dc + 1, T(-99));
      pr.inquire_or_export_dense(buf.data(), dr, dc, false);
      REQ(buf.back() == T(-99), "dense export writes past the end");
      dense = Mat<T>(cur, cur);
      for (size_t j = 0; j < cur; ++j)
        for (size_t i = 0; i < cur; ++i) dense(i, j) = buf[j * cur + i];
      nz += cur * cur;
      srank = pr.last_rank();
      REQ(srank <= cur, "rank of the dense level %zu exceeds its size %zu", srank, cur);
    }
  }
  REQ(M.levels() == np + (cur > 0), "levels() = %zu, %zu sparse level(s) and a dense part of size %zu", M.levels(), np, cur);
  REQ(sm + cur == (size_t)n, "sizes of the levels add up to %zu", sm + cur);
  REQ(M.schur_size() == cur && M.schur_rank() == srank && M.rank() == n - (cur - srank), "schur_size %zu, schur_rank %zu, rank %zu for a dense level of size %zu, rank %zu", M.schur_size(), M.schur_rank(), M.rank(), cur, srank);
  REQ(M.nrows() == (size_t)n && M.ncols() == (size_t)n, "size %zux%zu", M.nrows(), M.ncols());
  REQ(M.nnz() == nz && M.nnz_ef() == nzef && M.nnz_ldu() == nz - nzef, "nnz %zu/%zu/%zu instead of %zu/%zu/%zu", M.nnz(), M.nnz_ef(), M.nnz_ldu(), nz, nzef, nz - nzef);
  size_t st[6];
  for (int i = 0; i < 6; ++i) st[i] = M.stats(i);
  // automatic pivoting may restart the first level without the given leading block
  REQ(st[0] == defers || (p.pivot == 2 && m0 && st[0] == defers + n - m0), "total deferrals %zu, but %zu rows were left out of leading blocks", st[0], defers);
  REQ(st[1] <= st[0] && st[1] == st[2] + st[3], "deferral statistics inconsistent: total %zu, dynamic %zu, bad diagonals %zu, conditioning %zu", st[0], st[1], st[2], st[3]);
  REQ(st[5] <= st[4], "more droppings by space control (%zu) than in total (%zu)", st[5], st[4]);
  if (p.tau_L == 0 && p.tau_U == 0 && p.alpha_L > 100 && p.alpha_U > 100) REQ(st[5] == 0, "%zu droppings by space control although the space is unlimited", st[5]);
  for (size_t bad : {size_t(6), size_t(7), (size_t)-1}) {
    bool rej = false;
    try {
      M.stats(bad);
    } catch (const std::runtime_error &) {
      rej = true;
    }
    REQ(rej, "statistics entry %zu is accepted", bad);
  }
  for (size_t i = 0; i < np + 3; ++i) {
    bool rej = false;
    size_t got = 0;
    try {
      got = M.prec(i).n;
    } catch (const std::runtime_error &) {
      rej = true;
    }
    REQ(rej == (i >= np), "level %zu of %zu is %s", i, np, rej ? "refused" : "handed out");
    if (!rej) REQ(got == ls[i].n, "prec(%zu) is another level", i);
  }
  c.outcome(mc::mix(st[0], mc::mix(st[1], mc::mix(st[2], mc::mix(st[4], st[5])))));
  // the exported hierarchy is the operator
  Mat<T> K = assemble(ls, 0, dense), X = solve_op<T>(M, n, false), Y = mult_op<T>(M, n, false);
  c.transition(2 * n);
  const double nx = nrm(X) * n, nk = nrm(K) * n, cond = nx * nk;
  if (srank == cur) {
    if (!finite(X) || !finite(K) || !(cond < 1e8)) {
      c.skip("too ill-conditioned to compare");
    } else {
      double e = diff(mul(K, X), eye<T>(n));
      REQ(e <= 1e-12 * cond * n, "the exported levels do not make up the operator that solve inverts: %g (tolerance %g)", e, 1e-12 * cond * n);
      e = diff(K, Y);
      REQ(e <= 1e-12 * cond * nk, "the exported levels do not make up the operator that multiply applies: %g (tolerance %g)", e, 1e-12 * cond * nk);
      c.validated();
    }
  } else
    c.skip("rank-deficient dense level");
  // exporting with release: same data, and the level is empty afterwards
  if (cur) {
    auto & pr = M.precs().back();
    size_t dr = 0, dc = 0;
    pr.inquire_or_export_dense((T *)nullptr, dr, dc, true);
    REQ(dr == cur && dc == cur, "asked for its size with release, the dense level is %zux%zu instead of %zu", dr, dc, cur);
    std::vector<T> buf(dr * dc + 1, T(-99));
    pr.inquire_or_export_dense(buf.data(), dr, dc, true);
    REQ(buf.back() == T(-99), "dense export with release writes past the end");
    for (size_t j = 0; j < cur; ++j)
      for (size_t i = 0; i < cur; ++i) REQ(buf[j * cur + i] == dense(i, j) || (buf[j * cur + i] != buf[j * cur + i] && dense(i, j) != dense(i, j)), "dense export with release differs from the export in entry %zu,%zu", i, j);
    buf.clear();
    pr.inquire_or_export_dense((T *)nullptr, dr, dc, true);
    REQ(!pr.dense_solver.mat_backup().array().size() && !pr.symm_dense_solver.mat_backup().array().size(), "the dense level is still there after the export with release");
  }
  Level z = export_level<Rw>(M.precs().front(), true);
  REQ(z.err.empty() && same(z.L, ls[0].L) && same(z.U, ls[0].U) && same(z.E, ls[0].E) && same(z.F, ls[0].F) && z.d == ls[0].d && z.s == ls[0].s && z.p == ls[0].p && z.q == ls[0].q, "export with release differs from export: %s", z.err.c_str());
  REQ(M.precs().front().m == 0 && M.precs().front().n == 0, "a released level reports size %zu", M.precs().front().n);
  M.clear();
  REQ(M.empty() && M.levels() == 0 && M.nnz() == 0 && M.rank() == 0 && M.schur_rank() == 0 && M.schur_size() == 0 && M.nnz_ef() == 0 && M.nnz_ldu() == 0, "a cleared object reports contents");
#undef REQ
}

// logging must not change anything
static void run_verbose(mc::Case &c, const Mat<T> &A, hif::Params p, size_t m0) {
  const int   n = A.n;
  auto        S = to_cs<hif::CRS<T, int>>(A);
  H           M0;
  M0.factorize(S, p, m0);
  const uint64_t h = struct_hash(M0);
  Mat<T>         X0 = solve_op<T>(M0, n, false);
  int            fd1 = dup(1), fd2 = dup(2), nul = open("/dev/null", O_WRONLY);
  fflush(stdout), fflush(stderr), std::cout.flush();
  dup2(nul, 1), dup2(nul, 2);
  const char *bad = nullptr;
  int         at  = 0;
  static const int vs[] = {1, 2, 4, 8, 16, 32, 64, 128, 255, 0xffff};
  try {
    for (int v : vs) {
      p.verbose = at = v;
      c.desc("%s verbose=%d A=%s m0=%zu %s", is_cplx<T>::value ? "complex" : "real", v, n <= 6 ? show(A).c_str() : "(see family)", m0, cfg_str(p).c_str());
      H M;
      M.factorize(S, p, m0);
      c.transition();
      if (struct_hash(M) != h) bad = "hierarchy";
      Mat<T> X = solve_op<T>(M, n, false);
      if (std::memcmp(X.v.data(), X0.v.data(), X.v.size() * sizeof(T)) && finite(X0)) bad = "solution";
      if (bad) break;
    }
  } catch (const std::exception &) {
    bad = "success";
  }
  std::cout.flush(), std::cerr.flush(), fflush(stdout), fflush(stderr);
  dup2(fd1, 1), dup2(fd2, 2);
  close(fd1), close(fd2), close(nul);
  if (bad) c.fail("the %s depends on the logging level (%d)", bad, at);
  else c.validated();
}

static void run_all(mc::Case &c, const Mat<T> &A, const std::vector<hif::Params> &cfgs, int symm, size_t m0) {
  const size_t rot = mc::thorough() || cfgs.size() == 1 ? 1 : 4;
  for (size_t k = 0; k < cfgs.size(); ++k) {
    if ((k + c.idx + c.idx / 32) % rot) continue;
    auto p = cfgs[k];
    if (symm) p.is_symm = 1;
    if ((k / rot + c.idx) % 2) run_one<hif::CRS<T, int>>(c, A, p, m0);
    else run_one<hif::CCS<T, int>>(c, A, p, m0);
    if (c.nfail) return;
  }
}

int main(int argc, char **argv) {
  using mc::Family;
  std::vector<Family> F;
  auto c1 = configs_drop(1), c2 = configs_drop(2), e0 = configs_exact(0), e1 = configs_exact(1);
  auto d0 = configs_drop(0);
  c1.insert(c1.end(), e0.begin(), e0.end());
  c2.insert(c2.end(), e1.begin(), e1.end());
  F.push_back({"empty", "an object that was never factorized", 1, [](mc::Case &c) {
                 H    M;
                 bool ok = M.empty() && !M.levels() && !M.nnz() && !M.nnz_ef() && !M.nnz_ldu() && !M.rank() && !M.schur_rank() && !M.schur_size() && !M.nrows() && !M.ncols();
                 if (!ok) c.fail("an empty object reports contents");
                 for (int i = 0; i < 8; ++i) {
                   bool rej = false;
                   try {
                     i < 7 ? (void)M.stats(i) : (void)M.prec(0);
                   } catch (const std::runtime_error &) {
                     rej = true;
                   }
                   if (!rej) c.fail("an empty object hands out statistics or levels");
                 }
                 c.validated();
               }});
  F.push_back({"pat3", "all 3x3 patterns x 2 tables", 512 * 2, [=](mc::Case &c) { run_all(c, by_pattern<T>(3, c.idx / 2, c.idx % 2), c1, 0, 0); }});
  F.push_back({"off4", "all 4x4 patterns with full diagonal", 4096, [=](mc::Case &c) { run_all(c, by_offpattern<T>(4, c.idx, 0), d0, 0, 0); }});
  F.push_back({"m0", "all 3x3 patterns with a symmetric leading block, every block size", 512 * 3, [=](mc::Case &c) {
                 Mat<T> A  = by_pattern<T>(3, c.idx / 3, 0);
                 int    m0 = 1 + c.idx % 3;
                 bool   z  = true;
                 for (int i = 0; i < m0; ++i) {
                   for (int j = 0; j < i; ++j) A(i, j) = A(j, i);
                   for (int j = 0; j < m0; ++j) z = z && A(i, j) == T(0);
                 }
                 if (z) {
                   c.skip("empty leading block");
                   return;
                 }
                 run_all(c, A, d0, 0, m0);
               }});
  F.push_back({"sym", "all Hermitian patterns of size 3 (3 tables) and 4, symmetric mode", 64 * 3 + 1024, [=](mc::Case &c) {
                 if (c.idx < 192) run_all(c, herm_pattern<T>(3, c.idx / 3, c.idx % 3), c1, 1, 0);
                 else run_all(c, herm_pattern<T>(4, c.idx - 192, 0), d0, 1, 0);
               }});
  {
    // orders beyond every block, buffer and shortcut size of the code
    static const int  nl[] = {48, 77, 130};
    const uint64_t nk = mc::thorough() ? c2.size() : 8;
    F.push_back({"large", "20 structure classes x sizes {48,77,130} x 8 configurations (thorough: all), rotating; every third also in symmetric mode", NSTRUCT * 3 * nk, [=](mc::Case &c) {
                   const int    kind = c.idx % NSTRUCT, n = nl[c.idx / NSTRUCT % 3];
                   const size_t k = (c.idx / NSTRUCT / 3 * (c2.size() / nk) + (mc::thorough() ? 0 : kind + c.idx / NSTRUCT)) % c2.size();
                   run_all(c, structured<T>(kind, n), std::vector<hif::Params>{c2[k]}, 0, 0);
                   if (c.idx % 3 == 0 && !c.nfail) run_all(c, hermitize(structured<T>(kind, n)), std::vector<hif::Params>{c2[k]}, 1, 0);
                 }});
  }
  static const int ns[] = {5, 12, 31};
  F.push_back({"struct", "20 structure classes x sizes {5,12,31} x configurations", NSTRUCT * 3 * (uint64_t)c2.size(), [=](mc::Case &c) {
                 int kind = c.idx % NSTRUCT, n = ns[c.idx / NSTRUCT % 3], k = c.idx / NSTRUCT / 3;
                 run_all(c, structured<T>(kind, n), std::vector<hif::Params>{c2[k]}, 0, 0);
                 if (k % 4 == 0 && !c.nfail) run_all(c, hermitize(structured<T>(kind, n)), std::vector<hif::Params>{c2[k]}, 1, 0);
               }});
  F.push_back({"verbose", "20 structure classes x sizes {5,12} x configurations (plain and symmetric) x 10 logging levels", NSTRUCT * 2 * (uint64_t)d0.size() * 2, [=](mc::Case &c) {
                 int  i = c.idx / 2, kind = i % NSTRUCT, n = i / NSTRUCT % 2 ? 5 : 12, k = i / NSTRUCT / 2;
                 auto p = d0[k];
                 p.is_symm = c.idx % 2;
                 run_verbose(c, c.idx % 2 ? hermitize(structured<T>(kind, n)) : structured<T>(kind, n), p, 0);
               }});
  F.push_back({"verbose3", "all 3x3 patterns x 10 logging levels", 512, [=](mc::Case &c) { run_verbose(c, by_pattern<T>(3, c.idx, 0), d0[c.idx % d0.size()], 0); }});
  return mc::drive(argc, argv, F);
}
