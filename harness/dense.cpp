// P21: the dense solvers of the last level: rank decisions, truncated solves and products, all types.
#include "spaces.hpp"
using namespace hx;
#if TYPE == 0
typedef double T;
#elif TYPE == 1
typedef cd T;
#elif TYPE == 2
typedef float T;
#else
typedef cf T;
#endif
typedef real_of<T>::type R;
typedef typename std::conditional<is_cplx<T>::value, cd, double>::type D;  // reference arithmetic
static const double EPS = std::numeric_limits<R>::epsilon();
template <class V> static Mat<D> up(const Mat<V> &A) {
  Mat<D> B(A.n, A.m);
  for (size_t i = 0; i < A.v.size(); ++i) B.v[i] = D(A.v[i]);
  return B;
}
static Mat<T> down(const Mat<D> &A) {
  Mat<T> B(A.n, A.m);
  for (size_t i = 0; i < A.v.size(); ++i) B.v[i] = T(A.v[i]);
  return B;
}
// eigenvalues and eigenvectors of a Hermitian matrix by Jacobi rotations
static void jacobi(Mat<D> A, std::vector<double> &w, Mat<D> &V) {
  const int n = A.n;
  V = eye<D>(n);
  for (int sweep = 0; sweep < 60; ++sweep) {
    double off = 0;
    for (int p = 0; p < n; ++p)
      for (int q = p + 1; q < n; ++q) {
        double a = std::abs(A(p, q));
        off = std::max(off, a);
        if (a < 1e-300) continue;
        D      ph = A(p, q) / a;
        double th = (std::real(A(q, q)) - std::real(A(p, p))) / (2 * a), t = (th >= 0 ? 1 : -1) / (std::abs(th) + std::sqrt(th * th + 1)), cc = 1 / std::sqrt(t * t + 1), s = t * cc;
        for (int k = 0; k < n; ++k) {
          D x = A(k, p), y = A(k, q);
          A(k, p) = cc * x - s * conj_(ph) * y, A(k, q) = s * ph * x + cc * y;
          x = V(k, p), y = V(k, q);
          V(k, p) = cc * x - s * conj_(ph) * y, V(k, q) = s * ph * x + cc * y;
        }
        for (int k = 0; k < n; ++k) {
          D x = A(p, k), y = A(q, k);
          A(p, k) = cc * x - s * ph * y, A(q, k) = s * conj_(ph) * x + cc * y;
        }
      }
    if (off < 1e-18 * nrm(A)) break;
  }
  w.resize(n);
  for (int i = 0; i < n; ++i) w[i] = std::real(A(i, i));
}
static double cond2(const Mat<D> &A, const std::vector<int> &J) {
  Mat<D> B(A.n, (int)J.size());
  for (int i = 0; i < A.n; ++i)
    for (size_t j = 0; j < J.size(); ++j) B(i, j) = A(i, J[j]);
  std::vector<double> w;
  Mat<D>              V;
  jacobi(mul(adj(B), B), w, V);
  double lo = 1e300, hi = 0;
  for (double x : w) lo = std::min(lo, x), hi = std::max(hi, x);
  return lo <= 0 ? 1e300 : std::sqrt(hi / lo);
}
// read-outs; OP 0 solve 1 multiply
template <class S> struct Call {
  static void solve(const S &s, hif::Array<T> &x, size_t k, bool tr) { s.solve(x, k, tr); }
  static void mult(const S &s, hif::Array<T> &x, size_t k, bool tr) { s.multiply(x, k, tr); }
  template <class X> static void wsolve(const S &s, X &x, size_t k, bool tr) { s.solve(x, k, tr); }
  template <class X> static void wmult(const S &s, X &x, size_t k, bool tr) { s.multiply(x, k, tr); }
  template <class X> static void msolve(const S &s, X &x, size_t k, bool tr) { s.solve_mrhs(x, k, tr); }
  template <class X> static void mmult(const S &s, X &x, size_t k, bool tr) { s.multiply_mrhs(x, k, tr); }
  enum { TRAN = 1, MM = 1 };
};
template <> struct Call<hif::LUP<T>> {
  typedef hif::LUP<T> S;
  static void solve(const S &s, hif::Array<T> &x, size_t k, bool tr) { s.solve(x, k, tr); }
  static void mult(const S &s, hif::Array<T> &x, size_t k, bool tr) {
    hif::Array<T> y(x.size());
    s.multiply(x, y, k, tr);
    std::copy(y.cbegin(), y.cend(), x.begin());
  }
  template <class X> static void wsolve(const S &s, X &x, size_t k, bool tr) { s.solve(x, k, tr); }
  template <class X> static void wmult(const S &s, X &x, size_t k, bool tr) {
    X y(x.size());
    s.multiply(x, y, k, tr);
    std::copy(y.cbegin(), y.cend(), x.begin());
  }
  template <class X> static void msolve(const S &s, X &x, size_t k, bool tr) { s.solve_mrhs(x, k, tr); }
  template <class X> static void mmult(const S &, X &, size_t, bool) {}
  enum { TRAN = 1, MM = 0 };
};
template <> struct Call<hif::SYEIG<T>> {
  typedef hif::SYEIG<T> S;
  static void solve(const S &s, hif::Array<T> &x, size_t k, bool) { s.solve(x, k); }
  static void mult(const S &s, hif::Array<T> &x, size_t k, bool) { s.multiply(x, k); }
  template <class X> static void wsolve(const S &s, X &x, size_t k, bool) { s.solve(x, k); }
  template <class X> static void wmult(const S &s, X &x, size_t k, bool) { s.multiply(x, k); }
  template <class X> static void msolve(const S &s, X &x, size_t k, bool) { s.solve_mrhs(x, k); }
  template <class X> static void mmult(const S &s, X &x, size_t k, bool) { s.multiply_mrhs(x, k); }
  enum { TRAN = 0, MM = 1 };
};
template <class S> static Mat<D> op(mc::Case &c, const S &s, int n, bool mult, size_t k, bool tr) {
  Mat<D>        X(n, n);
  hif::Array<T> x(n);
  for (int j = 0; j < n; ++j) {
    for (int i = 0; i < n; ++i) x[i] = T(i == j);
    mult ? Call<S>::mult(s, x, k, tr) : Call<S>::solve(s, x, k, tr);
    for (int i = 0; i < n; ++i) X(i, j) = D(x[i]);
  }
  c.transition(n);
  return X;
}
typedef hif::DenseMatrix<T> Dn;
// the three ways to set a matrix
template <class S> static void set(S &s, const Mat<T> &A, int way) {
  const int n = A.n;
  if (way == 0) s.set_matrix(to_cs<hif::CRS<T, int>>(A));
  else if (way == 1) s.set_matrix(to_cs<hif::CCS<T, int>>(A));
  else if (way == 2) {
    Dn d(n, A.m);
    for (int i = 0; i < n; ++i)
      for (int j = 0; j < A.m; ++j) d(i, j) = A(i, j);
    s.set_matrix(std::move(d));
  } else {
    hif::DenseMatrix<D> d(n, A.m);
    for (int i = 0; i < n; ++i)
      for (int j = 0; j < A.m; ++j) d(i, j) = D(A(i, j));
    s.set_matrix(d);
  }
}
static hif::Params par() {
  auto p    = base_params();
  p.verbose = 0;
  return p;
}
// the calls that must agree with the plain ones
template <class S> static void agree(mc::Case &c, S &s, const Mat<T> &A, const hif::Params &p, size_t k, double scale, double scaley) {
  const int n = A.n;
  for (int tr = 0; tr <= (int)Call<S>::TRAN; ++tr)
    for (int m = 0; m < 2; ++m) {
      Mat<D> X = op(c, s, n, m, k, tr);
      if (!finite(X)) return;
      const double sc = (m ? scaley : scale);
      hif::Array<std::array<T, 3>> b(n);
      for (int i = 0; i < n; ++i)
        for (int j = 0; j < 3; ++j) b[i][j] = T((i + j) % n == 0 ? 1 : 0) + T(j == 2 ? 0.5 : 0);
      auto b0 = b;
      b0 = hif::Array<std::array<T, 3>>(n);
      for (int i = 0; i < n; ++i) b0[i] = b[i];
      if (!m || Call<S>::MM) {
        m ? Call<S>::mmult(s, b, k, tr) : Call<S>::msolve(s, b, k, tr);
        c.transition();
        for (int i = 0; i < n; ++i)
          for (int j = 0; j < 3; ++j) {
            D e = D(b[i][j]);
            for (int l = 0; l < n; ++l) e -= X(i, l) * D(b0[l][j]);
            if (!(std::abs(e) <= sc)) {
              c.fail("%s with several right-hand sides differs by %g (tol %g), tran=%d rank argument %zu", m ? "multiplication" : "solution", std::abs(e), sc, tr, k);
              return;
            }
          }
      }
      hif::Array<D> w(n);
      hif::Array<T> x(n);
      for (int i = 0; i < n; ++i) x[i] = T(i + 1), w[i] = D(i + 1);
      m ? Call<S>::mult(s, x, k, tr) : Call<S>::solve(s, x, k, tr);
      m ? Call<S>::wmult(s, w, k, tr) : Call<S>::wsolve(s, w, k, tr);
      c.transition(2);
      for (int i = 0; i < n; ++i)
        if (T(w[i]) != x[i]) {
          c.fail("%s differs with vectors of another type", m ? "multiplication" : "solution");
          return;
        }
      c.validated(2);
    }
  // factorized again from its copy
  Mat<D> X = op(c, s, n, 0, k, 0);
  const size_t r = s.rank();
  s.refactorize(p);
  Mat<D> Z = op(c, s, n, 0, k, 0);
  for (int i = 0; i < n; ++i)
    for (int j = 0; j < n; ++j)
      if (s.mat_backup()(i, j) != A(i, j)) { c.fail("the copy of the matrix changed"); return; }
  if (r != s.rank() || !(X == Z)) c.fail("factorizing the copy gives another result");
  c.validated();
}
static std::vector<int> support(const Mat<D> &X) {
  std::vector<int> J;
  for (int i = 0; i < X.n; ++i)
    for (int j = 0; j < X.m; ++j)
      if (X(i, j) != D(0)) { J.push_back(i); break; }
  return J;
}
// rk < 0: unknown
static void qrcp(mc::Case &c, const Mat<T> &A0, int rk, double thres, int way) {
  const int n = A0.n;
  Mat<D>    A = up(A0);
  c.desc("QRCP %s rank=%d threshold=%g way=%d", show(A0).substr(0, 500).c_str(), rk, thres, way);
  hif::QRCP<T> s;
  auto         p = par();
  p.rrqr_cond = thres;
  set(s, A0, way);
  s.factorize(p);
  c.transition();
  const int r = s.rank();
  c.outcome(r);
  if (rk >= 0 && r != rk) { c.fail("rank %d reported for a matrix of rank %d", r, rk); return; }
  if (r > n || s.full_rank() != (r == n && n)) { c.fail("inconsistent rank report %d", r); return; }
  const double na = nrm(A) * n;
  std::vector<int> J;
  for (int k = 1; k <= r; ++k) {
    Mat<D> X = op(c, s, n, 0, k, 0), Xt = op(c, s, n, 0, k, 1), Y = op(c, s, n, 1, k, 0), Yt = op(c, s, n, 1, k, 1);
    if (!finite(X) || !finite(Y) || !finite(Xt) || !finite(Yt)) { c.fail("non-finite results with rank %d of %d", k, r); return; }
    auto K = support(X);
    std::vector<int> neu;
    for (int j : K)
      if (std::find(J.begin(), J.end(), j) == J.end()) neu.push_back(j);
    if ((int)K.size() != k || neu.size() != 1) { c.fail("solving with rank %d uses %zu unknowns, %zu of them new", k, K.size(), neu.size()); return; }
    // greedy choice of columns: distance of each column from the span of the previous ones
    if (J.size()) {
      Mat<D>              Xp = op(c, s, n, 0, k - 1, 0), P = mul(A, mul(Xp, A));
      double              best = 0, mine = 0;
      for (int j = 0; j < n; ++j) {
        double d = 0;
        for (int i = 0; i < n; ++i) d += std::norm(A(i, j) - P(i, j));
        d = std::sqrt(d);
        best = std::max(best, d);
        if (j == neu[0]) mine = d;
      }
      double slack = 1e3 * EPS * n * na * (1 + nrm(Xp) * na) + 1e-3 * best;
      if (mine < best - slack) { c.fail("column %d chosen as pivot %d is at distance %g from the previous ones, another is at %g", neu[0], k, mine, best); return; }
    }
    J.push_back(neu[0]);
    const double nx = nrm(X) * n, cond = (1 + nx * na) * n, tol = 60 * EPS * cond;
    if (!(tol < 1e-2)) { c.skip("too ill-conditioned to compare"); break; }
    // X is the pseudo-inverse of the chosen columns, Y the chosen columns
    Mat<D> AJ(n, n), I(n, n);
    for (int j : J) {
      I(j, j) = D(1);
      for (int i = 0; i < n; ++i) AJ(i, j) = A(i, j);
    }
    double d = diff(mul(X, AJ), I);
    if (!(d <= tol)) { c.fail("rank %d: the solution of a consistent system is off by %g (tol %g)", k, d, tol); return; }
    Mat<D> Q = mul(AJ, X);
    d = diff(Q, adj(Q));
    if (!(d <= tol)) { c.fail("rank %d: not the least-squares solution, %g (tol %g)", k, d, tol); return; }
    d = diff(Y, AJ);
    if (!(d <= 60 * EPS * na * n)) { c.fail("rank %d: multiplication is off by %g", k, d); return; }
    d = diff(Xt, adj(X));
    if (!(d <= tol * nx)) { c.fail("rank %d: the transposed solution is off by %g (tol %g)", k, d, tol * nx); return; }
    d = diff(Yt, adj(Y));
    if (!(d <= 60 * EPS * na * n)) { c.fail("rank %d: the transposed multiplication is off by %g", k, d); return; }
    c.validated(5);
    if (k == r) {
      if (!(op(c, s, n, 0, 0, 0) == X) || !(op(c, s, n, 1, 0, 0) == Y) || !(op(c, s, n, 0, 0, 1) == Xt) || !(op(c, s, n, 1, 0, 1) == Yt)) { c.fail("rank argument 0 is not the numerical rank %d", r); return; }
      if (r == n && !(op(c, s, n, 0, n + 5, 0) == X)) { c.fail("rank arguments beyond the order are not the order"); return; }
      c.validated();
    }
    if (k == r || k == 1) {
      agree(c, s, A0, p, k, tol * nx * 10, 600 * EPS * na * n);
      if (c.nfail) return;
    }
  }
  if (!r) {
    if (nrm(op(c, s, n, 0, 0, 0)) || nrm(op(c, s, n, 0, 0, 1)) || nrm(op(c, s, n, 1, 0, 0)) || nrm(op(c, s, n, 1, 0, 1))) c.fail("rank zero, but nonzero results");
  }
  // threshold: what is kept is conditioned as asked, and would not be with one column more
  const double dflt = std::pow(EPS, -2. / 3), ct = thres > 0 ? thres : dflt;
  if (ct < 1e6 && r > 0 && J.size() == (size_t)r) {
    double k0 = cond2(A, J);
    if (k0 > 10 * n * ct) { c.fail("rank %d kept with condition number %g (threshold %g)", r, k0, ct); return; }
    if (r < n) {
      // the next pivot is the column farthest from the span
      Mat<D> X = op(c, s, n, 0, r, 0), P = mul(A, mul(X, A));
      double least = 1e300;
      for (int j = 0; j < n; ++j) {
        if (std::find(J.begin(), J.end(), j) != J.end()) continue;
        auto K = J;
        K.push_back(j);
        least = std::min(least, cond2(A, K));
      }
      if (least * 1.001 < ct * (1 - 1e-6) / 1.001 && least * 40 * n < ct) { c.fail("rank %d of %d, though one more column is conditioned by %g (threshold %g)", r, n, least, ct); return; }
    }
    c.validated();
  }
  c.state(mc::hash_bytes(J.data(), J.size() * sizeof(int), n * 100 + r));
}
static void lup(mc::Case &c, const Mat<T> &A0, bool nonsing, int way) {
  const int n = A0.n;
  Mat<D>    A = up(A0), B;
  c.desc("LUP %s way=%d", show(A0).substr(0, 500).c_str(), way);
  hif::LUP<T> s;
  auto        p = par();
  set(s, A0, way);
  s.factorize(p);
  c.transition();
  if (nonsing && (s.rank() != (size_t)n || !s.full_rank())) { c.fail("rank %zu reported for a nonsingular matrix of order %d", s.rank(), n); return; }
  Mat<D> Y = op(c, s, n, 1, 0, 0), Yt = op(c, s, n, 1, 0, 1);
  double na = nrm(A) * n;
  if (!(diff(Y, A) <= 10 * EPS * na) || !(diff(Yt, adj(A)) <= 10 * EPS * na)) { c.fail("multiplication is not the matrix"); return; }
  c.validated();
  if (!nonsing || gj(A, &B) != n) return;
  const double nx = nrm(B) * n, tol = 100 * EPS * n * na * nx;
  if (!(tol < 1e-2)) { c.skip("too ill-conditioned to compare"); return; }
  Mat<D> X = op(c, s, n, 0, 0, 0), Xt = op(c, s, n, 0, 0, 1);
  double d = diff(X, B);
  if (!(d <= tol * nx)) { c.fail("the solution is off by %g (tol %g)", d, tol * nx); return; }
  d = diff(Xt, adj(B));
  if (!(d <= tol * nx)) { c.fail("the transposed solution is off by %g (tol %g)", d, tol * nx); return; }
  if (!(op(c, s, n, 0, 3, 0) == X)) { c.fail("the rank argument matters"); return; }
  c.validated(3);
  agree(c, s, A0, p, 0, tol * nx * 10, 600 * EPS * na * n);
}
static void syeig(mc::Case &c, const Mat<T> &A0, int spd, int way) {
  const int n = A0.n;
  Mat<D>    A = up(A0), V;
  c.desc("SYEIG %s spd=%d way=%d", show(A0).substr(0, 500).c_str(), spd, way);
  hif::SYEIG<T> s;
  auto          p = par();
  p.spd = spd;
  set(s, A0, way);
  s.factorize(p);
  c.transition();
  std::vector<double> w;
  jacobi(A, w, V);
  std::vector<int> o(n);
  for (int i = 0; i < n; ++i) o[i] = i;
  auto key = [&](int i) { return spd > 0 ? w[i] : spd < 0 ? -w[i] : std::abs(w[i]); };
  std::sort(o.begin(), o.end(), [&](int a, int b) { return key(a) > key(b); });
  double mx = 0;
  for (double x : w) mx = std::max(mx, std::abs(x));
  const double th = std::pow(EPS, 2. / 3) * mx;
  int          r = 0;
  for (int i = 0; i < n; ++i) {
    if (std::abs(key(i) - th) < 0.1 * th + 20 * n * EPS * mx && mx > 0) {
      if (std::abs(key(i)) > 1e-13 * mx && std::abs(key(i) - th) < 0.5 * th) { c.skip("an eigenvalue at the threshold"); return; }
    }
    r += key(i) > th;
  }
  c.outcome(r * 3 + spd);
  if ((int)s.rank() != r) { c.fail("rank %zu, but %d eigenvalues count", s.rank(), r); return; }
  for (int k = 0; k <= r; ++k) {
    if (k < r && (k == 0 || key(o[k - 1]) - key(o[k]) < 1e3 * EPS * mx * n)) {
      if (k) c.skip("rank argument within a cluster of eigenvalues");
      continue;
    }
    const double gap = k == r ? 1 : (key(o[k - 1]) - key(o[k])) / mx;
    Mat<D>       X(n, n), Y(n, n);
    double       lo = mx;
    for (int q = 0; q < k; ++q) {
      lo = std::min(lo, std::abs(w[o[q]]));
      for (int i = 0; i < n; ++i)
        for (int j = 0; j < n; ++j) {
          D vv = V(i, o[q]) * conj_(V(j, o[q]));
          X(i, j) += vv / w[o[q]], Y(i, j) += vv * w[o[q]];
        }
    }
    // (the dropped part decides how well the kept invariant subspace is determined)
    double sep = mx;
    for (int q = k; q < n; ++q)
      for (int t = 0; t < k; ++t) sep = std::min(sep, std::abs(w[o[q]] - w[o[t]]));
    if (k < r) sep = std::min(sep, gap * mx);
    const double tol = 100 * EPS * n * (mx ? mx / lo + mx / sep : 1);
    if (!(tol < 1e-2)) { c.skip("too ill-conditioned to compare"); continue; }
    for (size_t a : {(size_t)(k == r ? 0 : k), (size_t)k}) {
      if (!a && k != r) continue;
      double d = diff(op(c, s, n, 0, a, 0), X);
      if (!(d <= tol / (lo ? lo : 1))) { c.fail("rank argument %zu: the solution is off by %g (tol %g)", a, d, tol / lo); return; }
      d = diff(op(c, s, n, 1, a, 0), Y);
      if (!(d <= tol * mx)) { c.fail("rank argument %zu: the multiplication is off by %g (tol %g)", a, d, tol * mx); return; }
      c.validated(2);
    }
    if (k == r) {
      agree(c, s, A0, p, 0, 100 * tol / (lo ? lo : 1), 100 * tol * (mx + 1e-30));
      if (c.nfail) return;
    }
  }
  c.state(mc::mix(r, mc::mix(n, spd + 5)));
}
static void all(mc::Case &c, const Mat<D> &A) {
  const int rk = gj<D>(A, nullptr);
  Mat<T>    B = down(A);
  const int w = (c.idx + c.idx / 7) % 4;
  qrcp(c, B, rk, 0, w);
  if (!c.nfail) lup(c, B, rk == A.n, (w + 1) % 4);
}
static void thr(mc::Case &c, const Mat<D> &A) {
  static const double t[] = {2, 10, 100, 1e4};
  for (double x : t) {
    qrcp(c, down(A), -1, x, c.idx % 4);
    if (c.nfail) return;
  }
}
static void herm(mc::Case &c, const Mat<D> &A) {
  for (int spd = -1; spd <= 1; ++spd) {
    syeig(c, down(A), spd, (c.idx + spd + 1) % 4);
    if (c.nfail) return;
  }
}
// errors are reported, nothing is touched
template <class S> static void misuse(mc::Case &c, const char *name) {
  auto p = par();
  auto expect = [&](const char *what, std::function<void()> f) {
    c.transition();
    c.validated();
    try {
      f();
    } catch (const std::exception &) { return; }
    c.fail("%s: %s not refused", name, what);
  };
  S e;
  if (!e.empty() || e.rank() || e.full_rank()) c.fail("%s: fresh object not empty", name);
  hif::Array<T> x(3), y(2), z;
  expect("factorizing nothing", [&] { e.factorize(p); });
  expect("solving without a matrix", [&] { Call<S>::solve(e, x, 0, false); });
  S s;
  Mat<T> A(3, 3);
  for (int i = 0; i < 3; ++i) A(i, i) = T(2);
  set(s, A, c.idx % 4);
  expect("solving before factorizing", [&] { Call<S>::solve(s, x, 0, false); });
  s.factorize(p);
  expect("a shorter right-hand side", [&] { Call<S>::solve(s, y, 0, false); });
  expect("an empty right-hand side", [&] { Call<S>::solve(s, z, 0, false); });
  expect("a shorter right-hand side in multiplication", [&] { Call<S>::mult(s, y, 0, false); });
  hif::Array<T> l(4);
  expect("a longer right-hand side", [&] { Call<S>::solve(s, l, 0, false); });
  expect("a longer right-hand side in multiplication", [&] { Call<S>::mult(s, l, 0, false); });
  hif::Array<std::array<T, 2>> m(2), ml(4);
  expect("shorter right-hand sides", [&] { Call<S>::msolve(s, m, 0, false); });
  expect("longer right-hand sides", [&] { Call<S>::msolve(s, ml, 0, false); });
  S q;
  Mat<T> W(2, 3);
  W(0, 0) = W(1, 1) = T(1);
  set(q, W, 2);
  expect("a matrix with more columns than rows", [&] { q.factorize(p); });
}
int main(int argc, char **argv) {
  using mc::Family;
  std::vector<Family> F;
  const bool th = mc::thorough();
  std::vector<D> a2, a3, g{D(1), D(-0.5), D(1. / 64), D(1. / 4096), D(0)};
  if (is_cplx<D>::value) a2 = {D(0), D(1), Mk<D>::mk(0, 1), Mk<D>::mk(-1, 2), Mk<D>::mk(2, -1)}, a3 = {D(0), D(1), Mk<D>::mk(-1, 1)};
  else a2 = {D(0), D(1), D(-1), D(2), D(-3), D(4)}, a3 = {D(0), D(1), D(-2)};
  F.push_back({"misuse", "misuse of the three solvers", 4, [=](mc::Case &c) { misuse<hif::QRCP<T>>(c, "QRCP"), misuse<hif::LUP<T>>(c, "LUP"), misuse<hif::SYEIG<T>>(c, "SYEIG"); }});
  F.push_back({"one", "1x1 matrices", a2.size(), [=](mc::Case &c) {
                 Mat<D> A(1, 1);
                 A(0, 0) = a2[c.idx];
                 all(c, A);
                 A(0, 0) = std::real(A(0, 0));
                 if (!c.nfail) herm(c, A);
               }});
  F.push_back({"alpha2", "all 2x2 matrices over 5-6 values", ipow(a2.size(), 4), [=](mc::Case &c) { all(c, by_alphabet<D>(2, c.idx, a2)); }});
  F.push_back({"alpha3", "all 3x3 matrices over 3 values", ipow(3, 9), [=](mc::Case &c) { all(c, by_alphabet<D>(3, c.idx, a3)); }});
  F.push_back({"pat4", "all 4x4 patterns", 65536, [=](mc::Case &c) { all(c, by_pattern<D>(4, c.idx, 0)); }});
  F.push_back({"thr2", "all 2x2 matrices over graded values x 4 thresholds", ipow(5, 4), [=](mc::Case &c) { thr(c, by_alphabet<D>(2, c.idx, g)); }});
  F.push_back({"thr3", "3x3 diagonal-plus matrices over graded values x 4 thresholds", ipow(5, 6), [=](mc::Case &c) {
                 Mat<D>   A(3, 3);
                 uint64_t k = c.idx;
                 for (int i = 0; i < 3; ++i)
                   for (int j = i; j < 3; ++j, k /= 5) A(i, j) = g[k % 5] * (is_cplx<D>::value && (i + j) % 2 ? Mk<D>::mk(0.6, 0.8) : D(1));
                 thr(c, A);
               }});
  F.push_back({"diag", "4x4 permuted graded diagonals x thresholds: the rank is the number of entries within the threshold", 256 * 24, [=](mc::Case &c) {
                 static const double e[] = {1, 0.25, 1. / 128, 1. / 65536};
                 static const double t[] = {3, 40, 1000, 1e7};
                 std::vector<int>    pm{0, 1, 2, 3};
                 for (uint64_t q = c.idx / 256; q; --q) std::next_permutation(pm.begin(), pm.end());
                 Mat<D>   A(4, 4);
                 uint64_t k = c.idx % 256;
                 double   mx = 0;
                 for (int i = 0; i < 4; ++i, k /= 4) A(i, pm[i]) = e[k % 4] * (is_cplx<D>::value && i % 2 ? Mk<D>::mk(0, -1) : D(1)), mx = std::max(mx, e[k % 4]);
                 for (double x : t) {
                   if (x * 1e3 > 1 / EPS) continue;
                   int r = 0;
                   for (int i = 0; i < 4; ++i) r += mx <= x * std::abs(A(i, pm[i]));
                   qrcp(c, down(A), r, x, c.idx % 4);
                   if (c.nfail) return;
                 }
               }});
  F.push_back({"struct", "20 structure classes x orders {2,5,9,17,40,70} (thorough: and 101)", NSTRUCT * (mc::thorough() ? 7 : 6), [=](mc::Case &c) {
                 static const int ns[] = {2, 5, 9, 17, 40, 70, 101};
                 Mat<D> A = structured<D>(c.idx % NSTRUCT, ns[c.idx / NSTRUCT]), B;
                 const bool non = gj(A, &B) == A.n && nrm(B) * nrm(A) * A.n < 0.01 / EPS / A.n;
                 Mat<T> S = down(A);
                 const bool well = non && nrm(B) * nrm(A) * A.n * A.n < std::pow(EPS, -0.5);
                 qrcp(c, S, well ? A.n : -1, 0, c.idx % 4);
                 if (!c.nfail) lup(c, S, non, (c.idx + 2) % 4);
               }});
  F.push_back({"herm2", "2x2 Hermitian matrices over 5-6 values x definiteness flags", a2.size() * a2.size() * a2.size(), [=](mc::Case &c) {
                 Mat<D>       A(2, 2);
                 const size_t m = a2.size();
                 A(0, 0) = std::real(a2[c.idx % m]), A(1, 1) = std::real(a2[c.idx / m % m]), A(1, 0) = a2[c.idx / m / m], A(0, 1) = conj_(A(1, 0));
                 herm(c, A);
               }});
  F.push_back({"herm3", "all Hermitian 3x3 patterns x 3 tables x definiteness flags", 64 * 3, [=](mc::Case &c) { herm(c, herm_pattern<D>(3, c.idx / 3, c.idx % 3)); }});
  F.push_back({"herm4", "all Hermitian 4x4 patterns x 3 tables x definiteness flags", 1024 * 3, [=](mc::Case &c) { herm(c, herm_pattern<D>(4, c.idx / 3, c.idx % 3)); }});
  F.push_back({"hstruct", "Hermitian parts of 20 structure classes x orders {5,9,17,40,70} (thorough: and 101) x definiteness flags", NSTRUCT * (mc::thorough() ? 6 : 5), [=](mc::Case &c) {
                 static const int ns[] = {5, 9, 17, 40, 70, 101};
                 herm(c, hermitize(structured<D>(c.idx % NSTRUCT, ns[c.idx / NSTRUCT])));
               }});
  return mc::drive(argc, argv, F);
}
