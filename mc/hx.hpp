// Shared helpers: dense reference algebra, matrix enumeration, and the
// enumerated factorization configurations.
#pragma once
#ifndef HIF_THROW
#  define HIF_THROW
#endif
#include <complex>
#include <cmath>
#include <memory>
#include <sstream>
#include "hifir.hpp"
#include "mc.hpp"

namespace hx {

typedef std::complex<double> cd;
typedef std::complex<float>  cf;

template <class T> struct is_cplx { static const bool value = false; };
template <class T> struct is_cplx<std::complex<T>> { static const bool value = true; };
template <class T> struct real_of { typedef T type; };
template <class T> struct real_of<std::complex<T>> { typedef T type; };

inline double conj_(double v) { return v; }
inline float  conj_(float v) { return v; }
inline cd     conj_(const cd &v) { return std::conj(v); }
inline cf     conj_(const cf &v) { return std::conj(v); }

template <class T> struct Mk { static T mk(double re, double) { return T(re); } };
template <class T> struct Mk<std::complex<T>> {
  static std::complex<T> mk(double re, double im) { return std::complex<T>(T(re), T(im)); }
};

// dense row-major matrix
template <class T> struct Mat {
  int            n = 0, m = 0;
  std::vector<T> v;
  Mat() {}
  Mat(int n_, int m_) : n(n_), m(m_), v((size_t)n_ * m_, T(0)) {}
  T &      operator()(int i, int j) { return v[(size_t)i * m + j]; }
  const T &operator()(int i, int j) const { return v[(size_t)i * m + j]; }
  bool     operator==(const Mat &o) const { return n == o.n && m == o.m && v == o.v; }
};

template <class T> inline Mat<T> eye(int n) {
  Mat<T> I(n, n);
  for (int i = 0; i < n; ++i) I(i, i) = T(1);
  return I;
}
template <class T> inline Mat<T> mul(const Mat<T> &A, const Mat<T> &B) {
  Mat<T> C(A.n, B.m);
  for (int i = 0; i < A.n; ++i)
    for (int k = 0; k < A.m; ++k)
      if (A(i, k) != T(0))
        for (int j = 0; j < B.m; ++j) C(i, j) += A(i, k) * B(k, j);
  return C;
}
template <class T> inline Mat<T> adj(const Mat<T> &A) {
  Mat<T> C(A.m, A.n);
  for (int i = 0; i < A.n; ++i)
    for (int j = 0; j < A.m; ++j) C(j, i) = conj_(A(i, j));
  return C;
}
template <class T> inline double nrm(const Mat<T> &A) {  // max-norm * n, cheap upper estimate
  double s = 0;
  for (auto &x : A.v) s = std::max(s, (double)std::abs(x));
  return s;
}
template <class T> inline bool finite(const Mat<T> &A) {
  for (auto &x : A.v)
    if (!std::isfinite((double)std::abs(x))) return false;
  return true;
}
template <class T> inline double diff(const Mat<T> &A, const Mat<T> &B) {
  double s = 0;
  for (size_t i = 0; i < A.v.size(); ++i) {
    double d = (double)std::abs(A.v[i] - B.v[i]);
    if (!(d <= s)) s = std::isnan(d) ? INFINITY : d;
  }
  return s;
}

// inverse by Gauss-Jordan with complete pivoting; returns rank. inv valid if rank==n
template <class T> inline int gj(const Mat<T> &A0, Mat<T> *inv, double tol = 1e-10) {
  int              n = A0.n;
  Mat<T>           A = A0, X = eye<T>(n);
  std::vector<int> cp(n);
  for (int i = 0; i < n; ++i) cp[i] = i;
  double mx = nrm(A0);
  int    r  = 0;
  for (; r < n; ++r) {
    int    pi = r, pj = r;
    double b  = -1;
    for (int i = r; i < n; ++i)
      for (int j = r; j < n; ++j)
        if (std::abs(A(i, j)) > b) b = std::abs(A(i, j)), pi = i, pj = j;
    if (!(b > tol * mx)) break;
    for (int j = 0; j < n; ++j) std::swap(A(r, j), A(pi, j)), std::swap(X(r, j), X(pi, j));
    for (int i = 0; i < n; ++i) std::swap(A(i, r), A(i, pj));
    std::swap(cp[r], cp[pj]);
    T d = T(1) / A(r, r);
    for (int j = 0; j < n; ++j) A(r, j) *= d, X(r, j) *= d;
    for (int i = 0; i < n; ++i)
      if (i != r && A(i, r) != T(0)) {
        T f = A(i, r);
        for (int j = 0; j < n; ++j) A(i, j) -= f * A(r, j), X(i, j) -= f * X(r, j);
      }
  }
  if (r == n && inv) {
    *inv = Mat<T>(n, n);
    for (int i = 0; i < n; ++i)
      for (int j = 0; j < n; ++j) (*inv)(cp[i], j) = X(i, j);
  }
  return r;
}

template <class T> inline std::string show(const Mat<T> &A) {
  std::ostringstream o;
  o.precision(9);
  o << "[";
  for (int i = 0; i < A.n; ++i) {
    if (i) o << "; ";
    for (int j = 0; j < A.m; ++j) {
      if (j) o << ' ';
      o << A(i, j);
    }
  }
  o << "]";
  return o.str();
}

// ---- sparse conversion (explicit zeros are not stored) ----
// keep: optional pattern of explicitly stored entries
// full: store the zeros explicitly
template <class Cs, class T> inline Cs to_cs(const Mat<T> &A, int base = 0, bool full = false) {
  typedef typename Cs::value_type  V;
  typedef typename Cs::index_type  I;
  Cs                               S(A.n, A.m);
  const int                        P = Cs::ROW_MAJOR ? A.n : A.m, Q = Cs::ROW_MAJOR ? A.m : A.n;
  size_t                           nz = 0;
  for (auto &x : A.v) nz += full || x != T(0);
  S.ind_start().resize(P + 1);
  S.inds().resize(nz);
  S.vals().resize(nz);
  size_t k         = 0;
  S.ind_start()[0] = base;
  for (int i = 0; i < P; ++i) {
    for (int j = 0; j < Q; ++j) {
      T x = Cs::ROW_MAJOR ? A(i, j) : A(j, i);
      if (full || x != T(0)) {
        S.inds()[k] = I(j + base);
        S.vals()[k] = V(x);
        ++k;
      }
    }
    S.ind_start()[i + 1] = k + base;
  }
  return S;
}
template <class T, class Cs> inline Mat<T> from_cs(const Cs &S) {
  Mat<T>    A((int)S.nrows(), (int)S.ncols());
  const int P    = Cs::ROW_MAJOR ? A.n : A.m;
  if (S.ind_start().size() == 0 || P == 0) return A;
  const int base = (int)S.ind_start()[0];
  for (int i = 0; i < P; ++i)
    for (auto k = S.ind_start()[i] - base; k < S.ind_start()[i + 1] - base; ++k) {
      int j = (int)S.inds()[k] - base;
      if (Cs::ROW_MAJOR) A(i, j) += T(S.vals()[k]);
      else A(j, i) += T(S.vals()[k]);
    }
  return A;
}

// ---- operators of a HIF object as dense matrices (column by column) ----
template <class T, class H> inline Mat<T> solve_op(const H &h, int n, bool tran, size_t r = 0) {
  Mat<T>        X(n, n);
  hif::Array<T> b(n), x(n);
  for (int j = 0; j < n; ++j) {
    for (int i = 0; i < n; ++i) b[i] = T(i == j), x[i] = T(0);
    h.solve(b, x, tran, r);
    for (int i = 0; i < n; ++i) X(i, j) = x[i];
  }
  return X;
}
template <class T, class H> inline Mat<T> mult_op(const H &h, int n, bool tran, size_t r = 0) {
  Mat<T>        X(n, n);
  hif::Array<T> b(n), x(n);
  for (int j = 0; j < n; ++j) {
    for (int i = 0; i < n; ++i) b[i] = T(i == j), x[i] = T(0);
    h.mmultiply(b, x, tran, r);
    for (int i = 0; i < n; ++i) X(i, j) = x[i];
  }
  return X;
}

// ---- configurations ----
struct Cfg {
  hif::Params p;
  std::string name;
};

inline hif::Params base_params() {
  hif::Params p = hif::get_default_params();
  p.verbose     = hif::VERBOSE_NONE;
  p.threads     = 1;
  return p;
}
// dropping switched off
inline hif::Params exact_params() {
  hif::Params p = base_params();
  p.tau_L = p.tau_U = 0.0;
  p.alpha_L = p.alpha_U = 1e3;
  return p;
}
// let the hierarchy go as deep as it can (dense last level only when forced)
inline void multilevel(hif::Params &p) {
  p.rho         = 1e9;
  p.c_d         = 0.0;
  p.dense_thres = 1;
}

inline std::string cfg_str(const hif::Params &p) {
  char b[400];
  snprintf(b, sizeof b,
           "tau=%g/%g kappa=%g/%g alpha=%g/%g rho=%g c_d=%g dense_thres=%d pivot=%d gamma=%g no_pre=%d reorder=%d "
           "symm_pre_lvls=%d is_symm=%d spd=%d pre_scale=%d beta=%g N=%d threads=%d fat=%d rf_par=%d rrqr=%g",
           p.tau_L, p.tau_U, p.kappa_d, p.kappa, p.alpha_L, p.alpha_U, p.rho, p.c_d, p.dense_thres, p.pivot, p.gamma,
           p.no_pre, p.reorder, p.symm_pre_lvls, p.is_symm, p.spd, p.pre_scale, p.beta, p.N, p.threads, p.fat_schur_1st,
           p.rf_par, p.rrqr_cond);
  return b;
}

// canonical hash of the structure of a factorization (levels, sizes, permutations, patterns)
template <class H> inline uint64_t struct_hash(const H &h) {
  uint64_t s = 7;
  for (auto &p : h.precs()) {
    s = mc::mix(s, p.m);
    s = mc::mix(s, p.n);
    for (size_t i = 0; i < p.p.size(); ++i) s = mc::mix(s, p.p[i]);
    for (size_t i = 0; i < p.q.size(); ++i) s = mc::mix(s, p.q[i] + 77);
    if (p.m) {
      for (size_t i = 0; i < p.L_B.nnz(); ++i) s = mc::mix(s, p.L_B.inds()[i]);
      s = mc::mix(s, 1);
      for (size_t i = 0; i < p.U_B.nnz(); ++i) s = mc::mix(s, p.U_B.inds()[i]);
    }
    s = mc::mix(s, p.E.nnz());
    s = mc::mix(s, p.F.nnz());
    s = mc::mix(s, p.is_last_level() ? p.last_rank() + 1 : 0);
  }
  return s;
}

// ---- matrix enumeration ----
// all n x n matrices over an alphabet of k values, index in [0, k^(n*n))
template <class T> inline Mat<T> by_alphabet(int n, uint64_t idx, const std::vector<T> &al) {
  Mat<T> A(n, n);
  for (int i = 0; i < n * n; ++i) {
    A.v[i] = al[idx % al.size()];
    idx /= al.size();
  }
  return A;
}
inline uint64_t ipow(uint64_t b, int e) {
  uint64_t r = 1;
  while (e--) r *= b;
  return r;
}
// fixed generic value for position (i,j): nonzero, sign-varying, well separated
template <class T> inline T gen_val(int i, int j, int table) {
  static const double a[3][9] = {{2, -1, 3, 1, -2, 1.5, 4, -3, 0.5}, {1, 1, -1, 2, -1, 1, 3, -2, 1}, {4, -0.25, 1, 8, 0.125, -2, 16, 3, -0.5}};
  static const double b[3][7] = {{1, -1, 0, 2, 0.5, -2, 1}, {0, 1, -1, 0, 2, 1, -0.5}, {-1, 0, 4, 0.25, 1, -1, 2}};
  const int           k       = (i * 5 + j * 7 + i * j) % 9, l = (i * 3 + j * 4 + i * j) % 7;
  double              d       = a[table][k];
  if (i == j) d += (table == 0 ? 1.0 : 0.0);
  if (d == 0) d = 1.25;
  return Mk<T>::mk(d, b[table][l]);
}
// pattern bits -> matrix with generic values
template <class T> inline Mat<T> by_pattern(int n, uint64_t bits, int table) {
  Mat<T> A(n, n);
  for (int i = 0; i < n; ++i)
    for (int j = 0; j < n; ++j, bits >>= 1)
      if (bits & 1) A(i, j) = gen_val<T>(i, j, table);
  return A;
}
// off-diagonal pattern bits, diagonal always present
template <class T> inline Mat<T> by_offpattern(int n, uint64_t bits, int table) {
  Mat<T> A(n, n);
  for (int i = 0; i < n; ++i)
    for (int j = 0; j < n; ++j) {
      if (i == j) {
        A(i, j) = gen_val<T>(i, j, table);
        continue;
      }
      if (bits & 1) A(i, j) = gen_val<T>(i, j, table);
      bits >>= 1;
    }
  return A;
}
// Hermitian matrix from upper-triangular (incl. diagonal) pattern bits; diagonal real
template <class T> inline Mat<T> herm_pattern(int n, uint64_t bits, int table) {
  Mat<T> A(n, n);
  for (int i = 0; i < n; ++i)
    for (int j = i; j < n; ++j, bits >>= 1)
      if (bits & 1) {
        T x = gen_val<T>(i, j, table);
        if (i == j) A(i, i) = T(std::real(x));
        else A(i, j) = x, A(j, i) = conj_(x);
      }
  return A;
}

}  // namespace hx
