// Enumerated input spaces shared by the explorers.
#pragma once
#include "hx.hpp"
namespace hx {

// all circulant-type patterns: bit k of `bits` stores the diagonal at offset k (mod n)
template <class T> inline Mat<T> circulant(int n, uint64_t bits, int table) {
  Mat<T> A(n, n);
  for (int i = 0; i < n; ++i)
    for (int k = 0; k < n; ++k)
      if (bits >> k & 1) A(i, (i + k) % n) = gen_val<T>(i, (i + k) % n, table);
  return A;
}
// banded: bit (k+b) keeps diagonal k in [-b,b]; zmask removes rows' diagonal entries
template <class T> inline Mat<T> banded(int n, int b, uint64_t bits, uint64_t zmask, int table) {
  Mat<T> A(n, n);
  for (int i = 0; i < n; ++i)
    for (int k = -b; k <= b; ++k) {
      int j = i + k;
      if (j < 0 || j >= n || !(bits >> (k + b) & 1)) continue;
      if (k == 0 && (zmask >> i & 1)) continue;
      A(i, j) = gen_val<T>(i, j, table);
    }
  return A;
}

enum { NSTRUCT = 20 };
inline const char *struct_name(int k) {
  static const char *nm[NSTRUCT] = {"laplace2d", "convection2d", "arrow-last", "arrow-first", "zero-diag-tridiag", "saddle", "blk-antidiag",
                                    "permuted-diag", "upper-dense", "lower-dense", "antidiag", "bad-scaling", "graded", "near-singular-blk",
                                    "blk2x2-indef", "skew+shift", "two-components", "dense", "star-nodiag", "cyclic-perm+rank1"};
  return nm[k];
}
// structured matrices; complex types get complex off-diagonal entries
template <class T> inline Mat<T> structured(int kind, int n) {
  Mat<T> A(n, n);
  auto   v = [](double re, double im = 0.0) { return Mk<T>::mk(re, im); };
  int    g = 1;
  while ((g + 1) * (g + 1) <= n) ++g;
  switch (kind) {
    case 0:
    case 1:
      for (int i = 0; i < n; ++i) {
        A(i, i) = v(4.0 + (kind ? 0.25 * (i % 3) : 0), kind ? 0.5 : 0);
        if ((i + 1) % g && i + 1 < n) A(i, i + 1) = v(-1 - 0.75 * kind, kind * 0.25), A(i + 1, i) = v(-1 + 0.75 * kind, kind * -0.5);
        if (i + g < n) A(i, i + g) = v(-1 - 0.5 * kind), A(i + g, i) = v(-1 + 0.5 * kind, kind);
      }
      break;
    case 2:
    case 3:
      for (int i = 0; i < n; ++i) {
        int c   = kind == 2 ? n - 1 : 0;
        A(i, i) = v(2 + i % 3, 1);
        if (i != c) A(i, c) = v(1, 0.5 * (i % 2)), A(c, i) = v(-1 - 0.125 * (i % 5));
      }
      break;
    case 4:
      for (int i = 0; i < n; ++i) {
        if (i + 1 < n) A(i, i + 1) = v(1 + 0.5 * (i % 2), 0.25), A(i + 1, i) = v(-1 + 0.25 * (i % 3));
        if (n % 2 && i == n - 1) A(i, i) = v(1);
      }
      break;
    case 5: {
      int h = (2 * n + 2) / 3;
      for (int i = 0; i < h; ++i) {
        A(i, i) = v(3 + i % 2, 0.5);
        if (i + 1 < h) A(i, i + 1) = v(-1), A(i + 1, i) = v(-1, 0.25);
      }
      for (int i = h; i < n; ++i) {
        int k   = i - h;
        A(i, k) = A(k, i) = v(1);
        A(i, (k + (n - h)) % h) = A((k + (n - h)) % h, i) = v(2, 1);
      }
      break;
    }
    case 6:
      for (int i = 0; i + 1 < n; i += 2) A(i, i + 1) = v(2, -1), A(i + 1, i) = v(-3);
      if (n % 2) A(n - 1, n - 1) = v(1);
      for (int i = 0; i + 3 < n; i += 2) A(i, i + 3) = v(0.5);
      break;
    case 7:
      for (int i = 0; i < n; ++i) A(i, (3 * i + 1) % n) += v(1 + i % 4, i % 3 - 1);
      if (n % 3 == 0)
        for (int i = 0; i < n; ++i) A(i, i) += v(7);
      break;
    case 8:
      for (int i = 0; i < n; ++i)
        for (int j = i; j < n; ++j) A(i, j) = i == j ? v(1 + i % 3) : v(((i + 2 * j) % 5 - 2) * 0.25, 0.25);
      break;
    case 9:
      for (int i = 0; i < n; ++i)
        for (int j = 0; j <= i; ++j) A(i, j) = i == j ? v(2 - (i % 2)) : v(((2 * i + j) % 5 - 2) * 0.25);
      break;
    case 10:
      for (int i = 0; i < n; ++i) A(i, n - 1 - i) = v(1 + i % 3, i % 2);
      for (int i = 0; i + 1 < n; ++i) A(i, n - 2 - i) = v(0.5);
      break;
    case 11:
      for (int i = 0; i < n; ++i) {
        double s = std::pow(10.0, (i * 7 % 9) - 4);
        A(i, i)  = v(3 * s);
        A(i, (i + 1) % n) += v(-s, s);
        A(i, (i + n / 2) % n) += v(0.5 * s);
      }
      break;
    case 12:
      for (int i = 0; i < n; ++i) {
        A(i, i) = v(std::pow(2.0, -(i % 12)));
        if (i) A(i, i - 1) = v(std::pow(2.0, -(i % 12) - 1)), A(i - 1, i) = v(std::pow(2.0, -(i % 12) - 1), 0.001);
      }
      break;
    case 13:
      for (int i = 0; i < n; ++i) {
        A(i, i) = v(i % 2 ? 1.0009765625 : 1.0);
        if (i % 2) A(i, i - 1) = v(1), A(i - 1, i) = v(1);
        if (i + 2 < n) A(i, i + 2) = v(0.25, 0.125);
      }
      break;
    case 14:
      for (int i = 0; i < n; ++i) {
        A(i, i) = v(i % 2 ? 1e-3 : -1e-3);
        if (i % 2) A(i, i - 1) = v(1), A(i - 1, i) = v(1, 0.5);
        if (i + 3 < n) A(i + 3, i) = v(0.5);
      }
      if (n % 2) A(n - 1, n - 1) = v(2);
      break;
    case 15:
      for (int i = 0; i < n; ++i) {
        A(i, i) = v(0.5, 0.1);
        if (i + 1 < n) A(i, i + 1) = v(2), A(i + 1, i) = v(-2);
        if (i + 4 < n) A(i, i + 4) = v(-1, 1), A(i + 4, i) = v(1, 1);
      }
      break;
    case 16:
      for (int i = 0; i < n; ++i) {
        A(i, i) = v(i % 2 ? 5 : 0.01);
        if (i + 2 < n) A(i, i + 2) = v(1), A(i + 2, i) = v(-1 - (i % 3));
      }
      break;
    case 17:
      for (int i = 0; i < n; ++i)
        for (int j = 0; j < n; ++j) A(i, j) = v(((i * 7 + j * 11 + i * j) % 13 - 6) * 0.25 + (i == j ? 4 : 0), ((i + 3 * j) % 5 - 2) * 0.25);
      break;
    case 18:
      for (int i = 1; i < n; ++i) {
        A(0, i) = v(1 + i % 2), A(i, 0) = v(2);
        if (i + 1 < n) A(i, i + 1) = v(1), A(i + 1, i) = v(-0.5);
        if (i % 3 == 0) A(i, i) = v(1);
      }
      break;
    case 19:
      for (int i = 0; i < n; ++i) {
        A(i, (i + 1) % n) += v(2, 1);
        for (int j = 0; j < n; j += 3) A(i, j) += v(0.125);
      }
      break;
  }
  return A;
}
template <class T> inline Mat<T> hermitize(const Mat<T> &A) {
  Mat<T> H = A;
  for (int i = 0; i < A.n; ++i)
    for (int j = 0; j < A.n; ++j) H(i, j) = (A(i, j) + conj_(A(j, i))) * T(0.5);
  return H;
}

// configurations without dropping; lvl 0: few, 1: medium, 2: full product
inline std::vector<hif::Params> configs_exact(int lvl) {
  std::vector<hif::Params> v;
  for (int pivot : {0, 1, 2})
    for (int nopre : {0, 1})
      for (int symm : {-2, 0, 9})
        for (int ro : {0, 1, 2, 3})
          for (double kap : {3.0, 1.3, 1e3})
            for (int ml : {0, 1}) {
              hif::Params p = exact_params();
              p.pivot = pivot, p.no_pre = nopre, p.symm_pre_lvls = symm, p.reorder = ro, p.kappa = p.kappa_d = kap;
              p.rf_par = kap != 1.3;
              if (ml) multilevel(p);
              if (nopre && (symm != -2 || ro != 0)) continue;
              if (ro == 1 && (lvl < 2 || kap != 3.0)) continue;
              if (lvl < 2 && kap == 1e3 && ro == 3) continue;
              if (lvl < 1 && !(ml == 1 && ((ro == 2 && kap == 3.0) || (ro == 0 && kap == 1.3 && symm == -2)))) continue;
              v.push_back(p);
            }
  return v;
}
// configurations with dropping and space control
inline std::vector<hif::Params> configs_drop(int lvl) {
  std::vector<hif::Params> v;
  int                      k = 0;
  for (int pivot : {0, 1, 2})
    for (int pre : {0, 1, 2, 3})  // 0: off, 1: default, 2: symmetric forced + RCM, 3: asymmetric
      for (double tau : {0.5, 0.01})
        for (double alpha : {0.4, 3.0})
          for (double kap : {1.4, 3.0})
            for (int ml : {0, 1}) {
              hif::Params p = base_params();
              p.pivot       = pivot;
              p.tau_L       = tau;
              p.tau_U       = ++k % 3 ? tau : 0.1;
              p.alpha_L     = alpha;
              p.alpha_U     = k % 4 ? alpha : 1.0;
              p.kappa = p.kappa_d = kap;
              p.rf_par        = k % 2;
              p.fat_schur_1st = k % 5 == 0;
              p.gamma         = k % 7 == 0 ? 0.3 : 1.0;
              if (pre == 0) p.no_pre = 1;
              if (pre == 2) p.symm_pre_lvls = 9, p.reorder = 3;
              if (pre == 3) p.symm_pre_lvls = 0;
              if (pre == 1 && k % 3 == 0) p.pre_scale = 1;
              if (pre == 1 && k % 3 == 1) p.pre_scale = 2;
              if (ml) multilevel(p);
              if (lvl == 0 && k % 8 != (pivot + pre) % 8) continue;
              if (lvl == 1 && k % 2) continue;
              v.push_back(p);
            }
  return v;
}
}  // namespace hx
