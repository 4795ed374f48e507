// P16: every sparse kernel computes what its dense formula says, on every storage, shape, transposition, number of
// right-hand sides, row range and mixture of value types; it touches nothing else and refuses unmatched sizes.
#include "spaces.hpp"
using namespace hx;

template <class T> struct nm { static const char *s() { return "double"; } };
template <> struct nm<float> { static const char *s() { return "float"; } };
template <> struct nm<cd> { static const char *s() { return "complex double"; } };
template <> struct nm<cf> { static const char *s() { return "complex float"; } };
template <class T> struct eps_of { static double v() { return std::numeric_limits<typename real_of<T>::type>::epsilon(); } };
static const double SENT = -77;

// table 0: small integers (every sum is exact, also in single precision); table 1: numbers that do not fit in single precision
template <class T> static T val(int i, int j, int table) {
  static const double a[] = {2, -3, 1, 4, -1, 5, -2, 3, 7, -5, 6, -4, 8};
  const double        r = a[(i * 5 + j * 3) % 13], m = a[(i * 2 + j * 7 + 4) % 13];
  return table ? Mk<T>::mk(r / 3., m / 7.) : Mk<T>::mk(r, m);
}
template <class T> static Mat<T> pat(int n, int m, uint64_t bits, int table) {
  Mat<T> A(n, m);
  for (int i = 0; i < n; ++i)
    for (int j = 0; j < m; ++j)
      if (bits >> (i * m + j) & 1) A(i, j) = val<T>(i, j, table);
  return A;
}
template <class T, class V> struct wider { typedef typename std::conditional<(sizeof(V) > sizeof(T)), V, T>::type type; };

// patterns of any size
static const int NBIG = 8;
template <class T> static Mat<T> big(int n, int m, int kind, int table) {
  Mat<T> A(n, m);
  for (int i = 0; i < n; ++i)
    for (int j = 0; j < m; ++j) {
      const uint64_t h  = mc::mix(i * 1000 + j, 17);
      bool           in = false;
      switch (kind) {
        case 0: in = true; break;
        case 1: in = i - j <= 2 && j - i <= 1; break;
        case 2: in = i == j || i == n - 1 || j == m - 1; break;
        case 3: in = h % 10 == 0; break;
        case 4: in = i == n / 2; break;
        case 5: in = j == m / 2; break;
        case 6: in = h % 3 && i % 5 != 2 && j % 7 != 3; break;
        case 7: in = i == n - 1 && j == m - 1; break;
      }
      if (in) A(i, j) = val<T>(i, j, table);
    }
  return A;
}
// strict triangles whose solutions do not grow
static const int NTRI = 6;
template <class T> static Mat<T> tri(int n, int kind, bool lower) {
  Mat<T> A(n, n);
  auto   put = [&](int i, int j, const T &v) { lower ? A(i, j) = v : A(j, i) = v; };
  for (int i = 1; i < n; ++i) switch (kind % NTRI) {
      case 0: put(i, i - 1, T(i % 3 ? 1 : -1)); break;
      case 1: put(n - 1, i - 1, val<T>(n, i, 0)); break;
      case 2: put(i, 0, val<T>(i, 1, 0)); break;
      case 3:
        for (int j = 0; j < i; ++j)
          if (i % 2 && j % 2 == 0 && mc::mix(i, j) % 3 == 0) put(i, j, val<T>(i, j, 0));
        break;
      case 4:
        if (i >= 7) put(i, i - 7, is_cplx<T>::value ? Mk<T>::mk(0, 1) : T(-1));
        if (i == n - 1)
          for (int j = 0; j + 1 < n; j += 2) put(i, j, val<T>(i, j, 0));
        break;
      case 5:
        for (int j = 0; j < i; ++j)
          if (i / 16 != j / 16 && i % 16 == 5 && j % 16 != 5) put(i, j, val<T>(i, j, 0));
        break;
    }
  return A;
}

// x as long double complex
typedef std::complex<long double> L;
template <class T> static L up(const T &v) { return L(std::real(v), std::imag(v)); }
template <class V> static std::string arr(const V *x, size_t n) {
  std::ostringstream o;
  o.precision(10);
  for (size_t i = 0; i < n; ++i) o << x[i] << " ";
  return o.str();
}

// compares y (type Vy, length n*K with stride K) with the exact result; everything is rounded at most in type Vy and computed in at least W
template <class T, class Vx, class Vy> struct Chk {
  mc::Case &   c;
  const Mat<T> A;
  int          table;
  std::string  what;
  template <int K> bool same(const Vy *y, const std::vector<Vx> &x, bool tran, const std::vector<char> &touched, const char *op) {
    typedef typename wider<T, typename wider<Vx, Vy>::type>::type W;
    const int n = tran ? A.m : A.n, m = tran ? A.n : A.m;
    for (int i = 0; i < n; ++i)
      for (int k = 0; k < K; ++k) {
        L    s = 0;
        long double mag = 0;
        for (int j = 0; j < m; ++j) {
          L a = tran ? std::conj(up(A(j, i))) : up(A(i, j));
          s += a * up(x[j * K + k]), mag += std::abs(a * up(x[j * K + k]));
        }
        if (!touched[i]) s = SENT, mag = 0;
        const double tol = table == 0 || !touched[i] ? 0 : mag * 8 * ((is_cplx<T>::value ? std::max(eps_of<T>::v(), eps_of<W>::v()) : eps_of<W>::v()) * 4 + (sizeof(Vy) < sizeof(W) ? eps_of<Vy>::v() : 0));
        if (!(std::abs(up(y[i * K + k]) - s) <= tol)) {
          c.fail("%s: row %d right-hand side %d is (%.17g,%.17g), not (%.17Lg,%.17Lg)", op, i, k, (double)std::real(y[i * K + k]), (double)std::imag(y[i * K + k]), s.real(), s.imag());
          return false;
        }
      }
    c.validated();
    return true;
  }
};

template <class F> static bool throws(F f) {
  try {
    f();
  } catch (const std::runtime_error &) {
    return true;
  }
  return false;
}
template <class V, int K> static hif::Array<std::array<V, K>> pack(const std::vector<V> &x) {
  hif::Array<std::array<V, K>> r(x.size() / K);
  for (size_t i = 0; i < r.size(); ++i)
    for (int k = 0; k < K; ++k) r[i][k] = x[i * K + k];
  return r;
}

template <class Cs, bool Row = Cs::ROW_MAJOR> struct Ranges {
  template <class CK, class Vx, class Vy, int K> static bool go(mc::Case &, CK &, const Cs &, const std::vector<Vx> &, std::integral_constant<int, K>, Vy *) { return true; }
};
template <class Cs> struct Ranges<Cs, true> {
  template <class CK, class Vx, class Vy, int K> static bool go(mc::Case &c, CK &ck, const Cs &S, const std::vector<Vx> &x, std::integral_constant<int, K>, Vy *) {
    const int n = S.nrows();
    auto      X = pack<Vx, K>(x);
    hif::Array<Vx> x1(x.size() / K);
    for (size_t i = 0; i < x1.size(); ++i) x1[i] = x[i * K];
    for (int st = 0; st <= n + 1; ++st)
      for (int len = 0; len <= n + 1; ++len) {
        // of the large matrices only the ranges at the ends and in the middle
        if (n > 12 && ((st > 1 && st != n / 2 && st < n - 1) || (len > 1 && len != n / 3 && len < n - st - 1) || len > n - st + 1)) continue;
        hif::Array<std::array<Vy, K>> Y(n);
        for (int i = 0; i < n; ++i) Y[i].fill(Vy(SENT));
        hif::Array<Vy> y1(n);
        for (int i = 0; i < n; ++i) y1[i] = Vy(SENT);
        const bool ok = st < n && st + len <= n;
        const bool r1 = throws([&] { S.multiply_mrhs_nt(X, st, len, Y); });
        const bool r2 = throws([&] { S.multiply_nt(x1, st, len, y1); });
        c.transition(2);
        if (r1 == ok || r2 == ok) {
          c.fail("row range start %d length %d of %d rows is %s", st, len, n, ok ? "refused" : "accepted");
          return false;
        }
        std::vector<char> t(n, 0);
        if (ok)
          for (int i = st; i < st + len; ++i) t[i] = 1;
        if (!ok) t.assign(n, 0);
        std::vector<Vx> xx(x1.cbegin(), x1.cend());
        if (n && !ck.template same<K>(Y[0].data(), x, false, t, "ranged product with several right-hand sides")) return false;
        if (n && !ck.template same<1>(y1.data(), xx, false, t, "ranged product")) return false;
      }
    return true;
  }
};

template <class Cs, class Vx, class Vy, int K> static bool products(mc::Case &c, const Mat<typename Cs::value_type> &A, int table) {
  typedef typename Cs::value_type T;
  c.desc("%s of %s, vectors %s -> %s, %d right-hand sides, values %d, A=%s", Cs::ROW_MAJOR ? "CRS" : "CCS", nm<T>::s(), nm<Vx>::s(), nm<Vy>::s(), K, table, show(A).c_str());
  const Cs S = to_cs<Cs>(A);
  Chk<T, Vx, Vy> ck{c, A, table, ""};
  for (int tran = 0; tran < 2; ++tran) {
    const int       nx = tran ? A.n : A.m, ny = tran ? A.m : A.n;
    std::vector<Vx> x(nx * K), x1(nx);
    for (int i = 0; i < nx; ++i)
      for (int k = 0; k < K; ++k) {
        // by turns vectors without zeros, and with zeros at places that go through all patterns
        x[i * K + k] = c.idx & 1 && (c.idx / 2 + 3 * tran) >> (i + 2 * k) % std::min(nx, 40) & 1 ? Vx(0) : val<Vx>(i + 2 * k, 3, table);
        if (!k) x1[i] = x[i * K];
      }
    hif::Array<Vx> ax(nx);
    std::copy(x1.begin(), x1.end(), ax.begin());
    auto              AX = pack<Vx, K>(x);
    std::vector<char> all(ny, 1);
    for (int form = 0; form < 3; ++form) {
      hif::Array<Vy>                ay(ny);
      hif::Array<std::array<Vy, K>> AY(ny);
      for (int i = 0; i < ny; ++i) ay[i] = Vy(SENT), AY[i].fill(Vy(SENT));
      switch (form) {
        case 0:
          S.multiply(ax, ay, tran);
          S.multiply_mrhs(AX, AY, tran);
          break;
        case 1:
          if (tran) S.multiply_t(ax, ay), S.multiply_mrhs_t(AX, AY);
          else S.multiply_nt(ax, ay), S.multiply_mrhs_nt(AX, AY);
          break;
        case 2:
          if (tran) {
            hif::multiply(S, ax, ay, true);
            if (nx && ny) S.template multiply_mrhs_t_low<K>(AX[0].data(), AY[0].data());
          } else {
            hif::mt::multiply_nt(S, ax, ay);
            hif::mt::multiply_mrhs_nt(S, AX, AY);
          }
      }
      c.transition(2);
      const char *op = tran ? "transposed product" : "product";
      if (!ck.template same<1>(ay.data(), x1, tran, all, op)) return false;
      if (ny && (nx || form < 2) && !ck.template same<K>(AY[0].data(), x, tran, all, tran ? "transposed product with several right-hand sides" : "product with several right-hand sides")) return false;
    }
    // unmatched sizes
    for (int dx = -1; dx <= 1; ++dx)
      for (int dy = -1; dy <= 1; ++dy)
        if ((dx || dy) && nx + dx >= 0 && ny + dy >= 0) {
          hif::Array<Vx>                bx(nx + dx);
          hif::Array<Vy>                by(ny + dy);
          hif::Array<std::array<Vx, K>> BX(nx + dx);
          hif::Array<std::array<Vy, K>> BY(ny + dy);
          for (auto &v : bx) v = Vx(1);
          for (auto &v : BX) v.fill(Vx(1));
          if (!throws([&] { S.multiply(bx, by, tran); }) || !throws([&] { S.multiply_mrhs(BX, BY, tran); }) || (!tran && !throws([&] { hif::mt::multiply_nt(S, bx, by); })) ||
              (!tran && !throws([&] { hif::mt::multiply_mrhs_nt(S, BX, BY); }))) {
            c.fail("unmatched sizes %d -> %d are accepted", nx + dx, ny + dy);
            return false;
          }
          c.transition(2);
        }
    if (!tran && !Ranges<Cs>::go(c, ck, S, x, std::integral_constant<int, K>(), (Vy *)0)) return false;
  }
  return true;
}

// strict triangular solves; y may be longer than the matrix
template <class Cs, class V, int K> static bool triangles(mc::Case &c, const Mat<typename Cs::value_type> &T0, bool lower, int table) {
  typedef typename Cs::value_type T;
  const int n = T0.n;
  const Cs  S = to_cs<Cs>(T0);
  c.desc("%s of %s, vector %s, %d right-hand sides, strict %s part %s", Cs::ROW_MAJOR ? "CRS" : "CCS", nm<T>::s(), nm<V>::s(), K, lower ? "lower" : "upper", show(T0).c_str());
  // every zero pattern of the first right-hand side (the others: the same pattern shifted)
  const int nz = n > 12 ? 6 : 1 << n;
  auto      zero = [&](int zi, int i) { return n > 12 ? zi && mc::mix(zi, i) % 6 < (unsigned)zi : (bool)(zi >> i & 1); };
  for (int tran = 0; tran < 2; ++tran)
   for (int zi = 0; zi < nz; ++zi)
    for (int extra = 0; extra < (zi ? 1 : 3); extra += 2) {
      const int                    N = n + extra;
      hif::Array<V>                y(N);
      hif::Array<std::array<V, K>> Y(N);
      std::vector<L>               x(N * K);
      for (int i = 0; i < N; ++i)
        for (int k = 0; k < K; ++k) {
          Y[i][k] = i < n && zero(zi, (i + 2 * k) % n) ? V(0) : val<V>(i + k, 2 + k, table);
          if (!k) y[i] = Y[i][0];
          x[i * K + k] = up(Y[i][k]);
        }
      long double mag = 1;
      // (I + T) x = y by substitution
      for (int k = 0; k < K; ++k)
        for (int s = 0; s < n; ++s) {
          const int i = (lower != (bool)tran) ? s : n - 1 - s;
          for (int j = 0; j < n; ++j) {
            const L a = tran ? std::conj(up(T0(j, i))) : up(T0(i, j));
            if (a != L(0)) x[i * K + k] -= a * x[j * K + k], mag = std::max(mag, std::abs(a * x[j * K + k]));
          }
        }
      if (lower) {
        if (!tran) S.solve_as_strict_lower(y), S.solve_as_strict_lower_mrhs(Y);
        else S.solve_as_strict_lower_tran(y), S.solve_as_strict_lower_mrhs_tran(Y);
      } else {
        if (!tran) S.solve_as_strict_upper(y), S.solve_as_strict_upper_mrhs(Y);
        else S.solve_as_strict_upper_tran(y), S.solve_as_strict_upper_mrhs_tran(Y);
      }
      c.transition(2);
      // integers stay exact in double; in single precision they may leave the exact range
      typedef typename wider<T, V>::type W;
      // mixed complex arithmetic rounds to the left operand (a documented choice of the library)
      const double tol = table == 0 && mag < 1e6 ? 0 : mag * 100 * std::max(is_cplx<T>::value ? eps_of<T>::v() : eps_of<W>::v(), eps_of<V>::v());
      for (int i = 0; i < N; ++i)
        for (int k = 0; k < K; ++k) {
          if (!(std::abs(up(Y[i][k]) - x[i * K + k]) <= tol)) {
            c.fail("%s solve with several right-hand sides: entry %d of right-hand side %d is (%.10g,%.10g), not (%.10Lg,%.10Lg)", tran ? "transposed" : "plain", i, k, (double)std::real(Y[i][k]),
                   (double)std::imag(Y[i][k]), x[i * K + k].real(), x[i * K + k].imag());
            return false;
          }
          if (!k && !(std::abs(up(y[i]) - x[i * K]) <= tol)) {
            c.fail("%s solve: entry %d is (%.10g,%.10g), not (%.10Lg,%.10Lg)", tran ? "transposed" : "plain", i, (double)std::real(y[i]), (double)std::imag(y[i]), x[i * K].real(), x[i * K].imag());
            return false;
          }
        }
      c.validated();
    }
  return true;
}
// solve with L, D, U as the preconditioner does it
template <class Cs, class V, int K> static bool ldu(mc::Case &c, int n, uint64_t bits) {
  typedef typename Cs::value_type T;
  Mat<T> Lo(n, n), Up(n, n);
  int    b = 0;
  if (n > 12) Lo = tri<T>(n, bits, true), Up = tri<T>(n, bits / NTRI, false);
  else
  for (int i = 0; i < n; ++i)
    for (int j = 0; j < i; ++j, ++b) {
      if (bits >> (2 * b) & 1) Lo(i, j) = val<T>(i, j, 0);
      if (bits >> (2 * b + 1) & 1) Up(j, i) = val<T>(j, i, 0);
    }
  const Cs      SL = to_cs<Cs>(Lo), SU = to_cs<Cs>(Up);
  hif::Array<T> d(n);
  static const double dd[] = {2, -4, 0.5, 1, -0.25};
  for (int i = 0; i < n; ++i) d[i] = is_cplx<T>::value && i % 2 ? Mk<T>::mk(0, dd[i % 5]) : T(dd[i % 5]);
  c.desc("%s of %s, vector %s, %d right-hand sides, L=%s U=%s", Cs::ROW_MAJOR ? "CRS" : "CCS", nm<T>::s(), nm<V>::s(), K, show(Lo).c_str(), show(Up).c_str());
  for (int tran = 0; tran < 2; ++tran) {
    hif::Array<V>                y(n);
    hif::Array<std::array<V, K>> Y(n);
    std::vector<L>               x(n * K);
    for (int i = 0; i < n; ++i)
      for (int k = 0; k < K; ++k) {
        Y[i][k] = (c.idx >> 3) + tran & 1 && ((c.idx >> 4) * 7 + tran) >> (i + 2 * k) % std::min(n, 40) & 1 ? V(0) : val<V>(i + k, 2 + k, 0);
        if (!k) y[i] = Y[i][0];
        x[i * K + k] = up(Y[i][k]);
      }
    for (int k = 0; k < K; ++k) {
      for (int i = 0; i < n; ++i)
        for (int j = 0; j < i; ++j) x[i * K + k] -= (tran ? std::conj(up(Up(j, i))) : up(Lo(i, j))) * x[j * K + k];
      for (int i = 0; i < n; ++i) x[i * K + k] /= tran ? std::conj(up(d[i])) : up(d[i]);
      for (int i = n - 1; i >= 0; --i)
        for (int j = i + 1; j < n; ++j) x[i * K + k] -= (tran ? std::conj(up(Lo(j, i))) : up(Up(i, j))) * x[j * K + k];
    }
    if (!tran) hif::internal::prec_solve_ldu(SU, d, SL, y), hif::internal::prec_solve_ldu_mrhs(SU, d, SL, Y);
    else hif::internal::prec_solve_utdlt(SU, d, SL, y);
    c.transition(2 - tran);
    long double mag = 1;
    for (auto &v : x) mag = std::max(mag, std::abs(v));
    for (int i = 0; i < n; ++i)
      for (int k = 0; k < K; ++k) {
        const double tol = mag * 1e3 * eps_of<V>::v();
        if ((!k && !(std::abs(up(y[i]) - x[i * K]) <= tol)) || (!tran && !(std::abs(up(Y[i][k]) - x[i * K + k]) <= tol))) {
          c.fail("%s solve with the factors: entry %d right-hand side %d is wrong", tran ? "transposed" : "plain", i, k);
          return false;
        }
      }
    c.validated();
  }
  return true;
}

int main(int argc, char **argv) {
  using mc::Family;
  const bool th = mc::thorough();
  typedef std::ptrdiff_t   P;
  std::vector<Family> F;
  // shapes 0..4 x 0..4 with at most 9 (quick) / 12 entries
  struct Sh {
    int      n, m;
    uint64_t N, off;
  };
  static std::vector<Sh> shp;
  uint64_t               tot = 0;
  for (int n = 0; n <= 4; ++n)
    for (int m = 0; m <= 4; ++m)
      if (n * m <= (th ? 12 : 9)) shp.push_back({n, m, 1ull << (n * m), tot}), tot += 1ull << (n * m);
  F.push_back({"products", "all patterns of all shapes up to 4x4 with at most 9 (12 thorough) cells x two value tables x 8 combinations of matrix, vector and index types x row/column storage x 1 to 3 right-hand sides, all row ranges, all "
                           "entry points, sizes off by one",
               tot * 2 * (th ? 2 : 1), [=](mc::Case &c) {
                 int      table = c.idx % 2;
                 uint64_t i = c.idx / 2;
                 int      half = th ? i % 2 : (int)(i % 2);
                 if (th) i /= 2;
                 const Sh *s = 0;
                 for (auto &q : shp)
                   if (i >= q.off) s = &q;
                 const uint64_t b = i - s->off;
                 c.state(mc::hash_bytes(&c.idx, sizeof c.idx));
                 auto R = [&](auto cs, auto vx, auto vy, auto k) {
                   typedef decltype(cs) Cs;
                   if (c.nfail) return;
                   products<Cs, decltype(vx), decltype(vy), decltype(k)::value>(c, pat<typename Cs::value_type>(s->n, s->m, b, table), table);
                 };
                 typedef std::integral_constant<int, 1> k1;
                 typedef std::integral_constant<int, 2> k2;
                 typedef std::integral_constant<int, 3> k3;
                 if (half == 0) {
                   R(hif::CRS<double, int, P>(), double(), double(), k2());
                   R(hif::CCS<double, int, P>(), double(), double(), k3());
                   R(hif::CRS<cd, int, P>(), cd(), cd(), k3());
                   R(hif::CCS<cd, int, P>(), cd(), cd(), k2());
                 }
                 if (half == 1 || s->n * s->m <= 6 || th) {
                   R(hif::CRS<float, int, int>(), double(), double(), k1());
                   R(hif::CCS<float, long, long>(), double(), double(), k2());
                   R(hif::CRS<cf, long, long>(), cd(), cd(), k2());
                   R(hif::CCS<cf, int, P>(), cd(), cd(), k1());
                   R(hif::CRS<double, int, P>(), float(), float(), k2());
                   R(hif::CCS<double, int, P>(), float(), double(), k2());
                   R(hif::CRS<double, int, P>(), float(), double(), k3());
                 }
               }});
  const int tn = th ? 5 : 4;
  F.push_back({"triangular", "all strictly triangular patterns of order 1 to 4 (5 thorough) x lower/upper x two value tables x row/column storage x 5 combinations of types", [&] {
                 uint64_t N = 0;
                 for (int n = 1; n <= tn; ++n) N += 1ull << (n * (n - 1) / 2);
                 return N * 4;
               }(),
               [=](mc::Case &c) {
                 int      lower = c.idx % 2, table = c.idx / 2 % 2, n = 1;
                 uint64_t b = c.idx / 4;
                 c.state(mc::hash_bytes(&c.idx, sizeof c.idx));
                 while (b >= (1ull << (n * (n - 1) / 2))) b -= 1ull << (n * (n - 1) / 2), ++n;
                 auto R = [&](auto cs, auto v, auto k) {
                   typedef decltype(cs)             Cs;
                   typedef typename Cs::value_type T;
                   if (c.nfail) return;
                   Mat<T>   A(n, n);
                   uint64_t q = b;
                   for (int i = 0; i < n; ++i)
                     for (int j = 0; j < i; ++j, q >>= 1)
                       if (q & 1) (lower ? A(i, j) : A(j, i)) = val<T>(i, j, table);
                   triangles<Cs, decltype(v), decltype(k)::value>(c, A, lower, table);
                 };
                 typedef std::integral_constant<int, 1> k1;
                 typedef std::integral_constant<int, 2> k2;
                 typedef std::integral_constant<int, 3> k3;
                 R(hif::CRS<double, int, P>(), double(), k2());
                 R(hif::CCS<double, int, P>(), double(), k3());
                 R(hif::CRS<cd, int, int>(), cd(), k3());
                 R(hif::CCS<cd, long, long>(), cd(), k2());
                 R(hif::CRS<float, int, P>(), double(), k1());
                 R(hif::CCS<float, int, P>(), double(), k1());
                 R(hif::CRS<cf, int, P>(), cd(), k2());
                 R(hif::CCS<cf, int, P>(), cd(), k2());
                 R(hif::CRS<double, int, P>(), float(), k2());
                 R(hif::CCS<double, int, P>(), float(), k2());
               }});
  F.push_back({"factors", "solves with L, D, U: all patterns of L and U of order 1 to 3 (4 thorough), plain, transposed, several right-hand sides, four type combinations, both storages", [&] {
                 uint64_t N = 0;
                 for (int n = 1; n <= (th ? 4 : 3); ++n) N += 1ull << (n * (n - 1));
                 return N;
               }(),
               [=](mc::Case &c) {
                 uint64_t b = c.idx;
                 int      n = 1;
                 c.state(mc::hash_bytes(&c.idx, sizeof c.idx));
                 while (b >= (1ull << (n * (n - 1)))) b -= 1ull << (n * (n - 1)), ++n;
                 ldu<hif::CRS<double, int>, double, 2>(c, n, b) && ldu<hif::CCS<double, int>, double, 3>(c, n, b) && ldu<hif::CRS<cd, int>, cd, 2>(c, n, b) && ldu<hif::CCS<cd, int>, cd, 1>(c, n, b) &&
                     ldu<hif::CCS<float, int>, double, 2>(c, n, b) && ldu<hif::CRS<float, int>, double, 2>(c, n, b) && ldu<hif::CCS<cf, long>, cd, 2>(c, n, b);
               }});
  // sizes beyond every block, buffer and unrolling of the code
  static const int bs[][2] = {{33, 5}, {5, 33}, {40, 40}, {70, 17}, {17, 130}, {129, 1}, {1, 129}, {64, 64}, {65, 63}, {260, 3}, {3, 260}};
  const int        NBS = sizeof bs / sizeof *bs;
  F.push_back({"large-products", "11 shapes up to 260 rows or columns x 8 structures x two value tables x 8 combinations of types and storages", (uint64_t)NBS * NBIG * 2 * 2, [=](mc::Case &c) {
                 const int half = c.idx % 2, table = c.idx / 2 % 2, kind = c.idx / 4 % NBIG, n = bs[c.idx / 4 / NBIG][0], m = bs[c.idx / 4 / NBIG][1];
                 c.state(mc::hash_bytes(&c.idx, sizeof c.idx));
                 auto R = [&](auto cs, auto vx, auto vy, auto k) {
                   typedef decltype(cs) Cs;
                   if (c.nfail) return;
                   products<Cs, decltype(vx), decltype(vy), decltype(k)::value>(c, big<typename Cs::value_type>(n, m, kind, table), table);
                 };
                 typedef std::integral_constant<int, 1> k1;
                 typedef std::integral_constant<int, 2> k2;
                 typedef std::integral_constant<int, 3> k3;
                 if (half == 0) {
                   R(hif::CRS<double, int, P>(), double(), double(), k2());
                   R(hif::CCS<double, int, P>(), double(), double(), k3());
                   R(hif::CRS<cd, int, P>(), cd(), cd(), k3());
                   R(hif::CCS<cd, int, P>(), cd(), cd(), k2());
                 } else {
                   R(hif::CRS<float, int, int>(), double(), double(), k1());
                   R(hif::CCS<float, long, long>(), double(), double(), k2());
                   R(hif::CRS<cf, long, long>(), cd(), cd(), k2());
                   R(hif::CCS<cf, int, P>(), cd(), cd(), k1());
                 }
               }});
  static const int ts[] = {17, 33, 64, 130, 257};
  F.push_back({"large-triangular", "strict triangles of order 17, 33, 64, 130 and 257 x 6 structures without growth x lower/upper x 6 combinations of types and storages, 6 zero patterns of the vector", 5 * NTRI * 2, [=](mc::Case &c) {
                 const int lower = c.idx % 2, kind = c.idx / 2 % NTRI, n = ts[c.idx / 2 / NTRI];
                 c.state(mc::hash_bytes(&c.idx, sizeof c.idx));
                 auto R = [&](auto cs, auto v, auto k) {
                   typedef decltype(cs) Cs;
                   if (c.nfail) return;
                   triangles<Cs, decltype(v), decltype(k)::value>(c, tri<typename Cs::value_type>(n, kind, lower), lower, 0);
                 };
                 typedef std::integral_constant<int, 1> k1;
                 typedef std::integral_constant<int, 2> k2;
                 typedef std::integral_constant<int, 3> k3;
                 R(hif::CRS<double, int, P>(), double(), k2());
                 R(hif::CCS<double, int, P>(), double(), k3());
                 R(hif::CRS<cd, int, int>(), cd(), k3());
                 R(hif::CCS<cd, long, long>(), cd(), k2());
                 R(hif::CRS<float, int, P>(), double(), k1());
                 R(hif::CCS<cf, int, P>(), cd(), k2());
               }});
  F.push_back({"large-factors", "solves with L, D, U of order 17, 33, 64, 130 and 257 x all pairs of 6 structures", 5 * NTRI * NTRI, [=](mc::Case &c) {
                 const int      n = ts[c.idx / NTRI / NTRI];
                 const uint64_t b = c.idx % (NTRI * NTRI);
                 c.state(mc::hash_bytes(&c.idx, sizeof c.idx));
                 ldu<hif::CRS<double, int>, double, 2>(c, n, b) && ldu<hif::CCS<double, int>, double, 3>(c, n, b) && ldu<hif::CRS<cd, int>, cd, 2>(c, n, b) && ldu<hif::CCS<cd, int>, cd, 1>(c, n, b) &&
                     ldu<hif::CCS<float, int>, double, 2>(c, n, b) && ldu<hif::CRS<float, int>, double, 2>(c, n, b) && ldu<hif::CCS<cf, long>, cd, 2>(c, n, b);
               }});
  return mc::drive(argc, argv, F);
}
