// P15: conversions, splits, permutations, extraction, pruning, scaling, assembly and wrapping of sparse matrices are
// the matrix operations they stand for: entries (also explicitly stored zeros) are neither lost, duplicated nor moved,
// indices stay sorted, and the source is unchanged.
#include "spaces.hpp"
using namespace hx;

// sparse matrix as a set of stored entries
template <class T> struct Sp {
  int                                 n = 0, m = 0;
  std::map<std::pair<int, int>, T>    e;
  bool operator==(const Sp &o) const { return n == o.n && m == o.m && e == o.e; }
};
template <class T> static std::string shw(const Sp<T> &A) {
  std::ostringstream o;
  o << A.n << "x" << A.m << "{";
  for (auto &x : A.e) o << "(" << x.first.first << "," << x.first.second << ")=" << x.second << " ";
  o << "}";
  return o.str();
}
// reads a compressed matrix, insisting on its invariants
template <class Cs> static std::string read(const Cs &S, Sp<typename Cs::value_type> &A, bool vals = true, int base = 0) {
  A   = Sp<typename Cs::value_type>();
  A.n = S.nrows(), A.m = S.ncols();
  const int P = Cs::ROW_MAJOR ? A.n : A.m, Q = Cs::ROW_MAJOR ? A.m : A.n;
  if ((int)S.primary_size() != P) return "wrong primary size";
  if ((int)S.ind_start().size() != P + 1) {
    if (S.nnz() == 0 && S.ind_start().size() == 0) return "";
    return "starting position array has length " + std::to_string(S.ind_start().size());
  }
  if (S.ind_start()[0] != base) return "first starting position is not the base";
  if ((size_t)S.ind_start()[P] - base > S.inds().size()) return "index array is shorter than the starting positions say";
  if (vals && (size_t)S.ind_start()[P] - base > S.vals().size()) return "value array is shorter than the starting positions say";
  for (int i = 0; i < P; ++i) {
    if (S.ind_start()[i + 1] < S.ind_start()[i]) return "decreasing starting positions";
    for (auto k = S.ind_start()[i] - base; k < S.ind_start()[i + 1] - base; ++k) {
      const int j = S.inds()[k] - base;
      if (j < 0 || j >= Q) return "index out of range";
      if (k > S.ind_start()[i] - base && S.inds()[k - 1] >= S.inds()[k]) return "unsorted indices";
      A.e[Cs::ROW_MAJOR ? std::make_pair(i, j) : std::make_pair(j, i)] = vals ? S.vals()[k] : typename Cs::value_type(0);
    }
  }
  return "";
}
template <class Cs> static Cs build(const Sp<typename Cs::value_type> &A, int base = 0) {
  typedef typename Cs::value_type T;
  const int P = Cs::ROW_MAJOR ? A.n : A.m;
  std::vector<std::vector<std::pair<int, T>>> r(P);
  for (auto &x : A.e) r[Cs::ROW_MAJOR ? x.first.first : x.first.second].push_back({Cs::ROW_MAJOR ? x.first.second : x.first.first, x.second});
  Cs S;
  S.resize(A.n, A.m);
  S.ind_start().resize(P + 1);
  S.ind_start()[0] = base;
  for (int i = 0; i < P; ++i) {
    std::sort(r[i].begin(), r[i].end(), [](const std::pair<int, T> &a, const std::pair<int, T> &b) { return a.first < b.first; });
    for (auto &q : r[i]) S.inds().push_back(q.first + base), S.vals().push_back(q.second);
    S.ind_start()[i + 1] = S.inds().size() + base;
  }
  return S;
}
template <class T> static Sp<T> make(int n, int m, uint64_t bits, int table) {
  Sp<T> A;
  A.n = n, A.m = m;
  static const double g[] = {3, -0.25, 2, 0, 8, -1, 0.125, 0, 5, -16, 0.5, 4, -2, 1, 0.0625, 7};
  int                 k = 0;
  for (int i = 0; i < n; ++i)
    for (int j = 0; j < m; ++j, ++k)
      if (bits >> k & 1) {
        const double v = table == 0 ? k + 1 : g[(k * 5 + table) % 16];  // tables > 0 contain stored zeros and graded values
        A.e[{i, j}]    = Mk<T>::mk(v, table == 0 ? -k : v / 2);
      }
  return A;
}
static const int NBIG = 8;
template <class T> static Sp<T> big(int n, int m, int kind, int table) {
  Sp<T> A;
  A.n = n, A.m = m;
  static const double g[] = {3, -0.25, 2, 0, 8, -1, 0.125, 0, 5, -16, 0.5, 4, -2, 1, 0.0625, 7};
  int                 k = 0;
  for (int i = 0; i < n; ++i)
    for (int j = 0; j < m; ++j, ++k) {
      const uint64_t h  = mc::mix(i * 1000 + j, 17);
      bool           in = false;
      switch (kind) {
        case 0: in = true; break;
        case 1: in = i - j <= 2 && j - i <= 1; break;
        case 2: in = i == j || i == n - 1 || j == m - 1; break;
        case 3: in = h % 10 == 0; break;
        case 4: in = i == n / 2; break;
        case 5: in = j == m / 2; break;
        case 6: in = h % 3 && i % 5 != 2 && j % 7 != 3; break;
        case 7: in = i == n - 1 && j == m - 1; break;
      }
      if (!in) continue;
      const double v = table == 0 ? k + 1 : g[(k * 5 + h + table) % 16];
      A.e[{i, j}]    = Mk<T>::mk(v, table == 0 ? -k : v / 2);
    }
  return A;
}
template <class F> static bool throws(F f) {
  try {
    f();
  } catch (const std::runtime_error &) {
    return true;
  }
  return false;
}
#define CHECK(S, want, vals, ...)                                                                                    \
  do {                                                                                                               \
    Sp<T>             got_;                                                                                          \
    const std::string e_ = read(S, got_, vals);                                                                      \
    Sp<T>             w_ = want;                                                                                     \
    if (!vals)                                                                                                       \
      for (auto &x_ : w_.e) x_.second = T(0);                                                                        \
    c.transition();                                                                                                  \
    char b_[300];                                                                                                    \
    snprintf(b_, sizeof b_, __VA_ARGS__);                                                                            \
    if (!e_.empty()) {                                                                                               \
      c.fail("%s: %s", b_, e_.c_str());                                                                              \
      return;                                                                                                        \
    }                                                                                                                \
    if (!(got_ == w_)) {                                                                                             \
      c.fail("%s is %s, not %s", b_, shw(got_).c_str(), shw(w_).c_str());                                            \
      return;                                                                                                        \
    }                                                                                                                \
    c.validated();                                                                                                   \
  } while (0)

// part of A by primary/secondary index ranges
template <class T> static Sp<T> part(const Sp<T> &A, int r0, int r1, int c0, int c1) {
  Sp<T> B;
  B.n = r1 - r0, B.m = c1 - c0;
  for (auto &x : A.e)
    if (x.first.first >= r0 && x.first.first < r1 && x.first.second >= c0 && x.first.second < c1) B.e[{x.first.first - r0, x.first.second - c0}] = x.second;
  return B;
}
template <class Cs, bool Row = Cs::ROW_MAJOR> struct Sec {  // secondary = columns
  template <bool Second> static auto dual(const Cs &S, int m) { return S.template split_ccs<Second>(m); }
  template <bool Second, class A> static auto dual(const Cs &S, int m, const A &s) { return S.template split_ccs<Second>(m, s); }
  static auto both(const Cs &S, int m) { return S.split_ccs(m); }
  template <class A> static auto both(const Cs &S, int m, const A &s) { return S.split_ccs(m, s); }
};
template <class Cs> struct Sec<Cs, false> {
  template <bool Second> static auto dual(const Cs &S, int m) { return S.template split_crs<Second>(m); }
  template <bool Second, class A> static auto dual(const Cs &S, int m, const A &s) { return S.template split_crs<Second>(m, s); }
  static auto both(const Cs &S, int m) { return S.split_crs(m); }
  template <class A> static auto both(const Cs &S, int m, const A &s) { return S.split_crs(m, s); }
};

template <class V, class I, class P> static void assemble(hif::CRS<V, I, P> &B, const std::vector<std::vector<int>> &idx, const std::vector<std::vector<V>> &buf, int mode) {
  B.begin_assemble_rows();
  for (size_t i = 0; i < idx.size(); ++i)
    if (mode == 1 && idx[i].empty()) B.push_back_empty_row(i);
    else if (mode == 2) B.push_back_row(i, idx[i].begin(), idx[i].begin() + idx[i].size() / 2, buf[i], idx[i].begin() + idx[i].size() / 2, idx[i].end(), buf[i]);
    else B.push_back_row(i, idx[i].begin(), idx[i].end(), buf[i]);
  B.end_assemble_rows();
}
template <class V, class I, class P> static void assemble(hif::CCS<V, I, P> &B, const std::vector<std::vector<int>> &idx, const std::vector<std::vector<V>> &buf, int mode) {
  B.begin_assemble_cols();
  for (size_t i = 0; i < idx.size(); ++i)
    if (mode == 1 && idx[i].empty()) B.push_back_empty_col(i);
    else if (mode == 2) B.push_back_col(i, idx[i].begin(), idx[i].begin() + idx[i].size() / 2, buf[i], idx[i].begin() + idx[i].size() / 2, idx[i].end(), buf[i]);
    else B.push_back_col(i, idx[i].begin(), idx[i].end(), buf[i]);
  B.end_assemble_cols();
}

template <class Cs> static void structure(mc::Case &c, const Sp<typename Cs::value_type> &A) {
  typedef typename Cs::value_type T;
  typedef typename Cs::other_type Os;
  const bool row = Cs::ROW_MAJOR;
  c.desc("%s %s", row ? "CRS" : "CCS", shw(A).c_str());
  const Cs S = build<Cs>(A);
  S.check_validity();
  const int sec = row ? A.m : A.n, pri = row ? A.n : A.m;
  {  // conversion and back
    const Os O(S);
    CHECK(O, A, true, "conversion");
    const Cs B(O);
    CHECK(B, A, true, "conversion and back");
    Os q;
    q = Os(build<Cs>(A));
    CHECK(q, A, true, "conversion of a temporary");
  }
  for (int m = 0; m <= sec + 1; ++m) {  // splits (of the large matrices: at the ends and at every seventh position)
    if (sec > 12 && m > 2 && m < sec - 1 && m % 7) continue;
    if (m > sec) {
      typename Cs::iparray_type st(pri);
      for (int i = 0; i < pri; ++i) st[i] = S.ind_start()[i + 1];
      if (!throws([&] { S.template split<true>(m); }) || !throws([&] { S.template split<false>(m); }) || !throws([&] { Sec<Cs>::template dual<true>(S, m); }) || !throws([&] { Sec<Cs>::template dual<false>(S, m); }) ||
          !throws([&] { S.template split<true>(m, st); }) || !throws([&] { Sec<Cs>::template dual<false>(S, m, st); })) {
        c.fail("split position %d beyond the size is accepted", m);
        return;
      }
      continue;
    }
    const Sp<T> A0 = row ? part(A, 0, A.n, 0, m) : part(A, 0, m, 0, A.m), A1 = row ? part(A, 0, A.n, m, A.m) : part(A, m, A.n, 0, A.m);
    CHECK(S.template split<false>(m), A0, true, "first part of a split at %d", m);
    CHECK(S.template split<true>(m), A1, true, "second part of a split at %d", m);
    CHECK(S.split(m).first, A0, true, "first part of a double split at %d", m);
    CHECK(S.split(m).second, A1, true, "second part of a double split at %d", m);
    CHECK((Sec<Cs>::template dual<false>(S, m)), A0, true, "first part of a converting split at %d", m);
    CHECK((Sec<Cs>::template dual<true>(S, m)), A1, true, "second part of a converting split at %d", m);
    CHECK(Sec<Cs>::both(S, m).first, A0, true, "first part of a converting double split at %d", m);
    CHECK(Sec<Cs>::both(S, m).second, A1, true, "second part of a converting double split at %d", m);
    typename Cs::iparray_type st(pri + 1);
    for (int i = 0; i < pri; ++i) {
      auto k = S.ind_start()[i];
      while (k < S.ind_start()[i + 1] && S.inds()[k] < m) ++k;
      st[i] = k;
    }
    st[pri] = 999;
    CHECK(S.template split<false>(m, st), A0, true, "first part of a split at %d with given positions", m);
    CHECK(S.template split<true>(m, st), A1, true, "second part of a split at %d with given positions", m);
    CHECK(S.split(m, st).second, A1, true, "second part of a double split at %d with given positions", m);
    CHECK((Sec<Cs>::template dual<false>(S, m, st)), A0, true, "first part of a converting split at %d with given positions", m);
    CHECK((Sec<Cs>::template dual<true>(S, m, st)), A1, true, "second part of a converting split at %d with given positions", m);
    CHECK(Sec<Cs>::both(S, m, st).first, A0, true, "first part of a converting double split at %d with given positions", m);
    typename Cs::iparray_type shrt(pri ? pri - 1 : 0);
    if (pri && !throws([&] { S.template split<false>(m, shrt); })) {
      c.fail("a short position array is accepted");
      return;
    }
  }
  for (int m = 0; m <= std::min(A.n, A.m); m += m > 2 && std::min(A.n, A.m) - m > 2 && A.n > 12 ? 2 : 1) CHECK(S.extract_leading(m), part(A, 0, m, 0, m), true, "leading block of order %d", m);
  {  // export
    std::vector<typename Cs::indptr_type> ip(pri + 1, -5);
    std::vector<typename Os::indptr_type> op(sec + 1, -5);
    std::vector<typename Cs::index_type>  ix(A.e.size()), ox(A.e.size());
    std::vector<T>                        v(A.e.size()), w(A.e.size());
    hif::export_compressed_data<Cs>(S, ip.data(), ix.data(), v.data());
    hif::export_compressed_data<Os>(S, op.data(), ox.data(), w.data());
    const Cs a(A.n, A.m, ip.data(), ix.data(), v.data(), true);
    const Os b(A.n, A.m, op.data(), ox.data(), w.data());
    CHECK(a, A, true, "export");
    CHECK(b, A, true, "converting export");
  }
  {  // scaling (powers of two: exact)
    hif::Array<double> s(A.n), t(A.m);
    Sp<T>              L = A, R = A, B = A;
    for (int i = 0; i < A.n; ++i) s[i] = 1 << i % 20;
    for (int j = 0; j < A.m; ++j) t[j] = 0.5 / (1 << j % 20);
    for (auto &x : L.e) x.second *= s[x.first.first];
    for (auto &x : R.e) x.second *= t[x.first.second];
    for (auto &x : B.e) x.second *= s[x.first.first] * t[x.first.second];
    Cs l(S, true), r(S, true), b(S, true);
    l.scale_diag_left(s), r.scale_diag_right(t), b.scale_diags(s, t);
    CHECK(l, L, true, "left scaling");
    CHECK(r, R, true, "right scaling");
    CHECK(b, B, true, "two-sided scaling");
    hif::Array<double> s1(A.n ? A.n - 1 : 0), t1(A.m ? A.m - 1 : 0);
    if ((A.n && !throws([&] { l.scale_diag_left(s1); })) || (A.m && !throws([&] { l.scale_diag_right(t1); }))) {
      c.fail("a scaling vector that is too short is accepted");
      return;
    }
    CHECK(l, L, true, "refused scaling");
  }
  {  // shallow and deep copies
    Cs d(S, true);
    Cs sh(d), as;
    as = d;
    if (A.e.size()) {
      d.vals()[0] = T(1234);
      if (sh.vals()[0] != T(1234) || as.vals()[0] != T(1234)) {
        c.fail("a shallow copy does not share its storage");
        return;
      }
      Cs dd(d, true);
      d.vals()[0] = T(4321), d.inds()[0] = 99;
      if (dd.vals()[0] != T(1234) || dd.inds()[0] == 99) {
        c.fail("a clone shares storage");
        return;
      }
    }
    Cs mv(std::move(sh));
    d.destroy();
    as.resize(A.n, A.m);
    if (mv.nnz() != A.e.size() || d.nnz() || d.nrows() || d.ncols()) {
      c.fail("destroying a matrix changes its copies or leaves something behind");
      return;
    }
  }
  {  // assembly from dense value buffers
    for (int mode = 0; mode < 3; ++mode) {
      Cs B;
      B.resize(A.n, A.m);
      auto beg = [&](auto &X, std::true_type) { X.begin_assemble_rows(); };
      (void)beg;
      std::vector<std::vector<int>> idx(pri);
      std::vector<std::vector<T>>   buf(pri, std::vector<T>(std::max(sec, 1), T(-9)));
      for (auto &x : A.e) {
        const int p = row ? x.first.first : x.first.second, q = row ? x.first.second : x.first.first;
        idx[p].push_back(q), buf[p][q] = x.second;
      }
      assemble(B, idx, buf, mode);
      CHECK(B, A, true, "assembly (%d)", mode);
    }
  }
  CHECK(S, A, true, "the source after all operations");
}

// A(p,q) for all pairs of permutations
template <class Cs> static void permute(mc::Case &c, const Sp<typename Cs::value_type> &A) {
  typedef typename Cs::value_type T;
  const Cs         S = build<Cs>(A);
  std::vector<int> p(A.n), q(A.m);
  // of the large matrices: identity, reversal, rotation, stride and a scattered permutation
  const bool lg = A.n > 8 || A.m > 8;
  int        pi = 0, qi = 0;
  auto       set = [](std::vector<int> &v, int k) {
    const int n = v.size();
    for (int i = 0; i < n; ++i) v[i] = k == 1 ? n - 1 - i : k == 2 ? (i + n / 3) % n : k == 3 ? (i % 2 ? n / 2 + (n % 2) - (0) + i / 2 : i / 2) : i;
    if (k == 4) std::sort(v.begin(), v.end(), [](int a, int b) { return mc::mix(a, 5) < mc::mix(b, 5); });
  };
  set(p, 0);
  do {
    set(q, qi = 0);
    do {
      typename Cs::iarray_type ap(A.n), aq(A.m), api(A.n), aqi(A.m);
      for (int i = 0; i < A.n; ++i) ap[i] = p[i], api[p[i]] = i;
      for (int j = 0; j < A.m; ++j) aq[j] = q[j], aqi[q[j]] = j;
      for (int lead = 0; lead <= std::min(A.n, A.m); lead += lg && lead > 1 && std::min(A.n, A.m) - lead > 9 ? 9 : 1)
        for (int so = 0; so < 2; ++so) {
          Sp<T>     B;
          const int n = lead ? lead : A.n, m = lead ? lead : A.m;
          B.n = n, B.m = m;
          for (auto &x : A.e) {
            const int i = api[x.first.first], j = aqi[x.first.second];
            if (i < n && j < m) B.e[{i, j}] = x.second;
          }
          c.desc("%s %s rows permuted by [%d%d%d..] columns by [%d%d%d..], leading block %d%s", Cs::ROW_MAJOR ? "CRS" : "CCS", shw(A).c_str(), A.n > 0 ? p[0] : -1, A.n > 1 ? p[1] : -1, A.n > 2 ? p[2] : -1, A.m > 0 ? q[0] : -1,
                 A.m > 1 ? q[1] : -1, A.m > 2 ? q[2] : -1, lead, so ? ", structure only" : "");
          CHECK((Cs::ROW_MAJOR ? S.compute_perm(ap, aqi, lead, so) : S.compute_perm(api, aq, lead, so)), B, !so, "permuted matrix");
        }
      if (!throws([&] { S.compute_perm(ap, aq, std::min(A.n, A.m) + 1); })) {
        c.fail("a leading block beyond the matrix is accepted");
        return;
      }
    } while (lg ? ++qi < 5 ? set(q, qi), true : false : std::next_permutation(q.begin(), q.end()));
  } while (lg ? ++pi < 5 ? set(p, pi), true : false : std::next_permutation(p.begin(), p.end()));
}

template <class Cs> static void prune(mc::Case &c, const Sp<typename Cs::value_type> &A, int base) {
  typedef typename Cs::value_type T;
  static const double             eps[] = {-1, 0, 1e-3, 0.1, 0.25, 0.5, 1, 2};
  for (double e : eps)
    for (int shrink = 0; shrink < 2; ++shrink) {
      c.desc("%s %s, base %d, eps=%g, shrink=%d", Cs::ROW_MAJOR ? "CRS" : "CCS", shw(A).c_str(), base, e, shrink);
      Cs                     S = build<Cs>(A, base);
      std::map<int, double>  rm, cm;
      for (auto &x : A.e) rm[x.first.first] = std::max(rm[x.first.first], (double)std::abs(x.second)), cm[x.first.second] = std::max(cm[x.first.second], (double)std::abs(x.second));
      Sp<T>        B = A;
      const double ee = e < 0 ? 0 : e;
      bool         edge = false;
      for (auto &x : A.e) {
        const double th = std::min(ee * rm[x.first.first], ee * cm[x.first.second]), v = std::abs(x.second);
        if (v != 0 && std::abs(v - th) < 1e-12 * v && is_cplx<T>::value) edge = true;
        if (v <= th) B.e.erase(x.first);
      }
      if (edge) {
        c.skip("entry at the pruning threshold up to rounding");
        continue;
      }
      const size_t k = S.prune(e, shrink);
      Sp<T>        G;
      std::string  er = read(S, G, true, base);
      c.transition();
      if (!er.empty()) return c.fail("pruned matrix: %s", er.c_str());
      if (!(G == B)) return c.fail("pruned matrix is %s, not %s", shw(G).c_str(), shw(B).c_str());
      if (k != A.e.size() - B.e.size()) return c.fail("pruning reports %zu entries, not %zu", k, A.e.size() - B.e.size());
      c.validated();
    }
}

// triplets in every order
template <class T> static void coo(mc::Case &c, int n, int m, std::vector<int> ent) {
  Sp<T> A;
  A.n = n, A.m = m;
  std::string o;
  hif::Array<int> r(ent.size()), q(ent.size());
  hif::Array<T>   v(ent.size());
  for (size_t k = 0; k < ent.size(); ++k) {
    r[k] = ent[k] / m, q[k] = ent[k] % m, v[k] = Mk<T>::mk(k + 1, -(double)k);
    A.e[{r[k], q[k]}] = v[k];
    o += " (" + std::to_string(r[k]) + "," + std::to_string(q[k]) + ")";
  }
  c.desc("%dx%d triplets%s", n, m, o.c_str());
  hif::CRS<T, int> R;
  hif::CCS<T, int> C;
  R.resize(n, m), C.resize(n, m);
  hif::convert_coo2cs(n, m, r, q, v, R.row_start(), R.col_ind(), R.vals());
  hif::convert_coo2cs(m, n, q, r, v, C.col_start(), C.row_ind(), C.vals());
  CHECK(R, A, true, "rows from triplets");
  CHECK(C, A, true, "columns from triplets");
}

// wrapping user arrays with checking: accepted iff well formed
template <class Cs> struct Wrap;
template <class V, class I, class P> struct Wrap<hif::CRS<V, I, P>> {
  static hif::CRS<V, I, P> go(int n, int m, const P *p, const I *i, const V *v, bool ck) { return hif::wrap_const_crs<V, I, P>(n, m, p, i, v, ck); }
};
template <class V, class I, class P> struct Wrap<hif::CCS<V, I, P>> {
  static hif::CCS<V, I, P> go(int n, int m, const P *p, const I *i, const V *v, bool ck) { return hif::wrap_const_ccs<V, I, P>(n, m, p, i, v, ck); }
};
template <class Cs> static void wrap(mc::Case &c, int n, int m, std::vector<int> ip_, std::vector<int> ix_) {
  typedef typename Cs::indptr_type P;
  typedef typename Cs::index_type  I;
  const int pri = Cs::ROW_MAJOR ? n : m, sec = Cs::ROW_MAJOR ? m : n;
  std::string o;
  for (int x : ip_) o += " " + std::to_string(x);
  o += " |";
  for (int x : ix_) o += " " + std::to_string(x);
  c.desc("%s %dx%d starts%s", Cs::ROW_MAJOR ? "CRS" : "CCS", n, m, o.c_str());
  std::unique_ptr<P[]> ip(new P[ip_.size()]);
  std::copy(ip_.begin(), ip_.end(), ip.get());
  std::unique_ptr<I[]> ix(new I[ix_.size()]);
  std::copy(ix_.begin(), ix_.end(), ix.get());
  std::unique_ptr<double[]> v(new double[ix_.size()]);
  for (size_t k = 0; k < ix_.size(); ++k) v[k] = k + 1;
  bool ok = ip[0] == 0;
  for (int i = 0; i < pri; ++i) ok = ok && ip[i + 1] >= ip[i];
  // the arrays hold as many entries as the last starting position says
  for (int i = 0; ok && i < pri; ++i)
    for (int k = ip[i]; k < ip[i + 1]; ++k) ok = ok && ix[k] >= 0 && ix[k] < sec && (k == ip[i] || ix[k] > ix[k - 1]);
  bool rej = false;
  try {
    const Cs S = Wrap<Cs>::go(n, m, ip.get(), ix.get(), v.get(), true);
    if (ok) {
      if (S.vals().data() != v.get() || S.inds().data() != ix.get() || S.ind_start().data() != ip.get()) c.fail("wrapping copies the data");
      if ((int)S.nrows() != n || (int)S.ncols() != m) c.fail("wrapped sizes are wrong");
    }
  } catch (const std::runtime_error &) {
    rej = true;
  }
  c.transition();
  c.outcome(rej);
  if (rej == ok) c.fail("%s", ok ? "well-formed arrays are refused" : "malformed arrays are accepted");
  c.validated();
}

int main(int argc, char **argv) {
  using mc::Family;
  const bool th = mc::thorough();
  std::vector<Family> F;
  typedef std::ptrdiff_t P;
  struct Sh {
    int      n, m;
    uint64_t off;
  };
  static std::vector<Sh> shp;
  uint64_t               tot = 0;
  for (int n = 0; n <= 4; ++n)
    for (int m = 0; m <= 4; ++m)
      if (n * m <= (th ? 12 : 9)) shp.push_back({n, m, tot}), tot += 1ull << (n * m);
  auto dec = [](uint64_t i, int &n, int &m, uint64_t &b) {
    const Sh *s = 0;
    for (auto &q : shp)
      if (i >= q.off) s = &q;
    n = s->n, m = s->m, b = i - s->off;
  };
  F.push_back({"structure", "all patterns of all shapes up to 4x4 with at most 9 (12 thorough) cells, without and with stored zeros: conversion, split at every position (8 forms), leading blocks, export, scaling, copies, assembly", tot * 2, [=](mc::Case &c) {
                 int      n, m;
                 uint64_t b;
                 dec(c.idx / 2, n, m, b);
                 c.state(mc::hash_bytes(&c.idx, sizeof c.idx));
                 const int t = c.idx % 2;
                 structure<hif::CRS<double, int, P>>(c, make<double>(n, m, b, t));
                 if (!c.nfail) structure<hif::CCS<double, int, P>>(c, make<double>(n, m, b, t));
                 if (!c.nfail && (b % 4 == 1 || th)) structure<hif::CRS<cd, long, long>>(c, make<cd>(n, m, b, t));
                 if (!c.nfail && (b % 4 == 2 || th)) structure<hif::CCS<float, int, int>>(c, make<float>(n, m, b, t));
               }});
  F.push_back({"permute", "all patterns of all shapes up to 3x3 (quick: every third pattern with more than 7 cells) x all pairs of row and column permutations x all leading blocks x with/without values", tot, [=](mc::Case &c) {
                 int      n, m;
                 uint64_t b;
                 dec(c.idx, n, m, b);
                 c.state(mc::hash_bytes(&c.idx, sizeof c.idx));
                 if (!th && n * m > 7 && b % 3) return;
                 permute<hif::CRS<double, int, P>>(c, make<double>(n, m, b, 0));
                 if (!c.nfail) permute<hif::CCS<double, int, P>>(c, make<double>(n, m, b, 0));
                 if (!c.nfail && b % 8 == 5) permute<hif::CRS<cd, long, long>>(c, make<cd>(n, m, b, 1));
               }});
  F.push_back({"prune", "all patterns as above x three graded value tables with zeros x zero- and one-based x 8 thresholds x with/without shrinking", tot * 6, [=](mc::Case &c) {
                 int      n, m;
                 uint64_t b;
                 dec(c.idx / 6, n, m, b);
                 c.state(mc::hash_bytes(&c.idx, sizeof c.idx));
                 const int t = c.idx % 6 / 2 + 1, base = c.idx % 2;
                 prune<hif::CRS<double, int, P>>(c, make<double>(n, m, b, t), base);
                 if (!c.nfail) prune<hif::CCS<double, int, P>>(c, make<double>(n, m, b, t * 4), base);
                 if (!c.nfail && b % 4 == 1) prune<hif::CRS<cd, int, P>>(c, make<cd>(n, m, b, t), base);
               }});
  // triplets: all ordered selections
  F.push_back({"triplets", "all ordered lists of distinct positions: 2x3 up to 6, 3x3 up to 5 (6 thorough) entries", [&] {
                 uint64_t N = 0, a = 1, b = 1;
                 for (int k = 0; k <= 6; ++k) N += a, a *= 6 - k;
                 for (int k = 0; k <= (th ? 6 : 5); ++k) N += b, b *= 9 - k;
                 return N;
               }(),
               [=](mc::Case &c) {
                 uint64_t i = c.idx, a = 1;
                 int      n = 2, cells = 6, k = 0;
                 for (;; ++k) {
                   if (k > 6 && cells == 6) n = 3, cells = 9, k = 0, a = 1;
                   if (i < a) break;
                   i -= a, a *= cells - k;
                 }
                 std::vector<int> left, ent;
                 for (int q = 0; q < cells; ++q) left.push_back(q);
                 for (int q = 0; q < k; ++q) {
                   int w = i % left.size();
                   i /= left.size();
                   ent.push_back(left[w]), left.erase(left.begin() + w);
                 }
                 coo<double>(c, n, 3, ent);
                 if (!c.nfail && c.idx % 3 == 0) coo<cd>(c, n, 3, ent);
               }});
  F.push_back({"wrap", "wrapping of user arrays with checking: shapes up to 3x3, all starting arrays over {0..3} (first also 1), all index arrays over {-1..3} of the length the last starting position says (up to 3)", [&] {
                 uint64_t N = 0;
                 for (int s = 0; s < 9; ++s) N += 2 * 64 * 125;
                 return N;
               }(),
               [=](mc::Case &c) {
                 uint64_t i = c.idx;
                 int      n = i % 3 + 1, m = i / 3 % 3 + 1;
                 i /= 9;
                 for (int row = 0; row < 2; ++row) {
                   uint64_t         k = i;
                   const int        pri = row ? n : m;
                   std::vector<int> ip{(int)(k % 2)}, ix;
                   k /= 2;
                   for (int q = 0; q < 3; ++q, k /= 4)
                     if (q < pri) ip.push_back(k % 4);
                   const int len = std::max(0, ip.back() - ip[0]);
                   if (ip.back() < ip[0]) continue;
                   // starting positions beyond the last one would address memory the caller never promised
                   for (int q = 0; q < 3; ++q, k /= 5)
                     if (q < len) ix.push_back((int)(k % 5) - 1);
                   if (row) wrap<hif::CRS<double, int, P>>(c, n, m, ip, ix), wrap<hif::CRS<double, int, int>>(c, n, m, ip, ix);
                   else wrap<hif::CCS<double, int, P>>(c, n, m, ip, ix), wrap<hif::CCS<double, int, int>>(c, n, m, ip, ix);
                   if (c.nfail) return;
                 }
               }});
  static const int bs[][2] = {{33, 5}, {5, 33}, {40, 40}, {70, 17}, {17, 130}, {129, 1}, {1, 129}, {65, 63}};
  const int        NBS = sizeof bs / sizeof *bs;
  F.push_back({"large", "8 shapes up to 130 rows or columns x 8 structures x three value tables: all of the above operations", (uint64_t)NBS * NBIG * 3, [=](mc::Case &c) {
                 const int t = c.idx % 3, kind = c.idx / 3 % NBIG, n = bs[c.idx / 3 / NBIG][0], m = bs[c.idx / 3 / NBIG][1];
                 c.state(mc::hash_bytes(&c.idx, sizeof c.idx));
                 const auto A = big<double>(n, m, kind, t);
                 const auto Z = big<cd>(n, m, kind, t);
                 structure<hif::CRS<double, int, P>>(c, A);
                 if (!c.nfail) structure<hif::CCS<double, int, P>>(c, A);
                 if (!c.nfail) structure<hif::CRS<cd, long, long>>(c, Z);
                 if (!c.nfail && kind && t == 0) permute<hif::CRS<double, int, P>>(c, A);
                 if (!c.nfail && kind && t == 1) permute<hif::CCS<double, int, P>>(c, A);
                 if (!c.nfail && t) prune<hif::CRS<double, int, P>>(c, A, 0);
                 if (!c.nfail && t) prune<hif::CCS<cd, int, P>>(c, Z, 1);
                 std::vector<int> ent;
                 for (auto &x : A.e) ent.push_back(x.first.first * m + x.first.second);
                 for (int o = 0; o < 3 && !c.nfail; ++o) {
                   if (o == 1) std::reverse(ent.begin(), ent.end());
                   if (o == 2) std::sort(ent.begin(), ent.end(), [](int a, int b) { return mc::mix(a, 3) < mc::mix(b, 3); });
                   coo<double>(c, n, m, ent);
                 }
               }});
  return mc::drive(argc, argv, F);
}
