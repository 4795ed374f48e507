// P17: augmented compressed storage (linked lists across the primary lines) against a dense model, over all patterns and programs.
#include "hx.hpp"
#include "hif/ds/AugmentedStorage.hpp"
using namespace hx;

template <class Idx, class Ptr>
struct RowWise {
  typedef hif::CRS<double, Idx, Ptr> base;
  typedef typename base::other_type  other;
  typedef hif::AugCRS<base>          aug;
  static const char *                name() { return "AugCRS"; }
  static aug  make(size_t np, size_t ns, size_t nnz) { return aug(np, ns, nnz); }
  static base mk(size_t np, size_t ns) { return base(np, ns); }
  static other mko(size_t np, size_t ns) { return other(np, ns); }
  static const hif::Array<Idx> &idx(const base &b) { return b.col_ind(); }
  static const hif::Array<Ptr> &start(const base &b) { return b.row_start(); }
  static void begin(aug &a) { a.begin_assemble_rows(); }
  static void end(aug &a) { a.end_assemble_rows(); }
  template <class... T> static void push(aug &a, T &&... t) { a.push_back_row(std::forward<T>(t)...); }
  static void bpush(base &a, size_t i, const std::vector<Idx> &l, const std::vector<double> &v) { a.push_back_row(i, l.begin(), l.end(), v); }
  static void opush(other &a, size_t i, const std::vector<Idx> &l, const std::vector<double> &v) { a.push_back_col(i, l.begin(), l.end(), v); }
  static void bbegin(base &a) { a.begin_assemble_rows(); }
  static void bend(base &a) { a.end_assemble_rows(); }
  static void obegin(other &a) { a.begin_assemble_cols(); }
  static void oend(other &a) { a.end_assemble_cols(); }
  static void inter(aug &a, size_t i, size_t k) { a.interchange_cols(i, k); }
  static void defer(aug &a, size_t i, size_t k) { a.defer_col(i, k); }
  static const hif::Array<Ptr> &send(const aug &a) { return a.col_end(); }
  static const hif::Array<Idx> &cnt(const aug &a) { return a.col_counts(); }
  static size_t startid(const aug &a, size_t j) { return a.start_col_id(j); }
  static size_t nextid(const aug &a, size_t j) { return a.next_col_id(j); }
  static size_t prim(const aug &a, size_t j) { return a.row_idx(j); }
  static double val(const aug &a, size_t j) { return a.val_from_col_id(j); }
  static size_t nnz(const aug &a, size_t j) { return a.nnz_in_col(j); }
};
template <class Idx, class Ptr>
struct ColWise {
  typedef hif::CCS<double, Idx, Ptr> base;
  typedef typename base::other_type  other;
  typedef hif::AugCCS<base>          aug;
  static const char *                name() { return "AugCCS"; }
  static aug  make(size_t np, size_t ns, size_t nnz) { return aug(ns, np, nnz); }
  static base mk(size_t np, size_t ns) { return base(ns, np); }
  static other mko(size_t np, size_t ns) { return other(ns, np); }
  static const hif::Array<Idx> &idx(const base &b) { return b.row_ind(); }
  static const hif::Array<Ptr> &start(const base &b) { return b.col_start(); }
  static void begin(aug &a) { a.begin_assemble_cols(); }
  static void end(aug &a) { a.end_assemble_cols(); }
  template <class... T> static void push(aug &a, T &&... t) { a.push_back_col(std::forward<T>(t)...); }
  static void bpush(base &a, size_t i, const std::vector<Idx> &l, const std::vector<double> &v) { a.push_back_col(i, l.begin(), l.end(), v); }
  static void opush(other &a, size_t i, const std::vector<Idx> &l, const std::vector<double> &v) { a.push_back_row(i, l.begin(), l.end(), v); }
  static void bbegin(base &a) { a.begin_assemble_cols(); }
  static void bend(base &a) { a.end_assemble_cols(); }
  static void obegin(other &a) { a.begin_assemble_rows(); }
  static void oend(other &a) { a.end_assemble_rows(); }
  static void inter(aug &a, size_t i, size_t k) { a.interchange_rows(i, k); }
  static void defer(aug &a, size_t i, size_t k) { a.defer_row(i, k); }
  static const hif::Array<Ptr> &send(const aug &a) { return a.row_end(); }
  static const hif::Array<Idx> &cnt(const aug &a) { return a.row_counts(); }
  static size_t startid(const aug &a, size_t j) { return a.start_row_id(j); }
  static size_t nextid(const aug &a, size_t j) { return a.next_row_id(j); }
  static size_t prim(const aug &a, size_t j) { return a.col_idx(j); }
  static double val(const aug &a, size_t j) { return a.val_from_row_id(j); }
  static size_t nnz(const aug &a, size_t j) { return a.nnz_in_row(j); }
};

// the model: one map secondary -> value per primary line; values are unique and positive
static std::string strf(const char *f, ...) { char b[256]; va_list v; va_start(v, f); vsnprintf(b, sizeof b, f, v); va_end(v); return b; }
typedef std::vector<std::vector<double>> Model;
#define FAIL(...) do { c.fail(__VA_ARGS__); return false; } while (0)
template <class T>
static bool check(mc::Case &c, const typename T::aug &a, const Model &m, size_t np, size_t ns, const std::string &prog) {
  c.validated();
  const auto &st = T::start(a);
  const auto &ix = T::idx(a);
  const auto &v  = a.vals();
  if (st.size() != m.size() + 1 || st[0] != 0) FAIL("%s: %zu primary lines, expected %zu after%s", T::name(), st.size() - 1, m.size(), prog.c_str());
  size_t total = 0;
  for (auto &r : m) for (double x : r) total += x != 0;
  if ((size_t)st[m.size()] != total || ix.size() != total || v.size() != total) FAIL("%s: stored entries %zu/%zu/%zu, expected %zu after%s", T::name(), (size_t)st[m.size()], ix.size(), v.size(), total, prog.c_str());
  for (size_t i = 0; i < m.size(); ++i) {
    size_t p = st[i];
    for (size_t j = 0; j < ns; ++j)
      if (m[i][j] != 0) {
        if (p >= (size_t)st[i + 1] || (size_t)ix[p] != j || v[p] != m[i][j]) FAIL("%s: primary line %zu does not store entry %zu in its place after%s", T::name(), i, j, prog.c_str());
        ++p;
      }
    if (p != (size_t)st[i + 1]) FAIL("%s: primary line %zu has additional entries after%s", T::name(), i, prog.c_str());
  }
  std::vector<char> seen(total, 0);
  for (size_t j = 0; j < ns; ++j) {
    size_t id = T::startid(a, j), last = id, n = 0;
    if (id != (size_t)a.start_aug_id(j)) FAIL("%s: start_aug_id differs", T::name());
    for (size_t i = 0; i < m.size(); ++i)
      if (m[i][j] != 0) {
        if (a.is_nil(id)) FAIL("%s: list %zu ends before primary line %zu after%s", T::name(), j, i, prog.c_str());
        if (id >= total) FAIL("%s: list %zu leaves the storage after%s", T::name(), j, prog.c_str());
        if (T::prim(a, id) != i || (size_t)a.primary_idx(id) != i) FAIL("%s: list %zu visits primary line %zu instead of %zu after%s", T::name(), j, T::prim(a, id), i, prog.c_str());
        if (T::val(a, id) != m[i][j] || a.val_from_aug_id(id) != m[i][j]) FAIL("%s: list %zu reads %g instead of %g on primary line %zu after%s", T::name(), j, T::val(a, id), m[i][j], i, prog.c_str());
        size_t vp = a.val_pos_idx(id);
        if (vp >= total || seen[vp]) FAIL("%s: value position of list %zu used twice after%s", T::name(), j, prog.c_str());
        seen[vp] = 1;
        ++n;
        last = id;
        if (T::nextid(a, id) != (size_t)a.next_aug_id(id)) FAIL("%s: next_aug_id differs", T::name());
        id = T::nextid(a, id);
      }
    if (!a.is_nil(id)) FAIL("%s: list %zu continues behind its last entry after%s", T::name(), j, prog.c_str());
    if (T::nnz(a, j) != n || a.nnz_in_secondary(j) != n || (size_t)T::cnt(a)[j] != n) FAIL("%s: list %zu counts %zu entries, expected %zu after%s", T::name(), j, T::nnz(a, j), n, prog.c_str());
    if (n ? (size_t)T::send(a)[j] != last : !a.is_nil(T::send(a)[j])) FAIL("%s: list %zu has a wrong tail after%s", T::name(), j, prog.c_str());
  }
  uint64_t h = mc::hash_bytes(T::name(), 6);
  for (auto &r : m) for (double x : r) h = mc::mix(h, x != 0);
  c.state(mc::mix(h, np * 16 + ns));
  return true;
}

// build from a complete matrix (4 ways), then interchange or defer
template <class T, class Idx>
static void built(mc::Case &c, int np, int ns, int depth, int ways) {
  uint64_t  k = c.idx;
  const int K = 1, NS = ns + K, pairs = ns * (ns - 1) / 2, nops = pairs + ns;
  const uint64_t pat = k % (1ull << (np * ns));
  k /= 1ull << (np * ns);
  const int how = ways == 1 ? 1 : int(k % 4);
  k /= ways;
  c.desc("%s %dx%d pattern %llx built %d program %llu", T::name(), np, ns, (unsigned long long)pat, how, (unsigned long long)k);
  Model m(np, std::vector<double>(NS, 0.0));
  typename T::base b = T::mk(np, NS);
  T::bbegin(b);
  for (int i = 0; i < np; ++i) {
    std::vector<Idx> l;
    for (int j = 0; j < ns; ++j)
      if (pat >> (i * ns + j) & 1) l.push_back(j), m[i][j] = 1 + i * ns + j;
    T::bpush(b, i, l, m[i]);
  }
  T::bend(b);
  typename T::aug a;
  std::string     prog = how == 0 ? " sharing build" : how == 1 ? " cloning build" : how == 2 ? " moving build" : " converting build";
  const Model     m0   = m;
  if (how == 0) a.build_aug(b);
  else if (how == 1) a.build_aug(b, true);
  else if (how == 2) a.build_aug(typename T::base(b, true));
  else {
    typename T::other o = T::mko(np, NS);
    T::obegin(o);
    for (int j = 0; j < NS; ++j) {
      std::vector<Idx>    l;
      std::vector<double> v(np);
      for (int i = 0; i < np; ++i)
        if (m[i][j] != 0) l.push_back(i), v[i] = m[i][j];
      T::opush(o, j, l, v);
    }
    T::oend(o);
    a.build_aug(o);
  }
  if (!check<T>(c, a, m, np, NS, prog)) return;
  std::vector<int> live(ns);
  for (int i = 0; i < ns; ++i) live[i] = i;
  int nd = 0;
  for (int d = 0; d < depth; ++d, k /= nops) {
    int op = k % nops;
    c.transition();
    if (op < pairs) {
      int i = 0, j;
      for (j = 1;; ++j) { if (op < j) { i = op; break; } op -= j; }
      if ((d + how) & 1) std::swap(i, j);  // both argument orders
      prog += strf(" interchange(%d,%d)", live[i], live[j]);
      if (d & 1) a.interchange_entries(live[i], live[j]); else T::inter(a, live[i], live[j]);
      for (auto &r : m) std::swap(r[live[i]], r[live[j]]);
    } else {
      op -= pairs;
      if (nd == K) return;
      const int to = ns + nd++;
      prog += strf(" defer(%d,%d)", live[op], to);
      if (d & 1) a.defer_entry(live[op], to); else T::defer(a, live[op], to);
      for (auto &r : m) std::swap(r[live[op]], r[to]);
      live.erase(live.begin() + op);
      live.push_back(to);
    }
    if (!check<T>(c, a, m, np, NS, prog)) return;
  }
  // the matrix it was built from
  if (how) {
    const auto &ix = T::idx(b);
    size_t      p  = 0;
    for (int i = 0; i < np; ++i)
      for (int j = 0; j < ns; ++j)
        if (m0[i][j] != 0) {
          if ((int)ix[p] != j || b.vals()[p] != m0[i][j]) { c.fail("%s: the matrix it was built from has changed after%s", T::name(), prog.c_str()); return; }
          ++p;
        }
  }
}

// long programs: a row is appended, lists are interchanged or deferred, as the factorization does it, at every size
template <class T, class Idx>
static void marched(mc::Case &c) {
  static const int ns_[] = {9, 16, 17, 33, 48, 70, 130};
  uint64_t  k    = c.idx;
  auto      take = [&](int q) { int r = k % q; k /= q; return r; };
  const int ns = ns_[take(7)], fill = take(5), swp = take(6), def = take(4), res = take(3), split = take(2);
  const int K = def ? ns / (def + 1) : 0, NS = ns + K, rows = ns;
  c.desc("%s of %d lists, density %d, interchanges %d, deferrals %d, space %d, ranges %d", T::name(), ns, fill, swp, def, res, split + 1);
  typename T::aug a = T::make(rows, NS, res == 0 ? 0 : res == 1 ? 5 : rows * NS);
  Model           m;
  T::begin(a);
  std::vector<int> live(ns);
  for (int i = 0; i < ns; ++i) live[i] = i;
  int nd = 0;
  for (int d = 0; d < rows; ++d) {
    std::vector<double> r(NS, 0.0), v(NS, -7), v2(NS, -8);
    std::vector<Idx>    l, l2;
    for (size_t i = 0; i < live.size(); ++i) {
      const uint64_t h = mc::mix(d * 1000 + i, fill);
      const bool     in = fill == 0 ? true : fill == 1 ? h % 3 == 0 : fill == 2 ? h % 11 == 0 : fill == 3 ? (int)i >= d : i == (size_t)d || i + 1 == live.size() || d % 5 == 0;
      if (!in) continue;
      const bool two = split && (int)i >= ns / 2;
      r[live[i]] = 1 + d * NS + i;
      (two ? v2 : v)[live[i]] = r[live[i]];
      (two ? l2 : l).push_back(live[i]);
    }
    if (split) T::push(a, m.size(), l.cbegin(), l.cend(), v, l2.cbegin(), l2.cend(), v2);
    else T::push(a, m.size(), l.cbegin(), l.cend(), v);
    m.push_back(r);
    c.transition();
    std::string prog = strf(" step %d", d);
    const int   n = live.size();
    int         i = -1, j = -1;
    if (swp == 1) i = d % n, j = n - 1 - d % n;
    if (swp == 2) i = 0, j = n - 1;
    if (swp == 3 && d % 3 == 0) i = d % n, j = (d + 1) % n;
    if (swp == 4) i = mc::mix(d, 3) % n, j = mc::mix(d, 4) % n;
    if (swp == 5) i = std::min(d + 1, n - 1), j = std::min<int>(d + 1 + mc::mix(d, 5) % 7, n - 1);
    if (i >= 0 && i != j) {
      if (d & 1) T::inter(a, live[i], live[j]);
      else a.interchange_entries(live[i], live[j]);
      for (auto &q : m) std::swap(q[live[i]], q[live[j]]);
      prog += strf(" interchange(%d,%d)", live[i], live[j]);
    }
    if (nd < K && d % (def + 1) == def) {
      const int f = d % 2 ? d % n : n - 1, to = ns + nd++;
      if (d % 3) T::defer(a, live[f], to);
      else a.defer_entry(live[f], to);
      for (auto &q : m) std::swap(q[live[f]], q[to]);
      prog += strf(" defer(%d,%d)", live[f], to);
      live.erase(live.begin() + f);
      live.push_back(to);
    }
    if ((d < 3 || d % 8 == 0 || d + 1 == rows || ns < 20) && !check<T>(c, a, m, m.size(), NS, prog)) return;
  }
}
// assembling interleaved with interchanging, deferring, cloning and moving
template <class T, class Idx>
static void assembled(mc::Case &c, int ns, int depth, bool split) {
  const int K = depth, NS = ns + K, pairs = ns * (ns - 1) / 2, masks = 1 << ns, npush = split ? 2 * masks : masks, nops = npush + pairs + ns + 3;
  uint64_t  k = c.idx;
  c.desc("%s of %d lists, program %llu", T::name(), ns, (unsigned long long)k);
  typename T::aug a = T::make(depth, NS, (c.idx & 1) ? 0 : 4), old;
  Model           m, mold;
  bool            has = false;
  std::string     prog;
  T::begin(a);
  std::vector<int> live(ns);
  for (int i = 0; i < ns; ++i) live[i] = i;
  int nd = 0, stamp = 0;
  if (!check<T>(c, a, m, 0, NS, " begin")) return;
  for (int d = 0; d < depth; ++d, k /= nops) {
    int op = k % nops;
    c.transition();
    if (op < npush) {
      std::vector<double> r(NS, 0.0), v(NS, -7), v2(NS, -8);
      std::vector<Idx>    l, l2;
      const int           mask = op % masks, cut = op < masks ? ns : ns / 2;
      for (int i = 0; i < ns; ++i)
        if (mask >> i & 1) {
          r[live[i]] = ++stamp;
          (i < cut ? v : v2)[live[i]] = stamp;
          (i < cut ? l : l2).push_back(live[i]);
        }
      prog += strf(" push%s(%x)", op < masks ? "" : "2", mask);
      const size_t row = m.size();
      if (op < masks) T::push(a, row, l.cbegin(), l.cend(), v);
      else T::push(a, row, l.cbegin(), l.cend(), v, l2.cbegin(), l2.cend(), v2);
      m.push_back(r);
    } else if ((op -= npush) < pairs) {
      int i = 0, j;
      for (j = 1;; ++j) { if (op < j) { i = op; break; } op -= j; }
      if (d & 1) std::swap(i, j);
      prog += strf(" interchange(%d,%d)", live[i], live[j]);
      T::inter(a, live[i], live[j]);
      for (auto &r : m) std::swap(r[live[i]], r[live[j]]);
    } else if ((op -= pairs) < ns) {
      const int to = ns + nd++;
      prog += strf(" defer(%d,%d)", live[op], to);
      T::defer(a, live[op], to);
      for (auto &r : m) std::swap(r[live[op]], r[to]);
      live.erase(live.begin() + op);
      live.push_back(to);
    } else if ((op -= ns) == 0) {
      prog += " continue with a clone";
      typename T::aug t(a, true);
      old  = a;
      mold = m;
      has  = true;
      a    = t;
    } else if (op == 1) {
      prog += " move";
      typename T::aug t(std::move(a));
      a = std::move(t);
    } else {
      prog += " begin again";
      // one begins again with storage of one's own
      a = typename T::aug(a, true);
      a.reserve(3);
      T::begin(a);
      m.clear();
    }
    if (!check<T>(c, a, m, m.size(), NS, prog)) return;
    if (has && !check<T>(c, old, mold, mold.size(), NS, prog + " (original of the clone)")) return;
  }
  while ((int)m.size() < depth) {
    std::vector<Idx> l;
    T::push(a, m.size(), l.cbegin(), l.cend(), std::vector<double>(NS));
    m.push_back(std::vector<double>(NS, 0.0));
  }
  T::end(a);
  check<T>(c, a, m, m.size(), NS, prog + " end");
}

int main(int argc, char **argv) {
  using mc::Family;
  std::vector<Family> F;
  const bool          th = mc::thorough();
  typedef RowWise<int, std::ptrdiff_t> R;
  typedef ColWise<int, std::ptrdiff_t> C;
  typedef RowWise<short, int>           R2;
  struct Sz { int np, ns, d; };
  std::vector<Sz> sz = {{2, 2, 3}, {2, 3, 3}, {3, 3, 3}, {2, 4, 3}, {4, 3, 2}, {3, 4, 2}};
  if (th) sz = {{2, 2, 6}, {3, 3, 5}, {2, 4, 4}, {4, 3, 4}, {3, 4, 3}, {2, 5, 3}, {4, 4, 2}};
  for (auto s : sz) {
    const int      nops = s.ns * (s.ns - 1) / 2 + s.ns;
    const int      w    = s.np * s.ns <= 9 ? 4 : 1;
    const uint64_t n    = (1ull << (s.np * s.ns)) * w * ipow(nops, s.d);
    char *         nm   = strdup(strf("row%dx%d", s.np, s.ns).c_str()), *nc = strdup(strf("col%dx%d", s.np, s.ns).c_str());
    char *         ds   = strdup(strf("all %dx%d patterns x %d ways to build x all programs of %d of %d operations", s.np, s.ns, w, s.d, nops).c_str());
    F.push_back({nm, ds, n, [=](mc::Case &c) { built<R, int>(c, s.np, s.ns, s.d, w); }});
    F.push_back({nc, ds, n, [=](mc::Case &c) { built<C, int>(c, s.np, s.ns, s.d, w); }});
  }
  F.push_back({"short2x3", "16-bit indices with 32-bit positions", (1ull << 6) * 4 * ipow(6, 3), [=](mc::Case &c) { built<R2, short>(c, 2, 3, 3, 4); }});
  const int d3 = th ? 5 : 4, d4 = th ? 4 : 3;
  F.push_back({"asm3row", "3 lists: all programs of assembling (one or two ranges), interchanging, deferring, cloning, moving", ipow(16 + 3 + 3 + 3, d3), [=](mc::Case &c) { assembled<R, int>(c, 3, d3, true); }});
  F.push_back({"asm3col", "3 lists: all programs of assembling (one or two ranges), interchanging, deferring, cloning, moving", ipow(16 + 3 + 3 + 3, d3), [=](mc::Case &c) { assembled<C, int>(c, 3, d3, true); }});
  F.push_back({"asm4row", "4 lists: the same with 45 operations", ipow(32 + 6 + 4 + 3, d4), [=](mc::Case &c) { assembled<R, int>(c, 4, d4, true); }});
  F.push_back({"asm4col", "4 lists: the same with 45 operations", ipow(32 + 6 + 4 + 3, d4), [=](mc::Case &c) { assembled<C, int>(c, 4, d4, true); }});
  F.push_back({"longrow", "9 to 130 lists: as many steps of appending, interchanging and deferring; 5 densities x 6 interchange rules x 4 deferral rules x reserved space x one or two ranges", 7 * 5 * 6 * 4 * 3 * 2, [](mc::Case &c) { marched<R, int>(c); }});
  F.push_back({"longcol", "9 to 130 lists: as many steps of appending, interchanging and deferring; 5 densities x 6 interchange rules x 4 deferral rules x reserved space x one or two ranges", 7 * 5 * 6 * 4 * 3 * 2, [](mc::Case &c) { marched<C, int>(c); }});
  return mc::drive(argc, argv, F);
}
