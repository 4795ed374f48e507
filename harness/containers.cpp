// P18: array, dense matrix, sparse vector and permutation containers against reference models, over all short programs.
#include <cmath>
#include <cstdlib>
#include <memory>
#include <new>
#include <random>
#include "hx.hpp"
using namespace hx;
// live allocations of the code under test (arrays and counters alike)
static long g_live = 0;
void *operator new(size_t n) { ++g_live; void *p = std::malloc(n ? n : 1); if (!p) throw std::bad_alloc(); return p; }
void *operator new[](size_t n) { ++g_live; void *p = std::malloc(n ? n : 1); if (!p) throw std::bad_alloc(); return p; }
void *operator new(size_t n, const std::nothrow_t &) noexcept { ++g_live; return std::malloc(n ? n : 1); }
void *operator new[](size_t n, const std::nothrow_t &) noexcept { ++g_live; return std::malloc(n ? n : 1); }
void operator delete(void *p) noexcept { if (p) --g_live, std::free(p); }
void operator delete[](void *p) noexcept { if (p) --g_live, std::free(p); }
void operator delete(void *p, size_t) noexcept { if (p) --g_live, std::free(p); }
void operator delete[](void *p, size_t) noexcept { if (p) --g_live, std::free(p); }

typedef hif::Array<double> A;
// contents: NaN = unspecified
struct Buf { std::vector<double> v; bool ext = false; };
struct Ref {  // reference of one array
  std::shared_ptr<Buf> b;
  size_t size = 0;
};
static const double U = NAN;
#define FAIL(...) do { c.fail(__VA_ARGS__); return false; } while (0)

// ---- arrays
enum { NOP1 = 21 };
static const char *opn[] = {"= Array()", "= Array(0)", "= Array(3)", "= Array(2,7)", "resize(0)", "resize(2)", "resize(4)", "resize(5,false)", "reserve(1)", "reserve(6)", "push_back(9)", "push_back(range of 2)", "push_back_n(3)",
                            "write first", "write last", "wrap 3", "= copied external", "= converted", "clone itself", "steal", "release"};
static const char *op2n[] = {"= other", "= moved other", "= clone of other", "swap", "copy-construct", "move-construct"};
struct World {
  std::vector<std::unique_ptr<A>> a;
  std::vector<Ref> r;
  double ext[5];
  std::shared_ptr<Buf> eb;
  std::vector<std::pair<double *, std::shared_ptr<Buf>>> stolen;
  int stamp = 0;
};
static size_t cap_of(const Ref &r) { return r.b ? r.b->v.size() : 0; }
static bool check(mc::Case &c, World &w, const std::string &prog, bool thrown) {
  const int n = w.a.size();
  for (int i = 0; i < n; ++i) {
    A &  a = *w.a[i];
    Ref &r = w.r[i];
    c.validated();
    if (a.size() != r.size) FAIL("array %d has size %zu, expected %zu after%s", i, a.size(), r.size, prog.c_str());
    if (a.capacity() < a.size()) FAIL("array %d: capacity %zu below the size %zu after%s", i, a.capacity(), a.size(), prog.c_str());
    if (a.empty() != (a.size() == 0) || (size_t)(a.end() - a.begin()) != a.size() || (size_t)(a.cend() - a.cbegin()) != a.size()) FAIL("array %d: inconsistent range after%s", i, prog.c_str());
    for (size_t k = 0; k < a.size(); ++k)
      if (r.b->v[k] == r.b->v[k] && (a[k] != r.b->v[k] || a.at(k) != a[k] || a.data()[k] != a[k])) FAIL("array %d: element %zu is %g, expected %g after%s", i, k, a[k], r.b->v[k], prog.c_str());
    bool thr = !thrown;
    if (thrown) try { a.at(a.size()); } catch (const std::exception &) { thr = true; }
    if (!thr) FAIL("checked access beyond the end of array %d accepted after%s", i, prog.c_str());
    if (a.size() && r.b->ext && a.data() != w.ext) FAIL("array %d does not refer to the wrapped data after%s", i, prog.c_str());
    if (a.size() && !r.b->ext && a.data() >= w.ext && a.data() < w.ext + 5) FAIL("array %d refers to data it should have copied after%s", i, prog.c_str());
  }
  for (int i = 0; i < n; ++i)
    for (int j = 0; j < i; ++j)
      if (w.a[i]->size() && w.a[j]->size() && (w.a[i]->data() == w.a[j]->data()) != (w.r[i].b == w.r[j].b))
        FAIL("arrays %d and %d %s after%s", i, j, w.r[i].b == w.r[j].b ? "should share their data, but do not" : "share data, but should not", prog.c_str());
  return true;
}
static std::shared_ptr<Buf> mk(size_t n, double v = U) {
  auto b = std::make_shared<Buf>();
  b->v.assign(n, v);
  return b;
}
static void grow(World &w, int i, size_t n, bool keep, size_t oldcap) {  // model of resize
  Ref &r = w.r[i];
  if (n <= oldcap && (r.b || !n)) { r.size = n; if (!r.b) r.b = mk(0); return; }
  auto b = mk(std::max(w.a[i]->capacity(), n));
  if (keep && r.b) std::copy_n(r.b->v.begin(), std::min(r.size, n), b->v.begin());
  r.b = b, r.size = n;
}
// returns false if the operation does not apply
static bool apply1(mc::Case &c, World &w, int i, int op) {
  A &  a = *w.a[i];
  Ref &r = w.r[i];
  const size_t cap = a.capacity();
  const bool wrap = r.b && r.b->ext;
  const double v = ++w.stamp;
  double src[3] = {v + 0.25, v + 0.5, v + 0.75};
  c.transition();
  switch (op) {
    case 0: a = A(), r = Ref(); break;
    case 1: a = A(0), r = Ref(), r.b = mk(0); break;
    case 2: a = A(3), r.b = mk(3), r.size = 3; break;
    case 3: a = A(2, 7.0), r.b = mk(2, 7), r.size = 2; break;
    case 4: if (wrap) return false; a.resize(0), grow(w, i, 0, true, cap); break;
    case 5: if (wrap) return false; a.resize(2), grow(w, i, 2, true, cap); break;
    case 6: if (wrap) return false; a.resize(4), grow(w, i, 4, true, cap); break;
    case 7: if (wrap) return false; a.resize(5, false), grow(w, i, 5, false, cap); break;
    case 8: case 9: {
      if (wrap) return false;
      const size_t n = op == 8 ? 1 : 6;
      a.reserve(n);
      if (a.capacity() < n) { c.fail("capacity %zu after reserving %zu", a.capacity(), n); return false; }
      if (n > cap || !r.b) {
        auto b = mk(a.capacity());
        if (r.b) std::copy_n(r.b->v.begin(), r.size, b->v.begin());
        r.b = b;
      }
      break;
    }
    case 10: if (wrap) return false; a.push_back(v), grow(w, i, r.size + 1, true, cap), r.b->v[r.size - 1] = v; break;
    case 11: if (wrap) return false; a.push_back(src, src + 2), grow(w, i, r.size + 2, true, cap), std::copy_n(src, 2, r.b->v.begin() + r.size - 2); break;
    case 12: if (wrap) return false; a.push_back_n(src, 3), grow(w, i, r.size + 3, true, cap), std::copy_n(src, 3, r.b->v.begin() + r.size - 3); break;
    case 13: if (!r.size) return false; a.front() = v, r.b->v[0] = v; break;
    case 14: if (!r.size) return false; a.back() = v, r.b->v[r.size - 1] = v; break;
    case 15: a = A(3, w.ext, true), r.b = w.eb, r.size = 3; break;
    case 16: a = A(2, w.ext + 1), r.b = mk(2), r.size = 2, r.b->v[0] = w.eb->v[1], r.b->v[1] = w.eb->v[2]; break;
    case 17: {
      hif::Array<float> f(2);
      f[0] = 3, f[1] = (float)v;
      a = A(f), r.b = mk(2), r.b->v[0] = 3, r.b->v[1] = v, r.size = 2;
      break;
    }
    case 18: {
      if (!r.size) return false;
      A t(a, true);
      a = t;
      auto b = mk(r.size);
      std::copy_n(r.b->v.begin(), r.size, b->v.begin());
      r.b = b;
      break;
    }
    case 19: {
      if (!r.b || wrap || !cap) return false;
      double *p = nullptr;
      size_t  sz = 77, cp = 77;
      hif::steal_array_ownership(a, p, sz, cp);
      if (!p || sz != r.size || cp != cap) { c.fail("stealing yields size %zu capacity %zu, expected %zu %zu", sz, cp, r.size, cap); return false; }
      if (a.size() || a.data()) { c.fail("the robbed array keeps its data"); return false; }
      // data that was stolen before through a sharing array has one owner only
      for (auto &s : w.stolen)
        if (s.first == p) p = nullptr;
      if (p) w.stolen.emplace_back(p, r.b);
      r = Ref();
      break;
    }
    case 20: w.a[i].reset(new A), r = Ref(); break;
  }
  return !c.nfail;
}
static bool apply2(mc::Case &c, World &w, int i, int j, int op) {
  A &a = *w.a[i], &b = *w.a[j];
  c.transition();
  switch (op) {
    case 0: a = b, w.r[i] = w.r[j]; break;
    case 1: a = std::move(b); if (i != j) w.r[i] = w.r[j], w.r[j] = Ref(); break;
    case 2: {
      a = A(b, true);
      Ref n;
      n.b = mk(w.r[j].size), n.size = w.r[j].size;
      if (w.r[j].b) std::copy_n(w.r[j].b->v.begin(), n.size, n.b->v.begin());
      w.r[i] = n;
      break;
    }
    case 3: a.swap(b), std::swap(w.r[i], w.r[j]); break;
    case 4: if (i == j) return false; w.a[i].reset(new A(b)), w.r[i] = w.r[j]; break;
    case 5: if (i == j) return false; w.a[i].reset(new A(std::move(b))), w.r[i] = w.r[j], w.r[j] = Ref(); break;
  }
  return !c.nfail;
}
static void arrays(mc::Case &c, int slots, int depth) {
  const int    ops = slots * NOP1 + slots * slots * 6;
  uint64_t     k = c.idx;
  std::vector<int> seq;
  for (int d = 0; d < depth; ++d, k /= ops) seq.push_back(k % ops);
  std::string prog;
  const long  live0 = g_live;
  bool        done = true;
  {
    World w;
    w.eb = mk(5), w.eb->ext = true;
    for (int i = 0; i < 5; ++i) w.ext[i] = w.eb->v[i] = 100 + i;
    for (int i = 0; i < slots; ++i) w.a.emplace_back(new A), w.r.emplace_back();
    for (int op : seq) {
      // (programs that start with the second array mirror those that start with the first)
      if (&op == &seq[0] && depth > 3 && (op < slots * NOP1 ? op % slots : (op - slots * NOP1) % slots)) return;
      char t[80];
      bool ok;
      if (op < slots * NOP1) {
        std::snprintf(t, sizeof t, " [%c %s]", 'a' + op % slots, opn[op / slots]), prog += t;
        ok = apply1(c, w, op % slots, op / slots);
      } else {
        int o = op - slots * NOP1, i = o % slots, j = o / slots % slots;
        o /= slots * slots;
        std::snprintf(t, sizeof t, " [%c %s %c]", 'a' + i, op2n[o], 'a' + j), prog += t;
        ok = apply2(c, w, i, j, o);
      }
      if (c.nfail) return;
      if (!ok) { done = false; break; }
      if (!check(c, w, prog, c.idx % 64 == 0)) return;
    }
    for (int i = 0; i < 5; ++i)
      if (w.ext[i] != w.eb->v[i]) { c.fail("wrapped data differs from what was written through arrays after%s", prog.c_str()); return; }
    uint64_t h = 1;
    for (auto &r : w.r) h = mc::mix(h, r.size * 16 + (r.b ? 1 + r.b->ext : 0) + (r.b == w.r[0].b ? 4 : 0));
    c.state(h);
    w.a.clear();
    for (auto &s : w.stolen) {
      for (size_t q = 0; q < s.second->v.size(); ++q)
        if (s.second->v[q] == s.second->v[q] && s.first[q] != s.second->v[q]) { c.fail("stolen data changed after%s", prog.c_str()); return; }
      delete[] s.first;
    }
  }
  (void)done;
  prog.clear(), prog.shrink_to_fit(), seq.clear(), seq.shrink_to_fit();
  (void)live0;
}
// live allocations around a whole program (strings and models are gone)
static void arrays_leak(mc::Case &c, int slots, int depth) {
  const long l0 = g_live;
  arrays(c, slots, depth);
  if (!c.nfail && g_live != l0 && c.idx > 64) {
    // (allocations of the explorer itself, e.g. its state table, may remain: run again)
    const long l1 = g_live;
    arrays(c, slots, depth);
    if (g_live != l1) c.fail("%ld allocations left behind (program %llu)", g_live - l1, (unsigned long long)c.idx);
  }
}

// ---- dense matrices
typedef hif::DenseMatrix<double> M;
struct MRef { std::shared_ptr<Buf> b; size_t m = 0, n = 0; };
static bool checkm(mc::Case &c, M *w, MRef *r, const std::string &prog) {
  for (int i = 0; i < 2; ++i) {
    const M &a = w[i];
    c.validated();
    if (a.nrows() != r[i].m || a.ncols() != r[i].n || a.size() != r[i].m * r[i].n) FAIL("matrix %d is %zux%zu with %zu entries, expected %zux%zu after%s", i, a.nrows(), a.ncols(), a.size(), r[i].m, r[i].n, prog.c_str());
    if (a.empty() != (a.size() == 0) || a.is_squared() != (r[i].m == r[i].n)) FAIL("matrix %d: inconsistent queries after%s", i, prog.c_str());
    for (size_t p = 0; p < r[i].m; ++p)
      for (size_t q = 0; q < r[i].n; ++q) {
        double e = r[i].b->v[p + q * r[i].m];
        if (e == e && (a(p, q) != e || a[p + q * r[i].m] != e || a.col_begin(q)[p] != e || a.row_begin(p)[q] != e)) FAIL("matrix %d: entry (%zu,%zu) is %g, expected %g after%s", i, p, q, a(p, q), e, prog.c_str());
      }
    for (size_t p = 0; p < r[i].m; ++p) {
      size_t q = 0;
      for (auto it = a.row_begin(p); it != a.row_end(p) && q < 100; ++it, ++q)
        if (&*it != &a(p, q)) FAIL("row iteration leaves the row after%s", prog.c_str());
      if (q != r[i].n) FAIL("row iteration visits %zu of %zu entries after%s", q, r[i].n, prog.c_str());
    }
    for (size_t q = 0; q < r[i].n; ++q)
      if ((size_t)(a.col_end(q) - a.col_begin(q)) != r[i].m || a.col_begin(q) != a.data() + q * r[i].m) FAIL("column range wrong after%s", prog.c_str());
  }
  if (w[0].size() && w[1].size() && (w[0].data() == w[1].data()) != (r[0].b == r[1].b)) FAIL("matrices %s after%s", r[0].b == r[1].b ? "should share" : "should not share", prog.c_str());
  return true;
}
enum { NM = 18 };
static const char *mn[] = {"= (2,3)", "= (2)", "= (3,1,5)", "resize(2,3)", "resize(3,2)", "resize(1,1)", "resize(0,0)", "write corner", "= other", "= moved other", "= clone of other", "= converted", "= from rows", "= from columns", "copy rows",
                           "wrap (2,2)", "= copied external", "= moved itself into a new one"};
static void dense(mc::Case &c, int depth) {
  uint64_t    k = c.idx;
  std::string prog;
  M           w[2];
  MRef        r[2];
  double      ext[4] = {11, 12, 13, 14};
  auto        eb = mk(4);
  eb->ext = true;
  for (int i = 0; i < 4; ++i) eb->v[i] = ext[i];
  hif::CRS<double, int> R;
  hif::CCS<double, int> C;
  {
    Mat<double> S(2, 3);
    S(0, 1) = 4, S(1, 0) = 5, S(1, 2) = 6;
    R = to_cs<hif::CRS<double, int>>(S), C = to_cs<hif::CCS<double, int>>(S);
  }
  auto sp = [&](MRef &x) {
    x.b = mk(6, 0), x.m = 2, x.n = 3;
    x.b->v[2] = 4, x.b->v[1] = 5, x.b->v[5] = 6;
  };
  for (int d = 0; d < depth; ++d, k /= 2 * NM) {
    const int i = k % 2, op = k / 2 % NM, j = 1 - i;
    prog += std::string(" [") + char('a' + i) + " " + mn[op] + "]";
    M &  a = w[i];
    MRef &x = r[i];
    const double v = d + 20;
    c.transition();
    auto rs = [&](size_t m, size_t n) {
      if (x.b && x.b->ext) return false;
      const size_t cap = a.array().capacity(), old = x.m * x.n;
      a.resize(m, n);
      if (x.m == m && x.n == n) return true;
      x.m = m, x.n = n;
      if (m * n > cap || !x.b) {
        auto b = mk(std::max(a.array().capacity(), m * n));
        if (x.b) std::copy_n(x.b->v.begin(), std::min(old, m * n), b->v.begin());
        x.b = b;
      }
      return true;
    };
    bool ok = true;
    switch (op) {
      case 0: a = M(2, 3), x.b = mk(6), x.m = 2, x.n = 3; break;
      case 1: a = M(2), x.b = mk(4), x.m = 2, x.n = 2; break;
      case 2: a = M(3, 1, 5), x.b = mk(3, 5), x.m = 3, x.n = 1; break;
      case 3: ok = rs(2, 3); break;
      case 4: ok = rs(3, 2); break;
      case 5: ok = rs(1, 1); break;
      case 6: ok = rs(0, 0); break;
      case 7: if (!(ok = x.m * x.n)) break; a(x.m - 1, x.n - 1) = v, x.b->v[x.m * x.n - 1] = v; break;
      case 8: a = w[j], x = r[j]; break;
      case 9: a = std::move(w[j]), x = r[j], r[j] = MRef(); break;
      case 10: {
        a = M(w[j], true), x = r[j];
        x.b = mk(x.m * x.n);
        if (r[j].b) std::copy_n(r[j].b->v.begin(), x.m * x.n, x.b->v.begin());
        break;
      }
      case 11: {
        hif::DenseMatrix<float> f(2, 1, 8.f);
        a = M(f), x.b = mk(2, 8), x.m = 2, x.n = 1;
        break;
      }
      case 12: a = M::from_sparse(R), sp(x); break;
      case 13: a = M::from_sparse(C), sp(x); break;
      case 14: {
        if (!(ok = rs(2, 3))) break;
        a.copy_sparse(R);
        MRef t;
        sp(t);
        std::copy_n(t.b->v.begin(), 6, x.b->v.begin());
        break;
      }
      case 15: a = M(2, 2, ext, true), x.b = eb, x.m = x.n = 2; break;
      case 16: a = M(2, 1, ext + 1), x.b = mk(2), x.m = 2, x.n = 1, x.b->v[0] = eb->v[1], x.b->v[1] = eb->v[2]; break;
      case 17: {
        M t(std::move(a));
        if (t.nrows() != x.m || t.ncols() != x.n || t.size() != x.m * x.n) { c.fail("moving loses the matrix after%s", prog.c_str()); return; }
        x = MRef();
        break;
      }
    }
    if (!ok) break;
    if (!checkm(c, w, r, prog)) return;
    c.state(mc::mix(x.m * 8 + x.n, mc::mix(r[j].m * 8 + r[j].n, x.b == r[j].b)));
  }
}

// ---- sparse vectors
struct SV : hif::SparseVector<double, int> {
  using hif::SparseVector<double, int>::SparseVector;
};
static void sparse(mc::Case &c, int depth, bool pre = false) {
  uint64_t              k = c.idx;
  SV                    v(3);
  std::vector<int>      ind;
  std::vector<bool>     del;
  double                val[3] = {1, -4, 2.5};
  int                   tag[3] = {-1, -1, -1};
  std::string           prog;
  for (int i = 0; i < 3; ++i) v[i] = val[i];
  if (pre) {  // a first round: three entries, any of them marked in any order, compressed, counter kept or reset
    std::vector<int> o = {0, 1, 2};
    for (int q = k % 6; q; --q) std::next_permutation(o.begin(), o.end());
    k /= 6;
    for (int i : o) v.push_back(i, 7), tag[i] = 7;
    const int mk = k % 8, rv = k / 8 % 2, rs = k / 16 % 2;
    k /= 32;
    for (int q = 0; q < 3; ++q)
      if (mk >> (rv ? 2 - q : q) & 1) v.mark_delete(rv ? 2 - q : q);
    v.compress_indices();
    for (int q = 0; q < 3; ++q)
      if (!(mk >> q & 1) && !rs) ind.push_back(o[q]);
    del.assign(ind.size(), false);
    if (rs) v.reset_counter();
    prog = " (round: order " + std::to_string(o[0]) + std::to_string(o[1]) + std::to_string(o[2]) + ", marks " + std::to_string(mk) + (rs ? ", reset)" : ")");
  }
  for (int d = 0; d < depth; ++d, k /= 14) {
    const int op = k % 14;
    c.transition();
    prog += " " + std::to_string(op);
    if (op < 6) {
      const int i = op % 3, s = op / 3;
      if (ind.size() >= 3 && tag[i] != s) return;  // out of space: not allowed
      const bool neu = v.push_back(i, s);
      if (neu != (tag[i] != s)) { c.fail("pushing index %d of step %d says %s after%s", i, s, neu ? "new" : "known", prog.c_str()); return; }
      if (neu) ind.push_back(i), del.push_back(false), tag[i] = s;
    } else if (op == 6 && std::find(del.begin(), del.end(), true) != del.end()) return;  // marked entries must be removed first
    else if (op == 6) v.reset_counter(), ind.clear(), del.clear();
    else if (op == 7 || op == 8) {
      const size_t q = op - 7;
      if (q >= ind.size()) return;
      v.mark_delete(q), del[q] = true;
    } else if (op == 9) {
      v.compress_indices();
      std::vector<int> n;
      for (size_t q = 0; q < ind.size(); ++q)
        if (!del[q]) n.push_back(ind[q]);
      ind = n, del.assign(n.size(), false);
    } else if (op == 10) {
      v.restore_cur_state();
      for (int i : ind) tag[i] = -1;
    } else if (op == 11) {
      if (std::find(del.begin(), del.end(), true) != del.end()) return;
      v.sort_indices(), std::sort(ind.begin(), ind.end());
    } else if (op == 12) {
      v.scale(-2);
      for (int i : ind) val[i] *= -2;
    } else {
      v.resize(3);
      std::fill(tag, tag + 3, -1), del.assign(del.size(), false);
    }
    // queries
    if (v.size() != ind.size() || v.empty() != ind.empty()) { c.fail("%zu indices, expected %zu after%s", v.size(), ind.size(), prog.c_str()); return; }
    double n1 = 0, n2 = 0, mx = 0;
    for (size_t q = 0; q < ind.size(); ++q) {
      if (v.idx(q) != (size_t)ind[q] || v.val(q) != val[ind[q]]) { c.fail("entry %zu is (%zu,%g), expected (%d,%g) after%s", q, v.idx(q), v.val(q), ind[q], val[ind[q]], prog.c_str()); return; }
      n1 += std::abs(val[ind[q]]), n2 += val[ind[q]] * val[ind[q]], mx = std::max(mx, std::abs(val[ind[q]]));
    }
    for (int i = 0; i < 3; ++i)
      if (v[i] != val[i]) { c.fail("value %d changed after%s", i, prog.c_str()); return; }
    if (std::abs(v.norm1() - n1) > 1e-12 * n1 || std::abs(v.norm2() - std::sqrt(n2)) > 1e-12 * n1 || std::abs(v.norm2_sq() - n2) > 1e-12 * n2 || v.max_mag() != mx) { c.fail("norms wrong after%s", prog.c_str()); return; }
    const size_t none = (size_t)-1;
    size_t im = v.imax_mag();
    if (ind.empty() ? im != none : std::find(ind.begin(), ind.end(), (int)im) == ind.end() || std::abs(val[im]) != mx) { c.fail("largest entry is reported at %zu after%s", im, prog.c_str()); return; }
    for (int lim = 0; lim < 4; ++lim) {
      double m = -1;
      size_t first = none;
      for (int i : ind)
        if (i >= lim) m = std::max(m, std::abs(val[i])), first = first == none ? (size_t)i : first;
      auto f = [=](int i) { return i >= lim; };
      size_t g = v.imax_mag(f), h = v.find_if(f);
      if (m < 0 ? g != none : g > 2 || (int)g < lim || std::find(ind.begin(), ind.end(), (int)g) == ind.end() || std::abs(val[g]) != m) { c.fail("largest entry from %d on is reported at %zu after%s", lim, g, prog.c_str()); return; }
      if (h != first) { c.fail("first entry from %d on is reported at %zu, expected %zu after%s", lim, h, first, prog.c_str()); return; }
    }
    c.validated();
    c.state(mc::hash_bytes(ind.data(), ind.size() * sizeof(int), tag[0] * 9 + tag[1] * 3 + tag[2] + 100));
  }
}

// long sparse vectors: a round of pushes in some order, deletions, compression, sorting, then a second round
static void longvec(mc::Case &c) {
  static const int ns[] = {15, 16, 17, 24, 25, 33, 48, 70, 130, 257};
  uint64_t         k    = c.idx;
  auto             take = [&](int q) { int r = k % q; k /= q; return r; };
  const int        n = ns[take(10)], cnt = std::vector<int>{1, n / 2, n - 1, n}[take(4)], order = take(5), marks = take(7), rev = take(2), reset = take(2);
  c.desc("length %d, %d entries, order %d, marks %d (%s), %s", n, cnt, order, marks, rev ? "from the end" : "from the front", reset ? "counter reset" : "counter kept");
  auto perm = [&](int kind, int m) {
    std::vector<int> o(m);
    for (int i = 0; i < m; ++i) o[i] = i;
    if (kind == 1) std::reverse(o.begin(), o.end());
    if (kind == 2) std::rotate(o.begin(), o.begin() + m / 3, o.end());
    if (kind >= 3) std::sort(o.begin(), o.end(), [=](int a, int b) { return mc::mix(a, kind) < mc::mix(b, kind); });
    return o;
  };
  SV                  v(n);
  std::vector<double> val(n);
  for (int i = 0; i < n; ++i) v[i] = val[i] = (i * 37 % 101 - 50) * 0.25 + (i % 2 ? 0.0625 : 0);
  std::vector<int>  ind;
  std::vector<char> tag(n, -1);
  auto              check = [&](const char *what) {
    c.transition();
    if (v.size() != ind.size()) { c.fail("%zu indices, expected %zu after %s", v.size(), ind.size(), what); return false; }
    double n1 = 0, n2 = 0, mx = 0;
    for (size_t q = 0; q < ind.size(); ++q) {
      if (v.idx(q) != (size_t)ind[q] || v.val(q) != val[ind[q]]) { c.fail("entry %zu is (%zu,%g), expected (%d,%g) after %s", q, v.idx(q), v.val(q), ind[q], val[ind[q]], what); return false; }
      const double x = std::abs(val[ind[q]]);
      n1 += x, n2 += x * x, mx = std::max(mx, x);
    }
    for (int i = 0; i < n; ++i)
      if (v[i] != val[i]) { c.fail("value %d changed after %s", i, what); return false; }
    if (std::abs(v.norm1() - n1) > 1e-11 * n1 || std::abs(v.norm2() - std::sqrt(n2)) > 1e-11 * n1 || v.max_mag() != mx) { c.fail("norms after %s", what); return false; }
    const size_t none = (size_t)-1;
    for (int lim : {0, 1, n / 3, n - 2, n}) {
      auto   f = [=](int i) { return i >= lim; };
      double m = -1;
      size_t first = none;
      for (int i : ind)
        if (i >= lim) m = std::max(m, std::abs(val[i])), first = first == none ? (size_t)i : first;
      const size_t g = v.imax_mag(f), h = v.find_if(f), e = v.imax_mag();
      if (m < 0 ? g != none : (int)g < lim || (int)g >= n || std::abs(val[g]) != m || std::find(ind.begin(), ind.end(), (int)g) == ind.end()) { c.fail("largest entry from %d on after %s", lim, what); return false; }
      if (h != first) { c.fail("first entry from %d on is reported at %zu, expected %zu after %s", lim, h, first, what); return false; }
      if (ind.empty() ? e != none : std::abs(val[e]) != mx) { c.fail("largest entry after %s", what); return false; }
    }
    c.validated();
    c.state(mc::hash_bytes(ind.data(), ind.size() * sizeof(int), n));
    return true;
  };
  auto push = [&](int kind, int step) {
    for (int twice = 0; twice < 2; ++twice)
      for (int i : perm(kind, n)) {
        if ((i * 7 + 3) % n >= cnt && cnt < n) continue;
        if ((int)ind.size() >= n && tag[i] != step) continue;  // no space left: not allowed
        const bool neu = v.push_back(i, step);
        if (neu != (tag[i] != step)) { c.fail("pushing %d of step %d says %s", i, step, neu ? "new" : "known"); return false; }
        if (neu) ind.push_back(i), tag[i] = step;
      }
    return check("pushing");
  };
  auto erase = [&](int kind) {
    std::vector<int> kept;
    const int        m = ind.size();
    std::vector<char> mk(m, 0);
    for (int q = 0; q < m; ++q) {
      bool d = false;
      switch (kind) {
        case 1: d = true; break;
        case 2: d = q % 2; break;
        case 3: d = q < m / 2; break;
        case 4: d = q >= m / 2; break;
        case 5: d = mc::mix(q, 4) % 3 == 0; break;
        case 6: d = q == m - 1; break;
      }
      mk[q] = d;
      if (!d) kept.push_back(ind[q]);
    }
    for (int q = 0; q < m; ++q) {
      const int w = rev ? m - 1 - q : q;
      if (mk[w]) v.mark_delete(w);
    }
    v.compress_indices();
    ind = kept;
    return check("compressing");
  };
  if (!push(order, 3) || !erase(marks)) return;
  auto less = [&](size_t a, size_t b) { return std::abs(val[a]) > std::abs(val[b]) || (std::abs(val[a]) == std::abs(val[b]) && a < b); };
  v.sort_indices(less);
  std::sort(ind.begin(), ind.end(), less);
  if (!check("sorting by size")) return;
  v.sort_indices();
  std::sort(ind.begin(), ind.end());
  if (!check("sorting")) return;
  v.scale(-0.5);
  for (int i : ind) val[i] *= -0.5;
  if (!check("scaling")) return;
  if (reset) v.reset_counter(), ind.clear();
  if (!push((order + 2) % 5, 4) || !erase(6 - marks)) return;
  v.restore_cur_state();
  for (int i : ind) tag[i] = -1;
  if (!check("restoring")) return;
  v.reset_counter(), ind.clear();
  push(order, 4);
}

// ---- permutations
static void perms(mc::Case &c, int n, int depth) {
  uint64_t nf = 1;
  for (int i = 2; i <= n; ++i) nf *= i;
  uint64_t         k = c.idx;
  std::vector<int> p(n);
  for (int i = 0; i < n; ++i) p[i] = i;
  for (uint64_t q = k % nf; q; --q) std::next_permutation(p.begin(), p.end());
  k /= nf;
  typedef hif::BiPermMatrix<int> B;
  B b(n);
  for (int i = 0; i < n; ++i) b[i] = p[i];
  b.build_inv();
  auto chk = [&](const B &x, const std::vector<int> &e, const char *what) {
    bool id = true;
    if (x.size() != (size_t)n) { c.fail("size changed by %s", what); return false; }
    for (int i = 0; i < n; ++i) {
      if (x[i] != e[i] || x()[i] != e[i] || x.inv(e[i]) != i || x.inv()[e[i]] != i) { c.fail("permutation and inverse do not belong together after %s", what); return false; }
      id = id && e[i] == i;
    }
    if (x.is_eye() != id) { c.fail("identity misjudged after %s", what); return false; }
    c.validated();
    return true;
  };
  if (!chk(b, p, "building the inverse")) return;
  for (int d = 0; d < depth; ++d) {
    const int op = k % (2 * n * n + 4);
    k /= 2 * n * n + 4;
    c.transition();
    const char *what;
    if (op < n * n) {
      what = "interchanging", b.interchange(op % n, op / n), std::swap(p[op % n], p[op / n]);
    } else if (op < 2 * n * n) {
      what = "interchanging in the inverse";
      const int i = (op - n * n) % n, j = (op - n * n) / n;
      b.interchange_inv(i, j);
      int x = std::find(p.begin(), p.end(), i) - p.begin(), y = std::find(p.begin(), p.end(), j) - p.begin();
      std::swap(p[x], p[y]);
    } else if (op == 2 * n * n) {
      what = "making the identity", b.make_eye();
      for (int i = 0; i < n; ++i) p[i] = i;
    } else if (op == 2 * n * n + 1) {
      what = "cloning";
      B t(b, true);
      if (n > 1) t.interchange(0, n - 1);
      if (!chk(b, p, "changing a clone")) return;
      if (n > 1) t.interchange(0, n - 1);
      b = t;
    } else if (op == 2 * n * n + 2) {
      what = "moving";
      B t(std::move(b));
      b = std::move(t);
    } else {
      what = "rebuilding from the array";
      hif::Array<int> q(n);
      for (int i = 0; i < n; ++i) q[i] = p[i];
      B t(q, true);
      for (int i = 0; i < n; ++i) q[i] = -1;
      t.build_inv();
      b = t;
    }
    if (!chk(b, p, what)) return;
    c.state(mc::hash_bytes(p.data(), n * sizeof(int)));
  }
}
int main(int argc, char **argv) {
  using mc::Family;
  std::vector<Family> F;
  const bool th = mc::thorough();
  const int  o2 = 2 * NOP1 + 24, o3 = 3 * NOP1 + 54;
  if (th) F.push_back({"array2x", "two arrays: all programs of up to 4 of 66 operations", ipow(o2, 4), [=](mc::Case &c) { arrays(c, 2, 4); }});
  else F.push_back({"array2", "two arrays: all programs of up to 3 of 66 operations", ipow(o2, 3), [=](mc::Case &c) { arrays(c, 2, 3); }});
  F.push_back({"array3", "three arrays: all programs of up to 3 of 117 operations", ipow(o3, 3), [=](mc::Case &c) { arrays(c, 3, 3); }});
  F.push_back({"leak", "two arrays: all programs of 3 operations, allocations counted", ipow(o2, 3), [=](mc::Case &c) { arrays_leak(c, 2, 3); }});
  if (th) F.push_back({"array3x", "three arrays: all programs of 4 operations", ipow(o3, 4), [=](mc::Case &c) { arrays(c, 3, 4); }});
  F.push_back({"dense", "two dense matrices: all programs of 4 of 36 operations", ipow(2 * NM, 4), [=](mc::Case &c) { dense(c, 4); }});
  F.push_back({"rounds", "a sparse vector after a round of three entries with every set of them deleted: all programs of 4 of 14 operations", 192 * ipow(14, th ? 5 : 4), [=](mc::Case &c) { sparse(c, th ? 5 : 4, true); }});
  F.push_back({"sparse", "a sparse vector of length 3: all programs of 6 of 14 operations", ipow(14, th ? 7 : 6), [=](mc::Case &c) { sparse(c, th ? 7 : 6); }});
  F.push_back({"long", "sparse vectors of length 15 to 257: numbers of entries x push orders x deletion patterns x order of marking x two rounds, sorting with and without a comparison", 10 * 4 * 5 * 7 * 2 * 2, [](mc::Case &c) { longvec(c); }});
  for (int n = 1; n <= 4; ++n) {
    uint64_t nf = n == 1 ? 1 : n == 2 ? 2 : n == 3 ? 6 : 24;
    static const char *nm[] = {"", "perm1", "perm2", "perm3", "perm4"};
    F.push_back({nm[n], "all permutations x all programs of 3 operations", nf * ipow(2 * n * n + 4, 3), [=](mc::Case &c) { perms(c, n, 3); }});
  }
  return mc::drive(argc, argv, F);
}
