// P20: fill and bandwidth reducing orderings over all graphs.
#include "hx.hpp"
#include "hif/pre/reordering.hpp"
using namespace hx;

typedef std::vector<uint64_t> Adj;  // symmetric adjacency bitmasks (n <= 64), or sets for larger graphs
struct Graph {
  int                           n;
  std::vector<std::vector<int>> a;  // sorted neighbours, no loops
};
static bool is_perm(const std::vector<long> &P, int n) {
  std::vector<char> s(n, 0);
  if ((int)P.size() != n) return false;
  for (long p : P) {
    if (p < 0 || p >= n || s[p]) return false;
    s[p] = 1;
  }
  return true;
}
// entries of the lower factor of the permuted pattern, without the diagonal
static size_t factor_nnz(const Graph &g, const std::vector<long> &P) {
  const int                      n = g.n;
  std::vector<std::vector<char>> A(n, std::vector<char>(n, 0));
  std::vector<int>               inv(n);
  for (int i = 0; i < n; ++i) inv[P[i]] = i;
  for (int i = 0; i < n; ++i)
    for (int j : g.a[i]) A[inv[i]][inv[j]] = 1;
  size_t nz = 0;
  for (int k = 0; k < n; ++k) {
    std::vector<int> nb;
    for (int i = k + 1; i < n; ++i)
      if (A[k][i]) nb.push_back(i);
    nz += nb.size();
    for (int x : nb)
      for (int y : nb)
        if (x != y) A[x][y] = 1;
  }
  return nz;
}
static size_t edges(const Graph &g) {
  size_t e = 0;
  for (auto &l : g.a) e += l.size();
  return e / 2;
}
static std::vector<int> bfs(const Graph &g, int r) {
  std::vector<int> d(g.n, -1), q;
  d[r] = 0;
  q.push_back(r);
  for (size_t i = 0; i < q.size(); ++i)
    for (int j : g.a[q[i]])
      if (d[j] < 0) d[j] = d[q[i]] + 1, q.push_back(j);
  return d;
}
static int ecc(const Graph &g, int r) {
  int e = 0;
  for (int x : bfs(g, r)) e = std::max(e, x);
  return e;
}
static bool forest(const Graph &g) {
  int               comps = 0;
  std::vector<char> s(g.n, 0);
  for (int i = 0; i < g.n; ++i)
    if (!s[i]) {
      ++comps;
      auto d = bfs(g, i);
      for (int j = 0; j < g.n; ++j)
        if (d[j] >= 0) s[j] = 1;
    }
  return edges(g) + comps == (size_t)g.n;
}
// a set of ways to hand the same graph over: 0 both triangles with diagonal, 1 without diagonal, 2 lower triangle, 3 upper triangle
template <class Idx, class Ptr>
static hif::CCS<double, Idx, Ptr> store(const Graph &g, int how) {
  hif::CCS<double, Idx, Ptr> B(g.n, g.n);
  B.col_start().resize(g.n + 1);
  B.col_start()[0] = 0;
  std::vector<Idx> ri;
  for (int j = 0; j < g.n; ++j) {
    std::vector<int> l = g.a[j];
    if (how == 0 || how >= 2) l.push_back(j);
    std::sort(l.begin(), l.end());
    for (int i : l)
      if (how < 2 || (how == 2 && i >= j) || (how == 3 && i <= j)) ri.push_back(i);
    B.col_start()[j + 1] = ri.size();
  }
  B.row_ind().resize(ri.size());
  std::copy(ri.begin(), ri.end(), B.row_ind().begin());
  return B;
}
static hif::Options opts() {
  hif::Options o = hif::get_default_options();
  o.verbose      = hif::VERBOSE_NONE;
  return o;
}
template <class Arr>
static std::vector<long> vec(const Arr &a) {
  std::vector<long> v(a.size());
  for (size_t i = 0; i < a.size(); ++i) v[i] = a[i];
  return v;
}
static std::string show_p(const std::vector<long> &v) {
  std::string s;
  for (long x : v) s += std::to_string(x) + " ";
  return s;
}
// worst factor size over all minimum external degree eliminations: a vertex may come next if its degree, not counting
// the vertices indistinguishable from it, does not exceed the least degree; alone or together with the latter
static int worst_mindeg(const Graph &g, int *best_any) {
  const int        n = g.n;
  std::vector<int> worst(1 << n, -1), best(1 << n, 1 << 20);
  worst[0] = best[0] = 0;
  for (int S = 0; S < (1 << n); ++S) {
    // closed neighbourhoods after eliminating S
    int nb[16], deg[16], mn = 1 << 20;
    for (int v = 0; v < n; ++v)
      if (!(S >> v & 1)) {
        int seen = 1 << v, st[16], t = 0;
        st[t++] = v;
        while (t) {
          int x = st[--t];
          for (int y : g.a[x])
            if (!(seen >> y & 1)) {
              seen |= 1 << y;
              if (S >> y & 1) st[t++] = y;
            }
        }
        nb[v]  = seen & ~S;
        deg[v] = __builtin_popcount(nb[v]) - 1;
        mn     = std::min(mn, deg[v]);
      }
    for (int v = 0; v < n; ++v)
      if (!(S >> v & 1)) {
        best[S | 1 << v] = std::min(best[S | 1 << v], best[S] + deg[v]);
        if (worst[S] < 0) continue;
        int cls = 0;
        for (int u = 0; u < n; ++u)
          if (!(S >> u & 1) && nb[u] == nb[v]) cls |= 1 << u;
        const int k = __builtin_popcount(cls);
        if (deg[v] - (k - 1) > mn) continue;
        worst[S | 1 << v] = std::max(worst[S | 1 << v], worst[S] + deg[v]);
        int f = 0;
        for (int i = 0; i < k; ++i) f += deg[v] - i;
        worst[S | cls] = std::max(worst[S | cls], worst[S] + f);
      }
  }
  *best_any = best[(1 << n) - 1];
  return worst[(1 << n) - 1];
}

template <class Idx, class Ptr>
static bool amd_one(mc::Case &c, const Graph &g, int how, bool symm, bool exact_mem) {
  auto                B  = store<Idx, Ptr>(g, how);
  const auto          o  = opts();
  std::vector<long>   ri = vec(B.row_ind()), cs = vec(B.col_start());
  auto                P  = symm ? hif::run_amd<true>(B, o) : hif::run_amd<false>(B, o);
  auto                v  = vec(P);
  c.transition();
  c.validated();
  if (!is_perm(v, g.n)) { c.fail("the minimum degree ordering is not a permutation: %s", show_p(v).c_str()); return false; }
  if (vec(B.row_ind()) != ri || vec(B.col_start()) != cs) { c.fail("the minimum degree ordering changed its input"); return false; }
  auto v2 = vec(symm ? hif::run_amd<true>(B, o) : hif::run_amd<false>(B, o));
  if (v2 != v) { c.fail("the minimum degree ordering is not reproducible"); return false; }
  const size_t f = factor_nnz(g, v), e = edges(g);
  c.state(mc::hash_bytes(v.data(), v.size() * sizeof(long)));
  if (forest(g) && f != e) { c.fail("fill of %zu on a forest with the ordering %s", f - e, show_p(v).c_str()); return false; }
  if (exact_mem) {
    int bst, w = worst_mindeg(g, &bst);
    if ((int)f > w) { c.fail("the factor has %zu entries, more than any minimum degree elimination (%d; best possible %d), ordering %s", f, w, bst, show_p(v).c_str()); return false; }
  }
  // the reported bound on the size of the factor
  double ctl[HIF_AMD_CONTROL], info[AMD_INFO];
  typedef hif::amd::AMD<Ptr> amd;
  amd::defaults(ctl);
  ctl[HIF_AMD_SYMM_FLAG] = symm ? 0 : 1;
  std::vector<Ptr> p(g.n), r(ri.begin(), ri.end()), s(cs.begin(), cs.end());
  r.reserve(1);
  const int st = amd::order(g.n, s.data(), r.data(), p.data(), ctl, info);
  if (st != AMD_OK && st != AMD_OK_BUT_JUMBLED) { c.fail("the minimum degree ordering returned %d", st); return false; }
  if (!(info[AMD_LNZ] >= (double)f)) { c.fail("reported bound %g on the factor, which has %zu entries", info[AMD_LNZ], f); return false; }
  if (info[AMD_N] != g.n || info[AMD_NZ_A_PLUS_AT] != 2.0 * e) { c.fail("reported %g rows and %g off-diagonal entries, expected %d and %zu", info[AMD_N], info[AMD_NZ_A_PLUS_AT], g.n, 2 * e); return false; }
  return true;
}
template <class Idx, class Ptr>
static bool rcm_one(mc::Case &c, const Graph &g, int how) {
  auto              B  = store<Idx, Ptr>(g, how);
  auto              P  = hif::run_rcm(B, opts());
  std::vector<long> v  = vec(P);
  const int         n  = g.n;
  c.transition();
  c.validated();
  if (!is_perm(v, n)) { c.fail("the Cuthill-McKee ordering is not a permutation: %s", show_p(v).c_str()); return false; }
  c.state(mc::mix(7, mc::hash_bytes(v.data(), v.size() * sizeof(long))));
  std::vector<int> pos(n);
  for (int i = 0; i < n; ++i) pos[v[i]] = i;
  const bool tree = forest(g);
  for (int b = 0; b < n;) {
    // the component of v[b] occupies a contiguous range
    auto             d = bfs(g, v[b]);
    std::vector<int> comp;
    int              low = n;
    for (int j = 0; j < n; ++j)
      if (d[j] >= 0) comp.push_back(j), low = std::min(low, j);
    const int e = b + comp.size();
    for (int j : comp)
      if (pos[j] < b || pos[j] >= e) { c.fail("connected components are torn apart: %s", show_p(v).c_str()); return false; }
    // read backwards it is a breadth-first search, neighbours by degree
    std::vector<long> cm(v.begin() + b, v.begin() + e);
    std::reverse(cm.begin(), cm.end());
    std::vector<int> num(n, -1);
    for (size_t i = 0; i < cm.size(); ++i) num[cm[i]] = i;
    int lastpar = 0;
    for (size_t i = 1; i < cm.size(); ++i) {
      int par = n;
      for (int j : g.a[cm[i]]) par = std::min(par, num[j]);
      if (par >= (int)i || par < lastpar) { c.fail("not a breadth-first numbering: %s", show_p(v).c_str()); return false; }
      if (i > 1 && par == lastpar && g.a[cm[i]].size() < g.a[cm[i - 1]].size()) { c.fail("neighbours are not numbered by increasing degree: %s", show_p(v).c_str()); return false; }
      lastpar = par;
    }
    const int er = ecc(g, cm[0]);
    if (er < ecc(g, low)) { c.fail("the root is less peripheral than the first node of the component: %s", show_p(v).c_str()); return false; }
    if (tree) {
      int dia = 0;
      for (int j : comp) dia = std::max(dia, ecc(g, j));
      if (er != dia) { c.fail("the root of a tree is not an end of its diameter: %s", show_p(v).c_str()); return false; }
    }
    b = e;
  }
  return true;
}
static Graph from_bits(int n, uint64_t bits) {
  Graph g;
  g.n = n;
  g.a.resize(n);
  int k = 0;
  for (int i = 0; i < n; ++i)
    for (int j = 0; j < i; ++j, ++k)
      if (bits >> k & 1) g.a[i].push_back(j), g.a[j].push_back(i);
  for (auto &l : g.a) std::sort(l.begin(), l.end());
  return g;
}
static void graphs(mc::Case &c, int n, bool all) {
  c.desc("graph %llx of %d nodes", (unsigned long long)c.idx, n);
  Graph g = from_bits(n, c.idx);
  if (!amd_one<int, std::ptrdiff_t>(c, g, 0, false, true)) return;
  if (all) {
    for (int how = 0; how < 4; ++how)
      if (!(amd_one<int, std::ptrdiff_t>(c, g, how, true, true) && amd_one<int, int>(c, g, how, false, true) && amd_one<int, int>(c, g, how, true, true) && amd_one<long, long>(c, g, how, false, true))) return;
    for (int how = 0; how < 2; ++how)
      if (!(rcm_one<int, int>(c, g, how) && rcm_one<long, long>(c, g, how))) return;
  }
  rcm_one<int, std::ptrdiff_t>(c, g, 0);
}
// nodes joined to nothing do not change how the others are ordered; they come with more workspace, so that the
// same elimination runs without its compaction
static bool roomy(mc::Case &c, const Graph &g) {
  for (auto &l : g.a)
    if (l.size() > 16) return true;  // rows are set aside as dense relative to the number of nodes
  Graph h = g;
  h.n     = g.n + edges(g) + 1;
  h.a.resize(h.n);
  auto v = vec(hif::run_amd<false>(store<int, int>(g, 0), opts())), u = vec(hif::run_amd<false>(store<int, int>(h, 0), opts()));
  c.transition();
  c.validated();
  if (!is_perm(u, h.n)) { c.fail("the minimum degree ordering is not a permutation: %s", show_p(u).c_str()); return false; }
  u.erase(std::remove_if(u.begin(), u.end(), [&](long x) { return x >= g.n; }), u.end());
  if (u != v) { c.fail("ordering %schanges to %swhen isolated nodes are added", show_p(v).c_str(), show_p(u).c_str()); return false; }
  return true;
}
// any square pattern, columns in any stored order, entries possibly repeated
static void patterns(mc::Case &c, int n) {
  uint64_t k = c.idx;
  const int how = k % 3;
  k /= 3;
  c.desc("pattern %llx of order %d, %s", (unsigned long long)k, n, how == 0 ? "sorted" : how == 1 ? "reversed columns" : "repeated entries");
  Graph g;
  g.n = n;
  g.a.resize(n);
  hif::CCS<double, int> B(n, n);
  B.col_start().resize(n + 1);
  B.col_start()[0] = 0;
  std::vector<int> ri;
  for (int j = 0; j < n; ++j) {
    std::vector<int> l;
    for (int i = 0; i < n; ++i)
      if (k >> (i + j * n) & 1) {
        l.push_back(i);
        if (i != j) g.a[i].push_back(j), g.a[j].push_back(i);
      }
    if (how == 1) std::reverse(l.begin(), l.end());
    if (how == 2) {
      auto m = l;
      l.insert(l.end(), m.rbegin(), m.rend());
    }
    ri.insert(ri.end(), l.begin(), l.end());
    B.col_start()[j + 1] = ri.size();
  }
  for (auto &l : g.a) std::sort(l.begin(), l.end()), l.erase(std::unique(l.begin(), l.end()), l.end());
  if (ri.empty()) return;  // the leading block always holds its diagonal
  B.row_ind().resize(ri.size());
  std::copy(ri.begin(), ri.end(), B.row_ind().begin());
  auto v = vec(hif::run_amd<false>(B, opts()));
  c.transition();
  c.validated();
  if (!is_perm(v, n)) { c.fail("the minimum degree ordering is not a permutation: %s", show_p(v).c_str()); return; }
  const size_t f = factor_nnz(g, v);
  int bst, w = worst_mindeg(g, &bst);
  if ((int)f > w) { c.fail("the factor has %zu entries, more than any minimum degree elimination (%d), ordering %s", f, w, show_p(v).c_str()); return; }
  if (how == 0) {
    auto u = vec(hif::run_amd<true>(B, opts()));
    if (!is_perm(u, n)) { c.fail("the minimum degree ordering is not a permutation: %s", show_p(u).c_str()); return; }
    if ((int)factor_nnz(g, u) > w) { c.fail("the factor has %zu entries, more than any minimum degree elimination (%d), ordering %s", factor_nnz(g, u), w, show_p(u).c_str()); return; }
  }
  c.state(mc::mix(n, mc::hash_bytes(v.data(), v.size() * sizeof(long))));
}
// structured graphs of every size, three labellings
static Graph make(int kind, int n, int lab) {
  Graph g;
  g.n = n;
  g.a.resize(n);
  std::vector<int> L(n);
  for (int i = 0; i < n; ++i) L[i] = lab == 0 ? i : lab == 1 ? n - 1 - i : (int)((i * 7ll + 3) % n);
  if (lab == 2 && n % 7 == 0)
    for (int i = 0; i < n; ++i) L[i] = (i * 11ll + 3) % n;
  if (lab == 2 && n % 77 == 0)
    for (int i = 0; i < n; ++i) L[i] = (i * 13ll + 3) % n;
  auto E = [&](int i, int j) {
    if (i < 0 || j < 0 || i >= n || j >= n || i == j) return;
    g.a[L[i]].push_back(L[j]);
    g.a[L[j]].push_back(L[i]);
  };
  const int w = std::max(1, (int)std::sqrt((double)n));
  for (int i = 0; i < n; ++i) switch (kind) {
      case 0: break;                                           // empty
      case 1: E(i, i + 1); break;                              // path
      case 2: E(i, (i + 1) % n); break;                        // cycle
      case 3: E(0, i); break;                                  // star
      case 4: for (int j = 0; j < i; ++j) E(i, j); break;      // complete
      case 5: E(i, (i - 1) / 2); break;                        // binary tree
      case 6: if (i % w != w - 1) E(i, i + 1); E(i, i + w); break;  // grid
      case 7: for (int j = 0; j < n / 2; ++j) if (i >= n / 2) E(i, j); break;  // complete bipartite
      case 8: E(i, i + 2); break;                              // two paths
      case 9: E(0, i); E(n / 2, i); break;                     // two hubs
      case 10: E(0, i); if (i) E(i, i + 1); break;             // wheel
      case 11: E(i, i - 1 - i % 3); E(i, i - 2); break;        // irregular band
      case 12: if (i % 5 == 0) for (int a = 0; a < 5; ++a) for (int b = 0; b < a; ++b) E(i + a, i + b); break;  // cliques
      case 13: E(i, 2 * i + 1); E(i, i / 3); break;            // irregular
    }
  for (auto &l : g.a) std::sort(l.begin(), l.end()), l.erase(std::unique(l.begin(), l.end()), l.end());
  return g;
}
static void structured_g(mc::Case &c, int nmax) {
  uint64_t  k    = c.idx;
  const int kind = k % 14, lab = k / 14 % 3, n = 1 + k / 42;
  (void)nmax;
  c.desc("graph of kind %d with %d nodes, labelling %d", kind, n, lab);
  Graph g = make(kind, n, lab);
  if (!amd_one<int, std::ptrdiff_t>(c, g, 0, false, false)) return;
  if (!amd_one<int, int>(c, g, 2, false, false)) return;
  if (!amd_one<int, std::ptrdiff_t>(c, g, 0, true, false) || !roomy(c, g)) return;
  rcm_one<int, std::ptrdiff_t>(c, g, 0) && rcm_one<int, int>(c, g, 1);
}
// every band: nodes joined to those at one of up to three distances, wrapped around or not
static void bands(mc::Case &c, int dmax) {
  uint64_t   k = c.idx;
  const bool wrap = k % 2;
  k /= 2;
  const int d[3] = {1 + (int)(k % dmax), (int)(k / dmax % dmax), (int)(k / dmax / dmax % dmax)}, n = 8 + k / dmax / dmax / dmax;
  if ((d[1] && d[1] >= d[0]) || (d[2] && d[2] >= d[1])) return c.skip("same distances in another order");
  c.desc("band graph of %d nodes, distances %d %d %d%s", n, d[0], d[1], d[2], wrap ? ", wrapped" : "");
  Graph g;
  g.n = n;
  g.a.resize(n);
  for (int i = 0; i < n; ++i)
    for (int x : d) {
      if (!x || (!wrap && i + x >= n)) continue;
      const int j = (i + x) % n;
      if (j != i) g.a[i].push_back(j), g.a[j].push_back(i);
    }
  for (auto &l : g.a) std::sort(l.begin(), l.end()), l.erase(std::unique(l.begin(), l.end()), l.end());
  if (!edges(g)) return;
  amd_one<int, std::ptrdiff_t>(c, g, 0, false, false) && roomy(c, g);
}
// all subgraphs of a grid: the smallest graphs whose elimination outgrows the workspace, which then is compacted
static void subgrid(mc::Case &c, int n, int w) {
  Graph g;
  g.n = n;
  g.a.resize(n);
  int k = 0;
  for (int i = 0; i < n; ++i)
    for (int j = i + 1; j < n; ++j)
      if (j == i + 1 || j == i + w || (j == n - 1 && i >= n - w)) {
        if (c.idx >> k++ & 1) g.a[i].push_back(j), g.a[j].push_back(i);
      }
  for (auto &l : g.a) std::sort(l.begin(), l.end()), l.erase(std::unique(l.begin(), l.end()), l.end());
  c.desc("subgraph %llx of the grid with %d nodes", (unsigned long long)c.idx, n);
  bool cm = false;
  if (edges(g)) {
    auto             B = store<int, int>(g, 0);
    double           ctl[HIF_AMD_CONTROL], info[AMD_INFO];
    std::vector<int> p(n), r, s;
    for (size_t i = 0; i < B.row_ind().size(); ++i) r.push_back(B.row_ind()[i]);
    for (int i = 0; i <= n; ++i) s.push_back(B.col_start()[i]);
    hif::amd::AMD<int>::defaults(ctl);
    ctl[HIF_AMD_SYMM_FLAG] = 1;
    hif::amd::AMD<int>::order(n, s.data(), r.data(), p.data(), ctl, info);
    cm = info[AMD_NCMPA] > 0;
  }
  if (cm) c.outcome(0xc0), c.transition();
  amd_one<int, std::ptrdiff_t>(c, g, 0, false, cm) && (!cm || roomy(c, g));
}
int main(int argc, char **argv) {
  using mc::Family;
  std::vector<Family> F;
  const bool          th = mc::thorough();
  static const char * nm[] = {"", "graph1", "graph2", "graph3", "graph4", "graph5", "graph6", "graph7"};
  static const char * np[] = {"", "pat1", "pat2", "pat3", "pat4"};
  for (int n = 1; n <= (th ? 7 : 6); ++n) {
    const bool all = true;
    F.push_back({nm[n], all ? "all labelled graphs; both orderings; all ways to store them; three index types" : "all labelled graphs; both orderings", 1ull << (n * (n - 1) / 2), [=](mc::Case &c) { graphs(c, n, all); }});
  }
  for (int n = 1; n <= 4; ++n) F.push_back({np[n], "all square patterns x 3 storage orders through the minimum degree ordering", 3 * (1ull << (n * n)), [=](mc::Case &c) { patterns(c, n); }});
  F.push_back({"bands", "graphs joining the nodes at one of up to three distances, wrapped or not, of every size from 8", 2ull * 11 * 11 * 11 * (th ? 120 : 40), [=](mc::Case &c) { bands(c, 11); }});
  F.push_back({"subgrid", "all subgraphs of a grid of 11 nodes", 1ull << 19, [=](mc::Case &c) { subgrid(c, 11, 4); }});
  if (th) F.push_back({"subgrid12", "all subgraphs of a grid of 12 nodes", 1ull << 21, [=](mc::Case &c) { subgrid(c, 12, 4); }});
  const int nm2 = th ? 200 : 130;
  F.push_back({"structured", "14 kinds of graphs of every size x 3 labellings", 42ull * nm2, [=](mc::Case &c) { structured_g(c, nm2); }});
  return mc::drive(argc, argv, F);
}
