// One run of the library under some verbosity; compiled once as users do (NAME=diag_plain) and once with the debugging
// checks of the library enabled (NAME=diag_debug, -DHIF_DEBUG, everything renamed).
#include "diag.hpp"
static std::string *g_out, *g_err;
#define HIF_STDOUT(m) (*g_out += (m), *g_out += '\n')
#define HIF_STDERR(m) (*g_err += (m), *g_err += '\n')
#include "spaces.hpp"
using namespace hx;

static uint64_t raw(const void *p, size_t n) {
  uint64_t h = 1469598103934665603ull;
  for (size_t i = 0; i < n; ++i) h = (h ^ ((const unsigned char *)p)[i]) * 1099511628211ull;
  return h;
}
template <class A> static uint64_t dig(const A &a) { return mc::mix(raw(a.data(), a.size() * sizeof(a[0])), a.size()); }
template <class S> static uint64_t dig_cs(const S &s) {
  uint64_t h = mc::mix(s.nrows(), s.ncols());
  if (s.ind_start().size()) h = mc::mix(h, dig(s.ind_start()));
  const size_t z = s.ind_start().size() ? s.nnz() : 0;
  if (z) h = mc::mix(h, mc::mix(raw(s.inds().data(), z * sizeof(s.inds()[0])), raw(s.vals().data(), z * sizeof(s.vals()[0]))));
  return h;
}
static const std::vector<hif::Params> &configs() {
  static std::vector<hif::Params> v;
  if (v.empty()) {
    v = configs_drop(2);
    auto e = configs_exact(1);
    v.insert(v.end(), e.begin(), e.end());
  }
  return v;
}
template <class T, bool Row> static void go(const DiagIn &I, DiagOut &O) {
  typedef hif::HIF<T, int> H;
  Mat<T> D = structured<T>(I.kind, I.n);
  if (I.style & 16) D = hermitize(D);
  auto p    = configs()[I.cfg % configs().size()];
  p.verbose = I.verb;
  p.is_symm = !!(I.style & 8);
  typedef typename std::conditional<Row, typename H::crs_type, typename H::ccs_type>::type cs;
  auto    A = to_cs<cs>(D, I.style & 2 ? 1 : 0);
  const int n = (int)D.n;
  O.nnza = (long)A.nnz();
  H M;
  for (int round = 0; round < 2 && O.thrown.empty(); ++round) {
    try {
      M.factorize(A, p, I.m0);
    } catch (const std::exception &e) {
      O.thrown = "factorization";
      O.dig.push_back(M.empty());
      return;
    }
    uint64_t h = struct_hash(M);
    for (auto &q : M.precs()) {
      h = mc::mix(h, mc::mix(mc::mix(dig_cs(q.L_B), dig_cs(q.U_B)), mc::mix(dig_cs(q.E), dig_cs(q.F))));
      h = mc::mix(h, mc::mix(dig(q.d_B), mc::mix(dig(q.s), dig(q.t))));
    }
    O.dig.push_back(h);
    h = M.nnz();
    for (int i = 0; i < 6; ++i) h = mc::mix(h, M.stats(i));
    O.dig.push_back(mc::mix(h, mc::mix(M.levels(), mc::mix(M.rank(), M.schur_rank()))));
    O.levels = M.precs().size(), O.nnz = M.nnz();
    O.m.clear(), O.n.clear(), O.stats.clear();
    for (auto &q : M.precs()) O.m.push_back(q.m), O.n.push_back(q.n);
    for (int i = 0; i < 6; ++i) O.stats.push_back(M.stats(i));
    O.rank = M.schur_rank(), O.size = M.schur_size();
    if (round) break;
    hif::Array<T> b(n), x(n);
    for (int i = 0; i < n; ++i) b[i] = Mk<T>::mk(1 + i % 5, i % 3 - 1);
    auto run = [&](const char *w, std::function<void()> f) {
      std::fill(x.begin(), x.end(), T(0));
      try {
        f();
        O.dig.push_back(dig(x));
      } catch (const std::exception &) {
        O.dig.push_back(99);
      }
    };
    run("solve", [&] { M.solve(b, x); });
    run("transposed solve", [&] { M.solve(b, x, true); });
    run("product", [&] { M.mmultiply(b, x); });
    run("transposed product", [&] { M.mmultiply(b, x, true); });
    if (!(I.style & 2)) run("refinement", [&] { M.hifir(A, b, 3, x); });
    if (!(I.style & 2)) run("refinement with bounds", [&] {
      const double be[] = {1e-9, 1e9};
      auto         r    = M.hifir(A, b, 4, be, x, true);
      O.dig.push_back(mc::mix(r.first, r.second + 5));
    });
  }
}
#ifndef HIF_DEBUG
int diag_configs() { return (int)configs().size(); }
#endif
void NAME(const DiagIn &I, DiagOut &O) {
  g_out = &O.out, g_err = &O.err;
  switch (I.style & 5) {
    case 0: return go<double, true>(I, O);
    case 1: return go<double, false>(I, O);
    case 4: return go<cd, true>(I, O);
    case 5: return go<cd, false>(I, O);
  }
}
