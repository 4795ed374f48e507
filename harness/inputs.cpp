// P06: inputs are never written (not even temporarily) nor read out of bounds, the preconditioner does not refer to them
// after the factorization, and outputs do not depend on what the output vector held.
#include "spaces.hpp"
#include "guard.hpp"
using namespace hx;
#ifdef CPLX
typedef cd T;
#else
typedef double T;
#endif

template <bool Row, class V> static void run_one(mc::Case &c, const Mat<T> &A, const hif::Params &p, size_t m0, int base, bool full, bool front) {
  typedef typename std::conditional<Row, hif::CRS<V, int>, hif::CCS<V, int>>::type Cs;
  const int n = A.n;
  c.desc("%s %s%s base=%d explicit_zeros=%d m0=%zu A=%s %s", is_cplx<T>::value ? "complex" : "real", Row ? "CRS" : "CCS", sizeof(V) < sizeof(T) ? "(single)" : "",
         base, full, m0, n <= 6 ? show(A).c_str() : "(see family)", cfg_str(p).c_str());
  Cs S = to_cs<Cs>(A, base, full);
  // reference: ordinary copies
  hif::HIF<T> R;
  R.factorize(S, p, m0);
  Mat<T> X0 = solve_op<T>(R, n, false), Y0 = mult_op<T>(R, n, false), X1 = solve_op<T>(R, n, true), Y1 = mult_op<T>(R, n, true);
  c.state(struct_hash(R));
  // guarded
  Guarded gi(S.ind_start().data(), S.ind_start().size() * sizeof(S.ind_start()[0]), front), gj_(S.inds().data(), S.inds().size() * sizeof(int), front),
      gv(S.vals().data(), S.vals().size() * sizeof(V), front), gp(&p, sizeof p, front);
  const hif::Params &pp = *(const hif::Params *)gp.data();
  hif::HIF<T>        M;
  {
    Cs G;
    G.resize(n, n);
    G.ind_start() = typename Cs::iparray_type(S.ind_start().size(), (typename Cs::indptr_type *)gi.data(), true);
    G.inds()      = typename Cs::iarray_type(S.inds().size(), (int *)gj_.data(), true);
    G.vals()      = hif::Array<V>(S.vals().size(), (V *)gv.data(), true);
    M.factorize((const Cs &)G, pp, m0);
    c.transition();
    // refinement reads A: still only reads
    if (base == 0 && sizeof(V) == sizeof(T)) {
      hif::Array<T> x(n), y(n), rx(n), ry(n);
      std::vector<T> bb(n);
      for (int i = 0; i < n; ++i) bb[i] = Mk<T>::mk(1 + i, i % 2);
      Guarded gb(bb.data(), n * sizeof(T), front);
      hif::Array<T> B(n, (T *)gb.data(), true);
      for (int tr = 0; tr < 2; ++tr) {
        const double be[2] = {0.1, 1e3};
        hif::Array<T> rb(n);
        std::copy(bb.begin(), bb.end(), rb.begin());
        std::fill(rx.begin(), rx.end(), T(0)), std::fill(ry.begin(), ry.end(), T(0));
        R.hifir(S, rb, 2, rx, tr, 0);
        const auto rr = R.hifir(S, rb, 2, be, ry, tr, 0);
        bool       fin = true;
        for (int i = 0; i < n; ++i) fin = fin && std::isfinite(std::abs(rx[i])) && std::isfinite(std::abs(ry[i]));
        for (int g = 0; g < 3; ++g) {
          // what the outputs hold at first
          for (int i = 0; i < n; ++i) x[i] = y[i] = g == 0 ? T(NAN) : g == 1 ? T(-3.5 + i) : bb[n - 1 - i];
          M.hifir((const Cs &)G, B, 2, x, tr, 0);
          const auto r = M.hifir((const Cs &)G, B, 2, be, y, tr, 0);
          c.transition(2);
          for (int i = 0; i < n && fin; ++i)
            if (!(x[i] == rx[i]) || !(y[i] == ry[i])) {
              std::ostringstream o;
              o << (x[i] == rx[i] ? "with" : "without") << " bounds gives " << x[i] << ", " << y[i] << " instead of " << rx[i] << ", " << ry[i];
              c.fail("%srefinement depends on where its inputs live or on the old content of the output (filler %d): %s", tr ? "transposed " : "", g, o.str().c_str());
              return;
            }
          if (fin && (r.first != rr.first || r.second != rr.second)) {
            c.fail("%srefinement reports %zu steps, flag %d instead of %zu, %d", tr ? "transposed " : "", (size_t)r.first, (int)r.second, (size_t)rr.first, (int)rr.second);
            return;
          }
        }
      }
    }
  }
  gi.gone(), gj_.gone(), gv.gone(), gp.gone();
  bool ok = true;
  for (int k = 0; k < 4 && ok; ++k) {
    const Mat<T> &W = k == 0 ? X0 : k == 1 ? X1 : k == 2 ? Y0 : Y1;
    for (int j = 0; j < n && ok; ++j) {
      std::vector<T> e(n, T(0));
      e[j] = T(1);
      Guarded       gb(e.data(), n * sizeof(T), front);
      hif::Array<T> b(n, (T *)gb.data(), true), x(n);
      for (int i = 0; i < n; ++i) x[i] = j % 2 ? T(NAN) : T(-3.5);
      if (k < 2) M.solve((const hif::Array<T> &)b, x, k == 1);
      else M.mmultiply((const hif::Array<T> &)b, x, k == 3);
      c.transition();
      for (int i = 0; i < n; ++i)
        if (std::memcmp(&x[i], &W(i, j), sizeof(T)) && !(x[i] == W(i, j)) && std::isfinite(std::abs(W(i, j)))) {
          std::ostringstream o;
          o << x[i] << " instead of " << W(i, j);
          c.fail("%s%s depends on where its inputs live or on the old content of the output: %s", k & 1 ? "transposed " : "", k < 2 ? "solve" : "multiply", o.str().c_str());
          ok = false;
          break;
        }
    }
  }
  c.validated();
}

static void run_all(mc::Case &c, const Mat<T> &A, const std::vector<hif::Params> &cfgs, int symm, size_t m0) {
  const size_t rot = mc::thorough() || cfgs.size() == 1 ? 1 : 4;
  for (size_t k = 0; k < cfgs.size(); ++k) {
    if ((k + c.idx + c.idx / 16) % rot) continue;
    auto p = cfgs[k];
    if (symm) p.is_symm = 1;
    const int v = (int)(k / rot + c.idx) % 8;
    const bool f = (k + c.idx / 3) % 2;
    if (v == 0) run_one<true, T>(c, A, p, m0, 0, false, f);
    else if (v == 1) run_one<false, T>(c, A, p, m0, 0, false, f);
    else if (v == 2) run_one<true, T>(c, A, p, m0, 1, false, f);
    else if (v == 3) run_one<false, T>(c, A, p, m0, 1, true, f);
    else if (v == 4) run_one<true, T>(c, A, p, m0, 0, true, f);
#ifdef CPLX
    else if (v == 5) run_one<true, cf>(c, A, p, m0, 0, false, f);
    else if (v == 6) run_one<false, cf>(c, A, p, m0, 1, false, f);
#else
    else if (v == 5) run_one<true, float>(c, A, p, m0, 0, false, f);
    else if (v == 6) run_one<false, float>(c, A, p, m0, 1, false, f);
#endif
    else run_one<false, T>(c, A, p, m0, 0, true, f);
    if (c.nfail) return;
  }
}

int main(int argc, char **argv) {
  using mc::Family;
  std::vector<Family> F;
  auto c1 = configs_drop(1), c2 = configs_drop(2), e0 = configs_exact(0);
  c1.insert(c1.end(), e0.begin(), e0.end());
  for (auto &p : configs_exact(2))
    if (p.kappa == 3.0) c2.push_back(p);
  const int NT = 2;
  F.push_back({"pat3", "all 3x3 patterns x 2 tables", 512 * NT, [=](mc::Case &c) { run_all(c, by_pattern<T>(3, c.idx / NT, c.idx % NT), c1, 0, 0); }});
  F.push_back({"sym3", "all Hermitian 3x3 patterns x 3 tables, symmetric mode", 64 * 3, [=](mc::Case &c) { run_all(c, herm_pattern<T>(3, c.idx / 3, c.idx % 3), c1, 1, 0); }});
  F.push_back({"m0", "all 3x3 patterns with a symmetric leading block, every block size", 512 * 3, [=](mc::Case &c) {
                 Mat<T> A  = by_pattern<T>(3, c.idx / 3, 0);
                 int    m0 = 1 + c.idx % 3;
                 bool   z  = true;
                 for (int i = 0; i < m0; ++i) {
                   for (int j = 0; j < i; ++j) A(i, j) = A(j, i);
                   for (int j = 0; j < m0; ++j) z = z && A(i, j) == T(0);
                 }
                 if (z) {
                   c.skip("empty leading block");
                   return;
                 }
                 run_all(c, A, c1, 0, m0);
               }});
  {
    // orders beyond every block, buffer and shortcut size of the code
    static const int  nl[] = {48, 77, 130};
    const uint64_t nk = mc::thorough() ? c2.size() : 8;
    F.push_back({"large", "20 structure classes x sizes {48,77,130} x 8 configurations (thorough: all), rotating; every third also in symmetric mode", NSTRUCT * 3 * nk, [=](mc::Case &c) {
                   const int    kind = c.idx % NSTRUCT, n = nl[c.idx / NSTRUCT % 3];
                   const size_t k = (c.idx / NSTRUCT / 3 * (c2.size() / nk) + (mc::thorough() ? 0 : kind + c.idx / NSTRUCT)) % c2.size();
                   run_all(c, structured<T>(kind, n), std::vector<hif::Params>{c2[k]}, 0, 0);
                   if (c.idx % 3 == 0 && !c.nfail) run_all(c, hermitize(structured<T>(kind, n)), std::vector<hif::Params>{c2[k]}, 1, 0);
                 }});
  }
  static const int ns[] = {5, 12, 31};
  F.push_back({"struct", "20 structure classes x sizes {5,12,31} x configurations", NSTRUCT * 3 * (uint64_t)c2.size(), [=](mc::Case &c) {
                 int kind = c.idx % NSTRUCT, n = ns[c.idx / NSTRUCT % 3], k = c.idx / NSTRUCT / 3;
                 run_all(c, structured<T>(kind, n), std::vector<hif::Params>{c2[k]}, 0, 0);
                 if (k % 4 == 0) run_all(c, hermitize(structured<T>(kind, n)), std::vector<hif::Params>{c2[k]}, 1, 0);
               }});
  return mc::drive(argc, argv, F);
}
