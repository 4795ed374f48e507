// P24: the C interface. Every call returns the documented status, leaves everything unchanged when it refuses, and otherwise
// does what the C++ object does; all four value types and both mixed-precision pairs, over all call sequences.
#include <libhifir.cpp>
#include "spaces.hpp"
#include <unistd.h>
using namespace hx;
typedef LhfInt    I;
typedef LhfIndPtr P;

struct ApiD;
struct ApiZ;
#define CAPI(N, t, V, C)                                                                                                                        \
  struct N {                                                                                                                                    \
    typedef V                      T;                                                                                                           \
    typedef Lhf##t##MatrixHdl      Mh;                                                                                                          \
    typedef Lhf##t##HifHdl         Hh;                                                                                                          \
    typedef hif::HIF<V, I, P>      Ref;                                                                                                         \
    static const char *name() { return #t; }                                                                                                    \
    static Mh mk(int row, size_t n, const P *p, const I *i, const V *v) { return lhf##t##CreateMatrix(row, n, p, i, (const C *)v); }              \
    static LhfStatus wrap(Mh m, size_t n, const P *p, const I *i, const V *v) { return lhf##t##WrapMatrix(m, n, p, i, (const C *)v); }            \
    static LhfStatus del(Mh m) { return lhf##t##DestroyMatrix(m); }                                                                             \
    static size_t size(Mh m) { return lhf##t##GetMatrixSize(m); }                                                                               \
    static size_t mnnz(Mh m) { return lhf##t##GetMatrixNnz(m); }                                                                                \
    static LhfStatus rds(const char *f, Mh m) { return lhf##t##ReadSparse(f, m); }                                                              \
    static LhfStatus rdv(const char *f, size_t n, V *v) { return lhf##t##ReadVector(f, n, (C *)v); }                                            \
    static Hh create(Mh A, Mh S, const double *p) { return lhf##t##Create(A, S, p); }                                                           \
    static LhfStatus destroy(Hh h) { return lhf##t##Destroy(h); }                                                                               \
    static LhfStatus setup(Hh h, Mh A, Mh S, const double *p) { return lhf##t##Setup(h, A, S, p); }                                             \
    static LhfStatus update(Hh h, Mh A) { return lhf##t##Update(h, A); }                                                                        \
    static LhfStatus refac(Hh h, Mh S, const double *p) { return lhf##t##Refactorize(h, S, p); }                                                \
    static LhfStatus apply(Hh h, LhfOperationType o, const V *b, int ni, const double *be, int r, V *x, int *s) { return lhf##t##Apply(h, o, (const C *)b, ni, be, r, (C *)x, s); } \
    static LhfStatus solve(Hh h, const V *b, V *x) { return lhf##t##Solve(h, (const C *)b, (C *)x); }                                           \
    static LhfStatus stats(Hh h, size_t *s) { return lhf##t##GetStats(h, s); }                                                                  \
    static size_t nnz(Hh h) { return lhf##t##GetNnz(h); }                                                                                       \
    static size_t levels(Hh h) { return lhf##t##GetLevels(h); }                                                                                 \
    static size_t ss(Hh h) { return lhf##t##GetSchurSize(h); }                                                                                  \
    static size_t sr(Hh h) { return lhf##t##GetSchurRank(h); }
CAPI(ApiD, d, double, double)
  typedef ApiD D; static const bool MIX = false;
  static LhfStatus xupdate(Hh, D::Mh) { return LHF_SUCCESS; }
  static LhfStatus xapply(Hh, LhfOperationType, const double *, int, const double *, int, double *, int *) { return LHF_SUCCESS; }
  static LhfStatus xsolve(Hh, const double *, double *) { return LHF_SUCCESS; }
};
CAPI(ApiZ, z, cd, double _Complex)
  typedef ApiZ D; static const bool MIX = false;
  static LhfStatus xupdate(Hh, D::Mh) { return LHF_SUCCESS; }
  static LhfStatus xapply(Hh, LhfOperationType, const cd *, int, const double *, int, cd *, int *) { return LHF_SUCCESS; }
  static LhfStatus xsolve(Hh, const cd *, cd *) { return LHF_SUCCESS; }
};
CAPI(ApiS, s, float, float)
  typedef ApiD D; static const bool MIX = true;
  static LhfStatus xupdate(Hh h, D::Mh A) { return lhfsdUpdate(h, A); }
  static LhfStatus xapply(Hh h, LhfOperationType o, const double *b, int ni, const double *be, int r, double *x, int *s) { return lhfsdApply(h, o, b, ni, be, r, x, s); }
  static LhfStatus xsolve(Hh h, const double *b, double *x) { return lhfsdSolve(h, b, x); }
};
CAPI(ApiC, c, cf, float _Complex)
  typedef ApiZ D; static const bool MIX = true;
  typedef double _Complex Zc;
  static LhfStatus xupdate(Hh h, D::Mh A) { return lhfczUpdate(h, A); }
  static LhfStatus xapply(Hh h, LhfOperationType o, const cd *b, int ni, const double *be, int r, cd *x, int *s) { return lhfczApply(h, o, (const Zc *)b, ni, be, r, (Zc *)x, s); }
  static LhfStatus xsolve(Hh h, const cd *b, cd *x) { return lhfczSolve(h, (const Zc *)b, (Zc *)x); }
};

static const char *stname(int s) {
  static const char *n[] = {"SUCCESS", "NULL_OBJ", "MISMATCHED_SIZES", "BAD_PREC", "HIFIR_ERROR"};
  return s >= 0 && s < 5 ? n[s] : "?";
}
template <class T> static T conv(const cd &v, T *) { return T(v.real()); }
template <class R> static std::complex<R> conv(const cd &v, std::complex<R> *) { return std::complex<R>(v.real(), v.imag()); }
template <class T> static T to(const cd &v) { return conv(v, (T *)0); }

// one matrix, raw, in value type T
template <class T> struct Raw {
  size_t         n;
  bool           row;
  std::vector<P> p;
  std::vector<I> i;
  std::vector<T> v;
  Raw() : n(0), row(true) {}
  template <class Q> Raw(const Mat<Q> &A, bool row_) : n(A.n), row(row_) {
    p.push_back(0);
    for (int a = 0; a < A.n; ++a) {
      for (int b = 0; b < A.n; ++b) {
        const Q x = row ? A(a, b) : A(b, a);
        if (x != Q(0)) i.push_back(b), v.push_back(to<T>(cd(x)));
      }
      p.push_back((P)i.size());
    }
  }
};
template <class Ref, class T> static void ref_fac(Ref &M, const Raw<T> &A, const hif::Params &p) {
  if (A.row) M.template factorize<true>(A.n, A.p.data(), A.i.data(), A.v.data(), p);
  else M.template factorize<false>(A.n, A.p.data(), A.i.data(), A.v.data(), p);
}
template <class Ref, class T> static std::pair<int, int> ref_ir(const Ref &M, const Raw<T> &A, const std::vector<T> &b, int nirs, const double *be, std::vector<T> &x, bool tr, size_t r) {
  hif::Array<T> B(b.size(), (T *)b.data(), true), X(x.size(), x.data(), true);
  std::pair<int, int> s(-77, -77);
  auto run = [&](const auto &S) {
    if (be) {
      auto q = M.hifir(S, B, nirs, be, X, tr, r);
      s = std::pair<int, int>((int)q.first, (int)q.second);
    } else M.hifir(S, B, nirs, X, tr, r);
  };
  if (A.row) {
    hif::CRS<T, I, P> S((typename hif::CRS<T, I, P>::size_type)A.n, A.n, (P *)A.p.data(), (I *)A.i.data(), (T *)A.v.data(), true);
    run(S);
  } else {
    hif::CCS<T, I, P> S((typename hif::CCS<T, I, P>::size_type)A.n, A.n, (P *)A.p.data(), (I *)A.i.data(), (T *)A.v.data(), true);
    run(S);
  }
  return s;
}
template <class T> static std::vector<T> rhs(size_t n) {
  std::vector<T> b(n);
  for (size_t i = 0; i < n; ++i) b[i] = to<T>(cd(1.0 + i, i % 2 ? 0.5 : -1.0));
  return b;
}
template <class T> static bool close(const std::vector<T> &a, const std::vector<T> &b) {
  typedef typename real_of<T>::type R;
  double s = 0;
  for (auto &x : b) s = std::max(s, (double)std::abs(x));
  for (size_t i = 0; i < a.size(); ++i) {
    if (!std::isfinite((double)std::abs(b[i])) || !std::isfinite((double)std::abs(a[i]))) {
      if (std::isfinite((double)std::abs(b[i])) != std::isfinite((double)std::abs(a[i]))) return false;
      continue;
    }
    if (std::abs(a[i] - b[i]) > 64 * std::numeric_limits<R>::epsilon() * s) return false;
  }
  return true;
}
template <class T> static std::string vs(const std::vector<T> &v) {
  std::ostringstream o;
  o.precision(9);
  for (auto &x : v) o << x << ' ';
  return o.str();
}

// one application through the C interface against the C++ object
template <class Api, bool Mix> struct Do {
  typedef typename std::conditional<Mix, typename Api::D::T, typename Api::T>::type V;
  static LhfStatus apply(typename Api::Hh h, LhfOperationType o, const V *b, int ni, const double *be, int r, V *x, int *s) { return Api::apply(h, o, b, ni, be, r, x, s); }
  static LhfStatus solve(typename Api::Hh h, const V *b, V *x) { return Api::solve(h, b, x); }
};
template <class Api> struct Do<Api, true> {
  typedef typename Api::D::T V;
  static LhfStatus apply(typename Api::Hh h, LhfOperationType o, const V *b, int ni, const double *be, int r, V *x, int *s) { return Api::xapply(h, o, b, ni, be, r, x, s); }
  static LhfStatus solve(typename Api::Hh h, const V *b, V *x) { return Api::xsolve(h, b, x); }
};

static const double BETAS[3][2] = {{1e-30, 1e30}, {0.2, 1e30}, {1e-30, 1e-3}};
static const LhfOperationType OPS[] = {LHF_S, LHF_SH, LHF_M, LHF_MH};
static const char *OPN[] = {"S", "SH", "M", "MH"};

// A: the matrix refinement uses; null when none; n = size of the preconditioner (0 = empty); unknown = the matrix is not known
template <class Api, bool Mix, class V = typename Do<Api, Mix>::V>
static bool check_apply(mc::Case &c, typename Api::Hh h, const typename Api::Ref *M, size_t n, const Raw<V> *A, bool unknown, int op, int nirs, int bk, int rank, bool st) {
  const double *be = bk < 0 ? nullptr : BETAS[bk];
  const size_t  nb = n ? n : 3;
  std::vector<V> b = rhs<V>(nb), b0 = b, x(nb, to<V>(cd(-7.25, 0))), x0 = x, w = x;
  int            ir[2] = {-77, -77};
  const bool     plain = nirs <= 1 || op >= 2, tr = op & 1;
  if (!plain && unknown) return true;  // which matrix a failed setup leaves for refinement is left open
  LhfStatus      r = Do<Api, Mix>::apply(h, OPS[op], b.data(), nirs, be, rank, x.data(), st ? ir : nullptr);
  c.transition();
  char what[160];
  std::snprintf(what, sizeof what, "%s%sApply(op=%s, nirs=%d, betas=%s, rank=%d, ir_status=%s)", Api::name(), Mix ? "/double" : "", OPN[op], nirs, be ? "given" : "NULL", rank, st ? "given" : "NULL");
  int want = LHF_SUCCESS;
  if (!h) want = LHF_NULL_OBJ;
  else if (plain) want = n ? LHF_SUCCESS : -1;
  else if (!A) want = LHF_NULL_OBJ;
  else if (!n) want = -1;
  else if (A->n != n) want = LHF_MISMATCHED_SIZES;
  if (want < 0 ? r == LHF_SUCCESS : (int)r != want) {
    c.fail("%s returns %s, not %s", what, stname(r), want < 0 ? "an error" : stname(want));
    return false;
  }
  if (b != b0) {
    c.fail("%s writes to the right-hand side", what);
    return false;
  }
  if (want != LHF_SUCCESS) {
    if (x != x0 || ir[0] != -77 || ir[1] != -77) {
      c.fail("%s returns %s but writes its output", what, stname(r));
      return false;
    }
    if (r == LHF_HIFIR_ERROR) {
      const char *m = lhfGetErrorMsg();
      if (!m || !*m) {
        c.fail("%s returns HIFIR_ERROR without a message", what);
        return false;
      }
    }
    return true;
  }
  std::pair<int, int> s(-77, -77);
  const bool unspec = rank == LHF_DEFAULT_RANK;
  if (plain) {
    hif::Array<V> B(b.size(), b.data(), true), X(w.size(), w.data(), true);
    const size_t rr = unspec ? 0 : (size_t)rank;
    if (op >= 2) M->mmultiply((const hif::Array<V> &)B, X, tr, rr);
    else M->solve((const hif::Array<V> &)B, X, tr, rr);
  } else
    s = ref_ir(*M, *A, b, nirs, be, w, tr, unspec ? (size_t)-1 : (size_t)rank);
  if (!close(x, w)) {
    c.fail("%s gives %s, the C++ object %s", what, vs(x).c_str(), vs(w).c_str());
    return false;
  }
  if (!st || plain || !be) s = std::pair<int, int>(-77, -77);
  if (ir[0] != s.first || ir[1] != s.second) {
    c.fail("%s sets ir_status to (%d,%d), not (%d,%d)", what, ir[0], ir[1], s.first, s.second);
    return false;
  }
  c.validated();
  return true;
}
template <class Api> static bool check_reports(mc::Case &c, typename Api::Hh h, const typename Api::Ref *M) {
  size_t st[10], w[9] = {0, 0, 0, 0, 0, 0, 0, 0, 0};
  for (auto &q : st) q = 4242;
  if (M) {
    w[0] = M->nnz(), w[1] = M->stats(0), w[2] = M->stats(1), w[3] = M->stats(4), w[4] = M->stats(5), w[5] = M->levels(), w[6] = M->rank(), w[7] = M->schur_rank(), w[8] = M->schur_size();
  }
  LhfStatus r = Api::stats(h, st);
  c.transition(5);
  if (r != LHF_SUCCESS || st[9] != 4242) {
    c.fail("%sGetStats returns %s or writes beyond nine entries", Api::name(), stname(r));
    return false;
  }
  for (int k = 0; k < 9; ++k)
    if (st[k] != w[k]) {
      c.fail("%sGetStats reports %zu in entry %d, the C++ object %zu", Api::name(), st[k], k, w[k]);
      return false;
    }
  const size_t g[4] = {Api::nnz(h), Api::levels(h), Api::ss(h), Api::sr(h)}, e[4] = {w[0], w[5], w[8], w[7]};
  static const char *nm[] = {"GetNnz", "GetLevels", "GetSchurSize", "GetSchurRank"};
  for (int k = 0; k < 4; ++k)
    if (g[k] != e[k]) {
      c.fail("%s%s reports %zu, the C++ object %zu", Api::name(), nm[k], g[k], e[k]);
      return false;
    }
  c.validated(5);
  return true;
}

// ---- call sequences
static hif::Params cxx_params(int k) {
  hif::Params p = hif::get_default_params();
  if (k == 1) p.tau_L = p.tau_U = 0.3, p.alpha_L = p.alpha_U = 1.0, p.verbose = 0, p.dense_thres = 1;
  return p;
}
static void c_params(int k, double *p) {
  lhfSetDefaultParams(p);
  if (k == 1) {
    lhfSetDroptol(0.3, p);
    lhfSetAlpha(1.0, p);
    p[LHF_VERBOSE] = 0, p[LHF_DENSE_THRES] = 1;
  }
}
template <class Api> struct World {
  typedef typename Api::T    T;
  typedef typename Api::D::T DT;
  Raw<T>                     raw[5];
  Raw<DT>                    draw[5];
  typename Api::Mh           m[5];
  typename Api::D::Mh        d[5];
  std::unique_ptr<typename Api::Ref> ref[5][2];
  World() {
    Mat<cd> A(3, 3), B(3, 3), C2(2, 2);
    const double a[9] = {4, 1, 0, -1, 3, 2, 1, 0.25, 5}, b[9] = {2, 0, 1, 1, 4, 0.125, 0, 2, 3}, q[4] = {3, 1, 2, 5};
    for (int i = 0; i < 9; ++i) A(i / 3, i % 3) = cd(a[i], is_cplx<T>::value && a[i] != 0 ? 0.5 * (i % 3) : 0), B(i / 3, i % 3) = cd(b[i], is_cplx<T>::value && b[i] != 0 ? -0.25 * (i % 2) : 0);
    for (int i = 0; i < 4; ++i) C2(i / 2, i % 2) = cd(q[i], is_cplx<T>::value ? 1 : 0);
    raw[0] = Raw<T>(A, true), raw[1] = Raw<T>(B, false), raw[2] = Raw<T>(C2, true), raw[3] = Raw<T>(A, true);
    raw[3].i[1] = 7;  // malformed
    draw[0] = Raw<DT>(A, true), draw[1] = Raw<DT>(B, false), draw[2] = Raw<DT>(C2, true), draw[3] = draw[0];
    for (int k = 0; k < 5; ++k) {
      m[k] = k == 4 ? Api::mk(1, 0, nullptr, nullptr, nullptr) : Api::mk(raw[k].row, raw[k].n, raw[k].p.data(), raw[k].i.data(), raw[k].v.data());
      d[k] = k == 4 ? Api::D::mk(1, 0, nullptr, nullptr, nullptr) : Api::D::mk(draw[k].row, draw[k].n, draw[k].p.data(), draw[k].i.data(), draw[k].v.data());
    }
  }
  ~World() {
    for (int k = 0; k < 5; ++k) Api::del(m[k]), Api::D::del(d[k]);
  }
  typename Api::Ref *get(int f, int p) {
    if (f < 0) return nullptr;
    if (!ref[f][p]) {
      ref[f][p].reset(new typename Api::Ref());
      ref_fac(*ref[f][p], raw[f], cxx_params(p));
    }
    return ref[f][p].get();
  }
};
enum { SETUP, UPDATE, REFAC, XUPDATE };
struct Call { int kind, a, s, p; };  // -1 = NULL
static const Call CALLS[] = {{SETUP, 0, -1, 0}, {SETUP, -1, 1, 1}, {SETUP, 0, 1, 0}, {SETUP, 2, 0, 1}, {SETUP, -1, -1, 0}, {SETUP, 2, -1, 1}, {SETUP, 3, -1, 0}, {SETUP, 1, 3, 0}, {SETUP, 4, 0, 0},
                             {REFAC, -1, 0, 1}, {REFAC, -1, 1, 0}, {REFAC, -1, 2, 0}, {REFAC, -1, 3, 1}, {REFAC, -1, -1, 0},
                             {UPDATE, 0, 0, 0}, {UPDATE, 1, 0, 0}, {UPDATE, 2, 0, 0}, {UPDATE, -1, 0, 0}, {UPDATE, 4, 0, 0},
                             {XUPDATE, 0, 0, 0}, {XUPDATE, 1, 0, 0}, {XUPDATE, 2, 0, 0}, {XUPDATE, -1, 0, 0}};
static const int NC = sizeof CALLS / sizeof CALLS[0], NCP = 19;  // without the mixed calls
template <class Api> static void sequence(mc::Case &c, int create, std::vector<int> seq) {
  World<Api> W;
  // state: factorized matrix and parameters, A and Ad (-1 none, -2 unknown)
  int  fac = -1, par = 0, A = -1, X = -1;
  std::string d = std::string("lhf") + Api::name() + "Create";
  double cp[2][LHF_NUMBER_PARAMS];
  c_params(0, cp[0]), c_params(1, cp[1]);
  auto pp = [&](int k) { return k ? cp[1] : (const double *)nullptr; };
  auto mh = [&](int k) { return k < 0 ? (typename Api::Mh)0 : W.m[k]; };
  typename Api::Hh h = nullptr;
  auto do_setup = [&](int a, int s, int p) -> int {
    const int f = s >= 0 ? s : a;
    if (f < 0) return LHF_NULL_OBJ;
    X = -1;
    if (f == 3) {
      fac = -1, A = -2;
      return LHF_HIFIR_ERROR;
    }
    A = a >= 0 ? a : s, fac = f, par = p;
    return LHF_SUCCESS;
  };
  {
    const Call q = CALLS[create];
    d += "(" + std::to_string(q.a) + "," + std::to_string(q.s) + "," + std::to_string(q.p) + ")";
    h = Api::create(mh(q.a), mh(q.s), pp(q.p));
    c.transition();
    const int w = do_setup(q.a, q.s, q.p);
    if ((w == LHF_HIFIR_ERROR) != (h == nullptr)) {
      c.desc("%s", d.c_str());
      c.fail("create returns %s", h ? "an object although the matrix is malformed" : "NULL");
      return;
    }
    if (!h) {
      const char *e = lhfGetErrorMsg();
      if (!e || !*e) c.fail("a failed create leaves no message");
      if (lhfGetErrorMsg()) c.fail("the message is not consumed");
    }
  }
  auto observe = [&]() -> bool {
    const typename Api::Ref *M = W.get(fac, par);
    const size_t n = fac < 0 ? 0 : W.raw[fac].n;
    c.state(mc::mix(mc::mix(mc::mix(mc::mix(Api::name()[0], fac + 5), par), A + 5), X + 5));
    if (!check_reports<Api>(c, h, M)) return false;
    for (int op = 0; op < 4; ++op) {
      if (!check_apply<Api, false>(c, h, M, n, A < 0 ? nullptr : &W.raw[A], A == -2, op, 1, -1, LHF_DEFAULT_RANK, false)) return false;
      if (!check_apply<Api, false>(c, h, M, n, A < 0 ? nullptr : &W.raw[A], A == -2, op, 2, op % 2 ? 1 : -1, LHF_DEFAULT_RANK, true)) return false;
      if (Api::MIX) {
        if (!check_apply<Api, true>(c, h, M, n, X < 0 ? nullptr : &W.draw[X], false, op, 0, -1, LHF_DEFAULT_RANK, false)) return false;
        if (!check_apply<Api, true>(c, h, M, n, X < 0 ? nullptr : &W.draw[X], false, op, 3, op % 2 ? -1 : 0, LHF_DEFAULT_RANK, true)) return false;
      }
    }
    return true;
  };
  bool ok = h ? observe() : true;
  for (size_t k = 0; ok && k < seq.size(); ++k) {
    const Call q = CALLS[seq[k]];
    static const char *nm[] = {"Setup", "Update", "Refactorize", "(mixed)Update"};
    d += std::string(" ") + nm[q.kind] + "(" + (q.kind != REFAC ? std::to_string(q.a) : "") + (q.kind == SETUP ? "," : "") + (q.kind == SETUP || q.kind == REFAC ? std::to_string(q.s) + "," + std::to_string(q.p) : "") + ")";
    c.desc("%s [0,1: 3x3; 2: 2x2; 3: malformed; 4: empty; -1: NULL]", d.c_str());
    int want = LHF_SUCCESS;
    LhfStatus r;
    const size_t n = fac < 0 ? 0 : W.raw[fac].n;
    if (q.kind == SETUP) {
      r = Api::setup(h, mh(q.a), mh(q.s), pp(q.p));
      want = h ? do_setup(q.a, q.s, q.p) : LHF_NULL_OBJ;
    } else if (q.kind == REFAC) {
      r = Api::refac(h, mh(q.s), pp(q.p));
      if (!h || q.s < 0) want = LHF_NULL_OBJ;
      else if (q.s == 3) want = LHF_HIFIR_ERROR, fac = -1;
      else fac = q.s, par = q.p;
    } else if (q.kind == UPDATE) {
      r = Api::update(h, mh(q.a));
      if (!h) want = LHF_NULL_OBJ;
      else if (n && q.a >= 0 && W.raw[q.a].n != n) want = LHF_MISMATCHED_SIZES;
      else A = q.a;
    } else {
      r = Api::xupdate(h, q.a < 0 ? (typename Api::D::Mh)0 : W.d[q.a]);
      if (!h) want = LHF_NULL_OBJ;
      else if (n && q.a >= 0 && W.draw[q.a].n != n) want = LHF_MISMATCHED_SIZES;
      else X = q.a;
    }
    c.transition();
    if ((int)r != want) {
      c.fail("the last call returns %s, not %s", stname(r), stname(want));
      ok = false;
    } else if (h) {
      if (r == LHF_HIFIR_ERROR) {
        const char *e = lhfGetErrorMsg();
        if (!e || !*e) c.fail("a failed call leaves no message"), ok = false;
      }
      if (ok && k + 1 == seq.size()) ok = observe();
    }
  }
  if (!h) {  // null handles
    if (ok) check_reports<Api>(c, nullptr, nullptr);
    if (ok) check_apply<Api, false, typename Api::T>(c, nullptr, nullptr, 0, (const Raw<typename Api::T> *)nullptr, false, 0, 1, -1, LHF_DEFAULT_RANK, true);
    std::vector<typename Api::T> b = rhs<typename Api::T>(3), x = b;
    if (Api::solve(nullptr, b.data(), x.data()) != LHF_NULL_OBJ) c.fail("solve with a NULL handle is accepted");
  }
  if (Api::destroy(h) != LHF_SUCCESS) c.fail("destroy is refused");
}

// ---- applications of one preconditioner, and parameters
static const int NPAR = 40;
static void vary(int k, double *p, hif::Params &q) {
  lhfSetDefaultParams(p);
  q = hif::get_default_params();
  p[LHF_VERBOSE] = 0, q.verbose = 0;
  switch (k) {
    case 0: p = nullptr; break;
    case 1: p[LHF_DROPTOL_L] = 0.4, q.tau_L = 0.4; break;
    case 2: p[LHF_DROPTOL_U] = 0.4, q.tau_U = 0.4; break;
    case 3: p[LHF_COND_D] = 1.2, q.kappa_d = 1.2; break;
    case 4: p[LHF_COND] = 1.2, q.kappa = 1.2; break;
    case 5: p[LHF_ALPHA_L] = 0.6, q.alpha_L = 0.6; break;
    case 6: p[LHF_ALPHA_U] = 0.6, q.alpha_U = 0.6; break;
    case 7: p[LHF_REORDER] = LHF_REORDER_OFF, q.reorder = 0; break;
    case 8: p[LHF_REORDER] = LHF_REORDER_AMD, q.reorder = 2; break;
    case 9: p[LHF_REORDER] = LHF_REORDER_RCM, q.reorder = 3; break;
    case 10: p[LHF_SYMMPRELVLS] = 0, q.symm_pre_lvls = 0; break;
    case 11: p[LHF_SYMMPRELVLS] = -1, q.symm_pre_lvls = -1; break;
    case 12: p[LHF_THREADS] = 1, q.threads = 1; break;
    case 13: p[LHF_RRQR_COND] = 3.0, q.rrqr_cond = 3.0; break;
    case 14: p[LHF_PIVOT] = LHF_PIVOTING_ON, q.pivot = 1; break;
    case 15: p[LHF_PIVOT] = LHF_PIVOTING_AUTO, q.pivot = 2; break;
    case 16: p[LHF_PIVOT] = LHF_PIVOTING_OFF, q.pivot = 0; break;
    case 17: p[LHF_BETA] = 2.0, q.beta = 2.0; break;
    case 18: p[LHF_ISSYMM] = 1, q.is_symm = 1; break;
    case 19: p[LHF_NOPRE] = 1, q.no_pre = 1; break;
    case 20: p[LHF_NZP_THRES] = 0.0, q.nzp_thres = 0.0; break;
    case 21: p[LHF_NZP_THRES] = 1.0, q.nzp_thres = 1.0; break;
    case 22: p[LHF_DENSE_THRES] = 1, q.dense_thres = 1; break;
    case 23: lhfSetDroptol(0.3, p), q.tau_L = q.tau_U = 0.3; break;
    case 24: lhfSetAlpha(0.7, p), q.alpha_L = q.alpha_U = 0.7; break;
    case 25: lhfSetKappa(1.5, p), q.kappa = q.kappa_d = 1.5; break;
    case 26: p[LHF_DENSE_THRES] = 3, q.dense_thres = 3, p[LHF_COND] = 1.3, q.kappa = 1.3; break;
    case 27: p[LHF_DENSE_THRES] = 1, q.dense_thres = 1, p[LHF_COND] = 1.1, q.kappa = 1.1, p[LHF_COND_D] = 1.4, q.kappa_d = 1.4; break;
    case 28: p[LHF_DROPTOL_L] = 0.2, q.tau_L = 0.2, p[LHF_ALPHA_U] = 0.5, q.alpha_U = 0.5; break;
    case 29: p[LHF_PIVOT] = LHF_PIVOTING_ON, q.pivot = 1, p[LHF_COND] = 1.2, q.kappa = 1.2; break;
    case 30: p[LHF_SYMMPRELVLS] = 2, q.symm_pre_lvls = 2, p[LHF_NZP_THRES] = 0.1, q.nzp_thres = 0.1; break;
    case 31: p[LHF_REORDER] = LHF_REORDER_AUTO, q.reorder = 1; break;
    case 32: p[LHF_RRQR_COND] = 1e10, q.rrqr_cond = 1e10; break;
    case 33: p[LHF_NOPRE] = 1, q.no_pre = 1, p[LHF_DROPTOL_U] = 0.5, q.tau_U = 0.5; break;
    case 34: p[LHF_ISSYMM] = 1, q.is_symm = 1, p[LHF_DENSE_THRES] = 2, q.dense_thres = 2; break;
    case 35: p[LHF_BETA] = 1.01, q.beta = 1.01; break;
    case 36: p[LHF_ALPHA_L] = 0.3, q.alpha_L = 0.3, p[LHF_DENSE_THRES] = 1, q.dense_thres = 1; break;
    case 37: p[LHF_ALPHA_U] = 0.3, q.alpha_U = 0.3, p[LHF_DENSE_THRES] = 1, q.dense_thres = 1; break;
    case 38: p[LHF_DROPTOL_L] = 0.6, q.tau_L = 0.6, p[LHF_DENSE_THRES] = 1, q.dense_thres = 1; break;
    case 39: p[LHF_DROPTOL_U] = 0.6, q.tau_U = 0.6, p[LHF_DENSE_THRES] = 1, q.dense_thres = 1; break;
  }
}
template <class Api> static void applications(mc::Case &c, int kind, int n, int k, bool row) {
  typedef typename Api::T    T;
  typedef typename Api::D::T DT;
  const Mat<DT> A0 = k == 18 || k == 34 ? hermitize(structured<DT>(kind, n)) : structured<DT>(kind, n);
  const Raw<T>  A(A0, row);
  const Raw<DT> Ad(A0, !row);
  double      p[LHF_NUMBER_PARAMS];
  hif::Params q;
  vary(k, p, q);
  c.desc("lhf%s structure %s n=%d, %s storage, parameter variation %d", Api::name(), struct_name(kind), n, row ? "row" : "column", k);
  auto m  = Api::mk(row, A.n, A.p.data(), A.i.data(), A.v.data());
  auto md = Api::D::mk(!row, Ad.n, Ad.p.data(), Ad.i.data(), Ad.v.data());
  if (Api::size(m) != A.n || Api::mnnz(m) != A.i.size()) c.fail("the matrix handle reports order %zu and %zu nonzeros", Api::size(m), Api::mnnz(m));
  if (k == 0) q = hif::get_default_params();
  auto h = Api::create(m, nullptr, k == 0 ? nullptr : p);
  c.transition();
  typename Api::Ref R;
  bool thrown = false;
  try {
    ref_fac(R, A, q);
  } catch (const std::exception &e) { thrown = true; }
  if (thrown || !h) {
    if (thrown != !h) c.fail("the C++ object %s, the C interface %s", thrown ? "refuses the system" : "accepts the system", h ? "accepts" : "refuses");
    if (h) Api::destroy(h);
    Api::del(m), Api::D::del(md);
    return;
  }
  c.state(struct_hash(R));
  bool ok = check_reports<Api>(c, h, &R);
  if (Api::MIX) ok = ok && Api::xupdate(h, md) == LHF_SUCCESS;
  const int full[][3] = {{1, -1, LHF_DEFAULT_RANK}, {-1, 0, 0}, {0, 1, 1}, {1, -1, -1}, {2, -1, LHF_DEFAULT_RANK}, {2, 0, 0}, {2, 1, -1}, {3, -1, 0}, {3, 0, LHF_DEFAULT_RANK}, {5, 1, LHF_DEFAULT_RANK}, {5, 2, LHF_DEFAULT_RANK}, {1, 0, 2}};
  for (int op = 0; ok && op < 4; ++op)
    for (size_t v = 0; ok && v < sizeof full / sizeof full[0]; ++v) {
      if (full[v][2] > 0 && (size_t)full[v][2] > R.schur_size()) continue;
      const bool st = (v + op) % 2;
      ok = check_apply<Api, false>(c, h, &R, A.n, &A, false, op, full[v][0], full[v][1], full[v][2], st);
      if (ok && Api::MIX) ok = check_apply<Api, true, DT>(c, h, &R, A.n, &Ad, false, op, full[v][0], full[v][1], full[v][2], !st);
    }
  if (ok) {
    std::vector<T> b = rhs<T>(A.n), x = b, w = b;
    hif::Array<T>  B(b.size(), b.data(), true), X(w.size(), w.data(), true);
    R.solve((const hif::Array<T> &)B, X);
    if (Api::solve(h, b.data(), x.data()) != LHF_SUCCESS || !close(x, w)) c.fail("Solve gives %s, the C++ object %s", vs(x).c_str(), vs(w).c_str());
    c.transition(), c.validated();
    if (Api::MIX) {
      std::vector<DT> b = rhs<DT>(A.n), x = b, w = b;
      hif::Array<DT>  B(b.size(), b.data(), true), X(w.size(), w.data(), true);
      R.solve((const hif::Array<DT> &)B, X);
      if (Api::xsolve(h, b.data(), x.data()) != LHF_SUCCESS || !close(x, w)) c.fail("mixed Solve gives %s, the C++ object %s", vs(x).c_str(), vs(w).c_str());
      c.transition(), c.validated();
    }
  }
  Api::destroy(h), Api::del(m), Api::D::del(md);
}

// ---- matrix handles and files
struct File {
  char path[64];
  File(const std::string &s) {
    std::snprintf(path, sizeof path, "capi-%d.mm", (int)getpid());
    FILE *f = std::fopen(path, "w");
    std::fwrite(s.data(), 1, s.size(), f);
    std::fclose(f);
  }
  ~File() { unlink(path); }
};
static std::string num(const cd &v, bool re) {
  char b[80];
  if (re) std::snprintf(b, sizeof b, "%.17g", v.real());
  else std::snprintf(b, sizeof b, "%.17g %.17g", v.real(), v.imag());
  return b;
}
// pattern of an n x m file; scheme 0..3, variant: 0 fine, 1 wrong size of the handle, 2 other value type
template <class Api> static void file_case(mc::Case &c, int n, int m, int scheme, uint64_t bits, int variant, bool row) {
  typedef typename Api::T T;
  const bool cplx = is_cplx<T>::value, re = variant == 2 ? cplx : !cplx;
  static const char *sn[] = {"general", "symmetric", "hermitian", "skew-symmetric"};
  std::map<std::pair<int, int>, cd> e;
  std::string body;
  size_t cnt = 0;
  int bit = 0;
  for (int i = n - 1; i >= 0; --i)
    for (int j = 0; j < m; ++j) {
      if (scheme && j > i) continue;
      if (scheme == 3 && i == j) continue;
      if (!(bits >> bit++ & 1)) continue;
      cd v(1.5 + i - 2.25 * j, re || (scheme == 2 && i == j) ? 0.0 : 0.75 - i + j);
      e[{i, j}] = v;
      if (scheme && i != j) e[{j, i}] = scheme == 1 ? v : scheme == 2 ? std::conj(v) : -v;
      body += std::to_string(i + 1) + " " + std::to_string(j + 1) + " " + num(v, re) + "\n";
      ++cnt;
    }
  c.desc("lhf%s %s storage, %dx%d %s %s file with %zu lines, %s", Api::name(), row ? "row" : "column", n, m, re ? "real" : "complex", sn[scheme], cnt, variant == 1 ? "handle of another size" : variant == 2 ? "file of another type" : "matching handle");
  File f(std::string("%%MatrixMarket matrix coordinate ") + (re ? "real " : "complex ") + sn[scheme] + "\n% comment\n" + std::to_string(n) + " " + std::to_string(m) + " " + std::to_string(cnt) + "\n" + body);
  int sp = -1, rl = -1;
  size_t qn = 99, qm = 99, qz = 99;
  LhfStatus r = lhfQueryMmFile(f.path, &sp, &rl, &qn, &qm, &qz);
  c.transition();
  if (r != LHF_SUCCESS || !sp || !rl != !re || (int)qn != n || (int)qm != m || qz != e.size()) {
    c.fail("query returns %s: sparse=%d real=%d %zux%zu nnz=%zu, not %dx%d nnz=%zu", stname(r), sp, rl, qn, qm, qz, n, m, e.size());
    return;
  }
  const size_t hn = variant == 1 ? (size_t)n + 1 : (size_t)n;
  std::vector<P> ip(hn + 1, -5), ip0 = ip;
  std::vector<I> id(std::max<size_t>(qz, 1), -5), id0 = id;
  std::vector<T> iv(std::max<size_t>(qz, 1), T(-5)), iv0 = iv;
  auto h = Api::mk(row, hn, ip.data(), id.data(), iv.data());
  r = Api::rds(f.path, h);
  c.transition();
  const int want = variant == 2 ? LHF_HIFIR_ERROR : variant == 1 || n != m ? LHF_MISMATCHED_SIZES : LHF_SUCCESS;
  if ((int)r != want) c.fail("read returns %s, not %s", stname(r), stname(want));
  else if (want != LHF_SUCCESS) {
    if (ip != ip0 || id != id0 || iv != iv0) c.fail("a refused read (%s) writes to the arrays", stname(r));
    if (want == LHF_HIFIR_ERROR && !lhfGetErrorMsg()) c.fail("no message");
  } else {
    std::map<std::pair<int, int>, cd> g;
    bool ok = ip[0] == 0 && (size_t)ip[n] == e.size() && Api::mnnz(h) == e.size() && Api::size(h) == (size_t)n;
    for (int i = 0; ok && i < n; ++i)
      for (P k = ip[i]; ok && k < ip[i + 1]; ++k) {
        if (k < 0 || k >= (P)e.size() || (k > ip[i] && id[k] <= id[k - 1])) ok = false;
        else g[row ? std::make_pair(i, (int)id[k]) : std::make_pair((int)id[k], i)] = cd(iv[k]);
      }
    for (auto &x : e) ok = ok && g.count(x.first) && cd(to<T>(x.second)) == g[x.first];
    if (!ok || g.size() != e.size()) c.fail("the matrix read differs from the file");
  }
  c.validated();
  Api::del(h);
}
template <class Api> static void misc(mc::Case &c) {
  typedef typename Api::T T;
  c.desc("lhf%s handles, vectors and missing files", Api::name());
  P p[4] = {0, 1, 2, 3};
  I i[3] = {0, 1, 2};
  T v[3] = {T(1), T(2), T(3)};
  auto expect = [&](long got, long want, const char *w) {
    c.transition(), c.validated();
    if (got != want) c.fail("%s gives %ld, not %ld", w, got, want);
  };
  for (int k = 0; k < 16; ++k) {  // create and wrap with every combination of missing arguments
    const size_t n = k & 1 ? 3 : 0;
    const P *pp = k & 2 ? p : nullptr;
    const I *ii = k & 4 ? i : nullptr;
    const T *vv = k & 8 ? v : nullptr;
    auto m = Api::mk(k & 1, n, pp, ii, vv);
    expect(m != nullptr, 1, "create matrix");
    expect(Api::size(m), k == 15 ? 3 : 0, "order of a created matrix");
    expect(Api::mnnz(m), k == 15 ? 3 : 0, "nonzeros of a created matrix");
    auto h = Api::mk(1, 2, p, i, v);
    expect(Api::wrap(h, n, pp, ii, vv), k == 15 ? LHF_SUCCESS : LHF_NULL_OBJ, "wrap");
    expect(Api::size(h), k == 15 ? 3 : 2, "order after wrap");
    expect(Api::mnnz(h), k == 15 ? 3 : 2, "nonzeros after wrap");
    expect(Api::wrap(m, 2, p, i, v), LHF_SUCCESS, "wrap into a created matrix");
    expect(Api::mnnz(m), 2, "nonzeros after wrap");
    Api::del(m), Api::del(h);
  }
  expect(Api::wrap(nullptr, 3, p, i, v), LHF_NULL_OBJ, "wrap into NULL");
  expect(Api::size(nullptr), 0, "order of NULL");
  expect(Api::mnnz(nullptr), 0, "nonzeros of NULL");
  expect(Api::del(nullptr), LHF_SUCCESS, "destroying NULL");
  expect(Api::destroy(nullptr), LHF_SUCCESS, "destroying NULL");
  expect(Api::rds("no-such-file.mm", nullptr), LHF_NULL_OBJ, "reading into NULL");
  auto m = Api::mk(1, 3, p, i, v);
  expect(Api::rds("no-such-file.mm", m), LHF_HIFIR_ERROR, "reading a missing file");
  const char *e = lhfGetErrorMsg();
  expect(e && *e, 1, "message for a missing file");
  expect(Api::rdv("no-such-file.mm", 3, v), LHF_HIFIR_ERROR, "reading a missing vector");
  Api::del(m);
  for (int n = 1; n <= 3; ++n)
    for (int len = 0; len <= 4; ++len)
      for (int re = 0; re < 2; ++re) {
        std::string s = std::string("%%MatrixMarket matrix array ") + (re ? "real" : "complex") + " general\n" + std::to_string(n) + " 1\n";
        for (int k = 0; k < n; ++k) s += num(cd(0.5 + k, -k), re) + "\n";
        File f(s);
        int sp = -1, rl = -1;
        size_t qn = 99, qm = 99, qz = 99;
        expect(lhfQueryMmFile(f.path, &sp, &rl, &qn, &qm, &qz), LHF_SUCCESS, "query");
        expect(sp, 0, "sparse flag of a vector");
        expect(!rl, !re, "real flag of a vector");
        expect(qn, n, "length of a vector");
        expect(qm, 0, "columns of a vector");
        expect(qz, 0, "nonzeros of a vector");
        std::vector<T> x(len + 1, T(-5)), x0 = x;
        const bool same = !re == is_cplx<T>::value;
        const int want = !same ? LHF_HIFIR_ERROR : n != len ? LHF_MISMATCHED_SIZES : LHF_SUCCESS;
        expect(Api::rdv(f.path, len, x.data()), want, "reading a vector");
        if (want != LHF_SUCCESS) expect(x == x0, 1, "a refused read leaves the vector");
        else
          for (int k = 0; k < n; ++k) expect(x[k] == to<T>(cd(0.5 + k, -k)), 1, "vector entry");
        expect(x[len] == T(-5), 1, "entry behind the vector");
      }
}
// statuses for bad files: an error, a message, nothing thrown, no file left open
static const char *BADF[] = {"", "\n", "%%MatrixMarket\n", "%%MatrixMarket matrix coordinate real\n", "%%MatrixMarket matrix coordinate real general\n", "%%MatrixMarket matrix coordinate real general\n% only\n",
                             "%%MatrixMarket matrix coordinate real general\nx y z\n", "%%MatrixMarket matrix array real general\nx\n", "%%MatrixMarket matrix coordinate integer general\n1 1 1\n1 1 1\n",
                             "%%MatrixMarket vector coordinate real general\n1 1 1\n1 1 1\n", "%%MatrixMarket matrix list real general\n1 1 1\n1 1 1\n", "%%MatrixMarket matrix coordinate real upper\n1 1 1\n1 1 1\n",
                             "%MatrixMarket matrix coordinate real general\n1 1 1\n1 1 1\n", "%%MatrixMarket matrix coordinate real general\n-1 1 1\n1 1 1\n", "%%MatrixMarket matrix coordinate real general\n1 1 -1\n1 1 1\n",
                             "%%MatrixMarket matrix array real general\n-2 1\n1\n", "%%MatrixMarket matrix coordinate real symmetric\n2 2 2\n1 1 1\n", "%%MatrixMarket matrix coordinate real symmetric\n2 2 2\n1 1 1\nx x x\n"};
static const int NBADF = sizeof BADF / sizeof BADF[0];
static void bad_query(mc::Case &c) {
  c.desc("query of bad file %d", (int)c.idx);
  File f(BADF[c.idx]);
  int sp = -1, rl = -1;
  size_t qn = 99, qm = 99, qz = 99;
  int fd0 = dup(0);
  close(fd0);
  LhfStatus r;
  try {
    r = lhfQueryMmFile(f.path, &sp, &rl, &qn, &qm, &qz);
  } catch (...) {
    c.fail("an exception escapes the C interface");
    return;
  }
  c.transition();
  if (r == LHF_SUCCESS) c.fail("the query succeeds");
  else if (r == LHF_HIFIR_ERROR && !lhfGetErrorMsg()) c.fail("no message");
  int fd1 = dup(0);
  close(fd1);
  if (fd1 != fd0) c.fail("the file stays open");
  if (lhfQueryMmFile("no-such-file.mm", &sp, &rl, &qn, &qm, &qz) != LHF_NULL_OBJ) c.fail("a missing file is not reported");
  c.validated();
}
static void defaults(mc::Case &c) {
  c.desc("defaults, setters, versions");
  double p[LHF_NUMBER_PARAMS + 1];
  p[LHF_NUMBER_PARAMS] = 4242;
  hif::Params q = hif::get_default_params();
  if (lhfSetDefaultParams(p) != LHF_SUCCESS || p[LHF_NUMBER_PARAMS] != 4242) c.fail("defaults are refused or overflow");
  const double w[][2] = {{p[LHF_DROPTOL_L], q.tau_L}, {p[LHF_DROPTOL_U], q.tau_U}, {p[LHF_COND_D], q.kappa_d}, {p[LHF_COND], q.kappa}, {p[LHF_ALPHA_L], q.alpha_L}, {p[LHF_ALPHA_U], q.alpha_U},
                         {p[LHF_VERBOSE], (double)q.verbose}, {p[LHF_REORDER], (double)q.reorder}, {p[LHF_SYMMPRELVLS], (double)q.symm_pre_lvls}, {p[LHF_THREADS], (double)q.threads}, {p[LHF_RRQR_COND], q.rrqr_cond},
                         {p[LHF_PIVOT], (double)q.pivot}, {p[LHF_BETA], q.beta}, {p[LHF_ISSYMM], (double)q.is_symm}, {p[LHF_NOPRE], (double)q.no_pre}, {p[LHF_NZP_THRES], q.nzp_thres}, {p[LHF_DENSE_THRES], (double)q.dense_thres}};
  for (int k = 0; k < 17; ++k)
    if (w[k][0] != w[k][1]) c.fail("default %d is %g, not %g", k, w[k][0], w[k][1]);
  double s[LHF_NUMBER_PARAMS], z[LHF_NUMBER_PARAMS];
  for (int f = 0; f < 3; ++f) {
    for (int k = 0; k < LHF_NUMBER_PARAMS; ++k) s[k] = z[k] = 100 + k;
    (f == 0 ? lhfSetDroptol : f == 1 ? lhfSetAlpha : lhfSetKappa)(0.5, s);
    static const int which[3][2] = {{LHF_DROPTOL_L, LHF_DROPTOL_U}, {LHF_ALPHA_L, LHF_ALPHA_U}, {LHF_COND, LHF_COND_D}};
    z[which[f][0]] = z[which[f][1]] = 0.5;
    for (int k = 0; k < LHF_NUMBER_PARAMS; ++k)
      if (s[k] != z[k]) c.fail("setter %d sets parameter %d to %g", f, k, s[k]);
    c.transition(), c.validated();
  }
  int v[3];
  lhfGetVersions(v);
  if (v[0] != HIF_GLOBAL_VERSION || v[1] != HIF_MAJOR_VERSION || v[2] != HIF_MINOR_VERSION) c.fail("wrong version");
}

template <class F> static void by_type(int t, F f) {
  if (t == 0) f((ApiD *)0);
  else if (t == 1) f((ApiS *)0);
  else if (t == 2) f((ApiZ *)0);
  else f((ApiC *)0);
}
#define API typename std::remove_pointer<decltype(a)>::type
int main(int argc, char **argv) {
  using mc::Family;
  std::vector<Family> F;
  F.push_back({"defaults", "defaults, setters, versions", 1, defaults});
  F.push_back({"handles", "matrix handles with every combination of missing arguments, vectors of all lengths, missing files", 4, [](mc::Case &c) { by_type(c.idx, [&](auto *a) { misc<API>(c); }); }});
  F.push_back({"badfiles", "queries of bad files", (uint64_t)NBADF, bad_query});
  // all patterns of 2x2 (general) and 3x3 (symmetric kinds), rectangular shapes
  const uint64_t NF = 4 * 2 * 3 * (16 + 3 * 64 + 64);
  F.push_back({"files", "all sparse files: 2x2 and 2x3 general patterns, 3x3 symmetric, Hermitian and skew-symmetric patterns x value type of the handle x storage x matching/other size/other type", NF, [](mc::Case &c) {
                 uint64_t k = c.idx;
                 const int t = k % 4, row = k / 4 % 2, var = k / 8 % 3, f = k / 24;
                 int sch, n, m;
                 uint64_t bits;
                 if (f < 16) sch = 0, n = m = 2, bits = f;
                 else if (f < 16 + 192) sch = 1 + (f - 16) / 64, n = m = 3, bits = (f - 16) % 64;
                 else sch = 0, n = f % 2 ? 2 : 3, m = f % 2 ? 3 : 2, bits = f - 208;
                 if (sch == 2 && (t < 2) != (var == 2)) {
                   c.skip("Hermitian files are complex");
                   return;
                 }
                 by_type(t, [&](auto *a) { file_case<API>(c, n, m, sch, bits, var, row); });
               }});
  static const int ns[] = {4, 7, 12, 20};
  const int NN = mc::thorough() ? 4 : 3;
  F.push_back({"apply", "20 structure classes x sizes x 40 parameter variations x value types x all operations, refinement counts, bounds and ranks", (uint64_t)NSTRUCT * NN * NPAR * 4, [=](mc::Case &c) {
                 uint64_t k = c.idx;
                 const int t = k % 4, var = k / 4 % NPAR, kind = k / 4 / NPAR % NSTRUCT, n = ns[k / 4 / NPAR / NSTRUCT];
                 by_type(t, [&](auto *a) { applications<API>(c, kind, n, var, (kind + var) % 2); });
               }});
  F.push_back({"apply-large", "20 structure classes of orders 48 and 90 x 8 (thorough: all) of 40 parameter variations x value types x all operations", (uint64_t)NSTRUCT * 2 * (mc::thorough() ? NPAR : 8) * 4, [=](mc::Case &c) {
                 uint64_t  k = c.idx;
                 const int t = k % 4, kind = k / 4 % NSTRUCT, n = k / 4 / NSTRUCT % 2 ? 90 : 48, v = k / 8 / NSTRUCT, var = mc::thorough() ? v : (v * 5 + kind) % NPAR;
                 by_type(t, [&](auto *a) { applications<API>(c, kind, n, var, (kind + var) % 2); });
               }});
  static const int crs[] = {4, 0, 1, 3, 6};
  const int depth = mc::thorough() ? 3 : 2;
  F.push_back({"sequences", "all sequences of 23 calls (setup, update, refactorize, with missing, malformed, empty and mismatched matrices) after 5 kinds of creation, every answer and all observers against the C++ object", (uint64_t)(4 * 5) * ipow(NC, depth), [=](mc::Case &c) {
                 uint64_t k = c.idx;
                 const int t = k % 4, cr = k / 4 % 5;
                 k /= 20;
                 std::vector<int> seq;
                 for (int d = 0; d < depth; ++d) seq.push_back(k % NC), k /= NC;
                 for (int s : seq)
                   if (s >= NCP && t % 2 == 0) return;
                 by_type(t, [&](auto *a) { sequence<API>(c, crs[cr], seq); });
               }});
  return mc::drive(argc, argv, F);
}
