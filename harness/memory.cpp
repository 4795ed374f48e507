// P29: running out of memory. Every request for memory that an operation makes is made to fail: alone, together with any
// one later request of the same operation, and together with all later ones. Whatever fails, the operation either still
// delivers its result or reports an error; nothing crashes or leaks, inputs stay as they are, files are closed, and the
// same objects give the same results as ever once memory is available again.
#ifdef PART_C
#  include <libhifir.cpp>
#endif
#include "spaces.hpp"
#include <new>
#include <fcntl.h>
#include <sys/mman.h>
#include <unistd.h>
using namespace hx;
#ifdef CPLX
typedef cd T;
#else
typedef double T;
#endif

// ---- the faulty allocator
extern "C" void *__real_malloc(size_t);
extern "C" void *__real_calloc(size_t, size_t);
extern "C" void *__real_realloc(void *, size_t);
extern "C" void  __real_free(void *);
namespace mem {
static long n = 0, f1 = 0, f2 = 0, from = 0, live = 0;
static bool on = false;
static inline bool fails() { return on && (++n, n == f1 || n == f2 || (from && n >= from)); }
static void *get(size_t s) {
  if (fails()) return nullptr;
  void *p = __real_malloc(s ? s : 1);
  if (p) ++live;
  return p;
}
static void put(void *p) {
  if (p) --live;
  __real_free(p);
}
// the blocks the library takes from malloc itself (what libc hands out, e.g. texts of a stack trace, is not among them)
static void *blocks[1024];
static void *note(void *p) {
  for (int i = 0; p && i < 1024; ++i)
    if (!blocks[i]) {
      blocks[i] = p, ++live;
      break;
    }
  return p;
}
static void forget(void *p) {
  for (int i = 0; p && i < 1024; ++i)
    if (blocks[i] == p) {
      blocks[i] = nullptr, --live;
      break;
    }
}
struct Armed {  // requests are counted (and fail) in the scope of this
  Armed() { on = true; }
  ~Armed() { on = false; }
};
}  // namespace mem
extern "C" {
void *__wrap_malloc(size_t s) { return mem::fails() ? nullptr : mem::on ? mem::note(__real_malloc(s)) : __real_malloc(s); }
void *__wrap_calloc(size_t k, size_t s) { return mem::fails() ? nullptr : mem::on ? mem::note(__real_calloc(k, s)) : __real_calloc(k, s); }
void *__wrap_realloc(void *q, size_t s) {
  if (mem::fails()) return nullptr;
  if (!mem::on) return __real_realloc(q, s);
  void *p = __real_realloc(q, s);
  if (p) mem::forget(q), mem::note(p);
  return p;
}
void __wrap_free(void *p) {
  mem::forget(p);
  __real_free(p);
}
}
void *operator new(size_t s) {
  if (void *p = mem::get(s)) return p;
  throw std::bad_alloc();
}
void *operator new[](size_t s) {
  if (void *p = mem::get(s)) return p;
  throw std::bad_alloc();
}
void *operator new(size_t s, const std::nothrow_t &) noexcept { return mem::get(s); }
void *operator new[](size_t s, const std::nothrow_t &) noexcept { return mem::get(s); }
void  operator delete(void *p) noexcept { mem::put(p); }
void  operator delete[](void *p) noexcept { mem::put(p); }
void  operator delete(void *p, size_t) noexcept { mem::put(p); }
void  operator delete[](void *p, size_t) noexcept { mem::put(p); }
void  operator delete(void *p, const std::nothrow_t &) noexcept { mem::put(p); }
void  operator delete[](void *p, const std::nothrow_t &) noexcept { mem::put(p); }

static int next_fd() {
  int f = dup(0);
  close(f);
  return f;
}
template <class V> static uint64_t dig(const V *p, size_t n) {
  uint64_t h = n;
  for (size_t i = 0; i < n * sizeof(V); ++i) h = h * 1099511628211ull ^ ((const unsigned char *)p)[i];
  return mc::mix(h, n);
}
template <class A> static uint64_t dig(const A &a) { return dig(a.data(), a.size()); }
template <class Cs> static uint64_t dig_cs(const Cs &a) {
  return mc::mix(mc::mix(dig(a.ind_start().data(), a.primary_size() + 1), dig(a.inds().data(), a.nnz())), mc::mix(dig(a.vals().data(), a.nnz()), a.nrows() * 64 + a.ncols()));
}

// the programs: Op::run performs operation number i (with failing requests; returns false if it reports an error by other
// means than an exception), result() gives its result afterwards, broken() says what is wrong after operation i failed
struct Prog {
  virtual ~Prog() {}
  virtual int         size() const          = 0;
  virtual const char *name(int i) const     = 0;
  virtual bool        run(int i)            = 0;
  virtual uint64_t    result(int i)         = 0;
  virtual std::string broken(int) { return ""; }
  virtual bool        again(int) const { return true; }  // whether operation i may be performed a second time
};
struct Out {
  int      how;  // 0: done, 1: exception, 2: other report, 3: foreign exception
  long     requests;
  uint64_t res;
};
static Out step(Prog &p, int i, long f1, long f2, long from) {
  mem::n = 0, mem::f1 = f1, mem::f2 = f2, mem::from = from;
  Out o{0, 0, 0};
  {
    mem::Armed a;
    try {
      if (!p.run(i)) o.how = 2;
    } catch (const std::exception &) { o.how = 1; } catch (...) {
      o.how = 3;
    }
  }
  o.requests = mem::n;
  if (!o.how) o.res = p.result(i);
  return o;
}
template <class Make> static void explore(mc::Case &c, Make make) {
  std::vector<Out> ref;
  const int        fd = next_fd();
  {
    std::unique_ptr<Prog> w(make());
    for (int i = 0; i < w->size(); ++i) {
      ref.push_back(step(*w, i, 0, 0, 0));
      if (ref.back().how) {
        c.skip("not applicable (an operation of the program reports an error by itself)");
        return;
      }
      c.outcome(ref.back().res);
    }
  }
  const int N = (int)ref.size();
  for (int i = 0; i < N; ++i)
    for (long k = 1; k <= ref[i].requests; ++k) {
      long later = 0;
      // j = 0: request k alone; j = -1: all from k on; j > 0: requests k and k + j
      for (long j = 0;; j = j == 0 ? -1 : j == -1 ? 1 : j + 1) {
        if (j > later) break;
        const long  l0 = mem::live;
        std::string what;
        int         how;
        {
          std::unique_ptr<Prog> w(make());
          auto                  bad = [&](int q, const Out &o, const char *when) {
            if (o.how) what = std::string(w->name(q)) + " fails " + when;
            else if (o.res != ref[q].res) what = std::string(w->name(q)) + " gives another result " + when;
            return what.size();
          };
          for (int q = 0; q < i && what.empty(); ++q) bad(q, step(*w, q, 0, 0, 0), "on repetition");
          if (what.empty()) {
            const Out o = step(*w, i, j < 0 ? 0 : k, j > 0 ? k + j : 0, j < 0 ? k : 0);
            how         = o.how;
            c.transition();
            if (j == 0) later = o.requests - k;
            if (o.how == 3) what = "something that is no std::exception is thrown";
            else if (!o.how && o.res != ref[i].res) what = "another result without an error";
            if (o.how && what.empty()) what = w->broken(i);
            if (o.how && what.empty() && w->again(i))
              for (int q = i; q < N && what.empty(); ++q) bad(q, step(*w, q, 0, 0, 0), "when memory is available again");
          }
        }
        if (what.empty() && mem::live != l0) what = std::to_string(mem::live - l0) + " blocks of memory are not freed";
        c.state(mc::mix(mc::mix(i, k), mc::mix(how, ref[i].res)));
        if (what.empty() && next_fd() != fd) what = "a file stays open";
        if (what.size()) {
          std::unique_ptr<Prog> w(make());
          c.fail("%s, request %ld of %ld for memory fails%s: %s", w->name(i), k, ref[i].requests, j < 0 ? " and all later ones" : j ? " and another one" : "", what.c_str());
          return;
        }
        c.validated();
      }
    }
}

// ---- the preconditioner object
template <class Cs, class V> struct HifProg : Prog {
  typedef typename Cs::value_type VT;
  const Cs &                      A;
  const hif::Params &             p, &p2;
  size_t                          m0;
  uint64_t                        in;
  std::unique_ptr<hif::HIF<T>>    M;
  hif::Array<V>                   b, x;
  hif::Array<std::array<V, 2>>    B, X;
  std::pair<size_t, int>          ir;
  uint64_t                        was = 0;  // what the first factorization gives
  HifProg(const Cs &A_, const hif::Params &p_, const hif::Params &q_, size_t m_) : A(A_), p(p_), p2(q_), m0(m_), in(dig_cs(A_)), b(A_.nrows()), x(A_.nrows()), B(A_.nrows()), X(A_.nrows()) {
    for (size_t i = 0; i < b.size(); ++i) b[i] = Mk<V>::mk(1 + i, i % 2), B[i][0] = b[i], B[i][1] = Mk<V>::mk(2 - (double)i, 1);
  }
  int         size() const { return 12; }
  const char *name(int i) const {
    static const char *s[] = {"construction", "factorization", "solve", "transposed solve", "multiplication", "transposed multiplication", "solve with two right-hand sides", "refinement", "refinement with bounds",
                              "factorization of other arrays on the used object", "solve after refactorization", "copy of the levels' matrices"};
    return s[i];
  }
  bool run(int i) {
    static const double be[2] = {1e-3, 1e3};
    switch (i) {
      case 0: M.reset(new hif::HIF<T>()); break;
      case 1: M->factorize(A, p, m0); break;
      case 2: M->solve(b, x); break;
      case 3: M->solve(b, x, true); break;
      case 4: M->mmultiply(b, x); break;
      case 5: M->mmultiply(b, x, true); break;
      case 6: M->solve_mrhs(B, X); break;
      case 7: M->hifir(A, b, 2, x, false, 0); break;
      case 8: ir = M->hifir(A, b, 3, be, x, true, 0); break;
      case 9: M->template factorize<Cs::ROW_MAJOR>(A.nrows(), A.ind_start().data(), A.inds().data(), A.vals().data(), p2); break;
      case 10: M->solve(b, x); break;
      case 11: {
        for (const auto &q : M->precs()) {
          typename hif::HIF<T>::prec_type r(q);
          (void)r;
        }
      }
    }
    return true;
  }
  uint64_t result(int i) {
    if (i == 0 || i == 11) return i;
    if (i == 1 || i == 9) return mc::mix(struct_hash(*M), mc::mix(M->rank(), mc::mix(M->nnz(), M->nrows())));
    if (i == 6) return dig(X.data(), X.size());
    if (i == 2) was = dig(x);
    return mc::mix(dig(x), i == 8 ? ir.first * 4 + ir.second : 0);
  }
  std::string broken(int i) {
    if (dig_cs(A) != in) return "the matrix has changed";
    for (size_t k = 0; k < b.size(); ++k)
      if (!(b[k] == Mk<V>::mk(1 + k, k % 2)) || !(B[k][0] == b[k])) return "the right-hand side has changed";
    if (i == 9 && !M->empty()) {  // refused at once: the old factorization is still there
      M->solve(b, x);
      return dig(x) == was ? "" : "the object is neither empty nor what it was";
    }
    if (i == 1 || i == 9) {
      if (!M->empty()) return "the object does not say that it is empty";
      try {
        M->solve(b, x);
      } catch (const std::exception &) { return ""; }
      return "an object without factorization solves";
    }
    return "";
  }
};
template <class Cs, class V> static void hif_case(mc::Case &c, const Mat<T> &A, hif::Params p, hif::Params p2, size_t m0, int base) {
  const int n = A.n;
  c.desc("%s %s base=%d m0=%zu A=%s %s", is_cplx<T>::value ? "complex" : "real", Cs::ROW_MAJOR ? "CRS" : "CCS", base, m0, n <= 6 ? show(A).c_str() : "(see family)", cfg_str(p).c_str());
  const Cs S = to_cs<Cs>(A, base, false);
  explore(c, [&] { return (Prog *)new HifProg<Cs, V>(S, p, p2, m0); });
}
// the refinement multiplies with the matrix as it is: base 1 only for the factorization
struct Base1 : Prog {
  hif::CRS<T, int>   A;
  const hif::Params &p;
  std::unique_ptr<hif::HIF<T>> M;
  Base1(const Mat<T> &m, const hif::Params &q) : A(to_cs<hif::CRS<T, int>>(m, 1, true)), p(q) {}
  int         size() const { return 2; }
  const char *name(int i) const { return i ? "factorization of a one-based matrix" : "construction"; }
  bool        run(int i) {
    if (!i) M.reset(new hif::HIF<T>());
    else M->factorize(A, p);
    return true;
  }
  uint64_t result(int i) { return i ? struct_hash(*M) : 0; }
  std::string broken(int i) { return i && !M->empty() ? "the object does not say that it is empty" : ""; }
};

// ---- containers, conversions, orderings, files, dense solvers
struct File {
  int         fd;
  std::string path;
  File() : fd(memfd_create("m", 0)), path("/proc/self/fd/" + std::to_string(fd)) {}
  ~File() { close(fd); }
  std::string get() const {
    std::string s(lseek(fd, 0, SEEK_END), 0);
    if (pread(fd, &s[0], s.size(), 0) < 0) s.clear();
    return s;
  }
};
struct DsProg : Prog {
  typedef hif::CRS<T, int> crs;
  typedef hif::CCS<T, int> ccs;
  const crs &              A;
  File                     f;
  crs                      R, R2, Up;
  ccs                      C, C2;
  hif::AugCRS<crs>         G;
  hif::AugCCS<ccs>         H;
  hif::DenseMatrix<T>      D;
  hif::Array<int>          a, p, pi;
  hif::Array<T>            v, w;
  hif::Array<typename real_of<T>::type> s, t;
  hif::Array<std::ptrdiff_t> pp;
  hif::BiPermMatrix<int>   P, Q;
  hif::SparseVector<T, int> sv;
  hif::QRCP<T>             qr;
  hif::LUP<T>              lu;
  hif::SYEIG<T>            ev;
  hif::NspFilter           nf;
  hif::Params              par;
  size_t                   m = 0;
  DsProg(const crs &A_) : A(A_), a(3), p(A_.nrows()), pi(A_.nrows()), v(A_.nrows()), w(A_.nrows()), par(base_params()) {
    for (int i = 0; i < 3; ++i) a[i] = i;
    for (int i = 0; i < (int)p.size(); ++i) p[i] = (int)p.size() - 1 - i, pi[p[i]] = i, v[i] = Mk<T>::mk(i + 1, 1);
  }
  int         size() const { return 34; }
  const char *name(int i) const {
    static const char *s[] = {"Array::push_back", "Array::resize", "Array::reserve", "copy of an array", "CRS to CCS", "CCS to CRS", "clone of a CRS", "Array::push_back of a range", "arrays of other types", "appending rows", "splitting",
                              "permutation", "leading block", "AugCRS::build_aug", "AugCCS::build_aug", "DenseMatrix::from_sparse", "DenseMatrix::resize", "writing a matrix", "reading a matrix by rows",
                              "reading a matrix by columns", "writing a vector", "reading a vector", "BiPermMatrix::resize", "SparseVector::resize", "minimum degree", "Cuthill-McKee", "matching", "QRCP", "LUP", "SYEIG", "Array with data", "minimum degree of unsorted columns", "minimum degree of a general pattern", "matching of the leading block"};
    return s[i];
  }
  bool run(int i) {
    const int n = (int)A.nrows();
    switch (i) {
      case 0: a.push_back(7); break;
      case 1: a.resize(40); break;
      case 2: a.reserve(90); break;
      case 3: {
        hif::Array<int> q(a, true), r(a);
        r.resize(200);
        r[0] = q[0];
        w = hif::Array<T>(v, true);
      } break;
      case 4: C = ccs(A); break;
      case 5: R = crs(C); break;
      case 6: R2 = crs(A, true); break;
      case 7: a.push_back(p.cbegin(), p.cend()); break;
      case 8: {
        hif::Array<std::complex<double>> z(A.vals());
        m = z.size() + hif::DenseMatrix<T>(n, n, T(2)).size();
      } break;
      case 9: {
        R2 = crs(n, n);
        R2.begin_assemble_rows();
        for (int k = 0; k < n; ++k)
          if (k % 3 == 1) R2.push_back_empty_row(k);
          else R2.push_back_row(k, A.col_ind_cbegin(k), A.col_ind_cend(k), hif::Array<T>(n, T(k + 1)));
        R2.end_assemble_rows();
      } break;
      case 10: R2 = A.template split<true>(n / 2), C2 = A.template split_ccs<false>(n / 2); break;
      case 11: R2 = A.compute_perm(p, pi, n), C2 = C.compute_perm(pi, p, n); break;
      case 12: R2 = A.extract_leading(n / 2), C2 = C.extract_leading(n / 2); break;
      case 13: G.build_aug(A, true); break;
      case 14: H.build_aug(C, true); break;
      case 15: D = hif::DenseMatrix<T>::from_sparse(A); break;
      case 16: D.resize(n + 3, n + 2); break;
      case 17: A.write_mm(f.path.c_str()); break;
      case 18: R2 = crs::from_mm(f.path.c_str()); break;
      case 19: C2.read_mm(f.path.c_str()); break;
      case 20: v.write_mm(f.path.c_str()); break;
      case 21: w = hif::Array<T>::from_mm(f.path.c_str()); break;
      case 22: P.resize(n), P.make_eye(), Q.resize(n), Q.make_eye(); break;
      case 23: sv.resize(n, n); break;
      case 24: pp = hif::run_amd<true>(C, par); break;
      case 25: {
        ccs B(C, true);  // given up by the call
        pp = hif::run_rcm(B, par);
      } break;
      case 26: m = hif::do_preprocessing<false>(C, A, n, 1, par, s, t, P, Q); break;
      case 27:
        qr.set_matrix(A), qr.factorize(par), std::copy(v.cbegin(), v.cend(), w.begin()), qr.solve(w);
        break;
      case 28:
        lu.set_matrix(A), lu.factorize(par), std::copy(v.cbegin(), v.cend(), w.begin()), lu.solve(w);
        break;
      case 29:
        ev.set_matrix(A), ev.factorize(par), std::copy(v.cbegin(), v.cend(), w.begin()), ev.solve(w);
        break;
      case 30: {
        hif::Array<T> q(n, v.data(), false);
        w = q;
      } break;
      case 31: {
        ccs B(C, true);
        for (int k = 0; k < n; ++k) std::reverse(B.row_ind_begin(k), B.row_ind_end(k));
        pp = hif::run_amd<false>(B, par);
      } break;
      case 32: pp = hif::run_amd<false>(C, par); break;
      case 33: m = hif::do_preprocessing<false>(C, A, (n + 1) / 2, 1, par, s, t, P, Q); break;
    }
    return true;
  }
  uint64_t result(int i) {
    switch (i) {
      case 0: case 1: case 2: return mc::mix(dig(a.data(), 4), a.size());
      case 7: return mc::mix(dig(a.data() + 40, a.size() - 40), a.size());
      case 4: return dig_cs(C);
      case 5: return dig_cs(R);
      case 6: case 9: case 18: return dig_cs(R2);
      case 19: return dig_cs(C2);
      case 10: case 11: case 12: return mc::mix(dig_cs(R2), dig_cs(C2));
      case 13: return mc::mix(dig_cs((const crs &)G), mc::mix(dig(G.val_pos()), dig(G.col_counts())));
      case 14: return mc::mix(dig_cs((const ccs &)H), mc::mix(dig(H.val_pos()), dig(H.row_counts())));
      case 15: return dig(D.array());
      case 16: return mc::mix(D.nrows(), D.ncols());
      case 17: case 20: { auto g = f.get(); return dig(g); }
      case 3: case 21: case 30: return dig(w);
      case 22: return P.size() * 2 + P.is_eye();
      case 23: return sv.size();
      case 24: case 25: case 31: case 32: return dig(pp);
      case 26: case 33: return mc::mix(m, mc::mix(mc::mix(dig(s), dig(t)), mc::mix(dig(&P[0], P.size()), dig(&Q[0], Q.size()))));
      case 27: return mc::mix(dig(w), qr.rank());
      case 28: return mc::mix(dig(w), lu.rank());
      case 29: return mc::mix(dig(w), ev.rank());
    }
    return m;
  }
  std::string broken(int i) {
    static const size_t sz[] = {3, 4, 40}, szp = 40;
    if (i < 3 || i == 7) {
      if (a.size() != (i == 7 ? szp : sz[i]) || a[0] != 0 || a[1] != 1 || a[2] != 2 || (i && a[3] != 7)) return "the array has lost or changed its entries";
    }
    return "";
  }
};

#ifdef PART_C
// ---- the C interface
struct CProg : Prog {
  const int                 n;
  std::vector<LhfIndPtr>    ip;
  std::vector<LhfInt>       ix;
  std::vector<T>            vx, b, x;
  std::vector<double>       par;
  File                      f;
  bool                      row;
#  ifdef CPLX
  typedef double _Complex C;
#    define API(f) lhfz##f
  LhfzMatrixHdl A = nullptr, R = nullptr;
  LhfzHifHdl    M = nullptr;
#  else
  typedef double C;
#    define API(f) lhfd##f
  LhfdMatrixHdl A = nullptr, R = nullptr;
  LhfdHifHdl    M = nullptr;
#  endif
  LhfStatus st = LHF_SUCCESS;
  size_t    stats[9];
  int       irs[2];
  CProg(const Mat<T> &m, const hif::Params &p, bool row_) : n(m.n), b(m.n), x(m.n), par(LHF_NUMBER_PARAMS), row(row_) {
    lhfSetDefaultParams(par.data());
    par[LHF_DROPTOL_L] = p.tau_L, par[LHF_DROPTOL_U] = p.tau_U, par[LHF_COND_D] = p.kappa_d, par[LHF_COND] = p.kappa, par[LHF_ALPHA_L] = p.alpha_L, par[LHF_ALPHA_U] = p.alpha_U, par[LHF_VERBOSE] = 0;
    par[LHF_REORDER] = p.reorder, par[LHF_SYMMPRELVLS] = p.symm_pre_lvls, par[LHF_THREADS] = 1, par[LHF_PIVOT] = p.pivot, par[LHF_ISSYMM] = p.is_symm, par[LHF_NOPRE] = p.no_pre, par[LHF_DENSE_THRES] = p.dense_thres;
    const Mat<T> q = row ? m : [&] {
      Mat<T> t(n, n);
      for (int i = 0; i < n; ++i)
        for (int j = 0; j < n; ++j) t(j, i) = m(i, j);
      return t;
    }();
    ip.push_back(0);
    for (int i = 0; i < n; ++i) {
      for (int j = 0; j < n; ++j)
        if (q(i, j) != T(0)) ix.push_back(j), vx.push_back(q(i, j));
      ip.push_back((LhfIndPtr)ix.size());
      b[i] = Mk<T>::mk(1 + i, i % 2);
    }
    to_cs<hif::CRS<T, int>>(m, 0, false).write_mm(f.path.c_str());
  }
  ~CProg() {
    API(Destroy)(M);
    API(DestroyMatrix)(A);
    API(DestroyMatrix)(R);
  }
  int         size() const { return 12; }
  const char *name(int i) const {
    static const char *s[] = {"CreateMatrix", "second CreateMatrix", "ReadSparse", "Create", "Apply solve", "Apply transposed multiplication", "Apply refinement", "Apply refinement with bounds", "Refactorize", "Solve", "Setup", "QueryMmFile"};
    return s[i];
  }
  bool     escaped = false;
  uint64_t was     = 0;
  bool run(int i) {
    try {
      return call(i);
    } catch (...) { escaped = true; }
    return false;
  }
  bool call(int i) {
    static const double be[2] = {1e-3, 1e3};
    st                        = LHF_SUCCESS;
    switch (i) {
      case 0: return (A = API(CreateMatrix)(row, n, ip.data(), ix.data(), (const C *)vx.data())) != nullptr;
      case 1: return (R = API(CreateMatrix)(row, n, ip.data(), ix.data(), (const C *)vx.data())) != nullptr;
      case 2: st = API(ReadSparse)(f.path.c_str(), R); break;
      case 3: return (M = API(Create)(A, nullptr, par.data())) != nullptr;
      case 4: st = API(Apply)(M, LHF_S, (const C *)b.data(), 0, nullptr, LHF_DEFAULT_RANK, (C *)x.data(), nullptr); break;
      case 5: st = API(Apply)(M, LHF_MH, (const C *)b.data(), 0, nullptr, LHF_DEFAULT_RANK, (C *)x.data(), nullptr); break;
      case 6: st = API(Apply)(M, LHF_SH, (const C *)b.data(), 3, nullptr, LHF_DEFAULT_RANK, (C *)x.data(), nullptr); break;
      case 7: st = API(Apply)(M, LHF_S, (const C *)b.data(), 3, be, LHF_DEFAULT_RANK, (C *)x.data(), irs); break;
      case 8: st = API(Refactorize)(M, R, par.data()); break;
      case 9: st = API(Solve)(M, (const C *)b.data(), (C *)x.data()); break;
      case 10: st = API(Setup)(M, R, A, par.data()); break;
      case 11: {
        int a, r;
        st = lhfQueryMmFile(f.path.c_str(), &a, &r, stats, stats + 1, stats + 2);
      }
    }
    return st == LHF_SUCCESS;
  }
  uint64_t result(int i) {
    if (i == 2) return dig(vx.data(), vx.size());
    if (i == 3 || i == 8 || i == 10) {
      API(GetStats)(M, stats);
      return mc::mix(dig(stats, 9), API(GetSchurRank)(M));
    }
    if (i == 11) return dig(stats, 3);
    if (i == 4) was = dig(x.data(), n);
    return i < 4 ? i : mc::mix(dig(x.data(), n), i == 7 ? irs[0] * 4 + irs[1] : 0);
  }
  std::string broken(int i) {
    if (escaped) return "an exception leaves the C interface";
    const bool mk = i < 2 || i == 3;
    if (!mk && st != LHF_HIFIR_ERROR) return "status " + std::to_string(st) + " instead of an error";
    if (!mk && !lhfGetErrorMsg()) return "no message";
    if (i == 8 || i == 10) {
      if (API(Solve)(M, (const C *)b.data(), (C *)x.data()) == LHF_SUCCESS)  // refused at once: the old factorization is still there
        return dig(x.data(), n) == was ? "" : "an object without factorization solves";
      lhfGetErrorMsg();
    }
    return "";
  }
};
#endif

int main(int argc, char **argv) {
  using mc::Family;
  const bool          th = mc::thorough();
  std::vector<Family> F;
#ifdef PART_C
  {  // the room for the last two messages is kept for good
    LhfdMatrixHdl m = lhfdCreateMatrix(1, 0, nullptr, nullptr, nullptr);
    for (int i = 0; i < 2; ++i) lhfdReadSparse(("/nonexistent/" + std::string(400, 'x')).c_str(), m), lhfGetErrorMsg();
    lhfdDestroyMatrix(m);
  }
#endif
  static std::vector<hif::Params> cf = configs_drop(2);
  auto ex = configs_exact(1);
  cf.insert(cf.end(), ex.begin(), ex.end());
  const int NC = (int)cf.size();
#ifdef PART_C
  F.push_back({"c", "C interface: structure classes x sizes x configurations", (uint64_t)(th ? NSTRUCT * 3 * 8 : NSTRUCT * (is_cplx<T>::value ? 1 : 2)), [=](mc::Case &c) {
                 static const int ns[] = {3, 8, 12};
                 const int        kind = c.idx % NSTRUCT, n = ns[c.idx / NSTRUCT % 3];
                 const auto       p    = cf[(c.idx * 7 + c.idx / NSTRUCT) % NC];
                 Mat<T>           A    = structured<T>(kind, n);
                 c.desc("%s class %d n=%d %s", is_cplx<T>::value ? "complex" : "real", kind, n, cfg_str(p).c_str());
                 explore(c, [&] { return (Prog *)new CProg(A, p, c.idx % 2); });
               }});
#else
  F.push_back({"object", "structure classes x sizes x configurations x storage", (uint64_t)(th ? NSTRUCT * 4 * 12 : NSTRUCT * (is_cplx<T>::value ? 2 : 3)), [=](mc::Case &c) {
                 static const int ns[] = {3, 8, 12, 20};
                 const int        kind = c.idx % NSTRUCT, n = ns[c.idx / NSTRUCT % (th ? 4 : is_cplx<T>::value ? 2 : 3)];
                 const size_t     k    = c.idx * 5 + c.idx / NSTRUCT;
                 Mat<T>           A    = structured<T>(kind, n);
                 if (c.idx % 2) hif_case<hif::CRS<T, int>, T>(c, A, cf[k % NC], cf[(k * 3 + 1) % NC], 0, 0);
                 else hif_case<hif::CCS<T, int>, T>(c, A, cf[k % NC], cf[(k * 3 + 1) % NC], 0, 0);
               }});
  F.push_back({"symmetric", "Hermitian structure classes in symmetric mode and with symmetric leading blocks", (uint64_t)(th ? NSTRUCT * 12 : NSTRUCT * (is_cplx<T>::value ? 1 : 2)), [=](mc::Case &c) {
                 const int kind = c.idx % NSTRUCT, n = c.idx / NSTRUCT % 2 ? 12 : 5;
                 auto      p = cf[(c.idx * 3 + c.idx / NSTRUCT) % NC], p2 = p;
                 p.is_symm  = 1;
                 p2.is_symm = c.idx % 2;
                 const Mat<T> A = hermitize(structured<T>(kind, n));
                 hif_case<hif::CRS<T, int>, T>(c, A, p, p2, c.idx % 3 == 0 ? n / 2 : 0, 0);
               }});
  F.push_back({"types", "single-precision and 64-bit matrices, converted on the way", (uint64_t)NSTRUCT * 2, [=](mc::Case &c) {
                 typedef typename std::conditional<is_cplx<T>::value, std::complex<float>, float>::type S;
                 const Mat<T> A = structured<T>(c.idx / 2, 6);
                 const auto & p = cf[c.idx * 3 % NC];
                 if (c.idx % 2) hif_case<hif::CRS<S, int>, T>(c, A, p, p, 0, 0);
                 else hif_case<hif::CCS<T, long>, T>(c, A, p, p, 0, 0);
               }});
  F.push_back({"onebased", "one-based matrices", (uint64_t)NSTRUCT, [=](mc::Case &c) {
                 const Mat<T> A = structured<T>(c.idx, 7);
                 c.desc("one-based class %d", (int)c.idx);
                 const auto p = cf[c.idx * 11 % NC];
                 explore(c, [&] { return (Prog *)new Base1(A, p); });
               }});
  F.push_back({"tools", "containers, conversions, orderings, files and dense solvers on every structure class", (uint64_t)NSTRUCT * (th ? 4 : 2), [=](mc::Case &c) {
                 static const int ns[] = {4, 9, 2, 16};
                 const int        kind = c.idx % NSTRUCT, n = ns[c.idx / NSTRUCT];
                 const auto       A = to_cs<hif::CRS<T, int>>(hermitize(structured<T>(kind, n)), 0, false);
                 c.desc("tools class %d n=%d", kind, n);
                 explore(c, [&] { return (Prog *)new DsProg(A); });
               }});
#endif
  for (auto &f : F) f.timeout = 200;
  return mc::drive(argc, argv, F);
}
