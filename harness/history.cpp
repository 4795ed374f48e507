// P05 history independence: every sequence of operations (up to a depth) on one
// preconditioner object gives, step by step, what a fresh object gives.
#include "hx.hpp"
using namespace hx;

// Allocation faults: the fail_at-th allocation of an array fails (0: none)
static long n_alloc = 0, fail_at = 0;
void *operator new[](size_t n, const std::nothrow_t &) noexcept {
  if (++n_alloc == fail_at) return nullptr;
  return malloc(n ? n : 1);
}
void *operator new[](size_t n) {
  if (void *p = malloc(n ? n : 1)) return p;
  throw std::bad_alloc();
}
void operator delete[](void *p) noexcept { free(p); }
void operator delete[](void *p, size_t) noexcept { free(p); }

template <class T> struct World {
  typedef hif::HIF<T>      H;
  typedef hif::CRS<T, int> Crs;
  struct Sys {
    Mat<T>      A;
    hif::Params p;
    Crs         S;
    bool        good;
  };
  std::vector<Sys> sys;
  std::vector<long> bad_at;  // allocations whose failure makes the factorization of system FBAD fail
  World() {
    {  // multilevel, dropping on
      hif::Params p = base_params();
      multilevel(p);
      p.kappa = p.kappa_d = 1.5, p.rf_par = 0;
      p.tau_L = p.tau_U = 0.05;
      add(by_pattern<T>(5, 0x1b5e2d9, 0), p, true);
    }
    {  // sparse part only (diagonally dominant), larger
      hif::Params p = base_params();
      Mat<T>      A(7, 7);
      for (int i = 0; i < 7; ++i)
        for (int j = 0; j < 7; ++j)
          if (i == j) A(i, j) = Mk<T>::mk(8 + i, 1);
          else if ((i + 2 * j) % 3 == 0) A(i, j) = gen_val<T>(i, j, 1);
      add(A, p, true);
    }
    {  // tiny, all in the dense last level
      hif::Params p = base_params();
      p.pivot = 1, p.no_pre = 1;
      Mat<T> A(2, 2);
      A(0, 1) = T(2), A(1, 0) = T(-1), A(1, 1) = T(1e-3);
      add(A, p, true);
    }
    {  // Hermitian, multilevel
      hif::Params p = base_params();
      multilevel(p);
      p.is_symm = 1;
      p.kappa = p.kappa_d = 1.5, p.rf_par = 0;
      add(herm_pattern<T>(5, 0x296, 0), p, true);
    }
    {  // memory runs out when all but the last level(s) are finished: every array allocation in the last quarter is tried
      hif::Params p = base_params();
      multilevel(p);
      p.kappa = p.kappa_d = 1.5, p.rf_par = 0;
      add(by_pattern<T>(6, 0x3b5e2d9c7ull, 0), p, false);
      hif::HIF<T> M;
      n_alloc = 0;
      M.factorize(sys.back().S, p);
      const long tot = n_alloc;
      if (M.levels() < 2) throw std::logic_error("harness: the faulty system needs several levels");
      for (long k = tot; k > tot / 3 && bad_at.size() < 3; --k) {
        // in a child: an allocation that is not checked may crash
        fflush(stdout);
        pid_t pid = fork();
        if (!pid) {
          int         fd = open("/dev/null", O_WRONLY);
          dup2(fd, 1), dup2(fd, 2);
          for (int used = 0; used < 3; ++used) {
            hif::HIF<T> N;
            if (used == 1) N.factorize(sys.back().S, p);
            if (used == 2) N.factorize(sys[0].S, sys[0].p);
            n_alloc = 0, fail_at = k;
            bool rej = false;
            try {
              N.factorize(sys.back().S, p);
            } catch (const std::runtime_error &e) {
              rej = true;
            }
            fail_at = 0;
            if (!rej) _exit(0);
          }
          _exit(5);
        }
        int st = 0;
        waitpid(pid, &st, 0);
        const bool rejected = WIFEXITED(st) && WEXITSTATUS(st) == 5;
        if (rejected && (bad_at.empty() || k < bad_at.back() - 5)) bad_at.push_back(k);
      }
    }
    {  // invalid input: column index out of range
      hif::Params p = base_params();
      Mat<T>      A = by_pattern<T>(3, 511, 0);
      add(A, p, false);
      sys.back().S.col_ind()[2] = 7;
    }
  }
  void add(const Mat<T> &A, const hif::Params &p, bool good) {
    Sys s;
    s.A = A, s.p = p, s.good = good;
    s.S = to_cs<Crs>(A);
    if (good && gj(A, (Mat<T> *)nullptr) < A.n) throw std::logic_error("harness: singular system in the alphabet");
    sys.push_back(s);
  }
};

enum Op { F0, F1, F2, F3, FBAD, FINV, SOLVE, SOLVET, SOLVER, MRHS2, MRHS4, MULT, MULTT, IR, IRT, IRB, NSP, CLEAR, NOPS };
static const char *opname[] = {"factorize(multilevel5)", "factorize(sparse7)", "factorize(dense2)", "factorize(herm5)",
                               "factorize(out of memory on a late level)", "factorize(invalid)", "solve", "solve_tran", "solve(r=-1)",
                               "solve_mrhs<2>", "solve_mrhs<4>", "mmultiply", "mmultiply_tran", "hifir(N=3)",
                               "hifir_tran(N=3)", "hifir(N=5,betas)", "set_nsp", "clear"};

template <class T> static void result_of(const World<T> &W, hif::HIF<T> &M, int op, int cur, std::vector<T> &out, std::string &err) {
  out.clear();
  err.clear();
  typedef hif::Array<T> Arr;
  try {
    if (op <= FINV) {
      const auto &s = W.sys[op];
      if (op == FBAD && W.bad_at.empty()) {  // no such allocation: another rejected input instead
        M.factorize(W.sys[FINV].S, s.p);
        return;
      }
      if (op == FBAD) {
        n_alloc = 0, fail_at = W.bad_at.at(W.bad_at.size() / 2);
        struct Off { ~Off() { fail_at = 0; } } off;
        M.factorize(s.S, s.p);
        return;
      }
      M.factorize(s.S, s.p);
      out = {T(double(M.levels())), T(double(M.nnz())), T(double(M.rank())), T(double(M.schur_rank())), T(double(M.nrows()))};
      for (int i = 0; i < 6; ++i) out.push_back(T(double(M.stats(i))));
      return;
    }
    if (op == CLEAR) {
      M.clear();
      out.push_back(T(double(M.empty())));
      out.push_back(T(double(M.levels() + M.nnz() + M.rank())));
      return;
    }
    if (op == NSP) {
      M.nsp = std::make_shared<hif::NspFilter>();
      return;
    }
    const int n = cur >= 0 ? W.sys[cur].A.n : 3;
    Arr       b(n), x(n);
    for (int i = 0; i < n; ++i) b[i] = Mk<T>::mk(1.0 + i * 0.5, i % 2 ? -1.0 : 0.25), x[i] = Mk<T>::mk(99, 9);
    switch (op) {
      case SOLVE: M.solve(b, x); break;
      case SOLVET: M.solve(b, x, true); break;
      case SOLVER: M.solve(b, x, false, (size_t)-1); break;
      case MULT: M.mmultiply(b, x); break;
      case MULTT: M.mmultiply(b, x, true); break;
      case IR: M.hifir(W.sys[cur < 0 ? 0 : cur].S, b, 3, x); break;
      case IRT: M.hifir(W.sys[cur < 0 ? 0 : cur].S, b, 3, x, true); break;
      case IRB: {
        const double betas[2] = {1e-8, 1e3};
        auto         r        = M.hifir(W.sys[cur < 0 ? 0 : cur].S, b, 5, betas, x);
        out.push_back(T(double(r.first)));
        out.push_back(T(double(r.second)));
        break;
      }
      case MRHS2: {
        hif::Array<std::array<T, 2>> B(n), X(n);
        for (int i = 0; i < n; ++i) B[i] = {b[i], T(2) * b[n - 1 - i]};
        M.solve_mrhs(B, X);
        for (int i = 0; i < n; ++i)
          for (int k = 0; k < 2; ++k) out.push_back(X[i][k]);
        return;
      }
      case MRHS4: {
        hif::Array<std::array<T, 4>> B(n), X(n);
        for (int i = 0; i < n; ++i) B[i] = {b[i], T(2) * b[n - 1 - i], T(i), T(1)};
        M.solve_mrhs(B, X);
        for (int i = 0; i < n; ++i)
          for (int k = 0; k < 4; ++k) out.push_back(X[i][k]);
        return;
      }
    }
    for (int i = 0; i < n; ++i) out.push_back(x[i]);
    for (int i = 0; i < n; ++i)
      if (b[i] != Mk<T>::mk(1.0 + i * 0.5, i % 2 ? -1.0 : 0.25)) err = "right-hand side modified";
  } catch (const std::runtime_error &e) {
    err = "rejected";
  }
}

// model state: which system is factorized (-1: none), filter set or not
struct St {
  int  cur = -1;
  bool nsp = false;
};

template <class T> struct Ref {
  // expected[op][cur+1][nsp]
  std::map<std::vector<int>, std::pair<std::vector<T>, std::string>> memo;
  const World<T> &W;
  explicit Ref(const World<T> &w) : W(w) {}
  const std::pair<std::vector<T>, std::string> &get(int op, const St &s) {
    std::vector<int> k{op, s.cur, s.nsp};
    auto             it = memo.find(k);
    if (it != memo.end()) return it->second;
    hif::HIF<T>                            M;
    std::vector<T>                         o;
    std::string                            e;
    if (s.nsp) result_of(W, M, NSP, -1, o, e);
    if (s.cur >= 0) result_of(W, M, s.cur, -1, o, e);
    std::pair<std::vector<T>, std::string> r;
    result_of(W, M, op, s.cur, r.first, r.second);
    return memo[k] = r;
  }
};

template <class T> static void run_seq(mc::Case &c, int depth) {
  static World<T> W;
  static Ref<T>   R(W);
  uint64_t        idx = c.idx;
  std::vector<int> seq;
  for (int d = 0; d < depth; ++d) seq.push_back(idx % NOPS), idx /= NOPS;
  std::string s = is_cplx<T>::value ? "complex:" : "real:";
  for (int o : seq) s += std::string(" ") + opname[o] + ";";
  c.desc_s(s);
  hif::HIF<T>    M;
  St             st;
  std::vector<T> out;
  std::string    err;
  uint64_t       wk = 0;  // abstract workspace history: last op that touched it
  for (int d = 0; d < depth; ++d) {
    const int op = seq[d];
    auto &    ex = R.get(op, st);
    result_of(W, M, op, st.cur, out, err);
    c.transition();
    bool same = out.size() == ex.first.size() && err == ex.second;
    for (size_t i = 0; same && i < out.size(); ++i) {
      double dd = std::abs(out[i] - ex.first[i]);
      same      = dd <= 1e-11 * (1 + std::abs(ex.first[i]));
    }
    if (!same) {
      c.fail("step %d (%s) differs from the same call on a fresh object (fresh: %s%zu values, here: %s%zu values)", d + 1, opname[op],
             ex.second.c_str(), ex.first.size(), err.c_str(), out.size());
      return;
    }
    if (op <= FINV) {
      st.cur = W.sys[op].good ? op : -1;
      if (W.sys[op].good != err.empty()) {
        c.fail("factorize(%s) %s", opname[op], err.empty() ? "accepted an input it must reject" : "rejected a valid input");
        return;
      }
      if (!err.empty() && !M.empty()) c.fail("a rejected factorization leaves a non-empty preconditioner (%zu levels)", M.levels());
      wk = 0;
    } else if (op == CLEAR)
      st = St(), wk = 0;
    else if (op == NSP)
      st.nsp = true;
    else
      wk = wk * NOPS + op + 1;
    c.state(mc::mix(mc::mix(st.cur + 1, st.nsp), wk));
    c.outcome(mc::mix(op, mc::mix(st.cur + 1, out.empty() ? 0 : mc::hash_bytes(&out[0], out.size() * sizeof(T)))));
  }
  c.validated();
}

// two objects: copies, moves and swaps of preconditioners in between
enum POp { PF0, PF2, PF3, PFINV, PSOLVE, PMRHS4, PMULTT, PIR, PNSP, PCLEAR, NPER, PCOPY = 2 * NPER, PCOPYBACK, PMOVE, PSWAP, PTEMP, NPAIR };
static const int   pmap[NPER] = {F0, F2, F3, FINV, SOLVE, MRHS4, MULTT, IR, NSP, CLEAR};
static const char *pname[]    = {"K = M", "M = K", "K = move(M)", "swap(M, K)", "copy of M refactorized and destroyed"};
template <class T> static void run_pair(mc::Case &c, int depth) {
  static World<T> W;
  static Ref<T>   R(W);
  uint64_t        idx = c.idx;
  std::vector<int> seq;
  for (int d = 0; d < depth; ++d) seq.push_back(idx % NPAIR), idx /= NPAIR;
  std::string s = is_cplx<T>::value ? "complex:" : "real:";
  for (int o : seq) s += o >= PCOPY ? std::string(" ") + pname[o - PCOPY] + ";" : std::string(o < NPER ? " M." : " K.") + opname[pmap[o % NPER]] + ";";
  c.desc_s(s);
  hif::HIF<T>    M[2];
  St             st[2];
  std::vector<T> out;
  std::string    err;
  auto step = [&](int d, int w, int op) -> bool {
    auto &ex = R.get(op, st[w]);
    result_of(W, M[w], op, st[w].cur, out, err);
    c.transition();
    bool same = out.size() == ex.first.size() && err == ex.second;
    for (size_t i = 0; same && i < out.size(); ++i) same = std::abs(out[i] - ex.first[i]) <= 1e-11 * (1 + std::abs(ex.first[i]));
    if (!same) c.fail("step %d (%c.%s) differs from the same call on a fresh object (fresh: %s%zu values, here: %s%zu values)", d + 1, "MK"[w], opname[op], ex.second.c_str(), ex.first.size(), err.c_str(), out.size());
    return same;
  };
  for (int d = 0; d < depth; ++d) {
    const int o = seq[d];
    if (o >= PCOPY) {
      c.transition();
      switch (o) {
        case PCOPY: M[1] = M[0], st[1] = st[0]; break;
        case PCOPYBACK: M[0] = M[1], st[0] = st[1]; break;
        case PMOVE:
          M[1] = std::move(M[0]), st[1] = st[0], st[0] = St();
          if (!M[0].empty()) return c.fail("the preconditioner moved from in step %d is not empty", d + 1);
          break;
        case PSWAP: std::swap(M[0], M[1]), std::swap(st[0], st[1]); break;
        case PTEMP: {
          hif::HIF<T> C(M[0]);
          St          keep = st[1];
          std::swap(M[1], C), st[1] = st[0];
          bool ok = step(d, 1, F2);
          st[1].cur = F2;
          ok = ok && step(d, 1, SOLVE) && step(d, 1, IR);
          std::swap(M[1], C), st[1] = keep;
          if (!ok) return;
        }
      }
      continue;
    }
    const int w = o / NPER, op = pmap[o % NPER];
    if (!step(d, w, op)) return;
    if (op <= FINV) st[w].cur = W.sys[op].good ? op : -1;
    else if (op == CLEAR) st[w] = St();
    else if (op == NSP) st[w].nsp = true;
    c.state(mc::mix(mc::mix(mc::mix(st[0].cur + 1, st[0].nsp), mc::mix(st[1].cur + 1, st[1].nsp)), o));
  }
  // at the end both are what the model says
  for (int w = 0; w < 2; ++w)
    for (int op : {SOLVE, MRHS2, IRT, MULT})
      if (!step(depth, w, op)) return;
  c.outcome(mc::mix(mc::mix(st[0].cur + 1, st[0].nsp), mc::mix(st[1].cur + 1, st[1].nsp)));
  c.validated();
}

int main(int argc, char **argv) {
  std::vector<mc::Family> F;
  const int               D = mc::thorough() ? 5 : 4;
  F.push_back({"seq", "all operation sequences of the stated depth", ipow(NOPS, D), [=](mc::Case &c) { run_seq<double>(c, D); }});
  F.push_back({"cseq", "all operation sequences of the stated depth, complex", ipow(NOPS, D - 1 + mc::thorough()), [=](mc::Case &c) { run_seq<cd>(c, D - 1 + mc::thorough()); }});
  const int DP = mc::thorough() ? 5 : 4;
  F.push_back({"pair", "all programs of the stated depth on two objects, with copies, moves and swaps", ipow(NPAIR, DP), [=](mc::Case &c) { run_pair<double>(c, DP); }});
  F.push_back({"cpair", "the same, complex", ipow(NPAIR, DP - 1), [=](mc::Case &c) { run_pair<cd>(c, DP - 1); }});
  return mc::drive(argc, argv, F);
}
