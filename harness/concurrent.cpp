// P28: independent preconditioners used by concurrent threads do not interfere: no data race, and every thread gets what it
// gets alone, bit by bit. The input matrix may be shared.
#include "mc.hpp"
#include "sched.hpp"
#define HIF_THROW
// messages are formatted, but printed nowhere
#define HIF_STDOUT(m) (void)std::strlen(m)
#define HIF_STDERR(m) (void)std::strlen(m)
#include "hifir.hpp"
#include <cmath>
#include <complex>
typedef std::complex<double> cd;
typedef std::ptrdiff_t       P;
template <class T> static T num(int i, int j);
template <> double num<double>(int i, int j) { return ((i * 7 + j * 13) % 11 - 5) * 0.37 + 0.1 / (1 + i + j); }
template <> float  num<float>(int i, int j) { return (float)num<double>(i, j); }
template <> cd     num<cd>(int i, int j) { return cd(num<double>(i, j), num<double>(j, i + 1)); }
template <> std::complex<float> num<std::complex<float>>(int i, int j) { return std::complex<float>(num<cd>(i, j)); }
static const int NMAT = 5;
template <class Cs> static Cs matrix(int kind, bool herm) {
  typedef typename Cs::value_type T;
  const int n = kind == 0 ? 1 : kind == 1 ? 3 : kind == 2 ? 9 : kind == 3 ? 12 : 30;
  Cs S;
  S.resize(n, n);
  S.ind_start().resize(n + 1);
  S.ind_start()[0] = 0;
  std::vector<int> ix;
  std::vector<T>   vs;
  for (int i = 0; i < n; ++i) {
    for (int j = 0; j < n; ++j) {
      const bool on = i == j ? kind != 3 || i % 4 : kind == 4 ? std::abs(i - j) == 1 || std::abs(i - j) == 6 : kind == 3 ? i + j == n - 1 || std::abs(i - j) == 2 : (i + 2 * j) % 3 == 0 || (herm && (j + 2 * i) % 3 == 0);
      if (!on) continue;
      T v = herm ? (i <= j ? num<T>(i, j) : hif::conjugate(num<T>(j, i))) : num<T>(i, j);
      if (i == j) v = T(std::real(v) + (kind == 2 ? 0.01 : 4));
      ix.push_back(j), vs.push_back(v);
    }
    S.ind_start()[i + 1] = ix.size();
  }
  S.inds().resize(ix.size()), S.vals().resize(ix.size());
  std::copy(ix.begin(), ix.end(), S.inds().begin());
  std::copy(vs.begin(), vs.end(), S.vals().begin());
  return S;
}
struct Op {
  int conf, mat, type;  // configuration, matrix, value type
  bool filter;
};
static const int NCONF = 9;
static hif::Params conf(int k) {
  hif::Params o = hif::DEFAULT_PARAMS;
  o.verbose = hif::VERBOSE_NONE;
  o.dense_thres = 1;
  switch (k) {
    case 0: break;
    case 1: o.pivot = hif::PIVOTING_ON; break;
    case 2: o.pivot = hif::PIVOTING_OFF, o.no_pre = 1; break;
    case 3: o.is_symm = 1, o.threads = 1; break;
    case 4: o.tau_L = o.tau_U = 0.1, o.kappa = o.kappa_d = 1.5, o.threads = 3; break;
    case 5: o.reorder = 2, o.pre_scale = 1, o.alpha_L = o.alpha_U = 1, o.threads = 2; break;
    case 6: o.symm_pre_lvls = 0, o.rho = 1e9, o.kappa = o.kappa_d = 1.2; break;
    case 7: o.verbose = hif::VERBOSE_INFO | hif::VERBOSE_INFO2 | hif::VERBOSE_WARN; break;
    default: o.reorder = 1, o.rf_par = 0; break;
  }
  return o;
}
template <class V, class M> static void work(const Op &op, const hif::CRS<M, int, P> &A, std::vector<char> &out) {
  typedef hif::HIF<M, int> H;
  auto put = [&](const void *p, size_t n) { out.insert(out.end(), (const char *)p, (const char *)p + n); };
  H h;
  h.factorize(A, conf(op.conf));
  const size_t n = A.nrows();
  hif::Array<V> b(n), x(n);
  hif::Array<std::array<V, 2>> B(n), X(n);
  for (size_t i = 0; i < n; ++i) b[i] = num<V>(i, 1), B[i][0] = num<V>(i, 2), B[i][1] = num<V>(i, 3);
  if (op.filter) h.nsp.reset(new hif::NspFilter(0));
  h.solve(b, x), put(x.data(), n * sizeof(V));
  h.solve(b, x, true), put(x.data(), n * sizeof(V));
  h.mmultiply(b, x), put(x.data(), n * sizeof(V));
  h.mmultiply(b, x, true), put(x.data(), n * sizeof(V));
  h.hifir(A, b, 3, x), put(x.data(), n * sizeof(V));
  double beta[2] = {1e-10, 10};
  auto r = h.hifir(A, b, 4, beta, x);
  put(&r.first, sizeof r.first), put(x.data(), n * sizeof(V));
  if (!op.filter) h.solve_mrhs(B, X), put(X.data(), n * sizeof X[0]);
  size_t s[5] = {h.nnz(), h.levels(), h.rank(), h.schur_rank(), h.schur_size()};
  put(s, sizeof s);
  H g(std::move(h));
  g.factorize(A, conf((op.conf + 1) % 7));  // again
  if (!op.filter) g.solve(b, x), put(x.data(), n * sizeof(V));
  g.clear();
}
struct Inputs {
  hif::CRS<double, int, P> d;
  hif::CRS<float, int, P>  f;
  hif::CRS<cd, int, P>     z;
};
static void run(const Op &o, const Inputs &in, std::vector<char> &out) {
  if (o.type == 0) work<double>(o, in.d, out);
  else if (o.type == 1) work<double>(o, in.f, out);
  else work<cd>(o, in.z, out);
}
static Inputs inputs(const Op &o) {
  Inputs in;
  const bool h = o.conf == 3 || (o.conf + 1) % 7 == 3;
  if (o.type == 0) in.d = matrix<hif::CRS<double, int, P>>(o.mat, h);
  else if (o.type == 1) in.f = matrix<hif::CRS<float, int, P>>(o.mat, h);
  else in.z = matrix<hif::CRS<cd, int, P>>(o.mat, h);
  return in;
}
static void together(mc::Case &c, const std::vector<Op> &ops, bool share, int order, std::vector<std::pair<long, int>> pre = {}, long *steps = 0, std::vector<std::vector<char>> *known = 0) {
  std::vector<Inputs> in;
  for (auto &o : ops) in.push_back(inputs(o));
  std::vector<std::vector<char>> alone(ops.size()), out(ops.size());
  if (known && known->size()) alone = *known;
  std::string err[4];
  if (!known || known->empty())
  for (size_t i = 0; i < ops.size(); ++i) {
    Inputs own = inputs(ops[i]);
    sched::begin(sched::Plan());
    run(ops[i], own, alone[i]);
    sched::end();
  }
  if (known) *known = alone;
  sched::Plan p;
  p.order = {order}, p.preempt = pre;
  std::vector<std::function<void()>> f;
  for (size_t i = 0; i < ops.size(); ++i)
    f.push_back([&, i] {
      try {
        run(ops[i], in[share ? 0 : i], out[i]);
      } catch (const std::exception &e) {
        sched::ignore(true);
        err[i] = e.what();
        sched::ignore(false);
      }
    });
  sched::begin(p);
  sched::run_threads(f);
  sched::Report r = sched::end();
  if (steps) *steps = r.steps;
  c.transition(ops.size());
  c.validated();
  c.state(mc::hash_bytes(&r.steps, sizeof r.steps));
  if (r.error.size()) c.fail("%s", r.error.c_str());
  for (size_t i = 0; i < ops.size() && !c.nfail; ++i) {
    if (err[i].size()) c.fail("thread %zu: exception %.200s", i, err[i].c_str());
    else if (alone[i] != out[i]) c.fail("thread %zu gets other results than alone", i);
  }
}
int main(int argc, char **argv) {
  using mc::Family;
  const bool th = mc::thorough();
  std::vector<Family> F;
  F.push_back({"pairs", "two threads: all pairs of 9 configurations x 5 matrices x 3 value types (mixed precision included) x own or shared matrix x both orders", NCONF * NCONF * NMAT * 3 * 4, [=](mc::Case &c) {
                 uint64_t k = c.idx;
                 const int order = k % 2, share = k / 2 % 2;
                 k /= 4;
                 const int a = k % NCONF, b = k / NCONF % NCONF, m = k / NCONF / NCONF % NMAT, t = k / NCONF / NCONF / NMAT;
                 Op A{a, m, t, false}, B{b, share ? m : (m + 1) % NMAT, t, a == 2};
                 if (share && (a == 3 || b == 3 || a == 2 || b == 2)) B.conf = A.conf;  // the symmetric case has its own matrix
                 c.desc("configurations %d and %d, matrices %d and %d, type %d, %s matrix, order %d", A.conf, B.conf, A.mat, B.mat, t, share ? "shared" : "own", order);
                 together(c, {A, B}, share, order);
               }});
  F.push_back({"mixed", "three threads with different value types and configurations, all orders", NCONF * NMAT * 6 * 2, [=](mc::Case &c) {
                 const int k = c.idx / 6, a = k % NCONF, m = k / NCONF % NMAT, v = k / NCONF / NMAT;
                 std::vector<Op> o = {{a, m, 0, false}, {(a + 2) % NCONF, (m + 1) % NMAT, 1, v == 1}, {(a + 5) % NCONF, (m + 3) % NMAT, 2, false}};
                 c.desc("configuration %d, matrix %d, order %d", a, m, (int)(c.idx % 6));
                 together(c, o, false, c.idx % 6);
               }});
  F.push_back({"preempt", "two threads, 2 configurations on matrices of order 1 (thorough: 9, orders 1 and 3): all schedules with one preemption", NCONF * 2 * 64, [=](mc::Case &c) {
                 const int a = c.idx % NCONF, m = c.idx / NCONF % 2, part = c.idx / NCONF / 2;
                 if ((m || (a != 0 && a != 3)) && !th) return;
                 Op A{a, m, 0, false}, B{(a + 1) % NCONF, m, 0, false};
                 long n = 1;
                 std::vector<std::vector<char>> kn;
                 together(c, {A, B}, false, 0, {}, &n, &kn);
                 for (long k = 1 + part; k <= n && !c.nfail; k += 64) {
                   c.desc("configurations %d and %d, order %d, switch after access %ld of %ld", A.conf, B.conf, m, k, n);
                   together(c, {A, B}, false, 0, {{k, 1}}, 0, &kn);
                 }
               }});
  return mc::drive(argc, argv, F);
}
