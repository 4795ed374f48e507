// P11: the null-space filter removes exactly the component it is set to remove, from exactly the results it is attached to.
#include "spaces.hpp"
using namespace hx;

// the type letter of complex types is not specified ("for now" the letter of the real type in the code, BLAS letters in the text)
template <class T> static bool sig_ok(char s) {
  return sizeof(typename real_of<T>::type) == 8 ? s == 'd' || (is_cplx<T>::value && s == 'z') : s == 's' || (is_cplx<T>::value && s == 'c');
}
// ---- the filter object: operation sequences against a model ----
struct UserOr : hif::NspFilter {
  UserOr() { _type = USER_OR; }
  mutable char   sig = 0;
  mutable size_t n   = 0;
  void           user_filter(void *x, const std::size_t nn, const char s) const override {
    sig = s, n = nn;
    if (s == 'd' && nn) ((double *)x)[0] = -11;
  }
};

template <class T> static std::vector<T> vec(int n) {
  std::vector<T> v(n);
  for (int i = 0; i < n; ++i) v[i] = Mk<typename std::conditional<is_cplx<T>::value, T, typename real_of<T>::type>::type>::mk(1.5 * i - 2 + (i % 2), i - 0.5);
  return v;
}
template <class T> static char sig_of();
template <> char sig_of<double>() { return 'd'; }
template <> char sig_of<float>() { return 's'; }
template <> char sig_of<cd>() { return 'z'; }
template <> char sig_of<cf>() { return 'c'; }

template <class T> static void run_range(mc::Case &c, int n, size_t s, size_t e, bool ctor) {
  c.desc("type %c n=%d start=%ld end=%ld via %s", sig_of<T>(), n, (long)s, (long)e, ctor ? "constructor" : "set_nsp_const");
  hif::NspFilter f = ctor ? hif::NspFilter(s, e) : hif::NspFilter(hif::NspFilter::user_cb_type([](void *, size_t, char) { throw std::logic_error("harness: stale callback"); }));
  if (!ctor) f.set_nsp_const(s, e);
  std::vector<T> v = vec<T>(n), w = v;
  w.push_back(T(77));
  bool rej = false;
  try {
    f.filter(w.data(), n);
  } catch (const std::runtime_error &) {
    rej = true;
  }
  c.transition();
  const bool open = e == (size_t)-1;
  if (!open && e < s) {  // a reversed range: refused or taken as open, but never anything else
    if (rej) {
      c.outcome(1);
      return;
    }
  }
  const size_t ee   = open || e < s ? n : e;
  const bool   bad  = s > ee || ee > (size_t)n;
  if (bad != rej) {
    c.fail("range [%zu,%zu) of a vector of length %d is %s", s, ee, n, rej ? "rejected" : "accepted");
    return;
  }
  if (w[n] != T(77)) c.fail("writes past the end");
  if (bad) {
    for (int i = 0; i < n; ++i)
      if (w[i] != v[i]) c.fail("a rejected range changes the vector");
    return;
  }
  T sum(0);
  for (size_t i = s; i < ee; ++i) sum += v[i];
  for (size_t i = 0; i < (size_t)n; ++i) {
    T ex = i >= s && i < ee ? v[i] - sum / T(double(ee - s)) : v[i];
    if (!(std::abs(w[i] - ex) <= 1e-5 * (sizeof(typename real_of<T>::type) == 8 ? 1e-8 : 1) * (1 + n))) {
      std::ostringstream o;
      o << "entry " << i << " becomes " << w[i] << " instead of " << ex;
      c.fail("%s", o.str().c_str());
      return;
    }
  }
  c.validated();
}

// setter sequences: 0 const(0,-1) 1 const(1,3) 2 callback A 3 callback B 4 empty callback (rejected) 5 copy+assign 6 move
enum { NSET = 7 };
static void run_set(mc::Case &c, int depth) {
  uint64_t        i = c.idx;
  int             mode = 0;  // model: 0 whole, 1 [1,3), 2 A, 3 B
  hif::NspFilter  f;
  std::string     d;
  auto            cb = [](double add) { return hif::NspFilter::user_cb_type([add](void *x, size_t n, char s) { if (s != 'd') throw std::logic_error("harness: signature"); for (size_t k = 0; k < n; ++k) ((double *)x)[k] += add; }); };
  for (int k = 0; k < depth; ++k, i /= NSET) {
    int op = i % NSET;
    static const char *nm[] = {"const();", "const(1,3);", "callback A;", "callback B;", "empty callback;", "copy;", "move;"};
    d += nm[op];
    c.desc_s(d);
    switch (op) {
      case 0: f.set_nsp_const(); mode = 0; break;
      case 1: f.set_nsp_const(1, 3); mode = 1; break;
      case 2: f.set_nsp_callback(cb(10)); mode = 2; break;
      case 3: f.set_nsp_callback(cb(-7)); mode = 3; break;
      case 4: {
        bool rej = false;
        try {
          f.set_nsp_callback(hif::NspFilter::user_cb_type());
        } catch (const std::runtime_error &) {
          rej = true;
        }
        if (!rej) c.fail("an empty callback is accepted");
        break;
      }
      case 5: {
        hif::NspFilter g(f);
        f.set_nsp_const(2, 2);
        f = g;
        break;
      }
      case 6: {
        hif::NspFilter g(std::move(f));
        f = hif::NspFilter();
        f = std::move(g);
        break;
      }
    }
    c.transition();
    c.state(mode * 8 + op);
    const int want = mode < 2 ? hif::NspFilter::CONSTANT : hif::NspFilter::USER_CB;
    if ((int)f != want) {
      c.fail("after %s the filter type is %d instead of %d", d.c_str(), (int)f, want);
      return;
    }
    std::vector<double> v = {1, 2, 4, 8}, w = v;
    try {
      f.filter(w.data(), 4);
    } catch (const std::runtime_error &e) {
      c.fail("after %s filtering fails: %s", d.c_str(), e.what());
      return;
    }
    for (int j = 0; j < 4; ++j) {
      double ex = mode == 0 ? v[j] - 3.75 : mode == 1 ? (j == 1 || j == 2 ? v[j] - 3 : v[j]) : v[j] + (mode == 2 ? 10 : -7);
      if (w[j] != ex) {
        c.fail("after %s entry %d becomes %g instead of %g", d.c_str(), j, w[j], ex);
        return;
      }
    }
  }
  c.validated();
}

// ---- attached to a preconditioner ----
// filters: 0 none, 1 whole, 2 [1,n-1), 3 callback (scaled projection), 4 overridden
template <class T> struct Fil {
  hif::NspFilterPtr p;
  Mat<T>            P;  // as a matrix
};
template <class T> struct OrF : hif::NspFilter {
  OrF() { _type = USER_OR; }
  void user_filter(void *x, const std::size_t n, const char s) const override {
    if (!sig_ok<T>(s)) throw std::logic_error("harness: signature");
    T *v = (T *)x;
    for (size_t i = 0; i + 1 < n; ++i) v[i] -= v[n - 1];
  }
};
template <class T> static Fil<T> mk_filter(int k, int n) {
  Fil<T> f;
  f.P = eye<T>(n);
  if (k == 1 || k == 2) {
    size_t s = k == 1 ? 0 : 1, e = k == 1 ? n : n - 1;
    f.p = k == 1 ? hif::create_nsp_filter() : std::make_shared<hif::NspFilter>(s, e);
    for (size_t i = s; i < e; ++i)
      for (size_t j = s; j < e; ++j) f.P(i, j) -= T(1) / T(double(e - s));
  } else if (k == 3) {
    f.p = std::make_shared<hif::NspFilter>(hif::NspFilter::user_cb_type([](void *x, const std::size_t n, const char s) {
      if (!sig_ok<T>(s)) throw std::logic_error("harness: signature");
      T *v = (T *)x;
      v[0] = T(0);
      for (size_t i = 1; i < n; ++i) v[i] *= T(0.5);
    }));
    for (int i = 0; i < n; ++i) f.P(i, i) = T(i ? 0.5 : 0);
  } else if (k == 4) {
    f.p = std::make_shared<OrF<T>>();
    for (int i = 0; i + 1 < n; ++i) f.P(i, n - 1) -= T(1);
  }
  return f;
}
template <class T> static void run_hif(mc::Case &c, const Mat<T> &A, hif::Params p, int fr, int fl) {
  const int n = A.n;
  c.desc("%s A=%s filter %d, transposed filter %d, %s", is_cplx<T>::value ? "complex" : "real", n <= 6 ? show(A).c_str() : "(see family)", fr, fl, cfg_str(p).c_str());
  auto        S = to_cs<hif::CRS<T, int>>(A);
  hif::HIF<T> M;
  M.factorize(S, p);
  c.state(struct_hash(M));
  Mat<T> X[2] = {solve_op<T>(M, n, false), solve_op<T>(M, n, true)}, Y[2] = {mult_op<T>(M, n, false), mult_op<T>(M, n, true)};
  auto   R = mk_filter<T>(fr, n), L = mk_filter<T>(fl, n);
  M.nsp = R.p, M.nsp_tran = L.p;
  if (!finite(X[0]) || !finite(X[1]) || nrm(X[0]) * nrm(A) > 1e8) {
    c.skip("ill-conditioned");
    return;
  }
  for (int tr = 0; tr < 2; ++tr) {
    const Mat<T> &P = tr ? L.P : R.P;
    Mat<T>        Z = solve_op<T>(M, n, tr), E = mul(P, X[tr]);
    c.transition(n);
    if (!(diff(Z, E) <= 1e-12 * (1 + nrm(X[tr])) * n)) c.fail("%ssolve is not the filter applied to the unfiltered solve: difference %g", tr ? "transposed " : "", diff(Z, E));
    if (!(mult_op<T>(M, n, tr) == Y[tr])) c.fail("%smultiplication is changed by a filter", tr ? "transposed " : "");
    // refinement filters every correction: x <- x + P S (b - op(A) x)
    Mat<T>        OA = tr ? adj(A) : A;
    hif::Array<T> b(n), x(n);
    Mat<T>        bm(n, 1), xm(n, 1);
    for (int i = 0; i < n; ++i) b[i] = bm(i, 0) = Mk<T>::mk(1 - 0.5 * i, i % 3);
    double mx = 1;
    for (int k = 0; k < 3; ++k) {
      Mat<T> r = mul(OA, xm);
      for (int i = 0; i < n; ++i) r(i, 0) = bm(i, 0) - r(i, 0);
      Mat<T> d = mul(E, r);
      for (int i = 0; i < n; ++i) xm(i, 0) += d(i, 0);
      mx = std::max(mx, nrm(xm) + nrm(r));
    }
    const double tol = 1e-13 * n * n * mx * (1 + nrm(X[tr]) * (1 + nrm(A))) * (1 + nrm(X[tr]) * nrm(A) * n);
    if (tol > 1e-3) {
      c.skip("rounding bound too large");
      continue;
    }
    const double be[] = {0.0, 1e300};
    for (int v = 0; v < 2; ++v) {
      v ? (void)M.hifir(S, b, 3, be, x, tr, 0) : M.hifir(S, b, 3, x, tr, 0);
      c.transition();
      for (int i = 0; i < n; ++i)
        if (!(std::abs(x[i] - xm(i, 0)) <= tol)) {
          c.fail("%srefinement%s with a filter: entry %d differs by %g (tol %g)", tr ? "transposed " : "", v ? " with bounds" : "", i, (double)std::abs(x[i] - xm(i, 0)), tol);
          return;
        }
    }
  }
  // several right-hand sides: refused while a filter is attached
  hif::Array<std::array<T, 2>> B(n), Xm(n);
  for (int i = 0; i < n; ++i) B[i] = {T(1), T(i)};
  bool rej = false;
  try {
    M.solve_mrhs(B, Xm);
  } catch (const std::runtime_error &) {
    rej = true;
  }
  if (rej != (fr != 0)) c.fail("solving for several right-hand sides is %s with filter %d", rej ? "rejected" : "accepted", fr);
  // detach
  M.nsp.reset(), M.nsp_tran.reset();
  if (!(solve_op<T>(M, n, false) == X[0]) || !(solve_op<T>(M, n, true) == X[1])) c.fail("detaching the filter does not restore the solve");
  // a refactorization keeps the filter, clear() drops it
  M.nsp = R.p, M.nsp_tran = L.p;
  M.factorize(S, p);
  if (M.nsp != R.p || M.nsp_tran != L.p) c.fail("a refactorization changes the attached filters");
  M.clear();
  if (M.nsp || M.nsp_tran) c.fail("clear() keeps a filter");
  c.validated();
}

// an object of a derived class that asks for its own routine without having one refuses, and leaves the vector alone
struct UserNone : hif::NspFilter {
  UserNone() { _type = USER_OR; }
};
template <class T> static void run_none(mc::Case &c, int n) {
  c.desc("derived class without a routine, type %c, length %d", sig_of<T>(), n);
  UserNone       f;
  std::vector<T> v = vec<T>(n), w = v;
  bool           rej = false;
  try {
    f.filter(v.data(), n);
  } catch (const std::runtime_error &) {
    rej = true;
  }
  c.transition();
  if (!rej) return c.fail("a missing user routine goes unnoticed");
  if (v != w) return c.fail("a missing user routine changes the vector");
  f.set_nsp_const(0, n);
  f.filter(v.data(), n);
  T s = 0;
  for (auto &x : v) s += x;
  if (!(std::abs(s) <= 1e-4 * n)) return c.fail("set to the constant mode afterwards, the mean is not removed");
  c.validated();
}
int main(int argc, char **argv) {
  using mc::Family;
  std::vector<Family> F;
  const int           NM = 6;
  F.push_back({"no routine", "derived class without a routine: 4 value types x lengths 1 to 9", 4 * 9, [](mc::Case &c) {
                 const int n = 1 + c.idx / 4;
                 switch (c.idx % 4) {
                   case 0: return run_none<double>(c, n);
                   case 1: return run_none<float>(c, n);
                   case 2: return run_none<cd>(c, n);
                   default: return run_none<cf>(c, n);
                 }
               }});
  F.push_back({"range", "constant ranges: 4 types x lengths 0..5 x all starts 0..7 x all ends (0..7, open) x 2 ways to set", 4 * NM * 8 * 9 * 2, [](mc::Case &c) {
                 uint64_t i = c.idx;
                 int      t = i % 4;
                 i /= 4;
                 int n = i % NM;
                 i /= NM;
                 size_t s = i % 8;
                 i /= 8;
                 size_t e = i % 9 == 8 ? (size_t)-1 : i % 9;
                 i /= 9;
                 if (t == 0) run_range<double>(c, n, s, e, i);
                 else if (t == 1) run_range<float>(c, n, s, e, i);
                 else if (t == 2) run_range<cd>(c, n, s, e, i);
                 else run_range<cf>(c, n, s, e, i);
               }});
  const int D = mc::thorough() ? 6 : 4;
  F.push_back({"longrange", "constant ranges of vectors of length {16,17,33,64,70,130,257}: 4 types x 7 starts x 7 ends (and open) x 2 ways to set", 4 * 7 * 7 * 8 * 2, [](mc::Case &c) {
                 static const int ln[] = {16, 17, 33, 64, 70, 130, 257};
                 const int        t = c.idx % 4, n = ln[c.idx / 4 % 7], si = c.idx / 28 % 7, ei = c.idx / 196 % 8;
                 auto             pos = [&](int k) -> size_t { return k == 0 ? 0 : k == 1 ? 1 : k == 2 ? n / 3 : k == 3 ? n / 2 : k == 4 ? n - 9 : k == 5 ? n - 1 : n; };
                 const size_t     s = pos(si), e = ei == 7 ? (size_t)-1 : pos(ei);
                 const bool       w = c.idx / 1568;
                 if (t == 0) run_range<double>(c, n, s, e, w);
                 else if (t == 1) run_range<float>(c, n, s, e, w);
                 else if (t == 2) run_range<cd>(c, n, s, e, w);
                 else run_range<cf>(c, n, s, e, w);
               }});
  F.push_back({"set", "all sequences of 7 setters/copies", ipow(NSET, D), [=](mc::Case &c) { run_set(c, D); }});
  F.push_back({"or", "overridden filter: type signature and length", 4, [](mc::Case &c) {
                 UserOr f;
                 double d[3] = {1, 2, 3};
                 float  s[2] = {1, 2};
                 cd     z[4];
                 cf     q[5];
                 if (c.idx == 0) { f.filter(d, 3); if (f.sig != 'd' || f.n != 3 || d[0] != -11) c.fail("double: %c %zu", f.sig, f.n); }
                 if (c.idx == 1) { f.filter(s, 2); if (f.sig != 's' || f.n != 2) c.fail("float: %c %zu", f.sig, f.n); }
                 if (c.idx == 2) { f.filter(z, 4); if (!sig_ok<cd>(f.sig) || f.n != 4) c.fail("complex double: %c %zu", f.sig, f.n); }
                 if (c.idx == 3) { f.filter(q, 5); if (!sig_ok<cf>(f.sig) || f.n != 5) c.fail("complex float: %c %zu", f.sig, f.n); }
                 c.validated();
               }});
  auto c1 = configs_drop(1);
  auto e0 = configs_exact(0);
  c1.insert(c1.end(), e0.begin(), e0.end());
  const int rot = mc::thorough() ? 1 : 5;
  F.push_back({"hif3", "all 3x3 patterns x 25 filter pairs x real/complex", 512 * 25 * 2, [=](mc::Case &c) {
                 uint64_t i = c.idx / 2;
                 int      fr = i % 5, fl = i / 5 % 5;
                 for (size_t k = 0; k < c1.size(); ++k) {
                   if ((k + c.idx + i / 25) % (rot * 12)) continue;
                   if (c.idx % 2) run_hif(c, by_pattern<cd>(3, i / 25, 0), c1[k], fr, fl);
                   else run_hif(c, by_pattern<double>(3, i / 25, 0), c1[k], fr, fl);
                   if (c.nfail) return;
                 }
               }});
  static const int ns[] = {5, 12, 70};
  F.push_back({"struct", "20 structure classes x sizes {5,12,70} x 25 filter pairs x real/complex", NSTRUCT * 3 * 25 * 2, [=](mc::Case &c) {
                 uint64_t i = c.idx / 2;
                 int      kind = i % NSTRUCT, n = ns[i / NSTRUCT % 3], f = i / NSTRUCT / 3;
                 for (size_t k = 0; k < c1.size(); ++k) {
                   if ((k + i) % (rot * (n > 12 ? 12 : 2))) continue;
                   if (c.idx % 2) run_hif(c, structured<cd>(kind, n), c1[k], f % 5, f / 5);
                   else run_hif(c, structured<double>(kind, n), c1[k], f % 5, f / 5);
                   if (c.nfail) return;
                 }
               }});
  return mc::drive(argc, argv, F);
}
