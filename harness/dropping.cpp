// P07: deferral, pivoting and dropping obey their thresholds: the hierarchy is exactly the one that a dense reference model of
// the multilevel factorization (a transition system whose steps are accept, defer, interchange, drop) reaches from the same input.
#include "hx.hpp"
#include "hif/pre/driver.hpp"
#include "spaces.hpp"
using namespace hx;
#ifdef CPLX
typedef cd T;
#else
typedef double T;
#endif
typedef hif::HIF<T>      H;
typedef H::prec_type     P;
typedef hif::CRS<T, int> Crs;
typedef hif::CCS<T, int> Ccs;

static const double INF = INFINITY;
// a matrix together with the positions that are stored
struct SM {
  int               n;
  Mat<T>            a;
  std::vector<char> st;
  char &            at(int i, int j) { return st[i * n + j]; }
  char              at(int i, int j) const { return st[i * n + j]; }
  int               nnz() const { return std::count(st.begin(), st.end(), 1); }
};
template <class Cs> static Cs build(const SM &S, bool rev = false) {
  const int n = S.n;
  Cs        A(n, n);
  auto &    ps = Cs::ROW_MAJOR ? ((Crs &)A).row_start() : ((Ccs &)A).col_start();
  auto &    ix = Cs::ROW_MAJOR ? ((Crs &)A).col_ind() : ((Ccs &)A).row_ind();
  ps.resize(n + 1);
  ps[0] = 0;
  for (int i = 0; i < n; ++i) {
    for (int jj = 0; jj < n; ++jj) {
      const int j = rev ? n - 1 - jj : jj, r = Cs::ROW_MAJOR ? i : j, c = Cs::ROW_MAJOR ? j : i;
      if (S.at(r, c)) ix.push_back(j), A.vals().push_back(S.a(r, c));
    }
    ps[i + 1] = ix.size();
  }
  return A;
}
struct RLevel {
  int                 m, n, srcL, srcU;
  std::vector<int>    p, q;
  std::vector<double> s, t;
  std::vector<T>      d;
  Mat<T>              L, U, E, F;
  std::vector<char>   ls, us;
};
enum { GEN, LEAD, HERM, PIV };

struct Model {
  hif::Params         o;
  std::vector<RLevel> lv;
  Mat<T>              dense;
  bool                has_dense = false, pre_edge = false, edge = false;
  size_t              st[6]     = {0, 0, 0, 0, 0, 0};
  std::vector<int>    rs, cs;
  int                 n1 = 0;
  uint64_t            steps = 0, events = 7;
  // outcomes of the preprocessing, by level; taken from another run when forced
  struct Pre { std::vector<int> p, q; std::vector<double> s, t; int m; };
  std::vector<Pre> pres;
  bool             forced = false;
  size_t           npre   = 0;

  bool near_(double a, double b) {
    if (std::isinf(a) || std::isinf(b)) return false;
    return a != 0 && b != 0 && std::fabs(a - b) <= 1e-8 * std::max(std::fabs(a), std::fabs(b));
  }
  bool gt(double a, double b) {  // a > b, deciding by rounding is reported
    if (near_(a, b)) edge = true;
    return a > b;
  }
  double symm_ratio(const SM &A) {  // part of the entries whose mirror image is stored
    int k = 0;
    for (int i = 0; i < A.n; ++i)
      for (int j = 0; j < A.n; ++j) k += A.at(i, j) && A.at(j, i);
    return (double)k / A.nnz();
  }
  // ---- one level
  struct Pars { double kd, k, tL, tU, aL, aU; };
  Pars pars(int lvl, int kern) const {
    Pars r;
    r.kd = o.kappa_d, r.k = o.kappa, r.tL = o.tau_L, r.tU = o.tau_U, r.aL = o.alpha_L, r.aU = o.alpha_U;
    if (o.rf_par) {
      const int f = lvl >= 2 ? 2 : 1;
      if (f == 2) r.kd = std::sqrt(r.kd), r.k = std::sqrt(r.k);
      r.kd = std::max(2., r.kd), r.k = std::max(2., r.k);
      if (lvl > 1) r.tL *= .1, r.tU *= .1;
      if (lvl <= 2) r.aL *= f, r.aU *= f;
    }
    if (kern == PIV) r.aL *= 4, r.aU *= 4;
    return r;
  }
  struct Vec {  // sparse vector over positions
    std::map<int, T> v;
  };
  void drop_num(Vec &x, double tau, double scale) {
    const double c = tau / scale;
    if (!(c > 0)) return;
    for (auto it = x.v.begin(); it != x.v.end();) {
      if (!gt(std::abs(it->second), c)) it = x.v.erase(it);
      else ++it;
    }
  }
  int drop_space(Vec &x, long limit) {
    const int n = x.v.size();
    if (n <= limit) return 0;
    std::vector<std::pair<double, int>> o2;
    for (auto &e : x.v) o2.emplace_back(-std::abs(e.second), e.first);
    std::sort(o2.begin(), o2.end());
    if (limit > 0 && near_(o2[limit - 1].first, o2[limit].first)) edge = true;
    if (limit > 0 && o2[limit - 1].first == o2[limit].first) edge = true;
    for (int i = (int)limit; i < n; ++i) x.v.erase(o2[i].second);
    return n - (int)limit;
  }

  // positions are 0..n-1 of the preprocessed matrix for rows and for columns; R and C give the current order
  void level(const SM &A, int m0, bool must_pivot) {
    const int lvl = lv.size() + 1, n = A.n;
    int       kern = GEN;
    const bool sym = lvl == 1 && m0 > 0;
    if (!sym) m0 = n;
    if (o.is_symm) kern = HERM;
    else if (o.pivot == hif::PIVOTING_ON || (o.pivot == hif::PIVOTING_AUTO && must_pivot)) kern = PIV;
    else if (sym) kern = LEAD;
    bool piv_next = kern == PIV;
    if (lvl == 1) {
      n1 = n;
      rs.assign(n, 0), cs.assign(n, 0);
      for (int i = 0; i < n; ++i)
        for (int j = 0; j < n; ++j)
          if (A.at(i, j)) ++rs[i], ++cs[j];
      const int lo = std::ceil(.85 * A.nnz() / n);
      for (int i = 0; i < n; ++i) rs[i] = std::max(rs[i], lo), cs[i] = std::max(cs[i], lo);
    }
    const Pars k = pars(lvl, kern);
    // preprocessing
    RLevel Lv;
    Lv.n = n;
    Lv.s.assign(n, 1), Lv.t.assign(n, 1);
    std::vector<int> p(n), q(n);
    for (int i = 0; i < n; ++i) p[i] = q[i] = i;
    int m2 = m0;
    if (!o.no_pre && forced) {
      const Pre &z = pres[npre++];
      p = z.p, q = z.q, Lv.s = z.s, Lv.t = z.t, m2 = z.m;
    } else if (!o.no_pre) {
      const bool spre = kern == HERM || kern == LEAD || (kern == PIV ? lvl <= std::max(0, o.symm_pre_lvls) : o.symm_pre_lvls >= 0 ? lvl <= o.symm_pre_lvls : lvl <= -o.symm_pre_lvls && symm_ratio(A) >= o.nzp_thres);
      hif::Array<double>     s, t;
      hif::BiPermMatrix<int> bp, bq;
      auto pre = [&](const SM &X, int rev = 0) {
        Crs x = build<Crs>(X, rev & 1);
        Ccs y = build<Ccs>(X, rev & 2);
        return spre ? hif::do_preprocessing<true>(y, x, m0, lvl, o, s, t, bp, bq) : hif::do_preprocessing<false>(y, x, m0, lvl, o, s, t, bp, bq);
      };
      if (lvl > 1) {  // the model's matrix carries rounding errors: is the outcome stable?
        SM B = A;
        for (int i = 0; i < n * n; ++i) B.a.v[i] *= 1 + (i % 7 - 3.5) * 1e-13;
        m2 = pre(A);
        const hif::Array<double>     s0(s, true), t0(t, true);
        const std::vector<int>       p0(bp().cbegin(), bp().cend()), q0(bq().cbegin(), bq().cend());
        for (int rev = 0; rev < 4; ++rev) {
          bool same = (int)pre(B, rev) == m2;
          for (int i = 0; i < n && same; ++i) same = p0[i] == bp[i] && q0[i] == bq[i] && std::fabs(s0[i] - s[i]) <= 1e-9 * s[i] && std::fabs(t0[i] - t[i]) <= 1e-9 * t[i];
          if (!same) pre_edge = true;
        }
        pre(A);
        for (auto &x : A.a.v)
          if (std::abs(x) > 0 && std::abs(x) < 1e-9) pre_edge = true;
      } else
        m2 = pre(A);
      for (int i = 0; i < n; ++i) p[i] = bp[i], q[i] = bq[i], Lv.s[i] = s[i], Lv.t[i] = t[i];
      pres.push_back({p, q, Lv.s, Lv.t, m2});
    }
    // scaled entry at row position i, column position j (kernel HERM: columns follow the rows)
    std::vector<int> &qq = kern == HERM ? p : q;
    auto ent = [&](int i, int j) { return T(Lv.s[p[i]]) * A.a(p[i], qq[j]) * T(Lv.t[qq[j]]); };
    auto has = [&](int i, int j) { return A.at(p[i], qq[j]); };

    // R[x], C[x]: row and column position sitting at place x; places < m2 are the leading block
    std::vector<int> R(n), C(n), accR, accC, lateR, lateC;
    for (int i = 0; i < n; ++i) R[i] = C[i] = i;
    std::vector<T> dd(n, T(0));  // running diagonals by place
    std::vector<char> upd(n, 0);      // changed since
    for (int i = 0; i < m2; ++i) dd[i] = ent(i, i);
    std::vector<T>   d, kl, ku;
    std::vector<Vec> Ls, Us;  // stored factors: L column k over row positions, U row k over column positions
    size_t           bad = 0, cond = 0, defers = 0, dn = 0, ds = 0;
    auto kappa = [&](const std::vector<Vec> &X, const std::vector<T> &kp, int pos) {
      T   sum(0);
      int cnt = 0;
      for (size_t i = 0; i < X.size(); ++i) {
        auto it = X[i].v.find(pos);
        if (it != X[i].v.end()) sum += kp[i] * it->second, ++cnt;
      }
      if (X.empty()) return T(1);
      const T k1 = T(1) - sum, k2 = T(-1) - sum;
      if (cnt && std::fabs(std::abs(k1) - std::abs(k2)) < 1e-9 && (cnt > 1 || is_cplx<T>::value)) edge = true;
      return std::abs(k1) < std::abs(k2) ? k2 : k1;
    };
    auto find = [](const Vec &x, int pos, T &v) {
      auto it = x.v.find(pos);
      if (it == x.v.end()) return false;
      v = it->second;
      return true;
    };
    auto resid = [&](int r, int c, T &v) {  // Schur entry from the stored factors
      bool pr = has(r, c);
      v       = pr ? ent(r, c) : T(0);
      for (size_t i = 0; i < d.size(); ++i) {
        T a, b;
        if (find(Ls[i], r, a) && find(Us[i], c, b)) v -= a * d[i] * b, pr = true;
      }
      return pr;
    };
    int  x     = 0;  // current place in the leading block
    auto isbad = [&](T w) {
      if (kern == HERM) {
        const double y = std::real(w);
        if (o.spd && std::fabs(y) < 1e-12 && upd[x]) edge = true;
        return (o.spd > 0 && y <= 0) || (o.spd < 0 && y >= 0) || gt(1 / std::fabs(y), k.kd);
      }
      return gt(1 / std::abs(w), k.kd);
    };
    // rows and columns that are not eliminated yet, behind place x
    auto behind = [&](bool row) {
      std::vector<int> b;
      auto &           O = row ? R : C;
      for (int i = x + 1; i < n; ++i) b.push_back(O[i]);
      for (int i : row ? lateR : lateC) b.push_back(i);
      return b;
    };
    auto col = [&](Vec &l) {
      for (int r : behind(true)) {
        T v;
        if (resid(r, C[x], v)) l.v[r] = v;
      }
    };
    auto row = [&](Vec &u) {
      for (int c : behind(false)) {
        T v;
        if (resid(R[x], c, v)) u.v[c] = v;
      }
    };
    auto weak = [&](T v, T dd_) {
      if (o.gamma >= 1 && near_(std::abs(v), std::abs(dd_))) edge = true;
      return std::abs(v) > std::abs(dd_) && gt(o.gamma * std::abs(v), std::abs(dd_));
    };
    auto inlead = [&](bool isrow, int pos) {
      auto &O = isrow ? R : C;
      for (int i = x + 1; i < m2; ++i)
        if (O[i] == pos) return i;
      return -1;
    };
    for (; x < m2; ++x) {
      ++steps;
      T dk = dd[x];
      if (kern == PIV) {
        // threshold pivoting: at most four rounds of one row and one column interchange
        auto best = [&](const Vec &v, bool isrow, T &val) {
          std::vector<std::pair<double, int>> c;
          for (auto &e : v.v) {
            const int at = inlead(isrow, e.first);
            if (at < 0) continue;
            if (gt(std::abs(isrow ? kappa(Ls, kl, e.first) : kappa(Us, ku, e.first)), k.k)) continue;
            c.emplace_back(-std::abs(e.second), e.first);
          }
          std::sort(c.begin(), c.end());
          if (c.empty()) return -1;
          if (c.size() > 1 && (near_(c[0].first, c[1].first) || c[0].first == c[1].first)) tie = true;
          else tie = false;
          val = v.v.at(c[0].second);
          return c[0].second;
        };
        for (int round = 0; round < 4; ++round) {
          bool rp = false;
          Vec  l;
          col(l);
          T         v;
          const int a = best(l, true, v);
          resid(R[x], C[x], dk);
          if (a >= 0 && weak(v, dk)) {
            if (tie) edge = true;
            std::swap(R[x], R[inlead(true, a)]);
            rp     = true;
            events = mc::mix(events, 1);
          } else if (round)
            break;
          Vec u;
          row(u);
          const int b = best(u, false, v);
          resid(R[x], C[x], dk);
          if (b >= 0 && weak(v, dk)) {
            if (tie) edge = true;
            std::swap(C[x], C[inlead(false, b)]);
            events = mc::mix(events, 2);
          } else
            break;
        }
        resid(R[x], C[x], dk);
        
      }
      // defer until a pivot is acceptable
      bool first = true;
      T    kr, kc;
      for (;; first = false) {
        if (x == m2) break;
        kc = kappa(Us, ku, C[x]);
        kr = kern == LEAD ? kc : kappa(Ls, kl, R[x]);
        if (!first) {
          dk = dd[x];
          if (kern == PIV) resid(R[x], C[x], dk);
        }
        const bool b1 = isbad(dk);
        bool       b2;
        if (kern == PIV && !first) {
          // conditioning is looked at first here
          b2 = gt(std::abs(kc), k.k) || gt(std::abs(kr), k.k);
          if (b2) ++cond;
          else if (b1) ++bad;
        } else {
          b2 = !b1 && (gt(std::abs(kc), k.k) || gt(std::abs(kr), k.k));
          if (b1) ++bad;
          else if (b2) ++cond;
        }
        if (!b1 && !b2) break;
        events = mc::mix(events, 3);
        ++defers;
        lateR.push_back(R[x]), lateC.push_back(C[x]);
        ++x;
        ++steps;
      }
      if (x == m2) break;
      events = mc::mix(events, 4);
      Vec l, u;
      row(u);
      col(l);
      // the running diagonals use the full row and column
      if (kern != PIV)
        for (int i = x + 1; i < m2; ++i) {
          T a, b;
          if (kern == HERM) {
            if (find(l, R[i], a)) dd[i] -= a / dk * conj_(a / dk) * dk, upd[i] = 1;
          } else if (kern == LEAD) {
            if (find(u, C[i], b)) dd[i] -= b / dk * (b / dk) * dk;
          } else if (find(l, R[i], a) && find(u, C[i], b))
            dd[i] -= a * b / dk;
        }
      for (auto &e : u.v) e.second /= dk;
      for (auto &e : l.v) e.second /= dk;
      const long rl = std::ceil(k.aU * rs[p[R[x]]]), cl = std::ceil(k.aL * (kern == HERM ? rs[p[R[x]]] : cs[q[C[x]]]));
      if (kern == HERM) {
        const int a = l.v.size();
        drop_num(l, k.tL, std::abs(kr) * k.kd);
        if (k.aL > 0) ds += drop_space(l, cl);
        dn += a - l.v.size();
        u.v.clear();
        for (auto &e : l.v) u.v[e.first] = conj_(e.second);
      } else {
        int a = u.v.size();
        drop_num(u, k.tU, std::abs(kc) * k.kd);
        if (k.aU > 0) ds += drop_space(u, rl);
        dn += a - u.v.size();
        a = l.v.size();
        if (kern == LEAD) {
          Vec l2;
          int lead = 0;
          for (auto &e : l.v)
            if (inlead(true, e.first) < 0) l2.v.insert(e);
          drop_num(l2, k.tL, std::abs(kr) * k.kd);
          for (int i = x + 1; i < m2; ++i) {
            T v;
            if (find(u, C[i], v)) l.v[R[i]] = v, ++lead;
            else l.v.erase(R[i]);
          }
          if (k.aL > 0) drop_space(l2, std::max(1L, cl - lead));
          for (auto it = l.v.begin(); it != l.v.end();)
            if (inlead(true, it->first) < 0) it = l.v.erase(it);
            else ++it;
          l.v.insert(l2.v.begin(), l2.v.end());
        } else {
          drop_num(l, k.tL, std::abs(kr) * k.kd);
          if (k.aL > 0) ds += drop_space(l, cl);
          dn += a - l.v.size();
        }
      }
      events = mc::mix(events, u.v.size() * 16 + l.v.size());
      Ls.push_back(l), Us.push_back(u), d.push_back(dk), kl.push_back(kr), ku.push_back(kc);
      accR.push_back(R[x]), accC.push_back(C[x]);
    }
    int m = accR.size();
    // the order of what is left: the given tail, then the deferred ones
    std::vector<int> fr = accR, fc = accC;
    for (int i = m2; i < n; ++i) fr.push_back(R[i]), fc.push_back(C[i]);
    fr.insert(fr.end(), lateR.begin(), lateR.end());
    fc.insert(fc.end(), lateC.begin(), lateC.end());
    int flag = 0;
    if (m <= .25 * m2) flag = 2, m = 0, bad = cond = dn = ds = 0;
    else if (m <= .4 * m2) flag = -1;
    if (kern != HERM && kern != PIV && o.pivot == hif::PIVOTING_AUTO && flag) {
      events = mc::mix(events, 9);
      return level(A, 0, true);
    }
    events = mc::mix(events, flag + 20);
    st[0] += m0 - m, st[1] += m ? defers : 0, st[2] += bad, st[3] += cond, st[4] += dn, st[5] += ds;
    const int nm = n - m;
    Lv.m         = m;
    Lv.p.resize(n), Lv.q.resize(n);
    SM S;
    S.n = nm, S.a = Mat<T>(nm, nm), S.st.assign(nm * nm, 0);
    if (!m) {
      for (int i = 0; i < n; ++i) Lv.p[i] = Lv.q[i] = i;
      Lv.s.assign(n, 1), Lv.t.assign(n, 1);
      S = A;
    } else {
      for (int i = 0; i < n; ++i) Lv.p[i] = p[fr[i]], Lv.q[i] = qq[fc[i]];
      Lv.d = d;
      Lv.L = Lv.U = Mat<T>(m, m);
      Lv.ls.assign(m * m, 0), Lv.us.assign(m * m, 0);
      Lv.E = Mat<T>(nm, m), Lv.F = Mat<T>(m, nm);
      for (int i = 0; i < m; ++i)
        for (int j = 0; j < m; ++j) {
          T v;
          if (j < i && find(Ls[j], fr[i], v)) Lv.L(i, j) = v, Lv.ls[i * m + j] = 1;
          if (j > i && find(Us[i], fc[j], v)) Lv.U(i, j) = v, Lv.us[i * m + j] = 1;
        }
      for (int i = 0; i < nm; ++i)
        for (int j = 0; j < m; ++j) Lv.E(i, j) = ent(fr[m + i], fc[j]), Lv.F(j, i) = ent(fr[j], fc[m + i]);
      // offsets, with the space limits
      double aL = o.alpha_L * (kern == PIV ? 4 : 1), aU = o.alpha_U * (kern == PIV ? 4 : 1);
      if (lvl == 1 && o.fat_schur_1st) aL *= 2, aU *= 2;
      std::vector<Vec> LE(nm), UF(nm);
      for (int i = 0; i < nm; ++i) {
        for (int j = 0; j < m; ++j) {
          T v;
          if (find(Ls[j], fr[m + i], v)) LE[i].v[j] = v;
          if (find(Us[j], fc[m + i], v)) UF[i].v[j] = v;
        }
        drop_space(LE[i], aL > 0 ? (long)std::ceil(aL * rs[p[fr[m + i]]]) : 0);
        if (kern != HERM) drop_space(UF[i], aU > 0 ? (long)std::ceil(aU * cs[q[fc[m + i]]]) : 0);
      }
      if (kern == HERM)
        for (int i = 0; i < nm; ++i) {
          UF[i].v.clear();
          for (auto &e : LE[i].v) UF[i].v[e.first] = conj_(e.second);
        }
      for (int i = 0; i < nm; ++i)
        for (int j = 0; j < nm; ++j) {
          bool pr = has(fr[m + i], fc[m + j]);
          T    v  = pr ? ent(fr[m + i], fc[m + j]) : T(0);
          for (auto &e : LE[i].v) {
            T u;
            if (find(UF[j], e.first, u)) v -= e.second * d[e.first] * u, pr = true;
          }
          S.a(i, j) = v, S.at(i, j) = pr;
        }
    }
    // last level?
    long amb = 0;
    for (int i = m; i < n; ++i) amb += kern == HERM ? 2 * rs[Lv.p[i]] : rs[Lv.p[i]] + cs[Lv.q[i]];
    const long N  = o.N >= 0 ? o.N : n1;
    const long t1 = (long)((kern == HERM ? o.alpha_L : std::max(o.alpha_L, o.alpha_U)) * amb), t2 = std::max((long)std::ceil(o.c_d * std::cbrt((double)N)), (long)(o.dense_thres <= 0 ? 2000 : o.dense_thres));
    const bool last = (flag < 0 && (kern == PIV || kern == HERM || o.pivot != hif::PIVOTING_AUTO)) || (long)std::ceil((double)nm * nm * o.rho) <= t1 || nm <= t2 || !m;
    std::vector<int> r2(nm), c2(nm);
    for (int i = 0; i < nm; ++i) r2[i] = rs[Lv.p[m + i]], c2[i] = cs[Lv.q[m + i]];
    lv.push_back(Lv);
    if (last) {
      dense = S.a, has_dense = nm > 0;
      return;
    }
    rs = r2, cs = c2;
    level(S, 0, piv_next);
  }
  bool tie = false;
};

template <class Cs> static Mat<T> tri(const Cs &A, int m) {
  Mat<T> D(m, m);
  if (!m) return D;
  for (int c = 0; c < m; ++c)
    for (auto k = A.col_start()[c]; k < A.col_start()[c + 1]; ++k) D(A.row_ind()[k], c) = A.vals()[k];
  return D;
}
template <class V> static std::string sv(const V &v, int n) {
  std::string s = "(";
  for (int i = 0; i < n; ++i) s += (i ? " " : "") + std::to_string(v[i]);
  return s + ")";
}

static bool close_(T a, T b, double sens) { return std::abs(a - b) <= 1e-10 * (1 + std::abs(b)) + 1e3 * sens; }
// the diagonal of a complex Hermitian factorization is real up to rounding only, and so is the effect of that
static inline void turn(double &, double) {}
static inline void turn(std::complex<double> &v, double e) { v *= std::complex<double>(1, e); }
template <class M_> static void bend(M_ &B, bool on) {
  if (on)
    for (int i = 0; i < B.n; ++i) turn(B.a(i, i), (i % 3 - 1.5) * 1e-13);
}
template <class Cs> static void run_one(mc::Case &c, const SM &A, const hif::Params &o, int m0) {
  const int n = A.n;
  c.desc("%s %s m0=%d A=%s %s", is_cplx<T>::value ? "complex" : "real", Cs::ROW_MAJOR ? "CRS" : "CCS", m0, n <= 6 ? show(A.a).c_str() : "(see family)", cfg_str(o).c_str());
  Model M;
  M.o = o;
  M.level(A, m0, false);
  // how sensitive is the result to rounding?
  Model N;
  N.o = o, N.pres = M.pres, N.forced = true;
  SM B = A;
  for (int i = 0; i < n; ++i)
    for (int j = 0; j < n; ++j) B.a(i, j) *= 1 + ((i * j + 3 * (i + j)) % 7 - 3.5) * 1e-13;
  bend(B, is_cplx<T>::value && o.is_symm);
  if (!M.edge) N.level(B, m0, false);
  if (!M.edge && (N.edge || N.events != M.events)) M.edge = true;
  H         h;
  const Cs  S = build<Cs>(A);
  h.factorize(S, o, m0);
  c.transition(M.steps);
  c.state(M.events);
  if (M.edge) {
    c.skip("a decision lies within rounding of its threshold");
    return;
  }
#define REQ(cond, ...)   \
  if (!(cond)) {         \
    c.fail(__VA_ARGS__); \
    return;              \
  }
  const double tol = 1e-9;
  size_t       l   = 0;
  double       acc = 0;
  for (auto &pr : h.precs()) {
    if (M.pre_edge && l) {
      c.skip("preprocessing of a later level depends on rounding");
      return;
    }
    if (n > 16 && acc > 1e-6) {
      c.skip("rounding of the levels before is too large to judge the next");
      return;
    }
    REQ(l < M.lv.size(), "level %zu exists, the model ends after %zu", l + 1, M.lv.size());
    const RLevel &r = M.lv[l];
    ++l;
    REQ((int)pr.m == r.m && (int)pr.n == r.n, "level %zu: leading block %zu of %zu, the model accepts %d of %d", l, pr.m, pr.n, r.m, r.n);
    const RLevel &r2 = N.lv[l - 1];
    for (int i = 0; i < r.n; ++i) {
      REQ(pr.p[i] == r.p[i] && pr.q[i] == r.q[i], "level %zu (m=%d): order %s/%s, the model says %s/%s", l, r.m, sv(pr.p, r.n).c_str(), sv(pr.q, r.n).c_str(), sv(r.p, r.n).c_str(), sv(r.q, r.n).c_str());
      REQ(std::fabs(pr.s[i] - r.s[i]) <= tol * r.s[i] && std::fabs(pr.t[i] - r.t[i]) <= tol * r.t[i], "level %zu: scaling", l);
    }
    if (!r.m) continue;
    double eL = diff(r.L, r2.L), eU = diff(r.U, r2.U), eD = 0;
    for (int i = 0; i < r.m; ++i) eD = std::max(eD, std::abs(r.d[i] - r2.d[i]));
    if (n > 16) eL *= 1e3, eU *= 1e3, eD *= 1e3;  // rounding adds up over more operations than the perturbation of the input shows
    eL = eU = acc = std::max(acc, std::max(eL, eU));
    eD = std::max(acc, eD);
    for (int i = 0; i < r.m; ++i) {
      REQ(close_(pr.d_B[i], r.d[i], eD), "level %zu: pivot %d is %g, the model says %g", l, i, (double)std::real(pr.d_B[i]), (double)std::real(r.d[i]));
    }
    const Mat<T> L = tri(pr.L_B, r.m), U = tri(pr.U_B, r.m);
    for (int i = 0; i < r.m; ++i)
      for (int j = 0; j < r.m; ++j) {
        REQ(close_(L(i, j), r.L(i, j), eL), "level %zu: L(%d,%d) is %g, the model says %g", l, i, j, (double)std::real(L(i, j)), (double)std::real(r.L(i, j)));
        REQ(close_(U(i, j), r.U(i, j), eU), "level %zu: U(%d,%d) is %g, the model says %g", l, i, j, (double)std::real(U(i, j)), (double)std::real(r.U(i, j)));
      }
    if (pr.is_last_level() && r.m < r.n) {
      size_t         dr = 0, dc = 0;
      REQ(l == M.lv.size(), "level %zu is the last one, the model goes on", l);
      pr.inquire_or_export_dense((T *)nullptr, dr, dc, false);
      REQ((int)dr == r.n - r.m && dr == dc, "dense level of size %zu", dr);
      std::vector<T> b(dr * dc);
      pr.inquire_or_export_dense(b.data(), dr, dc, false);
      double nn = std::max(acc, diff(M.dense, N.dense));
      for (auto &v : M.dense.v) nn = std::max(nn, 1e-10 * std::abs(v));
      for (size_t i = 0; i < dr; ++i)
        for (size_t j = 0; j < dr; ++j) REQ(std::abs(b[j * dr + i] - M.dense(i, j)) <= 1e3 * nn + 1e-10, "dense level: entry (%zu,%zu) is %g, the model says %g", i, j, (double)std::real(b[j * dr + i]), (double)std::real(M.dense(i, j)));
    }
  }
  REQ(l == M.lv.size(), "%zu levels, the model has %zu", l, M.lv.size());
  for (int i = 0; i < 6; ++i)
    if (i < 4 || !m0 || o.is_symm) REQ(h.stats(i) == M.st[i], "statistics entry %d is %zu, the model counts %zu", i, h.stats(i), M.st[i]);
  c.validated();
#undef REQ
}

// values without ties; table 1 has weak diagonals, table 2 graded magnitudes
static T gv(int i, int j, int table, int n) {
  const double x = std::sqrt(2.) * (i * n + j + 1) * (table + 1) * 0.6180339887, f = x - std::floor(x), y = std::sqrt(3.) * (j * n + i + 2) + .3 * table, g = y - std::floor(y);
  double       v = .15 + f;
  if ((i * 5 + j * 3 + i * j + table) % 3 == 1) v = -v;
  if (table == 2) v *= std::pow(10., -((i * 3 + j * 5 + i * j) % 4));
  if (i == j) v = table == 1 ? v * .21 : (v < 0 ? v - 1 : v + 1);
  if (i == j && table == 1 && i % 3 == 1) v *= 1e-3;
  return Mk<T>::mk(v, (g - .5) * std::fabs(v));
}
static SM of_pat(int n, int table, const std::function<bool(int, int)> &st, int symm /*1 hermitian, 2 leading*/, int m0) {
  SM A;
  A.n = n, A.a = Mat<T>(n, n), A.st.assign(n * n, 0);
  for (int i = 0; i < n; ++i)
    for (int j = 0; j < n; ++j) {
      const bool mir = (symm == 1 || (symm == 2 && i < m0 && j < m0)) && j < i;
      const int  a = mir ? j : i, b = mir ? i : j;
      if (!st(a, b)) continue;
      T v        = gv(a, b, table, n);
      A.at(i, j) = 1;
      if (symm == 1) v = i == j ? T(std::real(v)) : mir ? conj_(v) : v;
      A.a(i, j) = v;
    }
  return A;
}
static std::vector<hif::Params> grid(int symm) {
  std::vector<hif::Params> g;
  struct S { double tl, tu, kd, k, al, au; int rf, fat; };
  static const S s[] = {
      {0, 0, 1e6, 1e300, 1e3, 1e3, 0, 1},       {0, 0, 2.5, 1e300, 1e3, 1e3, 0, 1},    {0, 0, 1e6, 1.3, 1e3, 1e3, 0, 1},      {.3, .05, 1.7, 1e300, 1e3, 1e3, 0, 1},
      {.05, .3, 1e3, 2, 1e3, 1e3, 0, 0},          {0, 0, 1e6, 1e300, .4, .9, 0, 0},    {0, 0, 1e6, 1e300, .9, .4, 0, 1},      {.02, .5, 3, 3, .5, .7, 1, 1},
      {.6, .1, 4, 3, 1, .5, 1, 0},                {1e-1, 1e-1, 3, 1.5, .4, .4, 0, 1},    {.5, 0, 2, 1e300, 1e3, .3, 0, 0},        {0, .5, 1e6, 2, .3, 1e3, 1, 1},
  };
  for (auto &x : s)
    for (int pv = 0; pv < (symm ? 1 : 5); ++pv)
      for (int pre = 0; pre < 2; ++pre) {
        hif::Params o = base_params();
        o.tau_L = x.tl, o.tau_U = x.tu, o.kappa_d = x.kd, o.kappa = x.k, o.alpha_L = x.al, o.alpha_U = x.au;
        o.rf_par = x.rf, o.fat_schur_1st = x.fat;
        o.pivot = pv == 0 ? hif::PIVOTING_OFF : pv == 4 ? hif::PIVOTING_AUTO : hif::PIVOTING_ON;
        o.gamma = pv == 1 ? 1. : pv == 2 ? .5 : pv == 3 ? .9 : 1.;
        o.no_pre  = pre;
        o.is_symm = symm == 1;
        o.symm_pre_lvls = pre + pv == 0 ? int(&x - s) % 3 - 1 : pv == 4 ? -2 : 0;
        o.nzp_thres     = .65;
        multilevel(o);
        if (x.rf && pv % 2 == 0) o.rho = .5, o.dense_thres = 2;
        g.push_back(o);
        if (symm == 1 && pre)
          for (int spd : {1, -1}) o.spd = spd, g.push_back(o);
      }
  return g;
}
static void run_all(mc::Case &c, const SM &A, const std::vector<hif::Params> &g, int m0, size_t rot) {
  if (mc::thorough()) rot = 1;
  for (size_t i = 0; i < g.size(); ++i) {
    if ((i + c.idx + c.idx / 64) % rot) continue;
    if ((i / rot + c.idx) % 2) run_one<Crs>(c, A, g[i], m0);
    else run_one<Ccs>(c, A, g[i], m0);
    if (c.nfail) return;
  }
}
static bool usable(const SM &A, int m0) {
  int k = 0, b = 0;
  for (int i = 0; i < A.n; ++i)
    for (int j = 0; j < A.n; ++j)
      if (A.at(i, j)) ++k, b += i < m0 && j < m0;
  return k && (!m0 || b);
}

int main(int argc, char **argv) {
  using mc::Family;
  std::vector<Family> F;
  const auto          g0 = grid(0), g1 = grid(1);
  auto                g2 = g0;
  g2.erase(std::remove_if(g2.begin(), g2.end(), [](const hif::Params &o) { return o.pivot == hif::PIVOTING_ON; }), g2.end());
  auto fam = [&](const char *nm, const char *what, uint64_t N, std::function<void(mc::Case &)> fn) { F.push_back({nm, what, N, fn}); };
  fam("pat3", "all 3x3 patterns x 3 value tables x options", 512 * 3, [=](mc::Case &c) {
    const int b = c.idx / 3;
    const SM  A = of_pat(3, c.idx % 3, [=](int i, int j) { return b >> (i * 3 + j) & 1; }, 0, 0);
    if (!usable(A, 0)) return c.skip("empty matrix");
    run_all(c, A, g0, 0, 1);
  });
  fam("off4", "all 4x4 patterns with full diagonal x options", 4096, [=](mc::Case &c) {
    const int b = c.idx;
    const SM  A = of_pat(4, b % 3, [=](int i, int j) { return i == j || (b >> (i * 3 + (j > i ? j - 1 : j)) & 1); }, 0, 0);
    run_all(c, A, g0, 0, 2);
  });
  fam("lead", "all 3x3 patterns with a symmetric leading block of every size x options", is_cplx<T>::value ? 0 : 512 * 3, [=](mc::Case &c) {
    const int b = c.idx / 3, m0 = 1 + c.idx % 3;
    const SM  A = of_pat(3, b % 3, [=](int i, int j) { return b >> (i * 3 + j) & 1; }, 2, m0);
    if (!usable(A, m0)) return c.skip("empty leading block");
    run_all(c, A, g2, m0, 1);
  });
  fam("herm", "all Hermitian patterns of sizes 3 and 4 x options", 64 * 3 + 1024, [=](mc::Case &c) {
    const int n = c.idx < 192 ? 3 : 4, b = n == 3 ? c.idx / 3 : c.idx - 192, tb = c.idx % 3;
    const SM  A = of_pat(n, tb, [=](int i, int j) { return b >> (i * n - i * (i - 1) / 2 + j - i) & 1; }, 1, 0);
    if (!usable(A, 0)) return c.skip("empty matrix");
    run_all(c, A, g1, 0, 1);
  });
  // the parameters that decide where the hierarchy ends, and space limits of zero
  auto sizing = [](const std::vector<hif::Params> &g) {
    struct Z { int N; double cd; int dt; double rho, al, au; };
    static const Z z[] = {{0, 1.5, 1, 1e9, -1, -1}, {0, 1, -1, .05, -1, -1}, {27, .34, 1, 1e9, -1, -1}, {27, .3333333, 1, 1e9, -1, -1}, {1000, .35, 1, 1e9, -1, -1}, {8, 1.4, 2, 1e9, -1, -1}, {1, 2.2, 1, 1e9, -1, -1},
                          {-1, .8, 1, 1e9, -1, -1}, {-1, 1.3, 1, 1e9, -1, -1}, {5, .5, 3, 1e9, -1, -1}, {-1, 0, 1, .5, -1, -1}, {-1, 0, 1, .25, -1, -1}, {-1, 0, 1, 1e9, 0, 0}, {-1, 0, 1, 1e9, 0, .6}, {-1, 0, 1, 1e9, .6, 0}, {2, .9, 2, .3, 0, 1}};
    std::vector<hif::Params> r;
    for (size_t i = 0; i < g.size(); ++i)
      for (size_t k = 0; k < sizeof z / sizeof *z; ++k) {
        if ((i + k) % 3 && g.size() > 60) continue;
        auto o = g[i];
        o.N = z[k].N, o.c_d = z[k].cd, o.dense_thres = z[k].dt, o.rho = z[k].rho;
        if (z[k].al >= 0) o.alpha_L = z[k].al, o.alpha_U = z[k].au;
        r.push_back(o);
      }
    return r;
  };
  const auto z0 = sizing(g0), z1 = sizing(g1);
  fam("sizing", "all 3x3 patterns and all patterns of circulants of order 8 x options x 16 settings of the sizes that end the hierarchy and of space limits of zero", 512 + 256, [=](mc::Case &c) {
    const int b = c.idx < 512 ? c.idx : c.idx - 512, n = c.idx < 512 ? 3 : 8;
    const SM  A = of_pat(n, b % 3, [=](int i, int j) { return n == 3 ? b >> (i * 3 + j) & 1 : i == j || (b >> ((j - i + 8) % 8) & 1); }, 0, 0);
    if (!usable(A, 0)) return c.skip("empty matrix");
    run_all(c, A, z0, 0, 2);
  });
  fam("symsizing", "the same for all Hermitian patterns of order 3 and 4", 64 + 1024, [=](mc::Case &c) {
    const int n = c.idx < 64 ? 3 : 4, b = n == 3 ? c.idx : c.idx - 64;
    const SM  A = of_pat(n, c.idx % 3, [=](int i, int j) { return b >> (i * n - i * (i - 1) / 2 + j - i) & 1; }, 1, 0);
    if (!usable(A, 0)) return c.skip("empty matrix");
    run_all(c, A, z1, 0, 2);
  });
  if (mc::thorough())
    fam("pat4", "all 4x4 patterns x options", 65536, [=](mc::Case &c) {
      const int b = c.idx;
      const SM  A = of_pat(4, b % 3, [=](int i, int j) { return b >> (i * 4 + j) & 1; }, 0, 0);
      if (!usable(A, 0)) return c.skip("empty matrix");
      run_all(c, A, g0, 0, 1);
    });
  // the first four pivots are deferred, so that dropping on the second level uses sizes handed down from the first one
  auto gd = g0;
  gd.erase(std::remove_if(gd.begin(), gd.end(), [](const hif::Params &o) { return o.pivot == hif::PIVOTING_AUTO || std::min(o.alpha_L, o.alpha_U) > .9; }), gd.end());
  for (auto &o : gd) o.tau_L = o.tau_U = 0, o.kappa_d = 8, o.kappa = 1e300, o.rf_par = 0;
  for (auto &o : gd) o.no_pre = 1, o.pivot = hif::PIVOTING_OFF;
  fam("two", "size 9: four tiny pivots, every pattern among them, coupled to five large ones in three ways, x options with space limits", 4096 * 3, [=](mc::Case &c) {
    const int b = c.idx / 3, cp = c.idx % 3;
    SM A = of_pat(9, b % 3, [=](int i, int j) { return i == j || (i >= 4 && j < 4 && (cp != 1 || (i + j) % 5 < 2)) || (j >= 4 && i < 4 && (cp != 2 || (i + 2 * j) % 5 < 2)) || (i < 4 && j < 4 && (b >> (i * 3 + (j > i ? j - 1 : j)) & 1)); }, 0, 0);
    for (int i = 0; i < 4; ++i) A.a(i, i) *= .01;
    for (int i = 4; i < 9; ++i) A.a(i, i) *= 4;
    run_all(c, A, gd, 0, 5);
  });
  // larger: every circulant pattern
  static const int ns[] = {5, 6, 7, 9, 12};
  fam("circ", "sizes 5, 6, 7 and 9: every circulant pattern with diagonal x 3 value tables x options", (16 + 32 + 64 + 256) * 3, [=](mc::Case &c) {
    int b = c.idx / 3, k = 0;
    while (b >= 1 << (ns[k] - 1)) b -= 1 << (ns[k] - 1), ++k;
    const int n = ns[k];
    const SM  A = of_pat(n, c.idx % 3, [=](int i, int j) { return i == j || (b >> ((j - i + n) % n - 1) & 1); }, 0, 0);
    run_all(c, A, g0, 0, n > 7 ? 5 : 2);
  });
  fam("skew", "sizes 7, 9 and 12: pattern i*a+j*b mod c in a set, with and without weak diagonals, x options (general, Hermitian and with a leading block)", 3 * 3 * 24 * 3, [=](mc::Case &c) {
    const int n = ns[2 + c.idx % 3], tb = c.idx / 3 % 3, v = c.idx / 9 % 24, kind = c.idx / 216;
    const int a = 1 + v % 3, b = 1 + v / 3 % 4, md = 3 + v / 12 * 2;
    const int m0 = kind == 2 ? n - n / 4 : 0;
    if (kind == 2 && is_cplx<T>::value) return c.skip("leading blocks are for real matrices");
    const SM  A = of_pat(n, tb, [=](int i, int j) { return i == j || (i * a + j * b) % md == 0; }, kind, m0);
    run_all(c, A, kind == 1 ? g1 : kind == 2 ? g2 : g0, m0, 2);
  });
  // orders beyond every block and buffer size of the code
  fam("large", "sizes 20, 36, 50 and 70: band, grid, pattern i*a+j*b mod c in a set and scattered, with and without weak diagonals, x options (general, Hermitian and with a leading block)", 4 * 3 * 8 * 3, [=](mc::Case &c) {
    static const int nl[] = {20, 36, 50, 70};
    const int n = nl[c.idx % 4], tb = c.idx / 4 % 3, v = c.idx / 12 % 8, kind = c.idx / 96;
    const int m0 = kind == 2 ? n - n / 4 : 0;
    if (kind == 2 && is_cplx<T>::value) return c.skip("leading blocks are for real matrices");
    const int q = (int)std::sqrt((double)n);
    const SM  A = of_pat(n, tb, [=](int i, int j) {
      if (i == j) return true;
      const int d = std::abs(i - j);
      switch (v) {
        case 0: return d <= 2;
        case 1: return d == 1 || d == q;
        case 2: return (i * 2 + j * 3) % 11 == 0;
        case 3: return (i + j * 4) % 7 == 0;
        case 4: return mc::mix(i * 100 + j, 9) % 12 == 0;
        case 5: return i == n - 1 || j == n - 1 || d == 1;
        case 6: return j == 0 || (i + 3 * j) % 13 == 1;
        default: return mc::mix(i * 100 + j, 23) % 5 == 0;
      }
    }, kind, m0);
    run_all(c, A, kind == 1 ? g1 : kind == 2 ? g2 : g0, m0, 3);
  });
  return mc::drive(argc, argv, F);
}
