// P26: every option has one name, one place and one text, and all ways to set or show options agree.
#include <set>
#include <sstream>
#include "hx.hpp"
using namespace hx;
typedef hif::Options O;
struct Fld {
  const char *name;
  int         kind;  // 0 double, 1 int
  size_t      off;
};
#define D(x) {#x, 0, offsetof(O, x)}
#define I(x) {#x, 1, offsetof(O, x)}
static const Fld fl[] = {D(tau_L),  D(tau_U),     D(kappa_d), D(kappa),         D(alpha_L), D(alpha_U),   D(rho),           D(c_d),       D(c_h),   I(N),    I(verbose), I(rf_par), I(reorder),   I(spd),
                         I(check),  I(pre_scale), I(symm_pre_lvls), I(threads), I(mumps_blr), I(fat_schur_1st), D(rrqr_cond), I(pivot), D(gamma), D(beta), I(is_symm), I(no_pre), D(nzp_thres), I(dense_thres)};
#undef D
#undef I
static const int NF = sizeof fl / sizeof *fl;
static double    get(const O &o, int f) { return fl[f].kind ? *(const int *)((const char *)&o + fl[f].off) : *(const double *)((const char *)&o + fl[f].off); }
static std::vector<double> all(const O &o) {
  std::vector<double> v(NF);
  for (int i = 0; i < NF; ++i) v[i] = get(o, i);
  return v;
}
static O marked(int k) {  // distinct values everywhere
  O o = hif::get_default_options();
  for (int i = 0; i < NF; ++i)
    if (fl[i].kind) *(int *)((char *)&o + fl[i].off) = 100 + 7 * i + k;
    else *(double *)((char *)&o + fl[i].off) = 50.25 + 3 * i + k;
  return o;
}
static const double vals[] = {0, 1, -1, 2, 3, 7.75, -2.5, 1e-4, 1e3, 123456};
static const int    NV     = sizeof vals / sizeof *vals;

int main(int argc, char **argv) {
  using mc::Family;
  std::vector<Family> F;
  F.push_back({"defaults", "the documented defaults, from C and from C++", 1, [](mc::Case &c) {
                 const double want[NF] = {1e-4, 1e-4, 3, 3, 10, 10, .5, 10, 2, -1, hif::VERBOSE_WARN, 1, hif::REORDER_AMD, 0, 1, 0, -2, 0, 1, 0, 0, 2, 1, 1e3, 0, 0, .65, 2000};
                 const O a[] = {hif::get_default_options(), hif::get_default_params(), hif::DEFAULT_PARAMS, hif_get_default_options(), hif_get_default_params()};
                 for (auto &o : a)
                   for (int i = 0; i < NF; ++i)
                     if (get(o, i) != want[i]) c.fail("default of %s is %g instead of %g", fl[i].name, get(o, i), want[i]);
                 c.state(1), c.transition(5), c.validated(5);
               }});
  F.push_back({"set", "every name x every value as int and as double, onto options with distinct values, then every second name", (uint64_t)NF * NV * 2, [](mc::Case &c) {
                 const int    f = c.idx % NF, as_int = c.idx / NF % 2;
                 const double v = vals[c.idx / NF / 2];
                 c.desc("%s = %g as %s", fl[f].name, v, as_int ? "int" : "double");
                 for (int g = 0; g < NF; ++g) {
                   O    o = marked(g % 3);
                   auto w = all(o);
                   auto put = [&](int h, double x) {
                     const bool bad = h % 2 ? (as_int ? hif::set_param_attr(fl[h].name, (int)x, o) : hif::set_param_attr(fl[h].name, x, o)) : (as_int ? hif::set_option_attr(fl[h].name, (int)x, o) : hif::set_option_attr(fl[h].name, x, o));
                     w[h] = as_int || fl[h].kind ? (double)(int)x : x;
                     if (bad) c.fail("the option %s is refused", fl[h].name);
                     c.transition();
                     if (all(o) != w) c.fail("setting %s to %g gives the wrong options (%s is %g)", fl[h].name, x, fl[h].name, get(o, h));
                   };
                   put(f, v);
                   put(g, vals[(c.idx + g) % NV]);
                   if (c.nfail) return;
                   c.state(mc::hash_bytes(w.data(), NF * 8));
                   c.validated(2);
                 }
               }});
  F.push_back({"unknown", "every name with one character removed, inserted, replaced, swapped or in the other case, and prefixes: refused without effect", (uint64_t)NF, [](mc::Case &c) {
                 const std::string        s = fl[c.idx].name;
                 std::set<std::string>    t;
                 static const char        al[] = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789_ -.";
                 for (size_t i = 0; i <= s.size(); ++i) {
                   t.insert(s.substr(0, i)), t.insert(s.substr(i));
                   for (const char *a = al; *a; ++a) {
                     t.insert(s.substr(0, i) + *a + s.substr(i));
                     if (i < s.size()) t.insert(s.substr(0, i) + *a + s.substr(i + 1));
                   }
                   if (i < s.size()) t.insert(s.substr(0, i) + s.substr(i + 1));
                   if (i + 1 < s.size()) t.insert(s.substr(0, i) + s[i + 1] + s[i] + s.substr(i + 2));
                 }
                 t.insert(s + std::string(1, '\0'));
                 for (int i = 0; i < NF; ++i) t.erase(fl[i].name), t.insert(s + fl[i].name), t.insert(s + " " + fl[i].name);
                 const auto w = all(marked(1));
                 for (auto &n : t) {
                   c.desc("name '%s'", n.c_str());
                   O o = marked(1);
                   if (!hif::set_option_attr(n, 5, o) || !hif::set_param_attr(n, 2.5, o)) c.fail("the unknown name '%s' is accepted", n.c_str());
                   if (all(o) != w) c.fail("the unknown name '%s' changes options", n.c_str());
                   c.transition(2), c.state(mc::hash_bytes(n.data(), n.size())), c.validated();
                   if (c.nfail) return;
                 }
               }});
  F.push_back({"stream", "reading all options in order: every option x every value, several separators; the stream ending or damaged after every number", (uint64_t)NF * NV * 3, [](mc::Case &c) {
                 const int f = c.idx % NF, sep = c.idx / NF % 3;
                 const double v = vals[c.idx / NF / 3];
                 O src = marked(0);
                 std::vector<std::string> tok;
                 for (int i = 0; i < NF; ++i) {
                   const double x = i == f ? (fl[i].kind ? (double)(int)v : v) : get(src, i);
                   std::ostringstream s;
                   s.precision(17);
                   s << x;
                   tok.push_back(s.str());
                 }
                 static const char *sp[] = {" ", "\n", " \t "};
                 for (int cut = 0; cut <= 2 * NF; ++cut) {
                   const int   k   = cut % (NF + 1);  // numbers before the end or the damage
                   const bool  dmg = cut > NF;
                   std::string txt;
                   for (int i = 0; i < k; ++i) txt += tok[i] + sp[sep];
                   if (dmg) txt += "x";
                   else if (k == NF) txt += "77";
                   c.desc("stream '%s'", txt.c_str());
                   std::istringstream in(txt);
                   O    o = hif::get_default_options();
                   auto w = all(o);
                   in >> o;
                   c.transition();
                   for (int i = 0; i < k; ++i) w[i] = std::stod(tok[i]);
                   const auto g = all(o);
                   for (int i = 0; i < NF; ++i)
                     if (i < k ? g[i] != w[i] : i > k && g[i] != w[i]) {  // a number that cannot be read is zero by the rules of streams
                       c.fail("reading '%s': %s is %g instead of %g", txt.c_str(), fl[i].name, g[i], w[i]);
                       return;
                     }
                   if ((bool)in != (k == NF)) c.fail("reading '%s' %s", txt.c_str(), k == NF ? "fails" : "succeeds");
                   if (k == NF && !dmg) {
                     int rest = 0;
                     in >> rest;
                     if (rest != 77) c.fail("reading options takes away what follows");
                   }
                   c.state(mc::hash_bytes(txt.data(), txt.size())), c.validated();
                   if (c.nfail) return;
                 }
               }});
  F.push_back({"text", "the text of the options: every option x every value, every verbosity mask", (uint64_t)NF * NV + 512, [](mc::Case &c) {
                 O o = marked(0);
                 o.reorder = hif::REORDER_AMD, o.pivot = hif::PIVOTING_OFF, o.verbose = 0, o.check = 1;
                 if (c.idx < (uint64_t)NF * NV) {
                   const int f = c.idx % NF;
                   (void)hif::set_option_attr(fl[f].name, vals[c.idx / NF], o);
                 } else
                   o.verbose = c.idx - NF * NV;
                 const std::string r = hif::opt_repr(o);
                 c.desc("text '%s'", r.c_str());
                 c.transition();
                 std::map<std::string, std::string> m;
                 std::istringstream                 in(r);
                 std::string                        l;
                 while (std::getline(in, l)) {
                   const size_t e = l.find(' ');
                   if (e == std::string::npos) {
                     c.fail("line '%s'", l.c_str());
                     return;
                   }
                   const size_t b = l.find_first_not_of(' ', e);
                   if (m.count(l.substr(0, e))) c.fail("%s appears twice", l.substr(0, e).c_str());
                   m[l.substr(0, e)] = b == std::string::npos ? "" : l.substr(b);
                 }
                 for (int i = 0; i < NF; ++i) {
                   const std::string n = fl[i].name;
                   if (n == "mumps_blr") continue;  // deprecated, without text
                   if (!m.count(n)) {
                     c.fail("%s has no text", n.c_str());
                     return;
                   }
                   const std::string t = m[n];
                   std::string       w;
                   if (n == "check") w = o.check ? "yes" : "no";
                   else if (n == "pivot") w = o.pivot == 0 ? "off" : o.pivot == 1 ? "on" : "auto";
                   else if (n == "reorder") w = o.reorder == 0 ? "Off" : o.reorder == 1 ? "Auto" : o.reorder == 2 ? "AMD" : o.reorder == 3 ? "RCM" : "Null";
                   else if (n == "verbose") {
                     std::set<std::string> got, want;
                     std::istringstream    s(t);
                     std::string           p;
                     while (std::getline(s, p, ',')) got.insert(p);
                     static const struct { int b; const char *n; } vb[] = {{hif::VERBOSE_WARN, "warning"}, {hif::VERBOSE_INFO, "info"}, {hif::VERBOSE_PRE, "pre"}, {hif::VERBOSE_FAC, "fac"}, {hif::VERBOSE_PRE_TIME, "pre_time"}, {hif::VERBOSE_MEM, "mem"}};
                     for (auto &x : vb)
                       if (o.verbose & x.b) want.insert(x.n);
                     if (o.verbose == 0) want = {"none"};
                     got.erase("info2");  // newer level, may or may not have a name
                     if (want != got) c.fail("verbosity %d is shown as '%s'", o.verbose, t.c_str());
                     continue;
                   } else if (fl[i].kind) w = std::to_string((int)get(o, i));
                   else {
                     // digits are free, the value is not
                     if (!(std::fabs(std::stod(t) - get(o, i)) <= 1e-6)) c.fail("%s is shown as %s instead of %g", n.c_str(), t.c_str(), get(o, i));
                     continue;
                   }
                   if (t != w) c.fail("%s is shown as %s instead of %s", n.c_str(), t.c_str(), w.c_str());
                 }
                 c.state(mc::hash_bytes(r.data(), r.size())), c.validated();
               }});
  F.push_back({"verbosity", "switching every flag on from every mask, and off", 256, [](mc::Case &c) {
                 for (int fl_ = -1; fl_ < 256; ++fl_) {
                   O o = marked(2);
                   o.verbose = c.idx;
                   auto w = all(o);
                   O    p = o;
                   hif::enable_verbose(fl_, o);
                   hif_enable_verbose(fl_, &p);
                   hif_enable_verbose(fl_, nullptr);
                   w[10] = fl_ > 0 ? (int)c.idx | fl_ : 0;
                   c.transition(2);
                   if (all(o) != w || all(p) != w) c.fail("flag %d on mask %d gives %d", fl_, (int)c.idx, o.verbose);
                   for (int b = 1; b < 256; b *= 2) {
                     const bool on = (b == 1 && hif_verbose(WARN, o)) || (b == 2 && hif_verbose(INFO, o)) || (b == 4 && hif_verbose(PRE, o)) || (b == 8 && hif_verbose(FAC, o)) || (b == 16 && hif_verbose(PRE_TIME, o)) || (b == 32 && hif_verbose(MEM, o));
                     if (b < 64 && on != (((int)w[10] & b) != 0)) c.fail("level %d is wrong for mask %g", b, w[10]);
                   }
                   c.state(w[10]), c.validated();
                 }
               }});
  return mc::drive(argc, argv, F);
}
