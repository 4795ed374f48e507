// P30: messages and debugging checks change nothing but what is printed
#include <fcntl.h>
#include <regex>
#include <sys/mman.h>
#include <unistd.h>
#include "diag.hpp"
#include "mc.hpp"
#include "spaces.hpp"

// everything written to the standard streams of the process is caught
struct Streams {
  int fd, o, e;
  Streams() : fd(memfd_create("d", 0)), o(dup(1)), e(dup(2)) {
    fflush(stdout), fflush(stderr), std::cout.flush(), std::cerr.flush();
    dup2(fd, 1), dup2(fd, 2);
  }
  std::string stop() {
    fflush(stdout), fflush(stderr), std::cout.flush(), std::cerr.flush();
    dup2(o, 1), dup2(e, 2), close(o), close(e);
    std::string s(lseek(fd, 0, SEEK_END), 0);
    if (s.size() && pread(fd, &s[0], s.size(), 0) < 0) s.clear();
    close(fd);
    return s;
  }
};
static std::vector<long> numbers(const std::string &s, const char *before) {
  std::vector<long> v;
  const size_t      l = strlen(before);
  for (size_t p = s.find(before); p != std::string::npos; p = s.find(before, p + l)) v.push_back(strtol(s.c_str() + p + l, nullptr, 10));
  return v;
}
static long sum(const std::vector<long> &v) {
  long r = 0;
  for (long x : v) r += x;
  return r;
}
// what the messages of the last factorization say must agree with the object
static std::string untrue(const DiagOut &o, int verb) {
  auto        pos = o.out.rfind("enter level 1 ");
  std::string s   = pos == std::string::npos ? "" : o.out.substr(pos);
  if (!(verb & 2) || s.empty()) return "";
  char b[200];
  auto say = [&](const char *what, long a, long e) {
    snprintf(b, sizeof b, "%s: the messages say %ld, the object %ld", what, a, e);
    return std::string(b);
  };
  auto lv = numbers(s, "finish level "), out = numbers(s, "leading block size out="), df = numbers(s, "diff="), td = numbers(s, "total deferrals=");
  if (lv.size() && (long)lv.size() != o.levels) return say("levels", lv.size(), o.levels);
  if (out.size() && out.size() == o.m.size())
    for (size_t i = 0; i < out.size(); ++i)
      if (out[i] != o.m[i]) return say("leading block size", out[i], o.m[i]);
  auto in = numbers(s, "leading block size in=");
  if (in.size() == out.size() && df.size() == in.size())
    for (size_t i = 0; i < in.size(); ++i)
      if (df[i] != in[i] - out[i]) return say("difference of the block sizes", df[i], in[i] - out[i]);
  auto nz = numbers(s, "nnz(precs)="), na = numbers(s, "nnz(A)=");
  if (nz.size() && nz.back() != o.nnz) return say("nnz(precs)", nz.back(), o.nnz);
  if (na.size() && na.back() != o.nnza) return say("nnz(A)", na.back(), o.nnza);
  auto q = numbers(s, "(size,rank)=(");
  if (q.size() && q.back() != o.size) return say("size of the last component", q.back(), o.size);
  auto dd = numbers(s, "diag deferrals="), cd = numbers(s, "inv-norm deferrals="), su = numbers(s, "space drop ut="), sl = numbers(s, "space drop l=");
  if (s.find("directly return") != std::string::npos || (long)dd.size() != o.levels) return "";  // a level was begun and given up
  if (dd.size() && sum(df) != o.stats[0]) return say("deferrals", sum(df), o.stats[0]);
  if (dd.size() && sum(dd) != o.stats[2]) return say("deferrals of small diagonal entries", sum(dd), o.stats[2]);
  if (cd.size() && sum(cd) != o.stats[3]) return say("deferrals of large inverse norms", sum(cd), o.stats[3]);
  if (su.size() && sum(su) + sum(sl) != o.stats[5]) return say("droppings for space", sum(su) + sum(sl), o.stats[5]);
  return "";
}
static std::string differs(const DiagOut &a, const DiagOut &b) {
  static const char *w[] = {"the hierarchy", "the reports", "a solve", "a transposed solve", "a product", "a transposed product", "refinement", "the refinement counts", "refinement with bounds", "the second hierarchy", "the second reports"};
  if (a.thrown != b.thrown) return "an error appears or disappears";
  if (a.dig.size() != b.dig.size()) return "the number of results";
  for (size_t i = 0; i < a.dig.size(); ++i)
    if (a.dig[i] != b.dig[i]) return i < 11 ? w[i] : "a result";
  return "";
}
static bool one(mc::Case &c, const DiagIn &I0, int verb, bool dbg, const DiagOut &ref) {
  DiagIn I = I0;
  I.verb   = verb;
  DiagOut o;
  Streams st;
  if (dbg) diag_debug(I, o);
  else diag_plain(I, o);
  const std::string leak = st.stop();
  c.transition();
  c.state(mc::mix(ref.dig.empty() ? 0 : ref.dig[0], verb));
  const char *b = dbg ? " in the debugging mode" : "";
  std::string d = differs(ref, o);
  if (d.size()) return c.fail("with verbosity %d%s: %s differ%s", verb, b, d.c_str(), ""), false;
  if (leak.size()) return c.fail("with verbosity %d%s something bypasses the output macros: %.60s", verb, b, leak.c_str()), false;
  if (!dbg && verb == 0 && (o.out.size() || o.err.size())) return c.fail("a muted run prints: %.80s", (o.out + o.err).c_str()), false;
  if (!dbg && verb == 1 && o.out.size()) return c.fail("with warnings alone there is progress information: %.80s", o.out.c_str()), false;
  if (!dbg && !(verb & 1) && o.err.size()) return c.fail("warnings without being asked for (verbosity %d): %.80s", verb, o.err.c_str()), false;
  if (!dbg && (verb & 2) && o.out.find("level") == std::string::npos) return c.fail("no progress information in spite of verbosity %d", verb), false;
  d = untrue(o, verb);
  if (d.size()) return c.fail("with verbosity %d%s: %s", verb, b, d.c_str()), false;
  c.validated();
  return true;
}
int main(int argc, char **argv) {
  using mc::Family;
  std::vector<Family> F;
  const int           th = mc::thorough(), nc = diag_configs();
  static const int    ns[] = {4, 9, 18, 33};
  const int           nn = th ? 4 : 3, rot = th ? 64 : 12;
  F.push_back({"verbosity", "20 structure classes x sizes {4,9,18} (33 thorough) x rows/columns, zero- and one-based, real and complex, general and symmetric mode, rotating configurations: every one of the 128 verbosities, and the debugging mode",
               (uint64_t)hx::NSTRUCT * nn * rot * 2, [=](mc::Case &c) {
                 DiagIn I;
                 int    k = (int)c.idx;
                 I.kind = k % hx::NSTRUCT, k /= hx::NSTRUCT;
                 I.n = ns[k % nn], k /= nn;
                 const int sym = k % 2;
                 k /= 2;
                 I.cfg   = (int)((c.idx * 29 + k * 131) % nc);
                 I.style = (int)((c.idx / 3 + k) % 8) | (sym ? 8 | 16 : 0);
                 I.m0    = 0;
                 I.verb  = 0;
                 c.desc("class %d (%s) n=%d configuration %d style %d", I.kind, hx::struct_name(I.kind), I.n, I.cfg, I.style);
                 DiagOut ref;
                 diag_plain(I, ref);
                 c.outcome(ref.thrown.size());
                 for (int v = 0; v < 128; ++v)
                   if (!one(c, I, v, false, ref)) return;
                 for (int v : {0, 1, 2, 127, (int)(c.idx % 128)})
                   if (!one(c, I, v, true, ref)) return;
               }});
  static const int nl[] = {48, 77, 130};
  F.push_back({"large", "20 structure classes x sizes {48,77,130} x configurations: verbosities 0, 1, 2, 4, ..., 64, 126, 127, and the debugging mode", (uint64_t)hx::NSTRUCT * 3 * (th ? 48 : 12) * 2, [=](mc::Case &c) {
                 DiagIn I;
                 int    k = (int)c.idx;
                 I.kind = k % hx::NSTRUCT, k /= hx::NSTRUCT;
                 I.n = nl[k % 3], k /= 3;
                 const int sym = k % 2;
                 k /= 2;
                 I.cfg   = (int)((c.idx * 37 + k * 131) % nc);
                 I.style = (int)((c.idx / 7 + k) % 8) | (sym ? 8 | 16 : 0);
                 I.m0    = 0;
                 I.verb  = 0;
                 c.desc("class %d (%s) n=%d configuration %d style %d", I.kind, hx::struct_name(I.kind), I.n, I.cfg, I.style);
                 DiagOut ref;
                 diag_plain(I, ref);
                 c.outcome(ref.thrown.size());
                 for (int v : {0, 1, 2, 4, 8, 16, 32, 64, 126, 127})
                   if (!one(c, I, v, false, ref)) return;
                 for (int v : {0, 127})
                   if (!one(c, I, v, true, ref)) return;
               }});
  static const int nm[] = {2, 3, 4};
  F.push_back({"block", "leading blocks of every size in systems of order 2 to 4 of all classes (zero- and one-based): 128 verbosities and the debugging mode", (uint64_t)hx::NSTRUCT * 3 * 4 * 4, [=](mc::Case &c) {
                 DiagIn I;
                 int    k = (int)c.idx;
                 I.kind = k % hx::NSTRUCT, k /= hx::NSTRUCT;
                 I.n = nm[k % 3], k /= 3;
                 I.m0 = k % 4 + 1, k /= 4;
                 if (I.m0 > I.n) return c.skip("block larger than the matrix");
                 I.cfg = (int)((c.idx * 31 + k * 131) % nc), I.style = k * 2 % 8 | (k & 1) | 8 | 16, I.verb = 0;
                 c.desc("class %d (%s) n=%d leading block %d configuration %d style %d", I.kind, hx::struct_name(I.kind), I.n, I.m0, I.cfg, I.style);
                 DiagOut ref;
                 diag_plain(I, ref);
                 for (int v = 0; v < 128; ++v)
                   if (!one(c, I, v, false, ref)) return;
                 for (int v : {0, 127})
                   if (!one(c, I, v, true, ref)) return;
               }});
  return mc::drive(argc, argv, F);
}
