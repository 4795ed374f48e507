// P22 (PROP=22): what is written reads back exactly; files mean what the MatrixMarket format says; failed writes are reported.
// P23 (PROP=23): damaged files are refused or read consistently, without memory errors, hangs or leaked files.
#include <set>
#include "spaces.hpp"
#include <unistd.h>
#include <signal.h>
#include <sys/resource.h>
#include <fstream>
using namespace hx;

template <class T> struct Coo {
  int n, m;
  std::map<std::pair<int, int>, T> e;
};
struct Tmp {
  std::string p;
  Tmp() : p("io-" + std::to_string(getpid()) + ".mm") {}
  ~Tmp() { unlink(p.c_str()); }
  void put(const std::string &s) const {
    FILE *f = std::fopen(p.c_str(), "w");
    std::fwrite(s.data(), 1, s.size(), f);
    std::fclose(f);
  }
  std::string get() const {
    std::ifstream f(p);
    std::stringstream o;
    o << f.rdbuf();
    return o.str();
  }
};
static int next_fd() {
  int f = dup(0);
  close(f);
  return f;
}
template <class T> static bool same(const T &a, const T &b) { return std::memcmp(&a, &b, sizeof(T)) == 0; }
template <class R> static bool same(const std::complex<R> &a, const std::complex<R> &b) { return same(a.real(), b.real()) && same(a.imag(), b.imag()); }

template <class Cs> static std::string compare(const Cs &S, const Coo<typename Cs::value_type> &W) {
  typedef typename Cs::value_type T;
  std::ostringstream o;
  if ((int)S.nrows() != W.n || (int)S.ncols() != W.m) {
    o << "shape " << S.nrows() << "x" << S.ncols() << ", not " << W.n << "x" << W.m;
    return o.str();
  }
  const int pri = Cs::ROW_MAJOR ? W.n : W.m;
  if ((int)S.ind_start().size() != pri + 1) return "starting positions of another size";
  if (S.ind_start()[0] != 0 || (size_t)S.ind_start()[pri] != W.e.size() || S.inds().size() != W.e.size() || S.vals().size() != W.e.size()) {
    o << S.inds().size() << " entries, not " << W.e.size();
    return o.str();
  }
  for (int i = 0; i < pri; ++i)
    for (auto k = S.ind_start()[i]; k < S.ind_start()[i + 1]; ++k) {
      auto j = S.inds()[k];
      if (k > S.ind_start()[i] && j <= S.inds()[k - 1]) return "unsorted entries";
      auto it = W.e.find(Cs::ROW_MAJOR ? std::make_pair(i, (int)j) : std::make_pair((int)j, i));
      if (it == W.e.end()) return "an entry that is not in the file";
      if (!same<T>(it->second, S.vals()[k])) {
        o.precision(17);
        o << "entry (" << it->first.first << "," << it->first.second << ") is " << S.vals()[k] << ", not " << it->second;
        return o.str();
      }
    }
  return "";
}
template <class Cs> static std::string wellformed(const Cs &S) {
  const size_t pri = Cs::ROW_MAJOR ? S.nrows() : S.ncols(), sec = Cs::ROW_MAJOR ? S.ncols() : S.nrows();
  if (S.ind_start().size() != pri + 1 || S.ind_start()[0] != 0) return "bad starting positions";
  for (size_t i = 0; i < pri; ++i) {
    if (S.ind_start()[i + 1] < S.ind_start()[i] || (size_t)S.ind_start()[i + 1] > S.inds().size()) return "decreasing starting positions";
    for (auto k = S.ind_start()[i]; k < S.ind_start()[i + 1]; ++k)
      if (S.inds()[k] < 0 || (size_t)S.inds()[k] >= sec) return "an index out of range";
  }
  if ((size_t)S.ind_start()[pri] != S.inds().size() || S.inds().size() != S.vals().size()) return "arrays of different sizes";
  return "";
}

template <class T> struct Nasty {
  static T v(int k) {
    static const double t[] = {1.0 / 3, -2.0, 5e-324, 1e308, -1.7976931348623157e308, 2.2250738585072014e-308, 0.1, -1e-17, 123456789.123456789, 0.0, -0.0, 9007199254740993.0};
    return T(t[k % 12]);
  }
};
template <> struct Nasty<float> {
  static float v(int k) {
    static const float t[] = {1.0f / 3, -2.0f, 1e-45f, 3e38f, -3.40282347e38f, 1.17549435e-38f, 0.1f, -1e-17f, 123456.789f, 0.0f, -0.0f, 16777217.0f};
    return t[k % 12];
  }
};
template <class R> struct Nasty<std::complex<R>> {
  static std::complex<R> v(int k) { return std::complex<R>(Nasty<R>::v(k), Nasty<R>::v(k + 5)); }
};
template <class Cs> static Cs build(const Coo<typename Cs::value_type> &W) {
  Cs S;
  S.resize(W.n, W.m);
  const int pri = Cs::ROW_MAJOR ? W.n : W.m;
  S.ind_start().resize(pri + 1);
  S.ind_start()[0] = 0;
  for (int i = 0; i < pri; ++i) {
    for (int j = 0; j < (Cs::ROW_MAJOR ? W.m : W.n); ++j) {
      auto it = W.e.find(Cs::ROW_MAJOR ? std::make_pair(i, j) : std::make_pair(j, i));
      if (it != W.e.end()) S.inds().push_back(j), S.vals().push_back(it->second);
    }
    S.ind_start()[i + 1] = S.inds().size();
  }
  return S;
}

// bit k of a pattern; matrices of more than 12 cells: a structure by its number
static bool cell(uint64_t bits, int n, int m, int i, int j) {
  if (n * m <= 12) return bits >> (i * m + j) & 1;
  switch (bits % 5) {
    case 0: return true;
    case 1: return std::abs(i - j) <= 1;
    case 2: return i == n - 1 || j == m - 1 || i == j;
    case 3: return mc::mix(i * 1000 + j, 2) % 9 == 0;
    default: return (i + 2 * j) % 5 == 0 && i % 7 != 3;
  }
}
template <class T> static void roundtrip(mc::Case &c, int n, int m, uint64_t bits) {
  Coo<T> W;
  W.n = n, W.m = m;
  for (int i = 0; i < n * m; ++i)
    if (cell(bits, n, m, i / m, i % m)) W.e[{i / m, i % m}] = Nasty<T>::v(i + (int)(bits % 7));
  c.desc("%s%s, %dx%d, pattern %llx", is_cplx<T>::value ? "complex " : "", sizeof(typename real_of<T>::type) == 8 ? "double" : "single", n, m, (unsigned long long)bits);
  c.state(mc::mix(mc::mix(n, m), bits));
  Tmp t;
  for (int w = 0; w < 3; ++w) {
    if (w == 0) build<hif::CRS<T, int>>(W).write_mm(t.p.c_str());
    else if (w == 1) build<hif::CCS<T, int>>(W).write_mm(t.p.c_str());
    else build<hif::CRS<T,long,long>>(W).write_mm(t.p.c_str());
    const std::string s[] = {compare(hif::CRS<T, int>::from_mm(t.p.c_str()), W), compare(hif::CCS<T, int>::from_mm(t.p.c_str()), W), compare(hif::CRS<T,long,long>::from_mm(t.p.c_str()), W), compare(hif::CCS<T, long, long>::from_mm(t.p.c_str()), W)};
    c.transition(5);
    for (int k = 0; k < 4; ++k) {
      if (s[k].size()) {
        c.fail("written by %s, read by %s: %s", w == 1 ? "columns" : "rows", k % 2 ? "columns" : "rows", s[k].c_str());
        return;
      }
      c.validated();
    }
    // reading into an object in use
    Coo<T> O;
    O.n = 2, O.m = 3, O.e[{1, 2}] = T(5), O.e[{0, 0}] = T(4);
    auto B = build<hif::CRS<T, int>>(O);
    B.read_mm(t.p.c_str());
    auto s2 = compare(B, W);
    if (s2.size()) {
      c.fail("read into a matrix in use: %s", s2.c_str());
      return;
    }
    // the file, by the format
    std::istringstream f(t.get());
    std::string l;
    std::getline(f, l);
    std::string h = std::string("%%MatrixMarket matrix coordinate ") + (is_cplx<T>::value ? "complex" : "real") + " general";
    if (l != h) c.fail("the first line is \"%s\"", l.c_str());
    while (f.peek() == '%') std::getline(f, l);
    long a, b, z, i, j;
    f >> a >> b >> z;
    if (a != n || b != m || z != (long)W.e.size()) c.fail("the size line is %ld %ld %ld", a, b, z);
    std::set<std::pair<long, long>> seen;
    for (long k = 0; k < z; ++k) {
      std::string x, y = "0";
      f >> i >> j >> x;
      if (is_cplx<T>::value) f >> y;
      auto it = W.e.find({(int)i - 1, (int)j - 1});
      if (!f || it == W.e.end() || !seen.insert({i, j}).second || !((typename real_of<T>::type)std::strtod(x.c_str(), 0) == std::real(it->second)) ||
          !((typename real_of<T>::type)std::strtod(y.c_str(), 0) == std::imag(it->second))) {
        c.fail("line %ld of the entries is wrong", k);
        return;
      }
    }
    f >> l;
    if (f) c.fail("there is more behind the last entry");
  }
}
template <class T> static void vec_roundtrip(mc::Case &c, int n, int rot) {
  c.desc("vector of length %d, rotation %d", n, rot);
  hif::Array<T> v(n), o(7);
  for (int i = 0; i < n; ++i) v[i] = Nasty<T>::v(i + rot);
  Tmp t;
  v.write_mm(t.p.c_str());
  auto w = hif::Array<T>::from_mm(t.p.c_str());
  o.read_mm(t.p.c_str());
  c.transition(3);
  if (w.size() != v.size() || o.size() != v.size()) {
    c.fail("length %zu reads back as %zu/%zu", v.size(), w.size(), o.size());
    return;
  }
  for (int i = 0; i < n; ++i)
    if (!same<T>(v[i], w[i]) || !same<T>(v[i], o[i])) {
      c.fail("entry %d differs", i);
      return;
    }
  c.validated(2);
}

// files written by others: layout variants
static std::string number(double v, int style) {
  char b[64];
  std::snprintf(b, sizeof b, style == 0 ? "%.17g" : style == 1 ? "%.17e" : style == 2 ? "%+.17E" : "%25.17g", v);
  return b;
}
template <class T> static void layout(mc::Case &c, int scheme, int n, int m, uint64_t bits, int lay, int comments = 0) {
  const bool re = !is_cplx<T>::value;
  static const char *sn[4][2] = {{"general", "General"}, {"symmetric", "SYMMETRIC"}, {"hermitian", "Hermitian"}, {"skew-symmetric", "Skew-Symmetric"}};
  Coo<T> W;
  W.n = n, W.m = m;
  std::vector<std::string> lines;
  int bit = 0;
  const std::string sep = lay % 3 == 0 ? " " : lay % 3 == 1 ? "\t" : "   ";
  for (int i = 0; i < n; ++i)
    for (int j = 0; j < m; ++j) {
      if (scheme && j > i) continue;
      if (scheme == 3 && i == j) continue;
      if (n * m > 12 ? !cell(bits, n, m, i, j) : !(bits >> bit++ & 1)) continue;
      double r = 0.1 * (1 + i) - 1.75 * j, im = re || (scheme == 2 && i == j) ? 0.0 : 0.7 - i + j;
      T v = Mk<T>::mk(r, im);
      if (!re) v = Mk<T>::mk(r, im);
      W.e[{i, j}] = v;
      if (scheme && i != j) W.e[{j, i}] = scheme == 1 ? v : scheme == 2 ? T(conj_(v)) : T(-v);
      std::string l = std::to_string(i + 1) + sep + std::to_string(j + 1) + sep + number(std::real(v), lay % 4);
      if (!re) l += sep + number(std::imag(v), (lay + 1) % 4);
      lines.push_back(l);
    }
  if (lay & 1) std::reverse(lines.begin(), lines.end());
  if (lay & 2)
    for (size_t k = 0; k + 1 < lines.size(); k += 2) std::swap(lines[k], lines[k + 1]);
  std::string f = "%%MatrixMarket ";
  f += lay & 4 ? "MATRIX  Coordinate " : "matrix coordinate ";
  f += lay & 8 ? (re ? "Real " : "COMPLEX ") : (re ? "real " : "complex ");
  f += sn[scheme][lay >> 1 & 1];
  f += "\n";
  if (lay & 1) f += "% a comment\n%\n%%x 3 3 3\n";
  if (comments) {
    static const int len[] = {0, 60, 79, 127, 128, 255, 256, 1000, 1019, 1020};  // within the line length of the format
    for (int k = 0; k < 40; ++k) f += "%" + std::string(len[(k + comments) % 10], k % 3 ? ' ' : '7') + "\n";
  }
  if (lay & 8) f += "\n";  // blank line before the sizes
  f += (lay & 4 ? "  " : "") + std::to_string(n) + sep + std::to_string(m) + sep + std::to_string(lines.size()) + (lay & 2 ? " \n" : "\n");
  for (size_t k = 0; k < lines.size(); ++k) f += (lay & 4 ? " " : "") + lines[k] + (k + 1 == lines.size() && (lay & 1) ? "" : lay & 8 && k == 0 ? "\n\n" : "\n");
  c.desc("layout %d of a %dx%d %s file:\n%s", lay, n, m, sn[scheme][0], f.c_str());
  c.state(mc::mix(mc::mix(scheme, n * 8 + m), bits));
  Tmp t;
  t.put(f);
  const int fd = next_fd();
  const std::string s[] = {compare(hif::CRS<T, int>::from_mm(t.p.c_str()), W), compare(hif::CCS<T, int>::from_mm(t.p.c_str()), W)};
  c.transition(2);
  for (int k = 0; k < 2; ++k) {
    if (s[k].size()) {
      c.fail("read by %s: %s", k ? "columns" : "rows", s[k].c_str());
      return;
    }
    c.validated();
  }
  if (fd != next_fd()) c.fail("the file stays open");
}
// writes that fail after any number of bytes
template <class T> static void short_write(mc::Case &c, int what, long limit, bool &past) {
  Tmp t;
  Coo<T> W;
  W.n = 3, W.m = 3;
  for (int i = 0; i < 5; ++i) W.e[{i * 2 / 3, i * 2 % 3}] = Nasty<T>::v(i);
  auto S = build<hif::CRS<T, int>>(W);
  auto C = build<hif::CCS<T, int>>(W);
  hif::Array<T> v(4);
  for (int i = 0; i < 4; ++i) v[i] = Nasty<T>::v(i);
  auto go = [&]() {
    if (what == 0) S.write_mm(t.p.c_str());
    else if (what == 1) C.write_mm(t.p.c_str());
    else v.write_mm(t.p.c_str());
  };
  go();
  const std::string full = t.get();
  unlink(t.p.c_str());
  c.desc("writing a %s of %zu bytes with room for %ld", what == 2 ? "vector" : "matrix", full.size(), limit);
  struct rlimit o, l;
  getrlimit(RLIMIT_FSIZE, &o);
  l = o, l.rlim_cur = limit;
  signal(SIGXFSZ, SIG_IGN);
  bool thrown = false;
  setrlimit(RLIMIT_FSIZE, &l);
  try {
    go();
  } catch (const std::exception &) { thrown = true; }
  setrlimit(RLIMIT_FSIZE, &o);
  c.transition();
  const std::string got = t.get();
  if (!thrown && got != full) c.fail("%zu of %zu bytes are written and no error is reported", got.size(), full.size());
  if (thrown && (size_t)limit >= full.size()) c.fail("an error is reported although everything fits");
  c.validated();
}

// ---- P23: damaged files
static std::vector<std::string> base_files() {
  return {"%%MatrixMarket matrix coordinate real general\n% c\n3 2 3\n1 1 1.5\n3 2 -2e0\n2 1 .25\n", "%%MatrixMarket matrix coordinate real symmetric\n2 2 2\n1 1 1.5\n2 1 2\n",
          "%%MatrixMarket matrix coordinate complex hermitian\n\n2 2 2\n2 2 1 0\n2 1 3 -4.5\n", "%%MatrixMarket matrix array real general\n%\n3 1\n1.5\n-2\n3e1\n",
          "%%MatrixMarket matrix array complex general\n2 2\n1.5 1\n-2 0\n1 1\n2 2\n", "%%MatrixMarket matrix coordinate real skew-symmetric\n3 3 2\n2 1 1.5\n3 2 2\n"};
}
// files of many lines
static std::vector<std::string> long_files() {
  std::vector<std::string> r(3);
  r[0] = "%%MatrixMarket matrix coordinate real general\n%\n40 41 79\n";
  for (int i = 1; i <= 40; ++i) {
    r[0] += std::to_string(i) + " " + std::to_string(i) + " 1." + std::to_string(i) + "\n";
    if (i < 40) r[0] += std::to_string(i) + " 41 -2\n";
  }
  r[1] = "%%MatrixMarket matrix coordinate complex hermitian\n33 33 65\n";
  for (int i = 1; i <= 33; ++i) {
    r[1] += std::to_string(i) + " " + std::to_string(i) + " 3 0\n";
    if (i > 1) r[1] += std::to_string(i) + " 1 -2 " + std::to_string(i) + "\n";
  }
  r[2] = "%%MatrixMarket matrix array real general\n70 1\n";
  for (int i = 0; i < 70; ++i) r[2] += std::to_string(i) + ".5\n";
  return r;
}
static bool full_int(const std::string &s, long &v) {
  if (s.empty()) return false;
  char *e;
  v = std::strtol(s.c_str(), &e, 10);
  return *e == 0 && s.size() < 9;
}
static bool full_dbl(const std::string &s, double &v) {
  if (s.empty()) return false;
  for (char ch : s)
    if (!std::strchr("0123456789+-.eE", ch)) return false;
  char *e;
  v = std::strtod(s.c_str(), &e);
  return *e == 0;
}
enum { MUST_FAIL, MUST_READ, EITHER };
struct Parsed {
  int verdict;
  bool sparse, real;
  Coo<cd> W;
  std::vector<cd> v;
};
static Parsed judge(const std::string &f) {
  Parsed p;
  p.verdict = EITHER;
  if (f.find('\0') != std::string::npos) return p;
  if (f.empty()) {
    p.verdict = MUST_FAIL;
    return p;
  }
  auto eol = f.find('\n');
  std::istringstream h(f.substr(0, eol));
  std::vector<std::string> tk;
  std::string s;
  while (h >> s) tk.push_back(s);
  if (tk.size() < 5) {
    p.verdict = MUST_FAIL;
    return p;
  }
  for (size_t i = 1; i < tk.size(); ++i)
    for (auto &ch : tk[i]) ch = std::tolower(ch);
  if (tk[0] != "%%MatrixMarket" || tk[1] != "matrix" || (tk[2] != "coordinate" && tk[2] != "array") || (tk[3] != "real" && tk[3] != "complex") ||
      (tk[4] != "general" && tk[4] != "symmetric" && tk[4] != "hermitian" && tk[4] != "skew-symmetric")) {
    p.verdict = MUST_FAIL;
    return p;
  }
  p.sparse = tk[2] == "coordinate", p.real = tk[3] == "real";
  const int scheme = tk[4] == "general" ? 0 : tk[4] == "symmetric" ? 1 : tk[4] == "hermitian" ? 2 : 3;
  if (tk.size() > 5) return p;
  // comments, then tokens
  std::istringstream b(eol == std::string::npos ? "" : f.substr(eol + 1));
  std::string rest, l;
  bool comments = true;
  while (std::getline(b, l)) {
    if (comments && l[0] == '%') continue;
    comments = false;
    if (l.find('%') != std::string::npos) return p;  // comment somewhere else
    for (char ch : l)
      if (ch == '\v' || ch == '\f' || ch == '\r') return p;
    rest += l + "\n";
  }
  std::istringstream r(rest);
  std::vector<std::string> t;
  while (r >> s) t.push_back(s);
  const size_t ns = p.sparse ? 3 : 2;
  if (t.size() < ns) {
    p.verdict = MUST_FAIL;
    return p;
  }
  // the sizes stand on one line
  {
    std::istringstream q(rest);
    std::string a;
    do std::getline(q, a);
    while (q && a.find_first_not_of(" \t") == std::string::npos);
    std::istringstream w(a);
    size_t k = 0;
    while (w >> s) ++k;
    if (k != ns) return p;
  }
  long sz[3] = {0, 0, 0};
  for (size_t i = 0; i < ns; ++i)
    if (!full_int(t[i], sz[i])) return p;
  for (size_t i = 0; i < ns; ++i) {
    if (sz[i] < 0) {
      p.verdict = MUST_FAIL;
      return p;
    }
  }
  size_t k = ns;
  const size_t per = (p.sparse ? 2 : 0) + (p.real ? 1 : 2), cnt = p.sparse ? sz[2] : sz[0];
  bool range = true, dup = false;
  p.W.n = sz[0], p.W.m = sz[1];
  for (size_t q = 0; q < cnt; ++q) {
    if (k + per > t.size()) {
      for (size_t o = 0; k < t.size(); ++k, ++o) {
        double d;
        long   l;
        if (p.sparse && o < 2 ? !full_int(t[k], l) : !full_dbl(t[k], d)) return p;  // may be scanned in pieces
      }
      p.verdict = MUST_FAIL;
      return p;
    }
    long i = 1, j = 1;
    double x, y = 0;
    if (p.sparse && (!full_int(t[k], i) || !full_int(t[k + 1], j))) return p;
    k += p.sparse ? 2 : 0;
    if (!full_dbl(t[k++], x)) return p;
    if (!p.real && !full_dbl(t[k++], y)) return p;
    if (p.sparse) {
      if (i < 1 || j < 1 || i > sz[0] || j > sz[1]) {
        p.verdict = MUST_FAIL;  // nothing read before it matters
        return p;
      }
      if (scheme && (j > sz[0] || i > sz[1])) {
        p.verdict = MUST_FAIL;
        return p;
      }
      cd v(x, y);
      dup = dup || p.W.e.count({i - 1, j - 1});
      p.W.e[{i - 1, j - 1}] = v;
      if (scheme && i != j) {
        dup = dup || p.W.e.count({j - 1, i - 1});
        p.W.e[{j - 1, i - 1}] = scheme == 1 ? v : scheme == 2 ? std::conj(v) : -v;
      }
    } else p.v.push_back(cd(x, y));
  }
  (void)range;
  if (dup || k < t.size()) {  // repeated entries or trailing text: left open (an array file has further columns)
    if (dup || p.sparse) return p;
  }
  p.verdict = MUST_READ;
  return p;
}
template <class T> static Coo<T> narrow(const Coo<cd> &W) {
  Coo<T> r;
  r.n = W.n, r.m = W.m;
  for (auto &x : W.e) r.e[x.first] = Mk<T>::mk(x.second.real(), x.second.imag());
  return r;
}
template <class Cs> static void read_one(mc::Case &c, const std::string &path, const Parsed &p) {
  typedef typename Cs::value_type T;
  const bool mine = p.verdict == EITHER || (p.sparse && p.real == !is_cplx<T>::value);
  Cs S;
  bool thrown = false;
  const int fd = next_fd();
  try {
    S = Cs::from_mm(path.c_str());
  } catch (const std::exception &) { thrown = true; }
  c.transition();
  if (fd != next_fd()) {
    c.fail("the file stays open after %s", thrown ? "an error" : "reading");
    return;
  }
  if (!thrown) {
    if (p.verdict == MUST_FAIL || !mine) {
      c.fail("the file is accepted as a %s matrix", is_cplx<T>::value ? "complex" : "real");
      return;
    }
    auto s = p.verdict == MUST_READ ? compare(S, narrow<T>(p.W)) : wellformed(S);
    if (s.size()) c.fail("read by %s: %s", Cs::ROW_MAJOR ? "rows" : "columns", s.c_str());
  } else if (p.verdict == MUST_READ && mine)
    c.fail("a valid file is refused");
  c.validated();
}
template <class T> static void read_vec(mc::Case &c, const std::string &path, const Parsed &p) {
  const bool mine = p.verdict == EITHER || (!p.sparse && p.real == !is_cplx<T>::value);
  hif::Array<T> v;
  bool thrown = false;
  const int fd = next_fd();
  try {
    v = hif::Array<T>::from_mm(path.c_str());
  } catch (const std::exception &) { thrown = true; }
  c.transition();
  if (fd != next_fd()) {
    c.fail("the file stays open after %s", thrown ? "an error" : "reading");
    return;
  }
  if (!thrown) {
    if (p.verdict == MUST_FAIL || !mine) {
      c.fail("the file is accepted as a %s vector", is_cplx<T>::value ? "complex" : "real");
      return;
    }
    if (p.verdict == MUST_READ) {
      bool ok = v.size() == p.v.size();
      for (size_t i = 0; ok && i < v.size(); ++i) ok = v[i] == Mk<T>::mk(p.v[i].real(), p.v[i].imag());
      if (!ok) c.fail("the vector differs from the file");
    }
  } else if (p.verdict == MUST_READ && mine)
    c.fail("a valid file is refused");
  c.validated();
}
static void damaged(mc::Case &c, const std::string &f) {
  Parsed p = judge(f);
  std::string sh;
  for (char ch : f) sh += ch == '\n' ? std::string("|") : ch == 0 ? std::string("\\0") : std::string(1, ch);
  c.desc("%s: %s", p.verdict == MUST_FAIL ? "invalid" : p.verdict == MUST_READ ? "valid" : "unclear", sh.substr(0, 400).c_str());
  c.state(mc::hash_bytes(f.data(), f.size()));
  c.outcome(p.verdict);
  Tmp t;
  t.put(f);
  read_one<hif::CRS<double, int>>(c, t.p, p);
  if (!c.nfail) read_one<hif::CCS<cd, int>>(c, t.p, p);
  if (!c.nfail) read_one<hif::CCS<double, long>>(c, t.p, p);
  if (!c.nfail) read_vec<double>(c, t.p, p);
  if (!c.nfail) read_vec<cd>(c, t.p, p);
}

int main(int argc, char **argv) {
  using mc::Family;
  std::vector<Family> F;
#if PROP == 22
  std::vector<std::pair<int, int>> sh;
  std::vector<uint64_t> off(1, 0);
  const int mx = mc::thorough() ? 9 : 8;
  for (int n = 0; n <= 4; ++n)
    for (int m = 0; m <= 4; ++m)
      if (n * m <= mx) sh.push_back({n, m}), off.push_back(off.back() + (1ull << n * m));
  const uint64_t N = off.back();
  F.push_back({"roundtrip", "all patterns of all shapes up to 4x4 with at most 8 (9 thorough) cells x 4 value types with extreme values: written by rows and columns, read back by both, in 3 index type pairs", N * 4, [=](mc::Case &c) {
                 uint64_t k = c.idx / 4;
                 size_t s = std::upper_bound(off.begin(), off.end(), k) - off.begin() - 1;
                 uint64_t b = k - off[s];
                 if (c.idx % 4 == 0) roundtrip<double>(c, sh[s].first, sh[s].second, b);
                 else if (c.idx % 4 == 1) roundtrip<float>(c, sh[s].first, sh[s].second, b);
                 else if (c.idx % 4 == 2) roundtrip<cd>(c, sh[s].first, sh[s].second, b);
                 else roundtrip<cf>(c, sh[s].first, sh[s].second, b);
               }});
  F.push_back({"vectors", "vectors of all lengths up to 15 x 12 rotations of extreme values x 4 value types", 16 * 12 * 4, [=](mc::Case &c) {
                 int n = c.idx / 48, r = c.idx / 4 % 12;
                 if (c.idx % 4 == 0) vec_roundtrip<double>(c, n, r);
                 else if (c.idx % 4 == 1) vec_roundtrip<float>(c, n, r);
                 else if (c.idx % 4 == 2) vec_roundtrip<cd>(c, n, r);
                 else vec_roundtrip<cf>(c, n, r);
               }});
  F.push_back({"layouts", "files of other writers: 4 storage schemes, all patterns (2x2, 2x3 general; 3x3 symmetric kinds) x 16 layouts (order, separators, number formats, case, comments, blank lines)", (16 + 64 + 3 * 64) * 16 * 2, [=](mc::Case &c) {
                 int lay = c.idx % 16, t = c.idx / 16 % 2, k = c.idx / 32;
                 int sch = k < 80 ? 0 : 1 + (k - 80) / 64;
                 uint64_t b = k < 16 ? k : k < 80 ? k - 16 : (k - 80) % 64;
                 int n = k < 16 ? 2 : k < 80 ? 2 : 3, m = k < 16 ? 2 : 3;
                 if (sch == 2 && t == 0) {
                   c.skip("Hermitian files are complex");
                   return;
                 }
                 if (t) layout<cd>(c, sch, n, m, b, lay);
                 else layout<double>(c, sch, n, m, b, lay);
               }});
  static const int ls[][2] = {{40, 40}, {1, 200}, {200, 1}, {23, 57}, {64, 65}};
  F.push_back({"large", "5 shapes up to 200 rows or columns x 5 structures x 4 value types, vectors of 100 to 5000 entries", 5 * 5 * 4 + 4 * 4, [=](mc::Case &c) {
                 const int t = c.idx % 4;
                 if (c.idx >= 100) {
                   const int n = std::vector<int>{100, 255, 1024, 5000}[(c.idx - 100) / 4];
                   if (t == 0) vec_roundtrip<double>(c, n, 1);
                   else if (t == 1) vec_roundtrip<float>(c, n, 1);
                   else if (t == 2) vec_roundtrip<cd>(c, n, 1);
                   else vec_roundtrip<cf>(c, n, 1);
                   return;
                 }
                 const int n = ls[c.idx / 20][0], m = ls[c.idx / 20][1], b = c.idx / 4 % 5;
                 if (t == 0) roundtrip<double>(c, n, m, b);
                 else if (t == 1) roundtrip<float>(c, n, m, b);
                 else if (t == 2) roundtrip<cd>(c, n, m, b);
                 else roundtrip<cf>(c, n, m, b);
               }});
  F.push_back({"large_layouts", "files of other writers: orders 30 and 70 x 4 storage schemes x 5 structures x 16 layouts x real/complex x without and with long comments", 2 * 4 * 5 * 16 * 2 * 3, [=](mc::Case &c) {
                 uint64_t  k    = c.idx;
                 auto      take = [&](int q) { int r = k % q; k /= q; return r; };
                 const int lay = take(16), t = take(2), sch = take(4), b = take(5), com = take(3), n = take(2) ? 70 : 30;
                 if (sch == 2 && t == 0) {
                   c.skip("Hermitian files are complex");
                   return;
                 }
                 if (t) layout<cd>(c, sch, n, sch ? n : n + 11, b, lay, com);
                 else layout<double>(c, sch, n, sch ? n : n + 11, b, lay, com);
               }});
  F.push_back({"short_writes", "writes that fail after k bytes, for every k", 320 * 3 * 2, [=](mc::Case &c) {
                 bool past = false;
                 if (c.idx & 1) short_write<cd>(c, c.idx / 2 % 3, c.idx / 6, past);
                 else short_write<double>(c, c.idx / 2 % 3, c.idx / 6, past);
               }});
#else
  auto B = base_files();
  std::vector<uint64_t> off(1, 0);
  for (auto &b : B) off.push_back(off.back() + b.size() + 1);
  auto locate = [=](uint64_t k, size_t &f, size_t &pos) {
    f = std::upper_bound(off.begin(), off.end(), k) - off.begin() - 1;
    pos = k - off[f];
  };
  F.push_back({"truncate", "every prefix of 6 base files", off.back(), [=](mc::Case &c) {
                 size_t f, p;
                 locate(c.idx, f, p);
                 damaged(c, B[f].substr(0, p));
               }});
  static const char AL[] = {'\n', ' ', '-', '9', 'x', '%', '.', '0', '2', 'e', '\0', '\t'};
  static const int NA = sizeof AL;
  F.push_back({"substitute", "every byte of every base file replaced by each of 12 bytes", off.back() * NA, [=](mc::Case &c) {
                 size_t f, p;
                 locate(c.idx / NA, f, p);
                 std::string s = B[f];
                 if (p >= s.size()) return;
                 s[p] = AL[c.idx % NA];
                 damaged(c, s);
               }});
  F.push_back({"insert", "each of 12 bytes inserted at every position", off.back() * NA, [=](mc::Case &c) {
                 size_t f, p;
                 locate(c.idx / NA, f, p);
                 std::string s = B[f];
                 s.insert(p, 1, AL[c.idx % NA]);
                 damaged(c, s);
               }});
  F.push_back({"delete", "every run of up to 8 bytes deleted", off.back() * 8, [=](mc::Case &c) {
                 size_t f, p;
                 locate(c.idx / 8, f, p);
                 std::string s = B[f];
                 s.erase(p, 1 + c.idx % 8);
                 damaged(c, s);
               }});
  // the same in files of many lines
  static const auto LF = long_files();
  static std::vector<uint64_t> lo(1, 0);
  for (auto &b : LF) lo.push_back(lo.back() + b.size() + 1);
  static const char AL2[] = {'x', '-', '\n', ' '};
  F.push_back({"long", "three files of 65 to 79 lines: every prefix, every byte replaced by each of 4, every byte deleted, every line deleted or doubled", lo.back() * 7, [=](mc::Case &c) {
                 const uint64_t k = c.idx / 7;
                 const int      w = c.idx % 7;
                 const size_t   f = std::upper_bound(lo.begin(), lo.end(), k) - lo.begin() - 1, p = k - lo[f];
                 std::string    s = LF[f];
                 if (w == 0) s = s.substr(0, p);
                 else if (p >= s.size()) return;
                 else if (w < 5) s[p] = AL2[w - 1];
                 else if (w == 5) s.erase(p, 1);
                 else {
                   if (p && s[p - 1] != '\n') return;
                   const size_t e = s.find('\n', p);
                   if (f % 2) s.erase(p, e - p + 1);
                   else s.insert(p, s.substr(p, e - p + 1));
                 }
                 damaged(c, s);
               }});
  // token mutations: each token replaced by each of a list
  static const char *TK[] = {"", "0", "-1", "1", "2", "4", "99", "1.5", "x", "%", "-", "1e", "nan", "100000", "general", "1 1", "array", "complex", "coordinate", "symmetric",
                             "aaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaa"};
  static const int NT = sizeof TK / sizeof TK[0];
  std::vector<std::vector<std::pair<size_t, size_t>>> tok;
  std::vector<uint64_t> toff(1, 0);
  for (auto &b : B) {
    std::vector<std::pair<size_t, size_t>> t;
    for (size_t i = 0; i < b.size();) {
      if (isspace(b[i])) {
        ++i;
        continue;
      }
      size_t j = i;
      while (j < b.size() && !isspace(b[j])) ++j;
      t.push_back({i, j - i});
      i = j;
    }
    tok.push_back(t);
    toff.push_back(toff.back() + t.size() * t.size());
  }
  const int NT2 = mc::thorough() ? NT : 9;
  static const int few[] = {1, 2, 5, 7, 8, 9, 14, 16, 20};
  F.push_back({"tokens", "every token, and every pair of tokens, of every base file replaced from a list of 21 (pairs: 9 quick) tokens", toff.back() * NT * NT2, [=](mc::Case &c) {
                 uint64_t k = c.idx;
                 int a = k % NT, b = k / NT % NT2;
                 k /= NT * NT2;
                 size_t f = std::upper_bound(toff.begin(), toff.end(), k) - toff.begin() - 1;
                 size_t q = k - toff[f], i = q / tok[f].size(), j = q % tok[f].size();
                 if (i > j || (i == j && b)) return;
                 if (i != j && !mc::thorough() && std::find(few, few + 9, a) == few + 9) return;
                 std::string s = B[f];
                 if (i != j) s.replace(tok[f][j].first, tok[f][j].second, TK[mc::thorough() ? b : few[b]]);
                 s.replace(tok[f][i].first, tok[f][i].second, TK[a]);
                 damaged(c, s);
               }});
#endif
  return mc::drive(argc, argv, F);
}
