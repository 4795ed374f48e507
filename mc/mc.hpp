// Bounded exhaustive explorer used by every check.
//
// A check is a list of families. A family is a finite, index-addressed set of
// cases [0,N); a case runs one (or a small fixed group of) execution(s) of the
// real code and compares it with a reference model. The driver enumerates every
// index of every family (never samples), in parallel forked workers so that a
// crash, a sanitizer report or a hang in the code under test is attributed to
// the case that caused it and the enumeration continues behind it.
// A failing case is re-executed alone in a fresh process before it is reported.
#pragma once
#include <errno.h>
#include <fcntl.h>
#include <poll.h>
#include <signal.h>
#include <stdarg.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>
#include <algorithm>
#include <atomic>
#include <functional>
#include <map>
#include <stdexcept>
#include <string>
#include <unordered_set>
#include <vector>

#if defined(__SANITIZE_ADDRESS__)
extern "C" __attribute__((weak, visibility("default"))) const char *__asan_default_options() {
  return "detect_leaks=0:exitcode=77:allocator_may_return_null=1:handle_abort=0:"
         "abort_on_error=0:detect_stack_use_after_return=0:quarantine_size_mb=16:"
         "malloc_context_size=12:max_allocation_size_mb=4096";
}
#endif

namespace mc {

inline double now() {
  timespec t;
  clock_gettime(CLOCK_MONOTONIC, &t);
  return t.tv_sec + 1e-9 * t.tv_nsec;
}

inline uint64_t mix(uint64_t h, uint64_t v) {
  h ^= v + 0x9e3779b97f4a7c15ull + (h << 6) + (h >> 2);
  h *= 0xff51afd7ed558ccdull;
  h ^= h >> 32;
  return h;
}
inline uint64_t hash_bytes(const void *p, size_t n, uint64_t h = 1469598103934665603ull) {
  const unsigned char *c = (const unsigned char *)p;
  for (size_t i = 0; i < n; ++i) h = (h ^ c[i]) * 1099511628211ull;
  return h;
}

enum { MAXVIO = 64, MAXSAMPLE = 3, NREASON = 16, NKNOWN = 64 };

struct VioRec {
  char     key[256];
  char     msg[1500];
  char     desc[3000];
  uint64_t idx;
  int      crash;
  int      known;  // index into known list or -1
};

struct Slot {  // one per worker, shared with the parent
  std::atomic<uint64_t> cur;  // index being executed; ~0 when idle
  std::atomic<double>   t0;
  char                  desc[3000];
  char                  key[256];
};

struct SkipRec {
  char                  reason[96];
  std::atomic<uint64_t> n;
};

struct Shared {
  std::atomic<uint64_t> next, done, transitions, validated, evals;
  std::atomic<int>      nvio, nsample, stop, nhang;
  VioRec                vio[MAXVIO];
  char                  sample[MAXSAMPLE][3000];
  SkipRec               skip[NREASON];
  std::atomic<int>      skiplock;
  std::atomic<uint64_t> known[NKNOWN];
  std::atomic<uint64_t> maxerr_bits;
  Slot                  slot[64];
};

struct Known {
  std::string key, text;
};
inline std::vector<Known> &known_list() {
  static std::vector<Known> k;
  return k;
}
inline bool glob_match(const char *p, const char *s) {
  for (; *p; ++p, ++s) {
    if (*p == '*') {
      while (*p == '*') ++p;
      if (!*p) return true;
      for (; *s; ++s)
        if (glob_match(p, s)) return true;
      return false;
    }
    if (*p != *s) return false;
  }
  return !*s;
}
inline int match_known(const char *key) {
  for (size_t i = 0; i < known_list().size() && i < NKNOWN; ++i)
    if (glob_match(known_list()[i].key.c_str(), key)) return (int)i;
  return -1;
}

class Case {
 public:
  Shared *                     sh;
  Slot *                       slot;
  uint64_t                     idx;
  bool                         replay;
  std::unordered_set<uint64_t> *states, *outcomes;
  int                          nfail = 0;

  // describe what is being executed (kept in shared memory: survives crashes)
  void desc(const char *fmt, ...) __attribute__((format(printf, 2, 3))) {
    va_list ap;
    va_start(ap, fmt);
    vsnprintf(slot->desc, sizeof slot->desc, fmt, ap);
    va_end(ap);
  }
  void desc_s(const std::string &s) { desc("%s", s.c_str()); }
  // the stable identity of the scenario class, used for known-findings
  void key(const char *fmt, ...) __attribute__((format(printf, 2, 3))) {
    va_list ap;
    va_start(ap, fmt);
    vsnprintf(slot->key, sizeof slot->key, fmt, ap);
    va_end(ap);
  }
  bool state(uint64_t h) { return states->insert(h).second; }
  void outcome(uint64_t h) { outcomes->insert(h); }
  void transition(uint64_t n = 1) { sh->transitions += n; }
  void validated(uint64_t n = 1) { sh->validated += n; }
  void eval(uint64_t n = 1) { sh->evals += n; }
  void sample() {
    int k = sh->nsample.load();
    if (k < MAXSAMPLE && sh->nsample.compare_exchange_strong(k, k + 1)) memcpy(sh->sample[k], slot->desc, sizeof slot->desc);
  }
  void skip(const char *reason) {
    for (int i = 0; i < NREASON; ++i) {
      if (!sh->skip[i].reason[0]) {
        while (sh->skiplock.exchange(1)) {
        }
        if (!sh->skip[i].reason[0]) snprintf(sh->skip[i].reason, sizeof sh->skip[i].reason, "%s", reason);
        sh->skiplock = 0;
      }
      if (!strcmp(sh->skip[i].reason, reason)) {
        ++sh->skip[i].n;
        return;
      }
    }
  }
  void fail(const char *fmt, ...) __attribute__((format(printf, 2, 3))) {
    char    m[1500];
    va_list ap;
    va_start(ap, fmt);
    vsnprintf(m, sizeof m, fmt, ap);
    va_end(ap);
    ++nfail;
    record(sh, idx, slot->key, m, slot->desc, 0);
    if (replay) fprintf(stdout, "FAIL %s: %s\n  case: %s\n", slot->key, m, slot->desc), fflush(stdout);
  }
  static void record(Shared *sh, uint64_t idx, const char *key, const char *msg, const char *desc, int crash) {
    int kn = match_known(key);
    if (kn >= 0) {
      if (sh->known[kn]++) return;  // keep the first occurrence only
    }
    int k = sh->nvio++;
    if (k >= MAXVIO) {
      sh->nvio = MAXVIO;
      return;
    }
    VioRec &v = sh->vio[k];
    snprintf(v.key, sizeof v.key, "%s", key);
    snprintf(v.msg, sizeof v.msg, "%s", msg);
    snprintf(v.desc, sizeof v.desc, "%s", desc);
    v.idx   = idx;
    v.crash = crash;
    v.known = kn;
    if (k >= 24) sh->stop = 1;
    if (crash == 2 && ++sh->nhang >= 3) sh->stop = 1;
  }
};

struct Family {
  std::string                name;
  std::string                what;     // the space that is enumerated, in words
  uint64_t                   N;
  std::function<void(Case &)> fn;
  double                     timeout = 20.0;
  int                        workers = 0;  // 0: one per core
};

inline std::string jstr(const std::string &s) {
  std::string o = "\"";
  for (unsigned char c : s) {
    if (c == '"' || c == '\\') {
      o += '\\';
      o += c;
    } else if (c < 32 || c >= 127) {
      char b[8];
      snprintf(b, sizeof b, "\\u%04x", c);
      o += b;
    } else
      o += c;
  }
  return o + "\"";
}

// run one case in this process
inline void exec_case(const Family &f, Case &c) {
  c.slot->desc[0] = 0;
  snprintf(c.slot->key, sizeof c.slot->key, "%s", f.name.c_str());
  try {
    f.fn(c);
  } catch (const std::exception &e) {
    c.fail("unexpected exception: %s", e.what());
  } catch (...) {
    c.fail("unexpected non-standard exception");
  }
}

inline std::string read_tail(const std::string &path) {
  std::string s;
  FILE *      f = fopen(path.c_str(), "r");
  if (!f) return s;
  char b[4096];
  while (size_t n = fread(b, 1, sizeof b, f)) {
    s.append(b, n);
    if (s.size() > (1u << 22)) s.erase(0, s.size() - (1u << 20));
  }
  fclose(f);
  size_t p = s.rfind("==ERROR: AddressSanitizer");
  if (p == std::string::npos) p = s.rfind("runtime error:");
  if (p != std::string::npos) {
    std::string t = s.substr(p, 1200);
    for (auto &ch : t)
      if (ch == '\n') ch = '|';
    return t;
  }
  if (s.size() > 400) s.erase(0, s.size() - 400);
  for (auto &ch : s)
    if (ch == '\n') ch = '|';
  return s;
}

// run one case alone in a forked child; returns "" if it passes, else a message
inline std::string run_alone(const Family &f, uint64_t idx, const std::string &tmp, double timeout, VioRec *out) {
  Shared *sh = (Shared *)mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  memset((void *)sh, 0, sizeof *sh);
  std::string err = tmp + "/alone.err";
  fflush(stdout);
  fflush(stderr);
  pid_t pid = fork();
  if (!pid) {
    int fd = open(err.c_str(), O_WRONLY | O_CREAT | O_TRUNC | O_APPEND, 0600);
    dup2(fd, 2);
    fd = open("/dev/null", O_WRONLY);
    dup2(fd, 1);
    std::unordered_set<uint64_t> s, o;
    Case                         c{sh, &sh->slot[0], idx, false, &s, &o};
    exec_case(f, c);
    _exit(0);
  }
  double t0 = now();
  int    st = 0;
  bool   hang = false;
  for (;;) {
    pid_t r = waitpid(pid, &st, WNOHANG);
    if (r == pid) break;
    if (now() - t0 > timeout) {
      kill(pid, SIGKILL);
      waitpid(pid, &st, 0);
      hang = true;
      break;
    }
    usleep(2000);
  }
  std::string res;
  if (hang) {
    res = "no termination";
    char m[100];
    snprintf(m, sizeof m, "no termination within %.0f s", timeout);
    Case::record(sh, idx, sh->slot[0].key, m, sh->slot[0].desc, 2);
  } else if (!(WIFEXITED(st) && WEXITSTATUS(st) == 0)) {
    char m[1400];
    if (WIFSIGNALED(st))
      snprintf(m, sizeof m, "crash: signal %d; %.1200s", WTERMSIG(st), read_tail(err).c_str());
    else
      snprintf(m, sizeof m, "crash: exit code %d; %.1200s", WEXITSTATUS(st), read_tail(err).c_str());
    Case::record(sh, idx, sh->slot[0].key, m, sh->slot[0].desc, 1);
    res = m;
  }
  // report the first violation that is not a known one, else the first one
  int pick = -1;
  for (int i = 0; i < sh->nvio && i < MAXVIO; ++i)
    if (pick < 0 || (sh->vio[pick].known >= 0 && sh->vio[i].known < 0)) pick = i;
  if (pick >= 0) {
    if (out) *out = sh->vio[pick];
    res = sh->vio[pick].msg;
  }
  munmap(sh, sizeof *sh);
  unlink(err.c_str());
  return res;
}

struct FamResult {
  uint64_t                                      N, done, states, outcomes, transitions, validated, evals;
  bool                                          exhaustive;
  std::vector<VioRec>                           vio;
  std::vector<std::string>                      samples;
  std::vector<std::pair<std::string, uint64_t>> skips;
  double                                        wall;
};

inline FamResult run_family(const Family &f, const std::string &tmp, int ncores, double deadline) {
  FamResult R{};
  double    T0 = now();
  Shared *  sh = (Shared *)mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  memset((void *)sh, 0, sizeof *sh);
  int                W = f.workers ? f.workers : ncores;
  if ((uint64_t)W > f.N) W = f.N ? (int)f.N : 1;
  if (W > 60) W = 60;
  std::vector<pid_t> pids(W, 0);
  std::vector<int>   gen(W, 0);
  for (int i = 0; i < W; ++i) sh->slot[i].cur = ~0ull;
  uint64_t chunk = f.N / (uint64_t)(W * 64);
  if (chunk < 1) chunk = 1;
  if (chunk > 64) chunk = 64;
  std::vector<std::string> sfiles;
  auto                     spawn = [&](int w, uint64_t from, uint64_t to) {
    char sf[600];
    snprintf(sf, sizeof sf, "%s/w%d_%d.states", tmp.c_str(), w, gen[w]++);
    sfiles.push_back(sf);
    fflush(stdout);
    fflush(stderr);
    pid_t pid = fork();
    if (pid) {
      pids[w] = pid;
      return;
    }
    char ef[600];
    snprintf(ef, sizeof ef, "%s/w%d.err", tmp.c_str(), w);
    int fd = open(ef, O_WRONLY | O_CREAT | O_TRUNC | O_APPEND, 0600);
    dup2(fd, 2);
    int nfd = open("/dev/null", O_WRONLY);
    dup2(nfd, 1);
    std::unordered_set<uint64_t> S, O;
    auto                         flush_sets = [&]() {
      FILE *   o  = fopen(sf, "wb");
      uint64_t n1 = S.size(), n2 = O.size();
      fwrite(&n1, 8, 1, o);
      for (uint64_t h : S) fwrite(&h, 8, 1, o);
      fwrite(&n2, 8, 1, o);
      for (uint64_t h : O) fwrite(&h, 8, 1, o);
      fclose(o);
    };
    uint64_t lo = from, hi = to;
    int      cnt = 0;
    for (;;) {
      for (; lo < hi; ++lo) {
        if (sh->stop) break;
        if (f.N > 2000 && now() > deadline) {
          sh->stop = 2;
          break;
        }
        sh->slot[w].t0  = now();
        sh->slot[w].cur = lo;
        Case c{sh, &sh->slot[w], lo, false, &S, &O};
        exec_case(f, c);
        if (lo % (f.N / 3 + 1) == f.N / 7 % (f.N / 3 + 1)) c.sample();
        sh->slot[w].cur = ~0ull;
        ++sh->done;
        if (++cnt % 4096 == 0) {
          if (lseek(fd, 0, SEEK_CUR) > (8 << 20)) { int rc = ftruncate(fd, 0); (void)rc; }
        }
      }
      if (sh->stop) break;
      lo = sh->next.fetch_add(chunk);
      if (lo >= f.N) break;
      hi = std::min(f.N, lo + chunk);
    }
    flush_sets();
    _exit(0);
  };
  for (int w = 0; w < W; ++w) spawn(w, 0, 0);
  int alive = W;
  while (alive) {
    usleep(3000);
    for (int w = 0; w < W; ++w) {
      if (!pids[w]) continue;
      int      st   = 0;
      bool     hang = false;
      pid_t    r    = waitpid(pids[w], &st, WNOHANG);
      uint64_t cur  = sh->slot[w].cur;
      if (r == 0) {
        if (cur != ~0ull && now() - sh->slot[w].t0 > f.timeout) {
          kill(pids[w], SIGKILL);
          waitpid(pids[w], &st, 0);
          hang = true;
        } else
          continue;
      }
      pids[w] = 0;
      if (!hang && WIFEXITED(st) && WEXITSTATUS(st) == 0) {
        --alive;
        continue;
      }
      // crash or hang at `cur`
      char        ef[600], m[1400];
      snprintf(ef, sizeof ef, "%s/w%d.err", tmp.c_str(), w);
      if (hang)
        snprintf(m, sizeof m, "no termination within %.0f s", f.timeout);
      else if (WIFSIGNALED(st))
        snprintf(m, sizeof m, "crash: signal %d; %.1200s", WTERMSIG(st), read_tail(ef).c_str());
      else
        snprintf(m, sizeof m, "crash: exit code %d; %.1200s", WEXITSTATUS(st), read_tail(ef).c_str());
      if (cur == ~0ull) {
        snprintf(sh->slot[w].key, sizeof sh->slot[w].key, "worker");
        cur = f.N;
      }
      Case::record(sh, cur, sh->slot[w].key, m, sh->slot[w].desc, hang ? 2 : 1);
      ++sh->done;
      // continue behind the failing case, up to the end of its chunk
      uint64_t lo = cur + 1, hi = std::min(f.N, (cur / chunk + 1) * chunk);
      sh->slot[w].cur = ~0ull;
      if (sh->stop || cur >= f.N)
        --alive;
      else
        spawn(w, lo, hi);
    }
  }
  // merge state sets
  {
    std::unordered_set<uint64_t> S, O;
    for (auto &s : sfiles) {
      FILE *o = fopen(s.c_str(), "rb");
      if (!o) continue;
      uint64_t n, h;
      if (fread(&n, 8, 1, o) == 1)
        while (n-- && fread(&h, 8, 1, o) == 1) S.insert(h);
      if (fread(&n, 8, 1, o) == 1)
        while (n-- && fread(&h, 8, 1, o) == 1) O.insert(h);
      fclose(o);
      unlink(s.c_str());
    }
    R.states   = S.size();
    R.outcomes = O.size();
  }
  R.N           = f.N;
  R.done        = sh->done;
  R.transitions = sh->transitions;
  R.validated   = sh->validated;
  R.evals       = sh->evals;
  R.exhaustive  = sh->done >= f.N;
  for (int i = 0; i < sh->nvio && i < MAXVIO; ++i) R.vio.push_back(sh->vio[i]);
  for (int i = 0; i < sh->nsample; ++i) R.samples.push_back(sh->sample[i]);
  for (int i = 0; i < NREASON && sh->skip[i].reason[0]; ++i) R.skips.push_back({sh->skip[i].reason, sh->skip[i].n.load()});
  munmap(sh, sizeof *sh);
  R.wall = now() - T0;
  return R;
}

// Driver. Options: --out FILE (json) --known FILE --tmp DIR --deadline SECONDS
//                  --family NAME --idx I   (replay one case in this process)
inline int drive(int argc, char **argv, const std::vector<Family> &fams) {
  std::string out, known, tmp = "/tmp", rfam;
  uint64_t    ridx     = ~0ull;
  double      deadline = 1e18;
  int         ncores   = (int)sysconf(_SC_NPROCESSORS_ONLN);
  for (int i = 1; i < argc; ++i) {
    std::string a = argv[i];
    auto        v = [&]() { return std::string(i + 1 < argc ? argv[++i] : ""); };
    if (a == "--out") out = v();
    else if (a == "--known") known = v();
    else if (a == "--tmp") tmp = v();
    else if (a == "--deadline") deadline = now() + atof(v().c_str());
    else if (a == "--family") rfam = v();
    else if (a == "--idx") ridx = strtoull(v().c_str(), 0, 10);
    else if (a == "--cores") ncores = atoi(v().c_str());
    else if (a == "--list") {
      for (auto &f : fams) printf("%s N=%llu : %s\n", f.name.c_str(), (unsigned long long)f.N, f.what.c_str());
      return 0;
    }
  }
  if (!known.empty()) {
    FILE *f = fopen(known.c_str(), "r");
    char  b[4096];
    while (f && fgets(b, sizeof b, f)) {
      char *t = strchr(b, '\t');
      if (!t) continue;
      *t = 0;
      for (char *e = t + 1; *e; ++e)
        if (*e == '\n') *e = 0;
      known_list().push_back({b, t + 1});
    }
    if (f) fclose(f);
  }
  if (ridx != ~0ull) {
    for (auto &f : fams)
      if (f.name == rfam) {
        Shared *sh = (Shared *)mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
        memset((void *)sh, 0, sizeof *sh);
        std::unordered_set<uint64_t> s, o;
        Case                         c{sh, &sh->slot[0], ridx, true, &s, &o};
        exec_case(f, c);
        printf("replayed %s/%llu: %s\n  case: %s\n", f.name.c_str(), (unsigned long long)ridx,
               c.nfail ? "FAILED" : "passed", sh->slot[0].desc);
        return c.nfail ? 1 : 0;
      }
    fprintf(stderr, "no such family %s\n", rfam.c_str());
    return 2;
  }
  std::string js = "{\"families\":[";
  bool        first = true;
  int         total = 0;
  for (auto &f : fams) {
    if (!rfam.empty() && f.name != rfam) continue;
    if (total >= 3) {
      fprintf(stdout, "family %s not explored: violations were already found\n", f.name.c_str());
      continue;
    }
    FamResult R = run_family(f, tmp, ncores, deadline);
    // replay before report
    std::vector<VioRec> conf;
    int                 nonrep = 0, nconf = 0;
    for (auto &v : R.vio) {
      if (nconf >= 3) break;
      VioRec w = v;
      bool   again = false;
      if (v.known >= 0) {
        conf.push_back(v);
        continue;
      }
      for (int t = 0; t < (v.crash == 2 ? 1 : 3) && !again; ++t)
        again = !run_alone(f, v.idx, tmp, f.timeout * 4, &w).empty() && w.known < 0;
      if (again) {
        conf.push_back(w);
        ++nconf;
      } else
        ++nonrep;
    }
    total += nconf;
    char b[900];
    snprintf(b, sizeof b,
             "%s{\"name\":%s,\"what\":%s,\"N\":%llu,\"done\":%llu,\"exhaustive\":%s,\"states\":%llu,\"outcomes\":%llu,"
             "\"transitions\":%llu,\"validated\":%llu,\"evals\":%llu,\"wall\":%.2f,\"nonreproducible\":%d,",
             first ? "" : ",", jstr(f.name).c_str(), jstr(f.what.substr(0, 480)).c_str(), (unsigned long long)R.N,
             (unsigned long long)R.done, R.exhaustive ? "true" : "false", (unsigned long long)R.states,
             (unsigned long long)R.outcomes, (unsigned long long)R.transitions, (unsigned long long)R.validated,
             (unsigned long long)R.evals, R.wall, nonrep);
    first = false;
    js += b;
    js += "\"skips\":{";
    for (size_t i = 0; i < R.skips.size(); ++i)
      js += (i ? "," : "") + jstr(R.skips[i].first) + ":" + std::to_string(R.skips[i].second);
    js += "},\"samples\":[";
    for (size_t i = 0; i < R.samples.size(); ++i) js += (i ? "," : "") + jstr(R.samples[i]);
    js += "],\"violations\":[";
    for (size_t i = 0; i < conf.size(); ++i)
      js += std::string(i ? "," : "") + "{\"idx\":" + std::to_string(conf[i].idx) + ",\"key\":" + jstr(conf[i].key) +
            ",\"msg\":" + jstr(conf[i].msg) + ",\"desc\":" + jstr(conf[i].desc) +
            ",\"known\":" + std::to_string(conf[i].known) + "}";
    js += "]}";
    fprintf(stdout,
            "family %-28s cases=%llu/%llu states=%llu outcomes=%llu transitions=%llu validated=%llu violations=%zu "
            "nonrep=%d %.1fs\n",
            f.name.c_str(), (unsigned long long)R.done, (unsigned long long)R.N, (unsigned long long)R.states,
            (unsigned long long)R.outcomes, (unsigned long long)R.transitions, (unsigned long long)R.validated,
            conf.size(), nonrep, R.wall);
    for (auto &s : R.skips) fprintf(stdout, "   skipped: %s = %llu\n", s.first.c_str(), (unsigned long long)s.second);
    fflush(stdout);
  }
  js += "]}";
  if (!out.empty()) {
    FILE *o = fopen(out.c_str(), "w");
    fputs(js.c_str(), o);
    fclose(o);
  }
  return 0;
}

inline bool thorough() {
  const char *t = getenv("VERIF_TIER");
  return t && !strcmp(t, "thorough");
}

}  // namespace mc
