#include "sched.hpp"
#include <algorithm>
#include <cxxabi.h>
#include <exception>
#include <malloc.h>
#include <map>
#include <pthread.h>
#include <semaphore.h>
#include <new>
#include <stdarg.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <unistd.h>
namespace sched {
enum { MAXT = 16 };
typedef void (*fn_t)(void *);
enum State { RUNNABLE, AT_BARRIER, BLOCKED, DONE };
struct Team;
struct Thread {
  int       id;  // position in the team
  State     st;
  sem_t     sem;
  pthread_t th;
  fn_t      fn;
  void *    arg;
  Team *    team;
  uint32_t  vc[MAXT];
  void *    wants;   // lock waited for
  int       singles, loops;
  std::function<void()> user;
};
struct Loop {
  long next, end, incr, chunk;
  int  users;
};
struct Team {
  int      n;
  bool     omp;
  Thread   t[MAXT];
  int      phase, cur;
  uint32_t joined[MAXT];
  std::vector<char> singles;
  std::vector<Loop> loops;
};
static Plan     plan;
static Report   rep;
static bool     active;
static Team *   team;     // the only region in progress
static __thread Thread *me;
static __thread int     off;
static long     step;
static uint32_t base[MAXT];  // clocks carried over regions

// ---- shadow memory: per byte the last write and the last reads ----
struct Cell {
  uint16_t wt, nr;
  uint32_t wc;
  uint32_t rc[MAXT];
};
// Cells of 4 bytes serve aligned accesses of whole words, cells of 1 byte all others (neighbouring bytes are separate
// objects); a race between the two kinds would be missed, never invented.
struct Page {
  uint64_t gen, gen1;
  Cell     c[128];
  Cell *   b;  // 512
};
static uint64_t gen = 1;
static const size_t NB = 1 << 20;
static Page **      tab;      // open addressing on page numbers
static uintptr_t *  key;
static Page *page_of(uintptr_t a, bool make) {
  uintptr_t k = a >> 9;
  size_t    h = (k * 0x9E3779B97F4A7C15ull) >> 44;
  for (;; h = (h + 1) & (NB - 1)) {
    if (key[h] == k) break;
    if (!key[h]) {
      if (!make) return 0;
      key[h] = k;
      tab[h] = (Page *)mmap(0, sizeof(Page), PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
      break;
    }
  }
  Page *p = tab[h];
  if (p->gen != gen) {
    memset(p->c, 0, sizeof p->c);
    if (p->b) memset(p->b, 0, 512 * sizeof(Cell));
    p->gen = gen;
  }
  return p;
}
static void init() {
  if (tab) return;
  tab = (Page **)mmap(0, NB * sizeof(Page *), PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  key = (uintptr_t *)mmap(0, NB * sizeof(uintptr_t), PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
}
static void fail(const char *fmt, ...) {
  if (rep.error.size()) return;
  char    b[512];
  va_list ap;
  va_start(ap, fmt);
  vsnprintf(b, sizeof b, fmt, ap);
  va_end(ap);
  ++off;
  rep.error = b;
  --off;
}
extern "C" char __executable_start;
static void maybe_switch();
static void access1(const void *pv, size_t n, bool write, const void *pc) {
  ++step;
  if (!plan.preempt.empty()) maybe_switch();
  Thread *  t = me;
  uintptr_t a = (uintptr_t)pv;
  const int id = t->id;
  const bool words = !((a | n) & 3);
  const int  stp = words ? 4 : 1;
  for (size_t i = 0; i < n; i += stp, a += stp) {
    Page *pg = page_of(a, true);
    if (!words && !pg->b) pg->b = (Cell *)mmap(0, 512 * sizeof(Cell), PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
    Cell &c = words ? pg->c[(a & 511) >> 2] : pg->b[a & 511];
    if (c.wc && c.wt != id && c.wc > t->vc[c.wt]) {
      fail("data race: %s of %zu bytes by thread %d and a write by thread %d are unordered (code at +0x%zx)", write ? "write" : "read", n, id, (int)c.wt, (size_t)((const char *)pc - &__executable_start));
      return;
    }
    if (write) {
      if (c.nr)
        for (int k = 0; k < team->n; ++k)
          if (k != id && c.rc[k] > t->vc[k]) {
            fail("data race: write of %zu bytes by thread %d and a read by thread %d are unordered (code at +0x%zx)", n, id, k, (size_t)((const char *)pc - &__executable_start));
            return;
          }
      c.wt = id, c.wc = t->vc[id];
    } else {
      c.nr = 1;
      c.rc[id] = t->vc[id];
    }
  }
}
static inline void access(const void *pv, size_t n, bool write, const void *pc) {
  if (!active || off || !me || !team) return;
  ++off;  // the wrapped functions are called by the runtime, too
  access1(pv, n, write, pc);
  --off;
}
static bool free_check(const Cell &c) {
  Thread *t = me;
  if (c.wc && c.wt != t->id && c.wc > t->vc[c.wt]) {
    fail("data race: thread %d frees memory written by thread %d without order", t->id, (int)c.wt);
    return false;
  }
  if (c.nr)
    for (int k = 0; k < team->n; ++k)
      if (k != t->id && c.rc[k] > t->vc[k]) {
        fail("data race: thread %d frees memory read by thread %d without order", t->id, k);
        return false;
      }
  return true;
}
// freeing conflicts with every access; the memory may come back as another object
static void freed(void *p) {
  if (!p || !active || !tab) return;
  const size_t n = malloc_usable_size(p);
  uintptr_t    a = (uintptr_t)p, e = a + n;
  bool         check = team && me && !off;
  ++off;
  for (uintptr_t x = a; x < e;) {
    Page *pg = page_of(x, false);
    if (!pg) {
      x = (x | 511) + 1;
      continue;
    }
    if (!(x & 3)) {
      Cell &c = pg->c[(x & 511) >> 2];
      if (check) check = free_check(c);
      memset(&c, 0, sizeof c);
    }
    if (pg->b) {
      Cell &c = pg->b[x & 511];
      if (check) check = free_check(c);
      memset(&c, 0, sizeof c);
      ++x;
    } else
      x = (x | 3) + 1;
  }
  --off;
}
// ---- synchronization clocks (locks, atomics, guards) ----
struct Sync {
  uint32_t vc[MAXT];
  int      owner = -1;
  Sync() { memset(vc, 0, sizeof vc); }
};
static std::map<void *, Sync> *syncs;
static Sync &sync_of(void *p) {
  ++off;
  if (!syncs) syncs = new std::map<void *, Sync>;
  Sync &s = (*syncs)[p];
  --off;
  return s;
}
static void acquire(void *p) {
  if (!active || !me || !team || off) return;
  Sync &s = sync_of(p);
  for (int k = 0; k < MAXT; ++k) me->vc[k] = std::max(me->vc[k], s.vc[k]);
}
static void release(void *p) {
  if (!active || !me || !team || off) return;
  Sync &s = sync_of(p);
  for (int k = 0; k < MAXT; ++k) s.vc[k] = std::max(me->vc[k], s.vc[k]);
  ++me->vc[me->id];
}
// ---- scheduling ----
static int choose() {
  Team *T = team;
  std::vector<int> perm(T->n);
  for (int i = 0; i < T->n; ++i) perm[i] = i;
  if (!plan.order.empty()) {
    int k = plan.order[std::min<size_t>(T->phase, plan.order.size() - 1)];
    for (int i = 0; i < T->n; ++i) {  // k-th permutation
      int r = k % (T->n - i);
      k /= T->n - i;
      std::swap(perm[i], perm[i + r]);
    }
  }
  for (int i : perm)
    if (T->t[i].st == RUNNABLE) return i;
  return -1;
}
static void give(int k) {
  Team *T = team;
  T->cur = k;
  ++rep.switches;
  sem_post(&T->t[k].sem);
}
static void wait_turn(Thread *t) {
  while (sem_wait(&t->sem)) {}
}
// the running thread cannot go on (its state says why): lets another one run
static void reschedule(Thread *t) {
  ++off;
  Team *T = team;
  int   k = choose();
  if (k < 0) {
    int nb = 0, nd = 0, nl = 0;
    for (int i = 0; i < T->n; ++i) nb += T->t[i].st == AT_BARRIER, nd += T->t[i].st == DONE, nl += T->t[i].st == BLOCKED;
    if (nb && nd) fail("%d threads wait at a barrier that %d finished threads never reach", nb, nd);
    else if (nl) fail("deadlock: %d threads wait for locks", nl);
    if (nb || nl) {
      if (nl) {  // cannot be resolved
        fprintf(stderr, "%s\n", rep.error.c_str());
        _exit(99);
      }
      // open the barrier
      uint32_t j[MAXT] = {0};
      for (int i = 0; i < T->n; ++i)
        for (int q = 0; q < MAXT; ++q) j[q] = std::max(j[q], T->t[i].vc[q]);
      for (int i = 0; i < T->n; ++i)
        if (T->t[i].st == AT_BARRIER) {
          memcpy(T->t[i].vc, j, sizeof j);
          ++T->t[i].vc[i];
          T->t[i].st = RUNNABLE;
        }
      ++T->phase;
      ++rep.phases;
      k = choose();
    }
  }
  --off;
  if (k < 0) return;  // all done
  if (t && k == t->id) return;
  give(k);
  if (t && t->st != DONE) wait_turn(t);
}
static void maybe_switch() {
  for (auto &p : plan.preempt)
    if (p.first == step && p.second < team->n && p.second != me->id && team->t[p.second].st == RUNNABLE) {
      give(p.second);
      wait_turn(me);
      return;
    }
}
static void barrier() {
  if (!me || !team || !team->omp || team->n == 1) return;
  me->st = AT_BARRIER;
  reschedule(me);
}
static void lock(void *p) {
  if (!active || !me || !team) return;
  for (;;) {
    Sync &s = sync_of(p);
    if (s.owner < 0) {
      s.owner = me->id;
      acquire(p);
      return;
    }
    me->st = BLOCKED, me->wants = p;
    reschedule(me);
  }
}
static void unlock(void *p) {
  if (!active || !me || !team) return;
  release(p);
  sync_of(p).owner = -1;
  for (int i = 0; i < team->n; ++i)
    if (team->t[i].st == BLOCKED && team->t[i].wants == p) team->t[i].st = RUNNABLE;
}
static void *thread_main(void *v) {
  Thread *t = (Thread *)v;
  me = t;
  wait_turn(t);
  if (t->fn) t->fn(t->arg);
  else t->user();
  t->st = DONE;
  reschedule(t);
  return 0;
}
static void run_team(Team *T) {
  ++off;
  team = T;
  ++rep.regions;
  rep.max_team = std::max<long>(rep.max_team, T->n);
  for (int i = 0; i < T->n; ++i) {
    Thread &t = T->t[i];
    t.id = i, t.st = RUNNABLE, t.team = T, t.wants = 0, t.singles = t.loops = 0;
    for (int k = 0; k < MAXT; ++k) t.vc[k] = base[k];
    ++t.vc[i];
    sem_init(&t.sem, 0, 0);
  }
  ++gen;  // everything before the region is ordered before it
  const int first = T->omp ? 1 : 0;
  for (int i = first; i < T->n; ++i) {
    pthread_attr_t at;
    pthread_attr_init(&at);
    pthread_attr_setstacksize(&at, 1 << 20);
    pthread_create(&T->t[i].th, &at, thread_main, &T->t[i]);
    pthread_attr_destroy(&at);
  }
  --off;
  if (T->omp) {
    me = &T->t[0];
    int k = choose();
    if (k != 0) {
      give(k);
      wait_turn(me);
    }
    me->fn(me->arg);
    me->st = DONE;
    // let the others finish; the last one returns without a successor
    reschedule(me);
    me = 0;
  } else
    give(choose());
  ++off;
  for (int i = first; i < T->n; ++i) pthread_join(T->t[i].th, 0);
  for (int i = 0; i < T->n; ++i) {
    for (int k = 0; k < MAXT; ++k) base[k] = std::max(base[k], T->t[i].vc[k]);
    sem_destroy(&T->t[i].sem);
  }
  team = 0;
  --off;
}
void begin(const Plan &p) {
  init();
  plan = p;
  rep = Report();
  rep.steps = rep.regions = rep.region_requests = rep.max_team = rep.switches = rep.phases = 0;
  step = 0;
  ++gen;
  memset(base, 0, sizeof base);
  if (syncs) syncs->clear();
  active = true;
}
Report end() {
  active = false;
  rep.steps = step;
  return rep;
}
void ignore(bool on) { off += on ? 1 : -1; }
void run_threads(const std::vector<std::function<void()>> &f) {
  Team *T = new Team;
  T->n = f.size(), T->omp = false, T->phase = 0;
  for (int i = 0; i < T->n; ++i) T->t[i].fn = 0, T->t[i].user = f[i];
  run_team(T);
  delete T;
}
}  // namespace sched
using namespace sched;
// ---- OpenMP ----
static thread_local int g_nested = 0;
static bool in_region() { return me && team && team->omp; }
extern "C" {
void GOMP_parallel(fn_t fn, void *data, unsigned num, unsigned) {
  ++rep.region_requests;
  int n = num ? (int)num : plan.hw;
  if (!active || me) n = 1;  // nested regions are serialized
  n = std::min(std::min(n, plan.deliver), (int)MAXT);
  if (n <= 1) {
    if (in_region()) {
      ++g_nested;  // ids of 0 inside
      fn(data);
      --g_nested;
    } else
      fn(data);
    return;
  }
  Team *T = new Team;
  T->n = n, T->omp = true, T->phase = 0;
  for (int i = 0; i < n; ++i) T->t[i].fn = fn, T->t[i].arg = data;
  run_team(T);
  ++off;
  delete T;
  --off;
}
int  omp_get_thread_num() { return in_region() && !g_nested ? me->id : 0; }
int  omp_get_num_threads() { return in_region() && !g_nested ? team->n : 1; }
int  omp_get_max_threads() { return plan.hw; }
int  omp_get_num_procs() { return plan.hw; }
int  omp_in_parallel() { return in_region() && team->n > 1; }
int  omp_get_level() { return in_region() ? 1 + g_nested : 0; }
int  omp_get_dynamic() { return 0; }
int  omp_get_thread_limit() { return MAXT; }
void omp_set_num_threads(int n) { plan.hw = n > 0 ? n : 1; }
void omp_set_dynamic(int) {}
double omp_get_wtime() { return 0; }
void GOMP_barrier() {
  if (!g_nested) barrier();
}
static char the_critical, the_atomic;
void GOMP_critical_start() { lock(&the_critical); }
void GOMP_critical_end() { unlock(&the_critical); }
void GOMP_critical_name_start(void **p) { lock(p); }
void GOMP_critical_name_end(void **p) { unlock(p); }
void GOMP_atomic_start() { lock(&the_atomic); }
void GOMP_atomic_end() { unlock(&the_atomic); }
bool GOMP_single_start() {
  if (!in_region() || g_nested) return true;
  size_t k = me->singles++;
  ++off;
  if (team->singles.size() <= k) team->singles.resize(k + 1);
  --off;
  bool first = !team->singles[k];
  team->singles[k] = 1;
  return first;
}
// work sharing loops (dynamic, guided, runtime) and sections
static bool loop_next(long *s, long *e) {
  static Loop one;
  Loop &l = in_region() && !g_nested ? team->loops[me->loops - 1] : one;
  if (l.incr > 0 ? l.next >= l.end : l.next <= l.end) return false;
  *s = l.next;
  *e = l.next + l.chunk * l.incr;
  if (l.incr > 0 ? *e > l.end : *e < l.end) *e = l.end;
  l.next = *e;
  return true;
}
static bool loop_start(long a, long b, long incr, long chunk, long *s, long *e) {
  if (!in_region() || g_nested) {
    if (incr > 0 ? a >= b : a <= b) return false;
    *s = a, *e = b;
    return true;
  }
  size_t k = me->loops++;
  ++off;
  if (team->loops.size() <= k) team->loops.push_back(Loop{a, b, incr, chunk > 0 ? chunk : 1, 0});
  --off;
  return loop_next(s, e);
}
#define LOOPS(N)                                                                                                                             \
  bool GOMP_loop_##N##_start(long a, long b, long i, long c, long *s, long *e) { return loop_start(a, b, i, c, s, e); }                    \
  bool GOMP_loop_##N##_next(long *s, long *e) { return in_region() && !g_nested ? loop_next(s, e) : false; }                               \
  bool GOMP_loop_ull_##N##_start(bool up, unsigned long long a, unsigned long long b, unsigned long long i, unsigned long long c, unsigned long long *s, unsigned long long *e) { \
    return loop_start(a, b, i, c, (long *)s, (long *)e);                                                                                    \
  }                                                                                                                                          \
  bool GOMP_loop_ull_##N##_next(unsigned long long *s, unsigned long long *e) { return in_region() && !g_nested ? loop_next((long *)s, (long *)e) : false; }
LOOPS(dynamic)
LOOPS(guided)
LOOPS(nonmonotonic_dynamic)
LOOPS(nonmonotonic_guided)
#define RLOOPS(N)                                                                                                        \
  bool GOMP_loop_##N##_start(long a, long b, long i, long *s, long *e) { return loop_start(a, b, i, 1, s, e); }         \
  bool GOMP_loop_##N##_next(long *s, long *e) { return in_region() && !g_nested ? loop_next(s, e) : false; }
RLOOPS(runtime)
RLOOPS(maybe_nonmonotonic_runtime)
struct PL {
  fn_t  fn;
  void *d;
  long  a, b, i, c;
};
#define PLOOPS(N)                                                                                                        \
  void GOMP_parallel_loop_##N(fn_t fn, void *d, unsigned num, long a, long b, long i, long c, unsigned fl) {            \
    PL p{fn, d, a, b, i, c};                                                                                             \
    GOMP_parallel(                                                                                                       \
        [](void *v) {                                                                                                    \
          PL * q = (PL *)v;                                                                                              \
          if (in_region() && !g_nested) {                                                                                \
            ++off;                                                                                                       \
            if (!me->loops++ && team->loops.empty()) team->loops.push_back(Loop{q->a, q->b, q->i, q->c > 0 ? q->c : 1, 0}); \
            --off;                                                                                                       \
          }                                                                                                              \
          q->fn(q->d);                                                                                                   \
        },                                                                                                               \
        &p, num, fl);                                                                                                    \
  }
PLOOPS(dynamic)
PLOOPS(guided)
PLOOPS(nonmonotonic_dynamic)
PLOOPS(nonmonotonic_guided)
void GOMP_loop_end() { GOMP_barrier(); }
void GOMP_loop_end_nowait() {}
unsigned GOMP_sections_start(unsigned n) {
  long s, e;
  return loop_start(1, (long)n + 1, 1, 1, &s, &e) ? s : 0;
}
unsigned GOMP_sections_next() {
  long s, e;
  return in_region() && !g_nested && loop_next(&s, &e) ? s : 0;
}
void GOMP_sections_end() { GOMP_barrier(); }
void GOMP_sections_end_nowait() {}
void GOMP_parallel_sections(fn_t fn, void *d, unsigned num, unsigned n, unsigned fl) {
  PL p{fn, d, 1, (long)n + 1, 1, 1};
  GOMP_parallel(
      [](void *v) {
        PL *q = (PL *)v;
        if (in_region() && !g_nested) {
          ++off;
          if (!me->loops++ && team->loops.empty()) team->loops.push_back(Loop{q->a, q->b, q->i, 1, 0});
          --off;
        }
        q->fn(q->d);
      },
      &p, num, fl);
}
// ---- instrumentation ----
#define PC __builtin_return_address(0)
void __tsan_init() {}
void __tsan_func_entry(void *) {}
void __tsan_func_exit() {}
#define RW(N)                                                                      \
  void __tsan_read##N(void *p) { access(p, N, false, PC); }                        \
  void __tsan_write##N(void *p) { access(p, N, true, PC); }                        \
  void __tsan_unaligned_read##N(void *p) { access(p, N, false, PC); }              \
  void __tsan_unaligned_write##N(void *p) { access(p, N, true, PC); }              \
  void __tsan_volatile_read##N(void *p) { access(p, N, false, PC); }               \
  void __tsan_volatile_write##N(void *p) { access(p, N, true, PC); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_read_range(void *p, unsigned long n) { access(p, n, false, PC); }
void __tsan_write_range(void *p, unsigned long n) { access(p, n, true, PC); }
void __tsan_vptr_update(void **p, void *) { access(p, 8, true, PC); }
void __tsan_vptr_read(void **p) { access(p, 8, false, PC); }
#define SC __ATOMIC_SEQ_CST
#define ATOM(B, T)                                                                                                                           \
  T __tsan_atomic##B##_load(const volatile T *p, int mo) {                                                                                      \
    if (mo) acquire((void *)p);                                                                                                                      \
    return __atomic_load_n(p, SC);                                                                                                           \
  }                                                                                                                                          \
  void __tsan_atomic##B##_store(volatile T *p, T v, int mo) {                                                                                   \
    if (mo) release((void *)p);                                                                                                                      \
    __atomic_store_n(p, v, SC);                                                                                                              \
  }                                                                                                                                          \
  RMW(B, T, exchange, exchange_n) RMW(B, T, fetch_add, fetch_add) RMW(B, T, fetch_sub, fetch_sub)                                            \
  RMW(B, T, fetch_or, fetch_or) RMW(B, T, fetch_and, fetch_and) RMW(B, T, fetch_xor, fetch_xor)                                              \
  bool __tsan_atomic##B##_compare_exchange_strong(volatile T *p, T *e, T v, int, int) {                                                      \
    acquire((void *)p), release((void *)p);                                                                                                  \
    return __atomic_compare_exchange_n(p, e, v, false, SC, SC);                                                                              \
  }                                                                                                                                          \
  bool __tsan_atomic##B##_compare_exchange_weak(volatile T *p, T *e, T v, int a, int b) { return __tsan_atomic##B##_compare_exchange_strong(p, e, v, a, b); } \
  T __tsan_atomic##B##_compare_exchange_val(volatile T *p, T e, T v, int, int) {                                                             \
    acquire((void *)p), release((void *)p);                                                                                                  \
    __atomic_compare_exchange_n(p, &e, v, false, SC, SC);                                                                                    \
    return e;                                                                                                                                \
  }
#define RMW(B, T, N, OP)                                                                                                                     \
  T __tsan_atomic##B##_##N(volatile T *p, T v, int mo) {                                                                                        \
    if (mo) acquire((void *)p), release((void *)p);                                                                                                  \
    return __atomic_##OP(p, v, SC);                                                                                                          \
  }
ATOM(8, uint8_t) ATOM(16, uint16_t) ATOM(32, uint32_t) ATOM(64, uint64_t)
void __tsan_atomic_thread_fence(int) {}
void __tsan_atomic_signal_fence(int) {}
// block operations and memory management of the instrumented unit (linked with --wrap)
void *__real_memcpy(void *, const void *, size_t);
void *__real_memmove(void *, const void *, size_t);
void *__real_memset(void *, int, size_t);
void  __real_free(void *);
void *__real_realloc(void *, size_t);
int   __real___cxa_guard_acquire(void *);
void  __real___cxa_guard_release(void *);
void *__wrap_memcpy(void *d, const void *s, size_t n) {
  access(s, n, false, PC), access(d, n, true, PC);
  return __real_memcpy(d, s, n);
}
void *__wrap_memmove(void *d, const void *s, size_t n) {
  access(s, n, false, PC), access(d, n, true, PC);
  return __real_memmove(d, s, n);
}
void *__wrap_memset(void *d, int v, size_t n) {
  access(d, n, true, PC);
  return __real_memset(d, v, n);
}
void __wrap_free(void *p) {
  freed(p);
  __real_free(p);
}
int __wrap___cxa_guard_acquire(void *g) {
  lock(g);
  int r = __real___cxa_guard_acquire(g);
  if (!r) unlock(g);
  return r;
}
void __wrap___cxa_guard_release(void *g) {
  __real___cxa_guard_release(g);
  unlock(g);
}
}
void *operator new(size_t n) {
  void *p = malloc(n ? n : 1);
  if (!p) throw std::bad_alloc();
  return p;
}
void *operator new[](size_t n) { return operator new(n); }
void *operator new(size_t n, const std::nothrow_t &) noexcept { return malloc(n ? n : 1); }
void *operator new[](size_t n, const std::nothrow_t &) noexcept { return malloc(n ? n : 1); }
void  operator delete(void *p) noexcept {
  freed(p);
  free(p);
}
void operator delete[](void *p) noexcept { operator delete(p); }
void operator delete(void *p, size_t) noexcept { operator delete(p); }
void operator delete[](void *p, size_t) noexcept { operator delete(p); }
