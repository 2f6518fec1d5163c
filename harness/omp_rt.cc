// A controlled OpenMP runtime for code compiled by clang with -fopenmp -fsanitize=thread. One thread of a team runs at a
// time; at every synchronisation operation the next thread is chosen by the explorer. The compiler's memory-access
// callbacks feed a happens-before check (vector clocks, exact to the byte), so that an unsynchronised pair of accesses is
// found on any schedule on which both are executed, not only when they collide.
#include "omp_rt.hpp"
#include "../shim_omp/omp.h"
#include <pthread.h>
#include <semaphore.h>
#include <dlfcn.h>
#include <malloc.h>
#include <sys/mman.h>
#include <cxxabi.h>
#include <cstdarg>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cmath>
#include <ctime>
#include <map>
#include <set>
#include <mutex>
#include <atomic>
#include <algorithm>
typedef unsigned long long u64; typedef long long i64;
namespace omp_rt {
std::vector<int> prefix; std::vector<Choice> trail; std::string failure; bool explore = false, track = true; int max_threads = 1, policy = 0;
u64 transitions = 0, accesses = 0, regions = 0, untracked = 0;
constexpr int MT = 4;
struct Clock { unsigned short v[MT] = {0, 0, 0, 0}; void join(const Clock &o) { for (int i = 0; i < MT; i++) if (o.v[i] > v[i]) v[i] = o.v[i]; } };
enum Op { RUN, LOCK, WAIT, DONE };
struct Loop { i64 lb, ub, st, chunk, next; int kind; };
struct Team;
struct Th { pthread_t pt; sem_t sem; Op op = RUN; void *lock = nullptr; Clock vc; int id = 0; long nloop = 0, barrier = 0, nsingle = 0; Team *team = nullptr; int nextloop = -1; };
struct Team { int n = 1; Th th[MT]; std::map<long, Loop> loops; std::map<long, int> singles; std::function<void(int)> body; long arrived = 0, epoch = 0; Clock bar; int current = 0; bool par = false; };
thread_local Team *team = nullptr; thread_local int tid = -1; thread_local int busy = 0; thread_local int pushed = 0;
static volatile bool active = false;     // a team of more than one thread is running
// ------------------------------------------------------------------ shadow memory
struct Cell { u64 addr; unsigned gen; unsigned short w[MT][8], r[MT][8]; void *pw[MT], *pr[MT]; };
constexpr int CELLBITS = 21; constexpr size_t CELLS = size_t(1) << CELLBITS; static Cell *cells; static unsigned gen = 0; static size_t used = 0;
struct Busy { Busy() { busy++; } ~Busy() { busy--; } };
static std::string name(void *pc) {
  Dl_info i; if (!dladdr((char *)pc - 1, &i) || !i.dli_sname) { char b[40]; snprintf(b, 40, "%p", pc); return b; }
  int st; char *d = abi::__cxa_demangle(i.dli_sname, nullptr, nullptr, &st); std::string s = d ? d : i.dli_sname; free(d);
  return s.substr(0, 160);
}
void fail(const std::string &w) { if (failure.empty()) failure = w; }
static Cell *cell(u64 a) {
  const u64 g = a >> 3; size_t h = (g * 0x9E3779B97F4A7C15ull) >> (64 - CELLBITS);
  for (;;) { Cell &c = cells[h & (CELLS - 1)];
    if (c.gen != gen) { if (++used > CELLS - CELLS / 8) { return nullptr; } memset(&c, 0, sizeof c); c.gen = gen; c.addr = g; return &c; }
    if (c.addr == g) return &c;
    h++; }
}
static void touch(u64 a, size_t n, bool wr, void *pc) {
  if (!active || tid < 0 || busy || !track || !team || !team->par) return;
  Busy b; accesses++;
  Th &me = team->th[tid]; const unsigned short now = me.vc.v[tid];
  while (n) {
    const int o = a & 7; const int k = int(std::min<size_t>(8 - o, n)); Cell *c = cell(a);
    if (!c) { untracked++; return; }
    for (int u = 0; u < team->n; u++) if (u != tid) for (int i = o; i < o + k; i++) {
      const bool ww = c->w[u][i] > me.vc.v[u], rr = wr && c->r[u][i] > me.vc.v[u];
      if (ww || rr) { fail(std::string("data race: ") + (wr ? "write" : "read") + " in " + name(pc) + " and " + (ww ? "write" : "read") + " in " + name(ww ? c->pw[u] : c->pr[u]) + " are not ordered"); break; }
    }
    auto *x = wr ? c->w[tid] : c->r[tid]; for (int i = o; i < o + k; i++) x[i] = now;
    (wr ? c->pw : c->pr)[tid] = pc;
    a += k; n -= k;
  }
}
static std::map<u64, Clock> &sync_clocks() { static std::map<u64, Clock> *m = new std::map<u64, Clock>; return *m; }
static void acquire(void *p) { if (active && tid >= 0 && !busy && team) { Busy b; team->th[tid].vc.join(sync_clocks()[(u64)p]); } }
static void release(void *p) { if (active && tid >= 0 && !busy && team) { Busy b; Clock &c = sync_clocks()[(u64)p]; c.join(team->th[tid].vc); team->th[tid].vc.v[tid]++; } }
// ------------------------------------------------------------------ scheduler
static std::set<void *> held;
static bool enabled(Team *t, int i) {
  Th &h = t->th[i];
  if (h.op == DONE) return false;
  if (h.op == LOCK) return !held.count(h.lock);
  if (h.op == WAIT) return h.barrier < t->epoch;
  return true;
}
static void choose_and_switch(Team *t, int me) {    // called with the baton held
  std::vector<int> en; if (t->th[me].op != DONE && enabled(t, me)) en.push_back(me);
  const bool mine = !en.empty();
  for (int i = 0; i < t->n; i++) if (i != me && enabled(t, i)) en.push_back(i);
  if (en.empty()) { bool all = true; for (int i = 0; i < t->n; i++) all = all && t->th[i].op == DONE; if (!all) { fprintf(stderr, "OMPFAIL deadlock of the team\n"); _exit(77); } return; }
  int k = 0;
  if (en.size() > 1 && policy == 1 && !explore) { int w = 0; for (size_t i = 1; i < en.size(); i++) if ((en[i] - me + t->n) % t->n < (en[w] - me + t->n) % t->n || w == 0) w = int(i); k = w; }
  if (en.size() > 1 && explore) {
    const size_t n = trail.size(); k = n < prefix.size() ? prefix[n] : 0;
    if (k >= int(en.size())) { fail("internal: choice out of range on replay (the program is not deterministic under the scheduler)"); k = 0; }
    trail.push_back({int(en.size()), k, mine ? 0 : 1}); transitions++;
  }
  const int to = en[k]; t->current = to;
  if (to != me) { sem_post(&t->th[to].sem); if (t->th[me].op != DONE) while (sem_wait(&t->th[me].sem)); }
}
static void point(Op op, void *lock = nullptr) {
  Team *t = team; if (!t || !t->par || tid < 0) return;
  Busy b; Th &me = t->th[tid]; me.op = op; me.lock = lock; choose_and_switch(t, tid); me.op = RUN;
}
static void lock(void *l) { if (!team || !team->par) return; point(LOCK, l); { Busy b; held.insert(l); } acquire(l); }
static void unlock(void *l) { if (!team || !team->par) return; release(l); Busy b; held.erase(l); }
static std::vector<void *> *deferred = new std::vector<void *>;
struct Worker { pthread_t pt; sem_t start, done; Th *h = nullptr; bool up = false; };
static Worker workers[MT];
static void *helper(void *p) {
  Worker *w = (Worker *)p;
  for (;;) {
    while (sem_wait(&w->start));
    Th *h = w->h; team = h->team; tid = h->id; busy = 0; pushed = 0; while (sem_wait(&h->sem));
    h->team->body(h->id);
    busy++; h->op = DONE; choose_and_switch(h->team, h->id); busy--; team = nullptr; tid = -1;
    sem_post(&w->done);
  }
}
static void run_team(int n, std::function<void(int)> body) {
  Team *old = team; const int oldtid = tid;
  if (n > MT) n = MT;
  if (n <= 1 || (old && old->par)) {           // a team of one: a nested region, or one thread asked for
    Team t; t.n = 1; t.th[0].team = &t; team = &t; const int keep = tid; tid = 0;
    const bool a = active; if (old && old->par) active = a; body(0); team = old; tid = old ? keep : oldtid; return;
  }
  Team t; { Busy b; t.n = n; t.body = body; t.par = true; regions++; gen++; used = 0; sync_clocks().clear(); held.clear();
    if (!cells) cells = (Cell *)mmap(nullptr, sizeof(Cell) * CELLS, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    for (int i = 0; i < n; i++) { Th &h = t.th[i]; h.id = i; h.team = &t; sem_init(&h.sem, 0, 0); for (int j = 0; j < n; j++) h.vc.v[j] = 0; h.vc.v[i] = 1; }
    for (int i = 1; i < n; i++) {
      Worker &w = workers[i]; w.h = &t.th[i];
      if (!w.up) { w.up = true; sem_init(&w.start, 0, 0); sem_init(&w.done, 0, 0); pthread_attr_t a; pthread_attr_init(&a); pthread_attr_setstacksize(&a, 4 << 20); if (pthread_create(&w.pt, &a, helper, &w)) abort(); }
      sem_post(&w.start);
    }
    active = true; }
  team = &t; tid = 0;
  point(RUN);
  body(0);
  { Busy b; t.th[0].op = DONE; choose_and_switch(&t, 0); for (int i = 1; i < n; i++) while (sem_wait(&workers[i].done));
    for (int i = 0; i < n; i++) sem_destroy(&t.th[i].sem); active = false; team = old; tid = oldtid; }
  Busy b; for (void *p : *deferred) free(p);
  deferred->clear();
}
void reset() { trail.clear(); failure.clear(); }
bool next_prefix(long maxdev) {
  while (!trail.empty()) {
    long dev = 0; for (size_t i = 0; i + 1 < trail.size(); i++) dev += trail[i].taken != 0 && !trail[i].free;
    auto &c = trail.back();
    if (c.taken + 1 < c.n && (maxdev < 0 || dev + !c.free <= maxdev)) { c.taken++; prefix.clear(); for (auto &x : trail) prefix.push_back(x.taken); return true; }
    trail.pop_back();
  }
  return false;
}
std::string show() { std::string s; for (auto &c : trail) s += std::to_string(c.taken) + ","; return s; }
// ------------------------------------------------------------------ work sharing
static void init(i64 sched, i64 lb, i64 ub, i64 st, i64 chunk) {
  if (!team) return; Busy b;
  Th &h = team->th[tid < 0 ? 0 : tid]; const long k = ++h.nloop;
  if (!team->loops.count(k)) { const int s = int(sched & 0xff); team->loops[k] = {lb, ub, st, std::max<i64>(1, chunk), lb, s}; }
}
template <typename T> int next(int *last, T *pl, T *pu, T *ps) {
  if (!team) return 0;
  if (team->par) point(RUN);
  Busy b; Th &h = team->th[tid]; Loop &l = team->loops[h.nloop]; i64 c = l.chunk;
  const i64 left = l.st > 0 ? (l.ub - l.next) / l.st + 1 : (l.next - l.ub) / -l.st + 1;
  if ((l.st > 0 && l.next > l.ub) || (l.st < 0 && l.next < l.ub) || left <= 0) return 0;
  if (l.kind == 36) c = std::max<i64>(c, left / (2 * team->n)); // guided
  c = std::min(c, left);
  *pl = T(l.next); *pu = T(l.next + (c - 1) * l.st); *ps = T(l.st); l.next += c * l.st; if (last) *last = c == left; return 1;
}
template <typename T> void static_init(int sched, int *last, T *pl, T *pu, T *stride, i64 incr, i64 chunk) {
  const int n = team ? team->n : 1, t = team ? tid : 0; const i64 lb = i64(*pl), ub = i64(*pu), cnt = incr > 0 ? (ub - lb) / incr + 1 : (lb - ub) / -incr + 1;
  if (cnt <= 0 || (incr > 0 && ub < lb)) { *last = 0; *stride = T(incr); return; }
  if ((sched & 0xff) == 33) { // chunked
    if (chunk < 1) chunk = 1;
    *stride = T(chunk * incr * n); *pl = T(lb + t * chunk * incr); *pu = T(i64(*pl) + (chunk - 1) * incr); *last = t == int(((cnt - 1) / chunk) % n); return;
  }
  const i64 q = cnt / n, r = cnt % n, lo = t * q + std::min<i64>(t, r), c = q + (t < r);
  *pl = T(lb + lo * incr); *pu = T(lb + (lo + c - 1) * incr); *stride = T(cnt * incr); *last = c > 0 && lo + c == cnt;
  if (!c) { *pl = T(ub + incr); *pu = T(ub); }
}
static void barrier() {
  if (!team || !team->par) return;
  Th &h = team->th[tid]; Team *t = team;
  { Busy b; t->bar.join(h.vc); if (++t->arrived == t->n) { t->arrived = 0; t->epoch++; } }
  h.barrier = h.barrier; point(WAIT);
  { Busy b; h.barrier++; h.vc.join(t->bar); h.vc.v[tid]++; }
}
}
using namespace omp_rt;
extern "C" {
struct ident_t;
typedef void (*micro)(int *, int *, ...);
void __kmpc_push_num_threads(ident_t *, int, int n) { pushed = n; }
void __kmpc_fork_call(ident_t *, int argc, micro f, ...) {
  void *a[16] = {}; va_list ap; va_start(ap, f); for (int i = 0; i < argc && i < 16; i++) a[i] = va_arg(ap, void *); va_end(ap);
  if (argc > 16) abort();
  int n = pushed > 0 ? pushed : max_threads; pushed = 0;
  run_team(n, [=](int id) { int g = id, z = 0; f(&g, &z, a[0], a[1], a[2], a[3], a[4], a[5], a[6], a[7], a[8], a[9], a[10], a[11], a[12], a[13], a[14], a[15]); });
}
int __kmpc_global_thread_num(ident_t *) { return tid < 0 ? 0 : tid; }
void __kmpc_serialized_parallel(ident_t *, int) {} void __kmpc_end_serialized_parallel(ident_t *, int) {}
#define DISPATCH(S, T) \
void __kmpc_dispatch_init_##S(ident_t *, int, int sched, T lb, T ub, T st, T chunk) { init(sched, i64(lb), i64(ub), i64(st), i64(chunk)); } \
int __kmpc_dispatch_next_##S(ident_t *, int, int *last, T *l, T *u, T *s) { return next<T>(last, l, u, s); } \
void __kmpc_dispatch_fini_##S(ident_t *, int) {}
DISPATCH(4, int) DISPATCH(4u, unsigned) DISPATCH(8, long long)
void __kmpc_dispatch_init_8u(ident_t *, int, int sched, u64 lb, u64 ub, i64 st, i64 chunk) { init(sched, i64(lb), i64(ub), st, chunk); }
int __kmpc_dispatch_next_8u(ident_t *, int, int *last, u64 *l, u64 *u, i64 *s) { u64 st; const int r = next<u64>(last, l, u, &st); if (r) *s = i64(st); return r; }
void __kmpc_dispatch_fini_8u(ident_t *, int) {}
void __kmpc_dispatch_deinit(ident_t *, int) {}
void __kmpc_for_static_init_4(ident_t *, int, int sc, int *last, int *l, int *u, int *s, int inc, int ch) { static_init<int>(sc, last, l, u, s, inc, ch); }
void __kmpc_for_static_init_4u(ident_t *, int, int sc, int *last, unsigned *l, unsigned *u, int *s, int inc, int ch) { unsigned st; static_init<unsigned>(sc, last, l, u, &st, inc, ch); *s = int(st); }
void __kmpc_for_static_init_8(ident_t *, int, int sc, int *last, i64 *l, i64 *u, i64 *s, i64 inc, i64 ch) { static_init<i64>(sc, last, l, u, s, inc, ch); }
void __kmpc_for_static_init_8u(ident_t *, int, int sc, int *last, u64 *l, u64 *u, i64 *s, i64 inc, i64 ch) { u64 st; static_init<u64>(sc, last, l, u, &st, inc, ch); *s = i64(st); }
void __kmpc_for_static_fini(ident_t *, int) {}
void __kmpc_barrier(ident_t *, int) { barrier(); }
void __kmpc_critical(ident_t *, int, int *name) { lock(name); }
void __kmpc_critical_with_hint(ident_t *, int, int *name, unsigned) { lock(name); }
void __kmpc_end_critical(ident_t *, int, int *name) { unlock(name); }
int __kmpc_master(ident_t *, int) { return !team || tid == 0; } void __kmpc_end_master(ident_t *, int) {}
int __kmpc_masked(ident_t *, int, int f) { return (team ? tid : 0) == f; } void __kmpc_end_masked(ident_t *, int) {}
int __kmpc_single(ident_t *, int) { if (!team) return 1; if (team->par) point(RUN); Busy b; const long k = ++team->th[tid].nsingle; return team->singles.emplace(k, tid).second; }
void __kmpc_end_single(ident_t *, int) {}
void __kmpc_flush(ident_t *) {}
int __kmpc_reduce(ident_t *, int, int, size_t, void *, void (*)(void *, void *), int *l) { lock(l); return 1; }
void __kmpc_end_reduce(ident_t *, int, int *l) { unlock(l); barrier(); }
int __kmpc_reduce_nowait(ident_t *, int, int, size_t, void *, void (*)(void *, void *), int *l) { lock(l); return 1; }
void __kmpc_end_reduce_nowait(ident_t *, int, int *l) { unlock(l); }
int omp_get_thread_num() { return team ? tid : 0; } int omp_get_num_threads() { return team ? team->n : 1; } int omp_get_max_threads() { return max_threads; } int omp_get_num_procs() { return 4; }
int omp_get_dynamic() { return 0; } void omp_set_dynamic(int) {} int omp_get_max_active_levels() { return 1; } void omp_set_max_active_levels(int) {} void omp_set_num_threads(int n) { max_threads = n; }
int omp_in_parallel() { return team && team->par; } int omp_get_level() { return team ? 1 : 0; } int omp_get_nested() { return 0; } void omp_set_nested(int) {} int omp_get_thread_limit() { return MT; }
void omp_set_schedule(omp_sched_t, int) {} void omp_get_schedule(omp_sched_t *k, int *c) { *k = omp_sched_dynamic; *c = 1; } int omp_get_active_level() { return omp_in_parallel(); }
int omp_get_ancestor_thread_num(int) { return 0; } int omp_get_team_size(int) { return omp_get_num_threads(); } double omp_get_wtime() { return 0; } double omp_get_wtick() { return 1e-9; }
void omp_init_lock(omp_lock_t *l) { l->p = nullptr; } void omp_destroy_lock(omp_lock_t *) {} void omp_set_lock(omp_lock_t *l) { lock(l); } void omp_unset_lock(omp_lock_t *l) { unlock(l); }
int omp_test_lock(omp_lock_t *l) { if (!team || !team->par) return 1; point(RUN); if (held.count(l)) return 0; { Busy b; held.insert(l); } acquire(l); return 1; }
// mutexes of the program (those of the libraries are left to the libraries)
extern char __executable_start, etext;
static bool ours(void *pc) { return (char *)pc >= &__executable_start && (char *)pc < &etext; }
int pthread_mutex_lock(pthread_mutex_t *m) {
  static int (*real)(pthread_mutex_t *) = (int (*)(pthread_mutex_t *))dlsym(RTLD_NEXT, "pthread_mutex_lock");
  if (team && team->par && tid >= 0 && !busy && ours(__builtin_return_address(0))) { lock(m); return 0; } return real(m);
}
int pthread_mutex_unlock(pthread_mutex_t *m) {
  static int (*real)(pthread_mutex_t *) = (int (*)(pthread_mutex_t *))dlsym(RTLD_NEXT, "pthread_mutex_unlock");
  if (team && team->par && tid >= 0 && !busy && ours(__builtin_return_address(0)) && held.count(m)) { unlock(m); return 0; } return real(m);
}
// ------------------------------------------------------------------ callbacks of the compiler
#define PC __builtin_return_address(0)
#define RW(N) void __tsan_read##N(void *a) { touch((u64)a, N, false, PC); } void __tsan_write##N(void *a) { touch((u64)a, N, true, PC); } \
 void __tsan_unaligned_read##N(void *a) { touch((u64)a, N, false, PC); } void __tsan_unaligned_write##N(void *a) { touch((u64)a, N, true, PC); } \
 void __tsan_read_write##N(void *a) { touch((u64)a, N, false, PC); touch((u64)a, N, true, PC); } void __tsan_unaligned_read_write##N(void *a) { touch((u64)a, N, false, PC); touch((u64)a, N, true, PC); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_init() {} void __tsan_func_entry(void *) {} void __tsan_func_exit() {}
void __tsan_vptr_update(void **p, void *v) { if (*p != v) touch((u64)p, 8, true, PC); }
void __tsan_vptr_read(void **p) { touch((u64)p, 8, false, PC); }
void __tsan_read_range(void *a, size_t n) { touch((u64)a, n, false, PC); } void __tsan_write_range(void *a, size_t n) { touch((u64)a, n, true, PC); }
void *__tsan_memcpy(void *d, const void *s, size_t n) { touch((u64)s, n, false, PC); touch((u64)d, n, true, PC); return memcpy(d, s, n); }
void *__tsan_memmove(void *d, const void *s, size_t n) { touch((u64)s, n, false, PC); touch((u64)d, n, true, PC); return memmove(d, s, n); }
void *__tsan_memset(void *d, int c, size_t n) { touch((u64)d, n, true, PC); return memset(d, c, n); }
void __tsan_atomic_thread_fence(int) {} void __tsan_atomic_signal_fence(int) {}
// one thread runs at a time: plain operations are atomic here
#define AT(N, T) \
T __tsan_atomic##N##_load(const volatile T *a, int) { acquire((void *)a); return *a; } \
void __tsan_atomic##N##_store(volatile T *a, T v, int) { *a = v; release((void *)a); } \
T __tsan_atomic##N##_exchange(volatile T *a, T v, int) { acquire((void *)a); T o = *a; *a = v; release((void *)a); return o; } \
T __tsan_atomic##N##_fetch_add(volatile T *a, T v, int) { acquire((void *)a); T o = *a; *a = o + v; release((void *)a); return o; } \
T __tsan_atomic##N##_fetch_sub(volatile T *a, T v, int) { acquire((void *)a); T o = *a; *a = o - v; release((void *)a); return o; } \
T __tsan_atomic##N##_fetch_and(volatile T *a, T v, int) { acquire((void *)a); T o = *a; *a = o & v; release((void *)a); return o; } \
T __tsan_atomic##N##_fetch_or(volatile T *a, T v, int) { acquire((void *)a); T o = *a; *a = o | v; release((void *)a); return o; } \
T __tsan_atomic##N##_fetch_xor(volatile T *a, T v, int) { acquire((void *)a); T o = *a; *a = o ^ v; release((void *)a); return o; } \
int __tsan_atomic##N##_compare_exchange_strong(volatile T *a, T *e, T v, int, int) { acquire((void *)a); if (*a == *e) { *a = v; release((void *)a); return 1; } *e = *a; return 0; } \
int __tsan_atomic##N##_compare_exchange_weak(volatile T *a, T *e, T v, int, int) { acquire((void *)a); if (*a == *e) { *a = v; release((void *)a); return 1; } *e = *a; return 0; } \
T __tsan_atomic##N##_compare_exchange_val(volatile T *a, T e, T v, int, int) { acquire((void *)a); T o = *a; if (o == e) { *a = v; release((void *)a); } return o; }
AT(8, unsigned char) AT(16, unsigned short) AT(32, unsigned) AT(64, u64)
// function-local statics
int __cxa_guard_acquire(i64 *g) {
  if (*(char *)g) { acquire(g); return 0; }
  if (((char *)g)[1]) point(LOCK, g);              // being initialised by another thread
  if (*(char *)g) { acquire(g); return 0; }
  if (active) { ((char *)g)[1] = 1; Busy b; held.insert(g); }
  return 1;
}
void __cxa_guard_release(i64 *g) { *(char *)g = 1; ((char *)g)[1] = 0; release(g); if (active) { Busy b; held.erase(g); } }
void __cxa_guard_abort(i64 *g) { ((char *)g)[1] = 0; if (active) { Busy b; held.erase(g); } }
// memory is not reused while a team runs (a block handed from one thread to another by the allocator is no race)
void *__libc_malloc(size_t); void __libc_free(void *); void *__libc_calloc(size_t, size_t); void *__libc_realloc(void *, size_t); void *__libc_memalign(size_t, size_t);
void *malloc(size_t n) { return __libc_malloc(n); }
void *calloc(size_t n, size_t k) { return __libc_calloc(n, k); }
void free(void *p) {
  if (!p) return;
  if (active && team && team->par && tid >= 0 && !busy) { touch((u64)p, malloc_usable_size(p), true, PC); Busy b; deferred->push_back(p); return; }
  __libc_free(p);
}
void *realloc(void *p, size_t n) {
  if (p && active && team && team->par && tid >= 0 && !busy) { void *q = __libc_malloc(n); memcpy(q, p, std::min(n, malloc_usable_size(p))); free(p); return q; }
  return __libc_realloc(p, n);
}
void *memalign(size_t a, size_t n) { return __libc_memalign(a, n); }
void *aligned_alloc(size_t a, size_t n) { return __libc_memalign(a, n); }
int posix_memalign(void **p, size_t a, size_t n) { *p = __libc_memalign(a, n); return *p ? 0 : 12; }
}
