// See mcrt.hpp. Compiled without instrumentation; no std containers here (their instantiations may be
// shared with instrumented code).
#include "mcrt.hpp"
#include <atomic>
#include <cerrno>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <ctime>
#include <dlfcn.h>
#include <malloc.h>
#include <new>
#include <pthread.h>
#include <sys/resource.h>
#include <ucontext.h>
#include <sys/mman.h>
#include <unistd.h>
#define RT extern "C" __attribute__((visibility("default")))
namespace mcrt { extern bool frozen; }
namespace
{
constexpr int NT = 12;
typedef uint32_t vc_t[NT];
enum wait_kind { W_NONE, W_MUTEX, W_RD, W_WR, W_JOIN, W_SLEEP, W_COND, W_GUARD };
struct thr
{
  bool used{}, finished{}, joined{}; wait_kind wk{}; void* wobj{}; int wthr{}; bool yielded{}, signaled{}, timed{};
  vc_t vc{}; ucontext_t ctx; char* stack{}; void* (*fn)(void*){}; void* arg{}; void* ret{}; char *slo{}, *shi{}; int ginit{}; int64_t deadline{};
};
struct sync { uintptr_t a{}; uint32_t gen{}; int owner{}; int rec{}; uint32_t readers{}; int writer{}; uint8_t rcount[NT]; vc_t wvc, rvc; };
struct cell { uintptr_t a{}; uint32_t gen{}; uint32_t wclk; uint8_t wt, wmask, freed; uint8_t rmask[NT]; uint32_t rclk[NT]; void* wpc; void* rpc[NT]; };
template <typename T, size_t N> struct table
{
  T* t{}; uint32_t gen{1}; size_t n{};
  void init() { if (!t) t = (T*)mmap(nullptr, sizeof(T) * N, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); }
  void clear() { gen++; n = 0; }
  T* find(uintptr_t a, bool make)
  {
    size_t i = (a * 0x9E3779B97F4A7C15ull >> 20) & (N - 1);
    for (;; i = (i + 1) & (N - 1))
    {
      T& c = t[i];
      if (c.gen != gen) { if (!make) return nullptr; if (n > N / 2) { std::fprintf(stderr, "MCRT table full\n"); _exit(78); } n++; memset((void*)&c, 0, sizeof c); c.gen = gen; c.a = a; return &c; }
      if (c.a == a) return &c;
    }
  }
};
table<cell, 1 << 20> shadow; table<sync, 1 << 14> syncs;
thr T[NT]; int nthr = 0, alive = 0, cur = -1; bool active = false;
int me = -1, in_rt = 0; __thread bool controlled = false;
struct guard_rt { guard_rt() { in_rt++; } ~guard_rt() { in_rt--; } };
// choices
struct choice { uint8_t n, c; }; choice st[1 << 16]; int depth = 0, top = 0, preempt = 0, maxpre = 0; uint64_t npoints = 0, stampv = 0, exec_points = 0; int sleep_left = 0, sleep_init = 3;
int64_t vtime = 0; uint64_t seq = 0;
char racebuf[1024]; bool race = false; char schedbuf[1 << 14]; int schedlen = 0;
// freed blocks wait for the end of the execution
mcrt::event logv[4096]; int nlog = 0;
void* quarantine[1 << 18]; int nq = 0;

sync* S(void* p) { auto s = syncs.find((uintptr_t)p, true); return s; }
void join(vc_t& a, const vc_t& b) { for (int i = 0; i < NT; i++) if (b[i] > a[i]) a[i] = b[i]; }
bool enabled(int i)
{
  thr& t = T[i];
  if (!t.used || t.finished) return false;
  switch (t.wk)
  {
    case W_NONE: return true;
    case W_MUTEX: case W_GUARD: return S(t.wobj)->owner == 0;
    case W_RD: return S(t.wobj)->writer == 0;
    case W_WR: return S(t.wobj)->writer == 0 && S(t.wobj)->readers == 0;
    case W_JOIN: return T[t.wthr].finished;
    case W_SLEEP: return sleep_left > 0;
    case W_COND: return t.signaled;
  }
  return false;
}
const char* wname(wait_kind k) { static const char* n[] = {"ready", "mutex", "read lock", "write lock", "join", "sleep", "condition", "static init"}; return n[k]; }
void die(const char* what)
{
  std::fprintf(stderr, "MCRT %s\nschedule %s\n", what, schedbuf);
  for (int i = 0; i < nthr; i++) if (!T[i].finished) std::fprintf(stderr, "  thread %d waits for %s %p\n", i, wname(T[i].wk), T[i].wobj);
  abort();
}
void handoff(int to)
{
  if (to == me) return;
  int m = me, d = in_rt; cur = me = to;
  swapcontext(&T[m].ctx, &T[to].ctx); in_rt = d;
}
// decides who runs next; the caller has set its wait kind
void schedule()
{
  if (T[me].ginit && enabled(me)) return; // one-time initialisations must replay
  npoints++; exec_points++;
  if (exec_points > 60000) die("LIVELOCK: no end after 60000 scheduling points");
  int opts[NT], n = 0; bool self = !T[me].finished && enabled(me); bool yield = T[me].yielded || T[me].wk == W_SLEEP;
  if (self && !yield) opts[n++] = me;
  bool can_preempt = !self || yield || preempt < maxpre;
  if (can_preempt) for (int k = 1; k <= nthr; k++) { int i = (me + k) % nthr; if (i != me && enabled(i)) opts[n++] = i; }
  if (self && yield) opts[n++] = me;
  int forced = 0;
  if (!n)
  { forced = 1; // only sleepers left: time passes
    for (int i = 0; i < nthr; i++) if (T[i].used && !T[i].finished && T[i].wk == W_SLEEP) { if (!n) opts[n++] = i; else if (T[i].deadline < T[opts[0]].deadline) opts[0] = i; }
    if (!n) for (int k = 0; k < nthr; k++) { int i = (me + k) % nthr; if (T[i].used && !T[i].finished && T[i].wk == W_COND && T[i].timed) opts[n++] = i; }
    if (!n) { bool left = false; for (int i = 0; i < nthr; i++) left |= T[i].used && !T[i].finished; if (!left) return; die("DEADLOCK"); }
  }
  int pick = 0;
  if (n > 1)
  {
    if (depth < top) pick = st[depth].c; else { if (top >= (1 << 16)) die("too deep"); st[top++] = {(uint8_t)n, 0}; }
    if (depth < top && st[depth].n != n) die("NONDETERMINISM: the program does not replay");
    depth++;
  }
  int to = opts[pick];
  if (self && !yield && to != me) preempt++;
  if (schedlen < (int)sizeof schedbuf - 4 && n > 1) { schedlen += snprintf(schedbuf + schedlen, 4, "%d", to); schedbuf[schedlen] = 0; }
  if (T[to].wk == W_SLEEP) { if (sleep_left > 0 && forced == 0) sleep_left--; if (T[to].deadline > vtime) vtime = T[to].deadline; }
  T[me].yielded = false;
  handoff(to);
}
// waits until the condition holds, giving the explorer its choice first
void wait_for(wait_kind k, void* o, int t = 0)
{
  T[me].wk = k; T[me].wobj = o; T[me].wthr = t;
  schedule(); T[me].wk = W_NONE;
}
bool on() { return controlled && active && !in_rt; }
void acquire_mutex(void* m) { auto s = S(m); s->owner = me + 1; if (s->rec == 0) s->rec = 1; join(T[me].vc, s->wvc); }
void release_mutex(void* m) { auto s = S(m); s->owner = 0; memcpy(s->wvc, T[me].vc, sizeof(vc_t)); T[me].vc[me]++; }
const char* sym(void* pc, char* buf, size_t n)
{
  Dl_info d; if (dladdr(pc, &d) && d.dli_sname) snprintf(buf, n, "%s", d.dli_sname); else snprintf(buf, n, "%p", pc); return buf;
}
void report(const char* k, int t, void* pc, int t2, void* pc2)
{
  if (race) return;
  race = true; char a[300], b[300];
  snprintf(racebuf, sizeof racebuf, "%s: thread %d in %s, thread %d in %s", k, t, sym(pc, a, 300), t2, sym(pc2, b, 300));
  if (std::getenv("MC_VERBOSE")) std::fprintf(stderr, "MCRT %s pcs %p %p sched %s\n", racebuf, pc, pc2, schedbuf);
}
void access1(uintptr_t g, uint8_t mask, bool w, void* pc, bool freeing)
{
  cell* c = shadow.find(g, true); thr& t = T[me];
  if (c->freed & mask) { report("access to freed memory", me, pc, c->wt, c->wpc); return; }
  if (c->wmask & mask && c->wt != me && t.vc[c->wt] < c->wclk) report(w ? (freeing ? "memory freed while written" : "data race (write/write)") : "data race (write/read)", me, pc, c->wt, c->wpc);
  if (w)
  {
    for (int i = 0; i < nthr; i++) if (i != me && c->rmask[i] & mask && t.vc[i] < c->rclk[i]) report(freeing ? "memory freed while read" : "data race (read/write)", me, pc, i, c->rpc[i]);
    c->wmask = mask | (c->wt == me && c->wclk == t.vc[me] ? c->wmask : 0); c->wt = me; c->wclk = t.vc[me]; c->wpc = pc;
    for (int i = 0; i < nthr; i++) c->rmask[i] &= ~mask;
    if (freeing) c->freed |= mask;
  }
  else { c->rmask[me] = mask | (c->rclk[me] == t.vc[me] ? c->rmask[me] : 0); c->rclk[me] = t.vc[me]; c->rpc[me] = pc; }
}
void access(void* p, size_t n, bool w, void* pc, bool freeing = false)
{
  if (!on() || alive < 2) return;
  guard_rt g; auto a = (uintptr_t)p; thr& t = T[me];
  if ((char*)p >= t.slo && (char*)p < t.shi) return;
  while (n)
  {
    size_t off = a & 7, k = n < 8 - off ? n : 8 - off;
    access1(a >> 3, uint8_t(((1u << k) - 1) << off), w, pc, freeing); a += k; n -= k;
  }
}
template <typename F> F next(const char* n) { return (F)dlsym(RTLD_NEXT, n); }
#define REAL(ret, name, args) static ret (*real) args; if (!real) real = next<ret(*) args>(#name)
void stack_bounds(thr& t)
{
  pthread_attr_t at; void* lo; size_t sz; if (pthread_getattr_np(::pthread_self(), &at) == 0) { pthread_attr_getstack(&at, &lo, &sz); t.slo = (char*)lo; t.shi = t.slo + sz; pthread_attr_destroy(&at); }
}
constexpr size_t STACK = 1 << 20;
void entry()
{
  in_rt = 0; int i = me; void* r = T[i].fn(T[i].arg);
  in_rt = 1; T[i].ret = r; T[i].finished = true; alive--;
  schedule(); abort();
}
int fresh(bool fiber)
{
  if (nthr >= NT) die("too many threads");
  int i = nthr++; thr& t = T[i];
  t.used = true; t.finished = t.joined = false; t.wk = W_NONE; t.yielded = t.signaled = t.timed = false; t.ginit = 0; memset(t.vc, 0, sizeof t.vc); t.vc[i] = 1;
  if (!fiber) { stack_bounds(t); return i; }
  if (!t.stack) t.stack = (char*)mmap(nullptr, STACK, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  t.slo = t.stack; t.shi = t.stack + STACK;
  getcontext(&t.ctx); t.ctx.uc_stack.ss_sp = t.stack; t.ctx.uc_stack.ss_size = STACK; t.ctx.uc_link = nullptr; makecontext(&t.ctx, entry, 0);
  return i;
}
}
namespace mcrt
{
void point() { if (on() && alive > 1) { guard_rt g; schedule(); } }
uint64_t stamp() { return ++stampv; }
bool frozen = false;
void log_freeze(bool b) { frozen = b; }
void log(int kind, int a, int b) { if (frozen) return; if (nlog < (int)(sizeof logv / sizeof *logv)) logv[nlog++] = {kind, a, b, me, ++stampv, vtime}; else if (active) die("log full"); }
int log_size() { return nlog; }
const event& log_at(int i) { return logv[i]; }
int64_t now() { return vtime; }
void sleep_budget(int n) { sleep_init = n; }
int self() { return me; }
stats explore(const std::function<void()>& program, int preemptions, uint64_t max, const std::function<bool(const std::string&)>& after)
{
  mallopt(M_MMAP_THRESHOLD, 1 << 28); mallopt(M_TRIM_THRESHOLD, 1 << 29);
  stats r; shadow.init(); syncs.init(); maxpre = preemptions; top = 0; npoints = 0;
  for (;;)
  {
    for (auto& t : T) { t.used = false; }
    shadow.clear(); syncs.clear(); nthr = 0; depth = 0; preempt = 0; race = false; schedlen = 0; schedbuf[0] = 0; vtime = 0; stampv = 0; exec_points = 0; nlog = 0; mcrt::frozen = false; sleep_left = sleep_init;
    int i = fresh(false); me = i; cur = i; alive = 1; in_rt = 0; controlled = true; active = true;
    program();
    if (alive > 1) die("THREADS LEFT: the program ended before its threads");
    active = false; controlled = false; me = -1;
    if (nthr > r.max_threads) r.max_threads = nthr;
    for (int k = 0; k < nq; k++) std::free(quarantine[k]);
    nq = 0;
    r.schedules++;
    if (race && r.race.empty()) { r.race = racebuf; r.race_schedule = schedbuf; }
    if (after && !after(schedbuf)) break;
    if (race) break;
    while (top > 0 && st[top - 1].c + 1 >= st[top - 1].n) top--;
    if (top == 0) break;
    st[top - 1].c++;
    if (r.schedules >= max) { r.complete = false; break; }
  }
  r.points = npoints; return r;
}
}
// ---- allocation: freed blocks are kept until the end of the execution, so that uses after free are seen
static void clear_range(void* p, size_t n)
{
  uintptr_t a = (uintptr_t)p >> 3, e = ((uintptr_t)p + n + 7) >> 3;
  if (e - a > 1 << 14) e = a + (1 << 14);
  for (; a < e; a++) if (auto c = shadow.find(a, false)) { auto g = c->gen; auto k = c->a; memset((void*)c, 0, sizeof *c); c->gen = g; c->a = k; }
}
static void* alloc(size_t n, size_t al)
{
  void* p = al > 16 ? aligned_alloc(al, (n + al - 1) / al * al) : malloc(n ? n : 1); if (!p) abort();
  if (on() && alive > 1) { guard_rt g; clear_range(p, n); }
  return p;
}
static void dealloc(void* p, void* pc)
{
  if (!p) return;
  if (controlled && active && nq < (1 << 18))
  {
    if (!in_rt && alive > 1) { size_t n = malloc_usable_size(p); access(p, n > 4096 ? 4096 : n, true, pc, true); }
    quarantine[nq++] = p; return;
  }
  free(p);
}
void* operator new(size_t n) { return alloc(n, 0); }
void* operator new[](size_t n) { return alloc(n, 0); }
void* operator new(size_t n, std::align_val_t a) { return alloc(n, (size_t)a); }
void* operator new[](size_t n, std::align_val_t a) { return alloc(n, (size_t)a); }
void* operator new(size_t n, const std::nothrow_t&) noexcept { return alloc(n, 0); }
void* operator new[](size_t n, const std::nothrow_t&) noexcept { return alloc(n, 0); }
#define PC __builtin_return_address(0)
void operator delete(void* p) noexcept { dealloc(p, PC); }
void operator delete[](void* p) noexcept { dealloc(p, PC); }
void operator delete(void* p, size_t) noexcept { dealloc(p, PC); }
void operator delete[](void* p, size_t) noexcept { dealloc(p, PC); }
void operator delete(void* p, std::align_val_t) noexcept { dealloc(p, PC); }
void operator delete[](void* p, std::align_val_t) noexcept { dealloc(p, PC); }
void operator delete(void* p, size_t, std::align_val_t) noexcept { dealloc(p, PC); }
void operator delete[](void* p, size_t, std::align_val_t) noexcept { dealloc(p, PC); }
// ---- plain accesses
#define ACC(n) RT void __tsan_read##n(void* p) { access(p, n, false, PC); } RT void __tsan_write##n(void* p) { access(p, n, true, PC); } \
  RT void __tsan_unaligned_read##n(void* p) { access(p, n, false, PC); } RT void __tsan_unaligned_write##n(void* p) { access(p, n, true, PC); } \
  RT void __tsan_volatile_read##n(void* p) { access(p, n, false, PC); } RT void __tsan_volatile_write##n(void* p) { access(p, n, true, PC); } \
  RT void __tsan_unaligned_volatile_read##n(void* p) { access(p, n, false, PC); } RT void __tsan_unaligned_volatile_write##n(void* p) { access(p, n, true, PC); }
ACC(1) ACC(2) ACC(4) ACC(8) ACC(16)
RT void __tsan_read_range(void* p, size_t n) { access(p, n, false, PC); }
RT void __tsan_write_range(void* p, size_t n) { access(p, n, true, PC); }
RT void __tsan_vptr_update(void** p, void* v) { if (*p != v) access(p, 8, true, PC); }
RT void __tsan_vptr_read(void** p) { access(p, 8, false, PC); }
RT void __tsan_func_entry(void*) {}
RT void __tsan_func_exit() {}
RT void __tsan_init() {}
// ---- atomics
static bool acq(int mo) { return mo == __ATOMIC_ACQUIRE || mo == __ATOMIC_ACQ_REL || mo == __ATOMIC_SEQ_CST || mo == __ATOMIC_CONSUME; }
static bool rel(int mo) { return mo == __ATOMIC_RELEASE || mo == __ATOMIC_ACQ_REL || mo == __ATOMIC_SEQ_CST; }
enum aop { A_LOAD, A_STORE, A_RMW };
static void atomic(volatile void* p, aop k, int mo)
{
  if (!on() || alive < 2) return;
  guard_rt g; schedule(); auto s = S((void*)p);
  if (k != A_STORE && acq(mo)) join(T[me].vc, s->wvc);
  if (k == A_STORE) { if (rel(mo)) { memcpy(s->wvc, T[me].vc, sizeof(vc_t)); T[me].vc[me]++; } else memset(s->wvc, 0, sizeof(vc_t)); }
  if (k == A_RMW && rel(mo)) { join(s->wvc, T[me].vc); T[me].vc[me]++; }
}
#define AT(B, TY) \
  RT TY __tsan_atomic##B##_load(const volatile TY* p, int mo) { atomic((void*)p, A_LOAD, mo); return __atomic_load_n(p, __ATOMIC_SEQ_CST); } \
  RT void __tsan_atomic##B##_store(volatile TY* p, TY v, int mo) { atomic(p, A_STORE, mo); __atomic_store_n(p, v, __ATOMIC_SEQ_CST); } \
  RT TY __tsan_atomic##B##_exchange(volatile TY* p, TY v, int mo) { atomic(p, A_RMW, mo); return __atomic_exchange_n(p, v, __ATOMIC_SEQ_CST); } \
  RT TY __tsan_atomic##B##_fetch_add(volatile TY* p, TY v, int mo) { atomic(p, A_RMW, mo); return __atomic_fetch_add(p, v, __ATOMIC_SEQ_CST); } \
  RT TY __tsan_atomic##B##_fetch_sub(volatile TY* p, TY v, int mo) { atomic(p, A_RMW, mo); return __atomic_fetch_sub(p, v, __ATOMIC_SEQ_CST); } \
  RT TY __tsan_atomic##B##_fetch_and(volatile TY* p, TY v, int mo) { atomic(p, A_RMW, mo); return __atomic_fetch_and(p, v, __ATOMIC_SEQ_CST); } \
  RT TY __tsan_atomic##B##_fetch_or(volatile TY* p, TY v, int mo) { atomic(p, A_RMW, mo); return __atomic_fetch_or(p, v, __ATOMIC_SEQ_CST); } \
  RT TY __tsan_atomic##B##_fetch_xor(volatile TY* p, TY v, int mo) { atomic(p, A_RMW, mo); return __atomic_fetch_xor(p, v, __ATOMIC_SEQ_CST); } \
  RT int __tsan_atomic##B##_compare_exchange_strong(volatile TY* p, TY* e, TY v, int mo, int) { atomic(p, A_RMW, mo); return __atomic_compare_exchange_n(p, e, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); } \
  RT int __tsan_atomic##B##_compare_exchange_weak(volatile TY* p, TY* e, TY v, int mo, int) { atomic(p, A_RMW, mo); return __atomic_compare_exchange_n(p, e, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); } \
  RT TY __tsan_atomic##B##_compare_exchange_val(volatile TY* p, TY e, TY v, int mo, int) { atomic(p, A_RMW, mo); __atomic_compare_exchange_n(p, &e, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); return e; }
AT(8, uint8_t) AT(16, uint16_t) AT(32, uint32_t) AT(64, uint64_t)
RT void __tsan_atomic_thread_fence(int) {}
RT void __tsan_atomic_signal_fence(int) {}
// ---- pthreads
// threads are fibers of one real thread: their identifiers are made up
constexpr uintptr_t FAKE = 0x7a5a0000;
RT int pthread_create(pthread_t* th, const pthread_attr_t* at, void* (*fn)(void*), void* arg)
{
  REAL(int, pthread_create, (pthread_t*, const pthread_attr_t*, void* (*)(void*), void*));
  if (!on()) return real(th, at, fn, arg);
  guard_rt g; int i = fresh(true); T[i].fn = fn; T[i].arg = arg; memcpy(T[i].vc, T[me].vc, sizeof(vc_t)); T[i].vc[i] = 1; T[me].vc[me]++; alive++;
  *th = (pthread_t)(FAKE + i); return 0; // starting a thread commutes with what its creator does until its next scheduling point
}
RT int pthread_join(pthread_t th, void** ret)
{
  REAL(int, pthread_join, (pthread_t, void**));
  if (!on()) return real(th, ret);
  guard_rt g; int i = (int)((uintptr_t)th - FAKE);
  if (i <= 0 || i >= nthr || T[i].joined) die("join of an unknown thread");
  wait_for(W_JOIN, nullptr, i); join(T[me].vc, T[i].vc); T[i].joined = true; if (ret) *ret = T[i].ret; return 0;
}
RT int pthread_detach(pthread_t th) { REAL(int, pthread_detach, (pthread_t)); return on() ? 0 : real(th); }
RT pthread_t pthread_self() { REAL(pthread_t, pthread_self, ()); return on() && me > 0 ? (pthread_t)(FAKE + me) : real(); }
RT int pthread_setschedparam(pthread_t th, int p, const struct sched_param* s) { REAL(int, pthread_setschedparam, (pthread_t, int, const struct sched_param*)); return on() ? 0 : real(th, p, s); }
RT int pthread_setname_np(pthread_t th, const char* n) { REAL(int, pthread_setname_np, (pthread_t, const char*)); return on() ? 0 : real(th, n); }
RT int pthread_mutex_lock(pthread_mutex_t* m)
{
  REAL(int, pthread_mutex_lock, (pthread_mutex_t*));
  if (!on()) return real(m);
  guard_rt g; auto s = S(m); bool recursive = (m->__data.__kind & 127) == PTHREAD_MUTEX_RECURSIVE_NP;
  if (recursive && s->owner == me + 1) { s->rec++; return 0; }
  if (s->owner == me + 1 && alive == 1) die("DEADLOCK: mutex locked again by its owner");
  if (alive > 1) wait_for(W_MUTEX, m);
  acquire_mutex(m); s->rec = 1; return 0;
}
RT int pthread_mutex_trylock(pthread_mutex_t* m)
{
  REAL(int, pthread_mutex_trylock, (pthread_mutex_t*));
  if (!on()) return real(m);
  guard_rt g; if (alive > 1) schedule(); auto s = S(m); if (s->owner) return EBUSY; acquire_mutex(m); s->rec = 1; return 0;
}
RT int pthread_mutex_unlock(pthread_mutex_t* m)
{
  REAL(int, pthread_mutex_unlock, (pthread_mutex_t*));
  if (!on()) return real(m);
  guard_rt g; auto s = S(m); if (s->owner == me + 1 && s->rec > 1) { s->rec--; return 0; }
  if (s->owner != me + 1) { report("mutex unlocked by another thread", me, PC, s->owner - 1, nullptr); return EPERM; }
  s->rec = 0; release_mutex(m); return 0;
}
static int rd(void* m, bool try_)
{
  guard_rt g; auto s = S(m); if (s->writer == me + 1 && alive == 1) die("DEADLOCK: lock taken again by its owner");
  if (alive > 1) { if (try_) schedule(); else wait_for(W_RD, m); }
  if (s->writer) return EBUSY;
  s->readers |= 1u << me; s->rcount[me]++; join(T[me].vc, s->wvc); return 0;
}
static int wr(void* m, bool try_)
{
  guard_rt g; auto s = S(m); if ((s->writer == me + 1 || s->readers >> me & 1) && alive == 1) die("DEADLOCK: lock taken again by its owner");
  if (alive > 1) { if (try_) schedule(); else wait_for(W_WR, m); }
  if (s->writer || s->readers) return EBUSY;
  s->writer = me + 1; join(T[me].vc, s->wvc); join(T[me].vc, s->rvc); return 0;
}
#define RW(name, call) RT int name(pthread_rwlock_t* m) { REAL(int, name, (pthread_rwlock_t*)); if (!on()) return real(m); return call; }
RW(pthread_rwlock_rdlock, rd(m, false)) RW(pthread_rwlock_wrlock, wr(m, false)) RW(pthread_rwlock_tryrdlock, rd(m, true)) RW(pthread_rwlock_trywrlock, wr(m, true))
static int rwun(void* m)
{
  guard_rt g; auto s = S(m);
  if (s->writer == me + 1) { s->writer = 0; memcpy(s->wvc, T[me].vc, sizeof(vc_t)); memset(s->rvc, 0, sizeof(vc_t)); T[me].vc[me]++; }
  else if (s->readers >> me & 1) { if (--s->rcount[me] == 0) s->readers &= ~(1u << me); join(s->rvc, T[me].vc); T[me].vc[me]++; }
  else report("read-write lock unlocked by another thread", me, PC, 0, nullptr);
  return 0;
}
RW(pthread_rwlock_unlock, rwun(m))
RT int pthread_rwlock_timedrdlock(pthread_rwlock_t* m, const timespec* t) { REAL(int, pthread_rwlock_timedrdlock, (pthread_rwlock_t*, const timespec*)); return on() ? rd(m, false) : real(m, t); }
RT int pthread_rwlock_timedwrlock(pthread_rwlock_t* m, const timespec* t) { REAL(int, pthread_rwlock_timedwrlock, (pthread_rwlock_t*, const timespec*)); return on() ? wr(m, false) : real(m, t); }
static int cond_wait(void* c, pthread_mutex_t* m, bool timed)
{
  auto s = S(m); s->rec = 0; release_mutex(m); T[me].signaled = false; T[me].timed = timed; T[me].yielded = true; T[me].wk = W_COND; T[me].wobj = c; schedule();
  bool sig = T[me].signaled; T[me].wk = W_NONE; if (alive > 1) wait_for(W_MUTEX, m); acquire_mutex(m); s->rec = 1; if (sig) join(T[me].vc, S(c)->wvc); return sig ? 0 : ETIMEDOUT;
}
RT int pthread_cond_wait(pthread_cond_t* c, pthread_mutex_t* m) { REAL(int, pthread_cond_wait, (pthread_cond_t*, pthread_mutex_t*)); if (!on()) return real(c, m); guard_rt g; return cond_wait(c, m, false); }
RT int pthread_cond_timedwait(pthread_cond_t* c, pthread_mutex_t* m, const timespec* t) { REAL(int, pthread_cond_timedwait, (pthread_cond_t*, pthread_mutex_t*, const timespec*)); if (!on()) return real(c, m, t); guard_rt g; return cond_wait(c, m, true); }
RT int pthread_cond_clockwait(pthread_cond_t* c, pthread_mutex_t* m, clockid_t k, const timespec* t) { REAL(int, pthread_cond_clockwait, (pthread_cond_t*, pthread_mutex_t*, clockid_t, const timespec*)); if (!on()) return real(c, m, k, t); guard_rt g; return cond_wait(c, m, true); }
static void sig(void* c, bool all) { auto s = S(c); join(s->wvc, T[me].vc); T[me].vc[me]++; for (int i = 0; i < nthr; i++) if (T[i].used && !T[i].finished && T[i].wk == W_COND && T[i].wobj == c && !T[i].signaled) { T[i].signaled = true; if (!all) break; } }
RT int pthread_cond_signal(pthread_cond_t* c) { REAL(int, pthread_cond_signal, (pthread_cond_t*)); if (!on()) return real(c); guard_rt g; if (alive > 1) schedule(); sig(c, false); return 0; }
RT int pthread_cond_broadcast(pthread_cond_t* c) { REAL(int, pthread_cond_broadcast, (pthread_cond_t*)); if (!on()) return real(c); guard_rt g; if (alive > 1) schedule(); sig(c, true); return 0; }
RT int sched_yield() { REAL(int, sched_yield, ()); if (!on()) return real(); guard_rt g; if (alive > 1) { T[me].yielded = true; schedule(); } return 0; }
static void slept(const timespec* d, bool abs) { int64_t n = d->tv_sec * 1000000000ll + d->tv_nsec; if (abs) n -= 1000000000000ll; else n += vtime; T[me].deadline = n; if (alive > 1) wait_for(W_SLEEP, nullptr); else if (n > vtime) vtime = n; }
RT int nanosleep(const timespec* d, timespec* r) { REAL(int, nanosleep, (const timespec*, timespec*)); if (!on()) return real(d, r); guard_rt g; slept(d, false); return 0; }
RT int clock_nanosleep(clockid_t c, int f, const timespec* d, timespec* r) { REAL(int, clock_nanosleep, (clockid_t, int, const timespec*, timespec*)); if (!on()) return real(c, f, d, r); guard_rt g; slept(d, f & TIMER_ABSTIME); return 0; }
RT int clock_gettime(clockid_t c, timespec* t) { REAL(int, clock_gettime, (clockid_t, timespec*)); if (!on()) return real(c, t); vtime += 1000; t->tv_sec = 1000 + vtime / 1000000000; t->tv_nsec = vtime % 1000000000; return 0; }
// ---- function-local statics
RT int __cxa_guard_acquire(long long* gp)
{
  auto b = (volatile uint8_t*)gp;
  if (b[0]) { if (on() && alive > 1) { guard_rt g; join(T[me].vc, S((void*)gp)->wvc); } return 0; }
  if (!on()) { b[1] = 1; return 1; }
  guard_rt g; if (alive > 1 && S((void*)gp)->owner) wait_for(W_GUARD, (void*)gp);
  if (b[0]) { join(T[me].vc, S((void*)gp)->wvc); return 0; }
  acquire_mutex((void*)gp); T[me].ginit++; return 1;
}
RT void __cxa_guard_release(long long* gp)
{
  *(volatile uint8_t*)gp = 1;
  if (on()) { guard_rt g; T[me].ginit--; S((void*)gp)->rec = 0; release_mutex((void*)gp); }
}
RT void __cxa_guard_abort(long long* gp) { if (on()) { guard_rt g; T[me].ginit--; S((void*)gp)->rec = 0; release_mutex((void*)gp); } }
