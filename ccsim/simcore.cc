#include "simcore.h"
#include <dlfcn.h>
#include <link.h>
#include <linux/futex.h>
#include <pthread.h>
#include <sys/syscall.h>
#include <unwind.h>
#include <cstdlib>
#include <new>

void (*sim_fatal)(const char*) = nullptr;

namespace {
long raw_syscall(long n, long a, long b, long c, long d) {
  long r;
  register long r10 __asm__("r10") = d;
  __asm__ volatile("syscall" : "=a"(r) : "a"(n), "D"(a), "S"(b), "d"(c), "r"(r10) : "rcx", "r11", "memory");
  return r;
}
struct T { volatile int word; bool alive, blocked, started; };
T th[SIM_MAXTHREADS + 1];      // the last is main
int n, cur = -1, permille;
uint64_t rng;
uint32_t step, limit, last_switch;
const SimSwitch* ex;
int nex, iex;
SimSwitch tr[SIM_MAXSWITCH];
int ntr;
int yields_on = 1;
thread_local int me = -1;
thread_local int masked = 1;

uint64_t next() {   // splitmix64
  uint64_t z = (rng += 0x9e3779b97f4a7c15ull);
  z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
  z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
  return z ^ (z >> 31);
}
void wait_word(int i) {
  while (__atomic_load_n(&th[i].word, __ATOMIC_ACQUIRE) == 0)
    raw_syscall(SYS_futex, reinterpret_cast<long>(&th[i].word), FUTEX_WAIT | FUTEX_PRIVATE_FLAG, 0, 0);
  __atomic_store_n(&th[i].word, 0, __ATOMIC_RELEASE);
}
void post(int i) {
  __atomic_store_n(&th[i].word, 1, __ATOMIC_RELEASE);
  raw_syscall(SYS_futex, reinterpret_cast<long>(&th[i].word), FUTEX_WAKE | FUTEX_PRIVATE_FLAG, 1, 0);
}
int pick(bool other) {   // a runnable thread, -1 if there is none
  int c[SIM_MAXTHREADS], k = 0;
  for (int i = 0; i < n; i++)
    if (th[i].alive && !th[i].blocked && !(other && i == cur)) c[k++] = i;
  if (!k) return -1;
  if (ex) {
    // the next recorded target, if it can run
    if (iex < nex && ex[iex].step <= step) {
      int t = static_cast<int>(ex[iex++].target);
      for (int i = 0; i < k; i++) if (c[i] == t) return t;
    }
    return c[0];
  }
  return c[next() % static_cast<uint64_t>(k)];
}
void hand(int to) {
  if (to == cur) return;
  int self = cur;
  if (ntr < SIM_MAXSWITCH) tr[ntr++] = SimSwitch{step, static_cast<uint32_t>(to)};
  last_switch = step;
  cur = to;
  post(to);
  if (self >= 0) wait_word(self);
}
void tick() {
  if (++step > limit && sim_fatal) { masked++; sim_fatal("hang: step limit reached"); }
}
}  // namespace

extern "C" {
void sim_setup(uint64_t seed, int nt, int pm, uint32_t max_steps, const SimSwitch* e, int ne) {
  rng = seed; n = nt; permille = pm; limit = max_steps; ex = e; nex = ne; iex = 0; ntr = 0; step = 0; last_switch = 0; cur = -1;
  for (int i = 0; i < nt; i++) th[i] = T{0, true, false, false};
  th[SIM_MAXTHREADS] = T{0, true, false, false};
}
void sim_thread_begin(int id) {
  me = id;
  wait_word(id);
  masked = 0;
}
void sim_thread_end() {
  masked = 1;
  tick();
  th[me].alive = false;
  for (int i = 0; i < n; i++) th[i].blocked = false;
  int to = pick(true);
  if (to < 0) { cur = -1; post(SIM_MAXTHREADS); return; }
  if (ntr < SIM_MAXSWITCH) tr[ntr++] = SimSwitch{step, static_cast<uint32_t>(to)};
  last_switch = step;
  cur = to;
  post(to);
}
void sim_go() {
  step = 1;
  int to = pick(false);
  if (ntr < SIM_MAXSWITCH) tr[ntr++] = SimSwitch{step, static_cast<uint32_t>(to)};
  cur = to;
  post(to);
  wait_word(SIM_MAXTHREADS);
}
void sim_yield() {
  if (me < 0 || masked || !yields_on || cur != me) return;
  tick();
  if (ex) {
    if (iex < nex && ex[iex].step <= step) {
      int to = pick(false);
      if (to >= 0) hand(to);
    }
    return;
  }
  if (static_cast<int>(next() % 1000) < permille || step - last_switch > 100000) {
    last_switch = step;
    int to = pick(false);
    if (to >= 0) hand(to);
  }
}
void sim_block() {
  if (me < 0 || cur != me) return;
  tick();
  th[me].blocked = true;
  int to = pick(true);
  if (to < 0) {
    masked++;
    if (sim_fatal) sim_fatal("deadlock: every thread waits for another");
    abort();
  }
  hand(to);
}
void sim_wake() { for (int i = 0; i < n; i++) th[i].blocked = false; }
uint32_t sim_steps() { return step; }
int sim_trace(SimSwitch* out, int max) { int k = ntr < max ? ntr : max; for (int i = 0; i < k; i++) out[i] = tr[i]; return k; }
void sim_mask(int on) { masked += on ? 1 : -1; }
void sim_set_yields(int on) { yields_on = on; }

void sim_direct(int on) { if (on) { me = 0; cur = 0; n = 1; masked = 0; yields_on = 0; } else { me = -1; cur = -1; masked = 1; yields_on = 1; } }

// --- coverage callbacks: the yield points
void __sanitizer_cov_trace_pc_guard(uint32_t*) { sim_yield(); }
void __sanitizer_cov_trace_pc_guard_init(uint32_t*, uint32_t*) {}
void __sanitizer_cov_store1(uint8_t*) { sim_yield(); }
void __sanitizer_cov_store2(uint16_t*) { sim_yield(); }
void __sanitizer_cov_store4(uint32_t*) { sim_yield(); }
void __sanitizer_cov_store8(uint64_t*) { sim_yield(); }
void __sanitizer_cov_store16(__uint128_t*) { sim_yield(); }

// --- synchronisation used by the code under test (linked with --wrap)
bool in_sim() { return me >= 0 && cur == me; }
#define LOCKISH(NAME, TRY)                                                     \
  int __real_##NAME(void*);                                                    \
  int __real_##TRY(void*);                                                     \
  int __wrap_##NAME(void* m) {                                                 \
    if (!in_sim()) return __real_##NAME(m);                                    \
    sim_yield();                                                               \
    for (;;) {                                                                 \
      int r = __real_##TRY(m);                                                 \
      if (r == 0 || r != 16 /* EBUSY */) return r;                             \
      sim_block();                                                             \
    }                                                                          \
  }                                                                            \
  int __wrap_##TRY(void* m) { sim_yield(); return __real_##TRY(m); }
LOCKISH(pthread_mutex_lock, pthread_mutex_trylock)
LOCKISH(pthread_rwlock_rdlock, pthread_rwlock_tryrdlock)
LOCKISH(pthread_rwlock_wrlock, pthread_rwlock_trywrlock)
#define UNLOCKISH(NAME) \
  int __real_##NAME(void*); \
  int __wrap_##NAME(void* m) { int r = __real_##NAME(m); if (in_sim()) { sim_wake(); sim_yield(); } return r; }
UNLOCKISH(pthread_mutex_unlock)
UNLOCKISH(pthread_rwlock_unlock)
// waits are modelled as spurious wakeups, which every correct caller expects
int __wrap_pthread_cond_wait(void*, void* m) {
  if (!in_sim()) abort();
  __wrap_pthread_mutex_unlock(m);
  sim_yield();
  return __wrap_pthread_mutex_lock(m);
}
int __wrap_sched_yield() { sim_yield(); return 0; }
int __wrap_nanosleep(const void*, void*) { sim_yield(); return 0; }
int __wrap_usleep(unsigned) { sim_yield(); return 0; }
}

namespace {
// one-time initialisation in progress: guard or once address -> thread
struct P { void* a; int t; } prog[256];
int who(void* a) { for (P& p : prog) if (p.a == a) return p.t; return -1; }
void enter(void* a) { for (P& p : prog) if (!p.a) { p.a = a; p.t = me; return; } abort(); }
void leave(void* a) { for (P& p : prog) if (p.a == a) { p.a = nullptr; sim_wake(); return; } }
}  // namespace

extern "C" {
int __real___cxa_guard_acquire(uint64_t*);
void __real___cxa_guard_release(uint64_t*);
void __real___cxa_guard_abort(uint64_t*);
int __wrap___cxa_guard_acquire(uint64_t* g) {
  if (in_sim()) {
    sim_yield();
    while (who(g) >= 0 && who(g) != me) sim_block();
  }
  int r = __real___cxa_guard_acquire(g);
  if (r && in_sim()) enter(g);
  return r;
}
void __wrap___cxa_guard_release(uint64_t* g) { __real___cxa_guard_release(g); if (in_sim()) { leave(g); sim_yield(); } }
void __wrap___cxa_guard_abort(uint64_t* g) { __real___cxa_guard_abort(g); if (in_sim()) { leave(g); sim_yield(); } }
int __real_pthread_once(int*, void (*)());
int __wrap_pthread_once(int* c, void (*f)()) {
  if (!in_sim()) return __real_pthread_once(c, f);
  sim_yield();
  while (who(c) >= 0 && who(c) != me) sim_block();
  struct G { void* c; ~G() { leave(c); } } g{c};
  enter(c);
  return __real_pthread_once(c, f);
}
}

// --- allocation
namespace {
struct R { uintptr_t a, b; } skip[8];
int nskip;
bool acct;                // accounting is on
thread_local int64_t acount, afailed, afail_at;
thread_local int afrom, aop;
struct E { void* p; int64_t owner; };
enum { TAB = 1 << 16 };
E tab[TAB];
int64_t opno;             // number of the operation, unique in the process
thread_local int64_t myop;
int64_t live_of[1 << 12];

int phdr(struct dl_phdr_info* i, size_t, void*) {
  const char* nm = i->dlpi_name;
  auto has = [&](const char* s) { for (const char* p = nm; *p; p++) { const char *a = p, *b = s; while (*b && *a == *b) a++, b++; if (!*b) return true; } return false; };
  if (!has("libre2") && !has("libprotobuf")) return 0;
  for (int k = 0; k < i->dlpi_phnum; k++)
    if (i->dlpi_phdr[k].p_type == PT_LOAD && (i->dlpi_phdr[k].p_flags & PF_X) && nskip < 8)
      skip[nskip++] = R{i->dlpi_addr + i->dlpi_phdr[k].p_vaddr, i->dlpi_addr + i->dlpi_phdr[k].p_vaddr + i->dlpi_phdr[k].p_memsz};
  return 0;
}
struct W { bool lib; int depth; };
_Unwind_Reason_Code frame(struct _Unwind_Context* c, void* v) {
  W* w = static_cast<W*>(v);
  uintptr_t ip = _Unwind_GetIP(c);
  for (int i = 0; i < nskip; i++) if (ip >= skip[i].a && ip < skip[i].b) { w->lib = true; return _URC_END_OF_STACK; }
  return ++w->depth > 40 ? _URC_END_OF_STACK : _URC_NO_REASON;
}
void put(void* p) {
  for (uintptr_t h = (reinterpret_cast<uintptr_t>(p) >> 4) * 0x9e3779b97f4a7c15ull >> 48, i = 0; i < TAB; i++, h = (h + 1) % TAB)
    if (!tab[h].p || tab[h].p == reinterpret_cast<void*>(1)) { tab[h] = E{p, myop}; live_of[myop & 4095]++; return; }
}
void del(void* p) {
  for (uintptr_t h = (reinterpret_cast<uintptr_t>(p) >> 4) * 0x9e3779b97f4a7c15ull >> 48, i = 0; i < TAB; i++, h = (h + 1) % TAB) {
    if (!tab[h].p) return;
    if (tab[h].p == p) { tab[h].p = reinterpret_cast<void*>(1); live_of[tab[h].owner & 4095]--; return; }
  }
}
void* allocate(size_t s, bool nothrow) {
  if (acct && aop && me >= 0 && cur == me && !masked) {
    masked++;
    W w{false, 0};
    _Unwind_Backtrace(frame, &w);
    masked--;
    if (!w.lib) {
      acount++;
      if (afail_at && (acount == afail_at || (afrom && acount > afail_at))) {
        afailed++;
        if (nothrow) return nullptr;
        throw std::bad_alloc();
      }
      void* p = malloc(s ? s : 1);
      if (!p) abort();
      put(p);
      sim_yield();
      return p;
    }
  }
  void* p = malloc(s ? s : 1);
  if (!p) abort();
  return p;
}
void release(void* p) {
  if (!p) return;
  if (acct) del(p);
  free(p);
}
uint64_t mapseed = 1;
}  // namespace

extern "C" {
void sim_alloc_enable() { dl_iterate_phdr(phdr, nullptr); acct = true; }
void sim_alloc_begin(int64_t at, int from) { acount = 0; afailed = 0; afail_at = at; afrom = from; aop = 1; myop = ++opno; live_of[myop & 4095] = 0; }
void sim_alloc_end() { aop = 0; }
int64_t sim_alloc_count() { return acount; }
int64_t sim_alloc_failed() { return afailed; }
int64_t sim_alloc_live() { return live_of[myop & 4095]; }
uint64_t sim_map_seed() { mapseed += 0x9e3779b97f4a7c15ull; uint64_t z = mapseed; z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull; return z ^ (z >> 31); }
void sim_set_map_seed(uint64_t s) { mapseed = s; }
}
void* sim_new(size_t s, bool nothrow) { return allocate(s, nothrow); }
void sim_delete(void* p) { release(p); }
