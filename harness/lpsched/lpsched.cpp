// lpsched - controlled scheduling and race detection for the code under test.
//
// The code under test (and the drivers) are compiled with `g++ -fsanitize=thread`, which inserts a call for every memory
// access and atomic operation; this file implements those calls and interposes the synchronisation, time and allocation
// functions of libc. Threads are real threads, but exactly one holds the token and runs; at every synchronisation
// operation (and at a few memory accesses) the policy decides who runs next. Time is virtual.
//
//  * races: vector clocks over program order, mutexes, condition variables (through their mutex), atomics according to
//    their memory order, thread creation and join, once-flags and futexes. A conflicting pair of accesses that is not
//    ordered is a race whatever the interleaving that was executed.
//  * use after free: released heap memory is never reused in a schedule; an access to it is reported.
//  * deadlock, livelock ("hang"), crash: final events of the trace.
//
// No C++ standard library in here: this file is not instrumented and must not share inline code with instrumented files.
#ifndef _GNU_SOURCE
#define _GNU_SOURCE
#endif
#include "lpsched.h"
#include <dlfcn.h>
#include <errno.h>
#include <linux/futex.h>
#include <pthread.h>
#include <sched.h>
#include <semaphore.h>
#include <signal.h>
#include <stdarg.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>

extern "C" {
void* __libc_malloc(size_t);
void __libc_free(void*);
void* __libc_calloc(size_t, size_t);
void* __libc_realloc(void*, size_t);
void* __libc_memalign(size_t, size_t);
}

#define MAXT 24
#define NOINST __attribute__((no_sanitize("thread")))
#define TLS __thread __attribute__((tls_model("initial-exec")))

typedef uint64_t u64; typedef uint32_t u32; typedef uint16_t u16; typedef uint8_t u8; typedef long long ll;

// ------------------------------------------------------------------------------------------------ raw helpers
static long raw_syscall6(long n, long a, long b, long c, long d, long e, long f)
{
  long ret;
  register long r10 __asm__("r10") = d; register long r8 __asm__("r8") = e; register long r9 __asm__("r9") = f;
  __asm__ volatile("syscall" : "=a"(ret) : "a"(n), "D"(a), "S"(b), "d"(c), "r"(r10), "r"(r8), "r"(r9) : "rcx", "r11", "memory");
  return ret;
}
static void fwait(volatile int* a, int v) { raw_syscall6(SYS_futex, (long)a, FUTEX_WAIT_PRIVATE, v, 0, 0, 0); }
static void fwake(volatile int* a) { raw_syscall6(SYS_futex, (long)a, FUTEX_WAKE_PRIVATE, 1, 0, 0, 0); }

struct VC { u32 c[MAXT]; };
static void vc_join(VC* a, const VC* b) { for(int i = 0; i < MAXT; ++i) if(b->c[i] > a->c[i]) a->c[i] = b->c[i]; }

enum St { FREE = 0, RUNNABLE, B_MUTEX, B_COND, B_SLEEP, B_JOIN, B_FLAG, B_FUTEX, B_IDLE, B_RW, B_ONCE, B_SEM, DONE };
static const char* stname[] = {"free", "runnable", "mutex", "cond", "sleep", "join", "flag", "futex", "idle", "rwlock", "once", "sem", "done"};

struct Thr
{
  volatile int go;
  int st;
  const void* obj;     // what it is blocked on
  ll deadline;         // virtual ns or -1
  bool timedout, woken;
  int prio;
  VC vc;
  pthread_t pt;
  void* (*fn)(void*);
  void* arg;
  void* ret;
  char* stklo; char* stkhi;
  u64 waitseq;
};

struct Obj // any synchronisation object, keyed by its address
{
  const void* addr;
  int kind;            // 1 mutex 2 cond 3 rw 4 once 5 atomic 6 sem 7 futex
  int owner, count;    // mutex / rw writer
  int readers[MAXT];
  int state;
  VC vc;
};

#define NOBJ (1 << 20)
static Obj* objs;      // open hashing
static u32* objidx; static u32 nobj;
static Thr thr[MAXT];
static int nthr;
static volatile int cur;
static volatile bool active;
static TLS int me = -1;
static TLS int inrt = 0;   // >0: inside the runtime
static TLS int quiet = 0;

static ll vnow;            // ns
static ll vbase;
static ll lastevent;
static u64 rng;
static int pol_switch, pol_mem, pol_time, pol_pct, mode_;
static int pct_low; static u64 pct_change[8]; static int pct_n;
static u64 nsteps, nswitch;
static u64 maxsteps = 400000;
static u64 waitseq;

struct Shared { volatile u32 len; volatile u32 overflow; u64 steps, switches; u32 nrace; u64 racepc[64]; char buf[1 << 22]; };
static Shared* sh;
static u64 hotpc[256]; static int nhot;
static VC flagvc[8192]; static bool flagset_[8192];
static VC fencevc;

static u64 rnd() { rng ^= rng << 13; rng ^= rng >> 7; rng ^= rng << 17; return rng * 0x2545F4914F6CDD1DULL; }
static u32 rndn(u32 n) { return (u32)((rnd() >> 33) % n); }

static void sh_put(const char* s, size_t n)
{
  if(sh->len + n + 2 >= sizeof(sh->buf)) { sh->overflow = 1; return; }
  for(size_t i = 0; i < n; ++i) sh->buf[sh->len + i] = s[i];
  sh->len += n;
}
static void sh_event(const char* s)
{
  if(sh->len > 0) sh_put(",", 1);
  size_t n = 0; while(s[n]) ++n;
  sh_put(s, n);
}
static void finish(const char* what)
{
  char b[1024]; int n = snprintf(b, sizeof b, "{\"t\":%d,\"e\":\"%s\",\"st\":\"", me, what);
  for(int i = 0; i < nthr; ++i) n += snprintf(b + n, sizeof b - n, "%s%d:%s", i ? " " : "", i, stname[thr[i].st]);
  snprintf(b + n, sizeof b - n, "\"}");
  sh_event(b);
  sh->steps = nsteps; sh->switches = nswitch;
  raw_syscall6(SYS_exit_group, 0, 0, 0, 0, 0, 0);
  __builtin_unreachable();
}

static Obj* obj(const void* a, int kind)
{
  u64 h = ((u64)a * 0x9E3779B97F4A7C15ULL) >> 40;
  for(;;)
  {
    u32* i = &objidx[h & (NOBJ - 1)];
    if(*i == 0)
    {
      if(nobj + 1 >= NOBJ / 2) finish("steps");
      *i = ++nobj; Obj* o = &objs[nobj]; o->addr = a; o->kind = kind; o->owner = -1; return o;
    }
    Obj* o = &objs[*i];
    if(o->addr == a && o->kind == kind) return o;
    ++h;
  }
}

// ------------------------------------------------------------------------------------------------ scheduling
static int runnable(int* out)
{
  int n = 0;
  for(int i = 0; i < nthr; ++i) if(thr[i].st == RUNNABLE) out[n++] = i;
  return n;
}
static bool istimed(int st) { return st == B_COND || st == B_SLEEP || st == B_MUTEX || st == B_FUTEX || st == B_RW || st == B_SEM; }
static void fire(int i) { thr[i].timedout = true; thr[i].st = RUNNABLE; if(thr[i].deadline > vnow) vnow = thr[i].deadline; }
static int earliest()
{
  int best = -1;
  for(int i = 0; i < nthr; ++i)
    if(istimed(thr[i].st) && thr[i].deadline >= 0 && (best < 0 || thr[i].deadline < thr[best].deadline)) best = i;
  return best;
}
static int pick()
{
  for(;;)
  {
    int r[MAXT]; int n = runnable(r);
    if(n > 0 && pol_time && rndn(1000) < (u32)pol_time)
    {
      int e = earliest();
      if(e >= 0) { fire(e); continue; }
    }
    if(n > 0 && pol_time && rndn(2000) < (u32)pol_time)
    {
      int i = rndn(nthr);
      if(thr[i].st == B_COND) { thr[i].timedout = false; thr[i].st = RUNNABLE; continue; }
    }
    if(n == 0)
    {
      int e = earliest();
      int idle = -1;
      for(int i = 0; i < nthr; ++i) if(thr[i].st == B_IDLE && (idle < 0 || thr[i].deadline < thr[idle].deadline)) idle = i;
      if(idle >= 0 && (e < 0 || thr[e].deadline > thr[idle].deadline)) e = idle;
      if(e < 0) finish("deadlock");
      if(thr[e].deadline - lastevent > 120LL * 1000000000LL) finish("hang");
      fire(e);
      if(e == idle) return e;
      // everything that is due at the same time
      for(int i = 0; i < nthr; ++i) if(istimed(thr[i].st) && thr[i].deadline >= 0 && thr[i].deadline <= vnow) fire(i);
      continue;
    }
    if(pol_pct)
    {
      int b = r[0];
      for(int i = 1; i < n; ++i) if(thr[r[i]].prio > thr[b].prio) b = r[i];
      return b;
    }
    return r[rndn(n)];
  }
}
static void switch_to(int n)
{
  int self = me;
  if(n == self) return;
  ++nswitch;
  cur = n;
  __atomic_store_n(&thr[n].go, 1, __ATOMIC_SEQ_CST);
  fwake(&thr[n].go);
  if(thr[self].st == DONE) return;
  while(__atomic_load_n(&thr[self].go, __ATOMIC_SEQ_CST) == 0) fwait(&thr[self].go, 0);
  __atomic_store_n(&thr[self].go, 0, __ATOMIC_SEQ_CST);
}
static void step()
{
  if(++nsteps > maxsteps) finish("hang");
  for(int i = 0; i < pct_n; ++i) if(pct_change[i] == nsteps) thr[me].prio = --pct_low;
}
// weight: 0..1000, relative likelihood of a switch here
static void point(int weight)
{
  step();
  if(pol_pct) { if(weight >= 100) { int n = pick(); switch_to(n); } return; }
  if(rndn(1000) < (u32)(pol_switch * weight / 1000)) switch_to(pick());
}
static void block(int st, const void* o, ll deadline)
{
  step();
  Thr* t = &thr[me];
  t->st = st; t->obj = o; t->deadline = deadline; t->timedout = false; t->woken = false; t->waitseq = ++waitseq;
  switch_to(pick());
}
static void wake_all(int st, const void* o) { for(int i = 0; i < nthr; ++i) if(thr[i].st == st && thr[i].obj == o) { thr[i].st = RUNNABLE; thr[i].woken = true; } }

#define ACT (active && me >= 0 && inrt == 0 && quiet == 0)
struct Rt { Rt() { ++inrt; } ~Rt() { --inrt; } };

static void release(VC* v) { vc_join(v, &thr[me].vc); thr[me].vc.c[me]++; }
static void acquire(VC* v) { vc_join(&thr[me].vc, v); }

// ------------------------------------------------------------------------------------------------ shadow memory
struct Slot { u32 epoch; u8 tid, mask, flags, used; u64 pc; };  // flags: 1 write 2 atomic 4 freed
struct Cell { Slot s[4]; };
struct Page { u64 no; Cell* cells; Page* next; };
#define NPAGE 4096
static Page* pages[NPAGE];
static char* arena; static size_t arenaoff, arenalen;
static void* aalloc(size_t n)
{
  n = (n + 63) & ~(size_t)63;
  if(!arena || arenaoff + n > arenalen)
  {
    arenalen = n > (16u << 20) ? n : (16u << 20);
    arena = (char*)mmap(0, arenalen, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    arenaoff = 0;
  }
  void* p = arena + arenaoff; arenaoff += n; return p;
}
static Page* page(u64 no, bool create)
{
  u64 h = (no * 0x9E3779B97F4A7C15ULL) >> 52;
  for(Page* p = pages[h]; p; p = p->next) if(p->no == no) return p;
  if(!create) return 0;
  Page* p = (Page*)aalloc(sizeof(Page));
  p->no = no; p->cells = (Cell*)aalloc(sizeof(Cell) * 512); p->next = pages[h]; pages[h] = p;
  return p;
}
static void clear_range(u64 a, u64 n)
{
  u64 e = a + n; a &= ~7ULL;
  while(a < e)
  {
    u64 pe = (a & ~4095ULL) + 4096; if(pe > e) pe = e;
    Page* p = page(a >> 12, false);
    if(p) for(u64 x = a; x < pe; x += 8) { Cell* c = &p->cells[(x >> 3) & 511]; for(int i = 0; i < 4; ++i) c->s[i].used = 0; }
    a = (a & ~4095ULL) + 4096;
  }
}
static void report(const char* what, u64 addr, u64 pc1, bool w1, int t2, u64 pc2, bool w2)
{
  for(u32 i = 0; i + 1 < sh->nrace && i < 64; i += 2)
    if((sh->racepc[i] == pc1 && sh->racepc[i + 1] == pc2) || (sh->racepc[i] == pc2 && sh->racepc[i + 1] == pc1)) return;
  if(sh->nrace + 2 > 64) return;
  sh->racepc[sh->nrace] = pc1; sh->racepc[sh->nrace + 1] = pc2; sh->nrace += 2;
  char b[256];
  snprintf(b, sizeof b, "{\"t\":%d,\"e\":\"%s\",\"pc\":\"%llx\",\"w\":%d,\"t2\":%d,\"pc2\":\"%llx\",\"w2\":%d}", me, what,
           (unsigned long long)pc1, w1, t2, (unsigned long long)pc2, w2);
  (void)addr;
  sh_event(b);
}
static bool ishot(u64 pc) { for(int i = 0; i < nhot; ++i) if(hotpc[i] == pc) return true; return false; }

static void access_granule(u64 g, u8 mask, bool w, bool at, u64 pc)
{
  Page* p = page(g >> 12, true);
  Cell* c = &p->cells[(g >> 3) & 511];
  Thr* t = &thr[me];
  int freeslot = -1;
  for(int i = 0; i < 4; ++i)
  {
    Slot* s = &c->s[i];
    if(!s->used) { if(freeslot < 0) freeslot = i; continue; }
    if(s->flags & 4) { if(s->mask & mask) report("uaf", g, pc, w, s->tid, s->pc, true); continue; }
    if(s->tid == me)
    {
      bool sw = s->flags & 1, sa = s->flags & 2;
      if(sw == w && sa == at) { if((s->mask & ~mask) == 0) freeslot = i; }
      continue;
    }
    bool ordered = s->epoch <= t->vc.c[s->tid];
    if(!ordered && (s->mask & mask) && (w || (s->flags & 1)) && !(at && (s->flags & 2)))
      report("race", g, pc, w, s->tid, s->pc, s->flags & 1);
    if(ordered && freeslot < 0 && w && (s->mask & ~mask) == 0) freeslot = i;
  }
  if(freeslot < 0)
  {
    for(int i = 0; i < 4 && freeslot < 0; ++i) if(c->s[i].tid != me && c->s[i].epoch <= t->vc.c[c->s[i].tid] && !(c->s[i].flags & 4)) freeslot = i;
    if(freeslot < 0) freeslot = rndn(4);
  }
  Slot* s = &c->s[freeslot];
  s->epoch = t->vc.c[me]; s->tid = me; s->mask = mask; s->flags = (w ? 1 : 0) | (at ? 2 : 0); s->used = 1; s->pc = pc;
}
static void access_mem(u64 a, u64 n, bool w, bool at, u64 pc)
{
  if(!ACT) return;
  Rt rt;
  if(!at)
  {
    if(pol_mem && (rnd() >> 40) % 4096 < (u64)pol_mem) { step(); switch_to(pick()); }
    else if(nhot && ishot(pc) && rndn(3) == 0) { step(); switch_to(pol_pct ? ({ int r[MAXT]; int k = runnable(r); r[rndn(k)]; }) : pick()); }
  }
  u64 e = a + n;
  while(a < e)
  {
    u64 g = a & ~7ULL; u64 ge = g + 8; u64 x = e < ge ? e : ge;
    u8 mask = (u8)(((1u << (x - g)) - 1) & ~((1u << (a - g)) - 1));
    access_granule(g, mask, w, at, pc);
    a = ge;
  }
}
#define PC ((u64)__builtin_return_address(0))
extern "C" {
void __tsan_init() {}
void __tsan_func_entry(void*) {}
void __tsan_func_exit() {}
#define RW(n) \
  void __tsan_read##n(void* a) { access_mem((u64)a, n, false, false, PC); } \
  void __tsan_write##n(void* a) { access_mem((u64)a, n, true, false, PC); } \
  void __tsan_unaligned_read##n(void* a) { access_mem((u64)a, n, false, false, PC); } \
  void __tsan_unaligned_write##n(void* a) { access_mem((u64)a, n, true, false, PC); } \
  void __tsan_volatile_read##n(void* a) { access_mem((u64)a, n, false, false, PC); } \
  void __tsan_volatile_write##n(void* a) { access_mem((u64)a, n, true, false, PC); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_read_range(void* a, u64 n) { access_mem((u64)a, n, false, false, PC); }
void __tsan_write_range(void* a, u64 n) { access_mem((u64)a, n, true, false, PC); }
void __tsan_vptr_update(void** a, void* v) { if(*a != v) access_mem((u64)a, 8, true, false, PC); }
void __tsan_vptr_read(void** a) { access_mem((u64)a, 8, false, false, PC); }

// Atomics. mo: 0 relaxed 1 consume 2 acquire 3 release 4 acq_rel 5 seq_cst
static void at_pre(volatile void* a, int weight) { (void)a; if(ACT) { Rt rt; point(weight); } }
static void at_post(volatile void* a, int n, int mo, bool ld, bool st, u64 pc)
{
  if(!ACT) return;
  access_mem((u64)a, n, st, true, pc);
  Rt rt;
  Obj* o = obj((const void*)a, 5);
  if(ld && (mo == 1 || mo == 2 || mo == 4 || mo == 5)) acquire(&o->vc);
  if(st && (mo == 3 || mo == 4 || mo == 5)) { if(!ld) o->vc = thr[me].vc; release(&o->vc); }
  else if(st && !ld) for(int i = 0; i < MAXT; ++i) o->vc.c[i] = 0;   // relaxed store ends the release sequence
}
#define ATOMIC(bits, T) \
  T __tsan_atomic##bits##_load(const volatile T* a, int mo) { at_pre((void*)a, 1000); T r = __atomic_load_n(a, __ATOMIC_SEQ_CST); at_post((void*)a, sizeof(T), mo, true, false, PC); return r; } \
  void __tsan_atomic##bits##_store(volatile T* a, T v, int mo) { at_pre(a, 1000); at_post(a, sizeof(T), mo, false, true, PC); __atomic_store_n(a, v, __ATOMIC_SEQ_CST); } \
  T __tsan_atomic##bits##_exchange(volatile T* a, T v, int mo) { at_pre(a, 1000); T r = __atomic_exchange_n(a, v, __ATOMIC_SEQ_CST); at_post(a, sizeof(T), mo, true, true, PC); return r; } \
  T __tsan_atomic##bits##_fetch_add(volatile T* a, T v, int mo) { at_pre(a, 60); T r = __atomic_fetch_add(a, v, __ATOMIC_SEQ_CST); at_post(a, sizeof(T), mo, true, true, PC); return r; } \
  T __tsan_atomic##bits##_fetch_sub(volatile T* a, T v, int mo) { at_pre(a, 60); T r = __atomic_fetch_sub(a, v, __ATOMIC_SEQ_CST); at_post(a, sizeof(T), mo, true, true, PC); return r; } \
  T __tsan_atomic##bits##_fetch_and(volatile T* a, T v, int mo) { at_pre(a, 1000); T r = __atomic_fetch_and(a, v, __ATOMIC_SEQ_CST); at_post(a, sizeof(T), mo, true, true, PC); return r; } \
  T __tsan_atomic##bits##_fetch_or(volatile T* a, T v, int mo) { at_pre(a, 1000); T r = __atomic_fetch_or(a, v, __ATOMIC_SEQ_CST); at_post(a, sizeof(T), mo, true, true, PC); return r; } \
  T __tsan_atomic##bits##_fetch_xor(volatile T* a, T v, int mo) { at_pre(a, 1000); T r = __atomic_fetch_xor(a, v, __ATOMIC_SEQ_CST); at_post(a, sizeof(T), mo, true, true, PC); return r; } \
  T __tsan_atomic##bits##_fetch_nand(volatile T* a, T v, int mo) { at_pre(a, 1000); T r = __atomic_fetch_nand(a, v, __ATOMIC_SEQ_CST); at_post(a, sizeof(T), mo, true, true, PC); return r; } \
  int __tsan_atomic##bits##_compare_exchange_strong(volatile T* a, T* c, T v, int mo, int fmo) { at_pre(a, 1000); int r = __atomic_compare_exchange_n(a, c, v, 0, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); at_post(a, sizeof(T), r ? mo : fmo, true, r, PC); return r; } \
  int __tsan_atomic##bits##_compare_exchange_weak(volatile T* a, T* c, T v, int mo, int fmo) { at_pre(a, 1000); int r = __atomic_compare_exchange_n(a, c, v, 0, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); at_post(a, sizeof(T), r ? mo : fmo, true, r, PC); return r; } \
  T __tsan_atomic##bits##_compare_exchange_val(volatile T* a, T c, T v, int mo, int fmo) { at_pre(a, 1000); int r = __atomic_compare_exchange_n(a, &c, v, 0, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); at_post(a, sizeof(T), r ? mo : fmo, true, r, PC); return c; }
ATOMIC(8, u8) ATOMIC(16, u16) ATOMIC(32, u32) ATOMIC(64, u64)
void __tsan_atomic_thread_fence(int mo)
{
  if(!ACT || mo == 0) { __atomic_thread_fence(__ATOMIC_SEQ_CST); return; }
  Rt rt; acquire(&fencevc); release(&fencevc);
}
void __tsan_atomic_signal_fence(int) {}

// ------------------------------------------------------------------------------------------------ mutexes
#define REAL(name) ((decltype(&name))realsym(#name))
static void* realsym(const char* n)
{
  ++inrt; void* p = dlsym(RTLD_NEXT, n); --inrt; return p;
}
static bool recursive(const pthread_mutex_t* m) { return (m->__data.__kind & 3) == PTHREAD_MUTEX_RECURSIVE_NP; }

static bool lock_sim(const void* m, bool rec, ll deadline)
{
  Obj* o = obj(m, 1);
  for(;;)
  {
    if(o->owner < 0) { o->owner = me; o->count = 1; acquire(&o->vc); return true; }
    if(o->owner == me && rec) { o->count++; return true; }
    block(B_MUTEX, m, deadline);
    if(thr[me].timedout) { thr[me].timedout = false; if(o->owner >= 0) return false; }
  }
}
static int unlock_sim(const void* m)
{
  Obj* o = obj(m, 1);
  if(o->owner != me) { finish("badunlock"); }
  if(--o->count > 0) return 0;
  o->owner = -1;
  release(&o->vc);
  wake_all(B_MUTEX, m);
  return 0;
}
static ll absns(const struct timespec* ts, int clock)
{
  ll t = (ll)ts->tv_sec * 1000000000LL + ts->tv_nsec;
  if(clock == CLOCK_REALTIME) t -= 1700000000LL * 1000000000LL;
  return t < vnow ? vnow : t;
}
int pthread_mutex_lock(pthread_mutex_t* m)
{
  if(!ACT) { static auto f = REAL(pthread_mutex_lock); return active ? 0 : f(m); }
  Rt rt; point(1000);
  lock_sim(m, recursive(m), -1);
  return 0;
}
int pthread_mutex_trylock(pthread_mutex_t* m)
{
  if(!ACT) { static auto f = REAL(pthread_mutex_trylock); return active ? 0 : f(m); }
  Rt rt; point(1000);
  Obj* o = obj(m, 1);
  if(o->owner >= 0 && !(o->owner == me && recursive(m))) return EBUSY;
  lock_sim(m, recursive(m), -1);
  return 0;
}
int pthread_mutex_timedlock(pthread_mutex_t* m, const struct timespec* ts)
{
  if(!ACT) { static auto f = REAL(pthread_mutex_timedlock); return active ? 0 : f(m, ts); }
  Rt rt; point(1000);
  return lock_sim(m, recursive(m), absns(ts, CLOCK_REALTIME)) ? 0 : ETIMEDOUT;
}
int pthread_mutex_clocklock(pthread_mutex_t* m, clockid_t c, const struct timespec* ts)
{
  if(!ACT) { static auto f = REAL(pthread_mutex_clocklock); return active ? 0 : f(m, c, ts); }
  Rt rt; point(1000);
  return lock_sim(m, recursive(m), absns(ts, c)) ? 0 : ETIMEDOUT;
}
int pthread_mutex_unlock(pthread_mutex_t* m)
{
  if(!ACT) { static auto f = REAL(pthread_mutex_unlock); return active ? 0 : f(m); }
  Rt rt; unlock_sim(m); point(700);
  return 0;
}
int pthread_mutex_destroy(pthread_mutex_t* m)
{
  if(!ACT) { static auto f = REAL(pthread_mutex_destroy); return active ? 0 : f(m); }
  Rt rt; Obj* o = obj(m, 1); if(o->owner >= 0) finish("destroyedlocked");
  return 0;
}

// ------------------------------------------------------------------------------------------------ condition variables
static int condwait(pthread_cond_t* c, pthread_mutex_t* m, ll deadline)
{
  point(1000);
  Obj* mo = obj(m, 1);
  if(mo->owner != me) finish("condwithoutlock");
  int cnt = mo->count; mo->count = 1;
  unlock_sim(m);
  block(B_COND, c, deadline);
  bool to = thr[me].timedout;
  lock_sim(m, false, -1);
  mo->count = cnt;
  return to ? ETIMEDOUT : 0;
}
int pthread_cond_wait(pthread_cond_t* c, pthread_mutex_t* m)
{
  if(!ACT) { static auto f = (int (*)(pthread_cond_t*, pthread_mutex_t*))realsym("pthread_cond_wait"); return active ? 0 : f(c, m); }
  Rt rt; return condwait(c, m, -1);
}
int pthread_cond_timedwait(pthread_cond_t* c, pthread_mutex_t* m, const struct timespec* ts)
{
  if(!ACT) { static auto f = (int (*)(pthread_cond_t*, pthread_mutex_t*, const struct timespec*))realsym("pthread_cond_timedwait"); return active ? 0 : f(c, m, ts); }
  Rt rt; return condwait(c, m, absns(ts, CLOCK_REALTIME));
}
int pthread_cond_clockwait(pthread_cond_t* c, pthread_mutex_t* m, clockid_t k, const struct timespec* ts)
{
  if(!ACT) { static auto f = (int (*)(pthread_cond_t*, pthread_mutex_t*, clockid_t, const struct timespec*))realsym("pthread_cond_clockwait"); return active ? 0 : f(c, m, k, ts); }
  Rt rt; return condwait(c, m, absns(ts, k));
}
int pthread_cond_signal(pthread_cond_t* c)
{
  if(!ACT) { static auto f = (int (*)(pthread_cond_t*))realsym("pthread_cond_signal"); return active ? 0 : f(c); }
  Rt rt; point(1000);
  int w[MAXT], n = 0;
  for(int i = 0; i < nthr; ++i) if(thr[i].st == B_COND && thr[i].obj == c) w[n++] = i;
  if(n) { int i = w[rndn(n)]; thr[i].st = RUNNABLE; thr[i].woken = true; }
  point(500);
  return 0;
}
int pthread_cond_broadcast(pthread_cond_t* c)
{
  if(!ACT) { static auto f = (int (*)(pthread_cond_t*))realsym("pthread_cond_broadcast"); return active ? 0 : f(c); }
  Rt rt; point(1000); wake_all(B_COND, c); point(500);
  return 0;
}
int pthread_cond_destroy(pthread_cond_t* c)
{
  if(!ACT) { static auto f = (int (*)(pthread_cond_t*))realsym("pthread_cond_destroy"); return active ? 0 : f(c); }
  Rt rt;
  for(int i = 0; i < nthr; ++i) if(thr[i].st == B_COND && thr[i].obj == c) finish("conddestroyed");
  return 0;
}

// ------------------------------------------------------------------------------------------------ rwlocks
static int rw_lock(pthread_rwlock_t* l, bool wr, bool tryit, ll deadline)
{
  point(1000);
  Obj* o = obj(l, 3);
  for(;;)
  {
    int rd = 0; for(int i = 0; i < MAXT; ++i) rd += o->readers[i];
    if(wr ? (o->owner < 0 && rd == 0) : o->owner < 0)
    {
      if(wr) o->owner = me; else o->readers[me]++;
      acquire(&o->vc);
      return 0;
    }
    if(tryit) return EBUSY;
    block(B_RW, l, deadline);
    if(thr[me].timedout) return ETIMEDOUT;
  }
}
int pthread_rwlock_rdlock(pthread_rwlock_t* l) { if(!ACT) { static auto f = REAL(pthread_rwlock_rdlock); return active ? 0 : f(l); } Rt rt; return rw_lock(l, false, false, -1); }
int pthread_rwlock_wrlock(pthread_rwlock_t* l) { if(!ACT) { static auto f = REAL(pthread_rwlock_wrlock); return active ? 0 : f(l); } Rt rt; return rw_lock(l, true, false, -1); }
int pthread_rwlock_tryrdlock(pthread_rwlock_t* l) { if(!ACT) { static auto f = REAL(pthread_rwlock_tryrdlock); return active ? 0 : f(l); } Rt rt; return rw_lock(l, false, true, -1); }
int pthread_rwlock_trywrlock(pthread_rwlock_t* l) { if(!ACT) { static auto f = REAL(pthread_rwlock_trywrlock); return active ? 0 : f(l); } Rt rt; return rw_lock(l, true, true, -1); }
int pthread_rwlock_unlock(pthread_rwlock_t* l)
{
  if(!ACT) { static auto f = REAL(pthread_rwlock_unlock); return active ? 0 : f(l); }
  Rt rt; Obj* o = obj(l, 3);
  if(o->owner == me) o->owner = -1; else if(o->readers[me] > 0) o->readers[me]--; else finish("badunlock");
  release(&o->vc); wake_all(B_RW, l); point(700);
  return 0;
}

// ------------------------------------------------------------------------------------------------ once, statics
int pthread_once(pthread_once_t* c, void (*fn)(void))
{
  if(!ACT) { static auto f = REAL(pthread_once); return f(c, fn); }
  { Rt rt; point(500); Obj* o = obj(c, 4);
    if(*c != 0 && o->state == 0) return 0;      // done before the schedule began
    for(;;) { if(o->state == 2) { acquire(&o->vc); return 0; } if(o->state == 0) { o->state = 1; break; } block(B_ONCE, c, -1); } }
  fn();
  { Rt rt; Obj* o = obj(c, 4); o->state = 2; *c = 2; release(&o->vc); wake_all(B_ONCE, c); }
  return 0;
}
int __cxa_guard_acquire(long long* g)
{
  if(*(volatile char*)g) { if(ACT) { Rt rt; acquire(&obj(g, 4)->vc); } return 0; }
  if(!ACT) return 1;
  Rt rt; Obj* o = obj(g, 4);
  for(;;) { if(*(volatile char*)g) { acquire(&o->vc); return 0; } if(o->state == 0) { o->state = 1; return 1; } block(B_ONCE, g, -1); }
}
void __cxa_guard_release(long long* g)
{
  if(!ACT) { *(volatile char*)g = 1; return; }
  Rt rt; Obj* o = obj(g, 4); *(volatile char*)g = 1; o->state = 0; release(&o->vc); release(&obj(g, 5)->vc); wake_all(B_ONCE, g);
}
void __cxa_guard_abort(long long* g)
{
  if(!ACT) return;
  Rt rt; Obj* o = obj(g, 4); o->state = 0; wake_all(B_ONCE, g);
}

// ------------------------------------------------------------------------------------------------ threads
static void* trampoline(void* a)
{
  int i = (int)(long)a;
  me = i; inrt = 1;
  while(__atomic_load_n(&thr[i].go, __ATOMIC_SEQ_CST) == 0) fwait(&thr[i].go, 0);
  __atomic_store_n(&thr[i].go, 0, __ATOMIC_SEQ_CST);
  pthread_attr_t at; void* lo; size_t sz;
  pthread_getattr_np(pthread_self(), &at); pthread_attr_getstack(&at, &lo, &sz); pthread_attr_destroy(&at);
  clear_range((u64)lo, sz);
  inrt = 0;
  void* r = thr[i].fn(thr[i].arg);
  inrt = 1;
  thr[i].ret = r;
  thr[i].st = DONE;
  wake_all(B_JOIN, &thr[i]);
  step();
  int n = pick();
  switch_to(n);
  return r;
}
int pthread_create(pthread_t* out, const pthread_attr_t* at, void* (*fn)(void*), void* arg)
{
  static auto f = REAL(pthread_create);
  if(!ACT) return f(out, at, fn, arg);
  Rt rt;
  if(nthr >= MAXT) finish("toomanythreads");
  int i = nthr;
  thr[i].fn = fn; thr[i].arg = arg; thr[i].st = RUNNABLE; thr[i].go = 0; thr[i].deadline = -1;
  thr[i].prio = 1000 + (int)rndn(1000);
  thr[i].vc = thr[me].vc; thr[i].vc.c[i] = 1; thr[me].vc.c[me]++;
  nthr++;
  int r = f(&thr[i].pt, at, trampoline, (void*)(long)i);
  *out = thr[i].pt;
  point(1000);
  return r;
}
static int tidof(pthread_t p) { for(int i = nthr - 1; i >= 0; --i) if(pthread_equal(thr[i].pt, p)) return i; return -1; }
int pthread_join(pthread_t p, void** ret)
{
  static auto f = REAL(pthread_join);
  if(!ACT) return f(p, ret);
  Rt rt; point(1000);
  int i = tidof(p);
  if(i < 0) return ESRCH;
  if(i == me) return EDEADLK;
  while(thr[i].st != DONE) block(B_JOIN, &thr[i], -1);
  vc_join(&thr[me].vc, &thr[i].vc);
  if(ret) *ret = thr[i].ret;
  return 0;      // never really joined: the pthread_t stays unique
}
int pthread_detach(pthread_t p) { static auto f = REAL(pthread_detach); if(!ACT) return f(p); return 0; }
int sched_yield() { if(!ACT) { return raw_syscall6(SYS_sched_yield, 0, 0, 0, 0, 0, 0); } Rt rt; lps_yield(); return 0; }

// ------------------------------------------------------------------------------------------------ time
static void sleep_ns(ll ns) { Rt rt; block(B_SLEEP, 0, vnow + (ns < 0 ? 0 : ns)); }
int nanosleep(const struct timespec* ts, struct timespec* rem)
{
  if(!ACT) { long r = raw_syscall6(SYS_nanosleep, (long)ts, (long)rem, 0, 0, 0, 0); if(r < 0) { errno = -r; return -1; } return 0; }
  sleep_ns((ll)ts->tv_sec * 1000000000LL + ts->tv_nsec); return 0;
}
int clock_nanosleep(clockid_t c, int flags, const struct timespec* ts, struct timespec* rem)
{
  if(!ACT) return -raw_syscall6(SYS_clock_nanosleep, c, flags, (long)ts, (long)rem, 0, 0);
  if(flags & TIMER_ABSTIME) { Rt rt; block(B_SLEEP, 0, absns(ts, c)); }
  else sleep_ns((ll)ts->tv_sec * 1000000000LL + ts->tv_nsec);
  return 0;
}
int usleep(useconds_t us) { struct timespec ts; ts.tv_sec = us / 1000000; ts.tv_nsec = (us % 1000000) * 1000L; return nanosleep(&ts, 0); }
unsigned sleep(unsigned s) { struct timespec ts; ts.tv_sec = s; ts.tv_nsec = 0; nanosleep(&ts, 0); return 0; }
int clock_gettime(clockid_t c, struct timespec* ts)
{
  if(!ACT || (c != CLOCK_REALTIME && c != CLOCK_MONOTONIC)) { long r = raw_syscall6(SYS_clock_gettime, c, (long)ts, 0, 0, 0, 0); if(r < 0) { errno = -r; return -1; } return 0; }
  vnow += 1000;
  ll t = vnow + (c == CLOCK_REALTIME ? 1700000000LL * 1000000000LL : 0);
  ts->tv_sec = t / 1000000000LL; ts->tv_nsec = t % 1000000000LL;
  if(vnow - lastevent > 120LL * 1000000000LL) finish("hang");
  { Rt rt; point(50); }
  return 0;
}
int gettimeofday(struct timeval* tv, void*) { struct timespec ts; clock_gettime(CLOCK_REALTIME, &ts); tv->tv_sec = ts.tv_sec; tv->tv_usec = ts.tv_nsec / 1000; return 0; }

// ------------------------------------------------------------------------------------------------ futex, semaphores
long syscall(long n, ...)
{
  va_list ap; va_start(ap, n);
  long a = va_arg(ap, long), b = va_arg(ap, long), c = va_arg(ap, long), d = va_arg(ap, long), e = va_arg(ap, long), f = va_arg(ap, long);
  va_end(ap);
  if(n == SYS_futex && ACT)
  {
    Rt rt; point(1000);
    int op = (int)b & ~(FUTEX_PRIVATE_FLAG | FUTEX_CLOCK_REALTIME);
    if(op == FUTEX_WAIT || op == FUTEX_WAIT_BITSET)
    {
      if(*(volatile int*)a != (int)c) { errno = EAGAIN; return -1; }
      ll dl = -1;
      const struct timespec* ts = (const struct timespec*)d;
      if(ts) dl = op == FUTEX_WAIT ? vnow + (ll)ts->tv_sec * 1000000000LL + ts->tv_nsec : absns(ts, (b & FUTEX_CLOCK_REALTIME) ? CLOCK_REALTIME : CLOCK_MONOTONIC);
      block(B_FUTEX, (void*)a, dl);
      if(thr[me].timedout) { errno = ETIMEDOUT; return -1; }
      return 0;
    }
    if(op == FUTEX_WAKE || op == FUTEX_WAKE_BITSET)
    {
      int k = 0;
      for(int i = 0; i < nthr && k < (int)c; ++i) if(thr[i].st == B_FUTEX && thr[i].obj == (void*)a) { thr[i].st = RUNNABLE; ++k; }
      return k;
    }
    finish("unsupportedfutex");
  }
  long r = raw_syscall6(n, a, b, c, d, e, f);
  if(r < 0 && r > -4096) { errno = -r; return -1; }
  return r;
}
int sem_wait(sem_t* s)
{
  static auto f = REAL(sem_wait); if(!ACT) return f(s);
  Rt rt; point(1000); Obj* o = obj(s, 6); int v; if(!o->state) { sem_getvalue(s, &v); o->count = v; o->state = 1; }
  while(o->count == 0) block(B_SEM, s, -1);
  o->count--; acquire(&o->vc); return 0;
}
int sem_post(sem_t* s)
{
  static auto f = REAL(sem_post); if(!ACT) return f(s);
  Rt rt; point(1000); Obj* o = obj(s, 6); int v; if(!o->state) { sem_getvalue(s, &v); o->count = v; o->state = 1; }
  o->count++; release(&o->vc); wake_all(B_SEM, s); return 0;
}

// ------------------------------------------------------------------------------------------------ memory
static void onalloc(void* p, size_t n) { if(p && ACT) { Rt rt; clear_range((u64)p, n); } }
void* malloc(size_t n) { void* p = __libc_malloc(n); onalloc(p, n); return p; }
void* calloc(size_t a, size_t b) { void* p = __libc_calloc(a, b); onalloc(p, a * b); return p; }
size_t malloc_usable_size(void*);
void free(void* p)
{
  if(!p) return;
  if(!active || me < 0) { if(!active) __libc_free(p); return; }
  if(inrt || quiet) { return; }
  Rt rt;
  size_t n = malloc_usable_size(p);
  u64 a = (u64)p; u64 pc = PC;
  if(n > 65536) n = 65536;
  for(u64 g = a & ~7ULL; g < a + n; g += 8)
  {
    Page* pg = page(g >> 12, false);
    if(!pg) continue;
    Cell* c = &pg->cells[(g >> 3) & 511];
    bool any = false, freed = false;
    for(int i = 0; i < 4; ++i)
    {
      Slot* s = &c->s[i];
      if(!s->used) continue;
      any = true;
      if(s->flags & 4) { freed = true; continue; }
      if(s->tid != me && s->epoch > thr[me].vc.c[s->tid]) report("race", g, pc, true, s->tid, s->pc, s->flags & 1);
    }
    if(freed) { report("uaf", g, pc, true, 0, 0, true); return; }
    (void)any;
  }
  for(u64 g = a & ~7ULL; g < a + n; g += 8)
  {
    Page* pg = page(g >> 12, true);
    Cell* c = &pg->cells[(g >> 3) & 511];
    for(int i = 1; i < 4; ++i) c->s[i].used = 0;
    Slot* s = &c->s[0];
    s->used = 1; s->flags = 4; s->tid = me; s->mask = 0xff; s->pc = pc; s->epoch = thr[me].vc.c[me];
  }
  // not given back: no reuse within a schedule
}
void* realloc(void* p, size_t n)
{
  if(!ACT) { if(active && p) { size_t o = malloc_usable_size(p); void* q = __libc_malloc(n); if(q) for(size_t i = 0; i < (o < n ? o : n); ++i) ((char*)q)[i] = ((char*)p)[i]; return q; } return __libc_realloc(p, n); }
  void* q = malloc(n);
  if(p && q) { size_t o = malloc_usable_size(p); for(size_t i = 0; i < (o < n ? o : n); ++i) ((volatile char*)q)[i] = ((char*)p)[i]; free(p); }
  return q;
}
void* memalign(size_t a, size_t n) { void* p = __libc_memalign(a, n); onalloc(p, n); return p; }
void* aligned_alloc(size_t a, size_t n) { return memalign(a, n); }
int posix_memalign(void** o, size_t a, size_t n) { *o = memalign(a, n); return *o ? 0 : ENOMEM; }

static void rep_movsb(void* d, const void* s, size_t n) { __asm__ volatile("rep movsb" : "+D"(d), "+S"(s), "+c"(n)::"memory"); }
void* memcpy(void* __restrict d, const void* __restrict s, size_t n)
{
  if(ACT) { access_mem((u64)s, n, false, false, PC); access_mem((u64)d, n, true, false, PC); }
  rep_movsb(d, s, n); return d;
}
void* memmove(void* d, const void* s, size_t n)
{
  if(ACT) { access_mem((u64)s, n, false, false, PC); access_mem((u64)d, n, true, false, PC); }
  if((u64)d <= (u64)s || (u64)d >= (u64)s + n) rep_movsb(d, s, n);
  else { size_t i = n; while(i) { --i; ((volatile char*)d)[i] = ((const char*)s)[i]; } }
  return d;
}
void* memset(void* d, int v, size_t n)
{
  if(ACT) access_mem((u64)d, n, true, false, PC);
  void* q = d; __asm__ volatile("rep stosb" : "+D"(q), "+c"(n) : "a"(v) : "memory");
  return d;
}

// ------------------------------------------------------------------------------------------------ harness API
void lps_note(const char* fmt, ...)
{
  Rt rt;
  char b[16384]; va_list ap; va_start(ap, fmt); vsnprintf(b, sizeof b, fmt, ap); va_end(ap);
  if(!active) return;
  sh_event(b); lastevent = vnow;
}
void lps_event(const char* fmt, ...)
{
  {
    Rt rt;
    char b[16384]; va_list ap; va_start(ap, fmt); vsnprintf(b, sizeof b, fmt, ap); va_end(ap);
    if(!active) return;
    sh_event(b); lastevent = vnow;
  }
  if(ACT) { Rt rt; point(1000); }
}
int lps_self() { return me; }
long long lps_now_us() { return (vnow - vbase) / 1000; }
void lps_flag_set(int f) { Rt rt; release(&flagvc[f]); flagset_[f] = true; wake_all(B_FLAG, &flagset_[f]); point(300); }
int lps_flag_isset(int f) { Rt rt; if(flagset_[f]) acquire(&flagvc[f]); return flagset_[f]; }
void lps_flag_wait(int f) { Rt rt; while(!flagset_[f]) block(B_FLAG, &flagset_[f], -1); acquire(&flagvc[f]); }
void lps_idle(long long us) { Rt rt; block(B_IDLE, 0, vnow + us * 1000); }
void lps_yield()
{
  ++inrt;
  step();
  if(pol_pct) thr[me].prio = --pct_low;
  switch_to(pick());
  --inrt;
}
void lps_limit(unsigned long long steps) { maxsteps = steps; }
void lps_quiet_begin() { ++quiet; }
void lps_quiet_end() { --quiet; }

// ------------------------------------------------------------------------------------------------ exploration
static void child(void (*scenario)(void*), void* arg, unsigned seed, int mode)
{
  struct rlimit rl = {20, 20}; setrlimit(RLIMIT_CPU, &rl);
  rl.rlim_cur = rl.rlim_max = 0; setrlimit(RLIMIT_CORE, &rl);
  rng = 0x853c49e6748fea9bULL ^ ((u64)seed * 0x9E3779B97F4A7C15ULL); for(int i = 0; i < 8; ++i) rnd();
  static const int sw[] = {30, 120, 300, 500, 900};
  pol_switch = sw[rndn(5)];
  pol_pct = rndn(4) == 0;
  pol_mem = rndn(4) == 0 ? 20 : 0;
  mode_ = mode; pol_time = mode == 1 ? 1 + (int)rndn(60) : 0;
  if(pol_pct) { pct_n = 1 + rndn(4); for(int i = 0; i < pct_n; ++i) pct_change[i] = 1 + rndn(1500); }
  vbase = vnow = 1000000000000LL; lastevent = vnow;
  me = 0; nthr = 1; cur = 0;
  thr[0].st = RUNNABLE; thr[0].pt = pthread_self(); thr[0].prio = 1500; thr[0].vc.c[0] = 1; thr[0].deadline = -1;
  active = true;
  scenario(arg);
  active = false;
  inrt = 1;
  sh->steps = nsteps; sh->switches = nswitch;
  raw_syscall6(SYS_exit_group, 0, 0, 0, 0, 0, 0);
}

static u64 fnv(const char* p, size_t n) { u64 h = 1469598103934665603ULL; for(size_t i = 0; i < n; ++i) { h ^= (u8)p[i]; h *= 1099511628211ULL; } return h; }

void lps_explore(int fd, const char* tag, void (*scenario)(void*), void* arg, unsigned seed, int count, int mode, lps_stats* stats)
{
  if(!sh) sh = (Shared*)mmap(0, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  if(!objidx) objidx = (u32*)mmap(0, sizeof(u32) * NOBJ, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  if(!objs) objs = (Obj*)mmap(0, sizeof(Obj) * (NOBJ / 2), PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  const int NH = 1 << 16;
  static u64* seen = 0;
  if(!seen) seen = (u64*)mmap(0, sizeof(u64) * NH, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
  for(int i = 0; i < NH; ++i) seen[i] = 0;
  nhot = 0;
  for(int k = 0; k < count; ++k)
  {
    sh->len = 0; sh->overflow = 0; sh->nrace = 0; sh->steps = sh->switches = 0;
    pid_t pid = fork();
    if(pid == 0) { child(scenario, arg, seed + (unsigned)k, mode); _exit(0); }
    int st = 0;
    while(waitpid(pid, &st, 0) < 0 && errno == EINTR) {}
    if(WIFSIGNALED(st))
    {
      char b[96];
      if(WTERMSIG(st) == SIGXCPU || WTERMSIG(st) == SIGKILL) snprintf(b, sizeof b, "{\"t\":-1,\"e\":\"hang\",\"st\":\"cpu\"}");
      else snprintf(b, sizeof b, "{\"t\":-1,\"e\":\"crash\",\"sig\":%d}", WTERMSIG(st));
      sh_event(b);
    }
    for(u32 i = 0; i < sh->nrace && i < 64; ++i) if(nhot < 256 && sh->racepc[i] && !ishot(sh->racepc[i])) hotpc[nhot++] = sh->racepc[i];
    stats->schedules++; stats->steps += sh->steps; stats->switches += sh->switches; if(sh->nrace) stats->races++;
    u64 h = fnv(sh->buf, sh->len) | 1;
    u64 x = h; bool dup = false;
    for(int n = 0; n < NH; ++n) { u64* e = &seen[(x + n) & (NH - 1)]; if(*e == h) { dup = true; break; } if(*e == 0) { *e = h; break; } }
    if(dup) continue;
    stats->distinct++;
    char head[256]; int hn = snprintf(head, sizeof head, "[{\"e\":\"begin\",\"tag\":\"%s\",\"seed\":%u,\"mode\":%d}%s", tag, seed + (unsigned)k, mode, sh->len ? "," : "");
    (void)!write(fd, head, hn);
    u32 off = 0; while(off < sh->len) { ssize_t w = write(fd, sh->buf + off, sh->len - off); if(w <= 0) break; off += w; }
    (void)!write(fd, "]\n", 2);
  }
}
} // extern "C"
