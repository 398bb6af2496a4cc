// Deterministic simulation engine: cooperative scheduling of real threads, virtual time, simulated
// signals, file faults, arena allocator, happens-before race detector. Uses no C++ library code.
#ifndef _GNU_SOURCE
#define _GNU_SOURCE
#endif
#include "engine.h"

#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <linux/futex.h>
#include <pthread.h>
#include <sched.h>
#include <semaphore.h>
#include <signal.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <sys/uio.h>
#include <time.h>
#include <poll.h>
#include <sys/select.h>
#include <sys/stat.h>
#include <ucontext.h>
#include <unistd.h>

#define likely(x) __builtin_expect(!!(x), 1)
#define unlikely(x) __builtin_expect(!!(x), 0)
#define EXPORT extern "C" __attribute__((visibility("default")))

const char* const sim_fault_names[F_KINDS] = {"spurious_wakeup", "notify_other_waiter", "short_write", "eintr_write", "enospc_write", "eio_write", "open_fails", "killed_mid_write", "alloc_fails", "thread_create_fails", "thread_stall"};
const char* const sim_outcome_names[] = {"none", "done", "exit", "signal", "killed", "deadlock", "hang", "stepcap", "crash", "use_after_free", "bad_free", "escape", "timeout", "engine_limit"};

extern "C" void* __libc_malloc(size_t);
extern "C" void __libc_free(void*);
extern "C" void* __libc_calloc(size_t, size_t);
extern "C" void* __libc_realloc(void*, size_t);
extern "C" void* __libc_memalign(size_t, size_t);

SimShm* sim_shm;

// ------------------------------------------------------------------ raw system calls
static inline long rsys(long n, long a = 0, long b = 0, long c = 0, long d = 0, long e = 0, long f = 0) {
   long r;
   register long r10 __asm__("r10") = d;
   register long r8 __asm__("r8") = e;
   register long r9 __asm__("r9") = f;
   __asm__ volatile("syscall" : "=a"(r) : "a"(n), "D"(a), "S"(b), "d"(c), "r"(r10), "r"(r8), "r"(r9) : "rcx", "r11", "memory");
   return r;
}

// ------------------------------------------------------------------ PRNG
struct Rng {
   uint64_t s;
   uint64_t next() {
      uint64_t z = (s += 0x9e3779b97f4a7c15ull);
      z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
      z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
      return z ^ (z >> 31);
   }
   uint32_t below(uint32_t n) { return n ? (uint32_t)(((next() >> 32) * (uint64_t)n) >> 32) : 0; }
   bool chance(uint32_t p65536) { return (uint32_t)(next() >> 48) < p65536; }
   uint64_t geom(uint64_t mean) {   // roughly geometric, integer arithmetic only
      if (mean <= 1) return 1;
      uint64_t u = (next() >> 11) | 1;   // 53 bits
      // -ln(u/2^53)*mean approximated by leading-zero count plus linear interpolation
      int lz = __builtin_clzll(u) - 11;
      uint64_t frac = ((u << lz) & ((1ull << 52) - 1)) >> 36;   // 16 bits
      uint64_t v = ((uint64_t)lz << 16) + (65536 - frac);        // log2 scaled 2^16
      return 1 + (v * 45426 >> 16) * mean / 65536;               // * ln2
   }
};

// ------------------------------------------------------------------ regions
static const uintptr_t ARENA = 0x200000000000ull;
static const size_t ARENA_SZ = 1ull << 30;
static const uintptr_t STACKS = 0x210000000000ull;
static const size_t STACK_SZ = 512 << 10;
static const uintptr_t SH_ARENA = 0x220000000000ull;
static const uintptr_t SH_STACKS = 0x230000000000ull;
static const uintptr_t SH_GLOB = 0x240000000000ull;
static const uintptr_t SYNCTAB = 0x250000000000ull;
static const uintptr_t ALTSTACKS = 0x260000000000ull;   // a stack overflow is reported from here
static const size_t ALT_SZ = 64 << 10;
extern "C" char __data_start, _end;

struct Slot { uint32_t clk; uint8_t tid; uint8_t mask; uint8_t flags; uint8_t pad; };   // flags: 1 write, 2 atomic
struct Cell { Slot s[4]; uint32_t pc[4]; };
enum { CELL_FREED = 0x80 };

struct VC { uint32_t c[SIM_MAXT]; };
static inline void vc_join(VC& a, const VC& b) { for (int i = 0; i < SIM_MAXT; ++i) if (b.c[i] > a.c[i]) a.c[i] = b.c[i]; }

struct Sync {
   uintptr_t addr;
   VC vc;
   int owner;          // mutex / rwlock writer, -1 none
   int count;          // recursion / readers / semaphore value
   int once;           // 0,1,2
   uint32_t ord;       // ordinal for signatures
};
enum { SYNC_N = 1 << 19 };
static Sync* synctab = (Sync*)SYNCTAB;
static uint32_t sync_used;

enum { ST_UNUSED, ST_RUN, ST_BLOCK, ST_DONE };
enum { B_NONE, B_MUTEX, B_COND, B_JOIN, B_FUTEX, B_ONCE, B_SLEEP, B_GATE, B_RW, B_SEM, B_COUNTER, B_FOREVER };

struct Task {
   int id, state, bkind;
   uintptr_t bobj;
   int64_t bval;
   int64_t wake;
   uint64_t waitseq;
   uint32_t polls;            // yields, sleeps and timed waits since it was last woken by another thread or did anything of note
   bool timedout, detached, app;
   volatile int baton;
   uint64_t lp, lp_base;
   VC vc;
   pthread_t real;
   void* (*fn)(void*);
   void* arg;
   void* ret;
   uint64_t sigmask, sigpend, sigasync;   // sigasync: those sent by another thread
   int prio;
   uint32_t weight;
   uint32_t fcount[F_KINDS];
   int passthrough, arm_alloc, arm_thread;
   int guards;           // static variables this thread is initializing: what they allocate stays for good
   uint64_t lastih;
   struct { void (*fn)(void*); void* obj; } tls[32];   // destructors of thread_local objects
   int ntls;
   SimDecision* rd;
   SimDecision* rd_end;
};

enum { REUSE_MAX = 2048 };
static struct {
   bool active;
   bool reuse;
   uintptr_t freed[REUSE_MAX / 16 + 1];   // head of the list of freed blocks per size
   Task* cur;
   Task t[SIM_MAXT];
   int nt;
   Rng rng, frng;
   SimConfig* cfg;
   uint64_t stop_lp;
   uint64_t total;       // points before lp_base of current stretch
   int64_t vnow, rt_off;
   uint32_t idle;             // times virtual time passed with nothing runnable since the last sign of progress
   int64_t idle_since;        // virtual time at the first of them
   uint64_t waitseq;
   uint64_t next_reweight;
   int low_prio;
   uint64_t cps[64];
   int ncp, icp;
   uintptr_t brk;
   uint64_t live_n, live_b;
   int fs_on;
   int write_fail_left, write_fail_errno;
   int open_fds;
   struct sigaction sigs[65];
   int64_t counters[320];
   int gates[256];
   uint32_t nord;
   uintptr_t glo, ghi;
   uintptr_t ex_lo[8], ex_hi[8];
   int nex;
   char cwd[512];
   int cwdlen;
   bool finishing;
   VC fence;
   int untracked;
   int64_t next_timer;
   bool stalls_on;
   char errbuf[SIM_MAXT][1024];
   int errlen[SIM_MAXT];
   uint8_t fdwr[1024];
} g;

static __thread Task* tls_task;

static void slow_point();

// ------------------------------------------------------------------ hash
static inline void hmix(uint64_t v) { uint64_t& h = sim_shm->st.hash; h = (h ^ v) * 0x9E3779B97F4A7C15ull; h ^= h >> 29; }
static inline void ihmix(uint64_t v) { uint64_t& h = sim_shm->st.ihash; h = (h ^ v) * 0xD6E8FEB86659FD93ull; h ^= h >> 32; }

static void probe_all(int phase);
static inline uint64_t total_points() { return g.total + (g.cur ? g.cur->lp - g.cur->lp_base : 0); }

// ------------------------------------------------------------------ finishing
static SimEvent* ev_alloc(uint32_t type, size_t len) {
   size_t need = sizeof(SimEvent) + ((len + 7) & ~7ull);
   if (sim_shm->hist_len + need > SIM_HIST - 4096 && type != EV_PROC_END) {
      sim_finish(OUT_ENGINE, 1);
   }
   SimEvent* e = (SimEvent*)(sim_shm->hist + sim_shm->hist_len);
   sim_shm->hist_len += need;
   e->type = type;
   e->task = g.cur ? g.cur->id : 0;
   e->a = e->b = e->c = e->d = 0;
   e->mono = g.vnow;
   e->real = g.vnow + g.rt_off;
   e->datalen = (uint32_t)len;
   e->seq = (uint32_t)sim_shm->st.events++;
   return e;
}
static void ev(uint32_t type, uint64_t a = 0, uint64_t b = 0, uint64_t c = 0, uint64_t d = 0) {
   SimEvent* e = ev_alloc(type, 0);
   e->a = a; e->b = b; e->c = c; e->d = d;
   if (type != EV_RACE && type != EV_UAF && type != EV_CRASH) { hmix(type); hmix(a); hmix(b); hmix(c); hmix(d); hmix(e->mono); }
}
static void flush_err(int t) {
   if (g.errlen[t]) {
      SimEvent* e = ev_alloc(EV_STDERR, g.errlen[t]);
      memcpy((char*)(e + 1), g.errbuf[t], g.errlen[t]);
      e->task = t;
      hmix(g.errlen[t]);
      g.errlen[t] = 0;
   }
}
static void cap_err(const char* p, size_t n) {
   int t = g.cur->id;
   while (n) {
      size_t room = sizeof(g.errbuf[0]) - g.errlen[t];
      size_t k = n < room ? n : room;
      memcpy(g.errbuf[t] + g.errlen[t], p, k);
      g.errlen[t] += k; p += k; n -= k;
      if (g.errlen[t] == (int)sizeof(g.errbuf[0])) flush_err(t);
   }
}

EXPORT void sim_finish(int outcome, int code) {
   if (!g.finishing) {
      g.finishing = true;
      for (int i = 0; i < g.nt; ++i) flush_err(i);
      if (outcome == OUT_DEADLOCK || outcome == OUT_HANG || outcome == OUT_STEPCAP)
         for (int i = 0; i < g.nt; ++i)
            if (g.t[i].state == ST_BLOCK || g.t[i].state == ST_RUN) ev(EV_BLOCKED, i, g.t[i].state == ST_RUN ? 100 : g.t[i].bkind, g.t[i].wake >= 0);
      probe_all(1);
      ev(EV_PROC_END, outcome, (uint64_t)(int64_t)code);
      SimStats& s = sim_shm->st;
      s.points = total_points();
      s.vtime = g.vnow;
      s.tasks = g.nt;
      hmix(s.points);
      sim_shm->outcome = outcome;
      sim_shm->code = code;
   }
   for (;;) rsys(SYS_exit_group, 0);
}

static void detail(const char* s) { size_t n = strlen(s); if (n > 255) n = 255; memcpy(sim_shm->detail, s, n); sim_shm->detail[n] = 0; }

// ------------------------------------------------------------------ scheduler
static void futex_wait_baton(Task* me) {
   while (!me->baton) rsys(SYS_futex, (long)&me->baton, FUTEX_WAIT | FUTEX_PRIVATE_FLAG, 0, 0);
   me->baton = 0;
}

static void set_stop();
static bool fault(int kind, int64_t* val);

static void resume_on(Task* to) {   // `to` becomes current
   to->lp_base = to->lp;
   g.cur = to;
   set_stop();
}

static void give_to(Task* from, Task* to, bool wait) {
   if (to == from) return;
   g.total += from->lp - from->lp_base;
   from->lp_base = from->lp;
   sim_shm->st.switches++;
   hmix(0x5511 + to->id); hmix(from->lp); hmix(from->id);
   resume_on(to);
   to->baton = 1;
   rsys(SYS_futex, (long)&to->baton, FUTEX_WAKE | FUTEX_PRIVATE_FLAG, 1);
   if (wait) futex_wait_baton(from);
}

static void make_runnable(Task* t, bool timedout) {
   t->state = ST_RUN;
   t->timedout = timedout;
   t->wake = -1;
   t->bkind = B_NONE;
   if (!timedout) t->polls = 0;
}

static void promote_timers() {
   int64_t nx = INT64_MAX;
   for (int i = 0; i < g.nt; ++i) {
      Task& t = g.t[i];
      if (t.state != ST_BLOCK || t.wake < 0) continue;
      if (t.wake <= g.vnow) { sim_shm->st.timer_wakes++; make_runnable(&t, true); }
      else if (t.wake < nx) nx = t.wake;
   }
   g.next_timer = nx;
}

static Task* default_pick(Task* cur, bool cur_ok) {
   if (cur_ok) return cur;
   for (int k = 1; k <= g.nt; ++k) {
      Task& t = g.t[(cur->id + k) % g.nt];
      if (t.state == ST_RUN && &t != cur) return &t;
   }
   Task* best = nullptr;
   for (int i = 0; i < g.nt; ++i)
      if (g.t[i].state == ST_BLOCK && g.t[i].wake >= 0 && (!best || g.t[i].wake < best->wake)) best = &g.t[i];
   return best;
}

static void record_decision(Task* cur, uint32_t target) {
   if (sim_shm->ndec < SIM_MAXDEC) {
      SimDecision& d = sim_shm->dec[sim_shm->ndec++];
      d.task = cur->id; d.target = target; d.lp = cur->lp;
   } else sim_shm->dec_overflow = 1;
}

static void reweight() {
   SimConfig& c = *g.cfg;
   for (int i = 0; i < SIM_MAXT; ++i) {
      uint32_t w = 256;
      if (c.weight_mode == 1) { uint32_t k = g.rng.below(9); w = 1u << k; }
      g.t[i].weight = w;
   }
   if (g.nt) {
      if (c.weight_mode == 2) g.t[g.rng.below(g.nt)].weight = 1;
      if (c.weight_mode == 3) g.t[g.rng.below(g.nt)].weight = 256 * 64;
   }
}

// choose among candidates in explore mode
static Task* explore_pick(Task* cur, bool cur_ok, bool sleepers_ok) {
   SimConfig& c = *g.cfg;
   if (c.strat == 1) {
      Task* best = nullptr;
      for (int i = 0; i < g.nt; ++i) {
         Task& t = g.t[i];
         if (t.state != ST_RUN || (&t == cur && !cur_ok)) continue;
         if (!best || t.prio > best->prio) best = &t;
      }
      if (best && !(sleepers_ok && g.rng.chance(c.p_sleeper))) return best;
   }
   if (c.reweight && total_points() >= g.next_reweight) { g.next_reweight = total_points() + g.rng.geom(c.reweight); reweight(); }
   uint64_t sum = 0;
   uint64_t w[SIM_MAXT];
   bool any = false;
   for (int i = 0; i < g.nt; ++i) {
      Task& t = g.t[i];
      w[i] = 0;
      if (t.state == ST_RUN && (&t != cur || cur_ok)) { w[i] = t.weight; any = true; sum += w[i]; }
   }
   if (!any || (sleepers_ok && c.p_sleeper && g.rng.chance(c.p_sleeper))) {
      Task* best = nullptr;
      for (int i = 0; i < g.nt; ++i)
         if (g.t[i].state == ST_BLOCK && g.t[i].wake >= 0 && (!best || g.t[i].wake < best->wake)) best = &g.t[i];
      if (best || !any) return best;
   }
   uint64_t r = (g.rng.next() >> 16) % sum;
   for (int i = 0; i < g.nt; ++i) { if (r < w[i]) return &g.t[i]; r -= w[i]; }
   return cur_ok ? cur : nullptr;
}

static Task* replay_next(Task* cur, bool& kill) {
   kill = false;
   while (cur->rd < cur->rd_end && cur->rd->lp < cur->lp) ++cur->rd;
   if (cur->rd < cur->rd_end && cur->rd->lp == cur->lp) {
      SimDecision* d = cur->rd++;
      if (d->target == SIM_TARGET_KILL) { kill = true; return nullptr; }
      if (d->target < (uint32_t)g.nt) {
         Task* t = &g.t[d->target];
         if (t->state == ST_RUN || (t->state == ST_BLOCK && t->wake >= 0)) return t;
      }
   }
   return nullptr;
}

static const uint32_t POLLS = 64, HANG_WAITS = 100, HANG_POLLS = 1000000;
static void pass_time(Task* to) {   // let time pass until the timer of `to` fires
   bool any = false;
   for (int i = 0; i < g.nt; ++i) if (g.t[i].state == ST_RUN) any = true;
   if (!any && !g.idle++) g.idle_since = g.vnow;
   if (to->wake > g.vnow) g.vnow = to->wake;
   // A hang is over an hour of virtual time without progress, however often the waiting threads poll meanwhile.
   if (!any && ((g.idle > HANG_WAITS && g.vnow - g.idle_since > (int64_t)g.cfg->hang_idle * 1000000000ll) || g.idle > HANG_POLLS)) sim_finish(OUT_HANG, 0);
   promote_timers();
}

// Switch from cur to a chosen task. cur_ok: cur may continue. voluntary: explore mode may deviate.
static void reschedule(bool cur_ok) {
   Task* cur = g.cur;
   Task* def = default_pick(cur, cur_ok);
   Task* to = nullptr;
   if (g.cfg->replay) {
      bool kill = false;
      to = replay_next(cur, kill);
      if (kill) sim_finish(OUT_KILLED, 9);
      if (to && to == cur && !cur_ok && to->state != ST_BLOCK) to = nullptr;
      if (!to) to = def;
   } else {
      to = explore_pick(cur, cur_ok, true);
      if (!to) to = def;
      if (to && to != def) record_decision(cur, to->id);
   }
   if (!to) sim_finish(OUT_DEADLOCK, 0);
   if (to->state == ST_BLOCK) pass_time(to);
   if (to != cur) { if (cur_ok) sim_shm->st.preemptions++; give_to(cur, to, true); }
   else set_stop();
}

static void set_stop() {
   Task* cur = g.cur;
   SimConfig& c = *g.cfg;
   uint64_t tot = total_points();
   uint64_t left = c.max_points > tot ? c.max_points - tot : 0;
   uint64_t stop = cur->lp + (left ? left : 1);
   if (c.replay) {
      while (cur->rd < cur->rd_end && cur->rd->lp <= cur->lp) ++cur->rd;
      if (cur->rd < cur->rd_end && cur->rd->lp < stop) stop = cur->rd->lp;
   } else {
      if (c.kill_at && c.kill_at > tot && cur->lp + (c.kill_at - tot) < stop) stop = cur->lp + (c.kill_at - tot);
      if (c.strat == 1) {
         if (g.icp < g.ncp && g.cps[g.icp] > tot) { uint64_t s = cur->lp + (g.cps[g.icp] - tot); if (s < stop) stop = s; }
         else if (g.icp < g.ncp) stop = cur->lp + 1;
      } else if (c.mem_mean) {
         uint64_t s = cur->lp + g.rng.geom(c.mem_mean);
         if (s < stop) stop = s;
      }
   }
   g.stop_lp = stop;
}

static void check_caps() {
   uint64_t tot = total_points();
   if (tot >= g.cfg->max_points) sim_finish(OUT_STEPCAP, 0);
   if (!g.cfg->replay && g.cfg->kill_at && tot >= g.cfg->kill_at) { record_decision(g.cur, SIM_TARGET_KILL); sim_finish(OUT_KILLED, 9); }
}

static bool fault(int kind, int64_t* val);

static void slow_point() {
   check_caps();
   SimConfig& c = *g.cfg;
   if (!c.replay && c.strat == 1) {
      uint64_t tot = total_points();
      if (g.icp < g.ncp && g.cps[g.icp] <= tot) { g.icp++; g.cur->prio = g.low_prio--; }
   }
   reschedule(true);
}

static inline void mem_point(Task* t) {
   if (unlikely(++t->lp >= g.stop_lp)) slow_point();
}

static void ih(Task* t, uint64_t kind, uint32_t ord) { sim_shm->st.syncops++; ihmix(((uint64_t)t->id << 40) ^ (kind << 32) ^ ord); }

// preemption point at a synchronisation operation
static void sync_point(uint32_t p) {
   Task* t = g.cur;
   ++t->lp;
   g.vnow += g.cfg->tick_ns;
   if (unlikely(g.vnow >= g.next_timer)) promote_timers();
   int64_t v;
   if (unlikely(g.stalls_on) && fault(F_STALL, &v)) {
      // the running thread is descheduled for v ns of virtual time
      t->state = ST_BLOCK; t->bkind = B_SLEEP; t->wake = g.vnow + v; t->bobj = 0;
      if (t->wake < g.next_timer) g.next_timer = t->wake;
      t->timedout = false;
      check_caps();
      reschedule(false);
      return;
   }
   if (t->lp >= g.stop_lp) { slow_point(); return; }
   if (g.cfg->replay) return;
   if (g.cfg->strat == 1) { check_caps(); reschedule(true); return; }
   if (p && g.rng.chance(p)) { check_caps(); reschedule(true); }
}

static void deliver_pending();
// a wait that signals interrupt: the thread holds nothing of the C library or of the scheduler then
static bool interruptible(int kind) { return kind == B_SLEEP || kind == B_GATE || kind == B_COUNTER || kind == B_JOIN || kind == B_FUTEX || kind == B_COND; }
static void block(int kind, uintptr_t obj, int64_t wake) {
   Task* t = g.cur;
   if (unlikely((t->sigpend & ~t->sigmask) && interruptible(kind))) return deliver_pending();
   ++t->lp;
   t->state = ST_BLOCK;
   t->bkind = kind;
   t->bobj = obj;
   t->wake = wake;
   t->timedout = false;
   t->waitseq = ++g.waitseq;
   if (wake >= 0) {
      // A thread that polls over and over is given longer and longer breaks: sleeps and timeouts may always last longer.
      if (t->polls < POLLS + 16) ++t->polls;
      if (t->polls > POLLS && wake < g.vnow + (2000ll << (t->polls - POLLS))) wake = t->wake = g.vnow + (2000ll << (t->polls - POLLS));
   }
   if (wake >= 0 && wake < g.next_timer) g.next_timer = wake;
   if (g.next_timer <= g.vnow) promote_timers();
   check_caps();
   reschedule(t->state == ST_RUN);
   if (unlikely((t->sigpend & ~t->sigmask) && interruptible(kind))) deliver_pending();
}

static int wake_all(int kind, uintptr_t obj) {
   int n = 0;
   for (int i = 0; i < g.nt; ++i)
      if (g.t[i].state == ST_BLOCK && g.t[i].bkind == kind && g.t[i].bobj == obj) { make_runnable(&g.t[i], false); ++n; }
   if (n) g.idle = 0;
   return n;
}

static void set_fault_rec(int kind, Task* t, uint64_t nth, int64_t v) {
   sim_shm->st.fired[kind]++;
   if (sim_shm->nfault < SIM_MAXFREC) {
      SimFaultRec& f = sim_shm->fault[sim_shm->nfault++];
      f.kind = kind; f.task = t->id; f.nth = nth; f.value = v;
   }
   hmix(0xFA00 + kind); hmix(nth); hmix(v);
}

// should fault `kind` fire now on the current thread?
static bool fault(int kind, int64_t* val) {
   Task* t = g.cur;
   SimConfig& c = *g.cfg;
   if (c.replay) {
      uint64_t nth = ++t->fcount[kind];
      for (uint32_t i = 0; i < sim_shm->nfault_in; ++i) {
         SimFaultRec& f = sim_shm->fault_in[i];
         if (f.kind == (uint32_t)kind && f.task == (uint32_t)t->id && f.nth == nth) { *val = f.value; set_fault_rec(kind, t, nth, f.value); return true; }
      }
      return false;
   }
   uint64_t nth = ++t->fcount[kind];
   if (!c.frate[kind]) return false;
   if (sim_shm->st.fired[kind] >= c.fcap[kind]) return false;
   if (!g.frng.chance(c.frate[kind])) return false;
   int64_t v = (int64_t)(g.frng.next() >> 2);
   if (kind == F_STALL) { static const int64_t base[] = {1000, 100000, 10000000, 1000000000ll, 30000000000ll}; int64_t b = base[g.frng.below(5)]; v = b + v % b; }
   if (kind == F_ENOSPC || kind == F_EIO) v = (g.frng.below(3) == 0) ? 1000000 : g.frng.below(4);
   *val = v;
   set_fault_rec(kind, t, nth, v);
   return true;
}

// ------------------------------------------------------------------ sync objects
static Sync* sync_get(const void* p) {
   uintptr_t a = (uintptr_t)p;
   uint64_t h = (a >> 2) * 0x9E3779B97F4A7C15ull >> 45;
   for (;;) {
      Sync* s = &synctab[h & (SYNC_N - 1)];
      if (s->addr == a) return s;
      if (!s->addr) {
         if (++sync_used > SYNC_N * 3 / 4) { detail("sync table full"); sim_finish(OUT_ENGINE, 2); }
         s->addr = a; s->owner = -1; s->ord = ++g.nord;
         return s;
      }
      ++h;
   }
}
// memory in [a, e) is handed out again: what was known about synchronisation objects in it is void
static void sync_forget(uintptr_t a, uintptr_t e) {
   for (; a < e; a += 4)
      for (uint64_t h = (a >> 2) * 0x9E3779B97F4A7C15ull >> 45;; ++h) {
         Sync* s = &synctab[h & (SYNC_N - 1)];
         if (!s->addr) break;
         if (s->addr == a) { memset(&s->vc, 0, sizeof s->vc); s->owner = -1; s->count = 0; s->once = 0; s->ord = ++g.nord; break; }
      }
}
static void sync_acquire(Sync* s) { vc_join(g.cur->vc, s->vc); }
static void sync_release(Sync* s) { vc_join(s->vc, g.cur->vc); g.cur->vc.c[g.cur->id]++; }
static void sync_release_store(Sync* s) { s->vc = g.cur->vc; g.cur->vc.c[g.cur->id]++; }

// ------------------------------------------------------------------ race detector
static Cell* cell_of(uintptr_t a) {
   if (likely(a - ARENA < ARENA_SZ)) return (Cell*)SH_ARENA + ((a - ARENA) >> 3);
   if (a - STACKS < STACK_SZ * SIM_MAXT) return (Cell*)SH_STACKS + ((a - STACKS) >> 3);
   if (a - g.glo < g.ghi - g.glo) {
      for (int i = 0; i < g.nex; ++i) if (a >= g.ex_lo[i] && a < g.ex_hi[i]) return nullptr;
      return (Cell*)SH_GLOB + ((a - g.glo) >> 3);
   }
   return nullptr;
}

static void report_race(Task* t, uint32_t pc1, uint32_t pc2, uintptr_t addr, uint32_t fl) {
   static uint64_t seen[64];
   static int nseen;
   uint64_t key = ((uint64_t)pc1 << 32) | pc2;
   for (int i = 0; i < nseen; ++i) if (seen[i] == key) return;
   if (nseen < 64) seen[nseen++] = key; else return;
   sim_shm->st.races++;
   ev(EV_RACE, pc1, pc2, addr, fl);
   (void)t;
}

static inline void access_cell(Task* t, Cell* c, uint8_t mask, uint8_t flags, uint32_t pc, uintptr_t addr) {
   uint32_t clk = t->vc.c[t->id];
   uint8_t tid = t->id;
   if (unlikely(c->s[0].flags & CELL_FREED)) {
      ev(EV_UAF, pc, addr, flags & 1, c->pc[0]);
      sim_finish(OUT_UAF, 0);
   }
   int put = -1, empty = -1;
   for (int i = 0; i < 4; ++i) {
      Slot& s = c->s[i];
      if (!s.mask) { if (empty < 0) empty = i; continue; }
      if (s.tid == tid) {
         if (s.clk == clk && (s.mask & mask) == mask && ((s.flags & 1) || !(flags & 1)) && !((s.flags & 2) && !(flags & 2))) return;   // already recorded as strong
         if (s.mask == mask || (s.clk <= clk && (s.mask & ~mask) == 0 && ((flags & 1) || !(s.flags & 1)))) {
            if ((flags & 1) || !(s.flags & 1)) put = i;
         }
         continue;
      }
      if (!(s.mask & mask)) continue;
      if (!((s.flags | flags) & 1)) continue;
      if ((s.flags & 2) && (flags & 2)) continue;
      if (s.clk > t->vc.c[s.tid]) { report_race(t, c->pc[i], pc, addr, ((uint32_t)s.flags << 8) | flags | ((uint32_t)s.tid << 16)); }
      else if (put < 0 && (flags & 1) && (s.mask & ~mask) == 0) put = i;   // ordered before and overwritten
   }
   if (put < 0) put = empty;
   if (put < 0) put = (clk + addr / 8) & 3;
   c->s[put] = Slot{clk, tid, mask, flags, 0};
   c->pc[put] = pc;
}

static inline void do_access(uintptr_t a, size_t n, uint8_t flags, uintptr_t pc) {
   Task* t = tls_task;
   if (!t || !g.active) return;
   mem_point(t);
   sim_shm->st.accesses++;
   if (!g.cfg->race_check) return;
   while (n) {
      Cell* c = cell_of(a);
      if (!c) return;
      size_t off = a & 7, k = 8 - off;
      if (k > n) k = n;
      access_cell(t, c, (uint8_t)(((1u << k) - 1) << off), flags, (uint32_t)pc, a);
      a += k; n -= k;
   }
}
#define PC ((uintptr_t)__builtin_return_address(0))

#define ACC(n) \
   EXPORT void __tsan_read##n(void* p) { do_access((uintptr_t)p, n, 0, PC); } \
   EXPORT void __tsan_write##n(void* p) { do_access((uintptr_t)p, n, 1, PC); } \
   EXPORT void __tsan_read_write##n(void* p) { do_access((uintptr_t)p, n, 0, PC); do_access((uintptr_t)p, n, 1, PC); } \
   EXPORT void __tsan_unaligned_read##n(void* p) { do_access((uintptr_t)p, n, 0, PC); } \
   EXPORT void __tsan_unaligned_write##n(void* p) { do_access((uintptr_t)p, n, 1, PC); } \
   EXPORT void __tsan_unaligned_read_write##n(void* p) { do_access((uintptr_t)p, n, 0, PC); do_access((uintptr_t)p, n, 1, PC); }
ACC(1) ACC(2) ACC(4) ACC(8) ACC(16)
EXPORT void __tsan_read_range(void* p, size_t n) { do_access((uintptr_t)p, n, 0, PC); }
EXPORT void __tsan_write_range(void* p, size_t n) { do_access((uintptr_t)p, n, 1, PC); }
EXPORT void __tsan_vptr_read(void** p) { do_access((uintptr_t)p, 8, 0, PC); }
EXPORT void __tsan_vptr_update(void** p, void* v) { do_access((uintptr_t)p, 8, *p != v, PC); }   // always a point: fresh stack memory holds arbitrary values
EXPORT void __tsan_func_entry(void*) {}
EXPORT void __tsan_func_exit() {}
EXPORT void __tsan_init() {}
EXPORT void __tsan_ignore_thread_begin() {}
EXPORT void __tsan_ignore_thread_end() {}
EXPORT void* __tsan_memcpy(void* d, const void* s, size_t n) {
   if (n) { do_access((uintptr_t)s, n, 0, PC); do_access((uintptr_t)d, n, 1, PC); }
   return memcpy(d, s, n);
}
EXPORT void* __tsan_memmove(void* d, const void* s, size_t n) {
   if (n) { do_access((uintptr_t)s, n, 0, PC); do_access((uintptr_t)d, n, 1, PC); }
   return memmove(d, s, n);
}
EXPORT void* __tsan_memset(void* d, int c, size_t n) {
   if (n) do_access((uintptr_t)d, n, 1, PC);
   return memset(d, c, n);
}
EXPORT void sim_range_read(const void* p, size_t n) { do_access((uintptr_t)p, n, 0, PC); }
EXPORT void sim_range_write(const void* p, size_t n) { do_access((uintptr_t)p, n, 1, PC); }

// atomics: executed under the baton, so natively sequentially consistent; ordering arguments feed the race detector
static Task* atomic_pre(const volatile void* p, size_t n, uint8_t flags, uintptr_t pc) {
   Task* t = tls_task;
   if (!t || !g.active) return nullptr;
   sim_shm->st.atomics++;
   sync_point(g.cfg->p_atomic);
   if (g.cfg->race_check) {
      Cell* c = cell_of((uintptr_t)p);
      if (c) access_cell(t, c, (uint8_t)(((1u << (n > 8 ? 8 : n)) - 1) << ((uintptr_t)p & 7)), flags | 2, (uint32_t)pc, (uintptr_t)p);
   }
   return t;
}
static inline bool is_acq(int mo) { return mo == 1 || mo == 2 || mo == 4 || mo == 5; }
static inline bool is_rel(int mo) { return mo == 3 || mo == 4 || mo == 5; }
static void atomic_load_post(Task* t, const volatile void* p, int mo) {
   if (t && is_acq(mo)) { Sync* s = sync_get((const void*)p); sync_acquire(s); ih(t, 20, s->ord); }
}
static void atomic_store_post(Task* t, const volatile void* p, int mo) {
   if (!t) return;
   Sync* s = sync_get((const void*)p);
   if (is_rel(mo)) sync_release_store(s); else memset(&s->vc, 0, sizeof s->vc);
   ih(t, 21, s->ord);
}
static void atomic_rmw_post(Task* t, const volatile void* p, int mo) {
   if (!t) return;
   Sync* s = sync_get((const void*)p);
   if (is_acq(mo)) sync_acquire(s);
   if (is_rel(mo)) sync_release(s);
   ih(t, 22, s->ord);
}
typedef unsigned char a8; typedef unsigned short a16; typedef unsigned int a32; typedef unsigned long a64;
#define ATOM(B, T) \
   EXPORT T __tsan_atomic##B##_load(const volatile T* a, int mo) { Task* t = atomic_pre(a, sizeof(T), 0, PC); T v = __atomic_load_n(a, __ATOMIC_SEQ_CST); atomic_load_post(t, a, mo); return v; } \
   EXPORT void __tsan_atomic##B##_store(volatile T* a, T v, int mo) { Task* t = atomic_pre(a, sizeof(T), 1, PC); __atomic_store_n(a, v, __ATOMIC_SEQ_CST); atomic_store_post(t, a, mo); } \
   EXPORT T __tsan_atomic##B##_exchange(volatile T* a, T v, int mo) { Task* t = atomic_pre(a, sizeof(T), 1, PC); T r = __atomic_exchange_n(a, v, __ATOMIC_SEQ_CST); atomic_rmw_post(t, a, mo); return r; } \
   EXPORT T __tsan_atomic##B##_fetch_add(volatile T* a, T v, int mo) { Task* t = atomic_pre(a, sizeof(T), 1, PC); T r = __atomic_fetch_add(a, v, __ATOMIC_SEQ_CST); atomic_rmw_post(t, a, mo); return r; } \
   EXPORT T __tsan_atomic##B##_fetch_sub(volatile T* a, T v, int mo) { Task* t = atomic_pre(a, sizeof(T), 1, PC); T r = __atomic_fetch_sub(a, v, __ATOMIC_SEQ_CST); atomic_rmw_post(t, a, mo); return r; } \
   EXPORT T __tsan_atomic##B##_fetch_and(volatile T* a, T v, int mo) { Task* t = atomic_pre(a, sizeof(T), 1, PC); T r = __atomic_fetch_and(a, v, __ATOMIC_SEQ_CST); atomic_rmw_post(t, a, mo); return r; } \
   EXPORT T __tsan_atomic##B##_fetch_or(volatile T* a, T v, int mo) { Task* t = atomic_pre(a, sizeof(T), 1, PC); T r = __atomic_fetch_or(a, v, __ATOMIC_SEQ_CST); atomic_rmw_post(t, a, mo); return r; } \
   EXPORT T __tsan_atomic##B##_fetch_xor(volatile T* a, T v, int mo) { Task* t = atomic_pre(a, sizeof(T), 1, PC); T r = __atomic_fetch_xor(a, v, __ATOMIC_SEQ_CST); atomic_rmw_post(t, a, mo); return r; } \
   EXPORT T __tsan_atomic##B##_fetch_nand(volatile T* a, T v, int mo) { Task* t = atomic_pre(a, sizeof(T), 1, PC); T r = __atomic_fetch_nand(a, v, __ATOMIC_SEQ_CST); atomic_rmw_post(t, a, mo); return r; } \
   EXPORT int __tsan_atomic##B##_compare_exchange_strong(volatile T* a, T* c, T v, int mo, int fmo) { Task* t = atomic_pre(a, sizeof(T), 1, PC); T e = *c; bool ok = __atomic_compare_exchange_n(a, &e, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); if (ok) atomic_rmw_post(t, a, mo); else { atomic_load_post(t, a, fmo); *c = e; } return ok; } \
   EXPORT int __tsan_atomic##B##_compare_exchange_weak(volatile T* a, T* c, T v, int mo, int fmo) { return __tsan_atomic##B##_compare_exchange_strong(a, c, v, mo, fmo); } \
   EXPORT T __tsan_atomic##B##_compare_exchange_val(volatile T* a, T c, T v, int mo, int fmo) { __tsan_atomic##B##_compare_exchange_strong(a, &c, v, mo, fmo); return c; }
ATOM(8, a8) ATOM(16, a16) ATOM(32, a32) ATOM(64, a64)
EXPORT void __tsan_atomic_thread_fence(int mo) {
   Task* t = tls_task;
   if (!t || !g.active) return;
   sync_point(g.cfg->p_atomic);
   if (is_acq(mo)) vc_join(t->vc, g.fence);
   if (is_rel(mo)) { vc_join(g.fence, t->vc); t->vc.c[t->id]++; }
}
EXPORT void __tsan_atomic_signal_fence(int) {}

// ------------------------------------------------------------------ memory
struct Hdr { uint64_t next; uint64_t size; uint32_t magic; uint32_t tag; uint64_t pad; };
enum { MAG_LIVE = 0xA11C0DE5, MAG_FREE = 0xF4EED0E5, MAG_LIVE_NT = 0xA11C0DE7 };
static inline bool in_arena(const void* p) { return (uintptr_t)p - ARENA < ARENA_SZ; }

static void* arena_alloc(size_t n, size_t align) {
   Task* t = g.cur;
   if (t && t->arm_alloc) {
      int64_t v;
      if (fault(F_ALLOC, &v)) { t->arm_alloc = 0; sim_event(EV_TEXT, 77, 0, 0, 0); errno = ENOMEM; return nullptr; }   // at most one failure per armed operation
   }
   if (align < 16) align = 16;
   bool nt = g.untracked || (t && t->guards > 0);
   if (g.reuse && align == 16 && n <= REUSE_MAX && !nt) {   // last freed, first reused, as common allocators do
      uintptr_t& f = g.freed[(n + 15) >> 4];
      if (f) {
         uintptr_t q = f;
         Hdr* h = (Hdr*)(q - sizeof(Hdr));
         f = h->next;
         h->size = n;
         h->magic = MAG_LIVE;
         g.live_n++; g.live_b += n;
         if (g.cfg->race_check) for (uintptr_t a = q; a < q + ((n + 15) & ~15ull); a += 8) { Cell* c = cell_of(a); for (auto& s : c->s) s = Slot{0, 0, 0, 0, 0}; }
         sim_shm->st.allocs++;
         sync_forget(q, q + ((n + 15) & ~15ull));
         sim_shm->st.reused++;
         return (void*)q;
      }
   }
   uintptr_t p = (g.brk + sizeof(Hdr) + align - 1) & ~(uintptr_t)(align - 1);
   size_t sz = (n + 15) & ~15ull;
   if (sz < 16) sz = 16;
   if (sz > ARENA_SZ || p + sz > ARENA + ARENA_SZ) { errno = ENOMEM; return nullptr; }
   g.brk = p + sz;
   Hdr* h = (Hdr*)(p - sizeof(Hdr));
   h->size = n;
   h->magic = nt ? MAG_LIVE_NT : MAG_LIVE;
   if (!nt) { g.live_n++; g.live_b += n; }
   sim_shm->st.allocs++;
   return (void*)p;
}
static void arena_free(void* p, uintptr_t pc) {
   Hdr* h = (Hdr*)((uintptr_t)p - sizeof(Hdr));
   if (h->magic != MAG_LIVE && h->magic != MAG_LIVE_NT) {
      ev(EV_UAF, (uint32_t)pc, (uintptr_t)p, 2);
      sim_finish(OUT_BADFREE, 0);
   }
   bool tracked = h->magic == MAG_LIVE;
   if (tracked) { g.live_n--; g.live_b -= h->size; }
   h->magic = MAG_FREE;
   if (g.cfg->race_check) {
      uintptr_t a = (uintptr_t)p, e = a + h->size;
      for (; a < e; a += 8) { Cell* c = cell_of(a); c->s[0].flags = CELL_FREED; c->s[0].mask = 0xff; c->pc[0] = (uint32_t)pc; }
   }
   // poison so that uninstrumented readers see garbage too
   if (h->size <= 4096) memset(p, 0xDB, h->size);
   else memset(p, 0xDB, 4096);
   if (g.reuse && tracked && h->size <= REUSE_MAX && !((uintptr_t)p & 15)) { uintptr_t& f = g.freed[(h->size + 15) >> 4]; h->next = f; f = (uintptr_t)p; }
}
static inline bool use_arena() { Task* t = tls_task; return t && g.active && !t->passthrough; }

EXPORT void* malloc(size_t n) { return use_arena() ? arena_alloc(n, 16) : __libc_malloc(n); }
EXPORT void free(void* p) {
   if (!p) return;
   if (in_arena(p)) { arena_free(p, PC); return; }
   if (use_arena()) {
      // memory from before the simulation started (or from library internals): owned by the process image
      if ((uintptr_t)p - STACKS < STACK_SZ * SIM_MAXT) { ev(EV_UAF, (uint32_t)PC, (uintptr_t)p, 2); sim_finish(OUT_BADFREE, 0); }
      return;
   }
   __libc_free(p);
}
EXPORT void* calloc(size_t a, size_t b) {
   size_t n;
   if (__builtin_mul_overflow(a, b, &n)) { errno = ENOMEM; return nullptr; }
   if (!use_arena()) return __libc_calloc(a, b);
   void* p = arena_alloc(n, 16);   // fresh arena memory is zero
   if (p && g.reuse) memset(p, 0, n);
   return p;
}
EXPORT void* realloc(void* p, size_t n) {
   if (p && in_arena(p)) {
      Hdr* h = (Hdr*)((uintptr_t)p - sizeof(Hdr));
      size_t o = h->size;
      void* q = use_arena() ? arena_alloc(n, 16) : __libc_malloc(n);
      if (!q) return nullptr;
      memcpy(q, p, o < n ? o : n);
      arena_free(p, PC);
      return q;
   }
   if (use_arena()) {
      void* q = arena_alloc(n, 16);
      if (q && p) memcpy(q, p, n);   // size of a foreign block is unknown; only used for tiny library buffers
      return q;
   }
   return __libc_realloc(p, n);
}
EXPORT void* memalign(size_t al, size_t n) { return use_arena() ? arena_alloc(n, al) : __libc_memalign(al, n); }
EXPORT void* aligned_alloc(size_t al, size_t n) { return memalign(al, n); }
EXPORT int posix_memalign(void** p, size_t al, size_t n) { *p = memalign(al, n); return *p ? 0 : ENOMEM; }
EXPORT size_t malloc_usable_size(void* p) { return in_arena(p) ? ((Hdr*)((uintptr_t)p - sizeof(Hdr)))->size : 0; }

EXPORT int sim_disable_alloc_tracking(int on) { int o = g.untracked; g.untracked = on; return o; }

// ------------------------------------------------------------------ app API
EXPORT int sim_self() { return tls_task ? tls_task->id : -1; }
EXPORT uint64_t sim_self_pthread(int task) { return 0x7f0000001000ull + (uint64_t)task * 0x1000; }
EXPORT void sim_event(uint32_t type, uint64_t a, uint64_t b, uint64_t c, uint64_t d) { if (!tls_task) return; flush_err(g.cur->id); g.idle = 0; g.cur->polls = 0; ev(type, a, b, c, d); }
EXPORT void sim_event_data(uint32_t type, uint64_t a, uint64_t b, uint64_t c, uint64_t d, const void* p, size_t n) {
   if (!tls_task) return;
   flush_err(g.cur->id);
   g.idle = 0;
   g.cur->polls = 0;
   if (n > 65536) n = 65536;
   SimEvent* e = ev_alloc(type, n);
   e->a = a; e->b = b; e->c = c; e->d = d;
   memcpy((char*)(e + 1), p, n);
   uint64_t h = 1469598103934665603ull;
   for (size_t i = 0; i < n; ++i) h = (h ^ ((const unsigned char*)p)[i]) * 1099511628211ull;
   hmix(type); hmix(a); hmix(b); hmix(c); hmix(d); hmix(h); hmix(e->mono);
}
EXPORT void sim_tick(int64_t ns) { if (tls_task) { g.vnow += ns; if (g.vnow >= g.next_timer) promote_timers(); } }   // time passes, nothing else happens
EXPORT void sim_yield() { if (tls_task) sync_point(g.cfg->p_sync * 2 > 65536 ? 65536 : g.cfg->p_sync * 2); }
EXPORT void sim_sleep_ns(int64_t ns) { if (!tls_task) return; sync_point(g.cfg->p_sync); sim_shm->st.sleeps++; block(B_SLEEP, 0, g.vnow + (ns > 0 ? ns : 0)); }
EXPORT int64_t sim_real_ns() { return g.vnow + g.rt_off; }
EXPORT void sim_clock_step(int64_t d) { g.rt_off += d; ev(EV_CLOCK, 0, 0, (uint64_t)d); }
EXPORT void sim_gate_wait(int gate) { sync_point(g.cfg->p_sync); while (!g.gates[gate]) block(B_GATE, gate, -1); }
EXPORT void sim_gate_open(int gate) { g.gates[gate] = 1; wake_all(B_GATE, gate); sync_point(g.cfg->p_sync); }
EXPORT void sim_counter_add(int c, int64_t v) { g.counters[c] += v; wake_all(B_COUNTER, c); }
EXPORT int64_t sim_counter(int c) { return g.counters[c]; }
EXPORT void sim_counter_wait(int c, int64_t v) { sync_point(g.cfg->p_sync); while (g.counters[c] < v) block(B_COUNTER, c, -1); }
EXPORT void sim_settle() {
   sync_point(g.cfg->p_sync);
   for (int i = 0; i < 5000; ++i) {
      bool run = false;
      int64_t next = -1;
      for (int k = 0; k < g.nt; ++k) {
         if (&g.t[k] == g.cur) continue;
         if (g.t[k].state == ST_RUN) run = true;
         if (g.t[k].state == ST_BLOCK && g.t[k].wake >= 0 && (next < 0 || g.t[k].wake < next)) next = g.t[k].wake;
      }
      if (!run && next < 0) {
         for (int k = 0; k < g.nt; ++k)
            if (g.t[k].state == ST_BLOCK) ev(EV_NOTE, 41, k, g.t[k].bkind, g.t[k].bkind == B_JOIN ? ((Task*)g.t[k].bobj)->id : -1);
         break;
      }
      block(B_SLEEP, 0, (run || next < g.vnow ? g.vnow : next) + 1000);
   }
}
EXPORT void sim_arm_alloc(int on) { if (tls_task) tls_task->arm_alloc = on; }
EXPORT void sim_arm_thread(int on) { if (tls_task) tls_task->arm_thread = on; }
EXPORT void sim_fs_faults(int on) { g.fs_on = on; }
EXPORT int sim_is_app_task(int t) { return t >= 0 && t < g.nt && g.t[t].app; }
EXPORT void sim_mark_app_task() { if (tls_task) tls_task->app = true; }
EXPORT void sim_probe_resources() {
   int live = 0;
   for (int i = 0; i < g.nt; ++i) if (g.t[i].state != ST_DONE) ++live;
   ev(EV_RES, live, g.open_fds, g.live_n, g.live_b);
}
static void *g_hA, *g_hB;
EXPORT void sim_register_handlers(void* a, void* b) { g_hA = a; g_hB = b; }
static struct sigaction g_disp[65];   // what the application gave last
EXPORT void sim_app_disposition(int sig, const struct sigaction* sa) { g_disp[sig] = *sa; }
static int disp_class(int sig) {
   struct sigaction& s = g.sigs[sig];
   void* h = (void*)s.sa_handler;
   if (h == (void*)SIG_DFL) return 0;
   if (h == (void*)SIG_IGN) return 1;
   if (h != g_hA && h != g_hB) return 9;
   bool same = (s.sa_flags & 0x0bffffff) == (g_disp[sig].sa_flags & 0x0bffffff);   // not SA_RESTORER
   for (int i = 1; i < 65; ++i) if (sigismember(&s.sa_mask, i) != sigismember(&g_disp[sig].sa_mask, i)) same = false;
   return (h == g_hA ? 2 : 3) + (same ? 0 : 20);   // 20: with other flags or another mask
}
static void probe_all(int phase) {
   static const int sigs[] = {SIGABRT, SIGFPE, SIGILL, SIGSEGV, SIGTERM, SIGUSR1, SIGUSR2, SIGHUP, SIGINT};
   for (int sig : sigs) ev(EV_DISP, sig, disp_class(sig), phase);
}
EXPORT int sim_probe_disposition(int sig) {
   ev(EV_DISP, sig, disp_class(sig));
   return disp_class(sig);
}

// ------------------------------------------------------------------ real functions
typedef int (*pc_t)(pthread_t*, const pthread_attr_t*, void* (*)(void*), void*);
static pc_t real_pthread_create;
static FILE* (*real_fopen)(const char*, const char*);
static int (*real_fclose)(FILE*);
static size_t (*real_fwrite)(const void*, size_t, size_t, FILE*);
static int (*real_fflush)(FILE*);
static int (*real_sigaction)(int, const struct sigaction*, struct sigaction*);
static int (*real_pthread_mutex_lock)(pthread_mutex_t*);
static int (*real_pthread_mutex_unlock)(pthread_mutex_t*);
static int (*real_pthread_mutex_trylock)(pthread_mutex_t*);
static int (*real_pthread_once)(pthread_once_t*, void (*)());
static int (*real_pthread_cond_wait)(pthread_cond_t*, pthread_mutex_t*);
static int (*real_pthread_cond_signal)(pthread_cond_t*);
static int (*real_pthread_cond_broadcast)(pthread_cond_t*);
static int (*real_rwlock_rdlock)(pthread_rwlock_t*);
static int (*real_rwlock_wrlock)(pthread_rwlock_t*);
static int (*real_rwlock_unlock)(pthread_rwlock_t*);
static pthread_t (*real_pthread_self)();
static void (*real_exit)(int);
static void (*real_abort)();
static int (*real_raise)(int);
static int (*real_fputc)(int, FILE*);
static int (*real_fputs)(const char*, FILE*);
static int (*real_clock_gettime)(clockid_t, struct timespec*);
static size_t (*real_strftime)(char*, size_t, const char*, const struct tm*);
static time_t (*real_mktime)(struct tm*);

static bool inited;
template <class F> static void rsym(F& f, const char* n) { f = (F)dlsym(RTLD_NEXT, n); }
static void init_real() {
   if (inited) return;
   inited = true;
   rsym(real_pthread_create, "pthread_create");
   rsym(real_fopen, "fopen");
   rsym(real_fclose, "fclose");
   rsym(real_fwrite, "fwrite");
   rsym(real_fflush, "fflush");
   rsym(real_sigaction, "sigaction");
   rsym(real_pthread_mutex_lock, "pthread_mutex_lock");
   rsym(real_pthread_mutex_unlock, "pthread_mutex_unlock");
   rsym(real_pthread_mutex_trylock, "pthread_mutex_trylock");
   rsym(real_pthread_once, "pthread_once");
   rsym(real_pthread_cond_wait, "pthread_cond_wait");
   rsym(real_pthread_cond_signal, "pthread_cond_signal");
   rsym(real_pthread_cond_broadcast, "pthread_cond_broadcast");
   rsym(real_rwlock_rdlock, "pthread_rwlock_rdlock");
   rsym(real_rwlock_wrlock, "pthread_rwlock_wrlock");
   rsym(real_rwlock_unlock, "pthread_rwlock_unlock");
   rsym(real_pthread_self, "pthread_self");
   rsym(real_exit, "exit");
   rsym(real_abort, "abort");
   rsym(real_raise, "raise");
   rsym(real_fputc, "fputc");
   rsym(real_fputs, "fputs");
   rsym(real_clock_gettime, "clock_gettime");
   rsym(real_strftime, "strftime");
   rsym(real_mktime, "mktime");
}
#define SIM (tls_task && g.active)

// ------------------------------------------------------------------ mutex
static void mx_acquire(Sync* s) {
   Task* t = g.cur;
   while (s->owner >= 0) block(B_MUTEX, s->addr, -1);
   s->owner = t->id; s->count = 1;
   sync_acquire(s);
   ih(t, 1, s->ord);
}
static void mx_release(Sync* s) {
   sync_release_store(s);
   s->owner = -1; s->count = 0;
   ih(g.cur, 2, s->ord);
   wake_all(B_MUTEX, s->addr);
}
EXPORT int pthread_mutex_lock(pthread_mutex_t* m) {
   if (!SIM) { init_real(); return real_pthread_mutex_lock(m); }
   sync_point(g.cfg->p_sync);
   Sync* s = sync_get(m);
   if (s->owner == g.cur->id) {
      int kind = m->__data.__kind & 3;
      if (kind == PTHREAD_MUTEX_RECURSIVE_NP) { s->count++; return 0; }
      if (kind == PTHREAD_MUTEX_ERRORCHECK_NP) return EDEADLK;
   }
   mx_acquire(s);
   return 0;
}
EXPORT int pthread_mutex_trylock(pthread_mutex_t* m) {
   if (!SIM) { init_real(); return real_pthread_mutex_trylock(m); }
   sync_point(g.cfg->p_sync);
   Sync* s = sync_get(m);
   if (s->owner >= 0) {
      if (s->owner == g.cur->id && (m->__data.__kind & 3) == PTHREAD_MUTEX_RECURSIVE_NP) { s->count++; return 0; }
      return EBUSY;
   }
   mx_acquire(s);
   return 0;
}
static int64_t abs_to_v(clockid_t clk, const struct timespec* ts) {
   int64_t v = (int64_t)ts->tv_sec * 1000000000ll + ts->tv_nsec;
   if (clk == CLOCK_REALTIME) v -= g.rt_off;
   return v < 0 ? 0 : v;
}
static int mx_timed(pthread_mutex_t* m, clockid_t clk, const struct timespec* ts) {
   sync_point(g.cfg->p_sync);
   Sync* s = sync_get(m);
   int64_t w = abs_to_v(clk, ts);
   while (s->owner >= 0) {
      if (g.vnow >= w) return ETIMEDOUT;
      block(B_MUTEX, s->addr, w);
   }
   mx_acquire(s);
   return 0;
}
EXPORT int pthread_mutex_timedlock(pthread_mutex_t* m, const struct timespec* ts) { return mx_timed(m, CLOCK_REALTIME, ts); }
EXPORT int pthread_mutex_clocklock(pthread_mutex_t* m, clockid_t c, const struct timespec* ts) { return mx_timed(m, c, ts); }
EXPORT int pthread_mutex_unlock(pthread_mutex_t* m) {
   if (!SIM) { init_real(); return real_pthread_mutex_unlock(m); }
   Sync* s = sync_get(m);
   if (s->owner == g.cur->id && s->count > 1) { s->count--; return 0; }
   mx_release(s);
   sync_point(g.cfg->p_sync);
   return 0;
}
EXPORT int pthread_mutex_init(pthread_mutex_t* m, const pthread_mutexattr_t* a) {
   memset(m, 0, sizeof *m);
   if (a) m->__data.__kind = ((const int*)a)[0] & 3;
   if (SIM) { Sync* s = sync_get(m); s->owner = -1; s->count = 0; }
   return 0;
}
EXPORT int pthread_mutex_destroy(pthread_mutex_t*) { return 0; }

// ------------------------------------------------------------------ condition variables
static int cond_wait(pthread_cond_t* c, pthread_mutex_t* m, int64_t wake) {
   sync_point(g.cfg->p_sync);
   Sync* ms = sync_get(m);
   Sync* cs = sync_get(c);
   Task* t = g.cur;
   ih(t, 3, cs->ord);
   int64_t v;
   bool spurious = fault(F_SPURIOUS, &v);
   int cnt = ms->count;
   mx_release(ms);
   int rc = 0;
   if (spurious) {
      sync_point(65536);
   } else {
      block(B_COND, (uintptr_t)c, wake);
      if (t->timedout) rc = ETIMEDOUT;
   }
   mx_acquire(ms);
   ms->count = cnt;
   return rc;
}
EXPORT int pthread_cond_wait(pthread_cond_t* c, pthread_mutex_t* m) { if (!SIM) { init_real(); return real_pthread_cond_wait(c, m); } return cond_wait(c, m, -1); }
EXPORT int pthread_cond_timedwait(pthread_cond_t* c, pthread_mutex_t* m, const struct timespec* ts) { return cond_wait(c, m, abs_to_v(CLOCK_REALTIME, ts)); }
EXPORT int pthread_cond_clockwait(pthread_cond_t* c, pthread_mutex_t* m, clockid_t k, const struct timespec* ts) { return cond_wait(c, m, abs_to_v(k, ts)); }
EXPORT int pthread_cond_signal(pthread_cond_t* c) {
   if (!SIM) { init_real(); return real_pthread_cond_signal(c); }
   sync_point(g.cfg->p_sync);
   Task* w[SIM_MAXT];
   int n = 0;
   for (int i = 0; i < g.nt; ++i)
      if (g.t[i].state == ST_BLOCK && g.t[i].bkind == B_COND && g.t[i].bobj == (uintptr_t)c) w[n++] = &g.t[i];
   ih(g.cur, 4, sync_get(c)->ord);
   if (!n) return 0;
   Task* best = w[0];
   for (int i = 1; i < n; ++i) if (w[i]->waitseq < best->waitseq) best = w[i];
   int64_t v;
   if (n > 1 && fault(F_NOTIFY, &v)) best = w[(uint64_t)v % n];
   make_runnable(best, false);
   g.idle = 0;
   sync_point(g.cfg->p_sync);
   return 0;
}
EXPORT int pthread_cond_broadcast(pthread_cond_t* c) {
   if (!SIM) { init_real(); return real_pthread_cond_broadcast(c); }
   sync_point(g.cfg->p_sync);
   ih(g.cur, 5, sync_get(c)->ord);
   wake_all(B_COND, (uintptr_t)c);
   sync_point(g.cfg->p_sync);
   return 0;
}
EXPORT int pthread_cond_init(pthread_cond_t* c, const pthread_condattr_t*) { memset(c, 0, sizeof *c); return 0; }
EXPORT int pthread_cond_destroy(pthread_cond_t* c) {
   (void)c;   // destroying with waiters would block in glibc
   if (SIM) for (int i = 0; i < g.nt; ++i) while (g.t[i].state == ST_BLOCK && g.t[i].bkind == B_COND && g.t[i].bobj == (uintptr_t)c) block(B_FOREVER, 0, -1);
   return 0;
}

// ------------------------------------------------------------------ rwlock
static int rw_lock(pthread_rwlock_t* l, bool wr, bool tr, int64_t wake) {
   sync_point(g.cfg->p_sync);
   Sync* s = sync_get(l);
   while (s->owner >= 0 || (wr && s->count > 0)) {
      if (tr) return EBUSY;
      if (wake >= 0 && g.vnow >= wake) return ETIMEDOUT;
      block(B_RW, s->addr, wake);
   }
   if (wr) s->owner = g.cur->id; else s->count++;
   sync_acquire(s);
   ih(g.cur, 6 + wr, s->ord);
   return 0;
}
EXPORT int pthread_rwlock_rdlock(pthread_rwlock_t* l) { if (!SIM) { init_real(); return real_rwlock_rdlock(l); } return rw_lock(l, false, false, -1); }
EXPORT int pthread_rwlock_wrlock(pthread_rwlock_t* l) { if (!SIM) { init_real(); return real_rwlock_wrlock(l); } return rw_lock(l, true, false, -1); }
EXPORT int pthread_rwlock_tryrdlock(pthread_rwlock_t* l) { return rw_lock(l, false, true, -1); }
EXPORT int pthread_rwlock_trywrlock(pthread_rwlock_t* l) { return rw_lock(l, true, true, -1); }
EXPORT int pthread_rwlock_timedrdlock(pthread_rwlock_t* l, const struct timespec* ts) { return rw_lock(l, false, false, abs_to_v(CLOCK_REALTIME, ts)); }
EXPORT int pthread_rwlock_timedwrlock(pthread_rwlock_t* l, const struct timespec* ts) { return rw_lock(l, true, false, abs_to_v(CLOCK_REALTIME, ts)); }
EXPORT int pthread_rwlock_unlock(pthread_rwlock_t* l) {
   if (!SIM) { init_real(); return real_rwlock_unlock(l); }
   Sync* s = sync_get(l);
   sync_release(s);   // over-approximates ordering between readers
   if (s->owner == g.cur->id) s->owner = -1; else if (s->count > 0) s->count--;
   ih(g.cur, 8, s->ord);
   wake_all(B_RW, s->addr);
   sync_point(g.cfg->p_sync);
   return 0;
}
EXPORT int pthread_rwlock_init(pthread_rwlock_t* l, const pthread_rwlockattr_t*) { memset(l, 0, sizeof *l); return 0; }
EXPORT int pthread_rwlock_destroy(pthread_rwlock_t*) { return 0; }

// ------------------------------------------------------------------ semaphores
EXPORT int sem_init(sem_t* s, int, unsigned v) { *(unsigned*)s = v; return 0; }
EXPORT int sem_destroy(sem_t*) { return 0; }
static int sem_wait_v(sem_t* s, int64_t wake, bool tr) {
   sync_point(g.cfg->p_sync);
   unsigned* v = (unsigned*)s;
   while (!*v) {
      if (tr) { errno = EAGAIN; return -1; }
      if (wake >= 0 && g.vnow >= wake) { errno = ETIMEDOUT; return -1; }
      block(B_SEM, (uintptr_t)s, wake);
   }
   --*v;
   Sync* y = sync_get(s);
   sync_acquire(y);
   ih(g.cur, 9, y->ord);
   return 0;
}
EXPORT int sem_wait(sem_t* s) { return sem_wait_v(s, -1, false); }
EXPORT int sem_trywait(sem_t* s) { return sem_wait_v(s, -1, true); }
EXPORT int sem_timedwait(sem_t* s, const struct timespec* ts) { return sem_wait_v(s, abs_to_v(CLOCK_REALTIME, ts), false); }
EXPORT int sem_clockwait(sem_t* s, clockid_t c, const struct timespec* ts) { return sem_wait_v(s, abs_to_v(c, ts), false); }
EXPORT int sem_post(sem_t* s) {
   Sync* y = sync_get(s);
   sync_release(y);
   ++*(unsigned*)s;
   ih(g.cur, 10, y->ord);
   wake_all(B_SEM, (uintptr_t)s);
   sync_point(g.cfg->p_sync);
   return 0;
}

// ------------------------------------------------------------------ once and static guards
EXPORT int pthread_once(pthread_once_t* o, void (*fn)()) {
   if (!SIM) { init_real(); return real_pthread_once(o, fn); }
   if (*o == 2) return 0;   // completed by the real implementation before the simulation
   sync_point(g.cfg->p_sync);
   Sync* s = sync_get(o);
   while (s->once == 1) block(B_ONCE, s->addr, -1);
   if (s->once == 2) { sync_acquire(s); return 0; }
   sync_acquire(s);
   s->once = 1;
   s->owner = g.cur->id;
   ih(g.cur, 11, s->ord);
   try {
      fn();
   } catch (...) {
      s->once = 0; s->owner = -1;
      sync_release(s);
      wake_all(B_ONCE, s->addr);
      throw;
   }
   s->once = 2; s->owner = -1;
   sync_release(s);
   wake_all(B_ONCE, s->addr);
   return 0;
}
EXPORT int __cxa_guard_acquire(uint64_t* gd) {
   unsigned char* b = (unsigned char*)gd;
   if (__atomic_load_n(b, __ATOMIC_ACQUIRE) == 1) { if (SIM) sync_acquire(sync_get(gd)); return 0; }
   if (!SIM) return 1;   // single-threaded before the simulation
   sync_point(g.cfg->p_sync);
   Sync* s = sync_get(gd);
   while (s->once == 1) block(B_ONCE, s->addr, -1);
   if (s->once == 2 || *b == 1) { sync_acquire(s); return 0; }
   sync_acquire(s);   // after an initialisation that failed
   s->once = 1;
   g.cur->guards++;
   ih(g.cur, 12, s->ord);
   return 1;
}
EXPORT void __cxa_guard_release(uint64_t* gd) {
   unsigned char* b = (unsigned char*)gd;
   if (SIM) {
      Sync* s = sync_get(gd);
      s->once = 2;
      if (g.cur->guards > 0) g.cur->guards--;
      sync_release(s);
      __atomic_store_n(b, 1, __ATOMIC_RELEASE);
      wake_all(B_ONCE, s->addr);
      return;
   }
   __atomic_store_n(b, 1, __ATOMIC_RELEASE);
}
EXPORT void __cxa_guard_abort(uint64_t* gd) {
   if (SIM) { Sync* s = sync_get(gd); s->once = 0; sync_release(s); if (g.cur->guards > 0) g.cur->guards--; wake_all(B_ONCE, s->addr); }
}

// ------------------------------------------------------------------ futex (std::future and friends)
static int sim_futex(uint32_t* u, int op, uint32_t val, const struct timespec* ts, uint32_t* u2, uint32_t val3) {
   (void)u2; (void)val3;
   int cmd = op & FUTEX_CMD_MASK;
   if (cmd == FUTEX_WAIT || cmd == FUTEX_WAIT_BITSET) {
      sync_point(g.cfg->p_sync);
      if (__atomic_load_n(u, __ATOMIC_SEQ_CST) != val) { errno = EAGAIN; return -1; }
      int64_t wake = -1;
      if (ts) {
         if (cmd == FUTEX_WAIT) wake = g.vnow + (int64_t)ts->tv_sec * 1000000000ll + ts->tv_nsec;
         else wake = abs_to_v((op & FUTEX_CLOCK_REALTIME) ? CLOCK_REALTIME : CLOCK_MONOTONIC, ts);
         if (wake <= g.vnow) { errno = ETIMEDOUT; return -1; }
      }
      int64_t v;
      if (fault(F_SPURIOUS, &v)) { sync_point(65536); return 0; }
      ih(g.cur, 13, sync_get(u)->ord);
      block(B_FUTEX, (uintptr_t)u, wake);
      if (g.cur->timedout) { errno = ETIMEDOUT; return -1; }
      return 0;
   }
   if (cmd == FUTEX_WAKE || cmd == FUTEX_WAKE_BITSET) {
      int n = 0;
      while (n < (int)val) {
         Task* best = nullptr;
         for (int i = 0; i < g.nt; ++i)
            if (g.t[i].state == ST_BLOCK && g.t[i].bkind == B_FUTEX && g.t[i].bobj == (uintptr_t)u && (!best || g.t[i].waitseq < best->waitseq)) best = &g.t[i];
         if (!best) break;
         make_runnable(best, false);
         ++n;
      }
      if (n) g.idle = 0;
      ih(g.cur, 14, sync_get(u)->ord);
      sync_point(g.cfg->p_sync);
      return n;
   }
   detail("unsupported futex operation");
   sim_finish(OUT_ENGINE, 3);
}
EXPORT long syscall(long n, ...) {
   va_list ap;
   va_start(ap, n);
   long a = va_arg(ap, long), b = va_arg(ap, long), c = va_arg(ap, long), d = va_arg(ap, long), e = va_arg(ap, long), f = va_arg(ap, long);
   va_end(ap);
   if (SIM && n == SYS_futex) return sim_futex((uint32_t*)a, (int)b, (uint32_t)c, (const struct timespec*)d, (uint32_t*)e, (uint32_t)f);
   if (SIM && n == SYS_gettid) return 5000 + g.cur->id;
   long r = rsys(n, a, b, c, d, e, f);
   if (r < 0 && r > -4096) { errno = (int)-r; return -1; }
   return r;
}

// ------------------------------------------------------------------ threads
extern "C" int __cxa_thread_atexit_impl(void (*)(void*), void*, void*);
EXPORT int __cxa_thread_atexit(void (*fn)(void*), void* obj, void* dso) {
   Task* t = tls_task;
   if (!t || !g.active) return __cxa_thread_atexit_impl(fn, obj, dso);
   if (t->ntls == 32) { detail("too many thread_local objects"); sim_finish(OUT_ENGINE, 6); }
   t->tls[t->ntls].fn = fn;
   t->tls[t->ntls++].obj = obj;
   return 0;
}
static void* thread_main(void* p) {
   Task* t = (Task*)p;
   tls_task = t;
   stack_t alt;
   memset(&alt, 0, sizeof alt);
   alt.ss_sp = (void*)(ALTSTACKS + (size_t)t->id * ALT_SZ);
   alt.ss_size = ALT_SZ;
   rsys(SYS_sigaltstack, (long)&alt, 0);
   futex_wait_baton(t);
   t->ret = t->fn(t->arg);
   while (t->ntls) { auto d = t->tls[--t->ntls]; d.fn(d.obj); }
   flush_err(t->id);
   t->state = ST_DONE;
   t->vc.c[t->id]++;
   g.idle = 0;
   wake_all(B_JOIN, (uintptr_t)t);
   ++t->lp;
   tls_task = nullptr;
   // hand the baton on and never run again
   Task* to;
   {
      Task* def = default_pick(t, false);
      if (g.cfg->replay) {
         bool kill = false;
         to = replay_next(t, kill);
         if (!to || to == t) to = def;
      } else {
         to = explore_pick(t, false, true);
         if (!to) to = def;
         if (to && to != def) record_decision(t, to->id);
      }
   }
   if (!to) sim_finish(OUT_DEADLOCK, 0);
   if (to->state == ST_BLOCK) pass_time(to);
   give_to(t, to, false);
   for (;;) rsys(SYS_futex, (long)&t->baton, FUTEX_WAIT | FUTEX_PRIVATE_FLAG, 0, 0);
}

static Task* new_task(void* (*fn)(void*), void* arg) {
   if (g.nt >= SIM_MAXT) { detail("too many threads"); sim_finish(OUT_ENGINE, 4); }
   int id = g.nt++;
   Task* t = &g.t[id];
   uint32_t w = t->weight;
   SimDecision *rd = t->rd, *re = t->rd_end;
   memset(t, 0, sizeof *t);
   t->rd = rd; t->rd_end = re;
   t->weight = w ? w : 256;
   t->id = id;
   t->fn = fn; t->arg = arg;
   t->wake = -1;
   t->prio = (int)(g.rng.next() >> 40);
   t->vc.c[id] = 1;
   t->state = ST_RUN;
   return t;
}
static int start_real(Task* t) {
   pthread_attr_t at;
   pthread_attr_init(&at);
   pthread_attr_setstack(&at, (void*)(STACKS + (size_t)t->id * STACK_SZ), STACK_SZ);
   Task* c = tls_task;
   if (c) c->passthrough++;
   int rc = real_pthread_create(&t->real, &at, thread_main, t);
   if (c) c->passthrough--;
   return rc;
}

EXPORT int pthread_create(pthread_t* th, const pthread_attr_t* at, void* (*fn)(void*), void* arg) {
   init_real();
   if (!SIM) return real_pthread_create(th, at, fn, arg);
   sync_point(g.cfg->p_sync);
   Task* c = g.cur;
   if (c->arm_thread) {
      int64_t v;
      if (fault(F_THREAD, &v)) return EAGAIN;
   }
   Task* t = new_task(fn, arg);
   vc_join(t->vc, c->vc);
   c->vc.c[c->id]++;
   t->sigmask = c->sigmask;
   ih(c, 15, t->id);
   int rc = start_real(t);
   if (rc) { detail("real pthread_create failed"); sim_finish(OUT_ENGINE, 5); }
   *th = sim_self_pthread(t->id);
   sync_point(g.cfg->p_sync);
   return 0;
}
static Task* by_pthread(pthread_t th) {
   uint64_t k = ((uint64_t)th - 0x7f0000001000ull) / 0x1000;
   return k < (uint64_t)g.nt ? &g.t[k] : nullptr;
}
EXPORT int pthread_join(pthread_t th, void** ret) {
   Task* t = by_pthread(th);
   sync_point(g.cfg->p_sync);
   if (!t) return ESRCH;
   if (t == g.cur) { ev(EV_NOTE, 40); return EDEADLK; }
   if (t->detached) return EINVAL;
   while (t->state != ST_DONE) block(B_JOIN, (uintptr_t)t, -1);
   vc_join(g.cur->vc, t->vc);
   t->detached = true;
   ih(g.cur, 16, t->id);
   if (ret) *ret = t->ret;
   return 0;
}
EXPORT int pthread_detach(pthread_t th) { Task* t = by_pthread(th); if (t) t->detached = true; return 0; }
EXPORT pthread_t pthread_self() {
   if (!SIM) { init_real(); return real_pthread_self(); }
   return (pthread_t)sim_self_pthread(tls_task->id);
}
EXPORT int pthread_setname_np(pthread_t, const char*) { return 0; }
EXPORT int sched_yield() noexcept {
   if (SIM) {
      if (!g.cfg->replay && g.cfg->strat == 1) g.cur->prio = g.low_prio--;   // a spinning thread must not starve the others
      Task* t = g.cur;
      sync_point(65536 / 2);
      if (t->polls < POLLS) ++t->polls;
      else block(B_SLEEP, 0, g.vnow);   // virtual time has to pass while it spins
   }
   return 0;
}

// ------------------------------------------------------------------ time
static void sleep_ns(int64_t ns) { sim_shm->st.sleeps++; block(B_SLEEP, 0, g.vnow + (ns > 0 ? ns : 0)); }
EXPORT int nanosleep(const struct timespec* ts, struct timespec* rem) {
   if (!SIM) { long r = rsys(SYS_nanosleep, (long)ts, (long)rem); if (r < 0) { errno = -r; return -1; } return 0; }
   sync_point(g.cfg->p_sync);
   sleep_ns((int64_t)ts->tv_sec * 1000000000ll + ts->tv_nsec);
   return 0;
}
EXPORT int clock_nanosleep(clockid_t c, int fl, const struct timespec* ts, struct timespec*) {
   sync_point(g.cfg->p_sync);
   if (fl & TIMER_ABSTIME) { int64_t w = abs_to_v(c, ts); sleep_ns(w - g.vnow); }
   else sleep_ns((int64_t)ts->tv_sec * 1000000000ll + ts->tv_nsec);
   return 0;
}
EXPORT int usleep(useconds_t us) { sync_point(g.cfg->p_sync); sleep_ns((int64_t)us * 1000); return 0; }
EXPORT unsigned sleep(unsigned s) { sync_point(g.cfg->p_sync); sleep_ns((int64_t)s * 1000000000ll); return 0; }
static int64_t read_clock(clockid_t c) {
   g.vnow += g.cfg->tick_ns;
   bool rt = c == CLOCK_REALTIME || c == CLOCK_REALTIME_COARSE || c == CLOCK_TAI;
   int64_t v = g.vnow + (rt ? g.rt_off : 0);
   if (c == CLOCK_REALTIME_COARSE || c == CLOCK_MONOTONIC_COARSE) v -= g.vnow % 4000000;   // as of the last timer tick
   sync_point(g.cfg->p_sync);   // a thread may lose the CPU right after reading the clock
   return v;
}
EXPORT int clock_gettime(clockid_t c, struct timespec* ts) {
   if (!SIM) { long r = rsys(SYS_clock_gettime, c, (long)ts); return r < 0 ? -1 : 0; }
   int64_t v = read_clock(c);
   ts->tv_sec = v / 1000000000ll;
   ts->tv_nsec = v % 1000000000ll;
   return 0;
}
EXPORT int gettimeofday(struct timeval* tv, void*) {
   struct timespec ts;
   clock_gettime(CLOCK_REALTIME, &ts);
   tv->tv_sec = ts.tv_sec;
   tv->tv_usec = ts.tv_nsec / 1000;
   return 0;
}
EXPORT time_t time(time_t* t) {
   struct timespec ts;
   clock_gettime(CLOCK_REALTIME_COARSE, &ts);
   if (t) *t = ts.tv_sec;
   return ts.tv_sec;
}

// ------------------------------------------------------------------ signals and process end
static void deliver(int sig) {
   Task* t = g.cur;
   struct sigaction sa = g.sigs[sig];
   if (sa.sa_handler == SIG_IGN) return;
   if (sa.sa_handler == SIG_DFL) {
      if (sig == SIGCHLD || sig == SIGURG || sig == SIGWINCH || sig == SIGCONT) return;
      sim_finish(OUT_SIGNAL, sig);
   }
   uint64_t old = t->sigmask;
   uint64_t m = 0;
   for (int i = 1; i < 65; ++i) if (sigismember(&sa.sa_mask, i) == 1) m |= 1ull << (i - 1);
   if (!(sa.sa_flags & SA_NODEFER)) m |= 1ull << (sig - 1);
   t->sigmask |= m;
   if (sa.sa_flags & SA_RESETHAND) g.sigs[sig].sa_handler = SIG_DFL;
   if (sa.sa_flags & SA_SIGINFO) {
      siginfo_t si;
      memset(&si, 0, sizeof si);
      si.si_signo = sig;
      si.si_code = SI_TKILL;
      ucontext_t uc;
      memset(&uc, 0, sizeof uc);
      sa.sa_sigaction(sig, &si, &uc);
   } else sa.sa_handler(sig);
   t->sigmask = old;
   deliver_pending();
}
static void deliver_pending() {
   Task* t = g.cur;
   uint64_t p;
   while ((p = t->sigpend & ~t->sigmask)) {
      int s = __builtin_ctzll(p) + 1;
      const uint64_t bit = 1ull << (s - 1);
      t->sigpend &= ~bit;
      const bool async = t->sigasync & bit;
      t->sigasync &= ~bit;
      if (async) { flush_err(t->id); sim_async_signal(s, true); }
      deliver(s);
      if (async) sim_async_signal(s, false);
   }
}
EXPORT int raise(int sig) {
   if (!SIM) { init_real(); return real_raise(sig); }
   sync_point(g.cfg->p_sync);
   flush_err(g.cur->id);
   ev(EV_SIGRAISE, sig);
   if (sig < 1 || sig > 64) { errno = EINVAL; return -1; }
   if (sig == SIGKILL) sim_finish(OUT_KILLED, 9);
   if (g.cur->sigmask & (1ull << (sig - 1))) { g.cur->sigpend |= 1ull << (sig - 1); return 0; }
   deliver(sig);
   return 0;
}
EXPORT int pthread_kill(pthread_t th, int sig) {
   Task* t = by_pthread(th);
   if (!t) return ESRCH;
   if (t == g.cur) { raise(sig); return 0; }
   sync_point(g.cfg->p_sync);
   if (sig < 1 || sig > 64) return sig ? EINVAL : 0;
   t->sigpend |= 1ull << (sig - 1);
   t->sigasync |= 1ull << (sig - 1);
   if (t->state == ST_BLOCK && interruptible(t->bkind) && (t->sigpend & ~t->sigmask)) make_runnable(t, false);
   return 0;
}
EXPORT int kill(pid_t pid, int sig) {
   if (!SIM) { long r = rsys(SYS_kill, pid, sig); if (r < 0) { errno = -r; return -1; } return 0; }
   return raise(sig);
}
EXPORT int tgkill(pid_t, pid_t, int sig) { return raise(sig); }
EXPORT void abort() {
   if (!SIM) { init_real(); real_abort(); __builtin_trap(); }
   g.cur->sigmask &= ~(1ull << (SIGABRT - 1));
   raise(SIGABRT);
   // handler returned: default action
   g.sigs[SIGABRT].sa_handler = SIG_DFL;
   g.sigs[SIGABRT].sa_flags = 0;
   g.cur->sigmask &= ~(1ull << (SIGABRT - 1));
   sim_finish(OUT_SIGNAL, SIGABRT);
}
EXPORT void __assert_fail(const char* e, const char* f, unsigned l, const char* fn) {
   (void)l; (void)fn;
   if (SIM) {
      cap_err("assertion failed: ", 18); cap_err(e, strlen(e)); cap_err(" in ", 4); cap_err(f, strlen(f)); cap_err("\n", 1);
      flush_err(g.cur->id);
   }
   abort();
}
EXPORT void exit(int code) {
   if (!SIM) { init_real(); real_exit(code); __builtin_trap(); }
   sync_point(g.cfg->p_sync);
   sim_finish(OUT_EXIT, code & 0xff);
}
EXPORT void _exit(int code) {
   if (!SIM) for (;;) rsys(SYS_exit_group, code);
   sim_finish(OUT_EXIT, code & 0xff);
}
EXPORT void _Exit(int code) { _exit(code); }
EXPORT void quick_exit(int code) { _exit(code); }
EXPORT int sigaction(int sig, const struct sigaction* n, struct sigaction* o) {
   if (!SIM) { init_real(); return real_sigaction(sig, n, o); }
   sync_point(g.cfg->p_sync);
   if (sig < 1 || sig > 64 || ((sig == SIGKILL || sig == SIGSTOP) && n)) { errno = EINVAL; return -1; }
   if (o) *o = g.sigs[sig];
   if (n) g.sigs[sig] = *n;
   return 0;
}
typedef void (*sh_t)(int);
EXPORT sh_t signal(int sig, sh_t h) {
   struct sigaction n, o;
   memset(&n, 0, sizeof n);
   n.sa_handler = h;
   n.sa_flags = SA_RESTART;
   if (sigaction(sig, &n, &o) < 0) return SIG_ERR;
   return o.sa_handler;
}
static int do_mask(int how, const sigset_t* s, sigset_t* o) {
   Task* t = g.cur;
   uint64_t m = 0;
   if (o) { sigemptyset(o); for (int i = 1; i < 65; ++i) if (t->sigmask & (1ull << (i - 1))) sigaddset(o, i); }
   if (s) {
      for (int i = 1; i < 65; ++i) if (sigismember(s, i) == 1) m |= 1ull << (i - 1);
      if (how == SIG_BLOCK) t->sigmask |= m; else if (how == SIG_UNBLOCK) t->sigmask &= ~m; else t->sigmask = m;
      deliver_pending();
   }
   return 0;
}
EXPORT int pthread_sigmask(int how, const sigset_t* s, sigset_t* o) { return SIM ? do_mask(how, s, o) : 0; }
EXPORT int sigprocmask(int how, const sigset_t* s, sigset_t* o) {
   if (!SIM) { long r = rsys(SYS_rt_sigprocmask, how, (long)s, (long)o, 8); return r < 0 ? -1 : 0; }
   return do_mask(how, s, o);
}
EXPORT pid_t getpid() { return SIM ? 4242 : (pid_t)rsys(SYS_getpid); }
EXPORT int backtrace(void** b, int n) {
   int k = n < 3 ? n : 3;
   for (int i = 0; i < k; ++i) b[i] = (void*)(uintptr_t)(0x1000 + i);
   return k;
}
EXPORT char** backtrace_symbols(void* const*, int n) {
   const char* txt = "simulated(_Z5framev+0x1) [0x1]";
   size_t l = strlen(txt) + 1;
   char** r = (char**)malloc(n * sizeof(char*) + l);
   if (!r) return nullptr;
   char* s = (char*)(r + n);
   memcpy(s, txt, l);
   for (int i = 0; i < n; ++i) r[i] = s;
   return r;
}

// ------------------------------------------------------------------ files
static bool path_ok(const char* p) {
   if (p[0] != '/') return strstr(p, "..") == nullptr;
   return g.cwdlen && strncmp(p, g.cwd, g.cwdlen) == 0 && p[g.cwdlen] == '/' && strstr(p, "..") == nullptr;
}
static int open_gate(const char* path) {   // 0 or errno
   sync_point(g.cfg->p_sync);
   if (!path_ok(path)) {
      // outside the scratch directory: behaves as a place we may not write to, and nothing real is touched
      sim_event_data(EV_NOTE, 100, 0, 0, 0, path, strlen(path));
      return EACCES;
   }
   int64_t v;
   if (g.fs_on && fault(F_OPENFAIL, &v)) { static const int es[] = {EACCES, ENOENT, EMFILE, ENOSPC, EIO}; return es[(uint64_t)v % 5]; }
   return 0;
}
static FILE* fopen_common(const char* path, const char* mode) {
   init_real();
   if (!SIM) return real_fopen(path, mode);
   bool wr = strpbrk(mode, "wa+") != nullptr;
   if (wr) {
      int e = open_gate(path);
      if (e) { errno = e; return nullptr; }
   }
   Task* t = g.cur;
   t->passthrough++;
   FILE* f = real_fopen(path, mode);
   t->passthrough--;
   if (f) {
      int fd = fileno(f);
      if (fd < 1024) g.fdwr[fd] = 1;
      g.open_fds++;
      if (wr) sim_event_data(EV_FILEOPEN, fd, mode[0], 0, 0, path, strlen(path));
   }
   return f;
}
EXPORT FILE* fopen(const char* path, const char* mode) { return fopen_common(path, mode); }
EXPORT FILE* fopen64(const char* path, const char* mode) { return fopen_common(path, mode); }
EXPORT int fclose(FILE* f) {
   init_real();
   if (!SIM) return real_fclose(f);
   Task* t = g.cur;
   int fd = fileno(f);
   if (fd >= 0 && fd < 1024 && g.fdwr[fd]) { g.fdwr[fd] = 0; g.open_fds--; }
   t->passthrough++;
   bool was = g.active;
   int r = real_fclose(f);
   g.active = was;
   t->passthrough--;
   return r;
}
static int open_common(const char* path, int fl, mode_t mode) {
   if (SIM && (fl & (O_WRONLY | O_RDWR | O_CREAT | O_TRUNC))) {
      int e = open_gate(path);
      if (e) { errno = e; return -1; }
   }
   long r = rsys(SYS_openat, AT_FDCWD, (long)path, fl, mode);
   if (r < 0) { errno = (int)-r; return -1; }
   if (SIM) { g.open_fds++; if (r < 1024) g.fdwr[r] = 1; if (fl & (O_WRONLY | O_RDWR)) sim_event_data(EV_FILEOPEN, r, fl & O_APPEND ? 'a' : 'w', 0, 0, path, strlen(path)); }
   return (int)r;
}
EXPORT int open(const char* path, int fl, ...) { va_list ap; va_start(ap, fl); mode_t m = va_arg(ap, mode_t); va_end(ap); return open_common(path, fl, m); }
EXPORT int open64(const char* path, int fl, ...) { va_list ap; va_start(ap, fl); mode_t m = va_arg(ap, mode_t); va_end(ap); return open_common(path, fl, m); }
EXPORT int close(int fd) {
   if (SIM && fd >= 0 && fd < 1024 && g.fdwr[fd]) { g.fdwr[fd] = 0; g.open_fds--; }
   long r = rsys(SYS_close, fd);
   if (r < 0) { errno = (int)-r; return -1; }
   return 0;
}
// decides about one write of n bytes: returns allowed length, or -errno; *torn: process dies after it
static long write_gate(size_t n, bool* torn) {
   sync_point(g.cfg->p_sync);
   *torn = false;
   if (!g.fs_on) return (long)n;
   int64_t v;
   if (g.write_fail_left > 0) { g.write_fail_left--; return -g.write_fail_errno; }
   if (fault(F_ENOSPC, &v)) { g.write_fail_left = (int)v; g.write_fail_errno = ENOSPC; 
      return -ENOSPC; }
   if (fault(F_EIO, &v)) { g.write_fail_left = (int)v; g.write_fail_errno = EIO; return -EIO; }
   if (fault(F_EINTR, &v)) return -EINTR;
   if (n > 0 && fault(F_TORN, &v)) { *torn = true; return (long)((uint64_t)v % (n + 1)); }
   if (n > 1 && fault(F_SHORTWRITE, &v)) return 1 + (long)((uint64_t)v % (n - 1));
   return (long)n;
}
EXPORT ssize_t write(int fd, const void* b, size_t n) {
   if (SIM) {
      if (fd == 1 || fd == 2) { sync_point(g.cfg->p_sync); cap_err((const char*)b, n); return (ssize_t)n; }
      bool torn;
      long k = write_gate(n, &torn);
      if (k < 0) { errno = (int)-k; return -1; }
      long r = k ? rsys(SYS_write, fd, (long)b, k) : 0;
      if (torn) sim_finish(OUT_KILLED, 9);
      if (r < 0) { errno = (int)-r; return -1; }
      return r;
   }
   long r = rsys(SYS_write, fd, (long)b, (long)n);
   if (r < 0) { errno = (int)-r; return -1; }
   return r;
}
EXPORT ssize_t writev(int fd, const struct iovec* v, int c) {
   if (SIM) {
      size_t n = 0;
      for (int i = 0; i < c; ++i) n += v[i].iov_len;
      if (fd == 1 || fd == 2) { sync_point(g.cfg->p_sync); for (int i = 0; i < c; ++i) cap_err((const char*)v[i].iov_base, v[i].iov_len); return (ssize_t)n; }
      bool torn;
      long k = write_gate(n, &torn);
      if (k < 0) { errno = (int)-k; return -1; }
      long done = 0;
      for (int i = 0; i < c && done < k; ++i) {
         long m = (long)v[i].iov_len;
         if (m > k - done) m = k - done;
         if (m) { long r = rsys(SYS_write, fd, (long)v[i].iov_base, m); if (r < 0) { if (!done) { errno = (int)-r; return -1; } break; } done += r; }
      }
      if (torn) sim_finish(OUT_KILLED, 9);
      return done;
   }
   long r = rsys(SYS_writev, fd, (long)v, c);
   if (r < 0) { errno = (int)-r; return -1; }
   return r;
}
static inline bool is_std(FILE* f) { return f == stderr || f == stdout; }
EXPORT size_t fwrite(const void* p, size_t s, size_t n, FILE* f) {
   if (SIM && is_std(f)) { sync_point(g.cfg->p_sync); cap_err((const char*)p, s * n); return n; }
   init_real();
   return real_fwrite(p, s, n, f);
}
EXPORT int fputc(int c, FILE* f) { if (SIM && is_std(f)) { char x = (char)c; cap_err(&x, 1); return (unsigned char)c; } init_real(); return real_fputc(c, f); }
#undef putc
EXPORT int putc(int c, FILE* f) { return fputc(c, f); }
EXPORT int fputs(const char* s, FILE* f) { if (SIM && is_std(f)) { cap_err(s, strlen(s)); return 1; } init_real(); return real_fputs(s, f); }
EXPORT int puts(const char* s) { if (SIM) { cap_err(s, strlen(s)); cap_err("\n", 1); return 1; } init_real(); real_fputs(s, stdout); real_fputc('\n', stdout); return 1; }
EXPORT int fflush(FILE* f) { if (SIM && (!f || is_std(f))) return 0; init_real(); return real_fflush(f); }
EXPORT void perror(const char* s) { if (SIM) { cap_err(s, strlen(s)); cap_err(": error\n", 8); return; } init_real(); real_fputs(s, stderr); real_fputc('\n', stderr); }

// changing the file system: inside the scratch directory only
static int fs_gate(const char* p) { sync_point(g.cfg->p_sync); if (path_ok(p)) return 0; sim_event_data(EV_NOTE, 101, 0, 0, 0, p, strlen(p)); return EACCES; }
#define FS1(name, decl, call, path, sysno, ...) \
   EXPORT int name decl { \
      if (SIM) { int e = fs_gate(path); if (e) { errno = e; return -1; } } \
      long r = rsys(sysno, __VA_ARGS__); \
      if (r < 0) { errno = (int)-r; return -1; } \
      return 0; }
FS1(unlink, (const char* p) noexcept, , p, SYS_unlink, (long)p)
FS1(rmdir, (const char* p) noexcept, , p, SYS_rmdir, (long)p)
FS1(mkdir, (const char* p, mode_t m) noexcept, , p, SYS_mkdir, (long)p, m)
FS1(truncate, (const char* p, off_t l) noexcept, , p, SYS_truncate, (long)p, l)
FS1(chmod, (const char* p, mode_t m) noexcept, , p, SYS_chmod, (long)p, m)
EXPORT int remove(const char* p) noexcept { int r = unlink(p); if (r < 0 && (errno == EISDIR || errno == EPERM)) r = rmdir(p); return r; }
EXPORT int rename(const char* a, const char* b) noexcept {
   if (SIM) { int e = fs_gate(a); if (!e) e = fs_gate(b); if (e) { errno = e; return -1; } }
   long r = rsys(SYS_rename, (long)a, (long)b);
   if (r < 0) { errno = (int)-r; return -1; }
   return 0;
}
EXPORT int link(const char* a, const char* b) noexcept {
   if (SIM) { int e = fs_gate(a); if (!e) e = fs_gate(b); if (e) { errno = e; return -1; } }
   long r = rsys(SYS_link, (long)a, (long)b);
   if (r < 0) { errno = (int)-r; return -1; }
   return 0;
}
EXPORT int fsync(int fd) { if (SIM) sync_point(g.cfg->p_sync); long r = rsys(SYS_fsync, fd); if (r < 0) { errno = (int)-r; return -1; } return 0; }
EXPORT int fdatasync(int fd) { if (SIM) sync_point(g.cfg->p_sync); long r = rsys(SYS_fdatasync, fd); if (r < 0) { errno = (int)-r; return -1; } return 0; }
EXPORT int pause() { if (!SIM) { rsys(SYS_pause); errno = EINTR; return -1; } for (;;) block(B_GATE, 1023, -1); }
EXPORT int poll(struct pollfd* f, nfds_t n, int ms) {
   if (SIM && n == 0) { sync_point(g.cfg->p_sync); if (ms < 0) pause(); sleep_ns((int64_t)ms * 1000000); return 0; }
   long r = rsys(SYS_poll, (long)f, (long)n, ms);
   if (r < 0) { errno = (int)-r; return -1; }
   return (int)r;
}
EXPORT int select(int n, fd_set* a, fd_set* b, fd_set* c, struct timeval* tv) {
   if (SIM && !a && !b && !c) { sync_point(g.cfg->p_sync); if (!tv) pause(); sleep_ns((int64_t)tv->tv_sec * 1000000000ll + tv->tv_usec * 1000ll); return 0; }
   long r = rsys(SYS_select, n, (long)a, (long)b, (long)c, (long)tv);
   if (r < 0) { errno = (int)-r; return -1; }
   return (int)r;
}
// ------------------------------------------------------------------ C functions that share one static buffer
// The result is in memory of the executable: readers are instrumented, so both the race and the overwriting are visible.
static struct tm sim_static_tm;
static char sim_static_ascii[64];
EXPORT struct tm* localtime(const time_t* t) {
   struct tm x;
   if (!localtime_r(t, &x)) return nullptr;
   if (SIM) { sync_point(g.cfg->p_sync); do_access((uintptr_t)&sim_static_tm, sizeof x, 1, PC); }
   sim_static_tm = x;
   if (SIM) sync_point(g.cfg->p_sync);
   return &sim_static_tm;
}
EXPORT struct tm* gmtime(const time_t* t) {
   struct tm x;
   if (!gmtime_r(t, &x)) return nullptr;
   if (SIM) { sync_point(g.cfg->p_sync); do_access((uintptr_t)&sim_static_tm, sizeof x, 1, PC); }
   sim_static_tm = x;
   if (SIM) sync_point(g.cfg->p_sync);
   return &sim_static_tm;
}
EXPORT char* asctime(const struct tm* t) {
   char x[64];
   if (!asctime_r(t, x)) return nullptr;
   if (SIM) { sync_point(g.cfg->p_sync); do_access((uintptr_t)sim_static_ascii, strlen(x) + 1, 1, PC); }
   strcpy(sim_static_ascii, x);
   if (SIM) sync_point(g.cfg->p_sync);
   return sim_static_ascii;
}
EXPORT char* ctime(const time_t* t) { struct tm* x = localtime(t); return x ? asctime(x) : nullptr; }
EXPORT size_t strftime(char* b, size_t n, const char* f, const struct tm* t) {
   init_real();
   if (SIM) do_access((uintptr_t)t, sizeof *t, 0, PC);
   return real_strftime(b, n, f, t);
}
EXPORT time_t mktime(struct tm* t) {
   init_real();
   if (SIM) do_access((uintptr_t)t, sizeof *t, 1, PC);
   return real_mktime(t);
}

// ------------------------------------------------------------------ C and C++ library functions that work on the caller's memory
// libstdc++ and libc are not instrumented: these wrappers make their accesses to strings, buffers and streams visible.
template <class T> using TI = T;
#define REALFN(type, name) static TI<type> real; if (unlikely(!real)) real = (TI<type>)dlsym(RTLD_NEXT, name)
EXPORT int vsnprintf(char* b, size_t n, const char* f, va_list ap) noexcept {
   REALFN(int (*)(char*, size_t, const char*, va_list), "vsnprintf");
   if (!SIM) return real(b, n, f, ap);
   sync_point(g.cfg->p_sync);
   int r = real(b, n, f, ap);
   size_t k = r < 0 ? 0 : (size_t)r + 1 < n ? (size_t)r + 1 : n;
   if (k) do_access((uintptr_t)b, k, 1, PC);
   sync_point(g.cfg->p_sync);
   return r;
}
EXPORT int vsprintf(char* b, const char* f, va_list ap) noexcept { return vsnprintf(b, 1u << 30, f, ap); }
EXPORT int snprintf(char* b, size_t n, const char* f, ...) noexcept {
   REALFN(int (*)(char*, size_t, const char*, va_list), "vsnprintf");
   va_list ap;
   va_start(ap, f);
   if (SIM) sync_point(g.cfg->p_sync);
   int r = real(b, n, f, ap);
   va_end(ap);
   if (SIM) { size_t k = r < 0 ? 0 : (size_t)r + 1 < n ? (size_t)r + 1 : n; if (k) do_access((uintptr_t)b, k, 1, PC); sync_point(g.cfg->p_sync); }
   return r;
}
EXPORT int sprintf(char* b, const char* f, ...) noexcept {
   REALFN(int (*)(char*, const char*, va_list), "vsprintf");
   va_list ap;
   va_start(ap, f);
   int r = real(b, f, ap);
   va_end(ap);
   if (SIM && r >= 0) { do_access((uintptr_t)b, (size_t)r + 1, 1, PC); sync_point(g.cfg->p_sync); }
   return r;
}
#define STR "_ZNSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEE"
#define OBJ_W(o, n) if (SIM) do_access((uintptr_t)(o), n, 1, PC)
#define MEM_R(p, n) if (SIM && (n)) do_access((uintptr_t)(p), n, 0, PC)
typedef void* V;
#define SYMFN(ret, cname, sym, args) ret cname args asm(sym); __attribute__((visibility("default"))) ret cname args
SYMFN(V, s_append, STR "9_M_appendEPKcm", (V s, const char* p, size_t n)) { REALFN(V (*)(V, const char*, size_t), STR "9_M_appendEPKcm"); OBJ_W(s, 16); MEM_R(p, n); return real(s, p, n); }
SYMFN(void, s_assign, STR "9_M_assignERKS4_", (V s, V o)) { REALFN(void (*)(V, V), STR "9_M_assignERKS4_"); OBJ_W(s, 16); MEM_R(o, 16); return real(s, o); }
SYMFN(V, s_replace, STR "10_M_replaceEmmPKcm", (V s, size_t a, size_t b, const char* p, size_t n)) { REALFN(V (*)(V, size_t, size_t, const char*, size_t), STR "10_M_replaceEmmPKcm"); OBJ_W(s, 16); MEM_R(p, n); return real(s, a, b, p, n); }
SYMFN(V, s_raux, STR "14_M_replace_auxEmmmc", (V s, size_t a, size_t b, size_t n, char c)) { REALFN(V (*)(V, size_t, size_t, size_t, char), STR "14_M_replace_auxEmmmc"); OBJ_W(s, 16); return real(s, a, b, n, c); }
SYMFN(void, s_erase, STR "8_M_eraseEmm", (V s, size_t a, size_t b)) { REALFN(void (*)(V, size_t, size_t), STR "8_M_eraseEmm"); OBJ_W(s, 16); return real(s, a, b); }
SYMFN(void, s_mutate, STR "9_M_mutateEmmPKcm", (V s, size_t a, size_t b, const char* p, size_t n)) { REALFN(void (*)(V, size_t, size_t, const char*, size_t), STR "9_M_mutateEmmPKcm"); OBJ_W(s, 16); if (p) MEM_R(p, n); return real(s, a, b, p, n); }
SYMFN(void, s_reserve, STR "7reserveEm", (V s, size_t n)) { REALFN(void (*)(V, size_t), STR "7reserveEm"); OBJ_W(s, 16); return real(s, n); }
SYMFN(void, s_resize, STR "6resizeEmc", (V s, size_t n, char c)) { REALFN(void (*)(V, size_t, char), STR "6resizeEmc"); OBJ_W(s, 16); return real(s, n, c); }
SYMFN(void, s_swap, STR "4swapERS4_", (V s, V o)) { REALFN(void (*)(V, V), STR "4swapERS4_"); OBJ_W(s, 16); OBJ_W(o, 16); return real(s, o); }
#define OSINS "_ZSt16__ostream_insertIcSt11char_traitsIcEERSt13basic_ostreamIT_T0_ES6_PKS3_l"
#define OSCSTR "_ZStlsISt11char_traitsIcEERSt13basic_ostreamIcT_ES5_PKc"
#define OSSTR "_ZStlsIcSt11char_traitsIcESaIcEERSt13basic_ostreamIT_T0_ES7_RKNSt7__cxx1112basic_stringIS4_S5_T1_EE"
SYMFN(V, o_ins, OSINS, (V o, const char* p, long n)) { REALFN(V (*)(V, const char*, long), OSINS); OBJ_W(o, 8); MEM_R(p, n > 0 ? (size_t)n : 0); return real(o, p, n); }
SYMFN(V, o_cstr, OSCSTR, (V o, const char* p)) { REALFN(V (*)(V, const char*), OSCSTR); OBJ_W(o, 8); if (p) MEM_R(p, strlen(p) + 1); return real(o, p); }
SYMFN(V, o_str, OSSTR, (V o, V s)) { REALFN(V (*)(V, V), OSSTR); OBJ_W(o, 8); MEM_R(s, 16); return real(o, s); }
SYMFN(V, o_int, "_ZNSolsEi", (V o, int x)) { REALFN(V (*)(V, int), "_ZNSolsEi"); OBJ_W(o, 8); return real(o, x); }
SYMFN(V, o_long, "_ZNSo9_M_insertIlEERSoT_", (V o, long x)) { REALFN(V (*)(V, long), "_ZNSo9_M_insertIlEERSoT_"); OBJ_W(o, 8); return real(o, x); }
SYMFN(V, o_ulong, "_ZNSo9_M_insertImEERSoT_", (V o, unsigned long x)) { REALFN(V (*)(V, unsigned long), "_ZNSo9_M_insertImEERSoT_"); OBJ_W(o, 8); return real(o, x); }
SYMFN(V, o_dbl, "_ZNSo9_M_insertIdEERSoT_", (V o, double x)) { REALFN(V (*)(V, double), "_ZNSo9_M_insertIdEERSoT_"); OBJ_W(o, 8); return real(o, x); }
SYMFN(V, o_put, "_ZNSo3putEc", (V o, char x)) { REALFN(V (*)(V, char), "_ZNSo3putEc"); OBJ_W(o, 8); return real(o, x); }
SYMFN(V, o_write, "_ZNSo5writeEPKcl", (V o, const char* p, long n)) { REALFN(V (*)(V, const char*, long), "_ZNSo5writeEPKcl"); OBJ_W(o, 8); MEM_R(p, n > 0 ? (size_t)n : 0); return real(o, p, n); }
SYMFN(V, o_flush, "_ZNSo5flushEv", (V o)) { REALFN(V (*)(V), "_ZNSo5flushEv"); OBJ_W(o, 8); return real(o); }

// ------------------------------------------------------------------ set-up
static void real_fault(int sig, siginfo_t* si, void* uc) {
   ucontext_t* u = (ucontext_t*)uc;
   uint64_t pc = (uint64_t)u->uc_mcontext.gregs[REG_RIP];
   if (sig == SIGALRM) { sim_finish(OUT_TIMEOUT, 0); }
   if (!g.finishing) {
      // return address guess: walk the frame pointer once for calls through a null pointer
      ev(EV_CRASH, sig, pc, (uint64_t)si->si_addr, pc < 4096 ? *(uint64_t*)u->uc_mcontext.gregs[REG_RSP] : 0);
   }
   sim_finish(OUT_CRASH, sig);
}

extern "C" void sim_exclude_global(const void* p, size_t n) {
   if (g.nex < 8) { g.ex_lo[g.nex] = (uintptr_t)p; g.ex_hi[g.nex] = (uintptr_t)p + n; g.nex++; }
}

static void* map_at(uintptr_t a, size_t n) {
   void* p = mmap((void*)a, n, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0);
   if (p != (void*)a) { const char m[] = "simulator: cannot map region\n"; rsys(SYS_write, 2, (long)m, sizeof m - 1); rsys(SYS_exit_group, 3); }
   return p;
}

EXPORT void sim_global_init() {
   init_real();
   g.glo = (uintptr_t)&__data_start & ~7ull;
   g.ghi = ((uintptr_t)&_end + 7) & ~7ull;
   map_at(ARENA, ARENA_SZ);
   map_at(STACKS, STACK_SZ * SIM_MAXT);
   for (int i = 0; i < SIM_MAXT; ++i) mprotect((void*)(STACKS + i * STACK_SZ), 4096, PROT_NONE);
   map_at(ALTSTACKS, ALT_SZ * SIM_MAXT);
   map_at(SH_ARENA, ARENA_SZ / 8 * sizeof(Cell));
   map_at(SH_STACKS, STACK_SZ * SIM_MAXT / 8 * sizeof(Cell));
   map_at(SH_GLOB, (g.ghi - g.glo) / 8 * sizeof(Cell) + 4096);
   map_at(SYNCTAB, SYNC_N * sizeof(Sync));
}

static void (*g_main_fn)();
static void* main_task(void*) { g_main_fn(); sim_finish(OUT_DONE, 0); }
static SimDecision* g_decs;

EXPORT void sim_child_run(void (*fn)()) {
   g.cfg = &sim_shm->cfg;
   g.reuse = g.cfg->params[1] != 0;
   g.rng.s = g.cfg->seed * 2 + 1;
   g.frng.s = (g.cfg->seed ^ 0xabcdef12345ull) * 3 + 7;
   g.brk = ARENA + 4096;
   g.vnow = 1000000000ll;
   g.rt_off = g.cfg->start_real - g.vnow;
   g.low_prio = -1;
   g.next_timer = INT64_MAX;
   g.stalls_on = g.cfg->frate[F_STALL] != 0;
   if (g.cfg->replay) { g.stalls_on = false; for (uint32_t i = 0; i < sim_shm->nfault_in; ++i) if (sim_shm->fault_in[i].kind == F_STALL) g.stalls_on = true; }
   g.fs_on = 1;
   if (!getcwd(g.cwd, sizeof g.cwd)) g.cwd[0] = 0;
   g.cwdlen = (int)strlen(g.cwd);
   for (int i = 1; i < 65; ++i) { memset(&g.sigs[i], 0, sizeof g.sigs[i]); }
   memset(&sim_shm->st, 0, sizeof sim_shm->st);
   sim_shm->hist_len = 0;
   sim_shm->ndec = sim_shm->nfault = sim_shm->dec_overflow = 0;
   sim_shm->outcome = OUT_NONE;
   sim_shm->detail[0] = 0;
   // replay decisions, grouped by thread (input is sorted by thread, then local point)
   g_decs = sim_shm->dec_in;
   for (uint32_t i = 0; i < sim_shm->ndec_in;) {
      uint32_t t = g_decs[i].task, j = i;
      while (j < sim_shm->ndec_in && g_decs[j].task == t) ++j;
      if (t < SIM_MAXT) { g.t[t].rd = g_decs + i; g.t[t].rd_end = g_decs + j; }
      i = j;
   }
   if (g.cfg->strat == 1) {
      g.ncp = g.cfg->pct_depth > 60 ? 60 : g.cfg->pct_depth;
      for (int i = 0; i < g.ncp; ++i) g.cps[i] = 1 + g.rng.below(g.cfg->pct_len ? g.cfg->pct_len : 1);
      for (int i = 0; i < g.ncp; ++i) for (int j = i + 1; j < g.ncp; ++j) if (g.cps[j] < g.cps[i]) { uint64_t x = g.cps[i]; g.cps[i] = g.cps[j]; g.cps[j] = x; }
   }
   if (g.cfg->reweight) g.next_reweight = g.rng.geom(g.cfg->reweight);
   struct sigaction sa;
   memset(&sa, 0, sizeof sa);
   sa.sa_sigaction = real_fault;
   sa.sa_flags = SA_SIGINFO | SA_NODEFER | SA_ONSTACK;
   real_sigaction(SIGSEGV, &sa, nullptr);
   real_sigaction(SIGBUS, &sa, nullptr);
   real_sigaction(SIGFPE, &sa, nullptr);
   real_sigaction(SIGILL, &sa, nullptr);
   real_sigaction(SIGALRM, &sa, nullptr);
   g_main_fn = fn;
   Task* t = new_task(main_task, nullptr);
   if (!g.cfg->replay) reweight();
   t->app = true;
   g.active = true;
   g.cur = t;
   t->lp_base = 0;
   set_stop();
   if (start_real(t)) rsys(SYS_exit_group, 3);
   t->baton = 1;
   rsys(SYS_futex, (long)&t->baton, FUTEX_WAKE | FUTEX_PRIVATE_FLAG, 1);
   int never = 0;
   for (;;) rsys(SYS_futex, (long)&never, FUTEX_WAIT | FUTEX_PRIVATE_FLAG, 0, 0);
}
