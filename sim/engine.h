// Deterministic simulator: shared definitions (engine <-> scenario app <-> driver).
// Plain C structs only: this header is included by instrumented and uninstrumented code.
#pragma once
#include <stddef.h>
#include <stdint.h>

enum { SIM_MAXT = 64 };                 // simulated threads per run
enum { SIM_MAXOPS = 4096, SIM_MAXUID = 1 << 17 };

// ---- fault kinds (each is counted per simulated thread, so a fault is "nth occurrence on thread t") ----
enum SimFault {
   F_SPURIOUS = 0,   // spurious condition-variable wake-up
   F_NOTIFY,         // notify_one wakes another waiter than the longest waiting one
   F_SHORTWRITE,     // write(2) accepts fewer bytes
   F_EINTR,          // write(2) interrupted
   F_ENOSPC,         // write(2) fails: value = how many further writes fail too
   F_EIO,            // the same with EIO
   F_OPENFAIL,       // open/fopen for writing fails
   F_TORN,           // process is killed in the middle of a write(2)
   F_ALLOC,          // malloc/new fails
   F_THREAD,         // pthread_create fails with EAGAIN
   F_STALL,          // running thread stalls: value ns of virtual time pass
   F_KINDS
};
extern const char* const sim_fault_names[F_KINDS];

// ---- how a run ended ----
enum SimOutcome {
   OUT_NONE = 0,
   OUT_DONE,        // scenario main returned
   OUT_EXIT,        // exit()/_exit(), code
   OUT_SIGNAL,      // terminated by simulated signal, code
   OUT_KILLED,      // simulated kill -9
   OUT_DEADLOCK,    // nobody can run, no timer pending
   OUT_HANG,        // only timers fire, no progress
   OUT_STEPCAP,     // too many steps
   OUT_CRASH,       // real memory fault in simulated code
   OUT_UAF,         // access to freed memory
   OUT_BADFREE,     // double / invalid free
   OUT_ESCAPE,      // tried to write outside the scratch directory
   OUT_TIMEOUT,     // wall-clock watchdog (inconclusive)
   OUT_ENGINE       // simulator limit reached (inconclusive)
};
extern const char* const sim_outcome_names[];

// ---- history events ----
enum SimEv {
   EV_NONE = 0,
   EV_OP_BEGIN,      // a=op kind b=op index c,d=args
   EV_OP_END,        // a=op kind b=op index c=result d
   EV_RECV,          // a=sink b=uid/kind c=flags d=timestamp(ns)      (entry of receive call)
   EV_RECV_END,      // a=sink b=uid
   EV_CALL,          // a=sink b=call id  (entry)
   EV_CALL_END,      // a=sink b=call id
   EV_SINK_CTOR, EV_SINK_DTOR, EV_SINK_DTOR_END,   // a=sink
   EV_STDERR,        // data=text
   EV_FUT,           // a=call id b=status(0 value,1 expected exception,2 bad_weak_ptr,3 other exception, 4 runtime_error) c=value
   EV_HOOK,          // a=hook id b=phase
   EV_HANDLER,       // custom fatal handler: a=uid b=signal c=flags d=level
   EV_OLDSIG,        // application's own earlier signal handler ran: a=signal
   EV_RACE,          // a=pc1 b=pc2 c=addr d=flags
   EV_UAF,           // a=pc b=addr c=write
   EV_BLOCKED,       // at deadlock/hang: a=task b=block kind
   EV_CRASH,         // a=sig b=pc c=addr
   EV_CLOCK,         // clock stepped: c=delta
   EV_SIGRAISE,      // a=signal
   EV_DISP,          // disposition probe: a=signal b=class(0 dfl,1 ign,2 app handler A,3 app handler B,9 library,+20 with other flags or mask)
   EV_RES,           // resource probe: a=threads b=fds c=live allocations d=live bytes
   EV_TASK,          // executor task ran: a=queue/executor b=id c=phase
   EV_NOTE,          // a=code ...
   EV_PROC_END,      // a=outcome b=code
   EV_FILEOPEN,      // data=path a=fd
   EV_TEXT           // free text for diagnosis
};

struct SimEvent {          // followed by datalen bytes, padded to 8
   uint32_t type, task;
   uint64_t a, b, c, d;
   int64_t mono;           // virtual monotonic ns
   int64_t real;           // virtual realtime ns
   uint32_t datalen, seq;
};

struct SimDecision { uint32_t task, target; uint64_t lp; };   // at thread `task`'s local point lp: run `target`
enum { SIM_TARGET_KILL = 0xffffu };
struct SimFaultRec { uint32_t kind, task; uint64_t nth; int64_t value; };

struct SimOp { uint16_t thread, kind; int32_t a, b, c, d, e; };

enum { SIM_MAXDEC = 1 << 18, SIM_MAXFREC = 4096 };
enum { SIM_HIST = 48 << 20 };

struct SimConfig {
   uint64_t seed;
   uint32_t replay;          // 0 explore, 1 replay decision/fault lists
   uint32_t strat;           // 0 random walk, 1 PCT
   uint32_t p_sync;          // /65536 preemption probability at sync operations
   uint32_t p_atomic;        // /65536 at atomics
   uint32_t mem_mean;        // mean number of memory points between preemptions (0 = never)
   uint32_t p_sleeper;       // /65536 chance to let time pass although others could run
   uint32_t weight_mode;     // 0 equal, 1 random weights, 2 one thread starved, 3 one thread hogging
   uint32_t reweight;        // points between re-drawing the weights (0 = never)
   uint32_t pct_depth;
   uint32_t pct_len;         // horizon for change points
   uint32_t frate[F_KINDS];  // /65536 per opportunity
   uint32_t fcap[F_KINDS];   // max per run
   uint64_t kill_at;         // kill -9 at this global point (0 = never)
   uint64_t max_points;
   uint32_t hang_idle;
   uint32_t tick_ns;
   int64_t start_real;       // ns since epoch at start
   uint32_t race_check;
   uint32_t variant;
   int32_t params[32];       // scenario parameters (see app)
};

struct SimStats {
   uint64_t points, switches, preemptions, syncops, atomics, accesses, events;
   int64_t vtime;
   uint64_t fired[F_KINDS];
   uint64_t sleeps, timer_wakes, tasks, allocs, races, reused;
   uint64_t hash;            // whole trace
   uint64_t ihash;           // interleaving signature: order of synchronisation operations per thread/object
};

// what a log statement should deliver (filled in by the app right before the statement)
struct SimExpect {
   uint32_t len;       // length of the full text
   uint16_t form, level;
   int32_t line;
   uint16_t task, func;
   uint32_t limit;     // printf-style: buffer size, else 0
   uint32_t used;      // 1 executed, 2 executed with false condition
};

struct SimShm {
   SimConfig cfg;
   uint32_t nops, ndec_in, nfault_in;
   SimOp ops[SIM_MAXOPS];
   SimDecision dec_in[SIM_MAXDEC];
   SimFaultRec fault_in[SIM_MAXFREC];
   // results
   uint32_t outcome; int32_t code;
   uint32_t ndec, nfault, dec_overflow;
   SimStats st;
   uint64_t hist_len;
   uint32_t max_uid, notext_uid;
   SimExpect exp[SIM_MAXUID];
   char detail[256];
   SimDecision dec[SIM_MAXDEC];
   SimFaultRec fault[SIM_MAXFREC];
   uint8_t hist[SIM_HIST];
};

extern "C" {
extern SimShm* sim_shm;
// driver side
void sim_global_init();                         // once per process, before forking
void sim_child_run(void (*main_fn)()) __attribute__((noreturn));   // in the forked child
// app side
int sim_self();
uint64_t sim_self_pthread(int task);
void sim_event(uint32_t type, uint64_t a, uint64_t b, uint64_t c, uint64_t d);
void sim_event_data(uint32_t type, uint64_t a, uint64_t b, uint64_t c, uint64_t d, const void* p, size_t n);
void sim_yield();
void sim_tick(int64_t ns);                               // preemption point
void sim_sleep_ns(int64_t ns);
int64_t sim_real_ns();
void sim_clock_step(int64_t delta);
void sim_gate_wait(int gate);                   // block until open (no happens-before edge)
void sim_gate_open(int gate);
void sim_counter_add(int ctr, int64_t v);       // counters for waiting on observed effects (no happens-before edge)
int64_t sim_counter(int ctr);
void sim_counter_wait(int ctr, int64_t at_least);
void sim_async_signal(int sig, bool begin);        // provided by the program: a signal from another thread is about to be handled / was handled
void sim_settle();                                  // wait until no other thread can go on by itself
void sim_arm_alloc(int on);                     // allocation faults may fire on this thread
void sim_arm_thread(int on);
void sim_fs_faults(int on);                     // file faults may fire
void sim_probe_resources();
int sim_probe_disposition(int sig);
void sim_app_disposition(int sig, const struct sigaction* sa);
void sim_register_handlers(void* hA, void* hB);
void sim_exclude_global(const void* p, size_t n);
void sim_range_read(const void* p, size_t n);   // instrumented read of a range
void sim_range_write(const void* p, size_t n);
void sim_finish(int outcome, int code) __attribute__((noreturn));
void sim_sigkill_point();
int sim_disable_alloc_tracking(int on);
int sim_is_app_task(int task);
void sim_mark_app_task();
}
