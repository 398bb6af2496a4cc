// Workload and fault-configuration generators: one seed determines one scenario.
#include "scen.h"

#include <csignal>
#include <cstring>

namespace {
const int64_t SEC = 1000000000ll;

struct G {
   R r;
   Scenario s;
   int uid = 1, call = 1;
   int nest = 0, at_exit = 0;   // percentages: statements inside statements, statements in destructors of thread_local objects
   explicit G(uint64_t seed) : r(seed) {}
   void op(int th, int kind, int a = 0, int b = 0, int c = 0, int d = 0, int e = 0) {
      SimOp o;
      o.thread = (uint16_t)th; o.kind = (uint16_t)kind;
      o.a = a; o.b = b; o.c = c; o.d = d; o.e = e;
      s.ops.push_back(o);
   }
   bool huge = false;
   int len() {
      int k = r.below(100);
      if (k < 55) return r.range(6, 60);
      if (k < 80) return r.range(60, 400);
      if (k < 90) return r.range(400, 2100);
      if (k < 95) return r.range(2040, 2056);
      if (k == 99 && !huge && r.p(6)) { huge = true; return r.pick({16384, 32768, 65535, 65536, 65537, 70000, 131072, 140001}) - r.below(3); }
      return r.range(2100, 9000);
   }
   int rep = -1, rep_lvl = 0, rep_len = 0, rep_p = 0;   // the thread that repeats a statement
   void repeat_some(int th) { rep = th; rep_lvl = r.below(5); rep_len = r.below(REPEAT_TEXTS); rep_p = r.pick({10, 40, 90}); }
   void log(int th, int lvl = -1, int form = -1, int ln = -1) {
      if (th == rep && form < 0 && lvl < 0 && r.p(rep_p)) { op(th, OP_LOG, uid++, LF_REPEAT, rep_lvl, rep_len, 1); return; }
      if (form < 0) form = r.below(LF_FORMS);
      if (lvl < 0) lvl = r.below(5);
      if (ln < 0) ln = len();
      int cond = (form == LF_STREAM_IF || form == LF_PRINTF_IF) ? !r.p(25) : 1;
      int kind = OP_LOG;
      if (at_exit && th && r.p(at_exit)) kind = OP_EXIT_LOG;
      else if (nest && form == LF_STREAM && r.p(nest)) { cond |= (uid + 1) << 1; op(th, kind, uid, form, lvl, ln, cond); uid += 2; return; }
      op(th, kind, uid++, form, lvl, ln, cond);
   }
   void burst(int th, int n, int maxlen = 60, int form = -1) {
      if (th == rep && form < 0 && r.p(rep_p)) op(th, OP_LOG_BURST, uid, LF_REPEAT, rep_lvl, rep_len, n);
      else op(th, OP_LOG_BURST, uid, form, -1, -maxlen, n);
      uid += n;
   }
   int post(int th, int slot, int kind = -1) {
      int c = call++;
      op(th, OP_CALL, slot, c, kind < 0 ? r.below(CK_KINDS) : kind);
      return c;
   }
   bool notext = false;
   int fform() {   // a fatal statement
      if (!notext && r.p(8)) { notext = true; return FF_EMPTY; }
      return r.below(FF_FORMS);
   }
   void config() {
      SimConfig& c = s.cfg;
      memset(&c, 0, sizeof c);
      c.seed = r.next() >> 1;
      c.strat = r.p(25) ? 1 : 0;
      c.p_sync = r.pick({0, 600, 3000, 8000, 20000, 45000});
      c.p_atomic = r.pick({0, 600, 3000, 20000});
      c.mem_mean = r.p(35) ? r.pick({30, 200, 2000, 20000}) : 0;
      c.p_sleeper = r.pick({0, 0, 300, 6000});
      c.weight_mode = r.below(4);
      c.reweight = r.pick({0, 2000, 20000, 200000});
      c.pct_depth = r.range(1, 8);
      c.pct_len = r.pick({20000, 100000, 400000, 1500000});
      if (r.p(60)) { c.frate[F_SPURIOUS] = r.pick({500, 4000, 16000}); c.fcap[F_SPURIOUS] = 40; }
      if (r.p(60)) { c.frate[F_NOTIFY] = r.pick({4000, 30000}); c.fcap[F_NOTIFY] = 40; }
      if (r.p(25)) { c.frate[F_STALL] = r.pick({20, 200, 1000}); c.fcap[F_STALL] = r.range(1, 12); }
      c.max_points = 80000000ull;
      c.hang_idle = 4000;
      c.tick_ns = r.pick({0, 7, 50, 1000, 20000});
      c.start_real = (r.p(10) ? (int64_t)r.range(-20000000, 1900000000) + 2147483000 : (int64_t)r.range(1000000000, 2000000000)) * SEC + r.below(1000000000);
      c.race_check = 1;
      c.params[1] = r.p(12);   // freed memory is reused at once
   }
   void light() { s.cfg.mem_mean = 0; s.cfg.strat = 0; s.cfg.race_check = 0; if (s.cfg.p_sync > 3000) s.cfg.p_sync = 3000; if (s.cfg.p_atomic > 600) s.cfg.p_atomic = 600; }
};

int file_param(G& g, int dir, int id, int every, bool same = false) { (void)g; return dir | id << 4 | every << 8 | (same ? 1 << 16 : 0); }

struct TrafficOpt {
   int workers = 1, sinks_lo = 1, sinks_hi = 4, threads_lo = 1, threads_hi = 4, logs_lo = 1, logs_hi = 10;
   int call_pct = 15, file_pct = 20, beh_pct = 35, add_pct = 0, remove_pct = 0;
   bool init = true, del = true, late_sinks = true, big_ok = true, unusual = true;
   int beh_mask = SB_MUTATE | SB_SLOW | SB_YIELD | SB_RAND | SB_SLOWDTOR;
};
int sink_beh(G& g, const TrafficOpt& o, int* param) {
   int b = 0;
   *param = 0;
   if (g.r.p(o.beh_pct)) {
      for (int k : {SB_MUTATE, SB_SLOW, SB_YIELD, SB_RAND, SB_SLOWDTOR}) if ((o.beh_mask & k) && g.r.p(35)) b |= k;
      *param = g.r.pick({1, 10, 1000, 100000, 5000000, 70000000});
   }
   return b;
}
void add_sink(G& g, int th, int slot, int w, const TrafficOpt& o, int kind = -1) {
   int p = 0;
   int b = sink_beh(g, o, &p);
   if (kind < 0) kind = g.r.p(o.file_pct) ? (g.r.p(60) ? SK_TFILE : SK_FILE) : g.r.pick({SK_MSG, SK_MSG, SK_STR, SK_LAMBDA});
   if (kind == SK_FILE) { g.s.files = true; g.op(th, OP_SINK_ADD, slot, kind, w, (g.r.p(20) ? SB_FULLDETAILS : 0) | (g.r.p(20) ? SB_HEADER : 0), g.r.below(2) + (g.r.below(3) << 4)); return; }
   if (kind == SK_TFILE) { g.s.files = true; g.op(th, OP_SINK_ADD, slot, kind, w, b & (SB_YIELD | SB_SLOWDTOR), file_param(g, g.r.below(3), g.r.below(4), g.r.pick({1, 2, 3, 7, 100}))); return; }
   if (kind == SK_MSG && g.r.p(12)) b |= SB_KEEP;
   g.op(th, OP_SINK_ADD, slot, kind, w, b, p);
}
// body of one client thread
void thread_body(G& g, int t, int nlogs, const std::vector<int>& slots, const TrafficOpt& o, std::vector<int>* pending) {
   for (int i = 0; i < nlogs; ++i) {
      int k = g.r.below(100);
      if (k < o.call_pct && !slots.empty()) {
         int c = g.post(t, slots[g.r.below((int)slots.size())]);
         if (g.r.p(50)) g.op(t, OP_GET, c); else pending->push_back(c);
      }
      if (g.r.p(8)) g.op(t, OP_YIELD, g.r.range(1, 4));
      if (g.r.p(5)) g.op(t, OP_SLEEP, g.r.pick({1, 100, 10000, 2000000}));
      if (g.r.p(4)) g.op(t, OP_CHECK_OK);
      if (g.r.p(10)) g.burst(t, g.r.range(2, 6)); else g.log(t);
   }
}
// standard scenario; returns number of threads
void traffic(G& g, const TrafficOpt& o) {
   int ns = g.r.range(o.sinks_lo, o.sinks_hi), nt = g.r.range(o.threads_lo, o.threads_hi);
   if (nt >= 4 && g.r.p(15)) nt = g.r.range(5, 13);
   bool big = o.big_ok && g.r.p(6);
   if (o.unusual) { if (g.r.p(15)) g.nest = g.r.pick({20, 60}); if (g.r.p(15)) g.at_exit = g.r.pick({15, 50}); }
   std::vector<int> slots, pending;
   g.op(0, OP_WORKER_NEW, 0);
   bool early = !o.late_sinks || g.r.p(60);
   if (!early && o.init) g.op(0, OP_WORKER_INIT, 0);
   for (int i = 0; i < ns; ++i) { add_sink(g, 0, i, 0, o); slots.push_back(i); }
   if (early && o.init) g.op(0, OP_WORKER_INIT, 0);
   for (int t = 1; t <= nt; ++t) g.op(0, OP_SPAWN, t);
   for (int t = 1; t <= nt; ++t) {
      if (big && t == 1) { g.burst(t, g.r.pick({150, 300, 600, 1200})); continue; }
      thread_body(g, t, g.r.range(o.logs_lo, o.logs_hi), slots, o, &pending);
   }
   if (g.r.p(50)) thread_body(g, 0, g.r.range(1, 5), slots, o, &pending);
   for (int t = 1; t <= nt; ++t) g.op(0, OP_JOIN, t);
   if (g.r.p(50)) g.log(0);
   for (int c : pending) if (g.r.p(70)) g.op(0, OP_GET, c);
   if (o.del) g.op(0, OP_WORKER_DEL, 0);
   if (big) g.light();
}

// a backlog much larger than usual, built up while every sink is stalled
bool huge(G& g, int permille = 2) {
   if (g.r.below(1000) >= permille) return false;
   g.s.family = 9;
   g.op(0, OP_WORKER_NEW, 0);
   int ns = g.r.range(1, 2);
   bool gate = g.r.p(70);
   for (int i = 0; i < ns; ++i) g.op(0, OP_SINK_ADD, i, g.r.pick({SK_MSG, SK_STR, SK_LAMBDA}), 0, gate ? SB_GATE : 0, 10);
   g.op(0, OP_WORKER_INIT, 0);
   int nt = g.r.range(1, 2), n = g.r.pick({5000, 9000, 10500, 17000, 20000, 33500, permille > 2 ? 70000 : 20000}) / nt;
   for (int t = 1; t <= nt; ++t) { g.op(0, OP_SPAWN, t); g.burst(t, n, 20, LF_STREAM); }
   if (g.r.p(50)) g.post(0, 0, CK_VALUE);
   for (int t = 1; t <= nt; ++t) g.op(0, OP_JOIN, t);
   for (int i = 0; i < ns && gate; ++i) g.op(0, OP_GATE_OPEN, i);
   g.op(0, OP_WORKER_DEL, 0);
   g.s.cfg.frate[F_STALL] = 0;
   g.s.cfg.tick_ns = 0;
   g.s.cfg.p_sleeper = 0;
   g.s.cfg.max_points = 600000000ull;
   g.light();
   return true;
}

// sink code that makes calls through handles, its own or another sink's; the sinks stay attached until all is quiet
// (detaching them meanwhile is for C27)
void selfcalls(G& g) {
   g.s.family = 8;
   g.op(0, OP_WORKER_NEW, 0);
   int ns = g.r.range(1, 3), nt = g.r.range(1, 3);
   for (int i = 0; i < ns; ++i) {
      g.op(0, OP_SINK_ADD, i, g.r.pick({SK_MSG, SK_STR, SK_LAMBDA}), 0, g.r.pick({SB_SELFCALL, SB_CROSSCALL, SB_SELFCALL | SB_YIELD, SB_CROSSCALL | SB_YIELD, SB_SELFCALL | SB_SELFLOG}), 1);
      g.op(0, OP_HANDLE_OVERRIDE, i);
   }
   g.op(0, OP_WORKER_INIT, 0);
   std::vector<int> cs;
   for (int t = 1; t <= nt; ++t) {
      for (int i = g.r.range(2, 8); i--;) { g.log(t, -1, LF_STREAM, g.r.range(8, 100)); if (g.r.p(30)) cs.push_back(g.post(t, g.r.below(ns))); }
      g.op(0, OP_SPAWN, t);
   }
   for (int t = 1; t <= nt; ++t) g.op(0, OP_JOIN, t);
   for (int c : cs) if (g.r.p(50)) g.op(0, OP_GET, c);
   g.op(0, OP_SETTLE);
   g.op(0, OP_WORKER_DEL, 0);
}

// very long texts
bool giant(G& g, bool file) {
   if (!g.r.p(1)) return false;
   g.s.family = 8;
   g.op(0, OP_WORKER_NEW, 0);
   if (file) {
      g.s.files = true;
      g.op(0, OP_SINK_ADD, 0, SK_TFILE, 0, 0, file_param(g, g.r.below(3), 1, g.r.pick({1, 2, 100})));
      if (g.r.p(40)) g.op(0, OP_SINK_ADD, 1, SK_FILE, 0, 0, 0);
      g.op(0, OP_SINK_ADD, 2, SK_MSG, 0, 0, 0);
   } else {
      g.op(0, OP_SINK_ADD, 0, SK_MSG, 0, g.r.p(50) ? SB_MUTATE : 0, 0);
      g.op(0, OP_SINK_ADD, 1, SK_STR, 0, 0, 0);
   }
   g.op(0, OP_WORKER_INIT, 0);
   g.op(0, OP_SPAWN, 1);
   for (int t = 0; t < 2; ++t) for (int i = g.r.range(1, 3); i--;) { g.log(t, -1, LF_STREAM, g.r.pick({16384, 32767, 32768, 65535, 65536, 65537, 70000, 131073, 300000})); if (g.r.p(40)) g.log(t); }
   g.op(0, OP_JOIN, 1);
   g.op(0, OP_WORKER_DEL, 0);
   g.light();
   return true;
}
void many_sinks(G& g) {   // more sinks than usual, little traffic
   int ns = g.r.p(20) ? g.r.range(30, 38) : g.r.range(6, 20);
   TrafficOpt o;
   o.file_pct = 10; o.beh_pct = 15;
   g.op(0, OP_WORKER_NEW, 0);
   for (int i = 0; i < ns; ++i) add_sink(g, 0, i, 0, o);
   g.op(0, OP_WORKER_INIT, 0);
   g.op(0, OP_SPAWN, 1);
   g.burst(1, g.r.range(3, 20), 400);
   g.burst(0, g.r.range(3, 20));
   g.op(0, OP_JOIN, 1);
   g.op(0, OP_WORKER_DEL, 0);
}

void gen_c01(G& g) {
   if (huge(g) || giant(g, g.r.p(40))) return;
   if (g.r.p(10)) { many_sinks(g); g.s.family = 2; return; }
   TrafficOpt o;
   if (g.r.p(20)) {   // long or boundary printf texts
      g.s.family = 1;
      g.op(0, OP_WORKER_NEW, 0);
      bool badf = g.r.p(30);
      if (badf) o.file_pct = 0;
      if (g.s.variant && g.r.p(60)) g.op(0, OP_MAXSIZE, g.r.pick({16, 64, 500, 2049, 4096, 6000}));
      add_sink(g, 0, 0, 0, o); add_sink(g, 0, 1, 0, o);
      g.op(0, OP_WORKER_INIT, 0);
      g.op(0, OP_SPAWN, 1);
      for (int t = 0; t < 2; ++t) for (int i = g.r.range(2, 6); i--;) if (badf && g.r.p(30)) g.op(t, OP_LOG, g.uid++, LF_BADF, g.r.below(5), 12, 1); else g.log(t, -1, g.r.pick({LF_PRINTF, LF_PRINTF, LF_PRINTF_IF, LF_STREAM, LF_BUFFER}), g.r.pick({2046, 2047, 2048, 2049, 2050, 15, 16, 17, 63, 64, 65, 499, 500, 501, 4095, 4096, 4097, 9000, 1024, 512}));
      g.op(0, OP_JOIN, 1);
      g.op(0, OP_WORKER_DEL, 0);
      return;
   }
   traffic(g, o);
}
void gen_c02(G& g) {
   if (huge(g)) return;
   TrafficOpt o;
   o.sinks_lo = 2; o.sinks_hi = 5; o.threads_lo = 2; o.threads_hi = 5;
   if (g.r.p(12)) { many_sinks(g); return; }
   traffic(g, o);
   // hand-overs between threads make cross-thread real-time order visible
}
void gen_c03(G& g) {
   if (huge(g)) return;
   TrafficOpt o;
   o.beh_pct = 60;
   int k = g.r.below(10);
   if (k < 2) {   // destroy right after logging, slow and gated sinks, large backlog
      g.s.family = 1;
      g.op(0, OP_WORKER_NEW, 0);
      int ns = g.r.range(1, 4);
      for (int i = 0; i < ns; ++i) g.op(0, OP_SINK_ADD, i, g.r.pick({SK_MSG, SK_STR, SK_LAMBDA}), 0, g.r.pick({SB_GATE, SB_GATE | SB_SLOWDTOR, SB_SLOW, 0}), 50);
      g.op(0, OP_WORKER_INIT, 0);
      g.op(0, OP_SPAWN, 1);
      g.burst(0, g.r.range(1, 60));
      g.op(1, OP_YIELD, g.r.range(0, 30));
      if (g.r.p(50)) g.op(1, OP_SLEEP, g.r.pick({100, 100000, 10000000}));
      for (int i = 0; i < ns; ++i) g.op(1, OP_GATE_OPEN, i);
      if (g.r.p(50)) for (int i = g.r.range(1, 3); i--;) g.post(0, g.r.below(ns));
      g.op(0, OP_WORKER_DEL, 0);
      g.op(0, OP_JOIN, 1);
      for (int i = g.r.below(3); i--;) g.log(0);
   } else if (k < 3) {   // never initialised, or shut down before
      g.s.family = 2;
      g.op(0, OP_WORKER_NEW, 0);
      add_sink(g, 0, 0, 0, o);
      g.op(0, OP_WORKER_INIT, 0);
      g.burst(0, g.r.range(1, 10));
      g.op(0, OP_SHUTDOWN);
      g.burst(0, 2);
      g.op(0, OP_WORKER_DEL, 0);
      g.burst(0, 2);
   } else { traffic(g, o); for (int i = g.r.below(3); i--;) g.log(0); }
}
void gen_c04(G& g) {
   TrafficOpt o;
   o.call_pct = 45; o.beh_pct = 60; o.file_pct = 10;
   if (g.r.p(10)) { selfcalls(g); return; }
   if (g.r.p(20)) {   // sinks removed (and destroyed) while calls are under way
      g.s.family = 1;
      g.op(0, OP_WORKER_NEW, 0);
      int ns = g.r.range(1, 3);
      for (int i = 0; i < ns; ++i) add_sink(g, 0, i, 0, o, g.r.pick({SK_MSG, SK_STR, SK_LAMBDA}));
      g.op(0, OP_WORKER_INIT, 0);
      g.op(0, OP_SPAWN, 1); g.op(0, OP_SPAWN, 2);
      for (int t = 1; t <= 2; ++t) for (int i = g.r.range(2, 8); i--;) { if (g.r.p(50)) g.post(t, g.r.below(ns)); else g.log(t); }
      for (int i = 0; i < ns; ++i) { g.op(0, OP_YIELD, g.r.range(1, 20)); if (g.r.p(20)) g.op(0, OP_SINK_HOLD, i); if (g.r.p(60)) g.op(0, OP_SINK_REMOVE, i, 0); }
      g.op(0, OP_JOIN, 1); g.op(0, OP_JOIN, 2);
      g.op(0, OP_WORKER_DEL, 0);
      return;
   }
   traffic(g, o);
}
void gen_c05(G& g) {
   int k = g.r.below(100);
   SimConfig& c = g.s.cfg;
   if (huge(g, 10)) { g.s.family = 0; return; }
   c.frate[F_STALL] = 0;
   g.op(0, OP_WORKER_NEW, 0);
   if (k < 45) {   // every sink stalled; all callers must finish first
      g.s.family = 0;
      c.tick_ns = 0;      // virtual time then passes only in timed waits
      c.p_sleeper = 0;
      int ns = g.r.range(1, 4), nt = g.r.range(1, 4);
      for (int i = 0; i < ns; ++i) g.op(0, OP_SINK_ADD, i, g.r.pick({SK_MSG, SK_STR, SK_LAMBDA}), 0, g.r.p(80) ? SB_GATE : SB_GATE | SB_CALLGATE | SB_SLOWDTOR, 10);
      g.op(0, OP_WORKER_INIT, 0);
      bool big = g.r.p(12);
      for (int t = 1; t <= nt; ++t) {
         if (big && t == 1) { g.burst(t, g.r.pick({1100, 2200, 4500}), 30); g.light(); }
         else for (int i = g.r.range(1, 8); i--;) { if (g.r.p(20)) g.burst(t, g.r.range(2, 30)); else g.log(t); if (g.r.p(20)) g.post(t, g.r.below(ns)); }
         g.op(0, OP_SPAWN, t);
      }
      for (int t = 1; t <= nt; ++t) g.op(0, OP_JOIN, t);
      for (int i = 0; i < ns; ++i) g.op(0, OP_GATE_OPEN, i);
   } else {   // one stalled sink; the others and their calls go on
      bool timed = g.r.p(60);   // virtual time then passes only in timed waits: how late do the others get theirs?
      g.s.family = timed ? 2 : 1;
      if (timed) { c.tick_ns = 0; c.p_sleeper = 0; }
      int ns = g.r.range(2, 5), st = g.r.below(ns), nt = g.r.range(1, 3);
      bool callgate = g.r.p(25);
      for (int i = 0; i < ns; ++i) g.op(0, OP_SINK_ADD, i, g.r.pick({SK_MSG, SK_STR, SK_LAMBDA}), 0, i == st ? (callgate ? SB_CALLGATE : SB_GATE) : timed ? g.r.pick({0, SB_YIELD}) : g.r.pick({0, SB_YIELD, SB_SLOW}), 10);
      g.op(0, OP_WORKER_INIT, 0);
      if (callgate) g.post(0, st, CK_VALUE);
      int n = 0;
      for (int t = 1; t <= nt; ++t) {
         g.op(0, OP_SPAWN, t);
         bool big = g.r.p(6);
         for (int i = g.r.range(1, 8); i--;) { g.log(t, -1, LF_STREAM); ++n; }
         if (big) { int m = g.r.pick({300, 1100, 2100}); g.burst(t, m, 30, LF_STREAM); n += m; g.light(); }
      }
      if (g.r.p(60)) { g.log(0, -1, LF_STREAM); ++n; }
      for (int i = 0; i < ns; ++i) if (i != st) {
         g.op(0, OP_WAIT_RECV, i, n);
         for (int j = g.r.below(3); j--;) { int c2 = g.post(0, i); g.op(0, OP_GET, c2); }
      }
      if (g.r.p(30)) { g.op(0, OP_SINK_ADD, ns, SK_MSG, 0, 0, 0); g.log(0, -1, LF_STREAM); g.op(0, OP_WAIT_RECV, ns, 1); }
      for (int t = 1; t <= nt; ++t) g.op(0, OP_JOIN, t);
      g.op(0, OP_GATE_OPEN, st);
   }
   g.op(0, OP_WORKER_DEL, 0);
}
void gen_c06(G& g) {
   TrafficOpt o;
   o.file_pct = 0; o.call_pct = 70;
   if (g.r.p(10)) { selfcalls(g); return; }
   int k = g.r.below(100);
   if (k < 30) { traffic(g, o); return; }
   g.op(0, OP_WORKER_NEW, 0);
   int ns = g.r.range(1, 4);
   if (k < 50) {   // calls behind a backlog: a stalled sink has messages handed to it, then gets calls
      g.s.family = 1;
      ns = g.r.range(2, 4);
      int st = g.r.below(ns), other = (st + 1) % ns;
      for (int i = 0; i < ns; ++i) g.op(0, OP_SINK_ADD, i, g.r.pick({SK_MSG, SK_STR, SK_LAMBDA}), 0, i == st ? SB_GATE : 0, 1);
      g.op(0, OP_WORKER_INIT, 0);
      int n = g.r.range(2, 9);
      for (int i = 0; i < n; ++i) g.log(0, -1, LF_STREAM);
      g.op(0, OP_WAIT_RECV, other, n);
      std::vector<int> cs;
      for (int i = g.r.range(1, 5); i--;) cs.push_back(g.post(0, st));
      for (int i = g.r.below(4); i--;) g.log(0, -1, LF_STREAM);
      for (int i = g.r.below(3); i--;) cs.push_back(g.post(0, st));
      g.op(0, OP_GATE_OPEN, st);
      for (int c : cs) g.op(0, OP_GET, c);
      g.op(0, OP_WORKER_DEL, 0);
      return;
   }
   g.s.family = 2;   // calls race with removal, with hold, with destruction; calls after the end
   for (int i = 0; i < ns; ++i) add_sink(g, 0, i, 0, o, g.r.pick({SK_MSG, SK_STR, SK_LAMBDA}));
   if (g.r.p(80)) g.op(0, OP_WORKER_INIT, 0);
   int nt = g.r.range(1, 3);
   std::vector<int> cs;
   for (int t = 1; t <= nt; ++t) {
      g.op(0, OP_SPAWN, t);
      for (int i = g.r.range(2, 10); i--;) {
         int c = g.post(t, g.r.below(ns));
         if (g.r.p(40)) g.op(t, OP_GET, c); else cs.push_back(c);
         if (g.r.p(25)) g.log(t);
         if (g.r.p(15)) g.op(t, OP_YIELD, 3);
      }
   }
   bool early_del = g.r.p(25);
   for (int i = 0; i < ns; ++i) {
      if (g.r.p(20)) g.op(0, OP_YIELD, g.r.range(1, 30));
      if (g.r.p(15)) g.op(0, OP_SINK_HOLD, i);
      if (!early_del && g.r.p(55)) g.op(0, OP_SINK_REMOVE, i, 0);
   }
   if (early_del && g.r.p(50)) g.op(0, OP_REMOVE_ALL, 0);
   if (g.r.p(25)) for (int i = 0; i < ns; ++i) add_sink(g, 0, 10 + i, 0, o, g.r.pick({SK_MSG, SK_STR, SK_LAMBDA}));   // perhaps where a removed one lived
   for (int t = 1; t <= nt; ++t) g.op(0, OP_JOIN, t);
   for (int i = 0; i < ns; ++i) if (g.r.p(40)) cs.push_back(g.post(0, i));
   g.op(0, OP_WORKER_DEL, 0);
   for (int i = 0; i < ns; ++i) if (g.r.p(40)) cs.push_back(g.post(0, i));
   for (int c : cs) g.op(0, OP_GET, c);
}
// sinks come and go very many times
bool churn(G& g) {
   if (g.r.below(1000) >= 15) return false;
   TrafficOpt o;
   o.beh_pct = 10; o.file_pct = 0;
   int nt = g.r.range(0, 2), n = g.r.range(25, 54), keep = g.r.pick({0, 0, 1, 5, 20});
   g.op(0, OP_WORKER_NEW, 0);
   add_sink(g, 0, 0, 0, o, SK_MSG);
   g.op(0, OP_WORKER_INIT, 0);
   for (int t = 1; t <= nt; ++t) { g.op(0, OP_SPAWN, t); for (int i = g.r.range(5, 40); i--;) { g.log(t); if (g.r.p(30)) g.op(t, OP_YIELD, g.r.range(1, 20)); } }
   for (int i = 0; i < n; ++i) {
      add_sink(g, 0, 40 + i, 0, o);
      if (g.r.p(60)) g.log(0);
      if (i >= keep) { g.op(0, OP_SINK_REMOVE, 40 + i - keep, 0); if (g.r.p(40)) g.log(0); }
   }
   for (int t = 1; t <= nt; ++t) g.op(0, OP_JOIN, t);
   g.burst(0, 2);
   g.op(0, OP_WORKER_DEL, 0);
   g.light();
   return true;
}
void gen_c07(G& g) {
   if (churn(g)) return;
   TrafficOpt o;
   o.beh_pct = 55;
   int ns = g.r.range(2, 5), nt = g.r.range(1, 3), k = g.r.below(100);
   g.op(0, OP_WORKER_NEW, 0);
   for (int i = 0; i < ns; ++i) add_sink(g, 0, i, 0, o);
   g.op(0, OP_WORKER_INIT, 0);
   for (int t = 1; t <= nt; ++t) {
      g.op(0, OP_SPAWN, t);
      int n = g.r.range(2, 10);
      for (int i = 0; i < n; ++i) {
         g.log(t);
         if (g.r.p(15)) g.op(t, OP_YIELD, 3);
         if (k >= 60 && g.r.p(15)) g.op(t, OP_REMOVE_COPY, g.r.below(ns), 0);   // several threads remove
         if (g.r.p(6)) g.post(t, g.r.below(ns));
      }
   }
   if (g.r.p(50)) g.burst(0, g.r.range(1, 20));
   for (int i = 0; i < ns; ++i) {
      if (g.r.p(40)) g.op(0, OP_YIELD, g.r.range(1, 40));
      if (g.r.p(12)) g.op(0, OP_SINK_HOLD, i);
      int z = g.r.below(100);
      if (z < 45) g.op(0, OP_SINK_REMOVE, i, 0);
      else if (z < 55) { g.op(0, OP_REMOVE_COPY, i, 0); g.op(0, OP_REMOVE_COPY, i, 0); if (g.r.p(50)) g.op(0, OP_SINK_REMOVE, i, 0); }
      else if (z < 62) { g.op(0, OP_REMOVE_ALL, 0); if (g.r.p(50)) g.op(0, OP_SINK_REMOVE, i, 0); }
      else if (z < 72) {   // the new sink may live where the removed one lived
         g.op(0, OP_REMOVE_COPY, i, 0);
         if (g.r.p(50)) g.op(0, OP_SETTLE);
         add_sink(g, 0, 30 + i, 0, o, o.file_pct && g.r.p(20) ? SK_MSG : -1);
         if (g.r.p(40)) g.log(0);
         g.op(0, OP_REMOVE_COPY, i, 0);
         if (g.r.p(50)) g.log(0);
         if (g.r.p(30)) g.op(0, OP_SINK_REMOVE, i, 0);
      }
      if (g.r.p(60)) g.log(0);
      if (g.r.p(15)) add_sink(g, 0, 20 + i, 0, o);
   }
   for (int t = 1; t <= nt; ++t) g.op(0, OP_JOIN, t);
   g.burst(0, g.r.range(0, 3));
   g.op(0, OP_WORKER_DEL, 0);
}
void gen_c08(G& g) {
   if (churn(g)) return;
   TrafficOpt o;
   o.file_pct = 10;
   int nt = g.r.range(1, 4), na = g.r.range(1, 5);
   g.op(0, OP_WORKER_NEW, 0);
   bool late = g.r.p(30);   // the first sink of all is added while messages are being logged
   if (!late) g.op(0, OP_SINK_ADD, 0, g.r.pick({SK_MSG, SK_STR}), 0, 0, 0);
   if (!late && g.r.p(40)) add_sink(g, 0, 1, 0, o);
   g.op(0, OP_WORKER_INIT, 0);
   for (int t = 1; t <= nt; ++t) {
      g.op(0, OP_SPAWN, t);
      for (int i = g.r.range(3, 14); i--;) { g.log(t, -1, LF_STREAM); if (g.r.p(15)) g.op(t, OP_YIELD, 2); }
   }
   if (late) {
      for (int i = g.r.range(0, 6); i--;) g.log(0, -1, LF_STREAM);
      if (g.r.p(40)) g.op(0, OP_YIELD, g.r.range(1, 20));
      g.op(0, OP_SINK_ADD, 0, g.r.pick({SK_MSG, SK_STR}), 0, 0, 0);
   }
   bool spread = !late && nt > 1 && g.r.p(30);
   for (int i = 0; i < na; ++i) {
      int th = spread ? 1 + g.r.below(nt) : 0;
      if (g.r.p(60)) g.op(th, OP_YIELD, g.r.range(1, 40));
      if (g.r.p(30)) g.log(th, -1, LF_STREAM);
      if (g.r.p(20)) g.op(th, OP_WAIT_EV, 40 /*CTR_LOG*/, g.r.range(1, 3));
      add_sink(g, th, 2 + i, 0, o);
      if (g.r.p(20)) g.op(th, OP_SINK_REMOVE, 2 + i, 0);
      if (g.r.p(40)) g.log(th, -1, LF_STREAM);
   }
   for (int t = 1; t <= nt; ++t) g.op(0, OP_JOIN, t);
   g.log(0);
   g.op(0, OP_WORKER_DEL, 0);
}
void sigdisp(G& g, int sig, int pct = 40) { if (g.r.p(pct)) g.op(0, OP_SIGDISP, sig, g.r.below(4)); }
const int kSig5[] = {SIGABRT, SIGFPE, SIGILL, SIGSEGV, SIGTERM};

int fatal_len(G& g) { return g.r.p(80) ? g.r.range(10, 200) : g.r.pick({500, 1023, 1024, 2047, 2048, 2049, 3900, 5000, 9000, 66000}); }
// traffic that ends in fatal events. mode bits: 1 fatal statements, 2 signals
void fatal_traffic(G& g, int mode, int nev, int hook, int handler, bool disp = false, int lives = 0) {
   TrafficOpt o;
   o.file_pct = 15; o.beh_pct = 40;
   for (int l = 0; l < lives; ++l) {   // earlier workers
      g.op(0, OP_WORKER_NEW, 4 + l);
      add_sink(g, 0, 30 + l, 4 + l, o, SK_MSG);
      g.op(0, OP_WORKER_INIT, 4 + l);
      g.burst(0, g.r.range(1, 3));
      if (g.r.p(40)) g.op(0, OP_SHUTDOWN);
      g.op(0, OP_WORKER_DEL, 4 + l);
      if (g.r.p(30)) g.log(0);
   }
   int ns = g.r.range(1, 4), nt = g.r.range(1, 4);
   if (nev > nt) nt = nev;
   if (disp) for (int s : kSig5) sigdisp(g, s);
   bool early = handler >= 0 && g.r.p(35);   // the handler is there before the first worker
   if (early) {
      g.op(0, OP_SET_HANDLER, handler);
      bool stays = handler != HD_FORWARD && handler != HD_DEFAULT && handler != HD_THROW;
      if (stays && g.r.p(30)) g.op(0, OP_FATAL, g.uid++, g.fform(), fatal_len(g));
      if (g.r.p(30)) {
         g.op(0, OP_WORKER_NEW, 2); if (g.r.p(50)) add_sink(g, 0, 9, 2, o, SK_MSG); g.op(0, OP_WORKER_INIT, 2); g.log(0);
         if (stays && g.r.p(30)) g.op(0, OP_FATAL, g.uid++, g.fform(), fatal_len(g));
         g.op(0, OP_WORKER_DEL, 2);
         if (stays && g.r.p(30)) g.op(0, OP_FATAL, g.uid++, g.fform(), fatal_len(g));
      }
   }
   g.op(0, OP_WORKER_NEW, 0);
   for (int i = 0; i < ns; ++i) add_sink(g, 0, i, 0, o);
   g.op(0, OP_WORKER_INIT, 0);
   if (disp && g.r.p(45)) for (int i = g.r.range(1, 3); i--;) g.op(0, OP_INSTALL);
   if (hook >= 0) g.op(0, OP_SET_HOOK, 1, hook, hook == HK_FATAL ? g.r.pick({FF_LOG, FF_CHECK, FF_LOGF}) : hook == HK_RAISE ? kSig5[g.r.below(5)] : g.r.pick({1, 1000, 3000000}));
   if (handler >= 0 && !early) g.op(0, OP_SET_HANDLER, handler);
   if (g.r.p(20)) { g.op(0, OP_WORKER_NEW, 1); add_sink(g, 0, 10, 1, o, SK_MSG); if (g.r.p(50)) g.op(0, OP_WORKER_DEL, 1); }
   else if (lives && g.r.p(60)) { g.op(0, OP_WORKER_NEW, 1); g.log(0); g.op(0, OP_WORKER_DEL, 1); }
   if (g.r.p(70)) g.burst(0, g.r.range(1, 6));
   std::vector<int> pend;
   std::vector<int> slots;
   for (int i = 0; i < ns; ++i) slots.push_back(i);
   bool main_fatal = nev == 1 && g.r.p(30);
   int gate = 100;
   bool sync = nev > 1 && g.r.p(50);
   if (sync) for (int t = 1; t <= nt; ++t) g.op(t, OP_GATE_WAIT, gate);
   for (int t = 1; t <= nt; ++t) {
      bool f = t <= nev && !main_fatal;
      thread_body(g, t, g.r.range(sync ? 0 : 1, sync ? 2 : 6), slots, o, &pend);
      if (f) {
         if (nev > 1 && g.r.p(25) && t > 1) g.op(t, OP_WAIT_EV, 46 /*CTR_BEGIN*/, 1);
         if (nev > 1 && g.r.p(15) && t > 1) g.op(t, OP_SLEEP, g.r.pick({10, 1000, 500000, 1500000}));
         int m = mode == 3 ? (g.r.p(50) ? 1 : 2) : mode;
         if (m == 1) g.op(t, OP_FATAL, g.uid++, g.fform(), fatal_len(g));
         else g.op(t, OP_SIGNAL, kSig5[g.r.below(5)]);
      }
      if (g.r.p(50)) g.burst(t, g.r.range(1, 5));
      g.op(0, OP_SPAWN, t);
   }
   if (sync) g.op(0, OP_GATE_OPEN, gate);
   if (!main_fatal && (handler == HD_RECORD || handler == HD_LOG || handler == HD_NESTED) && mode == 1 && g.r.p(8)) for (int i = g.r.range(3, 70); i--;) { g.op(0, OP_FATAL, g.uid++, g.fform(), fatal_len(g)); if (g.r.p(20)) g.log(0); }   // it goes on and on
   if (!main_fatal && handler >= 0 && g.r.p(25)) for (int i = g.r.range(1, 4); i--;) {   // the handler is set again while it is needed
      g.op(0, OP_YIELD, g.r.range(1, 25));
      g.op(0, OP_SET_HANDLER, handler);
   }
   if (!main_fatal && g.r.p(20)) {   // sinks come and go meanwhile
      int slot = 20;
      for (int i = g.r.range(1, 5); i--;) {
         g.op(0, OP_YIELD, g.r.range(1, 25));
         if (g.r.p(60)) { add_sink(g, 0, slot++, 0, o); if (g.r.p(40)) g.op(0, OP_SINK_REMOVE, slot - 1, 0); }
         else g.op(0, OP_SINK_REMOVE, g.r.below(ns), 0);
         if (g.r.p(40)) g.log(0);
      }
   }
   if (main_fatal) {
      if (g.r.p(60)) for (int t = 1; t <= nt; ++t) g.op(0, OP_JOIN, t);
      g.burst(0, g.r.range(0, 4));
      if (mode & 1) g.op(0, OP_FATAL, g.uid++, g.fform(), fatal_len(g));
      else g.op(0, OP_SIGNAL, kSig5[g.r.below(5)]);
   }
   for (int t = 1; t <= nt; ++t) g.op(0, OP_JOIN, t);
   g.burst(0, 2);
   g.op(0, OP_WORKER_DEL, 0);
   if (g.r.p(8)) { g.s.family = 7; }
}
// one sink is stuck when the fatal event comes; while the flush waits for it, other threads use everything there is
void held_flush(G& g, int mode) {
   g.s.family = 8;
   int ns = g.r.range(2, 4), st = g.r.below(ns), seen = (st + 1) % ns, nt = g.r.range(1, 3);
   TrafficOpt o;
   o.file_pct = 20; o.beh_pct = 20;
   g.op(0, OP_WORKER_NEW, 0);
   for (int i = 0; i < ns; ++i)
      if (i == st) g.op(0, OP_SINK_ADD, i, g.r.pick({SK_MSG, SK_STR, SK_LAMBDA}), 0, SB_GATE, 10);
      else if (i == seen) g.op(0, OP_SINK_ADD, i, g.r.pick({SK_MSG, SK_STR, SK_LAMBDA}), 0, g.r.pick({0, SB_YIELD}), 10);
      else add_sink(g, 0, i, 0, o);
   g.op(0, OP_WORKER_INIT, 0);
   g.burst(0, g.r.range(1, 8));
   bool main_dies = g.r.p(30), del = g.r.p(50);   // nobody uses the worker while somebody destroys it
   auto die = [&](int t) {
      if (mode == 1 || (mode == 3 && g.r.p(50))) g.op(t, OP_FATAL, g.uid++, g.fform(), fatal_len(g));
      else g.op(t, OP_SIGNAL, kSig5[g.r.below(5)]);
   };
   auto busy = [&](int t, bool last) {   // the flush has begun once another sink has the fatal message
      if (g.r.p(50)) g.burst(t, g.r.range(1, 3));
      g.op(t, OP_WAIT_EV, 48 /*CTR_FATALRECV*/, 1);
      if (g.r.p(40)) g.op(t, OP_SLEEP, g.r.pick({1000, 400000, 1000000}));
      for (int i = g.r.range(0, 4); i--;) {
         int z = g.r.below(100);
         if (z < 50) g.log(t);
         else if (z < 75) g.post(t, g.r.below(ns));
         else if (z < 85) g.op(t, OP_SET_HOOK, 2, HK_NONE, 0);
         else if (z < 92) g.op(t, OP_INSTALL);
         else g.op(t, OP_SHUTDOWN);
      }
      int z = g.r.below(100);
      if (del) { if (last) { g.op(t, OP_WORKER_DEL, 0); return; } }
      else if (z < 60) g.op(t, OP_SINK_REMOVE, g.r.below(ns), 0);
      else if (z < 70) g.op(t, OP_REMOVE_ALL, 0);
      else if (z < 80) add_sink(g, t, 20 + t, 0, o);
      else if (mode == 3 && z < 90) die(t);
      if (g.r.p(50)) g.log(t);
   };
   int opener = 5;
   g.op(opener, OP_SLEEP, g.r.pick({1000000, 1000000, 300000, 5000000, 20000000}));
   g.op(opener, OP_GATE_OPEN, st);
   g.op(0, OP_SPAWN, opener);
   if (main_dies) {
      for (int t = 1; t <= nt; ++t) { busy(t, t == nt); g.op(0, OP_SPAWN, t); }
      die(0);
   }
   else {
      if (g.r.p(40)) g.log(1);
      die(1);
      g.op(0, OP_SPAWN, 1);
      for (int t = 2; t <= nt; ++t) { busy(t, false); g.op(0, OP_SPAWN, t); }
      busy(0, true);
   }
   for (int t = 1; t <= nt; ++t) g.op(0, OP_JOIN, t);
   g.op(0, OP_JOIN, opener);
}
void gen_c09(G& g) {
   if (g.r.p(10)) return held_flush(g, 1);
   if (g.r.p(12)) {   // a large backlog must be flushed first
      g.s.family = 1;
      g.op(0, OP_WORKER_NEW, 0);
      g.s.files = true;
      g.op(0, OP_SINK_ADD, 0, SK_MSG, 0, g.r.pick({0, SB_SLOW, SB_RAND}), 1000);
      g.op(0, OP_SINK_ADD, 1, SK_FILE, 0, 0, 0);
      g.op(0, OP_SINK_ADD, 2, SK_TFILE, 0, 0, file_param(g, 0, 1, g.r.pick({1, 5, 100})));
      g.op(0, OP_WORKER_INIT, 0);
      g.burst(0, g.r.pick({40, 150, 260}));
      g.op(0, OP_FATAL, g.uid++, g.fform(), 60);
      g.light();
      return;
   }
   fatal_traffic(g, 1, 1, g.r.p(20) ? HK_COUNT : -1, -1);
}
// a signal from outside (or another thread) that finds its thread waiting, for itself or inside the library
void async_signal(G& g) {
   g.s.family = 10;
   TrafficOpt o;
   o.file_pct = 15; o.beh_pct = 40;
   int ns = g.r.range(1, 4), nt = g.r.range(1, 3), target = g.r.p(60) ? 0 : g.r.range(1, nt);
   std::vector<int> slots, pend;
   for (int i = 0; i < ns; ++i) slots.push_back(i);
   if (g.r.p(40)) for (int s : kSig5) sigdisp(g, s);
   g.op(0, OP_WORKER_NEW, 0);
   for (int i = 0; i < ns; ++i) add_sink(g, 0, i, 0, o);
   int st = -1;
   if (g.r.p(40)) { st = ns; g.op(0, OP_SINK_ADD, st, g.r.pick({SK_MSG, SK_STR, SK_LAMBDA}), 0, g.r.pick({SB_GATE, SB_GATE, SB_CALLGATE}), 10); }
   g.op(0, OP_WORKER_INIT, 0);
   if (g.r.p(70)) g.burst(0, g.r.range(1, 6));
   const int forever = 199;
   for (int t = 1; t <= nt; ++t) {
      thread_body(g, t, g.r.range(1, 8), slots, o, &pend);
      if (st >= 0 && g.r.p(40)) { int c = g.post(t, st); g.op(t, OP_GET, c); }
      if (t == target) g.op(t, OP_GATE_WAIT, forever);
      g.op(0, OP_SPAWN, t);
   }
   if (st >= 0) { g.op(5, OP_SLEEP, g.r.pick({10000, 1000000, 5000000})); g.op(5, OP_GATE_OPEN, st); g.op(0, OP_SPAWN, 5); }
   if (g.r.p(40)) { g.log(0, -1, LF_STREAM); g.op(6, OP_WAIT_EV, 40 /*CTR_LOG*/, 1); } else if (g.r.p(50)) g.op(6, OP_SLEEP, g.r.pick({1, 100, 5000, 200000, 2000000})); else g.op(6, OP_YIELD, g.r.range(1, 60));
   g.op(6, OP_SEND_SIGNAL, target, g.r.p(50) ? SIGTERM : kSig5[g.r.below(5)]);
   g.op(0, OP_SPAWN, 6);
   int slot = 20;
   for (int i = g.r.range(0, 6); i--;) {   // the main thread waits for the library now and then
      int z = g.r.below(100);
      if (z < 30) g.log(0);
      else if (z < 45) g.op(0, OP_SINK_REMOVE, g.r.below(st >= 0 ? ns + 1 : ns), 0);
      else if (z < 60) add_sink(g, 0, slot++, 0, o);
      else if (z < 65) g.op(0, OP_REMOVE_ALL, 0);
      else if (z < 85) { int c = g.post(0, g.r.below(st >= 0 ? ns + 1 : ns)); g.op(0, OP_GET, c); }
      else g.op(0, OP_SLEEP, g.r.pick({10, 1000, 100000}));
   }
   if (target) for (int t = 1; t <= nt; ++t) { if (t != target && g.r.p(30)) g.op(0, OP_JOIN, t); }
   if (g.r.p(40)) g.op(0, OP_JOIN, 6);
   g.op(0, OP_GATE_WAIT, forever);
}
void gen_c10(G& g) { if (g.r.p(15)) return async_signal(g); if (g.r.p(10)) return held_flush(g, 2); fatal_traffic(g, 2, 1, -1, -1, true); }
void gen_c11(G& g) { if (g.r.p(10)) return held_flush(g, 3); fatal_traffic(g, 3, g.r.p(10) ? g.r.range(5, 10) : g.r.range(2, 4), g.r.p(15) ? HK_SLEEP : -1, -1); }
void gen_c12(G& g) {
   int k = g.r.below(100);
   if (k < 55) fatal_traffic(g, 3, g.r.p(8) ? g.r.range(5, 9) : g.r.range(1, 4), g.r.pick({HK_COUNT, HK_LOG, HK_SLEEP, HK_UNSET}), -1);
   else { g.s.family = 1; fatal_traffic(g, 3, g.r.p(70) ? 1 : 2, g.r.pick({HK_FATAL, HK_RAISE}), -1); }
}
// the handler brings the application down itself: it destroys the worker and ends the process, or goes on without a logger
void closing_handler(G& g) {
   g.s.family = 9;
   TrafficOpt o;
   o.file_pct = 25; o.beh_pct = 40;
   int ns = g.r.range(1, 4), nt = g.r.range(0, 3);
   std::vector<int> slots, pend;
   g.op(0, OP_WORKER_NEW, 0);
   for (int i = 0; i < ns; ++i) { add_sink(g, 0, i, 0, o); slots.push_back(i); }
   g.op(0, OP_WORKER_INIT, 0);
   g.op(0, OP_SET_HANDLER, g.r.pick({HD_CLOSE, HD_CLOSE, HD_CLOSE_RETURN}));
   for (int t = 1; t <= nt; ++t) { thread_body(g, t, g.r.range(1, 8), slots, o, &pend); g.op(0, OP_SPAWN, t); }
   g.burst(0, g.r.range(1, 10));
   for (int t = 1; t <= nt; ++t) g.op(0, OP_JOIN, t);
   if (g.r.p(50)) g.burst(0, g.r.range(1, 10));
   if (g.r.p(60)) g.op(0, OP_FATAL, g.uid++, g.fform(), fatal_len(g));
   else g.op(0, OP_SIGNAL, kSig5[g.r.below(5)]);
   if (g.r.p(50)) g.log(0);
   g.op(0, OP_WORKER_DEL, 0);
}
void gen_c13(G& g) {
   if (g.r.p(10)) return closing_handler(g);
   int k = g.r.below(100);
   if (k < 35) fatal_traffic(g, 1, g.r.p(10) ? g.r.range(5, 9) : g.r.range(1, 4), -1, g.r.pick({HD_RECORD, HD_RECORD, HD_LOG, HD_NESTED}));
   else if (k < 55) fatal_traffic(g, 1, g.r.range(1, 4), -1, HD_THROW);
   else if (k < 75) fatal_traffic(g, 3, 1, -1, HD_FORWARD);
   else if (k < 90) fatal_traffic(g, 2, 1, -1, HD_RECORD);
   else fatal_traffic(g, 1, 1, -1, HD_DEFAULT);
}
// client threads that are running before the worker, its sinks and the initialisation exist: the only thing that
// leads them to the worker is the library itself
void early_threads(G& g, int lives) {
   TrafficOpt o;
   o.beh_pct = 25; o.file_pct = 10;
   int nt = g.r.range(1, 4), slot = 0;
   for (int t = 1; t <= nt; ++t) {
      g.op(0, OP_SPAWN, t);
      for (int i = g.r.range(2, 10); i--;) {
         g.log(t);
         if (g.r.p(25)) g.op(t, OP_YIELD, g.r.range(1, 12));
         if (g.r.p(6)) g.op(t, OP_CHECK_OK);
      }
   }
   for (int w = 0; w < lives; ++w) {
      if (g.r.p(40)) g.op(0, OP_YIELD, g.r.range(1, 12));
      g.op(0, OP_WORKER_NEW, w);
      int ns = g.r.range(1, 2);
      bool late = g.r.p(30);
      if (!late) for (int i = 0; i < ns; ++i) add_sink(g, 0, slot++, w, o);
      g.op(0, OP_WORKER_INIT, w);
      if (late) for (int i = 0; i < ns; ++i) add_sink(g, 0, slot++, w, o);
      if (g.r.p(50)) g.burst(0, g.r.range(1, 3));
      if (g.r.p(50)) g.op(0, OP_YIELD, g.r.range(1, 30));
      if (w + 1 < lives) g.op(0, OP_SHUTDOWN);   // the worker itself lives on: others may still be using it
   }
   for (int t = 1; t <= nt; ++t) g.op(0, OP_JOIN, t);
   g.burst(0, 1);
   for (int w = lives; w--;) g.op(0, OP_WORKER_DEL, w);
}
void gen_c14(G& g) {
   TrafficOpt o;
   if (g.r.p(20)) { g.repeat_some(g.r.below(2)); g.rep_p = 90; }   // the first message of all: empty, blank, of several lines, ...
   int k = g.r.below(100);
   if (k < 12) { early_threads(g, 1); g.s.family = 2; return; }
   if (k < 55) {   // several threads log before, then initialisation, then regular use, then after the end
      int nt = g.r.range(0, 3);
      g.op(0, OP_WORKER_NEW, 0);
      bool sink_first = g.r.p(60);
      if (sink_first) { add_sink(g, 0, 0, 0, o); if (g.r.p(50)) add_sink(g, 0, 1, 0, o, SK_MSG); }
      for (int t = 1; t <= nt; ++t) { for (int i = g.r.range(1, 3); i--;) g.log(t); g.op(0, OP_SPAWN, t); }
      if (g.r.p(60)) g.log(0);
      bool race = g.r.p(35);
      if (!race) for (int t = 1; t <= nt; ++t) g.op(0, OP_JOIN, t);
      g.op(0, OP_WORKER_INIT, 0);
      if (!sink_first) add_sink(g, 0, 0, 0, o);
      g.burst(0, g.r.range(0, 5));
      if (race) for (int t = 1; t <= nt; ++t) g.op(0, OP_JOIN, t);
      if (g.r.p(60)) {
         if (g.r.p(40)) g.op(0, OP_SHUTDOWN);
         g.op(0, OP_WORKER_DEL, 0);
         g.burst(0, g.r.range(1, 4));
         if (g.r.p(50)) {   // second life
            g.op(0, OP_WORKER_NEW, 1); add_sink(g, 0, 5, 1, o, SK_MSG); g.op(0, OP_WORKER_INIT, 1); g.burst(0, 3); g.op(0, OP_WORKER_DEL, 1);
         }
      }
   } else {   // fatal events without an active logger
      g.s.family = 1;
      bool before = g.r.p(50);
      if (g.r.p(40)) g.log(0);
      g.op(0, OP_WORKER_NEW, 0);
      add_sink(g, 0, 0, 0, o, SK_MSG);
      if (!before) {
         g.op(0, OP_WORKER_INIT, 0);
         g.burst(0, 3);
         if (g.r.p(50)) g.op(0, OP_SHUTDOWN); else g.op(0, OP_WORKER_DEL, 0);
      } else if (g.r.p(40)) g.op(0, OP_INSTALL);
      int nt = g.r.range(0, 2);
      for (int t = 1; t <= nt; ++t) { g.burst(t, 2); g.op(t, OP_FATAL, g.uid++, g.fform(), 30); g.op(0, OP_SPAWN, t); }
      if (nt == 0 || g.r.p(50)) { if (g.r.p(50)) g.op(0, OP_FATAL, g.uid++, g.fform(), 40); else g.op(0, OP_SIGNAL, kSig5[g.r.below(5)]); }
      for (int t = 1; t <= nt; ++t) g.op(0, OP_JOIN, t);
   }
}
void gen_c15(G& g) {
   TrafficOpt o;
   o.beh_pct = 25; o.file_pct = 10;
   if (g.r.p(15)) { g.s.family = 3; early_threads(g, g.r.range(1, 3)); return; }
   if (g.r.p(7)) { fatal_traffic(g, g.r.range(1, 2), 1, -1, -1, false, g.r.below(4)); g.s.family = 5; return; }   // the last life ends with a fatal event
   if (g.r.p(18)) {   // inactive workers are created and destroyed while another one becomes, and stops being, the active one
      g.s.family = 4;
      int nt = g.r.range(1, 3), w = 3;
      g.op(0, OP_WORKER_NEW, 0);
      add_sink(g, 0, 0, 0, o, SK_MSG);
      if (g.r.p(40)) add_sink(g, 0, 1, 0, o);
      for (int t = 1; t <= nt; ++t) {
         g.op(0, OP_SPAWN, t);
         for (int i = g.r.range(1, 3); i--;) {
            int me = w++;
            g.op(t, OP_WORKER_NEW, me);
            if (g.r.p(40)) add_sink(g, t, 4 + me, me, o, SK_MSG);
            if (g.r.p(40)) g.log(t);
            if (g.r.p(40)) g.op(t, OP_YIELD, g.r.range(1, 10));
            g.op(t, OP_WORKER_DEL, me);
            if (g.r.p(50)) g.log(t);
         }
      }
      int lives = g.r.range(1, 3);
      for (int l = 0; l < lives; ++l) {
         if (g.r.p(60)) g.op(0, OP_YIELD, g.r.range(1, 25));
         g.op(0, OP_WORKER_INIT, 0);
         g.burst(0, g.r.range(1, 4));
         if (l + 1 < lives) { if (g.r.p(60)) g.op(0, OP_YIELD, g.r.range(1, 25)); g.op(0, OP_SHUTDOWN); }
      }
      for (int t = 1; t <= nt; ++t) g.op(0, OP_JOIN, t);
      g.burst(0, 2);
      g.op(0, OP_WORKER_DEL, 0);
      return;
   }
   int k = g.r.below(100), slot = 0;
   if (k < 4) {   // a long succession
      int n = g.r.range(12, 28);
      for (int l = 0; l < n; ++l) {
         int w = l % 8;
         g.op(0, OP_WORKER_NEW, w);
         add_sink(g, 0, slot++, w, o, g.r.pick({SK_MSG, SK_STR, SK_LAMBDA}));
         g.op(0, OP_WORKER_INIT, w);
         g.burst(0, g.r.range(1, 3));
         if (g.r.p(20)) g.op(0, OP_SHUTDOWN);
         g.op(0, OP_WORKER_DEL, w);
         if (g.r.p(20)) g.burst(0, 1);
      }
   } else if (k < 35) {   // succession
      int n = g.r.range(2, 5);
      for (int w = 0; w < n; ++w) {
         g.op(0, OP_WORKER_NEW, w);
         int b = slot, ns = g.r.p(12) ? 0 : g.r.range(1, 2);
         for (int i = 0; i < ns; ++i) add_sink(g, 0, slot++, w, o);
         g.op(0, OP_WORKER_INIT, w);
         g.op(0, OP_SPAWN, w + 1);
         g.burst(w + 1, g.r.range(1, 6)); g.burst(0, g.r.range(0, 4));
         if (ns && g.r.p(40)) g.post(0, b, CK_VALUE);
         g.op(0, OP_JOIN, w + 1);
         if (g.r.p(20)) {   // it has no sinks any more when it is destroyed
            if (g.r.p(50)) g.op(0, OP_REMOVE_ALL, w); else for (int i = 0; i < ns; ++i) g.op(0, OP_SINK_REMOVE, b + i, w);
            if (g.r.p(30)) g.log(0);
         }
         if (g.r.p(25)) g.op(0, OP_SHUTDOWN);
         if (g.r.p(70)) g.op(0, OP_WORKER_DEL, w);
         else { g.op(0, OP_SHUTDOWN); }   // stays alive, but not active
         if (g.r.p(30)) g.burst(0, 2);
      }
      for (int w = 0; w < n; ++w) g.op(0, OP_WORKER_DEL, w);
   } else if (k < 75) {   // inactive workers come and go while the active one is busy
      g.s.family = 1;
      g.op(0, OP_WORKER_NEW, 0);
      add_sink(g, 0, slot++, 0, o, SK_MSG);
      if (g.r.p(50)) add_sink(g, 0, slot++, 0, o);
      g.op(0, OP_WORKER_INIT, 0);
      int nt = g.r.range(1, 3);
      for (int t = 1; t <= nt; ++t) { g.op(0, OP_SPAWN, t); for (int i = g.r.range(2, 8); i--;) { g.log(t); if (g.r.p(20)) g.op(t, OP_YIELD, 3); } }
      int n = g.r.range(1, 4);
      for (int i = 0; i < n; ++i) {
         int th = g.r.p(30) ? 1 + g.r.below(nt) : 0;
         g.op(th, OP_WORKER_NEW, 1 + i);
         if (g.r.p(70)) add_sink(g, th, 10 + i, 1 + i, o, g.r.pick({SK_MSG, SK_STR}));
         if (g.r.p(50)) g.log(th);
         g.op(th, OP_WORKER_DEL, 1 + i);
         if (g.r.p(50)) g.log(th);
      }
      for (int t = 1; t <= nt; ++t) g.op(0, OP_JOIN, t);
      g.burst(0, 2);
      g.op(0, OP_WORKER_DEL, 0);
   } else {   // illegal initialisation
      g.s.family = 2;
      g.op(0, OP_WORKER_NEW, 0);
      add_sink(g, 0, slot++, 0, o, SK_MSG);
      g.op(0, OP_WORKER_NEW, 1);
      add_sink(g, 0, slot++, 1, o, SK_MSG);
      int z = g.r.below(4);
      if (z == 0) { if (g.r.p(50)) g.op(0, OP_WORKER_INIT, 0); g.op(0, OP_WORKER_INIT, -1); }
      else if (z == 1) { g.op(0, OP_WORKER_INIT, 0); g.burst(0, 2); g.op(0, OP_WORKER_INIT, g.r.below(2)); }
      else if (z == 2) { g.op(0, OP_SPAWN, 1); g.op(1, OP_WORKER_INIT, 1); g.op(0, OP_WORKER_INIT, 0); g.op(0, OP_JOIN, 1); }
      else { g.op(0, OP_WORKER_INIT, 0); g.op(0, OP_WORKER_DEL, 1); g.op(0, OP_WORKER_NEW, 2); g.op(0, OP_WORKER_INIT, 2); }
      g.burst(0, 2);
   }
}
// one file sink plus an in-memory sink; used by the file properties
void file_base(G& g, int every_pick, int id_pick, bool with_default) {
   g.s.files = true;
   g.op(0, OP_WORKER_NEW, 0);
   int every = every_pick ? every_pick : g.r.p(90) ? g.r.pick({1, 1, 2, 3, 5, 7, 10, 50, 100, 200}) : g.r.pick({(int)EVERY_0, (int)EVERY_1000, (int)EVERY_4096, (int)EVERY_100000, (int)EVERY_MAX});
   g.op(0, OP_SINK_ADD, 0, SK_TFILE, 0, g.r.p(20) ? SB_YIELD : 0, file_param(g, g.r.below(3), id_pick, every));
   if (with_default) g.op(0, OP_SINK_ADD, 1, SK_FILE, 0, (g.r.p(15) ? SB_FULLDETAILS : 0) | (g.r.p(25) ? SB_HEADER : 0), g.r.below(3) | g.r.below(3) << 4);
   g.op(0, OP_SINK_ADD, 2, SK_MSG, 0, 0, 0);
   g.op(0, OP_WORKER_INIT, 0);
}
void file_threads(G& g, int nt, int lo, int hi) {
   for (int t = 1; t <= nt; ++t) {
      g.op(0, OP_SPAWN, t);
      for (int i = g.r.range(lo, hi); i--;) {
         if (g.r.p(15)) g.burst(t, g.r.range(2, 12)); else g.log(t);
         if (g.r.p(10)) g.op(t, OP_SLEEP, g.r.pick({10, 100000, 1200000}));
      }
   }
}
void disk_ok_faults(G& g) {
   SimConfig& c = g.s.cfg;
   if (g.r.p(50)) { c.frate[F_SHORTWRITE] = g.r.pick({5000, 30000}); c.fcap[F_SHORTWRITE] = 30; }
   if (g.r.p(50)) { c.frate[F_EINTR] = g.r.pick({5000, 25000}); c.fcap[F_EINTR] = 30; }
}
void gen_c16(G& g) {
   disk_ok_faults(g);
   if (giant(g, true)) return;
   bool longlog = g.r.p(4);
   file_base(g, longlog && g.r.p(40) ? g.r.pick({(int)EVERY_1000, (int)EVERY_4096, (int)EVERY_100000, (int)EVERY_MAX}) : 0, g.r.below(4), g.r.p(50));
   if (g.r.p(10)) { g.op(0, OP_WORKER_DEL, 0); return; }   // no message at all
   if (longlog) {   // a long log
      int nt = g.r.range(1, 3);
      for (int t = 1; t <= nt; ++t) { g.op(0, OP_SPAWN, t); g.burst(t, g.r.pick({500, 1100, 2500, 5000}) / nt, g.r.pick({20, 60, 200, 800})); }
      for (int t = 1; t <= nt; ++t) g.op(0, OP_JOIN, t);
      g.op(0, OP_WORKER_DEL, 0);
      g.light();
      return;
   }
   if (g.r.p(30)) {
      g.burst(0, g.r.pick({1, 2, 7, 10, 99, 100, 101, 199, 200, 201, 230}), g.r.pick({40, 40, 300}));
      g.light();
   } else file_threads(g, g.r.range(1, 3), 1, 10);
   for (int t = 1; t <= 3; ++t) g.op(0, OP_JOIN, t);
   if (g.r.p(20)) { if (g.r.p(50)) g.op(0, OP_SINK_REMOVE, 0, 0); else g.op(0, OP_REMOVE_ALL, 0); g.burst(0, 2); }
   g.op(0, OP_WORKER_DEL, 0);
}
void gen_c17(G& g) {
   disk_ok_faults(g);
   if (g.r.p(15)) {   // a new logger with a coinciding name
      g.s.family = 1;
      g.s.files = true;
      g.s.cfg.tick_ns = 7;
      int d = g.r.below(3);
      bool later = g.r.p(40);
      for (int w = 0; w < 2; ++w) {
         g.op(0, OP_WORKER_NEW, w);
         g.op(0, OP_SINK_ADD, w, SK_TFILE, w, 0, file_param(g, d, 1, g.r.pick({1, 3, 100}), true));
         g.op(0, OP_WORKER_INIT, w);
         g.burst(0, g.r.range(1, 8));
         g.op(0, OP_WORKER_DEL, w);
         if (later) g.op(0, OP_SLEEP, 1100000);
      }
      return;
   }
   SimConfig& c = g.s.cfg;
   if (g.r.p(30)) { c.frate[F_OPENFAIL] = g.r.pick({10000, 30000}); c.fcap[F_OPENFAIL] = 3; }
   g.op(0, OP_FS_FAULTS, 0);
   file_base(g, 0, g.r.below(4), g.r.p(30));
   g.op(0, OP_FS_FAULTS, 1);
   int nt = g.r.range(1, 3), nr = g.r.range(1, 5);
   bool many = g.r.p(2);
   if (many) nr = g.r.range(10, 40);
   file_threads(g, nt, 2, 8);
   std::vector<int> cs;
   for (int i = 0; i < nr; ++i) {
      int th = g.r.p(25) ? 1 + g.r.below(nt) : 0;
      if (g.r.p(50)) g.burst(th, g.r.range(1, 6));
      if (g.r.p(40)) g.op(th, OP_SLEEP, g.r.pick({100, 900000, 1100000, 61000000}));
      else if (g.r.p(40)) g.op(th, OP_YIELD, g.r.range(1, 20));
      int dir = g.r.pick({0, 1, 2, 1, 2, 0, 3, 4, 6, 5});
      cs.push_back(g.call);
      g.op(th, OP_ROTATE, 0, g.call++, dir, g.r.pick({0, 1, 2, 3, 4, 2, 3, 5}));
      if (g.r.p(50)) { g.op(th, OP_GET, cs.back()); cs.pop_back(); }
      if (g.r.p(40)) { cs.push_back(g.call); g.op(th, OP_FILENAME, 0, g.call++); }
   }
   g.burst(0, g.r.range(0, 5));
   if (g.r.p(3)) { g.burst(0, g.r.pick({300, 1100, 2100})); cs.push_back(g.call); g.op(0, OP_ROTATE, 0, g.call++, 1, 4); g.burst(0, g.r.pick({30, 300, 1100})); g.light(); }
   for (int t = 1; t <= nt; ++t) g.op(0, OP_JOIN, t);
   for (int x : cs) g.op(0, OP_GET, x);
   g.op(0, OP_WORKER_DEL, 0);
}
void gen_c18(G& g) {
   disk_ok_faults(g);
   SimConfig& c = g.s.cfg;
   c.p_sleeper = g.r.pick({0, 300});
   if (g.r.p(25)) { c.frate[F_TORN] = g.r.pick({1000, 6000}); c.fcap[F_TORN] = 1; }
   else g.s.kill_frac = g.r.range(1, 65535);
   bool longlog = g.r.p(4);
   file_base(g, longlog ? g.r.pick({1, 3, 20, 100, 200, (int)EVERY_1000}) : g.r.pick({1, 1, 2, 3, 5, 10, 20}), g.r.below(4), g.r.p(25));
   int nt = g.r.range(1, 3);
   if (longlog) { for (int t = 1; t <= nt; ++t) { g.op(0, OP_SPAWN, t); g.burst(t, g.r.pick({300, 1100, 2500}) / nt, g.r.pick({20, 60, 200})); } g.light(); }
   else file_threads(g, nt, 3, 12);
   for (int n = g.r.p(30) ? g.r.p(25) ? g.r.range(2, 5) : 1 : 0, i = 0; i < n; ++i) {
      if (i) { g.op(0, OP_GET, g.call - 1); g.op(0, OP_SLEEP, 1100000); }   // another name
      g.op(0, OP_YIELD, g.r.range(1, 20));
      g.op(0, OP_ROTATE, 0, g.call++, g.r.below(3), g.r.pick({2, 3, 5}));
   }
   for (int t = 1; t <= nt; ++t) g.op(0, OP_JOIN, t);
   if (g.r.p(30)) g.burst(0, g.r.range(5, 40), g.r.pick({60, 3000}));
   if (g.r.p(30)) g.op(0, OP_WAIT_RECV, 0, 1);
   if (g.r.p(50)) g.op(0, OP_WORKER_DEL, 0);
}
void gen_c19(G& g) {
   SimConfig& c = g.s.cfg;
   disk_ok_faults(g);
   int k = g.r.below(100);
   if (k < 20) {   // unusable directory at start-up
      g.s.family = 1;
      g.s.files = true;
      g.op(0, OP_WORKER_NEW, 0);
      if (g.r.p(60)) g.op(0, OP_SINK_ADD, 0, SK_TFILE, 0, 0, file_param(g, g.r.pick({3, 6, 7}), g.r.below(4), g.r.pick({1, 3, 100})));
      else g.op(0, OP_SINK_ADD, 0, SK_FILE, 0, 0, g.r.pick({3, 6, 7}) | g.r.below(3) << 4);
      g.op(0, OP_SINK_ADD, 2, SK_MSG, 0, 0, 0);
      g.op(0, OP_WORKER_INIT, 0);
      file_threads(g, 2, 1, 6);
      if (g.r.p(60)) { g.op(0, OP_FILENAME, 0, g.call); g.op(0, OP_GET, g.call++); }
      g.op(0, OP_JOIN, 1); g.op(0, OP_JOIN, 2);
      g.op(0, OP_WORKER_DEL, 0);
      return;
   }
   if (k < 30) {   // nor can the current directory be used: there is no file until the log file is changed
      g.s.family = 2;
      g.s.files = true;
      c.frate[F_OPENFAIL] = g.r.pick({65535, 65535, 40000}); c.fcap[F_OPENFAIL] = g.r.range(2, 3);
      g.op(0, OP_WORKER_NEW, 0);
      g.op(0, OP_FS_FAULTS, 1);
      g.op(0, OP_SINK_ADD, 0, SK_TFILE, 0, 0, file_param(g, g.r.below(3), g.r.below(4), g.r.pick({1, 3, 100})));
      g.op(0, OP_FS_FAULTS, 0);
      g.op(0, OP_SINK_ADD, 2, SK_MSG, 0, 0, 0);
      g.op(0, OP_WORKER_INIT, 0);
      file_threads(g, 2, 1, 6);
      if (g.r.p(50)) { g.op(0, OP_FILENAME, 0, g.call); g.op(0, OP_GET, g.call++); }
      if (g.r.p(70)) {
         g.op(0, OP_YIELD, g.r.range(1, 30));
         g.op(0, OP_SLEEP, 1100000);
         g.op(0, OP_ROTATE, 0, g.call, 1, 5);
         g.op(0, OP_GET, g.call++);
         g.burst(0, g.r.range(1, 12), 300);
      }
      g.op(0, OP_JOIN, 1); g.op(0, OP_JOIN, 2);
      g.op(0, OP_WORKER_DEL, 0);
      return;
   }
   int f = g.r.below(3);
   if (f != 1) { c.frate[F_ENOSPC] = g.r.pick({3000, 12000}); c.fcap[F_ENOSPC] = g.r.range(1, 4); }
   if (f != 0) { c.frate[F_EIO] = g.r.pick({3000, 12000}); c.fcap[F_EIO] = g.r.range(1, 4); }
   if (g.r.p(40)) { c.frate[F_OPENFAIL] = 25000; c.fcap[F_OPENFAIL] = 3; }
   g.op(0, OP_FS_FAULTS, 0);
   file_base(g, g.r.pick({1, 1, 2, 5, 100}), g.r.below(4), g.r.p(30));
   g.op(0, OP_SPAWN, 1);
   g.op(0, OP_SPAWN, 2);
   g.op(0, OP_FS_FAULTS, 1);
   for (int t = 1; t <= 2; ++t) for (int i = g.r.range(3, 12); i--;) { if (g.r.p(15)) g.burst(t, g.r.range(2, 10), 400); else g.log(t); if (g.r.p(10)) { g.post(t, 0, CK_VALUE); } }
   for (int i = g.r.below(3); i--;) { g.op(0, OP_YIELD, g.r.range(1, 30)); g.op(0, OP_ROTATE, 0, g.call++, g.r.pick({0, 1, 2, 3, 6}), g.r.pick({1, 2, 3, 5})); }
   if (g.r.p(15)) {   // a fatal event while the disk fails
      g.s.family = 3;
      if (g.r.p(50)) { g.op(0, OP_JOIN, 1); g.op(0, OP_JOIN, 2); } else g.op(0, OP_YIELD, g.r.range(1, 40));
      if (g.r.p(50)) g.burst(0, g.r.range(1, 5));
      if (g.r.p(50)) g.op(0, OP_FATAL, g.uid++, g.fform(), fatal_len(g));
      else g.op(0, OP_SIGNAL, kSig5[g.r.below(5)]);
      return;
   }
   g.op(0, OP_JOIN, 1); g.op(0, OP_JOIN, 2);
   if (g.r.p(70)) {   // faults stop; change to a healthy file: everything after it must be there
      g.op(0, OP_FS_FAULTS, 0);
      g.op(0, OP_SLEEP, 2100000);
      g.op(0, OP_ROTATE, 0, g.call, 1, 5);
      g.op(0, OP_GET, g.call++);
      g.burst(0, g.r.range(2, 20), 300);
   }
   g.op(0, OP_WORKER_DEL, 0);
}
void gen_c20(G& g) {
   g.s.cfg.params[0] = 1;
   g.s.cfg.tick_ns = g.r.pick({50, 1000, 20000, 300000});
   SimConfig& c = g.s.cfg;
   if (g.r.p(50)) { c.frate[F_STALL] = g.r.pick({200, 1000, 3000}); c.fcap[F_STALL] = g.r.range(1, 12); }
   int ns = g.r.range(1, 3), nt = g.r.range(1, 3);
   g.op(0, OP_WORKER_NEW, 0);
   if (g.r.p(30)) g.op(0, OP_CLOCK_STEP, g.r.pick({-86400000, 3600000, -5, 700}));
   for (int i = 0; i < ns; ++i) {
      int kind = g.r.pick({SK_MSG, SK_STR, SK_LAMBDA, SK_MSG, SK_TFILE, SK_FILE});
      if (kind >= SK_FILE) g.s.files = true;
      if (kind == SK_TFILE) g.op(0, OP_SINK_ADD, i, kind, 0, 0, file_param(g, 0, 1, g.r.pick({1, 3, 100})));
      else if (kind == SK_FILE) g.op(0, OP_SINK_ADD, i, kind, 0, 0, 0x10);
      else g.op(0, OP_SINK_ADD, i, kind, 0, g.r.pick({0, SB_SLOW, SB_RAND}), g.r.pick({10, 100000, 30000000}));
   }
   g.op(0, OP_WORKER_INIT, 0);
   for (int t = 1; t <= nt; ++t) {
      g.op(0, OP_SPAWN, t);
      for (int i = g.r.range(2, 8); i--;) { g.log(t, -1, -1, g.r.range(8, 80)); if (g.r.p(30)) g.op(t, OP_SLEEP, g.r.pick({1, 1000, 999999, 5000000})); }
   }
   for (int i = g.r.below(4); i--;) { g.op(0, OP_YIELD, g.r.range(1, 30)); if (g.r.p(40)) g.op(0, OP_SLEEP, g.r.pick({10, 1000000})); g.op(0, OP_CLOCK_STEP, g.r.pick({-3600000, 3600000, -1, 1, 86400000, -2500, 999})); if (g.r.p(50)) g.log(0, -1, -1, 20); }
   for (int t = 1; t <= nt; ++t) g.op(0, OP_JOIN, t);
   g.op(0, OP_WORKER_DEL, 0);
}
void gen_c21(G& g) {
   g.s.variant = 1;
   TrafficOpt o;
   o.file_pct = 0; o.beh_pct = 10;
   int nt = g.r.range(1, 4);
   g.op(0, OP_WORKER_NEW, 0);
   add_sink(g, 0, 0, 0, o, SK_MSG);
   if (g.r.p(30)) add_sink(g, 0, 1, 0, o, SK_STR);
   if (g.r.p(70)) g.op(0, OP_LEVEL, LA_ADD, LV_CUSTOM, g.r.below(2), g.r.below(2));
   if (g.r.p(50)) g.op(0, OP_LEVEL, LA_ADD, LV_CUSTOM2, g.r.below(2), g.r.below(2));
   if (g.r.p(10)) g.op(0, OP_LEVEL, LA_ADD, g.r.below(3), g.r.below(2), g.r.below(2));   // one there already
   if (g.r.p(15)) g.op(0, OP_LEVEL, LA_RESET);
   g.op(0, OP_WORKER_INIT, 0);
   // mostly about one level, so that what becomes of a change shows in the next statements
   int focus = g.r.p(45) ? g.r.below(5) : -1;
   if (focus >= 0) g.s.cfg.p_atomic = g.r.pick({600, 3000, 12000, 20000});
   auto level = [&] { return focus >= 0 && g.r.p(85) ? focus : g.r.below(5); };
   auto act = [&](int t) {
      if (focus >= 0 && g.r.p(75)) { g.op(t, OP_LEVEL, g.r.pick({LA_ENABLE, LA_DISABLE, LA_ENABLE, LA_DISABLE, LA_SET}), focus, g.r.below(2)); return; }
      int a = g.r.pick({LA_ENABLE, LA_DISABLE, LA_ENABLE, LA_DISABLE, LA_SETHIGHEST, LA_DISABLEALL, LA_ENABLEALL, LA_STATUS, LA_QUERY, LA_TOSTRING, LA_GETALL, LA_SET});
      g.op(t, OP_LEVEL, a, g.r.p(8) && a != LA_ADD ? -1 : g.r.below(a == LA_STATUS || a == LA_QUERY ? 6 : 6), g.r.below(2));
   };
   int conc = g.r.below(3);   // 0: only main changes levels, before and after; 1: main changes during; 2: everybody
   for (int i = g.r.below(4); i--;) act(0);
   for (int t = 1; t <= nt; ++t) {
      g.op(0, OP_SPAWN, t);
      for (int i = g.r.range(2, focus >= 0 ? 14 : 8); i--;) {
         if (conc == 2 && g.r.p(35)) act(t);
         if (g.r.p(5)) g.op(t, OP_FATAL, g.uid++, FF_LOG, 20);   // only reached when FATAL is disabled, see below
         g.log(t, level(), -1, g.r.range(8, 60));
      }
   }
   // fatal statements are kept only where the level is certainly disabled: drop them, they have their own family
   for (auto& x : g.s.ops) if (x.kind == OP_FATAL) x.kind = OP_NOP;
   if (conc) for (int i = g.r.range(1, 6); i--;) { act(0); if (g.r.p(50)) g.op(0, OP_YIELD, g.r.range(1, 10)); if (g.r.p(60)) g.log(0, level(), -1, 20); }
   for (int t = 1; t <= nt; ++t) g.op(0, OP_JOIN, t);
   for (int i = g.r.below(4); i--;) { act(0); g.log(0, level(), -1, 20); }
   if (g.r.p(10)) {
      g.op(0, OP_LEVEL, LA_DISABLE, LV_FATAL);
      g.op(0, OP_FATAL, g.uid++, g.r.pick({FF_LOG, FF_LOGF, FF_LOGIF}), 20);
      g.op(0, OP_LEVEL, LA_ENABLE, LV_FATAL);
   }
   g.op(0, OP_LEVEL, LA_GETALL);
   g.op(0, OP_WORKER_DEL, 0);
}
void gen_c23(G& g) {
   // the same programme over and over again; what remains after one cycle must not differ from the next
   int nt = g.r.pick({0, 0, 1, 2}), ns = g.r.range(1, 3), cycles = g.r.range(4, nt ? 5 : 6);
   g.s.cfg.frate[F_STALL] = 0;
   uint64_t rs = g.r.next();
   g.s.files = true;
   if (g.r.p(15)) g.nest = 30;
   if (g.r.p(15)) g.at_exit = 30;
   if (g.rep > 0) g.rep = 0;
   bool big = g.r.p(4);
   for (int c = 0; c < cycles; ++c) {
      R& q = g.r;
      q = R(rs);
      g.op(0, OP_WORKER_NEW, 0);
      bool init = q.p(85), late = q.p(20);
      if (init && late) g.op(0, OP_WORKER_INIT, 0);
      int s0 = c * 4;
      for (int i = 0; i < ns; ++i) {
         int kind = q.pick({SK_MSG, SK_STR, SK_LAMBDA, SK_FILE, SK_TFILE}), slot = s0 + i;
         int every = q.pick({1, 4, 100, (int)EVERY_1000}), dir = q.pick({0, 1, 2, 0, 1, 2, 3, 6}), beh = q.pick({0, SB_YIELD, SB_SLOW, SB_MUTATE, SB_SLOWDTOR});
         g.op(0, OP_SINK_ADD, slot, kind, 0, kind >= SK_FILE ? 0 : beh, kind == SK_TFILE ? file_param(g, dir, 1, every) : kind == SK_FILE ? (dir | 1 << 4) : 10);
      }
      if (init && !late) g.op(0, OP_WORKER_INIT, 0);
      int c1 = g.call;
      for (int t = 1; t <= nt; ++t) {
         int th = c * nt + t;
         for (int n = q.range(1, 8); n--;) { if (q.p(25)) g.post(th, s0 + q.below(ns)); else if (q.p(10)) g.op(th, OP_CHECK_OK); else g.log(th); }
         if (q.p(10)) g.op(th, OP_REMOVE_COPY, s0 + q.below(ns), 0);
         for (int i = 0; i < ns; ++i) g.op(th, OP_HANDLE_DROP, s0 + i);
         g.op(0, OP_SPAWN, th);
      }
      if (big) g.burst(0, q.pick({300, 1500}), 40);
      for (int n = q.range(1, 6); n--;) {
         int k = q.below(10), slot = s0 + q.below(ns);
         if (k < 4) g.log(0);
         else if (k < 5) g.burst(0, q.range(1, 8));
         else if (k < 8) { g.post(0, slot); if (q.p(40)) g.op(0, OP_GET, g.call - 1); }
         else if (k < 9) g.op(0, OP_ROTATE, slot, g.call++, q.pick({0, 1, 2, 3, 6}), 2);
         else if (q.p(50)) g.op(0, OP_SINK_REMOVE, slot, 0);
         else g.op(0, OP_CHECK_OK);
      }
      if (q.p(20)) { g.op(0, OP_REMOVE_ALL, 0); g.burst(0, q.range(0, 2)); if (q.p(50)) g.post(0, s0); }
      bool down = q.p(20), join_late = !down && q.p(30);   // whether a thread logs after the shutdown must not vary: the first such message is kept
      if (!join_late) for (int t = 1; t <= nt; ++t) g.op(0, OP_JOIN, c * nt + t);
      if (down) g.op(0, OP_SHUTDOWN);
      bool drop_first = q.p(20);
      if (drop_first) for (int i = 0; i < ns; ++i) g.op(0, OP_HANDLE_DROP, s0 + i);
      if (join_late) for (int t = 1; t <= nt; ++t) g.op(0, OP_JOIN, c * nt + t);
      g.op(0, OP_WORKER_DEL, 0);
      if (q.p(40)) g.post(0, s0 + q.below(ns));   // no sink left to be called
      for (int x = c1; x < g.call; ++x) g.op(0, OP_GET, x);
      for (int i = 0; i < ns; ++i) g.op(0, OP_HANDLE_DROP, s0 + i);
      if (q.p(30)) g.burst(0, 1);
      g.op(0, OP_PROBE_RES, c);
   }
   if (big) g.light();
}
void gen_c24(G& g) {
   int n = g.r.range(2, 9);
   uint32_t handled = 0, set = 31;   // bits over kOver
   static const int over[] = {SIGABRT, SIGFPE, SIGILL, SIGSEGV, SIGTERM, SIGUSR1, SIGUSR2, SIGHUP};
   bool inited = false;
   if (g.r.p(15)) {   // several threads override the set at the same time
      g.s.family = 1;
      for (int b = 0; b < 8; ++b) if (g.r.p(40)) g.op(0, OP_SIGDISP, over[b], g.r.below(4), g.r.below(32));
      if (g.r.p(60)) { g.op(0, OP_WORKER_NEW, 0); g.op(0, OP_SINK_ADD, 0, SK_MSG, 0, 0, 0); g.op(0, OP_WORKER_INIT, 0); }
      int nt = g.r.range(2, 3);
      for (int t = 1; t <= nt; ++t) {
         for (int i = g.r.range(1, 3); i--;) { if (g.r.p(85)) g.op(t, OP_OVERRIDE, g.r.p(15) ? 0 : (int)((uint32_t)g.r.next() & (uint32_t)g.r.pick({255, 31, 224, 15}))); else g.op(t, OP_RESTORE_DEFAULT); }
         g.op(0, OP_SPAWN, t);
      }
      for (int t = 1; t <= nt; ++t) g.op(0, OP_JOIN, t);
      g.op(0, OP_PROBE_DISP);
      if (g.r.p(50)) g.op(0, OP_FATAL, g.uid++, g.fform(), 20);
      return;
   }
   if (g.r.p(20)) {   // the set is changed while a fatal event ends the process
      g.s.family = 2;
      TrafficOpt o;
      o.file_pct = 0; o.beh_pct = 25;
      g.op(0, OP_WORKER_NEW, 0);
      add_sink(g, 0, 0, 0, o);
      g.op(0, OP_WORKER_INIT, 0);
      int nt = g.r.range(1, 3);
      for (int t = 1; t <= nt; ++t) {
         for (int i = g.r.range(2, 14); i--;) {
            int z = g.r.below(100);
            if (z < 60) g.op(t, OP_OVERRIDE, (int)((uint32_t)g.r.next() & (uint32_t)g.r.pick({255, 31, 224, 15})));
            else if (z < 75) g.op(t, OP_RESTORE_DEFAULT);
            else if (z < 95) g.op(t, OP_INSTALL);
            else g.op(t, OP_RESTORE_SIG, over[g.r.below(5)]);
            if (g.r.p(25)) g.log(t, -1, -1, 30);
         }
         g.op(0, OP_SPAWN, t);
      }
      if (g.r.p(60)) g.burst(0, g.r.range(1, 4));
      if (g.r.p(50)) g.op(0, OP_YIELD, g.r.range(1, 30));
      if (g.r.p(50)) g.op(0, OP_FATAL, g.uid++, g.fform(), 20); else g.op(0, OP_SIGNAL, over[g.r.below(5)]);
      return;
   }
   for (int i = 0; i < n; ++i) {
      switch (g.r.below(8)) {
      case 0: case 1: {
         int b = g.r.below(8);
         bool taken = handled >> b & 1;   // a signal taken from the logger: only with another installation right after
         if (taken && !g.r.p(30)) break;
         g.op(0, OP_SIGDISP, over[b], g.r.below(4), g.r.below(32));
         if (taken) { g.op(0, OP_INSTALL); handled |= set; }
         break;
      }
      case 2: g.op(0, OP_INSTALL); handled |= set; break;
      case 3: case 4: { uint32_t m = g.r.p(20) ? 0 : (uint32_t)g.r.next() & (uint32_t)g.r.pick({255, 31, 224, 15}); g.op(0, OP_OVERRIDE, (int)m); set = handled = m; break; }
      case 5: g.op(0, OP_RESTORE_DEFAULT); set = handled = 31; break;
      case 6: { int b = g.r.below(8); g.op(0, OP_RESTORE_SIG, over[b]); handled &= ~(1u << b); break; }
      default:
         if (!inited) { inited = true; g.op(0, OP_WORKER_NEW, 0); g.op(0, OP_SINK_ADD, 0, SK_MSG, 0, 0, 0); g.op(0, OP_WORKER_INIT, 0); handled |= set; }
      }
      if (g.r.p(50)) g.op(0, OP_PROBE_DISP);
   }
   g.op(0, OP_PROBE_DISP);
   if (!inited && g.r.p(70)) { inited = true; g.op(0, OP_WORKER_NEW, 0); g.op(0, OP_SINK_ADD, 0, SK_MSG, 0, 0, 0); g.op(0, OP_WORKER_INIT, 0); handled |= set; g.op(0, OP_PROBE_DISP); }
   if (g.r.p(60)) {
      if (inited) g.log(0, -1, -1, 20);
      int th = g.r.p(40) ? 1 : 0;
      if (g.r.p(40) && inited) g.op(th, OP_FATAL, g.uid++, g.fform(), 20);
      else { int b = g.r.below(8); if (handled >> b & 1) g.op(th, OP_SIGNAL, over[b]); }
      if (th) { g.op(0, OP_SPAWN, 1); g.op(0, OP_JOIN, 1); }
   }
}
void gen_c25(G& g) {
   int k = g.r.below(100), nt = g.r.range(1, 4);
   if (k < 55) {
      int nx = g.r.range(1, 2);
      std::vector<int> all;
      for (int x = 0; x < nx; ++x) g.op(0, OP_EX_NEW, x);
      auto body = [&](int t, int n) {
         for (int i = 0; i < n; ++i) {
            int x = g.r.below(nx), id = g.call++;
            int nest = g.r.p(15) ? g.call++ : 0;
            if (g.r.p(45)) g.op(t, OP_EX_SEND, x, id, nest);
            else { g.op(t, OP_EX_SPAWN, x, id, g.r.below(5), nest); if (g.r.p(40)) g.op(t, OP_EX_GET, id); else all.push_back(id); }
            if (g.r.p(5)) { g.op(t, OP_EX_NULL, g.call); g.op(t, OP_EX_GET, g.call++); }
         }
      };
      bool big = g.r.p(5);
      for (int t = 1; t <= nt; ++t) { g.op(0, OP_SPAWN, t); body(t, big ? 120 : g.r.range(1, 10)); }
      body(0, g.r.range(0, 4));
      for (int t = 1; t <= nt; ++t) g.op(0, OP_JOIN, t);
      if (g.r.p(50)) for (int id : all) g.op(0, OP_EX_GET, id);
      for (int x = 0; x < nx; ++x) g.op(0, OP_EX_DEL, x);
      for (int id : all) g.op(0, OP_EX_GET, id);
      if (big) g.light();
   } else if (k < 57) {   // a long backlog, the executor is busy with its first task meanwhile
      int per = g.r.pick({100, 300, 600, 1100, 2100, 4200, 9000, g.r.p(20) ? 70000 : 300}) / nt;
      g.op(0, OP_EX_NEW, 0);
      g.op(0, OP_EX_BURST, 0, 1, 1, 1);
      for (int t = 1; t <= nt; ++t) { g.op(0, OP_SPAWN, t); g.op(t, OP_EX_BURST, 0, 2 + t * 100000, per, 0); }
      for (int t = 1; t <= nt; ++t) g.op(0, OP_JOIN, t);
      g.op(0, OP_GATE_OPEN, 200);
      g.op(0, OP_EX_DEL, 0);
      g.s.cfg.max_points = 600000000ull;
      g.light();
   } else if (k < 59) {   // a long queue
      g.s.family = 2;
      int per = g.r.pick({100, 300, 600, 1100, 2100, 4200, g.r.p(20) ? 34000 : 300}), nc = g.r.range(1, 2);
      nt = g.r.range(1, 2);
      bool after = g.r.p(60);   // consumers come when all is put in
      for (int t = 1; t <= nt; ++t) { g.op(0, OP_SPAWN, t); g.op(t, OP_Q_BURST, 0, t * 100000, per); }
      if (after) for (int t = 1; t <= nt; ++t) g.op(0, OP_JOIN, t);
      for (int c = 0; c < nc; ++c) { g.op(0, OP_SPAWN, 5 + c); g.op(5 + c, OP_Q_DRAIN, 0, 0, c ? per * nt / 2 : nc == 1 ? per * nt : per * nt - per * nt / 2); }
      if (!after) for (int t = 1; t <= nt; ++t) g.op(0, OP_JOIN, t);
      for (int c = 0; c < nc; ++c) g.op(0, OP_JOIN, 5 + c);
      g.s.cfg.max_points = 600000000ull;
      g.light();
   } else {   // the queue alone
      g.s.family = 1;
      nt = g.r.range(2, 4);
      int v = 1, pushes = 0;
      std::vector<int> pops(5, 0);
      for (int t = 1; t <= nt; ++t)
         for (int i = g.r.range(1, 7); i--;) {
            int z = g.r.below(100);
            if (z < 50) { g.op(t, OP_Q_PUSH, 0, v++); ++pushes; }
            else if (z < 75 && pushes > 0) { g.op(t, OP_Q_POP, 0); --pushes; }
            else if (z < 85) g.op(t, OP_Q_TRY, 0);
            else if (z < 92) g.op(t, OP_Q_SIZE, 0);
            else g.op(t, OP_Q_EMPTY, 0);
         }
      // every blocking pop must be able to finish: the main thread adds enough items
      int np = 0, ntry = 0;
      for (auto& o : g.s.ops) { np += o.kind == OP_Q_POP; ntry += o.kind == OP_Q_TRY; }
      for (int t = 1; t <= nt; ++t) g.op(0, OP_SPAWN, t);
      for (int i = np + ntry; i-- > 0;) g.op(0, OP_Q_PUSH, 0, v++);
      for (int t = 1; t <= nt; ++t) g.op(0, OP_JOIN, t);
      g.op(0, OP_Q_SIZE, 0); g.op(0, OP_Q_TRY, 0); g.op(0, OP_Q_EMPTY, 0);
   }
}
void gen_c26(G& g) {
   TrafficOpt o;
   o.file_pct = 0; o.beh_pct = 20; o.beh_mask = SB_YIELD | SB_MUTATE;
   SimConfig& c = g.s.cfg;
   c.frate[F_ALLOC] = g.r.pick({1500, 6000, 20000}); c.fcap[F_ALLOC] = g.r.range(1, 10);
   if (g.r.p(40)) { c.frate[F_THREAD] = g.r.pick({10000, 30000}); c.fcap[F_THREAD] = 3; }
   int ns = g.r.range(1, 3), nt = g.r.range(1, 3);
   g.op(0, OP_WORKER_NEW, 0);
   for (int i = 0; i < ns; ++i) add_sink(g, 0, i, 0, o);
   g.op(0, OP_WORKER_INIT, 0);
   for (int t = 1; t <= nt; ++t) {
      g.op(0, OP_SPAWN, t);
      for (int i = g.r.range(2, 9); i--;) {
         if (g.r.p(50)) g.op(t, OP_ALLOC_ARM, g.r.below(2));
         if (g.r.p(25)) { int cc = g.post(t, g.r.below(ns)); if (g.r.p(60)) g.op(t, OP_GET, cc); }
         g.log(t);
      }
      g.op(t, OP_ALLOC_ARM, 0);
      g.log(t);
   }
   g.op(0, OP_ALLOC_ARM, 1); g.op(0, OP_THREAD_ARM, 1);
   for (int i = g.r.range(1, 3); i--;) { add_sink(g, 0, 10 + i, 0, o); if (g.r.p(50)) g.log(0); }
   for (int i = g.r.below(3); i--;) { g.op(0, OP_WORKER_NEW, 1 + i); }
   g.op(0, OP_ALLOC_ARM, 0); g.op(0, OP_THREAD_ARM, 0);
   for (int i = 0; i < 3; ++i) g.op(0, OP_WORKER_DEL, 1 + i);
   for (int t = 1; t <= nt; ++t) g.op(0, OP_JOIN, t);
   g.burst(0, g.r.range(1, 5));
   for (int i = 0; i < ns; ++i) { int cc = g.post(0, i, CK_VALUE); g.op(0, OP_GET, cc); }
   g.op(0, OP_WORKER_DEL, 0);
}
void gen_c27(G& g) {
   int k = g.r.below(100);
   int ns = g.r.range(1, 3), nt = g.r.range(1, 3);
   g.op(0, OP_WORKER_NEW, 0);
   int fat = k >= 88 ? g.r.below(ns) : -1;
   bool calls = g.r.p(40);
   bool cross = g.r.p(40);   // handles are shared between sinks: nobody drops one then
   int trigger = g.r.range(1, 4);
   for (int i = 0; i < ns; ++i) {
      int b = g.r.pick({SB_SELFLOG, SB_SELFCALL, SB_SELFLOG | SB_SELFCALL, SB_SELFLOG | SB_DROPHANDLE, SB_SELFCALL | SB_DROPHANDLE, 0}) | (g.r.p(20) ? SB_YIELD : 0);
      if (cross) { if (g.r.p(60)) b = (b & ~SB_SELFCALL) | SB_CROSSCALL; b &= ~SB_DROPHANDLE; }
      if (g.r.p(25)) b |= SB_LOGDTOR;
      if (g.r.p(25)) b |= SB_CALLLOG;
      if (i == fat) b |= g.r.p(50) ? SB_FATAL : SB_SIGNAL;
      g.op(0, OP_SINK_ADD, i, g.r.pick({SK_MSG, SK_STR, SK_LAMBDA}), 0, b, i == fat ? trigger : 1);
      g.op(0, OP_HANDLE_OVERRIDE, i);
   }
   if (fat >= 0) g.s.family = 1;
   g.op(0, OP_WORKER_INIT, 0);
   for (int t = 1; t <= nt; ++t) { for (int i = g.r.range(2, 8); i--;) { g.log(t, -1, LF_STREAM, g.r.range(8, 100)); if (calls && g.r.p(40)) g.post(t, g.r.below(ns)); } g.op(0, OP_SPAWN, t); }
   if (g.r.p(50)) g.burst(0, g.r.range(1, 6));
   if (g.r.p(30) && fat < 0) { g.op(0, OP_YIELD, 10); g.op(0, OP_SINK_REMOVE, g.r.below(ns), 0); }
   for (int t = 1; t <= nt; ++t) g.op(0, OP_JOIN, t);
   if (g.r.p(50)) g.op(0, OP_SLEEP, 100000);
   g.op(0, OP_SHUTDOWN);
   g.op(0, OP_WORKER_DEL, 0);
   g.op(0, OP_SETTLE);
}
void gen_c28(G& g) {
   TrafficOpt o;
   o.file_pct = 5; o.beh_pct = 20;
   int nt = g.r.range(1, 3);
   bool many = g.r.p(3);
   g.op(0, OP_WORKER_NEW, 0);
   if (g.r.p(20)) add_sink(g, 0, 0, 0, o);
   g.op(0, OP_WORKER_INIT, 0);
   for (int t = 1; t <= nt; ++t) { g.op(0, OP_SPAWN, t); if (many) g.burst(t, g.r.range(50, 1200)); for (int i = g.r.range(2, 8); i--;) { g.log(t); if (g.r.p(20)) g.op(t, OP_YIELD, 4); } }
   int n = g.r.range(0, 4);
   for (int i = 0; i < n; ++i) {
      g.op(0, OP_YIELD, g.r.range(1, 40));
      add_sink(g, 0, 1 + i, 0, o);
      if (g.r.p(50)) g.log(0);
      g.op(0, OP_YIELD, g.r.range(1, 20));
      if (g.r.p(70)) { if (g.r.p(50)) g.op(0, OP_SINK_REMOVE, 1 + i, 0); else g.op(0, OP_REMOVE_ALL, 0); }
      if (g.r.p(50)) g.log(0);
   }
   for (int t = 1; t <= nt; ++t) g.op(0, OP_JOIN, t);
   if (g.r.p(50)) g.op(0, OP_REMOVE_ALL, 0);
   g.burst(0, g.r.range(0, 3));
   g.op(0, OP_WORKER_DEL, 0);
}
void gen_c22(G& g) {
   // everything at once, with the race detector and preemption at memory accesses
   int k = g.r.below(100);
   g.s.cfg.race_check = 1;
   if (g.r.p(22)) {
      static void (*const all[])(G&) = {gen_c02, gen_c03, gen_c04, gen_c05, gen_c09, gen_c16, gen_c19, gen_c20, gen_c23, gen_c24, gen_c25, gen_c26, gen_c28};
      all[g.r.below((int)(sizeof all / sizeof *all))](g);
      g.s.cfg.race_check = 1;
   }
   else if (k < 12) { TrafficOpt o; o.call_pct = 40; traffic(g, o); }
   else if (k < 22) gen_c07(g);
   else if (k < 30) gen_c06(g);
   else if (k < 36) gen_c08(g);
   else if (k < 41) gen_c11(g);
   else if (k < 45) gen_c10(g);
   else if (k < 50) gen_c12(g);
   else if (k < 54) gen_c13(g);
   else if (k < 62) gen_c14(g);
   else if (k < 68) gen_c15(g);
   else if (k < 70) early_threads(g, g.r.range(1, 2));
   else if (k < 74) gen_c17(g);
   else if (k < 80) { g.s.variant = 1; gen_c21(g); }
   else if (k < 84) {
      gen_c27(g);
      g.s.family = 0;
      for (auto& o : g.s.ops) if (o.kind == OP_SINK_ADD) o.d &= ~(SB_SELFCALL | SB_CROSSCALL | SB_FATAL | SB_SIGNAL);   // known findings of C27
   }
   else {   // shutdown (without destruction), hook changes and initialisation while others log
      g.s.family = 30;
      TrafficOpt o;
      o.beh_pct = 20;
      int ns = g.r.range(1, 3), nt = g.r.range(2, 4);
      g.op(0, OP_WORKER_NEW, 0);
      for (int i = 0; i < ns; ++i) add_sink(g, 0, i, 0, o);
      bool init_first = g.r.p(60);
      bool sigs = g.r.p(25);
      bool handlers = g.r.p(20);
      if (init_first) g.op(0, OP_WORKER_INIT, 0);
      for (int t = 1; t <= nt; ++t) {
         g.op(0, OP_SPAWN, t);
         for (int i = g.r.range(1, 8); i--;) {
            g.log(t, -1, -1, g.r.range(8, 80));
            if (g.r.p(15)) g.op(t, OP_SET_HOOK, t, g.r.pick({HK_COUNT, HK_NONE}), 0);
            if (g.r.p(10)) g.post(t, g.r.below(ns));
            if (g.r.p(8)) g.op(t, OP_REMOVE_COPY, g.r.below(ns), 0);
            if (g.r.p(8)) { int slot = 10 + t * 4 + g.r.below(4); bool used = false; for (auto& x : g.s.ops) if (x.kind == OP_SINK_ADD && x.a == slot) used = true; if (!used) add_sink(g, t, slot, 0, o); }
            if (g.r.p(4)) g.op(t, OP_CHECK_OK);
            if (handlers && g.r.p(15)) g.op(t, OP_SET_HANDLER, g.r.pick({HD_RECORD, HD_LOG, HD_FORWARD, HD_DEFAULT}));
            if (handlers && g.r.p(12)) g.op(t, OP_FATAL, g.uid++, g.r.below(FF_FORMS), 30);
            if (sigs && g.r.p(12)) {
               int z = g.r.below(100);
               if (z < 60) g.op(t, OP_OVERRIDE, (int)((uint32_t)g.r.next() & (uint32_t)g.r.pick({255, 31, 224, 15})));
               else if (z < 75) g.op(t, OP_RESTORE_DEFAULT);
               else if (z < 90) g.op(t, OP_INSTALL);
               else g.op(t, OP_RESTORE_SIG, kSig5[g.r.below(5)]);
            }
         }
         if (g.r.p(12)) { if (g.r.p(50)) g.op(t, OP_FATAL, g.uid++, g.r.below(FF_FORMS), 30); else g.op(t, OP_SIGNAL, kSig5[g.r.below(5)]); }
      }
      if (!init_first) { g.op(0, OP_YIELD, g.r.range(1, 30)); g.op(0, OP_WORKER_INIT, 0); }
      if (g.r.p(50)) { g.op(0, OP_YIELD, g.r.range(1, 60)); g.op(0, OP_SHUTDOWN); if (g.r.p(50)) { g.op(0, OP_YIELD, g.r.range(1, 30)); g.op(0, OP_WORKER_INIT, 0); } }
      for (int t = 1; t <= nt; ++t) g.op(0, OP_JOIN, t);
      g.op(0, OP_WORKER_DEL, 0);
   }
   if (!g.s.cfg.mem_mean && g.r.p(50)) g.s.cfg.mem_mean = g.r.pick({30, 200, 2000});
}
typedef void (*GenFn)(G&);
const std::map<std::string, GenFn> kGen = {
   {"C01", gen_c01}, {"C02", gen_c02}, {"C03", gen_c03}, {"C04", gen_c04}, {"C05", gen_c05}, {"C06", gen_c06}, {"C07", gen_c07}, {"C08", gen_c08}, {"C09", gen_c09}, {"C10", gen_c10}, {"C11", gen_c11}, {"C12", gen_c12}, {"C13", gen_c13}, {"C14", gen_c14}, {"C15", gen_c15}, {"C16", gen_c16}, {"C17", gen_c17}, {"C18", gen_c18}, {"C19", gen_c19}, {"C20", gen_c20}, {"C21", gen_c21}, {"C22", gen_c22}, {"C23", gen_c23}, {"C24", gen_c24}, {"C25", gen_c25}, {"C26", gen_c26}, {"C27", gen_c27}, {"C28", gen_c28}};
}  // namespace

bool prop_known(const std::string& p) { return kGen.count(p) != 0; }

Scenario generate(const std::string& prop, uint64_t seed, int) {
   uint64_t h = 1469598103934665603ull;
   for (char c : prop) h = (h ^ (unsigned char)c) * 1099511628211ull;
   G g(seed * 1000003ull + (h >> 20));
   g.s.prop = prop;
   g.config();
   if (prop == "C01") g.s.variant = g.r.p(25) ? 1 : 0;
   static const char* const dyn[] = {"C02", "C03", "C07", "C08", "C09", "C10", "C11", "C12", "C13", "C14", "C15", "C16", "C17", "C20", "C22", "C27", "C28"};
   for (const char* d : dyn) if (prop == d) g.s.variant = g.r.p(12);
   if (g.s.variant) { g.op(0, OP_LEVEL, LA_ADD, LV_CUSTOM, 1); g.op(0, OP_LEVEL, LA_ADD, LV_CUSTOM2, 1); g.op(0, OP_LEVEL, LA_ADD, LV_CUSTOMFATAL, 1); }
   if (prop != "C20" && prop != "C26" && g.r.p(12)) g.repeat_some(g.r.below(4));   // not with stepped clocks or texts that may be cut
   kGen.at(prop)(g);
   static const char* const timed[] = {"C05", "C16", "C17", "C18", "C19", "C20", "C23", "C26"};
   bool steps = g.rep < 0 && g.s.ops.size() < 4000 && !g.s.cfg.params[0] && g.r.p(10);
   for (const char* t : timed) if (prop == t) steps = false;
   if (steps) for (int i = g.r.range(1, 6); i--;) {   // the system clock is set meanwhile
      size_t at = g.r.below((int)g.s.ops.size());
      SimOp o;
      memset(&o, 0, sizeof o);
      o.thread = g.s.ops[at].thread; o.kind = OP_CLOCK_STEP; o.a = g.r.pick({-3600000, 3600000, -1, 1, 86400000, -86400000, -2500, 999, -10, 50});
      g.s.ops.insert(g.s.ops.begin() + at, o);
   }
   g.s.cfg.variant = g.s.variant;
   // the program of the main thread must spawn before it joins; the order of other threads' operations is free
   return g.s;
}
