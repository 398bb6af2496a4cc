// The application side of the simulation: an interpreter for scenario programs that uses the real library
// through its public API. Compiled with thread-sanitizer instrumentation (callbacks go to the simulator).
#include "app.h"

#include <array>
#include <iomanip>
#include <g3log/g3log.hpp>
#include <g3log/logworker.hpp>
#include <g3log/filesink.hpp>
#include <g3log/crashhandler.hpp>
#include <g3log/active.hpp>
#include <g3log/future.hpp>
#include <g3log/shared_queue.hpp>
#include <g3log/loglevels.hpp>
#include <g3log/logmessage.hpp>

#include <csignal>
#include <cstdio>
#include <cstring>
#include <future>
#include <iostream>
#include <map>
#include <memory>
#include <sstream>
#include <string>
#include <thread>
#include <vector>
#include <unistd.h>

extern "C" const char* const app_source_file = __FILE__;

const char* const op_names[] = {
   "nop", "worker_new", "worker_init", "worker_del", "shutdown", "sink_add", "sink_remove", "remove_all", "handle_drop", "sink_hold", "sink_unhold",
   "log", "log_burst", "call", "get", "spawn", "join", "sleep", "yield", "gate_open", "gate_wait", "wait_recv", "fatal", "signal", "check_ok", "set_hook", "set_handler",
   "level", "rotate", "filename", "clock_step", "alloc_arm", "thread_arm", "fs_faults", "probe_res", "sigdisp", "install", "override", "restore_default", "restore_sig", "probe_disp",
   "ex_new", "ex_send", "ex_spawn", "ex_del", "ex_null", "ex_get", "q_push", "q_pop", "q_try", "q_size", "q_empty", "maxsize", "remove_copy", "kill", "settle", "wait_ev", "handle_override", "exit_log", "ex_burst", "q_burst", "q_drain", "send_signal"};

namespace {
const LEVELS MYINFO{WARNING.value + 1, "MYINFO"};
const LEVELS MYNOTE{50, "MYNOTE"};
const LEVELS MYFATAL{FATAL.value + 1, "MYFATAL"};
const LEVELS UNKNOWN_LVL{777, "NOSUCH"};
const LEVELS& level_of(int lv) {
   switch (lv) {
   case LV_DEBUG: return G3LOG_DEBUG;
   case LV_INFO: return INFO;
   case LV_WARNING: return WARNING;
   case LV_CUSTOM: return MYINFO;
   case LV_CUSTOM2: return MYNOTE;
   case LV_FATAL: return FATAL;
   case LV_CUSTOMFATAL: return MYFATAL;
   default: return UNKNOWN_LVL;
   }
}
void own_log(uint32_t uid, int lvl, uint32_t len);   // a statement executed by sink, hook or handler code
enum { MAXSLOT = 100, MAXTHREAD = 16, MAXCALL = 2048, MAXW = 8 };
enum { CTR_LOG = 40, CTR_RECV = 41, CTR_HOOK = 42, CTR_TASK = 43, CTR_FATAL = 44, CTR_SIGNAL = 45, CTR_BEGIN = 46, CTR_CALLED = 47, CTR_FATALRECV = 48 };
inline void count_fatal(uint64_t id, uint32_t fl) { if ((id >> 40) == 2 || (fl & RF_FATAL)) sim_counter_add(CTR_FATALRECV, 1); }

volatile int g_zero = 0;
int sim_false() { return g_zero; }
int sim_true() { return 1 + g_zero; }
uint32_t g_limit = 2048;
bool g_stamp;

struct Worker;
std::unique_ptr<g3::LogWorker> workers[MAXW];

uint64_t thread_code(std::thread::id id) {
   uint64_t v = 0;
   static_assert(sizeof id == 8, "thread id");
   memcpy(&v, &id, sizeof id);
   return v;
}

void do_log(uint32_t uid, int form, int lvl, uint32_t len, int cond);
void do_fatal(uint32_t uid, int form, uint32_t len);
struct HandleBase;
struct ThreadCtx {
   int k = 0;
   bool arm_alloc = false, arm_thread = false;
   std::unique_ptr<HandleBase> h[MAXSLOT];
   char buf[12288];
};
thread_local ThreadCtx* ctx;

struct Arm {
   Arm() { if (ctx) { if (ctx->arm_alloc) sim_arm_alloc(1); if (ctx->arm_thread) sim_arm_thread(1); } }
   ~Arm() { if (ctx) { sim_arm_alloc(0); sim_arm_thread(0); } }
};

// ---------------------------------------------------------------- sinks
struct SinkState {
   int id, beh, param;
   // plain members on purpose: the library promises that no locking is needed
   uint64_t n = 0, ncalls = 0, busy = 0, last = 0;
   bool gated = false;
   std::weak_ptr<void> self;
   std::unique_ptr<HandleBase>* own = nullptr;
   SinkState(int i, int b, int p) : id(i), beh(b), param(p) { sim_event(EV_SINK_CTOR, i, b, p, 0); sim_event(EV_NOTE, 12, i, (uint64_t)this, sizeof *this); }
   void enter() {
      if (busy) sim_event(EV_NOTE, 10, id, busy, 0);
      busy = 1 + sim_self();
      ++n;
   }
   void leave() {
      if (busy != 1u + sim_self()) sim_event(EV_NOTE, 10, id, busy, 1);
      busy = 0;
   }
   void behave(uint64_t what);
   void destroyed() {
      sim_event(EV_SINK_DTOR, id, n, ncalls, busy);
      if (beh & SB_LOGDTOR) own_log(122000 + id, LV_INFO, 30 + id);
      if (beh & SB_SLOWDTOR) { sim_yield(); sim_sleep_ns(int64_t(param) * 1000 + 1000); sim_yield(); }
   }
};
struct DtorMark {
   int mark_id;
   explicit DtorMark(int i) : mark_id(i) {}
   ~DtorMark() { sim_event(EV_SINK_DTOR_END, mark_id, 0, 0, 0); }
};

struct AppError { int call; };   // what applications throw need not derive from std::exception
struct SinkOps {
   SinkState s;
   SinkOps(int i, int b, int p) : s(i, b, p) {}
   void call_begin(int call) {
      sim_event(EV_CALL, s.id, call, 0, 0);
      s.enter();
      ++s.ncalls;
      if ((s.beh & SB_CALLGATE) && !s.gated) { s.gated = true; sim_gate_wait(s.id); }
      if ((s.beh & SB_CALLLOG) && call % 2) own_log(123000 + call, LV_WARNING, 20 + call % 100);
      sim_yield();
   }
   void call_end(int call) {
      s.leave();
      sim_event(EV_CALL_END, s.id, call, 0, 0);
      sim_counter_add(CTR_CALLED, 1);
   }
   int op_value(int call) { call_begin(call); call_end(call); return call * 7 + 3; }
   void op_void(int call) { call_begin(call); call_end(call); }
   int op_throw(int call) { call_begin(call); call_end(call); if (call % 3 == 0) throw AppError{call}; throw std::runtime_error("call " + std::to_string(call)); }
   std::unique_ptr<int> op_move(int call) { call_begin(call); call_end(call); return std::make_unique<int>(call * 7 + 3); }
   std::string op_str(int call, std::string text) { call_begin(call); call_end(call); return text + "/" + std::to_string(call); }
   int op_slow(int call) { call_begin(call); sim_sleep_ns(5000000); call_end(call); return call * 7 + 3; }
};

uint64_t view_of(const g3::LogMessage& m, uint32_t* fl, int64_t* ts) {
   std::string text = m.message(), level = m.level(), file = m.file(), path = m.file_path(), func = m.function(), expr = m.expression(), tid = m.threadID();
   MsgView v;
   v.text = text.c_str(); v.textlen = text.size();
   v.level = level.c_str(); v.file = file.c_str(); v.path = path.c_str(); v.func = func.c_str(); v.expr = expr.c_str(); v.tid = tid.c_str();
   v.line = atoi(m.line().c_str());
   v.levelvalue = m._level.value;
   v.thread = thread_code(m._call_thread_id);
   uint64_t id = sim_check_view(&v, fl);
   *ts = 0;
   if (g_stamp || id == REPEAT_UID) {
      std::string st = m.timestamp("%Y %m %d %H %M %S %f9");
      int y, mo, d, h, mi, se;
      long ns;
      if (sscanf(st.c_str(), "%d %d %d %d %d %d %ld", &y, &mo, &d, &h, &mi, &se, &ns) == 7) {
         struct tm t;
         memset(&t, 0, sizeof t);
         t.tm_year = y - 1900; t.tm_mon = mo - 1; t.tm_mday = d; t.tm_hour = h; t.tm_min = mi; t.tm_sec = se;
         *ts = (int64_t(timegm(&t)) - SIM_TZ_SECONDS) * 1000000000ll + ns;
      } else *ts = -1;
   }
   return id;
}

struct MsgSink : DtorMark, SinkOps {
   std::unique_ptr<g3::LogMessage> kept;
   uint64_t kept_id = 0;
   uint32_t kept_fl = 0;
   int64_t kept_ts = 0;
   MsgSink(int i, int b, int p) : DtorMark(i), SinkOps(i, b, p) {}
   ~MsgSink() { look_again(); s.destroyed(); }
   void look_again() {
      if (!kept) return;
      uint32_t fl = 0;
      int64_t ts = 0;
      uint64_t id = view_of(*kept, &fl, &ts);
      if (id != kept_id || fl != kept_fl || ts != kept_ts) sim_event(EV_NOTE, 50, s.id, kept_id, id);
   }
   void receive(g3::LogMessageMover m) { handle(m); }
   void handle(g3::LogMessageMover& m) {
      uint32_t fl = 0;
      int64_t ts = 0;
      uint64_t id = view_of(m.get(), &fl, &ts);
      sim_event(EV_RECV, s.id, id, fl, ts);
      s.enter();
      if (s.beh & SB_MUTATE) {
         m.get().write() = "!mutated by sink";
         m.get()._level = MYNOTE;
         m.get()._file = "changed";
         m.get()._line = -1;
         m.get().setExpression("changed");
      }
      count_fatal(id, fl);
      s.behave(id);
      if ((s.beh & SB_KEEP) && !(s.beh & SB_MUTATE)) {
         look_again();
         if (s.n % 3) kept = std::make_unique<g3::LogMessage>(std::move(m.get()));   // the message is the sink's own: it may move it away
         else kept = std::make_unique<g3::LogMessage>(m.get());
         kept_id = id; kept_fl = fl; kept_ts = ts;
      }
      s.leave();
      sim_event(EV_RECV_END, s.id, id, 0, 0);
      sim_counter_add(s.id < 40 ? s.id : s.id + 64, 1);
      sim_counter_add(CTR_RECV, 1);
   }
};
struct StrSink : DtorMark, SinkOps {
   StrSink(int i, int b, int p) : DtorMark(i), SinkOps(i, b, p) {}
   ~StrSink() { s.destroyed(); }
   void receive(std::string t) {
      uint32_t fl = 0;
      int64_t st = -1;
      uint64_t id = sim_check_formatted(t.data(), t.size(), &fl, &st, 0);
      sim_event(EV_RECV, s.id, id, fl, st);
      s.enter();
      if (s.beh & SB_MUTATE) t.assign("!mutated");
      count_fatal(id, fl);
      s.behave(id);
      s.leave();
      sim_event(EV_RECV_END, s.id, id, 0, 0);
      sim_counter_add(s.id < 40 ? s.id : s.id + 64, 1);
      sim_counter_add(CTR_RECV, 1);
   }
};
struct TFileSink : DtorMark, SinkOps, g3::FileSink {
   TFileSink(int i, int b, int p, const std::string& prefix, const std::string& dir, const std::string& id, size_t every)
       : DtorMark(i), SinkOps(i, b, p), g3::FileSink(prefix, dir, id, every) {}
   ~TFileSink() override { s.destroyed(); }
   void receive(g3::LogMessageMover m) {
      uint32_t fl = 0;
      int64_t ts = 0;
      uint64_t id = view_of(m.get(), &fl, &ts);
      sim_event(EV_RECV, s.id, id, fl, ts);
      s.enter();
      count_fatal(id, fl);
      s.behave(id);
      fileWrite(std::move(m));
      s.leave();
      sim_event(EV_RECV_END, s.id, id, 0, 0);
      sim_counter_add(s.id < 40 ? s.id : s.id + 64, 1);
      sim_counter_add(CTR_RECV, 1);
   }
   std::string rotate(int call, std::string dir, std::string id) {
      call_begin(call);
      std::string r = changeLogFile(dir, id);
      sim_event_data(EV_NOTE, 20, s.id, call, 0, r.data(), r.size());
      call_end(call);
      return r;
   }
   std::string name(int call) {
      call_begin(call);
      std::string r = fileName();
      call_end(call);
      return r;
   }
};

// ---------------------------------------------------------------- futures
struct FutBase { virtual ~FutBase() {} virtual void get(int call) = 0; };
template <class R> struct Fut : FutBase {
   std::future<R> f;
   explicit Fut(std::future<R>&& x) : f(std::move(x)) {}
   static void rep(int call, int v) { sim_event(EV_FUT, call, 0, (uint64_t)(int64_t)v, 0); }
   static void rep(int call, const std::unique_ptr<int>& v) { sim_event(EV_FUT, call, 0, v ? (uint64_t)(int64_t)*v : (uint64_t)-1, 0); }
   static void rep(int call, const std::string& v) { sim_event_data(EV_FUT, call, 0, 0, 1, v.data(), v.size()); }
   void get(int call) override {
      if (!f.valid()) { sim_event(EV_FUT, call, 9, 0, 0); return; }
      try {
         if constexpr (std::is_void<R>::value) { f.get(); sim_event(EV_FUT, call, 0, 0, 2); }
         else { R r = f.get(); rep(call, r); }
      } catch (const std::bad_weak_ptr&) { sim_event(EV_FUT, call, 2, 0, 0); }
      catch (const std::runtime_error& e) {
         std::string w = e.what();
         if (w == "call " + std::to_string(call)) sim_event(EV_FUT, call, 1, 0, 0);
         else if (w.find("nullptr instantiated worker") != std::string::npos) sim_event(EV_FUT, call, 5, 0, 0);
         else sim_event_data(EV_FUT, call, 4, 0, 0, w.data(), w.size());
      } catch (const AppError& e) { sim_event(EV_FUT, call, e.call == call ? 1 : 4, 0, 0); }
      catch (...) { sim_event(EV_FUT, call, 3, 0, 0); }
   }
};
std::unique_ptr<FutBase> futs[MAXCALL];
template <class R> void keep(int call, std::future<R>&& f) { futs[call] = std::make_unique<Fut<R>>(std::move(f)); }

// ---------------------------------------------------------------- handles
struct HandleBase {
   int id = -1;
   virtual ~HandleBase() {}
   virtual std::unique_ptr<HandleBase> copy() = 0;
   virtual void call(int kind, int call) = 0;
   virtual void remove(g3::LogWorker* w) = 0;
   virtual void remove_copy(g3::LogWorker* w) = 0;
   virtual void hold() = 0;
   virtual void unhold() = 0;
   virtual void rotate(int call, const std::string& dir, const std::string& lid) = 0;
   virtual void filename(int call) = 0;
};
template <class T> struct HandleT : HandleBase {
   std::unique_ptr<g3::SinkHandle<T>> h;
   std::shared_ptr<g3::internal::Sink<T>> held;
   HandleT(int i, std::unique_ptr<g3::SinkHandle<T>> x) : h(std::move(x)) { id = i; }
   std::unique_ptr<HandleBase> copy() override { return h ? std::make_unique<HandleT<T>>(id, std::make_unique<g3::SinkHandle<T>>(*h)) : nullptr; }
   void call(int kind, int c) override {
      if (!h) return;
      if constexpr (std::is_same<T, g3::FileSink>::value) {
         Arm arm;
         keep(c, h->call(&g3::FileSink::fileName));
      } else {
         switch (kind) {
         case CK_VALUE: { std::future<int> f; { Arm a; f = h->call(&T::op_value, c); } keep(c, std::move(f)); break; }
         case CK_VOID: { std::future<void> f; { Arm a; f = h->call(&T::op_void, c); } keep(c, std::move(f)); break; }
         case CK_THROW: { std::future<int> f; { Arm a; f = h->call(&T::op_throw, c); } keep(c, std::move(f)); break; }
         case CK_MOVE: { std::future<std::unique_ptr<int>> f; { Arm a; f = h->call(&T::op_move, c); } keep(c, std::move(f)); break; }
         case CK_STRING: {
            std::string txt = "text" + std::to_string(c);
            std::future<std::string> f;
            { Arm a; f = h->call(&T::op_str, c, txt); }
            txt.assign("scribbled");
            keep(c, std::move(f));
            break;
         }
         default: { std::future<int> f; { Arm a; f = h->call(&T::op_slow, c); } keep(c, std::move(f)); break; }
         }
      }
   }
   void remove(g3::LogWorker* w) override { if (h) w->removeSink(std::move(h)); }
   void remove_copy(g3::LogWorker* w) override { if (h) w->removeSink(std::make_unique<g3::SinkHandle<T>>(*h)); }
   void hold() override { if (h) held = h->sink().lock(); }
   void unhold() override { held.reset(); }
   void rotate(int c, const std::string& dir, const std::string& lid) override {
      if (!h) return;
      if constexpr (std::is_same<T, g3::FileSink>::value) keep(c, h->call(&g3::FileSink::changeLogFile, dir, lid));
      else if constexpr (std::is_same<T, TFileSink>::value) keep(c, h->call(&TFileSink::rotate, c, dir, lid));
   }
   void filename(int c) override {
      if (!h) return;
      if constexpr (std::is_same<T, g3::FileSink>::value) keep(c, h->call(&g3::FileSink::fileName));
      else if constexpr (std::is_same<T, TFileSink>::value) keep(c, h->call(&TFileSink::name, c));
   }
};

// handles that sink code itself uses (prepared by the main thread before the sink can see a message)
std::unique_ptr<HandleBase> sink_handles[MAXSLOT];

void SinkState::behave(uint64_t what) {
   last = what;
   if ((beh & SB_GATE) && !gated) { gated = true; sim_gate_wait(id); }
   if (beh & SB_YIELD) for (int i = 0; i < 4; ++i) sim_yield();
   if (beh & SB_SLOW) sim_sleep_ns(int64_t(param) * 1000);
   if (beh & SB_RAND) { uint64_t h = (what * 0x9E3779B97F4A7C15ull) >> 40; sim_sleep_ns((h % 7) * 900000); }
   if (what >= 40000) { sim_yield(); return; }
   if ((beh & SB_SELFLOG) && what % 3 == 0) {
      uint32_t u = 40000 + id * 512 + (uint32_t)(n & 511);
      own_log(u, LV_INFO, 20 + u % 50);
   }
   int to = (beh & SB_CROSSCALL) ? (id + 1) % 3 : id;
   if ((beh & (SB_SELFCALL | SB_CROSSCALL)) && what % 4 == 1 && sink_handles[to]) {
      int c = 1024 + id * 24 + (int)(n % 24);
      if (!futs[c]) {
         sim_event(EV_OP_BEGIN, OP_CALL, 1u << 20, to, c);
         sink_handles[to]->call(CK_VALUE, c);
         sim_event(EV_OP_END, OP_CALL, 1u << 20, to, c);
      }
   }
   if ((beh & SB_DROPHANDLE) && what % 5 == 2) sink_handles[id].reset();
   if ((beh & SB_FATAL) && what == (uint64_t)param) {
      uint32_t u = 120000 + id;
      sim_event(EV_OP_BEGIN, OP_FATAL, 1u << 20, u, FF_LOG);
      do_fatal(u, FF_LOG, 30);
      sim_event(EV_OP_END, OP_FATAL, 1u << 20, u, 0);
   }
   if ((beh & SB_SIGNAL) && what == (uint64_t)param) {
      sim_event(EV_OP_BEGIN, OP_SIGNAL, 1u << 20, SIGSEGV, 0);
      raise(SIGSEGV);
      sim_event(EV_OP_END, OP_SIGNAL, 1u << 20, SIGSEGV, 0);
   }
   sim_yield();
}

// ---------------------------------------------------------------- log statements: one function per form
#define EXPECT(form, func, lim, used) sim_expect(uid, len, form, lvl, __LINE__, func, lim, used)
uint32_t skip(uint32_t uid) { uint32_t n = 2; do { ++n; uid /= 10; } while (uid); return n; }

__attribute__((noinline)) const char* nested(uint32_t uid, int lvl) {
   sim_event(EV_OP_BEGIN, OP_LOG, 1u << 20, uid, 1);
   int r = 0;
   try { do_log(uid, uid % LF_FORMS, lvl, 10 + uid * 7 % 90, 1); } catch (...) { r = 2; }
   sim_event(EV_OP_END, OP_LOG, 1u << 20, uid, r);
   return "";
}
std::ostream& spoiled(std::ostream& os) { os.setstate(std::ios_base::badbit); return os; }
__attribute__((noinline)) void form_stream(uint32_t uid, uint32_t len, int lvl, char* buf, uint32_t inner) {
   const LEVELS& L = level_of(lvl);
   uint32_t k = skip(uid), n = sim_text(uid, len, LF_STREAM, buf);
   sim_range_write(buf, n + 1);
   std::string head = "#" + std::to_string(uid), tail;
   uint32_t cut = k + (n - k) / 2;
   tail.assign(buf + k, cut - k);
   { Arm arm; EXPECT(LF_STREAM, 0, 0, 1); if (inner) LOG(L) << head << ';' << tail << nested(inner, lvl) << std::string(buf + cut, n - cut); else if (uid % 3 == 2) LOG(L) << head << ';' << tail << std::string(buf + cut, n - cut); else if (uid % 5 == 1) LOG(L) << '#' << uid << ';' << tail << std::string(buf + cut, n - cut) << std::hex << std::showbase << std::uppercase << std::setfill('*') << std::left << std::showpos << std::setw(19); else if (uid % 5 == 3) LOG(L) << '#' << std::hex << std::dec << uid << ';' << tail << std::string(buf + cut, n - cut) << spoiled; else LOG(L) << '#' << int(uid) << ';' << tail << (buf + cut); }
   memset(buf, '~', n + 1);
}
__attribute__((noinline)) void form_printf(uint32_t uid, uint32_t len, int lvl, char* buf) {
   const LEVELS& L = level_of(lvl);
   uint32_t k = skip(uid), n = sim_text(uid, len, LF_PRINTF, buf);
   sim_range_write(buf, n + 1);
   int cut = (n - k) / 2;
   { Arm arm; EXPECT(LF_PRINTF, 1, g_limit, 1); if (uid % 3 == 2 && n > k + 4) LOGF(L, "#%u;%.*s%c%s", uid, cut, buf + k, buf[k + cut], buf + k + cut + 1); else LOGF(L, "#%u;%s", uid, buf + k); }
   memset(buf, '~', n + 1);
}
__attribute__((noinline)) void form_stream_if(uint32_t uid, uint32_t len, int lvl, char* buf, int cond) {
   const LEVELS& L = level_of(lvl);
   uint32_t n = sim_text(uid, len, LF_STREAM_IF, buf);
   sim_range_write(buf, n + 1);
   bool c = cond ? sim_true() : sim_false();
   { Arm arm; EXPECT(LF_STREAM_IF, 2, 0, cond ? 1 : 2); LOG_IF(L, c) << buf; }
   memset(buf, '~', n + 1);
}
__attribute__((noinline)) void form_repeat(uint32_t len, int lvl) {
   const LEVELS& L = level_of(lvl);
   const uint32_t uid = REPEAT_UID;
   { Arm arm; EXPECT(LF_STREAM, 12, 0, 1); if (lvl & 1) LOGF(L, "%s", sim_repeats[len]); else LOG(L) << sim_repeats[len]; }
}
__attribute__((noinline)) void form_badf(uint32_t uid, uint32_t len, int lvl) {
   const LEVELS& L = level_of(lvl);
   char fmt[32];
   snprintf(fmt, sizeof fmt, "#%u;%%ls", uid);
   { Arm arm; EXPECT(LF_BADF, 14, 0, 1); LOGF(L, fmt, L"\x2603"); }
   memset(fmt, '~', sizeof fmt);
}
#include "forms.h"
void do_log(uint32_t uid, int form, int lvl, uint32_t len, int cond) {
   char local[12288];
   char* buf = local;
   if (len > 12000) {
      if (form == LF_STREAM) {
         std::vector<char> big(len + 2);
         form_stream(uid, len, lvl, big.data(), 0);
         return;
      }
      len = 12000;
   }
   if (form == LF_REPEAT) {
      sim_expect(uid, len, LF_STREAM, lvl, 0, 0, 0, 1);
      sim_tick(2000);
      form_repeat(len, lvl);
      sim_tick(2000);
      return;
   }
   switch (form) {
   case LF_STREAM: form_stream(uid, len, lvl, buf, (uint32_t)cond >> 1); break;
   case LF_PRINTF: form_printf(uid, len, lvl, buf); break;
   case LF_STREAM_IF: form_stream_if(uid, len, lvl, buf, cond); break;
   case LF_BADF: form_badf(uid, len, lvl); break;
   case LF_PRINTF_IF: form_printf_if(uid, len, lvl, buf, cond); break;
   default: form_of_a_statement_in_a_function_with_a_rather_long_name_as_generated_code_and_deeply_nested_test_fixtures_tend_to_have_them_since_nobody_has_to_type_them(uid, len, lvl); break;
   }
}
__attribute__((noinline)) void fatal_log(uint32_t uid, uint32_t len, char* buf) { int lvl = LV_FATAL; sim_text(uid, len, -1, buf); EXPECT(LF_STREAM, 5, 0, 1); LOG(FATAL) << buf; }
__attribute__((noinline)) void fatal_logf(uint32_t uid, uint32_t len, char* buf) { int lvl = LV_FATAL; sim_text(uid, len, -1, buf); EXPECT(LF_PRINTF, 6, g_limit, 1); LOGF(FATAL, "%s", buf); }
__attribute__((noinline)) void fatal_check(uint32_t uid, uint32_t len, char* buf) { int lvl = LV_CONTRACT; sim_text(uid, len, -1, buf); EXPECT(LF_STREAM, 7, 0, 1); CHECK(1 == sim_false()) << buf; }
__attribute__((noinline)) void fatal_checkf(uint32_t uid, uint32_t len, char* buf) { int lvl = LV_CONTRACT; sim_text(uid, len, -1, buf); EXPECT(LF_PRINTF, 8, g_limit, 1); CHECKF(1 == sim_false(), "%s", buf); }
__attribute__((noinline)) void fatal_custom(uint32_t uid, uint32_t len, char* buf) { int lvl = LV_CUSTOMFATAL; sim_text(uid, len, -1, buf); EXPECT(LF_STREAM, 9, 0, 1); LOG(MYFATAL) << buf; }
__attribute__((noinline)) void fatal_logif(uint32_t uid, uint32_t len, char* buf) { int lvl = LV_FATAL; sim_text(uid, len, -1, buf); EXPECT(LF_STREAM_IF, 10, 0, 1); LOG_IF(FATAL, sim_true() == 1) << buf; }
__attribute__((noinline)) void fatal_check_f(uint32_t uid, uint32_t len, char* buf) { int lvl = LV_CONTRACT; sim_text(uid, len, -1, buf); EXPECT(LF_PRINTF, 11, g_limit, 1); CHECK_F(1 == sim_false(), "%s", buf); }
__attribute__((noinline)) void fatal_empty(uint32_t uid) { int lvl = LV_CONTRACT; const uint32_t len = 0; EXPECT(FORM_NOTEXT, 13, 0, 1); CHECK(1 == sim_false()); }
void own_log(uint32_t uid, int lvl, uint32_t len) {
   sim_event(EV_OP_BEGIN, OP_LOG, 1u << 20, uid, 1);
   int r = 0;
   try { do_log(uid, LF_STREAM, lvl, len, 1); } catch (...) { r = 2; }
   sim_event(EV_OP_END, OP_LOG, 1u << 20, uid, r);
}
void do_fatal(uint32_t uid, int form, uint32_t len) {
   char buf[4096];
   if (len > 4000) len = 4000;
   switch (form) {
   case FF_LOG: fatal_log(uid, len, buf); break;
   case FF_LOGF: fatal_logf(uid, len, buf); break;
   case FF_CHECK: fatal_check(uid, len, buf); break;
   case FF_CHECKF: fatal_checkf(uid, len, buf); break;
   case FF_CUSTOM: fatal_custom(uid, len, buf); break;
   case FF_LOGIF: fatal_logif(uid, len, buf); break;
   case FF_EMPTY: fatal_empty(uid); break;
   default: fatal_check_f(uid, len, buf); break;
   }
}

// ---------------------------------------------------------------- signals, hooks, handlers
void hA(int s) { sim_event(EV_OLDSIG, s, 0, 0, 0); }
void hB(int s) { sim_event(EV_OLDSIG, s, 1, 0, 0); _exit(77); }

void set_hook(int id, int beh, int arg) {
   if (beh == HK_NONE) { g3::setFatalPreLoggingHook([] {}); return; }
   g3::setFatalPreLoggingHook([id, beh, arg] {
      sim_event(EV_HOOK, id, 0, beh, arg);
      sim_counter_add(CTR_HOOK, 1);
      switch (beh) {
      case HK_LOG:
         own_log(121000 + id, LV_WARNING, 40);
         break;
      case HK_UNSET: g3::setFatalPreLoggingHook([] {}); break;
      case HK_FATAL:
         sim_event(EV_OP_BEGIN, OP_FATAL, 1u << 20, 121500 + id, arg);
         do_fatal(121500 + id, arg, 40);
         sim_event(EV_OP_END, OP_FATAL, 1u << 20, 121500 + id, 0);
         break;
      case HK_RAISE:
         sim_event(EV_OP_BEGIN, OP_SIGNAL, 1u << 20, arg, 0);
         raise(arg);
         sim_event(EV_OP_END, OP_SIGNAL, 1u << 20, arg, 0);
         break;
      case HK_SLEEP: sim_sleep_ns(int64_t(arg) * 1000); break;
      default: break;
      }
      sim_yield();
      sim_event(EV_HOOK, id, 1, beh, arg);
   });
}
void set_handler(int beh) {
   if (beh == HD_DEFAULT) { g3::setFatalExitHandler(g3::internal::pushFatalMessageToLogger); return; }
   std::array<uint64_t, 6> big{};   // too large to be kept inside the std::function
   big[5] = 0x1234;
   g3::setFatalExitHandler([beh, big](g3::FatalMessagePtr m) {
      if (big[5] != 0x1234) sim_event(EV_HANDLER, 0, 0, 0xffff, beh);
      uint32_t fl = 0;
      int64_t ts;
      uint64_t id = view_of(*m.get(), &fl, &ts);
      sim_event(EV_HANDLER, id, m.get()->_signal_id, fl, beh);
      sim_counter_add(CTR_FATAL, 1);
      sim_yield();
      if (beh == HD_LOG && id && id < 2000) own_log(126000 + (uint32_t)id, LV_WARNING, 30);
      if (beh == HD_NESTED && id && id < 2000) {   // the handler itself meets a fatal event
         const uint32_t in = 126000 + (uint32_t)id;
         sim_event(EV_OP_BEGIN, OP_FATAL, 1u << 20, in, FF_CHECK);
         do_fatal(in, in % 2 ? FF_CHECK : FF_LOG, 40);
         sim_event(EV_OP_END, OP_FATAL, 1u << 20, in, 0);
      }
      if (beh == HD_THROW && id % 2) throw 7;
      if (beh == HD_THROW) throw std::runtime_error("from handler");
      if (beh == HD_FORWARD) g3::internal::pushFatalMessageToLogger(m);
      if (beh == HD_CLOSE || beh == HD_CLOSE_RETURN) workers[0].reset();   // an orderly shutdown by the application itself
      if (beh == HD_CLOSE) g3::internal::exitWithDefaultSignalHandler(m.get()->_level, m.get()->_signal_id);
   });
}
const int kProbe[] = {SIGABRT, SIGFPE, SIGILL, SIGSEGV, SIGTERM, SIGUSR1, SIGUSR2, SIGHUP, SIGINT};
const int kOver[] = {SIGABRT, SIGFPE, SIGILL, SIGSEGV, SIGTERM, SIGUSR1, SIGUSR2, SIGHUP};

// ---------------------------------------------------------------- executor and queue
struct ExState { uint64_t n = 0, busy = 0; kjellkod::Active* self = nullptr; };
std::unique_ptr<kjellkod::Active> execs[4];
ExState exstate[4];
void run_task(int ex, int id, int nest = 0) {
   sim_event(EV_TASK, ex, id, 0, 0);
   ExState& s = exstate[ex];
   if (s.busy) sim_event(EV_NOTE, 11, ex, s.busy, 0);
   s.busy = 1;
   ++s.n;
   if (nest == -1) sim_gate_wait(200 + ex);
   else if (nest) {   // a task may itself give the executor another one
      sim_event(EV_OP_BEGIN, OP_EX_SEND, 1u << 20, ex, nest);
      s.self->send([ex, nest] { run_task(ex, nest); });
      sim_event(EV_OP_END, OP_EX_SEND, 1u << 20, 0, 0);
   }
   sim_yield();
   if (id % 5 == 0) sim_sleep_ns(1000 * (id % 7));
   s.busy = 0;
   sim_event(EV_TASK, ex, id, 1, 0);
   sim_counter_add(CTR_TASK, 1);
}
struct QItem {
   int v = -1;
   std::string s;
};
shared_queue<QItem> queues[2];

// ---------------------------------------------------------------- interpreter
const char* const kDirs[] = {"./", "d0/", "d1/", "missing/", "d2/sub/", "d0", "nodir/deep/", "rodir/"};
const char* const kIds[] = {"", "g3log", "alpha", "beta", "x/y", "gamma"};
std::thread threads[MAXTHREAD];
pthread_t main_thread;
ThreadCtx ctxs[MAXTHREAD];

void add_sink(const SimOp& o, int* res) {
   int slot = o.a;
   g3::LogWorker* w = workers[o.c].get();
   if (!w) { *res = 9; return; }
   std::unique_ptr<HandleBase> hb;
   int p = o.e;
   switch (o.b) {
   case SK_MSG: {
      auto sp = std::make_unique<MsgSink>(slot, o.d, p);
      std::unique_ptr<g3::SinkHandle<MsgSink>> h;
      { Arm a; h = w->addSink(std::move(sp), &MsgSink::receive); }
      hb = std::make_unique<HandleT<MsgSink>>(slot, std::move(h));
      break;
   }
   case SK_STR: {
      auto sp = std::make_unique<StrSink>(slot, o.d, p);
      std::unique_ptr<g3::SinkHandle<StrSink>> h;
      { Arm a; h = w->addSink(std::move(sp), &StrSink::receive); }
      hb = std::make_unique<HandleT<StrSink>>(slot, std::move(h));
      break;
   }
   case SK_LAMBDA: {
      auto sp = std::make_unique<MsgSink>(slot, o.d, p);
      std::unique_ptr<g3::SinkHandle<MsgSink>> h;
      { Arm a; h = w->addSink(std::move(sp), [slot](MsgSink* s, g3::LogMessageMover m) { if (s->mark_id == slot) s->handle(m); }); }
      hb = std::make_unique<HandleT<MsgSink>>(slot, std::move(h));
      break;
   }
   case SK_FILE: {
      int di = p & 15;
      std::string prefix = (p >> 8) ? "same" : "log" + std::to_string(slot), dir = kDirs[di & 7], id = kIds[(p >> 4) & 7];
      sim_event(EV_SINK_CTOR, slot, o.d, p, 7);
      std::unique_ptr<g3::FileSinkHandle> h;
      { Arm a; h = w->addDefaultLogger(prefix, dir, id); }
      if (o.d & SB_FULLDETAILS) h->call(&g3::FileSink::overrideLogDetails, &g3::LogMessage::FullLogDetailsToString).wait();
      if (o.d & SB_HEADER) h->call(&g3::FileSink::overrideLogHeader, "\t\tLOG format: [custom header of sink " + std::to_string(slot) + "]\n\n").wait();
      hb = std::make_unique<HandleT<g3::FileSink>>(slot, std::move(h));
      break;
   }
   default: {
      // e: bits 0..3 directory, 4..7 id, 8..15 flush interval, 16 same prefix
      int di = p & 15;
      std::string prefix = (p >> 16) & 1 ? "same" : "log" + std::to_string(slot);
      auto sp = std::make_unique<TFileSink>(slot, o.d & ~SB_SLOW, p, prefix, kDirs[di & 7], kIds[(p >> 4) & 7], flush_interval(p));
      std::unique_ptr<g3::SinkHandle<TFileSink>> h;
      { Arm a; h = w->addSink(std::move(sp), &TFileSink::receive); }
      hb = std::make_unique<HandleT<TFileSink>>(slot, std::move(h));
      break;
   }
   }
   if (o.d & (SB_SELFCALL | SB_DROPHANDLE)) { /* installed by hold op below */ }
   ctx->h[slot] = std::move(hb);
}

void run_thread(int k);
void thread_entry(int k) {
   sim_mark_app_task();
   sim_event(EV_NOTE, 1, k, 0, 0);
   run_thread(k);
}

void level_op(const SimOp& o, int* res) {
#ifdef G3_DYNAMIC_LOGGING
   const LEVELS& L = o.b < 0 ? UNKNOWN_LVL : level_of(o.b);
   switch (o.a) {
   case LA_ENABLE: g3::log_levels::enable(L); break;
   case LA_DISABLE: g3::log_levels::disable(L); break;
   case LA_SETHIGHEST: g3::log_levels::setHighest(L); break;
   case LA_DISABLEALL: g3::log_levels::disableAll(); break;
   case LA_ENABLEALL: g3::log_levels::enableAll(); break;
   case LA_STATUS: { auto s = g3::log_levels::getStatus(L); *res = s == g3::log_levels::status::Absent ? 2 : s == g3::log_levels::status::Enabled ? 1 : 0; break; }
   case LA_QUERY: *res = g3::logLevel(L); break;
   case LA_TOSTRING: { std::string s = g3::log_levels::to_string(); sim_event_data(EV_NOTE, 30, 0, 0, 0, s.data(), s.size()); break; }
   case LA_GETALL: {
      auto m = g3::log_levels::getAll();
      uint64_t bits = 0, en = 0, bad = 0;
      for (auto& v : m) {
         int idx = -1;
         for (int i = 0; i < LV_N; ++i) if (sim_level_values[i] == v.first) idx = i;
         if (idx < 0 || v.second.level.value != v.first || v.second.level.text != sim_level_names[idx]) { bad++; continue; }
         bits |= 1u << idx;
         if (v.second.status.value()) en |= 1u << idx;
      }
      sim_event(EV_NOTE, 31, bits, en, bad);
      *res = (int)(bits | en << 10 | bad << 20);
      break;
   }
   case LA_ADD: if (o.c && o.d) g3::only_change_at_initialization::addLogLevel(L); else g3::only_change_at_initialization::addLogLevel(L, o.c != 0); break;
   case LA_RESET: g3::only_change_at_initialization::reset(); break;
   case LA_SET: g3::log_levels::set(L, o.c != 0); break;
   }
#else
   if (o.a == LA_QUERY) *res = g3::logLevel(level_of(o.b < 0 ? LV_N : o.b));
#endif
}

void exec_op(const SimOp& o, uint32_t idx);
struct ExitLogs {
   std::vector<std::pair<SimOp, uint32_t>> todo;
   ~ExitLogs() { for (auto& x : todo) { SimOp o = x.first; o.kind = OP_LOG; exec_op(o, x.second); } }
};
thread_local ExitLogs exit_logs;
void exec_op(const SimOp& o, uint32_t idx) {
   int res = 0;
   uint64_t extra = 0;
   if (o.kind == OP_LOG_BURST) {
      for (int i = 0; i < o.e; ++i) {
         uint32_t uid = o.a + i;
         int lvl = o.c < 0 ? (int)(uid % 4) : o.c;
         int len = o.d < 0 ? (int)(20 + (uid * 37) % (uint32_t)(-o.d)) : o.d;
         int form = o.b < 0 ? (int)((uid / 3) % LF_FORMS) : o.b;
         int cond = (form == LF_STREAM_IF || form == LF_PRINTF_IF) ? (uid % 5 != 0) : 1;
         sim_event(EV_OP_BEGIN, OP_LOG, idx, uid, cond);
         int r = 0;
         try { do_log(uid, form, lvl, len, cond); } catch (const std::bad_alloc&) { r = 2; } catch (...) { r = 3; }
         sim_event(EV_OP_END, OP_LOG, idx, uid, r);
         sim_counter_add(CTR_LOG, 1);
      }
      return;
   }
   if (o.kind == OP_EX_BURST) {   // the first task waits for a gate if d is set
      for (int i = 0, ex = o.a; i < o.c && execs[ex]; ++i) {
         int t = o.b + i, nest = o.d && !i ? -1 : 0;
         sim_event(EV_OP_BEGIN, OP_EX_SEND, 1u << 20, ex, t);
         execs[ex]->send([ex, t, nest] { run_task(ex, t, nest); });
         sim_event(EV_OP_END, OP_EX_SEND, 1u << 20, ex, 0);
      }
      return;
   }
   if (o.kind == OP_Q_BURST) {
      for (int i = 0; i < o.c; ++i) {
         sim_event(EV_OP_BEGIN, OP_Q_PUSH, 1u << 20, o.a, o.b + i);
         QItem q;
         q.v = o.b + i; q.s = std::string("item number ") + std::to_string(q.v);
         queues[o.a].push(std::move(q));
         sim_event(EV_OP_END, OP_Q_PUSH, 1u << 20, 0, 0);
      }
      return;
   }
   if (o.kind == OP_Q_DRAIN) {
      for (int i = 0; i < o.c; ++i) {
         sim_event(EV_OP_BEGIN, OP_Q_POP, 1u << 20, o.a, 0);
         QItem q;
         queues[o.a].wait_and_pop(q);
         sim_event(EV_OP_END, OP_Q_POP, 1u << 20, (uint64_t)(int64_t)q.v, q.s != std::string("item number ") + std::to_string(q.v) ? 5 : 0);
      }
      return;
   }
   if (o.kind == OP_EXIT_LOG) { exit_logs.todo.push_back({o, idx}); return; }
   uint64_t id = o.kind == OP_LOG || o.kind == OP_FATAL ? (uint32_t)o.a : (uint64_t)(int64_t)o.a;
   uint64_t arg = o.kind == OP_LOG ? (uint64_t)o.e : (uint64_t)(int64_t)o.b;
   if (o.kind == OP_FATAL || o.kind == OP_SIGNAL) sim_counter_add(CTR_BEGIN, 1);
   sim_event(EV_OP_BEGIN, o.kind, idx, id, arg);
   try {
      switch (o.kind) {
      case OP_WORKER_NEW: { std::unique_ptr<g3::LogWorker> w; { Arm a; w = g3::LogWorker::createLogWorker(); } workers[o.a] = std::move(w); break; }
      case OP_WORKER_INIT: g3::initializeLogging(o.a < 0 ? nullptr : workers[o.a].get()); break;
      case OP_WORKER_DEL: workers[o.a].reset(); break;
      case OP_SHUTDOWN: g3::internal::shutDownLogging(); break;
      case OP_SINK_ADD: add_sink(o, &res); break;
      case OP_SINK_REMOVE: if (ctx->h[o.a] && workers[o.b]) { ctx->h[o.a]->remove(workers[o.b].get()); } else res = 9; break;
      case OP_REMOVE_COPY: if (ctx->h[o.a] && workers[o.b]) { ctx->h[o.a]->remove_copy(workers[o.b].get()); } else res = 9; break;
      case OP_REMOVE_ALL: if (workers[o.a]) workers[o.a]->removeAllSinks(); else res = 9; break;
      case OP_HANDLE_DROP: ctx->h[o.a].reset(); break;
      case OP_SINK_HOLD: if (ctx->h[o.a]) ctx->h[o.a]->hold(); break;
      case OP_SINK_UNHOLD: if (ctx->h[o.a]) ctx->h[o.a]->unhold(); break;
      case OP_HANDLE_OVERRIDE: if (ctx->h[o.a]) sink_handles[o.a] = ctx->h[o.a]->copy(); break;
      case OP_LOG: do_log(o.a, o.b, o.c, o.d, o.e); sim_counter_add(CTR_LOG, 1); break;
      case OP_CALL: if (ctx->h[o.a]) ctx->h[o.a]->call(o.c, o.b); else res = 9; break;
      case OP_GET: case OP_EX_GET: if (futs[o.a]) { futs[o.a]->get(o.a); futs[o.a].reset(); } else res = 9; break;
      case OP_SPAWN:
         for (int s = 0; s < MAXSLOT; ++s) if (ctx->h[s] && !ctxs[o.a].h[s]) ctxs[o.a].h[s] = ctx->h[s]->copy();
         threads[o.a] = std::thread(thread_entry, (int)o.a);
         break;
      case OP_JOIN: if (threads[o.a].joinable()) threads[o.a].join(); break;
      case OP_SLEEP: sim_sleep_ns(int64_t(o.a) * 1000); break;
      case OP_YIELD: for (int i = 0; i < o.a; ++i) sim_yield(); break;
      case OP_GATE_OPEN: sim_gate_open(o.a); break;
      case OP_GATE_WAIT: sim_gate_wait(o.a); break;
      case OP_WAIT_RECV: case OP_WAIT_EV: sim_counter_wait(o.a, o.b); break;
      case OP_SETTLE: sim_settle(); break;
      case OP_FATAL: do_fatal(o.a, o.b, o.c); break;
      case OP_SIGNAL: raise(o.a); break;
      case OP_SEND_SIGNAL: pthread_kill(o.a ? threads[o.a].native_handle() : main_thread, o.b); break;
      case OP_CHECK_OK: { Arm a; CHECK(sim_true() == 1) << "never"; CHECKF(sim_true() == 1, "never %d", 1); CHECK_F(0 == sim_false(), "never %d", 2); break; }
      case OP_SET_HOOK: set_hook(o.a, o.b, o.c); break;
      case OP_SET_HANDLER: set_handler(o.a); break;
      case OP_LEVEL: level_op(o, &res); break;
      case OP_ROTATE: if (ctx->h[o.a]) ctx->h[o.a]->rotate(o.b, kDirs[o.c & 7], kIds[o.d & 7]); else res = 9; break;
      case OP_FILENAME: if (ctx->h[o.a]) ctx->h[o.a]->filename(o.b); else res = 9; break;
      case OP_CLOCK_STEP: sim_clock_step(int64_t(o.a) * 1000000); break;
      case OP_ALLOC_ARM: ctx->arm_alloc = o.a; break;
      case OP_THREAD_ARM: ctx->arm_thread = o.a; break;
      case OP_FS_FAULTS: sim_fs_faults(o.a); break;
      case OP_PROBE_RES: sim_probe_resources(); break;
      case OP_SIGDISP: {
         struct sigaction sa;
         memset(&sa, 0, sizeof sa);
         sa.sa_handler = o.b == 0 ? SIG_DFL : o.b == 1 ? SIG_IGN : o.b == 2 ? hA : hB;
         static const int fl[] = {0, SA_RESTART, SA_NODEFER, SA_ONSTACK, SA_SIGINFO | SA_RESTART, SA_SIGINFO | SA_NODEFER | SA_ONSTACK};
         if (o.b > 1) {
            sa.sa_flags = fl[o.c % 6];
            if (o.c & 8) sigaddset(&sa.sa_mask, SIGUSR2);
            if (o.c & 16) sigaddset(&sa.sa_mask, SIGINT);
         }
         sim_app_disposition(o.a, &sa);
         sigaction(o.a, &sa, nullptr);
         break;
      }
      case OP_INSTALL: g3::installCrashHandler(); break;
      case OP_OVERRIDE: {
         std::map<int, std::string> m;
         for (int i = 0; i < 8; ++i) if (o.a >> i & 1) m[kOver[i]] = "SIG" + std::to_string(kOver[i]);
         g3::overrideSetupSignals(m);
         break;
      }
      case OP_RESTORE_DEFAULT: g3::internal::restoreFatalHandlingToDefault(); break;
      case OP_RESTORE_SIG: g3::restoreSignalHandler(o.a); break;
      case OP_PROBE_DISP: for (int s : kProbe) sim_probe_disposition(s); break;
      case OP_EX_NEW: { std::unique_ptr<kjellkod::Active> e; { Arm a; e = kjellkod::Active::createActive(); } exstate[o.a].self = e.get(); execs[o.a] = std::move(e); break; }
      case OP_EX_SEND: if (execs[o.a]) { int ex = o.a, t = o.b, nest = o.c; execs[o.a]->send([ex, t, nest] { run_task(ex, t, nest); }); } else res = 9; break;
      case OP_EX_SPAWN: {
         int ex = o.a, t = o.b, nest = o.d;
         kjellkod::Active* w = execs[ex].get();
         switch (o.c) {
         case CK_VOID: keep(t, g3::spawn_task([ex, t, nest] { run_task(ex, t, nest); }, w)); break;
         case CK_THROW: keep(t, g3::spawn_task([ex, t, nest]() -> int { run_task(ex, t, nest); if (t % 3 == 0) throw AppError{t}; throw std::runtime_error("call " + std::to_string(t)); }, w)); break;
         case CK_MOVE: keep(t, g3::spawn_task([ex, t, nest] { run_task(ex, t, nest); return std::make_unique<int>(t * 7 + 3); }, w)); break;
         case CK_STRING: { std::string x = "text" + std::to_string(t); keep(t, g3::spawn_task([ex, t, nest, x] { run_task(ex, t, nest); return x + "/" + std::to_string(t); }, w)); x.assign("scribble"); break; }
         default: keep(t, g3::spawn_task([ex, t, nest] { run_task(ex, t, nest); return t * 7 + 3; }, w)); break;
         }
         break;
      }
      case OP_EX_DEL: execs[o.a].reset(); break;
      case OP_EX_NULL: keep(o.a, g3::spawn_task([] { return 1; }, (kjellkod::Active*)nullptr)); break;
      case OP_Q_PUSH: { QItem q; q.v = o.b; q.s = std::string("item number ") + std::to_string(o.b); queues[o.a].push(std::move(q)); break; }
      case OP_Q_POP: case OP_Q_TRY: {
         QItem q;
         bool ok = true;
         if (o.kind == OP_Q_POP) queues[o.a].wait_and_pop(q); else ok = queues[o.a].try_and_pop(q);
         if (!ok) extra = (uint64_t)-1;
         else { extra = (uint64_t)(int64_t)q.v; if (q.s != std::string("item number ") + std::to_string(q.v)) res = 5; }
         break;
      }
      case OP_Q_SIZE: extra = queues[o.a].size(); break;
      case OP_Q_EMPTY: extra = queues[o.a].empty(); break;
      case OP_MAXSIZE:
#ifdef G3_DYNAMIC_MAX_MESSAGE_SIZE
         g3::only_change_at_initialization::setMaxMessageSize(o.a);
         g_limit = o.a;
#endif
         break;
      case OP_KILL: kill(getpid(), SIGKILL); break;
      default: break;
      }
   } catch (const std::bad_alloc&) { res = 2; }
   catch (const std::exception&) { res = 3; }
   catch (...) { res = 4; }
   if (o.kind == OP_Q_POP || o.kind == OP_Q_TRY || o.kind == OP_Q_SIZE || o.kind == OP_Q_EMPTY) sim_event(EV_OP_END, o.kind, idx, extra, res);
   else sim_event(EV_OP_END, o.kind, idx, id, res);
}

void run_thread(int k) {
   ctx = &ctxs[k];
   ctx->k = k;
   for (uint32_t i = 0; i < sim_shm->nops; ++i)
      if (sim_shm->ops[i].thread == k) exec_op(sim_shm->ops[i], i);
   for (auto& h : ctx->h) h.reset();
   if (k) sim_event(EV_NOTE, 2, k, 0, 0);
}
}  // namespace

extern "C" void sim_async_signal(int sig, bool begin) {
   sim_event(begin ? EV_OP_BEGIN : EV_OP_END, OP_SIGNAL, 1u << 20, begin ? sig : 0, 0);
   if (begin) sim_counter_add(CTR_BEGIN, 1);
}
extern "C" void app_main() {
   main_thread = pthread_self();
   g_stamp = sim_shm->cfg.params[0] != 0;
   sim_register_handlers((void*)hA, (void*)hB);
   sim_event(EV_NOTE, 1, 0, 0, 0);
   run_thread(0);
   for (auto& t : threads) if (t.joinable()) t.join();
   for (auto& f : futs) f.reset();
   for (auto& h : sink_handles) h.reset();
   for (int i = 0; i < MAXW; ++i) if (workers[i]) {
      sim_event(EV_OP_BEGIN, OP_WORKER_DEL, 1u << 21, i, 0);
      workers[i].reset();
      sim_event(EV_OP_END, OP_WORKER_DEL, 1u << 21, i, 0);
   }
   for (auto& e : execs) e.reset();
   sim_event(EV_NOTE, 3, 0, 0, 0);
}

// things the C++ run time sets up lazily: done once before any simulated run
extern "C" void app_prewarm() {
   std::ostringstream o;
   o << 12 << "x" << 1.5 << std::boolalpha << true << std::endl;
   std::cerr.flush();
   std::string s = o.str() + std::to_string(42);
   tzset();
   time_t t = 1000000;
   struct tm tmv;
   localtime_r(&t, &tmv);
   char b[64];
   strftime(b, sizeof b, "%a %b %d %H:%M:%S %Y", &tmv);
   try { throw std::runtime_error("warm"); } catch (...) {}
   std::ostringstream id;
   id << std::this_thread::get_id();
}
