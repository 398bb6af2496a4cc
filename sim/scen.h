// Scenarios (generated), histories (recorded) and the property oracles.
#pragma once
#include "app.h"

#include <initializer_list>
#include <map>
#include <set>
#include <string>
#include <vector>

struct R {
   uint64_t s;
   explicit R(uint64_t x) : s(x * 0x9E3779B97F4A7C15ull + 0x1234567) {}
   uint64_t next() {
      uint64_t z = (s += 0x9e3779b97f4a7c15ull);
      z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
      z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
      return z ^ (z >> 31);
   }
   int below(int n) { return n > 0 ? (int)((next() >> 33) % (uint64_t)n) : 0; }
   int range(int a, int b) { return a + below(b - a + 1); }
   bool p(int percent) { return below(100) < percent; }
   int pick(std::initializer_list<int> l) { return *(l.begin() + below((int)l.size())); }
};

struct Scenario {
   std::string prop;
   int variant = 0;        // 0 default build, 1 dynamic levels build
   int family = 0;         // sub-family, for statistics
   SimConfig cfg;
   std::vector<SimOp> ops;
   uint32_t kill_frac = 0; // kill -9 at this fraction (/65536) of the run's points
   bool files = false;     // needs directories
};
Scenario generate(const std::string& prop, uint64_t seed, int force_family = -1);
bool prop_known(const std::string& p);

struct Ev {
   uint32_t type, task;
   uint64_t a, b, c, d;
   int64_t mono, real;
   std::string data;
   uint64_t seq;
};
struct LogRec {
   uint32_t uid = 0;
   uint64_t b = 0, e = 0;       // event positions of begin and end (0 = never)
   int task = 0, res = 0, op = 0;
   bool cond = true, fatal = false;
   int64_t br = 0, er = 0;      // system clock at begin and end
};
struct Recv { uint64_t code; uint32_t fl; uint64_t seq, end; int task; int64_t ts; };
struct CallX { int call; uint64_t seq, end; int task; };
struct SinkRec {
   int slot = -1, kind = 0, worker = 0, beh = 0, param = 0;
   uint64_t addB = 0, addE = 0;
   int addRes = 0;
   uint64_t detB = 0, detE = 0; // earliest begin / earliest end of an operation that detaches it
   uint64_t ctor = 0, dtor = 0, dtorEnd = 0;
   int nctor = 0, ndtor = 0;
   bool held = false;
   std::vector<Recv> rv;
   std::vector<CallX> cx;
};
struct OpRec { int kind, idx, task; int64_t a, arg; uint64_t b, e; int64_t res; int64_t ret; };
struct PostedCall { int call, slot, kind, task; uint64_t b, e; int res; };
struct FutRec { int call; int status; int64_t val; std::string data; uint64_t seq; };
struct WorkerRec { int id; uint64_t newE = 0, initB = 0, initE = 0, delB = 0, delE = 0, endB = 0, endE = 0; };   // endX: shutdown or del
struct FileEntry { uint64_t code; uint32_t fl; int64_t stamp; size_t off, end; bool complete; };
struct FileRec { std::string name, content; std::vector<FileEntry> en; };

struct History {
   std::vector<Ev> ev;
   std::map<uint32_t, LogRec> logs;
   std::vector<uint32_t> repeats;       // the LF_REPEAT statements, in order
   std::map<int, SinkRec> sinks;
   std::vector<OpRec> ops;
   std::map<int, PostedCall> calls;
   std::map<int, FutRec> futs;
   std::map<int, WorkerRec> workers;
   std::map<std::string, FileRec> files;
   std::map<int, std::string> err;      // stderr per task
   std::set<int> app_tasks;
   uint64_t end_seq = 0, first_fatal = 0;
   uint32_t outcome = 0;
   int code = 0;
};
struct Violation { std::string cls, text; bool hit() const { return !cls.empty(); } };

void read_history(History& h, const Scenario& s);
uint64_t which_repeat(const History& h, int64_t stamp_ns, bool us);   // MSG_UNKNOWN if there is none
void read_files(History& h, const std::string& dir);
Violation check(const Scenario& s, History& h);
std::string describe(const Scenario& s);
std::string printable(const std::string& s);
std::string trace_text(const History& h, size_t tail);
std::string op_text(const SimOp& o);
std::string function_name(uint64_t pc);
