// Driver: explores seeds, replays and minimises recorded runs. One process forks one child per simulated run.
#include "scen.h"

#include <dirent.h>
#include <errno.h>
#include <fcntl.h>
#include <signal.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>

#include <algorithm>
#include <fstream>
#include <iostream>
#include <sstream>

extern uint64_t obl_count;     // obligations checked by the oracles (see oracle.cpp)

namespace {
std::string g_scratch, g_dir;
double now_s() { struct timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec * 1e-9; }

void rm_tree_contents(const std::string& d) {   // only below our own scratch directory
   if (d.compare(0, g_scratch.size(), g_scratch) != 0 || g_scratch.size() < 8) return;
   DIR* p = opendir(d.c_str());
   if (!p) return;
   while (struct dirent* e = readdir(p)) {
      std::string n = e->d_name;
      if (n == "." || n == "..") continue;
      std::string f = d + "/" + n;
      struct stat st;
      if (lstat(f.c_str(), &st) == 0 && S_ISDIR(st.st_mode)) { rm_tree_contents(f); rmdir(f.c_str()); }
      else unlink(f.c_str());
   }
   closedir(p);
}
void make_scratch() {
   std::string base = access("/dev/shm", W_OK) == 0 ? "/dev/shm" : "/tmp";
   g_scratch = base + "/g3sim." + std::to_string(getpid());
   mkdir(g_scratch.c_str(), 0700);
   g_dir = g_scratch + "/run";
   mkdir(g_dir.c_str(), 0700);
}
void drop_scratch() { rm_tree_contents(g_scratch); rmdir(g_scratch.c_str()); }

void prepare_dir(bool files) {
   rm_tree_contents(g_dir);
   if (files) {
      mkdir((g_dir + "/d0").c_str(), 0700);
      mkdir((g_dir + "/d1").c_str(), 0700);
      mkdir((g_dir + "/d2").c_str(), 0700);
      mkdir((g_dir + "/d2/sub").c_str(), 0700);
   }
}
int g_alarm = 40;
// executes what is in sim_shm
void run_child(bool files) {
   prepare_dir(files);
   sim_shm->outcome = OUT_NONE;
   sim_shm->hist_len = 0;
   memset(sim_shm->exp, 0, sizeof(SimExpect) * (sim_shm->max_uid + 1));
   sim_shm->max_uid = 0;
   sim_shm->notext_uid = 0;
   pid_t p = fork();
   if (p == 0) {
      if (chdir(g_dir.c_str())) _exit(3);
      struct rlimit rl = {0, 0};
      setrlimit(RLIMIT_CORE, &rl);
      rl.rlim_cur = rl.rlim_max = 64u << 20;
      setrlimit(RLIMIT_FSIZE, &rl);
      signal(SIGXFSZ, SIG_IGN);
      alarm(g_alarm);
      sim_child_run(app_main);
   }
   int st = 0;
   while (waitpid(p, &st, 0) < 0 && errno == EINTR) {}
   if (sim_shm->outcome == OUT_NONE) {
      sim_shm->outcome = OUT_ENGINE;
      snprintf(sim_shm->detail, sizeof sim_shm->detail, "child ended without a record: status %x", st);
   }
}
struct Rec {
   std::vector<SimDecision> dec;
   std::vector<SimFaultRec> flt;
};
void load(const Scenario& s) {
   sim_shm->cfg = s.cfg;
   sim_shm->nops = (uint32_t)std::min(s.ops.size(), (size_t)SIM_MAXOPS);
   for (uint32_t i = 0; i < sim_shm->nops; ++i) sim_shm->ops[i] = s.ops[i];
   sim_shm->ndec_in = sim_shm->nfault_in = 0;
}
Rec recorded() {
   Rec r;
   r.dec.assign(sim_shm->dec, sim_shm->dec + sim_shm->ndec);
   r.flt.assign(sim_shm->fault, sim_shm->fault + sim_shm->nfault);
   return r;
}
void explore(Scenario& s) {
   load(s);
   if (s.kill_frac && !s.cfg.kill_at) {   // dry run to learn the length
      run_child(s.files);
      uint64_t pts = sim_shm->st.points;
      s.cfg.kill_at = 1 + pts * s.kill_frac / 65536;
      load(s);
   }
   run_child(s.files);
}
void replay(const Scenario& s, const Rec& r) {
   load(s);
   sim_shm->cfg.replay = 1;
   sim_shm->cfg.kill_at = 0;
   std::vector<SimDecision> d = r.dec;
   std::stable_sort(d.begin(), d.end(), [](const SimDecision& a, const SimDecision& b) { return a.task != b.task ? a.task < b.task : a.lp < b.lp; });
   sim_shm->ndec_in = (uint32_t)std::min(d.size(), (size_t)SIM_MAXDEC);
   for (uint32_t i = 0; i < sim_shm->ndec_in; ++i) sim_shm->dec_in[i] = d[i];
   sim_shm->nfault_in = (uint32_t)std::min(r.flt.size(), (size_t)SIM_MAXFREC);
   for (uint32_t i = 0; i < sim_shm->nfault_in; ++i) sim_shm->fault_in[i] = r.flt[i];
   run_child(s.files);
}
Violation judge(const Scenario& s, History* keep = nullptr) {
   if (sim_shm->outcome == OUT_TIMEOUT || sim_shm->outcome == OUT_ENGINE || sim_shm->outcome == OUT_NONE) return Violation();
   History h;
   read_history(h, s);
   if (s.files) read_files(h, g_dir);
   Violation v = check(s, h);
   v.text = printable(v.text);
   if (keep) *keep = std::move(h);
   return v;
}

// ---------------------------------------------------------------- replay files
void cfg_out(std::ostream& o, const SimConfig& c) {
   o << "cfg seed " << c.seed << " strat " << c.strat << " p_sync " << c.p_sync << " p_atomic " << c.p_atomic << " mem_mean " << c.mem_mean << " p_sleeper " << c.p_sleeper << " weight_mode " << c.weight_mode << " reweight " << c.reweight << " pct_depth " << c.pct_depth << " pct_len " << c.pct_len << " max_points " << c.max_points << " hang_idle " << c.hang_idle << " tick_ns " << c.tick_ns << " start_real " << c.start_real << " race_check " << c.race_check << " variant " << c.variant << " kill_at " << c.kill_at << "\n";
   o << "params";
   for (int i = 0; i < 32; ++i) o << ' ' << c.params[i];
   o << "\nfrate";
   for (int i = 0; i < F_KINDS; ++i) o << ' ' << c.frate[i];
   o << "\nfcap";
   for (int i = 0; i < F_KINDS; ++i) o << ' ' << c.fcap[i];
   o << "\n";
}
void save(const std::string& file, const Scenario& s, const Rec& r, const Violation& v, uint64_t seed, uint64_t hash) {
   std::ofstream o(file);
   o << "g3sim-replay 1\nprop " << s.prop << "\nvariant " << s.variant << "\nfamily " << s.family << "\nseed " << seed << "\nfiles " << s.files << "\n";
   o << "class " << v.cls << "\n";
   std::string t = v.text;
   for (auto& c : t) if (c == '\n') c = ' ';
   o << "what " << t << "\nhash " << hash << "\n";
   cfg_out(o, s.cfg);
   for (auto& p : s.ops) o << "op " << p.thread << ' ' << op_names[p.kind] << ' ' << p.a << ' ' << p.b << ' ' << p.c << ' ' << p.d << ' ' << p.e << "\n";
   for (auto& d : r.dec) o << "dec " << d.task << ' ' << d.lp << ' ' << d.target << "\n";
   for (auto& f : r.flt) o << "fault " << sim_fault_names[f.kind] << ' ' << f.task << ' ' << f.nth << ' ' << f.value << "\n";
   o << "end\n";
}
bool read_replay(const std::string& file, Scenario& s, Rec& r, Violation& v, uint64_t& seed, uint64_t& hash) {
   std::ifstream in(file);
   std::string line;
   if (!std::getline(in, line) || line != "g3sim-replay 1") return false;
   memset(&s.cfg, 0, sizeof s.cfg);
   while (std::getline(in, line)) {
      std::istringstream is(line);
      std::string k;
      is >> k;
      if (k == "prop") is >> s.prop;
      else if (k == "variant") is >> s.variant;
      else if (k == "family") is >> s.family;
      else if (k == "seed") is >> seed;
      else if (k == "files") is >> s.files;
      else if (k == "class") v.cls = line.size() > 6 ? line.substr(6) : "";
      else if (k == "what") v.text = line.size() > 5 ? line.substr(5) : "";
      else if (k == "hash") is >> hash;
      else if (k == "cfg") {
         std::string n;
         std::string val;
         while (is >> n >> val) {
            int64_t x = (int64_t)(val[0] == '-' ? strtoll(val.c_str(), nullptr, 10) : (int64_t)strtoull(val.c_str(), nullptr, 10));
            SimConfig& c = s.cfg;
            if (n == "seed") { c.seed = (uint64_t)x; }
            else if (n == "strat") c.strat = (uint32_t)x;
            else if (n == "p_sync") c.p_sync = (uint32_t)x;
            else if (n == "p_atomic") c.p_atomic = (uint32_t)x;
            else if (n == "mem_mean") c.mem_mean = (uint32_t)x;
            else if (n == "p_sleeper") c.p_sleeper = (uint32_t)x;
            else if (n == "weight_mode") c.weight_mode = (uint32_t)x;
            else if (n == "reweight") c.reweight = (uint32_t)x;
            else if (n == "pct_depth") c.pct_depth = (uint32_t)x;
            else if (n == "pct_len") c.pct_len = (uint32_t)x;
            else if (n == "max_points") c.max_points = (uint64_t)x;
            else if (n == "hang_idle") c.hang_idle = (uint32_t)x;
            else if (n == "tick_ns") c.tick_ns = (uint32_t)x;
            else if (n == "start_real") c.start_real = x;
            else if (n == "race_check") c.race_check = (uint32_t)x;
            else if (n == "variant") c.variant = (uint32_t)x;
            else if (n == "kill_at") c.kill_at = (uint64_t)x;
         }
      } else if (k == "params") { for (int i = 0; i < 32; ++i) is >> s.cfg.params[i]; }
      else if (k == "frate") { for (int i = 0; i < F_KINDS; ++i) is >> s.cfg.frate[i]; }
      else if (k == "fcap") { for (int i = 0; i < F_KINDS; ++i) is >> s.cfg.fcap[i]; }
      else if (k == "op") {
         SimOp o;
         std::string n;
         is >> o.thread >> n >> o.a >> o.b >> o.c >> o.d >> o.e;
         o.kind = 0;
         for (int i = 0; i < OP_KINDS; ++i) if (n == op_names[i]) o.kind = (uint16_t)i;
         s.ops.push_back(o);
      } else if (k == "dec") { SimDecision d; is >> d.task >> d.lp >> d.target; r.dec.push_back(d); }
      else if (k == "fault") {
         SimFaultRec f;
         std::string n;
         is >> n >> f.task >> f.nth >> f.value;
         f.kind = 0;
         for (int i = 0; i < F_KINDS; ++i) if (n == sim_fault_names[i]) f.kind = (uint32_t)i;
         r.flt.push_back(f);
      } else if (k == "end") return true;
   }
   return false;
}

// ---------------------------------------------------------------- minimisation
bool removable(int k) {
   switch (k) {
   case OP_LOG: case OP_LOG_BURST: case OP_EXIT_LOG: case OP_CALL: case OP_GET: case OP_SLEEP: case OP_YIELD: case OP_CHECK_OK: case OP_ROTATE: case OP_FILENAME: case OP_CLOCK_STEP: case OP_LEVEL:
   case OP_PROBE_DISP: case OP_Q_TRY: case OP_Q_SIZE: case OP_Q_EMPTY: case OP_EX_SEND: case OP_EX_SPAWN: case OP_EX_GET: case OP_SET_HOOK: case OP_SINK_HOLD: case OP_REMOVE_COPY:
   case OP_SINK_REMOVE: case OP_HANDLE_DROP: case OP_FATAL: case OP_SIGNAL: case OP_SIGDISP: case OP_NOP: case OP_SINK_ADD: case OP_INSTALL: return true;
   default: return false;
   }
}
struct Minimiser {
   Scenario s;
   Rec r;
   std::string cls;
   double deadline;
   uint64_t tries = 0;
   bool test(const Scenario& a, const Rec& b) {
      ++tries;
      replay(a, b);
      Violation v = judge(a);
      return v.cls == cls;
   }
   // re-run on explore mode is not used: decisions stay keyed by thread and local point
   template <class T, class F> void ddmin(std::vector<T>& v, F ok) {
      size_t chunk = v.size();
      while (chunk >= 1 && now_s() < deadline && !v.empty()) {
         bool any = false;
         for (size_t i = 0; i < v.size() && now_s() < deadline;) {
            std::vector<T> c(v.begin(), v.begin() + i);
            c.insert(c.end(), v.begin() + std::min(v.size(), i + chunk), v.end());
            if (ok(c)) { v = c; any = true; }
            else i += chunk;
         }
         if (chunk == 1 && !any) break;
         if (!any || chunk > v.size()) chunk = std::max<size_t>(1, chunk / 2);
      }
   }
   void run() {
      bool waits = false;
      for (auto& o : s.ops) if (o.kind == OP_WAIT_RECV || o.kind == OP_WAIT_EV || o.kind == OP_Q_POP) waits = true;
      bool liveness = cls.find("deadlock") != std::string::npos || cls.find("hang") != std::string::npos;
      // faults and decisions first, then the program, then decisions again
      ddmin(r.flt, [&](const std::vector<SimFaultRec>& c) { Rec q = r; q.flt = c; return test(s, q); });
      ddmin(r.dec, [&](const std::vector<SimDecision>& c) { Rec q = r; q.dec = c; return test(s, q); });
      if (!(waits && liveness)) {
         for (int pass = 0; pass < 2; ++pass)
            for (size_t i = s.ops.size(); i-- > 0 && now_s() < deadline;) {
               if (!removable(s.ops[i].kind)) continue;
               if (waits && (s.ops[i].kind == OP_LOG || s.ops[i].kind == OP_EXIT_LOG || s.ops[i].kind == OP_LOG_BURST)) continue;
               Scenario c = s;
               if (c.ops[i].kind == OP_LOG_BURST && c.ops[i].e > 1) {
                  c.ops[i].e = c.ops[i].e / 2;
                  if (test(c, r)) { s = c; ++i; continue; }
                  c = s;
               }
               c.ops.erase(c.ops.begin() + i);
               if (test(c, r)) s = c;
            }
         ddmin(r.dec, [&](const std::vector<SimDecision>& c) { Rec q = r; q.dec = c; return test(s, q); });
      }
   }
};

std::string json_str(const std::string& s) {
   std::string o = "\"";
   for (unsigned char c : s) {
      if (c == '"' || c == '\\') { o += '\\'; o += c; }
      else if (c < 32 || c > 126) { char b[8]; snprintf(b, sizeof b, "\\u%04x", c); o += b; }
      else o += c;
   }
   return o + "\"";
}
const char* arg(int argc, char** argv, const char* name, const char* def) {
   for (int i = 1; i + 1 < argc; ++i) if (!strcmp(argv[i], name)) return argv[i + 1];
   return def;
}
bool flag(int argc, char** argv, const char* name) { for (int i = 1; i < argc; ++i) if (!strcmp(argv[i], name)) return true; return false; }
}  // namespace

int main(int argc, char** argv) {
   if (argc < 2) { fprintf(stderr, "usage: sim run|replay|minimise|trace ...\n"); return 2; }
   std::string mode = argv[1];
   setenv("TZ", SIM_TZ, 1);
   tzset();
   sim_shm = (SimShm*)mmap(nullptr, sizeof(SimShm), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
   if (sim_shm == MAP_FAILED) { perror("mmap"); return 2; }
   sim_exclude_global(&std::cerr, sizeof std::cerr);
   sim_exclude_global(&std::cout, sizeof std::cout);
   sim_exclude_global(&std::clog, sizeof std::clog);
   sim_exclude_global(&std::cin, sizeof std::cin);
   sim_global_init();
   app_prewarm();
   make_scratch();
   atexit(drop_scratch);
   g_alarm = atoi(arg(argc, argv, "--alarm", "40"));
   int variant = atoi(arg(argc, argv, "--variant", "0"));

   if (mode == "run") {
      std::string prop = arg(argc, argv, "--prop", "C01"), out = arg(argc, argv, "--out", ".");
      if (!prop_known(prop)) { fprintf(stderr, "unknown property\n"); return 2; }
      uint64_t seed0 = strtoull(arg(argc, argv, "--seed", "1"), nullptr, 10), count = strtoull(arg(argc, argv, "--count", "100"), nullptr, 10);
      unsigned w = 0, W = 1;
      sscanf(arg(argc, argv, "--worker", "0/1"), "%u/%u", &w, &W);
      double limit = atof(arg(argc, argv, "--time", "1e9"));
      unsigned maxviol = atoi(arg(argc, argv, "--maxviol", "1"));
      unsigned detn = atoi(arg(argc, argv, "--det", "61"));
      std::set<std::string> known;
      { std::istringstream is(arg(argc, argv, "--known", "")); std::string k; while (std::getline(is, k, '|')) if (!k.empty()) known.insert(k); }
      double t0 = now_s();
      uint64_t runs = 0, outc[16] = {0}, fired[F_KINDS] = {0}, frun[F_KINDS] = {0}, det = 0, detbad = 0, rep = 0, repbad = 0, viol = 0, incon = 0, events = 0, logs = 0, recvs = 0;
      uint64_t points = 0, switches = 0, preempt = 0, syncops = 0, accesses = 0, reused = 0, maxtasks = 0, last = 0, strat1 = 0, memruns = 0, decs = 0;
      double vtime = 0;
      std::map<std::string, uint64_t> known_hits;
      std::set<uint64_t> ihs, hs;
      std::string first_incon;
      bool capped = false;
      for (uint64_t i = w; i < count; i += W) {
         if (now_s() - t0 > limit) { capped = true; break; }
         uint64_t seed = seed0 * 1000000ull + i;
         Scenario s = generate(prop, seed);
         if (s.variant != variant) continue;
         explore(s);
         ++runs;
         last = i;
         SimStats st = sim_shm->st;
         uint32_t oc = sim_shm->outcome;
         outc[oc]++;
         for (int k = 0; k < F_KINDS; ++k) { fired[k] += st.fired[k]; frun[k] += st.fired[k] != 0; }
         points += st.points; switches += st.switches; preempt += st.preemptions; syncops += st.syncops; accesses += st.accesses; reused += st.reused; events += st.events;
         if (st.tasks > maxtasks) maxtasks = st.tasks;
         vtime += st.vtime * 1e-9;
         decs += sim_shm->ndec;
         strat1 += s.cfg.strat == 1;
         memruns += s.cfg.mem_mean != 0;
         if (ihs.size() < 4000000) { ihs.insert(st.ihash); hs.insert(st.hash); }
         if (oc == OUT_TIMEOUT || oc == OUT_ENGINE) {
            ++incon;
            if (first_incon.empty()) first_incon = std::to_string(seed) + ": " + sim_outcome_names[oc] + " " + sim_shm->detail;
            continue;
         }
         Rec r = recorded();
         uint64_t hash = st.hash;
         bool overflow = sim_shm->dec_overflow;
         History h;
         Violation v = judge(s, &h);
         logs += h.logs.size();
         for (auto& x : h.sinks) recvs += x.second.rv.size();
         if (v.hit()) {
            // a violation counts only if the same seed gives the same run again, and the recorded decisions do too
            explore(s);
            bool same = sim_shm->st.hash == hash;
            Violation v2 = judge(s);
            replay(s, r);
            bool same_r = sim_shm->st.hash == hash;
            Violation v3 = judge(s);
            bool ok = same && v2.cls == v.cls && v3.cls == v.cls && !overflow;
            (void)same_r;
            if (!ok) { ++detbad; fprintf(stderr, "not reproduced: seed %lu class %s / %s / %s (hash %d %d)\n", seed, v.cls.c_str(), v2.cls.c_str(), v3.cls.c_str(), same, same_r); continue; }
            bool kn = known.count(v.cls) != 0;
            if (kn) {
               if (known_hits[v.cls]++ == 0) save(out + "/known-" + prop + "-" + std::to_string(seed) + ".replay", s, r, v, seed, hash);
               continue;
            }
            ++viol;
            std::string f = out + "/viol-" + prop + "-" + std::to_string(seed) + ".replay";
            save(f, s, r, v, seed, hash);
            printf("VIOL %s seed=%lu class=%s :: %s\n", f.c_str(), seed, v.cls.c_str(), v.text.c_str());
            fflush(stdout);
            if (viol >= maxviol) break;
            continue;
         }
         if (detn && runs % detn == 1) {
            ++det;
            explore(s);
            if (sim_shm->st.hash != hash) { ++detbad; fprintf(stderr, "determinism: seed %lu differs\n", seed); }
            if (!overflow) {
               ++rep;
               replay(s, r);
               if (sim_shm->st.hash != hash) { ++repbad; fprintf(stderr, "replay: seed %lu differs\n", seed); }
            }
         }
      }
      double dt = now_s() - t0;
      std::string hf = out + "/hash-" + std::to_string(variant) + "-" + std::to_string(w) + ".bin";
      std::ofstream hb(hf, std::ios::binary);
      for (uint64_t x : ihs) hb.write((char*)&x, 8);
      std::ostringstream o;
      o << "{\"runs\":" << runs << ",\"seconds\":" << dt << ",\"capped\":" << (capped ? "true" : "false") << ",\"last\":" << last << ",\"violations\":" << viol << ",\"inconclusive\":" << incon << ",\"first_inconclusive\":" << json_str(first_incon)
        << ",\"determinism_checked\":" << det << ",\"determinism_bad\":" << detbad << ",\"replay_checked\":" << rep << ",\"replay_bad\":" << repbad
        << ",\"points\":" << points << ",\"switches\":" << switches << ",\"preemptions\":" << preempt << ",\"syncops\":" << syncops << ",\"accesses\":" << accesses << ",\"reused\":" << reused << ",\"events\":" << events << ",\"max_threads\":" << maxtasks
        << ",\"virtual_seconds\":" << vtime << ",\"log_statements\":" << logs << ",\"receives\":" << recvs << ",\"obligations\":" << obl_count << ",\"decisions\":" << decs << ",\"pct_runs\":" << strat1 << ",\"memory_preemption_runs\":" << memruns
        << ",\"distinct_traces\":" << hs.size() << ",\"outcomes\":{";
      bool c = false;
      for (int k = 0; k < 14; ++k) if (outc[k]) { o << (c ? "," : "") << json_str(sim_outcome_names[k]) << ":" << outc[k]; c = true; }
      o << "},\"faults\":{";
      for (int k = 0; k < F_KINDS; ++k) o << (k ? "," : "") << json_str(sim_fault_names[k]) << ":[" << fired[k] << "," << frun[k] << "]";
      o << "},\"known\":{";
      c = false;
      for (auto& x : known_hits) { o << (c ? "," : "") << json_str(x.first) << ":" << x.second; c = true; }
      o << "}}";
      printf("STATS %s\n", o.str().c_str());
      return 0;
   }
   if (mode == "show") {
      Scenario s = generate(arg(argc, argv, "--prop", "C01"), strtoull(arg(argc, argv, "--seed", "1"), nullptr, 10));
      cfg_out(std::cout, s.cfg);
      std::cout << describe(s);
      return 0;
   }
   if (mode == "trace") {   // one exploration run, whole trace
      Scenario s = generate(arg(argc, argv, "--prop", "C01"), strtoull(arg(argc, argv, "--seed", "1"), nullptr, 10));
      if (s.variant != variant) { printf("other variant\n"); return 2; }
      explore(s);
      if (const char* f = arg(argc, argv, "--save", nullptr)) save(f, s, recorded(), judge(s), strtoull(arg(argc, argv, "--seed", "1"), nullptr, 10), sim_shm->st.hash);
      std::cout << describe(s);
      History h;
      Violation v = judge(s, &h);
      if (h.ev.empty()) read_history(h, s);
      std::cout << trace_text(h, (size_t)atol(arg(argc, argv, "--tail", "100000")));
      std::cout << "outcome " << sim_outcome_names[sim_shm->outcome] << " " << sim_shm->code << " " << sim_shm->detail << " points " << sim_shm->st.points << " hash " << sim_shm->st.hash << " dec " << sim_shm->ndec << "\n";
      std::cout << "verdict " << v.cls << " :: " << v.text << "\n";
      if (flag(argc, argv, "--files")) for (auto& f : h.files) std::cout << "---- " << f.first << "\n" << f.second.content << "\n";
      return 0;
   }
   if (mode == "replay" || mode == "minimise") {
      if (argc < 3) return 2;
      Scenario s;
      Rec r;
      Violation v;
      uint64_t seed = 0, hash = 0;
      if (!read_replay(argv[2], s, r, v, seed, hash)) { fprintf(stderr, "cannot read replay file\n"); return 2; }
      if (s.variant != variant) { fprintf(stderr, "replay file is for the other build variant\n"); return 2; }
      if (mode == "minimise") {
         Minimiser m;
         m.s = s; m.r = r; m.cls = v.cls;
         m.deadline = now_s() + atof(arg(argc, argv, "--time", "40"));
         size_t o0 = s.ops.size(), d0 = r.dec.size(), f0 = r.flt.size();
         if (!m.test(s, r)) { printf("NOTREPRODUCED\n"); return 1; }
         m.run();
         replay(m.s, m.r);
         uint64_t h2 = sim_shm->st.hash;
         Violation v2 = judge(m.s);
         if (v2.cls != v.cls) { printf("NOTREPRODUCED\n"); return 1; }
         save(argv[3], m.s, m.r, v2, seed, h2);
         printf("MINIMISED ops %zu->%zu decisions %zu->%zu faults %zu->%zu tries %lu\n", o0, m.s.ops.size(), d0, m.r.dec.size(), f0, m.r.flt.size(), (unsigned long)m.tries);
         return 0;
      }
      replay(s, r);
      uint64_t h2 = sim_shm->st.hash;
      History h;
      Violation v2 = judge(s, &h);
      bool quiet = flag(argc, argv, "--quiet");
      if (!quiet) {
         std::cout << describe(s);
         if (h.ev.empty()) read_history(h, s);
         std::cout << trace_text(h, (size_t)atol(arg(argc, argv, "--tail", "400")));
         if (flag(argc, argv, "--files")) for (auto& f : h.files) std::cout << "---- " << f.first << "\n" << f.second.content << "\n";
      }
      printf("REPLAY class=%s hash=%lu recorded=%lu same=%d what=%s\n", v2.cls.c_str(), (unsigned long)h2, (unsigned long)hash, h2 == hash, v2.text.c_str());
      return v2.hit() ? 1 : 0;
   }
   return 2;
}
