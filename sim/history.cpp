// Turns the recorded events of one run into a structured history; parses log files; prints traces.
#include "scen.h"

#include <dirent.h>
#include <cxxabi.h>
#include <dlfcn.h>
#include <elf.h>
#include <string.h>
#include <sys/stat.h>

#include <algorithm>
#include <fstream>
#include <sstream>

void read_history(History& h, const Scenario& s) {
   uint64_t off = 0;
   h.ev.reserve(sim_shm->st.events + 1);
   while (off + sizeof(SimEvent) <= sim_shm->hist_len) {
      SimEvent* e = (SimEvent*)(sim_shm->hist + off);
      Ev x;
      x.type = e->type; x.task = e->task; x.a = e->a; x.b = e->b; x.c = e->c; x.d = e->d; x.mono = e->mono; x.real = e->real;
      x.seq = h.ev.size() + 1;
      if (e->datalen) x.data.assign((char*)(e + 1), e->datalen);
      off += sizeof(SimEvent) + ((e->datalen + 7) & ~7ull);
      h.ev.push_back(std::move(x));
   }
   h.outcome = sim_shm->outcome;
   h.code = sim_shm->code;
   h.end_seq = h.ev.size() + 1;
   std::map<int, std::vector<int>> open;          // per task: open operations
   std::map<int, std::vector<std::pair<int, int>>> orecv, ocall;
   for (auto& e : h.ev) {
      uint64_t pos = e.seq;
      switch (e.type) {
      case EV_OP_BEGIN: {
         OpRec o;
         o.kind = (int)e.a; o.idx = (int)e.b; o.task = (int)e.task; o.a = (int64_t)e.c; o.arg = (int64_t)e.d; o.b = pos; o.e = 0; o.res = 0; o.ret = 0;
         open[o.task].push_back((int)h.ops.size());
         h.ops.push_back(o);
         if (o.kind == OP_LOG || o.kind == OP_FATAL) {
            LogRec& l = h.logs[(uint32_t)o.a];
            l.uid = (uint32_t)o.a; l.b = pos; l.e = 0; l.task = o.task; l.op = o.idx; l.cond = o.kind == OP_FATAL || o.arg != 0; l.fatal = o.kind == OP_FATAL; l.br = e.real; l.er = 0;
         }
         if ((o.kind == OP_FATAL || o.kind == OP_SIGNAL) && !h.first_fatal) h.first_fatal = pos;
         if (o.kind == OP_SINK_ADD) {
            const SimOp& p = s.ops[o.idx];
            SinkRec& k = h.sinks[p.a];
            k.slot = p.a; k.kind = p.b; k.worker = p.c; k.beh = p.d; k.param = p.e; k.addB = pos;
         }
         if (o.kind == OP_CALL) {
            PostedCall p;
            bool self = o.idx == (1 << 20);
            p.call = (int)o.arg; p.slot = (int)o.a; p.kind = self ? (int)CK_VALUE : s.ops[o.idx].c; p.task = o.task; p.b = pos; p.e = 0; p.res = 0;
            h.calls[p.call] = p;
         }
         if (o.kind == OP_ROTATE || o.kind == OP_FILENAME) {
            PostedCall p;
            p.call = s.ops[o.idx].b; p.slot = s.ops[o.idx].a; p.kind = 100 + o.kind; p.task = o.task; p.b = pos; p.e = 0; p.res = 0;
            h.calls[p.call] = p;
         }
         break;
      }
      case EV_OP_END: {
         auto& st = open[(int)e.task];
         int k = (int)st.size() - 1;
         while (k >= 0 && !(h.ops[st[k]].kind == (int)e.a && h.ops[st[k]].idx == (int)e.b)) --k;
         if (k < 0) break;
         OpRec& o = h.ops[st[k]];
         st.resize(k);
         o.e = pos; o.ret = (int64_t)e.c; o.res = (int64_t)e.d;
         if (o.kind == OP_LOG || o.kind == OP_FATAL) { LogRec& l = h.logs[(uint32_t)o.a]; l.e = pos; l.res = (int)o.res; l.er = e.real; }
         if (o.kind == OP_SINK_ADD) { SinkRec& x = h.sinks[s.ops[o.idx].a]; x.addE = pos; x.addRes = (int)o.res; }
         if (o.kind == OP_CALL) { auto& c = h.calls[(int)o.arg]; c.e = pos; c.res = o.idx == (1 << 20) ? 0 : (int)o.res; }
         if (o.kind == OP_ROTATE || o.kind == OP_FILENAME) { auto& c = h.calls[s.ops[o.idx].b]; c.e = pos; c.res = (int)o.res; }
         if (o.kind == OP_SINK_HOLD && o.res == 0) h.sinks[(int)o.a].held = true;
         break;
      }
      case EV_RECV: {
         SinkRec& k = h.sinks[(int)e.a];
         Recv r;
         r.code = e.b; r.fl = (uint32_t)e.c; r.seq = pos; r.end = 0; r.task = (int)e.task; r.ts = (int64_t)e.d;
         orecv[(int)e.task].push_back({(int)e.a, (int)k.rv.size()});
         k.rv.push_back(r);
         break;
      }
      case EV_RECV_END: {
         auto& st = orecv[(int)e.task];
         if (!st.empty()) { h.sinks[st.back().first].rv[st.back().second].end = pos; st.pop_back(); }
         break;
      }
      case EV_CALL: {
         SinkRec& k = h.sinks[(int)e.a];
         CallX c;
         c.call = (int)e.b; c.seq = pos; c.end = 0; c.task = (int)e.task;
         ocall[(int)e.task].push_back({(int)e.a, (int)k.cx.size()});
         k.cx.push_back(c);
         break;
      }
      case EV_CALL_END: {
         auto& st = ocall[(int)e.task];
         if (!st.empty()) { h.sinks[st.back().first].cx[st.back().second].end = pos; st.pop_back(); }
         break;
      }
      case EV_SINK_CTOR: h.sinks[(int)e.a].nctor++; h.sinks[(int)e.a].ctor = pos; break;
      case EV_SINK_DTOR: h.sinks[(int)e.a].ndtor++; h.sinks[(int)e.a].dtor = pos; break;
      case EV_SINK_DTOR_END: h.sinks[(int)e.a].dtorEnd = pos; break;
      case EV_FUT: {
         FutRec f;
         f.call = (int)e.a; f.status = (int)e.b; f.val = (int64_t)e.c; f.data = e.data; f.seq = pos;
         h.futs[f.call] = f;
         break;
      }
      case EV_STDERR: h.err[(int)e.task] += e.data; break;
      case EV_NOTE: if (e.a == 1) h.app_tasks.insert((int)e.task); break;
      default: break;
      }
   }
   // which of the repeated statements was it?
   for (auto& lv : h.logs) {
      if ((size_t)lv.second.op >= s.ops.size()) continue;   // logged by a sink
      const SimOp& o = s.ops[lv.second.op];
      if (o.b == LF_REPEAT && (o.kind == OP_LOG || o.kind == OP_LOG_BURST || o.kind == OP_EXIT_LOG)) h.repeats.push_back(lv.first);
   }
   std::sort(h.repeats.begin(), h.repeats.end(), [&](uint32_t x, uint32_t y) { return h.logs[x].b < h.logs[y].b; });
   for (auto& kv : h.sinks)
      for (auto& r : kv.second.rv)
         if (r.code == REPEAT_UID) r.code = which_repeat(h, r.ts, kv.second.kind == SK_STR);
   // detaching operations
   for (auto& kv : h.sinks) {
      SinkRec& k = kv.second;
      if (!k.addB) continue;
      for (auto& o : h.ops) {
         if (o.res == 9) continue;
         bool d = false;
         if (o.kind == OP_SINK_REMOVE || o.kind == OP_REMOVE_COPY) d = o.a == k.slot;
         else if (o.kind == OP_REMOVE_ALL || o.kind == OP_WORKER_DEL) d = o.a == k.worker;
         if (!d) continue;
         if (o.e && o.e < k.addB) continue;                 // before it was added
         if (o.kind == OP_WORKER_DEL) {
            // a worker number can be used again: only the life in which the sink was added counts
            bool newer = false;
            for (auto& n : h.ops) if (n.kind == OP_WORKER_NEW && n.a == k.worker && n.b > k.addB && n.b < o.b) newer = true;
            if (newer) continue;
         }
         if (!k.detB || o.b < k.detB) k.detB = o.b;
         if (o.e && k.addE && o.b > k.addE && (!k.detE || o.e < k.detE)) k.detE = o.e;
      }
   }
}

uint64_t which_repeat(const History& h, int64_t st, bool us) {
   auto lies = [&](const LogRec& l) { return us ? l.br / 1000 < st && (!l.e || st < l.er / 1000) : l.br < st && (!l.e || st < l.er); };
   size_t a = 0, b = h.repeats.size();   // the last one that began before
   while (a < b) { size_t m = (a + b) / 2; if (us ? h.logs.at(h.repeats[m]).br / 1000 < st : h.logs.at(h.repeats[m]).br < st) a = m + 1; else b = m; }
   return a && lies(h.logs.at(h.repeats[a - 1])) ? h.repeats[a - 1] : (uint64_t)MSG_UNKNOWN;
}

// ---------------------------------------------------------------- files
static void walk(const std::string& base, const std::string& rel, std::vector<std::string>& out) {
   DIR* d = opendir((base + "/" + rel).c_str());
   if (!d) return;
   while (struct dirent* e = readdir(d)) {
      std::string n = e->d_name;
      if (n == "." || n == "..") continue;
      std::string r = rel.empty() ? n : rel + "/" + n;
      struct stat st;
      if (lstat((base + "/" + r).c_str(), &st)) continue;
      if (S_ISDIR(st.st_mode)) walk(base, r, out);
      else out.push_back(r);
   }
   closedir(d);
}
static bool stamp_at(const std::string& s, size_t p) {
   static const char pat[] = "dddd/dd/dd dd:dd:dd dddddd";
   if (p + 26 > s.size()) return false;
   for (int i = 0; i < 26; ++i) {
      char c = s[p + i];
      if (pat[i] == 'd' ? (c < '0' || c > '9') : c != pat[i]) return false;
   }
   return true;
}
void read_files(History& h, const std::string& dir) {
   std::vector<std::string> names;
   walk(dir, "", names);
   for (auto& n : names) {
      FileRec f;
      f.name = n;
      std::ifstream in(dir + "/" + n, std::ios::binary);
      std::ostringstream o;
      o << in.rdbuf();
      f.content = o.str();
      const std::string& s = f.content;
      static const std::string close = "g3log g3FileSink shutdown at: ";
      // boundaries: every time stamp (entries and change notes) and the closing line
      std::vector<std::pair<size_t, bool>> bd;
      for (size_t p = 0; p + 26 < s.size(); ++p) {
         if (s[p + 4] != '/' || !stamp_at(s, p)) continue;
         if (p && s[p - 1] >= '0' && s[p - 1] <= '9' && false) continue;
         bool entry = s[p + 26] == '\t' || s.compare(p + 26, 7, "\n\n*****") == 0;
         bd.push_back({p, entry});
         p += 25;
      }
      for (size_t p = s.find(close); p != std::string::npos; p = s.find(close, p + 1)) bd.push_back({p, false});
      static const std::string head = "\t\tg3log created log at: ";
      for (size_t p = s.find(head); p != std::string::npos; p = s.find(head, p + 1)) bd.push_back({p, false});
      // a header that a kill cut short
      for (size_t c = 3; c < head.size() && c <= s.size(); ++c) if (s.compare(s.size() - c, c, head, 0, c) == 0) bd.push_back({s.size() - c, false});
      std::sort(bd.begin(), bd.end());
      for (size_t i = 0; i < bd.size(); ++i) {
         if (!bd[i].second) continue;
         size_t b = bd[i].first, lim = i + 1 < bd.size() ? bd[i + 1].first : s.size();
         FileEntry x;
         x.off = b; x.fl = 0; x.stamp = -1;
         uint32_t fl = 0;
         int64_t st = -1;
         // non-fatal: ends at the first newline behind the stamp
         size_t from = b + 26, det = s.find("]\t", from);
         if (s[from] == '\t' && det != std::string::npos && det < s.find('\n', from)) { size_t tl = sim_text_length(s.data() + det + 2, s.size() - det - 2); if (tl) from = std::min(det + 2 + tl, s.size()); }   // the text itself may have newlines
         size_t nl = s[b + 26] == '\t' ? s.find('\n', from) : std::string::npos;
         // g3log's own texts of several lines continue with two tabs (a file header does too)
         while (nl != std::string::npos && nl < lim && nl + 1 < lim && s.compare(nl + 1, 2, "\t\t") == 0 && s.size() > nl + 3) nl = s.find('\n', nl + 1);
         bool fatal = s[b + 26] != '\t';
         if (nl != std::string::npos && nl < lim) {
            static const char* mark[] = {"\n\t*******\t EXIT trigger", "*******UNKNOWN"};
            if (s.compare(nl, strlen(mark[0]), mark[0]) == 0) fatal = true;
            if (nl >= strlen(mark[1]) && s.substr(b, nl - b).find(mark[1]) != std::string::npos) fatal = true;
         }
         size_t e = fatal ? lim : (nl != std::string::npos && nl < lim ? nl + 1 : lim);
         int full = 0;
         x.code = sim_check_formatted(s.data() + b, e - b, &fl, &st, 0);
         if (fl & 0xffff) {
            uint32_t f2 = 0;
            int64_t s2 = -1;
            uint64_t c2 = sim_check_formatted(s.data() + b, e - b, &f2, &s2, 1);
            if (!(f2 & 0xffff)) { x.code = c2; fl = f2; st = s2; full = 1; }
         }
         (void)full;
         if (x.code == REPEAT_UID) x.code = which_repeat(h, st, true);
         x.fl = fl; x.stamp = st; x.end = e;
         x.complete = !(fl & 0xffff) && (fatal || (e > b && s[e - 1] == '\n'));
         f.en.push_back(x);
      }
      h.files[n] = f;
   }
}

// ---------------------------------------------------------------- printing
std::string op_text(const SimOp& o) {
   char b[160];
   snprintf(b, sizeof b, "T%u %-15s %d %d %d %d %d", o.thread, o.kind < OP_KINDS ? op_names[o.kind] : "?", o.a, o.b, o.c, o.d, o.e);
   return b;
}
std::string describe(const Scenario& s) {
   std::ostringstream o;
   o << "property " << s.prop << " variant " << s.variant << " family " << s.family << "\n";
   int i = 0;
   for (auto& p : s.ops) { o << "  " << i++ << ": " << op_text(p) << "\n"; }
   return o.str();
}
// demangled name of the function holding pc: our own symbol table (local functions too), else the dynamic linker's
std::string function_name(uint64_t pc) {
   static std::map<uint64_t, std::pair<uint64_t, std::string>> tab;
   static bool loaded = false;
   if (!loaded) {
      loaded = true;
      std::ifstream in("/proc/self/exe", std::ios::binary);
      std::string b((std::istreambuf_iterator<char>(in)), std::istreambuf_iterator<char>());
      const Elf64_Ehdr* eh = (const Elf64_Ehdr*)b.data();
      if (b.size() > sizeof *eh && eh->e_shoff + (uint64_t)eh->e_shnum * sizeof(Elf64_Shdr) <= b.size()) {
         const Elf64_Shdr* sh = (const Elf64_Shdr*)(b.data() + eh->e_shoff);
         for (int i = 0; i < eh->e_shnum; ++i) {
            if (sh[i].sh_type != SHT_SYMTAB) continue;
            const char* str = b.data() + sh[sh[i].sh_link].sh_offset;
            const Elf64_Sym* sy = (const Elf64_Sym*)(b.data() + sh[i].sh_offset);
            for (size_t k = 0; k < sh[i].sh_size / sizeof(Elf64_Sym); ++k)
               if (ELF64_ST_TYPE(sy[k].st_info) == STT_FUNC && sy[k].st_value) tab[sy[k].st_value] = {sy[k].st_size, str + sy[k].st_name};
         }
      }
   }
   std::string n;
   auto it = tab.upper_bound(pc);
   if (it != tab.begin()) { --it; if (pc < it->first + std::max<uint64_t>(1, it->second.first)) n = it->second.second; }
   Dl_info di;
   if (n.empty() && dladdr((void*)pc, &di) && di.dli_sname) n = di.dli_sname;
   if (n.empty()) return n;
   int st = 0;
   char* d = abi::__cxa_demangle(n.c_str(), nullptr, nullptr, &st);
   if (d) n = d;
   free(d);
   return n;
}
static std::string sym(uint64_t pc) {
   char b[64];
   snprintf(b, sizeof b, "0x%lx", (unsigned long)pc);
   std::string n = function_name(pc);
   return n.empty() ? b : std::string(b) + "(" + n + ")";
}
std::string printable(const std::string& s) {
   std::string o;
   for (unsigned char c : s) {
      if (c == '\n') o += '|';
      else if (c < 32 || c > 126) { char b[8]; snprintf(b, sizeof b, "\\x%02x", c); o += b; }
      else o += c;
   }
   return o;
}
std::string trace_text(const History& h, size_t tail) {
   static const char* nm[] = {"none", "begin", "end", "recv", "recv_end", "call", "call_end", "ctor", "dtor", "dtor_end", "stderr", "future", "hook", "handler", "oldsig", "RACE", "UAF", "blocked", "CRASH", "clock", "raise", "disp", "res", "task", "note", "proc_end", "open", "text"};
   std::ostringstream o;
   size_t from = h.ev.size() > tail ? h.ev.size() - tail : 0;
   for (size_t i = from; i < h.ev.size(); ++i) {
      const Ev& e = h.ev[i];
      char b[256];
      if (e.type == EV_DISP && e.c == 1) continue;
      snprintf(b, sizeof b, "%6lu t%-2u %10.6f %-9s ", (unsigned long)e.seq, e.task, e.mono * 1e-9, nm[e.type]);
      o << b;
      if (e.type == EV_OP_BEGIN || e.type == EV_OP_END) o << op_names[e.a] << " #" << e.b << " " << (int64_t)e.c << " " << (int64_t)e.d;
      else if (e.type == EV_PROC_END) o << sim_outcome_names[e.a] << " " << (int64_t)e.b;
      else if (e.type == EV_RACE) o << sym(e.a) << " / " << sym(e.b) << " addr " << std::hex << e.c << std::dec << " flags " << e.d;
      else if (e.type == EV_UAF || e.type == EV_CRASH) o << sym(e.a) << " " << sym(e.b) << " " << std::hex << e.c << std::dec << " " << e.d;
      else if (e.type == EV_RECV) { o << "slot " << e.a << " code " << (e.b >> 40) << ":" << (e.b & 0xffffffffff) << " flags " << std::hex << e.c << std::dec << " ts " << (int64_t)e.d; }
      else o << (int64_t)e.a << " " << (int64_t)e.b << " " << (int64_t)e.c << " " << (int64_t)e.d;
      if (!e.data.empty()) {
         std::string d = printable(e.data.substr(0, 160));
         o << " \"" << d << "\"";
      }
      o << "\n";
   }
   return o.str();
}
