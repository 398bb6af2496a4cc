// Property oracles: decide for one recorded history whether the property of its scenario held.
#include "scen.h"

#include <signal.h>
#include <stdarg.h>
#include <string.h>

#include <algorithm>
#include <functional>
#include <unordered_map>
#include <unordered_set>

uint64_t obl_count;      // obligations checked in the current process

namespace {
std::string fmt(const char* f, ...) __attribute__((format(printf, 1, 2)));
std::string fmt(const char* f, ...) {
   char b[700];
   va_list a;
   va_start(a, f);
   vsnprintf(b, sizeof b, f, a);
   va_end(a);
   return b;
}
const uint64_t INF = ~0ull;
std::string code_name(uint64_t c) {
   uint64_t k = c >> 40;
   if (k == 0) return fmt("message %lu", (unsigned long)c);
   if (k == 2) return fmt("message for signal %lu", (unsigned long)(c & 0xff));
   if (k == 3) return "worker warning";
   return "unknown message";
}

struct Life { int w; uint64_t ib, ie, eb, ee; };      // definitely active (ie, eb), possibly active (ib, ee)
struct Item { uint64_t code; uint32_t fl; uint64_t seq, end; int64_t ts; };

struct O {
   const Scenario& s;
   History& h;
   Violation v;
   std::vector<Life> lives;
   bool fatal_ends = true;
   bool multi_worker = false;
   std::map<int, std::vector<Item>> got;              // per slot
   std::set<int> skip;                                // slots that complete(), calls() and sinks_once() leave out
   std::map<int, bool> from_file;

   O(const Scenario& a, History& b) : s(a), h(b) { setup(); }
   bool bad(const char* kind, const std::string& text) {
      if (!v.hit()) { v.cls = s.prop + "/" + kind; v.text = text; }
      return false;
   }
   bool ok(uint64_t n = 1) { obl_count += n; return true; }

   void setup() {
      if (s.prop == "C21") fatal_ends = false;
      int nw = 0;
      for (auto& o : h.ops) {
         if (o.kind == OP_SET_HANDLER && (o.a == HD_RECORD || o.a == HD_THROW || o.a == HD_LOG || o.a == HD_NESTED)) fatal_ends = false;
         if (o.kind == OP_WORKER_NEW) ++nw;
      }
      multi_worker = nw > 1;
      for (auto& o : h.ops) {
         if (o.kind != OP_WORKER_INIT || o.a < 0) continue;
         Life l;
         l.w = (int)o.a; l.ib = o.b; l.ie = o.e ? o.e : INF; l.eb = INF; l.ee = INF;
         for (auto& x : h.ops) {
            bool end = x.kind == OP_SHUTDOWN || (x.kind == OP_WORKER_DEL && x.a == l.w) || (fatal_ends && (x.kind == OP_FATAL || x.kind == OP_SIGNAL));
            if (!end) continue;
            uint64_t xe = x.e ? x.e : INF;
            if (xe > l.ib) l.eb = std::min(l.eb, x.b);
            if (x.b > l.ie && x.kind != OP_FATAL && x.kind != OP_SIGNAL) l.ee = std::min(l.ee, xe);
         }
         if (l.eb < l.ie) l.eb = l.ie;
         lives.push_back(l);
      }
      for (auto& kv : h.sinks) {
         SinkRec& k = kv.second;
         std::vector<Item>& g = got[k.slot];
         if (k.kind == SK_FILE) {
            from_file[k.slot] = true;
            std::string pre = (k.param >> 8) ? "same." : "log" + std::to_string(k.slot) + ".";
            for (auto& f : h.files) {
               size_t sl = f.first.rfind('/');
               std::string base = sl == std::string::npos ? f.first : f.first.substr(sl + 1);
               if (base.compare(0, pre.size(), pre)) continue;
               for (auto& e : f.second.en) g.push_back({e.code, e.fl, 0, 0, e.stamp});
            }
         } else for (auto& r : k.rv) g.push_back({r.code, r.fl, r.seq, r.end, r.ts});
      }
   }
   const Life* definite(const LogRec& l) const {
      if (!l.e) return nullptr;
      for (auto& x : lives) if (l.b > x.ie && l.e < x.eb) return &x;
      return nullptr;
   }
   bool possible(const LogRec& l, int w) const {
      for (auto& x : lives) if (x.w == w && (l.e ? l.e : INF) > x.ib && l.b < x.ee) return true;
      return false;
   }
   bool definitely_uninit(const LogRec& l) const {
      if (!l.e) return false;
      for (auto& x : lives) if (l.e > x.ib && l.b < x.ee) return false;
      return true;
   }
   // must sink k receive the message of l (statement finished normally, logger active, sink attached throughout)
   bool must(const LogRec& l, const SinkRec& k) const {
      if (!l.cond || l.fatal || !l.e || l.res || k.addRes || !k.addE) return false;
      const Life* x = definite(l);
      if (!x || x->w != k.worker) return false;
      if (!(l.b > k.addE)) return false;
      if (k.detB && !(l.e < k.detB)) return false;
      return true;
   }
   bool hidden(uint64_t c, const SinkRec&) const { return c == MSG_WARN && multi_worker; }

   // ---- shared checks ----
   bool expect_done() {
      if (h.outcome == OUT_DONE) return ok();
      return unexpected();
   }
   bool unexpected() {
      std::string what = fmt("the process ended with %s (%d) %s", sim_outcome_names[h.outcome], h.code, sim_shm->detail);
      std::string open;
      int n = 0;
      for (auto& o : h.ops) if (!o.e && n++ < 6) open += fmt(" %s#%d(t%d)", op_names[o.kind], o.idx, o.task);
      if (!open.empty()) what += "; unfinished:" + open;
      static const char* cls[] = {"none", "unexpected-end", "unexpected-exit", "unexpected-signal", "killed", "deadlock", "hang", "no-progress", "crash", "use-after-free", "bad-free", "escape", "timeout", "engine"};
      if (h.outcome == OUT_DEADLOCK || h.outcome == OUT_HANG)
         for (auto& e : h.ev) if (e.type == EV_BLOCKED) what += fmt(" [t%d %d]", (int)e.a, (int)e.b);
      return bad(h.outcome < 14 ? cls[h.outcome] : "end", what);
   }
   static bool broken(uint32_t o) { return o == OUT_DEADLOCK || o == OUT_HANG || o == OUT_STEPCAP || o == OUT_CRASH || o == OUT_UAF || o == OUT_BADFREE || o == OUT_ESCAPE; }

   bool integrity(uint32_t ignore = 0) {
      for (auto& e : h.ev) if (e.type == EV_NOTE && e.a == 50) return bad("kept-damaged", fmt("the copy of %s that sink %d kept changed afterwards", code_name(e.c).c_str(), (int)e.b));
      for (auto& kv : h.sinks) {
         SinkRec& k = kv.second;
         std::unordered_set<uint64_t> seen;
         for (auto& r : got[k.slot]) {
            ok();
            if (r.code == MSG_UNKNOWN) return bad("damaged", fmt("sink %d received something that was never logged", k.slot));
            uint32_t f = r.fl & 0xffff & ~ignore;
            if (f & RF_UNEXPECTED) return bad("unexpected", fmt("sink %d received %s, whose condition was false or which was never executed", k.slot, code_name(r.code).c_str()));
            if (f) return bad("damaged", fmt("sink %d received %s with wrong content (flags 0x%x)", k.slot, code_name(r.code).c_str(), f));
            if (hidden(r.code, k)) continue;
            if (r.code == MSG_WARN) return bad("unexpected", fmt("sink %d received a shut-down warning although only one worker exists", k.slot));
            if (!seen.insert(r.code).second) return bad("duplicate", fmt("sink %d received %s twice", k.slot, code_name(r.code).c_str()));
         }
      }
      return true;
   }
   bool complete(std::function<bool(const SinkRec&)> which = nullptr) {
      if (h.outcome != OUT_DONE && h.outcome != OUT_SIGNAL && h.outcome != OUT_EXIT) return true;
      for (auto& kv : h.sinks) {
         SinkRec& k = kv.second;
         if ((which && !which(k)) || skip.count(k.slot)) continue;
         std::unordered_map<uint64_t, const Item*> m;
         for (auto& r : got[k.slot]) m[r.code] = &r;
         for (auto& lv : h.logs) {
            LogRec& l = lv.second;
            if (!must(l, k)) continue;
            ok();
            auto it = m.find(l.uid);
            if (it == m.end()) return bad("lost", fmt("message %u (logged by t%d at #%lu-#%lu) never reached sink %d", l.uid, l.task, (unsigned long)l.b, (unsigned long)l.e, k.slot));
            if (!from_file[k.slot] && !it->second->end) return bad("unfinished", fmt("sink %d was not finished with message %u", k.slot, l.uid));
         }
      }
      return true;
   }
   bool excluded() {
      for (auto& kv : h.sinks) {
         SinkRec& k = kv.second;
         for (auto& r : got[k.slot]) {
            if (r.code >> 40) continue;
            auto it = h.logs.find((uint32_t)r.code);
            ok();
            if (it == h.logs.end()) return bad("unexpected", fmt("sink %d received %s, which was not logged", k.slot, code_name(r.code).c_str()));
            const LogRec& l = it->second;
            if (r.fl & RF_UNINIT) continue;
            if (l.e && k.addB && l.e < k.addB) return bad("too-early", fmt("sink %d received message %u, logged before the sink was added", k.slot, l.uid));
            if (k.detE && l.b > k.detE) return bad("after-removal", fmt("sink %d received message %u, logged after its removal had returned", k.slot, l.uid));
            if (!l.cond) return bad("unexpected", fmt("sink %d received message %u, whose condition was false", k.slot, l.uid));
            if (!possible(l, k.worker)) return bad("wrong-worker", fmt("sink %d of worker %d received message %u, logged while that worker was not active", k.slot, k.worker, l.uid));
            if (r.seq && r.seq < l.b) return bad("damaged", fmt("sink %d received message %u before it was logged", k.slot, l.uid));
         }
      }
      return true;
   }
   bool order() {
      // pairs at one sink against real time, pairs of sinks against each other
      for (auto& kv : h.sinks) {
         uint64_t maxb = 0, who = 0;
         for (auto& r : got[kv.first]) {
            if (r.code >> 40 || (r.fl & RF_UNINIT)) continue;
            auto it = h.logs.find((uint32_t)r.code);
            if (it == h.logs.end()) continue;
            ok();
            if (it->second.e && it->second.e < maxb)
               return bad("real-time-order", fmt("sink %d received message %lu before message %lu, whose statement had completed before the other began", kv.first, (unsigned long)who, (unsigned long)r.code));
            if (it->second.b > maxb) { maxb = it->second.b; who = r.code; }
         }
      }
      std::vector<int> ids;
      for (auto& kv : h.sinks) if (got[kv.first].size() > 1) ids.push_back(kv.first);
      for (size_t a = 0; a < ids.size(); ++a) {
         std::unordered_map<uint64_t, size_t> pos;
         auto& A = got[ids[a]];
         for (size_t i = 0; i < A.size(); ++i) if (A[i].code != MSG_WARN) pos.emplace(A[i].code, i);
         for (size_t b = a + 1; b < ids.size(); ++b) {
            size_t last = 0;
            uint64_t lc = 0;
            bool any = false;
            for (auto& r : got[ids[b]]) {
               auto it = pos.find(r.code);
               if (it == pos.end()) continue;
               ok();
               if (any && it->second < last) return bad("sinks-disagree", fmt("sinks %d and %d received %s and %s in different orders", ids[a], ids[b], code_name(lc).c_str(), code_name(r.code).c_str()));
               any = true; last = it->second; lc = r.code;
            }
         }
      }
      return acyclic();
   }
   bool acyclic() {   // one common order for everything, also across more than two sinks
      std::unordered_map<uint64_t, int> id;
      std::vector<std::vector<int>> out;
      std::vector<int> deg;
      auto node = [&]() { out.emplace_back(); deg.push_back(0); return (int)out.size() - 1; };
      auto edge = [&](int a, int b) { out[a].push_back(b); ++deg[b]; };
      for (auto& kv : h.sinks) {
         int prev = -1;
         for (auto& r : got[kv.first]) {
            if (r.code == MSG_WARN || r.code == MSG_UNKNOWN) continue;
            auto it = id.find(r.code);
            int n = it != id.end() ? it->second : (id[r.code] = node());
            if (prev >= 0 && prev != n) edge(prev, n);
            prev = n;
         }
      }
      std::vector<std::pair<uint64_t, std::pair<int, bool>>> t;   // position -> message, end?
      std::unordered_set<uint64_t> un;
      for (auto& kv : h.sinks) for (auto& r : got[kv.first]) if (r.fl & RF_UNINIT) un.insert(r.code);
      for (auto& lv : h.logs) {
         auto it = id.find(lv.first);
         if (it == id.end() || un.count(lv.first)) continue;
         t.push_back({lv.second.b, {it->second, false}});
         if (lv.second.e) t.push_back({lv.second.e, {it->second, true}});
      }
      std::sort(t.begin(), t.end());
      int prev = -1;
      for (auto& x : t) {
         int n = node();
         if (prev >= 0) edge(prev, n);
         if (x.second.second) edge(x.second.first, n); else edge(n, x.second.first);
         prev = n;
      }
      std::vector<int> q;
      for (size_t i = 0; i < out.size(); ++i) if (!deg[i]) q.push_back((int)i);
      size_t done = 0;
      while (!q.empty()) {
         int n = q.back();
         q.pop_back();
         ++done;
         for (int m : out[n]) if (!--deg[m]) q.push_back(m);
      }
      ok();
      if (done != out.size()) return bad("no-common-order", "the orders seen by the sinks and the order of completed statements contain a cycle");
      return true;
   }
   // is some operation on the handle of this slot under way at [a,b]
   bool handle_busy(int slot, uint64_t a, uint64_t b, const OpRec* except = nullptr) const {
      for (auto& o : h.ops) {
         if (&o == except) continue;
         bool hop = (o.kind == OP_CALL || o.kind == OP_ROTATE || o.kind == OP_FILENAME || o.kind == OP_SINK_HOLD || o.kind == OP_SINK_REMOVE || o.kind == OP_REMOVE_COPY || o.kind == OP_SINK_ADD);
         if (!hop) continue;
         int sl = o.kind == OP_SINK_ADD ? (int)o.a : (int)o.a;
         if (sl != slot) continue;
         if (o.b < b && (o.e ? o.e : INF) > a) return true;
      }
      return false;
   }
   // destruction of a worker: everything delivered, sinks destroyed, nothing afterwards
   bool destruction() {
      for (auto& d : h.ops) {
         if (d.kind != OP_WORKER_DEL || !d.e) continue;
         for (auto& kv : h.sinks) {
            SinkRec& k = kv.second;
            if (k.worker != d.a || !k.addE || k.addRes || k.addE > d.b) continue;
            bool newer = false;
            for (auto& n : h.ops) if (n.kind == OP_WORKER_NEW && n.a == k.worker && n.b > k.addB && n.b < d.b) newer = true;
            if (newer || k.kind == SK_FILE) continue;
            ok(3);
            bool soft = k.held || handle_busy(k.slot, d.b, d.e);
            if (!soft) {
               if (!k.dtorEnd || k.dtorEnd > d.e) return bad("sink-not-destroyed", fmt("sink %d was not destroyed when destruction of worker %ld returned", k.slot, (long)d.a));
               for (auto& r : k.rv) if (!r.end || r.end > d.e) return bad("runs-after-destruction", fmt("sink %d was still busy with %s when destruction of the worker returned", k.slot, code_name(r.code).c_str()));
               for (auto& c : k.cx) if (!c.end || c.end > d.e) return bad("runs-after-destruction", fmt("sink %d was still busy with call %d when destruction of the worker returned", k.slot, c.call));
            }
            if (k.dtor) {
               for (auto& r : k.rv) if (r.seq > k.dtor || r.end > k.dtor) return bad("runs-after-destruction", fmt("sink %d ran after its destructor started", k.slot));
               for (auto& c : k.cx) if (c.seq > k.dtor || c.end > k.dtor) return bad("runs-after-destruction", fmt("sink %d ran after its destructor started", k.slot));
            }
         }
      }
      return true;
   }
   bool sinks_once() {
      for (auto& kv : h.sinks) {
         SinkRec& k = kv.second;
         if (k.kind == SK_FILE || !k.nctor || skip.count(k.slot)) continue;
         ok();
         if (k.ndtor != k.nctor) return bad("not-destroyed-once", fmt("sink %d was constructed %d times and destroyed %d times", k.slot, k.nctor, k.ndtor));
      }
      return true;
   }
   // one call at a time, on a background thread, destructor last
   bool serial() {
      for (auto& kv : h.sinks) {
         SinkRec& k = kv.second;
         std::vector<std::pair<uint64_t, uint64_t>> iv;
         for (auto& r : k.rv) { iv.push_back({r.seq, r.end ? r.end : INF}); ok(); if (h.app_tasks.count(r.task)) return bad("wrong-thread", fmt("sink %d received %s on client thread t%d", k.slot, code_name(r.code).c_str(), r.task)); }
         for (auto& c : k.cx) { iv.push_back({c.seq, c.end ? c.end : INF}); ok(); if (h.app_tasks.count(c.task)) return bad("wrong-thread", fmt("call %d of sink %d ran on client thread t%d", c.call, k.slot, c.task)); }
         if (k.dtor && k.kind != SK_FILE) iv.push_back({k.dtor, k.dtorEnd ? k.dtorEnd : INF});
         std::sort(iv.begin(), iv.end());
         for (size_t i = 1; i < iv.size(); ++i) {
            ok();
            if (iv[i].first < iv[i - 1].second) return bad("overlap", fmt("two calls into sink %d overlapped (#%lu and #%lu)", k.slot, (unsigned long)iv[i - 1].first, (unsigned long)iv[i].first));
         }
         if (k.dtor) for (auto& x : iv) if (x.first > k.dtor) return bad("after-destructor", fmt("sink %d was called after its destructor had started", k.slot));
      }
      for (auto& e : h.ev) if (e.type == EV_NOTE && e.a == 10) return bad("overlap", fmt("two calls into sink %d overlapped", (int)e.b));
      return true;
   }
   bool calls(bool values = true) {
      for (auto& cv : h.calls) {
         PostedCall& c = cv.second;
         if (c.res == 9) continue;
         auto ki = h.sinks.find(c.slot);
         if (ki == h.sinks.end()) continue;
         SinkRec& k = ki->second;
         if (k.kind == SK_FILE || skip.count(k.slot)) continue;
         int n = 0;
         for (auto& o : h.sinks) for (auto& x : o.second.cx) if (x.call == c.call) { ++n; if (o.first != c.slot) return bad("call-wrong-sink", fmt("call %d for sink %d ran at sink %d", c.call, c.slot, o.first)); }
         ok(2);
         if (n > 1) return bad("call-twice", fmt("call %d at sink %d ran %d times", c.call, c.slot, n));
         if (!c.e || c.res) continue;      // not returned / reported failure
         bool sure = k.addE && !k.addRes && c.b > k.addE && (!k.detB || c.e < k.detB) && (h.outcome == OUT_DONE);
         if (sure && n != 1) return bad("call-lost", fmt("call %d posted to attached sink %d never ran", c.call, c.slot));
         bool gone = k.detE && c.b > k.detE && !k.held && k.dtorEnd && k.dtorEnd < c.b;
         if (gone && n) return bad("call-after-removal", fmt("call %d was posted after sink %d was gone, yet it ran", c.call, c.slot));
         auto fi = h.futs.find(c.call);
         if (fi == h.futs.end() || !values) continue;
         FutRec& f = fi->second;
         ok();
         if (f.status == 2) {
            if (n) return bad("call-result", fmt("call %d ran but its future reports that the sink is gone", c.call));
            if (!k.detB || k.detB > c.e) return bad("call-result", fmt("call %d to sink %d, which was not removed, reports that the sink is gone", c.call, c.slot));
            continue;
         }
         if (f.status != 0 && f.status != 1) return bad("call-result", fmt("future of call %d ended in an unexpected way (%d)", c.call, f.status));
         if (n == 0) return bad("call-result", fmt("future of call %d has a result but the call never ran", c.call));
         if (f.status == 1 && c.kind != CK_THROW) return bad("call-result", fmt("future of call %d holds an exception that was not thrown", c.call));
         if (f.status == 0) {
            if (c.kind == CK_THROW) return bad("call-result", fmt("future of call %d lost the exception", c.call));
            if (c.kind == CK_STRING) { if (f.data != "text" + std::to_string(c.call) + "/" + std::to_string(c.call)) return bad("call-result", fmt("future of call %d has the wrong text", c.call)); }
            else if (c.kind != CK_VOID && c.kind < CK_KINDS && f.val != c.call * 7 + 3) return bad("call-result", fmt("future of call %d has value %ld", c.call, (long)f.val));
         }
      }
      return true;
   }
   bool call_order() {
      for (auto& kv : h.sinks) {
         SinkRec& k = kv.second;
         uint64_t maxb = 0;
         int who = 0;
         for (auto& x : k.cx) {
            auto c = h.calls.find(x.call);
            if (c == h.calls.end()) continue;
            ok();
            if (c->second.e && c->second.e < maxb) return bad("call-order", fmt("sink %d ran call %d before call %d, which was posted earlier", k.slot, who, x.call));
            if (c->second.b > maxb) { maxb = c->second.b; who = x.call; }
         }
         // messages handed to this sink before the call was posted come first
         std::unordered_map<uint64_t, uint64_t> at;
         for (auto& r : k.rv) at[r.code] = r.seq;
         for (auto& x : k.cx) {
            auto c = h.calls.find(x.call);
            if (c == h.calls.end()) continue;
            for (auto& ov : h.sinks) {
               SinkRec& o = ov.second;
               if (o.slot == k.slot || o.worker != k.worker || o.kind == SK_FILE) continue;
               size_t n = 0;
               while (n < o.rv.size() && o.rv[n].seq < c->second.b) ++n;
               if (n < 2) continue;
               for (size_t i = 0; i + 1 < n; ++i) {
                  auto it = at.find(o.rv[i].code);
                  if (it == at.end()) continue;
                  ok();
                  if (it->second > x.seq) return bad("call-overtakes", fmt("call %d ran at sink %d before %s, which had been handed to the sink before the call was posted", x.call, k.slot, code_name(o.rv[i].code).c_str()));
               }
            }
         }
      }
      return true;
   }
   // fatal end: which sinks are affected
   bool affected(const SinkRec& k, uint64_t F) const {
      if (!k.addE || k.addRes || k.addE > F) return false;
      if (k.detB) return false;
      for (auto& x : lives) if (x.w == k.worker && x.ie < F && x.eb >= F) return true;
      return false;
   }
   bool is_fatal(uint64_t code, uint32_t fl) const { return (code >> 40) == 2 || (fl & RF_FATAL); }
   // exactly one fatal message, the last one, with the exit note; everything before it delivered; sinks destroyed
   bool flushed(bool destroyed = true) {
      uint64_t F = h.first_fatal;
      if (!F) return true;
      uint64_t common = 0;
      for (auto& kv : h.sinks) {
         SinkRec& k = kv.second;
         if (!affected(k, F)) continue;
         // a file sink that is kept alive does not close its file: the end of it may still be in its buffer
         if (from_file[k.slot] && skip.count(k.slot)) continue;
         if (from_file[k.slot] && (k.held || handle_busy(k.slot, F, INF))) { skip.insert(k.slot); continue; }
         auto& g = got[k.slot];
         int nf = 0;
         for (auto& r : g) if (is_fatal(r.code, r.fl)) ++nf;
         ok(4);
         if (nf == 0) return bad("fatal-not-delivered", fmt("sink %d did not receive the fatal message before the process ended", k.slot));
         if (nf > 1) return bad("fatal-twice", fmt("sink %d received %d fatal messages", k.slot, nf));
         if (!is_fatal(g.back().code, g.back().fl)) return bad("fatal-not-last", fmt("sink %d received %s after the fatal message", k.slot, code_name(g.back().code).c_str()));
         if (!(g.back().fl & RF_EXITNOTE)) return bad("fatal-text", fmt("the fatal message at sink %d does not give the reason for the exit", k.slot));
         if (!from_file[k.slot] && !g.back().end) return bad("fatal-unfinished", fmt("the process ended while sink %d was processing the fatal message", k.slot));
         if (common && common != g.back().code) return bad("fatal-differs", "sinks received different fatal messages");
         common = g.back().code;
         // a client that holds the sink, or a call through its handle that still looks at it, may keep it alive
         if (destroyed && k.kind != SK_FILE && !k.dtorEnd && !k.held && !handle_busy(k.slot, F, INF)) return bad("fatal-sink-alive", fmt("sink %d had not been destroyed when the process ended", k.slot));
      }
      return complete([&](const SinkRec& k) { return affected(k, F); });
   }
   bool fatal_source(std::set<uint64_t>* codes, std::set<int>* sigs) {
      for (auto& o : h.ops) {
         if (o.kind == OP_FATAL) { codes->insert((uint64_t)o.a); sigs->insert(SIGABRT); }
         if (o.kind == OP_SIGNAL) { codes->insert(MSG_SIGNAL | (uint64_t)o.a); sigs->insert((int)o.a); }
      }
      return true;
   }
   bool fatal_code_valid() {
      std::set<uint64_t> c;
      std::set<int> sg;
      fatal_source(&c, &sg);
      for (auto& kv : h.sinks) for (auto& r : got[kv.first]) if (is_fatal(r.code, r.fl)) {
         ok();
         if (!c.count(r.code)) return bad("fatal-text", fmt("sink %d received %s, which does not belong to any fatal event", kv.first, code_name(r.code).c_str()));
      }
      return true;
   }
   static std::string fn(uint64_t pc) {
      std::string r = function_name(pc);
      if (!r.empty()) {
         if (r.size() > 90) r.resize(90);
         for (auto& c : r) if (c == ' ' || c == '|') c = '_';
         return r;
      }
      return fmt("0x%lx", (unsigned long)pc);
   }
   bool races(bool only_sinks) {
      std::vector<std::pair<uint64_t, uint64_t>> st;
      for (auto& e : h.ev) if (e.type == EV_NOTE && e.a == 12) st.push_back({e.c, e.c + e.d});
      ok();
      for (auto& e : h.ev) {
         if (e.type != EV_RACE) continue;
         if (only_sinks) {
            bool in = false;
            for (auto& x : st) if (e.c >= x.first && e.c < x.second) in = true;
            if (!in) continue;
         }
         std::string a = fn(e.a), b = fn(e.b);
         if (b < a) std::swap(a, b);
         return bad(("race:" + a + "~" + b).c_str(), fmt("unordered accesses to 0x%lx from %s and %s (pcs 0x%lx 0x%lx)", (unsigned long)e.c, a.c_str(), b.c_str(), (unsigned long)e.a, (unsigned long)e.b));
      }
      return true;
   }
   bool memory() {
      if (h.outcome == OUT_UAF || h.outcome == OUT_CRASH || h.outcome == OUT_BADFREE || h.outcome == OUT_ESCAPE) return unexpected();
      return true;
   }

   // ---- properties ----
   bool c01() { return expect_done() && integrity() && excluded() && complete(); }
   bool c02() { return expect_done() && order(); }
   bool c03() { return expect_done() && complete() && destruction(); }
   bool c04() { return expect_done() && serial() && races(true); }
   bool c05() {
      if (!expect_done()) return false;
      if (s.family == 0 && s.cfg.tick_ns == 0 && h.repeats.empty()) {   // repeated statements make time pass
         std::map<std::pair<int, uint64_t>, int64_t> beg;
         for (auto& e : h.ev) {
            if (e.type == EV_OP_BEGIN && e.a == OP_LOG) beg[{(int)e.task, e.c}] = e.mono;
            if (e.type == EV_OP_END && e.a == OP_LOG) {
               auto it = beg.find({(int)e.task, e.c});
               ok();
               if (it != beg.end() && e.mono - it->second > 1000000) return bad("caller-waits", fmt("log statement %lu took %ld us of virtual time with all sinks stalled", (unsigned long)e.c, (long)(e.mono - it->second) / 1000));
            }
         }
      }
      if (s.family == 2) {   // sinks other than the stalled one are not made to wait for it
         std::unordered_map<uint64_t, int64_t> at;
         for (auto& e : h.ev) at[e.seq] = e.mono;
         int stalled = -1;
         for (auto& o : s.ops) if (o.kind == OP_SINK_ADD && (o.d & (SB_GATE | SB_CALLGATE))) stalled = o.a;
         for (auto& kv : h.sinks) {
            SinkRec& k = kv.second;
            if (k.slot == stalled) continue;
            for (auto& r : k.rv) {
               auto it = h.logs.find(r.code);
               if (it == h.logs.end() || !it->second.e) continue;
               ok();
               int64_t late = at[r.seq] - std::max(at[it->second.e], at[k.addE]);
               if (late > 400000000) return bad("delayed", fmt("message %lu reached sink %d %ld ms late while sink %d was stalled", (unsigned long)r.code, k.slot, (long)(late / 1000000), stalled));
            }
         }
      }
      return complete() && order() && calls();
   }
   bool c06() { return expect_done() && calls() && call_order(); }
   bool c07() {
      if (!expect_done()) return false;
      for (auto& x : h.ops) {
         bool all = x.kind == OP_REMOVE_ALL;
         if (!(all || x.kind == OP_SINK_REMOVE || x.kind == OP_REMOVE_COPY) || !x.e || x.res) continue;
         for (auto& kv : h.sinks) {
            SinkRec& k = kv.second;
            if (all ? k.worker != x.a : k.slot != x.a) continue;
            if (!k.addE || k.addRes || k.addE > x.b || k.kind == SK_FILE) continue;
            bool soft = k.held || handle_busy(k.slot, x.b, x.e, &x);
            ok();
            if (!soft) {
               if (!k.dtorEnd || k.dtorEnd > x.e) return bad("not-destroyed", fmt("sink %d was not destroyed when its removal returned", k.slot));
               std::unordered_map<uint64_t, uint64_t> m;
               for (auto& r : k.rv) m[r.code] = r.end;
               for (auto& lv : h.logs) {
                  LogRec& l = lv.second;
                  if (!must(l, k) || l.e > x.b) continue;
                  ok();
                  auto it = m.find(l.uid);
                  if (it == m.end()) return bad("lost", fmt("message %u, logged before removal of sink %d began, never reached it", l.uid, k.slot));
                  if (!it->second || it->second > x.e) return bad("late", fmt("sink %d was not finished with message %u when its removal returned", k.slot, l.uid));
               }
               for (auto& r : k.rv) if (r.seq > x.e) return bad("runs-after-removal", fmt("sink %d received %s after its removal had returned", k.slot, code_name(r.code).c_str()));
            }
         }
      }
      return excluded() && integrity() && complete() && sinks_once();
   }
   bool c08() {
      if (!expect_done() || !excluded() || !integrity() || !complete()) return false;
      auto& ref = got[0];
      std::unordered_map<uint64_t, size_t> pos;
      for (size_t i = 0; i < ref.size(); ++i) pos[ref[i].code] = i;
      for (auto& kv : h.sinks) {
         SinkRec& k = kv.second;
         if (k.slot == 0 || !k.addE || k.addRes) continue;
         auto& g = got[k.slot];
         for (size_t i = 0; i < g.size(); ++i) {
            auto it = pos.find(g[i].code);
            ok();
            if (it == pos.end()) return bad("lost-elsewhere", fmt("%s reached sink %d but not sink 0", code_name(g[i].code).c_str(), k.slot));
            if (i && it->second != pos[g[i - 1].code] + 1) return bad("gap", fmt("sink %d received %s right after %s, other sinks did not", k.slot, code_name(g[i].code).c_str(), code_name(g[i - 1].code).c_str()));
         }
         bool removed = false;
         for (auto& o : h.ops) if ((o.kind == OP_SINK_REMOVE || o.kind == OP_REMOVE_COPY) && o.a == k.slot) removed = true;
         if (!removed && !g.empty() && pos[g.back().code] != ref.size() - 1) return bad("gap", fmt("sink %d misses the end of the log", k.slot));
      }
      return order();
   }
   bool fatal_no_return() {
      for (auto& o : h.ops) if (o.kind == OP_FATAL && o.e) return bad("fatal-returned", fmt("fatal statement %ld returned to its caller", (long)o.a));
      return true;
   }
   // one fatal event only: its message does not report a recursive crash
   bool no_false_recursion() {
      int n = 0;
      for (auto& o : h.ops) n += o.kind == OP_FATAL || o.kind == OP_SIGNAL;
      if (n != 1) return true;
      for (auto& kv : h.sinks) for (auto& r : kv.second.rv) if (is_fatal(r.code, r.fl)) { ok(); if (r.fl & RF_RECURSIVE) return bad("fatal-text", fmt("the fatal message at sink %d reports a recursive crash, but there was one fatal event only", kv.first)); }
      return true;
   }
   bool c09() {
      if (!h.first_fatal) return expect_done();
      if (h.outcome != OUT_SIGNAL || h.code != SIGABRT) return unexpected();
      return fatal_no_return() && fatal_code_valid() && integrity() && excluded() && flushed() && no_false_recursion();
   }
   int initial_disp(int sig) {   // as set by the application before initialisation
      int c = 0;
      for (auto& o : h.ops) if (o.kind == OP_SIGDISP && o.a == sig && o.e) c = (int)o.arg;
      return c;
   }
   bool c10() {
      int sig = 0, n = 0;
      for (auto& o : h.ops) if (o.kind == OP_SIGNAL) { sig = (int)o.a; ++n; }
      if (!n) return expect_done();
      int d = initial_disp(sig);
      int old = 0, oldb = 0;
      for (auto& e : h.ev) if (e.type == EV_OLDSIG) { if ((int)e.a == sig) ++old; else return bad("disposition", fmt("the application's handler ran for signal %d instead of %d", (int)e.a, sig)); oldb = (int)e.b; }
      ok(2);
      bool good = d == 0 ? (h.outcome == OUT_SIGNAL && h.code == sig && !old)
                : d == 1 ? (h.outcome == OUT_EXIT && h.code == sig && !old)
                : d == 2 ? (h.outcome == OUT_EXIT && h.code == sig && old == 1 && oldb == 0)
                         : (h.outcome == OUT_EXIT && h.code == 77 && old == 1 && oldb == 1);
      if (!good) {
         if (broken(h.outcome)) return unexpected();
         return bad("disposition", fmt("signal %d with earlier disposition %d: process ended with %s %d, the application's handler ran %d times", sig, d, sim_outcome_names[h.outcome], h.code, old));
      }
      return fatal_code_valid() && integrity() && excluded() && flushed() && no_false_recursion();
   }
   bool c11() {
      if (!h.first_fatal) return expect_done();
      std::set<uint64_t> c;
      std::set<int> sg;
      fatal_source(&c, &sg);
      ok();
      if (h.outcome != OUT_SIGNAL) return unexpected();
      if (!sg.count(h.code)) return bad("wrong-signal", fmt("the process ended by signal %d, which none of the events caused", h.code));
      return fatal_code_valid() && integrity() && excluded() && flushed();
   }
   bool c12() {
      if (!h.first_fatal) return expect_done();
      if (h.outcome != OUT_SIGNAL) return unexpected();
      int beh = HK_COUNT, n = 0, harg = 0, hooktask = -1;
      uint64_t at = 0, fin = 0;
      for (auto& e : h.ev) if (e.type == EV_HOOK) {
         if (e.b == 0) { ++n; at = e.seq; beh = (int)e.c; harg = (int)e.d; hooktask = (int)e.task; } else fin = e.seq;
      }
      bool other = false;      // another thread met a fatal event as well
      for (auto& o : h.ops) if (o.kind == OP_FATAL || o.kind == OP_SIGNAL) for (auto& p : h.ops) if ((p.kind == OP_FATAL || p.kind == OP_SIGNAL) && p.task != o.task) other = true;
      ok(4);
      if (n > 1 || (n != 1 && !other)) return bad("hook-count", fmt("the pre-fatal hook ran %d times", n));
      if (n) {
         bool openf = false;
         int sig_open = 0;
         for (auto& o : h.ops) if ((o.kind == OP_FATAL || o.kind == OP_SIGNAL) && o.task == hooktask && o.b < at && !(o.e && o.e < at)) { openf = true; if (o.kind == OP_SIGNAL) sig_open = (int)o.a; }
         if (!openf) return bad("hook-thread", "the hook ran on a thread without a fatal event");
         uint64_t first = INF, fcode = 0;
         uint32_t ffl = 0;
         bool seen = false;
         for (auto& kv : h.sinks) for (auto& r : kv.second.rv) if (is_fatal(r.code, r.fl)) { if (r.seq < first) { first = r.seq; } ffl = r.fl; fcode = r.code; seen = true; }
         // a fatal event of another thread may overtake the thread that runs the hook
         bool mine = seen;
         for (auto& o : h.ops) if ((o.kind == OP_FATAL || o.kind == OP_SIGNAL) && o.task != hooktask && (o.kind == OP_FATAL ? (uint64_t)o.a : MSG_SIGNAL | (uint64_t)o.a) == fcode) mine = false;
         bool returns = beh == HK_COUNT || beh == HK_LOG || beh == HK_SLEEP || beh == HK_UNSET;
         if (mine && first < at) return bad("hook-late", "a sink received the fatal message before the hook was called");
         if (mine && returns && (!fin || first < fin)) return bad("hook-late", "a sink received the fatal message before the hook had finished");
         if (mine && (beh == HK_FATAL || (beh == HK_RAISE && !(sig_open == harg)))) {
            if (!(ffl & RF_RECURSIVE)) return bad("recursion-unreported", "the fatal message does not mention the recursive crash in the hook");
         }
      }
      return fatal_code_valid() && integrity() && flushed() && no_false_recursion();
   }
   bool c13() {
      int beh = -1;
      for (auto& o : h.ops) if (o.kind == OP_SET_HANDLER && o.e) beh = (int)o.a;
      if (beh < 0 || beh == HD_DEFAULT) {
         if (!h.first_fatal) return expect_done();
         if (h.outcome != OUT_SIGNAL) return unexpected();
         return integrity() && flushed();
      }
      // handler invocations
      std::map<uint64_t, std::vector<const Ev*>> hv;
      for (auto& e : h.ev) if (e.type == EV_HANDLER) hv[e.a].push_back(&e);
      std::set<uint64_t> expect;
      for (auto& o : h.ops) {
         if (o.kind != OP_FATAL && o.kind != OP_SIGNAL) continue;
         uint64_t code = o.kind == OP_FATAL ? (uint64_t)o.a : MSG_SIGNAL | (uint64_t)o.a;
         int sig = o.kind == OP_FATAL ? SIGABRT : (int)o.a;
         expect.insert(code);
         auto& x = hv[code];
         ok(4);
         bool must_run = o.e != 0 || (h.outcome == OUT_SIGNAL && (beh == HD_FORWARD || beh == HD_CLOSE));
         if (x.size() > 1) return bad("handler-twice", fmt("the handler ran %lu times for one event", x.size()));
         if (x.empty()) { if (must_run) return bad("handler-missing", fmt("the handler was not called for %s", code_name(code).c_str())); continue; }
         const Ev& e = *x[0];
         if ((int)e.task != o.task || e.seq < o.b || (o.e && e.seq > o.e)) return bad("handler-thread", "the handler ran outside the failing statement");
         if ((int)e.b != sig) return bad("handler-args", fmt("the handler got signal %d instead of %d", (int)e.b, sig));
         if (e.c & 0xffff) return bad("handler-args", fmt("the handler got a message with wrong content (0x%lx)", (unsigned long)e.c));
         if (o.e && beh == HD_THROW && o.res != (o.a % 2 ? 4 : 3)) return bad("exception-lost", "the exception from the handler did not reach the failing statement");
         if (o.e && (beh == HD_RECORD || beh == HD_LOG || beh == HD_NESTED || beh == HD_CLOSE_RETURN) && o.res) return bad("exception", "the failing statement threw although the handler did not");
      }
      for (auto& x : hv) if (!expect.count(x.first) && !x.second.empty()) return bad("handler-args", fmt("the handler was called with %s", code_name(x.first).c_str()));
      if (beh == HD_FORWARD) {
         if (!h.first_fatal) return expect_done();
         std::set<uint64_t> c;
         std::set<int> sg;
         fatal_source(&c, &sg);
         if (h.outcome != OUT_SIGNAL || !sg.count(h.code)) return unexpected();
         return integrity() && flushed();
      }
      if (beh == HD_CLOSE ? h.outcome != OUT_SIGNAL || expect.count(MSG_SIGNAL | (uint64_t)h.code) + (h.code == SIGABRT) == 0 : h.outcome != OUT_DONE) return unexpected();
      for (auto& kv : h.sinks) for (auto& r : got[kv.first]) if (is_fatal(r.code, r.fl)) return bad("delivered", fmt("sink %d received %s although the handler did not forward it", kv.first, code_name(r.code).c_str()));
      return integrity() && complete() && order();
   }
   bool c14() {
      const OpRec* I = nullptr;
      for (auto& o : h.ops) if (o.kind == OP_WORKER_INIT && (!I || o.b < I->b)) I = &o;
      if (s.family == 1 && h.first_fatal) {
         std::set<uint64_t> c;
         std::set<int> sg;
         fatal_source(&c, &sg);
         ok();
         if (h.outcome != OUT_SIGNAL) return unexpected();
         if (!sg.count(h.code)) return bad("wrong-signal", fmt("the process ended by signal %d, which none of the events caused", h.code));
      } else if (!expect_done()) return false;
      if (!integrity() || !excluded()) return false;
      // the kept message
      std::vector<const LogRec*> sure;
      for (auto& lv : h.logs) { const LogRec& l = lv.second; if (l.cond && !l.fatal && l.e && (!I || l.e < I->b)) sure.push_back(&l); }
      uint64_t kept = 0;
      for (auto& kv : h.sinks) {
         auto& g = got[kv.first];
         for (size_t i = 0; i < g.size(); ++i) {
            if (!(g[i].fl & RF_UNINIT)) continue;
            ok(2);
            if (kept && kept != g[i].code) return bad("two-kept", "two different messages logged before initialization were delivered");
            kept = g[i].code;
            if (i) return bad("kept-late", fmt("sink %d received the kept first message after other messages", kv.first));
            auto it = h.logs.find((uint32_t)g[i].code);
            if (it == h.logs.end() || !I || it->second.b > (I->e ? I->e : INF)) return bad("kept-wrong", fmt("%s was delivered as the first uninitialized one", code_name(g[i].code).c_str()));
            for (auto* m : sure) if (m->e < it->second.b) return bad("kept-wrong", fmt("message %u was kept although message %u was logged earlier", it->second.uid, m->uid));
            int w = (int)I->a;
            if (kv.second.worker != w) return bad("kept-wrong", "the kept message was delivered by a worker that was not initialized first");
         }
      }
      if (!sure.empty() && I && I->e && h.outcome == OUT_DONE) for (auto& kv : h.sinks) {
         SinkRec& k = kv.second;
         if (k.worker != I->a || !k.addE || k.addE > I->b || k.addRes) continue;
         if (k.detB && k.detB < I->e) continue;
         ok();
         bool f = false;
         for (auto& r : got[k.slot]) if (r.fl & RF_UNINIT) f = true;
         if (!f) return bad("kept-lost", fmt("sink %d did not receive the first message logged before initialization", k.slot));
      }
      return h.outcome == OUT_DONE ? complete() : true;
   }
   bool c15() {
      if (s.family == 2) {
         ok();
         if (h.outcome != OUT_EXIT || h.code == 0) return bad("illegal-init", fmt("illegal initialization: process ended with %s %d", sim_outcome_names[h.outcome], h.code));
         return true;
      }
      if (s.family == 5) {
         for (auto& o : s.ops) if (o.kind == OP_SIGNAL) return c10();
         return c09();
      }
      return expect_done() && integrity() && excluded() && complete() && destruction();
   }
   // ---- files ----
   std::string norm(std::string p) const {
      size_t i;
      while (p.compare(0, 2, "./") == 0) p.erase(0, 2);
      while ((i = p.find("/./")) != std::string::npos) p.erase(i, 2);
      while ((i = p.find("//")) != std::string::npos) p.erase(i, 1);
      return p;
   }
   std::vector<uint64_t> codes(const FileRec& f, bool only_complete = false) const {
      std::vector<uint64_t> c;
      for (auto& e : f.en) if (!only_complete || e.complete) c.push_back(e.code);
      return c;
   }
   bool whole_file(const FileRec& f, const std::vector<uint64_t>& want, const char* what, int slot = -1) {
      std::vector<uint64_t> c = codes(f);
      ok(want.size() + 3);
      for (auto& e : f.en) if (!e.complete) return bad("file-damaged", fmt("%s %s holds a damaged line for %s (flags 0x%x)", what, f.name.c_str(), code_name(e.code).c_str(), e.fl));
      if (c != want) return bad("file-content", fmt("%s %s holds %lu messages, delivered were %lu%s", what, f.name.c_str(), c.size(), want.size(), first_diff(c, want).c_str()));
      if (f.en.empty()) return closing(f, 0);
      std::string head = f.content.substr(0, f.en[0].off);
      if (head.find("LOG format: [") == std::string::npos || head.find("g3log created log at: ") == std::string::npos) return bad("file-header", fmt("%s %s does not start with the header", what, f.name.c_str()));
      if (slot >= 0 && h.sinks.count(slot)) {
         SinkRec& k = h.sinks[slot];
         auto it = h.logs.find((uint32_t)f.en[0].code);
         bool own = k.beh & SB_HEADER, said = head.find(fmt("[custom header of sink %d]\n", slot)) != std::string::npos;
         if (said != own && (!own || (it != h.logs.end() && it->second.b > k.addE))) return bad("file-header", fmt("%s %s starts with another header than the one in force", what, f.name.c_str()));
      }
      for (size_t i = 0; i + 1 < f.en.size(); ++i) if (f.en[i].end != f.en[i + 1].off) return bad("file-damaged", fmt("%s %s holds stray text between two lines", what, f.name.c_str()));
      return closing(f, f.en.back().end);
   }
   bool closing(const FileRec& f, size_t from) {
      static const std::string cl = "g3log g3FileSink shutdown at: ";
      size_t p = f.content.find(cl, from);
      if (p == std::string::npos) return bad("file-closing", fmt("file %s has no closing line", f.name.c_str()));
      if (from && p != from) return bad("file-damaged", fmt("file %s holds stray text before the closing line", f.name.c_str()));
      if (f.content.find(cl) != p) return bad("file-closing", fmt("file %s has a closing line before its end", f.name.c_str()));
      size_t nl = f.content.find('\n', p);
      if (nl == std::string::npos || nl + 1 != f.content.size()) return bad("file-closing", fmt("file %s does not end with its closing line", f.name.c_str()));
      return true;
   }
   std::string first_diff(const std::vector<uint64_t>& a, const std::vector<uint64_t>& b) const {
      size_t i = 0;
      while (i < a.size() && i < b.size() && a[i] == b[i]) ++i;
      return fmt("; first difference at %lu: file %s, delivered %s", i, i < a.size() ? code_name(a[i]).c_str() : "end", i < b.size() ? code_name(b[i]).c_str() : "end");
   }
   const FileRec* file(const std::string& name) const {
      auto it = h.files.find(norm(name));
      return it == h.files.end() ? nullptr : &it->second;
   }
   std::string first_name(int slot) const {   // the file opened while the sink was created
      uint64_t a = 0, b = 0;
      int task = -1;
      for (auto& o : h.ops) if (o.kind == OP_SINK_ADD && o.a == slot) { a = o.b; b = o.e ? o.e : INF; task = o.task; }
      std::string n;
      for (auto& e : h.ev) if (e.type == EV_FILEOPEN && e.seq > a && e.seq < b && (int)e.task == task && (int64_t)e.a >= 0) n = norm(e.data);
      return n;
   }
   std::vector<uint64_t> rv_codes(int slot) const {
      std::vector<uint64_t> c;
      auto it = h.sinks.find(slot);
      if (it != h.sinks.end()) for (auto& r : it->second.rv) c.push_back(r.code);
      return c;
   }
   bool rv_clean(int slot) {   // what the file sink itself was handed must be fine, otherwise this is another property's business
      for (auto& r : h.sinks[slot].rv) if (r.fl & 0xffff) return false;
      return true;
   }
   bool c16() {
      if (!expect_done()) return false;
      if (!rv_clean(0)) return true;
      const FileRec* f = file(first_name(0));
      if (!f) return bad("file-missing", "the log file does not exist");
      if (!whole_file(*f, rv_codes(0), "file", 0)) return false;
      if (h.sinks.count(1)) {
         f = file(first_name(1));
         if (!f) return bad("file-missing", "the default log file does not exist");
         if (!whole_file(*f, rv_codes(2), "default file", 1)) return false;
      }
      return true;
   }
   struct Rot { uint64_t seq; std::string name; int call; };
   std::vector<Rot> rotations(int slot) const {
      std::vector<Rot> r;
      for (auto& e : h.ev) if (e.type == EV_NOTE && e.a == 20 && (int)e.b == slot) r.push_back({e.seq, e.data, (int)e.c});
      return r;
   }
   static bool good_target(const SimOp& o) { return (o.c == 0 || o.c == 1 || o.c == 2 || o.c == 4 || o.c == 5) && o.d != 4; }
   // all files of a sink against what it received; complete: every message must be there
   bool file_set(int slot, const std::vector<std::string>& names, const std::vector<std::pair<uint64_t, uint64_t>>& periods, bool tolerate_damage) {
      // periods[i] = position from which names[i] is current
      std::vector<uint64_t> rv = rv_codes(slot);
      std::unordered_map<uint64_t, size_t> pos;
      for (size_t i = 0; i < rv.size(); ++i) pos[rv[i]] = i;
      const bool wfault = sim_shm->st.fired[F_ENOSPC] || sim_shm->st.fired[F_EIO];
      std::set<std::string> distinct;
      std::unordered_map<uint64_t, int> count;
      std::vector<uint64_t> cat;
      for (size_t j = 0; j < names.size(); ++j) {
         std::string n = norm(names[j]);
         if (!distinct.insert(n).second) continue;
         const FileRec* f = file(n);
         if (!f) return bad("file-missing", fmt("log file %s does not exist", n.c_str()));
         size_t lastper = j;
         for (size_t q = 0; q < names.size(); ++q) if (norm(names[q]) == n) lastper = q;
         size_t last = 0;
         std::set<uint64_t> seen;
         bool any = false;
         for (auto& e : f->en) {
            ok();
            if (!e.complete) { if (tolerate_damage) continue; return bad("file-damaged", fmt("file %s holds a damaged line for %s (flags 0x%x)", n.c_str(), code_name(e.code).c_str(), e.fl)); }
            auto it = pos.find(e.code);
            // what a failed write cut short may end at a newline that belongs to what follows ("#" of "#22;...")
            if (it == pos.end() && tolerate_damage && wfault && e.code >> 40 && e.code >> 40 != 2 && e.code >> 40 != 3) continue;
            if (it == pos.end()) { if (s.family == 1 && s.prop == "C17") continue; return bad("file-content", fmt("file %s holds %s, which the sink never received", n.c_str(), code_name(e.code).c_str())); }
            // the stream library writes again what a failed write had written in part
            if (any && it->second <= last && tolerate_damage && wfault && seen.count(e.code)) continue;
            seen.insert(e.code);
            if (any && it->second <= last) return bad("file-order", fmt("file %s holds %s out of order or twice", n.c_str(), code_name(e.code).c_str()));
            any = true; last = it->second;
            ++count[e.code];
            cat.push_back(e.code);
            // not in a file that was left before the message arrived
            const Recv& r = h.sinks[slot].rv[it->second];
            if (lastper + 1 < periods.size() && r.seq > periods[lastper + 1].first) return bad("file-wrong", fmt("%s is in %s although the log file had been changed before", code_name(e.code).c_str(), n.c_str()));
         }
      }
      if (!tolerate_damage) {
         for (auto c : rv) {
            ok();
            if (count[c] == 0) return bad("file-lost", fmt("%s was delivered to the file sink but is in no log file", code_name(c).c_str()));
            if (count[c] > 1) return bad("file-twice", fmt("%s is in the log files %d times", code_name(c).c_str(), count[c]));
         }
         if (distinct.size() == names.size() && cat != rv) return bad("file-order", "the log files in order do not hold the messages in order");
      }
      return true;
   }
   bool c17() {
      if (!expect_done()) return false;
      if (s.family == 1) {
         for (int w = 0; w < 2; ++w) {
            if (!h.sinks.count(w) || !rv_clean(w)) return true;
            std::string n = first_name(w);
            if (!file_set(w, {n}, {{0, 0}}, false)) return false;
         }
         return true;
      }
      if (!rv_clean(0)) return true;
      std::vector<std::string> names{first_name(0)};
      std::vector<std::pair<uint64_t, uint64_t>> per{{0, 0}};
      auto rot = rotations(0);
      for (auto& r : rot) {
         ok(2);
         const SimOp* op = nullptr;
         for (auto& o : s.ops) if (o.kind == OP_ROTATE && o.b == r.call) op = &o;
         auto f = h.futs.find(r.call);
         if (f != h.futs.end() && f->second.status == 0 && f->second.data != r.name) return bad("file-name", "the future of the change differs from what the sink returned");
         if (r.name.empty()) {
            if (op && good_target(*op) && !sim_shm->st.fired[F_OPENFAIL]) return bad("change-failed", "changing to a file that can be opened reported no success");
            continue;
         }
         if (op && !good_target(*op)) return bad("change-failed", fmt("changing to a file that cannot be opened reported success: %s", r.name.c_str()));
         names.push_back(r.name);
         per.push_back({r.seq, 0});
      }
      // reported names
      for (auto& cv : h.calls) if (cv.second.kind == 100 + OP_FILENAME && cv.second.slot == 0) {
         auto f = h.futs.find(cv.first);
         if (f == h.futs.end() || f->second.status) continue;
         uint64_t at = 0;
         for (auto& x : h.sinks[0].cx) if (x.call == cv.first) at = x.seq;
         if (!at) continue;
         size_t j = 0;
         for (size_t q = 0; q < per.size(); ++q) if (per[q].first < at) j = q;
         ok();
         if (norm(f->second.data) != norm(names[j])) return bad("file-name", fmt("the reported name is %s, the current file is %s", f->second.data.c_str(), names[j].c_str()));
      }
      return file_set(0, names, per, false);
   }
   bool c18() {
      if (h.outcome != OUT_DONE && h.outcome != OUT_KILLED) return unexpected();
      for (int slot = 0; slot < 2; ++slot) {
         if (!h.sinks.count(slot) || !h.sinks[slot].addB) continue;
         SinkRec& k = h.sinks[slot];
         if (!rv_clean(slot == 1 ? 2 : 0)) continue;
         std::string n0 = first_name(slot);
         if (n0.empty()) continue;
         std::vector<std::string> names{n0};
         // file names in the order in which they were opened
         std::string pre = "log" + std::to_string(slot) + ".";
         if (slot == 0) for (auto& e : h.ev) if (e.type == EV_FILEOPEN && (int64_t)e.a >= 0 && e.seq > k.addE && k.addE) {
            std::string n = norm(e.data);
            size_t sl = n.rfind('/');
            if (n.compare(sl == std::string::npos ? 0 : sl + 1, pre.size(), pre) == 0 && std::find(names.begin(), names.end(), n) == names.end()) names.push_back(n);
         }
         std::vector<uint64_t> have;
         for (auto& n : names) {
            const FileRec* f = file(n);
            if (!f) { if (n == n0 && !k.addE) continue; return bad("file-missing", fmt("log file %s does not exist", n.c_str())); }
            static const char hd[] = "\t\tg3log created log at: ";
            size_t c = std::min(sizeof hd - 1, f->content.size());
            ok();
            if (n == n0 && f->content.compare(0, c, hd, c)) {
               if (!(h.sinks[slot].rv.empty() && f->content.compare(0, std::min<size_t>(6, f->content.size()), std::string("g3log ").substr(0, std::min<size_t>(6, f->content.size()))) == 0)) return bad("file-header", fmt("file %s does not start with the header", n.c_str()));
            }
            for (size_t i = 0; i < f->en.size(); ++i) {
               ok();
               bool last = i + 1 == f->en.size();
               if (!f->en[i].complete) {
                  bool cut = last && f->en[i].end == f->content.size() && h.outcome == OUT_KILLED;
                  if (!cut) return bad("file-damaged", fmt("file %s holds a damaged line inside (for %s)", n.c_str(), code_name(f->en[i].code).c_str()));
                  continue;
               }
               // cut at a newline inside the text: it reads like a whole line with another text
               uint64_t kind = f->en[i].code >> 40;
               if (last && h.outcome == OUT_KILLED && kind && kind != 2 && kind != 3) continue;
               have.push_back(f->en[i].code);
            }
         }
         std::vector<uint64_t> rv = rv_codes(slot == 1 ? 2 : 0);
         if (slot == 0) {
            size_t i = 0;
            while (i < have.size() && i < rv.size() && have[i] == rv[i]) ++i;
            ok(have.size());
            if (i < have.size()) return bad("file-order", "the log files are not a prefix of what was delivered" + first_diff(have, rv));
            size_t fin = 0;
            for (auto& r : k.rv) if (r.end) ++fin;
            size_t every = std::max<size_t>(1, flush_interval(k.param));
            if (h.outcome == OUT_DONE) every = 1;
            ok();
            if (fin > have.size() && fin - have.size() >= every) return bad("file-missing-tail", fmt("%lu messages were processed by the file sink but only %lu are on disk (flush interval %lu)", fin, have.size(), every));
         } else {
            // the default logger's own receive calls are not observed; order and gaps against the other sinks
            size_t i = 0;
            while (i < have.size() && i < rv.size() && have[i] == rv[i]) ++i;
            if (i < have.size() && i < rv.size()) return bad("file-order", "the default log file is not a prefix of the log" + first_diff(have, rv));
         }
      }
      return true;
   }
   bool c19() {
      if (s.family == 3) {
         std::set<uint64_t> c;
         std::set<int> sg;
         fatal_source(&c, &sg);
         ok();
         if (h.outcome != OUT_SIGNAL || !sg.count(h.code)) return unexpected();
         for (auto& kv : h.sinks) if (kv.second.kind == SK_FILE) skip.insert(kv.first);
         for (auto& kv : h.sinks) if (kv.second.kind != SK_FILE) for (auto& r : kv.second.rv) if (r.fl & 0xffff) return bad("damaged", fmt("sink %d received a damaged message", kv.first));
         return flushed();
      }
      if (!expect_done()) return false;
      for (auto& lv : h.logs) { ok(); if (lv.second.e && lv.second.res) return bad("caller-error", fmt("log statement %u failed because of a disk error", lv.first)); }
      for (auto& o : h.ops) if (o.kind == OP_SINK_ADD && o.res) return bad("caller-error", "adding the file sink failed because of a disk error");
      if (!complete([&](const SinkRec& k) { return k.kind != SK_FILE; })) return false;
      if (h.sinks.count(2)) for (auto& r : h.sinks[2].rv) if (r.fl & 0xffff) return bad("damaged", "another sink received a damaged message");
      if (!rv_clean(0)) return true;
      SinkRec& k = h.sinks[0];
      if (s.family == 1) {
         std::string n = first_name(0);
         ok();
         if (n.empty() || n.find('/') != std::string::npos) return bad("no-fallback", fmt("with an unusable directory the log file is '%s' instead of one in the current directory", n.c_str()));
         const FileRec* f = file(n);
         if (!f) return bad("no-fallback", "the fallback log file does not exist");
         return whole_file(*f, rv_codes(k.kind == SK_FILE ? 2 : 0), "fallback file");
      }
      std::vector<std::string> names;
      if (s.family != 2 || !first_name(0).empty()) names.push_back(first_name(0));   // family 2: perhaps no file could be opened at all
      for (auto& r : rotations(0)) if (!r.name.empty()) names.push_back(r.name);
      {
         std::vector<std::pair<uint64_t, uint64_t>> per(1, {0, 0});
         if (!file_set(0, names, per, true)) return false;
      }
      bool wfault = sim_shm->st.fired[F_ENOSPC] || sim_shm->st.fired[F_EIO];
      for (auto& f : h.files) for (auto& e : f.second.en) if (!e.complete && !wfault) return bad("file-damaged", fmt("file %s holds a damaged line although no write failed", f.first.c_str()));
      // after the faults stopped: change to a healthy file, everything afterwards is complete
      const OpRec* fin = nullptr;
      for (auto& o : h.ops) if (o.kind == OP_ROTATE && o.task == 0 && o.idx >= 0 && s.ops[o.idx].d == 5 && s.ops[o.idx].c == 1) fin = &o;
      bool healthy = false;
      if (fin) for (auto& o : h.ops) if (o.kind == OP_FS_FAULTS && o.a == 0 && o.b > k.addE && o.e && o.e < fin->b) healthy = true;
      if (healthy) {
         auto f = h.futs.find(s.ops[fin->idx].b);
         if (f != h.futs.end()) {
            ok();
            if (f->second.status || f->second.data.empty()) return bad("no-recovery", "changing to a healthy log file after the faults had stopped reported no success");
            const FileRec* fr = file(f->second.data);
            if (!fr) return bad("no-recovery", "the new log file does not exist");
            std::unordered_map<uint64_t, int> n;
            for (auto& e : fr->en) if (e.complete) n[e.code]++;
            for (auto& lv : h.logs) {
               LogRec& l = lv.second;
               if (!must(l, k) || l.b < f->second.seq) continue;
               ok();
               if (n[l.uid] != 1) return bad("no-recovery", fmt("message %u, logged after the change to a healthy file, is in it %d times", l.uid, n[l.uid]));
            }
         }
      }
      return true;
   }
   bool c20() {
      if (!expect_done()) return false;
      // clock steps: position and delta
      struct Seg { uint64_t from; int64_t lo, hi; };
      std::vector<std::pair<uint64_t, int64_t>> steps;
      for (auto& e : h.ev) if (e.type == EV_CLOCK) steps.push_back({e.seq, (int64_t)e.c});
      auto inside = [&](const LogRec& l, int64_t ts, int64_t unit) {
         // allowed ranges: [br, end of segment], ..., [start of last segment, er]
         std::vector<std::pair<int64_t, int64_t>> rg;
         int64_t lo = l.br;
         for (auto& st : steps) {
            if (st.first <= l.b || st.first >= l.e) continue;
            const Ev& e = h.ev[st.first - 1];
            int64_t before = e.real - st.second, after = e.real;
            // the event is recorded after or before the step; allow both readings
            rg.push_back({lo, std::max(before, after)});
            rg.push_back({lo, e.real});
            rg.push_back({lo, before});
            lo = std::min(std::min(before, after), e.real);
         }
         rg.push_back({lo, l.er});
         for (auto& r : rg) {
            int64_t a = r.first, b = r.second;
            if (unit > 1) { a = a / unit; b = b / unit; }
            if (ts >= a && ts <= b) return true;
         }
         return false;
      };
      for (auto& kv : h.sinks) {
         SinkRec& k = kv.second;
         for (auto& r : got[k.slot]) {
            if (r.code >> 40) continue;
            auto it = h.logs.find((uint32_t)r.code);
            if (it == h.logs.end() || !it->second.e) continue;
            int64_t unit = (k.kind == SK_STR || k.kind == SK_FILE) ? 1000 : 1;
            ok();
            if (!inside(it->second, r.ts, unit)) return bad("stamp", fmt("message %u carries time %ld (unit %ld ns) at sink %d, its statement ran from %ld to %ld", it->first, (long)r.ts, (long)unit, k.slot, (long)it->second.br, (long)it->second.er));
         }
         if (k.kind == SK_TFILE) {   // the file shows the same instants
            std::string n = first_name(k.slot);
            const FileRec* f = file(n);
            if (!f) continue;
            std::unordered_map<uint64_t, int64_t> at;
            for (auto& r : k.rv) at[r.code] = r.ts;
            for (auto& e : f->en) {
               auto it = at.find(e.code);
               if (it == at.end() || !e.complete) continue;
               ok();
               int64_t us = it->second / 1000;
               if (e.stamp != us) return bad("stamp", fmt("%s carries time %ld us, its file shows %ld us", code_name(e.code).c_str(), (long)us, (long)e.stamp));
            }
         }
      }
      return true;
   }
   bool c21() {
      if (!expect_done()) return false;
      enum { N = LV_N };
      std::vector<int> reg0 = {LV_DEBUG, LV_INFO, LV_WARNING, LV_FATAL};
      bool reg[N] = {};
      for (int l : reg0) reg[l] = true;
      struct W { uint64_t b, e; int v; };
      std::vector<W> wr[N];
      for (int l = 0; l < N; ++l) wr[l].push_back({0, 0, 1});
      for (auto& o : h.ops) {
         if (o.kind != OP_LEVEL) continue;
         int a = (int)o.a, lv = (int)o.arg, c = s.ops[o.idx].c;
         uint64_t e = o.e ? o.e : INF;
         bool known = lv >= 0 && lv < N && reg[lv];
         switch (a) {
         case LA_ADD: if (lv >= 0) { reg[lv] = true; wr[lv].assign(1, {0, 0, c != 0}); } break;
         case LA_RESET: for (int l = 0; l < N; ++l) { reg[l] = std::find(reg0.begin(), reg0.end(), l) != reg0.end(); wr[l].assign(1, {0, 0, 1}); } break;
         case LA_ENABLE: if (known) wr[lv].push_back({o.b, e, 1}); break;
         case LA_DISABLE: if (known) wr[lv].push_back({o.b, e, 0}); break;
         case LA_SET: if (known) wr[lv].push_back({o.b, e, c != 0}); break;
         case LA_DISABLEALL: case LA_ENABLEALL: for (int l = 0; l < N; ++l) if (reg[l]) wr[l].push_back({o.b, e, a == LA_ENABLEALL}); break;
         case LA_SETHIGHEST: if (known) for (int l = 0; l < N; ++l) if (reg[l]) wr[l].push_back({o.b, e, sim_level_values[l] >= sim_level_values[lv]}); break;
         default: break;
         }
      }
      auto values = [&](int l, uint64_t b, uint64_t e) {
         int m = 0;
         for (auto& w : wr[l]) {
            if (w.b > e) continue;
            bool over = false;
            for (auto& x : wr[l]) if (&x != &w && x.b > w.e && x.e < b) over = true;
            if (!over) m |= 1 << w.v;
         }
         return m;
      };
      uint32_t bits = 0;
      for (int l = 0; l < N; ++l) if (reg[l]) bits |= 1u << l;
      const OpRec* first_init = nullptr;
      for (auto& o : h.ops) if (o.kind == OP_WORKER_INIT) { first_init = &o; break; }
      for (auto& o : h.ops) {
         if (o.kind != OP_LEVEL || !o.e) continue;
         if (first_init && o.b < first_init->b) continue;
         int a = (int)o.a, lv = (int)o.arg;
         bool known = lv >= 0 && lv < N && reg[lv];
         ok();
         if (a == LA_STATUS) {
            if (!known) { if (o.res != 2) return bad("level-created", fmt("an unknown level is reported as present (%ld)", (long)o.res)); }
            else if (o.res == 2) return bad("level-lost", fmt("level %s is reported as absent", sim_level_names[lv]));
            else if (!(values(lv, o.b, o.e) >> o.res & 1)) return bad("level-state", fmt("level %s is reported as %ld, which it was at no time during the query", sim_level_names[lv], (long)o.res));
         } else if (a == LA_QUERY) {
            if (known && !(values(lv, o.b, o.e) >> o.res & 1)) return bad("level-state", fmt("level %s is reported as %ld, which it was at no time during the query", sim_level_names[lv], (long)o.res));
            if (!known && o.res) return bad("level-created", "an unknown level is reported as enabled");
         } else if (a == LA_GETALL) {
            uint32_t have = (uint32_t)o.res & 1023, en = ((uint32_t)o.res >> 10) & 1023, wrong = (uint32_t)o.res >> 20;
            if (wrong) return bad("level-created", fmt("the set of levels holds %u entries that were never added", wrong));
            if (have != bits) return bad("level-set", fmt("the set of levels is 0x%x instead of 0x%x", have, bits));
            for (int l = 0; l < N; ++l) if (reg[l] && !(values(l, o.b, o.e) >> (en >> l & 1) & 1)) return bad("level-state", fmt("level %s is listed as %u, which it was at no time during the query", sim_level_names[l], en >> l & 1));
         } else if (a == LA_TOSTRING) {
            for (auto& e : h.ev) if (e.type == EV_NOTE && e.a == 30 && (int)e.task == o.task && e.seq > o.b && e.seq < o.e) {
               std::string want, got2 = e.data;
               std::vector<std::pair<int, int>> ls;
               for (int l = 0; l < N; ++l) if (reg[l]) ls.push_back({sim_level_values[l], l});
               std::sort(ls.begin(), ls.end());
               size_t p = 0;
               for (auto& x : ls) {
                  std::string pre = fmt("name: %s level: %d status: ", sim_level_names[x.second], x.first);
                  if (got2.compare(p, pre.size(), pre) || p + pre.size() + 2 > got2.size()) return bad("level-set", fmt("the printed set of levels is wrong at %lu", p));
                  char c = got2[p + pre.size()];
                  if ((c != '0' && c != '1') || got2[p + pre.size() + 1] != '\n' || !(values(x.second, o.b, o.e) >> (c - '0') & 1)) return bad("level-state", fmt("level %s is printed as %c, which it was at no time during the query", sim_level_names[x.second], c));
                  p += pre.size() + 2;
               }
               if (p != got2.size()) return bad("level-created", "the printed set of levels holds more levels than were added");
            }
         }
      }
      for (auto& kv : h.sinks) {
         SinkRec& k = kv.second;
         std::unordered_map<uint64_t, int> n;
         for (auto& r : got[k.slot]) n[r.code]++;
         for (auto& lv : h.logs) {
            LogRec& l = lv.second;
            int lvl = sim_shm->exp[l.uid].used ? sim_shm->exp[l.uid].level : -1;
            if (lvl < 0 || lvl >= N || !l.e) continue;
            int m = reg[lvl] ? values(lvl, l.b, l.e) : 1;
            ok();
            if (n[l.uid] && !(m & 2)) return bad("disabled-delivered", fmt("message %u of level %s was delivered although the level was %s", l.uid, sim_level_names[lvl], reg[lvl] ? "disabled" : "never added"));
            if (!n[l.uid] && m == 2 && must(l, k)) return bad("enabled-lost", fmt("message %u of level %s was not delivered although the level was enabled", l.uid, sim_level_names[lvl]));
            if (n[l.uid] > 1) return bad("duplicate", fmt("message %u was delivered twice", l.uid));
         }
      }
      return integrity();
   }
   bool c22() {
      if (!memory()) return false;
      if (h.outcome == OUT_SIGNAL && !h.first_fatal) return unexpected();
      return races(false);
   }
   bool c23() {
      if (!expect_done() || !sinks_once()) return false;
      const Ev* prev = nullptr;
      int n = 0;
      for (auto& e : h.ev) if (e.type == EV_RES) {
         ok(4);
         ++n;
         if (e.a != 1) return bad("threads", fmt("%lu threads exist after the worker was destroyed", (unsigned long)e.a));
         if (e.b != 0) return bad("descriptors", fmt("%lu files are still open after the worker was destroyed", (unsigned long)e.b));
         if (n > 2 && (e.c != prev->c || e.d != prev->d)) return bad("memory", fmt("cycle %d leaves %ld allocations (%ld bytes) more than the one before", n, (long)(e.c - prev->c), (long)(e.d - prev->d)));
         prev = &e;
      }
      return true;
   }
   bool c24() {
      static const int over[] = {SIGABRT, SIGFPE, SIGILL, SIGSEGV, SIGTERM, SIGUSR1, SIGUSR2, SIGHUP};
      std::map<int, int> D;
      std::set<int> H, S(over, over + 5);
      bool inited = false, fatal = false;
      int fsig = 0;
      size_t oi = 0;
      std::vector<const OpRec*> os;
      for (auto& o : h.ops) switch (o.kind) { case OP_SIGDISP: case OP_INSTALL: case OP_OVERRIDE: case OP_RESTORE_DEFAULT: case OP_RESTORE_SIG: case OP_WORKER_INIT: case OP_FATAL: case OP_SIGNAL: case OP_PROBE_DISP: os.push_back(&o); default: break; }
      std::set<int> ever;
      auto apply = [&](const OpRec& o) {
         switch (o.kind) {
         case OP_SIGDISP: D[(int)o.a] = (int)o.arg; H.erase((int)o.a); break;
         case OP_INSTALL: H = S; break;
         case OP_OVERRIDE: S.clear(); for (int i = 0; i < 8; ++i) if (o.a >> i & 1) S.insert(over[i]); H = S; break;
         case OP_RESTORE_DEFAULT: S.clear(); S.insert(over, over + 5); H = S; break;
         case OP_RESTORE_SIG: H.erase((int)o.a); break;
         case OP_WORKER_INIT: if (!inited) { inited = true; H = S; } break;
         case OP_FATAL: fatal = true; fsig = SIGABRT; break;
         case OP_SIGNAL: fatal = true; fsig = (int)o.a; break;
         default: break;
         }
      };
      if (s.family == 2) {   // whatever is handled at that instant, the earlier disposition is the default one
         int sig = SIGABRT;
         for (auto& o : h.ops) if (o.kind == OP_SIGNAL) sig = (int)o.a;
         ok();
         if (broken(h.outcome)) return unexpected();
         if (h.outcome != OUT_SIGNAL || h.code != sig) return bad("disposition", fmt("the handled set was changed during a fatal event: process ended with %s %d instead of signal %d", sim_outcome_names[h.outcome], h.code, sig));
         return true;
      }
      if (s.family == 1) {   // overlapping: the set is one of those installed by a call that no other one began after
         for (auto& o : h.ops) if (o.kind == OP_SIGDISP) D[(int)o.a] = (int)o.arg;
         std::vector<std::set<int>> cand;
         for (auto* o : os) {
            if (o->kind != OP_OVERRIDE && o->kind != OP_RESTORE_DEFAULT) continue;
            bool last = true;
            for (auto* q : os) if ((q->kind == OP_OVERRIDE || q->kind == OP_RESTORE_DEFAULT) && q->b > o->e) last = false;
            if (!last) continue;
            H.clear();
            if (o->kind == OP_RESTORE_DEFAULT) H.insert(over, over + 5);
            else for (int i = 0; i < 8; ++i) if (o->a >> i & 1) H.insert(over[i]);
            cand.push_back(H);
         }
         std::set<int> handled;
         bool fat = false;
         for (auto& o : h.ops) if (o.kind == OP_FATAL) fat = true;
         for (auto& e : h.ev) {
            if (e.type != EV_DISP || (e.c == 1 && !fat)) continue;
            ok();
            int want = D.count((int)e.a) ? D[(int)e.a] : 0;
            if (e.b == 9 && e.c == 0) handled.insert((int)e.a);
            else if ((int)e.b != want) return bad("disposition", fmt("signal %d has disposition class %d instead of %d after overlapping changes of the handled set", (int)e.a, (int)e.b, want));
         }
         ok();
         bool found = false;
         for (auto& c : cand) if (c == handled) found = true;
         if (!found) return bad("disposition", "after overlapping changes of the handled set the signals handled are not those of any one change");
         return fat || expect_done();
      }
      for (auto& e : h.ev) {
         while (oi < os.size() && os[oi]->b < e.seq && (os[oi]->e || os[oi]->kind == OP_FATAL || os[oi]->kind == OP_SIGNAL) && (os[oi]->kind == OP_PROBE_DISP || os[oi]->e < e.seq)) { apply(*os[oi]); ++oi; }
         if (e.type == EV_DISP && e.c == 0) {
            int want = H.count((int)e.a) ? 9 : D.count((int)e.a) ? D[(int)e.a] : 0;
            ok();
            if ((int)e.b != want) return bad("disposition", fmt("signal %d has disposition class %d instead of %d", (int)e.a, (int)e.b, want));
         }
         if (e.type == EV_DISP && e.c == 1 && fatal) {
            ok();
            if ((int)e.b == 9) return bad("not-restored", fmt("signal %d was still handled by the logger when the process ended after a fatal event", (int)e.a));
            int want = D.count((int)e.a) ? D[(int)e.a] : 0;
            if ((int)e.b != want) return bad("not-restored", fmt("signal %d has disposition class %d instead of %d when the process ended", (int)e.a, (int)e.b, want));
         }
      }
      if (fatal) {
         int d = D.count(fsig) ? D[fsig] : 0;
         ok();
         bool good = d == 0 ? h.outcome == OUT_SIGNAL && h.code == fsig : h.outcome == OUT_EXIT && h.code == (d == 3 ? 77 : fsig);
         if (!good) { if (broken(h.outcome)) return unexpected(); return bad("disposition", fmt("fatal event for signal %d with earlier disposition %d: process ended with %s %d", fsig, d, sim_outcome_names[h.outcome], h.code)); }
         return true;
      }
      return expect_done();
   }
   bool c25() {
      if (!expect_done() || !races(false)) return false;
      if (s.family == 1) return queue();
      if (s.family == 2) return long_queue();
      std::map<int, std::vector<std::pair<uint64_t, uint64_t>>> runs;   // task id -> start,end
      std::map<int, std::vector<std::pair<uint64_t, int>>> seq;          // executor -> order of starts
      std::map<int, uint64_t> open;
      std::map<int, int> busy, where;
      for (auto& e : h.ev) {
         if (e.type == EV_NOTE && e.a == 11) return bad("overlap", "two tasks of one executor overlapped");
         if (e.type != EV_TASK) continue;
         int x = (int)e.a, id = (int)e.b;
         if (e.c == 0) {
            ok();
            if (busy[x]++) return bad("overlap", fmt("task %d of executor %d started before the previous one had ended", id, x));
            if (h.app_tasks.count((int)e.task)) return bad("wrong-thread", fmt("task %d ran on a client thread", id));
            runs[id].push_back({e.seq, 0});
            seq[x].push_back({e.seq, id});
            where[id] = x;
         } else { busy[x]--; if (!runs[id].empty()) runs[id].back().second = e.seq; }
      }
      std::map<int, const OpRec*> sub;
      std::vector<const OpRec*> dels;
      for (auto& o : h.ops) if (o.kind == OP_EX_DEL) dels.push_back(&o);
      for (auto& o : h.ops) if ((o.kind == OP_EX_SEND || o.kind == OP_EX_SPAWN) && o.res != 9) {
         int id = (int)o.arg;
         sub[id] = &o;
         auto& r = runs[id];
         ok(2);
         if (r.size() > 1) return bad("task-twice", fmt("task %d ran %lu times", id, r.size()));
         bool late = false;   // a task given by a task while the executor was being destroyed
         if (o.idx == (1 << 20)) for (auto* d : dels) if (d->a == o.a && d->b < o.e) late = true;
         if (o.e && !o.res && !late && r.empty()) return bad("task-lost", fmt("task %d never ran", id));
         if (!r.empty()) {
            if (where[id] != o.a) return bad("task-wrong", fmt("task %d ran at another executor", id));
            for (auto* d : dels) if (d->a == o.a && d->e && (!r[0].second || r[0].second > d->e)) return bad("late", fmt("task %d was not finished when destruction of its executor returned", id));
         }
         auto f = h.futs.find(id);
         if (o.kind == OP_EX_SPAWN && f != h.futs.end()) {
            int kind = s.ops[o.idx].c;
            ok();
            int st = f->second.status;
            if (kind == CK_THROW) { if (st != 1) return bad("future", fmt("the future of task %d does not yield the exception (%d)", id, st)); }
            else if (st != 0) return bad("future", fmt("the future of task %d does not yield a value (%d)", id, st));
            else if (kind == CK_STRING) { if (f->second.data != "text" + std::to_string(id) + "/" + std::to_string(id)) return bad("future", fmt("the future of task %d yields the wrong text", id)); }
            else if (kind != CK_VOID && f->second.val != id * 7 + 3) return bad("future", fmt("the future of task %d yields %ld", id, (long)f->second.val));
            if (r.empty() || r[0].second > f->second.seq) return bad("future", fmt("the future of task %d was ready before the task had run", id));
         }
      }
      for (auto& o : h.ops) if (o.kind == OP_EX_NULL && o.e) {
         auto f = h.futs.find((int)o.a);
         ok();
         if (o.res) return bad("null-executor", "submitting to no executor threw");
         if (f != h.futs.end() && f->second.status != 5) return bad("null-executor", fmt("the future of a task given to no executor ended with status %d", f->second.status));
      }
      for (auto& x : seq) {
         uint64_t maxb = 0;
         int who = 0;
         for (auto& t : x.second) {
            auto it = sub.find(t.second);
            if (it == sub.end()) continue;
            ok();
            if (it->second->e && it->second->e < maxb) return bad("task-order", fmt("task %d ran before task %d, which was submitted earlier", who, t.second));
            if (it->second->b > maxb) { maxb = it->second->b; who = t.second; }
         }
      }
      return true;
   }
   // many items: each comes out once, those of one producer in order at every consumer (producers are told apart by value / 100000)
   bool long_queue() {
      std::unordered_map<int64_t, int> in, out;
      std::map<std::pair<int, int64_t>, int64_t> last;
      for (auto& o : h.ops) {
         if (o.kind == OP_Q_PUSH) in[o.arg]++;
         if (o.kind != OP_Q_POP || !o.e) continue;
         ok(2);
         if (o.res == 5) return bad("queue-damaged", "an item came out of the queue damaged");
         int64_t v = (int64_t)o.ret;
         if (out[v]++) return bad("queue-twice", fmt("item %ld came out of the queue twice", (long)v));
         auto& l = last[{(int)o.task, v / 100000}];
         if (l && v < l) return bad("queue-order", fmt("item %ld came out after item %ld, which was put in later", (long)v, (long)l));
         l = v;
      }
      for (auto& x : out) if (!in.count(x.first)) return bad("queue-damaged", fmt("item %ld was never put in", (long)x.first));
      for (auto& x : in) if (!out.count(x.first)) return bad("queue-lost", fmt("item %ld never came out of the queue", (long)x.first));
      return true;
   }
   bool queue() {
      struct Q { int kind; int64_t v; uint64_t b, e; };
      std::vector<Q> q;
      for (auto& o : h.ops) {
         if (o.kind < OP_Q_PUSH || o.kind > OP_Q_EMPTY || !o.e) continue;
         if (o.res == 5) return bad("queue-damaged", "an item came out of the queue damaged");
         q.push_back({o.kind, o.kind == OP_Q_PUSH ? o.arg : o.ret, o.b, o.e});
      }
      size_t n = q.size();
      if (n > 64) return true;
      ok(n);
      // depth-first search for a linearization
      std::unordered_set<std::string> memo;
      std::vector<int64_t> content;
      size_t head = 0, nodes = 0;
      bool limit = false;
      std::function<bool(uint64_t)> go = [&](uint64_t done) -> bool {
         if (done == (n == 64 ? ~0ull : (1ull << n) - 1)) return true;
         if (++nodes > 400000) { limit = true; return true; }
         std::string key((const char*)&done, 8);
         for (size_t i = head; i < content.size(); ++i) key.append((const char*)&content[i], 8);
         if (!memo.insert(key).second) return false;
         uint64_t min_e = INF;
         for (size_t i = 0; i < n; ++i) if (!(done >> i & 1)) min_e = std::min(min_e, q[i].e);
         for (size_t i = 0; i < n; ++i) {
            if ((done >> i & 1) || q[i].b > min_e) continue;
            size_t len = content.size() - head;
            switch (q[i].kind) {
            case OP_Q_PUSH: content.push_back(q[i].v); if (go(done | 1ull << i)) return true; content.pop_back(); break;
            case OP_Q_POP: if (!len || content[head] != q[i].v) break; ++head; if (go(done | 1ull << i)) return true; --head; break;
            case OP_Q_TRY:
               if (q[i].v == -1) { if (len) break; if (go(done | 1ull << i)) return true; break; }
               if (!len || content[head] != q[i].v) break;
               ++head; if (go(done | 1ull << i)) return true; --head; break;
            case OP_Q_SIZE: if ((int64_t)len != q[i].v) break; if (go(done | 1ull << i)) return true; break;
            default: if ((len == 0) != (q[i].v != 0)) break; if (go(done | 1ull << i)) return true; break;
            }
         }
         return false;
      };
      if (!go(0)) return bad("not-linearizable", "the results of the queue operations fit no first-in first-out order");
      return true;
   }
   bool c26() {
      if (!expect_done()) return false;
      // Texts cut short by a failed allocation are looked at last, everything else as if they were whole
      std::string cut;
      for (auto& kv : h.sinks) {
         SinkRec& k = kv.second;
         std::vector<Item> keep;
         size_t unknown = 0, most = 0;
         for (auto& lv : h.logs) if (alloc_fault_in(lv.second)) ++most;
         for (auto& r : got[k.slot]) {
            if ((r.fl & RF_PREFIX) && r.code == MSG_UNKNOWN && unknown < most) {
               ++unknown;
               cut = fmt("sink %d received a message cut short to almost nothing after an allocation failed inside a log statement", k.slot);
               continue;
            }
            keep.push_back(r);
            if ((r.code >> 40) || (r.fl & 0xffff) != RF_TEXT || !(r.fl & RF_PREFIX)) continue;
            auto it = h.logs.find((uint32_t)r.code);
            if (it == h.logs.end() || !alloc_fault_in(it->second)) continue;
            cut = fmt("sink %d received message %u cut short after an allocation failed inside its statement", k.slot, it->first);
            keep.back().fl &= ~(uint32_t)RF_TEXT;
         }
         got[k.slot] = keep;
      }
      if (!integrity() || !excluded() || !complete() || !order() || !calls(false)) return false;
      for (auto& o : h.ops) if (o.res == 3 || o.res == 4) { if (o.kind == OP_LOG || o.kind == OP_SINK_ADD || o.kind == OP_WORKER_NEW || o.kind == OP_CALL) ok(); }
      for (auto& cv : h.calls) {
         PostedCall& c = cv.second;
         auto f = h.futs.find(c.call);
         if (f == h.futs.end() || c.res) continue;
         ok();
         if (f->second.status == 3 || f->second.status == 9) return bad("call-result", fmt("call %d was accepted but its future is broken (%d)", c.call, f->second.status));
      }
      if (!sinks_once()) return false;
      if (!cut.empty()) return bad("truncated-by-alloc-failure", cut);
      return true;
   }
   bool alloc_fault_in(const LogRec& l) const {
      for (auto& e : h.ev) if (e.type == EV_TEXT && e.a == 77 && (int)e.task == l.task && e.seq > l.b && e.seq < (l.e ? l.e : INF)) return true;
      return false;
   }
   bool c27() {
      const OpRec* f = nullptr;
      for (auto& o : h.ops) if (o.idx == (1 << 20) && (o.kind == OP_FATAL || o.kind == OP_SIGNAL)) f = &o;
      if (f) {
         ok();
         if (h.outcome == OUT_HANG || h.outcome == OUT_DEADLOCK) return bad("hang-fatal-in-sink", fmt("a fatal %s inside sink code never ends the process", f->kind == OP_FATAL ? "statement" : "signal"));
         if (h.outcome != OUT_SIGNAL) return unexpected();
         return true;
      }
      static const char kSelf[] = "selfjoin-call-in-callback";
      if (h.outcome == OUT_SIGNAL && h.code == SIGABRT && joined_itself()) return bad(kSelf, "a sink was destroyed on its own thread, at the end of a handle call made by the sink's own code: the thread would wait for itself and the process is terminated");
      if (!expect_done()) return false;
      // every program ends with a wait until nothing goes on any more: what is unfinished then is stuck
      for (auto& o : h.ops) {
         if (o.idx != (1 << 20) || o.e) continue;
         // the sinks' threads wait for each other's end: each became the last owner of another sink in a call made by its own code
         bool cycle = false;
         if (o.kind == OP_CALL) {
            int t = o.task;
            for (int n = 0; n < 8 && t >= 0; ++n) {
               int next = -1;
               for (auto& e : h.ev) if (e.type == EV_NOTE && e.a == 41 && (int)e.b == t && e.c == 3) next = (int)e.d;
               bool calling = false;
               for (auto& x : h.ops) if (x.task == t && x.kind == OP_CALL && x.idx == (1 << 20) && !x.e) calling = true;
               if (!calling) break;
               t = next;
               if (t == o.task) { cycle = true; break; }
            }
         }
         if (!cycle) return bad("stuck", fmt("the sink code's own %s never returned", op_names[o.kind]));
         return bad("joincycle-calls-in-callbacks", "sinks whose code calls through each other's handles were detached: each thread destroys another's sink and waits for its end");
      }
      return integrity() && excluded() && complete() && order() && calls() && call_order() && serial() && sinks_once();
   }
   // the process was terminated because a sink's thread, inside a handle call of the sink's code, was to join itself
   bool joined_itself() const {
      for (auto& e : h.ev) {
         if (e.type != EV_NOTE || e.a != 40) continue;
         for (auto& o : h.ops) if (o.kind == OP_CALL && o.idx == (1 << 20) && o.task == (int)e.task && o.b < e.seq && !o.e) return true;
         return false;
      }
      return false;
   }
   bool c28() {
      if (!expect_done()) return false;
      std::unordered_map<uint64_t, int> shown;
      std::string all;
      for (auto& kv : h.err) {
         const std::string& t = kv.second;
         static const std::string pre = "g3logworker has no sinks. Message: [";
         size_t p = 0;
         if (!h.repeats.empty()) for (size_t q = t.find(pre); q != std::string::npos; q = t.find(pre, q + 1)) {
            size_t b = q + pre.size(), m = t.find("]\t", b);
            if (m == std::string::npos || (m += 2) >= t.size() || t[m] == '#') continue;
            uint32_t fl = 0;
            int64_t st;
            if (sim_check_formatted(t.data() + b, std::min(t.size() - b, m + sim_text_length(t.data() + m, t.size() - m) + 1 - b), &fl, &st, 0) != REPEAT_UID) continue;
            if (fl & 0xffff) return bad("stderr-damaged", "a message appears on the error stream damaged");
            ++shown[which_repeat(h, st, true)];
         }
         while ((p = t.find("#", p)) != std::string::npos) {
            size_t q = p + 1;
            uint64_t uid = 0;
            while (q < t.size() && t[q] >= '0' && t[q] <= '9' && q - p < 8) uid = uid * 10 + (t[q++] - '0');
            if (q == p + 1 || q >= t.size() || t[q] != ';') { ++p; continue; }
            // the formatted line around it
            size_t b = t.rfind('\n', p);
            b = b == std::string::npos ? 0 : b + 1;
            size_t stamp = std::string::npos;
            for (size_t i = b; i + 26 < p; ++i) {
               bool d = t[i + 4] == '/' && t[i + 7] == '/' && t[i + 10] == ' ' && t[i + 13] == ':' && t[i + 16] == ':' && t[i + 26] == '\t';
               for (int z : {0, 1, 2, 3, 5, 6, 8, 9, 11, 12, 14, 15, 17, 18}) if (d && (t[i + z] < '0' || t[i + z] > '9')) d = false;
               if (d) { stamp = i; break; }
            }
            size_t tl = sim_text_length(t.data() + p, t.size() - p), e = t.find('\n', std::min(t.size(), p + tl));
            ok();
            bool good = false;
            if (stamp != std::string::npos && e != std::string::npos) {
               uint32_t fl = 0;
               int64_t st;
               uint64_t c = sim_check_formatted(t.data() + stamp, e + 1 - stamp, &fl, &st, 0);
               good = c == uid && !(fl & 0xffff);
            }
            if (!good) return bad("stderr-damaged", fmt("message %lu appears on the error stream damaged", (unsigned long)uid));
            ++shown[uid];
            p = q;
         }
      }
      for (auto& lv : h.logs) {
         LogRec& l = lv.second;
         const Life* x = definite(l);
         if (!x || !l.cond || l.fatal || l.res) continue;
         int n = 0;
         for (auto& kv : h.sinks) for (auto& r : got[kv.first]) if (r.code == l.uid) { ++n; break; }
         ok();
         int sh = shown[l.uid];
         if (n && sh) return bad("both", fmt("message %u was received by %d sinks and also reported as having no sink", l.uid, n));
         if (!n && !sh) return bad("vanished", fmt("message %u was neither received by a sink nor shown on the error stream", l.uid));
         if (sh > 1) return bad("twice", fmt("message %u appears on the error stream %d times", l.uid, sh));
      }
      return complete() && excluded();
   }

   Violation run() {
      static const std::map<std::string, bool (O::*)()> m = {
         {"C01", &O::c01}, {"C02", &O::c02}, {"C03", &O::c03}, {"C04", &O::c04}, {"C05", &O::c05}, {"C06", &O::c06}, {"C07", &O::c07}, {"C08", &O::c08}, {"C09", &O::c09}, {"C10", &O::c10},
         {"C11", &O::c11}, {"C12", &O::c12}, {"C13", &O::c13}, {"C14", &O::c14}, {"C15", &O::c15}, {"C16", &O::c16}, {"C17", &O::c17}, {"C18", &O::c18}, {"C19", &O::c19}, {"C20", &O::c20},
         {"C21", &O::c21}, {"C22", &O::c22}, {"C23", &O::c23}, {"C24", &O::c24}, {"C25", &O::c25}, {"C26", &O::c26}, {"C27", &O::c27}, {"C28", &O::c28}};
      auto it = m.find(s.prop);
      if (it == m.end()) return v;
      if (s.prop != "C22" && (h.outcome == OUT_UAF || h.outcome == OUT_CRASH || h.outcome == OUT_BADFREE || h.outcome == OUT_ESCAPE || h.outcome == OUT_STEPCAP)) { unexpected(); return v; }
      (this->*it->second)();
      if (!v.hit()) for (auto& e : h.ev) if (e.type == EV_NOTE && e.a == 100) bad("escape", "a path outside the scratch directory was used");
      return v;
   }
};
}  // namespace

Violation check(const Scenario& s, History& h) {
   O o(s, h);
   return o.run();
}
