// Message text generation and verification. Uninstrumented, allocation free.
#include "app.h"

#include <signal.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>

extern "C" {
const char* const sim_func_names[] = {"form_stream", "form_printf", "form_stream_if", "form_printf_if", "form_of_a_statement_in_a_function_with_a_rather_long_name_as_generated_code_and_deeply_nested_test_fixtures_tend_to_have_them_since_nobody_has_to_type_them", "fatal_log", "fatal_logf", "fatal_check", "fatal_checkf", "fatal_custom", "fatal_logif", "fatal_check_f", "form_repeat", "fatal_empty", "form_badf"};
const char* const sim_repeats[] = {"", "\n", " ", "  leading blanks", "\ttrailing\t \n\n", "%d%s%n", "x", "again and again", "]\t[", "the same in two\nlines"};
const char* const sim_level_names[] = {"DEBUG", "INFO", "WARNING", "MYINFO", "MYNOTE", "FATAL", "MYFATAL", "CONTRACT", "FATAL_SIGNAL"};
const int sim_level_values[] = {100, 300, 500, 501, 50, 1000, 1001, 2000, 2001};

// every third message has a text with characters that somebody might treat specially, and, where the form of the
// statement can express it, a NUL character in its middle
char sim_filler(uint32_t uid, uint32_t i, uint32_t nul) {
   static const char rich[] = "%%s%n%d\n\t\r\"'\\[](){}<> *&;:,?!$@^~|`=+-\x01\x7f\x80\xff\xc3\xa9 axyz09\n\tEXIT";
   if (uid % 3 == 2) return nul && i == nul ? '\0' : rich[(uid * 31u + i * 7u + (i >> 6) * 13u + (i >> 11) * 29u) % (sizeof rich - 1)];
   static const char al[] = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789_.";
   return al[(uid * 31u + i * 7u + (i >> 6) * 13u + (i >> 11) * 29u) & 63];
}
static uint32_t prefix(uint32_t uid, char* out) {
   char tmp[16];
   int n = 0;
   uint32_t v = uid;
   do { tmp[n++] = '0' + v % 10; v /= 10; } while (v);
   uint32_t k = 0;
   out[k++] = '#';
   while (n) out[k++] = tmp[--n];
   out[k++] = ';';
   return k;
}
static uint32_t nul_at(uint32_t k, uint32_t len, int form) { return (form == LF_STREAM || form == LF_PRINTF) && len > k + 4 ? k + (len - k) / 2 : 0; }
uint32_t sim_text(uint32_t uid, uint32_t len, int form, char* out) {
   uint32_t k = prefix(uid, out), nul = nul_at(k, len, form);
   while (k < len) { out[k] = sim_filler(uid, k, nul); ++k; }
   out[k] = 0;
   return k;
}
void sim_expect(uint32_t uid, uint32_t len, int form, int level, int line, int func, uint32_t limit, int used) {
   if (uid >= SIM_MAXUID) abort();
   SimExpect& e = sim_shm->exp[uid];
   char tmp[32];
   uint32_t p = prefix(uid, tmp);
   if (form == FORM_NOTEXT) sim_shm->notext_uid = uid;
   e.len = uid == REPEAT_UID || form == FORM_NOTEXT ? len : len < p ? p : len;
   e.form = form; e.level = level; e.line = line; e.task = sim_self(); e.func = func; e.limit = limit; e.used = used;
   if (uid >= sim_shm->max_uid) sim_shm->max_uid = uid + 1;
}

static const char* source_of(uint32_t func) {   // forms.h
   if (func == 3) return "nodirectory.cpp";
   if (func == 4) return "/srv/build area/gen.er/ated/../modules/sub/sub/sub/sub/sub/sub/sub/sub/sub/sub/sub/sub/unit one.test.cc";
   return app_source_file;
}
static bool starts(const char* s, size_t n, const char* p) { size_t l = strlen(p); return n >= l && memcmp(s, p, l) == 0; }
static const char* find(const char* s, size_t n, const char* p) { return (const char*)memmem(s, n, p, strlen(p)); }

// the text of this program's repeated statements
static const char* repeated() {
   SimExpect& e = sim_shm->exp[REPEAT_UID];
   return e.used ? sim_repeats[e.len] : nullptr;
}

// what follows the text of a fatal message: the reason for the exit, of this event
static void check_exit(const char* s, size_t n, const char* level, int sig, uint32_t* fl) {
   if (find(s, n, "recursive crash")) *fl |= RF_RECURSIVE;
   static const char kNote[] = "Exiting after fatal event";
   const char* p = find(s, n, kNote);
   if (!p) return;
   *fl |= RF_EXITNOTE;
   p += sizeof kNote - 1;
   size_t r = n - (p - s);
   if (find(p, r, kNote)) *fl |= RF_TEXT;
   const char* name = sig == SIGABRT ? "SIGABRT" : sig == SIGFPE ? "SIGFPE" : sig == SIGSEGV ? "SIGSEGV" : sig == SIGILL ? "SIGILL" : sig == SIGTERM ? "SIGTERM" : "";
   const char* t = find(p, r, "Fatal type:");
   char lv[80];
   snprintf(lv, sizeof lv, "(%s)", level);
   if (!t || !find(p, t - p, lv) || !find(t, n - (t - s), name)) *fl |= RF_TEXT;
   else { static const char* const all[] = {"SIGABRT", "SIGFPE", "SIGSEGV", "SIGILL", "SIGTERM"}; for (const char* o : all) if (*name && strcmp(o, name) && find(t, n - (t - s), o)) *fl |= RF_TEXT; }
}

// classify the text of a message and compare it with what was logged
static uint64_t check_text(const char* s, size_t n, uint32_t* fl) {
   static const char kUninit[] = "LOGGER NOT INITIALIZED:\n\t\t";
   if (starts(s, n, "\n\t\tAttempted to shut down logging")) return MSG_WARN;
   if (starts(s, n, "Received fatal signal: ")) {
      *fl |= RF_FATAL;
      const char* p = (const char*)memchr(s, '(', n);
      int sig = p ? atoi(p + 1) : 0;
      const char* name = sig == SIGABRT ? "SIGABRT(" : sig == SIGFPE ? "SIGFPE(" : sig == SIGSEGV ? "SIGSEGV(" : sig == SIGILL ? "SIGILL(" : sig == SIGTERM ? "SIGTERM(" : nullptr;
      if (name && !starts(s + 23, n - 23, name)) *fl |= RF_TEXT;
      check_exit(s, n, "FATAL_SIGNAL", sig, fl);
      return MSG_SIGNAL | (uint64_t)sig;
   }
   if (starts(s, n, kUninit)) { *fl |= RF_UNINIT; s += sizeof kUninit - 1; n -= sizeof kUninit - 1; }
   if (const char* again = repeated()) if (n == strlen(again) && !memcmp(s, again, n)) return REPEAT_UID;
   if (!n) { *fl |= RF_PREFIX; return MSG_UNKNOWN; }
   if (sim_shm->notext_uid && starts(s, n, "\n*******\tSTACKDUMP *******\n")) {
      *fl |= RF_FATAL;
      check_exit(s, n, sim_level_names[LV_CONTRACT], SIGABRT, fl);
      return sim_shm->notext_uid;
   }
   if (s[0] != '#' && memmem(s, n, ";%ls", 4)) {   // a message that could not be formatted
      const char* q = (const char*)memchr(s, '#', n);
      char want[32];
      uint32_t u = 0;
      if (q) for (const char* d = q + 1; d < s + n && *d >= '0' && *d <= '9' && d < q + 9; ++d) u = u * 10 + (uint32_t)(*d - '0');
      snprintf(want, sizeof want, "#%u;%%ls", u);
      if (!q || u >= SIM_MAXUID || sim_shm->exp[u].used != 1 || sim_shm->exp[u].form != LF_BADF || !starts(q, n - (q - s), want)) return MSG_UNKNOWN;
      return u;
   }
   if (s[0] != '#') return MSG_UNKNOWN;
   size_t i = 1;
   uint64_t uid = 0;
   while (i < n && s[i] >= '0' && s[i] <= '9' && i < 9) uid = uid * 10 + (s[i++] - '0');
   if (i == n) { *fl |= RF_PREFIX; return MSG_UNKNOWN; }
   if (i == 1 || i >= n || s[i] != ';' || uid >= SIM_MAXUID) return MSG_UNKNOWN;
   SimExpect& e = sim_shm->exp[uid];
   if (e.used != 1) { *fl |= RF_UNEXPECTED; return uid; }
   ++i;
   uint32_t want = e.len;
   bool trunc = false;
   if (e.limit && want > e.limit - 1) { want = e.limit - 1; trunc = true; }
   uint32_t k = (uint32_t)i, nul = sim_level_values[e.level] >= 1000 ? 0 : nul_at(k, e.len, e.form);
   // text may follow for fatal messages; compare the produced text first
   for (; k < want; ++k)
      if (k >= n) { *fl |= RF_TEXT | RF_PREFIX; return uid; }
      else if (s[k] != sim_filler((uint32_t)uid, k, nul)) { *fl |= RF_TEXT; return uid; }
   const char* rest = s + want;
   size_t rn = n > want ? n - want : 0;
   if (trunc) {
      if (!starts(rest, rn, "[...truncated...]")) { *fl |= RF_TEXT; if (rn < 17 && !memcmp(rest, "[...truncated...]", rn)) *fl |= RF_PREFIX; }
      else { rest += 17; rn -= 17; }
   }
   if (sim_level_values[e.level] >= 1000) {
      *fl |= RF_FATAL;
      if (!starts(rest, rn, "\n*******\tSTACKDUMP *******\n")) *fl |= RF_TEXT;
      check_exit(rest, rn, sim_level_names[e.level], SIGABRT, fl);
   } else if (rn) {
      if (starts(rest, rn, "!mutated")) *fl |= RF_MUTATED;
      *fl |= RF_TEXT;
   }
   return uid;
}

// length of the text at s that starts with "#uid;", as it was logged; 0 if that is not known
size_t sim_text_length(const char* s, size_t n) {
   static const char kUninit[] = "LOGGER NOT INITIALIZED:\n\t\t";
   size_t extra = 0;
   if (starts(s, n, kUninit)) { extra = sizeof kUninit - 1; s += extra; n -= extra; }
   if (const char* again = repeated()) if (starts(s, n, again) && n > strlen(again) && s[strlen(again)] == '\n') return extra + strlen(again);
   if (n < 3 || s[0] != '#') return 0;
   size_t i = 1;
   uint64_t uid = 0;
   while (i < n && s[i] >= '0' && s[i] <= '9' && i < 9) uid = uid * 10 + (s[i++] - '0');
   if (i == 1 || i >= n || s[i] != ';' || uid >= SIM_MAXUID) return 0;
   SimExpect& e = sim_shm->exp[uid];
   if (e.used != 1) return 0;
   return extra + (e.limit && e.len > e.limit - 1 ? e.limit - 1 + 17 : e.len);
}

static const char* kExpr = "1 == sim_false()";

uint64_t sim_check_view(const MsgView* v, uint32_t* flags) {
   uint32_t fl = 0;
   uint64_t id = check_text(v->text, v->textlen, &fl);
   if (id < SIM_MAXUID && !(fl & RF_UNEXPECTED)) {
      SimExpect& e = sim_shm->exp[id];
      if (v->levelvalue != sim_level_values[e.level] || strcmp(v->level, sim_level_names[e.level])) fl |= RF_LEVEL;
      const char* source = source_of(e.func);
      const char* base = strrchr(source, '/');
      base = base ? base + 1 : source;
      if (strcmp(v->file, base)) fl |= RF_FILE;
      if (strcmp(v->path, source)) fl |= RF_PATH;
      if (v->line != e.line) fl |= RF_LINE;
      if (strcmp(v->func, sim_func_names[e.func])) fl |= RF_FUNC;
      if (v->thread != sim_self_pthread(e.task)) fl |= RF_THREAD;
      char tmp[32];
      snprintf(tmp, sizeof tmp, "%lu", (unsigned long)sim_self_pthread(e.task));
      char tmp2[32];
      snprintf(tmp2, sizeof tmp2, "0x%lx", (unsigned long)sim_self_pthread(e.task));
      if (strcmp(v->tid, tmp) && strcmp(v->tid, tmp2)) fl |= RF_THREAD;
      const char* ex = e.level == LV_CONTRACT ? kExpr : "";
      if (strcmp(v->expr, ex)) fl |= RF_EXPR;
   }
   *flags = fl;
   return id;
}

// formatted text as string sinks and files get it (one complete entry)
// full: 0 default details, 1 with thread id
uint64_t sim_check_formatted(const char* s, size_t n, uint32_t* flags, int64_t* stamp, int full) {
   uint32_t fl = 0;
   *stamp = -1;
   int y, mo, d, h, mi, sec, us;
   if (n < 26) { *flags = RF_FORMAT; return MSG_UNKNOWN; }
   auto dig = [&](size_t a, int k) { int v = 0; for (int i = 0; i < k; ++i) { char c = s[a + i]; if (c < '0' || c > '9') return -1; v = v * 10 + (c - '0'); } return v; };
   y = dig(0, 4); mo = dig(5, 2); d = dig(8, 2); h = dig(11, 2); mi = dig(14, 2); sec = dig(17, 2); us = dig(20, 6);
   if (y < 0 || mo < 0 || d < 0 || h < 0 || mi < 0 || sec < 0 || us < 0 || s[4] != '/' || s[7] != '/' || s[10] != ' ' || s[13] != ':' || s[16] != ':' || s[19] != ' ') { *flags = RF_FORMAT; return MSG_UNKNOWN; }
   // days from civil
   int yy = y - (mo <= 2);
   int era = yy / 400; unsigned yoe = yy - era * 400; unsigned doy = (153 * (mo + (mo > 2 ? -3 : 9)) + 2) / 5 + d - 1; unsigned doe = yoe * 365 + yoe / 4 - yoe / 100 + doy;
   int64_t days = (int64_t)era * 146097 + doe - 719468;
   *stamp = ((days * 86400 + h * 3600 + mi * 60 + sec - SIM_TZ_SECONDS) * 1000000ll) + us;
   const char* p = s + 26;
   size_t r = n - 26;
   static const char kSig[] = "\n\n***** FATAL SIGNAL RECEIVED ******* \n";
   if (starts(p, r, kSig)) {
      p += sizeof kSig - 1; r -= sizeof kSig - 1;
      uint64_t id = check_text(p, r, &fl);
      if ((id >> 40) != (MSG_SIGNAL >> 40)) fl |= RF_FORMAT;
      *flags = fl;
      return id;
   }
   if (!r || *p != '\t') { *flags = RF_FORMAT; return MSG_UNKNOWN; }
   ++p; --r;
   // details: LEVEL [file->func:line]\t
   const char* br = (const char*)memmem(p, r, " [", 2);
   const char* en = (const char*)memmem(p, r, "]\t", 2);
   if (!br || !en || br > en) { *flags = RF_FORMAT; return MSG_UNKNOWN; }
   const char* m = en + 2;
   size_t mn = r - (m - p);
   static const char kFat[] = "\n\t*******\t EXIT trigger caused by LOG(FATAL) entry: \n\t\"";
   static const char kChk[] = "\n\t*******\t EXIT trigger caused by broken Contract: CHECK(";
   static const char kCus[] = "\t*******UNKNOWN or Custom made Log Message Type\n\t";
   int kind = 0;
   if (starts(m, mn, kFat)) { m += sizeof kFat - 1; mn -= sizeof kFat - 1; kind = 1; if (mn && m[mn - 1] == '"') --mn; else fl |= RF_FORMAT; }
   else if (starts(m, mn, kChk)) {
      const char* q = (const char*)memmem(m, mn, ")\n\t\"", 4);
      if (!q) { *flags = RF_FORMAT; return MSG_UNKNOWN; }
      const char* x = m + sizeof kChk - 1;
      if ((size_t)(q - x) != strlen(kExpr) || memcmp(x, kExpr, q - x)) fl |= RF_EXPR;
      mn -= (q + 4 - m); m = q + 4; kind = 2;
      if (mn && m[mn - 1] == '"') --mn; else fl |= RF_FORMAT;
   } else if (starts(m, mn, kCus)) { m += sizeof kCus - 1; mn -= sizeof kCus - 1; kind = 3; if (mn && m[mn - 1] == '\n') --mn; else fl |= RF_FORMAT; }
   else { if (mn && m[mn - 1] == '\n') --mn; else fl |= RF_FORMAT; }
   uint64_t id = check_text(m, mn, &fl);
   if ((id >> 40) == (MSG_SIGNAL >> 40)) fl |= RF_FORMAT;
   if (id < SIM_MAXUID && !(fl & RF_UNEXPECTED)) {
      SimExpect& e = sim_shm->exp[id];
      char want[512];
      const char* source = source_of(e.func);
      const char* base = strrchr(source, '/');
      base = base ? base + 1 : source;
      int k;
      if (full) k = snprintf(want, sizeof want, "%s [%lu %s->%s:%d]\t", sim_level_names[e.level], (unsigned long)sim_self_pthread(e.task), base, sim_func_names[e.func], e.line);
      else k = snprintf(want, sizeof want, "%s [%s->%s:%d]\t", sim_level_names[e.level], base, sim_func_names[e.func], e.line);
      if ((size_t)(en + 2 - p) != (size_t)k || memcmp(p, want, k)) fl |= RF_LEVEL | RF_FILE | RF_LINE | RF_FUNC;
      int lv = sim_level_values[e.level];
      int wk = lv < 1000 ? 0 : e.level == LV_FATAL ? 1 : e.level == LV_CONTRACT ? 2 : 3;
      if (wk != kind) fl |= RF_FORMAT;
   }
   *flags = fl;
   return id;
}
}
