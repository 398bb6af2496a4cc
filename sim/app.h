// Scenario operations shared by the app (runs inside the simulation) and the driver (generates, checks).
#pragma once
#include "engine.h"

enum Op {
   OP_NOP = 0,
   OP_WORKER_NEW, OP_WORKER_INIT, OP_WORKER_DEL, OP_SHUTDOWN,
   OP_SINK_ADD, OP_SINK_REMOVE, OP_REMOVE_ALL, OP_HANDLE_DROP, OP_SINK_HOLD, OP_SINK_UNHOLD,
   OP_LOG, OP_LOG_BURST, OP_CALL, OP_GET,
   OP_SPAWN, OP_JOIN, OP_SLEEP, OP_YIELD, OP_GATE_OPEN, OP_GATE_WAIT, OP_WAIT_RECV,
   OP_FATAL, OP_SIGNAL, OP_CHECK_OK, OP_SET_HOOK, OP_SET_HANDLER,
   OP_LEVEL, OP_ROTATE, OP_FILENAME, OP_CLOCK_STEP, OP_ALLOC_ARM, OP_THREAD_ARM, OP_FS_FAULTS, OP_PROBE_RES,
   OP_SIGDISP, OP_INSTALL, OP_OVERRIDE, OP_RESTORE_DEFAULT, OP_RESTORE_SIG, OP_PROBE_DISP,
   OP_EX_NEW, OP_EX_SEND, OP_EX_SPAWN, OP_EX_DEL, OP_EX_NULL, OP_EX_GET,
   OP_Q_PUSH, OP_Q_POP, OP_Q_TRY, OP_Q_SIZE, OP_Q_EMPTY,
   OP_MAXSIZE, OP_REMOVE_COPY, OP_KILL, OP_SETTLE, OP_WAIT_EV, OP_HANDLE_OVERRIDE, OP_EXIT_LOG, OP_EX_BURST, OP_Q_BURST, OP_Q_DRAIN, OP_SEND_SIGNAL,
   OP_KINDS
};
extern const char* const op_names[];

// flush interval of a file sink, from bits 8..15 of its parameter
enum { EVERY_0 = 250, EVERY_1000, EVERY_4096, EVERY_100000, EVERY_MAX };
inline size_t flush_interval(int param) {
   int k = param >> 8 & 255;
   static const size_t big[] = {0, 1000, 4096, 100000, ~(size_t)0};
   return k < EVERY_0 ? (k ? k : 1) : big[(k - EVERY_0) % 5];
}
// OP_SINK_ADD: a=slot b=kind c=worker d=behaviour flags e=param
enum SinkKind { SK_MSG = 0, SK_STR, SK_LAMBDA, SK_FILE, SK_TFILE, SK_KINDS };
enum SinkBeh {
   SB_MUTATE = 1,      // changes its copy of the message
   SB_SLOW = 2,        // sleeps e microseconds per message
   SB_GATE = 4,        // waits for gate `slot` in its first receive call
   SB_YIELD = 8,       // many preemption points per call
   SB_SELFLOG = 16,    // logs a derived message for some messages
   SB_SELFCALL = 32,   // posts calls through handles from the callback
   SB_FATAL = 64,      // LOG(FATAL) on receiving the message with uid e
   SB_SIGNAL = 128,    // raises SIGSEGV on receiving the message with uid e
   SB_SLOWDTOR = 256,
   SB_DROPHANDLE = 512,
   SB_RAND = 1024,     // sleeps a message dependent time
   SB_FULLDETAILS = 2048,   // file sinks: overrideLogDetails(FullLogDetailsToString)
   SB_CROSSCALL = 8192, // posts calls through the handle of the sink in the next slot
   SB_LOGDTOR = 16384, // the sink's destructor logs
   SB_CALLLOG = 32768, // functions called through the handle log
   SB_CALLGATE = 4096, // calls (not messages) wait for the gate
   SB_HEADER = 131072, // default file sink: overrideLogHeader
   SB_KEEP = 65536     // keeps the message it received last (moved, or by swapping the mover) and looks at it again later
};
// OP_LOG: a=uid b=form c=level d=len e=cond; for LF_STREAM e >> 1 is the uid of a statement evaluated inside this one
// OP_EXIT_LOG: the same, executed by the destructor of a thread_local object when the thread ends
// LF_BADF: printf-style, with an argument that cannot be converted; the message must still name the statement's format. Not with file sinks.
// LF_REPEAT: every such statement of a program is the same (level, text: sim_repeats[len]) and executed by the same thread.
// Which of them a received message stems from is found out by its time stamp (history.cpp).
enum LogForm { LF_STREAM = 0, LF_PRINTF, LF_STREAM_IF, LF_PRINTF_IF, LF_BUFFER, LF_FORMS, LF_REPEAT, LF_BADF };
enum { FORM_NOTEXT = 100, REPEAT_UID = 0, REPEAT_TEXTS = 10 };
enum LogLvl { LV_DEBUG = 0, LV_INFO, LV_WARNING, LV_CUSTOM, LV_CUSTOM2, LV_FATAL, LV_CUSTOMFATAL, LV_CONTRACT, LV_SIGNAL, LV_N };
// OP_SEND_SIGNAL: a=thread b=signal; handled by that thread in its next interruptible wait
// OP_FATAL: a=uid b=form c=len
enum FatalForm { FF_LOG = 0, FF_LOGF, FF_CHECK, FF_CHECKF, FF_CUSTOM, FF_LOGIF, FF_CHECK_F, FF_FORMS, FF_EMPTY };   // FF_EMPTY: CHECK without a text, at most once per program
// OP_CALL: a=slot b=callid c=kind
enum CallKind { CK_VALUE = 0, CK_VOID, CK_THROW, CK_MOVE, CK_STRING, CK_SLOW, CK_KINDS };
// OP_SET_HOOK: a=hook id b=behaviour c=arg
enum HookBeh { HK_COUNT = 0, HK_LOG, HK_FATAL, HK_RAISE, HK_SLEEP, HK_NONE, HK_UNSET, HK_KINDS };
// OP_SET_HANDLER: a=behaviour
enum HandlerBeh { HD_RECORD = 0, HD_THROW, HD_FORWARD, HD_DEFAULT, HD_LOG, HD_NESTED, HD_CLOSE, HD_CLOSE_RETURN, HD_KINDS };
// OP_LEVEL: a=action b=level
enum LevelAct { LA_ENABLE = 0, LA_DISABLE, LA_SETHIGHEST, LA_DISABLEALL, LA_ENABLEALL, LA_STATUS, LA_QUERY, LA_TOSTRING, LA_GETALL, LA_ADD, LA_RESET, LA_SET, LA_KINDS };

// EV_RECV b codes
enum : uint64_t {
   MSG_UNKNOWN = 1ull << 40,
   MSG_SIGNAL = 2ull << 40,     // | signal
   MSG_WARN = 3ull << 40,       // g3log's own warning about shutting down
};
// EV_RECV c flags (0 = everything as expected)
enum RecvFlags {
   RF_TEXT = 1, RF_LEVEL = 2, RF_FILE = 4, RF_LINE = 8, RF_FUNC = 16, RF_THREAD = 32, RF_PATH = 64, RF_FORMAT = 128, RF_EXPR = 256, RF_UNEXPECTED = 512,
   RF_INFO = 0xffff0000,
   RF_UNINIT = 0x10000,      // carries the "not initialized" mark
   RF_FATAL = 0x20000,       // fatal message
   RF_EXITNOTE = 0x40000,    // carries the "exiting after fatal event" note
   RF_RECURSIVE = 0x80000,   // mentions a recursive crash
   RF_PREFIX = 0x200000,     // the text is a proper prefix of the statement's
   RF_MUTATED = 0x100000
};
struct MsgView {            // raw fields of a received message
   const char *text, *level, *file, *path, *func, *expr, *tid;
   size_t textlen;
   int line, levelvalue;
   uint64_t thread;
};
extern "C" {
char sim_filler(uint32_t uid, uint32_t i, uint32_t nul);
size_t sim_text_length(const char* s, size_t n);
uint32_t sim_text(uint32_t uid, uint32_t len, int form, char* out);   // full text incl. "#uid;" prefix, returns length, NUL-terminated
void sim_expect(uint32_t uid, uint32_t len, int form, int level, int line, int func, uint32_t limit, int used);
uint64_t sim_check_view(const MsgView* v, uint32_t* flags);
uint64_t sim_check_formatted(const char* s, size_t n, uint32_t* flags, int64_t* stamp_us_of_day, int full);
extern const char* const sim_func_names[];
extern const char* const sim_repeats[];
extern const char* const sim_level_names[];
extern const int sim_level_values[];
void app_main();
void app_prewarm();
extern const char* const app_source_file;
#define SIM_TZ "SIM-05:30"      // local time is not UTC
#define SIM_TZ_SECONDS 19800
}
