From 69a5931ddd8f4bd66027cf5515c619e5ff424298 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:32 +0000
Subject: [PATCH 01/22] fix: mark printf-style messages of exactly the limit as
 truncated

A message of exactly as many characters as the buffer holds lost its last
character to the terminating null without the truncation mark.
---
 src/logcapture.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/logcapture.cpp b/src/logcapture.cpp
index ad448c9..d4f138b 100644
--- a/src/logcapture.cpp
+++ b/src/logcapture.cpp
@@ -105,7 +105,7 @@ void LogCapture::capturef(const char* printf_like_message, ...) {
    if (nbrcharacters < 0) {
       stream() << "\n\tERROR LOG MSG NOTIFICATION: Failure to successfully parse the message";
       stream() << '"' << printf_like_message << '"' << std::endl;
-   } else if (nbrcharacters > finished_message_len) {
+   } else if (nbrcharacters >= finished_message_len) {
       stream() << finished_message << kTruncatedWarningText;
    } else {
       stream() << finished_message;
-- 
2.43.0


From 3cdd498ec05942a667139b64bfe226eaee5c077d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:45 +0000
Subject: [PATCH 02/22] fix: keep the original signal actions when the crash
 handler is installed again

Installing twice saved g3log's own handler as the action to restore, so that
the signal raised after the flush came back to g3log and the process hung.
---
 src/crashhandler_unix.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/crashhandler_unix.cpp b/src/crashhandler_unix.cpp
index 9c40449..2ca0fe5 100644
--- a/src/crashhandler_unix.cpp
+++ b/src/crashhandler_unix.cpp
@@ -102,7 +102,8 @@ namespace {
          if (sigaction(sig_pair.first, &action, &old_action) < 0) {
             std::string signalerror = "sigaction - " + sig_pair.second;
             perror(signalerror.c_str());
-         } else {
+         } else if (old_action.sa_sigaction != &signalHandler) {
+            // an already installed g3log handler is nothing to go back to: keep what was there before it
             gSavedSigActions[sig_pair.first] = old_action;
          }
       }
-- 
2.43.0


From 6490412fa92cc5c927ce6c0a2d730422de5c32e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:45 +0000
Subject: [PATCH 03/22] fix: change only the status when a log level is enabled
 or disabled

Enabling or disabling a level also reassigned its text, which raced with
threads that read the level at the same time.
---
 src/loglevels.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/loglevels.cpp b/src/loglevels.cpp
index a148e8f..fad165b 100644
--- a/src/loglevels.cpp
+++ b/src/loglevels.cpp
@@ -63,7 +63,7 @@ namespace g3 {
       void set(LEVELS level, bool enabled) {
          auto it = internal::g_log_levels.find(level.value);
          if (it != internal::g_log_levels.end()) {
-            internal::g_log_levels[level.value] = {level, enabled};
+            it->second.status = enabled;
          }
       }
 
-- 
2.43.0


From 50172844ed95976b1fb2e7a685cba674c0710846 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:45 +0000
Subject: [PATCH 04/22] fix: do not add a log level by asking whether it is
 enabled

logLevel() inserted unknown levels into the map of levels, so getStatus() no
longer reported them absent, enableAll() enabled them, and logging threads
changed the map while others read it.
---
 src/loglevels.cpp | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/loglevels.cpp b/src/loglevels.cpp
index fad165b..8fc5f48 100644
--- a/src/loglevels.cpp
+++ b/src/loglevels.cpp
@@ -118,9 +118,8 @@ namespace g3 {
 
    bool logLevel(const LEVELS& log_level) {
 #ifdef G3_DYNAMIC_LOGGING
-      int level = log_level.value;
-      bool status = internal::g_log_levels[level].status.value();
-      return status;
+      const auto it = internal::g_log_levels.find(log_level.value);
+      return it != internal::g_log_levels.end() && it->second.status.value();
 #else
       return true;
 #endif
-- 
2.43.0


From e54b24fd126bc3979e7c21ee7006641e766d0071 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:28 +0000
Subject: [PATCH 05/22] fix: give the pre-fatal hook its default before logging
 is initialized

A fatal event before the first initializeLogging() called an empty
std::function: the failing statement threw std::bad_function_call and a fatal
signal ended the process by SIGABRT instead of its own signal.
---
 src/g3log.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/g3log.cpp b/src/g3log.cpp
index a5bfa52..3db2a18 100644
--- a/src/g3log.cpp
+++ b/src/g3log.cpp
@@ -41,7 +41,7 @@ namespace {
    std::once_flag g_set_first_uninitialized_flag;
    std::once_flag g_save_first_uninitialized_flag;
    const std::function<void(void)> g_pre_fatal_hook_that_does_nothing = [] { /*does nothing */ };
-   std::function<void(void)> g_fatal_pre_logging_hook;
+   std::function<void(void)> g_fatal_pre_logging_hook = g_pre_fatal_hook_that_does_nothing;
 
    std::atomic<size_t> g_fatal_hook_recursive_counter = {0};
 }  // namespace
-- 
2.43.0


From 5dabe03dc6e0840efb876e6e7fe41f247a76d091 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:45 +0000
Subject: [PATCH 06/22] fix: read the active logger once, atomically

The plain pointer was tested and then read again, while other threads
initialize or shut down logging: a log statement could dereference null, and
destroying a worker could stop a logger initialized by another thread.
---
 src/g3log.cpp | 21 ++++++++++++++-------
 1 file changed, 14 insertions(+), 7 deletions(-)

diff --git a/src/g3log.cpp b/src/g3log.cpp
index 3db2a18..e2247b4 100644
--- a/src/g3log.cpp
+++ b/src/g3log.cpp
@@ -34,7 +34,7 @@
 
 namespace {
    std::once_flag g_initialize_flag;
-   g3::LogWorker* g_logger_instance = nullptr;  // instantiated and OWNED somewhere else (main)
+   std::atomic<g3::LogWorker*> g_logger_instance{nullptr};  // instantiated and OWNED somewhere else (main)
    std::mutex g_logging_init_mutex;
 
    std::unique_ptr<g3::LogMessage> g_first_uninitialized_msg = {nullptr};
@@ -127,14 +127,17 @@ namespace g3 {
        * @return true if the correct worker was given,. and shutDownLogging was called
        */
       bool shutDownLoggingForActiveOnly(LogWorker* active) {
-         if (isLoggingInitialized() && nullptr != active && (active != g_logger_instance)) {
+         LogWorker* current = g_logger_instance;
+         if (nullptr != current && nullptr != active && active != current) {
             LOG(WARNING) << "\n\t\tAttempted to shut down logging, but the ID of the Logger is not the one that is active."
                          << "\n\t\tHaving multiple instances of the g3::LogWorker is likely a BUG"
                          << "\n\t\tEither way, this call to shutDownLogging was ignored"
                          << "\n\t\tTry g3::internal::shutDownLogging() instead";
             return false;
          }
-         shutDownLogging();
+         // a logger that another thread initialized meanwhile is left alone
+         std::lock_guard<std::mutex> lock(g_logging_init_mutex);
+         g_logger_instance.compare_exchange_strong(current, nullptr);
          return true;
       }
 
@@ -191,8 +194,11 @@ namespace g3 {
             * @param log_entry to save to logger
             */
       void pushMessageToLogger(LogMessagePtr incoming) {  // todo rename to Push SavedMessage To Worker
+         // read once: another thread may shut down logging at any time
+         LogWorker* const logger = g_logger_instance;
+
          // Uninitialized messages are ignored but does not CHECK/crash the logger
-         if (!internal::isLoggingInitialized()) {
+         if (nullptr == logger) {
             std::call_once(g_set_first_uninitialized_flag, [&] {
                g_first_uninitialized_msg = incoming.release();
                std::string err = {"LOGGER NOT INITIALIZED:\n\t\t"};
@@ -205,7 +211,7 @@ namespace g3 {
          }
 
          // logger is initialized
-         g_logger_instance->save(incoming);
+         logger->save(incoming);
       }
 
       /** Fatal call saved to logger. This will trigger SIGABRT or other fatal signal
@@ -214,7 +220,8 @@ namespace g3 {
           * message and kills the software with the fatal signal.
           */
       void pushFatalMessageToLogger(FatalMessagePtr message) {
-         if (!isLoggingInitialized()) {
+         LogWorker* const logger = g_logger_instance;
+         if (nullptr == logger) {
             std::ostringstream error;
             error << "FATAL CALL but logger is NOT initialized\n"
                   << "CAUSE: " << message.get()->reason()
@@ -223,7 +230,7 @@ namespace g3 {
             std::cerr << error.str() << std::flush;
             internal::exitWithDefaultSignalHandler(message.get()->_level, message.get()->_signal_id);
          }
-         g_logger_instance->fatal(message);
+         logger->fatal(message);
          while (shouldBlockForFatalHandling()) {
             std::this_thread::sleep_for(std::chrono::seconds(1));
          }
-- 
2.43.0


From 6f42de838a3b698520a5d0e284602d5492094971 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:45 +0000
Subject: [PATCH 07/22] fix: guard the first uninitialized message

Logging and initializing at the same time accessed it without a lock.
---
 src/g3log.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/g3log.cpp b/src/g3log.cpp
index e2247b4..9687755 100644
--- a/src/g3log.cpp
+++ b/src/g3log.cpp
@@ -38,6 +38,7 @@ namespace {
    std::mutex g_logging_init_mutex;
 
    std::unique_ptr<g3::LogMessage> g_first_uninitialized_msg = {nullptr};
+   std::mutex g_first_uninitialized_mutex;  // guards the message above
    std::once_flag g_set_first_uninitialized_flag;
    std::once_flag g_save_first_uninitialized_flag;
    const std::function<void(void)> g_pre_fatal_hook_that_does_nothing = [] { /*does nothing */ };
@@ -69,6 +70,7 @@ namespace g3 {
 
       // Save the first uninitialized message, if any
       std::call_once(g_save_first_uninitialized_flag, [&bgworker] {
+         std::lock_guard<std::mutex> first_msg_lock(g_first_uninitialized_mutex);
          if (g_first_uninitialized_msg) {
             bgworker->save(LogMessagePtr{std::move(g_first_uninitialized_msg)});
          }
@@ -200,6 +202,7 @@ namespace g3 {
          // Uninitialized messages are ignored but does not CHECK/crash the logger
          if (nullptr == logger) {
             std::call_once(g_set_first_uninitialized_flag, [&] {
+               std::lock_guard<std::mutex> lock(g_first_uninitialized_mutex);
                g_first_uninitialized_msg = incoming.release();
                std::string err = {"LOGGER NOT INITIALIZED:\n\t\t"};
                err.append(g_first_uninitialized_msg->message());
-- 
2.43.0


From 2bc1239d00478c7e0385fff88e6b50c002f5fe24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:37 +0000
Subject: [PATCH 08/22] fix: call the pre-fatal hook only once

Threads failing at the same time read the hook without its lock and could both
call it.
---
 src/g3log.cpp | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/src/g3log.cpp b/src/g3log.cpp
index 9687755..14e1334 100644
--- a/src/g3log.cpp
+++ b/src/g3log.cpp
@@ -42,6 +42,7 @@ namespace {
    std::once_flag g_set_first_uninitialized_flag;
    std::once_flag g_save_first_uninitialized_flag;
    const std::function<void(void)> g_pre_fatal_hook_that_does_nothing = [] { /*does nothing */ };
+   std::mutex g_fatal_pre_logging_hook_mutex;  // guards the hook below
    std::function<void(void)> g_fatal_pre_logging_hook = g_pre_fatal_hook_that_does_nothing;
 
    std::atomic<size_t> g_fatal_hook_recursive_counter = {0};
@@ -91,9 +92,8 @@ namespace g3 {
    *     so please call this function, if you ever need to, after initializeLogging(...)
    */
    void setFatalPreLoggingHook(std::function<void(void)> pre_fatal_hook) {
-      static std::mutex m;
-      std::lock_guard<std::mutex> lock(m);
-      g_fatal_pre_logging_hook = pre_fatal_hook;
+      std::lock_guard<std::mutex> lock(g_fatal_pre_logging_hook_mutex);
+      g_fatal_pre_logging_hook.swap(pre_fatal_hook);
    }
 
    // By default this function pointer goes to \ref pushFatalMessageToLogger;
@@ -160,10 +160,13 @@ namespace g3 {
       }
 
       void saveFatalMessage(const char* stack_trace, g3::LogMessagePtr& message, int& fatal_signal) {
-         auto fatalhook = g_fatal_pre_logging_hook;
          // In case the fatal_pre logging actually will cause a crash in its turn
-         // let's not do recursive crashing!
-         setFatalPreLoggingHook(g_pre_fatal_hook_that_does_nothing);
+         // let's not do recursive crashing! Only the first failing thread gets the hook
+         std::function<void(void)> fatalhook = g_pre_fatal_hook_that_does_nothing;
+         {
+            std::lock_guard<std::mutex> lock(g_fatal_pre_logging_hook_mutex);
+            g_fatal_pre_logging_hook.swap(fatalhook);
+         }
          ++g_fatal_hook_recursive_counter;  // thread safe counter
          // "benign" race here. If two threads crashes, with recursive crashes
          // then it's possible that the "other" fatal stack trace will be shown
-- 
2.43.0


From 750a2b5ad382277e7fe23c38675d2da427faf769 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:00 +0000
Subject: [PATCH 09/22] fix: let the thread that handles a fatal signal handle
 a second one

A different fatal signal raised by the pre-fatal hook on the same thread
waited for itself and the process hung.
---
 src/crashhandler_unix.cpp | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/crashhandler_unix.cpp b/src/crashhandler_unix.cpp
index 2ca0fe5..e6a1a85 100644
--- a/src/crashhandler_unix.cpp
+++ b/src/crashhandler_unix.cpp
@@ -50,10 +50,13 @@ namespace {
    std::map<int, std::string> gSignals = kSignals;
    std::map<int, struct sigaction> gSavedSigActions;
 
+   std::atomic<std::thread::id> gFirstExitThread{std::thread::id{}};
+
+   // True for the first thread to get here, and for that thread every time: handling its signal
+   // (e.g. in the hook set with 'setFatalPreLoggingHook(...)') might raise another one
    bool shouldDoExit() {
-      static std::atomic<uint64_t> firstExit{0};
-      auto const count = firstExit.fetch_add(1, std::memory_order_relaxed);
-      return (0 == count);
+      std::thread::id first{};
+      return gFirstExitThread.compare_exchange_strong(first, std::this_thread::get_id()) || std::this_thread::get_id() == first;
    }
 
    // Dump of stack,. then exit through g3log background worker
@@ -63,7 +66,7 @@ namespace {
 
       using namespace g3::internal;
 
-      // Only one signal will be allowed past this point
+      // Only one thread will be allowed past this point
       if (false == shouldDoExit()) {
          while (shouldBlockForFatalHandling()) {
             std::this_thread::sleep_for(std::chrono::seconds(1));
-- 
2.43.0


From d55a5cc62ac83df9f1e39340115eb89ba942cdcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:00 +0000
Subject: [PATCH 10/22] fix: unblock the fatal signal before raising it to end
 the process

With no logger initialized the signal is raised inside its own handler, where
it is blocked: the process exited with a normal exit status instead.
---
 src/crashhandler_unix.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/crashhandler_unix.cpp b/src/crashhandler_unix.cpp
index e6a1a85..a857858 100644
--- a/src/crashhandler_unix.cpp
+++ b/src/crashhandler_unix.cpp
@@ -236,6 +236,12 @@ namespace g3 {
                    << __FUNCTION__ << ":" << __LINE__ << ". Exiting due to " << level.text << ", " << signal_number << "   \n\n"
                    << std::flush;
 
+         // The signal is blocked when its own handler got here, and a blocked signal does not end the process
+         sigset_t unblock;
+         sigemptyset(&unblock);
+         sigaddset(&unblock, signal_number);
+         pthread_sigmask(SIG_UNBLOCK, &unblock, nullptr);
+
          raise(signal_number);
 
          // When running as PID1 the above kill doesn't have any effect (execution simply passes through it, contrary
-- 
2.43.0


From df898f80ff839d17977f254ed10f13f69649cbd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:42 +0000
Subject: [PATCH 11/22] fix: do not end the process while another fatal event
 is being flushed

A fatal event while the background worker flushed an earlier one found no
active logger and ended the process at once, before the messages and the
fatal message reached the sinks. Two fatal events without a logger restored
the signal handlers at the same time and could crash.
---
 src/g3log.cpp       | 21 +++++++++++++++++++--
 src/g3log/g3log.hpp |  3 +++
 src/logworker.cpp   |  2 +-
 3 files changed, 23 insertions(+), 3 deletions(-)

diff --git a/src/g3log.cpp b/src/g3log.cpp
index 14e1334..151b475 100644
--- a/src/g3log.cpp
+++ b/src/g3log.cpp
@@ -46,6 +46,14 @@ namespace {
    std::function<void(void)> g_fatal_pre_logging_hook = g_pre_fatal_hook_that_does_nothing;
 
    std::atomic<size_t> g_fatal_hook_recursive_counter = {0};
+
+   std::atomic<std::thread::id> g_fatal_exit_thread{std::thread::id{}};
+
+   // Only one thread is to end the process: true for the first thread to ask, and for that thread every time
+   bool isFatalExitThread() {
+      std::thread::id first{};
+      return g_fatal_exit_thread.compare_exchange_strong(first, std::this_thread::get_id()) || std::this_thread::get_id() == first;
+   }
 }  // namespace
 
 namespace g3 {
@@ -122,6 +130,13 @@ namespace g3 {
          g_logger_instance = nullptr;
       }
 
+      /** Same as the Shutdown above but called by the background worker when it got a fatal message: the process
+       *  is not to end until the worker is done with it, whatever other fatal calls there are meanwhile. */
+      void shutDownLoggingForFatal() {
+         isFatalExitThread();
+         shutDownLogging();
+      }
+
       /** Same as the Shutdown above but called by the destructor of the LogWorker, thus ensuring that no further
        *  LOG(...) calls can happen to  a non-existing LogWorker.
        *  @param active MUST BE the LogWorker initialized for logging. If it is not then this call is just ignored
@@ -227,7 +242,9 @@ namespace g3 {
           */
       void pushFatalMessageToLogger(FatalMessagePtr message) {
          LogWorker* const logger = g_logger_instance;
-         if (nullptr == logger) {
+         if (nullptr != logger) {
+            logger->fatal(message);
+         } else if (isFatalExitThread()) {
             std::ostringstream error;
             error << "FATAL CALL but logger is NOT initialized\n"
                   << "CAUSE: " << message.get()->reason()
@@ -236,7 +253,7 @@ namespace g3 {
             std::cerr << error.str() << std::flush;
             internal::exitWithDefaultSignalHandler(message.get()->_level, message.get()->_signal_id);
          }
-         logger->fatal(message);
+         // another thread ends the process
          while (shouldBlockForFatalHandling()) {
             std::this_thread::sleep_for(std::chrono::seconds(1));
          }
diff --git a/src/g3log/g3log.hpp b/src/g3log/g3log.hpp
index af5363d..009125c 100644
--- a/src/g3log/g3log.hpp
+++ b/src/g3log/g3log.hpp
@@ -131,6 +131,9 @@ namespace g3 {
       // Shuts down logging. No object cleanup but further LOG(...) calls will be ignored.
       void shutDownLogging();
 
+      // Same as above, called by the background worker for a fatal message. The worker then ends the process
+      void shutDownLoggingForFatal();
+
       // Shutdown logging, but ONLY if the active logger corresponds to the one currently initialized
       bool shutDownLoggingForActiveOnly(LogWorker* active);
 
diff --git a/src/logworker.cpp b/src/logworker.cpp
index 4bda245..b928632 100644
--- a/src/logworker.cpp
+++ b/src/logworker.cpp
@@ -38,7 +38,7 @@ namespace g3 {
    void LogWorkerImpl::bgFatal(FatalMessagePtr msgPtr) {
       // this will be the last message. Only the active logworker can receive a FATAL call so it's
       // safe to shutdown logging now
-      g3::internal::shutDownLogging();
+      g3::internal::shutDownLoggingForFatal();
 
       std::string reason = msgPtr.get()->reason();
       const auto level = msgPtr.get()->_level;
-- 
2.43.0


From f6b65075dac378d039e8e10d8ef04f55a54326b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:44 +0000
Subject: [PATCH 12/22] fix: guard the saved signal actions

Initializing logging on one thread while another one meets a fatal event
changed the map of saved actions from both.
---
 src/crashhandler_unix.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/crashhandler_unix.cpp b/src/crashhandler_unix.cpp
index a857858..5636ca3 100644
--- a/src/crashhandler_unix.cpp
+++ b/src/crashhandler_unix.cpp
@@ -49,6 +49,8 @@ namespace {
 
    std::map<int, std::string> gSignals = kSignals;
    std::map<int, struct sigaction> gSavedSigActions;
+   // guards gSavedSigActions. Recursive, for a signal that arrives while it is held
+   std::recursive_mutex gSavedSigActionsMutex;
 
    std::atomic<std::thread::id> gFirstExitThread{std::thread::id{}};
 
@@ -97,6 +99,7 @@ namespace {
       // sigaction to use sa_sigaction file. ref: http://www.linuxprogrammingblog.com/code-examples/sigaction
       action.sa_flags = SA_SIGINFO;
 
+      std::lock_guard<std::recursive_mutex> lock(gSavedSigActionsMutex);
       // do it verbose style - install all signal actions
       for (const auto& sig_pair : gSignals) {
          struct sigaction old_action;
@@ -301,6 +304,7 @@ namespace g3 {
 
    void restoreSignalHandler(int signal_number) {
 #if !(defined(DISABLE_FATAL_SIGNALHANDLING))
+      std::lock_guard<std::recursive_mutex> lock(gSavedSigActionsMutex);
       auto old_action_it = gSavedSigActions.find(signal_number);
       if (old_action_it == gSavedSigActions.end()) {
          return;
-- 
2.43.0


From 021d1b8f00779fb046b4037551dc786a6ebf4e06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:27 +0000
Subject: [PATCH 13/22] fix: deliver the fatal message to sinks that are in use
 by a handle call

---
 src/g3log/sink.hpp        | 4 ++++
 src/g3log/sinkwrapper.hpp | 3 +++
 src/logworker.cpp         | 6 ++++++
 3 files changed, 13 insertions(+)

diff --git a/src/g3log/sink.hpp b/src/g3log/sink.hpp
index 61f8850..9ccc8dd 100644
--- a/src/g3log/sink.hpp
+++ b/src/g3log/sink.hpp
@@ -67,6 +67,10 @@ namespace g3 {
             });
          }
 
+         void flush() override {
+            g3::spawn_task([] {}, _bg.get()).wait();
+         }
+
          template <typename Call, typename... Args>
          auto async(Call call, Args&&... args) -> std::future<std::invoke_result_t<decltype(call), T, Args...>> {
             return g3::spawn_task(std::bind(call, _real_sink.get(), std::forward<Args>(args)...), _bg.get());
diff --git a/src/g3log/sinkwrapper.hpp b/src/g3log/sinkwrapper.hpp
index f9c8fc2..d9d7e5f 100644
--- a/src/g3log/sinkwrapper.hpp
+++ b/src/g3log/sinkwrapper.hpp
@@ -16,6 +16,9 @@ namespace g3 {
       struct SinkWrapper {
          virtual ~SinkWrapper() {}
          virtual void send(LogMessageMover msg) = 0;
+
+         /// Waits until everything sent so far is processed
+         virtual void flush() {}
       };
    }  // namespace internal
 }  // namespace g3
diff --git a/src/logworker.cpp b/src/logworker.cpp
index b928632..e486656 100644
--- a/src/logworker.cpp
+++ b/src/logworker.cpp
@@ -58,6 +58,12 @@ namespace g3 {
          sink->send(LogMessageMover(std::move(msg)));
       }
 
+      // A sink that someone else refers to right now, e.g. for a call through its handle, is
+      // not destroyed by the clear below
+      for (auto& sink : _sinks) {
+         sink->flush();
+      }
+
       // This clear is absolutely necessary
       // All sinks are forced to receive the fatal message above before we continue
       _sinks.clear();  // flush all queues
-- 
2.43.0


From 26cf6d2eba7489e3c06bbfa6c25f958e7dc0dcc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:50 +0000
Subject: [PATCH 14/22] fix: do not erase an existing log file of the same name

---
 src/filesinkhelper.ipp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/filesinkhelper.ipp b/src/filesinkhelper.ipp
index 1e42999..47c0e53 100644
--- a/src/filesinkhelper.ipp
+++ b/src/filesinkhelper.ipp
@@ -99,7 +99,7 @@ namespace g3 {
 
       bool openLogFile(const std::string &complete_file_with_path, std::ofstream &outstream) {
          std::ios_base::openmode mode = std::ios_base::out; // for clarity: it's really overkill since it's an ofstream
-         mode |= std::ios_base::trunc;
+         mode |= std::ios_base::app;  // the name can be that of an existing log, e.g. of one started in the same second
          outstream.open(complete_file_with_path, mode);
          if (!outstream.is_open()) {
             std::ostringstream ss_error;
-- 
2.43.0


From 7dcb34706c0f9e239b1c2e4ede32e421e1574047 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:28 +0000
Subject: [PATCH 15/22] fix: do not displace the time stamps by the time
 between two clock readings

---
 src/g3log/time.hpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/g3log/time.hpp b/src/g3log/time.hpp
index fd675d4..be3a6a8 100644
--- a/src/g3log/time.hpp
+++ b/src/g3log/time.hpp
@@ -16,6 +16,7 @@
 #include <chrono>
 #include <ctime>
 #include <string>
+#include <type_traits>
 
 // FYI:
 // namespace g3::internal ONLY in g3time.cpp
@@ -70,6 +71,12 @@ namespace g3 {
       // of the two static variables but relative times within one log will be as precise as
       // high_resolution_clock.
       using namespace std::chrono;
+      // Where they are one and the same clock there is nothing to convert. The time between the
+      // two initializations (of any length) would only displace all the timestamps
+      if (std::is_same<high_resolution_clock, system_clock>::value) {
+         return system_time_point(duration_cast<system_clock::duration>(ts.time_since_epoch()));
+      }
+
       static const auto hrs_now = high_resolution_clock::now();
       static const auto sys_now = system_clock::now();
 
-- 
2.43.0


From 0bc912f586396508548cbf8e49382d68bc153ae3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:24 +0000
Subject: [PATCH 16/22] fix: report that a background thread could not be
 started instead of terminating

---
 src/g3log/active.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/g3log/active.hpp b/src/g3log/active.hpp
index 3711f9d..2c77bd6 100644
--- a/src/g3log/active.hpp
+++ b/src/g3log/active.hpp
@@ -48,6 +48,9 @@ namespace kjellkod {
 
      public:
       virtual ~Active() {
+         if (!thd_.joinable()) {
+            return;  // the thread could not be started
+         }
          send([this]() noexcept { done_ = true; });
          thd_.join();
       }
-- 
2.43.0


From 56204aa92196ad91d59b46b5895acb76e123abab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:01 +0000
Subject: [PATCH 17/22] fix: swap all the fields of a log message

---
 src/g3log/logmessage.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/g3log/logmessage.hpp b/src/g3log/logmessage.hpp
index 9fc2d23..6898d56 100644
--- a/src/g3log/logmessage.hpp
+++ b/src/g3log/logmessage.hpp
@@ -116,9 +116,11 @@ namespace g3 {
 
       friend void swap(LogMessage& first, LogMessage& second) {
          using std::swap;
+         swap(first._logDetailsToStringFunc, second._logDetailsToStringFunc);
          swap(first._timestamp, second._timestamp);
          swap(first._call_thread_id, second._call_thread_id);
          swap(first._file, second._file);
+         swap(first._file_path, second._file_path);
          swap(first._line, second._line);
          swap(first._function, second._function);
          swap(first._level, second._level);
-- 
2.43.0


From 838bdaadfed05c0cb19f98617022d11df2862821 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:08 +0000
Subject: [PATCH 18/22] fix: deliver the text of a message after a NUL
 character

---
 src/g3log.cpp       | 2 +-
 src/g3log/g3log.hpp | 2 +-
 src/logcapture.cpp  | 6 +++---
 3 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/g3log.cpp b/src/g3log.cpp
index 151b475..b6cc36f 100644
--- a/src/g3log.cpp
+++ b/src/g3log.cpp
@@ -160,7 +160,7 @@ namespace g3 {
 
       /** explicitly copy of all input. This is makes it possibly to use g3log across dynamically loaded libraries
       * i.e. (dlopen + dlsym)  */
-      void saveMessage(const char* entry, const char* file, int line, const char* function, const LEVELS& level,
+      void saveMessage(const std::string& entry, const char* file, int line, const char* function, const LEVELS& level,
                        const char* boolean_expression, int fatal_signal, const char* stack_trace) {
          LEVELS msgLevel{level};
          LogMessagePtr message{std::make_unique<LogMessage>(file, line, function, msgLevel)};
diff --git a/src/g3log/g3log.hpp b/src/g3log/g3log.hpp
index 009125c..eb57b2b 100644
--- a/src/g3log/g3log.hpp
+++ b/src/g3log/g3log.hpp
@@ -103,7 +103,7 @@ namespace g3 {
       bool isLoggingInitialized();
 
       // Save the created LogMessage to any existing sinks
-      void saveMessage(const char* message, const char* file, int line, const char* function, const LEVELS& level,
+      void saveMessage(const std::string& message, const char* file, int line, const char* function, const LEVELS& level,
                        const char* boolean_expression, int fatal_signal, const char* stack_trace);
 
       void saveFatalMessage(const char* stack_trace, g3::LogMessagePtr& message, int& fatal_signal);
diff --git a/src/logcapture.cpp b/src/logcapture.cpp
index d4f138b..eec68dc 100644
--- a/src/logcapture.cpp
+++ b/src/logcapture.cpp
@@ -43,7 +43,7 @@ void g3::only_change_at_initialization::setMaxMessageSize(size_t max_size) {
 LogCapture::~LogCapture() noexcept(false) {
    using namespace g3::internal;
    SIGNAL_HANDLER_VERIFY();
-   saveMessage(_stream.str().c_str(), _file, _line, _function, _level, _expression, _fatal_signal, _stack_trace.c_str());
+   saveMessage(_stream.str(), _file, _line, _function, _level, _expression, _fatal_signal, _stack_trace.c_str());
 }
 
 /// Called from crash handler when a fatal signal has occurred (SIGSEGV etc)
@@ -106,8 +106,8 @@ void LogCapture::capturef(const char* printf_like_message, ...) {
       stream() << "\n\tERROR LOG MSG NOTIFICATION: Failure to successfully parse the message";
       stream() << '"' << printf_like_message << '"' << std::endl;
    } else if (nbrcharacters >= finished_message_len) {
-      stream() << finished_message << kTruncatedWarningText;
+      stream().write(finished_message, finished_message_len - 1) << kTruncatedWarningText;
    } else {
-      stream() << finished_message;
+      stream().write(finished_message, nbrcharacters);
    }
 }
-- 
2.43.0


From 2e11716d42a2da6bf3b4b55f6b6061b3d197717d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:31 +0000
Subject: [PATCH 19/22] fix: do not end the process when no log file can be
 opened at startup

---
 src/filesink.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/filesink.cpp b/src/filesink.cpp
index 2e559d0..fa4a418 100644
--- a/src/filesink.cpp
+++ b/src/filesink.cpp
@@ -7,7 +7,6 @@
  * ============================================================================*/
 
 #include "g3log/filesink.hpp"
-#include <cassert>
 #include <chrono>
 #include "filesinkhelper.ipp"
 
@@ -38,7 +37,10 @@ namespace g3 {
          _log_file_with_path = "./" + file_name;
          _outptr = createLogFile(_log_file_with_path);
       }
-      assert(_outptr && "cannot open log file at startup");
+      if (!_outptr) {
+         std::cerr << "Cannot write log file to the current directory either, nothing is written until the log file is changed" << std::endl;
+         _outptr = std::make_unique<std::ofstream>();
+      }
    }
 
    FileSink::~FileSink() {
-- 
2.43.0


From c298851b704486929372446cf772579bf763e546 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:37:48 +0000
Subject: [PATCH 20/22] fix: a file sink with flush interval 0 writes every
 message instead of dividing by zero

---
 src/filesink.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/filesink.cpp b/src/filesink.cpp
index fa4a418..c3ca228 100644
--- a/src/filesink.cpp
+++ b/src/filesink.cpp
@@ -21,7 +21,7 @@ namespace g3 {
        _header("\t\tLOG format: [YYYY/MM/DD hh:mm:ss uuu* LEVEL FILE->FUNCTION:LINE] message\n\n\t\t(uuu*: microseconds fractions of the seconds value)\n\n"),
        _firstEntry(true),
        _write_counter(0),
-       _write_to_log_every_x_message(write_to_log_every_x_message) {
+       _write_to_log_every_x_message(write_to_log_every_x_message == 0 ? 1 : write_to_log_every_x_message) {
       _log_prefix_backup = prefixSanityFix(log_prefix);
       if (!isValidFilename(_log_prefix_backup)) {
          std::cerr << "g3log: forced abort due to illegal log prefix [" << log_prefix << "]" << std::endl;
-- 
2.43.0


From e043e3859018baae91d7348bc65669ce01529c49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:26:32 +0000
Subject: [PATCH 21/22] fix: changing the handled signals during a fatal exit
 neither crashes nor hangs it

---
 src/crashhandler_unix.cpp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/crashhandler_unix.cpp b/src/crashhandler_unix.cpp
index 5636ca3..2a06b53 100644
--- a/src/crashhandler_unix.cpp
+++ b/src/crashhandler_unix.cpp
@@ -49,7 +49,7 @@ namespace {
 
    std::map<int, std::string> gSignals = kSignals;
    std::map<int, struct sigaction> gSavedSigActions;
-   // guards gSavedSigActions. Recursive, for a signal that arrives while it is held
+   // guards gSignals and gSavedSigActions. Recursive, for a signal that arrives while it is held
    std::recursive_mutex gSavedSigActionsMutex;
 
    std::atomic<std::thread::id> gFirstExitThread{std::thread::id{}};
@@ -229,6 +229,9 @@ namespace g3 {
       void exitWithDefaultSignalHandler(const LEVELS& level, g3::SignalType fatal_signal_id) {
          const int signal_number = static_cast<int>(fatal_signal_id);
 
+         // From here on no other thread changes the signal handling, it could put g3log's handler back
+         std::unique_lock<std::recursive_mutex> lock(gSavedSigActionsMutex);
+
          // Restore all saved signal handlers. If handling a signal which causes exiting
          // than let the original signal handlers to handle other signals.
          for (const auto& sig : gSignals) {
@@ -246,6 +249,7 @@ namespace g3 {
          pthread_sigmask(SIG_UNBLOCK, &unblock, nullptr);
 
          raise(signal_number);
+         lock.unlock();
 
          // When running as PID1 the above kill doesn't have any effect (execution simply passes through it, contrary
          // to a non-PID1 process where execution stops at kill and switches over to signal handling). Also as PID1
@@ -323,8 +327,7 @@ namespace g3 {
    // This will override the default signal handler setup and instead
    // install a custom set of signals to handle
    void overrideSetupSignals(const std::map<int, std::string> overrideSignals) {
-      static std::mutex signalLock;
-      std::lock_guard<std::mutex> guard(signalLock);
+      std::lock_guard<std::recursive_mutex> lock(gSavedSigActionsMutex);
       for (const auto& sig : gSignals) {
          restoreSignalHandler(sig.first);
       }
-- 
2.43.0


From d798494953668aca650d536b892a071991ffaa81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:39:49 +0000
Subject: [PATCH 22/22] fix: the fatal exit handler can be set while another
 thread meets a fatal event

---
 src/g3log.cpp | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/g3log.cpp b/src/g3log.cpp
index b6cc36f..1253e52 100644
--- a/src/g3log.cpp
+++ b/src/g3log.cpp
@@ -106,13 +106,15 @@ namespace g3 {
 
    // By default this function pointer goes to \ref pushFatalMessageToLogger;
    std::function<void(FatalMessagePtr)> g_fatal_to_g3logworker_function_ptr = internal::pushFatalMessageToLogger;
+   std::mutex g_fatal_to_g3logworker_mutex;  // guards the function above
 
    /** REPLACE fatalCallToLogger for fatalCallForUnitTest
     * This function switches the function pointer so that only
     * 'unitTest' mock-fatal calls are made.
     * */
    void setFatalExitHandler(std::function<void(FatalMessagePtr)> fatal_call) {
-      g_fatal_to_g3logworker_function_ptr = fatal_call;
+      std::lock_guard<std::mutex> lock(g_fatal_to_g3logworker_mutex);
+      g_fatal_to_g3logworker_function_ptr.swap(fatal_call);
    }
 
    namespace internal {
@@ -265,7 +267,12 @@ namespace g3 {
           * define the behaviour.
           */
       void fatalCall(FatalMessagePtr message) {
-         g_fatal_to_g3logworker_function_ptr(FatalMessagePtr{std::move(message)});
+         std::function<void(FatalMessagePtr)> fatal_call;
+         {
+            std::lock_guard<std::mutex> lock(g_fatal_to_g3logworker_mutex);
+            fatal_call = g_fatal_to_g3logworker_function_ptr;
+         }
+         fatal_call(FatalMessagePtr{std::move(message)});
       }
 
    }  // namespace internal
-- 
2.43.0

