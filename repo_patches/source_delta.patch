From abff588b65d7fade5e01d8b53340be5074a35438 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:51 +0000
Subject: [PATCH 01/23] fix: kill and reap compilation processes abandoned by a
 profiling worker

---
 cmakeperf/src/measure/worker.rs | 33 ++++++++++++++++++++++++---------
 1 file changed, 24 insertions(+), 9 deletions(-)

diff --git a/cmakeperf/src/measure/worker.rs b/cmakeperf/src/measure/worker.rs
index d8ce954..d5e7cf5 100644
--- a/cmakeperf/src/measure/worker.rs
+++ b/cmakeperf/src/measure/worker.rs
@@ -63,10 +63,10 @@ fn process_job(
     let mut poll_clock = PollClock::start();
 
     // Monitor the job to completion or error
-    tree.set_root(Pid::from_u32(process.id()));
+    tree.set_root(Pid::from_u32(process.0.id()));
     let mut max_rss_bytes = 0;
     let exit_status = loop {
-        match process.wait_timeout(poll_clock.poll_delay()) {
+        match process.0.wait_timeout(poll_clock.poll_delay()) {
             Ok(None) => {
                 let system = monitor_client.system();
                 tree.refresh(&system);
@@ -84,7 +84,7 @@ fn process_job(
     let wall_time = start.map(|start| start.elapsed());
 
     // Decide if job has succeeded or failed, log output accordingly
-    report_process(process, exit_status)?;
+    report_process(&mut process.0, exit_status)?;
 
     // Compute relative path to the input, if possible
     let rel_path = std::env::current_dir()
@@ -124,8 +124,23 @@ pub enum JobError {
     WorkerPanicked,
 }
 
+/// Compilation process
+///
+/// Abandoning it (because it was killed or could not be awaited) terminates it
+/// and collects its exit status, so that it does not outlive its job.
+///
+struct JobProcess(Child);
+//
+impl Drop for JobProcess {
+    fn drop(&mut self) {
+        // Both operations are harmless on a process that was already awaited
+        std::mem::drop(self.0.kill());
+        std::mem::drop(self.0.wait());
+    }
+}
+
 /// Start a compilation process
-fn start_job(job: &DatabaseEntry) -> Result<Child, JobError> {
+fn start_job(job: &DatabaseEntry) -> Result<JobProcess, JobError> {
     let Some(program) = job.program() else {
         return Err(JobError::NoProgram);
     };
@@ -139,7 +154,7 @@ fn start_job(job: &DatabaseEntry) -> Result<Child, JobError> {
         command.arg(arg.as_ref());
     }
     match command.spawn() {
-        Ok(process) => Ok(process),
+        Ok(process) => Ok(JobProcess(process)),
         Err(e) => Err(JobError::SpawnFailed(e)),
     }
 }
@@ -229,7 +244,7 @@ impl ProcessTree {
 }
 
 /// Report on process failure or unexpected output
-fn report_process(process: Child, exit_status: ExitStatus) -> Result<(), JobError> {
+fn report_process(process: &mut Child, exit_status: ExitStatus) -> Result<(), JobError> {
     let stdpipe_report = report_stdpipe(process);
     if !exit_status.success() {
         let mut message = format!("Job failed with {exit_status}");
@@ -246,7 +261,7 @@ fn report_process(process: Child, exit_status: ExitStatus) -> Result<(), JobErro
 }
 
 /// Report on non-empty stdout and/or stderr from a compilation process
-fn report_stdpipe(process: Child) -> String {
+fn report_stdpipe(process: &mut Child) -> String {
     fn read_stdpipe(pipe: Option<impl Read>) -> String {
         let mut buf = String::new();
         pipe.expect("Process output/error should have been piped and available")
@@ -254,8 +269,8 @@ fn report_stdpipe(process: Child) -> String {
             .expect("Reading from pipes should be infaillible");
         buf
     }
-    let stdout = read_stdpipe(process.stdout);
-    let stderr = read_stdpipe(process.stderr);
+    let stdout = read_stdpipe(process.stdout.take());
+    let stderr = read_stdpipe(process.stderr.take());
     let mut report = String::new();
     let has_stdout = !stdout.is_empty();
     if has_stdout {
-- 
2.43.0


From 5634d8d447765fe1f43501077f5dc0c8f0c546e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:08 +0000
Subject: [PATCH 02/23] fix: empty compiler output pipes while waiting, and
 tolerate non-UTF-8 output

---
 cmakeperf/src/measure/worker.rs | 68 ++++++++++++++++++++++++++-------
 1 file changed, 54 insertions(+), 14 deletions(-)

diff --git a/cmakeperf/src/measure/worker.rs b/cmakeperf/src/measure/worker.rs
index d5e7cf5..3e8a522 100644
--- a/cmakeperf/src/measure/worker.rs
+++ b/cmakeperf/src/measure/worker.rs
@@ -12,6 +12,7 @@ use std::{
         mpsc::Sender,
         RwLockReadGuard,
     },
+    thread::JoinHandle,
     time::Instant,
 };
 use sysinfo::{Pid, Process, Signal, System};
@@ -63,10 +64,10 @@ fn process_job(
     let mut poll_clock = PollClock::start();
 
     // Monitor the job to completion or error
-    tree.set_root(Pid::from_u32(process.0.id()));
+    tree.set_root(Pid::from_u32(process.child.id()));
     let mut max_rss_bytes = 0;
     let exit_status = loop {
-        match process.0.wait_timeout(poll_clock.poll_delay()) {
+        match process.child.wait_timeout(poll_clock.poll_delay()) {
             Ok(None) => {
                 let system = monitor_client.system();
                 tree.refresh(&system);
@@ -84,7 +85,7 @@ fn process_job(
     let wall_time = start.map(|start| start.elapsed());
 
     // Decide if job has succeeded or failed, log output accordingly
-    report_process(&mut process.0, exit_status)?;
+    report_process(&mut process, exit_status)?;
 
     // Compute relative path to the input, if possible
     let rel_path = std::env::current_dir()
@@ -129,13 +130,51 @@ pub enum JobError {
 /// Abandoning it (because it was killed or could not be awaited) terminates it
 /// and collects its exit status, so that it does not outlive its job.
 ///
-struct JobProcess(Child);
+struct JobProcess {
+    /// Underlying OS process
+    child: Child,
+
+    /// Thread that collects the process' standard output
+    stdout: Option<PipeReader>,
+
+    /// Thread that collects the process' standard error
+    stderr: Option<PipeReader>,
+}
+//
+/// Thread that reads a pipe to the end
+///
+/// Pipes must be emptied as the process runs, because a process that has filled
+/// up a pipe will wait for someone to read it before doing anything else.
+///
+type PipeReader = JoinHandle<io::Result<Vec<u8>>>;
+//
+impl JobProcess {
+    /// Set up the management of a freshly started process
+    fn new(child: Child) -> Self {
+        fn start_reading(pipe: Option<impl Read + Send + 'static>) -> Option<PipeReader> {
+            pipe.map(|mut pipe| {
+                std::thread::spawn(move || {
+                    let mut buf = Vec::new();
+                    pipe.read_to_end(&mut buf).map(|_num_bytes| buf)
+                })
+            })
+        }
+        let mut process = Self {
+            child,
+            stdout: None,
+            stderr: None,
+        };
+        process.stdout = start_reading(process.child.stdout.take());
+        process.stderr = start_reading(process.child.stderr.take());
+        process
+    }
+}
 //
 impl Drop for JobProcess {
     fn drop(&mut self) {
         // Both operations are harmless on a process that was already awaited
-        std::mem::drop(self.0.kill());
-        std::mem::drop(self.0.wait());
+        std::mem::drop(self.child.kill());
+        std::mem::drop(self.child.wait());
     }
 }
 
@@ -154,7 +193,7 @@ fn start_job(job: &DatabaseEntry) -> Result<JobProcess, JobError> {
         command.arg(arg.as_ref());
     }
     match command.spawn() {
-        Ok(process) => Ok(JobProcess(process)),
+        Ok(process) => Ok(JobProcess::new(process)),
         Err(e) => Err(JobError::SpawnFailed(e)),
     }
 }
@@ -244,7 +283,7 @@ impl ProcessTree {
 }
 
 /// Report on process failure or unexpected output
-fn report_process(process: &mut Child, exit_status: ExitStatus) -> Result<(), JobError> {
+fn report_process(process: &mut JobProcess, exit_status: ExitStatus) -> Result<(), JobError> {
     let stdpipe_report = report_stdpipe(process);
     if !exit_status.success() {
         let mut message = format!("Job failed with {exit_status}");
@@ -261,13 +300,14 @@ fn report_process(process: &mut Child, exit_status: ExitStatus) -> Result<(), Jo
 }
 
 /// Report on non-empty stdout and/or stderr from a compilation process
-fn report_stdpipe(process: &mut Child) -> String {
-    fn read_stdpipe(pipe: Option<impl Read>) -> String {
-        let mut buf = String::new();
-        pipe.expect("Process output/error should have been piped and available")
-            .read_to_string(&mut buf)
+fn report_stdpipe(process: &mut JobProcess) -> String {
+    fn read_stdpipe(reader: Option<PipeReader>) -> String {
+        let bytes = reader
+            .expect("Process output/error should have been piped and available")
+            .join()
+            .expect("Pipe reading thread should not panic")
             .expect("Reading from pipes should be infaillible");
-        buf
+        String::from_utf8_lossy(&bytes).into_owned()
     }
     let stdout = read_stdpipe(process.stdout.take());
     let stderr = read_stdpipe(process.stderr.take());
-- 
2.43.0


From 6690ca3552819df7c4a50db38abb87f9d943d2a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:08 +0000
Subject: [PATCH 03/23] fix: stop profiling workers as soon as the measurement
 has failed

---
 cmakeperf/src/measure/main.rs | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/cmakeperf/src/measure/main.rs b/cmakeperf/src/measure/main.rs
index d9107f8..6b6b9c8 100644
--- a/cmakeperf/src/measure/main.rs
+++ b/cmakeperf/src/measure/main.rs
@@ -366,6 +366,17 @@ impl<'monitor> MonitorServer<'monitor> {
     }
 }
 //
+impl Drop for MonitorServer<'_> {
+    /// Automatically stop workers if the main thread exits early
+    ///
+    /// Otherwise, they would keep going through the work queue, and neither
+    /// error reporting nor killing the measurement would work until it is empty.
+    ///
+    fn drop(&mut self) {
+        self.stop_all()
+    }
+}
+//
 /// Error returned when all threads have been killed due to OOM
 #[must_use]
 #[derive(Clone, Copy, Debug, Eq, PartialEq)]
-- 
2.43.0


From 83aa4351ec9cc4d55a4520ae06059ed33190ee3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:35 +0000
Subject: [PATCH 04/23] fix: kill and reap clang before cleaning up after a
 time-trace measurement

---
 src/ui/tui/trace/measure.rs | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/ui/tui/trace/measure.rs b/src/ui/tui/trace/measure.rs
index 87d6a9f..9c32f25 100644
--- a/src/ui/tui/trace/measure.rs
+++ b/src/ui/tui/trace/measure.rs
@@ -356,7 +356,7 @@ impl CancelableClang {
             Ok(Some(status)) if status.success() => Ok(false),
 
             // Clang terminated with an error status
-            Ok(Some(error_status)) => Err(child_failure_message(self.child, error_status)),
+            Ok(Some(error_status)) => Err(child_failure_message(&mut self.child, error_status)),
 
             // The work was canceled, kill clang and exit through the error path
             Ok(None) => match self.child.kill() {
@@ -376,6 +376,15 @@ impl CancelableClang {
     }
 }
 //
+impl Drop for CancelableClang {
+    /// Make sure that clang is gone by the time its output is cleaned up
+    fn drop(&mut self) {
+        // Both operations are harmless on a process that was already awaited
+        std::mem::drop(self.child.kill());
+        std::mem::drop(self.child.wait());
+    }
+}
+//
 /// Cancelation trigger for CancelableClang
 struct CancelTrigger(Arc<AtomicBool>);
 //
@@ -391,7 +400,7 @@ impl CancelTrigger {
 /// Ignore failure to extract info from stdout and stderr as that's difficult
 /// to handle and ultimately these are just nice-to-have details.
 ///
-fn child_failure_message(mut child: Child, error_status: ExitStatus) -> String {
+fn child_failure_message(child: &mut Child, error_status: ExitStatus) -> String {
     let mut stdout = Vec::new();
     let mut stderr = Vec::new();
     std::mem::drop(
-- 
2.43.0


From fce3c00b958f85b89d6c5e6dcca5b9a1700e8882 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:36 +0000
Subject: [PATCH 05/23] fix: empty clang's output pipes while waiting for a
 time-trace measurement

---
 src/ui/tui/trace/measure.rs | 68 ++++++++++++++++++++++++++-----------
 1 file changed, 49 insertions(+), 19 deletions(-)

diff --git a/src/ui/tui/trace/measure.rs b/src/ui/tui/trace/measure.rs
index 9c32f25..17e17a1 100644
--- a/src/ui/tui/trace/measure.rs
+++ b/src/ui/tui/trace/measure.rs
@@ -13,6 +13,7 @@ use std::{
         atomic::{self, AtomicBool, Ordering},
         Arc,
     },
+    thread::JoinHandle,
     time::Duration,
 };
 use wait_timeout::ChildExt;
@@ -299,10 +300,21 @@ struct CancelableClang {
     /// Child process
     child: Child,
 
+    /// Threads that collect the process' standard output and error
+    ///
+    /// Pipes must be emptied as the process runs, because a process that has
+    /// filled up a pipe will wait for someone to read it.
+    ///
+    stdout: PipeReader,
+    stderr: PipeReader,
+
     /// Cancelation flag
     canceled: Arc<AtomicBool>,
 }
 //
+/// Thread that reads a pipe to the end
+type PipeReader = Option<JoinHandle<Vec<u8>>>;
+//
 impl CancelableClang {
     /// Start clang and set up cancelation, emit an error message if it goes wrong
     fn start(mut command: Command) -> Result<(Self, CancelTrigger), String> {
@@ -324,7 +336,15 @@ impl CancelableClang {
         let cancel_trigger = CancelTrigger(canceled.clone());
 
         // Return all of that
-        Ok((Self { child, canceled }, cancel_trigger))
+        let mut clang = Self {
+            child,
+            stdout: None,
+            stderr: None,
+            canceled,
+        };
+        clang.stdout = start_reading(clang.child.stdout.take());
+        clang.stderr = start_reading(clang.child.stderr.take());
+        Ok((clang, cancel_trigger))
     }
 
     /// Wait for the process to terminate or be canceled
@@ -356,7 +376,11 @@ impl CancelableClang {
             Ok(Some(status)) if status.success() => Ok(false),
 
             // Clang terminated with an error status
-            Ok(Some(error_status)) => Err(child_failure_message(&mut self.child, error_status)),
+            Ok(Some(error_status)) => Err(child_failure_message(
+                self.stdout.take(),
+                self.stderr.take(),
+                error_status,
+            )),
 
             // The work was canceled, kill clang and exit through the error path
             Ok(None) => match self.child.kill() {
@@ -395,28 +419,34 @@ impl CancelTrigger {
     }
 }
 
+/// Start reading from one of the pipes of a Child process
+fn start_reading(pipe: Option<impl Read + Send + 'static>) -> PipeReader {
+    pipe.map(|mut pipe| {
+        std::thread::spawn(move || {
+            let mut buf = Vec::new();
+            std::mem::drop(pipe.read_to_end(&mut buf));
+            buf
+        })
+    })
+}
+
 /// Generate an error message for a failing Child process
 ///
 /// Ignore failure to extract info from stdout and stderr as that's difficult
 /// to handle and ultimately these are just nice-to-have details.
 ///
-fn child_failure_message(child: &mut Child, error_status: ExitStatus) -> String {
-    let mut stdout = Vec::new();
-    let mut stderr = Vec::new();
-    std::mem::drop(
-        child
-            .stdout
-            .take()
-            .expect("Failed to access stdout")
-            .read_to_end(&mut stdout),
-    );
-    std::mem::drop(
-        child
-            .stderr
-            .take()
-            .expect("Failed to access stderr")
-            .read_to_end(&mut stderr),
-    );
+fn child_failure_message(
+    stdout: PipeReader,
+    stderr: PipeReader,
+    error_status: ExitStatus,
+) -> String {
+    let finish_reading = |reader: PipeReader| {
+        reader
+            .and_then(|reader| reader.join().ok())
+            .unwrap_or_default()
+    };
+    let stdout = finish_reading(stdout);
+    let stderr = finish_reading(stderr);
     let mut error = format!("clang time-trace run failed ({})", error_status);
     let append_pipe = |error: &mut String, is_first, stream_name: &str, stream_data| {
         write!(
-- 
2.43.0


From 052df643529b02d25d9b30f5778e3f6bb4da9ced Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:54 +0000
Subject: [PATCH 06/23] fix: end build profiling before restoring the previous
 build profile

---
 src/ui/tui/build/measure.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/ui/tui/build/measure.rs b/src/ui/tui/build/measure.rs
index 9c95246..a022145 100644
--- a/src/ui/tui/build/measure.rs
+++ b/src/ui/tui/build/measure.rs
@@ -141,7 +141,7 @@ struct MeasureHandle<'cursive, 'output> {
     success: Arc<AtomicBool>,
 
     /// Live cmakeperf data collection process
-    _measurement: Measurement,
+    measurement: Option<Measurement>,
 }
 //
 impl<'cursive, 'output> MeasureHandle<'cursive, 'output> {
@@ -197,7 +197,7 @@ impl<'cursive, 'output> MeasureHandle<'cursive, 'output> {
             output_path,
             backup_path,
             success,
-            _measurement: measurement,
+            measurement: Some(measurement),
         })
     }
 
@@ -223,6 +223,8 @@ impl<'cursive, 'output> MeasureHandle<'cursive, 'output> {
 //
 impl Drop for MeasureHandle<'_, '_> {
     fn drop(&mut self) {
+        // Wait for the measurement to end, it may be about to create the output
+        std::mem::drop(self.measurement.take());
         if !self.success.load(Ordering::Acquire) {
             Self::restore_or_delete(self.cursive, &self.backup_path, self.output_path);
         }
-- 
2.43.0


From 8cb70e4da56f72139d3ed25248d7e20f2e081d8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:27 +0000
Subject: [PATCH 07/23] fix: report traces without events as an error instead
 of panicking

---
 clang-time-trace/src/lib.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/clang-time-trace/src/lib.rs b/clang-time-trace/src/lib.rs
index d42f745..dca3f3b 100644
--- a/clang-time-trace/src/lib.rs
+++ b/clang-time-trace/src/lib.rs
@@ -252,7 +252,8 @@ impl FromStr for ClangTrace {
         };
 
         // Process the trace events
-        let mut activities = ActivityTreeBuilder::with_capacity(profile_ctf.traceEvents.len() - 1);
+        let mut activities =
+            ActivityTreeBuilder::with_capacity(profile_ctf.traceEvents.len().saturating_sub(1));
         let mut global_stats = HashMap::new();
         let mut process_name = None;
         let mut thread_name = None;
-- 
2.43.0


From fda96e47545a956a578ddfcf2dc01aaf247ec93c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:27 +0000
Subject: [PATCH 08/23] fix: accept activities whose detail argument is an
 empty string

---
 clang-time-trace/src/stats/activity/argument.rs | 7 +------
 1 file changed, 1 insertion(+), 6 deletions(-)

diff --git a/clang-time-trace/src/stats/activity/argument.rs b/clang-time-trace/src/stats/activity/argument.rs
index a1ff0ef..f0669f5 100644
--- a/clang-time-trace/src/stats/activity/argument.rs
+++ b/clang-time-trace/src/stats/activity/argument.rs
@@ -275,12 +275,7 @@ impl ActivityArgumentType {
         // entity without invoking a C++ parser, which is expensive, so that
         // will be our default case when things does not look like info text.
         //
-        if !detail
-            .chars()
-            .next()
-            .expect("detail is not empty if detail_arg() returned Ok")
-            .is_uppercase()
-        {
+        if detail.chars().next().is_some_and(|c| !c.is_uppercase()) {
             return ActivityArgumentType::CppEntity;
         }
         let mut can_be_string = true;
-- 
2.43.0


From b171fde2a537a1bd9a2b62e9abc9a864537439a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:27 +0000
Subject: [PATCH 09/23] fix: handle doubled symbols that are not a C++ operator
 when parsing expressions

---
 cpparser/src/subparsers/operators/usage.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cpparser/src/subparsers/operators/usage.rs b/cpparser/src/subparsers/operators/usage.rs
index a9c3fe0..4dec50d 100644
--- a/cpparser/src/subparsers/operators/usage.rs
+++ b/cpparser/src/subparsers/operators/usage.rs
@@ -111,7 +111,7 @@ impl EntityParser {
                     AddPlus | SubNeg => false,
                     AndRef | Or | AssignEq | Less => true,
                     Greater => allow_greater,
-                    Xor | Mod | Div | MulDeref | BitNot | Not | Comma => unreachable!(),
+                    Xor | Mod | Div | MulDeref | BitNot | Not | Comma => false,
                 }
             }
             // This may need to be revised as C++ evolves
-- 
2.43.0


From d165a593cc0ad6d42ebcf539d034a02e3ee30239 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:31 +0000
Subject: [PATCH 10/23] fix: fail to parse entities with relative file paths
 instead of panicking

---
 .../src/stats/activity/argument.rs            |  2 +-
 cpparser/src/lib.rs                           | 20 ++++++++++++-------
 cpparser/src/subparsers/anonymous.rs          |  4 ++--
 3 files changed, 16 insertions(+), 10 deletions(-)

diff --git a/clang-time-trace/src/stats/activity/argument.rs b/clang-time-trace/src/stats/activity/argument.rs
index f0669f5..9218892 100644
--- a/clang-time-trace/src/stats/activity/argument.rs
+++ b/clang-time-trace/src/stats/activity/argument.rs
@@ -88,7 +88,7 @@ impl RawActivityArgument {
                     Ok(ParsedActivityArgument::Module)
                 } else {
                     Ok(ParsedActivityArgument::FilePath(
-                        parser.intern_path(&detail),
+                        parser.try_intern_path(&detail)?,
                     ))
                 }
             }
diff --git a/cpparser/src/lib.rs b/cpparser/src/lib.rs
index 7ab4502..7116c9d 100644
--- a/cpparser/src/lib.rs
+++ b/cpparser/src/lib.rs
@@ -26,7 +26,8 @@ use crate::{
 };
 use asylum::{
     lasso::{MiniSpur, Rodeo, Spur},
-    path, Interner,
+    path::{self, PathError},
+    Interner,
 };
 use nom::{error::Error, Parser};
 use nom_supreme::ParserExt;
@@ -158,16 +159,21 @@ impl EntityParser {
     /// appearing in C++ entity names, but appear in other context, can be
     /// interned using the same infrastructure for key comparability.
     ///
+    /// Panics if the path is relative, use `try_intern_path()` if it might be.
+    ///
     pub fn intern_path(&mut self, path: &str) -> PathKey {
+        self.try_intern_path(path)
+            .expect("Encountered relative (and thus non-interpretable) file path")
+    }
+
+    /// Version of `intern_path` that returns an error if the path is relative
+    pub fn try_intern_path(&mut self, path: &str) -> Result<PathKey, PathError> {
         self.intern_path_imut(path)
     }
 
-    /// Implementation of intern_path with internal mutability
-    pub(crate) fn intern_path_imut(&self, path: &str) -> PathKey {
-        self.paths
-            .borrow_mut()
-            .intern(path)
-            .expect("Encountered relative (and thus non-interpretable) file path")
+    /// Implementation of try_intern_path with internal mutability
+    pub(crate) fn intern_path_imut(&self, path: &str) -> Result<PathKey, PathError> {
+        self.paths.borrow_mut().intern(path)
     }
 
     /// Retrieve a previously interned path
diff --git a/cpparser/src/subparsers/anonymous.rs b/cpparser/src/subparsers/anonymous.rs
index 4efec91..0981b87 100644
--- a/cpparser/src/subparsers/anonymous.rs
+++ b/cpparser/src/subparsers/anonymous.rs
@@ -148,7 +148,7 @@ impl EntityParser {
         use nom::{
             bytes::complete::take_till1,
             character::complete::{anychar, char, u32},
-            combinator::{opt, recognize},
+            combinator::{map_res, opt, recognize},
             sequence::separated_pair,
         };
 
@@ -156,7 +156,7 @@ impl EntityParser {
 
         let disk_designator = anychar.and(char(':'));
         let path_str = recognize(opt(disk_designator).and(take_till1(|c| c == ':')));
-        let path = path_str.map(|path| self.intern_path_imut(path));
+        let path = map_res(path_str, |path| self.intern_path_imut(path));
 
         let source_location = separated_pair(path, char(':'), location);
         source_location
-- 
2.43.0


From a56ed25b0d4cedd836ebc57d6b6742fb1c9945d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:31 +0000
Subject: [PATCH 11/23] fix: do not panic on names with non-ASCII characters in
 debug builds

---
 cpparser/src/subparsers/names/atoms.rs | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/cpparser/src/subparsers/names/atoms.rs b/cpparser/src/subparsers/names/atoms.rs
index 634621a..0783ca0 100644
--- a/cpparser/src/subparsers/names/atoms.rs
+++ b/cpparser/src/subparsers/names/atoms.rs
@@ -124,7 +124,6 @@ fn identifier(s: &str) -> IResult<&str> {
     }
     #[cfg(not(feature = "unicode-xid"))]
     {
-        debug_assert!(s.is_ascii());
         let bytes = s.as_bytes().split_first();
         match bytes {
             Some((first, others)) if is_id_start(*first) => {
@@ -154,7 +153,6 @@ fn end_of_identifier(s: &str) -> IResult<()> {
     }
     #[cfg(not(feature = "unicode-xid"))]
     {
-        debug_assert!(s.is_ascii());
         match s.as_bytes().first().copied() {
             Some(b) if is_id_continue(b) => Err(nom::Err::Error(Error::new(s, ErrorKind::Satisfy))),
             _ => Ok((s, ())),
@@ -171,11 +169,10 @@ fn is_id_start(c: char) -> bool {
 }
 //
 /// Truth that a character can be used as the start of a C++ identifier
-// This version assumes ASCII input
+// This version only supports ASCII identifiers
 #[cfg(not(feature = "unicode-xid"))]
 #[inline]
 fn is_id_start(b: u8) -> bool {
-    debug_assert!(b.is_ascii());
     b.is_ascii_alphabetic() || (b == b'_') || (b == b'$')
 }
 
@@ -188,11 +185,10 @@ fn is_id_continue(c: char) -> bool {
 }
 //
 /// Truth that a character can be used in the middle of a C++ identifier
-// This version assumes ASCII input
+// This version only supports ASCII identifiers
 #[cfg(not(feature = "unicode-xid"))]
 #[inline]
 fn is_id_continue(b: u8) -> bool {
-    debug_assert!(b.is_ascii());
     is_id_start(b) || b.is_ascii_digit()
 }
 
-- 
2.43.0


From 73b2557fd892b11cc34c2a75134634a015465410 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:13 +0000
Subject: [PATCH 12/23] fix: end profiling with an error instead of hanging
 when a worker thread cannot be started

---
 cmakeperf/src/measure/main.rs | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/cmakeperf/src/measure/main.rs b/cmakeperf/src/measure/main.rs
index 6b6b9c8..2130c92 100644
--- a/cmakeperf/src/measure/main.rs
+++ b/cmakeperf/src/measure/main.rs
@@ -46,12 +46,16 @@ pub(super) fn run(
 
         // Run the worker threads
         std::thread::scope(|s| {
+            // Set up the interface to worker threads before they are started, so
+            // that they get a termination signal even if a spawn fails
+            let local_queues = work_queue.local_queues(concurrency);
+            let work_queue = &work_queue;
+            let mut monitor_server = monitor.server();
+            let mut work_sender = work_queue.sender();
+
             // Spawn worker threads
-            for (local, monitor_client) in
-                work_queue.local_queues(concurrency).zip(monitor.clients())
-            {
+            for (local, monitor_client) in local_queues.zip(monitor.clients()) {
                 let results_sender = results_sender.clone();
-                let work_queue = &work_queue;
                 s.spawn(move || {
                     worker::run(
                         WorkReceiver::new(local, work_queue),
@@ -63,8 +67,6 @@ pub(super) fn run(
             }
 
             // Wait for results while monitoring free RAM
-            let mut monitor_server = monitor.server();
-            let mut work_sender = work_queue.sender();
             work_sender.start();
             let mut poll_clock = PollClock::start();
             while remaining_jobs > 0 {
-- 
2.43.0


From ff0c71b7c0aead5cfcb8d0c9bb2d0516988c6434 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:25:46 +0000
Subject: [PATCH 13/23] fix: restore the previous build profile if the
 measurement fails to start

---
 src/ui/tui/build/measure.rs | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/src/ui/tui/build/measure.rs b/src/ui/tui/build/measure.rs
index a022145..bcdaa56 100644
--- a/src/ui/tui/build/measure.rs
+++ b/src/ui/tui/build/measure.rs
@@ -180,7 +180,14 @@ impl<'cursive, 'output> MeasureHandle<'cursive, 'output> {
                 build_done(result)
             }
         };
-        let measurement = Measurement::start(
+        let mut handle = Self {
+            cursive,
+            output_path,
+            backup_path,
+            success,
+            measurement: None,
+        };
+        handle.measurement = Some(Measurement::start(
             output_path,
             compilation_database,
             // FIXME: let user configure this
@@ -189,16 +196,10 @@ impl<'cursive, 'output> MeasureHandle<'cursive, 'output> {
             None,
             step_done,
             notify_end,
-        );
+        ));
 
         // Emit process and stdout handles
-        Some(Self {
-            cursive,
-            output_path,
-            backup_path,
-            success,
-            measurement: Some(measurement),
-        })
+        Some(handle)
     }
 
     /// Borrow the cursive handle for other uses
-- 
2.43.0


From 8814c9f812ad2e9af83fb235b213cb44e154bcae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:25:46 +0000
Subject: [PATCH 14/23] fix: cancel time-trace measurements and clean up after
 them when the user quits

---
 src/ui/tui/mod.rs           |  9 ++++++++-
 src/ui/tui/trace/measure.rs | 40 +++++++++++++++++++++++++++++++------
 2 files changed, 42 insertions(+), 7 deletions(-)

diff --git a/src/ui/tui/mod.rs b/src/ui/tui/mod.rs
index a1ca0a8..2b4433c 100644
--- a/src/ui/tui/mod.rs
+++ b/src/ui/tui/mod.rs
@@ -9,7 +9,10 @@ mod trace;
 
 use self::{
     processing::ProcessingThread,
-    trace::display::{ProfileDisplay, ProfileLayer},
+    trace::{
+        display::{ProfileDisplay, ProfileLayer},
+        measure::TraceMeasurement,
+    },
 };
 use crate::CliArgs;
 use clang_time_trace::Duration;
@@ -51,6 +54,7 @@ pub fn run(args: CliArgs) {
         showing_full_build: false,
         layers_below_profile: 0,
         no_escape: false,
+        trace_measurement: None,
         display_config: Default::default(),
     });
 
@@ -107,6 +111,9 @@ pub struct State {
     ///
     no_escape: bool,
 
+    /// Last time-trace measurement, to be cleaned up before the program exits
+    trace_measurement: Option<TraceMeasurement>,
+
     /// Current profile display configuration
     display_config: ProfileDisplay,
 }
diff --git a/src/ui/tui/trace/measure.rs b/src/ui/tui/trace/measure.rs
index 17e17a1..4715faf 100644
--- a/src/ui/tui/trace/measure.rs
+++ b/src/ui/tui/trace/measure.rs
@@ -141,24 +141,24 @@ pub fn start_measure(cursive: &mut Cursive, command: Command, output_path: Box<P
     let state = MeasureState { old_fps };
 
     // Set up the measurement screen
+    let abort_trigger = cancel_trigger.clone();
     cursive.add_layer(
         Dialog::text("Measuring time trace, please minimize system activity...")
-            .button("Abort", move |_cursive| cancel_trigger.cancel()),
+            .button("Abort", move |_cursive| abort_trigger.cancel()),
     );
 
     // Start a thread that measures a clang time-trace and arranges for the
     // next steps to be taken once that's done
     let cb_sink = cursive.cb_sink().clone();
-    std::thread::spawn(move || {
-        // Force-send a callback to the cursive thread with less verbosity
+    let thread = std::thread::spawn(move || {
+        // Send a callback to the cursive thread with less verbosity. This fails
+        // when the user has quit the application, then nobody needs to know.
         let cb_sink = &cb_sink;
         fn callback(
             cb_sink: &cursive::CbSink,
             callback: impl FnOnce(&mut Cursive) + Send + 'static,
         ) {
-            cb_sink
-                .send(Box::new(callback))
-                .expect("Failed to send cursive callback to main thread");
+            std::mem::drop(cb_sink.send(Box::new(callback)));
         }
 
         // Wait for clang to finish or for the cancelation signal to be sent
@@ -207,6 +207,33 @@ pub fn start_measure(cursive: &mut Cursive, command: Command, output_path: Box<P
             });
         }
     });
+
+    // Do not let the application exit before this measurement is cleaned up
+    let measurement = TraceMeasurement {
+        cancel_trigger,
+        thread: Some(thread),
+    };
+    with_state(cursive, |state| {
+        state.trace_measurement = Some(measurement);
+    });
+}
+
+/// Ongoing time-trace measurement, which gets canceled and awaited on drop
+pub struct TraceMeasurement {
+    /// Mechanism to cancel the measurement
+    cancel_trigger: CancelTrigger,
+
+    /// Thread that awaits clang and cleans up after it
+    thread: Option<JoinHandle<()>>,
+}
+//
+impl Drop for TraceMeasurement {
+    fn drop(&mut self) {
+        self.cancel_trigger.cancel();
+        if let Some(thread) = self.thread.take() {
+            std::mem::drop(thread.join());
+        }
+    }
 }
 
 /// Saved Cursive state returned by start_measure, to be passed back to
@@ -410,6 +437,7 @@ impl Drop for CancelableClang {
 }
 //
 /// Cancelation trigger for CancelableClang
+#[derive(Clone)]
 struct CancelTrigger(Arc<AtomicBool>);
 //
 impl CancelTrigger {
-- 
2.43.0


From ec07bd79d5fbd9dd92419350298ce2cac9dd0807 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:29:57 +0000
Subject: [PATCH 15/23] fix: show profiles of activities that take no time
 instead of panicking

---
 src/ui/tui/trace/mod.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/ui/tui/trace/mod.rs b/src/ui/tui/trace/mod.rs
index fce9aa2..c18ba95 100644
--- a/src/ui/tui/trace/mod.rs
+++ b/src/ui/tui/trace/mod.rs
@@ -8,6 +8,10 @@ use clang_time_trace::Duration;
 use decorum::Finite;
 
 /// Compute the percentage norm associated with a set of activities
+///
+/// All activities within a set that takes no time amount to 0% of it.
+///
 fn percent_norm(total_duration: Duration) -> Finite<Duration> {
-    Finite::<Duration>::from_inner(100.0 / total_duration)
+    let norm = 100.0 / total_duration;
+    Finite::<Duration>::from_inner(if norm.is_finite() { norm } else { 0.0 })
 }
-- 
2.43.0


From 08bdc2409be4b6ac263992c8828c13ea3a4aaa1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:16:37 +0000
Subject: [PATCH 16/23] fix: display the ellipsis of variadic functions without
 other parameters

---
 cpparser/src/subparsers/functions.rs | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/cpparser/src/subparsers/functions.rs b/cpparser/src/subparsers/functions.rs
index 02c0a1f..23dd20c 100644
--- a/cpparser/src/subparsers/functions.rs
+++ b/cpparser/src/subparsers/functions.rs
@@ -385,9 +385,14 @@ impl CustomDisplay for FunctionSignatureView<'_> {
             write!(f, "[abi:{abi}]")?;
         }
 
-        self.parameters().display_impl(f, state)?;
-        if state.can_recurse() && self.variadic() {
-            write!(f, ", ...")?;
+        let parameters = self.parameters();
+        parameters.display_impl(f, state)?;
+        if self.variadic() {
+            if parameters.is_empty() {
+                write!(f, "...")?;
+            } else if state.can_recurse() {
+                write!(f, ", ...")?;
+            }
         }
         write!(f, ")")?;
 
-- 
2.43.0


From d73867f8b3dea29520a3956e5dde397bc7775962 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:16:41 +0000
Subject: [PATCH 17/23] fix: keep the leading :: of rooted names in bounded
 display

---
 cpparser/src/subparsers/names/scopes.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cpparser/src/subparsers/names/scopes.rs b/cpparser/src/subparsers/names/scopes.rs
index c8ae1aa..19128da 100644
--- a/cpparser/src/subparsers/names/scopes.rs
+++ b/cpparser/src/subparsers/names/scopes.rs
@@ -348,12 +348,12 @@ impl CustomDisplay for NestedNameSpecifierView<'_> {
     }
 
     fn display_impl(&self, f: &mut Formatter<'_>, state: &DisplayState) -> Result<(), fmt::Error> {
-        if state.can_recurse() {
+        if state.can_recurse() || self.scopes().is_empty() {
             if self.is_rooted() {
                 write!(f, "::")?;
             }
             self.scopes().display_impl(f, state)?;
-        } else if !self.scopes().is_empty() {
+        } else {
             write!(f, "…::")?;
         }
         Ok(())
-- 
2.43.0


From e675f2a59a53031157b4d4b2e30534fa8f4bf4a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:45:19 +0000
Subject: [PATCH 18/23] fix: don't let build results put off memory monitoring
 and stop requests

---
 cmakeperf/src/measure/main.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/cmakeperf/src/measure/main.rs b/cmakeperf/src/measure/main.rs
index 2130c92..f860d12 100644
--- a/cmakeperf/src/measure/main.rs
+++ b/cmakeperf/src/measure/main.rs
@@ -17,6 +17,7 @@ use std::{
         mpsc::{self, RecvTimeoutError},
         Arc,
     },
+    time::Instant,
 };
 use sysinfo::RefreshKind;
 use thiserror::Error;
@@ -69,6 +70,7 @@ pub(super) fn run(
             // Wait for results while monitoring free RAM
             work_sender.start();
             let mut poll_clock = PollClock::start();
+            let mut next_poll = Instant::now() + poll_clock.poll_delay();
             while remaining_jobs > 0 {
                 // Handle external request to terminate the job
                 if kill.load(Ordering::Relaxed) {
@@ -79,7 +81,8 @@ pub(super) fn run(
 
                 // Wait for a job to be complete or a timeout
                 // TODO: Move to recv_deadline once available
-                match results_receiver.recv_timeout(poll_clock.poll_delay()) {
+                let poll_delay = next_poll.saturating_duration_since(Instant::now());
+                match results_receiver.recv_timeout(poll_delay) {
                     // A worker had to abort its current job as a result of running
                     // out of memory, send it back to other workers.
                     Ok(Err(JobError::Killed(job))) => {
@@ -102,7 +105,9 @@ pub(super) fn run(
 
                     // System monitor wakeup
                     Err(RecvTimeoutError::Timeout) => match monitor_server.update() {
-                        MonitorStatus::Running => {}
+                        MonitorStatus::Running => {
+                            next_poll = Instant::now() + poll_clock.poll_delay();
+                        }
                         MonitorStatus::KilledEveryone => return Err(MeasureError::OutOfMemory),
                     },
 
-- 
2.43.0


From 74105f493d18800aa82227efea7f24c31dec571f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:45:19 +0000
Subject: [PATCH 19/23] fix: enumerate active workers when only the last bit of
 a word is set

---
 cmakeperf/src/measure/main.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/cmakeperf/src/measure/main.rs b/cmakeperf/src/measure/main.rs
index f860d12..76ed453 100644
--- a/cmakeperf/src/measure/main.rs
+++ b/cmakeperf/src/measure/main.rs
@@ -451,7 +451,9 @@ impl<'flags> StopServer<'flags> {
                     }
                     let offset_after_first_one = word_value.trailing_zeros() as usize + 1;
                     bit_offset += offset_after_first_one;
-                    word_value >>= offset_after_first_one;
+                    // Not shifting by offset_after_first_one at once, since it
+                    // can be equal to the number of bits
+                    word_value = (word_value >> (offset_after_first_one - 1)) >> 1;
                     Some(bit_offset - 1)
                 })
             })
-- 
2.43.0


From 122f88a5b4637f5e42dca0214bbc7819aad9bda8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:58:46 +0000
Subject: [PATCH 20/23] fix: report on every root activity in the stdio display

---
 src/ui/stdio.rs | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/src/ui/stdio.rs b/src/ui/stdio.rs
index bc6597f..f008ea5 100644
--- a/src/ui/stdio.rs
+++ b/src/ui/stdio.rs
@@ -151,16 +151,16 @@ fn print_hierarchical_profile(
         skip_indent: " ",
     };
     println!("\nHierarchical profile:");
-    assert_eq!(trace.root_activities().count(), 1);
-    let root_id = trace
+    let root_ids = trace
         .root_activities()
-        .next()
-        .expect("There should be one ExecuteCompiler root activity")
-        .id();
-    println!(
-        "{}",
-        hierarchical_profile_tree(trace, palette, root_id, duration_norm, threshold, max_cols)
-    );
+        .map(|root| root.id())
+        .collect::<Vec<_>>();
+    for root_id in root_ids {
+        println!(
+            "{}",
+            hierarchical_profile_tree(trace, palette, root_id, duration_norm, threshold, max_cols)
+        );
+    }
 }
 
 /// Make a tree display of the hierarchical profile of some build
-- 
2.43.0


From 1de16734e23bd73bda5a1cd41f8c478da445b31f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:58:47 +0000
Subject: [PATCH 21/23] fix: don't crash the stdio display on tiny column
 budgets

---
 src/ui/stdio.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/ui/stdio.rs b/src/ui/stdio.rs
index f008ea5..c04f707 100644
--- a/src/ui/stdio.rs
+++ b/src/ui/stdio.rs
@@ -14,6 +14,9 @@ use std::io;
 use termtree::{GlyphPalette, Tree};
 use unicode_width::UnicodeWidthStr;
 
+/// Minimal column budget: a bullet and an ellipsis
+const MIN_COLS: u16 = 3;
+
 /// Run the analysis using the stdio display
 pub fn run(args: CliArgs) {
     // Set up logging using env_logger
@@ -31,10 +34,11 @@ pub fn run(args: CliArgs) {
         );
     };
 
-    // Determine column budget
+    // Determine column budget, enforcing the minimum that the display needs
     let max_cols = termion::terminal_size()
         .map(|(width, _height)| width.min(args.max_cols))
-        .unwrap_or(args.max_cols);
+        .unwrap_or(args.max_cols)
+        .max(MIN_COLS);
 
     // Load the clang trace
     eprintln!("Processing input data...");
-- 
2.43.0


From 6ee388691327f68cc59a2548c7d16f417603a341 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:06:45 +0000
Subject: [PATCH 22/23] fix: don't crash on traces that start at dates RFC 3339
 can't express

---
 src/ui/display/metadata.rs | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/src/ui/display/metadata.rs b/src/ui/display/metadata.rs
index 9b4e817..dbc699b 100644
--- a/src/ui/display/metadata.rs
+++ b/src/ui/display/metadata.rs
@@ -48,12 +48,15 @@ pub fn metadata(trace: &ClangTrace, max_cols: u16) -> String {
         display_more(&mut buf, format!("thread {name:?}"));
     }
     if let Some(bot) = trace.beginning_of_time() {
-        let mut display = "recorded ".to_owned();
-        let bot = OffsetDateTime::from_unix_timestamp_nanos((bot / MICROSECOND) as i128 * 1000)
-            .unwrap()
-            .format(&Rfc3339)
-            .unwrap();
-        display.push_str(&bot);
+        let nanos = ((bot / MICROSECOND) as i128).saturating_mul(1000);
+        let date = OffsetDateTime::from_unix_timestamp_nanos(nanos)
+            .ok()
+            .and_then(|date| date.format(&Rfc3339).ok());
+        // Not every timestamp can be expressed as an RFC 3339 date
+        let display = match date {
+            Some(date) => format!("recorded {date}"),
+            None => format!("recorded {bot}µs after the Unix epoch"),
+        };
         display_more(&mut buf, display);
     }
     buf.push('.');
-- 
2.43.0


From 976f048012e0375391b1380284446ccd618173f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:03:29 +0000
Subject: [PATCH 23/23] fix: don't let the TUI's column arithmetic underflow on
 small terminals

---
 src/ui/tui/build/display.rs | 6 ++++--
 src/ui/tui/trace/display.rs | 6 ++++--
 2 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/ui/tui/build/display.rs b/src/ui/tui/build/display.rs
index 92e9954..33225f6 100644
--- a/src/ui/tui/build/display.rs
+++ b/src/ui/tui/build/display.rs
@@ -44,7 +44,9 @@ pub fn display_profile(
     if has_walltime {
         non_file_width += WALL_TIME_WIDTH + 3;
     }
-    let file_width = terminal_width as usize - non_file_width;
+    let file_width = (terminal_width as usize)
+        .saturating_sub(non_file_width)
+        .max(1);
 
     // Set up table display
     type FullBuildProfileView = TableView<UnitProfile, ProfileColumn>;
@@ -99,7 +101,7 @@ pub fn display_profile(
     // Show the profile
     cursive.add_fullscreen_layer(
         LinearLayout::vertical()
-            .child(table.min_size((terminal_width, terminal_height - 1)))
+            .child(table.min_size((terminal_width, terminal_height.saturating_sub(1))))
             .child(TextView::new("Press H for help.").center()),
     );
     cursive.run();
diff --git a/src/ui/tui/trace/display.rs b/src/ui/tui/trace/display.rs
index adefacd..b6ba78e 100644
--- a/src/ui/tui/trace/display.rs
+++ b/src/ui/tui/trace/display.rs
@@ -288,7 +288,9 @@ fn register_profile(
         });
 
         // Set up the basic trace description footer
-        let footer = state.processing_thread.describe_trace(terminal_width);
+        let footer = state
+            .processing_thread
+            .describe_trace(terminal_width.max(1));
 
         // Bubble up useful data for following steps
         (
@@ -779,7 +781,7 @@ fn description_column_width(profile_kind: ProfileKind, terminal_width: u16) -> u
         ProfileKind::Hierarchical => DURATION_WIDTH + 4,
         ProfileKind::Flat => 0,
     };
-    terminal_width - durations_scroll_width as u16
+    terminal_width.saturating_sub(durations_scroll_width as u16)
 }
 
 /// Construct the cursive view used to provide the detailed name of an activity,
-- 
2.43.0

