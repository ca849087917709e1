From a0c455662f355ef00994110cf976d579541e9a48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:42 +0000
Subject: [PATCH 01/60] fix: report a continued process as continued, not as
 dumped

---
 pieshell/signalio/signalutils.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pieshell/signalio/signalutils.py b/pieshell/signalio/signalutils.py
index e134f1e..994d7ec 100644
--- a/pieshell/signalio/signalutils.py
+++ b/pieshell/signalio/signalutils.py
@@ -68,11 +68,12 @@ def get_sigchlds():
             if os.WIFEXITED(status):
                 res["ssi_code"] = CLD_EXITED
                 res["ssi_status"] = os.WEXITSTATUS(status)
-            elif os.WCOREDUMP(status):
+            elif os.WIFSIGNALED(status) and os.WCOREDUMP(status):
                 res["ssi_code"] = CLD_DUMPED
                 res["ssi_status"] = os.WTERMSIG(status)
             elif os.WIFCONTINUED(status):
                 res["ssi_code"] = CLD_CONTINUED
+                res["ssi_status"] = signal.SIGCONT
             elif os.WIFSTOPPED(status):
                 res["ssi_code"] = CLD_STOPPED
                 res["ssi_status"] = os.WSTOPSIG(status)
-- 
2.43.0


From 9debbbbb8734184ed56d07bb9be39690eafe4aef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:47 +0000
Subject: [PATCH 02/60] fix: notice the end of processes killed by a signal

---
 pieshell/signalio/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pieshell/signalio/__init__.py b/pieshell/signalio/__init__.py
index 3755118..507ff18 100644
--- a/pieshell/signalio/__init__.py
+++ b/pieshell/signalio/__init__.py
@@ -52,7 +52,7 @@ class ProcessSignalHandler(SignalHandler):
     def handle_event(self, event):
         log.log("Process event %s" % self.pid, "signal")
         self.last_event = event
-        if event["ssi_code"] == CLD_EXITED:
+        if event["ssi_code"] in (CLD_EXITED, CLD_KILLED, CLD_DUMPED):
             log.log("EXIT %s" % self.pid, "signal")
             #if exception is not None:
             #    self.done_future.set_exception(exception)
-- 
2.43.0


From db4276a2f88ecaf79f651d890012aa60a7bcabe1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:51 +0000
Subject: [PATCH 03/60] fix: wake up waiters when the last part of a pipeline
 to end is a failing one

---
 pieshell/pipeline/builtins.py | 5 ++++-
 pieshell/pipeline/running.py  | 5 ++++-
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/pieshell/pipeline/builtins.py b/pieshell/pipeline/builtins.py
index 9dacdda..aaceaf1 100644
--- a/pieshell/pipeline/builtins.py
+++ b/pieshell/pipeline/builtins.py
@@ -65,7 +65,10 @@ class RunnningFg(running.BaseRunningItem):
     def is_failed(self):
         return self.wrapped_pipeline.is_failed
     async def await_finish(self):
-        await self.wrapped_pipeline.wait()
+        try:
+            await self.wrapped_pipeline.wait()
+        except running.PipelineError:
+            pass # Available as self.is_failed
         self.running_pipeline.handle_finish()
     
 class FgBuiltin(builtin.Builtin):
diff --git a/pieshell/pipeline/running.py b/pieshell/pipeline/running.py
index 2bbe1b4..b1cf00a 100644
--- a/pieshell/pipeline/running.py
+++ b/pieshell/pipeline/running.py
@@ -194,7 +194,10 @@ class RunningItem(BaseRunningItem):
         self.output_content = {}
         asyncio.get_event_loop().create_task(self.await_finish())
     async def await_finish(self):
-        await self.iohandler.wait()
+        try:
+            await self.iohandler.wait()
+        except Exception:
+            pass # Available as self.iohandler.exception
         self.running_pipeline.handle_finish()
     @property
     def is_running(self):
-- 
2.43.0


From d962e5315b39d084aec4a5255573e32bce048c71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:38 +0000
Subject: [PATCH 04/60] fix: let any number of waiters wait for a pipeline

---
 pieshell/pipeline/running.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/pieshell/pipeline/running.py b/pieshell/pipeline/running.py
index b1cf00a..9f80708 100644
--- a/pieshell/pipeline/running.py
+++ b/pieshell/pipeline/running.py
@@ -84,6 +84,12 @@ class RunningPipeline(object):
         self.pipeline_suspended = True
         for process in self.processes:
             process.suspend()
+    async def wait_event(self):
+        # Any number of waiters share one future, and a cancelled
+        # waiter must not cancel it for the others.
+        if self.finish_future is None:
+            self.finish_future = asyncio.get_event_loop().create_future()
+        await asyncio.shield(self.finish_future)
     async def wait(self):
         try:
             if self.pipeline._env._interactive:
@@ -91,8 +97,7 @@ class RunningPipeline(object):
             try:
                 self.restart()
                 while not self.pipeline_suspended and self.is_running:
-                    future = self.finish_future = asyncio.get_event_loop().create_future()
-                    await future
+                    await self.wait_event()
             except KeyboardInterrupt as e:
                 raise PipelineInterrupted(self)
             if self.pipeline_suspended:
-- 
2.43.0


From 3b6c7da9c8439af4c9bb36bb2a87599fef240df1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:03 +0000
Subject: [PATCH 05/60] fix: fg follows the pipeline it wraps also when that is
 suspended or restarted, and never signals ended processes

---
 pieshell/pipeline/builtins.py | 15 +++++++++++----
 pieshell/pipeline/running.py  |  2 ++
 2 files changed, 13 insertions(+), 4 deletions(-)

diff --git a/pieshell/pipeline/builtins.py b/pieshell/pipeline/builtins.py
index aaceaf1..8e92ad1 100644
--- a/pieshell/pipeline/builtins.py
+++ b/pieshell/pipeline/builtins.py
@@ -65,11 +65,18 @@ class RunnningFg(running.BaseRunningItem):
     def is_failed(self):
         return self.wrapped_pipeline.is_failed
     async def await_finish(self):
-        try:
-            await self.wrapped_pipeline.wait()
-        except running.PipelineError:
-            pass # Available as self.is_failed
+        while self.wrapped_pipeline.is_running:
+            await self.wrapped_pipeline.wait_event()
         self.running_pipeline.handle_finish()
+    def restart(self):
+        self.wrapped_pipeline.restart()
+    def suspend(self):
+        self.wrapped_pipeline.suspend()
+    @property
+    def exit_code(self):
+        return self.wrapped_pipeline.exit_code
+    def __repr__(self, display_output=False):
+        return repr(self.wrapped_pipeline)
     
 class FgBuiltin(builtin.Builtin):
     """Continue running the last pipeline in the background.
diff --git a/pieshell/pipeline/running.py b/pieshell/pipeline/running.py
index 9f80708..7f7f041 100644
--- a/pieshell/pipeline/running.py
+++ b/pieshell/pipeline/running.py
@@ -269,11 +269,13 @@ class RunningProcess(RunningItem):
             pass
         RunningItem.__init__(self, cmd, signalio.ProcessSignalHandler(pid))
     def restart(self):
+        if not self.is_running: return
         try:
             os.kill(self.iohandler.pid, signal.SIGCONT)
         except ProcessLookupError:
             pass
     def suspend(self):
+        if not self.is_running: return
         try:
             os.kill(self.iohandler.pid, signal.SIGSTOP)
         except ProcessLookupError:
-- 
2.43.0


From 69dbd7e94efa5bb73f1b378c8d2200e80af647af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:51 +0000
Subject: [PATCH 06/60] fix: captured output that is not valid UTF-8 no longer
 hangs the pipeline

---
 pieshell/pipeline/running.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pieshell/pipeline/running.py b/pieshell/pipeline/running.py
index 7f7f041..802f05f 100644
--- a/pieshell/pipeline/running.py
+++ b/pieshell/pipeline/running.py
@@ -217,7 +217,8 @@ class RunningItem(BaseRunningItem):
             if not isinstance(redirect.pipe, redir.STRING): continue
             # Yes, reread the STRING pipe, it can have been modified
             # by another part of the pipeline since we finished.
-            with open(redirect.pipe.path) as f:
+            # It may contain anything, but must stay printable.
+            with open(redirect.pipe.path, encoding="utf-8", errors="backslashreplace", newline="") as f:
                 self.output_content[fd] = f.read()
     def handle_pipeline_finish_destructive(self):
         for fd, redirect in self.cmd._redirects.redirects.items():
-- 
2.43.0


From 03e0e9b0ab8056eaa50272408aa0a4f9ea20673c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:32 +0000
Subject: [PATCH 07/60] fix: writing big items to a pipeline does not block the
 event loop

---
 pieshell/iterio.py | 24 ++++++++++++++++++++++--
 1 file changed, 22 insertions(+), 2 deletions(-)

diff --git a/pieshell/iterio.py b/pieshell/iterio.py
index 1fcc593..432c384 100644
--- a/pieshell/iterio.py
+++ b/pieshell/iterio.py
@@ -69,6 +69,7 @@ class OutputHandler(IOHandler):
 
     def __init__(self, fd, iter, borrowed = False, usage = None):
         self.iter = iter
+        self.pending = b""
         self.recursion_lock = False
         self.done_future = asyncio.get_event_loop().create_future()
         IOHandler.__init__(self, fd, borrowed, usage)
@@ -103,15 +104,31 @@ class OutputHandler(IOHandler):
             self.iter = self.iter.__aiter__()
         return self.iter
             
+    def write(self, data):
+        self.pending = memoryview(data)
+        self.write_pending()
+
+    def write_pending(self):
+        # Never write more than what is certain not to block: whoever
+        # is to read it might depend on this same event loop.
+        poll = select.poll()
+        poll.register(self.fd, select.POLLOUT)
+        while self.pending and poll.poll(0):
+            written = os.write(self.fd, self.pending[:select.PIPE_BUF])
+            self.pending = self.pending[written:]
+
     async def send_output(self):
         if self.recursion_lock: return
         iter = self.get_iter()
         try:
+            if self.pending:
+                self.write_pending()
+                return
             self.recursion_lock = True
             val = await iter.__anext__()
             self.recursion_lock = False
             if val is not None:
-                os.write(self.fd, val)                
+                self.write(val)
         except StopAsyncIteration:
             self.destroy()
         except Exception as e:
@@ -129,11 +146,14 @@ class LineOutputHandler(OutputHandler):
         if self.recursion_lock: return
         iter = self.get_iter()
         try:
+            if self.pending:
+                self.write_pending()
+                return
             self.recursion_lock = True
             val = await iter.__anext__()
             self.recursion_lock = False
             if val is not None:
-                os.write(self.fd, val + b"\n")
+                self.write(val + b"\n")
             log.log("WRITE %s, %s" % (self.fd, repr(val)), "io")
         except StopAsyncIteration:
             log.log("STOP ITERATION %s" % self.fd, "ioevent")
-- 
2.43.0


From 4303e9551baed43c5ef7a2ac19129e5026932594 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:07 +0000
Subject: [PATCH 08/60] fix: functions can read from and write to regular files
 and /dev/null

---
 pieshell/iterio.py | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/pieshell/iterio.py b/pieshell/iterio.py
index 432c384..30f62ca 100644
--- a/pieshell/iterio.py
+++ b/pieshell/iterio.py
@@ -41,10 +41,18 @@ class IOHandler(object):
         loop = asyncio.get_event_loop()
         def callback(event):
             self.handle_event(event)
-        if self.events & select.POLLIN:
-            loop.add_reader(self.fd, callback, select.POLLIN)
-        if self.events & select.POLLOUT:
-            loop.add_writer(self.fd, callback, select.POLLOUT)
+        try:
+            if self.events & select.POLLIN:
+                loop.add_reader(self.fd, callback, select.POLLIN)
+            if self.events & select.POLLOUT:
+                loop.add_writer(self.fd, callback, select.POLLOUT)
+        except PermissionError:
+            # Not pollable, but always ready (regular files, /dev/null)
+            def poll():
+                if not self.enabled: return
+                callback(self.events)
+                loop.call_soon(poll)
+            loop.call_soon(poll)
         log.log("REGISTER %s, %s, %s" % (self.fd, events_to_str(self.events), self), "ioreg")
     def disable(self):
         self.enabled = False
-- 
2.43.0


From 05c6a9390c3b9a39899565ad123cce6658be9c0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:29 +0000
Subject: [PATCH 09/60] fix: do not leave the unread input of a function open

---
 pieshell/iterio.py            | 16 ++++++++++++++++
 pieshell/pipeline/function.py |  9 +++++----
 pieshell/pipeline/running.py  | 17 +++++++++++++++++
 3 files changed, 38 insertions(+), 4 deletions(-)

diff --git a/pieshell/iterio.py b/pieshell/iterio.py
index 30f62ca..fc29015 100644
--- a/pieshell/iterio.py
+++ b/pieshell/iterio.py
@@ -177,9 +177,22 @@ class InputHandler(IOHandler):
         self.eof = False
         self.future = None
         self.at_eof = at_eof
+        self.discarding = False
         IOHandler.__init__(self, fd, borrowed, usage)
 
+    def discard(self):
+        """Reads and throws away everything up to the end of file"""
+        self.discarding = True
+
+    def handle_discard(self):
+        if not os.read(self.fd, 65536):
+            self.eof = True
+            self.destroy()
+
     def handle_event(self, event):
+        if self.discarding:
+            self.handle_discard()
+            return
         if self.buffer is None:
             self.buffer = os.read(self.fd, 1024)
             if not self.buffer:
@@ -218,6 +231,9 @@ class LineInputHandler(InputHandler):
         self.buffer = b""
 
     def handle_event(self, event):
+        if self.discarding:
+            self.handle_discard()
+            return
         if b'\n' not in self.buffer:
             read_data = os.read(self.fd, 1024)
             self.buffer += read_data
diff --git a/pieshell/pipeline/function.py b/pieshell/pipeline/function.py
index e14921d..3cb7bd5 100644
--- a/pieshell/pipeline/function.py
+++ b/pieshell/pipeline/function.py
@@ -84,10 +84,10 @@ class Function(base.Pipeline):
                 return str(x).encode("utf-8")
 
         thing = self.__dict__["function"] # Don't wrap functions as instance methods
+        stdin = None
         if isinstance(thing, (types.FunctionType, types.MethodType)):
-            thing = thing(
-                iterio.LineInputHandler(redirects.stdin.open(False), usage=self),
-                *self._arg, **self._kw)
+            stdin = iterio.LineInputHandler(redirects.stdin.open(False), usage=self)
+            thing = thing(stdin, *self._arg, **self._kw)
 
         if not hasattr(thing, "__iter__") and not hasattr(thing, "__aiter__"):
             if isinstance(thing, types.CoroutineType):
@@ -107,7 +107,8 @@ class Function(base.Pipeline):
             iterio.LineOutputHandler(
                 redirects.stdout.open(False),
                 thing,
-                usage=self))
+                usage=self),
+            stdin)
         self._running_processes = [self._running_process]
         self._redirects = self._running_process.redirects = redirects
 
diff --git a/pieshell/pipeline/running.py b/pieshell/pipeline/running.py
index 802f05f..b06958e 100644
--- a/pieshell/pipeline/running.py
+++ b/pieshell/pipeline/running.py
@@ -235,6 +235,23 @@ class RunningItem(BaseRunningItem):
         return str(id(self))
 
 class RunningFunction(RunningItem):
+    def __init__(self, cmd, iohandler, stdin = None):
+        RunningItem.__init__(self, cmd, iohandler)
+        self.stdin = stdin
+        if stdin is not None:
+            iohandler.done_future.add_done_callback(self.handle_output_done)
+    def handle_output_done(self, future):
+        # The function might not have read all of its input. Don't
+        # let that block (or fail) whoever writes it.
+        inherited = self.cmd._env._redirects.redirects.get(0)
+        if inherited is not None and self.redirects.stdin.source == inherited.source:
+            self.stdin.destroy()
+        else:
+            self.stdin.discard()
+    def handle_pipeline_finish(self):
+        RunningItem.handle_pipeline_finish(self)
+        if self.stdin is not None:
+            self.stdin.destroy()
     @property
     def is_failed(self):
         return self.iohandler.exception is not None
-- 
2.43.0


From 6076a4d7b46fc779adb2a95b84aa04fd167dc0d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:34 +0000
Subject: [PATCH 10/60] fix: a function that raises when called fails its
 pipeline

---
 pieshell/pipeline/function.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/pieshell/pipeline/function.py b/pieshell/pipeline/function.py
index 3cb7bd5..c61c3a9 100644
--- a/pieshell/pipeline/function.py
+++ b/pieshell/pipeline/function.py
@@ -87,7 +87,12 @@ class Function(base.Pipeline):
         stdin = None
         if isinstance(thing, (types.FunctionType, types.MethodType)):
             stdin = iterio.LineInputHandler(redirects.stdin.open(False), usage=self)
-            thing = thing(stdin, *self._arg, **self._kw)
+            try:
+                thing = thing(stdin, *self._arg, **self._kw)
+            except Exception as e:
+                async def fail(exception = e):
+                    raise exception
+                thing = fail()
 
         if not hasattr(thing, "__iter__") and not hasattr(thing, "__aiter__"):
             if isinstance(thing, types.CoroutineType):
-- 
2.43.0


From 96b23bd9d82529fe01c94c4bcfb5b1b99aa48a84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:06 +0000
Subject: [PATCH 11/60] fix: deliver the output of both parts of a group

---
 pieshell/pipeline/group.py | 5 ++++-
 pieshell/redir.py          | 4 ++--
 2 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/pieshell/pipeline/group.py b/pieshell/pipeline/group.py
index 9ed6b1c..94b326d 100644
--- a/pieshell/pipeline/group.py
+++ b/pieshell/pipeline/group.py
@@ -36,6 +36,9 @@ class Group(base.Pipeline):
     def _run(self, redirects, sess, indentation = ""):
         base.Pipeline._run(self, redirects, sess, indentation)
 
+        # Both parts share any pipe the group is connected to
+        redirects = redirects.make_pipes(redir.PIPE)
+
         child_redirects = redir.Redirects(redirects)
         child_redirects.borrow()
 
@@ -43,7 +46,7 @@ class Group(base.Pipeline):
         a = self.a._run(child_redirects, sess, indentation + "  ")
         b = self.b._run(child_redirects, sess, indentation + "  ")
 
-        self._redirects = self.a._redirects.merge(self.b._redirects)
+        self._redirects = self.a._redirects.merge(self.b._redirects).merge(redirects)
 
         redirects.close_source_fds()
 
diff --git a/pieshell/redir.py b/pieshell/redir.py
index 2aedc8a..407c955 100644
--- a/pieshell/redir.py
+++ b/pieshell/redir.py
@@ -191,8 +191,8 @@ class Redirects(object):
                       for redirect in self.redirects.values()
                       if isinstance(redirect.source, int)]
                    + [2]) + 1
-    def make_pipes(self):
-        return type(self)(*[redirect.make_pipe()
+    def make_pipes(self, kind = None):
+        return type(self)(*[redirect.make_pipe() if kind is None or redirect.source is kind else redirect
                             for redirect in self.redirects.values()])
     def move_existing_fds(self):
         new_fd = self.find_free_fd()
-- 
2.43.0


From 18b1d9c92a386cbbb09fc4d6e134f0d92f4b8745 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:41 +0000
Subject: [PATCH 12/60] fix: redirections of several descriptors to one source

---
 pieshell/redir.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/pieshell/redir.py b/pieshell/redir.py
index 407c955..b87c568 100644
--- a/pieshell/redir.py
+++ b/pieshell/redir.py
@@ -103,7 +103,9 @@ class Redirect(object):
             os.close(self.source)
     def perform(self):
         source = self.open()
-        assert source != self.fd
+        if source == self.fd:
+            os.set_inheritable(source, True)
+            return
         log.log("perform dup2(%s, %s)" % (source, self.fd), "fd")
         os.dup2(source, self.fd)
         log.log("perform close(%s)" % (source), "fd")
@@ -112,9 +114,9 @@ class Redirect(object):
         self = Redirect(self)
         if isinstance(self.source, int):
             log.log("move dup2(%s, %s)" % (self.source, fd), "fd")
+            # The old descriptor may be the source of several
+            # redirects. It's closed by perform() or close_other_fds()
             os.dup2(self.source, fd)
-            log.log("move close(%s)" % (self.source), "fd")
-            os.close(self.source)
             self.source = fd
         return self
     def make_pipe(self):
@@ -223,7 +225,8 @@ class Redirects(object):
             else:
                 log.log("CLOSE OTHER FDS %s" % (i,), "fd")
     def close_source_fds(self):
-        for redirect in self.redirects.values():
+        # Several redirects can share the same source
+        for redirect in {redirect.source: redirect for redirect in self.redirects.values()}.values():
             redirect.close_source_fd()
     def __getattr__(self, name):
         if name == "redirects":
-- 
2.43.0


From 91769e465f8b952897ce2bb70a71d59f2a683f71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:03 +0000
Subject: [PATCH 13/60] fix: do not run a command whose redirections can not be
 set up

---
 pieshell/pipeline/command.py |  9 +++++----
 pieshell/redir.py            | 11 +++--------
 2 files changed, 8 insertions(+), 12 deletions(-)

diff --git a/pieshell/pipeline/command.py b/pieshell/pipeline/command.py
index 5729027..4650964 100644
--- a/pieshell/pipeline/command.py
+++ b/pieshell/pipeline/command.py
@@ -227,10 +227,11 @@ class Command(command.BaseCommand):
             try:
                 self._child(redirects, args)
             except Exception as e:
-                sys.stderr.write("Unable to execute %s: %s\n" % (repr(self), e))
-                ecode = getattr(e, "errno", ecode)
-            # If we ever get to here, all is lost...
-            os._exit(ecode)
+                ecode = getattr(e, "errno", None) or ecode
+                os.write(2, ("Unable to execute %s: %s\n" % (repr(self), e)).encode("utf-8", "backslashreplace"))
+            finally:
+                # If we ever get to here, all is lost...
+                os._exit(ecode)
 
         log.log(indentation + "  %s: Command line %s with %s" % (pid, ' '.join(repr(arg) for arg in args), repr(redirects)), "cmd")
 
diff --git a/pieshell/redir.py b/pieshell/redir.py
index b87c568..3481905 100644
--- a/pieshell/redir.py
+++ b/pieshell/redir.py
@@ -205,14 +205,9 @@ class Redirects(object):
         log.log("After move: %s" % repr(Redirects(*redirects)), "fd")
         return redirects
     def perform(self):
-        try:
-            for redirect in self.move_existing_fds():
-                redirect.perform()
-            self.close_other_fds()
-        except Exception as e:
-            import traceback
-            log.log(e, "fd")
-            log.log(traceback.format_exc(), "fd")
+        for redirect in self.move_existing_fds():
+            redirect.perform()
+        self.close_other_fds()
     def close_other_fds(self):
         # FIXME: Use os.closerange if available
         for i in range(0, MAXFD):
-- 
2.43.0


From f08cbd19055872ad8c4a720f6e3f2d4e247473a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:29 +0000
Subject: [PATCH 14/60] fix: a subshell fails when its pipeline fails and never
 runs its caller's code

---
 pieshell/pipeline/builtins.py | 19 ++++++++++++++++---
 1 file changed, 16 insertions(+), 3 deletions(-)

diff --git a/pieshell/pipeline/builtins.py b/pieshell/pipeline/builtins.py
index 8e92ad1..677a112 100644
--- a/pieshell/pipeline/builtins.py
+++ b/pieshell/pipeline/builtins.py
@@ -188,20 +188,33 @@ class SubShell(command.Command, builtin.Builtin):
     
     def _handle_arg_pipes_wrapper(self, item, orig_redirects, redirects, sess, indentation):
         return item
+
+    def _run(self, redirects, sess, indentation = ""):
+        # Or buffered output would be written by the subshell too
+        sys.stdout.flush()
+        sys.stderr.flush()
+        return command.Command._run(self, redirects, sess, indentation)
                        
     def _child(self, redirects, args):
         redirects.perform()
         os.chdir(self._env._cwd)
         asyncio.set_event_loop(asyncio.new_event_loop())
         init.initialize()
+        ecode = 0
         try:
             self._arg[1].run_interactive()
         except Exception as e:
             sys.stderr.write(str(e))
+            ecode = 1
             if isinstance(e, running.PipelineError):
-                sys.exit(e.pipeline.exit_code)
-            sys.exit(1)
-        sys.exit(0)
+                # The last process might not be the one that failed
+                ecode = e.pipeline.exit_code or ecode
+        finally:
+            # This is a copy of the calling process: its code and exit
+            # handlers must not run here too.
+            sys.stdout.flush()
+            sys.stderr.flush()
+            os._exit(ecode)
 
 class Remote(builtin.Builtin):
     name = "remote"
-- 
2.43.0


From c49e784c6d60806ed00ba473e62f9c98a9da3ac2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:33 +0000
Subject: [PATCH 15/60] fix: an environment without any exported variables has
 none

---
 pieshell/environ.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pieshell/environ.py b/pieshell/environ.py
index 605fb63..ad1991b 100644
--- a/pieshell/environ.py
+++ b/pieshell/environ.py
@@ -61,7 +61,7 @@ class Environment(object):
         self.running_pipelines = utils.LineList()
     @property
     def _exports(self):
-        return self._exports_value or os.environ
+        return self._exports_value if self._exports_value is not None else os.environ
     @_exports.setter
     def _exports(self, exports):
         self._exports_value = exports
-- 
2.43.0


From 87c845df9245c57488ff3ac76e01855524d3ed60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:38 +0000
Subject: [PATCH 16/60] fix: default redirections of an environment can be set
 and are not shared with the environment it is derived from

---
 pieshell/environ.py | 4 ++--
 pieshell/redir.py   | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/pieshell/environ.py b/pieshell/environ.py
index ad1991b..1ae74dd 100644
--- a/pieshell/environ.py
+++ b/pieshell/environ.py
@@ -119,7 +119,7 @@ class Environment(object):
         if interactive is None:
             interactive = self._interactive
         if redirects is None:
-            redirects = self._redirects
+            redirects = redir.Redirects(self._redirects)
         res = type(self)(cwd = self._cwd, exports = exports, interactive = interactive, redirects = redirects)
         if cwd is not None:
             res._cd(cwd)
@@ -139,7 +139,7 @@ class Environment(object):
     def _coerce(self, thing, direction):
         if thing is None:
             thing = "/dev/null"
-        if isinstance(thing, (str, unicode)):
+        if isinstance(thing, (str, bytes, os.PathLike)):
             thing = redir.Redirect(direction, thing)
         if isinstance(thing, redir.Redirect):
             thing = redir.Redirects(thing, defaults=False)
diff --git a/pieshell/redir.py b/pieshell/redir.py
index 3481905..45c46ae 100644
--- a/pieshell/redir.py
+++ b/pieshell/redir.py
@@ -234,7 +234,7 @@ class Redirects(object):
     def _coerce(cls, thing, direction):
         if thing is None:
             thing = "/dev/null"
-        if isinstance(thing, (str, unicode)):
+        if isinstance(thing, (str, bytes, os.PathLike)):
             thing = Redirect(direction, thing)
         if isinstance(thing, Redirect):
             thing = Redirects(thing)
-- 
2.43.0


From 737b17206b830aa62c7f383637d5b2473f0c9864 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:06 +0000
Subject: [PATCH 17/60] fix: a failing cd leaves the environment and the
 process where they were

---
 pieshell/environ.py | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/pieshell/environ.py b/pieshell/environ.py
index 1ae74dd..4af74b7 100644
--- a/pieshell/environ.py
+++ b/pieshell/environ.py
@@ -69,9 +69,8 @@ class Environment(object):
     def _exports(self):
         self._exports_value = None
     def _expand_path(self, pth):
-        if not pth.startswith("/") and not pth.startswith("~"):
-            pth = os.path.join(self._cwd, pth)
         pth = os.path.expanduser(pth)
+        pth = os.path.join(self._cwd, pth)
         pth = os.path.abspath(pth)
         return pth
     def _expand_argument(self, arg):
@@ -96,9 +95,11 @@ class Environment(object):
         cwd = self._expand_path(cwd)
         if not os.path.exists(cwd):
             raise IOError("Path does not exist: %s" % cwd)
-        self._cwd = cwd
+        if not os.path.isdir(cwd) or not os.access(cwd, os.X_OK):
+            raise IOError("Path is not a usable directory: %s" % cwd)
         if self._interactive:
             os.chdir(cwd)
+        self._cwd = cwd
         return self
     def __call__(self, cwd = None, exports = None, interactive = None, redirects = None):
         """Creates a new environment based on the current ones. All
@@ -120,10 +121,8 @@ class Environment(object):
             interactive = self._interactive
         if redirects is None:
             redirects = redir.Redirects(self._redirects)
-        res = type(self)(cwd = self._cwd, exports = exports, interactive = interactive, redirects = redirects)
-        if cwd is not None:
-            res._cd(cwd)
-        return res
+        cwd = self._expand_path(cwd) if cwd is not None else self._cwd
+        return type(self)(cwd = cwd, exports = exports, interactive = interactive, redirects = redirects)
     def __getitem__(self, name):
         """env[path] is equivalent to env(path)"""
         return self(name)
-- 
2.43.0


From bcc1b13f78eb01ded6031d72d8dfe164742ccc71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:12 +0000
Subject: [PATCH 18/60] fix: do not treat the name of the current directory as
 a pattern

---
 pieshell/environ.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pieshell/environ.py b/pieshell/environ.py
index 4af74b7..6c65193 100644
--- a/pieshell/environ.py
+++ b/pieshell/environ.py
@@ -84,7 +84,7 @@ class Environment(object):
         arg = os.path.expanduser(arg)
         if ("*" not in arg) and ("?" not in arg) and ("[" not in arg):
             return [arg]
-        res = glob.glob(self._expand_path(arg))
+        res = glob.glob(os.path.join(glob.escape(self._cwd), arg))
         if not res: return [arg]
         if self._cwd != "/":
             for idx in range(0, len(res)):
-- 
2.43.0


From 70f09862d4882d1fe66e590bf13164113a2ef62a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:16 +0000
Subject: [PATCH 19/60] fix: do not list pipelines without running parts as
 running

---
 pieshell/pipeline/base.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pieshell/pipeline/base.py b/pieshell/pipeline/base.py
index c32aea3..3eee82a 100644
--- a/pieshell/pipeline/base.py
+++ b/pieshell/pipeline/base.py
@@ -150,7 +150,8 @@ class Pipeline(DescribableObject):
             processes = self._run(redirects, sess)
         pipeline = running.RunningPipeline(processes, self)
         self._env.last_pipeline = pipeline
-        self._env.running_pipelines.append(pipeline)
+        if pipeline.is_running:
+            self._env.running_pipelines.append(pipeline)
         return pipeline
     
     async def async_run_interactive(self):
-- 
2.43.0


From 4f5afef65b319f673e199bf6b618c4ac9d4f4c01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:21 +0000
Subject: [PATCH 20/60] fix: shell functions keep the defaults of keyword-only
 parameters

---
 pieshell/environ.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pieshell/environ.py b/pieshell/environ.py
index 6c65193..62a7759 100644
--- a/pieshell/environ.py
+++ b/pieshell/environ.py
@@ -181,11 +181,13 @@ class Environment(object):
         finally:
             self._scope["env"] = self    
     def pyshfunction(self, fn):
-        return types.FunctionType(
+        res = types.FunctionType(
             fn.__code__, EnvScope(env=self, _parent_scope=fn.__globals__),
             name=fn.__name__,
             argdefs=fn.__defaults__,
             closure=fn.__closure__)
+        res.__kwdefaults__ = fn.__kwdefaults__
+        return res
 
     def __getstate__(self):
         def mangle(k, v):
-- 
2.43.0


From 332ab1490031d144aadd194f6bda008503441127 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:26 +0000
Subject: [PATCH 21/60] fix: completion with missing directories in PATH, and
 clearing its cache

---
 pieshell/environ.py           | 7 +++++--
 pieshell/pipeline/builtins.py | 2 +-
 2 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/pieshell/environ.py b/pieshell/environ.py
index 62a7759..cf81490 100644
--- a/pieshell/environ.py
+++ b/pieshell/environ.py
@@ -165,11 +165,14 @@ class Environment(object):
         if self._dir_cache is None:
             e = self._exports
             self._dir_cache = []
-            paths = e["PATH"].split(":")
+            paths = e.get("PATH", os.defpath).split(":")
             for pth in paths:
                 if not pth.startswith("/"):
                     pth = os.path.join(self._cwd, pth)
-                self._dir_cache.extend(os.listdir(os.path.abspath(pth)))
+                try:
+                    self._dir_cache.extend(os.listdir(os.path.abspath(pth)))
+                except OSError:
+                    pass # Missing or unreadable, there is nothing to run there
             self._dir_cache.extend(pipeline.BuiltinRegistry.builtins.keys())
             self._dir_cache.sort()
         return self._dir_cache
diff --git a/pieshell/pipeline/builtins.py b/pieshell/pipeline/builtins.py
index 677a112..f58a54a 100644
--- a/pieshell/pipeline/builtins.py
+++ b/pieshell/pipeline/builtins.py
@@ -95,7 +95,7 @@ class ClearDirCacheBuiltin(builtin.Builtin):
     name = "clear_dir_cache"
 
     def _run(self, redirects, sess, indentation = ""):
-        self.env._clear_dir_cache()
+        self._env._clear_dir_cache()
         return []
 
     def __dir__(self):
-- 
2.43.0


From 1eaa8ab518dc58d44ffb7404d6d6b9ca00db4972 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:30 +0000
Subject: [PATCH 22/60] fix: reading a variable gives the value last assigned
 to it

---
 pieshell/environ.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pieshell/environ.py b/pieshell/environ.py
index cf81490..66aa1bd 100644
--- a/pieshell/environ.py
+++ b/pieshell/environ.py
@@ -214,6 +214,7 @@ class EnvScope(dict):
         env = dict.__getitem__(self, 'env')
         if name in env._exports:
             env._exports[name] = value
+            dict.pop(self, name, None) # It would hide the exported value
         else:
             dict.__setitem__(self, name, value)
     def __getitem__(self, name):
-- 
2.43.0


From d35f2a97ca81bdfc4bc6fc38a3595e34b19cecff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:08 +0000
Subject: [PATCH 23/60] fix: pickle pipelines at any point of the history of
 their environment

---
 pieshell/environ.py | 5 +++--
 pieshell/redir.py   | 4 ++--
 2 files changed, 5 insertions(+), 4 deletions(-)

diff --git a/pieshell/environ.py b/pieshell/environ.py
index 66aa1bd..726f763 100644
--- a/pieshell/environ.py
+++ b/pieshell/environ.py
@@ -193,11 +193,12 @@ class Environment(object):
         return res
 
     def __getstate__(self):
+        # Running pipelines belong to this process
         def mangle(k, v):
             if k == "_scope": return None
-            if k == "last_pipeline": return v.pipeline
+            if k == "running_pipelines": return type(v)()
             return v
-        return {k: mangle(k, v) for k, v in self.__dict__.items()}
+        return {k: mangle(k, v) for k, v in self.__dict__.items() if k != "last_pipeline"}
 
 env = Environment()
 
diff --git a/pieshell/redir.py b/pieshell/redir.py
index 45c46ae..7aee7eb 100644
--- a/pieshell/redir.py
+++ b/pieshell/redir.py
@@ -25,10 +25,10 @@ class SpecialRedirect(object):
     def __init__(self, **kws):
         object.__setattr__(self, "kws", kws)
     def __getattr__(self, name):
-        if name not in self.kws:
+        if name == "kws" or name not in self.kws:
             raise AttributeError(name)
         return self.kws[name]
-    def __setattr__(self, name):
+    def __setattr__(self, name, value):
         self.kws[name] = value
     def __str__(self):
         return repr(self)
-- 
2.43.0


From bd6b5424e03203544210f2b7117af08bf57810ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:12 +0000
Subject: [PATCH 24/60] fix: the --log option

---
 pieshell/shell.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pieshell/shell.py b/pieshell/shell.py
index 0b0763c..57f5cd2 100644
--- a/pieshell/shell.py
+++ b/pieshell/shell.py
@@ -61,7 +61,7 @@ Where OPTIONS are any of
     else:
         if 'log' in kws:
             for name in kws['log'].split(','):
-                log.debug[name] = True
+                log.logging.getLogger(name).setLevel(log.logging.INFO)
 
         with environ.envScope:
             environ.envScope["args"] = args
-- 
2.43.0


From 3ed816ab6762a8c788fdadad7f7d8a045f409887 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:24 +0000
Subject: [PATCH 25/60] fix: execute all valid files and statements

---
 pieshell/environ.py | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/pieshell/environ.py b/pieshell/environ.py
index 726f763..51ad982 100644
--- a/pieshell/environ.py
+++ b/pieshell/environ.py
@@ -261,13 +261,20 @@ class EnvScope(dict):
             pkg, path = path.split("/", 1)
             f = pkg_resources.resource_stream(pkg, path)
         else:
-            f = open(filename)
+            f = open(filename, "rb")
         with f as f:
             content = f.read()
-        code.InteractiveConsole(locals=self).runsource(content, filename, "exec")
+        console = code.InteractiveConsole(locals=self)
+        try:
+            compiled = compile(content, filename, "exec")
+        except (OverflowError, SyntaxError, ValueError):
+            console.showsyntaxerror(filename)
+        else:
+            console.runcode(compiled)
 
     def execute_expr(self, expr):
-        code.InteractiveConsole(locals=self).runsource(expr, "<expr>")
+        # The final empty line ends any compound statement
+        code.InteractiveConsole(locals=self).runsource(expr + "\n", "<expr>")
 
     def _copy_resource(self, resource, dst):
         dstdir = os.path.dirname(dst)
-- 
2.43.0


From 7e013e651eb44f1924ef20a9ac9c08f830e5229c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:56 +0000
Subject: [PATCH 26/60] fix: bashsource parses what bash prints

---
 pieshell/pipeline/builtins.py | 83 +++++++++++++++++++----------------
 1 file changed, 44 insertions(+), 39 deletions(-)

diff --git a/pieshell/pipeline/builtins.py b/pieshell/pipeline/builtins.py
index f58a54a..3241d42 100644
--- a/pieshell/pipeline/builtins.py
+++ b/pieshell/pipeline/builtins.py
@@ -1,7 +1,7 @@
 import os
 import os.path
+import re
 import shlex
-import io
 import asyncio
 import sys
 import base64
@@ -109,45 +109,50 @@ class ClearDirCacheBuiltin(builtin.Builtin):
         except:
             return []
 
-def parse_declares(data):
-    l = shlex.shlex(io.StringIO(data), posix=True)
-
-    l.whitespace_split = True
+_declare_re = re.compile(
+    r"""declare[ ]-([a-zA-Z]+)[ ](\w+)
+        (?:=(?: "((?:[^"\\]|\\.)*)"               # "value"
+            |   \$'((?:[^'\\]|\\.)*)'             # $'value'
+            |   (\((?:[^"'()]|"(?:[^"\\]|\\.)*"|'(?:[^'\\]|\\.)*')*\))  # (array)
+        ))?\n""", re.X | re.S)
+_escape_re = re.compile(r"\\(?:([0-7]{1,3})|x([0-9a-fA-F]{1,2})|u([0-9a-fA-F]{1,4})|U([0-9a-fA-F]{1,8})|c(.)|(.))", re.S)
+_escapes = {"a": "\a", "b": "\b", "e": "\033", "E": "\033", "f": "\f", "n": "\n", "r": "\r", "t": "\t", "v": "\v"}
+
+def _unquote_ansi_c(value):
+    # $'value', see "QUOTING" in the bash manual. Octal and hex escapes are bytes.
+    def unescape(match):
+        octal, hexadecimal, short, long, control, char = match.groups()
+        if octal or hexadecimal:
+            return bytes([(int(octal, 8) if octal else int(hexadecimal, 16)) & 255]).decode("utf-8", "surrogateescape")
+        if short or long:
+            return chr(int(short or long, 16))
+        if control:
+            return chr(ord(control) & 31)
+        return _escapes.get(char, char)
+    value = _escape_re.sub(unescape, value)
+    return value.encode("utf-8", "surrogateescape").decode("utf-8", "surrogateescape")
 
-    lastlineno = 1
-    line = []
-    lines = []
+def parse_declares(data):
+    """Parses the output of `declare -x; declare -f`"""
+    vars = {}
+    pos = 0
     while True:
-        if l.lineno != lastlineno:
-            lines.append((lastlineno, line))
-            line = []
-        lastlineno = l.lineno
-        token = l.get_token()
-        if token is None:
-            break
-        line.append(token)
+        match = _declare_re.match(data, pos)
+        if match is None: break
+        pos = match.end()
+        flags, name, plain, ansi_c, array = match.groups()
+        if plain is not None:
+            vars[name] = re.sub(r"\\(.)", r"\1", plain, flags=re.S)
+        elif ansi_c is not None:
+            vars[name] = _unquote_ansi_c(ansi_c)
+        # Variables without a value and arrays are not part of the
+        # environment of child processes
 
-    vars = {}
-    funcstarts = []
-    for (lineno, line) in lines:
-        if line[0] == "declare":
-            name = line[2]
-            if "=" in name:
-                name, value = name.split("=", 1)
-            else:
-                value = ""
-            vars[name] = value
-        elif len(line) == 3 and line[1] == '()' and line[2] == '{':
-            funcstarts.append((lineno, line[0]))
-
-    lines = data.split("\n")
     funcs = {}
-    for i in range(len(funcstarts)):
-        if i >= len(funcstarts) - 1:
-            flines = lines[funcstarts[i][0]-1:]
-        else:
-            flines = lines[funcstarts[i][0]-1:funcstarts[i+1][0]-1]
-        funcs[funcstarts[i][1]] = "\n".join(flines)
+    starts = list(re.finditer(r"^(\S+) \(\) *\n(?=\{)", data[pos:], re.M))
+    for i, start in enumerate(starts):
+        end = starts[i + 1].start() if i + 1 < len(starts) else len(data)
+        funcs[start.group(1)] = data[pos:][start.start():end].rstrip("\n")
 
     return vars, funcs
 
@@ -162,11 +167,11 @@ class BashSource(builtin.Builtin):
         args = []
         for arg in self._arg[1:]:
             for exp in self._env._expand_argument(arg):
-                args.append("source '%s'" % (exp,))
+                args.append("source %s" % (shlex.quote(exp),))
         args.append("{ declare -x; declare -f; } > $0")
         self._cmd = self._env.bash(
             "-l", "-i", "-c",
-            "; ".join(args),
+            environ.R("; ".join(args)),
             self.parse_decls)
         res = self._cmd._run(redirects, sess, indentation)
         #self._pid = self._cmd._pid
@@ -178,7 +183,7 @@ class BashSource(builtin.Builtin):
         lines = []        
         async for line in stdin:
             lines.append(line)
-        lines = "\n".join(lines)
+        lines = "".join(line + "\n" for line in lines)
         vars, funcs = parse_declares(lines)
         self._env._exports.update(vars)
         self._env._bashfunctions.update(funcs)
-- 
2.43.0


From e9aa3f54bb7a3f7a2910f4bd317b9798a7bdf42c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:01 +0000
Subject: [PATCH 27/60] fix: relative file names of redirections are relative
 to the directory of the environment

---
 pieshell/pipeline/builtins.py | 2 +-
 pieshell/pipeline/command.py  | 2 +-
 pieshell/pipeline/function.py | 4 ++--
 pieshell/redir.py             | 3 ++-
 4 files changed, 6 insertions(+), 5 deletions(-)

diff --git a/pieshell/pipeline/builtins.py b/pieshell/pipeline/builtins.py
index 3241d42..76a5cb4 100644
--- a/pieshell/pipeline/builtins.py
+++ b/pieshell/pipeline/builtins.py
@@ -201,8 +201,8 @@ class SubShell(command.Command, builtin.Builtin):
         return command.Command._run(self, redirects, sess, indentation)
                        
     def _child(self, redirects, args):
-        redirects.perform()
         os.chdir(self._env._cwd)
+        redirects.perform()
         asyncio.set_event_loop(asyncio.new_event_loop())
         init.initialize()
         ecode = 0
diff --git a/pieshell/pipeline/command.py b/pieshell/pipeline/command.py
index 4650964..2f2a7b1 100644
--- a/pieshell/pipeline/command.py
+++ b/pieshell/pipeline/command.py
@@ -173,8 +173,8 @@ class Command(command.BaseCommand):
     find). """
 
     def _child(self, redirects, args):
-        redirects.perform()
         os.chdir(self._env._cwd)
+        redirects.perform()
         os.execvpe(args[0], args, self._env._exports)
 
     def _handle_arg_pipes(self, thing, orig_redirects, redirects, sess, indentation):
diff --git a/pieshell/pipeline/function.py b/pieshell/pipeline/function.py
index c61c3a9..6b7817c 100644
--- a/pieshell/pipeline/function.py
+++ b/pieshell/pipeline/function.py
@@ -86,7 +86,7 @@ class Function(base.Pipeline):
         thing = self.__dict__["function"] # Don't wrap functions as instance methods
         stdin = None
         if isinstance(thing, (types.FunctionType, types.MethodType)):
-            stdin = iterio.LineInputHandler(redirects.stdin.open(False), usage=self)
+            stdin = iterio.LineInputHandler(redirects.stdin.open(False, self._env._cwd), usage=self)
             try:
                 thing = thing(stdin, *self._arg, **self._kw)
             except Exception as e:
@@ -110,7 +110,7 @@ class Function(base.Pipeline):
         self._running_process = running.RunningFunction(
             self,
             iterio.LineOutputHandler(
-                redirects.stdout.open(False),
+                redirects.stdout.open(False, self._env._cwd),
                 thing,
                 usage=self),
             stdin)
diff --git a/pieshell/redir.py b/pieshell/redir.py
index 7aee7eb..805381d 100644
--- a/pieshell/redir.py
+++ b/pieshell/redir.py
@@ -86,9 +86,10 @@ class Redirect(object):
     def __deepcopy__(self, memo = {}):
         return type(self)(self.fd, copy.deepcopy(self.source), self.flag, self.mode, self.pipe, self.borrowed)
 
-    def open(self, borrow = True):
+    def open(self, borrow = True, cwd = ""):
         source = self.source
         if not isinstance(source, int):
+            source = os.path.join(cwd, os.fsdecode(source))
             log.log("Opening %s in %s for %s" % (self.source, self.flag, self.fd), "fd")
             source = os.open(source, self.flag, self.mode)
             log.log("Done opening %s in %s for %s" % (self.source, self.flag, self.fd), "fd")
-- 
2.43.0


From e277e2228a8747f97c88940617e90b693a41500c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:25 +0000
Subject: [PATCH 28/60] fix: deliver the stop signal without signalfd

---
 pieshell/signalio/manager_asyncio.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pieshell/signalio/manager_asyncio.py b/pieshell/signalio/manager_asyncio.py
index 6eb38b6..49cc730 100644
--- a/pieshell/signalio/manager_asyncio.py
+++ b/pieshell/signalio/manager_asyncio.py
@@ -12,7 +12,7 @@ class SignalManager(object):
         self.mask = mask
         self.signal_handlers = {}
         for signo in mask:
-            asyncio.get_event_loop().add_signal_handler(signo, lambda: self.handle_event(signo))
+            asyncio.get_event_loop().add_signal_handler(signo, self.handle_event, signo)
         
     def filter_to_key(self, flt):
         key = sorted(flt.items(), key=lambda item: item[0])
@@ -60,7 +60,7 @@ class SignalManager(object):
         # gets squashed into just one delivered signal event by
         # Linux...
         siginfos = [siginfo]
-        if siginfo["ssi_signo"] == signal.SIGCHLD or siginfo["ssi_signo"] == signal.SIGTSTP:
+        if siginfo["ssi_signo"] == signal.SIGCHLD:
             siginfos = signalutils.get_sigchlds()
 
         for siginfo in siginfos:
-- 
2.43.0


From 5a0928b3cda59e684e637443b0a20846b18c9e95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:14 +0000
Subject: [PATCH 29/60] fix: raise PipelineInterrupted when a pipeline waited
 for is interrupted

---
 pieshell/pipeline/running.py | 42 ++++++++++++++++++++++++++++++++++--
 1 file changed, 40 insertions(+), 2 deletions(-)

diff --git a/pieshell/pipeline/running.py b/pieshell/pipeline/running.py
index b06958e..63895dc 100644
--- a/pieshell/pipeline/running.py
+++ b/pieshell/pipeline/running.py
@@ -13,6 +13,7 @@ import re
 import builtins        
 import functools
 import asyncio
+import contextlib
 
 from .. import iterio
 from .. import signalio
@@ -38,6 +39,36 @@ class StopSignalHandler(signalio.SignalHandler):
                 self.current_pipeline.finish_future = None
         return True
 
+class InterruptHandler(object):
+    """Lets SIGINT interrupt the pipeline being waited for, rather than
+    whatever code the event loop happens to be running."""
+    def __init__(self):
+        self.pipelines = []
+    @contextlib.contextmanager
+    def interrupts(self, pipeline):
+        installed = (not self.pipelines
+                     and threading.current_thread() is threading.main_thread()
+                     and signal.getsignal(signal.SIGINT) is signal.default_int_handler)
+        self.pipelines.append(pipeline)
+        if installed:
+            signal.signal(signal.SIGINT, self.handle_signal)
+        try:
+            yield
+        finally:
+            self.pipelines.remove(pipeline)
+            if not self.pipelines and signal.getsignal(signal.SIGINT) == self.handle_signal:
+                signal.signal(signal.SIGINT, signal.default_int_handler)
+    def handle_signal(self, signo, frame):
+        loop = asyncio.get_event_loop()
+        # The last one is the one in the foreground, if there are several
+        pipeline = self.pipelines[-1]
+        if not loop.is_running() or pipeline.pipeline_interrupted:
+            signal.default_int_handler(signo, frame)
+        pipeline.pipeline_interrupted = True
+        loop.call_soon_threadsafe(pipeline.notify)
+
+interrupt_handler = InterruptHandler()
+
 stop_signal_handler = None
 @init.register
 def make_stop_signal_handler():
@@ -66,6 +97,7 @@ class RunningPipeline(object):
         self.processes = processes
         self.pipeline = pipeline
         self.pipeline_suspended = False
+        self.pipeline_interrupted = False
         self.finished = False
         for process in processes:
             process.running_pipeline = self
@@ -96,10 +128,14 @@ class RunningPipeline(object):
                 stop_signal_handler.current_pipeline = self
             try:
                 self.restart()
-                while not self.pipeline_suspended and self.is_running:
-                    await self.wait_event()
+                with interrupt_handler.interrupts(self):
+                    while not self.pipeline_suspended and not self.pipeline_interrupted and self.is_running:
+                        await self.wait_event()
             except KeyboardInterrupt as e:
                 raise PipelineInterrupted(self)
+            if self.pipeline_interrupted:
+                self.pipeline_interrupted = False
+                raise PipelineInterrupted(self)
             if self.pipeline_suspended:
                 self.suspend()
                 raise PipelineSuspended(self)
@@ -118,6 +154,8 @@ class RunningPipeline(object):
                 proc.handle_pipeline_finish_destructive()
             if self in self.pipeline._env.running_pipelines:
                 self.pipeline._env.running_pipelines.remove(self)
+        self.notify()
+    def notify(self):
         if self.finish_future is not None:
             self.finish_future.set_result(None)
             self.finish_future = None
-- 
2.43.0


From 3b55cfc11518681c22b7074419745c04df60651e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:36 +0000
Subject: [PATCH 30/60] fix: accept asynchronous iterators wherever iterators
 are accepted

---
 pieshell/pipeline/base.py    | 3 ++-
 pieshell/pipeline/command.py | 2 +-
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/pieshell/pipeline/base.py b/pieshell/pipeline/base.py
index 3eee82a..8b40acb 100644
--- a/pieshell/pipeline/base.py
+++ b/pieshell/pipeline/base.py
@@ -97,7 +97,8 @@ class Pipeline(DescribableObject):
             thing = redir.Redirects(thing, defaults=False)
         if not isinstance(thing, Pipeline) and (isinstance(thing, (types.FunctionType, types.MethodType))
                                                 or hasattr(thing, "__iter__")
-                                                or hasattr(thing, "__next__")):
+                                                or hasattr(thing, "__next__")
+                                                or hasattr(thing, "__aiter__")):
             thing = function.Function(self._env, thing)
         if not isinstance(thing, (Pipeline, redir.Redirects)):
             raise ValueError(type(thing))
diff --git a/pieshell/pipeline/command.py b/pieshell/pipeline/command.py
index 2f2a7b1..750de43 100644
--- a/pieshell/pipeline/command.py
+++ b/pieshell/pipeline/command.py
@@ -186,7 +186,7 @@ class Command(command.BaseCommand):
         elif isinstance(thing, (types.FunctionType, types.MethodType)):
             thing = function.Function(self._env, thing)
             direction = "stdin"
-        elif hasattr(thing, "__iter__") or hasattr(thing, "__next__"):
+        elif hasattr(thing, "__iter__") or hasattr(thing, "__next__") or hasattr(thing, "__aiter__"):
             thing = function.Function(self._env, thing)
             direction = "stdout"
         else:
-- 
2.43.0


From 5bac0625e7a06fe7103e8fac55e12d0a41a894a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:46 +0000
Subject: [PATCH 31/60] fix: let both parts of a group write to the same file

---
 pieshell/pipeline/group.py |  4 ++--
 pieshell/redir.py          | 17 +++++++++++++++++
 2 files changed, 19 insertions(+), 2 deletions(-)

diff --git a/pieshell/pipeline/group.py b/pieshell/pipeline/group.py
index 94b326d..1719c3e 100644
--- a/pieshell/pipeline/group.py
+++ b/pieshell/pipeline/group.py
@@ -36,8 +36,8 @@ class Group(base.Pipeline):
     def _run(self, redirects, sess, indentation = ""):
         base.Pipeline._run(self, redirects, sess, indentation)
 
-        # Both parts share any pipe the group is connected to
-        redirects = redirects.make_pipes(redir.PIPE)
+        # Both parts share any pipe or file the group is connected to
+        redirects = redirects.make_pipes(redir.PIPE).open_output_files(self._env._cwd)
 
         child_redirects = redir.Redirects(redirects)
         child_redirects.borrow()
diff --git a/pieshell/redir.py b/pieshell/redir.py
index 805381d..f8814a1 100644
--- a/pieshell/redir.py
+++ b/pieshell/redir.py
@@ -197,6 +197,23 @@ class Redirects(object):
     def make_pipes(self, kind = None):
         return type(self)(*[redirect.make_pipe() if kind is None or redirect.source is kind else redirect
                             for redirect in self.redirects.values()])
+    def open_output_files(self, cwd = ""):
+        """Opens any files written to, so that several processes can
+        write to each of them without overwriting each others output."""
+        res = type(self)(self)
+        for redirect in self.redirects.values():
+            if not (redirect.flag & os.O_WRONLY) or not isinstance(redirect.source, (str, bytes, os.PathLike)):
+                continue
+            path = os.path.join(cwd, os.fsdecode(redirect.source))
+            if os.path.exists(path) and not os.path.isfile(path):
+                continue
+            try:
+                source = redirect.open(cwd=cwd)
+            except OSError:
+                # Leave it to the processes to fail to open it
+                continue
+            res.redirect(redirect.fd, source, redirect.flag, redirect.mode)
+        return res
     def move_existing_fds(self):
         new_fd = self.find_free_fd()
         redirects = []
-- 
2.43.0


From 42bb705e5069cf1eb440b36b8ba615bf2e1aa5c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:25 +0000
Subject: [PATCH 32/60] fix: pass on patterns with an invalid range unchanged

---
 pieshell/environ.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pieshell/environ.py b/pieshell/environ.py
index 51ad982..257eabd 100644
--- a/pieshell/environ.py
+++ b/pieshell/environ.py
@@ -2,6 +2,7 @@ import os
 import sys
 import traceback
 import glob
+import re
 import code
 import contextlib
 import pkg_resources
@@ -84,7 +85,10 @@ class Environment(object):
         arg = os.path.expanduser(arg)
         if ("*" not in arg) and ("?" not in arg) and ("[" not in arg):
             return [arg]
-        res = glob.glob(os.path.join(glob.escape(self._cwd), arg))
+        try:
+            res = glob.glob(os.path.join(glob.escape(self._cwd), arg))
+        except re.error:
+            return [arg] # E.g. [z-a], which matches nothing
         if not res: return [arg]
         if self._cwd != "/":
             for idx in range(0, len(res)):
-- 
2.43.0


From 6cd272d516d7d297cec7ba1775378a1c6f2ab82e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:49 +0000
Subject: [PATCH 33/60] fix: remove an output file shared by several processes
 only once

---
 pieshell/pipeline/running.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pieshell/pipeline/running.py b/pieshell/pipeline/running.py
index 63895dc..6be8d88 100644
--- a/pieshell/pipeline/running.py
+++ b/pieshell/pipeline/running.py
@@ -222,7 +222,10 @@ class BaseRunningItem(object):
         for fd, name in self.output_files.items():
             if hasattr(name, "path"):
                 name = name.path
-            os.unlink(name)
+            try:
+                os.unlink(name)
+            except FileNotFoundError:
+                pass # Shared with another process
     def restart(self):
         pass
     def suspend(self):
-- 
2.43.0


From 560a2aa2e1f09318b43e666c79ca51720ef27aec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:19:46 +0000
Subject: [PATCH 34/60] fix: let bg and fg act on the last pipeline that
 started something

---
 pieshell/pipeline/base.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pieshell/pipeline/base.py b/pieshell/pipeline/base.py
index 8b40acb..7520f61 100644
--- a/pieshell/pipeline/base.py
+++ b/pieshell/pipeline/base.py
@@ -150,7 +150,9 @@ class Pipeline(DescribableObject):
             self = copy.deepcopy(self)
             processes = self._run(redirects, sess)
         pipeline = running.RunningPipeline(processes, self)
-        self._env.last_pipeline = pipeline
+        if processes:
+            # Builtins like bg and fg run without starting anything
+            self._env.last_pipeline = pipeline
         if pipeline.is_running:
             self._env.running_pipelines.append(pipeline)
         return pipeline
-- 
2.43.0


From cf956d39d56354921b4aeab000e64c85c66d8a92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:18 +0000
Subject: [PATCH 35/60] fix: let R() arguments be unpickled

---
 pieshell/environ.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pieshell/environ.py b/pieshell/environ.py
index 257eabd..abd28bf 100644
--- a/pieshell/environ.py
+++ b/pieshell/environ.py
@@ -21,6 +21,7 @@ class R(object):
     def __init__(self, str):
         self.str = str
     def __getattr__(self, name):
+        if name == "str": raise AttributeError(name) # While being unpickled
         return getattr(self.str, name)
     def __iter__(self):
         return iter(self.str)
-- 
2.43.0


From 55dcdfea4b5a9579889dca49bf671c6b2c991ea1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:28 +0000
Subject: [PATCH 36/60] fix: do not print a restored command as running

---
 pieshell/pipeline/base.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/pieshell/pipeline/base.py b/pieshell/pipeline/base.py
index 7520f61..e2d32a0 100644
--- a/pieshell/pipeline/base.py
+++ b/pieshell/pipeline/base.py
@@ -51,9 +51,10 @@ def describable_object_reduce(self):
     if hasattr(type, "__getstate__"):
         state = self.__getstate__()
     else:
-        state = {k: v for k, v in self.__dict__.items()
-                 if not k.startswith("__")
-                 and k not in ("_running_process", "_running_processes")}
+        # Processes belong to the process that started them
+        state = {k: None if k == "_running_process" else v
+                 for k, v in self.__dict__.items()
+                 if not k.startswith("__") and k != "_running_processes"}
     return (
         cls.__new__,
         (cls,),
-- 
2.43.0


From f0453fbacd33d0dacb510371286a49c811928b7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:28 +0000
Subject: [PATCH 37/60] fix: let bashsource read scripts that set IFS

---
 pieshell/pipeline/builtins.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pieshell/pipeline/builtins.py b/pieshell/pipeline/builtins.py
index 76a5cb4..a5ef89b 100644
--- a/pieshell/pipeline/builtins.py
+++ b/pieshell/pipeline/builtins.py
@@ -168,7 +168,7 @@ class BashSource(builtin.Builtin):
         for arg in self._arg[1:]:
             for exp in self._env._expand_argument(arg):
                 args.append("source %s" % (shlex.quote(exp),))
-        args.append("{ declare -x; declare -f; } > $0")
+        args.append('{ declare -x; declare -f; } > "$0"')
         self._cmd = self._env.bash(
             "-l", "-i", "-c",
             environ.R("; ".join(args)),
-- 
2.43.0


From e6156650f4f63922e49e2dcea98396505c859bcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:40 +0000
Subject: [PATCH 38/60] fix: do not take Python's own names for commands

---
 pieshell/environ.py | 3 +++
 pieshell/module.py  | 5 ++++-
 2 files changed, 7 insertions(+), 1 deletion(-)

diff --git a/pieshell/environ.py b/pieshell/environ.py
index abd28bf..f98c5db 100644
--- a/pieshell/environ.py
+++ b/pieshell/environ.py
@@ -241,6 +241,9 @@ class EnvScope(dict):
                 return parent[name]
             if hasattr(builtins, name):
                 return getattr(builtins, name)
+            if name.startswith("__") and name.endswith("__"):
+                # E.g. __annotations__, Python's own names are never commands
+                raise KeyError(name)
         return getattr(env, name)
 
     def keys(self):
diff --git a/pieshell/module.py b/pieshell/module.py
index a41fe6a..b5bbb5d 100644
--- a/pieshell/module.py
+++ b/pieshell/module.py
@@ -8,7 +8,10 @@ class Module(types.ModuleType):
         types.ModuleType.__setattr__(self, "_scope", scope)
         super(Module, self).__init__(name, doc)
     def __getattr__(self, name):
-        return self._scope[name]
+        try:
+            return self._scope[name]
+        except KeyError:
+            raise AttributeError(name)
     def __setattr__(self, name, value):
         self._scope[name] = value
     def __dir__(self):
-- 
2.43.0


From 39a3939b35c4b367c7d5d12348d5ff4e03c7d97b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:59 +0000
Subject: [PATCH 39/60] fix: let pysh modules be imported with import *

---
 pieshell/module.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pieshell/module.py b/pieshell/module.py
index b5bbb5d..f3c7780 100644
--- a/pieshell/module.py
+++ b/pieshell/module.py
@@ -11,6 +11,10 @@ class Module(types.ModuleType):
         try:
             return self._scope[name]
         except KeyError:
+            if name == "__all__":
+                # The default of import * would look in self.__dict__
+                return [key for key in dict.keys(self._scope)
+                        if not key.startswith("_") and key != "env"]
             raise AttributeError(name)
     def __setattr__(self, name, value):
         self._scope[name] = value
-- 
2.43.0


From 9b5243249dacb568db64e51e249219ea3088fd4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:05 +0000
Subject: [PATCH 40/60] fix: give pysh modules and scripts their own __name__

---
 pieshell/environ.py | 2 +-
 pieshell/module.py  | 3 ++-
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/pieshell/environ.py b/pieshell/environ.py
index f98c5db..57bf71c 100644
--- a/pieshell/environ.py
+++ b/pieshell/environ.py
@@ -331,4 +331,4 @@ class EnvScope(dict):
     def __exit__(self, *args, **kw):
         sys.ps1 = self.ps1
     
-envScope = EnvScope(env = env(interactive=True))
+envScope = EnvScope(env = env(interactive=True), __name__ = "__main__")
diff --git a/pieshell/module.py b/pieshell/module.py
index f3c7780..bb10d14 100644
--- a/pieshell/module.py
+++ b/pieshell/module.py
@@ -27,7 +27,8 @@ class Loader(object):
     def load_module(self, fullname):
         if fullname not in sys.modules:
             env = environ.envScope["env"]()
-            scope = environ.EnvScope(env=env)
+            scope = environ.EnvScope(
+                env=env, __name__=fullname, __file__=self.path)
             sys.modules[fullname] = Module(scope, fullname.split(".")[-1])
         sys.modules[fullname]._scope.execute_file(self.path)
         return sys.modules[fullname]
-- 
2.43.0


From d1c84a782e2f1d6cfbeb6a4dc241bff2550464d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:59 +0000
Subject: [PATCH 41/60] fix: name processes by the name of their program,
 whatever it looks like

---
 pieshell/pipeline/running.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/pieshell/pipeline/running.py b/pieshell/pipeline/running.py
index 6be8d88..4c4c48c 100644
--- a/pieshell/pipeline/running.py
+++ b/pieshell/pipeline/running.py
@@ -392,12 +392,10 @@ class RunningProcess(RunningItem):
         if level is None:
             return str(id(self))
         prefix, suffix = self.cmd._split_args
-        if len(prefix) == 1 and level >= 1:
+        if len(prefix) <= 1 and level >= 1:
             level += 1
-        elif len(prefix) == 0:
-            level += 2
         if level == 0:
-            return prefix[0]
+            return os.path.basename(str((prefix + suffix)[0]))
         elif level == 1:
             return ".".join(prefix)
         elif level == 2:
-- 
2.43.0


From a1b528835b75bf7f812ce86fffed30a047f3ede0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:23 +0000
Subject: [PATCH 42/60] fix: the names of processes are attribute names

---
 pieshell/tree.py | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/pieshell/tree.py b/pieshell/tree.py
index d204a28..b7fdda9 100644
--- a/pieshell/tree.py
+++ b/pieshell/tree.py
@@ -1,4 +1,5 @@
 import slugify
+import keyword
 import re
 
 class TreeGroup(object):
@@ -9,17 +10,19 @@ class TreeGroup(object):
             key = slugify.slugify(key, separator="_")
             if re.match(r"^[0-9]", key):
                 key = "n" + key
+            elif key == "" or keyword.iskeyword(key):
+                key += "_"
             if key not in procs: procs[key] = {}
             procs[key][child._getkey(None)] = child
-        self.children = {}
+        self._children = {}
         for key, value in procs.items():
             if len(value) == 1:
-                self.children[key] = next(iter(value.values()))
+                self._children[key] = next(iter(value.values()))
             else:
-                self.children[key] = TreeGroup(value.values(), level+1)        
+                self._children[key] = TreeGroup(value.values(), level+1)        
     def __dir__(self):
-        return self.children.keys()
+        return self._children.keys()
     def __getattr__(self, key):
-        if key not in self.children:
+        if key not in self._children:
             raise AttributeError(key)
-        return self.children[key]
+        return self._children[key]
-- 
2.43.0


From 7a572d84ad34278988a56362544908c64d84c992 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:30 +0000
Subject: [PATCH 43/60] fix: list zombie processes

---
 pieshell/ps.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pieshell/ps.py b/pieshell/ps.py
index b33a8c3..be2283c 100644
--- a/pieshell/ps.py
+++ b/pieshell/ps.py
@@ -54,7 +54,8 @@ class PstreeProcess(object):
             key = getattr(self.INFO, attr)
             if attr != "pid":
                 key = key()
-        except psutil.AccessDenied:
+        except (psutil.AccessDenied, psutil.NoSuchProcess):
+            # Not ours, or a zombie or gone altogether
             key = self._getkey(level+1)
             if attr == "exe" and isinstance(key, list):
                 key = key[0]
-- 
2.43.0


From 1eca0e578bb5bcbadc7b58e3343aaf1e6ea6919d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:16 +0000
Subject: [PATCH 44/60] fix: do not let commands inherit the signal set up of
 Python and the signal manager

---
 pieshell/pipeline/command.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pieshell/pipeline/command.py b/pieshell/pipeline/command.py
index 750de43..9ce9f5a 100644
--- a/pieshell/pipeline/command.py
+++ b/pieshell/pipeline/command.py
@@ -175,6 +175,11 @@ class Command(command.BaseCommand):
     def _child(self, redirects, args):
         os.chdir(self._env._cwd)
         redirects.perform()
+        # What Python and the signal manager have set up for themselves
+        # would be inherited
+        for signo in (signal.SIGPIPE, signal.SIGXFSZ):
+            signal.signal(signo, signal.SIG_DFL)
+        signal.pthread_sigmask(signal.SIG_UNBLOCK, [signal.SIGCHLD])
         os.execvpe(args[0], args, self._env._exports)
 
     def _handle_arg_pipes(self, thing, orig_redirects, redirects, sess, indentation):
-- 
2.43.0


From d995d8e8d521518991ee9374f629fe0029d4050a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:04:36 +0000
Subject: [PATCH 45/60] fix: builtins that run another pipeline can be read,
 piped and grouped

---
 pieshell/pipeline/builtin.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/pieshell/pipeline/builtin.py b/pieshell/pipeline/builtin.py
index 0d7edaa..9533058 100644
--- a/pieshell/pipeline/builtin.py
+++ b/pieshell/pipeline/builtin.py
@@ -14,5 +14,11 @@ class BuiltinRegistry(object):
         return cls.builtins[name]
 
 class Builtin(command.BaseCommand):
+    def __getattr__(self, name):
+        if name == "_redirects" and "_cmd" in self.__dict__:
+            # Of the pipeline that the builtin runs
+            return self._cmd._redirects
+        return command.BaseCommand.__getattr__(self, name)
+
     def _run(self, redirects, sess, indentation = ""):
         raise NotImplemented
-- 
2.43.0


From 0cdedf40f44e975793245662375162bf599fe7ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:31:54 +0000
Subject: [PATCH 46/60] fix: do not block in pipes whose other users have been
 faster

---
 pieshell/iterio.py     | 27 +++++++++++++++++++--------
 pieshell/utils/pipe.py | 13 +++++++++++++
 2 files changed, 32 insertions(+), 8 deletions(-)

diff --git a/pieshell/iterio.py b/pieshell/iterio.py
index fc29015..656e1de 100644
--- a/pieshell/iterio.py
+++ b/pieshell/iterio.py
@@ -5,6 +5,7 @@ import errno
 from . import log
 import asyncio
 from .utils.asyncutils import asyncmap, itertoasync
+from .utils.pipe import reopen_nonblocking
 
 class RecursiveEvent(Exception): pass
 
@@ -18,6 +19,10 @@ def events_to_str(events):
 class IOHandler(object):
     events = 0
     def __init__(self, fd, borrowed = False, usage = None):
+        if not borrowed:
+            # Others might use the same pipe, so that it's no longer
+            # ready when we get to it
+            fd = reopen_nonblocking(fd, os.O_WRONLY if self.events & select.POLLOUT else os.O_RDONLY)
         self.fd = fd
         self.borrowed = borrowed
         self.enabled = True
@@ -122,7 +127,10 @@ class OutputHandler(IOHandler):
         poll = select.poll()
         poll.register(self.fd, select.POLLOUT)
         while self.pending and poll.poll(0):
-            written = os.write(self.fd, self.pending[:select.PIPE_BUF])
+            try:
+                written = os.write(self.fd, self.pending[:select.PIPE_BUF])
+            except BlockingIOError:
+                return
             self.pending = self.pending[written:]
 
     async def send_output(self):
@@ -190,9 +198,15 @@ class InputHandler(IOHandler):
             self.destroy()
 
     def handle_event(self, event):
-        if self.discarding:
-            self.handle_discard()
-            return
+        try:
+            if self.discarding:
+                self.handle_discard()
+            else:
+                self.handle_input()
+        except BlockingIOError:
+            pass
+
+    def handle_input(self):
         if self.buffer is None:
             self.buffer = os.read(self.fd, 1024)
             if not self.buffer:
@@ -230,10 +244,7 @@ class LineInputHandler(InputHandler):
         InputHandler.__init__(self, fd, borrowed, usage, at_eof)
         self.buffer = b""
 
-    def handle_event(self, event):
-        if self.discarding:
-            self.handle_discard()
-            return
+    def handle_input(self):
         if b'\n' not in self.buffer:
             read_data = os.read(self.fd, 1024)
             self.buffer += read_data
diff --git a/pieshell/utils/pipe.py b/pieshell/utils/pipe.py
index d7786f1..b833aa4 100644
--- a/pieshell/utils/pipe.py
+++ b/pieshell/utils/pipe.py
@@ -1,6 +1,7 @@
 import os
 import fcntl
 import select
+import stat
 
 def _set_cloexec_flag(fd, cloexec=True):
     try:
@@ -24,3 +25,15 @@ def pipe_cloexec():
     _set_cloexec_flag(r)
     _set_cloexec_flag(w)
     return r, w
+
+def reopen_nonblocking(fd, flag):
+    """Exchanges a descriptor of a pipe for one that does not block,
+    without affecting other users of the same end of the pipe."""
+    if not stat.S_ISFIFO(os.fstat(fd).st_mode):
+        return fd
+    try:
+        newfd = os.open("/proc/self/fd/%s" % fd, flag | os.O_NONBLOCK | os.O_CLOEXEC)
+    except OSError:
+        return fd
+    os.close(fd)
+    return newfd
-- 
2.43.0


From d5cec59a6b073104661e11915c68e3ac1c8ca825 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:05:07 +0000
Subject: [PATCH 47/60] fix: only export strings to commands

---
 pieshell/environ.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pieshell/environ.py b/pieshell/environ.py
index 57bf71c..b4767a6 100644
--- a/pieshell/environ.py
+++ b/pieshell/environ.py
@@ -218,7 +218,10 @@ class EnvScope(dict):
         if name == "env":
             value._scope = self
         env = dict.__getitem__(self, 'env')
-        if name in env._exports:
+        # Only strings can be exported to commands, nothing else can
+        # replace the value of an exported variable for them
+        exportable = name != "env" and isinstance(value, (str, bytes, os.PathLike))
+        if exportable and name in env._exports:
             env._exports[name] = value
             dict.pop(self, name, None) # It would hide the exported value
         else:
-- 
2.43.0


From 4ff1215cecf8a7b9e826330d19cf76afef44e69f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:14:01 +0000
Subject: [PATCH 48/60] fix: let the stop signal suspend the pipeline in the
 foreground also after another wait ended

---
 pieshell/pipeline/running.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/pieshell/pipeline/running.py b/pieshell/pipeline/running.py
index 4c4c48c..3371875 100644
--- a/pieshell/pipeline/running.py
+++ b/pieshell/pipeline/running.py
@@ -29,8 +29,13 @@ except:
 
 class StopSignalHandler(signalio.SignalHandler):
     def __init__(self):
-        self.current_pipeline = None
+        self.pipelines = []
         signalio.SignalHandler.__init__(self, {"ssi_signo": signal.SIGTSTP})
+    @property
+    def current_pipeline(self):
+        # The last one is the one in the foreground, if several are
+        # being waited for
+        return self.pipelines[-1] if self.pipelines else None
     def handle_event(self, event):
         if self.current_pipeline is not None:
             self.current_pipeline.pipeline_suspended = True
@@ -125,7 +130,7 @@ class RunningPipeline(object):
     async def wait(self):
         try:
             if self.pipeline._env._interactive:
-                stop_signal_handler.current_pipeline = self
+                stop_signal_handler.pipelines.append(self)
             try:
                 self.restart()
                 with interrupt_handler.interrupts(self):
@@ -142,7 +147,8 @@ class RunningPipeline(object):
             if self.failed_processes:
                 raise PipelineFailed(self)
         finally:
-            stop_signal_handler.current_pipeline = None
+            if self in stop_signal_handler.pipelines:
+                stop_signal_handler.pipelines.remove(self)
     def __await__(self):
         return self.wait().__await__()
     def handle_finish(self):
-- 
2.43.0


From e8cbf266c1d517641af2708ae2ff6dea3840e023 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:16:48 +0000
Subject: [PATCH 49/60] fix: complete exactly the command line typed so far,
 without running any of it

---
 pieshell/pipeline/builtins.py | 10 ++++++++++
 pieshell/pipeline/command.py  | 10 +++++-----
 2 files changed, 15 insertions(+), 5 deletions(-)

diff --git a/pieshell/pipeline/builtins.py b/pieshell/pipeline/builtins.py
index a5ef89b..55a1314 100644
--- a/pieshell/pipeline/builtins.py
+++ b/pieshell/pipeline/builtins.py
@@ -191,6 +191,16 @@ class BashSource(builtin.Builtin):
 class SubShell(command.Command, builtin.Builtin):
     name = "subshell"
     
+    # There is no program to ask for these
+    def __dir__(self):
+        return []
+    @property
+    def __doc__(self):
+        return ""
+    @property
+    def __signature__(self):
+        return None
+
     def _handle_arg_pipes_wrapper(self, item, orig_redirects, redirects, sess, indentation):
         return item
 
diff --git a/pieshell/pipeline/command.py b/pieshell/pipeline/command.py
index 9ce9f5a..3fb0efa 100644
--- a/pieshell/pipeline/command.py
+++ b/pieshell/pipeline/command.py
@@ -10,6 +10,7 @@ import threading
 import signal
 import operator
 import re
+import shlex
 import builtins
 import functools
 import inspect
@@ -154,10 +155,9 @@ class BaseCommand(base.Pipeline):
 
     def _arg_list_sh(self, *arg, **kw):
         def quote_arg(arg):
-            arg = str(arg)
-            if " " in arg:
-                arg = repr(arg)
-            return arg
+            if isinstance(arg, base.Pipeline):
+                arg = "/dev/fd/X" # str() would run it
+            return shlex.quote(str(arg))
         return ' '.join(quote_arg(arg) for arg in self._arg_list(*arg, **kw))
 
     def _run(self, redirects, sess, indentation = ""):
@@ -251,7 +251,7 @@ class Command(command.BaseCommand):
         return self._running_processes
 
     def _complete(self):
-        cmd = self._arg_list_sh() + " "
+        cmd = environ.R(self._arg_list_sh() + " ") # Already expanded
         return (item.strip() for item in self._env.get_completions(cmd))
 
     @property
-- 
2.43.0


From e5c26ca6e2db9806ab095e00b6ad30ce7aa22574 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:17:07 +0000
Subject: [PATCH 50/60] fix: completion and help do not replace the last
 pipeline

---
 pieshell/environ.py          | 10 ++++++++++
 pieshell/pipeline/command.py |  9 ++++++---
 2 files changed, 16 insertions(+), 3 deletions(-)

diff --git a/pieshell/environ.py b/pieshell/environ.py
index b4767a6..3f432fa 100644
--- a/pieshell/environ.py
+++ b/pieshell/environ.py
@@ -188,6 +188,16 @@ class Environment(object):
             yield
         finally:
             self._scope["env"] = self    
+    @contextlib.contextmanager
+    def _keep_last_pipeline(self):
+        """Pipelines run in here are not run on behalf of the user, who
+        still means the one before them with e.g. fg"""
+        before = {k: v for k, v in self.__dict__.items() if k == "last_pipeline"}
+        try:
+            yield
+        finally:
+            self.__dict__.pop("last_pipeline", None)
+            self.__dict__.update(before)
     def pyshfunction(self, fn):
         res = types.FunctionType(
             fn.__code__, EnvScope(env=self, _parent_scope=fn.__globals__),
diff --git a/pieshell/pipeline/command.py b/pieshell/pipeline/command.py
index 3fb0efa..995f06d 100644
--- a/pieshell/pipeline/command.py
+++ b/pieshell/pipeline/command.py
@@ -252,11 +252,13 @@ class Command(command.BaseCommand):
 
     def _complete(self):
         cmd = environ.R(self._arg_list_sh() + " ") # Already expanded
-        return (item.strip() for item in self._env.get_completions(cmd))
+        with self._env._keep_last_pipeline():
+            return [item.strip() for item in self._env.get_completions(cmd)]
 
     @property
     def __signature__(self):
-        hlp = str(self("--help"))
+        with self._env._keep_last_pipeline():
+            hlp = str(self("--help"))
         args = []
 
         params = {}
@@ -316,4 +318,5 @@ class Command(command.BaseCommand):
 
     @property
     def __doc__(self):
-        return "\n".join(self("--help"))
+        with self._env._keep_last_pipeline():
+            return "\n".join(self("--help"))
-- 
2.43.0


From 6d4003ea8375e0cc44df1f2b722ff53546683528 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:17:13 +0000
Subject: [PATCH 51/60] fix: complete cd with the directories of its
 environment

---
 pieshell/pipeline/builtins.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pieshell/pipeline/builtins.py b/pieshell/pipeline/builtins.py
index 55a1314..2fd1d61 100644
--- a/pieshell/pipeline/builtins.py
+++ b/pieshell/pipeline/builtins.py
@@ -35,7 +35,7 @@ class CdBuiltin(builtin.Builtin):
         if self._arg[1:]:
             pth = self._env._expand_path(self._path)
         else:
-            pth = "."
+            pth = self._env._cwd
         try:
             return [name for name in os.listdir(pth)
                     if os.path.isdir(os.path.join(pth, name))] + list(self._replacements.keys())
-- 
2.43.0


From be21d8082c25c62f74cd100188c09a37b9e63622 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:36:52 +0000
Subject: [PATCH 52/60] fix: do not run the pipelines that completion or help
 describe

---
 pieshell/jedi_completion.py   | 15 +++++++++------
 pieshell/pipeline/base.py     | 22 ++++++++++++++++++++--
 pieshell/pipeline/builtins.py |  5 ++---
 pieshell/pipeline/command.py  |  4 ++++
 4 files changed, 35 insertions(+), 11 deletions(-)

diff --git a/pieshell/jedi_completion.py b/pieshell/jedi_completion.py
index b3ec49b..a21bc8d 100644
--- a/pieshell/jedi_completion.py
+++ b/pieshell/jedi_completion.py
@@ -2,6 +2,8 @@ import os
 import sys
 import jedi
 
+from .pipeline.base import repr_without_running
+
 
 def setup_readline(scopes, **kw):
     class JediRL:
@@ -10,12 +12,13 @@ def setup_readline(scopes, **kw):
                 sys.path.insert(0, os.getcwd())
                 # Calling python doesn't have a path, so add to sys.path.
                 try:
-                    interpreter = jedi.Interpreter(text, scopes)
-                    completions = interpreter.complete(**kw)
-                    self.matches = [
-                        text[:len(text) - c._like_name_length] + c.name_with_symbols
-                        for c in completions
-                    ]
+                    with repr_without_running():
+                        interpreter = jedi.Interpreter(text, scopes)
+                        completions = interpreter.complete(**kw)
+                        self.matches = [
+                            text[:len(text) - c._like_name_length] + c.name_with_symbols
+                            for c in completions
+                        ]
                 finally:
                     sys.path.pop(0)
             try:
diff --git a/pieshell/pipeline/base.py b/pieshell/pipeline/base.py
index e2d32a0..b3e6971 100644
--- a/pieshell/pipeline/base.py
+++ b/pieshell/pipeline/base.py
@@ -13,6 +13,8 @@ import re
 import builtins        
 import functools
 import asyncio
+import contextlib
+import inspect
 import io
 import slugify
 import pathlib
@@ -41,6 +43,16 @@ def pipeline_repr(obj):
         repr_state.in_repr -= 1
 builtins.repr = pipeline_repr
 
+@contextlib.contextmanager
+def repr_without_running():
+    """Within this, no way to get the representation of a pipeline (e.g.
+    by formatting an error message) runs it"""
+    repr_state.in_repr = getattr(repr_state, "in_repr", 0) + 1
+    try:
+        yield
+    finally:
+        repr_state.in_repr -= 1
+
 # help() doesn't let you override help on objects, only on classes, so
 # make everything a class...
 # The metaclass and custom reducer / copyreg is to make these objects
@@ -70,7 +82,11 @@ class DescribableObjectType(type):
         
 class DescribableObject(type, metaclass = DescribableObjectType):
     def __new__(cls, *arg, **kw):
-        return type.__new__(cls, "", (type,), {})
+        # Without any documentation of its own help() looks for comments
+        # in the source, fails, and its error message would run the pipeline
+        docs = (c.__dict__.get("__doc__") for c in cls.__mro__)
+        doc = next(doc for doc in docs if isinstance(doc, str))
+        return type.__new__(cls, "", (type,), {"__doc__": inspect.cleandoc(doc) + "\n"})
     def __init__(self, *arg, **kw):
         pass
 
@@ -242,4 +258,6 @@ class Pipeline(DescribableObject):
 
     @property
     def __signature__(self):
-        return None
+        # Without one, the error message of inspect.signature would
+        # run the pipeline
+        return inspect.Signature()
diff --git a/pieshell/pipeline/builtins.py b/pieshell/pipeline/builtins.py
index 2fd1d61..8272826 100644
--- a/pieshell/pipeline/builtins.py
+++ b/pieshell/pipeline/builtins.py
@@ -189,15 +189,14 @@ class BashSource(builtin.Builtin):
         self._env._bashfunctions.update(funcs)
         
 class SubShell(command.Command, builtin.Builtin):
+    """Runs a pipeline in a copy of the shell.
+    """
     name = "subshell"
     
     # There is no program to ask for these
     def __dir__(self):
         return []
     @property
-    def __doc__(self):
-        return ""
-    @property
     def __signature__(self):
         return None
 
diff --git a/pieshell/pipeline/command.py b/pieshell/pipeline/command.py
index 995f06d..d57045b 100644
--- a/pieshell/pipeline/command.py
+++ b/pieshell/pipeline/command.py
@@ -160,6 +160,10 @@ class BaseCommand(base.Pipeline):
             return shlex.quote(str(arg))
         return ' '.join(quote_arg(arg) for arg in self._arg_list(*arg, **kw))
 
+    @property
+    def __signature__(self):
+        return None # That of __call__
+
     def _run(self, redirects, sess, indentation = ""):
         raise NotImplemented
 
-- 
2.43.0


From c25f62cfb3dd59f052b3f1be54608ed7362ec49f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:38:37 +0000
Subject: [PATCH 53/60] fix: give commands a signature also if some value is no
 valid name

---
 pieshell/pipeline/command.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pieshell/pipeline/command.py b/pieshell/pipeline/command.py
index d57045b..e2f37b3 100644
--- a/pieshell/pipeline/command.py
+++ b/pieshell/pipeline/command.py
@@ -301,7 +301,7 @@ class Command(command.BaseCommand):
                 while len(types) > 1:
                     types = [typing.Union[types[0],types[1]]] + types[2:]
             except Exception as e:
-                pass
+                types = [str] # Some value can't be the name of an enum member
             args.append(
                 inspect.Parameter(
                     param,
-- 
2.43.0


From 57f3122b07b40967edab88dce3acef191b62eb2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:10:35 +0000
Subject: [PATCH 54/60] fix: processes can be iterated over

---
 pieshell/ps.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pieshell/ps.py b/pieshell/ps.py
index be2283c..8564a94 100644
--- a/pieshell/ps.py
+++ b/pieshell/ps.py
@@ -94,7 +94,7 @@ class PstreeProcess(object):
         return len(self.INFO.threads())
     def __getitem__(self, idx):
         return self.INFO.threads()[idx]
-    def __iter__(self, idx):
+    def __iter__(self):
         return iter(self.INFO.threads())
     def __repr__(self):
         if self.INFO is None:
-- 
2.43.0


From 1893f9e89641da037de2601c37f693759523af17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:10:40 +0000
Subject: [PATCH 55/60] fix: zombies and ended processes can be printed

---
 pieshell/ps.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pieshell/ps.py b/pieshell/ps.py
index 8564a94..11da8d3 100644
--- a/pieshell/ps.py
+++ b/pieshell/ps.py
@@ -99,7 +99,11 @@ class PstreeProcess(object):
     def __repr__(self):
         if self.INFO is None:
             return str(self.pid)
-        return "%s as %s" % (cmdline2pieshell(self.INFO.cmdline()), self.INFO.pid)
+        try:
+            cmdline = self.INFO.cmdline()
+        except (psutil.AccessDenied, psutil.NoSuchProcess):
+            cmdline = [] # Not ours, or a zombie or gone altogether
+        return "%s as %s" % (cmdline2pieshell(cmdline), self.INFO.pid)
 
 class PstreeLogin(object):
     def __init__(self, details):
-- 
2.43.0


From b85ec3bc43c6c32652dcc3e7b384a364d8ae8ff1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:10:46 +0000
Subject: [PATCH 56/60] fix: the init process has no parent

---
 pieshell/ps.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pieshell/ps.py b/pieshell/ps.py
index 11da8d3..f4d54df 100644
--- a/pieshell/ps.py
+++ b/pieshell/ps.py
@@ -75,7 +75,8 @@ class PstreeProcess(object):
         return tree.TreeGroup(children)
     @property
     def PARENT(self):
-        return PstreeProcess(self.INFO.parent())
+        parent = self.INFO.parent()
+        return PstreeProcess(parent) if parent is not None else None
     @property
     def GROUP(self):
         return PstreeProcess(os.getpgid(self.pid))
-- 
2.43.0


From 2a7156305939a5d40fb53cedb3ff5480a217fe0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:13:22 +0000
Subject: [PATCH 57/60] fix: group and session of a process with a child named
 pid

---
 pieshell/ps.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pieshell/ps.py b/pieshell/ps.py
index f4d54df..7b248f8 100644
--- a/pieshell/ps.py
+++ b/pieshell/ps.py
@@ -79,10 +79,10 @@ class PstreeProcess(object):
         return PstreeProcess(parent) if parent is not None else None
     @property
     def GROUP(self):
-        return PstreeProcess(os.getpgid(self.pid))
+        return PstreeProcess(os.getpgid(self.INFO.pid))
     @property
     def SESS(self):
-        return PstreeProcess(os.getsid(self.pid))
+        return PstreeProcess(os.getsid(self.INFO.pid))
     def __dir__(self):
         return dir(self._children)
     def __getattr__(self, key):
-- 
2.43.0


From a5fd98b2a097240b9511f6c3f9cddfb3e092f338 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:15:54 +0000
Subject: [PATCH 58/60] fix: skip stale logins

---
 pieshell/ps.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/pieshell/ps.py b/pieshell/ps.py
index 7b248f8..7e8b7be 100644
--- a/pieshell/ps.py
+++ b/pieshell/ps.py
@@ -133,7 +133,13 @@ class PstreeLogin(object):
 class PstreeLogins(object):
     @property
     def _children(self):
-        return tree.TreeGroup([PstreeLogin(login) for login in psutil.users()])
+        logins = []
+        for login in psutil.users():
+            try:
+                logins.append(PstreeLogin(login))
+            except psutil.NoSuchProcess:
+                pass # A stale entry, its process has ended
+        return tree.TreeGroup(logins)
     def __dir__(self):
         return dir(self._children)
     def __getattr__(self, key):
-- 
2.43.0


From aa12404af9d20919ba8ff4a2ab09ff59c7cf75f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:11:25 +0000
Subject: [PATCH 59/60] fix: abbreviate only paths below the home directory

---
 pieshell/resources/default_config.pysh | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pieshell/resources/default_config.pysh b/pieshell/resources/default_config.pysh
index 5050ad6..a0e067f 100644
--- a/pieshell/resources/default_config.pysh
+++ b/pieshell/resources/default_config.pysh
@@ -30,8 +30,8 @@ def parse_git_branch():
 
 # Turn /home/MYUSERNAME/foo/bar into ~/foo/bar
 def compress_user(path):
-    home = os.path.expanduser('~')
-    if path.startswith(home):
+    home = os.path.expanduser('~').rstrip("/")
+    if path == home or path.startswith(home + "/"):
         path =  "~" + path[len(home):]
     return path
 
-- 
2.43.0


From 62e8f6f23bca98be7eb70469c05d2b34bde6e8a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:13:14 +0000
Subject: [PATCH 60/60] fix: show the revision if no branch is checked out

---
 pieshell/resources/default_config.pysh | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/pieshell/resources/default_config.pysh b/pieshell/resources/default_config.pysh
index a0e067f..ef0fa71 100644
--- a/pieshell/resources/default_config.pysh
+++ b/pieshell/resources/default_config.pysh
@@ -12,11 +12,11 @@ bashsource()
 # If we're in a git repo directory: Calculate the current branch and status
 def parse_git_branch():
     try:
-        ref = str(git("symbolic-ref", "HEAD") | Redirect("stderr", "/dev/null")).strip()
-        if ref == "":
-            rev = str((git("rev-parse", "HEAD") | sed("-e", "s+^\(.......\).*$+\1+g")) | Redirect("stderr", "/dev/null")).strip()
-        if ref == "":
-            return ""
+        try:
+            ref = str(git("symbolic-ref", "HEAD") | Redirect("stderr", "/dev/null")).strip()
+        except pieshell.PipelineFailed:
+            # Not on any branch
+            ref = str(git("rev-parse", "HEAD") | Redirect("stderr", "/dev/null")).strip()[:7]
         changes=int(str(git("status", "--porcelain") | wc("-l")))
     except pieshell.PipelineFailed:
         return ""
-- 
2.43.0

