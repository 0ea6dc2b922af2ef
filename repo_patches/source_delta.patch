From 62076b060b8629c831521201eb84679e23e43a18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:18 +0000
Subject: [PATCH 01/73] fix: server disconnects clients that register late and
 never blocks on dead ones

The heart monitor posted one disconnect request per client known at the moment
scheduling ended, with a blocking put. A client registering later was never
told to disconnect, and with a small queue the put blocked for good when the
remaining clients were gone, so they could not even be evicted.
---
 src/hypershell/server.py | 29 +++++++++++++++++++++--------
 1 file changed, 21 insertions(+), 8 deletions(-)

diff --git a/src/hypershell/server.py b/src/hypershell/server.py
index abff879..b53a362 100644
--- a/src/hypershell/server.py
+++ b/src/hypershell/server.py
@@ -454,6 +454,9 @@ class HeartMonitor(StateMachine):
     startup_phase: bool = True  # should not halt until at least one client
     scheduler_done: bool = False  # set by parent thread when scheduling is over
     should_signal: bool = False  # set by parent thread to signal clients
+    signaled: int = 0  # disconnect requests posted and not yet matched by a departed client
+    last_signal: datetime
+    wait_signal: timedelta = timedelta(seconds=2)  # pause if disconnect requests are not being taken
     latest_heartbeat: Heartbeat = None
 
     state = HeartbeatState.START
@@ -464,6 +467,7 @@ class HeartMonitor(StateMachine):
         """Initialize with queue server."""
         self.queue = queue
         self.last_check = datetime.now().astimezone()
+        self.last_signal = self.last_check - self.wait_signal
         self.beats = {}
         self.in_memory = in_memory
         self.no_confirm = no_confirm
@@ -528,6 +532,7 @@ class HeartMonitor(StateMachine):
             log.trace(f'Client disconnected ({hb.host}: {hb.uuid})')
             if hb.uuid in self.beats:
                 self.beats.pop(hb.uuid)
+                self.signaled = max(0, self.signaled - 1)
                 if not self.in_memory:
                     Client.update(hb.uuid, disconnected_at=datetime.now().astimezone())
             return HeartbeatState.SWITCH
@@ -536,14 +541,15 @@ class HeartMonitor(StateMachine):
         """Decide to bail, signal, check, or get another heartbeat."""
         if self.startup_phase:
             return HeartbeatState.NEXT
-        if self.should_signal:
-            return HeartbeatState.SIGNAL
         if not self.beats and self.scheduler_done:
             return HeartbeatState.FINAL
         now = datetime.now().astimezone()
         if (now - self.last_check) > self.wait_check:
             self.last_check = now
             return HeartbeatState.CHECK
+        if (self.should_signal and self.signaled < len(self.beats)
+                and (now - self.last_signal) >= self.wait_signal):
+            return HeartbeatState.SIGNAL
         else:
             return HeartbeatState.NEXT
 
@@ -556,6 +562,7 @@ class HeartMonitor(StateMachine):
             if age > self.evict_after:
                 log.warning(f'Evicting client ({hb.host}: {uuid})')
                 self.beats.pop(uuid)
+                self.signaled = max(0, self.signaled - 1)
                 if not self.in_memory:
                     Client.update(hb.uuid, disconnected_at=datetime.now().astimezone(), evicted=True)
                 if not self.in_memory and not self.no_confirm:
@@ -564,13 +571,19 @@ class HeartMonitor(StateMachine):
         return HeartbeatState.SWITCH
 
     def signal_clients(self: HeartMonitor) -> HeartbeatState:
-        """Send shutdown signal to all connected clients."""
+        """Send shutdown signal to connected clients (including those which register late)."""
         log.debug(f'Signaling clients ({len(self.beats)} connected)')
-        for hb in self.beats.values():
-            self.queue.scheduled.put(None)
-            log.debug(f'Disconnect requested ({hb.host}: {hb.uuid})')
-        self.should_signal = False
-        return HeartbeatState.SWITCH
+        # NOTE: requests are anonymous (any client may take any of them)
+        while self.signaled < len(self.beats):
+            try:
+                # NOTE: do not block indefinitely, clients may be gone and need to be evicted
+                self.queue.scheduled.put(None, timeout=1)
+                self.signaled += 1
+                log.debug('Disconnect requested')
+            except QueueFull:
+                self.last_signal = datetime.now().astimezone()
+                break
+        return HeartbeatState.NEXT
 
     @staticmethod
     def finalize() -> HeartbeatState:
-- 
2.43.0


From ed80713cd2bb9ce0cf189a16786af2a53e352bae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:44 +0000
Subject: [PATCH 02/73] fix: client returns its last unpacked results before it
 stops

The collector's final step pushed the previously packed bundle, which is empty,
so up to bundlesize - 1 finished tasks were dropped when a client left. It also
dropped them if the return queue was full at that moment.
---
 src/hypershell/client.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/hypershell/client.py b/src/hypershell/client.py
index f3406ae..20bd637 100644
--- a/src/hypershell/client.py
+++ b/src/hypershell/client.py
@@ -388,7 +388,9 @@ class ClientCollector(StateMachine):
 
     def finalize(self: ClientCollector) -> CollectorState:
         """Push out any remaining tasks and halt."""
-        self.put_remote()
+        self.pack_bundle()
+        if self.put_remote() is CollectorState.PUT_REMOTE:
+            return CollectorState.FINAL  # NOTE: queue is full, try again
         log.debug('Done (collector)')
         return CollectorState.HALT
 
-- 
2.43.0


From 8dfa3032fd8d0fdaf38d6057ce0e7ebb8ef35eec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:01 +0000
Subject: [PATCH 03/73] fix: submitter flushes buffered tasks after bundlewait
 without further input

The committers only looked at the elapsed time when another task arrived, so
tasks from a slow or idle source stayed buffered indefinitely.
---
 src/hypershell/submit.py | 36 ++++++++++++++++++------------------
 1 file changed, 18 insertions(+), 18 deletions(-)

diff --git a/src/hypershell/submit.py b/src/hypershell/submit.py
index f1e88d0..b363fc6 100644
--- a/src/hypershell/submit.py
+++ b/src/hypershell/submit.py
@@ -230,17 +230,17 @@ class DatabaseCommitter(StateMachine):
         """Get tasks from local queue and check buffer."""
         try:
             task = self.queue.get(timeout=1)
-        except QueueEmpty:
-            return DatabaseCommitterState.GET
-        if task is not None:
-            self.tasks.append(task)
-            since_last = (datetime.now() - self.previous_submit).total_seconds()
-            if len(self.tasks) >= self.bundlesize or since_last >= self.bundlewait:
-                return DatabaseCommitterState.COMMIT
+            if task is not None:
+                self.tasks.append(task)
             else:
-                return DatabaseCommitterState.GET
+                return DatabaseCommitterState.FINAL
+        except QueueEmpty:
+            pass  # NOTE: tasks already buffered may still need to go out
+        since_last = (datetime.now() - self.previous_submit).total_seconds()
+        if len(self.tasks) >= self.bundlesize or since_last >= self.bundlewait:
+            return DatabaseCommitterState.COMMIT
         else:
-            return DatabaseCommitterState.FINAL
+            return DatabaseCommitterState.GET
 
     def commit(self: DatabaseCommitter) -> DatabaseCommitterState:
         """Commit tasks to database."""
@@ -423,17 +423,17 @@ class QueueCommitter(StateMachine):
         """Get tasks from local queue and check buffer."""
         try:
             task = self.local.get(timeout=1)
-        except QueueEmpty:
-            return QueueCommitterState.GET
-        if task is not None:
-            self.tasks.append(task)
-            since_last = (datetime.now() - self.previous_submit).total_seconds()
-            if len(self.tasks) >= self.bundlesize or since_last >= self.bundlewait:
-                return QueueCommitterState.PACK
+            if task is not None:
+                self.tasks.append(task)
             else:
-                return QueueCommitterState.GET
+                return QueueCommitterState.FINAL
+        except QueueEmpty:
+            pass  # NOTE: tasks already buffered may still need to go out
+        since_last = (datetime.now() - self.previous_submit).total_seconds()
+        if len(self.tasks) >= self.bundlesize or since_last >= self.bundlewait:
+            return QueueCommitterState.PACK
         else:
-            return QueueCommitterState.FINAL
+            return QueueCommitterState.GET
 
     def pack_bundle(self: QueueCommitter) -> QueueCommitterState:
         """Pack tasks into bundle for remote queue."""
-- 
2.43.0


From aeb22a2d2d8d1ae1381aa885ed2d5dfac5214e5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:01 +0000
Subject: [PATCH 04/73] fix: direct submission keeps the last tasks when the
 server queue is full

The final push of the queue committer gave up after one attempt, which dropped
the last bundle when the queue stayed full for two seconds.
---
 src/hypershell/submit.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/hypershell/submit.py b/src/hypershell/submit.py
index b363fc6..f4e02fa 100644
--- a/src/hypershell/submit.py
+++ b/src/hypershell/submit.py
@@ -460,7 +460,8 @@ class QueueCommitter(StateMachine):
     def finalize(self) -> QueueCommitterState:
         """Force final commit of tasks and halt."""
         self.pack_bundle()
-        self.commit()
+        if self.commit() is QueueCommitterState.COMMIT:
+            return QueueCommitterState.FINAL  # NOTE: queue is full, try again
         log.debug('Done (committer: no database)')
         return QueueCommitterState.HALT
 
-- 
2.43.0


From 40dbd21a297f3dc8e367569bc54bc53241307dc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:29 +0000
Subject: [PATCH 05/73] fix: client does not fail when the server stops on its
 final heartbeat

The server can take the last client's final heartbeat and shut down before the
reply to that client is sent. The client (or the whole cluster) then exited
with an error although everything was done.
---
 src/hypershell/client.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/hypershell/client.py b/src/hypershell/client.py
index 20bd637..8c29e5d 100644
--- a/src/hypershell/client.py
+++ b/src/hypershell/client.py
@@ -755,8 +755,14 @@ class ClientHeartbeat(StateMachine):
             else:
                 log.trace(f'Heartbeat - final ({heartbeat.host}: {heartbeat.uuid})')
                 return HeartbeatState.FINAL
-        except QueueEmpty:
+        except QueueFull:
             return HeartbeatState.SUBMIT
+        except (EOFError, ConnectionError):
+            if client_state is ClientState.RUNNING:
+                raise
+            # NOTE: the server may shut down as soon as it sees our final heartbeat
+            log.debug('Server disconnected (final heartbeat)')
+            return HeartbeatState.FINAL
 
     def wait(self: ClientHeartbeat) -> HeartbeatState:
         """Wait until next needed heartbeat."""
-- 
2.43.0


From 86d91238eda3a99336870ef566fc90424cba0006 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:30 +0000
Subject: [PATCH 06/73] fix: task text that looks like a timestamp is not
 altered on its way to the client

---
 src/hypershell/data/model.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/hypershell/data/model.py b/src/hypershell/data/model.py
index a5ef391..9cabbd4 100644
--- a/src/hypershell/data/model.py
+++ b/src/hypershell/data/model.py
@@ -126,7 +126,9 @@ class Entity(DeclarativeBase):
     @classmethod
     def from_json(cls: Type[Entity], data: Dict[str, JSONValue]) -> Entity:
         """Build from JSON `text` string."""
-        return cls.from_dict({key: from_json_type(value) for key, value in data.items()})
+        # NOTE: other fields may contain text that merely looks like a timestamp
+        return cls.from_dict({key: from_json_type(value) if cls.columns.get(key) is datetime else value
+                              for key, value in data.items()})
 
     @classmethod
     def unpack(cls: Type[Entity], data: bytes) -> Entity:
-- 
2.43.0


From 6a3c8cb1e422b952a29e882b2bf9eb7bfb09e4f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:30 +0000
Subject: [PATCH 07/73] fix: returned tasks do not overwrite edits and retry
 links made meanwhile

---
 src/hypershell/data/model.py | 11 +++++++++++
 src/hypershell/server.py     |  2 +-
 2 files changed, 12 insertions(+), 1 deletion(-)

diff --git a/src/hypershell/data/model.py b/src/hypershell/data/model.py
index 9cabbd4..8f2ee90 100644
--- a/src/hypershell/data/model.py
+++ b/src/hypershell/data/model.py
@@ -255,6 +255,13 @@ class Task(Entity):
         'tag': dict,
     }
 
+    # Fields that belong to the record in the database, not to the run of the task.
+    # The copy returned by a client is outdated if the record has since been edited or retried.
+    record_columns = (
+        'args', 'submit_id', 'submit_time', 'submit_host',
+        'attempt', 'retried', 'previous_id', 'next_id', 'tag',
+    )
+
     class NotFound(NotFound):
         pass
 
@@ -375,6 +382,10 @@ class Task(Entity):
                             for old_task, new_task in zip(failed_tasks, new_tasks)])
         return tasks
 
+    def run_details(self: Task) -> Dict[str, VT]:
+        """Fields determined by scheduling and running the task."""
+        return {name: value for name, value in self.to_dict().items() if name not in self.record_columns}
+
     @classmethod
     def count_remaining(cls: Type[Task]) -> int:
         """Count of remaining unfinished tasks."""
diff --git a/src/hypershell/server.py b/src/hypershell/server.py
index b53a362..44f265a 100644
--- a/src/hypershell/server.py
+++ b/src/hypershell/server.py
@@ -386,7 +386,7 @@ class Receiver(StateMachine):
     def update_tasks(self: Receiver) -> ReceiverState:
         """Update tasks in database with run details."""
         if not self.in_memory:
-            Task.update_all([task.to_dict() for task in self.tasks])
+            Task.update_all([task.run_details() for task in self.tasks])
         for task in self.tasks:
             log.debug(f'Completed task ({task.id})')
             if task.exit_status != 0:
-- 
2.43.0


From 55e66756163feaa1a77d63d4da63ea664e4096e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:43 +0000
Subject: [PATCH 08/73] fix: server repeats disconnect requests taken by
 clients it did not know

---
 src/hypershell/server.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/hypershell/server.py b/src/hypershell/server.py
index 44f265a..9692a85 100644
--- a/src/hypershell/server.py
+++ b/src/hypershell/server.py
@@ -530,9 +530,10 @@ class HeartMonitor(StateMachine):
             return HeartbeatState.SWITCH
         else:
             log.trace(f'Client disconnected ({hb.host}: {hb.uuid})')
+            # NOTE: a client may take a disconnect request and leave before it was ever registered
+            self.signaled = max(0, self.signaled - 1)
             if hb.uuid in self.beats:
                 self.beats.pop(hb.uuid)
-                self.signaled = max(0, self.signaled - 1)
                 if not self.in_memory:
                     Client.update(hb.uuid, disconnected_at=datetime.now().astimezone())
             return HeartbeatState.SWITCH
@@ -556,13 +557,13 @@ class HeartMonitor(StateMachine):
     def check_clients(self: HeartMonitor) -> HeartbeatState:
         """Check last heartbeat on all clients and evict if necessary."""
         log.debug(f'Checking clients ({len(self.beats)} connected)')
+        self.signaled = 0  # NOTE: request again as clients may have been lost along with their request
         for uuid in list(self.beats):
             hb = self.beats.get(uuid)
             age = self.last_check - hb.time
             if age > self.evict_after:
                 log.warning(f'Evicting client ({hb.host}: {uuid})')
                 self.beats.pop(uuid)
-                self.signaled = max(0, self.signaled - 1)
                 if not self.in_memory:
                     Client.update(hb.uuid, disconnected_at=datetime.now().astimezone(), evicted=True)
                 if not self.in_memory and not self.no_confirm:
-- 
2.43.0


From 5ec91cd1071c5337ee0eaee094c54a2b866f85e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:27 +0000
Subject: [PATCH 09/73] fix: server does not finish while its own input is
 still being submitted

---
 src/hypershell/server.py | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/src/hypershell/server.py b/src/hypershell/server.py
index 9692a85..16338bd 100644
--- a/src/hypershell/server.py
+++ b/src/hypershell/server.py
@@ -125,6 +125,7 @@ class Scheduler(StateMachine):
     states = SchedulerState
 
     startup_phase: bool = True
+    submitter_done: bool = True  # cleared by parent thread while tasks are still being submitted
 
     def __init__(self: Scheduler, queue: QueueServer, bundlesize: int = DEFAULT_BUNDLESIZE,
                  attempts: int = DEFAULT_ATTEMPTS, eager: bool = DEFAULT_EAGER_MODE,
@@ -179,7 +180,8 @@ class Scheduler(StateMachine):
             self.startup_phase = False
             return SchedulerState.PACK
         # An empty database must wait for at least one task
-        elif not self.forever_mode and Task.count() > 0 and Task.count_remaining() == 0 and not self.startup_phase:
+        elif (not self.forever_mode and self.submitter_done and not self.startup_phase
+              and Task.count() > 0 and Task.count_remaining() == 0):
             return SchedulerState.FINAL
         else:
             time.sleep(DEFAULT_QUERY_PAUSE)
@@ -219,6 +221,14 @@ class SchedulerThread(Thread):
         self.machine = Scheduler(queue=queue, bundlesize=bundlesize, attempts=attempts, eager=eager,
                                  forever_mode=forever_mode, restart_mode=restart_mode)
 
+    def signal_submitter_pending(self: SchedulerThread) -> None:
+        """Set flag to tell scheduler that more tasks are coming."""
+        self.machine.submitter_done = False
+
+    def signal_submitter_done(self: SchedulerThread) -> None:
+        """Set flag to tell scheduler that all tasks have been submitted."""
+        self.machine.submitter_done = True
+
     def run_with_exceptions(self: SchedulerThread) -> None:
         """Run machine."""
         self.machine.run()
@@ -737,6 +747,8 @@ class ServerThread(Thread):
             self.submitter = None if not source else SubmitThread(source, bundlesize=bundlesize, bundlewait=bundlewait)
             self.scheduler = SchedulerThread(queue=self.queue, bundlesize=bundlesize, attempts=max_retries + 1,
                                              eager=eager, forever_mode=forever_mode, restart_mode=restart_mode)
+            if self.submitter is not None:
+                self.scheduler.signal_submitter_pending()
         if self.no_confirm:
             self.confirm = None
         else:
@@ -774,6 +786,8 @@ class ServerThread(Thread):
         if self.submitter is not None:
             log.trace('Waiting (submitter)')
             self.submitter.join()
+        if self.scheduler is not None:
+            self.scheduler.signal_submitter_done()
 
     def wait_scheduler(self: ServerThread) -> None:
         """Wait scheduling until complete."""
-- 
2.43.0


From 9b1487f4d04000b4596e8a8d8f0b9435e6582fdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:14 +0000
Subject: [PATCH 10/73] fix: client announces itself before it takes tasks so
 that they can be recovered

---
 src/hypershell/client.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/hypershell/client.py b/src/hypershell/client.py
index 8c29e5d..6a0cd45 100644
--- a/src/hypershell/client.py
+++ b/src/hypershell/client.py
@@ -948,6 +948,7 @@ class ClientThread(Thread):
         log.debug(f'Started ({self.num_tasks} executors)')
         self.wait_start()
         with self.client:
+            self.announce()
             self.start_threads()
             self.wait_scheduler()
             self.wait_executors()
@@ -967,6 +968,10 @@ class ClientThread(Thread):
             log.debug(f'Waiting random ({delay:.1f} seconds)')
             time.sleep(delay)
 
+    def announce(self: ClientThread) -> None:
+        """Send first heartbeat (if we fail after taking tasks the server must know us to recover them)."""
+        self.client.heartbeat.put(Heartbeat.new(state=ClientState.RUNNING).pack())
+
     def start_threads(self: ClientThread) -> None:
         """Start child threads."""
         self.scheduler.start()
-- 
2.43.0


From 6e8f7cf6e3ebf53ddb9543c29d21ea3e2c256428 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:53 +0000
Subject: [PATCH 11/73] fix: server does not finish without retrying a task
 that failed last

---
 src/hypershell/server.py | 21 ++++++++++++++++-----
 1 file changed, 16 insertions(+), 5 deletions(-)

diff --git a/src/hypershell/server.py b/src/hypershell/server.py
index 16338bd..b025836 100644
--- a/src/hypershell/server.py
+++ b/src/hypershell/server.py
@@ -175,18 +175,29 @@ class Scheduler(StateMachine):
         if check_signal() in (SIGUSR1, SIGUSR2):
             log.warning(f'Signal interrupt ({SIGNAL_MAP[check_signal()]})')
             return SchedulerState.FINAL
-        self.tasks = Task.next(limit=self.bundlesize, attempts=self.attempts, eager=self.eager)
+        self.tasks = self.next_tasks()
+        if not self.tasks and self.is_finished():
+            # NOTE: the last result may have been a failure received since our last query
+            self.tasks = self.next_tasks()
+            if not self.tasks:
+                return SchedulerState.FINAL
         if self.tasks:
             self.startup_phase = False
             return SchedulerState.PACK
-        # An empty database must wait for at least one task
-        elif (not self.forever_mode and self.submitter_done and not self.startup_phase
-              and Task.count() > 0 and Task.count_remaining() == 0):
-            return SchedulerState.FINAL
         else:
             time.sleep(DEFAULT_QUERY_PAUSE)
             return SchedulerState.LOAD
 
+    def next_tasks(self: Scheduler) -> List[Task]:
+        """Select next tasks from the database."""
+        return Task.next(limit=self.bundlesize, attempts=self.attempts, eager=self.eager)
+
+    def is_finished(self: Scheduler) -> bool:
+        """Check if all tasks have been submitted and completed."""
+        # An empty database must wait for at least one task
+        return (not self.forever_mode and self.submitter_done and not self.startup_phase
+                and Task.count() > 0 and Task.count_remaining() == 0)
+
     def pack_bundle(self: Scheduler) -> SchedulerState:
         """Pack tasks into bundle (list)."""
         self.bundle = [task.pack() for task in self.tasks]
-- 
2.43.0


From 15d7311e4913516908cee71cfc3a4bade033a6ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:50 +0000
Subject: [PATCH 12/73] fix: a late duplicate result does not replace the one
 already recorded

---
 src/hypershell/data/model.py | 5 +++++
 src/hypershell/server.py     | 3 +++
 2 files changed, 8 insertions(+)

diff --git a/src/hypershell/data/model.py b/src/hypershell/data/model.py
index 8f2ee90..1c673bb 100644
--- a/src/hypershell/data/model.py
+++ b/src/hypershell/data/model.py
@@ -386,6 +386,11 @@ class Task(Entity):
         """Fields determined by scheduling and running the task."""
         return {name: value for name, value in self.to_dict().items() if name not in self.record_columns}
 
+    @classmethod
+    def select_incomplete(cls: Type[Task], ids: List[str]) -> List[str]:
+        """Select those of the given task `ids` not already completed."""
+        return [id for id, in cls.query(cls.id).filter(cls.id.in_(ids)).filter(cls.completion_time.is_(None)).all()]
+
     @classmethod
     def count_remaining(cls: Type[Task]) -> int:
         """Count of remaining unfinished tasks."""
diff --git a/src/hypershell/server.py b/src/hypershell/server.py
index b025836..64886bd 100644
--- a/src/hypershell/server.py
+++ b/src/hypershell/server.py
@@ -407,6 +407,9 @@ class Receiver(StateMachine):
     def update_tasks(self: Receiver) -> ReceiverState:
         """Update tasks in database with run details."""
         if not self.in_memory:
+            # NOTE: a client presumed lost may return tasks another client has completed in the meantime
+            incomplete = Task.select_incomplete([task.id for task in self.tasks])
+            self.tasks = [task for task in self.tasks if task.id in incomplete]
             Task.update_all([task.run_details() for task in self.tasks])
         for task in self.tasks:
             log.debug(f'Completed task ({task.id})')
-- 
2.43.0


From aa343c320b271f17e53f26560e0013bfbad7c826 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:49 +0000
Subject: [PATCH 13/73] fix: retry of a failed task is linked to it in a single
 transaction

---
 src/hypershell/data/model.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/hypershell/data/model.py b/src/hypershell/data/model.py
index 1c673bb..6532f8d 100644
--- a/src/hypershell/data/model.py
+++ b/src/hypershell/data/model.py
@@ -376,10 +376,11 @@ class Task(Entity):
                                  previous_id=task.id,
                                  tag=task.tag)
                          for task in failed_tasks]
-            tasks.extend(new_tasks)
-            cls.add_all(tasks)
-            cls.update_all([{'id': old_task.id, 'retried': True, 'next_id': new_task.id}
-                            for old_task, new_task in zip(failed_tasks, new_tasks)])
+            for old_task, new_task in zip(failed_tasks, new_tasks):
+                old_task.retried = True
+                old_task.next_id = new_task.id
+            # NOTE: both sides of the link belong in a single transaction
+            tasks.extend(cls.add_all(new_tasks))
         return tasks
 
     def run_details(self: Task) -> Dict[str, VT]:
-- 
2.43.0


From 6298b288c656953a5980ec2d712ea1865d7c55ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:30 +0000
Subject: [PATCH 14/73] fix: eager mode takes effect for server and cluster
 when requested

---
 src/hypershell/cluster/__init__.py | 6 +++---
 src/hypershell/server.py           | 2 +-
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/hypershell/cluster/__init__.py b/src/hypershell/cluster/__init__.py
index 6ea63b2..c36c131 100644
--- a/src/hypershell/cluster/__init__.py
+++ b/src/hypershell/cluster/__init__.py
@@ -128,10 +128,10 @@ class ClusterApp(Application):
     delay_start: float = DEFAULT_DELAY
     interface.add_argument('-d', '--delay-start', type=float, default=delay_start)
 
-    eager_mode: bool = False
+    eager_mode: bool = config.server.eager
     max_retries: int = DEFAULT_ATTEMPTS - 1
     interface.add_argument('-r', '--max-retries', type=int, default=max_retries)
-    interface.add_argument('--eager', action='store_true', dest='eager_mode')
+    interface.add_argument('--eager', action='store_true', default=eager_mode, dest='eager_mode')
 
     in_memory: bool = False
     auto_initdb: bool = False
@@ -212,7 +212,7 @@ class ClusterApp(Application):
         launcher = self.launchers.get(self.mode)
         launcher(source=self.source, num_tasks=self.num_tasks, template=self.template,
                  bundlesize=self.bundlesize, bundlewait=self.bundlewait, max_retries=self.max_retries,
-                 in_memory=self.in_memory, no_confirm=self.no_confirm, forever_mode=self.forever_mode,
+                 eager=self.eager_mode, in_memory=self.in_memory, no_confirm=self.no_confirm, forever_mode=self.forever_mode,
                  restart_mode=self.restart_mode, redirect_failures=self.failure_stream,
                  delay_start=self.delay_start, capture=self.capture,
                  client_timeout=self.client_timeout, task_timeout=self.task_timeout,
diff --git a/src/hypershell/server.py b/src/hypershell/server.py
index 64886bd..63634c2 100644
--- a/src/hypershell/server.py
+++ b/src/hypershell/server.py
@@ -1142,7 +1142,7 @@ class ServerApp(Application):
     eager_mode: bool = config.server.eager
     max_retries: int = config.server.attempts - 1
     interface.add_argument('-r', '--max-retries', type=int, default=max_retries)
-    interface.add_argument('--eager', action='store_true')
+    interface.add_argument('--eager', action='store_true', default=eager_mode, dest='eager_mode')
 
     forever_mode: bool = False
     interface.add_argument('--forever', action='store_true', dest='forever_mode')
-- 
2.43.0


From 450b628cad42ef308176eaee469ea476c51b83cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:30 +0000
Subject: [PATCH 15/73] fix: eager mode does not schedule a retry twice in one
 bundle

---
 src/hypershell/data/model.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/hypershell/data/model.py b/src/hypershell/data/model.py
index 6532f8d..a3e4ee4 100644
--- a/src/hypershell/data/model.py
+++ b/src/hypershell/data/model.py
@@ -349,7 +349,10 @@ class Task(Entity):
         """Select next batch of tasks from database preferring previously failed tasks."""
         tasks = cls.__schedule_next_failed_tasks(attempts, limit)
         if len(tasks) < limit:
-            new_tasks = cls.select_new(limit=limit - len(tasks))
+            # NOTE: retries just created are themselves still unscheduled
+            retries = {task.id for task in tasks}
+            new_tasks = [task for task in cls.select_new(limit=limit) if task.id not in retries]
+            new_tasks = new_tasks[:limit - len(tasks)]
             tasks.extend(new_tasks)
             log.trace(f'Selected {len(new_tasks)} new tasks')
         return tasks
-- 
2.43.0


From 9e4766783ec247e8f6122eb47b062bcab9da3b06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:58 +0000
Subject: [PATCH 16/73] fix: clients are not evicted because their clocks
 differ or the server was suspended

---
 src/hypershell/server.py | 24 ++++++++++++++----------
 1 file changed, 14 insertions(+), 10 deletions(-)

diff --git a/src/hypershell/server.py b/src/hypershell/server.py
index 63634c2..e96bfee 100644
--- a/src/hypershell/server.py
+++ b/src/hypershell/server.py
@@ -471,7 +471,8 @@ class HeartMonitor(StateMachine):
     no_confirm: bool
     queue: QueueServer
     beats: Dict[str, Heartbeat]
-    last_check: datetime
+    last_seen: Dict[str, float]  # by local monotonic clock (clients' clocks may differ)
+    last_check: float
     wait_check: timedelta
     evict_after: timedelta
 
@@ -479,7 +480,7 @@ class HeartMonitor(StateMachine):
     scheduler_done: bool = False  # set by parent thread when scheduling is over
     should_signal: bool = False  # set by parent thread to signal clients
     signaled: int = 0  # disconnect requests posted and not yet matched by a departed client
-    last_signal: datetime
+    last_signal: float
     wait_signal: timedelta = timedelta(seconds=2)  # pause if disconnect requests are not being taken
     latest_heartbeat: Heartbeat = None
 
@@ -490,9 +491,10 @@ class HeartMonitor(StateMachine):
                  in_memory: bool = False, no_confirm: bool = False) -> None:
         """Initialize with queue server."""
         self.queue = queue
-        self.last_check = datetime.now().astimezone()
-        self.last_signal = self.last_check - self.wait_signal
+        self.last_check = time.monotonic()
+        self.last_signal = self.last_check - self.wait_signal.total_seconds()
         self.beats = {}
+        self.last_seen = {}
         self.in_memory = in_memory
         self.no_confirm = no_confirm
         if evict_after >= 10:
@@ -551,6 +553,7 @@ class HeartMonitor(StateMachine):
                     except Client.NotFound:
                         Client.add(new_client)
             self.beats[hb.uuid] = hb
+            self.last_seen[hb.uuid] = time.monotonic()
             return HeartbeatState.SWITCH
         else:
             log.trace(f'Client disconnected ({hb.host}: {hb.uuid})')
@@ -568,12 +571,13 @@ class HeartMonitor(StateMachine):
             return HeartbeatState.NEXT
         if not self.beats and self.scheduler_done:
             return HeartbeatState.FINAL
-        now = datetime.now().astimezone()
-        if (now - self.last_check) > self.wait_check:
+        now = time.monotonic()
+        if (now - self.last_check) > self.wait_check.total_seconds() and self.queue.heartbeat.empty():
+            # NOTE: after a pause (e.g., suspended) there may be heartbeats we have not seen yet
             self.last_check = now
             return HeartbeatState.CHECK
         if (self.should_signal and self.signaled < len(self.beats)
-                and (now - self.last_signal) >= self.wait_signal):
+                and (now - self.last_signal) >= self.wait_signal.total_seconds()):
             return HeartbeatState.SIGNAL
         else:
             return HeartbeatState.NEXT
@@ -584,8 +588,8 @@ class HeartMonitor(StateMachine):
         self.signaled = 0  # NOTE: request again as clients may have been lost along with their request
         for uuid in list(self.beats):
             hb = self.beats.get(uuid)
-            age = self.last_check - hb.time
-            if age > self.evict_after:
+            age = self.last_check - self.last_seen.get(uuid)
+            if age > self.evict_after.total_seconds():
                 log.warning(f'Evicting client ({hb.host}: {uuid})')
                 self.beats.pop(uuid)
                 if not self.in_memory:
@@ -606,7 +610,7 @@ class HeartMonitor(StateMachine):
                 self.signaled += 1
                 log.debug('Disconnect requested')
             except QueueFull:
-                self.last_signal = datetime.now().astimezone()
+                self.last_signal = time.monotonic()
                 break
         return HeartbeatState.NEXT
 
-- 
2.43.0


From f8abdfdf1be696b1c097f1f9e036cfcb709ed473 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:58 +0000
Subject: [PATCH 17/73] fix: client keeps sending heartbeats when its clock is
 set back

---
 src/hypershell/client.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/hypershell/client.py b/src/hypershell/client.py
index 6a0cd45..2258367 100644
--- a/src/hypershell/client.py
+++ b/src/hypershell/client.py
@@ -714,7 +714,7 @@ class ClientHeartbeat(StateMachine):
 
     queue: QueueClient
     heartrate: timedelta
-    previous: datetime = None
+    previous: float = None  # monotonic
 
     no_wait: bool = False
     client_state: ClientState = ClientState.RUNNING
@@ -725,7 +725,7 @@ class ClientHeartbeat(StateMachine):
     def __init__(self: ClientHeartbeat, queue: QueueClient, heartrate: int = DEFAULT_HEARTRATE) -> None:
         """Initialize heartbeat machine."""
         self.queue = queue
-        self.previous = datetime.now()
+        self.previous = time.monotonic()
         self.heartrate = timedelta(seconds=heartrate)
 
     @functools.cached_property
@@ -768,8 +768,8 @@ class ClientHeartbeat(StateMachine):
         """Wait until next needed heartbeat."""
         if self.no_wait:
             return HeartbeatState.SUBMIT
-        now = datetime.now()
-        if (now - self.previous) < self.heartrate:
+        now = time.monotonic()
+        if (now - self.previous) < self.heartrate.total_seconds():
             time.sleep(1)
             return HeartbeatState.WAIT
         else:
-- 
2.43.0


From dea382d3f6ffadc902809b9ff8ac0848f04c8f94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:37 +0000
Subject: [PATCH 18/73] fix: evicting a client does not undo a result recorded
 at the same moment

---
 src/hypershell/data/model.py | 56 ++++++++++++++++--------------------
 1 file changed, 25 insertions(+), 31 deletions(-)

diff --git a/src/hypershell/data/model.py b/src/hypershell/data/model.py
index a3e4ee4..aa68fd4 100644
--- a/src/hypershell/data/model.py
+++ b/src/hypershell/data/model.py
@@ -422,28 +422,27 @@ class Task(Entity):
             .all()
         )
 
+    # Fields cleared when a task is returned to its un-scheduled state
+    reverted_fields = {
+        'schedule_time': None,
+        'server_host': None,
+        'server_id': None,
+        'client_host': None,
+        'client_id': None,
+        'command': None,
+        'start_time': None,
+        'completion_time': None,
+        'exit_status': None,
+        'outpath': None,
+        'errpath': None,
+        'waited': None,
+        'duration': None,
+    }
+
     @classmethod
     def revert_all(cls: Type[Task], ids: List[str]) -> None:
         """Revert all tasks identified by `ids`."""
-        cls.update_all([
-            {
-                'id': id,
-                'schedule_time': None,
-                'server_host': None,
-                'server_id': None,
-                'client_host': None,
-                'client_id': None,
-                'command': None,
-                'start_time': None,
-                'completion_time': None,
-                'exit_status': None,
-                'outpath': None,
-                'errpath': None,
-                'waited': None,
-                'duration': None,
-             }
-            for id in ids
-        ])
+        cls.update_all([{'id': id, **cls.reverted_fields} for id in ids])
         for id in ids:
             log.trace(f'Reverted previous task ({id})')
 
@@ -478,23 +477,18 @@ class Task(Entity):
         cls.cancel_all([id, ])
 
     @classmethod
-    def select_orphaned(cls: Type[Task], client_id: str, limit: int) -> List[Task]:
-        """Select tasks that were orphaned from an evicted client."""
-        return (
+    def revert_orphaned(cls: Type[Task], client_id: str) -> None:
+        """Revert orphaned tasks from an evicted client to un-scheduled state."""
+        # NOTE: single statement because tasks may yet be completed between selecting and updating them
+        count = (
             cls.query()
-            .order_by(cls.schedule_time)
             .filter(cls.schedule_time.isnot(None))
             .filter(cls.completion_time.is_(None))
             .filter(cls.client_id == client_id)
-            .limit(limit)
-            .all()
+            .update(cls.reverted_fields, synchronize_session=False)
         )
-
-    @classmethod
-    def revert_orphaned(cls: Type[Task], client_id: str) -> None:
-        """Revert orphaned tasks from an evicted client to un-scheduled state."""
-        while tasks := cls.select_orphaned(client_id, 100):
-            cls.revert_all([task.id for task in tasks])
+        Session.commit()
+        log.trace(f'Reverted {count} orphaned tasks ({client_id})')
 
     @classmethod
     def latest_server(cls: Type[Client]) -> Optional[str]:
-- 
2.43.0


From 0d7675f0a713debe7b0014782005fbcdf88611f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:20 +0000
Subject: [PATCH 19/73] fix: waiting periods of clients and submitters survive
 changes of the clock

---
 src/hypershell/client.py         | 19 +++++++++----------
 src/hypershell/cluster/remote.py | 10 +++++-----
 src/hypershell/submit.py         | 18 +++++++++---------
 3 files changed, 23 insertions(+), 24 deletions(-)

diff --git a/src/hypershell/client.py b/src/hypershell/client.py
index 2258367..386cbdb 100644
--- a/src/hypershell/client.py
+++ b/src/hypershell/client.py
@@ -151,7 +151,7 @@ class ClientScheduler(StateMachine):
     no_confirm: bool
     timeout: Optional[timedelta]
 
-    previous_received: datetime
+    previous_received: float  # monotonic
 
     task: Task
     tasks: List[Task]
@@ -172,7 +172,7 @@ class ClientScheduler(StateMachine):
         self.client_info = None
         self.no_confirm = no_confirm
         self.timeout = None if not timeout else timedelta(seconds=timeout)
-        self.previous_received = datetime.now()
+        self.previous_received = time.monotonic()
 
     @functools.cached_property
     def actions(self: ClientScheduler) -> Dict[SchedulerState, Callable[[], SchedulerState]]:
@@ -200,7 +200,7 @@ class ClientScheduler(StateMachine):
         try:
             self.bundle = self.queue.scheduled.get(timeout=2)
             self.queue.scheduled.task_done()
-            self.previous_received = datetime.now()
+            self.previous_received = time.monotonic()
             if self.bundle is not None:
                 log.debug(f'Received {len(self.bundle)} tasks ({HOSTNAME}: {INSTANCE})')
                 return SchedulerState.UNPACK
@@ -208,7 +208,7 @@ class ClientScheduler(StateMachine):
                 log.debug('Disconnect received')
                 return SchedulerState.FINAL
         except QueueEmpty:
-            waited = datetime.now() - self.previous_received
+            waited = timedelta(seconds=time.monotonic() - self.previous_received)
             if self.timeout is None or waited < self.timeout:
                 return SchedulerState.GET_REMOTE
             else:
@@ -308,7 +308,7 @@ class ClientCollector(StateMachine):
 
     bundlesize: int
     bundlewait: int
-    previous_send: datetime
+    previous_send: float  # monotonic
 
     state = CollectorState.START
     states = CollectorState
@@ -337,7 +337,7 @@ class ClientCollector(StateMachine):
     def start(self: ClientCollector) -> CollectorState:
         """Jump to GET_LOCAL state."""
         log.debug('Started (collector)')
-        self.previous_send = datetime.now()
+        self.previous_send = time.monotonic()
         return CollectorState.GET_LOCAL
 
     def get_local(self: ClientCollector) -> CollectorState:
@@ -355,13 +355,12 @@ class ClientCollector(StateMachine):
 
     def check_bundle(self: ClientCollector) -> CollectorState:
         """Check state of task bundle and proceed with return if necessary."""
-        wait_time = (datetime.now() - self.previous_send)
-        since_last = wait_time.total_seconds()
+        since_last = time.monotonic() - self.previous_send
         if len(self.tasks) >= self.bundlesize:
             log.trace(f'Bundle size reached ({len(self.tasks)} tasks)')
             return CollectorState.PACK_BUNDLE
         elif since_last >= self.bundlewait:
-            log.trace(f'Bundle wait exceeded ({wait_time})')
+            log.trace(f'Bundle wait exceeded ({since_last:.1f}s)')
             return CollectorState.PACK_BUNDLE
         else:
             return CollectorState.GET_LOCAL
@@ -379,7 +378,7 @@ class ClientCollector(StateMachine):
                 log.trace(f'Bundle returned ({len(self.bundle)} tasks)')
                 self.tasks.clear()
                 self.bundle.clear()
-                self.previous_send = datetime.now()
+                self.previous_send = time.monotonic()
             else:
                 log.trace('Bundle empty')
             return CollectorState.GET_LOCAL
diff --git a/src/hypershell/cluster/remote.py b/src/hypershell/cluster/remote.py
index 57dee7f..a3e967d 100644
--- a/src/hypershell/cluster/remote.py
+++ b/src/hypershell/cluster/remote.py
@@ -15,7 +15,7 @@ import time
 import shlex
 import secrets
 from enum import Enum
-from datetime import datetime, timedelta
+from datetime import timedelta
 from functools import cached_property
 from subprocess import Popen
 
@@ -331,7 +331,7 @@ class AutoScaler(StateMachine):
     launcher: List[str]
 
     clients: List[Popen]
-    last_check: datetime
+    last_check: float  # monotonic
     wait_check: timedelta
 
     phase: AutoScalerPhase = AutoScalerPhase.INIT
@@ -355,7 +355,7 @@ class AutoScaler(StateMachine):
         self.min_size = min_size
         self.max_size = max_size
         self.launcher = launcher
-        self.last_check = datetime.now()
+        self.last_check = time.monotonic()
         self.wait_check = timedelta(seconds=period)
         self.clients = []
 
@@ -390,7 +390,7 @@ class AutoScaler(StateMachine):
     def wait(self: AutoScaler) -> AutoScalerState:
         """Wait for specified period of time."""
         if self.phase is AutoScalerPhase.STEADY:
-            waited = datetime.now() - self.last_check
+            waited = timedelta(seconds=time.monotonic() - self.last_check)
             if waited > self.wait_check:
                 return AutoScalerState.CHECK
             else:
@@ -403,7 +403,7 @@ class AutoScaler(StateMachine):
     def check(self: AutoScaler) -> AutoScalerState:
         """Check if we need to scale up."""
         self.clean()
-        self.last_check = datetime.now()
+        self.last_check = time.monotonic()
         if self.policy is AutoScalerPolicy.FIXED:
             return AutoScalerState.CHECK_FIXED
         else:
diff --git a/src/hypershell/submit.py b/src/hypershell/submit.py
index f4e02fa..71decb9 100644
--- a/src/hypershell/submit.py
+++ b/src/hypershell/submit.py
@@ -45,9 +45,9 @@ from types import TracebackType
 # standard libs
 import io
 import sys
+import time
 import functools
 from enum import Enum
-from datetime import datetime
 from queue import Queue, Empty as QueueEmpty, Full as QueueFull
 
 # external libs
@@ -196,7 +196,7 @@ class DatabaseCommitter(StateMachine):
     tasks: List[Task]
     bundlesize: int
     bundlewait: int
-    previous_submit: datetime
+    previous_submit: float  # monotonic
 
     state = DatabaseCommitterState.START
     states = DatabaseCommitterState
@@ -223,7 +223,7 @@ class DatabaseCommitter(StateMachine):
     def start(self: DatabaseCommitter) -> DatabaseCommitterState:
         """Jump to GET state."""
         log.debug('Started (committer: database)')
-        self.previous_submit = datetime.now()
+        self.previous_submit = time.monotonic()
         return DatabaseCommitterState.GET
 
     def get_task(self: DatabaseCommitter) -> DatabaseCommitterState:
@@ -236,7 +236,7 @@ class DatabaseCommitter(StateMachine):
                 return DatabaseCommitterState.FINAL
         except QueueEmpty:
             pass  # NOTE: tasks already buffered may still need to go out
-        since_last = (datetime.now() - self.previous_submit).total_seconds()
+        since_last = time.monotonic() - self.previous_submit
         if len(self.tasks) >= self.bundlesize or since_last >= self.bundlewait:
             return DatabaseCommitterState.COMMIT
         else:
@@ -248,7 +248,7 @@ class DatabaseCommitter(StateMachine):
             Task.add_all(self.tasks)
             log.debug(f'Submitted {len(self.tasks)} tasks')
             self.tasks.clear()
-            self.previous_submit = datetime.now()
+            self.previous_submit = time.monotonic()
         return DatabaseCommitterState.GET
 
     def finalize(self: DatabaseCommitter) -> DatabaseCommitterState:
@@ -388,7 +388,7 @@ class QueueCommitter(StateMachine):
 
     bundlesize: int
     bundlewait: int
-    previous_submit: datetime
+    previous_submit: float  # monotonic
 
     state = QueueCommitterState.START
     states = QueueCommitterState
@@ -416,7 +416,7 @@ class QueueCommitter(StateMachine):
     def start(self: QueueCommitter) -> QueueCommitterState:
         """Jump to GET state."""
         log.debug('Started (committer: no database)')
-        self.previous_submit = datetime.now()
+        self.previous_submit = time.monotonic()
         return QueueCommitterState.GET
 
     def get_task(self: QueueCommitter) -> QueueCommitterState:
@@ -429,7 +429,7 @@ class QueueCommitter(StateMachine):
                 return QueueCommitterState.FINAL
         except QueueEmpty:
             pass  # NOTE: tasks already buffered may still need to go out
-        since_last = (datetime.now() - self.previous_submit).total_seconds()
+        since_last = time.monotonic() - self.previous_submit
         if len(self.tasks) >= self.bundlesize or since_last >= self.bundlewait:
             return QueueCommitterState.PACK
         else:
@@ -452,7 +452,7 @@ class QueueCommitter(StateMachine):
                     log.trace(f'Scheduled task ({task.id})')
                 self.tasks = []
                 self.bundle = []
-                self.previous_submit = datetime.now()
+                self.previous_submit = time.monotonic()
             return QueueCommitterState.GET
         except QueueFull:
             return QueueCommitterState.COMMIT
-- 
2.43.0


From d552c28759846dbec6bd7b625f590a9fa6a8bc9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:20 +0000
Subject: [PATCH 20/73] fix: task walltime limit neither rounds down nor
 depends on changes of the clock

---
 src/hypershell/client.py | 21 +++++++++++----------
 1 file changed, 11 insertions(+), 10 deletions(-)

diff --git a/src/hypershell/client.py b/src/hypershell/client.py
index 386cbdb..aeeda2a 100644
--- a/src/hypershell/client.py
+++ b/src/hypershell/client.py
@@ -465,10 +465,11 @@ class TaskExecutor(StateMachine):
     redirect_errors: IO
     capture: bool
 
+    started: float  # monotonic
     elapsed: timedelta
     timeout: Optional[int]
     signalwait: int
-    stop_requested: Optional[datetime]
+    stop_requested: Optional[float]  # monotonic
     attempted_sigint: bool
     attempted_sigterm: bool
     attempted_sigkill: bool
@@ -563,6 +564,7 @@ class TaskExecutor(StateMachine):
         self.process = Popen(self.task.command, shell=True,
                              stdout=self.redirect_output, stderr=self.redirect_errors,
                              cwd=config.task.cwd, env=env)
+        self.started = time.monotonic()
         log.info(f'Running task ({self.task.id})')
         log.debug(f'Running task ({self.task.id}: {self.task.command})')
         log.trace(f'Running task ({self.task.id}: pid={self.process.pid}, argv={self.task.command})')
@@ -580,10 +582,9 @@ class TaskExecutor(StateMachine):
                 self.redirect_errors.close()
             return TaskState.PUT_LOCAL
         except TimeoutExpired:
+            self.elapsed = timedelta(seconds=time.monotonic() - self.started)
             # Only display time elapsed to the nearest second
-            self.elapsed = timedelta(seconds=round((datetime.now().astimezone() -
-                                                    self.task.start_time).total_seconds()))
-            log.trace(f'Waiting on task ({self.task.id}: {self.elapsed})')
+            log.trace(f'Waiting on task ({self.task.id}: {timedelta(seconds=round(self.elapsed.total_seconds()))})')
             if self.stop_requested:
                 return TaskState.WAIT_SIGNAL
             else:
@@ -593,30 +594,30 @@ class TaskExecutor(StateMachine):
         """Check for timeout or interrupts."""
         if check_signal() == SIGUSR2:  # NOTE: regardless of CLIENT_STANDALONE_MODE
             log.warning(f'Signal interrupt (SIGUSR2: executor-{self.id})')
-            self.stop_requested = datetime.now()
+            self.stop_requested = time.monotonic()
             return TaskState.WAIT_SIGNAL
         elif self.timeout is None or self.elapsed.total_seconds() < self.timeout:
             return TaskState.WAIT_TASK
         else:
-            log.warning(f'Task exceeded walltime limit ({self.elapsed})')
-            self.stop_requested = datetime.now()
+            log.warning(f'Task exceeded walltime limit ({timedelta(seconds=round(self.elapsed.total_seconds()))})')
+            self.stop_requested = time.monotonic()
             return TaskState.WAIT_SIGNAL
 
     def wait_signal(self: TaskExecutor) -> TaskState:
         """Wait on interrupts."""
         if self.attempted_sigint is False:
             return TaskState.STOP_TASK
-        elif (datetime.now() - self.stop_requested).total_seconds() < 1 * self.signalwait:
+        elif (time.monotonic() - self.stop_requested) < 1 * self.signalwait:
             return TaskState.WAIT_TASK
         elif self.attempted_sigterm is False:
             log.error(f'Interrupt ignored ({self.task.id})')
             return TaskState.TERM_TASK
-        elif (datetime.now() - self.stop_requested).total_seconds() < 2 * self.signalwait:
+        elif (time.monotonic() - self.stop_requested) < 2 * self.signalwait:
             return TaskState.WAIT_TASK
         elif self.attempted_sigkill is False:
             log.error(f'Terminate ignored ({self.task.id})')
             return TaskState.KILL_TASK
-        elif (datetime.now() - self.stop_requested).total_seconds() < 3 * self.signalwait:
+        elif (time.monotonic() - self.stop_requested) < 3 * self.signalwait:
             return TaskState.WAIT_TASK
         else:
             log.critical(f'Process ignored SIGKILL ({self.task.id}: {self.process.pid})')
-- 
2.43.0


From 7e25200a67cefcad67cb784c60f03fcaa6d1e9d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:49 +0000
Subject: [PATCH 21/73] fix: executors do not close output files shared with
 others

---
 src/hypershell/client.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/hypershell/client.py b/src/hypershell/client.py
index aeeda2a..1b0ce00 100644
--- a/src/hypershell/client.py
+++ b/src/hypershell/client.py
@@ -656,9 +656,10 @@ class TaskExecutor(StateMachine):
     def finalize(self: TaskExecutor) -> TaskState:
         """Push out any remaining tasks and halt."""
         log.debug(f'Done (executor-{self.id})')
-        if self.redirect_output is not sys.stdout:
+        # NOTE: other files are shared with executors that may still start a task
+        if self.capture and self.redirect_output is not sys.stdout:
             self.redirect_output.close()
-        if self.redirect_errors is not sys.stderr:
+        if self.capture and self.redirect_errors is not sys.stderr:
             self.redirect_errors.close()
         return TaskState.HALT
 
-- 
2.43.0


From 03ca456564b7d03dfe7a5febc7d391a7d993c4df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:23 +0000
Subject: [PATCH 22/73] fix: programs initializing the same database at the
 same moment do not fail

---
 src/hypershell/data/__init__.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/hypershell/data/__init__.py b/src/hypershell/data/__init__.py
index 016d969..13b5b05 100644
--- a/src/hypershell/data/__init__.py
+++ b/src/hypershell/data/__init__.py
@@ -19,6 +19,7 @@ from cmdkit.config import ConfigurationError
 from sqlalchemy import inspect
 from sqlalchemy.orm import close_all_sessions
 from sqlalchemy.exc import OperationalError
+from sqlalchemy.schema import CreateIndex, CreateTable
 
 # internal libs
 from hypershell.core.logging import Logger
@@ -40,7 +41,12 @@ DATABASE_ENABLED: Final[bool] = not in_memory
 
 def initdb() -> None:
     """Initialize database tables."""
-    Entity.metadata.create_all(engine)
+    # NOTE: Programs starting at the same moment must not fail on what another just created
+    with engine.begin() as connection:
+        for table in Entity.metadata.sorted_tables:
+            connection.execute(CreateTable(table, if_not_exists=True))
+            for index in sorted(table.indexes, key=lambda index: index.name):
+                connection.execute(CreateIndex(index, if_not_exists=True))
 
 
 def truncatedb() -> None:
-- 
2.43.0


From 80c16bd18577701cf8f25de4971a1ce4293e2816 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:09 +0000
Subject: [PATCH 23/73] fix: server ends when its own input contains no tasks

---
 src/hypershell/server.py | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/src/hypershell/server.py b/src/hypershell/server.py
index e96bfee..7df38c0 100644
--- a/src/hypershell/server.py
+++ b/src/hypershell/server.py
@@ -125,7 +125,7 @@ class Scheduler(StateMachine):
     states = SchedulerState
 
     startup_phase: bool = True
-    submitter_done: bool = True  # cleared by parent thread while tasks are still being submitted
+    submitter_done: Optional[bool] = None  # set by parent thread if it submits tasks of its own
 
     def __init__(self: Scheduler, queue: QueueServer, bundlesize: int = DEFAULT_BUNDLESIZE,
                  attempts: int = DEFAULT_ATTEMPTS, eager: bool = DEFAULT_EAGER_MODE,
@@ -194,9 +194,13 @@ class Scheduler(StateMachine):
 
     def is_finished(self: Scheduler) -> bool:
         """Check if all tasks have been submitted and completed."""
-        # An empty database must wait for at least one task
-        return (not self.forever_mode and self.submitter_done and not self.startup_phase
-                and Task.count() > 0 and Task.count_remaining() == 0)
+        if self.forever_mode:
+            return False
+        elif self.submitter_done is not None:
+            return self.submitter_done and Task.count_remaining() == 0
+        else:
+            # An empty database must wait for at least one task
+            return not self.startup_phase and Task.count() > 0 and Task.count_remaining() == 0
 
     def pack_bundle(self: Scheduler) -> SchedulerState:
         """Pack tasks into bundle (list)."""
@@ -804,8 +808,8 @@ class ServerThread(Thread):
         if self.submitter is not None:
             log.trace('Waiting (submitter)')
             self.submitter.join()
-        if self.scheduler is not None:
-            self.scheduler.signal_submitter_done()
+            if self.scheduler is not None:
+                self.scheduler.signal_submitter_done()
 
     def wait_scheduler(self: ServerThread) -> None:
         """Wait scheduling until complete."""
-- 
2.43.0


From fee8719acc5a9711491adeea2f1b0cfb661da3aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:57 +0000
Subject: [PATCH 24/73] fix: submission fails instead of waiting for ever when
 its tasks cannot be stored

---
 src/hypershell/submit.py | 29 +++++++++++++++++++++++------
 1 file changed, 23 insertions(+), 6 deletions(-)

diff --git a/src/hypershell/submit.py b/src/hypershell/submit.py
index 71decb9..67c8583 100644
--- a/src/hypershell/submit.py
+++ b/src/hypershell/submit.py
@@ -280,6 +280,21 @@ class DatabaseCommitterThread(Thread):
         super().stop(wait=wait, timeout=timeout)
 
 
+def wait_while_alive(loader: LoaderThread, committer: Thread) -> None:
+    """Wait on `loader` to finish unless `committer` stops first (because it failed)."""
+    while loader.is_alive() and committer.is_alive():
+        loader.join(timeout=1)
+
+
+def put_while_alive(queue: Queue[Optional[Task]], committer: Thread) -> None:
+    """Signal end of tasks to `committer` unless it is already stopped (nobody to drain the queue)."""
+    while committer.is_alive():
+        try:
+            return queue.put(None, timeout=1)
+        except QueueFull:
+            pass
+
+
 class SubmitThread(Thread):
     """
     Submit tasks to database within dedicated thread.
@@ -338,9 +353,10 @@ class SubmitThread(Thread):
         log.debug(f'Started ({self.source_name})')
         self.loader.start()
         self.committer.start()
-        self.loader.join()
-        self.queue.put(None)
+        wait_while_alive(self.loader, self.committer)
+        put_while_alive(self.queue, self.committer)
         self.committer.join()
+        self.loader.join()
         log.debug('Done')
 
     @functools.cached_property
@@ -357,7 +373,7 @@ class SubmitThread(Thread):
         """Stop child threads before main thread."""
         log.warning('Stopping')
         self.loader.stop(wait=wait, timeout=timeout)
-        self.queue.put(None)
+        put_while_alive(self.queue, self.committer)
         self.committer.stop(wait=wait, timeout=timeout)
         super().stop(wait=wait, timeout=timeout)
 
@@ -556,10 +572,11 @@ class LiveSubmitThread(Thread):
             self.loader.start()
             self.committer.start()
             log.trace('Waiting (loader)')
-            self.loader.join()
-            self.local.put(None)
+            wait_while_alive(self.loader, self.committer)
+            put_while_alive(self.local, self.committer)
             log.trace('Waiting (committer)')
             self.committer.join()
+            self.loader.join()
         log.debug('Done')
 
     @functools.cached_property
@@ -576,7 +593,7 @@ class LiveSubmitThread(Thread):
         """Stop child threads before main thread."""
         log.warning('Stopping')
         self.loader.stop(wait=wait, timeout=timeout)
-        self.local.put(None)
+        put_while_alive(self.local, self.committer)
         self.committer.stop(wait=wait, timeout=timeout)
         super().stop(wait=wait, timeout=timeout)
 
-- 
2.43.0


From 5c07f727430d503076fed87f0c3bf8161926872b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:17 +0000
Subject: [PATCH 25/73] fix: heart monitor does not use a database that was
 disabled automatically

---
 src/hypershell/server.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hypershell/server.py b/src/hypershell/server.py
index 7df38c0..cfad542 100644
--- a/src/hypershell/server.py
+++ b/src/hypershell/server.py
@@ -777,7 +777,7 @@ class ServerThread(Thread):
             self.confirm = ConfirmThread(queue=self.queue, in_memory=self.in_memory)
         self.receiver = ReceiverThread(queue=self.queue, in_memory=self.in_memory, redirect_failures=redirect_failures)
         self.heartmonitor = HeartMonitorThread(queue=self.queue, evict_after=evict_after,
-                                               in_memory=in_memory, no_confirm=no_confirm)
+                                               in_memory=self.in_memory, no_confirm=no_confirm)
         super().__init__(name='hypershell-server')
 
     def run_with_exceptions(self: ServerThread) -> None:
-- 
2.43.0


From 62323426e3fba3e194fdd2c6691e0a2fd7bdd87b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:17 +0000
Subject: [PATCH 26/73] fix: server does not require a database when it is
 disabled

---
 src/hypershell/server.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/hypershell/server.py b/src/hypershell/server.py
index cfad542..a907031 100644
--- a/src/hypershell/server.py
+++ b/src/hypershell/server.py
@@ -1246,7 +1246,8 @@ class ServerApp(Application):
     def __enter__(self: ServerApp) -> ServerApp:
         """Ensure context and database ready."""
         self.check_args()
-        ensuredb()
+        if not self.in_memory:
+            ensuredb(auto_init=self.auto_initdb)
         return self
 
     def __exit__(self: ServerApp,
-- 
2.43.0


From 7c9653ace7d670e60cdd385b887507d6cf0b8efd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:17 +0000
Subject: [PATCH 27/73] fix: requests to stop do not overtake tasks and results
 that are still in transit

---
 src/hypershell/core/queue.py |  8 ++++++++
 src/hypershell/server.py     | 11 ++++++++++-
 2 files changed, 18 insertions(+), 1 deletion(-)

diff --git a/src/hypershell/core/queue.py b/src/hypershell/core/queue.py
index 06824f1..6cd3bf6 100644
--- a/src/hypershell/core/queue.py
+++ b/src/hypershell/core/queue.py
@@ -95,6 +95,14 @@ class QueueServer(QueueInterface):
         self.register('_get_confirmed', callable=self._get_confirmed)
         super().start()
 
+    @staticmethod
+    def pending(queue: JoinableQueue) -> bool:
+        """Check if anything was put on `queue` that was not yet taken (even if still in transit)."""
+        try:
+            return queue.qsize() > 0
+        except NotImplementedError:  # NOTE: not available on macOS
+            return not queue.empty()
+
     def _get_scheduled(self: QueueServer) -> JoinableQueue[Optional[List[bytes]]]:
         return self.scheduled
 
diff --git a/src/hypershell/server.py b/src/hypershell/server.py
index a907031..01428cb 100644
--- a/src/hypershell/server.py
+++ b/src/hypershell/server.py
@@ -366,6 +366,7 @@ class Receiver(StateMachine):
 
     in_memory: bool
     redirect_failures: IO
+    should_stop: bool = False  # set when there is nothing more to come
 
     state = ReceiverState.START
     states = ReceiverState
@@ -398,9 +399,15 @@ class Receiver(StateMachine):
         try:
             self.bundle = self.queue.completed.get(timeout=2)
             self.queue.completed.task_done()
-            return ReceiverState.UNPACK if self.bundle else ReceiverState.FINAL
+            if self.bundle:
+                return ReceiverState.UNPACK
+            self.should_stop = True
         except QueueEmpty:
             log.trace('No completed tasks returned - waiting')
+        # NOTE: bundles returned by clients may still be in transit when we are asked to stop
+        if self.should_stop and not self.queue.pending(self.queue.completed):
+            return ReceiverState.FINAL
+        else:
             return ReceiverState.UNLOAD
 
     def unpack_bundle(self: Receiver) -> ReceiverState:
@@ -605,6 +612,8 @@ class HeartMonitor(StateMachine):
 
     def signal_clients(self: HeartMonitor) -> HeartbeatState:
         """Send shutdown signal to connected clients (including those which register late)."""
+        if self.in_memory and self.queue.pending(self.queue.scheduled):
+            return HeartbeatState.NEXT  # NOTE: must not overtake tasks (submitted by way of the queue client)
         log.debug(f'Signaling clients ({len(self.beats)} connected)')
         # NOTE: requests are anonymous (any client may take any of them)
         while self.signaled < len(self.beats):
-- 
2.43.0


From 58b3c47c270b31b915b3f6609d298b9df1e9786d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:51 +0000
Subject: [PATCH 28/73] fix: exported environment variables are passed to tasks
 unaltered

---
 src/hypershell/core/config.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/hypershell/core/config.py b/src/hypershell/core/config.py
index 8e5f855..fa6224e 100644
--- a/src/hypershell/core/config.py
+++ b/src/hypershell/core/config.py
@@ -351,7 +351,14 @@ def __collapse_lists(ns: Namespace) -> Namespace:
     return result
 
 
+EXPORT_PREFIX = 'HYPERSHELL_EXPORT_'
+
+
 @functools.cache
 def load_task_env() -> Environ:
     """Export environment defined in `config.export`."""
-    return __collapse_lists(config.export).to_env().flatten()
+    exports = __collapse_lists(config.export).to_env().flatten()
+    # NOTE: the namespace alters values (e.g., '1.10' is not 1.1) and cannot have both 'FOO' and 'FOO_BAR'
+    exports.update({name[len(EXPORT_PREFIX):].upper(): value for name, value in os.environ.items()
+                    if name.startswith(EXPORT_PREFIX) and name != EXPORT_PREFIX})
+    return exports
-- 
2.43.0


From 8747aa64007881d0d48388c5d7e0dc53ff4a3213 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:51 +0000
Subject: [PATCH 29/73] fix: tasks do not inherit tags of another task the
 client runs in

---
 src/hypershell/client.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/hypershell/client.py b/src/hypershell/client.py
index 1b0ce00..e437aef 100644
--- a/src/hypershell/client.py
+++ b/src/hypershell/client.py
@@ -426,8 +426,10 @@ def task_env(task: Task) -> Dict[str, str]:
         tag_data = Namespace(task_data.pop('tag')).to_env().flatten(prefix='TASK_TAG')
     except Exception:  # noqa: any exception
         tag_data = {}
+    # NOTE: the client itself may be running within another task
+    environ = {name: value for name, value in os.environ.items() if not name.startswith('TASK_TAG_')}
     return {
-        **os.environ,
+        **environ,
         **load_task_env(),
         **Namespace.from_dict(task_data).to_env().flatten(prefix='TASK'),
         **tag_data,
-- 
2.43.0


From 4e4937ca286111595c91f1d4ca46bf88d164aa79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:07:13 +0000
Subject: [PATCH 30/73] fix: a task that cannot be started is reported failed
 and does not stop its executor

---
 src/hypershell/client.py | 36 ++++++++++++++++++++++--------------
 1 file changed, 22 insertions(+), 14 deletions(-)

diff --git a/src/hypershell/client.py b/src/hypershell/client.py
index e437aef..3dbc1b2 100644
--- a/src/hypershell/client.py
+++ b/src/hypershell/client.py
@@ -553,19 +553,26 @@ class TaskExecutor(StateMachine):
         # NOTE: enforce tz aware submit_time (in case of sqlite backend)
         self.task.start_time = datetime.now().astimezone()
         self.task.waited = int((self.task.start_time - self.task.submit_time.astimezone()).total_seconds())
-        env = task_env(self.task)
-        if self.capture:
-            self.task.outpath = env['TASK_OUTPATH']
-            self.task.errpath = env['TASK_ERRPATH']
-            self.redirect_output = open(self.task.outpath, mode='w')
-            self.redirect_errors = open(self.task.errpath, mode='w')
         self.stop_requested = None
         self.attempted_sigint = False
         self.attempted_sigterm = False
         self.attempted_sigkill = False
-        self.process = Popen(self.task.command, shell=True,
-                             stdout=self.redirect_output, stderr=self.redirect_errors,
-                             cwd=config.task.cwd, env=env)
+        try:
+            env = task_env(self.task)
+            if self.capture:
+                self.task.outpath = env['TASK_OUTPATH']
+                self.task.errpath = env['TASK_ERRPATH']
+                self.redirect_output = open(self.task.outpath, mode='w')
+                self.redirect_errors = open(self.task.errpath, mode='w')
+            self.process = Popen(self.task.command, shell=True,
+                                 stdout=self.redirect_output, stderr=self.redirect_errors,
+                                 cwd=config.task.cwd, env=env)
+        except Exception as error:
+            log.error(f'Could not start task ({self.task.id}): {error.__class__.__name__}: {error}')
+            self.close_captured()
+            self.task.completion_time = datetime.now().astimezone()
+            self.task.exit_status = -1
+            return TaskState.PUT_LOCAL
         self.started = time.monotonic()
         log.info(f'Running task ({self.task.id})')
         log.debug(f'Running task ({self.task.id}: {self.task.command})')
@@ -579,9 +586,7 @@ class TaskExecutor(StateMachine):
             self.task.completion_time = datetime.now().astimezone()
             self.task.duration = int((self.task.completion_time - self.task.start_time).total_seconds())
             log.debug(f'Completed task ({self.task.id})')
-            if self.capture:
-                self.redirect_output.close()
-                self.redirect_errors.close()
+            self.close_captured()
             return TaskState.PUT_LOCAL
         except TimeoutExpired:
             self.elapsed = timedelta(seconds=time.monotonic() - self.started)
@@ -658,12 +663,15 @@ class TaskExecutor(StateMachine):
     def finalize(self: TaskExecutor) -> TaskState:
         """Push out any remaining tasks and halt."""
         log.debug(f'Done (executor-{self.id})')
-        # NOTE: other files are shared with executors that may still start a task
+        self.close_captured()
+        return TaskState.HALT
+
+    def close_captured(self: TaskExecutor) -> None:
+        """Close files of current task (others are shared with executors that may still start a task)."""
         if self.capture and self.redirect_output is not sys.stdout:
             self.redirect_output.close()
         if self.capture and self.redirect_errors is not sys.stderr:
             self.redirect_errors.close()
-        return TaskState.HALT
 
 
 class TaskThread(Thread):
-- 
2.43.0


From 4956cbcbb2635f0ab3f2ee804939e5208e08cf31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:45 +0000
Subject: [PATCH 31/73] fix: updates of several fields and tags apply to the
 selected tasks as one change

---
 src/hypershell/task.py | 124 +++++++++++++----------------------------
 1 file changed, 38 insertions(+), 86 deletions(-)

diff --git a/src/hypershell/task.py b/src/hypershell/task.py
index a8c738d..adc9df9 100644
--- a/src/hypershell/task.py
+++ b/src/hypershell/task.py
@@ -28,11 +28,12 @@ from rich.syntax import Syntax
 from rich.table import Table
 from cmdkit.app import Application, ApplicationGroup, exit_status
 from cmdkit.cli import Interface, ArgumentError
-from sqlalchemy import Column, type_coerce, JSON, text, func, distinct
+from sqlalchemy import Column, Text, type_coerce, JSON, cast, text, func, distinct
+from sqlalchemy.dialects.postgresql import ARRAY, JSONB
 from sqlalchemy.exc import StatementError
 from sqlalchemy.orm import Query
 from sqlalchemy.orm.exc import StaleDataError
-from sqlalchemy.sql.elements import BinaryExpression
+from sqlalchemy.sql.elements import BinaryExpression, ColumnElement
 
 # internal libs
 from hypershell.core.platform import default_path
@@ -861,8 +862,7 @@ class TaskUpdateApp(Application, SearchableMixin):
                 return
 
         if self.delete_mode:
-            query.delete()
-            Session.commit()
+            self.apply(lambda selected: selected.delete(synchronize_session=False))
             log.info(f'Deleted {count} tasks')
             return
 
@@ -877,83 +877,42 @@ class TaskUpdateApp(Application, SearchableMixin):
             field_updates['exit_status'] = CANCEL_STATUS
 
         if self.revert_mode:
-            field_updates['schedule_time'] = None
-            field_updates['server_host'] = None
-            field_updates['server_id'] = None
-            field_updates['client_host'] = None
-            field_updates['client_id'] = None
-            field_updates['command'] = None
-            field_updates['start_time'] = None
-            field_updates['completion_time'] = None
-            field_updates['exit_status'] = None
-            field_updates['outpath'] = None
-            field_updates['errpath'] = None
-            field_updates['waited'] = None
-            field_updates['duration'] = None
-
-        if self.limit is not None:
-            # We cannot apply an UPDATE query with a LIMIT field
-            # The alternative is to pull the data and batch the update
-            # While terribly inefficient at least it has a LIMIT
-            if field_updates:
-                tasks = query.all()
-                tasks_it = iter(tasks)
-                while batch := tuple(itertools.islice(tasks_it, 100)):
-                    Task.update_all([{'id': task.id, **field_updates} for task in batch])
-            if tag_updates:
-                tasks = query.all()
-                tasks_it = iter(tasks)
-                while batch := tuple(itertools.islice(tasks_it, 100)):
-                    Task.update_all([{'id': task.id, 'tag': {**task.tag, **tag_updates}} for task in batch])
-            if self.remove_tag:
-                tasks = query.all()
-                tasks_it = iter(tasks)
-                while batch := tuple(itertools.islice(tasks_it, 100)):
-                    Task.update_all([
-                        {'id': task.id, 'tag': self.drop_items(task.tag, *self.remove_tag)}
-                        for task in batch
-                    ])
-            log.info(f'Updated {count} tasks')
-            return
-
-        if field_updates:
-            query.update(field_updates)
-
-        if tag_updates:
-            if config.database.provider == 'sqlite':
-                tag_changes = {}
-                change_expr = 'json_set(task.tag'
-                for i, (k, v) in enumerate(tag_updates.items()):
-                    tag_changes[f'k{i}'] = f'$.{k}'
-                    tag_changes[f'v{i}'] = v
-                    change_expr += f', :k{i}, :v{i}'
-                change_expr += ')'
-                query.update({Task.tag: text(change_expr).params(tag_changes)})
-            else:
-                # We cannot stack inserts with Postgres
-                # Instead we do them with individual update queries
-                for i, (k, v) in enumerate(tag_updates.items()):
-                    change_expr = 'jsonb_set(task.tag, :key, :value)'
-                    params = {'key': '{' + k + '}', 'value': json.dumps(to_json_type(v))}
-                    query.update({Task.tag: text(change_expr).params(**params)})
-
-        if self.remove_tag:
-            if config.database.provider == 'sqlite':
-                tag_changes = {}
-                change_expr = 'json_remove(task.tag'
-                for i, name in enumerate(self.remove_tag):
-                    tag_changes[f'k{i}'] = f'$.{name}'
-                    change_expr += f', :k{i}'
-                change_expr += ')'
-                query.update({Task.tag: text(change_expr).params(tag_changes)})
-            else:
-                # We cannot stack subtractions with Postgres
-                # Instead we do them with individual update queries
-                for name in self.remove_tag:
-                    query.update({Task.tag: text('task.tag - :name').params(name=name)})
+            field_updates.update(Task.reverted_fields)
+
+        changes = {getattr(Task, name): value for name, value in field_updates.items()}
+        if tag_updates or self.remove_tag:
+            changes[Task.tag] = self.build_tag_expression(tag_updates)
+        if changes:
+            # NOTE: single statement because changing one thing might alter which tasks match
+            self.apply(lambda selected: selected.update(changes, synchronize_session=False))
+        log.info(f'Updated {count} tasks')
 
+    def apply(self: TaskUpdateApp, action: Callable[[Query], Any]) -> None:
+        """Apply update or delete operation to selected tasks in a single transaction."""
+        if self.limit is None:
+            action(self.build_query())
+        else:
+            # NOTE: there is no LIMIT nor ORDER BY for these operations
+            ids = iter([task.id for task in self.build_query()])
+            self.limit, self.order_by = None, None
+            while batch := tuple(itertools.islice(ids, 100)):
+                action(self.build_query().filter(Task.id.in_(batch)))
         Session.commit()
-        log.info(f'Updated {count} tasks')
+
+    def build_tag_expression(self: TaskUpdateApp, tag_updates: Dict[str, JSONValue]) -> ColumnElement:
+        """Build database expression to compute new tag data."""
+        expression = Task.tag
+        if config.database.provider == 'sqlite':
+            for name, value in tag_updates.items():
+                expression = func.json_set(expression, f'$."{name}"', func.json(json.dumps(value)))
+            for name in self.remove_tag or []:
+                expression = func.json_remove(expression, f'$."{name}"')
+        else:
+            for name, value in tag_updates.items():
+                expression = func.jsonb_set(expression, cast([name, ], ARRAY(Text)), cast(value, JSONB))
+            for name in self.remove_tag or []:
+                expression = expression.op('-')(cast(name, Text))
+        return expression
 
     def process_arguments(self: TaskUpdateApp) -> Tuple[Dict[str, Any], Dict[str, Any]]:
         """Process positional arguments and build dictionaries for changes."""
@@ -992,13 +951,6 @@ class TaskUpdateApp(Application, SearchableMixin):
 
         return field_updates, tag_updates
 
-    @staticmethod
-    def drop_items(d: dict, *keys: str) -> dict:
-        """Drop items by key if they exist."""
-        for key in keys:
-            d.pop(key, None)
-        return d
-
 
 TASK_PROGRAM = 'hs task'
 TASK_USAGE = f"""\
-- 
2.43.0


From 136c168a75acb8dfd5b218ba9958278d473f7136 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:01 +0000
Subject: [PATCH 32/73] fix: search with several tag names requires all of them

---
 src/hypershell/task.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hypershell/task.py b/src/hypershell/task.py
index adc9df9..310a528 100644
--- a/src/hypershell/task.py
+++ b/src/hypershell/task.py
@@ -433,7 +433,7 @@ class SearchableMixin:
             if config.database.provider == 'sqlite':
                 # NOTE: sqlalchemy adds `json_quote(json_extract(task.tag, ?)) is not null`
                 # and cannot find a way to exclude `json_quote`, so we do it ourselves
-                query = query.filter(text('json_extract(task.tag, :key) is not null')).params(key=f'$."{name}"')
+                query = query.filter(func.json_extract(Task.tag, f'$."{name}"').isnot(None))
             else:
                 query = query.filter(Task.tag[name].isnot(None))
         for name, value in tags_with_value.items():
-- 
2.43.0


From 73cb62b528beacdd5bfaeabef862dc5d9d1b2bbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:58 +0000
Subject: [PATCH 33/73] fix: cancelled tasks are neither executed nor retried
 and the server does not wait for them

---
 src/hypershell/data/model.py | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/hypershell/data/model.py b/src/hypershell/data/model.py
index aa68fd4..5d79088 100644
--- a/src/hypershell/data/model.py
+++ b/src/hypershell/data/model.py
@@ -324,6 +324,7 @@ class Task(Entity):
         """Select failed tasks for retry up to some `limit` under given number of `attempts`."""
         return (cls.query()
                 .order_by(cls.completion_time)
+                .filter(cls.completion_time.isnot(None))  # NOTE: cancelled tasks were never completed
                 .filter(cls.exit_status.isnot(None))
                 .filter(cls.exit_status != 0)
                 .filter(cls.attempt < attempts)
@@ -397,8 +398,13 @@ class Task(Entity):
 
     @classmethod
     def count_remaining(cls: Type[Task]) -> int:
-        """Count of remaining unfinished tasks."""
-        return cls.query().filter(cls.completion_time.is_(None)).count()
+        """Count of remaining unfinished tasks (not including cancelled tasks)."""
+        return (
+            cls.query()
+            .filter(cls.completion_time.is_(None))
+            .filter(cls.exit_status.is_(None))
+            .count()
+        )
 
     @classmethod
     def count_interrupted(cls: Type[Task]) -> int:
@@ -407,6 +413,7 @@ class Task(Entity):
             cls.query()
             .filter(cls.schedule_time.isnot(None))
             .filter(cls.completion_time.is_(None))
+            .filter(cls.exit_status.is_(None))
             .count()
         )
 
@@ -418,6 +425,7 @@ class Task(Entity):
             .order_by(cls.schedule_time)
             .filter(cls.schedule_time.isnot(None))
             .filter(cls.completion_time.is_(None))
+            .filter(cls.exit_status.is_(None))
             .limit(limit)
             .all()
         )
@@ -484,6 +492,7 @@ class Task(Entity):
             cls.query()
             .filter(cls.schedule_time.isnot(None))
             .filter(cls.completion_time.is_(None))
+            .filter(cls.exit_status.is_(None))
             .filter(cls.client_id == client_id)
             .update(cls.reverted_fields, synchronize_session=False)
         )
-- 
2.43.0


From 264c0a8bc3f8fb05ad6d8bc01b80ff0d600f3e8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:20:09 +0000
Subject: [PATCH 34/73] fix: tasks cancelled, edited, or removed while the
 server schedules or updates them stay that way

---
 src/hypershell/data/model.py | 69 ++++++++++++++++++++++++++++--------
 src/hypershell/server.py     |  4 +--
 2 files changed, 56 insertions(+), 17 deletions(-)

diff --git a/src/hypershell/data/model.py b/src/hypershell/data/model.py
index 5d79088..6eea225 100644
--- a/src/hypershell/data/model.py
+++ b/src/hypershell/data/model.py
@@ -15,7 +15,7 @@ from uuid import uuid4 as gen_uuid
 from datetime import datetime
 
 # external libs
-from sqlalchemy import Column, Index, func
+from sqlalchemy import Column, Index, bindparam, func
 from sqlalchemy.orm import Query, DeclarativeBase, Mapped, mapped_column
 from sqlalchemy.orm.exc import NoResultFound, MultipleResultsFound
 from sqlalchemy.ext.declarative import declared_attr
@@ -177,6 +177,19 @@ class Entity(DeclarativeBase):
             Session.commit()  # NOTE: why is this necessary?
             log.trace(f'Updated {len(changes)} {cls.__tablename__}s')
 
+    @classmethod
+    def update_existing(cls: Type[Entity], changes: List[Dict[str, Any]]) -> None:
+        """Bulk update (same fields for all), skips records that no longer exist."""
+        if changes:
+            table = cls.__table__
+            Session.execute(
+                table.update().where(table.c.id == bindparam('record_id')),
+                [{'record_id': change['id'], **{name: value for name, value in change.items() if name != 'id'}}
+                 for change in changes]
+            )
+            Session.commit()
+            log.trace(f'Updated {len(changes)} {cls.__tablename__}s')
+
     @classmethod
     def update(cls: Type[Entity], id: str, **changes) -> None:
         """Update by `id` with `changes`."""
@@ -338,12 +351,31 @@ class Task(Entity):
             tasks = cls.__next_eager(attempts=attempts, limit=limit)
         else:
             tasks = cls.__next_not_eager(attempts, limit)
-        for task in tasks:
-            task.server_id = INSTANCE
-            task.server_host = HOSTNAME
-            task.schedule_time = datetime.now().astimezone()
+        return cls.schedule_all([task.id for task in tasks])
+
+    @classmethod
+    def schedule_all(cls: Type[Task], ids: List[str]) -> List[Task]:
+        """Schedule all tasks identified by `ids` that are not already."""
+        if not ids:
+            return []
+        # NOTE: tasks may have been cancelled, removed, or completed since they were selected
+        (
+            cls.query()
+            .filter(cls.id.in_(ids))
+            .filter(cls.schedule_time.is_(None))
+            .update({'server_id': INSTANCE, 'server_host': HOSTNAME,
+                     'schedule_time': datetime.now().astimezone()}, synchronize_session=False)
+        )
         Session.commit()
-        return tasks
+        scheduled = {
+            task.id: task for task in
+            cls.query(caching=False)
+            .filter(cls.id.in_(ids))
+            .filter(cls.server_id == INSTANCE)
+            .filter(cls.exit_status.is_(None))
+            .all()
+        }
+        return [scheduled[id] for id in ids if id in scheduled]
 
     @classmethod
     def __next_eager(cls: Type[Task], attempts: int, limit: int) -> List[Task]:
@@ -375,16 +407,23 @@ class Task(Entity):
         failed_tasks = cls.select_failed(attempts=attempts, limit=limit)
         if failed_tasks:
             log.trace(f'Selected {len(failed_tasks)} previously failed tasks')
-            new_tasks = [cls.new(args=task.args,
-                                 attempt=task.attempt + 1,
-                                 previous_id=task.id,
-                                 tag=task.tag)
-                         for task in failed_tasks]
-            for old_task, new_task in zip(failed_tasks, new_tasks):
-                old_task.retried = True
-                old_task.next_id = new_task.id
+            for task in failed_tasks:
+                new_task = cls.new(args=task.args,
+                                   attempt=task.attempt + 1,
+                                   previous_id=task.id,
+                                   tag=task.tag)
+                # NOTE: task may have been removed or reverted since it was selected
+                if (
+                    cls.query()
+                    .filter(cls.id == task.id)
+                    .filter(cls.completion_time.isnot(None))
+                    .filter(cls.exit_status != 0)
+                    .filter(cls.retried.is_(False))
+                    .update({'retried': True, 'next_id': new_task.id}, synchronize_session=False)
+                ):
+                    tasks.append(new_task)
             # NOTE: both sides of the link belong in a single transaction
-            tasks.extend(cls.add_all(new_tasks))
+            cls.add_all(tasks)
         return tasks
 
     def run_details(self: Task) -> Dict[str, VT]:
diff --git a/src/hypershell/server.py b/src/hypershell/server.py
index 01428cb..515f847 100644
--- a/src/hypershell/server.py
+++ b/src/hypershell/server.py
@@ -318,7 +318,7 @@ class Confirm(StateMachine):
     def update_info(self: Confirm) -> ConfirmState:
         """Update client info in database for confirmed task bundle."""
         if not self.in_memory:
-            Task.update_all(self.client_info.transpose())
+            Task.update_existing(self.client_info.transpose())
         return ConfirmState.UNLOAD
 
     @staticmethod
@@ -421,7 +421,7 @@ class Receiver(StateMachine):
             # NOTE: a client presumed lost may return tasks another client has completed in the meantime
             incomplete = Task.select_incomplete([task.id for task in self.tasks])
             self.tasks = [task for task in self.tasks if task.id in incomplete]
-            Task.update_all([task.run_details() for task in self.tasks])
+            Task.update_existing([task.run_details() for task in self.tasks])
         for task in self.tasks:
             log.debug(f'Completed task ({task.id})')
             if task.exit_status != 0:
-- 
2.43.0


From 7b6a4fa2f2e567a97ede15912450411bfca4ca4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:52:03 +0000
Subject: [PATCH 35/73] fix: autoscaler estimates task pressure with SQLite and
 for clients with no measurable rate

---
 src/hypershell/data/model.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/hypershell/data/model.py b/src/hypershell/data/model.py
index 6eea225..6849030 100644
--- a/src/hypershell/data/model.py
+++ b/src/hypershell/data/model.py
@@ -556,18 +556,22 @@ class Task(Entity):
     def effective_rate_by_client(cls: Type[Task]) -> Optional[Dict[str, float]]:
         """Effective completion rate in tasks per second by client."""
         if server_id := cls.latest_server():
-            return {id: 1 / dt.total_seconds() for id, dt in (
+            # NOTE: date arithmetic within the query is not portable (e.g., SQLite stores text)
+            return {id: count / (end - start).total_seconds() for id, start, end, count in (
                 cls.query(
                     cls.client_id,
-                    (func.max(cls.completion_time) - func.min(cls.start_time)) / func.count(cls.id)
+                    func.min(cls.start_time),
+                    func.max(cls.completion_time),
+                    func.count(cls.id)
                 )
                 .join(Client, Task.client_id == Client.id)
                 .filter(cls.server_id == server_id)
+                .filter(cls.start_time.isnot(None))
                 .filter(cls.completion_time.isnot(None))
                 .filter(Client.disconnected_at == None)  # noqa: comparison to None
                 .group_by(cls.client_id)
                 .all()
-            )}
+            ) if end > start}
         else:
             return None
 
-- 
2.43.0


From 0c153e26e8aab3bed5eb2af99ab997c087717c05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:52:03 +0000
Subject: [PATCH 36/73] fix: dynamic autoscaler launches a client when none is
 running and tasks remain

---
 src/hypershell/cluster/remote.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/hypershell/cluster/remote.py b/src/hypershell/cluster/remote.py
index a3e967d..c3b27d6 100644
--- a/src/hypershell/cluster/remote.py
+++ b/src/hypershell/cluster/remote.py
@@ -438,6 +438,9 @@ class AutoScaler(StateMachine):
         if launched_size < self.min_size:
             log.debug(f'Autoscale min-size reached ({launched_size} < {self.min_size})')
             return AutoScalerState.SCALE
+        if launched_size == 0 and task_count > 0:
+            log.debug(f'Autoscale adding client ({task_count} tasks remaining)')
+            return AutoScalerState.SCALE
         if pressure is not None:
             if pressure > 1:
                 log.debug(f'Autoscale pressure high ({pressure:.2f})')
@@ -450,12 +453,9 @@ class AutoScaler(StateMachine):
                 log.debug(f'Autoscale pressure low ({pressure:.2f})')
                 return AutoScalerState.WAIT
         else:
-            if launched_size == 0 and task_count == 0:
+            if launched_size == 0:
                 log.debug(f'Autoscale pause (no clients and no tasks)')
                 return AutoScalerState.WAIT
-            if launched_size == 0 and task_count > 0:
-                log.debug(f'Autoscale adding client ({task_count} tasks remaining)')
-                return AutoScalerState.SCALE
             else:
                 log.debug('Autoscale pause (waiting on clients to complete initial tasks)')
                 return AutoScalerState.WAIT
-- 
2.43.0


From 8ccb5095c381ba67229d871d3854c3f323f84517 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:52:03 +0000
Subject: [PATCH 37/73] fix: autoscaling cluster ends when its server ends

---
 src/hypershell/cluster/remote.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/hypershell/cluster/remote.py b/src/hypershell/cluster/remote.py
index c3b27d6..b79bf98 100644
--- a/src/hypershell/cluster/remote.py
+++ b/src/hypershell/cluster/remote.py
@@ -709,7 +709,9 @@ class AutoScalingCluster(Thread):
         self.server.start()
         time.sleep(2)  # NOTE: give the server a chance to start
         self.autoscaler.start()
-        self.autoscaler.join()
+        while self.server.is_alive() and self.autoscaler.is_alive():
+            self.autoscaler.join(timeout=1)
+        self.autoscaler.stop(wait=True)  # NOTE: nothing to scale without the server
         self.server.join()
 
     def stop(self: AutoScalingCluster, wait: bool = False, timeout: int = None) -> None:
-- 
2.43.0


From 39b8f0817e3733318a115564fa29c31d78b34266 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:52:03 +0000
Subject: [PATCH 38/73] fix: configuration file is never seen incomplete while
 a setting is saved

---
 src/hypershell/core/config.py | 28 ++++++++++++++++++++++------
 1 file changed, 22 insertions(+), 6 deletions(-)

diff --git a/src/hypershell/core/config.py b/src/hypershell/core/config.py
index fa6224e..7a00c01 100644
--- a/src/hypershell/core/config.py
+++ b/src/hypershell/core/config.py
@@ -304,14 +304,30 @@ def update(scope: str, partial: dict) -> None:
         shutil.copy(config_path, config_backup_path)
         shutil.copystat(config_path, config_backup_path)
         log.debug(f'Created backup file ({config_backup_path})')
+        with open(config_path, mode='r') as stream:
+            new_config = tomlkit.parse(stream.read())
     else:
-        with open(config_path, mode='w') as stream:
-            stream.write(DEFAULT_CONFIG_HEADERS)
-    with open(config_path, mode='r') as stream:
-        new_config = tomlkit.parse(stream.read())
+        new_config = tomlkit.parse(DEFAULT_CONFIG_HEADERS)
     _inplace_update(new_config, partial)
-    with open(config_path, mode='w') as stream:
-        tomlkit.dump(new_config, stream)
+    _replace_file(config_path, tomlkit.dumps(new_config))
+
+
+def _replace_file(filepath: str, content: str) -> None:
+    """Replace contents of file such that it is never seen incomplete."""
+    filepath = os.path.realpath(filepath)  # NOTE: preserve link to file elsewhere
+    temp_path = os.path.join(os.path.dirname(filepath), f'.config.{os.getpid()}.tmp')
+    try:
+        with open(temp_path, mode='w') as stream:
+            if os.path.exists(filepath):
+                shutil.copymode(filepath, temp_path)
+            stream.write(content)
+            stream.flush()
+            os.fsync(stream.fileno())
+        os.replace(temp_path, filepath)
+    except Exception:
+        if os.path.exists(temp_path):
+            os.remove(temp_path)
+        raise
 
 
 # Re-implemented from `cmdkit.config.Namespace` (but works with `tomlkit`)
-- 
2.43.0


From 4fe5877335f1618bb41d1d9e315237b7855c1844 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:52:03 +0000
Subject: [PATCH 39/73] fix: changing a setting keeps dotted keys and sections
 in several parts intact

---
 src/hypershell/core/config.py | 19 ++++++++++++++++---
 1 file changed, 16 insertions(+), 3 deletions(-)

diff --git a/src/hypershell/core/config.py b/src/hypershell/core/config.py
index 7a00c01..378fff7 100644
--- a/src/hypershell/core/config.py
+++ b/src/hypershell/core/config.py
@@ -13,6 +13,7 @@ import os
 import re
 import sys
 import shutil
+import toml
 import tomlkit
 import logging
 import socket
@@ -22,6 +23,7 @@ from datetime import datetime
 # external libs
 from cmdkit.config import Namespace, Configuration, Environ, ConfigurationError
 from cmdkit.app import exit_status
+from tomlkit.exceptions import TOMLKitError
 
 # internal libs
 from hypershell.core.platform import path, home
@@ -308,8 +310,19 @@ def update(scope: str, partial: dict) -> None:
             new_config = tomlkit.parse(stream.read())
     else:
         new_config = tomlkit.parse(DEFAULT_CONFIG_HEADERS)
-    _inplace_update(new_config, partial)
-    _replace_file(config_path, tomlkit.dumps(new_config))
+    _replace_file(config_path, _format_update(new_config, partial))
+
+
+def _format_update(original: tomlkit.TOMLDocument, partial: dict) -> str:
+    """Apply `partial` to existing document and format, preserving layout and comments if possible."""
+    expected = _inplace_update(original.unwrap(), partial)
+    try:
+        content = tomlkit.dumps(_inplace_update(original, partial))
+        if toml.loads(content) == expected:
+            return content
+    except (TOMLKitError, toml.TomlDecodeError) as error:
+        log.debug(f'Cannot preserve layout of configuration ({error})')
+    return tomlkit.dumps(expected)  # NOTE: some layouts cannot be altered (e.g., sections in several parts)
 
 
 def _replace_file(filepath: str, content: str) -> None:
@@ -338,7 +351,7 @@ def _inplace_update(original: dict, partial: dict) -> dict:
     """
     for key, value in partial.items():
         if isinstance(value, dict) and isinstance(original.get(key), dict):
-            original[key] = _inplace_update(original.get(key, {}), value)
+            _inplace_update(original[key], value)  # NOTE: assignment would alter dotted keys
         else:
             original[key] = value
     return original
-- 
2.43.0


From 25a9d3333b4a311be9ac6b0e3c52ea47b7ed0df6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:25:22 +0000
Subject: [PATCH 40/73] fix: local cluster uses the given port number

---
 src/hypershell/cluster/__init__.py |  3 ++-
 src/hypershell/cluster/local.py    | 11 +++++++++--
 2 files changed, 11 insertions(+), 3 deletions(-)

diff --git a/src/hypershell/cluster/__init__.py b/src/hypershell/cluster/__init__.py
index c36c131..b3acb23 100644
--- a/src/hypershell/cluster/__init__.py
+++ b/src/hypershell/cluster/__init__.py
@@ -220,7 +220,8 @@ class ClusterApp(Application):
 
     def run_local(self: ClusterApp, **options) -> None:
         """Run local cluster."""
-        run_local(**options, redirect_output=self.output_stream, redirect_errors=self.errors_stream)
+        run_local(**options, bind=(QueueConfig.host, self.port),
+                  redirect_output=self.output_stream, redirect_errors=self.errors_stream)
 
     def run_launch(self: ClusterApp, **options) -> None:
         """Run remote cluster with custom launcher."""
diff --git a/src/hypershell/cluster/local.py b/src/hypershell/cluster/local.py
index 7ded8b5..78a8c46 100644
--- a/src/hypershell/cluster/local.py
+++ b/src/hypershell/cluster/local.py
@@ -6,7 +6,7 @@
 
 # type annotations
 from __future__ import annotations
-from typing import Iterable, IO
+from typing import Iterable, Tuple, IO
 
 # standard libs
 import time
@@ -17,7 +17,7 @@ from hypershell.core.thread import Thread
 from hypershell.core.logging import Logger
 from hypershell.core.template import DEFAULT_TEMPLATE
 from hypershell.submit import DEFAULT_BUNDLEWAIT
-from hypershell.server import ServerThread, DEFAULT_BUNDLESIZE, DEFAULT_ATTEMPTS
+from hypershell.server import ServerThread, DEFAULT_BIND, DEFAULT_PORT, DEFAULT_BUNDLESIZE, DEFAULT_ATTEMPTS
 from hypershell.client import ClientThread, DEFAULT_DELAY, DEFAULT_SIGNALWAIT, set_client_standalone
 
 # public interface
@@ -76,6 +76,10 @@ class LocalCluster(Thread):
             Waiting period in seconds before forcing return of task bundle to server.
             See :const:`~hypershell.server.DEFAULT_BUNDLEWAIT`.
 
+        bind (tuple, optional):
+            Bind address for server with port number (default: localhost).
+            See :const:`~hypershell.server.DEFAULT_PORT`.
+
         in_memory (bool, optional):
             If True, revert to basic in-memory queue.
 
@@ -151,6 +155,7 @@ class LocalCluster(Thread):
                  template: str = DEFAULT_TEMPLATE,
                  bundlesize: int = DEFAULT_BUNDLESIZE,
                  bundlewait: int = DEFAULT_BUNDLEWAIT,
+                 bind: Tuple[str, int] = (DEFAULT_BIND, DEFAULT_PORT),
                  in_memory: bool = False,
                  no_confirm: bool = False,
                  forever_mode: bool = False,
@@ -170,6 +175,7 @@ class LocalCluster(Thread):
         self.server = ServerThread(source=source,
                                    bundlesize=bundlesize,
                                    bundlewait=bundlewait,
+                                   address=bind,
                                    auth=auth,
                                    in_memory=in_memory,
                                    no_confirm=no_confirm,
@@ -182,6 +188,7 @@ class LocalCluster(Thread):
                                    template=template,
                                    bundlesize=bundlesize,
                                    bundlewait=bundlewait,
+                                   address=bind,
                                    auth=auth,
                                    no_confirm=no_confirm,
                                    redirect_output=redirect_output,
-- 
2.43.0


From 8dbb8cf271bbbe14c39b61b73f3bfd99dad7ce41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:25:22 +0000
Subject: [PATCH 41/73] fix: quote the template for the remote shell of ssh
 clients

---
 src/hypershell/cluster/ssh.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hypershell/cluster/ssh.py b/src/hypershell/cluster/ssh.py
index 7bda57b..3f21735 100644
--- a/src/hypershell/cluster/ssh.py
+++ b/src/hypershell/cluster/ssh.py
@@ -235,7 +235,7 @@ class SSHCluster(Thread):
         self.client_argv = [
             [*launcher, *launcher_args, host, *launcher_env, remote_exe, 'client', '-H', HOSTNAME,
              '-p', str(bind[1]), '-N', str(num_tasks), '-b', str(bundlesize), '-w', str(bundlewait),
-             '-t', f'\'{template}\'', '-k', auth, '-d', str(delay_start),
+             '-t', shlex.quote(template), '-k', auth, '-d', str(delay_start),
              '-S', str(task_signalwait), *client_args]
             for host in nodelist
         ]
-- 
2.43.0


From 311d6613a840f1064fbee224d9a927dc8cee3093 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:25:22 +0000
Subject: [PATCH 42/73] fix: quote exported environment variables for the
 remote shell of ssh clients

---
 src/hypershell/cluster/ssh.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/hypershell/cluster/ssh.py b/src/hypershell/cluster/ssh.py
index 3f21735..ac6ba6e 100644
--- a/src/hypershell/cluster/ssh.py
+++ b/src/hypershell/cluster/ssh.py
@@ -220,7 +220,7 @@ class SSHCluster(Thread):
                                    restart_mode=restart_mode,
                                    redirect_failures=redirect_failures)
         launcher = shlex.split(launcher)
-        launcher_env = shlex.split('' if not export_env else compile_env())
+        launcher_env = [] if not export_env else compile_env()
         if launcher_args is None:
             launcher_args = shlex.split(config.ssh.get('args', ''))
         client_args = []
@@ -346,6 +346,6 @@ class NodeList(list):
         return result
 
 
-def compile_env() -> str:
-    """Build environment variable argument expansion for remote client launch command."""
-    return ' '.join([f'{key}="{value}"' for key, value in Namespace.from_env('HYPERSHELL').items()])
+def compile_env() -> List[str]:
+    """Build environment variable assignments (quoted for the remote shell) for client launch command."""
+    return [f'{key}={shlex.quote(value)}' for key, value in Namespace.from_env('HYPERSHELL').items()]
-- 
2.43.0


From a85121c7695d805030a8ee5808314d3889f1273a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:25:22 +0000
Subject: [PATCH 43/73] fix: expand host patterns with more than one range

---
 src/hypershell/cluster/ssh.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/hypershell/cluster/ssh.py b/src/hypershell/cluster/ssh.py
index ac6ba6e..7c46aa1 100644
--- a/src/hypershell/cluster/ssh.py
+++ b/src/hypershell/cluster/ssh.py
@@ -321,10 +321,10 @@ class NodeList(list):
             return cls(cls.from_pattern(pattern[0:idx]) + cls.from_pattern(pattern[idx+1:]))
         else:
             if match := cls.range_pattern.search(pattern):
-                range_spec = match.group()
-                prefix, suffix = pattern.split(range_spec)
-                segments = cls.expand_pattern(range_spec)
-                return cls([f'{prefix}{segment}{suffix}' for segment in segments])
+                prefix = pattern[:match.start()]
+                segments = cls.expand_pattern(match.group())
+                suffixes = cls.from_pattern(pattern[match.end():])  # NOTE: may contain further ranges
+                return cls([f'{prefix}{segment}{suffix}' for segment in segments for suffix in suffixes])
             else:
                 return cls([pattern, ])
 
-- 
2.43.0


From bc1735f09fc1a7da73580973b25237f7995e3061 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:25:22 +0000
Subject: [PATCH 44/73] fix: cluster accepts --ssh-group without --ssh as
 documented

---
 src/hypershell/cluster/__init__.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/hypershell/cluster/__init__.py b/src/hypershell/cluster/__init__.py
index b3acb23..6d5c8ed 100644
--- a/src/hypershell/cluster/__init__.py
+++ b/src/hypershell/cluster/__init__.py
@@ -266,6 +266,8 @@ class ClusterApp(Application):
         """The launch mode to run the cluster."""
         if self.autoscaling_policy is not None:
             return 'autoscaling'
+        if self.ssh_group:
+            return 'ssh'
         for name in ['ssh', 'mpi', 'launch']:
             if getattr(self, f'{name}_mode'):
                 return name
@@ -293,11 +295,13 @@ class ClusterApp(Application):
             raise ArgumentError('Using --restart with --no-db is invalid')
         if self.forever_mode and self.restart_mode:
             raise ArgumentError('Using --forever with --restart is invalid')
-        if self.ssh_args and not self.ssh_mode:
+        if self.ssh_args and not (self.ssh_mode or self.ssh_group):
             raise ArgumentError('Unexpected --ssh-args when not in --ssh mode')
-        if self.ssh_group and self.ssh_mode != '<default>':
+        if self.ssh_group and self.ssh_mode not in (None, '<default>'):
             raise ArgumentError('Cannot specify --ssh with target with --ssh-group')
-        if self.autoscaling_policy is not None and self.ssh_mode:
+        if self.ssh_group and (self.mpi_mode or self.launch_mode):
+            raise ArgumentError('Cannot specify --ssh-group with --mpi or --launcher')
+        if self.autoscaling_policy is not None and (self.ssh_mode or self.ssh_group):
             raise ArgumentError('Cannot use --autoscaling with --ssh mode')
         if self.autoscaling_policy is not None and self.mpi_mode:
             raise ArgumentError('Cannot use --autoscaling with --mpi mode')
-- 
2.43.0


From b7f58ad4f5e1aadd26cb3e1a747a8d8f48efcb0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:25:22 +0000
Subject: [PATCH 45/73] fix: cluster uses configured ssh arguments when none
 are given

---
 src/hypershell/cluster/__init__.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/hypershell/cluster/__init__.py b/src/hypershell/cluster/__init__.py
index 6d5c8ed..5734494 100644
--- a/src/hypershell/cluster/__init__.py
+++ b/src/hypershell/cluster/__init__.py
@@ -239,7 +239,8 @@ class ClusterApp(Application):
             nodelist = NodeList.from_config(self.ssh_group)
         else:
             nodelist = NodeList.from_cmdline(self.ssh_mode if self.ssh_mode != '<default>' else None)
-        run_ssh(**options, launcher='ssh', launcher_args=shlex.split(self.ssh_args), nodelist=nodelist,
+        run_ssh(**options, launcher='ssh', nodelist=nodelist,
+                launcher_args=(shlex.split(self.ssh_args) if self.ssh_args else None),
                 remote_exe=self.remote_exe, bind=('0.0.0.0', self.port), export_env=self.export_env)
 
     def run_autoscaling(self: ClusterApp, **options) -> None:
-- 
2.43.0


From 968f4cac7855534bab7d2fa628bc19e4665b2da7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:25:22 +0000
Subject: [PATCH 46/73] fix: clusters use the configured eviction period and
 heartrate

---
 src/hypershell/cluster/local.py  | 7 +++++--
 src/hypershell/cluster/remote.py | 8 +++++---
 src/hypershell/cluster/ssh.py    | 3 ++-
 3 files changed, 12 insertions(+), 6 deletions(-)

diff --git a/src/hypershell/cluster/local.py b/src/hypershell/cluster/local.py
index 78a8c46..66d5e35 100644
--- a/src/hypershell/cluster/local.py
+++ b/src/hypershell/cluster/local.py
@@ -13,6 +13,7 @@ import time
 import secrets
 
 # internal libs
+from hypershell.core.config import config
 from hypershell.core.thread import Thread
 from hypershell.core.logging import Logger
 from hypershell.core.template import DEFAULT_TEMPLATE
@@ -183,7 +184,8 @@ class LocalCluster(Thread):
                                    eager=eager,
                                    forever_mode=forever_mode,
                                    restart_mode=restart_mode,
-                                   redirect_failures=redirect_failures)
+                                   redirect_failures=redirect_failures,
+                                   evict_after=config.server.evict)
         self.client = ClientThread(num_tasks=num_tasks,
                                    template=template,
                                    bundlesize=bundlesize,
@@ -197,7 +199,8 @@ class LocalCluster(Thread):
                                    capture=capture,
                                    client_timeout=client_timeout,
                                    task_timeout=task_timeout,
-                                   task_signalwait=task_signalwait)
+                                   task_signalwait=task_signalwait,
+                                   heartrate=config.client.heartrate)
         super().__init__(name='hypershell-cluster')
 
     def run_with_exceptions(self: LocalCluster) -> None:
diff --git a/src/hypershell/cluster/remote.py b/src/hypershell/cluster/remote.py
index b79bf98..294eecd 100644
--- a/src/hypershell/cluster/remote.py
+++ b/src/hypershell/cluster/remote.py
@@ -21,7 +21,7 @@ from subprocess import Popen
 
 # internal libs
 from hypershell.core.fsm import State, StateMachine
-from hypershell.core.config import default, load_task_env
+from hypershell.core.config import config, default, load_task_env
 from hypershell.core.thread import Thread
 from hypershell.core.logging import Logger, HOSTNAME
 from hypershell.core.template import DEFAULT_TEMPLATE
@@ -222,7 +222,8 @@ class RemoteCluster(Thread):
                                    eager=eager,
                                    forever_mode=forever_mode,
                                    restart_mode=restart_mode,
-                                   redirect_failures=redirect_failures)
+                                   redirect_failures=redirect_failures,
+                                   evict_after=config.server.evict)
         launcher = shlex.split(launcher)
         if launcher_args is None:
             launcher_args = []
@@ -682,7 +683,8 @@ class AutoScalingCluster(Thread):
         auth = secrets.token_hex(64)
         self.server = ServerThread(source=source, auth=auth, bundlesize=bundlesize, bundlewait=bundlewait,
                                    max_retries=max_retries, eager=eager, address=bind, forever_mode=True,
-                                   redirect_failures=redirect_failures)
+                                   redirect_failures=redirect_failures,
+                                   evict_after=config.server.evict)
         launcher = shlex.split(launcher)
         if launcher_args is None:
             launcher_args = []
diff --git a/src/hypershell/cluster/ssh.py b/src/hypershell/cluster/ssh.py
index 7c46aa1..8d6ae2a 100644
--- a/src/hypershell/cluster/ssh.py
+++ b/src/hypershell/cluster/ssh.py
@@ -218,7 +218,8 @@ class SSHCluster(Thread):
                                    eager=eager,
                                    forever_mode=forever_mode,
                                    restart_mode=restart_mode,
-                                   redirect_failures=redirect_failures)
+                                   redirect_failures=redirect_failures,
+                                   evict_after=config.server.evict)
         launcher = shlex.split(launcher)
         launcher_env = [] if not export_env else compile_env()
         if launcher_args is None:
-- 
2.43.0


From 156d342c7a9a8f63f632812d9e446bb2f42478a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:25:22 +0000
Subject: [PATCH 47/73] fix: client timeout does not count the start-up delay

---
 src/hypershell/client.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/hypershell/client.py b/src/hypershell/client.py
index 3dbc1b2..24d73d7 100644
--- a/src/hypershell/client.py
+++ b/src/hypershell/client.py
@@ -190,6 +190,7 @@ class ClientScheduler(StateMachine):
         """Jump to GET_REMOTE state."""
         timeout_label = self.timeout or 'no'
         log.debug(f'Started (scheduler: {timeout_label} timeout)')
+        self.previous_received = time.monotonic()  # NOTE: not counting the start-up delay
         return SchedulerState.GET_REMOTE
 
     def get_remote(self: ClientScheduler) -> SchedulerState:
-- 
2.43.0


From e7494d14be9edd3258a1357c23c8f52144a4befe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:15:42 +0000
Subject: [PATCH 48/73] fix: clusters wait for the server to accept connections
 before clients are started

---
 src/hypershell/cluster/local.py  | 3 +--
 src/hypershell/cluster/remote.py | 4 ++--
 src/hypershell/cluster/ssh.py    | 3 +--
 src/hypershell/server.py         | 8 ++++++++
 4 files changed, 12 insertions(+), 6 deletions(-)

diff --git a/src/hypershell/cluster/local.py b/src/hypershell/cluster/local.py
index 66d5e35..941539f 100644
--- a/src/hypershell/cluster/local.py
+++ b/src/hypershell/cluster/local.py
@@ -9,7 +9,6 @@ from __future__ import annotations
 from typing import Iterable, Tuple, IO
 
 # standard libs
-import time
 import secrets
 
 # internal libs
@@ -207,7 +206,7 @@ class LocalCluster(Thread):
         """Start child threads, wait."""
         set_client_standalone(False)
         self.server.start()
-        time.sleep(2)  # NOTE: give the server a chance to start
+        self.server.wait_ready()
         self.client.start()
         self.client.join()
         self.server.join()
diff --git a/src/hypershell/cluster/remote.py b/src/hypershell/cluster/remote.py
index 294eecd..96a3a62 100644
--- a/src/hypershell/cluster/remote.py
+++ b/src/hypershell/cluster/remote.py
@@ -248,7 +248,7 @@ class RemoteCluster(Thread):
     def run_with_exceptions(self: RemoteCluster) -> None:
         """Start child threads, wait."""
         self.server.start()
-        time.sleep(2)  # NOTE: give the server a chance to start
+        self.server.wait_ready()
         log.debug(f'Launching clients: {self.client_argv}')
         self.clients = Popen(self.client_argv,
                              stdout=sys.stdout, stderr=sys.stderr,
@@ -709,7 +709,7 @@ class AutoScalingCluster(Thread):
     def run_with_exceptions(self: AutoScalingCluster) -> None:
         """Start child threads, wait."""
         self.server.start()
-        time.sleep(2)  # NOTE: give the server a chance to start
+        self.server.wait_ready()
         self.autoscaler.start()
         while self.server.is_alive() and self.autoscaler.is_alive():
             self.autoscaler.join(timeout=1)
diff --git a/src/hypershell/cluster/ssh.py b/src/hypershell/cluster/ssh.py
index 8d6ae2a..6e67208 100644
--- a/src/hypershell/cluster/ssh.py
+++ b/src/hypershell/cluster/ssh.py
@@ -11,7 +11,6 @@ from typing import Type, List, Iterable, Tuple, IO, Final
 # standard libs
 import re
 import sys
-import time
 import shlex
 import secrets
 from subprocess import Popen
@@ -245,7 +244,7 @@ class SSHCluster(Thread):
     def run_with_exceptions(self: SSHCluster) -> None:
         """Start child threads, wait."""
         self.server.start()
-        time.sleep(2)  # NOTE: give the server a chance to start
+        self.server.wait_ready()
         self.clients = []
         for argv in self.client_argv:
             log.debug(f'Launching client: {argv}')
diff --git a/src/hypershell/server.py b/src/hypershell/server.py
index 515f847..f96223d 100644
--- a/src/hypershell/server.py
+++ b/src/hypershell/server.py
@@ -745,6 +745,7 @@ class ServerThread(Thread):
     heartmonitor: HeartMonitorThread
     in_memory: bool
     no_confirm: bool
+    ready: bool
 
     def __init__(self: ServerThread,
                  source: Iterable[str] = None,
@@ -761,6 +762,7 @@ class ServerThread(Thread):
                  redirect_failures: IO = None,
                  evict_after: int = DEFAULT_EVICT) -> None:
         """Initialize queue manager and child threads."""
+        self.ready = False
         self.in_memory = in_memory
         self.no_confirm = no_confirm
         if not self.in_memory and not DATABASE_ENABLED:
@@ -793,6 +795,7 @@ class ServerThread(Thread):
         """Start child threads, wait."""
         log.debug('Started')
         with self.queue:
+            self.ready = True
             self.start_threads()
             self.wait_submitter()
             self.wait_scheduler()
@@ -801,6 +804,11 @@ class ServerThread(Thread):
             self.wait_confirm()
         log.debug('Done')
 
+    def wait_ready(self: ServerThread) -> None:
+        """Wait until clients can connect (or the server has failed to start)."""
+        while self.is_alive() and not self.ready:
+            time.sleep(0.1)
+
     def start_threads(self: ServerThread) -> None:
         """Start child threads."""
         if self.submitter is not None:
-- 
2.43.0


From 42745c9d995536cd409fb6d643c78372c8d59a34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:15:42 +0000
Subject: [PATCH 49/73] fix: a signalled server ends although its queue is full
 and no client takes from it

---
 src/hypershell/data/model.py | 14 ++++++++++++++
 src/hypershell/server.py     |  5 +++++
 2 files changed, 19 insertions(+)

diff --git a/src/hypershell/data/model.py b/src/hypershell/data/model.py
index 6849030..38229ab 100644
--- a/src/hypershell/data/model.py
+++ b/src/hypershell/data/model.py
@@ -538,6 +538,20 @@ class Task(Entity):
         Session.commit()
         log.trace(f'Reverted {count} orphaned tasks ({client_id})')
 
+    @classmethod
+    def revert_unposted(cls: Type[Task], ids: List[str]) -> None:
+        """Revert tasks scheduled but not handed out to un-scheduled state."""
+        (
+            cls.query()
+            .filter(cls.id.in_(ids))
+            .filter(cls.schedule_time.isnot(None))
+            .filter(cls.completion_time.is_(None))
+            .filter(cls.exit_status.is_(None))
+            .update(cls.reverted_fields, synchronize_session=False)
+        )
+        Session.commit()
+        log.trace(f'Reverted {len(ids)} tasks (not handed out)')
+
     @classmethod
     def latest_server(cls: Type[Client]) -> Optional[str]:
         """Unique ID of most recent active server (if reusing database)."""
diff --git a/src/hypershell/server.py b/src/hypershell/server.py
index f96223d..3641c55 100644
--- a/src/hypershell/server.py
+++ b/src/hypershell/server.py
@@ -216,6 +216,11 @@ class Scheduler(StateMachine):
                 log.debug(f'Scheduled task ({task.id})')
             return SchedulerState.LOAD
         except QueueFull:
+            if check_signal() in (SIGUSR1, SIGUSR2):
+                # NOTE: there may not be any client left to make room for it
+                log.warning(f'Signal interrupt ({SIGNAL_MAP[check_signal()]})')
+                Task.revert_unposted([task.id for task in self.tasks])
+                return SchedulerState.FINAL
             return SchedulerState.POST
 
     @staticmethod
-- 
2.43.0


From e3ca74e7d2346bd5de60b8dc607e632bcdbbdcba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:26:50 +0000
Subject: [PATCH 50/73] fix: a task returned twice in one bundle is only
 received once

---
 src/hypershell/server.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/hypershell/server.py b/src/hypershell/server.py
index 3641c55..de981ac 100644
--- a/src/hypershell/server.py
+++ b/src/hypershell/server.py
@@ -425,7 +425,8 @@ class Receiver(StateMachine):
         if not self.in_memory:
             # NOTE: a client presumed lost may return tasks another client has completed in the meantime
             incomplete = Task.select_incomplete([task.id for task in self.tasks])
-            self.tasks = [task for task in self.tasks if task.id in incomplete]
+            # NOTE: or the same task twice if it was given to the same client again
+            self.tasks = list({task.id: task for task in self.tasks if task.id in incomplete}.values())
             Task.update_existing([task.run_details() for task in self.tasks])
         for task in self.tasks:
             log.debug(f'Completed task ({task.id})')
-- 
2.43.0


From 96414f2db02101783ce323af57351c3f9fe52d72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:31:16 +0000
Subject: [PATCH 51/73] fix: server.bind is the address a server binds by
 default

---
 src/hypershell/core/queue.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hypershell/core/queue.py b/src/hypershell/core/queue.py
index 6cd3bf6..6a6f6b3 100644
--- a/src/hypershell/core/queue.py
+++ b/src/hypershell/core/queue.py
@@ -40,7 +40,7 @@ class QueueConfig:
     def load(cls: Type[QueueConfig]) -> QueueConfig:
         """Initialize from global configuration."""
         return cls.from_dict({
-            'host': _config.server.host,
+            'host': _config.server.bind,
             'port': _config.server.port,
             'auth': _config.server.auth,
             'size': _config.server.queuesize,
-- 
2.43.0


From 492b4209b4480fd94b9e098ccc76987eeeeef4b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:31:16 +0000
Subject: [PATCH 52/73] fix: the scheduler waits as long as server.wait says
 between queries

---
 src/hypershell/server.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hypershell/server.py b/src/hypershell/server.py
index de981ac..4858333 100644
--- a/src/hypershell/server.py
+++ b/src/hypershell/server.py
@@ -185,7 +185,7 @@ class Scheduler(StateMachine):
             self.startup_phase = False
             return SchedulerState.PACK
         else:
-            time.sleep(DEFAULT_QUERY_PAUSE)
+            time.sleep(config.server.wait)
             return SchedulerState.LOAD
 
     def next_tasks(self: Scheduler) -> List[Task]:
-- 
2.43.0


From 71e131fe6ad161657c71c20ce77debc4f3705076 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:31:16 +0000
Subject: [PATCH 53/73] fix: a cluster takes server.port and server.attempts as
 its defaults

---
 src/hypershell/cluster/__init__.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/hypershell/cluster/__init__.py b/src/hypershell/cluster/__init__.py
index 5734494..b66dbb5 100644
--- a/src/hypershell/cluster/__init__.py
+++ b/src/hypershell/cluster/__init__.py
@@ -129,7 +129,7 @@ class ClusterApp(Application):
     interface.add_argument('-d', '--delay-start', type=float, default=delay_start)
 
     eager_mode: bool = config.server.eager
-    max_retries: int = DEFAULT_ATTEMPTS - 1
+    max_retries: int = config.server.attempts - 1
     interface.add_argument('-r', '--max-retries', type=int, default=max_retries)
     interface.add_argument('--eager', action='store_true', default=eager_mode, dest='eager_mode')
 
@@ -168,7 +168,7 @@ class ClusterApp(Application):
     export_env: bool = False
     interface.add_argument('-E', '--env', action='store_true', dest='export_env')
 
-    port: int = QueueConfig.port
+    port: int = config.server.port
     interface.add_argument('-p', '--port', default=port, type=int)
 
     capture: bool = False
-- 
2.43.0


From 0a2d825403e8732f005b776832cc6dd9ecff0118 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:31:16 +0000
Subject: [PATCH 54/73] fix: a client takes client.bundlesize and
 client.bundlewait as its defaults

---
 src/hypershell/client.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/hypershell/client.py b/src/hypershell/client.py
index 24d73d7..688bc1b 100644
--- a/src/hypershell/client.py
+++ b/src/hypershell/client.py
@@ -1188,10 +1188,10 @@ class ClientApp(Application):
     template: str = DEFAULT_TEMPLATE
     interface.add_argument('-t', '--template', default=template)
 
-    bundlesize: int = config.submit.bundlesize
+    bundlesize: int = config.client.bundlesize
     interface.add_argument('-b', '--bundlesize', type=int, default=bundlesize)
 
-    bundlewait: int = config.submit.bundlewait
+    bundlewait: int = config.client.bundlewait
     interface.add_argument('-w', '--bundlewait', type=int, default=bundlewait)
 
     delay_start: float = DEFAULT_DELAY
-- 
2.43.0


From 7cba4294824226743c92bb1b62deec550949ecbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:31:16 +0000
Subject: [PATCH 55/73] fix: hs client accepts --signalwait as documented

---
 src/hypershell/client.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hypershell/client.py b/src/hypershell/client.py
index 688bc1b..2806135 100644
--- a/src/hypershell/client.py
+++ b/src/hypershell/client.py
@@ -1203,7 +1203,7 @@ class ClientApp(Application):
     interface.add_argument('-W', '--task-timeout', type=int, default=task_timeout, dest='task_timeout')
 
     task_signalwait: int = config.task.signalwait
-    interface.add_argument('-S', '--task-signalwait', type=int, default=task_signalwait, dest='task_signalwait')
+    interface.add_argument('-S', '--signalwait', '--task-signalwait', type=int, default=task_signalwait, dest='task_signalwait')
 
     no_confirm: bool = False
     interface.add_argument('--no-confirm', action='store_true')
-- 
2.43.0


From c1be6e4b9de921343189f3a5ed5c8b949be6d704 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:31:16 +0000
Subject: [PATCH 56/73] fix: an option given as value, _env or _eval in several
 places takes the value of highest precedence

---
 src/hypershell/cluster/ssh.py   |  4 +--
 src/hypershell/core/config.py   | 54 ++++++++++++++++++++++++++++++---
 src/hypershell/data/__init__.py |  5 +--
 src/hypershell/data/core.py     |  4 +--
 src/hypershell/submit.py        |  5 +--
 5 files changed, 59 insertions(+), 13 deletions(-)

diff --git a/src/hypershell/cluster/ssh.py b/src/hypershell/cluster/ssh.py
index 6e67208..b1e4389 100644
--- a/src/hypershell/cluster/ssh.py
+++ b/src/hypershell/cluster/ssh.py
@@ -19,7 +19,7 @@ from subprocess import Popen
 from cmdkit.config import ConfigurationError, Namespace
 
 # internal libs
-from hypershell.core.config import config, blame
+from hypershell.core.config import config, blame, expand
 from hypershell.core.thread import Thread
 from hypershell.core.logging import Logger, HOSTNAME
 from hypershell.core.template import DEFAULT_TEMPLATE
@@ -222,7 +222,7 @@ class SSHCluster(Thread):
         launcher = shlex.split(launcher)
         launcher_env = [] if not export_env else compile_env()
         if launcher_args is None:
-            launcher_args = shlex.split(config.ssh.get('args', ''))
+            launcher_args = shlex.split(expand(config.ssh).get('args', ''))
         client_args = []
         if capture:
             client_args.append('--capture')
diff --git a/src/hypershell/core/config.py b/src/hypershell/core/config.py
index 378fff7..27d9001 100644
--- a/src/hypershell/core/config.py
+++ b/src/hypershell/core/config.py
@@ -31,7 +31,7 @@ from hypershell.core.exceptions import write_traceback
 
 # public interface
 __all__ = ['config', 'update', 'default', 'ConfigurationError', 'Namespace', 'blame',
-           'load', 'reload', 'reload_local', 'load_file', 'reload_file', 'load_env', 'reload_env', 'load_task_env',
+           'load', 'reload', 'reload_local', 'load_file', 'reload_file', 'load_env', 'reload_env', 'load_task_env', 'expand',
            'DEFAULT_LOGGING_STYLE', 'LOGGING_STYLES', 'ACTIVE_CONFIG_VARS', 'SSH_GROUPS',
            'find_available_ports']
 
@@ -161,16 +161,54 @@ def load_env() -> Environ:
     return reload_env()
 
 
+def expand(section: dict) -> Namespace:
+    """Copy of `section` with value of each `_env` and `_eval` option in its place."""
+    section = Namespace(section)
+    return Namespace({name: getattr(section, name) for name in map(option_name, section)})
+
+
+# Options within these sections have names chosen by the user
+FREEFORM_SECTIONS = ('export', 'nodelist')
+
+
+def option_name(name: str) -> str:
+    """Name of option without `_env` or `_eval` suffix."""
+    return re.sub(r'_(env|eval)$', '', name)
+
+
+def without_variants(lower: dict, upper: dict) -> Namespace:
+    """Copy of `lower` without options given by another variant in `upper` (e.g., `auth` and `auth_eval`)."""
+    names = {option_name(name) for name, value in upper.items() if not isinstance(value, dict)}
+    result = Namespace({})
+    for name, value in lower.items():
+        if isinstance(value, dict):
+            if isinstance(upper.get(name), dict) and name not in FREEFORM_SECTIONS:
+                value = without_variants(value, upper[name])
+            result[name] = value
+        elif name in upper or option_name(name) not in names:
+            result[name] = value
+    return result
+
+
+def merge(**namespaces: Namespace) -> Configuration:
+    """Build configuration from `namespaces` (lowest to highest precedence)."""
+    layers = list(namespaces)
+    for i, name in enumerate(layers):
+        for other in layers[i+1:]:
+            namespaces[name] = without_variants(namespaces[name], namespaces[other])
+    return Configuration(**namespaces)
+
+
 def partial_load(system: Optional[str] = path.system.config,
                  user: Optional[str] = path.user.config,
                  local: Optional[str] = path.local.config,
                  **preload: Namespace) -> Configuration:
     """Load configuration from files and merge environment variables."""
-    return Configuration(**{
+    return merge(**{
         'default': default, **preload,
         'system': {} if not system else load_file(system),
         'user': {} if not user else load_file(user),
-        'local': {} if not user else load_file(local),
+        'local': {} if not local else load_file(local),
         'env': load_env(),
     })
 
@@ -180,7 +218,7 @@ def partial_reload(system: Optional[str] = path.system.config,
                    local: Optional[str] = path.local.config,
                    **preload: Namespace) -> Configuration:
     """Force reload configuration from files and merge environment variables."""
-    return Configuration(**{
+    return merge(**{
         'default': default, **preload,
         'system': {} if not system else reload_file(system),
         'user': {} if not user else reload_file(user),
@@ -191,7 +229,13 @@ def partial_reload(system: Optional[str] = path.system.config,
 
 def blame(base: Configuration, *varpath: str) -> Optional[str]:
     """Construct filename or variable assignment string based on precedent of `varpath`."""
-    source = base.which(*varpath)
+    source = None
+    for suffix in ('', '_env', '_eval'):
+        try:
+            source = base.which(*varpath[:-1], varpath[-1] + suffix)
+            break
+        except KeyError:
+            continue
     if not source:
         return None
     if source in ('system', 'user', 'local'):
diff --git a/src/hypershell/data/__init__.py b/src/hypershell/data/__init__.py
index 13b5b05..5104a2d 100644
--- a/src/hypershell/data/__init__.py
+++ b/src/hypershell/data/__init__.py
@@ -23,7 +23,7 @@ from sqlalchemy.schema import CreateIndex, CreateTable
 
 # internal libs
 from hypershell.core.logging import Logger
-from hypershell.core.config import config
+from hypershell.core.config import config, expand
 from hypershell.core.exceptions import handle_exception, DatabaseUninitialized, get_shared_exception_mapping
 from hypershell.data.core import engine, in_memory, schema
 from hypershell.data.model import Entity, Task
@@ -72,7 +72,8 @@ def ensuredb(auto_init: bool = False) -> None:
 
     If SQLite and `auto_init` we run :meth:`initdb`, else :meth:`checkdb`.
     """
-    db = config.database.get('file', None) or config.database.get('database', None)
+    database = expand(config.database)
+    db = database.get('file', None) or database.get('database', None)
     if config.database.provider == 'sqlite' and db in ('', ':memory:', None):
         raise ConfigurationError('Missing database configuration')
     if config.database.provider == 'sqlite' or auto_init is True:
diff --git a/src/hypershell/data/core.py b/src/hypershell/data/core.py
index 55306ce..13e9120 100644
--- a/src/hypershell/data/core.py
+++ b/src/hypershell/data/core.py
@@ -22,7 +22,7 @@ from sqlalchemy.orm import sessionmaker, scoped_session
 from sqlalchemy.exc import ArgumentError
 
 # internal libs
-from hypershell.core.config import config
+from hypershell.core.config import config, expand
 from hypershell.core.logging import handler
 from hypershell.core.exceptions import write_traceback
 
@@ -174,7 +174,7 @@ providers = {
 }
 
 
-config = Namespace(config.database.copy())
+config = expand(config.database)
 schema = config.pop('schema', None)
 engine_echo = config.pop('echo', False)
 connect_args = config.pop('connect_args', {})
diff --git a/src/hypershell/submit.py b/src/hypershell/submit.py
index 67c8583..ec861bb 100644
--- a/src/hypershell/submit.py
+++ b/src/hypershell/submit.py
@@ -57,7 +57,7 @@ from cmdkit.cli import Interface
 
 # internal libs
 from hypershell.core.logging import Logger
-from hypershell.core.config import config, default
+from hypershell.core.config import config, default, expand
 from hypershell.core.fsm import State, StateMachine
 from hypershell.core.queue import QueueClient, QueueConfig
 from hypershell.core.thread import Thread
@@ -801,7 +801,8 @@ class SubmitApp(Application):
     @staticmethod
     def check_config():
         """Halt if we are not connected to database."""
-        db = config.database.get('file', None) or config.database.get('database', None)
+        database = expand(config.database)
+        db = database.get('file', None) or database.get('database', None)
         if config.database.provider == 'sqlite' and db in ('', ':memory:', None):
             raise ConfigurationError('Submitting tasks to in-memory database has no effect')
 
-- 
2.43.0


From b3c8c6032507389fb2825a6b45a6fd4134528232 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:31:16 +0000
Subject: [PATCH 57/73] fix: text options given in the environment stay text

---
 src/hypershell/core/config.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/hypershell/core/config.py b/src/hypershell/core/config.py
index 27d9001..8e4616f 100644
--- a/src/hypershell/core/config.py
+++ b/src/hypershell/core/config.py
@@ -152,7 +152,14 @@ def load_file(filepath: str) -> Namespace:
 
 def reload_env() -> Environ:
     """Force reloading environment variables and expanding hierarchy as namespace."""
-    return Environ(prefix='HYPERSHELL').expand()
+    environ = Environ(prefix='HYPERSHELL').expand()
+    for section, options in default.items():
+        for name, value in options.items():
+            # NOTE: expansion alters values of text options (e.g., digits only for `server.auth`)
+            given = os.getenv(f'HYPERSHELL_{section}_{name}'.upper())
+            if given and isinstance(value, str) and environ[section][name] is not None:
+                environ[section][name] = given
+    return environ
 
 
 @functools.lru_cache(maxsize=None)
-- 
2.43.0


From 94e8f8aee4dfbe571c2326ca052ee9bf4c303f3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:54:08 +0000
Subject: [PATCH 58/73] fix: `-w 'FIELD >= VALUE'` and `<=` were read as `>`
 and `<` with a value that starts with `=`

---
 src/hypershell/task.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hypershell/task.py b/src/hypershell/task.py
index 310a528..ef2957f 100644
--- a/src/hypershell/task.py
+++ b/src/hypershell/task.py
@@ -1009,7 +1009,7 @@ class WhereClause:
     value: Any
     operand: str
 
-    pattern = re.compile(r'^([a-z_]+)\s*(==|!=|>|>=|<|<=|~)\s*(.*)$')
+    pattern = re.compile(r'^([a-z_]+)\s*(==|!=|>=|<=|>|<|~)\s*(.*)$')
     op_call = {
         '==': lambda lhs, rhs: lhs == rhs,
         '!=': lambda lhs, rhs: lhs != rhs,
-- 
2.43.0


From 08ba848ccbddd6cf3568b53a3ec7954cb9a794aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:54:08 +0000
Subject: [PATCH 59/73] fix: quotation marks at the ends of a value were
 missing from the output of task info and search

---
 src/hypershell/task.py | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/hypershell/task.py b/src/hypershell/task.py
index ef2957f..626fbd4 100644
--- a/src/hypershell/task.py
+++ b/src/hypershell/task.py
@@ -180,7 +180,7 @@ class TaskInfoApp(Application):
     def print_field(self: TaskInfoApp) -> None:
         """Print single field."""
         if self.extract_field != 'tag':
-            print(json.dumps(self.task.to_json().get(self.extract_field)).strip('"'))
+            print(format_value(getattr(self.task, self.extract_field)))
         elif self.output_format == 'normal':
             print(', '.join(f'{k}:{v}' if v else k for k, v in self.task.tag.items()))
         else:
@@ -641,7 +641,7 @@ class TaskSearchApp(Application, SearchableMixin):
         for name in self.field_names:
             table.add_column(name)
         for record in results:
-            table.add_row(*[json.dumps(to_json_type(value)).strip('"') for value in record])
+            table.add_row(*[format_value(value) for value in record])
         Console().print(table)
 
     @staticmethod
@@ -654,7 +654,7 @@ class TaskSearchApp(Application, SearchableMixin):
     def print_plain(self: TaskSearchApp, results: List[Tuple]) -> None:
         """Print plain text output with given field names, one task per line."""
         for record in results:
-            data = [json.dumps(to_json_type(value)).strip('"') for value in record]
+            data = [format_value(value) for value in record]
             print(self.output_delimiter.join(map(str, data)))
 
     def print_json(self: TaskSearchApp, results: List[Tuple]) -> None:
@@ -1078,7 +1078,7 @@ class Tag:
 
 def print_normal(task: Task) -> None:
     """Print semi-structured task metadata with all field names."""
-    task_data = {k: json.dumps(to_json_type(v)).strip('"') for k, v in task.to_dict().items()}
+    task_data = {k: format_value(v) for k, v in task.to_dict().items()}
     task_data['waited'] = 'null' if not task.waited else timedelta(seconds=int(task_data['waited']))
     task_data['duration'] = 'null' if not task.duration else timedelta(seconds=int(task_data['duration']))
     task_data['tag'] = ', '.join(format_tag(k, v) for k, v in task.tag.items())
@@ -1102,6 +1102,12 @@ def print_normal(task: Task) -> None:
     print(f'        tags: {task_data["tag"]}')
 
 
+def format_value(value: Any) -> str:
+    """Format as JSON but without quotation marks around text."""
+    formatted = json.dumps(to_json_type(value))
+    return formatted[1:-1] if formatted.startswith('"') else formatted
+
+
 def format_tag(key: str, value: JSONValue) -> str:
     """Format as `key` or `key:value` if not empty string."""
     if isinstance(value, str) and not value:
-- 
2.43.0


From b07fc05b2645dcf47f9b52e78e9917bd569bc177 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:54:08 +0000
Subject: [PATCH 60/73] fix: task search --format=table interpreted markup such
 as [b] in values

---
 src/hypershell/task.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/hypershell/task.py b/src/hypershell/task.py
index 626fbd4..3b84ed7 100644
--- a/src/hypershell/task.py
+++ b/src/hypershell/task.py
@@ -26,6 +26,7 @@ import yaml
 from rich.console import Console
 from rich.syntax import Syntax
 from rich.table import Table
+from rich.text import Text as RichText
 from cmdkit.app import Application, ApplicationGroup, exit_status
 from cmdkit.cli import Interface, ArgumentError
 from sqlalchemy import Column, Text, type_coerce, JSON, cast, text, func, distinct
@@ -641,7 +642,7 @@ class TaskSearchApp(Application, SearchableMixin):
         for name in self.field_names:
             table.add_column(name)
         for record in results:
-            table.add_row(*[format_value(value) for value in record])
+            table.add_row(*[RichText(format_value(value)) for value in record])
         Console().print(table)
 
     @staticmethod
-- 
2.43.0


From 3b45cb05f29b6f27f0f202bf95fbd18708a94966 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:54:08 +0000
Subject: [PATCH 61/73] fix: task info --extract=tag dropped tag values such as
 0, false and null

---
 src/hypershell/task.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hypershell/task.py b/src/hypershell/task.py
index 3b84ed7..c6a7b51 100644
--- a/src/hypershell/task.py
+++ b/src/hypershell/task.py
@@ -183,7 +183,7 @@ class TaskInfoApp(Application):
         if self.extract_field != 'tag':
             print(format_value(getattr(self.task, self.extract_field)))
         elif self.output_format == 'normal':
-            print(', '.join(f'{k}:{v}' if v else k for k, v in self.task.tag.items()))
+            print(', '.join(format_tag(k, v) for k, v in self.task.tag.items()))
         else:
             formatter = self.format_method[self.output_format]
             output = formatter(self.task.tag)
-- 
2.43.0


From 375a704b384d2073b88243fc5ca1659210faa6c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:54:08 +0000
Subject: [PATCH 62/73] fix: task info showed null for a waited time or
 duration of zero

---
 src/hypershell/task.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/hypershell/task.py b/src/hypershell/task.py
index c6a7b51..aa78248 100644
--- a/src/hypershell/task.py
+++ b/src/hypershell/task.py
@@ -1080,8 +1080,8 @@ class Tag:
 def print_normal(task: Task) -> None:
     """Print semi-structured task metadata with all field names."""
     task_data = {k: format_value(v) for k, v in task.to_dict().items()}
-    task_data['waited'] = 'null' if not task.waited else timedelta(seconds=int(task_data['waited']))
-    task_data['duration'] = 'null' if not task.duration else timedelta(seconds=int(task_data['duration']))
+    task_data['waited'] = 'null' if task.waited is None else timedelta(seconds=int(task_data['waited']))
+    task_data['duration'] = 'null' if task.duration is None else timedelta(seconds=int(task_data['duration']))
     task_data['tag'] = ', '.join(format_tag(k, v) for k, v in task.tag.items())
     print(f'          id: {task_data["id"]}')
     print(f'        args: {task_data["args"]}')
-- 
2.43.0


From 81c15b2deff93c694e27bb9632fb98046d61ec8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:54:08 +0000
Subject: [PATCH 63/73] fix: with SQLite a search by tag missed floating point
 values and took missing tags for null

---
 src/hypershell/task.py | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/src/hypershell/task.py b/src/hypershell/task.py
index aa78248..a94e208 100644
--- a/src/hypershell/task.py
+++ b/src/hypershell/task.py
@@ -438,9 +438,16 @@ class SearchableMixin:
             else:
                 query = query.filter(Task.tag[name].isnot(None))
         for name, value in tags_with_value.items():
-            if config.database.provider == 'sqlite' and value in (True, False):
-                value = int(value)  # NOTE: SQLite stores as 0/1 not JSON true/false :(
-            query = query.filter(Task.tag[name] == type_coerce(value, JSON))
+            if config.database.provider == 'sqlite':
+                # NOTE: sqlalchemy would compare with `json_quote(json_extract(task.tag, ?))`, which
+                # spells numbers in its own way (e.g., 1.0e+20) and is null for tasks without the tag
+                if value is None:
+                    query = query.filter(func.json_type(Task.tag, f'$."{name}"') == 'null')
+                else:
+                    value = int(value) if isinstance(value, bool) else value  # NOTE: SQLite has 0/1 for true/false
+                    query = query.filter(func.json_extract(Task.tag, f'$."{name}"') == value)
+            else:
+                query = query.filter(Task.tag[name] == type_coerce(value, JSON))
         return query
 
     def __build_where_clause(self: SearchableMixin, query: Query) -> Query:
-- 
2.43.0


From cf58779d2c49f77ff1f90abf2fb56b2f0f18e1a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:54:08 +0000
Subject: [PATCH 64/73] fix: captured output was altered (newlines) or failed
 (other encodings) when shown by task info and run

---
 src/hypershell/task.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/hypershell/task.py b/src/hypershell/task.py
index a94e208..a0a844e 100644
--- a/src/hypershell/task.py
+++ b/src/hypershell/task.py
@@ -211,8 +211,10 @@ class TaskInfoApp(Application):
             raise RuntimeError(f'No {out_stream.name} for task ({self.uuid})')
         if not os.path.exists(local_path) and self.task.client_host != HOSTNAME:
             self.copy_remote_files()
-        with open(local_path, mode='r') as in_stream:
-            copyfileobj(in_stream, out_stream)
+        out_stream.flush()
+        with open(local_path, mode='rb') as in_stream:
+            copyfileobj(in_stream, out_stream.buffer)
+        out_stream.buffer.flush()
 
     @functools.cached_property
     def format_method(self: TaskInfoApp) -> Dict[str, Callable[[dict], str]]:
-- 
2.43.0


From 7681dc87a66cdb02128923b26d115a6f906ade31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:54:21 +0000
Subject: [PATCH 65/73] fix: a program that had hosted one server (or cluster)
 could not host another

---
 src/hypershell/core/queue.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/hypershell/core/queue.py b/src/hypershell/core/queue.py
index 6a6f6b3..79c5248 100644
--- a/src/hypershell/core/queue.py
+++ b/src/hypershell/core/queue.py
@@ -89,10 +89,11 @@ class QueueServer(QueueInterface):
         self.completed = JoinableQueue(maxsize=self.config.size)
         self.heartbeat = JoinableQueue(maxsize=0)
         self.confirmed = JoinableQueue(maxsize=0)
-        self.register('_get_scheduled', callable=self._get_scheduled)
-        self.register('_get_completed', callable=self._get_completed)
-        self.register('_get_heartbeat', callable=self._get_heartbeat)
-        self.register('_get_confirmed', callable=self._get_confirmed)
+        # NOTE: do not let these be replaced by proxy methods (for any other server within the same program)
+        self.register('_get_scheduled', callable=self._get_scheduled, create_method=False)
+        self.register('_get_completed', callable=self._get_completed, create_method=False)
+        self.register('_get_heartbeat', callable=self._get_heartbeat, create_method=False)
+        self.register('_get_confirmed', callable=self._get_confirmed, create_method=False)
         super().start()
 
     @staticmethod
-- 
2.43.0


From b7331ce3c1c51fabe5e7548af936e6eb64ee883f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:54:21 +0000
Subject: [PATCH 66/73] fix: a server given an empty list of tasks waited for
 ever

---
 src/hypershell/server.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/hypershell/server.py b/src/hypershell/server.py
index 4858333..50a151b 100644
--- a/src/hypershell/server.py
+++ b/src/hypershell/server.py
@@ -780,10 +780,10 @@ class ServerThread(Thread):
         self.queue = QueueServer(config=queue_config)
         if self.in_memory:
             self.scheduler = None
-            self.submitter = None if not source else LiveSubmitThread(
+            self.submitter = None if source is None else LiveSubmitThread(
                 source, queue_config=queue_config, bundlesize=bundlesize, bundlewait=bundlewait)
         else:
-            self.submitter = None if not source else SubmitThread(source, bundlesize=bundlesize, bundlewait=bundlewait)
+            self.submitter = None if source is None else SubmitThread(source, bundlesize=bundlesize, bundlewait=bundlewait)
             self.scheduler = SchedulerThread(queue=self.queue, bundlesize=bundlesize, attempts=max_retries + 1,
                                              eager=eager, forever_mode=forever_mode, restart_mode=restart_mode)
             if self.submitter is not None:
-- 
2.43.0


From be6b23ff52da8f4e14e344b25ff702caf2b6effb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:54:21 +0000
Subject: [PATCH 67/73] fix: run_local did not accept its tasks the way its
 documentation shows

---
 src/hypershell/cluster/local.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/hypershell/cluster/local.py b/src/hypershell/cluster/local.py
index 941539f..0cbbb55 100644
--- a/src/hypershell/cluster/local.py
+++ b/src/hypershell/cluster/local.py
@@ -27,7 +27,7 @@ __all__ = ['run_local', 'LocalCluster']
 log = Logger.with_name('hypershell.cluster')
 
 
-def run_local(**options) -> None:
+def run_local(*args, **options) -> None:
     """
     Run local cluster until completion.
 
@@ -42,7 +42,7 @@ def run_local(**options) -> None:
     See Also:
         - :class:`~hypershell.cluster.local.LocalCluster`
     """
-    thread = LocalCluster.new(**options)
+    thread = LocalCluster.new(*args, **options)
     try:
         thread.join()
     except Exception:
-- 
2.43.0


From f790cbd54fb222499c9a8a39825deb72c0fa4f20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:54:21 +0000
Subject: [PATCH 68/73] fix: a local cluster whose source failed reported the
 connection its client lost instead

---
 src/hypershell/cluster/local.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/hypershell/cluster/local.py b/src/hypershell/cluster/local.py
index 0cbbb55..d2c7ea4 100644
--- a/src/hypershell/cluster/local.py
+++ b/src/hypershell/cluster/local.py
@@ -208,7 +208,12 @@ class LocalCluster(Thread):
         self.server.start()
         self.server.wait_ready()
         self.client.start()
-        self.client.join()
+        try:
+            self.client.join()
+        except Exception:
+            # NOTE: a client loses its connection if the server fails (which is the error to report)
+            self.server.join(timeout=10)
+            raise
         self.server.join()
 
     def stop(self: LocalCluster, wait: bool = False, timeout: int = None) -> None:
-- 
2.43.0


From a4f46e3375876f4a38c23fc49d4221ab46877cd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:54:21 +0000
Subject: [PATCH 69/73] fix: the threads of a failed server went on and took
 tasks from the next server of the same program

---
 src/hypershell/server.py | 26 +++++++++++++++++++-------
 1 file changed, 19 insertions(+), 7 deletions(-)

diff --git a/src/hypershell/server.py b/src/hypershell/server.py
index 50a151b..884c931 100644
--- a/src/hypershell/server.py
+++ b/src/hypershell/server.py
@@ -69,7 +69,7 @@ from hypershell.core.signal import check_signal, SIGNAL_MAP, SIGUSR1, SIGUSR2
 from hypershell.core.heartbeat import Heartbeat, ClientState
 from hypershell.data.model import Task, Client
 from hypershell.data import ensuredb, DATABASE_ENABLED
-from hypershell.submit import SubmitThread, LiveSubmitThread, DEFAULT_BUNDLEWAIT
+from hypershell.submit import SubmitThread, LiveSubmitThread, put_while_alive, DEFAULT_BUNDLEWAIT
 from hypershell.client import ClientInfo
 
 # public interface
@@ -803,13 +803,25 @@ class ServerThread(Thread):
         with self.queue:
             self.ready = True
             self.start_threads()
-            self.wait_submitter()
-            self.wait_scheduler()
-            self.wait_heartbeat()
-            self.wait_receiver()
-            self.wait_confirm()
+            try:
+                self.wait_submitter()
+                self.wait_scheduler()
+                self.wait_heartbeat()
+                self.wait_receiver()
+                self.wait_confirm()
+            except Exception:
+                self.abort()
+                raise
         log.debug('Done')
 
+    def abort(self: ServerThread) -> None:
+        """Stop what is left of a failed server (or it would take tasks from the next within the same program)."""
+        for thread in self.submitter, self.scheduler, self.heartmonitor, self.receiver, self.confirm:
+            if thread is not None:
+                thread.stop()
+        if self.scheduler is not None:
+            self.scheduler.join()
+
     def wait_ready(self: ServerThread) -> None:
         """Wait until clients can connect (or the server has failed to start)."""
         while self.is_alive() and not self.ready:
@@ -868,7 +880,7 @@ class ServerThread(Thread):
         if self.scheduler is not None:
             self.scheduler.stop(wait=wait, timeout=timeout)
         self.heartmonitor.stop(wait=wait, timeout=timeout)
-        self.queue.completed.put(None)
+        put_while_alive(self.queue.completed, self.receiver)
         self.receiver.stop(wait=wait, timeout=timeout)
         if not self.no_confirm:
             self.queue.confirmed.put(None)
-- 
2.43.0


From b62c48042b6c48c515126a573e0b2ea0883e36b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:08:42 +0000
Subject: [PATCH 70/73] fix: a client that lost its server while it was leaving
 hung for ever

---
 src/hypershell/client.py      | 33 ++++++++++++++++++++++++++++-----
 src/hypershell/core/thread.py | 13 +++++++++++++
 2 files changed, 41 insertions(+), 5 deletions(-)

diff --git a/src/hypershell/client.py b/src/hypershell/client.py
index 2806135..e3235cd 100644
--- a/src/hypershell/client.py
+++ b/src/hypershell/client.py
@@ -956,6 +956,14 @@ class ClientThread(Thread):
                           for count in range(num_tasks)]
 
     def run_with_exceptions(self: ClientThread) -> None:
+        """Run client (do not leave threads behind if any one fails)."""
+        try:
+            self.run_until_finished()
+        except Exception:
+            self.abort()
+            raise
+
+    def run_until_finished(self: ClientThread) -> None:
         """Start child threads, wait."""
         log.debug(f'Started ({self.num_tasks} executors)')
         self.wait_start()
@@ -995,21 +1003,21 @@ class ClientThread(Thread):
     def wait_scheduler(self: ClientThread) -> None:
         """Wait for all tasks to be completed."""
         log.trace('Waiting (scheduler)')
-        self.scheduler.join()
+        self.scheduler.join_unless_failed(self.collector, self.heartbeat, *self.executors)
 
     def wait_collector(self: ClientThread) -> None:
         """Signal collector to halt."""
         log.trace('Waiting (collector)')
-        self.outbound.put(None)
-        self.collector.join()
+        self.put_unless_failed(self.outbound)
+        self.collector.join_unless_failed(self.heartbeat)
 
     def wait_executors(self: ClientThread) -> None:
         """Send disconnect signal to each task executor thread."""
         for _ in self.executors:
-            self.inbound.put(None)  # signal executors to shut down
+            self.put_unless_failed(self.inbound)  # signal executors to shut down
         for thread in self.executors:
             log.trace(f'Waiting (executor-{thread.id})')
-            thread.join()
+            thread.join_unless_failed(self.collector, self.heartbeat)
 
     def wait_heartbeat(self: ClientThread) -> None:
         """Signal HALT on heartbeat."""
@@ -1017,6 +1025,21 @@ class ClientThread(Thread):
         self.heartbeat.signal_finished()
         self.heartbeat.join()
 
+    def put_unless_failed(self: ClientThread, queue: Queue[Optional[Task]]) -> None:
+        """Signal end of tasks on local `queue` (it stays full if whoever drains it has failed)."""
+        while True:
+            try:
+                return queue.put(None, timeout=1)
+            except QueueFull:
+                for thread in self.collector, self.heartbeat, *self.executors:
+                    thread.raise_if_failed()
+
+    def abort(self: ClientThread) -> None:
+        """Stop what is left of a failed client (or the server takes it to be alive)."""
+        for thread in self.scheduler, self.collector, self.heartbeat, *self.executors:
+            if thread.is_alive():
+                thread.stop()
+
     def stop(self: ClientThread, wait: bool = False, timeout: int = None) -> None:
         """Stop child threads before main thread."""
         log.warning('Stopping')
diff --git a/src/hypershell/core/thread.py b/src/hypershell/core/thread.py
index 6df278b..dda80a8 100644
--- a/src/hypershell/core/thread.py
+++ b/src/hypershell/core/thread.py
@@ -52,5 +52,18 @@ class Thread(threading.Thread, ABC):
     def join(self: Thread, timeout: Optional[float] = None) -> None:
         """Calls Thread.join but re-raises exceptions."""
         super().join(timeout=timeout)
+        self.raise_if_failed()
+
+    def raise_if_failed(self: Thread) -> None:
+        """Raise the exception the thread ended with (if any)."""
         if self.__exception:
             raise self.__exception
+
+    def join_unless_failed(self: Thread, *others: Optional[Thread]) -> None:
+        """Wait on thread unless one of the `others` fails before (raises its exception)."""
+        while self.is_alive():
+            self.join(timeout=1)
+            for other in others:
+                if other is not None:
+                    other.raise_if_failed()
+        self.join()
-- 
2.43.0


From d49d1528195495775b6f1fd8b405f2baf4e0d01d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:08:42 +0000
Subject: [PATCH 71/73] fix: a server hung for ever when its receiver, confirm
 or heartbeat thread had failed

---
 src/hypershell/server.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/hypershell/server.py b/src/hypershell/server.py
index 884c931..decbe3d 100644
--- a/src/hypershell/server.py
+++ b/src/hypershell/server.py
@@ -842,7 +842,7 @@ class ServerThread(Thread):
         """Wait on task submission to complete."""
         if self.submitter is not None:
             log.trace('Waiting (submitter)')
-            self.submitter.join()
+            self.submitter.join_unless_failed(self.scheduler, self.heartmonitor, self.receiver, self.confirm)
             if self.scheduler is not None:
                 self.scheduler.signal_submitter_done()
 
@@ -850,20 +850,20 @@ class ServerThread(Thread):
         """Wait scheduling until complete."""
         if self.scheduler is not None:
             log.trace('Waiting (scheduler)')
-            self.scheduler.join()
+            self.scheduler.join_unless_failed(self.heartmonitor, self.receiver, self.confirm)
 
     def wait_heartbeat(self: ServerThread) -> None:
         """Wait for heartmonitor to stop."""
         log.trace('Waiting (heartbeat)')
         self.heartmonitor.signal_scheduler_done()
         self.heartmonitor.signal_clients()
-        self.heartmonitor.join()
+        self.heartmonitor.join_unless_failed(self.receiver, self.confirm)
 
     def wait_receiver(self: ServerThread) -> None:
         """Wait for receiver to stop."""
         log.trace('Waiting (receiver)')
-        self.queue.completed.put(None)
-        self.receiver.join()
+        put_while_alive(self.queue.completed, self.receiver)
+        self.receiver.join_unless_failed(self.confirm)
 
     def wait_confirm(self: ServerThread) -> None:
         """Wait for confirm thread to stop."""
-- 
2.43.0


From e47a096fb09c3ac63719471c9cb4f69004516984 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:08:42 +0000
Subject: [PATCH 72/73] fix: a server without a database discarded the tasks
 still queued when its last client left

---
 src/hypershell/server.py | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/hypershell/server.py b/src/hypershell/server.py
index decbe3d..60fe1fb 100644
--- a/src/hypershell/server.py
+++ b/src/hypershell/server.py
@@ -495,6 +495,7 @@ class HeartMonitor(StateMachine):
 
     startup_phase: bool = True  # should not halt until at least one client
     scheduler_done: bool = False  # set by parent thread when scheduling is over
+    queue_drained: bool = False  # clients have taken all tasks (signals may be sent)
     should_signal: bool = False  # set by parent thread to signal clients
     signaled: int = 0  # disconnect requests posted and not yet matched by a departed client
     last_signal: float
@@ -586,7 +587,9 @@ class HeartMonitor(StateMachine):
         """Decide to bail, signal, check, or get another heartbeat."""
         if self.startup_phase:
             return HeartbeatState.NEXT
-        if not self.beats and self.scheduler_done:
+        if not self.beats and self.scheduler_done and not self.tasks_waiting():
+            if self.queue.pending(self.queue.heartbeat):
+                return HeartbeatState.NEXT  # NOTE: a client registers before it takes any task
             return HeartbeatState.FINAL
         now = time.monotonic()
         if (now - self.last_check) > self.wait_check.total_seconds() and self.queue.heartbeat.empty():
@@ -599,6 +602,12 @@ class HeartMonitor(StateMachine):
         else:
             return HeartbeatState.NEXT
 
+    def tasks_waiting(self: HeartMonitor) -> bool:
+        """Check if tasks which only exist in memory were not yet taken by any client."""
+        if not self.queue_drained and not (self.in_memory and self.queue.pending(self.queue.scheduled)):
+            self.queue_drained = True  # NOTE: whatever is put on the queue from here on is a disconnect request
+        return not self.queue_drained
+
     def check_clients(self: HeartMonitor) -> HeartbeatState:
         """Check last heartbeat on all clients and evict if necessary."""
         log.debug(f'Checking clients ({len(self.beats)} connected)')
@@ -618,7 +627,7 @@ class HeartMonitor(StateMachine):
 
     def signal_clients(self: HeartMonitor) -> HeartbeatState:
         """Send shutdown signal to connected clients (including those which register late)."""
-        if self.in_memory and self.queue.pending(self.queue.scheduled):
+        if self.tasks_waiting():
             return HeartbeatState.NEXT  # NOTE: must not overtake tasks (submitted by way of the queue client)
         log.debug(f'Signaling clients ({len(self.beats)} connected)')
         # NOTE: requests are anonymous (any client may take any of them)
-- 
2.43.0


From cd2243e9a530d42d0d8400bcaa92b30f283d7038 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:22:27 +0000
Subject: [PATCH 73/73] fix: stopping a client thread lost its results or hung
 for ever

---
 src/hypershell/client.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/hypershell/client.py b/src/hypershell/client.py
index e3235cd..c9cf9f6 100644
--- a/src/hypershell/client.py
+++ b/src/hypershell/client.py
@@ -152,6 +152,7 @@ class ClientScheduler(StateMachine):
     timeout: Optional[timedelta]
 
     previous_received: float  # monotonic
+    should_finish: bool = False
 
     task: Task
     tasks: List[Task]
@@ -198,6 +199,8 @@ class ClientScheduler(StateMachine):
         if check_signal() in (SIGUSR1, SIGUSR2) and CLIENT_STANDALONE_MODE:
             log.warning(f'Signal interrupt ({SIGNAL_MAP[check_signal()]})')
             return SchedulerState.FINAL
+        if self.should_finish:
+            return SchedulerState.FINAL
         try:
             self.bundle = self.queue.scheduled.get(timeout=2)
             self.queue.scheduled.task_done()
@@ -273,6 +276,10 @@ class ClientSchedulerThread(Thread):
         """Run machine."""
         self.machine.run()
 
+    def signal_finished(self: ClientSchedulerThread) -> None:
+        """Set signal flag to take no more tasks (those received are still passed on)."""
+        self.machine.should_finish = True
+
     def stop(self: ClientSchedulerThread, wait: bool = False, timeout: int = None) -> None:
         """Stop machine."""
         log.warning('Stopping (scheduler)')
@@ -1041,10 +1048,9 @@ class ClientThread(Thread):
                 thread.stop()
 
     def stop(self: ClientThread, wait: bool = False, timeout: int = None) -> None:
-        """Stop child threads before main thread."""
+        """Take no more tasks (those received are completed and returned before the thread ends)."""
         log.warning('Stopping')
-        self.scheduler.stop(wait=wait, timeout=timeout)
-        self.collector.stop(wait=wait, timeout=timeout)
+        self.scheduler.signal_finished()
         super().stop(wait=wait, timeout=timeout)
 
 
-- 
2.43.0

