"""Source of properties.jsonl (run: python3 tools/gen_properties.py > properties.jsonl)."""
import json

S = 'src/hypershell/'
P = []


def prop(id, title, statement, over, text, why, files, mech, observe, state=()):
    assert len(title) <= 80, (id, len(title))
    P.append({
        'id': id, 'title': title, 'statement': statement,
        'quantifier': {'over': over, 'text': text},
        'why_tests_cant': why,
        'anchors': {
            'files': [S + f for f in files],
            'mechanism': [{'name': n, 'where': S + w} for n, w in mech],
            'state': [{'name': n, 'meaning': m} for n, m in state],
            'observe_at': observe,
            'hook_needed': None,
        }})


NOTESTS = ('The 19 existing tests only construct and print database URLs; nothing starts a server, client, '
           'submitter or cluster. ')

prop('C01', 'No submitted task is lost when clients fail',
     'In a run backed by a database, every task given to the server (from its own input or already waiting in the '
     'database) is eventually run to completion at least once and gets a completion record, except tasks a user '
     'cancelled or deleted. This holds although clients crash, stall, lose the network, are evicted, or leave on '
     'timeout or signal, provided a working client remains and the failed client had confirmed what it received. '
     'The server never ends its run as finished while such a task has no completion record.',
     ['schedules', 'crash_points', 'fault_sequences'],
     'every interleaving of server and client threads; every client crash, stall, reset or departure point; all '
     'bundle sizes, client counts and task durations',
     NOTESTS + 'Losing a task needs a crash or departure at a particular point between queue, confirmation, execution '
     'and return, which no sampled schedule of a unit test settles.',
     ['server.py', 'client.py', 'submit.py', 'data/model.py', 'core/queue.py'],
     [('schedule/finish decision', 'server.py:Scheduler.load_bundle'),
      ('eviction and orphan revert', 'server.py:HeartMonitor.check_clients, data/model.py:Task.revert_orphaned'),
      ('confirmation', 'server.py:Confirm, client.py:ClientScheduler.put_confirm'),
      ('result return', 'client.py:ClientCollector, server.py:Receiver')],
     ['task table at the end of the run', 'ledger of simulated process executions', 'exit of the server command'],
     [('task.schedule_time/completion_time/client_id', 'where a task is in its life cycle')])

prop('C02', 'Without failures every task attempt runs exactly once',
     'While no client crashes or is evicted and the server is not restarted, each task attempt recorded in the '
     'database is executed exactly once, by exactly one client, however slow or reordered messages between the '
     'processes are. Tasks are never executed that were not submitted.',
     ['schedules', 'configurations'],
     'all interleavings of scheduler, receiver, confirm, heartbeat and executor threads of several clients; all '
     'message delays; all bundle sizes and executor counts',
     NOTESTS + 'Duplicate or missing execution depends on the schedule of concurrent processes.',
     ['server.py', 'client.py', 'data/model.py', 'core/queue.py'],
     [('marking tasks scheduled', 'data/model.py:Task.next'), ('bundle hand-over', 'server.py:Scheduler.post_bundle'),
      ('local dispatch', 'client.py:ClientScheduler.put_local, TaskExecutor.get_local')],
     ['ledger of simulated process executions', 'task table'])

prop('C03', 'Completion records describe an execution that really happened',
     'A completed task record carries the exit status, start and completion time, duration, client id and host, '
     'command and output paths of one actual execution of that very task, and its command is exactly the client '
     'template applied to the arguments as submitted. Arguments, tags and submission data are never altered on '
     'their way through scheduling, execution and return, whatever characters they contain.',
     ['inputs', 'schedules', 'histories'],
     'all task argument strings (including ones that look like dates, numbers, JSON or contain quotes, braces and '
     'non-ASCII text), tags, exit statuses, durations, interleavings and concurrent tasks',
     NOTESTS + 'The space of argument strings and of concurrent completions is unbounded.',
     ['client.py', 'data/model.py', 'server.py'],
     [('serialisation', 'data/model.py:Entity.pack, Entity.unpack, to_json_type, from_json_type'),
      ('recording', 'client.py:TaskExecutor'), ('persisting', 'server.py:Receiver.update_tasks')],
     ['task table', 'ledger of simulated process executions'])

prop('C04', 'Failed tasks are retried up to the configured limit and no further',
     'Each task that finishes with a non-zero exit status is attempted again, as a new record linked both ways to the '
     'old one with the attempt number increased and the same arguments and tags, until it succeeds or the configured '
     'number of attempts is used up; tasks that succeed are never retried. The server does not finish while a failed '
     'task still has attempts left, and no attempt ever has two successors.',
     ['schedules', 'histories', 'configurations'],
     'all patterns of failing attempts, retry limits, eager and non-eager mode, bundle sizes, and moments at which a '
     'failure is reported relative to the scheduler',
     NOTESTS + 'Whether the last failure is still retried depends on when it is committed relative to the '
     'scheduler\'s queries.',
     ['data/model.py', 'server.py'],
     [('selection of failed tasks', 'data/model.py:Task.select_failed, Task.next'),
      ('finish decision', 'server.py:Scheduler.load_bundle')],
     ['task table (attempt, retried, previous_id, next_id, tag)', 'ledger of simulated process executions'])

prop('C05', 'Scheduling honours submission order, retry preference and size limits',
     'New tasks are handed out in the order they were submitted and in bundles no larger than the configured bundle '
     'size, and no more bundles are outstanding in the queue than the configured queue size. By default retries of '
     'failed tasks are handed out only when too few new tasks are waiting to fill a bundle; in eager mode failed tasks '
     'eligible for retry go out before any new task, whichever command (server or cluster) enables it.',
     ['schedules', 'configurations', 'histories'],
     'all submission streams, retry patterns, bundle and queue sizes, both retry modes, all interleavings of submitter, '
     'scheduler and receiver',
     NOTESTS + 'Order and back-pressure are properties of the whole history of scheduling decisions.',
     ['data/model.py', 'server.py', 'cluster/__init__.py', 'core/queue.py'],
     [('selection', 'data/model.py:Task.select_new, Task.next'), ('bundling', 'server.py:Scheduler'),
      ('queue bound', 'core/queue.py:QueueServer.start'), ('mode flag', 'server.py:ServerApp, cluster/__init__.py:ClusterApp')],
     ['bundles put on the scheduled queue', 'database state at each scheduling decision'])

prop('C06', 'Silent clients are evicted, their tasks rescheduled, live ones kept',
     'A client is marked evicted and disconnected, and its unfinished confirmed tasks become schedulable again, '
     'within the eviction period plus a tenth of it (and polling slack) after its last heartbeat; a client whose '
     'heartbeats keep arriving is never evicted. Tasks it had already completed and tasks of other clients are not '
     'touched, a client that was wrongly presumed dead is registered again with its next heartbeat, and a client that '
     'leaves normally is recorded as disconnected but not evicted.',
     ['schedules', 'fault_sequences', 'crash_points'],
     'all client crash, stall, partition and departure times, heartbeat rates, eviction periods and numbers of clients',
     NOTESTS + 'Detection depends on time, on message delay and on crash points.',
     ['server.py', 'client.py', 'data/model.py', 'core/heartbeat.py'],
     [('heart monitor', 'server.py:HeartMonitor'), ('heartbeats', 'client.py:ClientHeartbeat'),
      ('revert', 'data/model.py:Task.revert_orphaned')],
     ['client table', 'task table', 'heartbeats delivered'])

prop('C07', 'A departing client finishes and returns everything it accepted',
     'When a client stops because the server disconnects it, its idle timeout passes, or it receives USR1, it runs '
     'every task it accepted, delivers every result to the server, reports itself disconnected and exits with status '
     'zero. It accepts no further bundle after it decided to leave, and no result is dropped whatever the bundle size, '
     'bundle wait or congestion of the return queue. The tasks it leaves to others are not lost either where they exist '
     'in memory only: a server without a database does not end while tasks it accepted wait for a client.',
     ['schedules', 'configurations', 'histories'],
     'all moments of departure relative to queued, running and collected tasks; all bundle sizes and waits; all delays '
     'of the shared queues',
     NOTESTS + 'The drain path is only reached through a shutdown at a particular moment.',
     ['client.py', 'core/signal.py', 'server.py'],
     [('drain sequence', 'client.py:ClientThread.run_with_exceptions'), ('final flush', 'client.py:ClientCollector.finalize'),
      ('disconnect', 'server.py:HeartMonitor.signal_clients')],
     ['task table', 'client table', 'ledger of executions', 'exit status of the client command'])

prop('C08', 'Restarting after a server crash neither loses nor repeats finished work',
     'When the server (alone or with its clients) dies at any point and is started again on the same database, every '
     'task completion recorded before the crash is kept unchanged and not executed again, and every task that was '
     'waiting or in flight is run to completion. Submission, scheduling, confirmation and completion each survive the '
     'crash either entirely or not at all.',
     ['crash_points', 'schedules', 'histories'],
     'every crash point of the server (between any two database statements, commits or queue operations), repeated '
     'crashes, all task and retry states at that time',
     NOTESTS + 'Requires crashing between arbitrary statements and restarting on what is durable.',
     ['server.py', 'data/model.py', 'data/core.py', 'submit.py'],
     [('revert of interrupted tasks', 'server.py:Scheduler.start, data/model.py:Task.revert_interrupted'),
      ('transactions', 'data/model.py:Entity.add_all, Entity.update_all, Task.next')],
     ['task table before and after', 'ledger of executions per server life'])

prop('C09', 'Submission stores each input line exactly once, in order and durably',
     'Submitting a source stores exactly one task per input line, with surrounding whitespace removed, the submit '
     'template applied and the given tags attached, in input order, and the number reported equals the number stored. '
     'A task read from a slow source is stored at most the bundle wait (plus polling slack) after it was read even if '
     'no further line arrives, and if the submitter dies, what is stored is a prefix of the input made of whole tasks.',
     ['inputs', 'crash_points', 'schedules'],
     'all input streams and arrival times, templates, tags, bundle sizes and waits; every crash point; database '
     'contention with other submitters and servers',
     NOTESTS + 'Needs arrival timing, crash points and concurrent writers.',
     ['submit.py', 'data/model.py', 'task.py'],
     [('loader', 'submit.py:Loader'), ('committer', 'submit.py:DatabaseCommitter'), ('drain', 'submit.py:SubmitThread')],
     ['task table over time', 'return value of the submit call', 'exit status of the submit command'])

prop('C10', 'Database-free runs deliver every task once and collect every result',
     'With the database disabled, every input line is delivered to exactly one client and executed exactly once, its '
     'result is received by the server, and server and clients end by themselves, whatever the bundle size, bundle '
     'wait, queue congestion and number of clients. This also holds when the database is disabled automatically because '
     'none is configured, and tasks submitted to a running server\'s queue directly behave the same.',
     ['schedules', 'inputs', 'configurations'],
     'all input streams, bundle settings, client counts, task durations and interleavings without crashes',
     NOTESTS + 'No test runs the in-memory mode.',
     ['submit.py', 'server.py', 'client.py'],
     [('direct submission', 'submit.py:QueueCommitter, LiveSubmitThread'), ('in-memory server', 'server.py:ServerThread')],
     ['ledger of executions', 'completed bundles received', 'exit of both commands'])

prop('C11', 'The failure stream lists exactly the failed task attempts',
     'When redirecting failures is enabled (to a file or standard output), the arguments of each attempt received with '
     'a non-zero exit status appear exactly once, one per line and unaltered, and nothing else appears. The output is '
     'complete when the server ends.',
     ['schedules', 'inputs'],
     'all mixes of failing and succeeding tasks, retries, bundle sizes and arrival orders, with and without database',
     NOTESTS + 'Completeness depends on shutdown order.',
     ['server.py', 'cluster/__init__.py'],
     [('printing failures', 'server.py:Receiver.update_tasks'), ('closing', 'server.py:ServerApp.__exit__')],
     ['failure file contents', 'completed bundles received'])

prop('C12', 'Overrunning or interrupted tasks are stopped by escalating signals',
     'A task running longer than the task timeout, or running when the client receives USR2, is sent SIGINT, then '
     'SIGTERM one signal-wait later and SIGKILL another signal-wait later, each at most once and only while it still '
     'runs, and its recorded exit status is the real one. Tasks within their limit are never signalled, and the '
     'executor continues with the next task afterwards.',
     ['schedules', 'configurations', 'inputs'],
     'all task durations, timeouts, signal waits, sets of ignored signals and reaction delays, concurrent executors',
     NOTESTS + 'Requires control over time and process behaviour.',
     ['client.py', 'core/signal.py'],
     [('escalation', 'client.py:TaskExecutor.check_task, wait_signal, stop_task, term_task, kill_task')],
     ['signals delivered to simulated processes', 'task table'])

prop('C13', 'Executors honour the parallelism limit and keep tasks apart',
     'A client never runs more tasks at once than its configured number of executors, and uses all of them when enough '
     'tasks are waiting locally. Each task runs in the configured directory with an environment that describes exactly '
     'itself (id, arguments, tags, exported variables), and with capture enabled its output goes to its own two files '
     'and to no other task\'s.',
     ['schedules', 'configurations', 'inputs'],
     'all numbers of executors, tasks, bundle sizes, durations and interleavings of executor threads',
     NOTESTS + 'Mixing up of concurrent tasks needs particular interleavings.',
     ['client.py', 'core/config.py'],
     [('executors', 'client.py:TaskExecutor.start_task, ClientThread'), ('environment', 'client.py:task_env')],
     ['ledger of executions with environment, working directory and output handles', 'capture files'])

prop('C14', 'A task that cannot be started is reported failed and stops nothing else',
     'If a task cannot be launched (its template cannot be expanded, the operating system refuses to start the process, '
     'or its working directory or output files cannot be opened), it is recorded as completed with a non-zero exit '
     'status. The client goes on to run all other tasks as usual with its full number of executors.',
     ['inputs', 'fault_sequences'],
     'all positions of such tasks in the stream and all launch faults (template errors, EAGAIN, ENOMEM, E2BIG, ENOSPC, '
     'EACCES, ENOENT, invalid bytes), all executor counts',
     NOTESTS + 'Needs injected launch faults.',
     ['client.py', 'core/template.py'],
     [('expansion failures', 'client.py:TaskExecutor.create_task'), ('launch', 'client.py:TaskExecutor.start_task')],
     ['task table', 'ledger of executions'])

prop('C15', 'Every run comes to an end',
     'Once the input is exhausted, faults have stopped and a working client is connected, the server completes the '
     'remaining tasks and it and every surviving client exit by themselves within a bounded time, with status zero '
     'where nothing went wrong. This holds for the server, client and cluster commands with any number of clients '
     'joining late, leaving early, crashing or being evicted.',
     ['schedules', 'fault_sequences', 'configurations'],
     'all interleavings of the shutdown sequence with client arrival, departure, crash and eviction; all queue sizes',
     NOTESTS + 'Progress and absence of deadlock hold over schedules, not sampled calls.',
     ['server.py', 'client.py', 'cluster/local.py', 'core/queue.py', 'core/thread.py', 'core/fsm.py'],
     [('shutdown sequence', 'server.py:ServerThread.run_with_exceptions'), ('disconnecting clients', 'server.py:HeartMonitor'),
      ('client end', 'client.py:ClientThread.run_with_exceptions')],
     ['exit of all simulated processes within a simulated time bound'])

prop('C16', 'Cancel, revert, delete and tag edits take effect exactly as asked',
     'A task cancelled before it is scheduled is never executed nor retried, a finished task that is reverted is '
     'executed again, a deleted task disappears, and field or tag edits change exactly the matching tasks, also while a server is scheduling and '
     'completing tasks on the same database. None of these edits makes the server fail, lose other tasks, undo the edit '
     'later, or wait forever.',
     ['schedules', 'histories'],
     'all interleavings of user commands with scheduling, confirmation, completion, retry, eviction and restart; all '
     'selection conditions',
     NOTESTS + 'The edits race with a running server.',
     ['task.py', 'data/model.py', 'server.py'],
     [('edit commands', 'task.py:TaskUpdateApp'), ('model', 'data/model.py:Task.cancel_all, revert_all'),
      ('scheduler queries', 'data/model.py:Task.count_remaining, select_new, select_failed')],
     ['task table', 'ledger of executions', 'server progress'])

prop('C17', 'Waiting on or running a task reports its real outcome',
     'The wait command returns only after the task has really completed and not later than about one polling interval '
     'after that, and reports the recorded exit status of that task; the run command submits exactly one task and does '
     'the same for it. A task id that does not exist is reported as an error instead of waiting.',
     ['schedules', 'histories'],
     'all completion times and statuses relative to the polling, with other tasks completing concurrently',
     NOTESTS + 'Depends on timing relative to a concurrent server.',
     ['task.py', 'data/model.py'],
     [('polling', 'task.py:TaskWaitApp.wait_task'), ('run', 'task.py:TaskRunApp')],
     ['exit status, output and end time of the command', 'task table history'])

prop('C18', 'Autoscaling keeps the number of clients within its limits',
     'An autoscaling cluster starts with the initial size and then adds at most one client per scaling period, never '
     'launching a client when the maximum size is already running and always replacing clients below the minimum size. '
     'When no client runs and tasks remain it launches one within a period; under the fixed policy it adds no others, under '
     'the dynamic policy it adds one below the maximum size exactly while the estimated time to complete the remaining tasks '
     'exceeds the factor times the average task duration. It never fails while estimating, whatever clients or tasks do.',
     ['schedules', 'fault_sequences', 'configurations'],
     'all policies, sizes, periods and factors; all client exits, crashes, timeouts and task loads over time',
     NOTESTS + 'The scaling decisions depend on the history of clients and tasks.',
     ['cluster/remote.py', 'data/model.py'],
     [('scaler', 'cluster/remote.py:AutoScaler'), ('pressure', 'data/model.py:Task.task_pressure')],
     ['launch history of simulated client processes', 'task and client tables at each launch'])

prop('C19', 'Changing settings never corrupts or loses other settings',
     'Setting a configuration value leaves every other setting in the file and the permissions of the file as they were, '
     'keeps the previous content in a backup next to it, and is visible to the next program start. If the program dies or '
     'the disk fails at any point while saving, the file holds the complete configuration from before or after the change, '
     'and a program that starts at any moment reads one of the two; success is reported only when the change is stored.',
     ['crash_points', 'fault_sequences', 'inputs'],
     'every crash point and disk fault while saving, repeated changes within one second, all existing contents, '
     'scopes and values',
     NOTESTS + 'Needs crashes between individual file operations.',
     ['core/config.py', 'config.py'],
     [('update', 'core/config.py:update'), ('command', 'config.py:ConfigSetApp')],
     ['configuration directory after crash', 'values read back by a fresh process'])

prop('C20', 'Cluster commands start every requested client with the given settings',
     'The cluster command starts exactly the requested clients (one locally, one per listed host over SSH, or what the '
     'launcher starts), each able to connect and configured with the parallelism, template, bundling, timeouts, capture '
     'and confirmation settings given to the cluster. All tasks are executed under those settings, and the command ends '
     'when the work is done.',
     ['configurations', 'schedules'],
     'all cluster modes and option combinations, host lists, templates with shell metacharacters, start-up delays',
     NOTESTS + 'No test launches a cluster.',
     ['cluster/__init__.py', 'cluster/local.py', 'cluster/remote.py', 'cluster/ssh.py'],
     [('local', 'cluster/local.py:LocalCluster'), ('launcher', 'cluster/remote.py:RemoteCluster'),
      ('ssh', 'cluster/ssh.py:SSHCluster')],
     ['command lines of launched simulated clients', 'ledger of executions', 'exit of the cluster command'])

prop('C21', 'Finished results reach the server without undue delay',
     'A client returns a finished task\'s result as soon as its bundle is full and otherwise no later than the bundle '
     'wait (plus polling slack) after the task finished, as long as the server accepts bundles. Bundles hold only '
     'finished results, never more than the bundle size, and no result is returned twice.',
     ['schedules', 'configurations'],
     'all bundle sizes and waits, task durations, executor counts and interleavings',
     NOTESTS + 'A timing guarantee over all schedules.',
     ['client.py'],
     [('collector', 'client.py:ClientCollector')],
     ['completed bundles received over simulated time', 'ledger of executions'])

prop('C22', 'Stopping the server by signal is orderly and resumable',
     'After USR1 or USR2 the server hands out no further tasks, disconnects its clients, records the result of every '
     'task already handed out to a working client, and exits. Tasks not yet handed out stay exactly as they were, and '
     'a later run on the same database completes them and nothing else.',
     ['schedules', 'histories'],
     'every moment of signal delivery relative to scheduling, execution, retry and completion; one or several clients',
     NOTESTS + 'Needs signals at arbitrary points of a running system.',
     ['server.py', 'core/signal.py', 'client.py'],
     [('signal check', 'server.py:Scheduler.load_bundle'), ('shutdown', 'server.py:ServerThread.run_with_exceptions')],
     ['task table at exit and after the second run', 'ledger of executions'])

prop('C23', 'Settings take effect from every documented place in the documented order',
     'Every documented setting governs what the system does from wherever it is given: the system, user and local '
     'configuration files, the file named by HYPERSHELL_CONFIG_FILE, the environment and the command line, each place '
     'counting over the ones before it, as plain value, `_env` or `_eval` variant alike. What `hs config get` and '
     '`hs config which` report is the value, and the place, that the programs on that host use.',
     ['configurations', 'inputs'],
     'all combinations of places, variants, value types and settings; observed in the behaviour of the running system',
     NOTESTS + 'No test loads a configuration file; what a setting does only shows in a running server or client.',
     ['core/config.py', 'config.py', 'server.py', 'client.py', 'cluster/__init__.py'],
     [('merge', 'core/config.py:partial_load'), ('origin', 'core/config.py:blame'),
      ('options', 'server.py:ServerApp'), ('options', 'client.py:ClientApp')],
     ['timing, bundles, ports, log lines and executions of the simulated system', 'output of hs config get/which'])

prop('C24', 'Searches and reports show exactly what is stored',
     'Whatever is asked of the task table (conditions, tags, order, limit, fields, counts, tag names and values, single '
     'tasks), the answer holds exactly the matching tasks as they were stored at one moment, every value as stored, in '
     'every output format, and captured output byte for byte. Asking changes nothing, also while servers and clients work.',
     ['inputs', 'schedules'],
     'all combinations of conditions, tags, orders, formats and stored values, at every moment of a running system',
     NOTESTS + 'No test searches a database that others write.',
     ['task.py', 'data/model.py'],
     [('conditions', 'task.py:WhereClause'), ('search', 'task.py:SearchableMixin'), ('search', 'task.py:TaskSearchApp'),
      ('report', 'task.py:TaskInfoApp')],
     ['output of the commands', 'states of the task table from start to end of each command', 'captured files'])

prop('C25', 'Programs that embed hyper-shell get complete runs, counts and errors',
     'A program may use the library\'s functions and threads (run_local, LocalCluster, serve_from/serve_file, ServerThread '
     'with ClientThread, run_client, submit_from/submit_file) one after another. Each call returns only when its tasks, and '
     'those waiting in the database, are complete and executed as often as the settings say; counts and lists of failures '
     'are right, and runs in memory store nothing. A source that fails or a port in use makes the call raise that error '
     'instead of hanging or losing it, and later calls still work. A client thread that is stopped ends, with every task it '
     'took completed and returned; other clients get the rest.',
     ['schedules', 'histories', 'fault_sequences'],
     'all sequences of calls, sources, sizes and settings; sources that fail at any element; ports in use; every interleaving '
     'of the threads in one program',
     NOTESTS + 'No test runs a server, client or cluster as a library.',
     ['cluster/local.py', 'server.py', 'client.py', 'submit.py', 'core/queue.py', 'core/thread.py'],
     [('local', 'cluster/local.py:run_local'), ('server', 'server.py:ServerThread'), ('client', 'client.py:ClientThread'),
      ('submit', 'submit.py:SubmitThread')],
     ['values and errors seen by the simulated program', 'ledger of executions', 'task table'])

prop('C26', 'Losing the server, its database or a connection hangs nobody and hides nothing',
     'When a server dies, or the connection of a client is reset, every client connected to it ends within a bounded time '
     'after its running tasks, even while it is leaving or its return queue is full, and ends with an error if it could not '
     'return what it took. When the database or the file of failures of a server fails, the server ends (with an error if '
     'tasks are unfinished) rather than waiting for ever, and so do its clients. A server restarted on the same database '
     'completes what is left.',
     ['crash_points', 'fault_sequences', 'schedules'],
     'every moment of loss relative to the protocol between client and server; all sizes of bundles and queues; failing '
     'database statements and full disks at any point; local, remote and autoscaling clusters',
     NOTESTS + 'No test runs a client against a server that fails.',
     ['client.py', 'server.py', 'core/thread.py', 'core/queue.py', 'cluster/local.py', 'cluster/ssh.py', 'cluster/remote.py'],
     [('waits', 'core/thread.py:Thread.join_unless_failed'), ('client', 'client.py:ClientThread.run_with_exceptions'),
      ('server', 'server.py:ServerThread.run_with_exceptions'), ('connection', 'core/queue.py:QueueClient')],
     ['exit times and statuses of the simulated programs', 'bundles taken and results returned', 'task table'])

if __name__ == '__main__':
    for p in P:
        print(json.dumps(p))
