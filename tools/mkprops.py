#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as code so that the long texts stay reviewable)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe, state=()):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, state=list(state),
            mechanism=[dict(name=n, where=w) for n, w in mech], observe_at=observe, hook_needed=None)))

MEM = "internal/engine/memdb/"
MON = "internal/engine/mongodb/"
BOTH = [MEM+"queue.go", MEM+"promise.go", MEM+"memdb.go", MON+"queue.go", MON+"promise.go", MON+"mongodb.go"]

p("C01", "A task is owned by at most one promise at a time",
  "A claim (polling a topic, or a non-forced claim of a task by ID) succeeds only on a task that is pending at that moment, and it makes that task active with the promised consumer and deadline, the time of the claim and a nonce never issued before, changing nothing else. Until the claim is ended by a commit, a release, a timeout recovery, a forced claim, an overwrite or a deletion, no other non-forced claim of the task succeeds, however many consumers compete; a claim on a non-pending task reports a conflict and changes nothing. A forced claim takes over an existing task in any state and supersedes the earlier claim.",
  ["schedules", "histories", "inputs"], "all interleavings of any number of consumers claiming, committing, releasing and timing out tasks, on either storage engine",
  "the suite races three goroutines over one topic once and only counts errors; it neither explores interleavings nor looks at the claimed fields, and nothing runs the MongoDB engine",
  BOTH + ["internal/controller/promise.go", "internal/middleware/promise.go"],
  [("claim and state check in one write transaction", MEM+"queue.go Poll, "+MEM+"promise.go InsertPromise"), ("findAndModify filtered on pending state, or on the peeked nonce", MON+"queue.go, "+MON+"promise.go"), ("fresh nonce per claim", "internal/nonce/nonce.go")],
  ["POST /topics/{topic}/promises", "POST|PUT /topics/{topic}/promises/{id}", "GET /topics/{topic}/tasks/{id}"],
  [dict(name="state, nonce, consumer, consumed, deadline", meaning="the claim in force on a task", where="ratus.go Task")])

p("C02", "Commits of superseded claims are rejected and change nothing",
  "A commit that carries a nonce is accepted exactly when it equals the task's current nonce, that is while the claim that issued it is still in force; any commit, release, timeout recovery, new claim or overwrite ends the earlier claim, so at most one of several commits for one claim succeeds. A rejected commit reports a conflict (not found if the task does not exist) and changes nothing; a commit without a nonce is accepted on any existing task.",
  ["histories", "schedules"], "all sequences and interleavings of claims, commits (fresh, stale, duplicated, forced), releases, recoveries and overwrites of a task",
  "tests try one wrong nonce and one duplicate commit; they never commit after a recovery, a release or a forced claim, nor race two commits",
  BOTH + ["internal/controller/task.go", "internal/middleware/commit.go", "context.go"],
  [("nonce comparison inside the write transaction", MEM+"queue.go Commit"), ("nonce in the findAndModify filter", MON+"queue.go commitAtomic, commitOptimistic"), ("nonce cleared on commit, recovery and release", MEM+"memdb.go updateOps*, "+MON+"mongodb.go updateOps*")],
  ["PATCH /topics/{topic}/tasks/{id}"])

p("C03", "A commit applies exactly the requested updates",
  "An accepted commit sets the task's state to the requested one (completed if none is given) and replaces topic, scheduled time and payload exactly when the commit gives them (a relative delay counts from the acceptance of the commit, an absolute time wins over it), clears the nonce, and leaves every other attribute and every other task as it was. The returned task equals the stored one, and afterwards the task behaves according to its new topic, state and schedule (for example it is handed out only from the topic it was transferred to).",
  ["inputs", "histories"], "every combination of commit fields applied to tasks in every state, at any time",
  "tests commit one fixed combination and compare the payload only",
  [MEM+"memdb.go", MEM+"queue.go", MON+"mongodb.go", MON+"queue.go", "internal/middleware/commit.go", "internal/controller/task.go", "context.go"],
  [("field-wise merge", MEM+"memdb.go updateOpsCommit, "+MON+"mongodb.go updateOpsCommit"), ("normalization of state and delay", "internal/middleware/commit.go")],
  ["PATCH /topics/{topic}/tasks/{id}", "GET /topics/{topic}/tasks/{id}"])

p("C04", "Every timed-out task is recovered, and no other",
  "Each run of the background jobs returns to pending every active task whose promised deadline has passed (at millisecond resolution), clearing its nonce so that the late consumer can no longer commit, and keeps all its other attributes, whatever the deadline and however many tasks there are. It leaves active tasks whose deadline lies ahead, and tasks in any other state, untouched.",
  ["inputs", "histories", "schedules"], "all sets of active tasks with any deadlines (past, distant past, equal, future) at any time of the run",
  "tests recover two tasks with one common deadline just passed; no mixed deadlines, no boundary, no large sets",
  [MEM+"queue.go", MEM+"memdb.go", MEM+"indexer.go", MON+"queue.go", MON+"mongodb.go"],
  [("scan of the active-by-deadline index up to now", MEM+"queue.go Chore"), ("updateMany on active tasks with an earlier deadline", MON+"queue.go Chore"), ("order-preserving time encoding", MEM+"indexer.go")],
  ["state of all tasks before and after a run of the background jobs"])

p("C05", "Polling respects topic, schedule and order",
  "Polling a topic returns only a pending task of exactly that topic whose scheduled time has arrived, and among those one with the earliest scheduled time (at millisecond resolution); whenever such a task exists it returns one. If there is none it reports not found and changes nothing, whatever other topics contain.",
  ["inputs", "histories"], "all sets of tasks over any topic names and scheduled times (including equal ones and any past or future date), at any time of polling",
  "tests poll two tasks of a single topic; other topics, names that are prefixes of each other, distant dates and rescheduled tasks are never present",
  [MEM+"queue.go", MEM+"memdb.go", MEM+"indexer.go", MON+"queue.go", MON+"mongodb.go", "internal/middleware/task.go"],
  [("lower bound on the pending-topic-scheduled index", MEM+"queue.go Poll"), ("query and sort of the pending tasks", MON+"mongodb.go queryOpsPoll, "+MON+"queue.go")],
  ["POST /topics/{topic}/promises"])

p("C06", "Only completed tasks expire, and only after the retention period",
  "A task disappears without a delete request only if it is completed and at least the retention period has passed since it was consumed; every such task is removed by the next run of the background jobs (for MongoDB: by the server's expiry of the configured index). Pending, active and archived tasks, and completed tasks within the retention period, are never removed by expiry.",
  ["inputs", "histories", "configurations"], "all sets of tasks in all states with any consumption times, all retention periods, at any time of the run",
  "tests expire two completed tasks with a 100 ms retention; no archived or older tasks, no re-opened tasks, and the MongoDB expiry is not run",
  [MEM+"queue.go", MEM+"memdb.go", MEM+"indexer.go", MON+"mongodb.go"],
  [("scan of the completed-by-consumed index", MEM+"queue.go Chore"), ("TTL index restricted to completed tasks", MON+"mongodb.go createIndexes")],
  ["state of all tasks before and after a run of the background jobs"])

p("C07", "Task IDs are unique across topics and inserts never overwrite",
  "At any time at most one task has a given ID, in whatever topic. Inserting an existing ID reports a conflict and changes nothing, inserting a batch adds exactly the tasks whose IDs are new and leaves existing ones untouched, upserting replaces the whole task (also its topic), and the reported numbers of created and updated tasks are exact. A batch that is rejected has no effect at all.",
  ["inputs", "histories", "schedules"], "all sequences of single and batch inserts and upserts with any overlap of IDs inside a batch and with stored tasks in any state and topic",
  "tests insert one duplicate in the same topic; overlaps across topics, inside a batch, with active or completed tasks are not tried",
  [MEM+"task.go", MON+"task.go", "internal/controller/task.go", "internal/middleware/task.go"],
  [("existence check inside the write transaction", MEM+"task.go"), ("unique _id, unordered bulk writes", MON+"task.go")],
  ["POST|PUT /topics/{topic}/tasks", "POST|PUT /topics/{topic}/tasks/{id}"])

p("C08", "Deletions remove exactly what they name",
  "Deleting a task, a topic's tasks, a topic, or all topics removes exactly the tasks named - the one with that ID, those of that topic, or all - whatever their state, and reports their exact number (zero if there are none). No other task is affected, however similar its ID or topic name.",
  ["inputs", "histories"], "all contents of the store and all names, including names that extend one another or contain unusual characters",
  "tests delete from stores with one topic and unrelated names",
  [MEM+"task.go", MEM+"topic.go", MEM+"memdb.go", MON+"task.go", MON+"topic.go", "internal/router/router.go", "internal/controller/topic.go", "internal/controller/task.go"],
  [("exact lookup in the id and topic indexes", MEM+"task.go DeleteTask, DeleteTasks; "+MEM+"topic.go DeleteTopic, DeleteTopics"), ("deleteOne/deleteMany filters", MON+"task.go, "+MON+"topic.go")],
  ["DELETE /topics, /topics/{topic}, /topics/{topic}/tasks, /topics/{topic}/tasks/{id}"])

p("C09", "Concurrent requests behave as if executed one after another",
  "The results of any set of concurrently executing requests, and the contents of the store afterwards, are those of some one-at-a-time execution that respects their real-time order; a batch insert, upsert, deletion or release and a run of the background jobs each take effect as a whole. On MongoDB such a batch takes effect task by task, a poll may have judged which task comes first at any moment while it ran, and a claim by ID or a commit whose own task was changed while it ran may report a conflict.",
  ["schedules", "histories"], "all interleavings of any mix of requests from several clients (and, for MongoDB, several instances on one database)",
  "tests run three identical calls in parallel a few times and count results; the interleavings that matter are never forced",
  BOTH + [MEM+"task.go", MEM+"topic.go", MON+"task.go"],
  [("one write transaction per request", MEM+"*.go"), ("single-document atomic commands with optimistic retries", MON+"*.go")],
  ["call and return of every request, and the final contents of the store"])

p("C10", "All views of the store agree and pages partition their list",
  "Looking up a task by ID, listing a topic's tasks, counting a topic, listing topics, and getting or listing promises all describe one and the same set of tasks: a topic exists exactly while it has tasks and its count is their number, and a promise exists exactly for each active task with that task's consumer and deadline. Reading changes nothing. While nothing changes, consecutive pages of a list contain every element exactly once, each page holding as many elements as its limit allows.",
  ["inputs", "histories"], "all contents of the store reached by any history, and all limit and offset values",
  "tests list three tasks in three topics with one or two page sizes",
  [MEM+"task.go", MEM+"topic.go", MEM+"promise.go", MEM+"memdb.go", MEM+"indexer.go", MON+"task.go", MON+"topic.go", MON+"promise.go", "internal/middleware/pagination.go"],
  [("index iteration with limit and offset", MEM+"task.go ListTasks, "+MEM+"topic.go ListTopics, "+MEM+"promise.go ListPromises"), ("index maintenance by copy-on-write updates", MEM+"memdb.go clone")],
  ["GET /topics, /topics/{topic}, /topics/{topic}/tasks[/{id}], /topics/{topic}/promises[/{id}]"])

p("C11", "Releasing promises returns exactly the active tasks to pending",
  "Deleting a promise returns its task to pending and invalidates its nonce if the task is active, and does nothing otherwise; deleting a topic's promises does so for exactly the active tasks of that topic. The number reported is the number of tasks released; all other attributes and tasks stay as they were, and a released task can be claimed again at once if it is due.",
  ["inputs", "histories"], "all stores with tasks in any mix of states and topics, in any history",
  "tests release promises in one topic where every task is active",
  [MEM+"promise.go", MEM+"memdb.go", MON+"promise.go", MON+"mongodb.go", "internal/controller/promise.go"],
  [("scan of the active-by-topic index", MEM+"promise.go DeletePromises"), ("state check before release", MEM+"promise.go DeletePromise, "+MON+"promise.go DeletePromise")],
  ["DELETE /topics/{topic}/promises, /topics/{topic}/promises/{id}"])

p("C12", "A crash leaves a complete, consistent snapshot",
  "With snapshots enabled on the in-memory engine, at every instant the snapshot file is either absent or a complete image of the store as it was at one moment, never older than the last save that was reported successful; a crash or an I/O error at any point of writing one leaves the previous snapshot usable, and reopening restores exactly that image. Once the snapshot interval has passed since the last save, the next run of the background jobs saves, and a save that fails is reported and attempted again by the next run.",
  ["crash_points", "fault_sequences", "histories"], "a crash before, or an error of, any file operation of any save in any history of requests, saves and restarts",
  "tests save and reload once without any crash or error",
  [MEM+"memdb.go", MEM+"queue.go"],
  [("write to a temporary file, then rename", MEM+"memdb.go save"), ("save interval bookkeeping", MEM+"queue.go Chore"), ("load at start", MEM+"memdb.go load")],
  ["contents of the snapshot directory", "state after reopening"])

p("C13", "A graceful stop and restart loses nothing",
  "After a graceful stop (interrupt or termination signal) and restart with a snapshot path, the store holds exactly the tasks it held, with every attribute and payload unchanged: requests still being processed when the stop begins are completed, everything acknowledged is in it, and the process ends by itself with exit code 0 (another one if the final snapshot could not be written), at whatever moment after its start the signal arrives. Promises, schedules and retention continue to work on the restored tasks as before.",
  ["inputs", "schedules", "histories"], "all contents and payloads, and all moments of the stop relative to requests in progress",
  "tests close and reopen an engine once with three payloads and no request in progress; the process is never stopped",
  [MEM+"memdb.go", "cmd/ratus/main.go", "ratus.go"],
  [("final save on close", MEM+"memdb.go Close"), ("graceful shutdown of the server before closing the engine", "cmd/ratus/main.go run, serve"), ("binary encoding of tasks", "ratus.go init")],
  ["state before the stop and after the restart", "responses to requests in progress"])

p("C14", "Requests are validated and defaulted before they touch anything",
  "A malformed or inconsistent request (undecodable body, missing or contradicting ID, missing topic, state out of range, unparsable delay or timeout, pagination out of range) is answered 400 and changes nothing. For valid requests omitted attributes take their documented defaults: ID and topic from the path, produced and scheduled time now, delays and timeouts counted from the acceptance of the request, a deadline ten minutes ahead, a commit to completed, pages of ten; explicit absolute times win over relative ones.",
  ["inputs"], "every combination of present, absent, valid and invalid request fields, path and query parameters",
  "tests try one example of some of the cases against a handler that echoes the request, never their effect on the store",
  ["internal/middleware/task.go", "internal/middleware/commit.go", "internal/middleware/promise.go", "internal/middleware/pagination.go", "internal/controller/controller.go", "internal/controller/promise.go"],
  [("normalization in the binding middleware", "internal/middleware/*.go normalize*")],
  ["status code and body of every response", "state of the store before and after"])

p("C15", "Outcomes are reported faithfully over HTTP and by the Go client",
  "Every request is answered, with a status that tells what happened: 201 exactly when tasks were created, 200 for other successes, 404 for missing resources, 409 for conflicts, 400 for bad requests, 503 when not ready, 500 for unexpected failures, 499 for requests cancelled by the client, with a matching error body. The Go client reaches the same operation for any ID, topic and arguments, sends its common headers along, and returns the same data (payloads as decoded too) or an error that wraps the sentinel for that status.",
  ["inputs", "fault_sequences"], "all operations with all their outcomes and engine errors, and all IDs and topic names (including ones that need escaping)",
  "tests check one success and one generic failure per endpoint against canned data; names are plain and error kinds are not crossed with endpoints",
  ["internal/controller/controller.go", "internal/controller/task.go", "internal/controller/promise.go", "internal/controller/topic.go", "internal/controller/health.go", "internal/router/router.go", "internal/middleware/prometheus.go", "ratus.go", "client.go", "transport.go"],
  [("status mapping", "ratus.go NewError, internal/controller/controller.go send"), ("error reconstruction", "ratus.go Err, client.go Request"), ("path escaping", "client.go, internal/router/router.go")],
  ["HTTP responses", "return values of the Go client"])

p("C16", "The MongoDB engine keeps its promises in every deployment mode",
  "On an unsharded collection and on one sharded by ID or by topic, with atomic operations, with their optimistic fallbacks and with automatic switching between them, every operation has the results and effects the API documents and never surfaces an internal limitation of the deployment. Several instances on one database, interleaved at any point, never hand one task to two consumers, never accept two commits of one claim and never lose an update except in the documented delete-and-insert fallback of upserts.",
  ["configurations", "schedules", "histories", "fault_sequences"], "all deployment modes and fallback settings, all interleavings of the database commands of several instances, all operation sequences, and server errors at any command",
  "every test of this engine needs a MongoDB server and is skipped without one; with one, modes are not sharded and interleavings are not controlled",
  [MON+"mongodb.go", MON+"queue.go", MON+"promise.go", MON+"task.go", MON+"topic.go"],
  [("branch between preferred and fallback implementation", MON+"mongodb.go branch"), ("optimistic concurrency on the nonce", MON+"queue.go pollOptimistic, commitOptimistic; "+MON+"promise.go *Optimistic"), ("index definitions and hints", MON+"mongodb.go createIndexes")],
  ["results of engine operations", "documents and indexes held by the database"])

p("C17", "Subscribers execute and acknowledge every claimed task once",
  "A subscription polls with the given consumer and timeout only, never runs more handlers at once than its concurrency, and calls the handler exactly once for every task it claims and once for every failure (an empty topic is no failure). After each handled task it commits exactly the updates the handler configured, under the claim's nonce and completing it by default, unless the handler already committed; a failed commit is reported to the handler. It pauses for the configured poll, drain or error interval accordingly and returns when its context ends.",
  ["schedules", "histories", "fault_sequences"], "all sequences of server responses to polls and commits, all handler behaviours, cancellation at any moment, any concurrency",
  "tests count handler calls within 150 ms of real time against a stub that always succeeds or always fails",
  ["client.go", "context.go"],
  [("polling loop", "client.go Subscribe"), ("commit preparation and once-only commit", "client.go Poll, context.go")],
  ["requests the server receives", "handler calls", "return of Subscribe"])

p("C18", "Accepted tasks are executed at least once",
  "A task that was accepted stays stored and in circulation until a commit takes it out, it is deleted, or it expires: as long as consumers keep polling its topic and the background jobs run, it is handed out once its scheduled time has come, and handed out again after every promise that times out, is released or is committed back to pending, however often consumers crash. A running server performs the background jobs at the configured interval (after an initial random delay; never if the interval is zero), also after a run has failed.",
  ["histories", "schedules", "fault_sequences"], "all histories of producers, crashing consumers, retries and transfers; all failures of background jobs",
  "tests never follow a task through more than one claim, and never run the server's background loop",
  [MEM+"queue.go", MEM+"memdb.go", MEM+"indexer.go", MON+"queue.go", "cmd/ratus/main.go"],
  [("recovery and polling", MEM+"queue.go, "+MON+"queue.go"), ("background loop", "cmd/ratus/main.go chore")],
  ["tasks handed out while draining the store", "state of overdue tasks in a running server"])

p("C19", "Counters and gauges tell exactly what happened",
  "The produced, consumed and committed counters increase by exactly the number of tasks created or replaced by producers, successfully claimed, and successfully committed, each under the labels of the task concerned (topic, producer, consumer; a batch under the topic of its path and the producer of its first task), and never for requests that failed or changed nothing. Each successful claim sets the gauge of the schedule delay to the time from the task's scheduled to its consumed time, and each successful commit of a consumed task the gauge of the execution time to the time since it was consumed, under the same labels. Every answered request is observed once in the request histogram under its topic, method, endpoint and status code.",
  ["inputs", "histories"], "all sequences of requests with all outcomes and labels",
  "tests check that one metric name appears in the exposition",
  ["internal/controller/task.go", "internal/controller/promise.go", "internal/metrics/metrics.go", "internal/middleware/prometheus.go"],
  [("counter and gauge updates after each request", "internal/controller/task.go, internal/controller/promise.go collectMetrics"), ("request observation", "internal/middleware/prometheus.go")],
  ["GET /metrics"])

p("C20", "Instances run exactly as they are configured",
  "Every option can be given as a command line flag or as an environment variable; the flag wins over the variable and the variable over the documented default, and each takes effect on exactly what it documents: the storage engine (its name in any case), the address and port to listen on (none for port 0), the interval and the initial (possibly random) delay of the background jobs, the largest limit and offset of pages, the path and interval of snapshots and the retention period of MemDB, and for MongoDB the deployment, database and collection, the retention period (rounded up to seconds, also if the index exists with another one), the creation of indexes, the automatic fallbacks and the way of polling. An instance that neither serves requests nor runs background jobs ends successfully. A setting that cannot be used (unparsable, an unknown engine, an unreadable snapshot, an address that is taken) ends the program with an exit code other than zero, and unless it was the address, before anything has been touched; so does a database that refuses the indexes it is to have.",
  ["inputs", "histories"], "all configurations: every option by flag, variable, both or neither, with valid and invalid values, in combination with the others",
  "tests parse a few flags into each configuration structure; none runs the program with them or looks at environment variables, defaults or effects",
  ["cmd/ratus/main.go", "internal/config/config.go", "internal/middleware/pagination.go", MEM+"memdb.go", MON+"mongodb.go"],
  [("options and defaults", "internal/config/config.go, " + MEM + "memdb.go Config, " + MON + "mongodb.go Config"), ("start of the instance", "cmd/ratus/main.go run, serve, chore"),
   ("pages", "internal/middleware/pagination.go"), ("indexes, expiry and fallbacks", MON + "mongodb.go New, Open")],
  ["addresses that accept connections", "answers to requests for pages", "runs of the background jobs and their effects", "snapshot files", "commands received by the database", "exit code"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for x in P:
        f.write(json.dumps(x) + "\n")
print(len(P), "properties")
