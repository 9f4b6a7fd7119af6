------------------------------ MODULE RatusApi ------------------------------
(***************************************************************************)
(* What the API makes of a request: a refusal (400) or an operation of     *)
(* RatusCore with every default filled in.                                 *)
(*                                                                         *)
(* A raw request r has r.o (the operation of the endpoint), the path       *)
(* parameters r.pid and r.ptopic ("" if absent), and, where the endpoint   *)
(* takes one, a body r.body with body.k = "none" (no body), "bad"          *)
(* (undecodable) or "ok".  Relative durations are records                  *)
(* [k |-> "none" | "ok" | "bad", d |-> duration].                          *)
(***************************************************************************)
EXTENDS RatusCore

CONSTANT DefaultTimeout    \* ten minutes

Bad     == [bad |-> TRUE, code |-> 400]
NoRoute == [bad |-> TRUE, code |-> 404]
Good(o) == [bad |-> FALSE, op |-> o]

InRange(s) == s \in Pending .. Archived

\* Tasks ------------------------------------------------------------------
TaskBad(b, pid, ptopic) ==
  \/ b.null
  \/ b.id = "" /\ pid = ""
  \/ b.id # "" /\ pid # "" /\ b.id # pid
  \/ b.topic = "" /\ ptopic = ""
  \/ ~InRange(b.state)
  \/ b.defer.k = "bad" /\ b.scheduled = NoTime

NormTask(b, pid, ptopic, now) ==
  [id   |-> IF b.id # "" THEN b.id ELSE pid,
   task |-> [topic     |-> IF b.topic # "" THEN b.topic ELSE ptopic,
             state     |-> b.state,
             nonce     |-> b.nonce,
             producer  |-> b.producer,
             consumer  |-> b.consumer,
             produced  |-> IF b.produced # NoTime THEN b.produced ELSE now,
             scheduled |-> IF b.scheduled # NoTime THEN b.scheduled
                           ELSE IF b.defer.k = "ok" THEN TAdd(now, b.defer.d) ELSE now,
             consumed  |-> b.consumed,
             deadline  |-> b.deadline,
             payload   |-> b.payload]]

\* Promises ---------------------------------------------------------------
PromiseBad(r) ==
  LET b == r.body IN
  \/ b.k = "bad"
  \/ b.id # "" /\ r.pid # "" /\ b.id # r.pid
  \/ b.deadline = NoTime /\ b.timeout.k = "bad"

PromiseDeadline(b, now) ==
  IF b.deadline # NoTime THEN b.deadline
  ELSE IF b.timeout.k = "ok" THEN TAdd(now, b.timeout.d) ELSE TAdd(now, DefaultTimeout)

PromiseID(r) == IF r.body.id # "" THEN r.body.id ELSE r.pid

NormPromise(r, now) ==
  LET id == PromiseID(r)
      c  == r.body.consumer
      d  == PromiseDeadline(r.body, now)
  IN IF r.o = "Poll" /\ id = ""
     THEN [o |-> "Poll", topic |-> r.ptopic, consumer |-> c, deadline |-> d]
     ELSE [o |-> IF r.o = "Poll" THEN "InsertPromise" ELSE r.o,
           id |-> id, consumer |-> c, deadline |-> d]

\* Commits ----------------------------------------------------------------
CommitBad(r) ==
  LET b == r.body IN
  \/ b.k = "bad"
  \/ b.state # -1000 /\ ~InRange(b.state)
  \/ b.scheduled = NoTime /\ b.defer.k = "bad"

NormCommit(r, now) ==
  LET b == r.body IN
  [o |-> "Commit", id |-> r.pid, nonce |-> b.nonce, topic |-> b.topic,
   state |-> IF b.state = -1000 THEN Completed ELSE b.state,
   scheduled |-> IF b.scheduled # NoTime THEN b.scheduled
                 ELSE IF b.defer.k = "ok" THEN TAdd(now, b.defer.d) ELSE NoTime,
   payload |-> b.payload]

\* Pagination: r.limit and r.offset are [k |-> "none" | "ok" | "bad", n].
PageBad(r, cfg) ==
  \/ r.limit.k = "bad" \/ r.offset.k = "bad"
  \/ r.limit.k = "ok" /\ (r.limit.n < 0 \/ r.limit.n > cfg.maxlimit)
  \/ r.offset.k = "ok" /\ (r.offset.n < 0 \/ r.offset.n > cfg.maxoffset)

PageLimit(r, cfg) ==
  IF r.limit.k = "ok" /\ r.limit.n > 0 THEN r.limit.n ELSE Lesser(10, cfg.maxlimit)
PageOffset(r) == IF r.offset.k = "ok" THEN r.offset.n ELSE 0

-----------------------------------------------------------------------------
\* What the storage engine may run into, and the status that tells of it.
StatusOf(failure) ==
  CASE failure = "bad"      -> 400
    [] failure = "missing"  -> 404
    [] failure = "conflict" -> 409
    [] failure \in {"closed", "cancelled", "gone"} -> 499    \* the client has given up
    [] failure = "down"     -> 503
    [] OTHER -> 500

Failing(r) == IF "fail" \in DOMAIN r THEN r.fail ELSE ""

\* Probes of the instance; it is alive whatever the engine says.
Probes == {"Ready", "Live"}

-----------------------------------------------------------------------------
\* The last segment of the path must not be empty.
LastSegment(r) ==
  CASE r.o \in {"InsertTask", "UpsertTask", "GetTask", "DeleteTask", "Commit",
                "InsertPromise", "UpsertPromise", "GetPromise", "DeletePromise"} -> r.pid
    [] r.o \in {"GetTopic", "DeleteTopic"} -> r.ptopic
    [] OTHER -> "-"

Normalize(r, now, cfg) ==
  CASE LastSegment(r) = "" -> NoRoute
    [] ~r.utf8 -> Bad
    [] r.o \in {"InsertTask", "UpsertTask"} ->
         IF r.body.k # "ok" THEN Bad
         ELSE IF TaskBad(r.body.t, r.pid, r.ptopic) THEN Bad
         ELSE LET n == NormTask(r.body.t, r.pid, r.ptopic, now)
              IN Good([o |-> r.o, id |-> n.id, task |-> n.task])
    [] r.o \in {"InsertTasks", "UpsertTasks"} ->
         IF r.body.k # "ok" THEN Bad
         ELSE IF \E n \in 1 .. Len(r.body.ts) : TaskBad(r.body.ts[n], "", r.ptopic) THEN Bad
         ELSE Good([o |-> r.o,
                    ts |-> [n \in 1 .. Len(r.body.ts) |-> NormTask(r.body.ts[n], "", r.ptopic, now)]])
    [] r.o \in Claims ->
         IF PromiseBad(r) THEN Bad ELSE Good(NormPromise(r, now))
    [] r.o = "Commit" ->
         IF CommitBad(r) THEN Bad ELSE Good(NormCommit(r, now))
    [] r.o \in {"ListTasks", "ListPromises", "ListTopics"} ->
         IF PageBad(r, cfg) THEN Bad
         ELSE Good([o |-> r.o, topic |-> r.ptopic, limit |-> PageLimit(r, cfg), offset |-> PageOffset(r)])
    [] r.o \in {"GetTask", "DeleteTask", "GetPromise", "DeletePromise"} ->
         Good([o |-> r.o, id |-> r.pid])
    [] r.o \in {"GetTopic", "DeleteTopic", "DeleteTasks", "DeletePromises"} ->
         Good([o |-> r.o, topic |-> r.ptopic])
    [] r.o \in {"DeleteTopics"} \cup Probes -> Good([o |-> r.o])
    [] OTHER -> Good(r)
=============================================================================
