-------------------------------- MODULE MCApi --------------------------------
(***************************************************************************)
(* What RatusApi makes of every request of ApiGrid (C14, C15).  A state is *)
(* one request; the invariants say, in terms of other requests that must   *)
(* mean the same, what a request means:                                    *)
(*   - to leave something out is to give its default,                      *)
(*   - what is given absolutely wins over what is given relatively,        *)
(*   - a path and a body that name the same thing do not conflict, and it  *)
(*     does not matter which of them names it,                             *)
(*   - a query string means what the body with the same fields means,      *)
(*   - a batch is refused as a whole, and means what its tasks mean,       *)
(*   - what goes through is well-formed,                                   *)
(*   - a refusal has no effect, and whether to refuse does not depend on   *)
(*     what is stored.                                                     *)
(* The variants are specifications that are wrong in one respect.          *)
(***************************************************************************)
EXTENDS ApiGrid

CONSTANT Variant

MLe(a, b) == a[1] <= b[1]
MAdd(a, d) == <<a[1] + d[1]>>
MRound(a) == a
MMilli == <<2>>
MSecond == <<2000>>
MTen == <<1200000>>

VARIABLES kind, r
vars == <<kind, r>>

Now == <<Mid>>

N(q) ==
  LET n == Normalize(q, Now, Cfg) IN
  CASE Variant = "relative" /\ q.o \in Writes /\ ~n.bad /\ q.body.t.defer.k = "ok" ->
         [n EXCEPT !.op.task.scheduled = TAdd(Now, q.body.t.defer.d)]
    [] Variant = "kept" /\ q.o = "Commit" /\ ~n.bad /\ q.body.state = -1000 -> [n EXCEPT !.op.state = Pending]
    [] Variant = "path" /\ q.o \in Writes /\ n.bad /\ q.body.k = "ok" /\ q.pid # "" /\ q.body.t.id # "" ->
         Normalize([q EXCEPT !.pid = q.body.t.id], Now, Cfg)
    [] Variant = "partial" /\ q.o \in Batches /\ q.body.k = "ok" /\ n.bad ->
         Good([o |-> q.o, ts |-> <<>>])
    [] Variant = "wide" /\ q.o \in {"ListTasks"} /\ ~n.bad /\ q.limit.k = "none" -> [n EXCEPT !.op.limit = 10]
    [] OTHER -> n

Init == kind \in DOMAIN Kinds /\ r \in Kinds[kind]
Next == UNCHANGED vars
Spec == Init /\ [][Next]_vars

n0 == N(r)
Ok == ~n0.bad
Same(q) == N(q) = n0

-----------------------------------------------------------------------------
IsWrite == r.o \in Writes /\ r.body.k = "ok"
IsBatch == r.o \in Batches /\ r.body.k = "ok"
IsClaim == r.o \in Claims
IsCommit == r.o = "Commit"

Defaults ==
  /\ IsWrite /\ Ok =>
       /\ r.body.t.produced = NoTime => Same([r EXCEPT !.body.t.produced = Now])
       /\ r.body.t.scheduled = NoTime /\ r.body.t.defer.k = "none" => Same([r EXCEPT !.body.t.scheduled = Now])
       /\ r.body.t.scheduled = NoTime /\ r.body.t.defer.k = "none" => Same([r EXCEPT !.body.t.defer = D(0)])
       /\ r.body.t.scheduled = NoTime /\ r.body.t.defer.k = "ok" =>
            Same([r EXCEPT !.body.t.scheduled = TAdd(Now, r.body.t.defer.d), !.body.t.defer = None0])
  /\ IsClaim /\ Ok =>
       /\ r.body.deadline = NoTime /\ r.body.timeout.k = "none" => Same([r EXCEPT !.body.timeout = [k |-> "ok", d |-> DefaultTimeout]])
       /\ r.body.deadline = NoTime /\ r.body.timeout.k = "ok" =>
            Same([r EXCEPT !.body.deadline = TAdd(Now, r.body.timeout.d), !.body.timeout = None0])
       /\ r.body.k = "none" => Same([r EXCEPT !.body.k = "ok"])
  /\ IsCommit /\ Ok =>
       /\ r.body.state = -1000 => Same([r EXCEPT !.body.state = Completed])
       /\ r.body.scheduled = NoTime /\ r.body.defer.k = "ok" =>
            Same([r EXCEPT !.body.scheduled = TAdd(Now, r.body.defer.d), !.body.defer = None0])
       /\ r.body.k = "none" => Same([r EXCEPT !.body.k = "ok"])
  /\ kind = "lists" =>
       /\ r.offset.k = "none" => Same([r EXCEPT !.offset = [k |-> "ok", n |-> 0]])
       /\ r.limit.k = "none" => Same([r EXCEPT !.limit = [k |-> "ok", n |-> Lesser(10, Cfg.maxlimit)]])

\* ... even if the relative one makes no sense.
AbsoluteWins ==
  /\ IsWrite /\ r.body.t.scheduled # NoTime => \A d \in Durations : Same([r EXCEPT !.body.t.defer = d])
  /\ IsCommit /\ r.body.scheduled # NoTime => \A d \in Durations : Same([r EXCEPT !.body.defer = d])
  /\ IsClaim /\ r.body.deadline # NoTime => \A d \in Durations : Same([r EXCEPT !.body.timeout = d])

Named ==
  /\ IsWrite /\ r.pid # "" =>
       /\ r.body.t.id = "" => Same([r EXCEPT !.body.t.id = r.pid])
       /\ r.body.t.id \notin {"", r.pid} => ~Ok
       /\ Ok => n0.op.id = r.pid
  /\ IsWrite /\ r.body.t.topic = "" => Same([r EXCEPT !.body.t.topic = r.ptopic])
  /\ IsWrite /\ r.body.t.topic # "" => Same([r EXCEPT !.ptopic = ""])
  /\ IsClaim /\ r.pid # "" =>
       /\ r.body.id = "" => Same([r EXCEPT !.body.id = r.pid])
       /\ r.body.id \notin {"", r.pid} => ~Ok
       /\ Ok => n0.op.id = r.pid
  \* To poll for a task with a certain ID is to claim that task.
  /\ r.o = "Poll" /\ r.body.id # "" => Same([r EXCEPT !.o = "InsertPromise", !.pid = r.body.id])

QueryMeansBody == IsClaim => Same([r EXCEPT !.query = ~@])

Single(t) == [r EXCEPT !.o = IF @ = "InsertTasks" THEN "InsertTask" ELSE "UpsertTask", !.pid = t.id,
                       !.body = [k |-> "ok", t |-> t]]
BatchMeansItsTasks ==
  IsBatch =>
    /\ Ok <=> \A n \in DOMAIN r.body.ts : r.body.ts[n].id # "" /\ ~N(Single(r.body.ts[n])).bad
    /\ Ok => /\ Len(n0.op.ts) = Len(r.body.ts)
             /\ \A n \in DOMAIN r.body.ts :
                  LET s == N(Single(r.body.ts[n])) IN n0.op.ts[n] = [id |-> s.op.id, task |-> s.op.task]

\* Insertion and upsert differ in what they do to what is there, not in what they make of the request.
Twin == [InsertTask |-> "UpsertTask", UpsertTask |-> "InsertTask", InsertTasks |-> "UpsertTasks", UpsertTasks |-> "InsertTasks",
         InsertPromise |-> "UpsertPromise", UpsertPromise |-> "InsertPromise"]
Twins ==
  r.o \in DOMAIN Twin =>
    LET m == N([r EXCEPT !.o = Twin[r.o]]) IN
    IF Ok THEN ~m.bad /\ m.op = [n0.op EXCEPT !.o = Twin[r.o]] ELSE m = n0

WellTask(t) == /\ DOMAIN t = TaskFields /\ InRange(t.state) /\ t.topic # "" /\ t.scheduled # NoTime /\ t.produced # NoTime
WellFormed ==
  Ok => CASE n0.op.o \in Writes -> n0.op.id # "" /\ WellTask(n0.op.task)
          [] n0.op.o \in Batches -> \A n \in DOMAIN n0.op.ts : n0.op.ts[n].id # "" /\ WellTask(n0.op.ts[n].task)
          [] n0.op.o = "Poll" -> n0.op.deadline # NoTime
          [] n0.op.o \in Claims -> n0.op.id # "" /\ n0.op.deadline # NoTime
          [] n0.op.o = "Commit" -> n0.op.id # "" /\ InRange(n0.op.state)
          [] n0.op.o \in {"ListTasks", "ListPromises", "ListTopics"} ->
               n0.op.limit \in 1 .. Cfg.maxlimit /\ n0.op.offset \in 0 .. Cfg.maxoffset
          [] OTHER -> TRUE

\* Every request that is not refused has an outcome on every store ...
Answered ==
  Ok /\ n0.op.o \notin Readers \cup Probes => \A i \in DOMAIN Stores : Apply(MemMode, n0.op, Now, "n3", Stores[i]) # {}

\* ... and what it leaves behind keeps what is stored well-formed.
StaysWell ==
  Ok /\ n0.op.o \notin Readers \cup Probes =>
    \A i \in DOMAIN Stores : \A x \in Apply(MemMode, n0.op, Now, "n3", Stores[i]) :
      /\ \A j \in DOMAIN x.S : WellTask(x.S[j])
      /\ x.code >= 400 => x.S = Stores[i] /\ x.ret = None

\* Nothing that is not text, and nothing that cannot be understood, goes through.
Refused == (~r.utf8 \/ r.body.k = "bad") => ~Ok

\* No failure is reported as a success, and a refusal comes before all failures.
FailuresTold ==
  /\ \A f \in Failures : StatusOf(f) >= 400
  /\ \A f \in Failures : Same([r EXCEPT !.fail = f])
==============================================================================
