------------------------------- MODULE ApiGrid -------------------------------
(***************************************************************************)
(* The raw requests of the API over a small domain: every endpoint with    *)
(* every combination of what its path, query and body may hold.  MCApi     *)
(* checks RatusApi on each of them, ApiGen writes them down for the        *)
(* harness, which sends them to the real code.                             *)
(*                                                                         *)
(* Instants are integers, two to a millisecond; the clock stands at Mid.   *)
(***************************************************************************)
EXTENDS RatusApi

Mid  == 4
Past   == <<0>>
Future == <<9>>

None0 == [k |-> "none", d |-> <<0>>]
DBad  == [k |-> "bad",  d |-> <<0>>]
D(n)  == [k |-> "ok", d |-> <<n>>]
Durations == {None0, DBad, D(0), D(3), D(-3)}

Times == {NoTime, Past, Future}

TaskBase == [null |-> FALSE, id |-> "a", topic |-> "x", state |-> 0, nonce |-> "", producer |-> "", consumer |-> "",
             produced |-> NoTime, scheduled |-> NoTime, consumed |-> NoTime, deadline |-> NoTime, payload |-> "",
             defer |-> None0]
TaskFull == [TaskBase EXCEPT !.nonce = "n2", !.producer = "p", !.consumer = "c", !.consumed = <<3>>, !.deadline = <<7>>, !.payload = "q"]

\* The parts every request has.
R(o, pid, ptopic, body) ==
  [o |-> o, pid |-> pid, ptopic |-> ptopic, utf8 |-> TRUE, where |-> "", query |-> FALSE, body |-> body,
   fail |-> "", limit |-> [k |-> "none", n |-> 0], offset |-> [k |-> "none", n |-> 0]]

NoBody == [k |-> "none"]
Broken == [k |-> "bad"]

Writes == {"InsertTask", "UpsertTask"}
Batches == {"InsertTasks", "UpsertTasks"}

\* Where the ID and the topic come from, and the state ...
TaskNames ==
  {R(o, pid, pt, [k |-> "ok", t |-> [b EXCEPT !.id = i, !.topic = t, !.state = s]]) :
     o \in Writes, pid \in {"", "a", "b"}, pt \in {"", "x"}, b \in {TaskBase, TaskFull},
     i \in {"", "a", "b"}, t \in {"", "x", "y"}, s \in -1 .. 4}

\* ... where its times come from.
TaskTimes ==
  {R(o, "a", "x", [k |-> "ok", t |-> [b EXCEPT !.scheduled = s, !.defer = d, !.produced = p, !.state = st]]) :
     o \in Writes, b \in {TaskBase, TaskFull}, s \in Times, d \in Durations, p \in Times, st \in 0 .. 3}

TaskNulls ==
  {R(o, pid, pt, [k |-> "ok", t |-> [TaskBase EXCEPT !.null = TRUE]]) : o \in Writes, pid \in {"", "a"}, pt \in {"", "x"}}

Element ==
  {[b EXCEPT !.id = i, !.topic = t] : b \in {TaskBase, TaskFull}, i \in {"", "a", "b"}, t \in {"", "y"}}
  \cup {[TaskBase EXCEPT !.state = s] : s \in {-1, 3, 4}}
  \cup {[TaskBase EXCEPT !.defer = d, !.scheduled = s] : d \in {DBad, D(3)}, s \in {NoTime, Future}}
  \cup {[TaskBase EXCEPT !.null = TRUE], [TaskBase EXCEPT !.payload = "r", !.producer = "p"]}

TaskBatches ==
  {R(o, "", pt, [k |-> "ok", ts |-> ts]) : o \in Batches, pt \in {"", "x"},
     ts \in {<<>>} \cup {<<e>> : e \in Element} \cup {<<e, f>> : e \in Element, f \in Element}}

Promises ==
  {[R(o, pid, pt, [k |-> "ok", id |-> i, consumer |-> c, deadline |-> d, timeout |-> t]) EXCEPT !.query = q] :
     o \in Claims \ {"Poll"}, pid \in {"", "a", "b"}, pt \in {"", "x"}, i \in {"", "a", "b"}, c \in {"", "c"},
     d \in Times, t \in Durations, q \in BOOLEAN}
  \cup {[R("Poll", "", pt, [k |-> "ok", id |-> i, consumer |-> c, deadline |-> d, timeout |-> t]) EXCEPT !.query = q] :
     pt \in {"", "x", "y"}, i \in {"", "a", "b"}, c \in {"", "c"}, d \in Times, t \in Durations, q \in BOOLEAN}

\* A promise without a body has no wishes.
NoWishes(k) == [k |-> k, id |-> "", consumer |-> "", deadline |-> NoTime, timeout |-> None0]

Commits ==
  {R("Commit", pid, pt, [k |-> "ok", nonce |-> n, topic |-> t, state |-> s, scheduled |-> w, defer |-> d, payload |-> p]) :
     pid \in {"", "a", "b"}, pt \in {"", "x"}, n \in {"", "n1", "other"}, t \in {"", "y"}, s \in {-1000} \cup (-1 .. 4),
     w \in Times, d \in Durations, p \in {"", "r"}}

NoChanges(k) == [k |-> k, nonce |-> "", topic |-> "", state |-> -1000, scheduled |-> NoTime, defer |-> None0, payload |-> ""]

\* What a list may be asked for; the bounds are 3 and 2.
Cfg == [maxlimit |-> 3, maxoffset |-> 2]
Nums == {[k |-> "none", n |-> 0], [k |-> "bad", n |-> 0]} \cup {[k |-> "ok", n |-> n] : n \in -1 .. 4}
Lists ==
  {[R(o, "", pt, NoBody) EXCEPT !.limit = l, !.offset = f] :
     o \in {"ListTasks", "ListPromises"}, pt \in {"", "x"}, l \in Nums, f \in Nums}
  \cup {[R("ListTopics", "", "", NoBody) EXCEPT !.limit = l, !.offset = f] : l \in Nums, f \in Nums}

Plain ==
  {R(o, pid, pt, NoBody) : o \in {"GetTask", "DeleteTask", "GetPromise", "DeletePromise"}, pid \in {"", "a", "b"}, pt \in {"", "x"}}
  \cup {R(o, "", pt, NoBody) : o \in {"GetTopic", "DeleteTopic", "DeleteTasks", "DeletePromises"}, pt \in {"", "x", "y"}}
  \cup {R("DeleteTopics", "", "", NoBody)}

\* Bodies that are missing or cannot be understood.
Bodies(k) ==
  {R(o, pid, pt, [k |-> k]) : o \in Writes, pid \in {"", "a"}, pt \in {"", "x"}}
  \cup {R(o, "", pt, [k |-> k]) : o \in Batches, pt \in {"", "x"}}
  \cup {[R(o, IF o = "Poll" THEN "" ELSE pid, pt, NoWishes(k)) EXCEPT !.query = q] : o \in Claims, pid \in {"", "a", "b"}, pt \in {"", "x"}, q \in BOOLEAN}
  \cup {R("Commit", pid, pt, NoChanges(k)) : pid \in {"", "a", "b"}, pt \in {"", "x"}}

\* Requests that are not text: in the path or in the query.
HasTopic(r) == r.o \notin {"ListTopics", "DeleteTopics"}
HasId(r) == r.o \in {"InsertTask", "UpsertTask", "GetTask", "DeleteTask", "Commit", "InsertPromise", "UpsertPromise", "GetPromise", "DeletePromise"}
Sane ==
  {R(o, "a", "x", [k |-> "ok", t |-> TaskBase]) : o \in Writes}
  \cup {R(o, "", "x", [k |-> "ok", ts |-> <<TaskBase>>]) : o \in Batches}
  \cup {R(o, IF o = "Poll" THEN "" ELSE "a", "x", [NoWishes("ok") EXCEPT !.consumer = "c"]) : o \in Claims}
  \cup {R("Commit", "a", "x", NoChanges("ok"))}
  \cup {R(o, "a", "x", NoBody) : o \in {"GetTask", "DeleteTask", "GetPromise", "DeletePromise"}}
  \cup {R(o, "", "x", NoBody) : o \in {"GetTopic", "DeleteTopic", "DeleteTasks", "DeletePromises", "ListTasks", "ListPromises"}}
  \cup {R(o, "", "", NoBody) : o \in {"ListTopics", "DeleteTopics"}}
NoText ==
  {[r EXCEPT !.utf8 = FALSE, !.where = w] : r \in Sane, w \in {"topic", "id", "query"}}
NotText == {r \in NoText : (r.where = "topic" => HasTopic(r)) /\ (r.where = "id" => HasId(r))}

\* Requests that the storage engine fails, and those refused before they get there.
Failures == {"bad", "missing", "conflict", "closed", "cancelled", "gone", "down", "late", "other"}
Failed ==
  {[r EXCEPT !.fail = f] : r \in Sane, f \in Failures}
  \cup {[r EXCEPT !.fail = "other"] : r \in Bodies("bad")}

\* Probes of the instance.
Probed == {[R(o, "", "", NoBody) EXCEPT !.fail = f] : o \in Probes, f \in {"", "down"}}

Kinds == [names |-> TaskNames, times |-> TaskTimes, nulls |-> TaskNulls, batches |-> TaskBatches, promises |-> Promises,
          commits |-> Commits, lists |-> Lists, plain |-> Plain, nobody |-> Bodies("none"), broken |-> Bodies("bad"),
          nottext |-> NotText,
          failed |-> Failed, probed |-> Probed]

-----------------------------------------------------------------------------
\* The stores the requests meet.
Waits(t, n) == [topic |-> t, state |-> Pending, nonce |-> n, producer |-> "p", consumer |-> "", produced |-> Past,
                scheduled |-> <<1>>, consumed |-> NoTime, deadline |-> NoTime, payload |-> ""]
Runs(t) == [Waits(t, "n1") EXCEPT !.state = Active, !.consumer = "d", !.consumed = <<2>>, !.deadline = <<20>>, !.payload = "q"]
Ended(t) == [Waits(t, "") EXCEPT !.state = Completed, !.consumer = "d", !.consumed = <<2>>, !.deadline = <<3>>]
Stores == << Empty,
             "a" :> Waits("x", "") @@ "b" :> Runs("x"),
             "a" :> Runs("y") @@ "b" :> Ended("x"),
             "a" :> Waits("x", "n1") @@ "b" :> Waits("x", ""),
             [i \in {"a", "b", "c", "d"} |-> IF i \in {"a", "b"} THEN Runs("x") ELSE IF i = "c" THEN Waits("x", "") ELSE Waits("y", "")] >>
=============================================================================
