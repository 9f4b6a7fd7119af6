------------------------------ MODULE RatusCore ------------------------------
(***************************************************************************)
(* What every operation of a Ratus task queue may answer and do.           *)
(*                                                                         *)
(* The store is a function S from task IDs to task records.  An operation  *)
(* is a record whose field "o" names it.  Apply(m, op, now, nonce, S) is   *)
(* the set of outcomes [code, ret, S] the operation may have when it takes *)
(* effect at the instant "now" on the store S and, if it has to issue a    *)
(* nonce, draws "nonce".  ReadOK judges the answers of the reading         *)
(* operations.                                                             *)
(*                                                                         *)
(* Times are abstract: a time is a non-empty tuple, <<>> stands for "not   *)
(* set".  The design models use <<n>>, recorded traces <<hi, mid, lo>>.    *)
(*                                                                         *)
(* "m" describes the storage engine: m.floor - it stores times truncated   *)
(* to milliseconds (MongoDB); m.ttl - completed tasks are expired by the   *)
(* server, not by the background jobs (MongoDB); m.lax - replacing a task  *)
(* by an identical one need not be counted as an update (MongoDB).         *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

CONSTANTS
  TLe(_, _),      \* order of times
  TAdd(_, _),     \* time + duration
  TRound(_),      \* a time truncated to a millisecond, the resolution of the indexes
  TMilli,         \* the duration of one millisecond
  TSecond         \* the duration of one second

Pending   == 0
Active    == 1
Completed == 2
Archived  == 3

NoTime == <<>>

MemMode   == [floor |-> FALSE, ttl |-> FALSE, lax |-> FALSE]
MongoMode == [floor |-> TRUE,  ttl |-> TRUE,  lax |-> TRUE]

Put(S, i, t)  == (i :> t) @@ S
Drop(S, D)    == TLCEval([j \in DOMAIN S \ D |-> S[j]])
Empty         == [j \in {} |-> 0]

St(m, t)  == IF m.floor /\ t # NoTime THEN TRound(t) ELSE t

\* A task as the engine stores it.
Stored(m, t) == [t EXCEPT !.produced  = St(m, @), !.scheduled = St(m, @),
                          !.consumed  = St(m, @), !.deadline  = St(m, @)]

-----------------------------------------------------------------------------
(* Answers *)

None              == [k |-> "none"]
TaskR(i, t)       == [k |-> "task", id |-> i, task |-> t]
UpdatedR(c, u)    == [k |-> "updated", created |-> c, updated |-> u]
DeletedR(n)       == [k |-> "deleted", n |-> n]
PromiseR(i, t)    == [k |-> "promise", p |-> [id |-> i, consumer |-> t.consumer, deadline |-> t.deadline]]
TopicR(n, c)      == [k |-> "topic", name |-> n, count |-> c]

Out(code, ret, S) == [code |-> code, ret |-> ret, S |-> S]
NotFound(S) == Out(404, None, S)
Conflict(S) == Out(409, None, S)
BadRequest(S) == Out(400, None, S)
UpdCode(c)  == IF c > 0 THEN 201 ELSE 200

-----------------------------------------------------------------------------
(* Claims *)

Claimed(m, t, p, now, nonce) ==
  [t EXCEPT !.state = Active, !.nonce = nonce, !.consumer = p.consumer,
            !.consumed = St(m, now), !.deadline = St(m, p.deadline)]

Waiting(S, topic) == TLCEval({i \in DOMAIN S : /\ S[i].state = Pending
                                       /\ S[i].topic = topic
                                       /\ S[i].scheduled # NoTime})

\* Tasks of the topic whose scheduled time has arrived ...
Due(S, topic, now) == TLCEval({i \in Waiting(S, topic) : TLe(S[i].scheduled, now)})

\* ... and those of them that come first in the order of the index.
Foremost(S, topic, now) ==
  LET D == Due(S, topic, now)
      f == CHOOSE i \in D : \A j \in D : TLe(TRound(S[i].scheduled), TRound(S[j].scheduled))
  IN  IF D = {} THEN {} ELSE {i \in D : TLe(TRound(S[i].scheduled), TRound(S[f].scheduled))}

\* The topic may be reported as drained only if nothing is due.  Tasks of one
\* millisecond are in no particular order, so a task that is due later within
\* the same millisecond may hide those that are due already.
MayBeDrained(S, topic, now) ==
  LET D == Due(S, topic, now)
      W == Waiting(S, topic)
  IN  \/ D = {}
      \/ \E j \in W \ D : \A i \in D : TLe(TRound(S[j].scheduled), TRound(S[i].scheduled))

Poll(m, op, now, nonce, S) ==
  { LET t == Claimed(m, S[i], op, now, nonce)
    IN Out(200, TaskR(i, t), Put(S, i, t)) : i \in Foremost(S, op.topic, now) }
  \cup (IF MayBeDrained(S, op.topic, now) THEN {NotFound(S)} ELSE {})

ClaimByID(m, op, now, nonce, S, force) ==
  IF op.id \notin DOMAIN S THEN {NotFound(S)}
  ELSE IF ~force /\ S[op.id].state # Pending THEN {Conflict(S)}
  ELSE LET t == Claimed(m, S[op.id], op, now, nonce)
       IN {Out(200, TaskR(op.id, t), Put(S, op.id, t))}

-----------------------------------------------------------------------------
(* Commits *)

Committed(m, t, op) ==
  [t EXCEPT !.nonce = "",
            !.state = op.state,
            !.topic = IF op.topic # "" THEN op.topic ELSE @,
            !.scheduled = IF op.scheduled # NoTime THEN St(m, op.scheduled) ELSE @,
            !.payload = IF op.payload # "" THEN op.payload ELSE @]

Commit(m, op, S) ==
  IF op.id \notin DOMAIN S THEN {NotFound(S)}
  ELSE IF op.nonce # "" /\ op.nonce # S[op.id].nonce THEN {Conflict(S)}
  ELSE LET t == Committed(m, S[op.id], op)
       IN {Out(200, TaskR(op.id, t), Put(S, op.id, t))}

-----------------------------------------------------------------------------
(* Releases and background jobs *)

Released(t) == [t EXCEPT !.state = Pending, !.nonce = ""]

ReleaseAll(S, R) == TLCEval([i \in DOMAIN S |-> IF i \in R THEN Released(S[i]) ELSE S[i]])

ActiveOf(S, topic) == TLCEval({i \in DOMAIN S : S[i].state = Active /\ S[i].topic = topic})

DeletePromise(op, S) ==
  IF op.id \in DOMAIN S /\ S[op.id].state = Active
  THEN {Out(200, DeletedR(1), ReleaseAll(S, {op.id}))}
  ELSE {Out(200, DeletedR(0), S)}

DeletePromises(op, S) ==
  LET R == ActiveOf(S, op.topic)
  IN {Out(200, DeletedR(Cardinality(R)), ReleaseAll(S, R))}

\* Comparisons with the clock are exact to a millisecond: within the
\* millisecond of the deadline both answers are right.
MayTimeOut(S, now) == TLCEval({i \in DOMAIN S : /\ S[i].state = Active /\ S[i].deadline # NoTime
                                        /\ TLe(S[i].deadline, now)})
MustTimeOut(S, now) == TLCEval({i \in MayTimeOut(S, now) : TLe(TAdd(S[i].deadline, TMilli), now)})

MayExpire(S, now, ret) == TLCEval({i \in DOMAIN S : /\ S[i].state = Completed /\ S[i].consumed # NoTime
                                            /\ TLe(TAdd(S[i].consumed, ret), now)})
MustExpire(S, now, ret) == TLCEval({i \in MayExpire(S, now, ret) :
                              TLe(TAdd(TAdd(S[i].consumed, ret), TMilli), now)})

\* MongoDB counts the period in whole seconds, rounded up.
MustExpireTTL(S, now, ret) == TLCEval({i \in MayExpire(S, now, ret) :
                                 TLe(TAdd(TAdd(S[i].consumed, ret), TSecond), now)})

Between(must, may) == {TLCEval(must \cup X) : X \in SUBSET (may \ must)}

Expirations(op, now, S) ==
  {Drop(S, X) : X \in Between(MustExpire(S, now, op.retention), MayExpire(S, now, op.retention))}

Recoveries(now, S) ==
  {ReleaseAll(S, R) : R \in Between(MustTimeOut(S, now), MayTimeOut(S, now))}

Chore(m, op, now, S) ==
  {Out(200, None, T) :
     T \in UNION {IF m.ttl THEN {R} ELSE Expirations(op, now, R) : R \in Recoveries(now, S)}}

\* The expiry of MongoDB's TTL index.
Expire(op, now, S) ==
  {Out(200, None, Drop(S, X)) : X \in Between(MustExpireTTL(S, now, op.retention), MayExpire(S, now, op.retention))}

-----------------------------------------------------------------------------
(* Producing *)

Insert(m, op, S) ==
  IF op.id \in DOMAIN S THEN {Conflict(S)}
  ELSE {Out(201, UpdatedR(1, 0), Put(S, op.id, Stored(m, op.task)))}

\* Replacing a task by an identical one may go uncounted if m.lax.
Upsert(m, op, S) ==
  LET t == Stored(m, op.task) IN
  IF op.id \notin DOMAIN S THEN {Out(201, UpdatedR(1, 0), Put(S, op.id, t))}
  ELSE {Out(200, UpdatedR(0, u), Put(S, op.id, t)) :
          u \in IF m.lax /\ S[op.id] = t THEN {0, 1} ELSE {1}}

BatchIds(ts) == {ts[n].id : n \in DOMAIN ts}

\* Of several tasks with one ID in a batch, an insertion keeps the first.
InsertAll(m, ts, S) ==
  LET first == [i \in BatchIds(ts) \ DOMAIN S |->
                  CHOOSE n \in DOMAIN ts : ts[n].id = i /\ \A k \in 1 .. n - 1 : ts[k].id # i]
      c     == Cardinality(DOMAIN first)
  IN {Out(UpdCode(c), UpdatedR(c, 0), [i \in DOMAIN first |-> Stored(m, ts[first[i]].task)] @@ S)}

\* ... and an overwriting one the last.
UpsertAll(m, ts, S) ==
  LET ids  == BatchIds(ts)
      last == [i \in ids |-> CHOOSE n \in DOMAIN ts : ts[n].id = i /\ \A k \in n + 1 .. Len(ts) : ts[k].id # i]
      c    == Cardinality(ids \ DOMAIN S)
      \* what the n-th task of the batch replaces
      prev(n) == LET P == {k \in 1 .. n - 1 : ts[k].id = ts[n].id}
                 IN IF P # {} THEN {Stored(m, ts[CHOOSE k \in P : \A j \in P : j <= k].task)}
                    ELSE IF ts[n].id \in DOMAIN S THEN {S[ts[n].id]} ELSE {}
      same == IF m.lax THEN Cardinality({n \in DOMAIN ts : prev(n) = {Stored(m, ts[n].task)}}) ELSE 0
      T    == [i \in ids |-> Stored(m, ts[last[i]].task)] @@ S
  IN {Out(UpdCode(c), UpdatedR(c, Len(ts) - c - u), T) : u \in 0 .. same}

-----------------------------------------------------------------------------
(* Deleting *)

DeleteSet(S, D) == {Out(200, DeletedR(Cardinality(D)), Drop(S, D))}

OfTopic(S, topic) == TLCEval({i \in DOMAIN S : S[i].topic = topic})

-----------------------------------------------------------------------------
Mutators == {"InsertTask", "UpsertTask", "InsertTasks", "UpsertTasks", "DeleteTask",
             "DeleteTasks", "DeleteTopic", "DeleteTopics", "Poll", "InsertPromise",
             "UpsertPromise", "DeletePromise", "DeletePromises", "Commit", "Chore",
             "Expire", "Restart"}

Readers  == {"GetTask", "ListTasks", "GetTopic", "ListTopics", "GetPromise", "ListPromises",
             "Pages"}

Claims == {"Poll", "InsertPromise", "UpsertPromise"}

Apply(m, op, now, nonce, S) ==
  CASE op.o = "InsertTask"     -> Insert(m, op, S)
    [] op.o = "UpsertTask"     -> Upsert(m, op, S)
    [] op.o = "InsertTasks"    -> InsertAll(m, op.ts, S)
    [] op.o = "UpsertTasks"    -> UpsertAll(m, op.ts, S)
    [] op.o = "DeleteTask"     -> DeleteSet(S, {op.id} \cap DOMAIN S)
    [] op.o = "DeleteTasks"    -> DeleteSet(S, OfTopic(S, op.topic))
    [] op.o = "DeleteTopic"    -> DeleteSet(S, OfTopic(S, op.topic))
    [] op.o = "DeleteTopics"   -> DeleteSet(S, DOMAIN S)
    [] op.o = "Poll"           -> Poll(m, op, now, nonce, S)
    [] op.o = "InsertPromise"  -> ClaimByID(m, op, now, nonce, S, FALSE)
    [] op.o = "UpsertPromise"  -> ClaimByID(m, op, now, nonce, S, TRUE)
    [] op.o = "DeletePromise"  -> DeletePromise(op, S)
    [] op.o = "DeletePromises" -> DeletePromises(op, S)
    [] op.o = "Commit"         -> Commit(m, op, S)
    [] op.o = "Chore"          -> Chore(m, op, now, S)
    [] op.o = "Expire"         -> Expire(op, now, S)
    [] op.o = "Restart"        -> {Out(200, None, S)}

-----------------------------------------------------------------------------
(* Reading *)

Lesser(a, b) == IF a < b THEN a ELSE b
Greater(a, b) == IF a > b THEN a ELSE b

\* Is the list of entries L a page of a list whose elements are the values of
\* Entry over the keys in K, where Key tells the key of an entry?
IsPage(L, K, Key(_), Entry(_), limit, offset) ==
  /\ Len(L) = Lesser(limit, Greater(0, Cardinality(K) - offset))
  /\ \A a \in 1 .. Len(L) : Key(L[a]) \in K /\ L[a] = Entry(Key(L[a]))
  /\ Cardinality({Key(L[a]) : a \in 1 .. Len(L)}) = Len(L)

TopicsOf(S) == {S[i].topic : i \in DOMAIN S}

KeyId(e)   == e.id
KeyName(e) == e
TaskEntry(S, i)    == [id |-> i, task |-> S[i]]
PromiseEntry(S, i) == [id |-> i, consumer |-> S[i].consumer, deadline |-> S[i].deadline]

RECURSIVE Flatten(_, _)
Flatten(ps, n) == IF n > Len(ps) THEN <<>> ELSE ps[n] \o Flatten(ps, n + 1)

ListOK(what, topic, S, L, limit, offset) ==
  CASE what = "tasks"    -> IsPage(L, OfTopic(S, topic), KeyId, LAMBDA i : TaskEntry(S, i), limit, offset)
    [] what = "promises" -> IsPage(L, ActiveOf(S, topic), KeyId, LAMBDA i : PromiseEntry(S, i), limit, offset)
    [] what = "topics"   -> IsPage(L, TopicsOf(S), KeyName, LAMBDA n : n, limit, offset)

ReadOK(op, S, code, ret) ==
  CASE op.o = "GetTask" ->
         IF op.id \in DOMAIN S THEN code = 200 /\ ret = TaskR(op.id, S[op.id])
         ELSE code = 404 /\ ret = None
    [] op.o = "GetPromise" ->
         IF op.id \in DOMAIN S /\ S[op.id].state = Active
         THEN code = 200 /\ ret = PromiseR(op.id, S[op.id])
         ELSE code = 404 /\ ret = None
    [] op.o = "GetTopic" ->
         LET n == Cardinality(OfTopic(S, op.topic))
         IN IF n > 0 THEN code = 200 /\ ret = TopicR(op.topic, n)
            ELSE code = 404 /\ ret = None
    [] op.o = "ListTasks" ->
         code = 200 /\ ret.k = "list" /\ ListOK("tasks", op.topic, S, ret.list, op.limit, op.offset)
    [] op.o = "ListPromises" ->
         code = 200 /\ ret.k = "list" /\ ListOK("promises", op.topic, S, ret.list, op.limit, op.offset)
    [] op.o = "ListTopics" ->
         code = 200 /\ ret.k = "list" /\ ListOK("topics", "", S, ret.list, op.limit, op.offset)
    [] op.o = "Pages" ->
         \* all pages of a list, one after the other
         /\ code = 200 /\ ret.k = "pages"
         /\ \A n \in 1 .. Len(ret.pages) :
              ListOK(op.what, op.topic, S, ret.pages[n], op.limit, (n - 1) * op.limit)
         /\ LET all == Flatten(ret.pages, 1)
            IN ListOK(op.what, op.topic, S, all, Len(all), 0)
         /\ Len(ret.pages[Len(ret.pages)]) < op.limit

\* All tasks and promises have the shape the operations rely on.
TaskFields == {"topic", "state", "nonce", "producer", "consumer", "produced", "scheduled",
               "consumed", "deadline", "payload"}
=============================================================================
