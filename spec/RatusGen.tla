------------------------------ MODULE RatusGen ------------------------------
(***************************************************************************)
(* Every store of up to two tasks over a small domain, and every operation *)
(* on them: the grid of single steps that is replayed into the real code.  *)
(* Instants are integers, two to a millisecond; the clock stands at Mid.   *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils

Mid == 4
T(n) == <<n>>
NoTime == <<>>
Retention == <<2>>

Topics == {"x", "y"}
Ids    == {"a", "b"}

\* around now: long past, a millisecond ago, just before, now, later in the same millisecond, future
Around == {T(0), T(Mid - 2), T(Mid - 1), T(Mid), T(Mid + 1), T(Mid + 4)}

Base == [topic |-> "", state |-> 0, nonce |-> "", producer |-> "p", consumer |-> "", produced |-> T(0),
         scheduled |-> T(0), consumed |-> NoTime, deadline |-> NoTime, payload |-> ""]

Variants ==
     {[Base EXCEPT !.topic = t, !.scheduled = s, !.nonce = n, !.payload = p] :
        t \in Topics, s \in Around \cup {NoTime}, n \in {"", "n1"}, p \in {"", "q"}}
  \cup {[Base EXCEPT !.topic = t, !.state = 1, !.scheduled = s, !.nonce = n, !.consumer = "c", !.consumed = T(0), !.deadline = d] :
        t \in Topics, s \in {NoTime, T(0)}, n \in {"", "n1"}, d \in Around \cup {NoTime}}
  \cup {[Base EXCEPT !.topic = t, !.state = 2, !.consumer = "c", !.consumed = s, !.deadline = d] :
        t \in Topics, s \in Around \cup {NoTime}, d \in {NoTime, T(0)}}
  \cup {[Base EXCEPT !.topic = t, !.state = 3, !.consumed = s, !.deadline = d] :
        t \in Topics, s \in {NoTime, T(0)}, d \in {NoTime, T(0)}}

Given ==
     {[Base EXCEPT !.topic = t, !.scheduled = s, !.payload = "r"] : t \in Topics, s \in {T(Mid), T(Mid + 4)}}
  \cup {[Base EXCEPT !.topic = "y", !.state = s, !.nonce = "g", !.consumed = T(0), !.deadline = T(0)] : s \in 1 .. 3}

Deadlines == {NoTime, T(Mid), T(Mid + 3)}

Ops ==
     {[o |-> o, id |-> i, task |-> t] : o \in {"InsertTask", "UpsertTask"}, i \in Ids, t \in Given}
  \cup {[o |-> o, ts |-> b] : o \in {"InsertTasks", "UpsertTasks"},
          b \in {<<>>} \cup {<<[id |-> i, task |-> t], [id |-> j, task |-> u]>> :
                     i \in Ids, j \in Ids, t \in Given, u \in {[Base EXCEPT !.topic = "x", !.payload = "second"]}}}
  \cup {[o |-> o, id |-> i] : o \in {"DeleteTask", "DeletePromise", "GetTask", "GetPromise"}, i \in Ids}
  \cup {[o |-> o, topic |-> t] : o \in {"DeleteTasks", "DeleteTopic", "DeletePromises", "GetTopic"}, t \in Topics}
  \cup {[o |-> "DeleteTopics"]}
  \cup {[o |-> "Poll", topic |-> t, consumer |-> "d", deadline |-> d] : t \in Topics, d \in Deadlines}
  \cup {[o |-> o, id |-> i, consumer |-> "d", deadline |-> d] :
          o \in {"InsertPromise", "UpsertPromise"}, i \in Ids, d \in Deadlines}
  \cup {[o |-> "Commit", id |-> i, nonce |-> n, topic |-> t, state |-> x, scheduled |-> s, payload |-> p] :
          i \in Ids, n \in {"", "n1", "other"}, t \in {"", "y"}, x \in 0 .. 3, s \in {NoTime, T(Mid + 4)}, p \in {"", "r"}}
  \cup {[o |-> "Chore", retention |-> Retention], [o |-> "Expire", retention |-> Retention]}
  \cup {[o |-> o, topic |-> t, limit |-> l, offset |-> f] :
          o \in {"ListTasks", "ListPromises"}, t \in Topics, l \in {1, 2}, f \in {0, 1}}
  \cup {[o |-> "ListTopics", topic |-> "", limit |-> l, offset |-> f] : l \in {1, 2}, f \in {0, 1}}
  \cup {[o |-> "Pages", what |-> w, topic |-> IF w = "topics" THEN "" ELSE "x", limit |-> 1] :
          w \in {"tasks", "promises", "topics"}}

ASSUME JsonSerialize(IOEnv.GRID, [mid |-> Mid, retention |-> Retention, variants |-> Variants, ops |-> Ops])
ASSUME PrintT(<<"GRID", Cardinality(Variants), Cardinality(Ops)>>)

VARIABLE x
Init == x = 0
Next == UNCHANGED x
=============================================================================
