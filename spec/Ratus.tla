-------------------------------- MODULE Ratus --------------------------------
(***************************************************************************)
(* The task queue as a state machine: producers, consumers, background     *)
(* jobs and the clock take steps whose effects are those of RatusCore.     *)
(*                                                                         *)
(* The properties below are stated over ghost variables that are kept by   *)
(* the kind of step alone, not by the operators of RatusCore, so that      *)
(* checking them shows that RatusCore means what the properties say.       *)
(***************************************************************************)
EXTENDS RatusCore

CONSTANTS Ids, Topics, Consumers, Payloads,
          MaxTime,      \* the clock stops here
          MaxClaims,    \* nonces that may be issued
          MaxBatch,
          Retention,    \* duration
          Engine,       \* MemMode or MongoMode
          Rich          \* more arguments for every operation

VARIABLES S,       \* the store
          now,     \* number of the current instant
          issued,  \* how many nonces were issued
          live,    \* ghost: claims that have not been ended, <<id, nonce>>
          born,    \* ghost: tasks that were created and not deleted or expired
          last     \* ghost: what the last step was

vars == <<S, now, issued, live, born, last>>
view == <<S, now, issued, live>>

Now == <<now>>
Times == {<<n>> : n \in 0 .. MaxTime}
NonceOf(n) == "n" \o ToString(n)
AllNonces == {NonceOf(n) : n \in 1 .. issued}

BaseTask == [topic |-> "", state |-> Pending, nonce |-> "", producer |-> "", consumer |-> "",
             produced |-> <<0>>, scheduled |-> <<0>>, consumed |-> NoTime, deadline |-> NoTime,
             payload |-> ""]

\* Tasks as producers submit them.
NewTasks ==
  {[BaseTask EXCEPT !.topic = t, !.scheduled = s, !.payload = p] :
      t \in Topics, s \in {Now} \cup (IF Rich THEN {NoTime, <<now + 1>>} ELSE {<<now + 1>>}),
      p \in Payloads}
  \cup (IF Rich
        THEN {[BaseTask EXCEPT !.topic = t, !.state = x, !.consumed = c, !.deadline = d] :
                t \in Topics, x \in {Active, Completed, Archived}, c \in {NoTime, Now}, d \in {NoTime, Now}}
        ELSE {[BaseTask EXCEPT !.topic = t, !.state = Archived] : t \in Topics})

Deadlines == {Now, <<now + 1>>} \cup (IF Rich THEN {NoTime, <<now + 2>>} ELSE {})

Batches(items) == UNION {[1 .. n -> items] : n \in 0 .. MaxBatch}

Ops ==
       {[o |-> "InsertTask", id |-> i, task |-> t] : i \in Ids, t \in NewTasks}
  \cup {[o |-> "UpsertTask", id |-> i, task |-> t] : i \in Ids, t \in NewTasks}
  \cup (IF MaxBatch > 0
        THEN LET items == {[id |-> i, task |-> t] : i \in Ids, t \in NewTasks}
             IN {[o |-> o, ts |-> b] : o \in {"InsertTasks", "UpsertTasks"}, b \in Batches(items)}
        ELSE {})
  \cup {[o |-> o, id |-> i] : o \in {"DeleteTask", "DeletePromise"}, i \in Ids}
  \cup {[o |-> o, topic |-> t] : o \in {"DeleteTasks", "DeleteTopic", "DeletePromises"}, t \in Topics}
  \cup {[o |-> "DeleteTopics"]}
  \cup (IF issued < MaxClaims
        THEN {[o |-> "Poll", topic |-> t, consumer |-> c, deadline |-> d] : t \in Topics, c \in Consumers, d \in Deadlines}
             \cup {[o |-> o, id |-> i, consumer |-> c, deadline |-> d] :
                     o \in {"InsertPromise", "UpsertPromise"}, i \in Ids, c \in Consumers, d \in Deadlines}
        ELSE {})
  \cup {[o |-> "Commit", id |-> i, nonce |-> n, topic |-> t, state |-> x, scheduled |-> s, payload |-> p] :
          i \in Ids, n \in AllNonces \cup {""}, t \in IF Rich THEN Topics \cup {""} ELSE {""} ,
          x \in Pending .. Archived, s \in {NoTime} \cup (IF Rich THEN {<<now + 1>>} ELSE {}),
          p \in IF Rich THEN Payloads \cup {""} ELSE {""}}
  \cup {[o |-> "Chore", retention |-> Retention]}
  \cup (IF Engine.ttl THEN {[o |-> "Expire", retention |-> Retention]} ELSE {})

Fresh == NonceOf(issued + 1)

\* The claims that an operation ends, by what it is.
Ends(op, x, before) ==
  {c \in live :
     \/ op.o \in {"DeleteTask", "DeleteTopic", "DeleteTopics", "DeleteTasks", "Expire"} /\ c[1] \notin DOMAIN x.S
     \/ op.o \in {"DeletePromise", "UpsertTask", "UpsertPromise", "Commit"} /\ x.code < 400 /\ c[1] = op.id
     \/ op.o = "DeletePromises" /\ before[c[1]].topic = op.topic
     \/ op.o = "UpsertTasks" /\ \E n \in 1 .. Len(op.ts) : op.ts[n].id = c[1]
     \/ op.o = "Chore" /\ before[c[1]].deadline # NoTime /\ TLe(before[c[1]].deadline, Now)
          /\ (x.S[c[1]].state = Pending)}

Do(op) ==
  \E x \in Apply(Engine, op, Now, Fresh, S) :
    LET claimed == op.o \in Claims /\ x.code = 200 IN
    /\ S' = x.S
    /\ issued' = IF claimed THEN issued + 1 ELSE issued
    /\ live' = (live \ Ends(op, x, S)) \cup (IF claimed THEN {<<x.ret.id, Fresh>>} ELSE {})
    /\ born' = CASE op.o = "InsertTask" /\ x.code = 201 -> born \cup {op.id}
                 [] op.o = "UpsertTask" -> born \cup {op.id}
                 [] op.o \in {"InsertTasks", "UpsertTasks"} -> born \cup {op.ts[n].id : n \in 1 .. Len(op.ts)}
                 [] op.o = "DeleteTask" -> born \ {op.id}
                 [] op.o \in {"DeleteTasks", "DeleteTopic"} -> {i \in born : S[i].topic # op.topic}
                 [] op.o = "DeleteTopics" -> {}
                 [] op.o \in {"Chore", "Expire"} ->
                      {i \in born : ~(S[i].state = Completed /\ i \notin DOMAIN x.S)}
                 [] OTHER -> born
    /\ last' = [op |-> op, code |-> x.code, ret |-> x.ret]
    /\ UNCHANGED now

Tick == now < MaxTime /\ now' = now + 1 /\ last' = [op |-> [o |-> "Tick"]] /\ UNCHANGED <<S, issued, live, born>>

Init == /\ S = Empty /\ now = 0 /\ issued = 0 /\ live = {} /\ born = {}
        /\ last = [op |-> [o |-> "Tick"]]

Next == Tick \/ \E op \in Ops : Do(op)

Spec == Init /\ [][Next]_vars

-----------------------------------------------------------------------------
(* Invariants and action properties, by the property they stand for.       *)

TypeOK ==
  /\ \A i \in DOMAIN S : /\ i \in Ids /\ S[i].topic \in Topics /\ S[i].state \in Pending .. Archived
                         /\ DOMAIN S[i] = TaskFields
  /\ issued \in 0 .. MaxClaims

\* C01, C02: a live claim owns its task, and no two claims own one.
Ownership ==
  /\ \A c \in live : c[1] \in DOMAIN S /\ S[c[1]].state = Active /\ S[c[1]].nonce = c[2]
  /\ \A c, d \in live : c[1] = d[1] => c = d

\* MongoDB keeps times to a millisecond.
Exact(t) == IF Engine.floor /\ t # NoTime THEN TRound(t) ELSE t

\* C01: claims.
ClaimStep ==
  (last'.op.o \in Claims /\ last'.code = 200) =>
    LET r == last'.ret
        t == r.task IN
    /\ r.id \in DOMAIN S
    /\ last'.op.o # "UpsertPromise" => S[r.id].state = Pending /\ ~\E c \in live : c[1] = r.id
    /\ S'[r.id] = t /\ \A i \in DOMAIN S \ {r.id} : S'[i] = S[i]
    /\ t.state = Active /\ t.consumer = last'.op.consumer /\ t.deadline = Exact(last'.op.deadline)
    /\ t.consumed = Exact(Now) /\ t.nonce \notin AllNonces /\ t.nonce # ""
    /\ \A f \in TaskFields \ {"state", "consumer", "deadline", "consumed", "nonce"} : t[f] = S[r.id][f]

\* C02, C03: commits.
CommitStep ==
  (last'.op.o = "Commit") =>
    LET op == last'.op IN
    IF last'.code = 200
    THEN /\ op.nonce # "" => op.nonce = S[op.id].nonce
         /\ S'[op.id].nonce = "" /\ S'[op.id].state = op.state
         /\ \A f \in {"producer", "consumer", "produced", "consumed", "deadline"} : S'[op.id][f] = S[op.id][f]
         /\ \A i \in DOMAIN S \ {op.id} : S'[i] = S[i]
    ELSE /\ S' = S
         /\ last'.code \in {404, 409}
         /\ last'.code = 404 <=> op.id \notin DOMAIN S

\* C02: a commit that carries the nonce of an ended claim is refused.
StaleCommit ==
  (last'.op.o = "Commit" /\ last'.op.nonce \in AllNonces
     /\ <<last'.op.id, last'.op.nonce>> \notin live) => last'.code \in {404, 409}

\* C04, C06: background jobs.
ChoreStep ==
  (last'.op.o \in {"Chore", "Expire"}) =>
    /\ \A i \in DOMAIN S :
         \/ i \in DOMAIN S' /\ S'[i] = S[i]
         \/ i \in DOMAIN S' /\ S[i].state = Active /\ S[i].deadline # NoTime /\ S[i].deadline[1] <= now
              /\ S'[i] = [S[i] EXCEPT !.state = Pending, !.nonce = ""]
         \/ i \notin DOMAIN S' /\ S[i].state = Completed /\ S[i].consumed # NoTime
              /\ S[i].consumed[1] + Retention[1] <= now
    /\ DOMAIN S' \subseteq DOMAIN S
    /\ last'.op.o = "Chore" =>
         \A i \in DOMAIN S' : ~(S'[i].state = Active /\ S'[i].deadline # NoTime /\ S'[i].deadline[1] + TMilli[1] <= now)
    /\ (last'.op.o = "Expire" \/ ~Engine.ttl) =>
         \A i \in DOMAIN S' : ~(S'[i].state = Completed /\ S'[i].consumed # NoTime
                                  /\ S'[i].consumed[1] + Retention[1] + TMilli[1] <= now)

\* C05: polls take what is due, foremost first, and report a drained topic
\* only if nothing is due.
PollStep ==
  (last'.op.o = "Poll") =>
    LET due == {i \in DOMAIN S : S[i].state = Pending /\ S[i].topic = last'.op.topic
                                   /\ S[i].scheduled # NoTime /\ S[i].scheduled[1] <= now}
    IN IF last'.code = 200
       THEN /\ last'.ret.id \in due
            /\ \A i \in due : S[last'.ret.id].scheduled[1] < S[i].scheduled[1] + TMilli[1]
       ELSE /\ S' = S
            /\ due = {} \/ \E j \in DOMAIN S \ due : S[j].state = Pending /\ S[j].topic = last'.op.topic
                             /\ S[j].scheduled # NoTime /\ TRound(S[j].scheduled) = TRound(Now)

\* C08, C18: tasks are there until they are deleted or expire.
Existence == born = DOMAIN S

\* C07: counts add up.
CountStep ==
  (last'.op.o \in {"InsertTask", "UpsertTask", "InsertTasks", "UpsertTasks"}) =>
    /\ last'.code < 400 => Cardinality(DOMAIN S') = Cardinality(DOMAIN S) + last'.ret.created
    /\ last'.code >= 400 => S' = S
    /\ last'.op.o \in {"InsertTask", "InsertTasks"} => \A i \in DOMAIN S : S'[i] = S[i]
    /\ (last'.op.o \in {"UpsertTask", "UpsertTasks"} /\ ~Engine.lax) =>
         last'.ret.created + last'.ret.updated = (IF last'.op.o = "UpsertTask" THEN 1 ELSE Len(last'.op.ts))

\* C11: releases.
ReleaseStep ==
  (last'.op.o \in {"DeletePromise", "DeletePromises"}) =>
    LET hit == {i \in DOMAIN S : S[i].state = Active /\
                  IF last'.op.o = "DeletePromise" THEN i = last'.op.id ELSE S[i].topic = last'.op.topic}
    IN /\ last'.ret.n = Cardinality(hit)
       /\ DOMAIN S' = DOMAIN S
       /\ \A i \in DOMAIN S : S'[i] = IF i \in hit THEN [S[i] EXCEPT !.state = Pending, !.nonce = ""] ELSE S[i]

\* C08: deletions.
DeleteStep ==
  (last'.op.o \in {"DeleteTask", "DeleteTasks", "DeleteTopic", "DeleteTopics"}) =>
    LET hit == {i \in DOMAIN S :
                  CASE last'.op.o = "DeleteTask" -> i = last'.op.id
                    [] last'.op.o = "DeleteTopics" -> TRUE
                    [] OTHER -> S[i].topic = last'.op.topic}
    IN last'.ret.n = Cardinality(hit) /\ DOMAIN S' = DOMAIN S \ hit /\ \A i \in DOMAIN S' : S'[i] = S[i]

Claiming   == [][ClaimStep]_vars
Committing == [][CommitStep]_vars
Stale      == [][StaleCommit]_vars
Chores     == [][ChoreStep]_vars
Polling    == [][PollStep]_vars
Counting   == [][CountStep]_vars
Releasing  == [][ReleaseStep]_vars
Deleting   == [][DeleteStep]_vars

=============================================================================
