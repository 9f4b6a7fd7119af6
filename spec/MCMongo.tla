------------------------------- MODULE MCMongo -------------------------------
(***************************************************************************)
(* The MongoDB engine at the grain of database commands (C16, C09).        *)
(*                                                                         *)
(* Several instances work on one collection.  Each runs operations of the  *)
(* queue as the commands that implement them, either the atomic ones or    *)
(* their optimistic fallbacks; commands on one document are atomic, those  *)
(* on several treat one document after the other, and commands of all      *)
(* instances interleave at will.                                           *)
(*                                                                         *)
(* Every operation has to be explained by RatusCore: the command by which  *)
(* it writes must be an outcome that Apply allows on the store at that     *)
(* moment, and an answer without effect must have been allowed at some     *)
(* moment while it ran.  What the properties grant MongoDB beyond that:    *)
(*   - a poll may claim a task that was foremost at some moment,           *)
(*   - a claim by ID or a commit may report a conflict if its task was     *)
(*     changed while it ran,                                               *)
(*   - fallback upserts delete and insert.                                 *)
(*                                                                         *)
(* Variants that break it, each by one flaw:                               *)
(*   blindcommit  an optimistic commit does not match the nonce            *)
(*   blindpoll    an optimistic poll does not match the state              *)
(*   blindclaim   an optimistic claim by ID does not match the state       *)
(*   late         a commit checks the nonce in a command of its own        *)
(*   keep         releases and timeouts do not clear the nonce             *)
(*   giveup       a poll that lost its candidate reports an empty topic    *)
(*   absent       a failed commit is taken for a missing task              *)
(*   wholesale    a claim writes back the whole task it has peeked         *)
(***************************************************************************)
EXTENDS RatusCore

CONSTANTS Procs, Ids, Topics, PerProc,  \* operations per instance
          Impls,                          \* subset of {"atomic", "optimistic"}
          Kinds,                          \* operations in play
          Variant

VARIABLES S,      \* the collection
          run,    \* what each instance does
          left,   \* operations it may still begin
          ended,  \* ghost: nonces whose claim has ended
          bad

vars == <<S, run, left, ended, bad>>

MLe(a, b) == a[1] <= b[1]
MAdd(a, d) == <<a[1] + d[1]>>
MRound(a) == a
MMilli == <<0>>
MSecond == <<0>>

Now == <<2>>
Mode == MongoMode

BaseTask == [topic |-> "x", state |-> Pending, nonce |-> "", producer |-> "", consumer |-> "",
             produced |-> <<0>>, scheduled |-> <<1>>, consumed |-> NoTime, deadline |-> NoTime, payload |-> ""]
Held(n) == [BaseTask EXCEPT !.state = Active, !.nonce = n, !.consumer = "c", !.consumed = <<1>>, !.deadline = <<2>>]

Stores == UNION {[D -> {BaseTask, [BaseTask EXCEPT !.scheduled = <<0>>], [BaseTask EXCEPT !.state = Completed]}
                       \cup {Held("n0")}] : D \in SUBSET Ids}
\* No two claims have one nonce.
Inits == {T \in Stores : \A i, j \in DOMAIN T : i # j /\ T[i].nonce # "" => T[i].nonce # T[j].nonce}

NonceOf(p) == ToString(p) \o "." \o ToString(left[p])

Claim(o, i, p) == [o |-> o, id |-> i, consumer |-> ToString(p), deadline |-> <<3>>]
Ops(p) ==
  {op \in
     {[o |-> "Poll", topic |-> t, consumer |-> ToString(p), deadline |-> <<3>>] : t \in Topics}
     \cup {Claim(o, i, p) : o \in {"InsertPromise", "UpsertPromise"}, i \in Ids}
     \cup {[o |-> "Commit", id |-> i, nonce |-> n, topic |-> t, state |-> s, scheduled |-> NoTime, payload |-> ToString(p)] :
             i \in Ids, n \in {S[j].nonce : j \in DOMAIN S} \cup {""} , t \in {""} \cup (Topics \ {"x"}), s \in {Pending, Completed}}
     \cup {[o |-> o, id |-> i] : o \in {"DeletePromise", "DeleteTask"}, i \in Ids}
     \cup {[o |-> o, id |-> i, task |-> [BaseTask EXCEPT !.producer = ToString(p)]] : o \in {"InsertTask", "UpsertTask"}, i \in Ids}
     \cup {[o |-> "Chore", retention |-> <<9>>]} : op.o \in Kinds}

Idle == [pc |-> "idle"]
Busy(p) == run[p].pc # "idle"

-----------------------------------------------------------------------------
(* Ghosts                                                                  *)

\* Answers without effect that an operation may give on the store T.
Harmless(op, nonce, T) == {[code |-> x.code, ret |-> x.ret] : x \in {y \in Apply(Mode, op, Now, nonce, T) : y.S = T}}

OnTask == {"InsertPromise", "UpsertPromise", "Commit", "DeletePromise", "DeleteTask", "InsertTask", "UpsertTask"}

\* The document of a task, as a set.
Of(T, i) == {T[j] : j \in DOMAIN T \cap {i}}

\* What an operation in progress knows after the store has become T.
Know(r, T) ==
  IF r.pc = "idle" THEN r
  ELSE [r EXCEPT !.could = @ \cup Harmless(r.op, r.nonce, T),
                 !.seen  = IF r.op.o = "Poll" THEN @ \cup Foremost(T, r.op.topic, Now) ELSE @,
                 !.dirty = @ \/ (r.op.o \in OnTask /\ Of(S, r.op.id) # Of(T, r.op.id))]

\* Is T what the operation may make of S?
Allowed(r, T) ==
  \/ \E x \in Apply(Mode, r.op, Now, r.nonce, S) : x.S = T
  \/ /\ r.op.o = "Poll"
     /\ \E j \in r.seen \cap Due(S, r.op.topic, Now) : T = Put(S, j, Claimed(Mode, S[j], r.op, Now, r.nonce))
  \/ r.op.o = "Chore" /\ \E j \in MayTimeOut(S, Now) : T = ReleaseAll(S, {j})
  \/ r.op.o = "UpsertTask" /\ r.impl = "optimistic" /\ T = Drop(S, {r.op.id})

\* The claims a write ends.
Over(T) == {S[i].nonce : i \in {j \in DOMAIN S : S[j].nonce # "" /\ (j \notin DOMAIN T \/ T[j].nonce # S[j].nonce)}}

\* Instance p goes on at pc (with changes to its record), having made T of the store.
Write(p, T, r, what) ==
  /\ S' = T
  /\ ended' = ended \cup Over(T)
  /\ bad' = bad \cup (IF Allowed(run[p], T) THEN {} ELSE {what})
                \cup (IF \E i \in DOMAIN T : T[i].nonce \in ended THEN {"a claim that has ended is in force again"} ELSE {})
  /\ run' = [q \in Procs |-> IF q = p THEN r ELSE Know(run[q], T)]
  /\ UNCHANGED left

Go(p, r) == run' = [run EXCEPT ![p] = r] /\ UNCHANGED <<S, left, ended, bad>>

\* ... has written and is done.
Done(p, T, what) == Write(p, T, Idle, what)

\* ... answers without having written.
Answer(p, code) ==
  /\ run' = [run EXCEPT ![p] = Idle]
  /\ bad' = bad \cup
       (IF \/ \E a \in run[p].could : a.code = code
           \/ code = 409 /\ run[p].dirty /\ run[p].op.o \in {"InsertPromise", "Commit"}
        THEN {} ELSE {run[p].op.o \o " answers " \o ToString(code)})
  /\ UNCHANGED <<S, left, ended>>

\* ... has done all it had to do.
Finish(p) == run' = [run EXCEPT ![p] = Idle] /\ UNCHANGED <<S, left, ended, bad>>

-----------------------------------------------------------------------------
(* Commands                                                                *)

Start(p) ==
  /\ ~Busy(p) /\ left[p] > 0
  /\ \E op \in Ops(p), impl \in Impls :
       LET n == NonceOf(p)
           r == [pc |-> "begin", op |-> op, impl |-> impl, nonce |-> n, peek |-> BaseTask, id |-> "",
                 could |-> Harmless(op, n, S), dirty |-> FALSE, all |-> {},
                 seen |-> IF op.o = "Poll" THEN Foremost(S, op.topic, Now) ELSE {}]
       IN run' = [run EXCEPT ![p] = r]
  /\ left' = [left EXCEPT ![p] = @ - 1]
  /\ UNCHANGED <<S, ended, bad>>

Peek(p, i) == Go(p, [run[p] EXCEPT !.pc = "modify", !.id = i, !.peek = S[i]])

Claim1(r, t) == Claimed(Mode, t, r.op, Now, r.nonce)

Poller(p, r) ==
  \/ /\ r.impl = "atomic" /\ r.pc = "begin"
     /\ IF Due(S, r.op.topic, Now) = {} THEN Answer(p, 404)
        ELSE \E i \in Foremost(S, r.op.topic, Now) : Done(p, Put(S, i, Claim1(r, S[i])), "a poll claims a task that is not its turn")
  \/ /\ r.impl = "optimistic" /\ r.pc = "begin"
     /\ IF Due(S, r.op.topic, Now) = {} THEN Answer(p, 404)
        ELSE \E i \in Foremost(S, r.op.topic, Now) : Peek(p, i)
  \/ /\ r.impl = "optimistic" /\ r.pc = "modify"
     /\ IF /\ r.id \in DOMAIN S /\ S[r.id].nonce = r.peek.nonce
           /\ (r.id \in Due(S, r.op.topic, Now) \/ Variant = "blindpoll")
        THEN Done(p, Put(S, r.id, Claim1(r, IF Variant = "wholesale" THEN r.peek ELSE S[r.id])), "a poll claims a task that is not its turn")
        ELSE IF Variant = "giveup" THEN Answer(p, 404)
        ELSE Go(p, [r EXCEPT !.pc = "begin"])

Exists(p, code) == IF run[p].op.id \in DOMAIN S THEN Answer(p, code) ELSE Answer(p, 404)

ByID(p, r, force) ==
  LET i == r.op.id IN
  \/ /\ r.impl = "atomic" /\ r.pc = "begin"
     /\ IF i \in DOMAIN S /\ (force \/ S[i].state = Pending) THEN Done(p, Put(S, i, Claim1(r, S[i])), "a claim by ID succeeds on a task it must not claim")
        ELSE IF force THEN Answer(p, 404) ELSE Go(p, [r EXCEPT !.pc = "exists"])
  \/ r.pc = "exists" /\ Exists(p, 409)
  \/ /\ r.impl = "optimistic" /\ r.pc = "begin"
     /\ IF i \notin DOMAIN S THEN Answer(p, 404)
        ELSE IF ~force /\ S[i].state # Pending THEN Answer(p, 409)
        ELSE Peek(p, i)
  \/ /\ r.impl = "optimistic" /\ r.pc = "modify"
     /\ IF /\ i \in DOMAIN S /\ S[i].topic = r.peek.topic /\ (S[i].state = r.peek.state \/ Variant = "blindclaim") /\ S[i].nonce = r.peek.nonce
        THEN Done(p, Put(S, i, Claim1(r, IF Variant = "wholesale" THEN r.peek ELSE S[i])), "a claim by ID succeeds on a task it must not claim")
        ELSE IF force THEN Go(p, [r EXCEPT !.pc = "begin"]) ELSE Answer(p, 409)

Matches(r, t) == r.op.nonce = "" \/ r.op.nonce = t.nonce

Committer(p, r) ==
  LET i == r.op.id IN
  \/ /\ r.impl = "atomic" /\ r.pc = "begin"
     /\ IF i \in DOMAIN S /\ Matches(r, S[i])
        THEN IF Variant = "late" THEN Go(p, [r EXCEPT !.pc = "apply"])
             ELSE Done(p, Put(S, i, Committed(Mode, S[i], r.op)), "a commit succeeds that must not")
        ELSE IF r.op.nonce = "" \/ Variant = "absent" THEN Answer(p, 404) ELSE Go(p, [r EXCEPT !.pc = "exists"])
  \/ /\ r.pc = "apply"
     /\ IF i \in DOMAIN S THEN Done(p, Put(S, i, Committed(Mode, S[i], r.op)), "a commit succeeds that must not") ELSE Answer(p, 404)
  \/ r.pc = "exists" /\ Exists(p, 409)
  \/ /\ r.impl = "optimistic" /\ r.pc = "begin"
     /\ IF i \notin DOMAIN S THEN Answer(p, 404)
        ELSE IF ~Matches(r, S[i]) THEN Answer(p, 409)
        ELSE Peek(p, i)
  \/ /\ r.impl = "optimistic" /\ r.pc = "modify"
     /\ IF /\ i \in DOMAIN S /\ S[i].topic = r.peek.topic /\ S[i].state = r.peek.state
           /\ (S[i].nonce = r.peek.nonce \/ Variant = "blindcommit")
        THEN Done(p, Put(S, i, Committed(Mode, S[i], r.op)), "a commit succeeds that must not")
        ELSE Answer(p, 409)

Undo(t) == IF Variant = "keep" THEN [t EXCEPT !.state = Pending] ELSE Released(t)

Releaser(p, r) ==
  LET i == r.op.id IN
  IF i \in DOMAIN S /\ S[i].state = Active THEN Done(p, Put(S, i, Undo(S[i])), "a release does something else")
  ELSE Answer(p, 200)

\* One document after the other.
Jobs(p, r) ==
  LET due == {j \in MayTimeOut(S, Now) : j \notin r.all} IN
  IF due = {} THEN Finish(p) ELSE \E j \in due : Write(p, Put(S, j, Undo(S[j])), [r EXCEPT !.all = @ \cup {j}], "background jobs do something else")

Writer(p, r) ==
  LET i == r.op.id IN
  CASE r.op.o = "DeleteTask" -> IF i \in DOMAIN S THEN Done(p, Drop(S, {i}), "a deletion does something else") ELSE Answer(p, 200)
    [] r.op.o = "InsertTask" -> IF i \in DOMAIN S THEN Answer(p, 409) ELSE Done(p, Put(S, i, r.op.task), "an insertion does something else")
    [] r.op.o = "UpsertTask" ->
         IF r.impl = "atomic" THEN Done(p, Put(S, i, r.op.task), "an upsert does something else")
         ELSE IF r.pc = "begin"
         THEN IF i \in DOMAIN S THEN Write(p, Drop(S, {i}), [r EXCEPT !.pc = "insert"], "an upsert does something else")
              ELSE Go(p, [r EXCEPT !.pc = "insert"])
         ELSE IF i \in DOMAIN S THEN Finish(p) ELSE Done(p, Put(S, i, r.op.task), "an upsert does something else")

Step(p) ==
  /\ Busy(p)
  /\ LET r == run[p] IN
     CASE r.op.o = "Poll" -> Poller(p, r)
       [] r.op.o = "InsertPromise" -> ByID(p, r, FALSE)
       [] r.op.o = "UpsertPromise" -> ByID(p, r, TRUE)
       [] r.op.o = "Commit" -> Committer(p, r)
       [] r.op.o = "DeletePromise" -> Releaser(p, r)
       [] r.op.o = "Chore" -> Jobs(p, r)
       [] OTHER -> Writer(p, r)

-----------------------------------------------------------------------------
Init ==
  /\ S \in Inits
  /\ run = [p \in Procs |-> Idle]
  /\ left = [p \in Procs |-> PerProc]
  /\ ended = {} /\ bad = {}

Next == \E p \in Procs : Start(p) \/ Step(p)
Spec == Init /\ [][Next]_vars /\ \A p \in Procs : WF_vars(Step(p))

Quiet == bad = {}
OneNonceEach == \A i, j \in DOMAIN S : i # j /\ S[i].nonce # "" => S[i].nonce # S[j].nonce
ActiveHasNonce == \A i \in DOMAIN S : S[i].nonce # "" => S[i].state = Active
\* Retries come to an end.
Returns == \A p \in Procs : Busy(p) ~> ~Busy(p)
=============================================================================
