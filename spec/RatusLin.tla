------------------------------ MODULE RatusLin ------------------------------
(***************************************************************************)
(* Concurrent conformance.  Each line of the file is one history: the      *)
(* store it began with, the calls that were made - each with the moments   *)
(* of its call and of its return, and its answer -, and the store that was *)
(* found in the end.  A history conforms if its calls can be put in an     *)
(* order that respects "returned before the other was called" such that    *)
(* RatusCore allows each answer in turn and the store found in the end.    *)
(*                                                                         *)
(* The time at which a call takes effect is any reading of the clock       *)
(* between its call and its return (clk[t0] .. clk[t1]).  A call that did  *)
(* not return (r = 0) may take effect or not.                              *)
(*                                                                         *)
(* On MongoDB (mode "mongo") calls may take more than one step, and the    *)
(* others may come in between (see the section below).                     *)
(*                                                                         *)
(* All histories of the file are searched in one run, each from an initial *)
(* state of its own; register h of TLC says how far history h came: the    *)
(* number of calls that could be explained, or -1 once it is accepted.     *)
(***************************************************************************)
EXTENDS RatusRec

H == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES h,      \* the history
          done,   \* the calls that have taken effect
          S,      \* the store
          part    \* on MongoDB: how far the calls in progress are

vars == <<h, done, S, part>>

ASSUME \A n \in 1 .. Len(H) : TLCSet(n, 0)

Ops == H[h].ops
Mongo == H[h].mode = "mongo"
Mode == IF Mongo THEN MongoMode ELSE MemMode
Returned(c) == c.r # 0

\* Every call that returned before this one was made has taken effect.
ReadyIn(i, D) ==
  /\ i \notin D
  /\ \A j \in DOMAIN Ops : (Returned(Ops[j]) /\ Ops[j].r < Ops[i].c) => j \in D
Ready(i) == ReadyIn(i, done)

Nonce(c) == IF c.ret.k = "task" THEN c.ret.task.nonce ELSE "?"
Norm(c, n) == IF c.lvl = "engine" THEN Good(c.op) ELSE Normalize(c.op, H[h].clk[n], H[h].cfg)

\* A claim that was not answered may have taken effect under any nonce.
AllNonces == {H[h].nonces[k] : k \in DOMAIN H[h].nonces} \cup {"?"}

Outcomes(c, n) ==
  LET norm == Norm(c, n)
  IN CASE norm.bad -> {Out(norm.code, None, S)}
       [] ~norm.bad /\ norm.op.o = "Image" ->
            IF c.code = 200 /\ c.ret.store = S THEN {Out(200, c.ret, S)} ELSE {}
       [] ~norm.bad /\ norm.op.o \in Readers ->
            IF ReadOK(norm.op, S, c.code, c.ret) THEN {Out(c.code, c.ret, S)} ELSE {}
       [] ~Returned(c) /\ norm.op.o \in Claims -> UNION {Apply(Mode, norm.op, H[h].clk[n], x, S) : x \in AllNonces}
       [] OTHER -> Apply(Mode, norm.op, H[h].clk[n], Nonce(c), S)

\* A call takes effect at once.
Take(i) ==
  LET c == Ops[i] IN
  /\ Ready(i)
  /\ \E n \in c.t0 .. c.t1 :
       \E x \in Outcomes(c, n) :
         /\ Returned(c) => x.code = c.code /\ x.ret = c.ret
         /\ S' = x.S
  /\ done' = done \cup {i}
  /\ UNCHANGED <<h, part>>

-----------------------------------------------------------------------------
(* MongoDB                                                                 *)
(*                                                                         *)
(*  - A poll claims a task that was foremost at some moment while it ran   *)
(*    and is still due, or finds nothing if nothing was due at some moment.*)
(*  - A claim by ID or a commit may report a conflict if its task was      *)
(*    changed while it ran.                                                *)
(*  - Operations on several tasks treat one task after the other.  Those   *)
(*    that select tasks by a condition treat every task that satisfies it  *)
(*    all the time, and may treat one that satisfies it for some time.     *)
(*  - Where upserts have to delete and insert (H[h].di), they first delete *)
(*    the tasks one by one and then insert them one by one unless there is *)
(*    one already.                                                         *)
(*  - A call one of whose commands the server failed (c.faulty) may end as *)
(*    an internal error, whether or not it has taken effect.               *)

Idle == [k |-> 0, c |-> 0, u |-> 0, at |-> 0, di |-> FALSE,
         seen |-> {}, dry |-> FALSE, dirty |-> FALSE, must |-> {}]

Clocks(c) == {H[h].clk[n] : n \in c.t0 .. c.t1}

Selecting == {"DeleteTasks", "DeleteTopic", "DeleteTopics", "DeletePromises", "Chore"}
Listing   == {"InsertTasks", "UpsertTasks"}

May(o, T, now) ==
  CASE o.o \in {"DeleteTasks", "DeleteTopic"} -> OfTopic(T, o.topic)
    [] o.o = "DeleteTopics"   -> DOMAIN T
    [] o.o = "DeletePromises" -> ActiveOf(T, o.topic)
    [] o.o = "Chore"          -> MayTimeOut(T, now)

Must(o, T, now) == IF o.o = "Chore" THEN MustTimeOut(T, now) ELSE May(o, T, now)

Same(T, U, i) == (i \in DOMAIN T) = (i \in DOMAIN U) /\ (i \in DOMAIN T => T[i] = U[i])

\* What a call in progress knows after the store changed from T to U; fresh: it has just begun.
Watch(c, p, fresh, T, U) ==
  LET norm == Norm(c, c.t0)
      o == norm.op
  IN IF norm.bad THEN p
     ELSE CASE o.o = "Poll" ->
                 [p EXCEPT !.seen = @ \cup UNION {Foremost(U, o.topic, t) : t \in Clocks(c)},
                           !.dry  = @ \/ \E t \in Clocks(c) : MayBeDrained(U, o.topic, t)]
            [] o.o \in {"InsertPromise", "Commit"} ->
                 [p EXCEPT !.dirty = @ \/ (~fresh /\ ~Same(T, U, o.id))]
            [] o.o \in Selecting ->
                 LET M == Must(o, U, H[h].clk[c.t0])
                 IN [p EXCEPT !.must = IF fresh THEN M ELSE @ \cap M]
            [] OTHER -> p

Watched(P, D, E, T, U) ==
  [i \in DOMAIN P |-> IF ReadyIn(i, E) THEN Watch(Ops[i], P[i], ~ReadyIn(i, D), T, U) ELSE Idle]

\* Ends call i with the outcome x.
Finish(i, x) ==
  /\ Returned(Ops[i]) => x.code = Ops[i].code /\ x.ret = Ops[i].ret
  /\ S' = x.S
  /\ done' = done \cup {i}
  /\ part' = Watched(part, done, done', S, S')
  /\ UNCHANGED h

\* Call i goes on.
Proceed(i, p, T) ==
  /\ S' = T
  /\ part' = Watched([part EXCEPT ![i] = p], done, done, S, S')
  /\ UNCHANGED <<h, done>>

MPoll(i, o, now) ==
  LET c == Ops[i]
      J == {j \in part[i].seen : j \in Due(S, o.topic, now)}
  IN \/ \E x \in Poll(Mode, o, now, Nonce(c), S) : Finish(i, x)
     \/ \E j \in J : LET t == Claimed(Mode, S[j], o, now, Nonce(c))
                     IN Finish(i, Out(200, TaskR(j, t), Put(S, j, t)))
     \/ part[i].dry /\ Finish(i, NotFound(S))

MSelecting(i, o, n) ==
  LET p == part[i]
      q == [p EXCEPT !.at = n, !.c = @ + 1]
      now == H[h].clk[n]
  IN \/ /\ (Returned(Ops[i]) /\ Ops[i].ret.k = "deleted") => p.c < Ops[i].ret.n
        /\ \E j \in May(o, S, now) :
             Proceed(i, q, IF o.o \in {"DeletePromises", "Chore"} THEN ReleaseAll(S, {j}) ELSE Drop(S, {j}))
     \/ /\ p.must = {}
        /\ Finish(i, Out(200, IF o.o = "Chore" THEN None ELSE DeletedR(p.c), S))

\* Of tasks with one ID a batch inserts the first, and overwrites with the last.
LastOf(ts) == {k \in 1 .. Len(ts) : \A j \in k + 1 .. Len(ts) : ts[j].id # ts[k].id}

MInserts(i, ts, n) ==
  LET p == part[i]
      k == p.k + 1
  IN IF p.k = Len(ts) THEN Finish(i, Out(UpdCode(p.c), UpdatedR(p.c, 0), S))
     ELSE LET q == [p EXCEPT !.k = k, !.at = n]
          IN IF ts[k].id \in DOMAIN S THEN Proceed(i, q, S)
             ELSE Proceed(i, [q EXCEPT !.c = @ + 1], Put(S, ts[k].id, Stored(Mode, ts[k].task)))

MReplaces(i, ts, n) ==
  LET p == part[i]
      k == p.k + 1
  IN IF p.k = Len(ts)
     THEN \E u \in 0 .. p.u : Finish(i, Out(UpdCode(p.c), UpdatedR(p.c, Len(ts) - p.c - u), S))
     ELSE LET t == Stored(Mode, ts[k].task)
              old == ts[k].id \in DOMAIN S
              q == [p EXCEPT !.k = k, !.at = n, !.c = IF old THEN @ ELSE @ + 1,
                             !.u = IF old /\ S[ts[k].id] = t THEN @ + 1 ELSE @]
          IN Proceed(i, q, Put(S, ts[k].id, t))

MDeletesInserts(i, ts, n) ==
  LET p == part[i]
      L == Len(ts)
      k == p.k + 1
      q == [p EXCEPT !.k = k, !.at = n, !.di = TRUE]
  IN IF p.k = 2 * L
     THEN LET c == Cardinality(LastOf(ts)) - p.c
          IN Finish(i, Out(UpdCode(c), UpdatedR(c, L - c), S))
     ELSE IF k <= L
     THEN IF ts[k].id \in DOMAIN S THEN Proceed(i, [q EXCEPT !.c = @ + 1], Drop(S, {ts[k].id}))
          ELSE Proceed(i, q, S)
     ELSE IF ts[k - L].id \in DOMAIN S \/ k - L \notin LastOf(ts) THEN Proceed(i, q, S)
          ELSE Proceed(i, q, Put(S, ts[k - L].id, Stored(Mode, ts[k - L].task)))

MTake(i) ==
  LET c == Ops[i]
      p == part[i]
  IN /\ Ready(i)
     /\ \/ "faulty" \in DOMAIN c /\ Finish(i, Out(500, None, S))
        \/ /\ "faulty" \in DOMAIN c
           /\ ~Norm(c, c.t0).bad /\ c.op.o \notin Readers \cup {"Image"}
           /\ \E n \in c.t0 .. c.t1, nonce \in AllNonces :
                \E x \in Apply(Mode, Norm(c, n).op, H[h].clk[n], nonce, S) : Finish(i, Out(500, None, x.S))
        \/ \E n \in IF p.at # 0 THEN {p.at} ELSE c.t0 .. c.t1 :
             LET norm == Norm(c, n)
                 o == norm.op
             IN IF norm.bad \/ o.o \in Readers \cup {"Image"}
                THEN \E x \in Outcomes(c, n) : Finish(i, x)
                ELSE CASE o.o = "Poll" -> MPoll(i, o, H[h].clk[n])
                       [] o.o \in Selecting -> MSelecting(i, o, n)
                       [] o.o = "InsertTasks" -> MInserts(i, o.ts, n)
                       [] o.o = "UpsertTasks" ->
                            \/ ~p.di /\ MReplaces(i, o.ts, n)
                            \/ H[h].di /\ (p.di \/ p.k = 0) /\ MDeletesInserts(i, o.ts, n)
                       [] o.o = "UpsertTask" /\ H[h].di /\ p.di ->
                            MDeletesInserts(i, <<[id |-> o.id, task |-> o.task]>>, n)
                       [] OTHER ->
                            \/ \E x \in Outcomes(c, n) : Finish(i, x)
                            \/ o.o = "UpsertTask" /\ H[h].di /\ MDeletesInserts(i, <<[id |-> o.id, task |-> o.task]>>, n)
                            \/ p.dirty /\ Finish(i, Conflict(S))

Begin == [i \in DOMAIN Ops |-> IF ReadyIn(i, {}) THEN Watch(Ops[i], Idle, TRUE, S, S) ELSE Idle]

-----------------------------------------------------------------------------
Init ==
  /\ h \in 1 .. Len(H)
  /\ done = {}
  /\ S = H[h].init
  /\ part = IF Mongo THEN Begin ELSE <<>>

\* No two claims have the same nonce, and none has one that was there before.
Fresh ==
  LET C == {i \in DOMAIN Ops : Ops[i].ret.k = "task" /\ Ops[i].op.o \in Claims}
  IN \A i \in C : /\ Nonce(Ops[i]) # ""
                  /\ \A j \in C : i # j => Nonce(Ops[i]) # Nonce(Ops[j])
                  /\ \A t \in DOMAIN H[h].init : H[h].init[t].nonce # Nonce(Ops[i])

Accepting ==
  /\ H[h].done
  /\ {i \in DOMAIN Ops : Returned(Ops[i])} \subseteq done
  /\ S = H[h].final
  /\ Fresh

Next == TLCGet(h) # -1 /\ \E i \in DOMAIN Ops : IF Mongo THEN MTake(i) ELSE Take(i)

Spec == Init /\ [][Next]_vars

\* Notes how far a history came; evaluated in every state.
Note ==
  IF TLCGet(h) = -1 THEN TRUE
  ELSE IF Accepting THEN TLCSet(h, -1)
  ELSE TLCSet(h, IF Cardinality(done) > TLCGet(h) THEN Cardinality(done) ELSE TLCGet(h))

OpOf(c) == IF c.op.o = "Poll" /\ c.lvl # "engine" /\ (c.op.pid # "" \/ c.op.body.id # "") THEN "InsertPromise" ELSE c.op.o

Blame(x) == {"C09"} \cup UNION {PropsOf(OpOf(x.ops[i])) : i \in DOMAIN x.ops}
                    \cup (IF x.mode = "mongo" THEN {"C16"} ELSE {})
                    \cup (IF "blame" \in DOMAIN x THEN ToSet2(x.blame) ELSE {})

Report(n) ==
  PrintT("MISMATCH " \o ToJson([line |-> n, op |-> H[n].name,
           what |-> {IF H[n].done THEN "no order of the calls explains the answers and the store"
                     ELSE "calls do not come back"},
           props |-> Blame(H[n]), expcode |-> TLCGet(n), gotcode |-> Len(H[n].ops)]))

Accepted ==
  /\ \A n \in 1 .. Len(H) : IF TLCGet(n) = -1 THEN TRUE ELSE Report(n)
  /\ PrintT("CHECKED " \o ToString(Len(H)) \o " OF " \o ToString(Len(H)))
=============================================================================
