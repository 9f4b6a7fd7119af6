------------------------------ MODULE RatusLive ------------------------------
(***************************************************************************)
(* At least once (C18): with consumers that keep polling and background    *)
(* jobs that keep running, every task in circulation is handed out, and    *)
(* handed out again, until it is completed or deleted.                     *)
(*                                                                         *)
(* The operations are those of RatusCore.  Times are relative to now, so   *)
(* that time may pass for ever: a tick makes every time one unit earlier,  *)
(* down to -Low.  Consumers keep up: time passes only when nothing is due. *)
(* They may crash, be late, give a claim up, put a task back for later,    *)
(* or (MaxAgain times) put it back at once.                                *)
(*                                                                         *)
(* Variants of the background jobs and of polls that break it:             *)
(*   forgetful  jobs skip promises that timed out more than one unit ago   *)
(*   hasty      jobs remove pending tasks along with completed ones        *)
(*   lossy      jobs release a promise but leave its task active           *)
(*   picky      polls skip tasks that were claimed before                  *)
(***************************************************************************)
EXTENDS RatusCore

CONSTANTS Ids, Topics, Consumers, Ret, Low, MaxAgain, Variant

VARIABLES S, held, again, out

vars == <<S, held, again, out>>

LLe(a, b) == a[1] <= b[1]
LAdd(a, d) == <<a[1] + d[1]>>
LRound(a) == a
LMilli == <<0>>
LSecond == <<0>>
LRet == <<2>>

Now == <<0>>
Earlier(t) == IF t = NoTime THEN t ELSE <<IF t[1] - 1 < -Low THEN -Low ELSE t[1] - 1>>

Nonces == {"n1", "n2", "n3", "n4", "n5"}
Used == {S[i].nonce : i \in DOMAIN S} \cup {h[2] : h \in held}
Fresh == CHOOSE n \in Nonces : n \notin Used

BaseTask == [topic |-> "", state |-> Pending, nonce |-> "", producer |-> "", consumer |-> "",
             produced |-> NoTime, scheduled |-> Now, consumed |-> NoTime, deadline |-> NoTime, payload |-> ""]

InCirculation(i) == i \in DOMAIN S /\ S[i].state \in {Pending, Active}
SomethingDue == \E t \in Topics : Due(S, t, Now) # {}

\* What the step was: the task that was handed out, if any.
Say(i) == out' = i

\* A consumer holds at most one claim; asking again means that it has crashed.
Hand(c, t, d) ==
  \E x \in Poll(MemMode, [topic |-> t, consumer |-> c, deadline |-> d], Now, Fresh,
                IF Variant = "picky" THEN [i \in {j \in DOMAIN S : S[j].consumed = NoTime \/ S[j].state # Pending} |-> S[i]] ELSE S) :
    /\ x.code = 200
    /\ S' = x.S @@ S
    /\ held' = {h \in held : h[1] # c} \cup {<<c, Fresh, x.ret.id>>}
    /\ Say(x.ret.id) /\ UNCHANGED again
Polls(t) == \E c \in Consumers, d \in {<<1>>, <<2>>} : Hand(c, t, d)

End(h, op) ==
  /\ h \in held
  /\ \E x \in Commit(MemMode, op, S) : S' = x.S
  /\ held' = held \ {h} /\ Say("")
CommitOf(h, state, when) == [id |-> h[3], nonce |-> h[2], topic |-> "", state |-> state, scheduled |-> when, payload |-> ""]
Complete(h) == End(h, CommitOf(h, Completed, NoTime)) /\ UNCHANGED again
Postpone(h) == End(h, CommitOf(h, Pending, <<1>>)) /\ UNCHANGED again
Transfer(h, t) == End(h, [CommitOf(h, Pending, <<1>>) EXCEPT !.topic = t]) /\ UNCHANGED again
PutBack(h) == again < MaxAgain /\ End(h, CommitOf(h, Pending, NoTime)) /\ again' = again + 1
GiveUp(h) == /\ again < MaxAgain /\ h \in held
             /\ \E x \in DeletePromise([id |-> h[3]], S) : S' = x.S
             /\ held' = held \ {h} /\ again' = again + 1 /\ Say("")
Crash(h) == h \in held /\ held' = held \ {h} /\ Say("") /\ UNCHANGED <<S, again>>

Jobs ==
  /\ \E x \in Chore(MemMode, [retention |-> Ret], Now, S) :
       S' = CASE Variant = "forgetful" -> [i \in DOMAIN x.S |-> IF S[i].state = Active /\ S[i].deadline[1] < -1 THEN S[i] ELSE x.S[i]]
              [] Variant = "hasty" -> [i \in {j \in DOMAIN x.S : ~(S[j].state = Pending /\ S[j].consumed # NoTime /\ S[j].consumed[1] < -1)} |-> x.S[i]]
              [] Variant = "lossy" -> [i \in DOMAIN x.S |-> IF i \in DOMAIN S /\ x.S[i] # S[i] THEN [S[i] EXCEPT !.nonce = ""] ELSE x.S[i]]
              [] OTHER -> x.S
  /\ S' # S
  /\ Say("") /\ UNCHANGED <<held, again>>

Tick ==
  /\ ~SomethingDue
  /\ S' = [i \in DOMAIN S |-> [S[i] EXCEPT !.scheduled = Earlier(@), !.consumed = Earlier(@), !.deadline = Earlier(@)]]
  /\ Say("") /\ UNCHANGED <<held, again>>

Init == /\ S \in [Ids -> {[BaseTask EXCEPT !.topic = t, !.scheduled = s] : t \in Topics, s \in {Now, <<1>>, <<2>>}}]
        /\ held = {} /\ again = 0 /\ out = ""

Next == \/ \E t \in Topics : Polls(t)
        \/ \E h \in held : Complete(h) \/ Postpone(h) \/ PutBack(h) \/ GiveUp(h) \/ Crash(h) \/ \E t \in Topics : Transfer(h, t)
        \/ Jobs \/ Tick

Spec == Init /\ [][Next]_vars
        /\ \A t \in Topics : WF_vars(Polls(t))
        /\ WF_vars(Jobs) /\ WF_vars(Tick)

\* Tasks leave only as completed ones after the retention period.
StaysStored == [][\A i \in DOMAIN S : i \in DOMAIN S' \/ (S[i].state = Completed /\ S[i].consumed[1] + Ret[1] <= 0)]_vars
\* From any moment on, a task in circulation is handed out, or leaves it.
AtLeastOnce == \A i \in Ids : (InCirculation(i) /\ out # i) ~> (out = i \/ ~InCirculation(i))
\* A task that was completed stays so.
StaysDone == [][\A i \in DOMAIN S \cap DOMAIN S' : S[i].state = Completed => S'[i].state = Completed]_vars
=============================================================================
