---------------------------- MODULE MCSubscribe ----------------------------
(***************************************************************************)
(* The subscription in an environment that answers and handles in every    *)
(* possible way: what the rules of Subscribe guarantee.                    *)
(***************************************************************************)
EXTENDS Subscribe

CONSTANTS N, MaxPolls, MaxTime, End

VARIABLES now, s,
          open,    \* polls and commits the server has received and not answered
          polls,   \* number of polls so far
          claims,  \* task -> times handed to a handler
          owed,    \* failures that happened and were not reported
          fails,   \* failure -> times reported
          accepted \* task -> commits the server accepted

vars == <<now, s, open, polls, claims, owed, fails, accepted>>

Cfg == [n |-> N, cd |-> 1, pi |-> 0, di |-> 2, ei |-> 1, topic |-> "t", consumer |-> "c", timeout |-> "1s",
        end |-> End, enddl |-> Never, err |-> "canceled"]

Init == /\ now = 0 /\ s = Start(Cfg, 0) /\ open = {} /\ polls = 0
        /\ claims = [x \in {} |-> 0] /\ owed = {} /\ fails = [x \in {} |-> 0] /\ accepted = [x \in {} |-> 0]

Inc(f, x) == IF x \in DOMAIN f THEN [f EXCEPT ![x] = @ + 1] ELSE (x :> 1) @@ f

Tasks == {s.ws[w].task : w \in Workers(s)} \ {""}
Promise == [topic |-> "t", consumer |-> "c", timeout |-> "1s", other |-> ""]

PollA == /\ polls < MaxPolls
         /\ s' \in Poll(s, now, polls + 1, Promise)
         /\ polls' = polls + 1 /\ open' = open \cup {<<"poll", polls + 1>>}
         /\ UNCHANGED <<now, claims, owed, fails, accepted>>

AnswerA == \E n \in 1 .. polls, k \in {"task", "empty", "error"}, d \in {1, Never} :
  /\ <<"poll", n>> \in open
  /\ k # "task" => d = Never
  /\ s' \in Answer(s, now, n, [k |-> k, task |-> "k" \o ToString(n), nonce |-> "n" \o ToString(n), dur |-> d, origin |-> "e" \o ToString(n)])
  /\ open' = open \ {<<"poll", n>>}
  /\ owed' = IF k = "error" THEN owed \cup {"e" \o ToString(n)} ELSE owed
  /\ UNCHANGED <<now, polls, claims, fails, accepted>>

HandleA == \E x \in Tasks, d \in 0 .. MaxTime \cup {Never} :
  /\ s' \in Handle(s, now, x, d)
  /\ claims' = Inc(claims, x)
  /\ UNCHANGED <<now, open, polls, owed, fails, accepted>>

SetA == \E x \in Tasks, f \in {"archive"} :
  /\ s' \in Setter(s, now, x, f, "")
  /\ UNCHANGED <<now, open, polls, claims, owed, fails, accepted>>

CommitA == \E x \in Tasks : \E w \in With(s, x, {"handling", "auto"}) :
  /\ s' \in CommitSent(s, now, x, s.ws[w].cm)
  /\ open' = open \cup {<<"commit", x>>}
  /\ UNCHANGED <<now, polls, claims, owed, fails, accepted>>

CommitAnswerA == \E x \in {o[2] : o \in {o \in open : o[1] = "commit"}}, ok \in BOOLEAN :
  /\ ok => x \notin DOMAIN accepted  \* the server accepts one commit of a claim
  /\ s' \in CommitAnswered(s, now, x, ok, "c" \o x)
  /\ open' = open \ {<<"commit", x>>}
  /\ accepted' = IF ok THEN Inc(accepted, x) ELSE accepted
  /\ UNCHANGED <<now, polls, claims, owed, fails>>

\* A commit that is given up does not reach this server.
NoneGone(X) == {[x EXCEPT !.gone = {}] : x \in X}

ManualDoneA == \E x \in Tasks, ok \in BOOLEAN :
  /\ s' \in NoneGone(ManualDone(s, now, x, ok)) /\ s' # s
  /\ UNCHANGED <<now, open, polls, claims, owed, fails, accepted>>

HandledA == \E x \in Tasks :
  /\ s' \in NoneGone(Handled(s, now, x))
  /\ \A w \in Workers(s) : s.ws[w].task = x => ~s.ws[w].flying
  /\ UNCHANGED <<now, open, polls, claims, owed, fails, accepted>>

ReportA == \E o \in owed \cup {"c" \o x : x \in Tasks} \cup {s.ws[w].origin : w \in Workers(s)} \cup {"?"} :
  /\ s' \in Report(s, now, o, 0)
  /\ owed' = owed \ {o} /\ fails' = IF o = "?" \/ SubSeq(o, 1, 1) = "c" THEN fails ELSE Inc(fails, o)
  /\ UNCHANGED <<now, open, polls, claims, accepted>>

ReportedA == s' \in Reported(s, now, 0) /\ UNCHANGED <<now, open, polls, claims, owed, fails, accepted>>

ReturnA == s' \in Return(s, now, "canceled") /\ UNCHANGED <<now, open, polls, claims, owed, fails, accepted>>

Tick == /\ now < MaxTime /\ Punctual(s, now + 1) /\ (now >= End => Busy(s) # {} \/ s.returned)
        /\ now' = now + 1
        /\ UNCHANGED <<s, open, polls, claims, owed, fails, accepted>>

Next == PollA \/ AnswerA \/ HandleA \/ SetA \/ CommitA \/ CommitAnswerA \/ ManualDoneA \/ HandledA \/ ReportA \/ ReportedA \/ ReturnA \/ Tick

Spec == Init /\ [][Next]_vars /\ WF_vars(ManualDoneA) /\ SF_vars(HandledA) /\ WF_vars(ReportedA) /\ WF_vars(Tick) /\ WF_vars(ReturnA)

-----------------------------------------------------------------------------
Bounded  == Cardinality(Busy(s)) <= N
Once     == \A x \in DOMAIN claims : claims[x] = 1
OnceF    == \A x \in DOMAIN fails : fails[x] = 1
\* nothing is forgotten: a failure not yet reported is still to be
NotLost  == now < End => \A o \in owed : \E w \in Workers(s) : s.ws[w].st = "failed" /\ s.ws[w].origin = o
\* at most one commit of a task is accepted
OneCommit == \A x \in DOMAIN accepted : accepted[x] <= 1
\* a worker that takes on new work has committed or reported the last
Silent   == s.returned => Busy(s) = {} /\ now >= End
NoPollAfterEnd == [][polls' > polls => now <= End]_vars
StaysReturned  == [][s.returned => s'.returned]_vars
CommitsAsConfigured ==
  [][\A x \in Tasks : \A w \in Workers(s) :
       (s.ws[w].task = x /\ s.ws[w].st = "auto" /\ s'.ws[w].st = "wait") => x \in DOMAIN accepted]_vars
Returns == (now = End) ~> s.returned
=============================================================================
