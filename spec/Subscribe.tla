----------------------------- MODULE Subscribe -----------------------------
(***************************************************************************)
(* The client's subscription: n workers that poll, handle, commit.         *)
(*                                                                         *)
(* The state of a subscription is a record [ws, last, cfg, returned,       *)
(* gone]: the workers, the last time a handler call ended, the options,    *)
(* whether it has returned, and the commits that were given up at the      *)
(* instant they were made, which may still reach the server at that        *)
(* instant.  Every event has an operator that yields the set of states it may lead to; the set is    *)
(* empty if the event must not happen.  Times are milliseconds.            *)
(*                                                                         *)
(* cfg.end is the time the context ends.  At that very instant a worker    *)
(* may or may not have noticed; afterwards it must have.                   *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

Never == 1000000000

Lesser(a, b)  == IF a < b THEN a ELSE b
Greater(a, b) == IF a > b THEN a ELSE b

NoCommit == [nonce |-> "", topic |-> "", state |-> -1, scheduled |-> "", payload |-> "", defer |-> ""]

\* A worker:
\*   st  wait      a timer is set to "at", then it polls
\*       polling   poll "req" is being answered
\*       claimed   "task" was claimed at "at" and is to be handled
\*       handling  the handler runs for "task"
\*       auto      the handler returned at "at"; to be committed
\*       committing
\*       failed    failure "origin" occurred at "at" and is to be reported
\*       reporting the handler runs for call "req" to report a failure
Worker(at) == [st |-> "wait", at |-> at, req |-> 0, task |-> "", dl |-> Never, cm |-> NoCommit, nonce |-> "",
               committed |-> FALSE, tried |-> FALSE, flying |-> FALSE, origin |-> ""]

Start(cfg, now) ==
  [ws |-> [w \in 1 .. Greater(1, cfg.n) |-> Worker(now + cfg.cd * (w - 1))],
   last |-> now, cfg |-> cfg, returned |-> FALSE, gone |-> {}]

Workers(s) == DOMAIN s.ws

\* The instant by which a worker must have done its next step.
DueBy(w) == CASE w.st \in {"wait", "claimed", "auto", "failed"} -> w.at
              [] w.st = "committing" -> w.dl
              [] OTHER -> Never

\* Nobody missed its step when the time reaches t.
\* (A commit under way is given up at the deadline of the task and when the context ends.)
Punctual(s, t) ==
  \A w \in Workers(s) :
    /\ DueBy(s.ws[w]) >= Lesser(t, s.cfg.end)
    /\ s.ws[w].st = "handling" /\ s.ws[w].flying => t <= Lesser(s.ws[w].dl, s.cfg.end)

Ended(s, t)    == t > s.cfg.end
MayBeEnded(s, t) == t >= s.cfg.end

Set(s, w, r) == [s EXCEPT !.ws[w] = r]
Busy(s)      == {w \in Workers(s) : s.ws[w].st \in {"handling", "reporting"}}

-----------------------------------------------------------------------------
(* Polling *)

\* Equal workers are interchangeable.
Poll(s, t, n, p) ==
  IF s.returned /\ t = s.cfg.end THEN {s}
  ELSE IF \/ Ended(s, t) \/ s.returned
     \/ p # [topic |-> s.cfg.topic, consumer |-> s.cfg.consumer, timeout |-> s.cfg.timeout, other |-> ""]
  THEN {}
  ELSE LET R == {w \in Workers(s) : s.ws[w].st = "wait" /\ s.ws[w].at = t}
       IN IF R = {} THEN {} ELSE {Set(s, CHOOSE w \in R : TRUE, [Worker(t) EXCEPT !.st = "polling", !.req = n])}

Fail(w, t, origin) == [Worker(t) EXCEPT !.st = "failed", !.origin = origin]

\* The answer to poll n: a task, nothing, or a failure.
Answer(s, t, n, a) ==
  LET R == {w \in Workers(s) : s.ws[w].st = "polling" /\ s.ws[w].req = n}
      dl == Lesser(s.cfg.enddl, IF a.dur = Never THEN Never ELSE t + a.dur)
  IN IF R = {} THEN IF MayBeEnded(s, t) THEN {s} ELSE {}
     ELSE LET w == CHOOSE w \in R : TRUE
          IN {CASE a.k = "task" ->
                     Set(s, w, [Worker(t) EXCEPT !.st = "claimed", !.task = a.task, !.dl = dl, !.nonce = a.nonce,
                                                 !.cm = [NoCommit EXCEPT !.nonce = a.nonce, !.state = 2]])
                [] a.k = "empty" -> Set(s, w, Worker(t + s.cfg.di))
                [] a.k = "error" -> Set(s, w, Fail(s.ws[w], t, a.origin))}

-----------------------------------------------------------------------------
(* Handling *)

With(s, task, states) == {w \in Workers(s) : s.ws[w].task = task /\ s.ws[w].st \in states}

Handle(s, t, task, dl) ==
  {Set(s, w, [s.ws[w] EXCEPT !.st = "handling"]) :
     w \in {w \in With(s, task, {"claimed"}) : s.ws[w].dl = dl /\ (s.ws[w].at = t \/ MayBeEnded(s, t)) /\ ~s.returned}}

\* What the setters of the context do to the commit.
Configure(cm, nonce, f, v) ==
  CASE f = "nonce"     -> [cm EXCEPT !.nonce = v]
    [] f = "topic"     -> [cm EXCEPT !.topic = v]
    [] f = "state"     -> [cm EXCEPT !.state = v]
    [] f = "scheduled" -> [cm EXCEPT !.scheduled = v]
    [] f = "payload"   -> [cm EXCEPT !.payload = v]
    [] f = "defer"     -> [cm EXCEPT !.defer = v]
    [] f = "force"     -> [cm EXCEPT !.nonce = ""]
    [] f = "abstain"   -> [cm EXCEPT !.state = 0]
    [] f = "archive"   -> [cm EXCEPT !.state = 3]
    [] f = "reschedule" -> [cm EXCEPT !.state = 0, !.scheduled = v]
    [] f = "retry"     -> [cm EXCEPT !.state = 0, !.defer = v]
    [] f = "reset"     -> [NoCommit EXCEPT !.nonce = nonce, !.state = 2]

Setter(s, t, task, f, v) ==
  {Set(s, w, [s.ws[w] EXCEPT !.cm = Configure(@, s.ws[w].nonce, f, v)]) : w \in With(s, task, {"handling"})}

\* The handler calls Commit ...
ManualStart(s, t, task) ==
  {Set(s, w, [s.ws[w] EXCEPT !.tried = FALSE]) : w \in With(s, task, {"handling"})}

\* ... and it returns.
ManualDone(s, t, task, ok) ==
  {[Set(s, w, [s.ws[w] EXCEPT !.flying = FALSE]) EXCEPT
      !.gone = IF ok \/ s.ws[w].tried \/ ~(t = s.ws[w].dl \/ t = s.cfg.end) THEN @ ELSE @ \cup {<<task, s.ws[w].cm, t>>}] :
     w \in {w \in With(s, task, {"handling"}) :
              /\ ok = s.ws[w].committed
              /\ ok \/ s.ws[w].tried \/ t >= s.ws[w].dl \/ MayBeEnded(s, t)
              /\ s.ws[w].flying => ~ok /\ (t >= s.ws[w].dl \/ MayBeEnded(s, t))}}

\* The server receives a commit.
CommitSent(s, t, task, cm) ==
  (IF <<task, cm, t>> \in s.gone THEN {[s EXCEPT !.gone = @ \ {<<task, cm, t>>}]} ELSE {}) \cup
  {Set(s, w, [s.ws[w] EXCEPT !.st = IF @ = "auto" THEN "committing" ELSE @, !.tried = TRUE, !.flying = TRUE]) :
     w \in {w \in With(s, task, {"handling", "auto"}) :
              /\ ~s.ws[w].committed /\ ~s.ws[w].flying /\ s.ws[w].cm = cm
              /\ t <= s.ws[w].dl /\ ~Ended(s, t)
              /\ s.ws[w].st = "auto" => s.ws[w].at = t}}

\* The server answers a commit.  Whoever no longer waits for it does not notice.
CommitAnswered(s, t, task, ok, origin) ==
  LET R == {w \in With(s, task, {"handling", "committing"}) : s.ws[w].flying}
  IN IF R = {} THEN {s}
     ELSE LET w == CHOOSE w \in R : TRUE
              seen == IF s.ws[w].st = "handling"
                      THEN Set(s, w, [s.ws[w] EXCEPT !.flying = FALSE, !.committed = ok])
                      ELSE IF ok THEN Set(s, w, Worker(t + s.cfg.pi)) ELSE Set(s, w, Fail(s.ws[w], t, origin))
              late == IF s.ws[w].st = "handling" THEN s ELSE Set(s, w, Fail(s.ws[w], s.ws[w].dl, "?"))
          IN (IF t <= s.ws[w].dl THEN {seen} ELSE {})
               \cup (IF t >= s.ws[w].dl \/ MayBeEnded(s, t) THEN {late} ELSE {})

\* The handler returns; without a commit of its own, one is due.
Handled(s, t, task) ==
  UNION {LET x == s.ws[w]
             next == IF x.committed THEN {Worker(t + s.cfg.pi)}
                     ELSE (IF t <= x.dl THEN {[x EXCEPT !.st = "auto", !.at = t, !.flying = FALSE]} ELSE {})
                            \cup (IF t >= x.dl \/ MayBeEnded(s, t) THEN {Fail(x, t, "?")} ELSE {})
         IN {[Set(s, w, r) EXCEPT !.last = t, !.gone = IF r.st = "failed" /\ (t = x.dl \/ t = s.cfg.end)
                                                       THEN @ \cup {<<task, x.cm, t>>} ELSE @] : r \in next}
         : w \in With(s, task, {"handling"})}

-----------------------------------------------------------------------------
(* Failures *)

\* A commit whose time is up has failed.
Expired(s, t) ==
  [s EXCEPT !.ws = [w \in Workers(s) |->
     IF s.ws[w].st = "committing" /\ t >= s.ws[w].dl THEN Fail(s.ws[w], s.ws[w].dl, "?") ELSE s.ws[w]]]

\* The handler is called with the failure "origin" ("?": unknown); "call" names the call.
Report(s0, t, origin, call) ==
  UNION {{Set(s, w, [Worker(t) EXCEPT !.st = "reporting", !.req = call]) :
     w \in {w \in Workers(s) : /\ s.ws[w].st = "failed"
                               /\ s.ws[w].at = t
                               /\ s.ws[w].origin = origin
                               /\ ~Ended(s, t) /\ ~s.returned}} : s \in {s0, Expired(s0, t)}}

Reported(s, t, call) ==
  {[Set(s, w, Worker(t + s.cfg.ei)) EXCEPT !.last = t] :
     w \in {w \in Workers(s) : s.ws[w].st = "reporting" /\ s.ws[w].req = call}}

-----------------------------------------------------------------------------
\* Subscribe returns when the context has ended and no handler runs.
Return(s, t, err) ==
  IF /\ MayBeEnded(s, t) /\ Busy(s) = {} /\ err = s.cfg.err /\ ~s.returned
     /\ t = Greater(s.cfg.end, s.last)
  THEN {[s EXCEPT !.returned = TRUE]}
  ELSE {}
=============================================================================
