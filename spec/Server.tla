------------------------------- MODULE Server -------------------------------
(***************************************************************************)
(* The life of a server: it answers requests and runs background jobs,     *)
(* until it is told to stop; then it completes the requests in progress,   *)
(* saves what it holds, and ends (C13, C18, and C12 as far as the program  *)
(* is concerned).                                                          *)
(*                                                                         *)
(* The monitor is fed with events seen from outside.  MCServer feeds it    *)
(* from a design of the program, ServerTrace from recorded runs of the     *)
(* real one.  What the store holds after a stop is judged by RatusLin,     *)
(* which finds an order for the calls, the image on disk, and the calls    *)
(* after the restart.                                                      *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

Start(scn, interval, delay) ==
  [scn |-> scn, interval |-> interval, delay |-> delay,
   open |-> {},        \* requests the server works on
   sig |-> FALSE,      \* it was told to stop
   over |-> FALSE,     \* it has ended
   broken |-> FALSE,   \* its files cannot be written
   owed |-> {},        \* overdue promises it has not recovered
   seen |-> <<0, 0>>,  \* the time of the last look at the counter of runs, and what it said
   acc |-> {},         \* tasks that were accepted
   tried |-> {},       \* those that were handed out
   done |-> {}]        \* those whose completion was accepted

Ok(m) == [m |-> m, bad |-> {}, props |-> {}]
Bad(m, what, props) == [m |-> m, bad |-> {what}, props |-> props]
If(ok, m, what, props) == IF ok THEN Ok(m) ELSE Bad(m, what, props)

Begin(m, r) == If(~m.over, [m EXCEPT !.open = @ \cup {r}], "a request begins after the end", {"C13"})
Answered(m, r) == Ok([m EXCEPT !.open = @ \ {r}])
Lost(m, r) == Bad(m, "a request in progress was not answered", {"C13", "C15"})
Signal(m) == Ok([m EXCEPT !.sig = TRUE])
Broken(m) == Ok([m EXCEPT !.broken = TRUE])

\* It did not end within the time it was given.
Running(m) == Bad(m, "the server does not stop", {"C13"})

\* code < 0: ended by the signal, which it may be while it starts.
Exit(m, panic, code) ==
  LET n == [m EXCEPT !.over = TRUE]
  IN IF panic THEN Bad(n, "the server crashed", {"C13", "C15"})
     ELSE IF ~m.sig THEN Bad(n, "the server ended without being told to", {"C13", "C18"})
     ELSE IF m.open # {} THEN Bad(n, "the server ended before it answered the requests in progress", {"C13"})
     ELSE IF m.broken THEN If(code > 0, n, "a final snapshot that could not be saved was not reported", {"C12", "C13"})
     ELSE If(code = 0 \/ (code < 0 /\ m.scn = "early"), n, "the server ended with an error", {"C13"})

NoRestart(m) == Bad(m, "the server does not start again", {"C12", "C13"})
Unusable(m) == Bad(m, "a running server does not answer", {"C15", "C18"})

\* The counter said n at some moment between two times (milliseconds since the start).
Runs(m, n, from, to) ==
  LET since == IF m.seen[2] = 0 THEN m.delay ELSE m.seen[1]
      most == IF to <= since THEN 0 ELSE (to - since) \div m.interval
  IN If(n >= m.seen[2] /\ n <= m.seen[2] + most + 3, [m EXCEPT !.seen = <<from, n>>],
        "background jobs run too often", {"C18"})

\* The counter was watched for long, time and again.
Slow(m) == Bad(m, "background jobs run too seldom", {"C18"})

\* Without background jobs nothing happens.
Idle(m, n, kept) == If(n = 0 /\ kept, m, "background jobs run although they are turned off", {"C18"})

Overdue(m, i) == Ok([m EXCEPT !.owed = @ \cup {i}])
Recovered(m, i) == Ok([m EXCEPT !.owed = @ \ {i}])
Patience(m, i) ==
  IF i = "save" THEN Bad(m, "what is due to be saved is not saved", {"C12", "C18"})
  ELSE Bad(m, "an overdue promise is not recovered", {"C18"})

\* Consumers at work.
Accept(m, i) == Ok([m EXCEPT !.acc = @ \cup {i}])
\* What it has left on disk.
Saved(m, ids) == If(m.acc \subseteq ids, m, "what was acknowledged is not saved", {"C12", "C13"})
Handle(m, i) == If(i \in m.acc, [m EXCEPT !.tried = @ \cup {i}], "a task is handed out that nobody produced", {"C18"})
Committed(m, i, ok, again) ==
  \* An answer may be noted late, so one that put the task back says nothing here.
  IF ~ok \/ again THEN Ok(m)
  ELSE IF i \in m.done THEN Bad(m, "a task was completed twice", {"C02", "C18"})
  ELSE Ok([m EXCEPT !.done = @ \cup {i}])
\* Consumers have polled for long, and their mishaps were few.
Final(m, i, completed) ==
  IF completed THEN If(i \in m.tried, m, "a task is completed that was not handed out", {"C18"})
  ELSE Bad(m, "a task was not executed", {"C18"})
=============================================================================
