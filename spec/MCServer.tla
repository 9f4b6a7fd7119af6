------------------------------ MODULE MCServer ------------------------------
(***************************************************************************)
(* A design of the server program: what its parts do, in every order, and  *)
(* what that looks like from outside, which the monitor of Server judges.  *)
(*                                                                         *)
(* Variants are designs that do not work; each breaks Quiet, Kept or one   *)
(* of the liveness properties.                                             *)
(*   nowait   the program goes on as soon as it stops listening, with      *)
(*            requests still in progress                                   *)
(*   eager    the engine is closed when the first part ends                *)
(*   late     each part listens for signals on its own, once it runs       *)
(*   giveup   a failed run ends the background jobs                        *)
(*   quit     a failed run ends the program                                *)
(*   mute     a failure to save in the end is not reported                 *)
(*   drop     requests in progress are broken off                          *)
(***************************************************************************)
EXTENDS Server

CONSTANTS Variant,
          N,         \* requests
          MaxFails   \* failures of files

VARIABLES main,   \* starting, waiting, closing, done
          serve,  \* new, up (listening), draining, done
          jobs,   \* new, idle, running, done
          heard,  \* parts that a signal has reached
          told,   \* a signal was sent
          req,    \* requests: new, open (being worked on), applied, answered, lost, refused
          store, saved,  \* requests whose effects they hold
          files,  \* files can be written
          fails,
          due,    \* there is an overdue promise
          r       \* monitor

vars == <<main, serve, jobs, heard, told, req, store, saved, files, fails, due, r>>

R == 1 .. N

Init ==
  /\ main = "starting" /\ serve = "new" /\ jobs = "new" /\ heard = {} /\ told = FALSE
  /\ req = [i \in R |-> "new"] /\ store = {} /\ saved = {} /\ files = TRUE /\ fails = 0 /\ due = FALSE
  /\ r = Ok(Start("model", 1, 0))

M == r.m
See(x) == r' = [m |-> x.m, bad |-> r.bad \cup x.bad, props |-> r.props \cup x.props]

\* Who can be reached by a signal: all at once, before anything starts, or each once it runs.
Reach == IF Variant # "late" THEN IF main = "starting" THEN {} ELSE {"serve", "jobs"}
         ELSE (IF serve = "new" THEN {} ELSE {"serve"}) \cup (IF jobs = "new" THEN {} ELSE {"jobs"})

Begins == /\ main = "starting" /\ main' = "waiting"
          /\ UNCHANGED <<serve, jobs, heard, told, req, store, saved, files, fails, due, r>>

\* The signal: it kills a program in which nobody listens.
Tell ==
  /\ ~told /\ told' = TRUE
  /\ heard' = Reach
  /\ IF Reach = {}
     THEN /\ main' = "done"
          /\ serve' = "done" /\ jobs' = "done"
          /\ See(Exit(Signal([M EXCEPT !.scn = "early"]).m, FALSE, 0 - 1))
     ELSE UNCHANGED <<main, serve, jobs>> /\ See(Signal(M))
  /\ UNCHANGED <<req, store, saved, files, fails, due>>

Listen == /\ main = "waiting" /\ serve = "new" /\ serve' = "up"
          /\ UNCHANGED <<main, jobs, heard, told, req, store, saved, files, fails, due, r>>

Request(i) ==
  /\ serve = "up" /\ req[i] = "new" /\ req' = [req EXCEPT ![i] = "open"]
  /\ See(Begin(M, i))
  /\ UNCHANGED <<main, serve, jobs, heard, told, store, saved, files, fails, due>>

Apply(i) ==
  /\ main # "done" /\ req[i] = "open" /\ req' = [req EXCEPT ![i] = "applied"]
  /\ store' = store \cup {i}
  /\ due' \in {due, TRUE}
  /\ See(IF due' /\ ~due THEN Overdue(M, "a") ELSE Ok(M))
  /\ UNCHANGED <<main, serve, jobs, heard, told, saved, files, fails>>

Answer(i) ==
  /\ main # "done" /\ req[i] = "applied" /\ req' = [req EXCEPT ![i] = "answered"]
  /\ See(Answered(M, i))
  /\ UNCHANGED <<main, serve, jobs, heard, told, store, saved, files, fails, due>>

Busy == {i \in R : req[i] \in {"open", "applied"}}

StopServing ==
  /\ serve = "up" /\ "serve" \in heard
  /\ IF Variant = "drop"
     THEN /\ req' = [i \in R |-> IF i \in Busy THEN "lost" ELSE req[i]]
          /\ IF Busy = {} THEN See(Ok(M)) ELSE See(Lost(M, CHOOSE i \in Busy : TRUE))
     ELSE UNCHANGED <<req, r>>
  /\ serve' = IF Variant \in {"nowait", "drop"} THEN "done" ELSE "draining"
  /\ UNCHANGED <<main, jobs, heard, told, store, saved, files, fails, due>>

Drained ==
  /\ serve = "draining" /\ Busy = {} /\ serve' = "done"
  /\ UNCHANGED <<main, jobs, heard, told, req, store, saved, files, fails, due, r>>

StartJobs == /\ main = "waiting" /\ jobs = "new" /\ jobs' = "idle"
             /\ UNCHANGED <<main, serve, heard, told, req, store, saved, files, fails, due, r>>

Tick == /\ jobs = "idle" /\ jobs' = "running"
        /\ UNCHANGED <<main, serve, heard, told, req, store, saved, files, fails, due, r>>

\* A run recovers what is overdue, and then saves.
Run ==
  /\ jobs = "running" /\ main = "waiting"
  /\ due' = FALSE
  /\ saved' = IF files THEN store ELSE saved
  /\ jobs' = IF ~files /\ Variant \in {"giveup", "quit"} THEN "done" ELSE "idle"
  /\ serve' = IF ~files /\ Variant = "quit" THEN "done" ELSE serve
  /\ IF due THEN See(Recovered(M, "a")) ELSE UNCHANGED r
  /\ UNCHANGED <<main, heard, told, req, store, files, fails>>

StopJobs == /\ jobs = "idle" /\ "jobs" \in heard /\ jobs' = "done"
            /\ UNCHANGED <<main, serve, heard, told, req, store, saved, files, fails, due, r>>

Ended == IF Variant = "eager" THEN serve = "done" \/ jobs = "done" ELSE serve = "done" /\ jobs = "done"

Close == /\ main = "waiting" /\ Ended
         /\ main' = "closing"
         /\ UNCHANGED <<serve, jobs, heard, told, req, store, saved, files, fails, due, r>>

\* The image in the end.
Quit == /\ main = "closing"
        /\ main' = "done"
        /\ saved' = IF files THEN store ELSE saved
        /\ See(Exit([M EXCEPT !.broken = ~files], FALSE, IF files \/ Variant = "mute" THEN 0 ELSE 1))
        /\ UNCHANGED <<serve, jobs, heard, told, req, store, files, fails, due>>

\* Trouble with the files, for some time.
Fail == /\ fails < MaxFails /\ files /\ main # "done"
        /\ files' = FALSE /\ fails' = fails + 1
        /\ UNCHANGED <<main, serve, jobs, heard, told, req, store, saved, due, r>>
Repair == /\ ~files /\ main # "done" /\ files' = TRUE
          /\ UNCHANGED <<main, serve, jobs, heard, told, req, store, saved, fails, due, r>>

Next == \/ Begins \/ Tell \/ Listen \/ StopServing \/ Drained \/ StartJobs \/ Tick \/ Run \/ StopJobs \/ Close \/ Quit \/ Fail \/ Repair
        \/ \E i \in R : Request(i) \/ Apply(i) \/ Answer(i)

Fairness == /\ WF_vars(Begins) /\ WF_vars(Listen) /\ WF_vars(StopServing) /\ WF_vars(Drained) /\ WF_vars(StartJobs) /\ WF_vars(Tick)
            /\ WF_vars(Run) /\ SF_vars(StopJobs) /\ WF_vars(Close) /\ WF_vars(Quit) /\ WF_vars(Repair)
            /\ \A i \in R : WF_vars(Apply(i)) /\ WF_vars(Answer(i))

Spec == Init /\ [][Next]_vars /\ Fairness

-----------------------------------------------------------------------------
Quiet == r.bad = {}
\* C13: what was answered is there after a restart, unless it was reported that it could not be saved.
Kept == (main = "done" /\ told /\ files) => {i \in R : req[i] = "answered"} \subseteq saved
\* C13: it stops when it is told to; C18: background jobs go on; requests are answered.
Stops == told ~> (main = "done")
GoesOn == due ~> (~due \/ told)
Answers == \A i \in R : (req[i] = "open") ~> (req[i] = "answered")
=============================================================================
