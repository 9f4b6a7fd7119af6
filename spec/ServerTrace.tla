----------------------------- MODULE ServerTrace -----------------------------
(* Checks recorded runs of the real server with the monitor of Server.      *)
EXTENDS Server, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES l, m, bad

Init == l = 1 /\ m = <<>> /\ bad = FALSE

Step(e) ==
  CASE e.t = "begin"     -> Begin(m, e.r)
    [] e.t = "answered"  -> Answered(m, e.r)
    [] e.t = "lost"      -> Lost(m, e.r)
    [] e.t = "signal"    -> Signal(m)
    [] e.t = "broken"    -> Broken(m)
    [] e.t = "running"   -> Running(m)
    [] e.t = "exit"      -> Exit(m, e.panic, e.code)
    [] e.t = "norestart" -> NoRestart(m)
    [] e.t = "unusable"  -> Unusable(m)
    [] e.t = "runs"      -> Runs(m, e.n, e.from, e.to)
    [] e.t = "slow"      -> Slow(m)
    [] e.t = "steady"    -> Ok(m)
    [] e.t = "idle"      -> Idle(m, e.n, e.kept)
    [] e.t = "overdue"   -> Overdue(m, e.id)
    [] e.t = "recovered" -> Recovered(m, e.id)
    [] e.t = "patience"  -> Patience(m, e.id)
    [] e.t = "accept"    -> Accept(m, e.id)
    [] e.t = "saved"     -> Saved(m, {e.ids[i] : i \in DOMAIN e.ids})
    [] e.t = "handle"    -> Handle(m, e.id)
    [] e.t = "committed" -> Committed(m, e.id, e.ok, e.again)
    [] e.t = "final"     -> Final(m, e.id, e.state = 2)

Next ==
  /\ l <= Len(Trace)
  /\ l' = l + 1
  /\ LET e == Trace[l] IN
     IF e.t = "reset" THEN m' = Start(e.scn, e.interval, e.delay) /\ bad' = FALSE
     ELSE IF bad THEN UNCHANGED <<m, bad>>
     ELSE LET r == Step(e)
          IN /\ m' = r.m
             /\ bad' = (r.bad # {})
             /\ IF r.bad = {} THEN TRUE
                ELSE PrintT("MISMATCH " \o ToJson([line |-> l, op |-> "Server (" \o m.scn \o ")", what |-> r.bad, props |-> r.props, expcode |-> 0, gotcode |-> 0]))

Accepted == PrintT("CHECKED " \o ToString(TLCGet("stats").diameter - 1) \o " OF " \o ToString(Len(Trace)))
=============================================================================
