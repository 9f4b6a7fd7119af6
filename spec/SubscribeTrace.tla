-------------------------- MODULE SubscribeTrace --------------------------
(* Checks recorded subscriptions of the real client: an event that no      *)
(* state the events before may have led to allows is reported.             *)
EXTENDS Subscribe, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES l,   \* next line
          Ss,  \* the states the subscription may be in
          bad  \* the trace has been reported: skip the rest of it

Init == l = 1 /\ Ss = {} /\ bad = FALSE

Step1(s, e) ==
  CASE e.t = "poll"     -> Poll(s, e.now, e.req, e.promise)
    [] e.t = "answer"   -> Answer(s, e.now, e.req, e.a)
    [] e.t = "handle"   -> Handle(s, e.now, e.task, e.dl)
    [] e.t = "set"      -> Setter(s, e.now, e.task, e.f, e.v)
    [] e.t = "mstart"   -> ManualStart(s, e.now, e.task)
    [] e.t = "mdone"    -> ManualDone(s, e.now, e.task, e.ok)
    [] e.t = "commit"   -> CommitSent(s, e.now, e.task, e.cm)
    [] e.t = "canswer"  -> CommitAnswered(s, e.now, e.task, e.ok, e.origin)
    [] e.t = "handled"  -> Handled(s, e.now, e.task)
    [] e.t = "report"   -> Report(s, e.now, e.origin, e.call)
    [] e.t = "reported" -> Reported(s, e.now, e.call)
    [] e.t = "return"   -> Return(s, e.now, e.err)
    [] e.t = "end"      -> IF s.returned THEN {s} ELSE {}

After(e) == UNION {Step1(s, e) : s \in {s \in Ss : s.returned \/ Punctual(s, e.now)}}

Expect(e) == {[w \in Workers(s) |-> <<s.ws[w].st, DueBy(s.ws[w]), s.ws[w].task, s.ws[w].cm>>] : s \in Ss}

Next ==
  /\ l <= Len(Trace)
  /\ l' = l + 1
  /\ LET e == Trace[l] IN
     IF e.t = "reset" THEN Ss' = {Start(e.cfg, e.now)} /\ bad' = FALSE
     ELSE IF bad THEN UNCHANGED <<Ss, bad>>
     ELSE LET N == After(e) IN
          IF N # {} THEN Ss' = N /\ bad' = FALSE
          ELSE /\ PrintT("MISMATCH " \o ToJson([line |-> l, op |-> "Subscribe", what |-> <<e.t>>, props |-> {"C17"},
                                                expcode |-> 0, gotcode |-> 0, states |-> Expect(e)]))
               /\ Ss' = {} /\ bad' = TRUE

Accepted == PrintT("CHECKED " \o ToString(TLCGet("stats").diameter - 1) \o " OF " \o ToString(Len(Trace)))
=============================================================================
