----------------------------- MODULE NonceTrace ------------------------------
(* The nonces of many claims, issued by several instances of the program,   *)
(* some of them at the same time and some after each other: no two claims   *)
(* have the same one.  Each line is an instance with the tasks it claimed   *)
(* again and again: the nonces in the order of the claims, and commits with *)
(* the nonces of some of them at the end, the last claim's at last.         *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES l,
          issued   \* the nonces of earlier instances

Range(s) == {s[i] : i \in DOMAIN s}
W(ok, what) == IF ok THEN {} ELSE {what}

Nonces(e) == UNION {Range(e.tasks[i].nonces) : i \in DOMAIN e.tasks}
RECURSIVE Sum(_, _)
Sum(e, i) == IF i = 0 THEN 0 ELSE Len(e.tasks[i].nonces) + Sum(e, i - 1)
Claims(e) == Sum(e, Len(e.tasks))

\* Only the claim in force can be committed, and only once.
Commits(t) ==
  LET n == t.nonces[Len(t.nonces)]
      first == {i \in DOMAIN t.commits : t.commits[i].nonce = n}
  IN UNION {W(t.commits[i].code = (IF i \in first /\ \A j \in first : i <= j THEN 200 ELSE 409), "commits with nonces of many claims") : i \in DOMAIN t.commits}

Next ==
  /\ l <= Len(Trace)
  /\ l' = l + 1
  /\ \E e \in {Trace[l]} : \E ns \in {Nonces(e)} :
       /\ issued' = issued \cup ns
       /\ \E bad \in {W("" \notin ns, "a claim without a nonce") \cup W(Claims(e) = e.claims, "a claim failed")
                      \cup W(Cardinality(ns) = Claims(e), "two claims have the same nonce")
                      \cup W(ns \cap issued = {}, "claims of two instances have the same nonce")
                      \cup UNION {Commits(e.tasks[i]) : i \in DOMAIN e.tasks}} :
            IF bad = {} THEN TRUE
            ELSE PrintT("MISMATCH " \o ToJson([line |-> l, op |-> "Claims", what |-> bad, props |-> {"C01", "C02"}, expcode |-> 0, gotcode |-> 0]))

Init == l = 1 /\ issued = {}

Accepted == PrintT("CHECKED " \o ToString(TLCGet("stats").diameter - 1) \o " OF " \o ToString(Len(Trace)))
=============================================================================
