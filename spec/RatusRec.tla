------------------------------ MODULE RatusRec ------------------------------
(***************************************************************************)
(* What the checks of recorded behaviour share: the times of recorded      *)
(* traces, and which properties an operation serves.                       *)
(***************************************************************************)
EXTENDS RatusApi, Json, IOUtils

\* Times of recorded traces: <<10^9 seconds, seconds, nanoseconds>>.
G == 1000000000
TLe3(a, b) == \/ a[1] < b[1]
              \/ a[1] = b[1] /\ a[2] < b[2]
              \/ a[1] = b[1] /\ a[2] = b[2] /\ a[3] <= b[3]
TAdd3(a, d) ==
  LET n == a[3] + d[3]
      s == a[2] + d[2] + n \div G
  IN <<a[1] + d[1] + s \div G, s % G, n % G>>
TRound3(a) == <<a[1], a[2], a[3] - (a[3] % 1000000)>>
TMilli3 == <<0, 0, 1000000>>
TSecond3 == <<0, 1, 0>>
Timeout3 == <<0, 600, 0>>

ToSet2(s) == {s[n] : n \in 1 .. Len(s)}

PropsOf(o) ==
  CASE o = "Poll" -> {"C01", "C05"}
    [] o \in {"InsertPromise", "UpsertPromise"} -> {"C01"}
    [] o = "Commit" -> {"C02", "C03"}
    [] o \in {"DeletePromise", "DeletePromises"} -> {"C11", "C02"}
    [] o = "Chore" -> {"C04", "C06"}
    [] o = "Expire" -> {"C06"}
    [] o \in {"InsertTask", "UpsertTask", "InsertTasks", "UpsertTasks"} -> {"C07"}
    [] o \in {"DeleteTask", "DeleteTasks", "DeleteTopic", "DeleteTopics"} -> {"C08"}
    [] o = "Restart" -> {"C12", "C13"}
    [] o = "Image" -> {"C12"}
    [] o \in Readers -> {"C10"}
    [] OTHER -> {}
=============================================================================
