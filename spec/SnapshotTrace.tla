--------------------------- MODULE SnapshotTrace ---------------------------
(* Checks recorded file operations and calls of the real engine: replays   *)
(* them on the file system of Snapshot and reports what its monitor says.  *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES l, m, dec, empty, bad

Sn == INSTANCE Snapshot WITH Dec <- LAMBDA c : dec[c + 1],
                             TLe <- LAMBDA a, b : \/ a[1] < b[1]
                                                  \/ a[1] = b[1] /\ a[2] < b[2]
                                                  \/ a[1] = b[1] /\ a[2] = b[2] /\ a[3] <= b[3],
                             TAdd <- LAMBDA a, d : LET n == a[3] + d[3]
                                                       s == a[2] + d[2] + n \div 1000000000
                                                   IN <<a[1] + d[1] + s \div 1000000000, s % 1000000000, n % 1000000000>>

Init == l = 1 /\ m = <<>> /\ dec = <<>> /\ empty = 0 /\ bad = FALSE

Fs(fs) == Sn!Ok([m EXCEPT !.fs = fs])

Step(e) ==
  CASE e.t = "create" -> Fs(Sn!FCreate(m.fs, e.f, e.i))
    [] e.t = "write"  -> Fs(Sn!FWrite(m.fs, e.i, e.c))
    [] e.t = "sync"   -> Fs(Sn!FSync(m.fs, e.i))
    [] e.t = "syncdir" -> Fs(Sn!FSyncDir(m.fs))
    [] e.t = "rename" -> Fs(Sn!FRename(m.fs, e.f, e.to))
    [] e.t = "link"   -> Fs(Sn!FLink(m.fs, e.f, e.to))
    [] e.t = "unlink" -> Fs(Sn!FUnlink(m.fs, e.f))
    [] e.t = "fault"  -> Sn!Ok([m EXCEPT !.fault = TRUE])
    [] e.t = "broken" -> Sn!Ok([m EXCEPT !.broken = TRUE])
    [] e.t = "repaired" -> Sn!Ok([m EXCEPT !.broken = FALSE])
    [] e.t = "op"     -> Sn!Ok(Sn!Grow(m, e.img))
    [] e.t = "kill"   -> Sn!Ok(Sn!Done(m))
    [] e.t = "open0"  -> Sn!Ok(Sn!Called(m))
    [] e.t = "open1"  -> Sn!Opened(m, e.ok, e.img, empty, e.now)
    [] e.t = "chore0" -> Sn!Ok(Sn!ChoreBegins(m, e.now))
    [] e.t = "chore1" -> Sn!ChoreEnds(m, e.ok, e.now)
    [] e.t = "close0" -> Sn!Ok(Sn!Called(m))
    [] e.t = "close1" -> Sn!CloseEnds(m, e.ok, e.now)
    [] e.t = "continue" -> Sn!Res(m, IF e.ok THEN {} ELSE {"an engine opened after a crash does not work: " \o e.note})

Next ==
  /\ l <= Len(Trace)
  /\ l' = l + 1
  /\ LET e == Trace[l] IN
     IF e.t = "reset" THEN m' = Sn!Start(e.main, e.intv, e.now) /\ dec' = e.dec /\ empty' = e.empty /\ bad' = FALSE
     ELSE IF bad THEN UNCHANGED <<m, dec, empty, bad>>
     ELSE LET r == Step(e)
              b == r.bad \cup Sn!Damage(r.m)
          IN /\ m' = r.m
             /\ UNCHANGED <<dec, empty>>
             /\ bad' = (b # {})
             /\ IF b = {} THEN TRUE
                ELSE PrintT("MISMATCH " \o ToJson([line |-> l, op |-> "Snapshot", what |-> b, props |-> {"C12"}, expcode |-> 0, gotcode |-> 0,
                                                   lo |-> r.m.lo, from |-> r.m.from, due |-> m.due, cur |-> Len(r.m.hist)]))

Accepted == PrintT("CHECKED " \o ToString(TLCGet("stats").diameter - 1) \o " OF " \o ToString(Len(Trace)))
=============================================================================
