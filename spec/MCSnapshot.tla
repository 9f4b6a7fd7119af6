---------------------------- MODULE MCSnapshot ----------------------------
(***************************************************************************)
(* The way snapshots are written: to a new file, flushed, then moved over  *)
(* the previous one. Every file operation may fail, and the process may    *)
(* end before any of them. The monitor of Snapshot must have nothing to    *)
(* say. Variant names a step that is left out or in the wrong place, for   *)
(* which it must have.                                                     *)
(***************************************************************************)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC

CONSTANTS Chunks, Intv, MaxTime, MaxOps, MaxSaves, MaxOpens, Variant

VARIABLES now, m, bad,
          img,    \* contents of the running engine, 0: not running
          pc, why, \* step of the save, and on behalf of what
          copy,   \* contents being saved
          ino, k, \* temporary file and number of chunks written
          saved,  \* the engine's own idea of the last save
          ops, saves, opens

vars == <<now, m, bad, img, pc, why, copy, ino, k, saved, ops, saves, opens>>

\* A file is a sequence of chunks of an image; an incomplete one is unreadable.
Whole(i) == 1000 + i
Part(i, n) == IF n = Chunks THEN Whole(i) ELSE 100 * n + i
Sn == INSTANCE Snapshot WITH Dec <- LAMBDA c : IF c >= 1000 THEN c - 1000 ELSE 0 - 1,
                             TLe <- LAMBDA a, b : a <= b, TAdd <- LAMBDA a, b : a + b

Empty == 1
Never == 0 - 100
None == 0

Init ==
  /\ now = 0 /\ m = Sn!Start("main", Intv, 0) /\ bad = {}
  /\ img = None /\ pc = "idle" /\ why = "" /\ copy = 0 /\ ino = 0 /\ k = 0 /\ saved = Never /\ ops = 0 /\ saves = 0 /\ opens = 0

\* Feed the monitor.
Tell(r) == m' = r.m /\ bad' = bad \cup r.bad \cup Sn!Damage(r.m)
Fs(fs) == Tell(Sn!Ok([m EXCEPT !.fs = fs]))
Fails == Tell(Sn!Ok([m EXCEPT !.fault = TRUE]))

Tick == /\ now < MaxTime /\ pc = "idle" /\ now' = now + 1
        /\ UNCHANGED <<m, bad, img, pc, why, copy, ino, k, saved, ops, saves, opens>>

Load == IF Sn!Present(m) THEN IF Sn!Content(m.fs) >= 1000 THEN Sn!Content(m.fs) - 1000 ELSE 0 - 1 ELSE Empty
Open == /\ opens < MaxOpens /\ opens' = opens + 1
        /\ img = None /\ pc = "idle" /\ Load # 0 - 1
        /\ img' = Load /\ saved' = Never
        /\ Tell(Sn!Opened(Sn!Called(m), TRUE, Load, Empty, now))
        /\ UNCHANGED <<now, pc, why, copy, ino, k, ops, saves>>

\* A request changes the store, also while a snapshot is being written.
Op == /\ img # None /\ ops < MaxOps
      /\ img' = ops + 2 /\ ops' = ops + 1
      /\ Tell(Sn!Ok(Sn!Grow(m, ops + 2)))
      /\ UNCHANGED <<now, pc, why, copy, ino, k, saved, saves, opens>>

Chore == /\ img # None /\ pc = "idle" /\ saves < MaxSaves
         /\ LET c == Sn!ChoreBegins(m, now) IN
            IF saved + Intv > now
            THEN Tell(Sn!ChoreEnds(c, TRUE, now)) /\ UNCHANGED <<pc, why, saved, saves>>
            ELSE /\ Tell(Sn!Ok(c)) /\ pc' = "create" /\ why' = "chore" /\ saves' = saves + 1
                 /\ saved' = IF Variant = "eager" THEN now ELSE saved
         /\ UNCHANGED <<now, img, copy, ino, k, ops, opens>>

Close == /\ img # None /\ pc = "idle" /\ saves < MaxSaves
         /\ Tell(Sn!Ok(Sn!Called(m))) /\ pc' = "create" /\ why' = "close" /\ saves' = saves + 1
         /\ UNCHANGED <<now, img, copy, ino, k, saved, ops, opens>>

File == IF Variant = "direct" THEN "main" ELSE "tmp" \o ToString(ino')
Tmp == CHOOSE n \in DOMAIN m.fs.ns : m.fs.ns[n] = ino

Create == /\ pc = "create"
          /\ ino' = saves
          /\ Fs(Sn!FCreate(m.fs, File, ino'))
          /\ copy' = img /\ k' = 0
          /\ pc' = IF Variant = "early" THEN "rename" ELSE "write"
          /\ UNCHANGED <<now, img, why, saved, ops, saves, opens>>

\* "torn": chunks are taken from the store as it is by then.
Write == /\ pc = "write" /\ k < Chunks
         /\ k' = k + 1
         /\ copy' = IF Variant = "torn" /\ copy # img THEN 99 ELSE copy
         /\ Fs(Sn!FWrite(m.fs, ino, Part(copy', k + 1)))
         /\ UNCHANGED <<now, img, pc, why, ino, saved, ops, saves, opens>>

Written == IF Variant = "early" THEN "end" ELSE IF Variant = "direct" THEN "end" ELSE "rename"
Sync == /\ pc = "write" /\ k = Chunks
        /\ pc' = Written
        /\ IF Variant = "nosync" THEN UNCHANGED <<m, bad>> ELSE Fs(Sn!FSync(m.fs, ino))
        /\ UNCHANGED <<now, img, why, copy, ino, k, saved, ops, saves, opens>>

Rename == /\ pc = "rename"
          /\ pc' = IF Variant = "early" THEN "write" ELSE "end"
          /\ Fs(Sn!FRename(m.fs, Tmp, "main"))
          /\ UNCHANGED <<now, img, why, copy, ino, k, saved, ops, saves, opens>>

Finish(ok) ==
  /\ pc' = "idle"
  /\ IF why = "chore" THEN /\ Tell(Sn!ChoreEnds(m, ok, now)) /\ UNCHANGED img
                           /\ saved' = IF ok THEN now ELSE saved
     ELSE Tell(Sn!CloseEnds(m, ok, now)) /\ img' = None /\ UNCHANGED saved
  /\ why' = "" /\ copy' = 0 /\ ino' = 0 /\ k' = 0
  /\ UNCHANGED <<now, ops, saves, opens>>

End == pc = "end" /\ Finish(TRUE)

\* A file operation fails: the temporary file is removed.
Fault == /\ pc \in {"create", "write", "rename"}
         /\ Fails /\ pc' = "cleanup"
         /\ UNCHANGED <<now, img, why, copy, ino, k, saved, ops, saves, opens>>
Gone == ino # 0 /\ \E n \in DOMAIN m.fs.ns : m.fs.ns[n] = ino /\ n # "main"
Cleanup == /\ pc = "cleanup"
           /\ \/ Gone /\ Fs(Sn!FUnlink(m.fs, Tmp)) /\ pc' = "failed"
              \/ UNCHANGED <<m, bad>> /\ pc' = "failed"
           /\ UNCHANGED <<now, img, why, copy, ino, k, saved, ops, saves, opens>>
Failed == pc = "failed" /\ Finish(Variant = "silent")

Crash == /\ img # None
         /\ img' = None /\ pc' = "idle" /\ Tell(Sn!Ok(Sn!Done(m)))
         /\ why' = "" /\ copy' = 0 /\ ino' = 0 /\ k' = 0 /\ saved' = Never
         /\ UNCHANGED <<now, ops, saves, opens>>

Next == Tick \/ Open \/ Op \/ Chore \/ Close \/ Create \/ Write \/ Sync \/ Rename \/ End \/ Fault \/ Cleanup \/ Failed \/ Crash

Quiet == bad = {}
=============================================================================
