----------------------------- MODULE Snapshot -----------------------------
(***************************************************************************)
(* Snapshots (C12): a file system that can crash, and a monitor of what is *)
(* said and done while an engine with a snapshot path runs.                *)
(*                                                                         *)
(* The monitor is fed with events: file operations in the snapshot         *)
(* directory, and the calls that open and close the engine, change its     *)
(* contents and run its background jobs. After every single event the      *)
(* snapshot file must be usable, so every event is also a crash point.     *)
(* MCSnapshot feeds it from a design of the algorithm, SnapshotTrace from  *)
(* recorded system calls of the real engine.                               *)
(***************************************************************************)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC

CONSTANTS Dec(_),   \* content of a file -> image of the store, Corrupt if unreadable
          TLe(_, _), TAdd(_, _)

Corrupt == 0 - 1
Nothing == 0        \* content of an empty file

--------------------------------------------------------------------------
\* The file system. A file is what a name refers to (its inode). What is
\* written is seen by all processes at once, but survives a crash of the
\* machine for certain only after a flush; before that any version since the
\* last flush may come back. The same holds for the entries of the directory.

NoFiles == [ns |-> <<>>, vol |-> <<>>, alt |-> <<>>, main |-> "", pend |-> {0}]

Put(f, k, v) == (k :> v) @@ f
Del(f, k) == [x \in DOMAIN f \ {k} |-> f[x]]

\* Entries of the snapshot file that a crash may bring back.
Entry(fs) == IF fs.main \in DOMAIN fs.ns THEN fs.ns[fs.main] ELSE 0
\* Files that no entry refers to are forgotten.
Noted(fs) ==
  LET p == fs.pend \cup {Entry(fs)}
      I == ({fs.ns[n] : n \in DOMAIN fs.ns} \cup p) \cap DOMAIN fs.vol
  IN [fs EXCEPT !.pend = p, !.vol = [i \in I |-> @[i]], !.alt = [i \in I |-> @[i]]]

FWrite(fs, i, c) == [fs EXCEPT !.vol = Put(@, i, c), !.alt = Put(@, i, (IF i \in DOMAIN @ THEN @[i] ELSE {}) \cup {c})]
FCreate(fs, n, i) == Noted(FWrite([fs EXCEPT !.ns = Put(@, n, i)], i, Nothing))
FSync(fs, i) == IF i \notin DOMAIN fs.vol THEN fs ELSE [fs EXCEPT !.alt = Put(@, i, {fs.vol[i]})]
FSyncDir(fs) == Noted([fs EXCEPT !.pend = {}])
FRename(fs, a, b) == Noted([fs EXCEPT !.ns = Put(Del(@, a), b, @[a])])
FLink(fs, a, b) == Noted([fs EXCEPT !.ns = Put(@, b, @[a])])
FUnlink(fs, a) == Noted([fs EXCEPT !.ns = Del(@, a)])

\* After a crash of the process, and of the machine.
Content(fs) == fs.vol[Entry(fs)]
After(fs) == UNION {fs.alt[i] : i \in fs.pend \ {0}}

--------------------------------------------------------------------------
\* The monitor.

Start(main, intv, now) ==
  [fs |-> [NoFiles EXCEPT !.main = main], intv |-> intv,
   hist |-> <<>>,       \* images of the store, one after the other
   lo |-> 0,            \* the one at the beginning of the last successful save
   from |-> 0,          \* the one at the beginning of the current call
   last |-> now,        \* time of the last successful save, or of the start
   retry |-> FALSE,     \* the last attempt to save failed
   due |-> FALSE,       \* the current run of the background jobs has to save
   entry |-> 0,         \* the snapshot file at the beginning of the current call
   fault |-> FALSE,     \* the environment interfered with the current call
   broken |-> FALSE]    \* the environment interferes until further notice

Cur(m) == Len(m.hist)
Usable(m, c, lo) == \E j \in (IF lo = 0 THEN 1 ELSE lo) .. Cur(m) : m.hist[j] = Dec(c)
Present(m) == Entry(m.fs) # 0
Saved(m, j) == Present(m) /\ Usable(m, Content(m.fs), j)

\* What is wrong with the snapshot file right now.
Damage(m) ==
     (IF ~Present(m) THEN IF m.lo > 0 THEN {"the snapshot is gone"} ELSE {}
      ELSE IF Dec(Content(m.fs)) = Corrupt THEN {"the snapshot cannot be read"}
      ELSE IF ~Usable(m, Content(m.fs), 0) THEN {"the snapshot is no image of the store at any moment"}
      ELSE IF ~Usable(m, Content(m.fs), m.lo) THEN {"the snapshot is older than the last successful save"} ELSE {})
  \cup (IF \E c \in After(m.fs) : ~Usable(m, c, 0) THEN {"a crash of the machine loses the snapshot"} ELSE {})

Called(m) == [m EXCEPT !.from = Cur(m), !.entry = Entry(m.fs), !.fault = FALSE]
Done(m) == [m EXCEPT !.fault = FALSE, !.due = FALSE]
Interfered(m) == m.fault \/ m.broken
Grow(m, img) == IF Cur(m) > 0 /\ m.hist[Cur(m)] = img THEN m ELSE [m EXCEPT !.hist = Append(@, img)]

\* Each event leads to a new state and a set of complaints.
Ok(m) == [m |-> m, bad |-> {}]
Res(m, bad) == [m |-> m, bad |-> bad]

\* The store is restored from the snapshot file.
Opened(m, ok, img, empty, now) ==
  IF ~ok THEN Res(Done(m), IF Interfered(m) THEN {} ELSE {"the engine does not open"})
  ELSE LET n == [Done(m) EXCEPT !.hist = Append(@, img), !.retry = FALSE, !.last = now]
           p == IF Present(m) THEN [n EXCEPT !.lo = Cur(n)] ELSE n
       IN Res(p, IF img = (IF Present(m) THEN Dec(Content(m.fs)) ELSE empty) THEN {} ELSE {"the engine holds something else than the snapshot"})

ChoreBegins(m, now) == [Called(m) EXCEPT !.due = m.retry \/ TLe(TAdd(m.last, m.intv), now)]

\* The last image the snapshot file may be of.
Which(m) == CHOOSE j \in m.from .. Cur(m) : m.hist[j] = Dec(Content(m.fs)) /\ \A k \in j + 1 .. Cur(m) : m.hist[k] # Dec(Content(m.fs))

ChoreEnds(m, ok, now) ==
  IF ~ok THEN Res([Done(m) EXCEPT !.retry = TRUE], IF Interfered(m) THEN {} ELSE {"the background jobs failed for no reason"})
  ELSE IF m.due THEN
    IF Saved(m, m.from) THEN Ok([Done(m) EXCEPT !.lo = Which(m), !.last = now, !.retry = FALSE])
    ELSE Res([Done(m) EXCEPT !.retry = FALSE], {"no snapshot was saved although it was due"})
  ELSE IF Entry(m.fs) # m.entry /\ Saved(m, m.from) THEN Ok([Done(m) EXCEPT !.lo = Which(m), !.last = now])
  ELSE Ok(Done(m))

CloseEnds(m, ok, now) ==
  IF ~ok THEN Res(Done(m), IF Interfered(m) THEN {} ELSE {"the engine did not close for no reason"})
  ELSE IF Saved(m, m.from) THEN Ok([Done(m) EXCEPT !.lo = Which(m), !.last = now])
  ELSE Res(Done(m), {"the contents were not saved when closing"})
=============================================================================
