------------------------------ MODULE ConfigGen ------------------------------
(* Writes configurations to try to the file $GRID, with what the harness    *)
(* should wait for.                                                         *)
EXTENDS Config, Json, IOUtils

\* What every configuration has, unless it is about this.
Plain == [None EXCEPT !.port = <<1, 0>>, !.bind = <<1, 0>>]
Busy == [Plain EXCEPT !.interval = <<1, 0>>, !.path = <<2, 0>>, !.snapint = <<1, 0>>]
\* The same by variables.
Vary(c) == [o \in Names |-> IF c[o][1] \in Vars(o) THEN <<0, c[o][1]>> ELSE c[o]]

MemNames == DOMAIN Common \cup DOMAIN MemOptions
\* Durations that are too long to wait for without need.
Slow(o, i) == o = "delay" /\ i = 4
\* Places that may not be ours.
Unknown(conf) == LET v == Eff(conf) IN (v.uri = "default" /\ v.engine = "mongodb") \/ (v.bind = "all" /\ v.port # "free")

Both(o) == {<<f, e>> \in Flags(o) \X Vars(o) : ~Slow(o, f) /\ ~Slow(o, e)
                                              /\ (f # 0 /\ e # 0 => Options[o].set[e].ok /\ (Options[o].set[f].ok => Options[o].set[f].v # Options[o].set[e].v))}
\* One option, given in any way.
Singles(base, names) == UNION {{[base EXCEPT ![o] = c] : c \in Both(o)} : o \in names}
\* Two of them, once by flag and once by variable.
Good(o) == {<<i, 0>> : i \in {j \in Flags(o) : j # 0 /\ ~Slow(o, j) /\ Options[o].set[j].ok}}
          \cup {<<0, i>> : i \in {j \in Vars(o) : j # 0 /\ ~Slow(o, j) /\ Options[o].set[j].ok}}
PairsOf(base, names) ==
  UNION {UNION {{[base EXCEPT ![o] = c, ![p] = d] : c \in Good(o), d \in Good(p)} : p \in names \ {o}} : o \in names}

IsMem(conf) == Eff(conf).engine # "mongodb" /\ ~Unknown(conf)
IsMongo(conf) == Eff(conf).engine = "mongodb" /\ ~Unknown(conf)

MemSingles == {c \in Singles(Plain, MemNames) \cup Singles(Busy, MemNames) \cup Singles(Vary(Busy), MemNames) : IsMem(c)}
MemPairs == {c \in PairsOf(Busy, MemNames \ {"engine", "port", "bind"}) : IsMem(c)}

MPlain == [Plain EXCEPT !.engine = <<4, 0>>, !.uri = <<1, 0>>, !.interval = <<2, 0>>]
MBusy == [MPlain EXCEPT !.interval = <<1, 0>>, !.mretain = <<2, 0>>, !.path = <<1, 0>>]
MNames == DOMAIN MongoOptions
MongoSingles == {c \in Singles(MPlain, MNames \cup {"engine"}) \cup Singles(MBusy, MNames) \cup Singles(Vary(MPlain), MNames \cup {"engine"}) : IsMongo(c)}
MongoPairs == {c \in PairsOf(MPlain, MNames) : IsMongo(c)}

\* Hints for the harness: what is worth waiting for.
Hint(conf) ==
  LET v == Eff(conf)
      on == Starts(conf) /\ Jobs(v)
  IN [fails |-> ~Starts(conf), ends |-> Starts(conf) /\ Nothing(v), listens |-> Starts(conf) /\ Serves(v),
      runs |-> on /\ v.delay <= 300, again |-> on /\ v.delay <= 300 /\ v.interval <= 100,
      path |-> v.path, host |-> v.bind, port |-> IF Parses(conf) THEN v.port ELSE "none",
      saves |-> [s \in {"s0", "s360", "s3660"} |-> on /\ Writable(v) /\ Due(v, CASE s = "s0" -> 0 [] s = "s360" -> 360 [] s = "s3660" -> 3300)],
      database |-> v.database, coll |-> v.coll, uri |-> v.uri, mongo |-> v.engine = "mongodb"]

\* Deployments that refuse what is needed to set up the collection, where there is
\* an index that expires after some minutes.
Refusing(conf, refuse) ==
  [conf |-> [o \in {n \in Names : conf[n] # <<0, 0>>} |-> conf[o]], hint |-> [Hint(conf) EXCEPT !.fails = ~(Starts(conf) /\ SetUp(Eff(conf), refuse, 777))],
   patient |-> FALSE, spread |-> FALSE, refuse |-> refuse]
RefusingCases == {Refusing(c, r) : c \in {MPlain, MBusy, Vary(MPlain), [MPlain EXCEPT !.noindex = <<1, 0>>], [MPlain EXCEPT !.nofall = <<1, 0>>]},
                                   r \in Refusals \ {"none"}}

Case(conf, patient, spread) == [conf |-> [o \in {n \in Names : conf[n] # <<0, 0>>} |-> conf[o]], hint |-> Hint(conf), patient |-> patient, spread |-> spread]

Cases(set) == {Case(c, FALSE, FALSE) : c \in set}

ASSUME JsonSerialize(IOEnv.GRID,
  [options |-> Options,
   mem |-> Cases(MemSingles), mempairs |-> Cases(MemPairs), mongo |-> Cases(MongoSingles), mongopairs |-> Cases(MongoPairs),
   refusing |-> RefusingCases,
   special |-> <<Case(Plain, TRUE, FALSE), Case(Vary(Plain), TRUE, FALSE),
                 Case([Busy EXCEPT !.delay = <<4, 0>>, !.random = <<1, 0>>], FALSE, TRUE),
                 Case([Busy EXCEPT !.delay = <<4, 0>>, !.random = <<0, 2>>], FALSE, TRUE)>>])

VARIABLE x
Init == x = 0
Next == UNCHANGED x
=============================================================================
