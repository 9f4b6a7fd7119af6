------------------------------- MODULE Config -------------------------------
(***************************************************************************)
(* What the options of the program mean (C20).                             *)
(*                                                                         *)
(* An option is given as a flag, as an environment variable, or not at     *)
(* all: the flag wins over the variable, and the variable over the         *)
(* documented default.  Each option has a few settings, of which some      *)
(* cannot be parsed.  A configuration is a function from options to a      *)
(* choice <<f, e>> of a setting for the flag and one for the variable, 0   *)
(* being none.                                                             *)
(*                                                                         *)
(* What an instance has to do is a matter of the effective values only,    *)
(* stated by the operators below for instances of both engines.            *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

S(s, v) == [s |-> s, v |-> v, ok |-> TRUE, form |-> "any"]
Bare == [s |-> "", v |-> TRUE, ok |-> TRUE, form |-> "bare"]      \* a flag without a value
Short(s, v) == [s |-> s, v |-> v, ok |-> TRUE, form |-> "short"]  \* the short name of the flag
Junk(s) == [s |-> s, v |-> 0, ok |-> FALSE, form |-> "any"]

O(flag, env, def, set) == [flag |-> flag, short |-> "", env |-> env, def |-> def, set |-> set]
Sw(flag, env) == O(flag, env, FALSE, <<Bare, S("true", TRUE), S("false", FALSE), S("1", TRUE), Junk("maybe")>>)

\* Strings with an @ are filled in by the harness.  Durations of jobs are in
\* milliseconds, the others in seconds.
Common ==
  [engine   |-> O("--engine", "ENGINE", "memdb", <<S("memdb", "memdb"), S("MemDB", "memdb"), S("MEMDB", "memdb"),
                                                   S("mongodb", "mongodb"), S("MongoDB", "mongodb"), S("redis", "unknown")>>),
   port     |-> [O("--port", "PORT", "default", <<S("@port", "free"), S("@other", "other"), Short("@port", "free"), S("0", "none"),
                                                  S("@taken", "taken"), S("99999", "invalid"), Junk("http"), Junk("-1")>>) EXCEPT !.short = "-p"],
   bind     |-> [O("--bind", "BIND", "all", <<S("@h1", "h1"), S("@h2", "h2"), Short("@h2", "h2")>>) EXCEPT !.short = "-b"],
   interval |-> O("--chore-interval", "CHORE_INTERVAL", 10000, <<S("40ms", 40), S("0s", 0), S("1h", 3600000), S("0.04s", 40), Junk("often"), Junk("7")>>),
   delay    |-> O("--chore-initial-delay", "CHORE_INITIAL_DELAY", 0, <<S("300ms", 300), S("0s", 0), S("1h", 3600000), S("20s", 20000), Junk("later")>>),
   random   |-> Sw("--chore-initial-random", "CHORE_INITIAL_RANDOM"),
   limit    |-> O("--pagination-max-limit", "PAGINATION_MAX_LIMIT", 100, <<S("7", 7), S("250", 250), Junk("few")>>),
   offset   |-> O("--pagination-max-offset", "PAGINATION_MAX_OFFSET", 10000, <<S("5", 5), S("20000", 20000), Junk("1.5")>>)]

MemOptions ==
  [path     |-> O("--memdb-snapshot-path", "MEMDB_SNAPSHOT_PATH", "none", <<S("@fresh", "fresh"), S("@existing", "existing"),
                                                                          S("@corrupt", "corrupt"), S("@nodir", "nodir")>>),
   snapint  |-> O("--memdb-snapshot-interval", "MEMDB_SNAPSHOT_INTERVAL", 300, <<S("0s", 0), S("1h", 3600), S("60m", 3600), Junk("0s5")>>),
   retain   |-> O("--memdb-retention-period", "MEMDB_RETENTION_PERIOD", 259200, <<S("0s", 0), S("10s", 10), S("1000h", 3600000), Junk("forever")>>)]

MongoOptions ==
  [uri      |-> O("--mongodb-uri", "MONGODB_URI", "default", <<S("@u1", "u1"), S("@u2", "u2"), S("nowhere", "invalid")>>),
   database |-> O("--mongodb-database", "MONGODB_DATABASE", "ratus", <<S("other", "other"), S("ratus", "ratus")>>),
   coll     |-> O("--mongodb-collection", "MONGODB_COLLECTION", "tasks", <<S("jobs", "jobs"), S("tasks", "tasks")>>),
   mretain  |-> O("--mongodb-retention-period", "MONGODB_RETENTION_PERIOD", 259200, <<S("0s", 0), S("90s", 90), S("1500ms", 2), S("1000h", 3600000), Junk("3d")>>),
   noindex  |-> Sw("--mongodb-disable-index-creation", "MONGODB_DISABLE_INDEX_CREATION"),
   nofall   |-> Sw("--mongodb-disable-auto-fallback", "MONGODB_DISABLE_AUTO_FALLBACK"),
   nopoll   |-> Sw("--mongodb-disable-atomic-poll", "MONGODB_DISABLE_ATOMIC_POLL")]

Options == Common @@ MemOptions @@ MongoOptions
Names == DOMAIN Options

None == [o \in Names |-> <<0, 0>>]

\* Choices that can be expressed.
Flags(o) == {0} \cup DOMAIN Options[o].set
Vars(o) == {0} \cup {i \in DOMAIN Options[o].set : Options[o].set[i].form = "any"}

----------------------------------------------------------------------------
(* The effective configuration. *)

Setting(o, c) == IF c[1] # 0 THEN Options[o].set[c[1]] ELSE IF c[2] # 0 THEN Options[o].set[c[2]] ELSE S("", Options[o].def)
Eff(conf) == [o \in Names |-> Setting(o, conf[o]).v]
Parses(conf) == \A o \in Names : Setting(o, conf[o]).ok

(* What it means. *)
Loads(v) == v.path # "corrupt"                 \* the engine can be opened
Starts(conf) ==
  LET v == Eff(conf)
  IN /\ Parses(conf)
     /\ v.engine \in {"memdb", "mongodb"}
     /\ (v.engine = "memdb" => Loads(v))
     /\ (v.engine = "mongodb" => v.uri # "invalid")
     /\ v.port \notin {"taken", "invalid"}
\* It ends before it has opened the engine.
Refused(conf) ==
  LET v == Eff(conf)
  IN ~Parses(conf) \/ v.engine = "unknown" \/ (v.engine = "memdb" /\ ~Loads(v)) \/ (v.engine = "mongodb" /\ v.uri = "invalid")

Serves(v) == v.port # "none"
Hosts(v) == IF v.bind = "all" THEN {"h1", "h2"} ELSE {v.bind}

Jobs(v) == v.interval > 0
\* Without anything to do it ends by itself.
Nothing(v) == ~Serves(v) /\ ~Jobs(v)

\* The most runs of the background jobs within so many milliseconds after the
\* start, generously, as runs may be counted late.
MostRuns(v, t) ==
  IF ~Jobs(v) THEN 0
  ELSE LET d == IF v.random THEN 0 ELSE v.delay
       IN IF t < d THEN 0 ELSE (t - d) \div v.interval + 3

\* A request for a page.
Page(v, limit, offset, total) ==
  LET l == IF limit = 0 THEN (IF v.limit < 10 THEN v.limit ELSE 10) ELSE limit
      rest == IF offset >= total THEN 0 ELSE total - offset
  IN IF l > v.limit \/ offset > v.offset THEN [code |-> 400, n |-> 0]
     ELSE [code |-> 200, n |-> IF l < rest THEN l ELSE rest]

\* The tasks every instance is given: their age (completed) or deadline
\* (active), in seconds; what they are, and after a run of the jobs.
Given == [old |-> 360000, hour |-> 60, young |-> 5]
Before(v, t) ==
  CASE t \in DOMAIN Given -> "completed"
    [] t \in {"overdue", "held"} -> "active"
    [] t = "idle" -> "pending"
After(v, t) ==
  CASE t \in DOMAIN Given -> IF Given[t] >= v.retain THEN "absent" ELSE "completed"
    [] t = "overdue" -> "pending"
    [] t = "held" -> "active"
    [] t = "idle" -> "pending"
Tasks == {"old", "hour", "young", "overdue", "held", "idle"}

\* The snapshot file holds a change some seconds after the last save, if the
\* jobs are run now (a file that is not yet due may stay as it is).
Due(v, s) == s >= v.snapint
Writable(v) == v.path \in {"fresh", "existing"}

----------------------------------------------------------------------------
(* Instances of MongoDB: collections that are not sharded, or by a key.    *)
Unsupported(key, op) == (op = "poll" /\ key = "_id") \/ (op = "commit" /\ key = "topic")
\* The operation is answered 500.
Fails(v, key, op) == Unsupported(key, op) /\ v.nofall /\ (op = "poll" => ~v.nopoll)
\* A deployment that refuses a command: the instance cannot set up what its
\* configuration asks for (before: the expiry of an index that exists, or -1).
Refusals == {"none", "createIndexes", "collMod"}
SetUp(v, refuse, before) ==
  v.engine = "mongodb" /\ ~v.noindex => /\ refuse # "createIndexes"
                                        /\ (refuse = "collMod" => before \in {-1, v.mretain})
\* The expiry of the index once the instance is open, if there was one before.
Expiry(v, before) == IF v.noindex THEN before ELSE v.mretain
=============================================================================
