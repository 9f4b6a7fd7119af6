----------------------------- MODULE ConfigTrace -----------------------------
(* Checks what instances of the real program did with their configuration.  *)
EXTENDS Config, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)

VARIABLE l

Conf(e) == [o \in Names |-> IF o \in DOMAIN e.conf THEN <<e.conf[o][1], e.conf[o][2]>> ELSE <<0, 0>>]
Range(s) == {s[i] : i \in DOMAIN s}
W(ok, what) == IF ok THEN {} ELSE {what}

States(m) == [t \in Tasks |-> m[t]]

\* An instance that came up.
Coming(v, e) ==
  CASE Nothing(v) -> W(e.up = "ended", "runs with nothing to do")
    [] Serves(v)  -> W(e.up = "listening", "does not serve requests")
                     \cup (IF e.up # "listening" THEN {}
                           ELSE W(\A h \in {"h1", "h2"} : e.hosts[h] <=> h \in Hosts(v), "listens elsewhere")
                                \cup W(e.socks = 1, "listens elsewhere, too"))
    [] OTHER      -> W(e.up = "running" /\ e.socks = 0, "does not run without serving requests")

\* Without a mistake it ends when told to, and tells whether its snapshot was saved.
Ending(v, e) ==
  W(e.self <=> Nothing(v), "ends by itself")
  \cup (IF v.engine = "memdb" /\ v.path = "nodir" THEN W(e.code > 0, "an unsaved snapshot is not reported")
        ELSE W(e.code = 0, "ends with an error"))

Paging(v, e) ==
  UNION {LET p == e.pages[i]
             r == Page(v, p.limit, p.offset, IF p.total < 0 THEN 0 ELSE p.total)
         IN W(p.code = r.code, "limits of pages: " \o p.kind) \cup W(p.total < 0 \/ p.n = r.n, "length of a page: " \o p.kind) : i \in DOMAIN e.pages}

Running(v, e) ==
  UNION {LET s == e.samples[i] IN W(s.n <= MostRuns(v, s.to), "background jobs run too early or too often") : i \in DOMAIN e.samples}
  \cup (IF ~e.looked THEN {}
        ELSE W(Jobs(v) /\ ~v.random /\ v.delay <= 300 => e.total > 0, "background jobs do not run")
             \cup W(Jobs(v) /\ ~v.random /\ v.delay <= 300 /\ v.interval <= 100 => e.since > 3, "background jobs do not run at the interval")
             \* fewer than 5 runs in 600 milliseconds, ten times in a row
             \cup W(~e.slow, "background jobs run too seldom")
             \* The interval of 10 seconds may take half as long again, and more.
             \cup W(e.second >= 0 => 5 * e.second <= 13 * v.interval, "background jobs run too seldom")
             \cup W(IF e.since > 0 THEN \A t \in Tasks : e.states[t] = After(v, t)
                    ELSE IF e.total = 0 THEN \A t \in Tasks : e.states[t] = Before(v, t)
                    ELSE \A t \in Tasks : e.states[t] \in {Before(v, t), After(v, t)}, "tasks after the background jobs"))

Saving(v, e) ==
  \* the last save was, at the earliest, before the task was there
  LET last(i) == IF i = 1 THEN 0 ELSE e.late[i - 1].s
  IN UNION {W(e.late[i].saved <=> Due(v, e.late[i].s), IF e.late[i].saved THEN "snapshots are saved too often" ELSE "a snapshot that is due is not saved") : i \in DOMAIN e.late}

Leaving(v, e) ==
  W(Range(e.files) = {"existing", "corrupt"} \cup (IF v.engine = "memdb" /\ Writable(v) THEN {v.path} ELSE {}), "files left behind")
  \cup W((v.engine = "memdb" /\ v.path = "existing") \/ e.kept, "a file of someone else is changed")
  \cup (IF v.engine = "mongodb" \/ ~Writable(v) THEN {}
        ELSE W(e.has, "there is no snapshot in the end")
             \cup (IF ~e.has \/ ~(v.path = "existing" \/ e.looked) THEN {}
                   ELSE W(e.final.idle = "pending" /\ e.final.held = "active" /\ e.final.q00 = "pending" /\ e.final.q11 = "pending"
                          /\ (e.looked => e.final.late = "pending"), "the final snapshot")
                        \cup W(e.looked => \A t \in Tasks : e.final[t] \in {e.states[t], After(v, t)} \/ (e.final[t] = "absent" /\ v.retain < 5000), "the final snapshot"))
        \cup W(e.recovered # "no", "background jobs do not run"))

Database(v, e) ==
  LET m == e.mongo
  IN IF ~m.on THEN {"is not used"}
     ELSE W(m.insert = 201, "inserting") \cup W(m.poll = IF Fails(v, m.key, "poll") THEN 500 ELSE 200, "polling")
          \cup W(m.commit = IF Fails(v, m.key, "commit") THEN 500 ELSE 200, "committing") \cup W(m.get = 200, "getting")
          \cup W(v.interval = 0 => (m.first = "findAndModify" <=> ~v.nopoll), "how polling is done")
          \cup W(\A n \in Range(m.ns) : n.uri = v.uri /\ n.db = v.database /\ n.coll = v.coll, "another database or collection is used")
          \cup W(m.created <=> ~v.noindex, "creation of indexes")
          \cup W(Range(m.ttl) = {Expiry(v, m.pre)} /\ Len(m.ttl) = 1, "expiry of completed tasks")

Run(e) ==
  LET c == Conf(e)
      v == Eff(c)
  IN W(~e.crash, "crash")
     \cup (IF Starts(c) /\ ~SetUp(v, e.refuse, IF v.engine = "mongodb" THEN e.mongo.pre ELSE -1)
           THEN W(e.up = "ended", "a failure to set up the engine is not noticed") \cup W(e.code > 0, "a failure to set up the engine is not reported")
           ELSE IF ~Starts(c)
           THEN W(e.up = "ended", "a mistake is not noticed") \cup W(e.code > 0, "a mistake is not reported")
                \cup W(Refused(c) => e.kept /\ Range(e.files) = {"existing", "corrupt"}, "files are changed in spite of a mistake")
           ELSE Coming(v, e)
                \cup (IF Coming(v, e) # {} THEN {}
                      ELSE Ending(v, e) \cup Leaving(v, e)
                           \cup (IF ~Serves(v) THEN {}
                                 ELSE IF v.engine = "mongodb" THEN Database(v, e)
                                 ELSE Paging(v, e) \cup Running(v, e) \cup Saving(v, e))))

\* The first runs of a dozen instances that were deferred at random by up to 20 seconds.
Spread(e) == W(Len(e.first) > 0, "the first runs are not deferred at random")

Next ==
  /\ l <= Len(Trace)
  /\ l' = l + 1
  /\ \E e \in {Trace[l]} : \E bad \in {IF e.t = "spread" THEN Spread(e) ELSE Run(e)} :
       IF bad = {} THEN TRUE
       ELSE PrintT("MISMATCH " \o ToJson([line |-> l, op |-> "Config", what |-> bad, props |-> {"C20"}, expcode |-> 0, gotcode |-> 0]))
Init == l = 1

Accepted == PrintT("CHECKED " \o ToString(TLCGet("stats").diameter - 1) \o " OF " \o ToString(Len(Trace)))
=============================================================================
