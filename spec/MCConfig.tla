------------------------------ MODULE MCConfig ------------------------------
(* What Config makes of configurations, when one option after the other is  *)
(* set: the meaning of options is what C20 says.                            *)
EXTENDS Config
CONSTANT Steps, Variant
VARIABLES conf, last, n
vars == <<conf, last, n>>

Init == conf = None /\ last = "" /\ n = 0
Next == /\ n < Steps
        /\ n' = n + 1
        /\ \E o \in Names : \E f \in Flags(o), e \in Vars(o) :
             /\ conf' = [conf EXCEPT ![o] = <<f, e>>]
             /\ last' = o
Spec == Init /\ [][Next]_vars

Value(c) == IF Variant = "envwins" THEN [o \in Names |-> Setting(o, IF c[o][2] # 0 THEN <<0, c[o][2]>> ELSE c[o]).v]
            ELSE IF Variant = "sticky" /\ last # "" THEN [Eff(c) EXCEPT ![last] = Options[last].def]
            ELSE Eff(c)

\* An option takes its own effect only.
OnlyThat == [][\A o \in Names : o # last' => Eff(conf')[o] = Eff(conf)[o]]_vars
\* However it is given.
Given1 == \A o \in Names :
  LET c == conf[o] IN
    /\ (c = <<0, 0>> => Value(conf)[o] = Options[o].def)
    /\ (c[1] # 0 => Value(conf)[o] = Options[o].set[c[1]].v)
    /\ (c[1] = 0 /\ c[2] # 0 => Value(conf)[o] = Options[o].set[c[2]].v)
\* By flag or by variable, it is the same.
Twins == \A o \in Names : \A i \in Vars(o) \ {0} :
  LET a == [conf EXCEPT ![o] = <<i, 0>>]
      b == [conf EXCEPT ![o] = <<0, i>>]
  IN Value(a) = Value(b) /\ (Starts(a) <=> Starts(b)) /\ (Refused(a) <=> Refused(b))
\* One mistake is enough, and there is no other reason to be refused.
Mistakes == Parses(conf) <=> \A o \in Names : Setting(o, conf[o]).ok
\* The options of one engine do not matter to the other.
Apart ==
  LET v == Eff(conf) IN
  \A o \in (IF v.engine = "mongodb" THEN DOMAIN MemOptions ELSE DOMAIN MongoOptions) :
    LET c == [conf EXCEPT ![o] = <<0, 0>>] IN Setting(o, conf[o]).ok => (Starts(conf) <=> Starts(c)) /\ (Refused(conf) <=> Refused(c))
Sane ==
  LET v == Eff(conf) IN
  Parses(conf) =>
    /\ (Refused(conf) => ~Starts(conf))
    /\ (Nothing(v) => ~Serves(v) /\ ~Jobs(v))
    /\ \A t \in {0, 100, 1000, 10000} : MostRuns(v, t) <= MostRuns(v, 10 * t) /\ (v.interval = 0 => MostRuns(v, t) = 0)
                                        /\ (~v.random /\ t < v.delay => MostRuns(v, t) = 0)
    /\ \A l \in {0, 1, 8, 100, 251}, o \in {0, 6, 10001} :
         LET p == Page(v, l, o, 12) IN p.n <= v.limit /\ p.n <= 12 /\ (p.code = 400 <=> l > v.limit \/ o > v.offset)
    /\ \A t \in Tasks : After(v, t) # Before(v, t) => t \in {"old", "hour", "young", "overdue"}
\* A longer retention keeps more.
Retention ==
  LET v == Eff(conf) IN \A r \in {0, 10, 259200, 3600000} : \A t \in Tasks :
    Parses(conf) /\ r >= v.retain /\ After(v, t) # "absent" => After([v EXCEPT !.retain = r], t) # "absent"
=============================================================================
