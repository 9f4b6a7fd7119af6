----------------------------- MODULE RatusTrace -----------------------------
(***************************************************************************)
(* Sequential conformance.  Each line of the trace is one call into the    *)
(* real code: the operation (or the raw request), the instant it took      *)
(* effect, the answer, and the store as it was found afterwards (as a      *)
(* change against the line before).  A step conforms if answer and store   *)
(* are one of the outcomes RatusCore allows.  A step that does not is      *)
(* printed with the properties it breaks, and checking goes on from the    *)
(* store that was observed.                                                *)
(***************************************************************************)
EXTENDS RatusRec

Trace == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES l,       \* next line
          S,       \* the store
          used,    \* nonces seen so far
          touch,   \* task -> the operation that changed it last
          mode, cfg

vars == <<l, S, used, touch, mode, cfg>>

Init == l = 1 /\ S = Empty /\ used = {} /\ touch = Empty /\ mode = MemMode /\ cfg = [maxlimit |-> 100, maxoffset |-> 10000]

Range2(f) == {f[x] : x \in DOMAIN f}

Observed(e) ==
  LET D == (DOMAIN S \ ToSet2(e.del)) \cup DOMAIN e.put
  IN TLCEval([i \in D |-> IF i \in DOMAIN e.put THEN e.put[i] ELSE S[i]])

Nonces(T) == {T[i].nonce : i \in DOMAIN T} \ {""}

-----------------------------------------------------------------------------
(* Which properties does a step break? *)

DiffIds(A, B) == TLCEval({i \in DOMAIN A \cup DOMAIN B :
                            \/ i \notin DOMAIN A \/ i \notin DOMAIN B
                            \/ A[i] # B[i]})

DiffFields(A, B) ==
  UNION {IF i \in DOMAIN A /\ i \in DOMAIN B
         THEN {f \in TaskFields : A[i][f] # B[i][f]}
         ELSE {IF i \in DOMAIN A THEN "missing" ELSE "extra"} : i \in DiffIds(A, B)}

Dist(x, e, post) ==
  (IF x.code # e.code THEN 3 ELSE 0) + (IF x.ret # e.ret THEN 1 ELSE 0)
    + 2 * Cardinality(DiffIds(x.S, post))

Best(exp, e, post) ==
  CHOOSE x \in exp : \A y \in exp : Dist(x, e, post) <= Dist(y, e, post)

RetId(r) == IF r.k = "task" THEN {r.id} ELSE {}

Deletes == {"DeleteTask", "DeleteTasks", "DeleteTopic", "DeleteTopics"}

Blame(o, e, x, post, exp) ==
  LET diff   == DiffFields(x.S, post)
      failing == e.lvl # "engine" /\ (Failing(e.op) # "" \/ o \in Probes)
      ids    == DiffIds(x.S, post) \cup RetId(e.ret) \cup UNION {RetId(y.ret) : y \in exp}
      touched == UNION {PropsOf(touch[i]) : i \in ids \cap DOMAIN touch}
      base   == IF o = "Chore"
                THEN LET d == DiffIds(x.S, post)
                         a == {i \in d \cap DOMAIN S : S[i].state = Active}
                     IN (IF a # {} \/ d = {} THEN {"C04", "C02", "C18"} ELSE {})
                          \cup (IF d # a \/ d = {} \/ "missing" \in diff THEN {"C06"} ELSE {})
                ELSE PropsOf(o)
  IN IF failing THEN {"C15"} ELSE
     base \cup touched
       \cup (IF mode.floor THEN {"C16"} ELSE {})
       \cup (IF e.lvl # "engine" /\ (x.code # e.code \/ x.ret # e.ret) THEN {"C15"} ELSE {})
       \cup (IF e.lvl # "engine" /\ (e.code = 400 \/ x.code = 400
                                     \/ o \in {"InsertTask", "UpsertTask", "InsertTasks", "UpsertTasks", "Poll",
                                               "InsertPromise", "UpsertPromise", "Commit", "ListTasks",
                                               "ListTopics", "ListPromises"})
             THEN {"C14"} ELSE {})
       \cup (IF "missing" \in diff /\ o \notin Deletes THEN {"C06", "C08", "C18"} ELSE {})
       \cup (IF "nonce" \in diff \/ (o = "Commit" /\ (x.code = 409 \/ e.code = 409)) THEN {"C02"} ELSE {})
       \cup (IF o = "Poll" /\ e.code # x.code THEN {"C18"} ELSE {})

-----------------------------------------------------------------------------
(* The views of the store, as far as the line recorded them. *)

ViewsWrong(T, v) ==
  LET topics == ToSet2(v.topics) IN
  (IF IsPage(v.topics, TopicsOf(T), KeyName, LAMBDA n : n, Len(v.topics) + 1, 0) THEN {} ELSE {"topics"})
  \cup {"count:" \o n : n \in {n \in DOMAIN v.counts : v.counts[n] # Cardinality(OfTopic(T, n))}}
  \cup {"tasks:" \o n : n \in {n \in DOMAIN v.tasks :
          ~IsPage(v.tasks[n], OfTopic(T, n), KeyId, LAMBDA i : TaskEntry(T, i), Len(v.tasks[n]) + 1, 0)}}
  \cup {"promises:" \o n : n \in {n \in DOMAIN v.promises :
          ~IsPage(v.promises[n], ActiveOf(T, n), KeyId, LAMBDA i : PromiseEntry(T, i), Len(v.promises[n]) + 1, 0)}}
  \cup {"get:" \o i : i \in {i \in DOMAIN v.get :
          IF i \in DOMAIN T THEN v.get[i] # [k |-> "task", id |-> i, task |-> T[i]]
          ELSE v.get[i] # None}}
  \cup {"promise:" \o i : i \in {i \in DOMAIN v.promise :
          IF i \in DOMAIN T /\ T[i].state = Active THEN v.promise[i] # PromiseR(i, T[i])
          ELSE v.promise[i] # None}}

-----------------------------------------------------------------------------
(* Counters: the increments since the line before, as a function from      *)
(* <<counter, topic, producer, consumer>> (joined by "|") to numbers.      *)

Key4(a, b, c, d) == a \o "|" \o b \o "|" \o c \o "|" \o d

\* ts: the batch; its tasks share the labels of the request: the topic of the
\* path and the producer of the first task.
Produced(r, topic, producer, n) ==
  IF n > 0 THEN {<<Key4("produced", topic, producer, ""), n>>} ELSE {}

Counters(r, op, code, ret) ==
  CASE code >= 400 \/ op.o \in Probes -> {}
    [] op.o \in {"InsertTask", "UpsertTask"} ->
         Produced(r, op.task.topic, op.task.producer, ret.created + ret.updated)
    [] op.o \in {"InsertTasks", "UpsertTasks"} ->
         IF Len(op.ts) > 0
         THEN Produced(r, r.ptopic, op.ts[1].task.producer, ret.created + ret.updated)
         ELSE {}
    [] op.o \in Claims ->
         {<<Key4("consumed", ret.task.topic, ret.task.producer, ret.task.consumer), 1>>}
    [] op.o = "Commit" ->
         {<<Key4("committed", ret.task.topic, ret.task.producer, ret.task.consumer), 1>>}
    [] OTHER -> {}

Requests(e) == {<<"request|" \o e.op.ptopic \o "|" \o e.http.method \o "|" \o e.http.endpoint \o "|" \o ToString(e.code), 1>>}

\* Gauges set by a request, each with the times it tells the distance of.
Gauges(op, now, code, ret) ==
  CASE code >= 400 \/ op.o \in Probes -> {}
    [] op.o \in Claims /\ ret.task.scheduled # NoTime /\ ret.task.consumed # NoTime ->
         {<<Key4("delay", ret.task.topic, ret.task.producer, ret.task.consumer), ret.task.scheduled, ret.task.consumed>>}
    [] op.o = "Commit" /\ ret.task.consumed # NoTime ->
         {<<Key4("execution", ret.task.topic, ret.task.producer, ret.task.consumer), ret.task.consumed, now>>}
    [] OTHER -> {}

\* e.gauges: the gauges set by the request, with the least and the greatest
\* duration each may stand for.
GaugesWrong(e, norm) ==
  LET want == IF norm.bad THEN {} ELSE Gauges(norm.op, e.now, e.code, e.ret)
      told == {x[1] : x \in want}
  IN (DOMAIN e.gauges \ told)
     \cup {x[1] : x \in {x \in want :
          IF x[1] \notin DOMAIN e.gauges THEN TRUE
          ELSE ~(/\ TLe(TAdd(x[2], e.gauges[x[1]][1]), x[3])
                 /\ TLe(x[3], TAdd(x[2], e.gauges[x[1]][2])))}}

MetricsWrong(e, norm) ==
  LET want == (IF norm.bad THEN {} ELSE Counters(e.op, norm.op, e.code, e.ret))
                \cup (IF norm.bad THEN IF norm.code = 404 THEN {} ELSE Requests(e) ELSE Requests(e))
      got  == {<<k, e.met[k]>> : k \in DOMAIN e.met}
  IN {ToString(x) : x \in (want \ got) \cup (got \ want)} \cup GaugesWrong(e, norm)

-----------------------------------------------------------------------------
Report(e, o, what, props, x) ==
  PrintT("MISMATCH " \o ToJson([line |-> l, trace |-> e.tr, op |-> o, what |-> what, props |-> props,
                                expcode |-> x.code, gotcode |-> e.code]))

Check(e, post) ==
  LET norm  == IF e.lvl = "engine" THEN Good(e.op) ELSE Normalize(e.op, e.now, cfg)
      op    == norm.op
      o     == IF norm.bad THEN e.op.o ELSE op.o
      nonce == IF e.ret.k = "task" THEN e.ret.task.nonce ELSE "?"
      reading == ~norm.bad /\ o \in Readers
      exp   == IF norm.bad THEN {Out(norm.code, None, S)}
               ELSE IF Failing(e.op) # "" /\ o # "Live" THEN {Out(StatusOf(Failing(e.op)), None, S)}
               ELSE IF o \in Probes THEN {Out(200, None, S)}
               ELSE IF reading
                    THEN {Out(IF ReadOK(op, S, e.code, e.ret) THEN e.code ELSE -1, e.ret, S)}
                    ELSE Apply(mode, op, e.now, nonce, S)
      okStep == \E x \in exp : x.code = e.code /\ x.ret = e.ret /\ x.S = post
      fresh == (o \in Claims /\ e.ret.k = "task") => (nonce # "" /\ nonce \notin used)
      views == IF "views" \in DOMAIN e THEN ViewsWrong(post, e.views) ELSE {}
      met   == IF "met" \in DOMAIN e /\ okStep THEN MetricsWrong(e, norm) ELSE {}
  IN /\ IF okStep THEN TRUE
        ELSE LET x == Best(exp, e, post)
             IN Report(e, o, DiffFields(x.S, post) \cup (IF x.code # e.code THEN {"code"} ELSE {})
                              \cup (IF x.ret # e.ret THEN {"answer"} ELSE {}),
                       Blame(o, e, x, post, exp), x)
     /\ IF fresh THEN TRUE ELSE Report(e, o, {"nonce not fresh"}, {"C01", "C02"}, Out(0, None, S))
     /\ IF e.code < 400 \/ e.errok THEN TRUE ELSE Report(e, o, {"error body"}, {"C15"}, Out(e.code, None, S))
     /\ IF views = {} THEN TRUE ELSE Report(e, o, views, {"C10"} \cup PropsOf(o), Out(0, None, S))
     /\ IF met = {} THEN TRUE ELSE Report(e, o, met, {"C19"}, Out(0, None, S))

Step ==
  /\ l <= Len(Trace)
  /\ l' = l + 1
  \* bound by quantifiers: definitions would be evaluated again and again
  /\ \E e \in {Trace[l]} : \E post \in {Observed(e)} : \E changed \in {DiffIds(S, post)} :
      IF e.t = "reset"
        THEN /\ S' = e.put /\ used' = Nonces(e.put) /\ touch' = Empty
             /\ mode' = IF e.mode = "mongo" THEN MongoMode ELSE MemMode
             /\ cfg' = e.cfg
        ELSE /\ Check(e, post)
             /\ S' = post
             /\ used' = used \cup Nonces(post)
             /\ touch' = [i \in DOMAIN touch \cup changed |->
                            IF i \in changed THEN e.op.o ELSE touch[i]]
             /\ UNCHANGED <<mode, cfg>>

Done == l > Len(Trace) /\ UNCHANGED vars

Next == Step \/ Done
Spec == Init /\ [][Next]_vars

\* All lines were reached.
Accepted == PrintT("CHECKED " \o ToString(TLCGet("stats").diameter - 1) \o " OF " \o ToString(Len(Trace)))
=============================================================================
