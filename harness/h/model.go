package main

import (
	"encoding/json"
	"fmt"
	"time"

	"github.com/hyperonym/ratus"
)

// Dur is a relative duration of a request: K is "none", "ok" or "bad".
type Dur struct {
	K string
	S string
	D time.Duration
}

// Num is a query parameter: K is "none", "ok" or "bad".
type Num struct {
	K string
	S string
	N int
}

// TaskSpec describes a task to be sent.
type TaskSpec struct {
	Null                                    bool
	ID, Topic                               string
	State                                   int
	Nonce, Producer, Consumer               string
	Produced, Scheduled, Consumed, Deadline *time.Time
	Payload                                 any
	Defer                                   Dur
}

// PromiseSpec describes a promise to be made.
type PromiseSpec struct {
	ID, Consumer string
	Deadline     *time.Time
	Timeout      Dur
}

// CommitSpec describes a commit; State -1000 stands for none.
type CommitSpec struct {
	Nonce, Topic string
	State        int
	Scheduled    *time.Time
	Payload      any
	Defer        Dur
}

const noState = -1000

// Step is one call into the system.
type Step struct {
	O           string
	PID, PTopic string
	BodyK       string // none, bad, ok
	BadBody     string
	BadUTF      string // where the request has invalid UTF-8: "", "topic", "id", "query"
	Query       bool   // the promise travels in the query string
	Tasks       []TaskSpec
	P           PromiseSpec
	C           CommitSpec
	Limit       Num
	Offset      Num
	What        string
	Fail        string // what the storage engine runs into
}

// Tok replaces the strings of a trace by short tokens.
type Tok struct {
	m   map[string]map[string]string
	raw bool // keep the strings
}

func newTok() *Tok { return &Tok{m: map[string]map[string]string{}} }

func (k *Tok) tok(kind, s string) string {
	if s == "" {
		return ""
	}
	if k.raw {
		return s
	}
	m := k.m[kind]
	if m == nil {
		m = map[string]string{}
		k.m[kind] = m
	}
	t, ok := m[s]
	if !ok {
		t = fmt.Sprintf("%s%d", kind, len(m)+1)
		m[s] = t
	}
	return t
}

func (k *Tok) id(s string) string    { return k.tok("i", s) }
func (k *Tok) topic(s string) string { return k.tok("t", s) }
func (k *Tok) nonce(s string) string { return k.tok("n", s) }
func (k *Tok) prod(s string) string  { return k.tok("p", s) }
func (k *Tok) cons(s string) string  { return k.tok("c", s) }

func (k *Tok) payload(v any) string {
	if v == nil {
		return ""
	}
	b, err := json.Marshal(v)
	if err != nil {
		return k.tok("y", "!"+err.Error())
	}
	var x any
	if err := json.Unmarshal(b, &x); err == nil {
		b, _ = json.Marshal(x)
	}
	return k.tok("y", string(b))
}

// dictionary lists what the tokens stand for.
func (k *Tok) dictionary() map[string]string {
	d := map[string]string{}
	for _, m := range k.m {
		for s, t := range m {
			d[t] = s
		}
	}
	return d
}

type J = map[string]any

const giga = 1_000_000_000

func secs(s int64, ns int) []int64 {
	hi := s / giga
	if s%giga < 0 {
		hi--
	}
	return []int64{hi, s - hi*giga, int64(ns)}
}

func jt(t *time.Time) []int64 {
	if t == nil {
		return []int64{}
	}
	return secs(t.Unix(), t.Nanosecond())
}

func jd(d time.Duration) []int64 {
	s := int64(d / time.Second)
	ns := int64(d % time.Second)
	if ns < 0 {
		s, ns = s-1, ns+giga
	}
	return secs(s, int(ns))
}

func (k *Tok) dur(d Dur) J {
	if d.K == "" {
		d.K = "none"
	}
	return J{"k": d.K, "d": jd(d.D)}
}

func (k *Tok) task(t *ratus.Task) J {
	return J{
		"topic": k.topic(t.Topic), "state": int(t.State), "nonce": k.nonce(t.Nonce),
		"producer": k.prod(t.Producer), "consumer": k.cons(t.Consumer),
		"produced": jt(t.Produced), "scheduled": jt(t.Scheduled),
		"consumed": jt(t.Consumed), "deadline": jt(t.Deadline),
		"payload": k.payload(t.Payload),
	}
}

func (k *Tok) taskSpec(t *TaskSpec) J {
	return J{
		"null": t.Null, "id": k.id(t.ID),
		"topic": k.topic(t.Topic), "state": t.State, "nonce": k.nonce(t.Nonce),
		"producer": k.prod(t.Producer), "consumer": k.cons(t.Consumer),
		"produced": jt(t.Produced), "scheduled": jt(t.Scheduled),
		"consumed": jt(t.Consumed), "deadline": jt(t.Deadline),
		"payload": k.payload(t.Payload), "defer": k.dur(t.Defer),
	}
}

func (k *Tok) num(n Num) J {
	if n.K == "" {
		n.K = "none"
	}
	return J{"k": n.K, "n": n.N}
}

func (t *TaskSpec) task() *ratus.Task {
	return &ratus.Task{
		ID: t.ID, Topic: t.Topic, State: ratus.TaskState(t.State), Nonce: t.Nonce,
		Producer: t.Producer, Consumer: t.Consumer,
		Produced: cp(t.Produced), Scheduled: cp(t.Scheduled), Consumed: cp(t.Consumed), Deadline: cp(t.Deadline),
		Payload: t.Payload,
	}
}

func cp(t *time.Time) *time.Time {
	if t == nil {
		return nil
	}
	u := *t
	return &u
}

// engineOp is the operation of RatusCore that an engine level step stands for.
func (k *Tok) engineOp(s *Step, retention time.Duration) J {
	o := J{"o": s.O}
	switch s.O {
	case "InsertTask", "UpsertTask":
		o["id"], o["task"] = k.id(s.Tasks[0].ID), k.task(s.Tasks[0].task())
	case "InsertTasks", "UpsertTasks":
		l := make([]J, 0)
		for i := range s.Tasks {
			l = append(l, J{"id": k.id(s.Tasks[i].ID), "task": k.task(s.Tasks[i].task())})
		}
		o["ts"] = l
	case "Poll":
		o["topic"], o["consumer"], o["deadline"] = k.topic(s.PTopic), k.cons(s.P.Consumer), jt(s.P.Deadline)
	case "InsertPromise", "UpsertPromise":
		o["id"], o["consumer"], o["deadline"] = k.id(s.P.ID), k.cons(s.P.Consumer), jt(s.P.Deadline)
	case "Commit":
		o["id"], o["nonce"], o["topic"], o["state"] = k.id(s.PID), k.nonce(s.C.Nonce), k.topic(s.C.Topic), s.C.State
		o["scheduled"], o["payload"] = jt(s.C.Scheduled), k.payload(s.C.Payload)
	case "Chore", "Expire":
		o["retention"] = jd(retention)
	case "Pages":
		o["what"], o["topic"], o["limit"] = s.What, k.topic(s.PTopic), s.Limit.N
	case "ListTasks", "ListTopics", "ListPromises":
		o["topic"], o["limit"], o["offset"] = k.topic(s.PTopic), s.Limit.N, s.Offset.N
	default:
		o["id"], o["topic"] = k.id(s.PID), k.topic(s.PTopic)
	}
	return o
}

// rawOp is the raw request of RatusApi that an API level step stands for.
func (k *Tok) rawOp(s *Step, retention time.Duration) J {
	o := J{"o": s.O, "pid": k.id(s.PID), "ptopic": k.topic(s.PTopic), "utf8": s.BadUTF == ""}
	if s.Fail != "" {
		o["fail"] = s.Fail
	}
	b := J{"k": s.BodyK}
	switch s.O {
	case "InsertTask", "UpsertTask":
		if s.BodyK == "ok" {
			b["t"] = k.taskSpec(&s.Tasks[0])
		}
	case "InsertTasks", "UpsertTasks":
		if s.BodyK == "ok" {
			l := make([]J, 0)
			for i := range s.Tasks {
				l = append(l, k.taskSpec(&s.Tasks[i]))
			}
			b["ts"] = l
		}
	case "Poll", "InsertPromise", "UpsertPromise":
		b["id"], b["consumer"], b["deadline"], b["timeout"] = k.id(s.P.ID), k.cons(s.P.Consumer), jt(s.P.Deadline), k.dur(s.P.Timeout)
	case "Commit":
		b["nonce"], b["topic"], b["state"] = k.nonce(s.C.Nonce), k.topic(s.C.Topic), s.C.State
		b["scheduled"], b["payload"], b["defer"] = jt(s.C.Scheduled), k.payload(s.C.Payload), k.dur(s.C.Defer)
	case "ListTasks", "ListTopics", "ListPromises":
		o["limit"], o["offset"] = k.num(s.Limit), k.num(s.Offset)
	case "Chore", "Expire":
		o["retention"] = jd(retention)
	case "Pages":
		o["what"], o["topic"], o["limit"] = s.What, k.topic(s.PTopic), s.Limit.N
	}
	o["body"] = b
	return o
}

// Result is what a call answered.
type Result struct {
	Code  int
	Ret   J
	ErrOK bool
	Dead  bool // no answer: the system cannot be used any more
	Note  string
}

var retNone = J{"k": "none"}

func (k *Tok) rTask(t *ratus.Task) J {
	if t == nil {
		return J{"k": "nil"}
	}
	return J{"k": "task", "id": k.id(t.ID), "task": k.task(t)}
}

func (k *Tok) rUpdated(u *ratus.Updated) J {
	if u == nil {
		return J{"k": "nil"}
	}
	return J{"k": "updated", "created": u.Created, "updated": u.Updated}
}

func (k *Tok) rDeleted(u *ratus.Deleted) J {
	if u == nil {
		return J{"k": "nil"}
	}
	return J{"k": "deleted", "n": u.Deleted}
}

func (k *Tok) promise(p *ratus.Promise) J {
	return J{"id": k.id(p.ID), "consumer": k.cons(p.Consumer), "deadline": jt(p.Deadline)}
}

func (k *Tok) rPromise(p *ratus.Promise) J {
	if p == nil {
		return J{"k": "nil"}
	}
	return J{"k": "promise", "p": k.promise(p)}
}

func (k *Tok) rTopic(t *ratus.Topic) J {
	if t == nil {
		return J{"k": "nil"}
	}
	return J{"k": "topic", "name": k.topic(t.Name), "count": t.Count}
}

func (k *Tok) lTasks(v []*ratus.Task) []any {
	l := make([]any, 0)
	for _, t := range v {
		l = append(l, J{"id": k.id(t.ID), "task": k.task(t)})
	}
	return l
}

func (k *Tok) lPromises(v []*ratus.Promise) []any {
	l := make([]any, 0)
	for _, t := range v {
		l = append(l, k.promise(t))
	}
	return l
}

func (k *Tok) lTopics(v []*ratus.Topic) []any {
	l := make([]any, 0)
	for _, t := range v {
		l = append(l, k.topic(t.Name))
	}
	return l
}

func rList(l []any) J { return J{"k": "list", "list": l} }
