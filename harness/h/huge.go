package main

import (
	"fmt"
	"math/rand"
	"strings"
	"time"

	"github.com/hyperonym/ratus/internal/config"
	"github.com/hyperonym/ratus/internal/zzverif/vtime"
)

// hugeTrace runs a trace on a store of more than a thousand tasks, which are
// written, claimed, released, recovered, expired, listed and deleted many at a
// time.
func hugeTrace(o *SeqOptions, t *Tracer, tr int) error {
	r := rand.New(rand.NewSource(o.Seed*1000003 + int64(tr)))
	mongo := strings.HasPrefix(o.Engine, "mongo")
	g := newGen(r, o.Level, mongo, "mix")
	g.big = false
	g.now = g.now.Truncate(time.Second)
	g.retention = []time.Duration{time.Hour, 10 * time.Second, 72 * time.Hour}[r.Intn(3)]
	g.maxLimit, g.maxOffset = 5000, 5000
	n := []int{1030, 1100, 1290}[r.Intn(3)]
	shape := []string{"%d", "%05d", "task-%x", "日%d"}[r.Intn(4)]
	g.ids = nil
	for i := 0; i < n; i++ {
		g.ids = append(g.ids, fmt.Sprintf(shape, i))
	}
	g.topics = []string{"x", "y", "xx"}
	vtime.Set(g.now)
	b, mode, err := newBackend(o, r, g.retention, tr)
	if err != nil {
		return err
	}
	defer b.Close()
	t.reset(tr, mode, g.maxLimit, g.maxOffset)
	run := newRunner(o.Level, b, &config.PaginationConfig{MaxLimit: g.maxLimit, MaxOffset: g.maxOffset}, r)
	defer run.close()
	ids := append([]string{"absent"}, g.ids...)

	advance := func(d time.Duration) {
		vtime.Advance(d)
		g.now = vtime.Now()
	}
	var failed error
	dead := false
	do := func(s *Step) {
		if failed != nil || dead {
			return
		}
		if s.BodyK == "" {
			s.BodyK = "none"
		}
		dead, failed = run.step(t, tr, s, g, ids, g.topics, o.Metrics, false)
		advance(time.Duration(r.Intn(3)) * time.Second)
	}
	num := func(n int) Num { return Num{"ok", fmt.Sprint(n), n} }
	at := func(d time.Duration) *time.Time {
		x := g.now.Add(d)
		return &x
	}
	main := r.Intn(4) // the state that most of the tasks are in
	topic := "x"
	task := func(id string, i int) TaskSpec {
		s := TaskSpec{ID: id, Topic: topic, State: main, Producer: "p", Payload: fmt.Sprintf("v%d", r.Intn(1000000)), Defer: Dur{K: "none"}}
		if r.Intn(20) == 0 {
			s.State = r.Intn(4)
		}
		if r.Intn(20) == 0 {
			s.Topic = g.one(g.topics)
		}
		// few tasks share their time, in whole seconds
		s.Scheduled = at(time.Duration(r.Intn(n)-n*3/4) * time.Second)
		s.Produced = at(-time.Minute)
		if s.State != 0 {
			s.Consumer = "c"
			s.Consumed = at(time.Duration(-r.Intn(100)) * time.Second)
			s.Deadline = at(time.Duration(10+r.Intn(200)) * time.Second)
			if s.State == 1 {
				s.Nonce = fmt.Sprintf("given%d", i)
			}
		}
		return s
	}
	batch := func(from, to int, dups bool) []TaskSpec {
		var l []TaskSpec
		for _, i := range r.Perm(to - from) {
			l = append(l, task(g.ids[from+i], i))
			if dups && r.Intn(100) == 0 {
				l = append(l, task(g.ids[from+r.Intn(to-from)], i))
			}
		}
		return l
	}
	write := func(op string, l []TaskSpec) { do(&Step{O: op, BodyK: "ok", Tasks: l}) }
	look := func() {
		do(&Step{O: "ListTasks", PTopic: "x", Limit: num(5000), Offset: num(0)})
		do(&Step{O: "ListTasks", PTopic: "x", Limit: num(1000), Offset: num(r.Intn(1200))})
		do(&Step{O: "ListPromises", PTopic: "x", Limit: num(5000), Offset: num(0)})
		do(&Step{O: "GetTopic", PTopic: "x"})
		pages := &Step{O: "Pages", What: []string{"tasks", "promises", "topics"}[r.Intn(3)], Limit: num([]int{100, 256, 500, 1000}[r.Intn(4)])}
		if pages.What != "topics" {
			pages.PTopic = "x"
		}
		do(pages)
	}
	poll := func(k int) {
		for i := 0; i < k; i++ {
			p := PromiseSpec{Consumer: "c", Deadline: at(time.Minute)}
			if o.Level != "engine" {
				p = PromiseSpec{Consumer: "c", Timeout: Dur{K: "ok", S: "1m", D: time.Minute}}
			}
			do(&Step{O: "Poll", BodyK: "ok", PTopic: "x", P: p})
		}
	}
	switch r.Intn(4) {
	case 0: // every task has a topic of its own
		l := batch(0, n, false)
		for i := range l {
			l[i].Topic = "of-" + l[i].ID
		}
		write("InsertTasks", l)
		do(&Step{O: "ListTopics", Limit: num(5000), Offset: num(0)})
		do(&Step{O: "ListTopics", Limit: num(1000), Offset: num(r.Intn(1200))})
		do(&Step{O: "Pages", What: "topics", Limit: num(256)})
		do(&Step{O: "GetTopic", PTopic: l[n-1].Topic})
		do(&Step{O: "DeleteTopic", PTopic: l[r.Intn(n)].Topic})
		do(&Step{O: "DeleteTopics"})
	case 1: // in one batch
		write("InsertTasks", batch(0, n, true))
		look()
		write("UpsertTasks", batch(r.Intn(n/2), n, true))
		poll(2)
		look()
	default: // in several
		write("UpsertTasks", batch(0, n/2, true))
		write("InsertTasks", batch(n/3, n, true))
		poll(2)
		look()
	}
	if o.Restarts && b.CanRestart() && failed == nil && !dead {
		if err := restart(o, t, tr, g, b, run, ids); err != nil {
			if err == errStopped {
				err = nil
			}
			return err
		}
	}
	switch r.Intn(4) {
	case 0:
		do(&Step{O: "DeletePromises", PTopic: "x"})
		do(&Step{O: "ListPromises", PTopic: "x", Limit: num(5000), Offset: num(0)})
	case 1, 2:
		// past some of the deadlines and the retention period of some, at
		// none of these instants
		advance(100*time.Second + 500*time.Millisecond)
		do(&Step{O: "Chore"})
		advance(g.retention)
		advance(200 * time.Second)
		if mongo {
			do(&Step{O: "Expire"})
		}
		do(&Step{O: "Chore"})
	}
	poll(2)
	switch r.Intn(3) {
	case 0:
		do(&Step{O: "DeleteTasks", PTopic: "x"})
	case 1:
		do(&Step{O: "DeleteTopic", PTopic: "x"})
	default:
		do(&Step{O: "DeleteTopics"})
	}
	do(&Step{O: "GetTopic", PTopic: "x"})
	poll(1)
	return failed
}
