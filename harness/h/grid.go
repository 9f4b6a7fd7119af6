package main

import (
	"bufio"
	"context"
	"encoding/json"
	"fmt"
	"math/rand"
	"os"
	"strings"
	"time"

	"github.com/hyperonym/ratus"
	"github.com/hyperonym/ratus/internal/config"
	"github.com/hyperonym/ratus/internal/zzverif/vtime"
)

// The grid is written by RatusGen.tla: stores of up to two tasks and the
// operations to run on them. Times are one-element lists, two to a millisecond.
type gridTask struct {
	Topic     string `json:"topic"`
	State     int    `json:"state"`
	Nonce     string `json:"nonce"`
	Producer  string `json:"producer"`
	Consumer  string `json:"consumer"`
	Produced  []int  `json:"produced"`
	Scheduled []int  `json:"scheduled"`
	Consumed  []int  `json:"consumed"`
	Deadline  []int  `json:"deadline"`
	Payload   string `json:"payload"`
}

type gridOp struct {
	O    string   `json:"o"`
	ID   string   `json:"id"`
	Task gridTask `json:"task"`
	TS   []struct {
		ID   string   `json:"id"`
		Task gridTask `json:"task"`
	} `json:"ts"`
	Topic     string `json:"topic"`
	Consumer  string `json:"consumer"`
	Deadline  []int  `json:"deadline"`
	Nonce     string `json:"nonce"`
	State     int    `json:"state"`
	Scheduled []int  `json:"scheduled"`
	Payload   string `json:"payload"`
	What      string `json:"what"`
	Limit     int    `json:"limit"`
	Offset    int    `json:"offset"`
}

type gridFile struct {
	Mid       int        `json:"mid"`
	Retention []int      `json:"retention"`
	Variants  []gridTask `json:"variants"`
	Ops       []gridOp   `json:"ops"`
}

// GridOptions configures a grid run.
type GridOptions struct {
	Engine  string
	Grid    string
	Out     string
	Seed    int64
	Shard   int
	Shards  int
	Pairs   int     // number of sampled (pair of tasks, operation) points
	Singles float64 // share of the single-task points
	Prefix  string  // only operations whose name starts with one of these (comma separated)
	Only    int
}

type gridNames struct{ ids, topics [2]string }

var gridPools = []gridNames{
	{[2]string{"a", "b"}, [2]string{"x", "y"}},
	{[2]string{"1", "10"}, [2]string{"t", "t1"}},
	{[2]string{"a", "a\x00"}, [2]string{"x", "x\x00"}},
	{[2]string{"b\x00c", "b"}, [2]string{"y\x00z", "y"}},
	{[2]string{"A", "a"}, [2]string{"Topic", "topic"}},
	{[2]string{"a/b", "a"}, [2]string{"x/y", "x"}},
	{[2]string{"日本", "日"}, [2]string{"é", "é"}},
	{[2]string{" ", "  "}, [2]string{"x ", "x"}},
}

func (n *gridNames) id(s string) string {
	return map[string]string{"a": n.ids[0], "b": n.ids[1]}[s]
}

func (n *gridNames) topic(s string) string {
	return map[string]string{"x": n.topics[0], "y": n.topics[1], "": ""}[s]
}

const gridTick = 500 * time.Microsecond

func gridTime(base time.Time, v []int) *time.Time {
	if len(v) == 0 {
		return nil
	}
	t := base.Add(time.Duration(v[0]) * gridTick)
	return &t
}

func gridPayload(s string) any {
	if s == "" {
		return nil
	}
	return s
}

func (v *gridTask) spec(n *gridNames, base time.Time, id string) TaskSpec {
	return TaskSpec{
		ID: n.id(id), Topic: n.topic(v.Topic), State: v.State, Nonce: v.Nonce, Producer: v.Producer, Consumer: v.Consumer,
		Produced: gridTime(base, v.Produced), Scheduled: gridTime(base, v.Scheduled),
		Consumed: gridTime(base, v.Consumed), Deadline: gridTime(base, v.Deadline), Payload: gridPayload(v.Payload),
	}
}

func (o *gridOp) step(n *gridNames, base time.Time) *Step {
	s := &Step{O: o.O, PID: n.id(o.ID), PTopic: n.topic(o.Topic), What: o.What, BodyK: "ok"}
	s.Limit = Num{K: "ok", S: fmt.Sprint(o.Limit), N: o.Limit}
	s.Offset = Num{K: "ok", S: fmt.Sprint(o.Offset), N: o.Offset}
	switch o.O {
	case "InsertTask", "UpsertTask":
		s.Tasks = []TaskSpec{o.Task.spec(n, base, o.ID)}
	case "InsertTasks", "UpsertTasks":
		for i := range o.TS {
			s.Tasks = append(s.Tasks, o.TS[i].Task.spec(n, base, o.TS[i].ID))
		}
	case "Poll", "InsertPromise", "UpsertPromise":
		s.P = PromiseSpec{ID: n.id(o.ID), Consumer: o.Consumer, Deadline: gridTime(base, o.Deadline)}
	case "Commit":
		s.C = CommitSpec{Nonce: o.Nonce, Topic: n.topic(o.Topic), State: o.State, Scheduled: gridTime(base, o.Scheduled), Payload: gridPayload(o.Payload)}
	}
	return s
}

func runGrid(o *GridOptions) error {
	b, err := os.ReadFile(o.Grid)
	if err != nil {
		return err
	}
	var gf gridFile
	if err := json.Unmarshal(b, &gf); err != nil {
		return err
	}
	var ops []gridOp
	for _, x := range gf.Ops {
		if x.O == "Expire" && !strings.HasPrefix(o.Engine, "mongo") {
			continue
		}
		keep := o.Prefix == ""
		for _, p := range strings.Split(o.Prefix, ",") {
			keep = keep || x.O == p
		}
		if keep {
			ops = append(ops, x)
		}
	}
	f, err := os.Create(o.Out)
	if err != nil {
		return err
	}
	defer f.Close()
	t := &Tracer{w: bufio.NewWriterSize(f, 1<<20)}
	defer t.w.Flush()
	r := rand.New(rand.NewSource(o.Seed*7919 + int64(o.Shard)))
	retention := time.Duration(gf.Retention[0]) * gridTick

	var back Backend
	mode := "mem"
	if strings.HasPrefix(o.Engine, "mongo") {
		mode = "mongo"
		if back, mode, err = newBackend(&SeqOptions{Engine: o.Engine}, r, retention, 0); err != nil {
			return err
		}
		defer back.Close()
	}
	point := func(n int, store []int, op *gridOp, names *gridNames) error {
		base := time.Unix(1_700_000_000+int64(r.Intn(1000)), int64(r.Intn(1000))*1_000_000).UTC()
		now := base.Add(time.Duration(gf.Mid) * gridTick)
		vtime.Set(now)
		if mode == "mem" {
			if back, _, err = newBackend(&SeqOptions{Engine: o.Engine}, r, retention, 0); err != nil {
				return err
			}
			defer back.Close()
		}
		ctx := context.Background()
		if mode == "mongo" {
			if _, err := back.Engine().DeleteTopics(ctx); err != nil {
				return fmt.Errorf("cannot clear: %w", err)
			}
		}
		ids := []string{names.ids[0], names.ids[1], "absent"}
		var ts []*ratus.Task
		for i, v := range store {
			s := gf.Variants[v].spec(names, base, []string{"a", "b"}[i])
			ts = append(ts, s.task())
		}
		// The order of insertion may not matter.
		if len(ts) == 2 && r.Intn(2) == 0 {
			ts[0], ts[1] = ts[1], ts[0]
		}
		t.k = newTok()
		t.last = map[string]string{}
		for _, x := range ts {
			if _, err := back.Engine().InsertTask(ctx, x); err != nil {
				break
			}
		}
		cur, err := observeAll(back, ids)
		if err != nil {
			return err
		}
		put, del := t.delta(cur)
		want := map[string]*ratus.Task{}
		for i, v := range store {
			s := gf.Variants[v].spec(names, base, []string{"a", "b"}[i])
			want[s.ID] = s.task()
		}
		run := newRunner("engine", back, &config.PaginationConfig{MaxLimit: 100, MaxOffset: 10000}, r)
		g := newGen(r, "engine", mode == "mongo", "mix")
		g.now, g.retention = now, retention
		cfg := J{"maxlimit": 100, "maxoffset": 10000}
		ev := J{"t": "reset", "tr": n, "mode": mode, "put": put, "del": del, "cfg": cfg}
		if prepared(t.k, mode, ts, cur) {
			t.emit(ev)
		} else {
			// What is there is not what was inserted: let the checker see the insertions.
			if _, err := back.Engine().DeleteTopics(ctx); err != nil {
				return err
			}
			t.last = map[string]string{}
			ev["put"] = J{}
			t.emit(ev)
			for i, v := range store {
				s := &Step{O: "InsertTask", Tasks: []TaskSpec{gf.Variants[v].spec(names, base, []string{"a", "b"}[i])}}
				if _, err := run.step(t, n, s, g, ids, names.topics[:], false, true); err != nil {
					return err
				}
			}
		}
		s := op.step(names, base)
		_, err = run.step(t, n, s, g, ids, names.topics[:], false, true)
		return err
	}
	n := -1
	do := func(store []int, op *gridOp, names *gridNames) error {
		n++
		if o.Only >= 0 && n != o.Only || hung {
			return nil
		}
		r = rand.New(rand.NewSource(o.Seed*1000003 + int64(o.Shard)*97 + int64(n)))
		return point(n, store, op, names)
	}
	pick := rand.New(rand.NewSource(o.Seed*31 + 7))
	// no task at all, and one task: every point, dealt out to the shards
	k := 0
	for v := -1; v < len(gf.Variants); v++ {
		for i := range ops {
			take := pick.Float64() < o.Singles
			names := &gridPools[pick.Intn(len(gridPools))]
			k++
			if k%o.Shards != o.Shard || !take {
				continue
			}
			var store []int
			if v >= 0 {
				store = []int{v}
			}
			if err := do(store, &ops[i], names); err != nil {
				return err
			}
		}
	}
	pick = rand.New(rand.NewSource(o.Seed*31 + 8 + int64(o.Shard)*1009))
	for p := 0; p < o.Pairs; p++ {
		store := []int{pick.Intn(len(gf.Variants)), pick.Intn(len(gf.Variants))}
		op := &ops[pick.Intn(len(ops))]
		if err := do(store, op, &gridPools[pick.Intn(len(gridPools))]); err != nil {
			return err
		}
	}
	return nil
}

// prepared tells whether the store is what was inserted.
func prepared(k *Tok, mode string, ts []*ratus.Task, cur map[string]*ratus.Task) bool {
	if len(ts) != len(cur) {
		return false
	}
	enc := func(x *ratus.Task) string {
		y := *x
		for _, t := range []**time.Time{&y.Produced, &y.Scheduled, &y.Consumed, &y.Deadline} {
			if *t != nil && mode == "mongo" {
				u := (*t).Add(-time.Duration((*t).Nanosecond() % 1_000_000))
				*t = &u
			}
		}
		b, _ := json.Marshal(k.task(&y))
		return string(b)
	}
	for _, x := range ts {
		y := cur[x.ID]
		if y == nil || enc(x) != enc(y) {
			return false
		}
	}
	return true
}
