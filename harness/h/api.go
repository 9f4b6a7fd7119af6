package main

import (
	"bufio"
	"context"
	"encoding/json"
	"errors"
	"fmt"
	"math/rand"
	"os"
	"sort"
	"strings"
	"time"

	"github.com/hyperonym/ratus"
	"github.com/hyperonym/ratus/internal/config"
	"github.com/hyperonym/ratus/internal/engine"
	"github.com/hyperonym/ratus/internal/engine/memdb"
	"github.com/hyperonym/ratus/internal/zzverif/fakemongo"
	"github.com/hyperonym/ratus/internal/zzverif/vtime"
)

// The requests are written by ApiGen.tla.
type apiDur struct {
	K string `json:"k"`
	D []int  `json:"d"`
}

type apiNum struct {
	K string `json:"k"`
	N int    `json:"n"`
}

type apiTask struct {
	gridTask
	Null  bool   `json:"null"`
	ID    string `json:"id"`
	Defer apiDur `json:"defer"`
}

type apiReq struct {
	O      string `json:"o"`
	PID    string `json:"pid"`
	PTopic string `json:"ptopic"`
	UTF8   bool   `json:"utf8"`
	Where  string `json:"where"`
	Query  bool   `json:"query"`
	Fail   string `json:"fail"`
	Limit  apiNum `json:"limit"`
	Offset apiNum `json:"offset"`
	Body   struct {
		K         string    `json:"k"`
		T         apiTask   `json:"t"`
		TS        []apiTask `json:"ts"`
		ID        string    `json:"id"`
		Consumer  string    `json:"consumer"`
		Deadline  []int     `json:"deadline"`
		Timeout   apiDur    `json:"timeout"`
		Nonce     string    `json:"nonce"`
		Topic     string    `json:"topic"`
		State     int       `json:"state"`
		Scheduled []int     `json:"scheduled"`
		Defer     apiDur    `json:"defer"`
		Payload   string    `json:"payload"`
	} `json:"body"`
}

type apiFile struct {
	Mid int `json:"mid"`
	Cfg struct {
		MaxLimit  int `json:"maxlimit"`
		MaxOffset int `json:"maxoffset"`
	} `json:"cfg"`
	Stores []json.RawMessage   `json:"stores"`
	Kinds  map[string][]apiReq `json:"kinds"`
}

// errDead is returned when the system under test cannot be used any more.
var errDead = errors.New("no answer")

// APIOptions configures a run over the grid of requests.
type APIOptions struct {
	Engine  string
	Level   string
	Grid    string
	Out     string
	Seed    int64
	Shard   int
	Shards  int
	Stores  int     // on how many stores each request is tried
	Share   float64 // of the requests
	Metrics bool
	Prefix  string // only these operations (comma separated)
	Only    int
}

type apiNames struct{ ids, topics []string }

var apiPools = []apiNames{
	{[]string{"a", "b", "c", "d"}, []string{"x", "y"}},
	{[]string{"1", "10", "11", "100"}, []string{"t", "t1"}},
	{[]string{"a/b", "a", "b", "/"}, []string{"x/y", "x"}},
	{[]string{"日本", "日", "本", "é"}, []string{"é", "é"}},
	{[]string{" ", "  ", "+", "%20"}, []string{"x ", "x"}},
	{[]string{"..", ".", "tasks", "promises"}, []string{"topics", "v1"}},
	{[]string{"a\x00", "a\x00b", "a\x01", "\x00"}, []string{"x\x00", "x\x00y"}},
	{[]string{"?", "#", "&", ";="}, []string{"%", "%25"}},
}

func (n *apiNames) id(s string) string {
	if s == "" {
		return ""
	}
	return n.ids[s[0]-'a']
}

func (n *apiNames) topic(s string) string {
	if s == "" {
		return ""
	}
	return n.topics[s[0]-'x']
}

func (d apiDur) dur(r *rand.Rand) Dur {
	switch d.K {
	case "ok":
		x := time.Duration(d.D[0]) * gridTick
		return Dur{K: "ok", S: x.String(), D: x}
	case "bad":
		return Dur{K: "bad", S: badDurs[r.Intn(len(badDurs))]}
	}
	return Dur{K: "none"}
}

var badNums = []string{"abc", "1.5", "1e3", "0x10", "99999999999999999999", "--1"}

func (n apiNum) num(r *rand.Rand) Num {
	switch n.K {
	case "ok":
		return Num{"ok", fmt.Sprint(n.N), n.N}
	case "bad":
		return Num{"bad", badNums[r.Intn(len(badNums))], 0}
	}
	return Num{K: "none"}
}

func (v *apiTask) spec(n *apiNames, base time.Time, r *rand.Rand) TaskSpec {
	return TaskSpec{
		Null: v.Null, ID: n.id(v.ID), Topic: n.topic(v.Topic), State: v.State, Nonce: v.Nonce, Producer: v.Producer, Consumer: v.Consumer,
		Produced: gridTime(base, v.Produced), Scheduled: gridTime(base, v.Scheduled),
		Consumed: gridTime(base, v.Consumed), Deadline: gridTime(base, v.Deadline), Payload: gridPayload(v.Payload), Defer: v.Defer.dur(r),
	}
}

func (q *apiReq) step(n *apiNames, base time.Time, r *rand.Rand) *Step {
	b := &q.Body
	s := &Step{O: q.O, PID: n.id(q.PID), PTopic: n.topic(q.PTopic), BodyK: b.K, Query: q.Query, Limit: q.Limit.num(r), Offset: q.Offset.num(r)}
	if !q.UTF8 {
		s.BadUTF = q.Where
	}
	var bad []string
	switch q.O {
	case "InsertTask", "UpsertTask":
		bad = badTask
		if b.K == "ok" {
			s.Tasks = []TaskSpec{b.T.spec(n, base, r)}
		}
	case "InsertTasks", "UpsertTasks":
		bad = badTasks
		for i := range b.TS {
			s.Tasks = append(s.Tasks, b.TS[i].spec(n, base, r))
		}
	case "Poll", "InsertPromise", "UpsertPromise":
		bad = badPromise
		s.P = PromiseSpec{ID: n.id(b.ID), Consumer: b.Consumer, Deadline: gridTime(base, b.Deadline), Timeout: b.Timeout.dur(r)}
	case "Commit":
		bad = badCommit
		s.C = CommitSpec{Nonce: b.Nonce, Topic: n.topic(b.Topic), State: b.State, Scheduled: gridTime(base, b.Scheduled), Payload: gridPayload(b.Payload), Defer: b.Defer.dur(r)}
	}
	if b.K == "bad" {
		s.BadBody = bad[r.Intn(len(bad))]
		if q.Query {
			s.BadBody = "soon"
		}
	}
	return s
}

// expressible tells whether the Go client can send the request.
func (q *apiReq) expressible() bool {
	b := &q.Body
	if !q.UTF8 || q.Fail == "gone" {
		return false
	}
	switch q.O {
	case "InsertTask", "UpsertTask":
		return b.K == "ok" && !b.T.Null && q.PID == b.T.ID && q.PTopic == ""
	case "InsertTasks", "UpsertTasks":
		for i := range b.TS {
			if b.TS[i].Null {
				return false
			}
		}
		return b.K == "ok" && q.PTopic == ""
	case "Poll":
		return b.K == "ok" && !(q.Query && b.ID != "")
	case "InsertPromise", "UpsertPromise":
		return b.K == "ok" && q.PID == b.ID && q.PTopic == "" && !q.Query
	case "Commit":
		return b.K == "ok" && q.PTopic == ""
	case "ListTasks", "ListPromises", "ListTopics":
		return q.Limit.K == "ok" && q.Offset.K == "ok"
	case "GetTask", "DeleteTask", "GetPromise", "DeletePromise":
		return q.PTopic == ""
	}
	return true
}

// swap is an engine that can be replaced under a running handler, and that can
// be made to fail.
type swap struct {
	engine.Engine
	fail   error
	cancel context.CancelFunc // the client goes away while the request is processed
}

var failures = map[string]error{
	"bad": ratus.ErrBadRequest, "missing": ratus.ErrNotFound, "conflict": ratus.ErrConflict, "closed": ratus.ErrClientClosedRequest,
	"cancelled": context.Canceled, "down": ratus.ErrServiceUnavailable, "late": context.DeadlineExceeded, "other": errors.New("disk on fire"),
}

// failure returns an error of a kind, possibly wrapped.
func failure(kind string, r *rand.Rand) error {
	err := failures[kind]
	for i := r.Intn(3); i > 0; i-- {
		err = fmt.Errorf([]string{"storage: %w", "%w: details", "a %w b"}[r.Intn(3)], err)
	}
	return err
}

func (s *swap) failing(ctx context.Context) error {
	if s.cancel != nil {
		s.cancel()
		select {
		case <-ctx.Done():
			return ctx.Err()
		case <-time.After(3 * time.Second):
			return errors.New("not cancelled")
		}
	}
	return s.fail
}

func (s *swap) Ready(ctx context.Context) error {
	if err := s.failing(ctx); err != nil {
		return err
	}
	return s.Engine.Ready(ctx)
}

func (s *swap) Poll(ctx context.Context, topic string, p *ratus.Promise) (*ratus.Task, error) {
	if err := s.failing(ctx); err != nil {
		return nil, err
	}
	return s.Engine.Poll(ctx, topic, p)
}

func (s *swap) Commit(ctx context.Context, id string, m *ratus.Commit) (*ratus.Task, error) {
	if err := s.failing(ctx); err != nil {
		return nil, err
	}
	return s.Engine.Commit(ctx, id, m)
}

func (s *swap) ListTopics(ctx context.Context, limit, offset int) ([]*ratus.Topic, error) {
	if err := s.failing(ctx); err != nil {
		return nil, err
	}
	return s.Engine.ListTopics(ctx, limit, offset)
}

func (s *swap) DeleteTopics(ctx context.Context) (*ratus.Deleted, error) {
	if err := s.failing(ctx); err != nil {
		return nil, err
	}
	return s.Engine.DeleteTopics(ctx)
}

func (s *swap) GetTopic(ctx context.Context, topic string) (*ratus.Topic, error) {
	if err := s.failing(ctx); err != nil {
		return nil, err
	}
	return s.Engine.GetTopic(ctx, topic)
}

func (s *swap) DeleteTopic(ctx context.Context, topic string) (*ratus.Deleted, error) {
	if err := s.failing(ctx); err != nil {
		return nil, err
	}
	return s.Engine.DeleteTopic(ctx, topic)
}

func (s *swap) ListTasks(ctx context.Context, topic string, limit, offset int) ([]*ratus.Task, error) {
	if err := s.failing(ctx); err != nil {
		return nil, err
	}
	return s.Engine.ListTasks(ctx, topic, limit, offset)
}

func (s *swap) InsertTasks(ctx context.Context, ts []*ratus.Task) (*ratus.Updated, error) {
	if err := s.failing(ctx); err != nil {
		return nil, err
	}
	return s.Engine.InsertTasks(ctx, ts)
}

func (s *swap) UpsertTasks(ctx context.Context, ts []*ratus.Task) (*ratus.Updated, error) {
	if err := s.failing(ctx); err != nil {
		return nil, err
	}
	return s.Engine.UpsertTasks(ctx, ts)
}

func (s *swap) DeleteTasks(ctx context.Context, topic string) (*ratus.Deleted, error) {
	if err := s.failing(ctx); err != nil {
		return nil, err
	}
	return s.Engine.DeleteTasks(ctx, topic)
}

func (s *swap) GetTask(ctx context.Context, id string) (*ratus.Task, error) {
	if err := s.failing(ctx); err != nil {
		return nil, err
	}
	return s.Engine.GetTask(ctx, id)
}

func (s *swap) InsertTask(ctx context.Context, t *ratus.Task) (*ratus.Updated, error) {
	if err := s.failing(ctx); err != nil {
		return nil, err
	}
	return s.Engine.InsertTask(ctx, t)
}

func (s *swap) UpsertTask(ctx context.Context, t *ratus.Task) (*ratus.Updated, error) {
	if err := s.failing(ctx); err != nil {
		return nil, err
	}
	return s.Engine.UpsertTask(ctx, t)
}

func (s *swap) DeleteTask(ctx context.Context, id string) (*ratus.Deleted, error) {
	if err := s.failing(ctx); err != nil {
		return nil, err
	}
	return s.Engine.DeleteTask(ctx, id)
}

func (s *swap) ListPromises(ctx context.Context, topic string, limit, offset int) ([]*ratus.Promise, error) {
	if err := s.failing(ctx); err != nil {
		return nil, err
	}
	return s.Engine.ListPromises(ctx, topic, limit, offset)
}

func (s *swap) DeletePromises(ctx context.Context, topic string) (*ratus.Deleted, error) {
	if err := s.failing(ctx); err != nil {
		return nil, err
	}
	return s.Engine.DeletePromises(ctx, topic)
}

func (s *swap) GetPromise(ctx context.Context, id string) (*ratus.Promise, error) {
	if err := s.failing(ctx); err != nil {
		return nil, err
	}
	return s.Engine.GetPromise(ctx, id)
}

func (s *swap) InsertPromise(ctx context.Context, p *ratus.Promise) (*ratus.Task, error) {
	if err := s.failing(ctx); err != nil {
		return nil, err
	}
	return s.Engine.InsertPromise(ctx, p)
}

func (s *swap) UpsertPromise(ctx context.Context, p *ratus.Promise) (*ratus.Task, error) {
	if err := s.failing(ctx); err != nil {
		return nil, err
	}
	return s.Engine.UpsertPromise(ctx, p)
}

func (s *swap) DeletePromise(ctx context.Context, id string) (*ratus.Deleted, error) {
	if err := s.failing(ctx); err != nil {
		return nil, err
	}
	return s.Engine.DeletePromise(ctx, id)
}

type swapBackend struct {
	Backend
	e *swap
}

func (b *swapBackend) Engine() engine.Engine { return b.e }

func (b *swapBackend) set(n Backend) { b.Backend, b.e.Engine = n, n.Engine() }

func runAPI(o *APIOptions) error {
	raw, err := os.ReadFile(o.Grid)
	if err != nil {
		return err
	}
	var af apiFile
	if err := json.Unmarshal(raw, &af); err != nil {
		return err
	}
	var names []string
	for k := range af.Kinds {
		names = append(names, k)
	}
	sort.Strings(names)
	var reqs []apiReq
	for _, k := range names {
		for _, q := range af.Kinds[k] {
			if (o.Level != "client" || q.expressible()) && (o.Prefix == "" || strings.Contains(","+o.Prefix+",", ","+q.O+",")) {
				reqs = append(reqs, q)
			}
		}
	}
	stores := make([]map[string]gridTask, len(af.Stores))
	for i, m := range af.Stores {
		if string(m) != "[]" { // the empty function
			if err := json.Unmarshal(m, &stores[i]); err != nil {
				return err
			}
		}
	}
	f, err := os.Create(o.Out)
	if err != nil {
		return err
	}
	defer f.Close()
	t := &Tracer{w: bufio.NewWriterSize(f, 1<<20), k: newTok()}
	defer t.w.Flush()
	r := rand.New(rand.NewSource(o.Seed*7919 + int64(o.Shard)))
	retention := time.Hour
	ctx := context.Background()

	isMongo := strings.HasPrefix(o.Engine, "mongo")
	back := &swapBackend{e: &swap{}}
	fresh := func() (string, error) {
		if isMongo && back.Backend != nil {
			_, err := back.Engine().DeleteTopics(ctx)
			return "mongo", err
		}
		b, mode, err := newBackend(&SeqOptions{Engine: o.Engine}, r, retention, 0)
		if err != nil {
			return "", err
		}
		back.set(b)
		return mode, nil
	}
	mode, err := fresh()
	if err != nil {
		return err
	}
	defer func() { back.Backend.Close() }()
	run := newRunner(o.Level, back, &config.PaginationConfig{MaxLimit: af.Cfg.MaxLimit, MaxOffset: af.Cfg.MaxOffset}, r)
	defer run.close()

	point := func(n int, store map[string]gridTask, q *apiReq, names *apiNames) error {
		base := time.Unix(1_700_000_000+int64(r.Intn(1000)), int64(r.Intn(1000))*1_000_000).UTC()
		now := base.Add(time.Duration(af.Mid) * gridTick)
		vtime.Set(now)
		if !isMongo {
			back.Backend.Close()
		}
		if _, err := fresh(); err != nil {
			return err
		}
		var ts []*ratus.Task
		for _, i := range []string{"a", "b", "c", "d"} {
			if v, ok := store[i]; ok {
				v.Topic = names.topic(v.Topic)
				s := v.spec(&gridNames{topics: [2]string{v.Topic, ""}}, base, "")
				s.ID, s.Topic = names.id(i), v.Topic
				ts = append(ts, s.task())
			}
		}
		r.Shuffle(len(ts), func(i, j int) { ts[i], ts[j] = ts[j], ts[i] })
		for _, x := range ts {
			if _, err := back.Engine().InsertTask(ctx, x); err != nil {
				break
			}
		}
		t.last = map[string]string{}
		cur, err := observeAll(back, names.ids)
		if err != nil {
			return err
		}
		put, del := t.delta(cur)
		g := newGen(r, o.Level, isMongo, "mix")
		g.now, g.retention = now, retention
		t.emit(J{"t": "reset", "tr": n, "mode": mode, "put": put, "del": del, "cfg": J{"maxlimit": af.Cfg.MaxLimit, "maxoffset": af.Cfg.MaxOffset}})
		s := q.step(names, base, r)
		db, _ := back.Backend.(*mongoBackend)
		broken := func(kind, name string) fakemongo.Action { return fakemongo.Action{Fail: 50, Name: "MaxTimeMSExpired"} }
		opened := back.e.Engine
		if s.Fail = q.Fail; s.Fail != "" {
			run.after = func() {
				*back.e, run.ctx = swap{Engine: opened}, nil
				if db != nil {
					db.hook(0, nil)
				}
			}
		}
		switch {
		case q.Fail == "":
		case q.Fail == "gone":
			run.ctx, back.e.cancel = context.WithCancel(ctx)
		case db != nil && (q.Fail == "other" && r.Intn(2) == 0 || q.O == "Ready"):
			db.hook(0, broken)
		case q.O == "Ready" && r.Intn(2) == 0:
			// an engine that has not been opened
			if back.e.Engine, err = memdb.New(&memdb.Config{}); err != nil {
				return err
			}
		default:
			back.e.fail = failure(q.Fail, r)
		}
		dead, err := run.step(t, n, s, g, names.ids, names.topics, o.Metrics, true)
		if dead {
			err = errDead
		}
		return err
	}
	pick := rand.New(rand.NewSource(o.Seed*31 + 7))
	n := -1
	for i := range reqs {
		take := pick.Float64() < o.Share
		first, pool := pick.Intn(len(stores)), pick.Intn(len(apiPools))
		if i%o.Shards != o.Shard || !take {
			continue
		}
		for j := 0; j < o.Stores && j < len(stores); j++ {
			n++
			if o.Only >= 0 && n != o.Only {
				continue
			}
			r = rand.New(rand.NewSource(o.Seed*1000003 + int64(o.Shard)*97 + int64(n)))
			run.r = r
			err := point(n, stores[(first+j)%len(stores)], &reqs[i], &apiPools[pool])
			if err == errDead { // the recorded answer tells
				return nil
			}
			if err != nil {
				return err
			}
		}
	}
	return nil
}
