package main

import (
	"bufio"
	"context"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"math"
	"math/rand"
	"net/http"
	"net/http/httptest"
	"os"
	"sort"
	"strings"
	"time"

	"github.com/prometheus/client_golang/prometheus"

	"github.com/hyperonym/ratus"
	"github.com/hyperonym/ratus/internal/config"
	"github.com/hyperonym/ratus/internal/engine"
	"github.com/hyperonym/ratus/internal/engine/memdb"
	"github.com/hyperonym/ratus/internal/metrics"
	"github.com/hyperonym/ratus/internal/zzverif/vtime"
)

// Backend is a storage engine under test with a way to look at its contents.
type Backend interface {
	Engine() engine.Engine
	// Observe returns the task with the ID, nil if there is none.
	Observe(id string) (*ratus.Task, error)
	// Expire lets the server's own expiry run, if there is one.
	Expire()
	// Restart closes the engine and opens a new one on the same data.
	Restart(retention time.Duration) error
	CanRestart() bool
	Close()
}

type memBackend struct {
	c *memdb.Config
	g *memdb.Engine
}

func newMem(c *memdb.Config) (*memBackend, error) {
	g, err := memdb.New(c)
	if err != nil {
		return nil, err
	}
	if err := g.Open(context.Background()); err != nil {
		return nil, err
	}
	return &memBackend{c, g}, nil
}

func (b *memBackend) Engine() engine.Engine { return b.g }
func (b *memBackend) Expire()               {}
func (b *memBackend) Close()                {}
func (b *memBackend) CanRestart() bool      { return b.c.SnapshotPath != "" }
func (b *memBackend) Observe(id string) (*ratus.Task, error) {
	t, err := b.g.GetTask(context.Background(), id)
	if err != nil && errCode(err) == 404 {
		return nil, nil
	}
	return t, err
}
func (b *memBackend) Restart(retention time.Duration) error {
	b.c.RetentionPeriod = retention
	if err := b.g.Close(context.Background()); err != nil {
		return err
	}
	n, err := newMem(b.c)
	if err != nil {
		return err
	}
	b.g = n.g
	return nil
}

// redirect lets a handler survive the replacement of its engine.
type redirect struct {
	engine.Engine
	b Backend
}

// Tracer writes the trace of one run.
type Tracer struct {
	w    *bufio.Writer
	n    int
	k    *Tok
	last map[string]string // id -> encoded task
}

func (t *Tracer) emit(v any) {
	b, err := json.Marshal(v)
	if err != nil {
		panic(err)
	}
	t.w.Write(b)
	t.w.WriteByte('\n')
	t.n++
}

// delta encodes the store against the one emitted before.
func (t *Tracer) delta(cur map[string]*ratus.Task) (J, []string) {
	put, del := J{}, make([]string, 0)
	seen := map[string]string{}
	for id, x := range cur {
		b, _ := json.Marshal(t.k.task(x))
		i := t.k.id(id)
		seen[i] = string(b)
		if t.last[i] != string(b) {
			put[i] = json.RawMessage(b)
		}
	}
	for i := range t.last {
		if _, ok := seen[i]; !ok {
			del = append(del, i)
		}
	}
	sort.Strings(del)
	t.last = seen
	return put, del
}

func (t *Tracer) reset(tr int, mode string, maxLimit, maxOffset int) {
	t.k = newTok()
	t.last = map[string]string{}
	t.emit(J{"t": "reset", "tr": tr, "mode": mode, "put": J{}, "del": []string{}, "cfg": J{"maxlimit": maxLimit, "maxoffset": maxOffset}})
}

func observeAll(b Backend, ids []string) (map[string]*ratus.Task, error) {
	cur := map[string]*ratus.Task{}
	for _, id := range ids {
		t, err := b.Observe(id)
		if err != nil {
			return nil, err
		}
		if t != nil {
			cur[id] = t
		}
	}
	return cur, nil
}

// views records every view the engine offers of the store.
func views(k *Tok, g engine.Engine, ids, topics []string) J {
	ctx := context.Background()
	v := J{}
	ts, err := g.ListTopics(ctx, 5000, 0)
	if err != nil {
		v["topics"] = []any{"error"}
	} else {
		v["topics"] = k.lTopics(ts)
	}
	counts, tasks, promises, get, promise := J{}, J{}, J{}, J{}, J{}
	for _, n := range topics {
		if t, err := g.GetTopic(ctx, n); err == nil {
			counts[k.topic(n)] = t.Count
		} else if errCode(err) == 404 {
			counts[k.topic(n)] = 0
		} else {
			counts[k.topic(n)] = -1
		}
		l := []any{}
		if v, err := g.ListTasks(ctx, n, 5000, 0); err == nil {
			l = k.lTasks(v)
		} else {
			l = append(l, J{"id": "error", "task": J{}})
		}
		tasks[k.topic(n)] = l
		l = []any{}
		if v, err := g.ListPromises(ctx, n, 5000, 0); err == nil {
			l = k.lPromises(v)
		} else {
			l = append(l, J{"id": "error"})
		}
		promises[k.topic(n)] = l
	}
	for _, i := range ids {
		if t, err := g.GetTask(ctx, i); err == nil {
			get[k.id(i)] = k.rTask(t)
		} else if errCode(err) == 404 {
			get[k.id(i)] = retNone
		} else {
			get[k.id(i)] = J{"k": "error"}
		}
		if p, err := g.GetPromise(ctx, i); err == nil {
			promise[k.id(i)] = k.rPromise(p)
		} else if errCode(err) == 404 {
			promise[k.id(i)] = retNone
		} else {
			promise[k.id(i)] = J{"k": "error"}
		}
	}
	v["counts"], v["tasks"], v["promises"], v["get"], v["promise"] = counts, tasks, promises, get, promise
	return v
}

// counters reads the counters of interest from the metrics registry.
func counters(k *Tok) map[string]float64 {
	out := map[string]float64{}
	mfs, err := prometheus.DefaultGatherer.Gather()
	if err != nil {
		return map[string]float64{"gather error": 1}
	}
	for _, mf := range mfs {
		var kind string
		switch mf.GetName() {
		case "ratus_task_produced_count_total":
			kind = "produced"
		case "ratus_task_consumed_count_total":
			kind = "consumed"
		case "ratus_task_committed_count_total":
			kind = "committed"
		case "ratus_request_duration_seconds":
			kind = "request"
		default:
			continue
		}
		for _, m := range mf.GetMetric() {
			l := map[string]string{}
			for _, p := range m.GetLabel() {
				l[p.GetName()] = p.GetValue()
			}
			if kind == "request" {
				key := strings.Join([]string{"request", k.topic(l["topic"]), l["method"], l["endpoint"], l["status_code"]}, "|")
				out[key] += float64(m.GetHistogram().GetSampleCount())
				continue
			}
			key := strings.Join([]string{kind, k.topic(l["topic"]), k.prod(l["producer"]), k.cons(l["consumer"])}, "|")
			out[key] += m.GetCounter().GetValue()
		}
	}
	return out
}

// gauges reads the gauges that were set since they were last reset, each one
// as the least and the greatest duration it may stand for.
func gauges(k *Tok) J {
	out := J{}
	mfs, err := prometheus.DefaultGatherer.Gather()
	if err != nil {
		return J{"gather error": []any{}}
	}
	for _, mf := range mfs {
		kind := map[string]string{"ratus_task_schedule_delay_seconds": "delay", "ratus_task_execution_duration_seconds": "execution"}[mf.GetName()]
		if kind == "" {
			continue
		}
		for _, m := range mf.GetMetric() {
			l := map[string]string{}
			for _, p := range m.GetLabel() {
				l[p.GetName()] = p.GetValue()
			}
			key := strings.Join([]string{kind, k.topic(l["topic"]), k.prod(l["producer"]), k.cons(l["consumer"])}, "|")
			// Differences between times are limited to 292 years.
			v := m.GetGauge().GetValue()
			lo, hi := []int64{1000, 0, 0}, []int64{-1000, 0, 0}
			if v > -9.3e9 && v < 9.3e9 {
				lo, hi = around(v)
			}
			if v >= 9.2e9 {
				hi = []int64{1000, 0, 0}
			}
			if v <= -9.2e9 {
				lo = []int64{-1000, 0, 0}
			}
			out[key] = [][]int64{lo, hi}
		}
	}
	return out
}

// around is a duration in seconds, give or take a millisecond.
func around(v float64) (lo, hi []int64) {
	at := func(x float64) []int64 {
		s := math.Floor(x)
		ns := int((x - s) * giga)
		if ns >= giga {
			ns = giga - 1
		}
		return secs(int64(s), ns)
	}
	return at(v - 0.001), at(v + 0.001)
}

func diffCounters(a, b map[string]float64) J {
	d := J{}
	for k, v := range b {
		if x := v - a[k]; x != 0 {
			if x == float64(int64(x)) {
				d[k] = int64(x)
			} else {
				d[k] = -1
			}
		}
	}
	return d
}

// SeqOptions configures a sequential run.
type SeqOptions struct {
	Engine   string
	Level    string
	Profile  string
	Seed     int64
	Traces   int
	Steps    int
	Views    int // record the views every so many steps (0: never)
	Metrics  bool
	Restarts bool
	Out      string
	Scratch  string
	Only     int // only this trace (-1: all)
	Dict     string
}

func newBackend(o *SeqOptions, r *rand.Rand, retention time.Duration, tr int) (Backend, string, error) {
	if strings.HasPrefix(o.Engine, "mongo") {
		b, err := newMongoBackend(o.Engine, retention, r)
		return b, "mongo", err
	}
	c := &memdb.Config{RetentionPeriod: retention}
	if o.Restarts {
		c.SnapshotPath = fmt.Sprintf("%s/snap-%d-%d", o.Scratch, os.Getpid(), tr)
		c.SnapshotInterval = []time.Duration{0, time.Second, time.Hour}[r.Intn(3)]
	}
	b, err := newMem(c)
	return b, "mem", err
}

func runSeq(o *SeqOptions) error {
	f, err := os.Create(o.Out)
	if err != nil {
		return err
	}
	defer f.Close()
	t := &Tracer{w: bufio.NewWriterSize(f, 1<<20)}
	defer t.w.Flush()
	dict := []any{}
	for tr := 0; tr < o.Traces; tr++ {
		if o.Only >= 0 && tr != o.Only {
			continue
		}
		if err := seqTrace(o, t, tr); err != nil {
			return err
		}
		if hung {
			break
		}
		if o.Dict != "" {
			dict = append(dict, J{"trace": tr, "tokens": t.k.dictionary()})
		}
	}
	if o.Dict != "" {
		b, _ := json.Marshal(dict)
		os.WriteFile(o.Dict, b, 0o644)
	}
	return nil
}

func seqTrace(o *SeqOptions, t *Tracer, tr int) error {
	if o.Profile == "huge" {
		return hugeTrace(o, t, tr)
	}
	r := rand.New(rand.NewSource(o.Seed*1000003 + int64(tr)))
	mongo := strings.HasPrefix(o.Engine, "mongo")
	g := newGen(r, o.Level, mongo, o.Profile)
	vtime.Set(g.now)
	b, mode, err := newBackend(o, r, g.retention, tr)
	if err != nil {
		return err
	}
	defer b.Close()
	t.reset(tr, mode, g.maxLimit, g.maxOffset)
	run := newRunner(o.Level, b, &config.PaginationConfig{MaxLimit: g.maxLimit, MaxOffset: g.maxOffset}, r)
	defer run.close()

	ids := append([]string{"absent"}, g.ids...)
	topics := append([]string{"nowhere"}, g.topics...)
	for n := 0; n < o.Steps; n++ {
		if d := g.advance(); d > 0 && n > 0 {
			vtime.Advance(d)
			g.now = vtime.Now()
		}
		if o.Restarts && b.CanRestart() && g.p(12) {
			if g.p(30) {
				g.retention = retentions[r.Intn(len(retentions))]
			}
			if err := restart(o, t, tr, g, b, run, ids); err != nil {
				if err == errStopped {
					err = nil
				}
				return err
			}
			continue
		}
		s := g.step()
		dead, err := run.step(t, tr, s, g, ids, topics, o.Metrics, o.Views > 0 && (n%o.Views == o.Views-1 || n == o.Steps-1))
		if err != nil {
			return err
		}
		if dead {
			return nil
		}
	}
	return nil
}

// hung tells that a call did not come to an end, and still runs.
var hung bool

var errStopped = errors.New("the engine did not open again")

// restart closes the engine and opens one on the same data.
func restart(o *SeqOptions, t *Tracer, tr int, g *Gen, b Backend, run *Runner, ids []string) error {
	ev := J{"t": "op", "tr": tr, "lvl": "engine", "now": jt(&g.now), "op": J{"o": "Restart"}, "code": 200, "ret": retNone, "errok": true}
	if err := b.Restart(g.retention); err != nil {
		ev["code"] = 500
		ev["note"] = err.Error()
		ev["put"], ev["del"] = J{}, []string{}
		t.emit(ev)
		return errStopped
	}
	run.rebind()
	cur, err := observeAll(b, ids)
	if err != nil {
		return err
	}
	ev["put"], ev["del"] = t.delta(cur)
	ev["views"] = views(t.k, b.Engine(), ids, append([]string{"nowhere"}, g.topics...))
	t.emit(ev)
	g.observe(cur)
	return nil
}

// Runner executes steps at one level and records them.
type Runner struct {
	level string
	b     Backend
	pc    *config.PaginationConfig
	sys   Sys
	srv   *httptest.Server
	r     *rand.Rand
	h     *HTTPSys
	last  map[string]float64 // the counters after the last step
	ctx   context.Context    // of the next request
	after func()             // called once after the next request
}

func newRunner(level string, b Backend, pc *config.PaginationConfig, r *rand.Rand) *Runner {
	x := &Runner{level: level, b: b, pc: pc, r: r}
	x.rebind()
	return x
}

// clientHeaders are common headers of a client's requests.
var clientHeaders = map[string]string{"Authorization": "Bearer a+b/c=", "x-verif": "some thing", "User-Agent": "verif/1.0"}

func (x *Runner) rebind() {
	x.close()
	switch x.level {
	case "engine":
		x.sys = &EngineSys{x.b.Engine()}
	case "http":
		x.h = &HTTPSys{h: newHandler(x.b.Engine(), x.pc), g: x.b.Engine()}
		x.sys = x.h
	case "client":
		// As behind a gateway that lets requests with certain headers pass only.
		h := newHandler(x.b.Engine(), x.pc)
		x.srv = httptest.NewServer(http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) {
			for k, v := range clientHeaders {
				if r.Header.Get(k) != v {
					w.Header().Set("Content-Type", "application/json")
					w.WriteHeader(http.StatusUnauthorized)
					io.WriteString(w, `{"error":{"code":401,"message":"unauthorized"}}`)
					return
				}
			}
			h.ServeHTTP(w, r)
		}))
		c, err := ratus.NewClient(&ratus.ClientOptions{Origin: x.srv.URL, Timeout: time.Minute, Headers: clientHeaders})
		if err != nil {
			panic(err)
		}
		x.sys = &ClientSys{c, x.b.Engine()}
	}
}

func (x *Runner) close() {
	if x.srv != nil {
		x.srv.Close()
		x.srv = nil
	}
}

func (x *Runner) step(t *Tracer, tr int, s *Step, g *Gen, ids, topics []string, met, vw bool) (dead bool, err error) {
	ctx := x.ctx
	if ctx == nil {
		ctx = context.Background()
	}
	ev := J{"t": "op", "tr": tr, "lvl": x.level, "now": jt(&g.now)}
	if x.level == "engine" || s.O == "Chore" || s.O == "Expire" || s.O == "Pages" {
		ev["lvl"] = "engine"
		ev["op"] = t.k.engineOp(s, g.retention)
	} else {
		ev["op"] = t.k.rawOp(s, g.retention)
	}
	var before map[string]float64
	if met {
		if before = x.last; before == nil {
			before = counters(t.k)
		}
		x.last = nil
		metrics.DelayGauge.Reset()
		metrics.ExecutionGauge.Reset()
	}
	if x.h != nil {
		x.h.prefix = []string{"", "/v1"}[x.r.Intn(2)]
		x.h.zone = []*time.Location{time.UTC, time.FixedZone("x", 8*3600), time.FixedZone("y", -5*3600-1800)}[x.r.Intn(3)]
	}
	var r Result
	if s.O == "Expire" {
		x.b.Expire()
		r = Result{Code: 200, Ret: retNone, ErrOK: true}
	} else {
		r = guarded(x.sys, ctx, t.k, s)
	}
	if x.after != nil {
		x.after()
		x.after = nil
	}
	ev["code"], ev["ret"], ev["errok"] = r.Code, r.Ret, r.ErrOK
	if r.Note != "" {
		ev["note"] = r.Note
	}
	if r.Dead {
		ev["put"], ev["del"] = J{}, []string{}
		t.emit(ev)
		hung = hung || r.Code == codeHang
		return true, nil
	}
	if met && ev["lvl"] != "engine" && s.BadUTF == "" {
		x.last = counters(t.k)
		ev["met"] = diffCounters(before, x.last)
		ev["gauges"] = gauges(t.k)
		e := endpoints[s.O]
		p := "/v1"
		if x.h != nil {
			p = x.h.prefix
		}
		ev["http"] = J{"method": e.method, "endpoint": p + e.route}
	}
	cur, err := observeAll(x.b, ids)
	if err != nil {
		return false, err
	}
	ev["put"], ev["del"] = t.delta(cur)
	if vw {
		ev["views"] = views(t.k, x.b.Engine(), ids, topics)
	}
	t.emit(ev)
	g.observe(cur)
	return false, nil
}
