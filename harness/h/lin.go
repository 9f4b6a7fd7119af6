package main

import (
	"bufio"
	"context"
	"crypto/sha256"
	"encoding/json"
	"fmt"
	"math/rand"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"github.com/hyperonym/ratus"
	"github.com/hyperonym/ratus/internal/config"
	"github.com/hyperonym/ratus/internal/engine/memdb"
	"github.com/hyperonym/ratus/internal/zzverif/fakemongo"
	"github.com/hyperonym/ratus/internal/zzverif/vtime"
)

// LinOptions configures the recording of concurrent histories.
type LinOptions struct {
	Engine  string
	Mode    string // pairs, random, stress
	Level   string // engine, http, client
	Seed    int64
	Shard   int
	Shards  int
	Bound   int // preemptions
	Runs    int // schedules per program at most
	Count   int // programs (random, stress)
	Fine    bool
	Snap    bool
	Out     string
	Scratch string
	Focus   string // only programs with one of these operations (comma separated)
}

func (o *LinOptions) focused(p *Program) bool {
	if o.Focus == "" {
		return true
	}
	for _, t := range p.threads {
		for _, s := range t {
			for _, f := range strings.Split(o.Focus, ",") {
				if s.O == f {
					return true
				}
			}
		}
	}
	return false
}

// The instant at which all programs start.
var linBase = time.Date(2024, 2, 28, 23, 59, 50, 0, time.UTC)

const (
	linRetention = time.Minute
	linTick      = 30 * time.Second
	lastNonce    = "$last" // the nonce of the claim made before by the same thread
)

func at(d time.Duration) *time.Time { t := linBase.Add(d); return &t }

// Initial stores.
func linStores() map[string][]TaskSpec {
	s := time.Second
	pend := func(id, topic string, d time.Duration) TaskSpec {
		return TaskSpec{ID: id, Topic: topic, Producer: "p", Produced: at(-time.Hour), Scheduled: at(d), Payload: "v-" + id}
	}
	act := func(id, topic, n string, d time.Duration) TaskSpec {
		return TaskSpec{ID: id, Topic: topic, State: 1, Nonce: n, Producer: "p", Consumer: "old", Produced: at(-time.Hour),
			Scheduled: at(-time.Hour), Consumed: at(-40 * s), Deadline: at(d), Payload: "v-" + id}
	}
	comp := func(id, topic string, d time.Duration) TaskSpec {
		return TaskSpec{ID: id, Topic: topic, State: 2, Producer: "p", Consumer: "old", Produced: at(-time.Hour),
			Scheduled: at(-time.Hour), Consumed: at(d), Deadline: at(-time.Hour)}
	}
	return map[string][]TaskSpec{
		"due":    {pend("a", "x", -10*s), pend("b", "x", -20*s)},
		"one":    {pend("a", "x", -10*s)},
		"mixed":  {act("a", "x", "n1", -5*s), pend("b", "x", -20*s), comp("c", "x", -2*time.Minute)},
		"active": {act("a", "x", "n1", 20*s), act("b", "y", "n2", -5*s), pend("c", "x", 10*s)},
		"late":   {act("a", "x", "n1", -5*s), comp("b", "x", -2*time.Minute), comp("c", "y", -40*s)},
		"none":   {},
	}
}

func linOps() []*Step {
	s := time.Second
	given := func(id, topic, payload string, d time.Duration) TaskSpec {
		return TaskSpec{ID: id, Topic: topic, Producer: "q", Produced: at(0), Scheduled: at(d), Payload: payload}
	}
	claim := func(o, id string) *Step {
		return &Step{O: o, PID: id, PTopic: "x", BodyK: "ok", P: PromiseSpec{ID: id, Consumer: "d", Deadline: at(25 * s)}}
	}
	commit := func(id, nonce, topic string, state int, sch *time.Time, payload any) *Step {
		return &Step{O: "Commit", PID: id, PTopic: "x", BodyK: "ok", C: CommitSpec{Nonce: nonce, Topic: topic, State: state, Scheduled: sch, Payload: payload}}
	}
	lim := func(n int) Num { return Num{K: "ok", S: fmt.Sprint(n), N: n} }
	one := func(o string, t TaskSpec) *Step {
		return &Step{O: o, PID: t.ID, PTopic: t.Topic, BodyK: "ok", Tasks: []TaskSpec{t}}
	}
	many := func(o string, ts ...TaskSpec) *Step { return &Step{O: o, PTopic: "x", BodyK: "ok", Tasks: ts} }
	full := given("a", "y", "over", -s)
	full.State, full.Nonce, full.Consumer, full.Consumed, full.Deadline = 1, "g", "h", at(-s), at(5*s)
	return []*Step{
		claim("Poll", ""),
		{O: "Poll", PTopic: "y", BodyK: "ok", P: PromiseSpec{Consumer: "e", Deadline: at(5 * s)}},
		claim("InsertPromise", "a"),
		claim("InsertPromise", "b"),
		claim("UpsertPromise", "a"),
		commit("a", "n1", "", 2, nil, nil),
		commit("a", "", "y", 0, at(-s), "w"),
		commit("b", "n2", "x", 0, nil, nil),
		commit("a", lastNonce, "", 2, nil, "done"),
		commit("b", lastNonce, "", 3, nil, nil),
		{O: "Chore"},
		{O: "DeletePromise", PID: "a", PTopic: "x"},
		{O: "DeletePromises", PTopic: "x"},
		one("InsertTask", given("a", "x", "new", -30*s)),
		one("InsertTask", given("f", "x", "new", -30*s)),
		one("UpsertTask", full),
		one("UpsertTask", given("f", "x", "up", -s)),
		many("InsertTasks", given("f", "x", "i1", -s), given("a", "x", "i2", -30*s), given("g", "y", "i3", s)),
		many("UpsertTasks", given("b", "y", "u1", -s), given("f", "x", "u2", -30*s), given("a", "x", "u3", -40*s)),
		{O: "DeleteTask", PID: "a", PTopic: "x"},
		{O: "DeleteTasks", PTopic: "x"},
		{O: "DeleteTopic", PTopic: "y"},
		{O: "DeleteTopics"},
		{O: "GetTask", PID: "a", PTopic: "x"},
		{O: "GetPromise", PID: "a", PTopic: "x"},
		{O: "GetTopic", PTopic: "x"},
		{O: "ListTasks", PTopic: "x", Limit: lim(10), Offset: Num{K: "ok", S: "0"}},
		{O: "ListPromises", PTopic: "x", Limit: lim(10), Offset: Num{K: "ok", S: "0"}},
		{O: "ListTopics", Limit: lim(10), Offset: Num{K: "ok", S: "0"}},
	}
}

var linIds = []string{"a", "b", "c", "f", "g", "none"}

// Program is what the threads do.
type Program struct {
	name    string
	store   string
	threads [][]*Step
	ticks   int
	init    []TaskSpec // instead of the store of that name
	ids     []string   // instead of linIds
	faults  []fault    // commands that fail (MongoDB)
}

// fault makes a command of a thread fail.
type fault struct {
	thread, n int
	code      int
	late      bool // the command is executed nevertheless
}

// rawTok keeps names as they are.
func rawTok() *Tok { return &Tok{raw: true} }

type linCall struct {
	s      *Step
	th     int
	c, r   int64
	t0, t1 int
	res    Result
	faulty bool
}

// History is one recorded run.
type History struct {
	calls []*linCall
	clk   []time.Time
	init  map[string]*ratus.Task
	final map[string]*ratus.Task
	done  bool
	image map[string]*ratus.Task // the snapshot left behind
	mode  string
	di    bool // MongoDB: upserts may delete and insert
}

func (h *History) encode(k *Tok, level, mode, name string, retention time.Duration) []byte {
	nonces := map[string]string{}
	order := []string{}
	note := func(n string) {
		if len(n) == ratus.NonceLength && nonces[n] == "" {
			nonces[n] = fmt.Sprintf("N%d", len(nonces)+1)
			order = append(order, n)
		}
	}
	ops := []any{}
	for _, c := range h.calls {
		if t, ok := c.res.Ret["task"].(J); ok {
			note(t["nonce"].(string))
		}
		if m, ok := c.res.Ret["store"].(J); ok {
			for _, i := range linIds {
				if t, ok := m[k.id(i)].(J); ok {
					note(t["nonce"].(string))
				}
			}
		}
		o := J{"c": c.c, "r": c.r, "t0": c.t0, "t1": c.t1, "code": c.res.Code, "ret": c.res.Ret, "errok": c.res.ErrOK}
		if c.faulty {
			o["faulty"] = true
		}
		if c.res.Ret == nil {
			o["ret"], o["code"] = retNone, 0
		}
		if level == "engine" || c.s.O == "Chore" || c.s.O == "Expire" || c.s.O == "Image" {
			o["lvl"], o["op"] = "engine", k.engineOp(c.s, retention)
		} else {
			o["lvl"], o["op"] = level, k.rawOp(c.s, retention)
		}
		if c.s.O == "Image" {
			o["op"] = J{"o": "Image"}
		}
		ops = append(ops, o)
	}
	clk := []any{}
	for i := range h.clk {
		clk = append(clk, jt(&h.clk[i]))
	}
	store := func(m map[string]*ratus.Task) J {
		j := J{}
		for i, t := range m {
			if t != nil {
				j[k.id(i)] = k.task(t)
			}
		}
		return j
	}
	ids := make([]string, 0)
	for i := range h.final {
		ids = append(ids, i)
	}
	sort.Strings(ids)
	for _, i := range ids {
		note(h.final[i].Nonce)
	}
	names := []any{}
	for _, n := range order {
		names = append(names, n)
	}
	b, err := json.Marshal(J{"t": "hist", "mode": mode, "name": name, "cfg": J{"maxlimit": 100, "maxoffset": 10000},
		"init": store(h.init), "final": store(h.final), "done": h.done, "di": h.di, "nonces": names, "clk": clk, "ops": ops})
	if err != nil {
		panic(err)
	}
	for _, n := range order {
		b = []byte(strings.ReplaceAll(string(b), n, nonces[n]))
	}
	return b
}

// Recorder runs programs and writes their distinct histories.
type Recorder struct {
	stuck int // runs that did not come to an end
	o     *LinOptions
	w     *bufio.Writer
	seen  map[[32]byte]bool
	runs  int
	n     int
	dir   string
}

func (x *Recorder) put(h *History, name string) {
	mode := h.mode
	if mode == "" {
		mode = "mem"
	}
	b := h.encode(rawTok(), x.o.Level, mode, name, linRetention)
	k := sha256.Sum256(b[strings.Index(string(b), `"ops"`):])
	x.runs++
	if x.seen[k] {
		return
	}
	x.seen[k] = true
	x.w.Write(b)
	x.w.WriteByte('\n')
	x.n++
}

func (x *Recorder) backend() (Backend, error) {
	if strings.HasPrefix(x.o.Engine, "mongo") {
		b, err := newMongoBackend(x.o.Engine, linRetention, rand.New(rand.NewSource(1)))
		if mb, ok := b.(*mongoBackend); ok {
			mb.db.Batch = map[bool]int{true: 2}[x.o.Mode == "fault"]
		}
		return b, err
	}
	c := &memdb.Config{RetentionPeriod: linRetention}
	if x.o.Snap {
		c.SnapshotPath = filepath.Join(x.dir, "snap")
		os.Remove(c.SnapshotPath)
	}
	return newMem(c)
}

func fill(b Backend, ts []TaskSpec) error {
	for i := range ts {
		if _, err := b.Engine().UpsertTask(context.Background(), ts[i].task()); err != nil {
			return fmt.Errorf("cannot fill the store: %w", err)
		}
	}
	return nil
}

// syss returns what each of n threads talks to: instances of its own where
// several can work on one database.
func (x *Recorder) syss(b Backend, n int) ([]Sys, func(), error) {
	open := func(b Backend) *Runner {
		return newRunner(x.o.Level, b, &config.PaginationConfig{MaxLimit: 100, MaxOffset: 10000}, rand.New(rand.NewSource(1)))
	}
	l := make([]Sys, n)
	var rs []*Runner
	mb, _ := b.(*mongoBackend)
	for i := range l {
		switch {
		case mb != nil:
			if _, err := mb.inst(i); err != nil {
				return nil, nil, err
			}
			rs = append(rs, open(&mongoView{mb, i}))
		case i == 0:
			rs = append(rs, open(b))
		}
		l[i] = rs[len(rs)-1].sys
	}
	return l, func() {
		for _, r := range rs {
			r.close()
		}
	}, nil
}

// resolve fills in the nonce of the last claim of the thread.
func resolve(s *Step, last string) *Step {
	if s.O == "Commit" && s.C.Nonce == lastNonce {
		c := *s
		c.C.Nonce = last
		if last == "" {
			c.C.Nonce = "n1"
		}
		return &c
	}
	return s
}

func (x *Recorder) image(h *History) {
	p := filepath.Join(x.dir, "snap")
	if _, err := os.Stat(p); err != nil {
		return
	}
	// the snapshot must show the store at a moment during the chores
	c := &linCall{s: &Step{O: "Image"}, c: 1 << 30, th: -1}
	for _, y := range h.calls {
		if y.s.O == "Chore" {
			c.c = min(c.c, y.c)
			c.r = max(c.r, y.r)
		}
	}
	b, err := newMem(&memdb.Config{RetentionPeriod: linRetention, SnapshotPath: p})
	if err != nil {
		c.res = Result{Code: 500, Ret: J{"k": "error", "note": err.Error()}}
	} else {
		m, _ := observeAll(b, linIds)
		j := J{}
		k := rawTok()
		for i, t := range m {
			j[k.id(i)] = k.task(t)
		}
		c.res = Result{Code: 200, Ret: J{"k": "store", "store": j}}
	}
	h.calls = append(h.calls, c)
}

// once runs a program under one schedule.
func (x *Recorder) once(p *Program, choose func(d *decision, n int) int) (*History, []decision, error) {
	vtime.Set(linBase)
	b, err := x.backend()
	if err != nil {
		return nil, nil, err
	}
	defer b.Close()
	ids := linIds
	if p.ids != nil {
		ids = p.ids
	}
	init := linStores()[p.store]
	if p.ids != nil {
		init = p.init
	}
	if err := fill(b, init); err != nil {
		return nil, nil, err
	}
	h := &History{clk: []time.Time{linBase}, mode: backendMode(b)}
	if h.init, err = observeAll(b, ids); err != nil {
		return nil, nil, err
	}
	syss, closeSys, err := x.syss(b, len(p.threads))
	if err != nil {
		return nil, nil, err
	}
	defer closeSys()
	var clock atomic.Int64
	var mux sync.Mutex
	s := &Sched{ticks: p.ticks, fine: x.o.Fine}
	s.onTick = func() {
		mux.Lock()
		defer mux.Unlock()
		vtime.Advance(linTick)
		h.clk = append(h.clk, vtime.Peek())
	}
	var bodies []func(func(string))
	current := make([]atomic.Pointer[linCall], len(p.threads))
	for i, ops := range p.threads {
		calls := make([]*linCall, len(ops))
		for j := range ops {
			calls[j] = &linCall{th: i}
			h.calls = append(h.calls, calls[j])
		}
		bodies = append(bodies, func(point func(string)) {
			k := rawTok()
			last := ""
			for j, st := range ops {
				if j > 0 {
					point("call")
				}
				st = resolve(st, last)
				c := calls[j]
				c.s = st
				current[i].Store(c)
				mux.Lock()
				c.t0 = len(h.clk)
				mux.Unlock()
				c.c = clock.Add(1)
				r := x.call(syss[i], k, st)
				mux.Lock()
				c.t1 = len(h.clk)
				c.res = r
				c.r = clock.Add(1)
				mux.Unlock()
				if t, ok := r.Ret["task"].(J); ok {
					last = t["nonce"].(string)
				}
			}
		})
	}
	s.install()
	mb, _ := b.(*mongoBackend)
	if mb != nil {
		h.di = mb.kind.deletesAndInserts()
		s.patience = time.Second
		s.docs = len(ids) < 50 || x.o.Fine
		for i := range p.threads {
			n := 0
			mb.hook(i, func(kind, name string) fakemongo.Action {
				s.serving(i, kind)
				if kind == "op" {
					n++
					for _, f := range p.faults {
						if f.thread == i && f.n == n {
							if c := current[i].Load(); c != nil {
								c.faulty, h.di = true, true
							}
							return fakemongo.Action{Fail: f.code, Name: "Injected", Late: f.late}
						}
					}
				}
				return fakemongo.Action{}
			})
		}
	}
	ds, done := s.Run(bodies, choose)
	uninstall()
	if mb != nil {
		for i := range p.threads {
			mb.hook(i, nil)
		}
		mb.broken = !done
	}
	mux.Lock()
	defer mux.Unlock()
	h.done = done
	// calls that were never made are no part of the history
	var made []*linCall
	for _, c := range h.calls {
		if c.c > 0 {
			if c.r == 0 {
				c.t1 = len(h.clk)
			}
			made = append(made, c)
		}
	}
	h.calls = made
	if done {
		if h.final, err = observeAll(b, ids); err != nil {
			return nil, nil, err
		}
		if x.o.Snap {
			x.image(h)
		}
	}
	return h, ds, nil
}

// call executes a step, turning panics into results.
func (x *Recorder) call(sys Sys, k *Tok, s *Step) (r Result) {
	defer func() {
		if p := recover(); p != nil {
			r = Result{Code: codePanic, Ret: retNone, Note: fmt.Sprint(p)}
		}
	}()
	return sys.Do(context.Background(), k, s)
}

func (x *Recorder) program(p *Program) error {
	var ferr error
	h := 0
	run := func(choose func(d *decision, n int) int) []decision {
		if ferr != nil || x.stuck > 0 {
			return nil
		}
		hist, ds, err := x.once(p, choose)
		if err != nil {
			ferr = err
			return nil
		}
		if !hist.done {
			x.stuck++
		}
		h++
		x.put(hist, p.name)
		return ds
	}
	max := x.o.Runs
	if len(p.ids) > 300 {
		max = min(max, 12)
	}
	_, complete := explore(x.o.Bound, max, run)
	if ferr == nil && !complete {
		// sample the rest
		r := rand.New(rand.NewSource(x.o.Seed))
		for i := 0; i < max/2; i++ {
			run(func(d *decision, n int) int {
				if d.current >= 0 && r.Intn(4) > 0 {
					return d.current
				}
				return r.Intn(len(d.options))
			})
		}
	}
	return ferr
}

func opName(s *Step) string {
	n := s.O
	if s.PID != "" {
		n += "." + s.PID
	} else if s.PTopic != "" {
		n += "." + s.PTopic
	}
	if s.O == "Commit" && s.C.Nonce != "" {
		n += "." + s.C.Nonce
	}
	return n
}

func (p *Program) setName() {
	var l []string
	for _, t := range p.threads {
		var m []string
		for _, s := range t {
			m = append(m, opName(s))
		}
		l = append(l, strings.Join(m, ";"))
	}
	p.name = p.store + ": " + strings.Join(l, " || ")
}

func isRead(s *Step) bool { return strings.HasPrefix(s.O, "Get") || strings.HasPrefix(s.O, "List") }

func (x *Recorder) pairs() error {
	ops := linOps()
	var stores []string
	for n := range linStores() {
		stores = append(stores, n)
	}
	sort.Strings(stores)
	n := 0
	for i := range ops {
		for j := i; j < len(ops); j++ {
			for _, st := range stores {
				if isRead(ops[i]) && isRead(ops[j]) || ops[i].C.Nonce == lastNonce || ops[j].C.Nonce == lastNonce {
					continue
				}
				p := &Program{store: st, threads: [][]*Step{{ops[i]}, {ops[j]}}}
				if !x.o.focused(p) || x.o.Snap && ops[i].O != "Chore" && ops[j].O != "Chore" {
					continue
				}
				n++
				if n%x.o.Shards != x.o.Shard {
					continue
				}
				// let the clock move where it matters
				if n/x.o.Shards%3 == 0 {
					p.ticks = 1
				}
				p.setName()
				if err := x.program(p); err != nil {
					return err
				}
			}
		}
	}
	return nil
}

// aba runs an operation against a thread that changes the same task several
// times, in ways that may look as if nothing happened.
func (x *Recorder) aba() error {
	s := time.Second
	claim := func(o, id string) *Step {
		return &Step{O: o, PID: id, PTopic: "x", BodyK: "ok", P: PromiseSpec{ID: id, Consumer: "d", Deadline: at(25 * s)}}
	}
	commit := func(nonce, topic string, state int, sch *time.Time, payload any) *Step {
		return &Step{O: "Commit", PID: "a", PTopic: "x", BodyK: "ok", C: CommitSpec{Nonce: nonce, Topic: topic, State: state, Scheduled: sch, Payload: payload}}
	}
	one := func(o, topic string, d time.Duration) *Step {
		return &Step{O: o, PID: "a", PTopic: topic, BodyK: "ok",
			Tasks: []TaskSpec{{ID: "a", Topic: topic, Producer: "q", Produced: at(0), Scheduled: at(d), Payload: "new"}}}
	}
	active := one("UpsertTask", "x", -s)
	active.Tasks[0].State, active.Tasks[0].Nonce, active.Tasks[0].Consumed, active.Tasks[0].Deadline = 1, "g", at(-s), at(5*s)
	first := []*Step{
		claim("Poll", ""), claim("InsertPromise", "a"), claim("UpsertPromise", "a"),
		commit("n1", "", 2, nil, "w"), commit("", "y", 0, at(-s), nil), commit("g", "", 2, nil, nil),
		one("InsertTask", "x", -s), one("UpsertTask", "y", -s), {O: "DeletePromise", PID: "a", PTopic: "x"}, {O: "DeleteTask", PID: "a", PTopic: "x"},
	}
	then := []*Step{
		claim("Poll", ""), claim("InsertPromise", "a"), claim("UpsertPromise", "a"),
		commit(lastNonce, "", 2, nil, nil), commit("", "", 2, nil, nil), commit("", "", 0, at(20*s), nil), commit("", "y", 0, nil, nil),
		commit("", "x", 0, at(-time.Hour), "z"), commit("", "", 3, nil, nil),
		{O: "DeletePromise", PID: "a", PTopic: "x"}, {O: "DeleteTask", PID: "a", PTopic: "x"}, {O: "Chore"},
		one("InsertTask", "x", -2*time.Hour), one("UpsertTask", "x", 20*s), one("UpsertTask", "y", -s), active,
	}
	r := rand.New(rand.NewSource(x.o.Seed*32452843 + int64(x.o.Shard)))
	seq := func(n int) (l []*Step) {
		for i := 0; i < n; i++ {
			l = append(l, then[r.Intn(len(then))])
		}
		return
	}
	n := 0
	run := func(st string, threads [][]*Step) error {
		p := &Program{store: st, threads: threads}
		if !x.o.focused(p) {
			return nil
		}
		if n++; n%x.o.Shards != x.o.Shard {
			return nil
		}
		p.setName()
		return x.program(p)
	}
	for _, st := range []string{"one", "active", "mixed"} {
		for _, f := range first {
			for _, g := range then {
				if err := run(st, [][]*Step{{f}, {g}}); err != nil {
					return err
				}
				for _, h := range then {
					if err := run(st, [][]*Step{{f}, {g, h}}); err != nil {
						return err
					}
				}
			}
		}
	}
	shards := x.o.Shards
	x.o.Shards, x.o.Shard = 1, 0
	defer func() { x.o.Shards = shards }()
	for i := 0; i < x.o.Count; i++ {
		st := []string{"one", "active", "mixed", "due"}[r.Intn(4)]
		if err := run(st, [][]*Step{{first[r.Intn(len(first))]}, seq(3 + r.Intn(2))}); err != nil {
			return err
		}
	}
	return nil
}

func randomProgram(r *rand.Rand, threads, per int) *Program {
	ops := linOps()
	var stores []string
	for n := range linStores() {
		stores = append(stores, n)
	}
	sort.Strings(stores)
	p := &Program{store: stores[r.Intn(len(stores))], ticks: r.Intn(3) / 2}
	for i := 0; i < threads; i++ {
		var l []*Step
		for j := 0; j < 1+r.Intn(per); j++ {
			s := ops[r.Intn(len(ops))]
			if isRead(s) && r.Intn(3) > 0 {
				s = ops[r.Intn(len(ops))]
			}
			l = append(l, s)
		}
		p.threads = append(p.threads, l)
	}
	p.setName()
	return p
}

func (x *Recorder) random() error {
	r := rand.New(rand.NewSource(x.o.Seed*7919 + int64(x.o.Shard)))
	for i := 0; i < x.o.Count; i++ {
		p := randomProgram(r, 2+r.Intn(2), 2)
		if !x.o.focused(p) {
			i--
			continue
		}
		if x.o.Snap {
			p.threads[0] = []*Step{{O: "Chore"}}
			p.setName()
		}
		if err := x.program(p); err != nil {
			return err
		}
	}
	return nil
}

// fault runs programs during which commands of the database fail.
func (x *Recorder) fault() error {
	r := rand.New(rand.NewSource(x.o.Seed*49979687 + int64(x.o.Shard)))
	for i := 0; i < x.o.Count; i++ {
		p := randomProgram(r, 1+r.Intn(2), 2)
		for len(p.faults) < 1+r.Intn(2) {
			f := fault{thread: r.Intn(len(p.threads)), n: 1 + r.Intn(4), code: 8000, late: r.Intn(3) == 0}
			if r.Intn(3) == 0 {
				f.code, f.late = []int{61, 31025}[r.Intn(2)], false
			}
			p.faults = append(p.faults, f)
		}
		p.name += fmt.Sprintf(" faults %v", p.faults)
		if !x.o.focused(p) {
			i--
			continue
		}
		if err := x.program(p); err != nil {
			return err
		}
	}
	return nil
}

// big runs operations on many tasks against readers and others.
func (x *Recorder) big() error {
	r := rand.New(rand.NewSource(x.o.Seed*15485863 + int64(x.o.Shard)))
	s := time.Second
	lim := func(n int) Num { return Num{K: "ok", S: fmt.Sprint(n), N: n} }
	for i := 0; i < x.o.Count; i++ {
		n := []int{20, 70, 70, 70, 130, 130, 130, 260, 260, 1100}[r.Intn(10)]
		if strings.HasPrefix(x.o.Engine, "mongo") {
			n = []int{3, 4, 6}[r.Intn(3)]
		}
		var ids []string
		var batch, act, done []TaskSpec
		for j := 0; j < n; j++ {
			id := fmt.Sprintf("k%03d", j)
			ids = append(ids, id)
			t := TaskSpec{ID: id, Topic: "x", Producer: "p", Produced: at(0), Scheduled: at(-time.Hour)}
			batch = append(batch, t)
			a := t
			a.State, a.Nonce, a.Consumed, a.Deadline = 1, fmt.Sprintf("n%d", j), at(-20*s), at(-5*s)
			act = append(act, a)
			c := t
			c.State, c.Consumed = 2, at(-2*time.Minute)
			done = append(done, c)
		}
		first, last := ids[0], ids[n-1]
		var p *Program
		var init []TaskSpec
		switch r.Intn(7) {
		case 0:
			p = &Program{store: "none", threads: [][]*Step{{{O: "InsertTasks", PTopic: "x", BodyK: "ok", Tasks: batch}}}}
		case 1:
			p = &Program{store: "active", threads: [][]*Step{{{O: "UpsertTasks", PTopic: "x", BodyK: "ok", Tasks: batch}}}}
			init = act
		case 2:
			p = &Program{store: "active", threads: [][]*Step{{{O: "DeletePromises", PTopic: "x"}}}}
			init = act
		case 3:
			p = &Program{store: "active", threads: [][]*Step{{{O: "Chore"}}}}
			init = act
		case 4:
			p = &Program{store: "done", threads: [][]*Step{{{O: "Chore"}}}}
			init = done
		case 5:
			p = &Program{store: "due", threads: [][]*Step{{{O: "DeleteTasks", PTopic: "x"}}}}
			init = batch
		case 6:
			p = &Program{store: "due", threads: [][]*Step{{{O: "DeleteTopics"}}}}
			init = batch
		}
		others := []*Step{
			{O: "GetTopic", PTopic: "x"},
			{O: "ListPromises", PTopic: "x", Limit: lim(n + 5), Offset: lim(0)},
			{O: "GetTask", PID: first, PTopic: "x"},
			{O: "GetTask", PID: last, PTopic: "x"},
			{O: "GetPromise", PID: last, PTopic: "x"},
			{O: "DeleteTask", PID: last, PTopic: "x"},
			{O: "InsertTask", PID: last, PTopic: "x", BodyK: "ok", Tasks: []TaskSpec{batch[n-1]}},
			{O: "InsertPromise", PID: last, PTopic: "x", BodyK: "ok", P: PromiseSpec{ID: last, Consumer: "d", Deadline: at(25 * s)}},
			{O: "Commit", PID: last, PTopic: "x", BodyK: "ok", C: CommitSpec{Nonce: fmt.Sprintf("n%d", n-1), State: 2}},
			{O: "Poll", PTopic: "x", BodyK: "ok", P: PromiseSpec{Consumer: "d", Deadline: at(25 * s)}},
		}
		var l []*Step
		for j := 0; j < 2; j++ {
			l = append(l, others[r.Intn(len(others))])
		}
		p.threads = append(p.threads, l)
		if !x.o.focused(p) {
			i--
			continue
		}
		p.setName()
		p.name = fmt.Sprintf("%d %s", n, p.name)
		p.init, p.ids = init, ids
		if err := x.program(p); err != nil {
			return err
		}
	}
	return nil
}

// stress lets threads run freely.
func (x *Recorder) stress() error {
	r := rand.New(rand.NewSource(x.o.Seed*104729 + int64(x.o.Shard)))
	for i := 0; i < x.o.Count; i++ {
		p := randomProgram(r, 3+r.Intn(3), 4)
		if strings.HasPrefix(x.o.Engine, "mongo") {
			p = randomProgram(r, 2+r.Intn(2), 3)
		}
		vtime.Set(linBase)
		b, err := x.backend()
		if err != nil {
			return err
		}
		if err := fill(b, linStores()[p.store]); err != nil {
			return err
		}
		h := &History{clk: []time.Time{linBase}, done: true, mode: backendMode(b)}
		if h.init, err = observeAll(b, linIds); err != nil {
			return err
		}
		syss, closeSys, err := x.syss(b, len(p.threads))
		if err != nil {
			return err
		}
		if mb, ok := b.(*mongoBackend); ok {
			h.di = mb.kind.deletesAndInserts()
		}
		var clock atomic.Int64
		var wg sync.WaitGroup
		start := make(chan struct{})
		var mux sync.Mutex
		for th, ops := range p.threads {
			wg.Add(1)
			go func() {
				defer wg.Done()
				k := rawTok()
				last := ""
				<-start
				for _, st := range ops {
					st = resolve(st, last)
					c := &linCall{s: st, th: th, t0: 1, t1: 1}
					c.c = clock.Add(1)
					c.res = x.call(syss[th], k, st)
					c.r = clock.Add(1)
					if t, ok := c.res.Ret["task"].(J); ok {
						last = t["nonce"].(string)
					}
					mux.Lock()
					h.calls = append(h.calls, c)
					mux.Unlock()
				}
			}()
		}
		close(start)
		ok := make(chan struct{})
		go func() { wg.Wait(); close(ok) }()
		select {
		case <-ok:
		case <-time.After(hangTimeout):
			mux.Lock()
			h.done = false
			x.put(h, p.name)
			return nil
		}
		sort.Slice(h.calls, func(i, j int) bool { return h.calls[i].c < h.calls[j].c })
		if h.final, err = observeAll(b, linIds); err != nil {
			return err
		}
		if x.o.Snap {
			x.image(h)
		}
		closeSys()
		b.Close()
		x.put(h, p.name)
	}
	return nil
}

func backendMode(b Backend) string {
	if _, ok := b.(*memBackend); ok {
		return "mem"
	}
	return "mongo"
}

func runLin(o *LinOptions) error {
	f, err := os.Create(o.Out)
	if err != nil {
		return err
	}
	defer f.Close()
	x := &Recorder{o: o, w: bufio.NewWriterSize(f, 1<<20), seen: map[[32]byte]bool{}}
	defer x.w.Flush()
	x.dir = filepath.Join(o.Scratch, fmt.Sprintf("lin-%d", os.Getpid()))
	if err := os.MkdirAll(x.dir, 0o755); err != nil {
		return err
	}
	defer os.RemoveAll(x.dir)
	t := time.Now()
	switch o.Mode {
	case "pairs":
		err = x.pairs()
	case "random":
		err = x.random()
	case "aba":
		err = x.aba()
	case "fault":
		err = x.fault()
	case "big":
		err = x.big()
	case "stress":
		err = x.stress()
	default:
		err = fmt.Errorf("unknown mode %s", o.Mode)
	}
	fmt.Printf("RUNS %d HISTORIES %d SECONDS %.1f\n", x.runs, x.n, time.Since(t).Seconds())
	return err
}
