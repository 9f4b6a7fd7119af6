package main

import (
	"bytes"
	"fmt"
	"runtime"
	"strconv"
	"sync"
	"time"

	hashi "github.com/hashicorp/go-memdb"

	"github.com/hyperonym/ratus/internal/zzverif/vsync"
	"github.com/hyperonym/ratus/internal/zzverif/vtime"
)

// The scheduler runs the threads of a program one at a time. A thread stops at
// every point (start of a transaction, reading of the clock, publication of a
// transaction, ...) until the scheduler lets it go on.

type thread struct {
	id     int
	resume chan struct{}
	ready  bool // stopped at a point
	done   bool
	kind   string
	key    any
}

type arrival struct {
	t    *thread
	kind string
	key  any
}

type lockState struct {
	w *thread
	r map[*thread]int
}

type Sched struct {
	mux     sync.RWMutex
	byGoid  map[int64]*thread
	threads []*thread
	arrive  chan arrival
	locks   map[any]*lockState
	running map[*thread]bool
	ticks   int
	onTick  func()
	fine    bool // stop at every access of a transaction, too
	events  int64
	docs    bool // stop at every document, too
	// how long to wait for a thread to stop before taking it for blocked
	patience time.Duration
}

func goid() int64 {
	var b [64]byte
	s := b[:runtime.Stack(b[:], false)]
	s = s[len("goroutine "):]
	n, _ := strconv.ParseInt(string(s[:bytes.IndexByte(s, ' ')]), 10, 64)
	return n
}

// install directs all points of the code under test to the scheduler.
func (s *Sched) install() {
	hashi.VerifHook = s.point
	vsync.Hook = s.point
	vtime.Hook = func() { s.point("now", nil) }
}

func uninstall() {
	hashi.VerifHook = nil
	vsync.Hook = nil
	vtime.Hook = nil
}

func (s *Sched) point(kind string, key any) {
	if kind == "op" && !s.fine {
		return
	}
	s.mux.RLock()
	t := s.byGoid[goid()]
	s.mux.RUnlock()
	if t == nil {
		return
	}
	s.arrive <- arrival{t, kind, key}
	<-t.resume
}

// serving stops on behalf of a thread whose request a server works on.
func (s *Sched) serving(i int, kind string) {
	if kind == "doc" && !s.docs {
		return
	}
	t := s.threads[i]
	s.mux.RLock()
	done := t.done
	s.mux.RUnlock()
	if done {
		return
	}
	s.arrive <- arrival{t, kind, nil}
	<-t.resume
}

// Options at a decision: thread numbers, -1 for the clock.
type decision struct {
	options []int
	chosen  int // index into options
	cost    int // preemptions before
	current int // index of the thread that ran before, if it can go on; else -1
}

func (d *decision) price(i int) int {
	if d.options[i] == -1 {
		return 1
	}
	if d.current < 0 || i == d.current {
		return 0
	}
	return 1
}

// maxSteps is more than any calls take that come to an end.
const maxSteps = 20000

const stuckTimeout = 20 * time.Millisecond

// Run executes the bodies; choose picks one of the options of a decision.
// It returns the decisions and whether all bodies have come to their end.
func (s *Sched) Run(bodies []func(point func(string)), choose func(d *decision, n int) int) ([]decision, bool) {
	s.byGoid = map[int64]*thread{}
	s.locks = map[any]*lockState{}
	s.running = map[*thread]bool{}
	s.arrive = make(chan arrival, len(bodies)*4)
	for i, b := range bodies {
		t := &thread{id: i, resume: make(chan struct{}, 1)}
		s.threads = append(s.threads, t)
		started := make(chan struct{})
		go func() {
			s.mux.Lock()
			s.byGoid[goid()] = t
			s.mux.Unlock()
			close(started)
			s.arrive <- arrival{t, "start", nil}
			<-t.resume
			b(func(kind string) { s.point(kind, nil) })
			s.arrive <- arrival{t, "done", nil}
		}()
		<-started
		s.running[t] = true
	}
	var last *thread
	var ds []decision
	cost := 0
	for n := 0; ; n++ {
		if n > maxSteps {
			return ds, false
		}
		if !s.settle() {
			// somebody is blocked in a way the scheduler does not know: go on with the others
		}
		var opts []int
		cur := -1
		alive := 0
		for _, t := range s.threads {
			if !t.done {
				alive++
			}
			if t.ready && s.free(t) {
				if t == last {
					cur = len(opts)
				}
				opts = append(opts, t.id)
			}
		}
		if alive == 0 {
			return ds, true
		}
		if len(opts) == 0 {
			if len(s.running) > 0 && s.wait(3*time.Second) {
				continue
			}
			return ds, false
		}
		if s.ticks > 0 {
			opts = append(opts, -1)
		}
		d := decision{options: opts, cost: cost, current: cur}
		if len(opts) > 1 {
			d.chosen = choose(&d, len(ds))
			cost += d.price(d.chosen)
			ds = append(ds, d)
		}
		if opts[d.chosen] == -1 {
			s.ticks--
			s.onTick()
			continue
		}
		t := s.threads[opts[d.chosen]]
		s.take(t)
		t.ready = false
		s.running[t] = true
		last = t
		t.resume <- struct{}{}
	}
}

func (s *Sched) lock(k any) *lockState {
	l := s.locks[k]
	if l == nil {
		l = &lockState{r: map[*thread]int{}}
		s.locks[k] = l
	}
	return l
}

func (s *Sched) free(t *thread) bool {
	switch t.kind {
	case "lock":
		l := s.lock(t.key)
		return l.w == nil && len(l.r) == 0
	case "rlock":
		return s.lock(t.key).w == nil
	}
	return true
}

func (s *Sched) take(t *thread) {
	switch t.kind {
	case "lock":
		s.lock(t.key).w = t
	case "rlock":
		s.lock(t.key).r[t]++
	}
}

func (s *Sched) handle(a arrival) {
	delete(s.running, a.t)
	switch a.kind {
	case "unlock":
		s.lock(a.key).w = nil
	case "runlock":
		l := s.lock(a.key)
		if l.r[a.t]--; l.r[a.t] <= 0 {
			delete(l.r, a.t)
		}
	case "done":
		s.mux.Lock()
		a.t.done = true
		s.mux.Unlock()
		return
	}
	a.t.ready, a.t.kind, a.t.key = true, a.kind, a.key
}

// settle waits until the threads that were let go have stopped again.
func (s *Sched) settle() bool {
	for len(s.running) > 0 {
		if !s.wait(max(stuckTimeout, s.patience)) {
			return false
		}
	}
	return true
}

func (s *Sched) wait(d time.Duration) bool {
	select {
	case a := <-s.arrive:
		s.handle(a)
		return true
	default:
	}
	x := time.NewTimer(d)
	defer x.Stop()
	select {
	case a := <-s.arrive:
		s.handle(a)
		return true
	case <-x.C:
		return false
	}
}

// explore enumerates schedules depth first with at most bound preemptions; run
// executes one schedule. It stops after max runs.
func explore(bound, max int, run func(choose func(d *decision, n int) int) []decision) (runs int, complete bool) {
	var prefix []int
	for runs < max {
		ds := run(func(d *decision, n int) int {
			if n < len(prefix) {
				if prefix[n] < len(d.options) {
					return prefix[n]
				}
				return 0
			}
			if d.current >= 0 {
				return d.current
			}
			return 0
		})
		runs++
		// the deepest decision that has another option within the bound
		found := false
		for i := len(ds) - 1; i >= 0 && !found; i-- {
			d := &ds[i]
			// options are tried in the order: default first, then the others
			def := 0
			if d.current >= 0 {
				def = d.current
			}
			next := func(c int) int {
				if c == def {
					c = -1
				}
				for c++; c < len(d.options); c++ {
					if c != def && d.cost+d.price(c) <= bound {
						return c
					}
				}
				return -1
			}
			if c := next(d.chosen); c >= 0 {
				prefix = prefix[:0]
				for _, e := range ds[:i] {
					prefix = append(prefix, e.chosen)
				}
				prefix = append(prefix, c)
				found = true
			}
		}
		if !found {
			return runs, true
		}
	}
	return runs, false
}

func describe(ds []decision) string {
	var b bytes.Buffer
	for _, d := range ds {
		fmt.Fprintf(&b, "%d ", d.options[d.chosen])
	}
	return b.String()
}
