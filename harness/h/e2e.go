package main

import (
	"bufio"
	"bytes"
	"context"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"math/rand"
	"net"
	"net/http"
	"net/http/httptrace"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"time"

	"github.com/hyperonym/ratus"
	"github.com/hyperonym/ratus/internal/engine/memdb"
	"github.com/hyperonym/ratus/internal/zzverif/vtime"
)

// The end-to-end driver runs the server program itself, on a clock that it
// shares with it, and stops it with signals.

type E2EOptions struct {
	Server  string // program
	Mode    string // stop, loop
	Seed    int64
	Count   int
	Out     string // histories or events
	Events  string // events of the stop scenarios
	Scratch string
	Long    time.Duration // longest request
}

// Proc is a running server.
type Proc struct {
	cmd  *exec.Cmd
	base string
	log  *logBuf
	exit chan struct{}
	code int
}

// logBuf collects what the server prints.
type logBuf struct {
	mux sync.Mutex
	b   bytes.Buffer
}

func (l *logBuf) Write(p []byte) (int, error) {
	l.mux.Lock()
	defer l.mux.Unlock()
	return l.b.Write(p)
}
func (l *logBuf) String() string { l.mux.Lock(); defer l.mux.Unlock(); return l.b.String() }

// realClock leaves the servers alone with the time.
var realClock bool

var errNoStart = errors.New("the server does not start")

const e2ePatience = 30 * time.Second

// host is an address that no other process uses.
var host = func() string {
	n := os.Getpid()
	return fmt.Sprintf("127.%d.%d.%d", 1+n>>14&0x7f, 1+n>>7&0x7f, 1+n&0x7f)
}()

func freePort() (int, error) {
	l, err := net.Listen("tcp", host+":0")
	if err != nil {
		return 0, err
	}
	defer l.Close()
	return l.Addr().(*net.TCPAddr).Port, nil
}

func launch(prog, dir string, port int, args ...string) (*Proc, error) {
	p := &Proc{log: &logBuf{}, exit: make(chan struct{}), base: fmt.Sprintf("http://%s:%d", host, port)}
	p.cmd = exec.Command(prog, append([]string{"--bind", host, "--port", fmt.Sprint(port)}, args...)...)
	p.cmd.Dir = dir
	p.cmd.Env = append(os.Environ(), "GIN_MODE=release")
	if !realClock {
		p.cmd.Env = append(p.cmd.Env, "ZZVERIF_CLOCK="+filepath.Join(dir, "clock"))
	}
	p.cmd.Stdout, p.cmd.Stderr = p.log, p.log
	p.cmd.SysProcAttr = &syscall.SysProcAttr{Pdeathsig: syscall.SIGKILL}
	if err := p.cmd.Start(); err != nil {
		return nil, err
	}
	go func() {
		p.cmd.Wait()
		p.code = p.cmd.ProcessState.ExitCode()
		close(p.exit)
	}()
	return p, nil
}

func startServer(prog, dir string, args ...string) (*Proc, error) {
	for try := 0; ; try++ {
		port, err := freePort()
		if err != nil {
			return nil, err
		}
		p, err := launch(prog, dir, port, args...)
		if err != nil {
			return nil, err
		}
		for end := time.Now().Add(e2ePatience); time.Now().Before(end); time.Sleep(2 * time.Millisecond) {
			select {
			case <-p.exit:
				end = time.Time{}
				continue
			default:
			}
			r, err := http.Get(p.base + "/v1/livez")
			if err == nil {
				r.Body.Close()
				if r.StatusCode == 200 {
					return p, nil
				}
			}
		}
		out := p.log.String()
		p.kill()
		if strings.Contains(out, "address already in use") && try < 5 {
			continue
		}
		return nil, fmt.Errorf("%w: %s", errNoStart, out)
	}
}

func (p *Proc) kill() {
	p.cmd.Process.Kill()
	<-p.exit
}

func (p *Proc) exited(d time.Duration) bool {
	select {
	case <-p.exit:
		return true
	case <-time.After(d):
		return false
	}
}

// remote is a client with connections of its own.
type remote struct {
	h *HTTPSys
	c *http.Client
}

func newRemote(base string) *remote {
	return &remote{&HTTPSys{base: base, prefix: "/v1"}, &http.Client{Transport: &http.Transport{ExpectContinueTimeout: e2ePatience}, Timeout: 4 * e2ePatience}}
}

func (y *remote) close() { y.c.CloseIdleConnections() }

// heldBody delivers the body of a request once it is allowed to.
type heldBody struct {
	r       io.Reader
	release <-chan struct{}
}

func (b *heldBody) Read(p []byte) (int, error) {
	<-b.release
	return b.r.Read(p)
}

// do sends a request. If begun is given, the body is held back until release,
// and begun is called when the server is found to wait for it.
func (y *remote) do(k *Tok, s *Step, begun func(), release <-chan struct{}) (Result, bool) {
	r := y.h.request(s)
	if begun != nil && r.Body != nil {
		b, _ := io.ReadAll(r.Body)
		r.Body = io.NopCloser(&heldBody{bytes.NewReader(b), release})
		r.ContentLength = int64(len(b))
		r.Header.Set("Expect", "100-continue")
		r = r.WithContext(httptrace.WithClientTrace(context.Background(), &httptrace.ClientTrace{Got100Continue: begun}))
	}
	w, err := y.c.Do(r)
	if err != nil {
		return Result{Note: err.Error()}, false
	}
	defer w.Body.Close()
	b, err := io.ReadAll(w.Body)
	if err != nil {
		return Result{Note: err.Error()}, false
	}
	return decodeResponse(k, s, w.StatusCode, b), true
}

func (y *remote) tasks(ids []string) (map[string]*ratus.Task, error) {
	m := map[string]*ratus.Task{}
	for _, id := range ids {
		r, err := y.c.Get(y.h.base + "/v1/topics/any/tasks/" + id)
		if err != nil {
			return nil, err
		}
		b, err := io.ReadAll(r.Body)
		r.Body.Close()
		if err != nil {
			return nil, err
		}
		if r.StatusCode == 404 {
			continue
		}
		var t ratus.Task
		if r.StatusCode != 200 || json.Unmarshal(b, &t) != nil {
			return nil, fmt.Errorf("GET %s: %d %s", id, r.StatusCode, b)
		}
		m[id] = &t
	}
	return m, nil
}

// snapshot loads what the server left behind.
func snapshotOf(path string, ids ...string) (map[string]*ratus.Task, error) {
	if _, err := os.Stat(path); err != nil {
		return nil, err
	}
	b, err := newMem(&memdb.Config{SnapshotPath: path, RetentionPeriod: linRetention})
	if err != nil {
		return nil, err
	}
	return observeAll(b, append(ids, linIds...))
}

type e2e struct {
	o   *E2EOptions
	w   *bufio.Writer
	ev  *bufio.Writer
	r   *rand.Rand
	n   int
	dir string
	mux sync.Mutex

	waits int // events that took long to establish
}

func (x *e2e) event(v J) {
	x.mux.Lock()
	defer x.mux.Unlock()
	if t := v["t"]; t == "running" || t == "patience" || t == "slow" || t == "unusable" {
		x.waits++
	}
	b, err := json.Marshal(v)
	if err != nil {
		panic(err)
	}
	x.ev.Write(b)
	x.ev.WriteByte('\n')
}

// httpProgram keeps to the operations that have an endpoint.
func httpProgram(r *rand.Rand) *Program {
	for {
		p := randomProgram(r, 2+r.Intn(3), 2)
		ok := true
		for _, t := range p.threads {
			for _, s := range t {
				ok = ok && s.O != "Chore"
			}
		}
		// Background jobs of the server must have nothing to do.
		if ok && (p.store == "due" || p.store == "one" || p.store == "none") {
			return p
		}
	}
}

// ended waits for the server to stop and notes how it did.
func (x *e2e) ended(s *Proc) bool {
	if !s.exited(e2ePatience) {
		x.event(J{"t": "running"})
		return false
	}
	x.event(J{"t": "exit", "panic": crashed(s.log.String()), "code": s.code, "note": tail(s.log.String())})
	return true
}

func (x *e2e) reset(scn string, n int, kv ...any) {
	e := J{"t": "reset", "scn": scn, "seed": x.o.Seed, "n": n, "interval": 0, "delay": 0}
	for i := 0; i < len(kv); i += 2 {
		e[kv[i].(string)] = kv[i+1]
	}
	x.event(e)
}

// stop: requests are in progress when the server is told to stop.
func (x *e2e) stop(i int) error {
	r := x.r
	dir := filepath.Join(x.dir, fmt.Sprint("stop", i))
	if err := os.MkdirAll(dir, 0o755); err != nil {
		return err
	}
	defer os.RemoveAll(dir)
	vtime.Share(filepath.Join(dir, "clock"))
	vtime.Set(linBase)
	snap := filepath.Join(dir, "snap")
	args := []string{"--memdb-snapshot-path", snap, "--memdb-retention-period", linRetention.String()}
	chores := r.Intn(2) == 0
	if chores {
		args = append(args, "--chore-interval", "3ms", "--memdb-snapshot-interval", []string{"0s", "1h"}[r.Intn(2)])
	} else {
		args = append(args, "--chore-interval", "0s")
	}
	p := httpProgram(r)
	x.reset("stop", i)
	s, err := startServer(x.o.Server, dir, args...)
	if err != nil {
		return err
	}
	defer func() { s.kill() }()
	first := newRemote(s.base)
	defer first.close()
	for _, t := range linStores()[p.store] {
		first.do(rawTok(), &Step{O: "UpsertTask", PID: t.ID, PTopic: t.Topic, BodyK: "ok", Tasks: []TaskSpec{t}}, nil, nil)
	}
	h := &History{clk: []time.Time{linBase}, done: true, mode: "mem"}
	if h.init, err = first.tasks(linIds); err != nil {
		return err
	}

	var clock atomic.Int64
	var mux sync.Mutex
	var wg sync.WaitGroup
	release := make(chan struct{})
	call := func(y *remote, th int, st *Step, held bool) Result {
		c := &linCall{s: st, th: th, t0: len(h.clk), t1: len(h.clk)}
		id := int64(0)
		var begun func()
		if held {
			// Not on a connection that was idle: net/http may close it although a
			// request has just begun, if it has already found it idle.
			y = newRemote(s.base)
			defer y.close()
			begun = func() {
				mux.Lock()
				defer mux.Unlock()
				id = clock.Add(1)
				x.event(J{"t": "begin", "r": id})
			}
		}
		c.c = clock.Add(1)
		res, ok := y.do(rawTok(), st, begun, release)
		mux.Lock()
		defer mux.Unlock()
		if ok {
			c.res = res
			c.r = clock.Add(1)
		}
		h.calls = append(h.calls, c)
		if id != 0 {
			x.event(J{"t": map[bool]string{true: "answered", false: "lost"}[ok], "r": id, "note": res.Note})
		}
		return res
	}
	for th, ops := range p.threads {
		wg.Add(1)
		y := newRemote(s.base)
		nhold := r.Intn(len(ops) + 1)
		pause := time.Duration(r.Intn(3000)) * time.Microsecond
		go func() {
			defer wg.Done()
			defer y.close()
			last := ""
			for j, st := range ops {
				time.Sleep(pause)
				st = resolve(st, last)
				held := j == nhold && !isRead(st) && !strings.HasPrefix(st.O, "Delete")
				res := call(y, th, st, held)
				if t, ok := res.Ret["task"].(J); ok {
					last = t["nonce"].(string)
				}
			}
		}()
	}
	time.Sleep(time.Duration(r.Intn(8000)) * time.Microsecond)
	sig := []syscall.Signal{syscall.SIGTERM, syscall.SIGINT}[r.Intn(2)]
	mux.Lock()
	x.event(J{"t": "signal"})
	mux.Unlock()
	s.cmd.Process.Signal(sig)
	time.Sleep(time.Duration(r.Intn(60)) * time.Millisecond)
	close(release)
	calls := make(chan struct{})
	go func() { wg.Wait(); close(calls) }()
	select {
	case <-calls:
	case <-time.After(3 * e2ePatience):
		// Requests that are neither answered nor refused.
		s.kill()
		<-calls
	}
	if !x.ended(s) {
		return nil
	}

	// What is on disk now is what the calls have led to.
	img, err := snapshotOf(snap)
	im := &linCall{s: &Step{O: "Image"}, th: -1}
	im.c = clock.Add(1)
	if err != nil {
		im.res = Result{Code: 500, Ret: retNone, Note: err.Error()}
	} else {
		j := J{}
		for id, t := range img {
			j[id] = rawTok().task(t)
		}
		im.res = Result{Code: 200, Ret: J{"k": "store", "store": j}}
	}
	im.r = clock.Add(1)
	h.calls = append(h.calls, im)
	h.final = img

	// Promises and schedules continue to work after a restart, which takes time.
	vtime.Advance(time.Millisecond)
	h.clk = append(h.clk, vtime.Peek())
	s2, err := startServer(x.o.Server, dir, args...)
	if err != nil {
		if errors.Is(err, errNoStart) {
			x.event(J{"t": "norestart", "note": err.Error()})
			return nil
		}
		return err
	}
	defer func() { s2.kill() }()
	y := newRemote(s2.base)
	defer y.close()
	for _, st := range after(r, img) {
		call(y, 100, st, false)
	}
	x.reset("restarted", i)
	x.event(J{"t": "signal"})
	s2.cmd.Process.Signal(sig)
	if !x.ended(s2) {
		return nil
	}
	if h.final, err = snapshotOf(snap); err != nil {
		h.final = map[string]*ratus.Task{}
	}
	sort.Slice(h.calls, func(i, j int) bool { return h.calls[i].c < h.calls[j].c })
	b := h.encode(rawTok(), "http", "mem", fmt.Sprintf("stop %s seed %d/%d", p.name, x.o.Seed, i), linRetention)
	// What is wrong may be due to the stop.
	x.w.Write(append(b[:len(b)-1], `,"blame":["C12","C13"]}`...))
	x.w.WriteByte('\n')
	x.n++
	return nil
}

// patient: requests that take their time to complete after the server was told
// to stop, each one longer than the one before.
func (x *e2e) patient(i int) error {
	dir := filepath.Join(x.dir, fmt.Sprint("patient", i))
	if err := os.MkdirAll(dir, 0o755); err != nil {
		return err
	}
	defer os.RemoveAll(dir)
	vtime.Share(filepath.Join(dir, "clock"))
	vtime.Set(linBase)
	snap := filepath.Join(dir, "snap")
	x.reset("patient", i)
	s, err := startServer(x.o.Server, dir, "--memdb-snapshot-path", snap, "--chore-interval", []string{"0s", "50ms"}[i%2])
	if err != nil {
		return err
	}
	defer func() { s.kill() }()
	var mux sync.Mutex
	var wg sync.WaitGroup
	stopped := make(chan struct{})
	begun := make(chan struct{}, len(patience))
	for n, d := range patience {
		if d > x.o.Long {
			continue
		}
		n, d, release := n, d, make(chan struct{})
		wg.Add(1)
		go func() {
			<-stopped
			time.Sleep(d)
			close(release)
		}()
		go func() {
			defer wg.Done()
			y := newRemote(s.base)
			y.c.Timeout = 0
			defer y.close()
			id := fmt.Sprint("p", n)
			res, ok := y.do(rawTok(), &Step{O: "InsertTask", PID: id, PTopic: "x", BodyK: "ok", Tasks: []TaskSpec{{ID: id, Topic: "x"}}}, func() {
				mux.Lock()
				x.event(J{"t": "begin", "r": n})
				mux.Unlock()
				begun <- struct{}{}
			}, release)
			mux.Lock()
			defer mux.Unlock()
			x.event(J{"t": map[bool]string{true: "answered", false: "lost"}[ok], "r": n, "note": res.Note})
			if res.Code == 201 {
				x.event(J{"t": "accept", "id": id})
			}
		}()
	}
	for n, end := 0, time.After(e2ePatience); n < len(patience) && patience[n] <= x.o.Long; n++ {
		select {
		case <-begun:
		case <-end:
			return fmt.Errorf("requests do not reach the server")
		}
	}
	mux.Lock()
	x.event(J{"t": "signal"})
	mux.Unlock()
	s.cmd.Process.Signal([]syscall.Signal{syscall.SIGTERM, syscall.SIGINT}[i%2])
	close(stopped)
	wg.Wait()
	if !x.ended(s) {
		return nil
	}
	var all []string
	for n := range patience {
		all = append(all, fmt.Sprint("p", n))
	}
	img, err := snapshotOf(snap, all...)
	if err != nil {
		img = nil
	}
	ids := []string{}
	for id := range img {
		ids = append(ids, id)
	}
	sort.Strings(ids)
	x.event(J{"t": "saved", "ids": ids})
	return nil
}

// patience is how long requests take after the server was told to stop.
var patience = []time.Duration{700 * time.Millisecond, 1600 * time.Millisecond, 3500 * time.Millisecond, 6 * time.Second, 11 * time.Second,
	16 * time.Second, 21 * time.Second, 33 * time.Second, 48 * time.Second, 63 * time.Second, 95 * time.Second, 125 * time.Second, 185 * time.Second, 310 * time.Second}

// after is what is tried on the restored tasks.
func after(r *rand.Rand, m map[string]*ratus.Task) []*Step {
	var l []*Step
	for _, id := range linIds {
		t := m[id]
		if t == nil {
			continue
		}
		get := &Step{O: "GetTask", PID: id, PTopic: t.Topic}
		commit := &Step{O: "Commit", PID: id, PTopic: t.Topic, BodyK: "ok", C: CommitSpec{Nonce: t.Nonce, State: 2, Payload: "after"}}
		claim := &Step{O: "InsertPromise", PID: id, PTopic: t.Topic, BodyK: "ok", P: PromiseSpec{ID: id, Consumer: "later", Deadline: at(25 * time.Second)}}
		l = append(l, [][]*Step{{get}, {commit}, {claim}, {commit, get}}[r.Intn(4)]...)
	}
	l = append(l, &Step{O: "Poll", PTopic: "x", BodyK: "ok", P: PromiseSpec{Consumer: "later", Deadline: at(25 * time.Second)}},
		&Step{O: "ListTopics", Limit: Num{K: "ok", S: "10", N: 10}, Offset: Num{K: "ok", S: "0"}})
	if len(l) > 5 {
		r.Shuffle(len(l), func(i, j int) { l[i], l[j] = l[j], l[i] })
		l = l[:5]
	}
	return l
}

func (p *Proc) dead() bool {
	select {
	case <-p.exit:
		return true
	default:
		return false
	}
}

func crashed(s string) bool {
	return strings.Contains(s, "panic: ") || strings.Contains(s, "fatal error: ") || strings.Contains(s, "DATA RACE")
}

func tail(s string) string {
	if len(s) > 600 {
		return s[len(s)-600:]
	}
	return s
}

var choreCount = regexp.MustCompile(`(?m)^ratus_chore_duration_seconds_count (\S+)$`)

func (y *remote) runs() (int, error) {
	r, err := y.c.Get(y.h.base + "/metrics")
	if err != nil {
		return 0, err
	}
	defer r.Body.Close()
	b, err := io.ReadAll(r.Body)
	if err != nil {
		return 0, err
	}
	m := choreCount.FindSubmatch(b)
	if m == nil {
		return 0, nil
	}
	f, err := strconv.ParseFloat(string(m[1]), 64)
	return int(f), err
}

// loop: the background jobs of a running server, some of which fail.
func (x *e2e) loop(i int) error {
	r := x.r
	dir := filepath.Join(x.dir, fmt.Sprint("loop", i))
	data := filepath.Join(dir, "data")
	if err := os.MkdirAll(data, 0o755); err != nil {
		return err
	}
	defer os.RemoveAll(dir)
	vtime.Share(filepath.Join(dir, "clock"))
	vtime.Set(linBase)
	snap := filepath.Join(data, "snap")
	interval := []int{20, 60, 150, 400}[r.Intn(4)]
	delay := []int{0, 5, 300, 1500}[r.Intn(4)]
	args := []string{"--memdb-snapshot-path", snap, "--memdb-retention-period", linRetention.String(), "--memdb-snapshot-interval", "0s",
		"--chore-interval", fmt.Sprintf("%dms", interval), "--chore-initial-delay", fmt.Sprintf("%dms", delay)}
	random := r.Intn(3) == 0
	if random {
		args = append(args, "--chore-initial-random")
	}
	x.reset("loop", i, "interval", interval, "delay", map[bool]int{true: 0, false: delay}[random])
	began := time.Now()
	s, err := startServer(x.o.Server, dir, args...)
	if err != nil {
		return err
	}
	defer func() { s.kill() }()
	y := newRemote(s.base)
	defer y.close()
	ms := func() int64 { return time.Since(began).Milliseconds() }
	unusable := func(err error) error {
		x.event(J{"t": "unusable", "note": err.Error()})
		return nil
	}
	// How many runs were counted between these moments.
	look := func() (int, error) {
		a := ms()
		n, err := y.runs()
		if err == nil {
			x.event(J{"t": "runs", "n": n, "from": a, "to": ms() + 1})
		}
		return n, err
	}
	if _, err := look(); err != nil {
		return unusable(err)
	}
	away := func(back bool) error {
		if !back {
			return os.Rename(data, data+"-away")
		}
		os.RemoveAll(data)
		return os.Rename(data+"-away", data)
	}
	if err := x.overdue(y); err != nil {
		return unusable(err)
	}
	if r.Intn(3) > 0 {
		if err := away(false); err != nil {
			return err
		}
		a, err := y.runs()
		for end := time.Now().Add(e2ePatience); err == nil && time.Now().Before(end); time.Sleep(5 * time.Millisecond) {
			var b int
			if b, err = y.runs(); err == nil && b > a+1 {
				break
			}
		}
		if err != nil {
			return unusable(err)
		}
		if err := x.overdue(y); err != nil {
			return unusable(err)
		}
		if err := away(true); err != nil {
			return err
		}
	}
	if err := x.overdue(y); err != nil {
		return unusable(err)
	}
	// A save is due at every run, so one of the next ones shows this task.
	mark := fmt.Sprintf("m%d", i)
	y.do(rawTok(), &Step{O: "InsertTask", PID: "f", PTopic: "x", BodyK: "ok", Tasks: []TaskSpec{{ID: "f", Topic: "x", Producer: mark, Scheduled: at(time.Hour)}}}, nil, nil)
	x.event(J{"t": "overdue", "id": "save"})
	saved := false
	for end := time.Now().Add(e2ePatience); time.Now().Before(end) && !saved; time.Sleep(10 * time.Millisecond) {
		m, err := snapshotOf(snap)
		saved = err == nil && m["f"] != nil && m["f"].Producer == mark
	}
	x.event(J{"t": map[bool]string{true: "recovered", false: "patience"}[saved], "id": "save"})
	// At the configured interval: not more often, and not much less often,
	// which is a matter of how busy the machine is, so it is given several chances.
	slow := true
	for k := 0; k < 10 && slow; k++ {
		window := time.Duration(12*interval)*time.Millisecond + 100*time.Millisecond
		a, err := look()
		if err != nil {
			return unusable(err)
		}
		time.Sleep(window)
		b, err := look()
		if err != nil {
			return unusable(err)
		}
		slow = b-a < 4
	}
	x.event(J{"t": map[bool]string{true: "slow", false: "steady"}[slow]})
	// What cannot be saved in the end is reported.
	lost := r.Intn(3) == 0
	if lost {
		if err := away(false); err != nil {
			return err
		}
		x.event(J{"t": "broken"})
	}
	x.event(J{"t": "signal"})
	s.cmd.Process.Signal(syscall.SIGTERM)
	x.ended(s)
	return nil
}

// overdue makes a promise that times out, and waits for its recovery.
func (x *e2e) overdue(y *remote) error {
	task := TaskSpec{ID: "a", Topic: "x", Producer: "p", Scheduled: at(-time.Second)}
	y.do(rawTok(), &Step{O: "UpsertTask", PID: "a", PTopic: "x", BodyK: "ok", Tasks: []TaskSpec{task}}, nil, nil)
	now := vtime.Peek().Add(time.Second)
	res, ok := y.do(rawTok(), &Step{O: "Poll", PTopic: "x", BodyK: "ok", P: PromiseSpec{Consumer: "c", Deadline: &now}}, nil, nil)
	if !ok || res.Code != 200 {
		return fmt.Errorf("poll: %d %s", res.Code, res.Note)
	}
	vtime.Advance(5 * time.Second)
	x.event(J{"t": "overdue", "id": "a"})
	for end := time.Now().Add(e2ePatience); time.Now().Before(end); time.Sleep(5 * time.Millisecond) {
		m, err := y.tasks([]string{"a"})
		if err != nil {
			return err
		}
		if t := m["a"]; t != nil && t.State == ratus.TaskStatePending {
			x.event(J{"t": "recovered", "id": "a"})
			return nil
		}
	}
	x.event(J{"t": "patience", "id": "a"})
	return nil
}

// halves: instances that only handle requests, or only run background jobs.
func (x *e2e) halves(i int) error {
	r := x.r
	dir := filepath.Join(x.dir, fmt.Sprint("halves", i))
	if err := os.MkdirAll(dir, 0o755); err != nil {
		return err
	}
	defer os.RemoveAll(dir)
	vtime.Share(filepath.Join(dir, "clock"))
	vtime.Set(linBase)
	snap := filepath.Join(dir, "snap")
	args := []string{"--memdb-snapshot-path", snap, "--memdb-retention-period", linRetention.String(), "--memdb-snapshot-interval", "0s"}

	x.reset("requests", i)
	s, err := startServer(x.o.Server, dir, append(args, "--chore-interval", "0s", "--chore-initial-delay", "0s")...)
	if err != nil {
		return err
	}
	defer func() { s.kill() }()
	y := newRemote(s.base)
	defer y.close()
	task := TaskSpec{ID: "a", Topic: "x", Producer: "p", Scheduled: at(-time.Second)}
	y.do(rawTok(), &Step{O: "UpsertTask", PID: "a", PTopic: "x", BodyK: "ok", Tasks: []TaskSpec{task}}, nil, nil)
	now := vtime.Peek().Add(time.Second)
	y.do(rawTok(), &Step{O: "Poll", PTopic: "x", BodyK: "ok", P: PromiseSpec{Consumer: "c", Deadline: &now}}, nil, nil)
	vtime.Advance(5 * time.Second)
	time.Sleep(time.Duration(50+r.Intn(150)) * time.Millisecond)
	m, err := y.tasks([]string{"a"})
	n, err2 := y.runs()
	if err != nil || err2 != nil {
		x.event(J{"t": "unusable", "note": fmt.Sprint(err, err2)})
		return nil
	}
	x.event(J{"t": "idle", "n": n, "kept": m["a"] != nil && m["a"].State == ratus.TaskStateActive})
	x.event(J{"t": "signal"})
	s.cmd.Process.Signal(syscall.SIGTERM)
	if !x.ended(s) {
		return nil
	}

	interval := []int{20, 100}[r.Intn(2)]
	x.reset("jobs", i, "interval", interval)
	p, err := launch(x.o.Server, dir, 0, append(args, "--chore-interval", fmt.Sprintf("%dms", interval), "--chore-initial-delay", "10ms")...)
	if err != nil {
		return err
	}
	defer func() { p.kill() }()
	x.event(J{"t": "overdue", "id": "a"})
	ok := false
	for end := time.Now().Add(e2ePatience); time.Now().Before(end) && !ok; time.Sleep(10 * time.Millisecond) {
		m, err := snapshotOf(snap)
		ok = err == nil && m["a"] != nil && m["a"].State == ratus.TaskStatePending
	}
	x.event(J{"t": map[bool]string{true: "recovered", false: "patience"}[ok], "id": "a"})
	x.event(J{"t": "signal"})
	p.cmd.Process.Signal(syscall.SIGTERM)
	x.ended(p)
	return nil
}

// early: the server is told to stop while it starts.
func (x *e2e) early(i int) error {
	dir := filepath.Join(x.dir, fmt.Sprint("early", i))
	if err := os.MkdirAll(dir, 0o755); err != nil {
		return err
	}
	defer os.RemoveAll(dir)
	vtime.Share(filepath.Join(dir, "clock"))
	vtime.Set(linBase)
	port, err := freePort()
	if err != nil {
		return err
	}
	x.reset("early", i)
	s, err := launch(x.o.Server, dir, port, "--memdb-snapshot-path", filepath.Join(dir, "snap"), "--chore-interval", "20ms", "--chore-initial-delay", "1ms")
	if err != nil {
		return err
	}
	defer func() { s.kill() }()
	if x.r.Intn(2) == 0 {
		time.Sleep(time.Duration(x.r.Intn(15000)) * time.Microsecond)
	} else {
		for end := time.Now().Add(e2ePatience); time.Now().Before(end) && !s.dead(); {
			c, err := net.Dial("tcp", fmt.Sprintf("%s:%d", host, port))
			if err == nil {
				c.Close()
				break
			}
		}
	}
	x.event(J{"t": "signal"})
	s.cmd.Process.Signal(syscall.SIGTERM)
	if s.exited(e2ePatience) && strings.Contains(s.log.String(), "address already in use") {
		x.reset("skip", i)
		return nil
	}
	x.ended(s)
	return nil
}

// drain: consumers that crash, give up, postpone and finish work on tasks
// until all of them are done.
func (x *e2e) drain(i int) error {
	r := x.r
	dir := filepath.Join(x.dir, fmt.Sprint("drain", i))
	if err := os.MkdirAll(dir, 0o755); err != nil {
		return err
	}
	defer os.RemoveAll(dir)
	vtime.Share(filepath.Join(dir, "clock"))
	vtime.Set(linBase)
	x.reset("drain", i, "interval", 10)
	s, err := startServer(x.o.Server, dir, "--memdb-snapshot-path", filepath.Join(dir, "snap"), "--memdb-retention-period", "10000h",
		"--memdb-snapshot-interval", "1s", "--chore-interval", "10ms", "--chore-initial-delay", "1ms")
	if err != nil {
		return err
	}
	defer func() { s.kill() }()
	client, err := ratus.NewClient(&ratus.ClientOptions{Origin: s.base})
	if err != nil {
		return err
	}
	ctx, stop := context.WithTimeout(context.Background(), 2*e2ePatience)
	defer stop()
	topics := []string{"x", "y/z", "x\x00"}[:1+r.Intn(3)]
	n := 4 + r.Intn(10)
	var mux sync.Mutex
	open := map[string]bool{}
	for k := 0; k < n; k++ {
		id := fmt.Sprintf("t%d", k)
		when := vtime.Peek().Add(time.Duration(r.Intn(40)-10) * time.Second)
		t := &ratus.Task{ID: id, Topic: topics[r.Intn(len(topics))], Scheduled: &when, Payload: map[string]any{"k": k}}
		if r.Intn(4) == 0 {
			t.Scheduled, t.Defer = nil, "15s"
		}
		if _, err := client.InsertTask(ctx, t); err != nil {
			x.event(J{"t": "unusable", "note": err.Error()})
			return nil
		}
		open[id] = true
		x.event(J{"t": "accept", "id": id})
	}
	plans := map[string]int{} // mishaps left
	for id := range open {
		plans[id] = r.Intn(4)
	}
	count := 0
	seeds := rand.New(rand.NewSource(r.Int63()))
	var wg sync.WaitGroup
	consumer := func(topic string, c int) {
		defer wg.Done()
		for ctx.Err() == nil {
			life, crash := context.WithCancel(ctx)
			client.Subscribe(life, &ratus.SubscribeOptions{Promise: &ratus.Promise{Consumer: fmt.Sprint("c", c), Timeout: "3s"}, Topic: topic,
				Concurrency: 1 + c%2, ConcurrencyDelay: time.Millisecond, PollInterval: time.Millisecond, DrainInterval: 5 * time.Millisecond, ErrorInterval: 5 * time.Millisecond},
				func(t *ratus.Context, err error) {
					if err != nil {
						return
					}
					mux.Lock()
					id := t.Task.ID
					count++
					k := count
					x.event(J{"t": "handle", "id": id, "k": k})
					mishap := plans[id] > 0
					if mishap {
						plans[id]--
					}
					what := seeds.Intn(5)
					mux.Unlock()
					commit := func(again bool) {
						err := t.Commit()
						mux.Lock()
						defer mux.Unlock()
						x.event(J{"t": "committed", "id": id, "k": k, "ok": err == nil, "again": again})
						if err == nil && !again {
							delete(open, id)
							if len(open) == 0 {
								stop()
							}
						}
					}
					switch {
					case !mishap:
						commit(false)
					case what == 0:
						crash()
						<-life.Done()
					case what == 1:
						t.SetState(ratus.TaskStatePending).SetDefer("4s")
						commit(true)
					case what == 2:
						client.DeletePromise(ctx, id)
						// The claim was given up, so this may come to nothing.
						commit(false)
					case what == 3:
						// Too slow: the promise may time out meanwhile.
						time.Sleep(40 * time.Millisecond)
						commit(false)
					case what == 4:
						t.SetState(ratus.TaskStatePending).SetTopic(topics[k%len(topics)])
						commit(true)
					}
				})
			crash()
		}
	}
	for c := 0; c < 3; c++ {
		for _, t := range topics {
			wg.Add(1)
			go consumer(t, c)
		}
	}
	for began := time.Now(); ctx.Err() == nil; {
		time.Sleep(4*time.Millisecond + time.Since(began)/50)
		vtime.Advance(500 * time.Millisecond)
	}
	wg.Wait()
	y := newRemote(s.base)
	defer y.close()
	for k := 0; k < n; k++ {
		id := fmt.Sprintf("t%d", k)
		m, err := y.tasks([]string{id})
		if err != nil {
			x.event(J{"t": "unusable", "note": err.Error()})
			return nil
		}
		state := -1
		if m[id] != nil {
			state = int(m[id].State)
		}
		x.event(J{"t": "final", "id": id, "state": state})
	}
	x.event(J{"t": "signal"})
	s.cmd.Process.Signal(syscall.SIGTERM)
	x.ended(s)
	return nil
}

func runE2E(o *E2EOptions) error {
	x := &e2e{o: o, r: rand.New(rand.NewSource(o.Seed))}
	open := func(p string) (*bufio.Writer, func(), error) {
		f, err := os.Create(p)
		if err != nil {
			return nil, nil, err
		}
		w := bufio.NewWriter(f)
		return w, func() { w.Flush(); f.Close() }, nil
	}
	w, done, err := open(o.Out)
	if err != nil {
		return err
	}
	defer done()
	ev, done2, err := open(o.Events)
	if err != nil {
		return err
	}
	defer done2()
	x.w, x.ev, x.dir = w, ev, filepath.Join(o.Scratch, fmt.Sprintf("e2e-%d", os.Getpid()))
	if err := os.MkdirAll(x.dir, 0o755); err != nil {
		return err
	}
	defer os.RemoveAll(x.dir)
	for i := 0; i < o.Count && x.waits < 2; i++ {
		switch o.Mode {
		case "stop":
			err = x.stop(i)
		case "loop":
			err = x.loop(i)
		case "halves":
			err = x.halves(i)
		case "patient":
			err = x.patient(i)
		case "early":
			err = x.early(i)
		case "drain":
			err = x.drain(i)
		default:
			err = fmt.Errorf("unknown mode %s", o.Mode)
		}
		if errors.Is(err, errNoStart) {
			return fmt.Errorf("sut: %w", err)
		}
		if err != nil {
			return err
		}
	}
	fmt.Printf("RUNS %d HISTORIES %d\n", o.Count, x.n)
	return nil
}
