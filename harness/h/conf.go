package main

import (
	"bufio"
	"bytes"
	"context"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"math/rand"
	"net"
	"net/http"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strings"
	"sync"
	"syscall"
	"time"

	"go.mongodb.org/mongo-driver/bson"

	"github.com/hyperonym/ratus"
	"github.com/hyperonym/ratus/internal/engine/memdb"
	"github.com/hyperonym/ratus/internal/engine/mongodb"
	"github.com/hyperonym/ratus/internal/zzverif/fakemongo"
	"github.com/hyperonym/ratus/internal/zzverif/vtime"
)

// The configuration driver runs the server program with configurations that
// the specification (ConfigGen) made up, and records what the instances do.

type ConfOptions struct {
	Server  string
	Grid    string
	Part    string // mem, mempairs, mongo, mongopairs, refusing, special
	Seed    int64
	Shard   int
	Shards  int
	Share   float64
	Out     string
	Scratch string
}

type confSetting struct {
	S    string `json:"s"`
	Form string `json:"form"`
}

type confOption struct {
	Flag  string        `json:"flag"`
	Short string        `json:"short"`
	Env   string        `json:"env"`
	Set   []confSetting `json:"set"`
}

type confCase struct {
	Conf    map[string][2]int `json:"conf"`
	Patient bool              `json:"patient"`
	Spread  bool              `json:"spread"`
	Refuse  string            `json:"refuse"`
	Hint    struct {
		Fails, Ends, Listens, Runs, Again, Mongo bool
		Path, Host, Port, Database, Coll, URI    string
		Saves                                    map[string]bool
	} `json:"hint"`
}

var ctxBg = context.Background()

// host2 is another address that no other process uses.
var host2 = func() string {
	var a, b, c, d int
	fmt.Sscanf(host, "%d.%d.%d.%d", &a, &b, &c, &d)
	return fmt.Sprintf("127.%d.%d.%d", b+127, c, d)
}()

type conf struct {
	o       *ConfOptions
	w       *bufio.Writer
	r       *rand.Rand
	dir     string
	options map[string]confOption
	env     []string
	n       int
	image   []byte
	waits   int
}

// wait gives a condition the time it may need, and stops early if the program ended.
func wait(s *Proc, d time.Duration, f func() bool) bool {
	for end := time.Now().Add(d); ; time.Sleep(3 * time.Millisecond) {
		if f() {
			return true
		}
		if s.dead() {
			return f()
		}
		if time.Now().After(end) {
			return false
		}
	}
}

// patientFor is how long something that is expected may take.
func (x *conf) patience() time.Duration {
	if x.waits >= 2 {
		return 3 * time.Second
	}
	return e2ePatience
}

// expect waits for something that is expected; what does not happen is only waited for so often.
func (x *conf) expect(s *Proc, f func() bool) bool {
	ok := wait(s, x.patience(), f)
	if !ok && !s.dead() {
		x.waits++
	}
	return ok
}

func (x *conf) start(c *confCase, dir string, fill *strings.Replacer) (*Proc, error) {
	env := append([]string{}, x.env...)
	var args []string
	names := []string{}
	for o := range c.Conf {
		names = append(names, o)
	}
	sort.Strings(names)
	x.r.Shuffle(len(names), func(i, j int) { names[i], names[j] = names[j], names[i] })
	for _, o := range names {
		opt, ch := x.options[o], c.Conf[o]
		if ch[0] > 0 {
			s := opt.Set[ch[0]-1]
			v := fill.Replace(s.S)
			switch {
			case s.Form == "bare":
				args = append(args, opt.Flag)
			case s.Form == "short":
				args = append(args, opt.Short, v)
			case x.r.Intn(2) == 0 && !strings.HasPrefix(v, "-") && len(opt.Set) > 0 && opt.Set[0].Form != "bare":
				args = append(args, opt.Flag, v)
			default:
				args = append(args, opt.Flag+"="+v)
			}
		}
		if ch[1] > 0 {
			env = append(env, opt.Env+"="+fill.Replace(opt.Set[ch[1]-1].S))
		}
	}
	p := &Proc{log: &logBuf{}, exit: make(chan struct{})}
	p.cmd = exec.Command(x.o.Server, args...)
	p.cmd.Dir = filepath.Join(dir, "cwd")
	p.cmd.Env = append(env, "ZZVERIF_CLOCK="+filepath.Join(dir, "clock"), "GIN_MODE=release")
	p.cmd.Stdout, p.cmd.Stderr = p.log, p.log
	p.cmd.SysProcAttr = &syscall.SysProcAttr{Pdeathsig: syscall.SIGKILL}
	if err := p.cmd.Start(); err != nil {
		return nil, err
	}
	go func() {
		p.cmd.Wait()
		p.code = p.cmd.ProcessState.ExitCode()
		close(p.exit)
	}()
	return p, nil
}

// sockets counts the sockets a process listens on.
func sockets(pid int) int {
	own := map[string]bool{}
	l, _ := os.ReadDir(fmt.Sprintf("/proc/%d/fd", pid))
	for _, f := range l {
		if t, err := os.Readlink(fmt.Sprintf("/proc/%d/fd/%s", pid, f.Name())); err == nil && strings.HasPrefix(t, "socket:[") {
			own[strings.Trim(t, "socket:[]")] = true
		}
	}
	n := 0
	for _, p := range []string{"tcp", "tcp6"} {
		b, _ := os.ReadFile(fmt.Sprintf("/proc/%d/net/%s", pid, p))
		for _, line := range strings.Split(string(b), "\n") {
			if f := strings.Fields(line); len(f) > 9 && f[3] == "0A" && own[f[9]] {
				n++
			}
		}
	}
	return n
}

func dials(h string, port int) bool {
	c, err := net.DialTimeout("tcp", fmt.Sprintf("%s:%d", h, port), 2*time.Second)
	if err == nil {
		c.Close()
	}
	return err == nil
}

// ports that are free on all addresses.
func freePorts(n int) ([]int, error) {
	var l []int
	for i := 0; i < n; i++ {
		s, err := net.Listen("tcp", ":0")
		if err != nil {
			return nil, err
		}
		defer s.Close()
		l = append(l, s.Addr().(*net.TCPAddr).Port)
	}
	return l, nil
}

var errBusy = errors.New("the port was taken by someone else")

// Tasks every instance is given.
func confTasks() []*ratus.Task {
	var l []*ratus.Task
	add := func(id, topic string, st ratus.TaskState, consumed, deadline time.Duration) {
		t := &ratus.Task{ID: id, Topic: topic, State: st, Scheduled: at(-200 * time.Hour), Produced: at(-200 * time.Hour)}
		if st != ratus.TaskStatePending {
			t.Nonce, t.Consumer, t.Consumed = "", "c", at(consumed)
			t.Deadline = at(deadline)
			if st == ratus.TaskStateActive {
				t.Nonce = "0123456789abcdef"
			}
		}
		l = append(l, t)
	}
	add("old", "t", ratus.TaskStateCompleted, -100*time.Hour, -99*time.Hour)
	add("hour", "t", ratus.TaskStateCompleted, -60*time.Second, 0)
	add("young", "t", ratus.TaskStateCompleted, -5*time.Second, 0)
	add("overdue", "t", ratus.TaskStateActive, -time.Hour, -time.Minute)
	add("held", "t", ratus.TaskStateActive, -time.Hour, 5000*time.Hour)
	add("idle", "t", ratus.TaskStatePending, 0, 0)
	for i := 0; i < 12; i++ {
		t := &ratus.Task{ID: fmt.Sprintf("q%02d", i), Topic: "page", Scheduled: at(9000 * time.Hour), Produced: at(0)}
		l = append(l, t)
	}
	return l
}

var confIds = func() []string {
	ids := []string{"late"}
	for _, t := range confTasks() {
		ids = append(ids, t.ID)
	}
	return ids
}()

var stateNames = map[ratus.TaskState]string{ratus.TaskStatePending: "pending", ratus.TaskStateActive: "active", ratus.TaskStateCompleted: "completed", ratus.TaskStateArchived: "archived"}

func states(m map[string]*ratus.Task, full bool) J {
	j := J{}
	for _, id := range confIds {
		if t := m[id]; t != nil {
			j[id] = stateNames[t.State]
		} else if full {
			j[id] = "absent"
		}
	}
	return j
}

func (x *conf) base(c *confCase) J {
	refuse := c.Refuse
	if refuse == "" {
		refuse = "none"
	}
	return J{"refuse": refuse, "t": "run", "conf": c.Conf, "up": "", "code": 0, "self": false, "crash": false, "socks": 0, "hosts": J{"h1": false, "h2": false}, "pages": []J{}, "samples": []J{},
		"looked": false, "states": J{"none": ""}, "total": 0, "since": 0, "late": []J{}, "files": []string{}, "kept": true, "has": false, "final": J{"none": ""},
		"recovered": "unknown", "slow": false, "second": -1, "mongo": J{"on": false}}
}

// prepare makes the snapshot that instances are given.
func (x *conf) prepare() error {
	p := filepath.Join(x.dir, "image")
	b, err := newMem(&memdb.Config{SnapshotPath: p})
	if err != nil {
		return err
	}
	if _, err := b.g.UpsertTasks(ctxBg, confTasks()); err != nil {
		return err
	}
	if err := b.g.Close(ctxBg); err != nil {
		return err
	}
	x.image, err = os.ReadFile(p)
	return err
}

// run starts an instance and records what it does.
func (x *conf) run(c *confCase) (J, error) {
	x.n++
	dir := filepath.Join(x.dir, fmt.Sprint("c", x.n))
	if err := os.MkdirAll(filepath.Join(dir, "cwd"), 0o755); err != nil {
		return nil, err
	}
	defer os.RemoveAll(dir)
	vtime.Share(filepath.Join(dir, "clock"))
	vtime.Set(linBase)
	data := filepath.Join(dir, "cwd")
	existing, corrupt := filepath.Join(data, "existing"), filepath.Join(data, "corrupt")
	if err := os.WriteFile(existing, x.image, 0o644); err != nil {
		return nil, err
	}
	if err := os.WriteFile(corrupt, []byte("this is no snapshot"), 0o644); err != nil {
		return nil, err
	}
	pp, err := freePorts(3)
	if err != nil {
		return nil, err
	}
	port := map[string]int{"free": pp[0], "other": pp[1], "taken": pp[2], "default": 80}[c.Hint.Port]
	if c.Hint.Port == "taken" {
		for _, h := range []string{host, host2} {
			l, err := net.Listen("tcp", fmt.Sprintf("%s:%d", h, port))
			if err != nil {
				return nil, errBusy
			}
			defer l.Close()
		}
	}
	if c.Hint.Port == "default" {
		l, err := net.Listen("tcp", host+":80")
		if err != nil {
			return nil, nil // not allowed here
		}
		l.Close()
	}
	var mg *confMongo
	u1, u2 := "", ""
	if c.Hint.Mongo {
		if mg, err = x.mongo(c); err != nil {
			return nil, err
		}
		defer mg.close()
		u1, u2 = mg.uris[0], mg.uris[1]
	}
	fill := strings.NewReplacer("@port", fmt.Sprint(pp[0]), "@other", fmt.Sprint(pp[1]), "@taken", fmt.Sprint(pp[2]), "@h1", host, "@h2", host2,
		"@fresh", filepath.Join(data, "fresh"), "@existing", existing, "@corrupt", corrupt, "@nodir", filepath.Join(data, "missing", "snap"), "@u1", u1, "@u2", u2)
	e := x.base(c)
	if mg != nil {
		e["mongo"] = J{"on": false, "pre": mg.pre}
	}
	began := time.Now()
	s, err := x.start(c, dir, fill)
	if err != nil {
		return nil, err
	}
	defer func() { s.kill() }()

	// How it comes up.
	hosts := []string{}
	listens := func() bool {
		hosts = hosts[:0]
		for n, h := range []string{host, host2} {
			if port != 0 && dials(h, port) {
				hosts = append(hosts, []string{"h1", "h2"}[n])
			}
		}
		return len(hosts) > 0
	}
	taken := c.Hint.Port == "taken"
	up := "running"
	switch {
	case c.Hint.Fails || c.Hint.Ends:
		if x.expect(s, s.dead) || s.dead() {
			up = "ended"
		} else if !taken && listens() {
			up = "listening"
		}
	case c.Hint.Listens:
		if x.expect(s, listens) {
			up = "listening"
			if wait(s, 50*time.Millisecond, func() bool { return listens() && len(hosts) == 2 }) {
				listens()
			}
		}
	default:
		wait(s, 250*time.Millisecond, func() bool { return false })
		if !taken && listens() {
			up = "listening"
		}
	}
	if s.dead() {
		up = "ended"
	}
	e["up"] = up
	if up != "listening" {
		hosts = hosts[:0]
	}
	if up != "ended" {
		e["socks"] = sockets(s.cmd.Process.Pid)
	}
	e["hosts"] = J{"h1": in(hosts, "h1"), "h2": in(hosts, "h2")}

	if up == "listening" {
		h := host
		if hosts[0] == "h2" {
			h = host2
		}
		s.base = fmt.Sprintf("http://%s:%d", h, port)
		y := newRemote(s.base)
		defer y.close()
		if mg != nil {
			err = mg.drive(y, e)
		} else {
			err = x.drive(c, s, y, e, began)
		}
		if err != nil && !s.dead() {
			e["up"] = "unusable: " + err.Error()
		}
	} else if up == "running" && c.Hint.Again && c.Hint.Path == "existing" {
		ok := x.expect(s, func() bool {
			m, err := snapshotOf(existing, confIds...)
			return err == nil && m["overdue"] != nil && m["overdue"].State == ratus.TaskStatePending
		})
		e["recovered"] = map[bool]string{true: "yes", false: "no"}[ok]
	}

	// How it ends.
	e["self"] = s.dead()
	if !s.dead() {
		s.cmd.Process.Signal([]syscall.Signal{syscall.SIGTERM, syscall.SIGINT}[x.r.Intn(2)])
		if !x.expect(s, s.dead) && !s.dead() {
			e["up"] = "does not stop"
			return e, nil
		}
	}
	<-s.exit
	out := s.log.String()
	if strings.Contains(out, "address already in use") && c.Hint.Port != "taken" {
		return nil, errBusy
	}
	e["code"], e["crash"], e["note"] = s.code, crashed(out), tail(out)
	if mg != nil {
		mg.end(e)
	}

	// What it leaves behind.
	l, err := os.ReadDir(data)
	if err != nil {
		return nil, err
	}
	files := []string{}
	for _, f := range l {
		files = append(files, f.Name())
	}
	e["files"] = files
	b, err := os.ReadFile(existing)
	e["kept"] = err == nil && bytes.Equal(b, x.image)
	if p := c.Hint.Path; p == "fresh" || p == "existing" {
		m, err := snapshotOf(filepath.Join(data, p), confIds...)
		if err == nil {
			e["has"], e["final"] = true, states(m, true)
		}
	}
	return e, nil
}

func in(l []string, s string) bool {
	for _, t := range l {
		if s == t {
			return true
		}
	}
	return false
}

func (y *remote) put(path string, v any) (int, error) {
	b, err := json.Marshal(v)
	if err != nil {
		return 0, err
	}
	r, err := http.NewRequest("PUT", y.h.base+path, bytes.NewReader(b))
	if err != nil {
		return 0, err
	}
	r.Header.Set("Content-Type", "application/json")
	w, err := y.c.Do(r)
	if err != nil {
		return 0, err
	}
	io.Copy(io.Discard, w.Body)
	w.Body.Close()
	return w.StatusCode, nil
}

// get returns the status and the number of elements of the answer.
func (y *remote) get(path string) (int, int, error) {
	w, err := y.c.Get(y.h.base + path)
	if err != nil {
		return 0, 0, err
	}
	defer w.Body.Close()
	b, err := io.ReadAll(w.Body)
	if err != nil {
		return 0, 0, err
	}
	var v struct {
		Data []json.RawMessage `json:"data"`
	}
	json.Unmarshal(b, &v)
	return w.StatusCode, len(v.Data), nil
}

// drive tries out an instance of MemDB that listens.
func (x *conf) drive(c *confCase, s *Proc, y *remote, e J, began time.Time) error {
	ms := func() int64 { return time.Since(began).Milliseconds() }
	samples := []J{}
	look := func() (int, error) {
		a := ms()
		n, err := y.runs()
		if err == nil {
			samples = append(samples, J{"n": n, "from": a, "to": ms() + 1})
			e["samples"] = samples
		}
		return n, err
	}
	if _, err := look(); err != nil {
		return err
	}
	c0 := 0
	if c.Hint.Path != "existing" {
		for _, t := range []string{"t", "page"} {
			var l []*ratus.Task
			for _, k := range confTasks() {
				if k.Topic == t {
					l = append(l, k)
				}
			}
			if code, err := y.put("/v1/topics/"+t+"/tasks", ratus.Tasks{Data: l}); err != nil || code >= 300 {
				return fmt.Errorf("tasks are not accepted: %d %v", code, err)
			}
		}
		var err error
		if c0, err = look(); err != nil {
			return err
		}
	}
	pages := []J{}
	probe := func(kind, path string, limit, offset, total int) error {
		q := []string{}
		if limit != 0 {
			q = append(q, fmt.Sprint("limit=", limit))
		}
		if offset != 0 {
			q = append(q, fmt.Sprint("offset=", offset))
		}
		code, n, err := y.get(path + "?" + strings.Join(q, "&"))
		if err == nil {
			pages = append(pages, J{"kind": kind, "limit": limit, "offset": offset, "total": total, "code": code, "n": n})
		}
		return err
	}
	for _, l := range []int{0, 1, 7, 8, 10, 12, 100, 101, 250, 251} {
		if err := probe("tasks", "/v1/topics/page/tasks", l, 0, 12); err != nil {
			return err
		}
		if err := probe("topics", "/v1/topics", l, 0, -1); err != nil {
			return err
		}
	}
	for _, o := range []int{0, 3, 5, 6, 9999, 10000, 10001, 20000, 20001} {
		if err := probe("tasks", "/v1/topics/page/tasks", 5, o, 12); err != nil {
			return err
		}
		if err := probe("promises", "/v1/topics/t/promises", 5, o, -1); err != nil {
			return err
		}
	}
	e["pages"] = pages

	// The background jobs.
	runs := func(n int) bool {
		return x.expect(s, func() bool { k, err := y.runs(); return err == nil && k >= n })
	}
	switch {
	case c.Hint.Again:
		runs(c0 + 6)
		if _, delayed := c.Conf["delay"]; (delayed || x.r.Intn(10) == 0) && x.waits < 2 {
			// A matter of how busy the machine is, so it is given several chances.
			slow := true
			for k := 0; k < 10 && slow; k++ {
				a, err := look()
				if err != nil {
					return err
				}
				time.Sleep(600 * time.Millisecond)
				b, err := look()
				if err != nil {
					return err
				}
				slow = b-a < 5
			}
			if slow {
				x.waits++
			}
			e["slow"] = slow
		}
	case c.Hint.Runs:
		runs(1)
		if c.Patient {
			t := time.Now()
			if runs(2) {
				e["second"] = time.Since(t).Milliseconds()
			} else {
				e["second"] = 1000000
			}
		}
	default:
		wait(s, 200*time.Millisecond, func() bool { return false })
	}
	n, err := look()
	if err != nil {
		return err
	}
	m, err := y.tasks(confIds)
	if err != nil {
		return err
	}
	total, err := look()
	if err != nil {
		return err
	}
	since := n - c0
	if c.Hint.Path != "existing" && since > 0 {
		since-- // may have begun before the tasks were there
	}
	e["looked"], e["states"], e["since"], e["total"] = true, states(m, true), since, total

	// Saves.
	if c.Hint.Path == "fresh" || c.Hint.Path == "existing" {
		if code, err := y.put("/v1/topics/late/tasks/late", &ratus.Task{ID: "late", Topic: "late", Scheduled: at(9000 * time.Hour)}); err != nil || code >= 300 {
			return fmt.Errorf("a task is not accepted: %d %v", code, err)
		}
		path := filepath.Join(x.dir, fmt.Sprint("c", x.n), "cwd", c.Hint.Path)
		late := []J{}
		if c.Hint.Again {
			past := 0
			for _, k := range []struct {
				s    int
				name string
			}{{0, "s0"}, {360, "s360"}, {3660, "s3660"}} {
				vtime.Advance(time.Duration(k.s-past) * time.Second)
				past = k.s
				n, err := look()
				if err != nil {
					return err
				}
				if !runs(n + 3) {
					break
				}
				saved := func() bool {
					m, err := snapshotOf(path, "late")
					return err == nil && m["late"] != nil
				}
				ok := saved()
				if !ok && c.Hint.Saves[k.name] {
					ok = x.expect(s, saved)
				}
				late = append(late, J{"s": k.s, "saved": ok})
				if ok {
					break
				}
			}
		}
		e["late"] = late
	}
	_, err = look()
	return err
}

// spread: when the first runs of several instances are.
func (x *conf) spread(c *confCase) (J, error) {
	x.n++
	dir := filepath.Join(x.dir, fmt.Sprint("s", x.n))
	defer os.RemoveAll(dir)
	const limit = 15 * time.Second
	var mux sync.Mutex
	first := []int64{}
	var wg sync.WaitGroup
	var failure error
	any := make(chan struct{})
	var once sync.Once
	for i := 0; i < 12; i++ {
		d := filepath.Join(dir, fmt.Sprint(i))
		data := filepath.Join(d, "cwd")
		if err := os.MkdirAll(data, 0o755); err != nil {
			return nil, err
		}
		vtime.Share(filepath.Join(d, "clock"))
		vtime.Set(linBase)
		if err := os.WriteFile(filepath.Join(data, "existing"), x.image, 0o644); err != nil {
			return nil, err
		}
		pp, err := freePorts(1)
		if err != nil {
			return nil, err
		}
		fill := strings.NewReplacer("@port", fmt.Sprint(pp[0]), "@h1", host, "@existing", filepath.Join(data, "existing"))
		s, err := x.start(c, d, fill)
		if err != nil {
			return nil, err
		}
		wg.Add(1)
		go func() {
			defer wg.Done()
			defer s.kill()
			y := newRemote(fmt.Sprintf("http://%s:%d", host, pp[0]))
			defer y.close()
			if !wait(s, e2ePatience, func() bool { return dials(host, pp[0]) }) {
				mux.Lock()
				failure = errBusy
				if !strings.Contains(s.log.String(), "address already in use") {
					failure = fmt.Errorf("%w: %s", errNoStart, s.log.String())
				}
				mux.Unlock()
				return
			}
			began := time.Now()
			for time.Since(began) < limit {
				select {
				case <-any:
					return
				case <-time.After(20 * time.Millisecond):
				}
				if n, err := y.runs(); err == nil && n > 0 {
					mux.Lock()
					first = append(first, time.Since(began).Milliseconds())
					mux.Unlock()
					once.Do(func() { close(any) })
				}
			}
		}()
	}
	wg.Wait()
	if failure != nil {
		return nil, failure
	}
	e := x.base(c)
	e["t"], e["first"] = "spread", first
	return e, nil
}

// confMongo are the two deployments an instance may use.
type confMongo struct {
	c     *confCase
	key   string
	pre   int
	dbs   []*fakemongo.DB
	srvs  []*fakemongo.Server
	uris  []string
	mux   sync.Mutex
	seen  map[string]J
	phase []string
	eff   int
}

func (x *conf) mongo(c *confCase) (*confMongo, error) {
	m := &confMongo{c: c, key: []string{"", "_id", "topic"}[x.r.Intn(3)], seen: map[string]J{}, pre: -1}
	m.eff = map[string]int{"u1": 0, "u2": 1}[c.Hint.URI]
	_, noindex := c.Conf["noindex"]
	if noindex || c.Refuse != "" || x.r.Intn(2) == 0 {
		m.pre = 777
	}
	for i := 0; i < 2; i++ {
		db := fakemongo.NewDB(m.key)
		db.Now = vtime.Peek
		pp, err := freePorts(1)
		if err != nil {
			return nil, err
		}
		srv, err := fakemongo.NewServer(db, "tcp", fmt.Sprintf("%s:%d", host, pp[0]))
		if err != nil {
			return nil, errBusy
		}
		m.dbs, m.srvs = append(m.dbs, db), append(m.srvs, srv)
		m.uris = append(m.uris, fmt.Sprintf("mongodb://%s:%d/?serverSelectionTimeoutMS=5000", host, pp[0]))
	}
	if m.pre >= 0 {
		// As someone who prepares the collection would do.
		g, err := mongodb.New(&mongodb.Config{URI: m.uris[m.eff], Database: c.Hint.Database, Collection: c.Hint.Coll, RetentionPeriod: time.Duration(m.pre) * time.Second})
		if err != nil {
			return nil, err
		}
		if err := g.Open(ctxBg); err != nil {
			return nil, err
		}
		g.Close(ctxBg)
	}
	for i, srv := range m.srvs {
		i := i
		if c.Refuse != "" {
			srv.Hook = func(kind, name string) fakemongo.Action {
				if kind == "op" && name == c.Refuse {
					return fakemongo.Action{Fail: 13, Name: "Unauthorized"}
				}
				return fakemongo.Action{}
			}
		}
		srv.Seen = func(cmd bson.D) {
			var db string
			for _, f := range cmd {
				if f.Key == "$db" {
					db, _ = f.Value.(string)
				}
			}
			coll, _ := cmd[0].Value.(string)
			m.mux.Lock()
			defer m.mux.Unlock()
			m.seen[fmt.Sprint(i, db, coll)] = J{"uri": fmt.Sprint("u", i+1), "db": db, "coll": coll}
			m.phase = append(m.phase, cmd[0].Key)
		}
	}
	return m, nil
}

func (m *confMongo) close() {
	for _, s := range m.srvs {
		s.Close()
	}
}

// drive uses an instance of MongoDB.
func (m *confMongo) drive(y *remote, e J) error {
	j := J{"on": true, "key": m.key, "pre": m.pre, "first": "", "created": false}
	m.mux.Lock()
	for _, n := range m.phase {
		if n == "createIndexes" {
			j["created"] = true
		}
	}
	m.mux.Unlock()
	step := func(name string, s *Step) Result {
		m.mux.Lock()
		m.phase = nil
		m.mux.Unlock()
		res, _ := y.do(rawTok(), s, nil, nil)
		j[name] = res.Code
		m.mux.Lock()
		if name == "poll" && len(m.phase) > 0 {
			j["first"] = m.phase[0]
		}
		m.mux.Unlock()
		return res
	}
	step("insert", &Step{O: "InsertTask", PID: "a", PTopic: "x", BodyK: "ok", Tasks: []TaskSpec{{ID: "a", Topic: "x", Producer: "p", Scheduled: at(-time.Second)}}})
	step("poll", &Step{O: "Poll", PTopic: "x", BodyK: "ok", P: PromiseSpec{Consumer: "c"}})
	// the claim is made in any case
	step("claim", &Step{O: "UpsertPromise", PID: "a", PTopic: "x", BodyK: "ok", P: PromiseSpec{ID: "a", Consumer: "c"}})
	step("commit", &Step{O: "Commit", PID: "a", PTopic: "x", BodyK: "ok", C: CommitSpec{State: 2}})
	step("get", &Step{O: "GetTask", PID: "a", PTopic: "x"})
	e["mongo"] = j
	return nil
}

func (m *confMongo) end(e J) {
	j := e["mongo"].(J)
	m.mux.Lock()
	defer m.mux.Unlock()
	l := []J{}
	keys := []string{}
	for k := range m.seen {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	for _, k := range keys {
		l = append(l, m.seen[k])
	}
	j["ns"] = l
	ttl := []int64{}
	for _, i := range m.dbs[m.eff].Indexes(m.c.Hint.Coll) {
		if i.TTL >= 0 {
			ttl = append(ttl, i.TTL)
		}
	}
	j["ttl"], j["indexes"] = ttl, len(m.dbs[m.eff].Indexes(m.c.Hint.Coll))
}

func runConf(o *ConfOptions) error {
	b, err := os.ReadFile(o.Grid)
	if err != nil {
		return err
	}
	var all map[string]json.RawMessage
	if err := json.Unmarshal(b, &all); err != nil {
		return err
	}
	x := &conf{o: o, r: rand.New(rand.NewSource(o.Seed*1000 + int64(o.Shard)))}
	if err := json.Unmarshal(all["options"], &x.options); err != nil {
		return err
	}
	var cases []*confCase
	if err := json.Unmarshal(all[o.Part], &cases); err != nil {
		return err
	}
	// The environment without what the program would take for settings.
	for _, v := range os.Environ() {
		own := false
		for _, opt := range x.options {
			own = own || strings.HasPrefix(v, opt.Env+"=")
		}
		if !own {
			x.env = append(x.env, v)
		}
	}
	f, err := os.Create(o.Out)
	if err != nil {
		return err
	}
	defer f.Close()
	x.w = bufio.NewWriter(f)
	defer x.w.Flush()
	if x.dir, err = os.MkdirTemp(o.Scratch, "conf"); err != nil {
		return err
	}
	defer os.RemoveAll(x.dir)
	if err := x.prepare(); err != nil {
		return err
	}
	pick := rand.New(rand.NewSource(o.Seed))
	for n, c := range cases {
		take := pick.Float64() < o.Share
		if !take || n%o.Shards != o.Shard {
			continue
		}
		var e J
		for try := 0; ; try++ {
			if c.Spread {
				e, err = x.spread(c)
			} else {
				e, err = x.run(c)
			}
			if err == nil || !errors.Is(err, errBusy) || try == 5 {
				break
			}
		}
		if err != nil {
			return err
		}
		if e == nil {
			continue
		}
		b, err := json.Marshal(e)
		if err != nil {
			return err
		}
		x.w.Write(append(b, '\n'))
	}
	return nil
}
