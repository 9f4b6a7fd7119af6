package main

import (
	"fmt"
	"math/rand"
	"strings"
	"time"

	"github.com/hyperonym/ratus"
)

// Gen draws the steps of one trace.
type Gen struct {
	r         *rand.Rand
	level     string // engine, http, client
	mongo     bool
	profile   string
	ids       []string
	topics    []string
	people    []string
	retention time.Duration
	now       time.Time
	cur       map[string]*ratus.Task // store as last observed
	nonces    []string               // nonces seen so far
	old       map[string][]string
	maxLimit  int
	maxOffset int
	big       bool
}

// Names that are easily confused with one another.
var namePools = [][]string{
	{"1", "10", "100", "11", "1x", "2", "x1", "01", "1 ", " 1", "A", "a"},
	{"a", "aa", "ab", "a/b", "a%2Fb", "a b", "a/", "/a", "b", "A", "a.", "a?"},
	{"a", "a\x00", "a\x00b", "\x00", "a\x01", "\x01", "a\x02", "a\x00\x00", "a\x01\x01", "b", "aa", "a\x00a"},
	{"ü", "u", "日本", "日", "é", "é", "😀", "ß", "SS", "ss", "\u2028", "я"},
	{"..", ".", "*", ":id", "%", "%%", "#", "&x=1", ";", "tasks", "promises", "\\"},
	{"x", "y", "z", "xx", "xy", "yx", "xyz", "zz", "zzz", "w", "ww", "wx"},
	{"topics", "v1", "+", "a+b", "a+/b", "~", "'", "\"", "<script>", "null", "0", "-1"},
	{"t", strings.Repeat("t", 200), strings.Repeat("t", 201), strings.Repeat("t", 1500) + "1", strings.Repeat("t", 1500) + "2", "t1", "t2", "T", "tt", "t\tt", "t\nt", "t-", "t_", "t."},
}

var retentions = []time.Duration{time.Second, 10 * time.Second, time.Hour, 72 * time.Hour, 0, time.Millisecond, 1500 * time.Microsecond}

func newGen(r *rand.Rand, level string, mongo bool, profile string) *Gen {
	g := &Gen{r: r, level: level, mongo: mongo, profile: profile, cur: map[string]*ratus.Task{}, old: map[string][]string{}, maxLimit: 100, maxOffset: 10000}
	pick := func(n int) []string {
		p := namePools[r.Intn(len(namePools))]
		if r.Intn(3) > 0 {
			p = namePools[[]int{0, 1, 5}[r.Intn(3)]]
		}
		q := append([]string{}, p...)
		r.Shuffle(len(q), func(i, j int) { q[i], q[j] = q[j], q[i] })
		return q[:n]
	}
	g.ids = pick(3 + r.Intn(6))
	g.topics = pick(2 + r.Intn(3))
	g.people = []string{"", "c1", "c2", "Ω consumer"}
	g.now = time.Unix(1700000000+int64(r.Intn(1000000)), int64(r.Intn(giga)))
	if r.Intn(3) == 0 {
		g.now = g.now.Truncate(time.Millisecond)
	}
	g.retention = retentions[r.Intn(len(retentions))]
	if r.Intn(4) == 0 && level != "engine" {
		g.maxLimit, g.maxOffset = 1+r.Intn(20), r.Intn(20)
	}
	if g.big = r.Intn(12) == 0; g.big {
		for i := 0; i < 40; i++ {
			g.ids = append(g.ids, fmt.Sprintf("big-%d", i))
		}
	}
	return g
}

func (g *Gen) p(n int) bool { return g.r.Intn(n) == 0 }

func (g *Gen) one(l []string) string { return l[g.r.Intn(len(l))] }

func (g *Gen) id() string {
	if g.p(15) {
		return "absent"
	}
	return g.one(g.ids)
}

// existing prefers an ID that is in the store (in the given state, if >= 0).
func (g *Gen) existing(state int) string {
	if len(g.cur) == 0 || g.p(8) {
		return g.id()
	}
	var l []string
	for _, i := range g.ids {
		if t := g.cur[i]; t != nil && (state < 0 || int(t.State) == state) {
			l = append(l, i)
		}
	}
	if len(l) == 0 {
		return g.id()
	}
	return g.one(l)
}

func (g *Gen) topic() string {
	if g.p(25) {
		return "nowhere"
	}
	return g.one(g.topics)
}

var strangeTimes = []string{"1969-12-31T23:59:59.5Z", "0001-01-01T00:00:00Z", "1960-05-05T05:05:05.000001Z",
	"9999-12-31T23:59:59.999999999Z", "1970-01-01T00:00:00Z", "1970-01-01T00:00:00.0005Z", "0001-01-01T00:00:00.000000001Z", "1677-01-01T00:00:00Z", "2300-01-01T00:00:00Z"}

func (g *Gen) time() *time.Time {
	var t time.Time
	switch g.r.Intn(14) {
	case 0:
		t, _ = time.Parse(time.RFC3339Nano, g.one(strangeTimes))
	case 1:
		t = g.now
	case 2, 3:
		t = g.now.Add(time.Duration(g.r.Intn(5)-2) * time.Millisecond)
	case 4:
		t = g.now.Add(time.Duration(g.r.Intn(3000000) - 1500000))
	case 5, 6:
		t = g.now.Add(time.Duration(g.r.Intn(7)-3) * time.Second)
	case 7:
		t = g.now.Add(time.Duration(g.r.Intn(2000)-1000) * time.Hour)
	case 8:
		t = g.now.Add(-g.retention)
	case 9:
		// the same time as some other one in the store
		for _, i := range g.ids {
			if u := g.cur[i]; u != nil && g.p(2) {
				for _, x := range []*time.Time{u.Scheduled, u.Deadline, u.Consumed} {
					if x != nil && g.p(2) {
						v := x.Add(time.Duration(g.r.Intn(3)-1) * []time.Duration{0, 1, time.Microsecond, time.Millisecond}[g.r.Intn(4)])
						if v.Year() > 9999 {
							v = *x
						}
						return &v
					}
				}
			}
		}
		t = g.now
	default:
		t = g.now.Add(-time.Duration(g.r.Intn(3600)) * time.Second)
	}
	if g.p(4) {
		t = t.Truncate(time.Millisecond)
	}
	return &t
}

func (g *Gen) maybe(n int) *time.Time {
	if g.p(n) {
		return nil
	}
	return g.time()
}

var payloads = []any{nil, "hello", "", float64(0), 3.14, true, false, "日本\u2028<&>\"", map[string]any{}, []any{},
	map[string]any{"a": nil, "b": []any{1.0, "x", map[string]any{"c": false}}, "d.e": "$x", "$f": 1.5},
	[]any{nil, []any{[]any{}}, map[string]any{"k": map[string]any{"l": "m"}}}, -1e300, 1e15, "n\x00ul",
	[]any{map[string]any{"a": 1.0}, map[string]any{"a": 2.0}}, strings.Repeat("long ", 500), map[string]any{"nested": map[string]any{"deep": []any{1.0, 2.0, 3.0}}}}

// bulky is longer than the buffers one meets on the way.
func (g *Gen) bulky() any {
	n := []int{5000, 40000, 70000, 300000}[g.r.Intn(4)]
	s := strings.Repeat(fmt.Sprintf("%d é<", g.r.Intn(1000)), n/6)
	if g.p(2) {
		return map[string]any{"big": []any{s, 1.0}, s[:2000]: true}
	}
	return s
}

func (g *Gen) payload() any {
	if g.p(80) {
		return g.bulky()
	}
	if g.p(3) {
		return fmt.Sprintf("v%d", g.r.Intn(1000000))
	}
	return payloads[g.r.Intn(len(payloads))]
}

var goodDurs = []string{"0s", "1ns", "1.5ms", "10s", "-10s", "1h30m", "87600h", "600s", "10m", "500ms", "-1ns", "1us", "+5s", "-87600h", "3s", "1m"}
var badDurs = []string{"abc", "10", "1d", "1 h", "--1s", "9999999h", "s", " ", "1h-", "P1D"}

func (g *Gen) dur() Dur {
	switch g.r.Intn(8) {
	case 0, 1, 2, 3:
		return Dur{K: "none"}
	case 4:
		if g.p(2) {
			return Dur{K: "bad", S: g.one(badDurs)}
		}
		fallthrough
	default:
		s := g.one(goodDurs)
		d, err := time.ParseDuration(s)
		if err != nil {
			panic(err)
		}
		return Dur{K: "ok", S: s, D: d}
	}
}

func (g *Gen) state() int {
	if g.level != "engine" && g.p(25) {
		return []int{-1, 4, 5, 100, -2147483648, 2147483647, 2147483646}[g.r.Intn(7)]
	}
	if g.p(2) {
		return 0
	}
	return g.r.Intn(4)
}

func (g *Gen) task(id string) TaskSpec {
	t := TaskSpec{ID: id, Topic: g.topic(), State: g.state(), Producer: g.one(g.people), Payload: g.payload()}
	if g.p(4) || t.State != 0 && !g.p(4) {
		t.Consumer = g.one(g.people)
		t.Consumed = g.maybe(4)
		t.Deadline = g.maybe(4)
	}
	if g.p(4) || t.State == 1 && g.p(2) {
		t.Nonce = fmt.Sprintf("given%d", g.r.Intn(1000000))
	}
	if g.level == "engine" {
		t.Produced = g.maybe(6)
		t.Scheduled = g.maybe(12)
	} else {
		if g.p(2) {
			t.Scheduled = g.time()
		}
		if g.p(3) {
			t.Produced = g.time()
		}
		t.Defer = g.dur()
	}
	return t
}

var badTask = []string{"{", "[]", `"x"`, `{"state":"x"}`, `{"scheduled":"yesterday"}`, `{"_id":5}`, `{"payload":}`, `{"state":1.5}`, `{"produced":12}`, "tru", `{"state":99999999999}`, `{"topic":["a"]}`,
	`{"scheduled":"9999-12-31T23:59:59-01:00"}`, `{"deadline":"0000-01-01T00:30:00+01:00"}`, `{"produced":"9999-12-31T19:00:00-05:00"}`}
var badTasks = []string{"{", "[]", `{"data":{}}`, `{"data":[1]}`, `{"data":"x"}`, `{"data":[{"state":"x"}]}`, `[{"_id":"1"}]`, "nul", `{"data":[{"_id":"1","topic":"t","consumed":"9999-12-31T23:59:59-01:00"}]}`}
var badPromise = []string{"{", `{"deadline":"soon"}`, `{"timeout":10}`, `{"consumer":{}}`, `[]`, `"x"`, `{"_id":1}`, `{"consumer":"c1","deadline":1}`, `{"deadline":"9999-12-31T23:59:59-01:00"}`}
var badCommit = []string{"{", `{"state":"done"}`, `{"state":1.5}`, `{"nonce":1}`, `{"scheduled":"later"}`, `[]`, `{"state":1,`, `{"topic":{}}`, `{"scheduled":"0000-01-01T00:30:00+01:00"}`}

var weights = map[string]map[string]int{
	"mix": {"InsertTask": 8, "UpsertTask": 4, "InsertTasks": 5, "UpsertTasks": 4, "DeleteTask": 3, "DeleteTasks": 1, "DeleteTopic": 1,
		"DeleteTopics": 1, "Poll": 12, "InsertPromise": 5, "UpsertPromise": 4, "DeletePromise": 4, "DeletePromises": 3, "Commit": 12, "Chore": 6,
		"GetTask": 2, "ListTasks": 3, "GetTopic": 2, "ListTopics": 2, "GetPromise": 2, "ListPromises": 2, "Pages": 3, "Expire": 4},
	"claim":  {"InsertTask": 6, "InsertTasks": 4, "UpsertTask": 3, "Poll": 20, "InsertPromise": 8, "UpsertPromise": 5, "DeletePromise": 4, "DeletePromises": 2, "Commit": 10, "Chore": 6, "DeleteTask": 1, "Expire": 1},
	"commit": {"InsertTask": 6, "InsertTasks": 4, "UpsertTask": 2, "Poll": 12, "InsertPromise": 6, "UpsertPromise": 4, "DeletePromise": 3, "DeletePromises": 1, "Commit": 30, "Chore": 5, "DeleteTask": 1, "GetTask": 1, "ListTasks": 1},
	"chore":  {"InsertTask": 8, "InsertTasks": 6, "UpsertTask": 3, "Poll": 8, "InsertPromise": 6, "UpsertPromise": 3, "DeletePromise": 1, "Commit": 10, "Chore": 25, "Expire": 10},
	"write":  {"InsertTask": 12, "UpsertTask": 12, "InsertTasks": 12, "UpsertTasks": 12, "DeleteTask": 8, "DeleteTasks": 4, "DeleteTopic": 4, "DeleteTopics": 2, "Poll": 4, "Commit": 3, "Chore": 2, "DeletePromises": 2},
	"read":   {"InsertTask": 6, "UpsertTask": 3, "InsertTasks": 6, "UpsertTasks": 3, "DeleteTask": 3, "DeleteTasks": 1, "Poll": 6, "InsertPromise": 4, "Commit": 6, "DeletePromises": 1, "Chore": 2, "GetTask": 4, "ListTasks": 6, "GetTopic": 4, "ListTopics": 5, "GetPromise": 4, "ListPromises": 6, "Pages": 10},
}

var opOrder = []string{"InsertTask", "UpsertTask", "InsertTasks", "UpsertTasks", "DeleteTask", "DeleteTasks", "DeleteTopic", "DeleteTopics", "Poll", "InsertPromise", "UpsertPromise", "DeletePromise", "DeletePromises", "Commit", "Chore", "Expire", "GetTask", "ListTasks", "GetTopic", "ListTopics", "GetPromise", "ListPromises", "Pages"}

func (g *Gen) op() string {
	w := weights[g.profile]
	if w == nil {
		panic("unknown profile " + g.profile)
	}
	n := 0
	for _, v := range w {
		n += v
	}
	x := g.r.Intn(n)
	for _, o := range opOrder {
		if x < w[o] {
			if o == "Expire" && !g.mongo {
				return "Chore"
			}
			return o
		}
		x -= w[o]
	}
	return "Poll"
}

// advance draws by how much the clock moves before the next step.
func (g *Gen) advance() time.Duration {
	switch g.r.Intn(10) {
	case 0, 1, 2, 3:
		return 0
	case 4:
		return time.Duration(g.r.Intn(2000000))
	case 5:
		return time.Duration(g.r.Intn(5)) * time.Second
	case 6, 7:
		// right around an instant that matters
		var l []time.Time
		for _, i := range g.ids {
			if t := g.cur[i]; t != nil {
				if t.Scheduled != nil {
					l = append(l, *t.Scheduled)
				}
				if t.Deadline != nil {
					l = append(l, *t.Deadline)
				}
				if t.Consumed != nil && t.Consumed.Year() < 5000 {
					l = append(l, t.Consumed.Add(g.retention))
				}
			}
		}
		if len(l) > 0 {
			t := l[g.r.Intn(len(l))].Add([]time.Duration{-time.Millisecond, -1, 0, 1, time.Microsecond, time.Millisecond, time.Millisecond + 1}[g.r.Intn(7)])
			if d := t.Sub(g.now); d > 0 && d < 30000*time.Hour {
				return d
			}
		}
		return 0
	case 8:
		return 10*time.Minute + time.Duration(g.r.Intn(3)-1)*time.Millisecond
	default:
		if g.p(4) {
			return g.retention
		}
		return time.Duration(g.r.Intn(1000)) * time.Millisecond
	}
}

func (g *Gen) page() (Num, Num) {
	if g.level == "engine" {
		return Num{"ok", "", 1 + g.r.Intn(6)}, Num{"ok", "", g.r.Intn(5)}
	}
	num := func(max int) Num {
		switch g.r.Intn(10) {
		case 0, 1:
			if g.level == "client" {
				return Num{"ok", "0", 0}
			}
			return Num{K: "none"}
		case 2:
			n := []int{-1, max + 1, max, 0, -100, 2000000000, max - 1}[g.r.Intn(7)]
			return Num{"ok", fmt.Sprint(n), n}
		case 3:
			if g.level == "client" {
				return Num{"ok", "1", 1}
			}
			return Num{"bad", []string{"abc", "1.5", "1e3", "0x10", "99999999999999999999", "--1"}[g.r.Intn(6)], 0}
		default:
			n := g.r.Intn(8)
			if n > max {
				n = max
			}
			return Num{"ok", fmt.Sprint(n), n}
		}
	}
	return num(g.maxLimit), num(g.maxOffset)
}

func (g *Gen) promise(id string) PromiseSpec {
	p := PromiseSpec{ID: id, Consumer: g.one(g.people)}
	if g.level == "engine" {
		p.Deadline = g.maybe(20)
		if p.Deadline == nil || g.p(2) {
			d := g.now.Add(time.Duration(g.r.Intn(20)) * time.Minute)
			if p.Deadline != nil {
				p.Deadline = &d
			}
		}
		return p
	}
	p.Timeout = g.dur()
	if g.p(4) {
		p.Deadline = g.time()
	}
	return p
}

func (g *Gen) nonceFor(id string) string {
	t := g.cur[id]
	switch g.r.Intn(10) {
	case 0:
		return ""
	case 1, 2:
		if l := g.old[id]; len(l) > 0 {
			return g.one(l)
		}
		fallthrough
	case 3:
		if len(g.nonces) > 0 {
			return g.one(g.nonces)
		}
		return "made up"
	case 4:
		if t != nil && t.Nonce != "" {
			return []string{t.Nonce[:len(t.Nonce)-1], strings.ToLower(t.Nonce), t.Nonce + "x", " " + t.Nonce}[g.r.Intn(4)]
		}
		return "made up"
	default:
		if t != nil && t.Nonce != "" {
			return t.Nonce
		}
		if l := g.old[id]; len(l) > 0 {
			return l[len(l)-1]
		}
		return ""
	}
}

// step draws the next step.
func (g *Gen) step() *Step {
	s := &Step{O: g.op(), BodyK: "none"}
	api := g.level != "engine"
	client := g.level == "client"
	path := func() {
		// path topics do not matter for operations on IDs
		if api && !client && g.p(2) {
			s.PTopic = g.topic()
		}
	}
	bad := func(l []string) bool {
		if g.level == "http" && g.p(10) {
			if g.p(3) {
				s.BodyK = "none"
			} else {
				s.BodyK, s.BadBody = "bad", g.one(l)
			}
			return true
		}
		s.BodyK = "ok"
		return false
	}
	switch s.O {
	case "InsertTask", "UpsertTask":
		t := g.task(g.id())
		if s.O == "InsertTask" && g.p(4) {
			t.ID = g.existing(-1)
		}
		if s.O == "UpsertTask" && g.p(6) {
			// an identical replacement
			if u := g.cur[g.existing(-1)]; u != nil {
				t = specOf(u)
			}
		}
		s.PID = t.ID
		if api && !client {
			path()
			if g.p(3) {
				t.ID = ""
			} else if g.p(15) {
				t.ID = g.id()
			}
			if s.PTopic != "" && g.p(2) || g.p(15) {
				t.Topic = ""
			}
			bad(badTask)
		} else {
			s.BodyK = "ok"
		}
		s.Tasks = []TaskSpec{t}
	case "InsertTasks", "UpsertTasks":
		n := g.r.Intn(5)
		if g.big && g.p(3) {
			n = 30 + g.r.Intn(40)
		}
		perm := g.r.Perm(len(g.ids))
		for i := 0; i < n; i++ {
			id := g.ids[perm[i%len(perm)]]
			if g.p(8) && i > 0 {
				id = s.Tasks[g.r.Intn(i)].ID // a duplicate within the batch
			}
			t := g.task(id)
			if api && !g.p(3) && (t.State < 0 || t.State > 3) {
				t.State = 0
			}
			if api && t.Defer.K == "bad" && !g.p(4) {
				t.Defer = Dur{K: "none"}
			}
			s.Tasks = append(s.Tasks, t)
		}
		if api && !client {
			if g.p(2) {
				s.PTopic = g.topic()
			}
			for i := range s.Tasks {
				if s.PTopic != "" && g.p(3) || g.p(60) {
					s.Tasks[i].Topic = ""
				}
				if g.p(60) {
					s.Tasks[i].ID = ""
				}
				if g.p(80) {
					s.Tasks[i].Null = true
				}
			}
			bad(badTasks)
		} else {
			s.BodyK = "ok"
		}
	case "DeleteTask":
		s.PID = g.existing(-1)
		path()
	case "GetTask":
		s.PID = g.existing(-1)
		path()
	case "GetPromise", "DeletePromise":
		s.PID = g.existing([]int{1, 1, -1}[g.r.Intn(3)])
		path()
	case "DeleteTasks", "DeleteTopic", "GetTopic", "DeletePromises":
		s.PTopic = g.topic()
	case "DeleteTopics":
	case "ListTasks", "ListPromises":
		s.PTopic = g.topic()
		s.Limit, s.Offset = g.page()
	case "ListTopics":
		s.Limit, s.Offset = g.page()
	case "Pages":
		s.What = []string{"tasks", "tasks", "promises", "topics"}[g.r.Intn(4)]
		if s.What != "topics" {
			s.PTopic = g.topic()
		}
		n := 1 + g.r.Intn(4)
		if g.big {
			n = 5 + g.r.Intn(20)
		}
		if g.r.Intn(5) == 0 {
			n = 60
		}
		if n > g.maxLimit {
			n = g.maxLimit
		}
		s.Limit = Num{"ok", fmt.Sprint(n), n}
		if g.maxOffset < 10000 {
			s.O = "GetTopic" // pages beyond the maximum offset are refused
			s.PTopic = g.topic()
		}
	case "Poll":
		s.PTopic = g.topic()
		if g.p(3) {
			// where something is due
			if u := g.cur[g.existing(0)]; u != nil {
				s.PTopic = u.Topic
			}
		}
		s.P = g.promise("")
		if api {
			if g.p(12) {
				s.P.ID = g.existing(0)
			}
			if client {
				s.BodyK = "ok"
				s.Query = g.p(2)
				if s.P.ID != "" {
					s.Query = false
				}
			} else {
				s.Query = g.p(3)
				if bad(badPromise) {
					s.P = PromiseSpec{}
					if s.Query && s.BodyK == "bad" {
						s.BadBody = "soon"
					}
				}
			}
		}
	case "InsertPromise", "UpsertPromise":
		id := g.existing([]int{0, 0, 1, -1}[g.r.Intn(4)])
		s.P = g.promise(id)
		s.PID = id
		if api && !client {
			path()
			s.Query = g.p(3)
			if g.p(2) {
				s.P.ID = ""
			} else if g.p(10) {
				s.P.ID = g.id()
			}
			if bad(badPromise) {
				s.P = PromiseSpec{}
				if s.Query && s.BodyK == "bad" {
					s.BadBody = "soon"
				}
			}
		} else {
			s.BodyK = "ok"
		}
	case "Commit":
		s.PID = g.existing([]int{1, 1, 1, -1}[g.r.Intn(4)])
		path()
		c := CommitSpec{State: noState, Nonce: g.nonceFor(s.PID)}
		if !api {
			c.State = g.r.Intn(4)
		} else if g.p(2) {
			c.State = g.state()
		}
		if g.p(3) {
			c.Topic = g.topic()
		}
		if g.p(3) {
			c.Scheduled = g.time()
		}
		if g.p(3) {
			c.Payload = g.payload()
		}
		if api && g.p(2) {
			c.Defer = g.dur()
		}
		s.C = c
		if api && !client {
			if bad(badCommit) {
				s.C = CommitSpec{State: noState}
			}
		} else {
			s.BodyK = "ok"
		}
	}
	if api {
		g.spoil(s)
	}
	return s
}

// spoil turns some requests into ones with an empty path parameter or, at the
// HTTP level, one that is not valid UTF-8.
func (g *Gen) spoil(s *Step) {
	e, ok := endpoints[s.O]
	if !ok {
		return
	}
	if g.p(50) {
		switch {
		case strings.HasSuffix(e.path, "/I"):
			s.PID = ""
			if g.level == "client" {
				s.P.ID = ""
				for i := range s.Tasks {
					s.Tasks[i].ID = ""
				}
			}
		default:
			if strings.Contains(e.path, "T") {
				s.PTopic = ""
			}
		}
		return
	}
	if g.level == "http" && g.p(50) {
		l := []string{"query"}
		if strings.Contains(e.path, "T") {
			l = append(l, "topic", "topic")
		}
		if strings.Contains(e.path, "I") {
			l = append(l, "id", "id")
		}
		s.BadUTF = g.one(l)
	}
}

func specOf(u *ratus.Task) TaskSpec {
	return TaskSpec{ID: u.ID, Topic: u.Topic, State: int(u.State), Nonce: u.Nonce, Producer: u.Producer, Consumer: u.Consumer,
		Produced: u.Produced, Scheduled: u.Scheduled, Consumed: u.Consumed, Deadline: u.Deadline, Payload: u.Payload, Defer: Dur{K: "none"}}
}

// observe tells the generator what the store looks like.
func (g *Gen) observe(cur map[string]*ratus.Task) {
	for i, t := range cur {
		if o := g.cur[i]; t.Nonce != "" && (o == nil || o.Nonce != t.Nonce) {
			g.nonces = append(g.nonces, t.Nonce)
			g.old[i] = append(g.old[i], t.Nonce)
		}
	}
	g.cur = cur
}
