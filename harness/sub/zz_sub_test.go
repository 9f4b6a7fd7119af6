package ratus_test

// Runs subscriptions of the real client against a scripted server inside a
// synctest bubble and records everything that happens.

import (
	"bufio"
	"context"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"math/rand"
	"net"
	"net/http"
	"net/url"
	"os"
	"regexp"
	"strconv"
	"strings"
	"sync"
	"testing"
	"testing/synctest"
	"time"

	"github.com/hyperonym/ratus"
)

type zzJ = map[string]any

const zzNever = 1000000000

// zzPipe is a listener whose connections are in-memory pipes.
type zzPipe struct {
	c    chan net.Conn
	done chan struct{}
	once sync.Once
}

func (p *zzPipe) Accept() (net.Conn, error) {
	select {
	case c := <-p.c:
		return c, nil
	case <-p.done:
		return nil, net.ErrClosed
	}
}
func (p *zzPipe) Close() error   { p.once.Do(func() { close(p.done) }); return nil }
func (p *zzPipe) Addr() net.Addr { return &net.UnixAddr{Name: "pipe", Net: "unix"} }
func (p *zzPipe) dial(ctx context.Context, _, _ string) (net.Conn, error) {
	a, b := net.Pipe()
	select {
	case p.c <- a:
		return b, nil
	case <-p.done:
		return nil, net.ErrClosed
	case <-ctx.Done():
		return nil, ctx.Err()
	}
}

type zzRun struct {
	mux    sync.Mutex
	start  time.Time
	log    []zzJ
	seed   int64
	polls  int
	comms  int
	calls  int
	nhand  int
	end    int64
	errk   string
	budget int
	minLat int
	topic  string
	cancel context.CancelFunc
	byHand int // cancel in this handler call
}

func (z *zzRun) ms() int64 { return time.Since(z.start).Milliseconds() }

func (z *zzRun) emit(e zzJ) {
	z.mux.Lock()
	e["now"] = z.ms()
	z.log = append(z.log, e)
	z.mux.Unlock()
}

func (z *zzRun) rnd(kind, n int) *rand.Rand {
	return rand.New(rand.NewSource(z.seed*7919 + int64(kind)*104729 + int64(n)*15485863))
}

func pick[T any](r *rand.Rand, l ...T) T { return l[r.Intn(len(l))] }

var zzOrigin = regexp.MustCompile(`[EC]\d+x`)

func zzTok(err error) string {
	if m := zzOrigin.FindString(err.Error()); m != "" {
		return m
	}
	return "?"
}

func zzFail(w http.ResponseWriter, r *rand.Rand, tok string) (func(), string) {
	switch k := r.Intn(9); {
	case k < 6:
		c := pick(r, 400, 409, 499, 500, 503, 500)
		return func() {
			w.WriteHeader(c)
			fmt.Fprintf(w, `{"error":{"code":%d,"message":"broken %s"}}`, c, tok)
		}, tok
	case k == 6:
		return func() { w.WriteHeader(pick(r, 200, 502)); io.WriteString(w, "<html>") }, "?"
	case k == 7:
		return func() {
			w.Header().Set("Content-Length", "1000")
			io.WriteString(w, `{"_id":"zz","topi`)
		}, "?"
	default:
		return func() { panic(http.ErrAbortHandler) }, "?"
	}
}

func (z *zzRun) ServeHTTP(w http.ResponseWriter, q *http.Request) {
	b, _ := io.ReadAll(q.Body)
	var m map[string]json.RawMessage
	json.Unmarshal(b, &m)
	str := func(k string) string {
		v, ok := m[k]
		delete(m, k)
		if !ok {
			return ""
		}
		var s string
		if json.Unmarshal(v, &s) != nil {
			return string(v)
		}
		return s
	}
	sleep := func(ms int) bool {
		select {
		case <-time.After(time.Duration(ms) * time.Millisecond):
			return true
		case <-q.Context().Done():
			return false
		}
	}
	path := q.URL.EscapedPath()
	switch {
	case q.Method == "POST" && strings.HasPrefix(path, "/v1/topics/") && strings.HasSuffix(path, "/promises") && strings.Count(path, "/") == 4:
		topic, _ := url.PathUnescape(strings.Split(path, "/")[3])
		p := zzJ{"topic": topic, "consumer": str("consumer"), "timeout": str("timeout")}
		rest := ""
		for k := range m {
			rest += k + " "
		}
		p["other"] = rest + q.URL.RawQuery
		z.mux.Lock()
		z.polls++
		n := z.polls
		z.mux.Unlock()
		z.emit(zzJ{"t": "poll", "req": n, "promise": p})
		r := z.rnd(1, n)
		if n > z.budget {
			<-q.Context().Done()
			return
		}
		lat := pick(r, 0, 0, 0, 1, 7, 40, 300)
		if lat < z.minLat {
			lat = z.minLat
		}
		if lat > 0 && !sleep(lat) {
			return
		}
		switch k := r.Intn(10); {
		case k < 6:
			id, nonce := fmt.Sprintf("k%d", n), fmt.Sprintf("n%d", n)
			if r.Intn(6) == 0 {
				id = fmt.Sprintf("k %d/+%%ü", n)
			}
			t := ratus.Task{ID: id, Topic: topic, State: 1, Nonce: nonce, Consumer: "other", Payload: "p"}
			dur := pick(r, 5, 20, 100, 1000, 1000, 600000, 600000, zzNever, 0, -50)
			base := time.Now().Add(pick(r, 0, time.Hour, -time.Hour, -3*time.Second))
			if dur == zzNever {
				switch r.Intn(3) {
				case 0:
					t.Consumed = &base
				case 1:
					t.Deadline = &base
				}
			} else {
				d := base.Add(time.Duration(dur) * time.Millisecond)
				t.Consumed, t.Deadline = &base, &d
			}
			d, _ := json.Marshal(&t)
			z.emit(zzJ{"t": "answer", "req": n, "a": zzJ{"k": "task", "task": id, "nonce": nonce, "dur": dur, "origin": ""}})
			w.Write(d)
		case k < 8:
			z.emit(zzJ{"t": "answer", "req": n, "a": zzJ{"k": "empty", "task": "", "nonce": "", "dur": zzNever, "origin": ""}})
			w.WriteHeader(404)
			io.WriteString(w, `{"error":{"code":404,"message":"not found"}}`)
		default:
			f, o := zzFail(w, r, fmt.Sprintf("E%dx", n))
			z.emit(zzJ{"t": "answer", "req": n, "a": zzJ{"k": "error", "task": "", "nonce": "", "dur": zzNever, "origin": o}})
			f()
		}
	case q.Method == "PATCH" && strings.HasPrefix(path, "/v1/topics/") && strings.Count(path, "/") == 5:
		id, _ := url.PathUnescape(strings.Split(path, "/")[5])
		cm := zzJ{"nonce": str("nonce"), "topic": str("topic"), "scheduled": str("scheduled"), "defer": str("defer"), "state": -1}
		if v, ok := m["state"]; ok {
			if i, err := strconv.Atoi(string(v)); err == nil {
				cm["state"] = i
			}
			delete(m, "state")
		}
		cm["payload"] = string(m["payload"])
		delete(m, "payload")
		for k := range m {
			cm["payload"] = cm["payload"].(string) + " and " + k
		}
		z.mux.Lock()
		z.comms++
		n := z.comms
		z.mux.Unlock()
		z.emit(zzJ{"t": "commit", "task": id, "cm": cm})
		r := z.rnd(2, n)
		if lat := pick(r, 0, 0, 0, 2, 30, 400); lat > 0 && !sleep(lat) {
			return
		}
		switch k := r.Intn(10); {
		case k < 6:
			z.emit(zzJ{"t": "canswer", "task": id, "ok": true, "origin": ""})
			fmt.Fprintf(w, `{"_id":"x","topic":"t","state":2}`)
		case k < 8:
			o := fmt.Sprintf("C%dx", n)
			z.emit(zzJ{"t": "canswer", "task": id, "ok": false, "origin": o})
			c := pick(r, 404, 409)
			w.WriteHeader(c)
			fmt.Fprintf(w, `{"error":{"code":%d,"message":"no %s"}}`, c, o)
		default:
			f, o := zzFail(w, r, fmt.Sprintf("C%dx", n))
			z.emit(zzJ{"t": "canswer", "task": id, "ok": false, "origin": o})
			f()
		}
	default:
		z.emit(zzJ{"t": "request", "what": q.Method + " " + path})
		w.WriteHeader(500)
	}
}

func (z *zzRun) handler(x *ratus.Context, err error) {
	if err != nil || x == nil {
		z.mux.Lock()
		z.calls++
		n := z.calls
		z.mux.Unlock()
		o := "nil"
		if err != nil {
			o = zzTok(err)
		}
		z.emit(zzJ{"t": "report", "origin": o, "call": n})
		r := z.rnd(3, n)
		time.Sleep(time.Duration(pick(r, 0, 0, 3, 60)) * time.Millisecond)
		z.emit(zzJ{"t": "reported", "call": n})
		return
	}
	z.mux.Lock()
	z.nhand++
	n := z.nhand
	z.mux.Unlock()
	dl := int64(zzNever)
	if d, ok := x.Deadline(); ok {
		dl = d.Sub(z.start).Milliseconds()
	}
	id := x.Task.ID
	z.emit(zzJ{"t": "handle", "task": id, "dl": dl})
	r := z.rnd(4, n)
	set := func(f string, v any) { z.emit(zzJ{"t": "set", "task": id, "f": f, "v": v}) }
	for k := r.Intn(6); k > 0; k-- {
		ts := time.Date(2024, 1, 1+r.Intn(20), 0, 0, 0, 0, time.UTC)
		tss := ts.Format(time.RFC3339Nano)
		switch r.Intn(14) {
		case 0:
			set("nonce", "other")
			x.SetNonce("other")
		case 1:
			set("topic", "u")
			x.SetTopic("u")
		case 2:
			s := r.Intn(4)
			set("state", s)
			x.SetState(ratus.TaskState(s))
		case 3:
			set("scheduled", tss)
			x.SetScheduled(ts)
		case 4:
			set("payload", `{"a":[1]}`)
			x.SetPayload(zzJ{"a": []int{1}})
		case 5:
			set("defer", "3s")
			x.SetDefer("3s")
		case 6:
			set("force", "")
			x.Force()
		case 7:
			set("abstain", "")
			x.Abstain()
		case 8:
			set("archive", "")
			x.Archive()
		case 9:
			set("reschedule", tss)
			x.Reschedule(ts)
		case 10:
			set("retry", "5m")
			x.Retry("5m")
		case 11:
			set("reset", "")
			x.Reset()
		case 12:
			z.emit(zzJ{"t": "mstart", "task": id})
			err := x.Commit()
			z.emit(zzJ{"t": "mdone", "task": id, "ok": err == nil})
		case 13:
			time.Sleep(time.Duration(pick(r, 1, 20, 200)) * time.Millisecond)
		}
	}
	if n == z.byHand {
		z.mux.Lock()
		if z.end > z.ms() {
			z.end = z.ms()
		}
		z.mux.Unlock()
		z.cancel()
	}
	time.Sleep(time.Duration(pick(r, 0, 0, 0, 5, 50, 1500)) * time.Millisecond)
	z.emit(zzJ{"t": "handled", "task": id})
}

func TestZZSub(t *testing.T) {
	out := os.Getenv("SUB_OUT")
	seed, _ := strconv.ParseInt(os.Getenv("SUB_SEED"), 10, 64)
	traces, _ := strconv.Atoi(os.Getenv("SUB_TRACES"))
	f, err := os.Create(out)
	if err != nil {
		t.Fatal(err)
	}
	defer f.Close()
	w := bufio.NewWriter(f)
	defer w.Flush()
	line := func(v any) {
		b, err := json.Marshal(v)
		if err != nil {
			panic(err)
		}
		w.Write(b)
		w.WriteByte('\n')
	}
	only := -1
	if v := os.Getenv("SUB_ONLY"); v != "" {
		only, _ = strconv.Atoi(v)
	}
	for tr := 0; tr < traces; tr++ {
		if only >= 0 && tr != only {
			continue
		}
		synctest.Test(t, func(t *testing.T) {
			s := seed*100003 + int64(tr)
			r := rand.New(rand.NewSource(s))
			z := &zzRun{seed: s, start: time.Now(), end: zzNever, budget: 10 + r.Intn(60), errk: "canceled", byHand: -1}
			p := &zzPipe{c: make(chan net.Conn), done: make(chan struct{})}
			old := http.DefaultTransport
			http.DefaultTransport = &http.Transport{DialContext: p.dial}
			c, err := ratus.NewClient(&ratus.ClientOptions{Origin: "http://ratus"})
			http.DefaultTransport = old
			if err != nil {
				panic(err)
			}
			srv := &http.Server{Handler: z}
			go srv.Serve(p)

			ms := func(l ...int) time.Duration { return time.Duration(pick(r, l...)) * time.Millisecond }
			o := &ratus.SubscribeOptions{
				Topic:            pick(r, "topic", "a b", "x/ü+%"),
				Concurrency:      pick(r, 0, 1, 1, 2, 2, 3, 4, 8, -1),
				ConcurrencyDelay: ms(0, 1, 10, 500, -5),
				PollInterval:     ms(0, 0, 1, 100, 2000),
				DrainInterval:    ms(0, 10, 300, 3000),
				ErrorInterval:    ms(0, 5, 200, 4000),
			}
			d := time.Date(2001, 1, 1, 0, 0, 0, 0, time.UTC)
			o.Promise = &ratus.Promise{ID: pick(r, "", "id"), Consumer: pick(r, "", "me"), Timeout: pick(r, "", "30s", "5m")}
			if r.Intn(2) == 0 {
				o.Promise.Deadline = &d
			}
			z.topic = o.Topic
			if o.PollInterval <= 0 {
				z.minLat = 1
			}
			or := func(d, def time.Duration) int64 {
				if d <= 0 {
					d = def
				}
				return d.Milliseconds()
			}
			cfg := zzJ{"n": o.Concurrency, "cd": or(o.ConcurrencyDelay, time.Second), "pi": o.PollInterval.Milliseconds(),
				"di": or(o.DrainInterval, 5*time.Second), "ei": or(o.ErrorInterval, 30*time.Second),
				"topic": o.Topic, "consumer": o.Promise.Consumer, "timeout": o.Promise.Timeout}
			end := int64(pick(r, 0, 1, 50, 400, 3000, 20000, 20000, 200000, 200000, 1000000))
			ctx, cancel := context.WithCancel(context.Background())
			z.cancel = cancel
			enddl := int64(zzNever)
			switch r.Intn(4) {
			case 0:
				ctx, cancel = context.WithTimeout(ctx, time.Duration(end)*time.Millisecond)
				z.errk, enddl, z.end = "deadline", end, end
			case 1:
				z.byHand = 1 + r.Intn(8)
				fallthrough
			default:
				time.AfterFunc(time.Duration(end)*time.Millisecond, func() {
					z.mux.Lock()
					if z.end > z.ms() {
						z.end = z.ms()
					}
					z.mux.Unlock()
					z.cancel()
				})
			}
			res := make(chan error, 1)
			go func() { res <- c.Subscribe(ctx, o, z.handler) }()
			hang := false
			select {
			case err = <-res:
				k := "other"
				if errors.Is(err, context.Canceled) {
					k = "canceled"
				} else if errors.Is(err, context.DeadlineExceeded) {
					k = "deadline"
				}
				z.emit(zzJ{"t": "return", "err": k})
			case <-time.After(24 * time.Hour):
				hang = true
			}
			if !hang {
				time.Sleep(time.Hour)
			}
			z.emit(zzJ{"t": "end"})
			if z.errk == "deadline" && z.byHand > 0 {
				z.errk = "canceled"
			}
			cfg["end"], cfg["enddl"], cfg["err"] = z.end, enddl, z.errk
			line(zzJ{"t": "reset", "tr": tr, "now": 0, "cfg": cfg})
			z.mux.Lock()
			for _, e := range z.log {
				line(e)
			}
			z.mux.Unlock()
			if hang {
				w.Flush()
				os.Exit(0)
			}
			cancel()
			z.cancel()
			srv.Close()
			p.Close()
		})
	}
}
