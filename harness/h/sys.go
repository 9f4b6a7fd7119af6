package main

import (
	"bytes"
	"context"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"net/http"
	"net/http/httptest"
	"net/url"
	"time"

	"github.com/gin-gonic/gin"

	"github.com/hyperonym/ratus"
	"github.com/hyperonym/ratus/docs"
	"github.com/hyperonym/ratus/internal/config"
	"github.com/hyperonym/ratus/internal/controller"
	"github.com/hyperonym/ratus/internal/engine"
	"github.com/hyperonym/ratus/internal/middleware"
	"github.com/hyperonym/ratus/internal/router"
)

// Sys is a way to reach the code under test.
type Sys interface {
	Do(ctx context.Context, k *Tok, s *Step) Result
}

// Codes for answers that are no answers.
const (
	codePanic   = 598
	codeHang    = 597
	codeGarbage = 599
)

var hangTimeout = 30 * time.Second

// guarded runs a call, turning panics and hangs into results.
func guarded(y Sys, ctx context.Context, k *Tok, s *Step) Result {
	ch := make(chan Result, 1)
	go func() {
		defer func() {
			if p := recover(); p != nil {
				ch <- Result{Code: codePanic, Ret: retNone, Note: fmt.Sprint(p), Dead: true}
			}
		}()
		ch <- y.Do(ctx, k, s)
	}()
	select {
	case r := <-ch:
		return r
	case <-time.After(hangTimeout):
		return Result{Code: codeHang, Ret: retNone, Dead: true, Note: "no answer"}
	}
}

func errCode(err error) int {
	switch {
	case errors.Is(err, ratus.ErrBadRequest):
		return 400
	case errors.Is(err, ratus.ErrNotFound):
		return 404
	case errors.Is(err, ratus.ErrConflict):
		return 409
	case errors.Is(err, ratus.ErrClientClosedRequest), errors.Is(err, context.Canceled):
		return 499
	case errors.Is(err, ratus.ErrServiceUnavailable):
		return 503
	}
	return 500
}

// ---------------------------------------------------------------------------

// EngineSys calls the storage engine.
type EngineSys struct{ g engine.Engine }

func res(ret J, err error) Result {
	if err != nil {
		return Result{Code: errCode(err), Ret: retNone, ErrOK: true, Note: err.Error()}
	}
	c := 200
	if ret["k"] == "updated" && ret["created"].(int64) > 0 {
		c = 201
	}
	return Result{Code: c, Ret: ret, ErrOK: true}
}

func (p *PromiseSpec) promise() *ratus.Promise {
	return &ratus.Promise{ID: p.ID, Consumer: p.Consumer, Deadline: cp(p.Deadline)}
}

func (y *EngineSys) Do(ctx context.Context, k *Tok, s *Step) Result {
	g := y.g
	ts := make([]*ratus.Task, len(s.Tasks))
	for i := range s.Tasks {
		ts[i] = s.Tasks[i].task()
	}
	switch s.O {
	case "InsertTask":
		v, err := g.InsertTask(ctx, ts[0])
		return res(k.rUpdated(v), err)
	case "UpsertTask":
		v, err := g.UpsertTask(ctx, ts[0])
		return res(k.rUpdated(v), err)
	case "InsertTasks":
		v, err := g.InsertTasks(ctx, ts)
		return res(k.rUpdated(v), err)
	case "UpsertTasks":
		v, err := g.UpsertTasks(ctx, ts)
		return res(k.rUpdated(v), err)
	case "DeleteTask":
		v, err := g.DeleteTask(ctx, s.PID)
		return res(k.rDeleted(v), err)
	case "DeleteTasks":
		v, err := g.DeleteTasks(ctx, s.PTopic)
		return res(k.rDeleted(v), err)
	case "DeleteTopic":
		v, err := g.DeleteTopic(ctx, s.PTopic)
		return res(k.rDeleted(v), err)
	case "DeleteTopics":
		v, err := g.DeleteTopics(ctx)
		return res(k.rDeleted(v), err)
	case "Poll":
		v, err := g.Poll(ctx, s.PTopic, s.P.promise())
		return res(k.rTask(v), err)
	case "InsertPromise":
		v, err := g.InsertPromise(ctx, s.P.promise())
		return res(k.rTask(v), err)
	case "UpsertPromise":
		v, err := g.UpsertPromise(ctx, s.P.promise())
		return res(k.rTask(v), err)
	case "DeletePromise":
		v, err := g.DeletePromise(ctx, s.PID)
		return res(k.rDeleted(v), err)
	case "DeletePromises":
		v, err := g.DeletePromises(ctx, s.PTopic)
		return res(k.rDeleted(v), err)
	case "Commit":
		st := ratus.TaskState(s.C.State)
		v, err := g.Commit(ctx, s.PID, &ratus.Commit{Nonce: s.C.Nonce, Topic: s.C.Topic, State: &st, Scheduled: cp(s.C.Scheduled), Payload: s.C.Payload})
		return res(k.rTask(v), err)
	case "Chore":
		return res(retNone, g.Chore(ctx))
	case "GetTask":
		v, err := g.GetTask(ctx, s.PID)
		return res(k.rTask(v), err)
	case "GetTopic":
		v, err := g.GetTopic(ctx, s.PTopic)
		return res(k.rTopic(v), err)
	case "GetPromise":
		v, err := g.GetPromise(ctx, s.PID)
		return res(k.rPromise(v), err)
	case "ListTasks":
		v, err := g.ListTasks(ctx, s.PTopic, s.Limit.N, s.Offset.N)
		return res(rList(k.lTasks(v)), err)
	case "ListPromises":
		v, err := g.ListPromises(ctx, s.PTopic, s.Limit.N, s.Offset.N)
		return res(rList(k.lPromises(v)), err)
	case "ListTopics":
		v, err := g.ListTopics(ctx, s.Limit.N, s.Offset.N)
		return res(rList(k.lTopics(v)), err)
	case "Pages":
		return pages(y, ctx, k, s)
	}
	panic("unknown operation " + s.O)
}

// pages lists all pages of a list.
func pages(y Sys, ctx context.Context, k *Tok, s *Step) Result {
	l := make([]any, 0)
	for off := 0; off < 100000; off += s.Limit.N {
		t := &Step{O: map[string]string{"tasks": "ListTasks", "promises": "ListPromises", "topics": "ListTopics"}[s.What],
			PTopic: s.PTopic, Limit: s.Limit, Offset: Num{K: "ok", S: fmt.Sprint(off), N: off}}
		r := y.Do(ctx, k, t)
		if r.Code != 200 {
			return r
		}
		p := r.Ret["list"].([]any)
		l = append(l, p)
		if len(p) < s.Limit.N || off > 2000 {
			break
		}
	}
	return Result{Code: 200, Ret: J{"k": "pages", "pages": l}, ErrOK: true}
}

// ---------------------------------------------------------------------------

// newHandler mounts the API in front of an engine as cmd/ratus does.
func newHandler(g engine.Engine, pc *config.PaginationConfig) http.Handler {
	gin.SetMode(gin.ReleaseMode)
	return router.New(&controller.V1{
		Pagination: middleware.Pagination(pc),
		Topic:      controller.NewTopicController(g),
		Task:       controller.NewTaskController(g),
		Promise:    controller.NewPromiseController(g),
		Health:     controller.NewHealthController(g),
		Metrics:    controller.NewMetricsController(g),
	}, &docs.Swagger{}).Handler()
}

// HTTPSys sends raw requests to the handler.
type HTTPSys struct {
	h      http.Handler
	prefix string
	zone   *time.Location
	// direct engine for the operations that have no endpoint
	g engine.Engine
	// if set, requests go over this server
	base string
}

// endpoints: method, path with T and I for the parameters, route
type endpoint struct{ method, path, route string }

var endpoints = map[string]endpoint{
	"InsertTask":     {"POST", "/topics/T/tasks/I", "/topics/:topic/tasks/:id"},
	"UpsertTask":     {"PUT", "/topics/T/tasks/I", "/topics/:topic/tasks/:id"},
	"InsertTasks":    {"POST", "/topics/T/tasks", "/topics/:topic/tasks"},
	"UpsertTasks":    {"PUT", "/topics/T/tasks", "/topics/:topic/tasks"},
	"DeleteTask":     {"DELETE", "/topics/T/tasks/I", "/topics/:topic/tasks/:id"},
	"DeleteTasks":    {"DELETE", "/topics/T/tasks", "/topics/:topic/tasks"},
	"DeleteTopic":    {"DELETE", "/topics/T", "/topics/:topic"},
	"DeleteTopics":   {"DELETE", "/topics", "/topics"},
	"Poll":           {"POST", "/topics/T/promises", "/topics/:topic/promises"},
	"InsertPromise":  {"POST", "/topics/T/promises/I", "/topics/:topic/promises/:id"},
	"UpsertPromise":  {"PUT", "/topics/T/promises/I", "/topics/:topic/promises/:id"},
	"DeletePromise":  {"DELETE", "/topics/T/promises/I", "/topics/:topic/promises/:id"},
	"DeletePromises": {"DELETE", "/topics/T/promises", "/topics/:topic/promises"},
	"Commit":         {"PATCH", "/topics/T/tasks/I", "/topics/:topic/tasks/:id"},
	"GetTask":        {"GET", "/topics/T/tasks/I", "/topics/:topic/tasks/:id"},
	"GetTopic":       {"GET", "/topics/T", "/topics/:topic"},
	"GetPromise":     {"GET", "/topics/T/promises/I", "/topics/:topic/promises/:id"},
	"ListTasks":      {"GET", "/topics/T/tasks", "/topics/:topic/tasks"},
	"ListPromises":   {"GET", "/topics/T/promises", "/topics/:topic/promises"},
	"ListTopics":     {"GET", "/topics", "/topics"},
	"Ready":          {"GET", "/readyz", "/readyz"},
	"Live":           {"GET", "/livez", "/livez"},
}

func (y *HTTPSys) ft(t *time.Time) string {
	u := *t
	if y.zone != nil {
		u = u.In(y.zone)
	}
	if u.Year() < 1 || u.Year() > 9999 {
		u = t.UTC()
	}
	return u.Format(time.RFC3339Nano)
}

func (y *HTTPSys) taskBody(t *TaskSpec) any {
	if t.Null {
		return nil
	}
	m := J{}
	put := func(k, v string) {
		if v != "" {
			m[k] = v
		}
	}
	put("_id", t.ID)
	put("topic", t.Topic)
	put("nonce", t.Nonce)
	put("producer", t.Producer)
	put("consumer", t.Consumer)
	if t.State != 0 {
		m["state"] = t.State
	}
	for k, v := range map[string]*time.Time{"produced": t.Produced, "scheduled": t.Scheduled, "consumed": t.Consumed, "deadline": t.Deadline} {
		if v != nil {
			m[k] = y.ft(v)
		}
	}
	if t.Payload != nil {
		m["payload"] = t.Payload
	}
	put("defer", t.Defer.S)
	return m
}

func (y *HTTPSys) request(s *Step) *http.Request {
	e := endpoints[s.O]
	var u bytes.Buffer
	u.WriteString(y.prefix)
	for _, c := range e.path {
		switch c {
		case 'T':
			u.WriteString(esc(s.PTopic))
			if s.BadUTF == "topic" {
				u.WriteString("%ff")
			}
		case 'I':
			u.WriteString(esc(s.PID))
			if s.BadUTF == "id" {
				u.WriteString("%e3%81")
			}
		default:
			u.WriteRune(c)
		}
	}
	q := url.Values{}
	var body any
	switch s.O {
	case "InsertTask", "UpsertTask":
		if s.BodyK == "ok" {
			body = y.taskBody(&s.Tasks[0])
		}
	case "InsertTasks", "UpsertTasks":
		if s.BodyK == "ok" {
			l := make([]any, 0)
			for i := range s.Tasks {
				l = append(l, y.taskBody(&s.Tasks[i]))
			}
			body = J{"data": l}
		}
	case "Poll", "InsertPromise", "UpsertPromise":
		m := J{}
		put := func(k, v string) {
			if v != "" {
				m[k] = v
				q.Set(k, v)
			}
		}
		if s.BodyK == "ok" {
			put("_id", s.P.ID)
			put("consumer", s.P.Consumer)
			if s.P.Deadline != nil {
				put("deadline", y.ft(s.P.Deadline))
			}
			put("timeout", s.P.Timeout.S)
		}
		if s.Query {
			if s.BodyK == "bad" {
				q.Set("deadline", s.BadBody)
			}
		} else {
			q = url.Values{}
			if s.BodyK == "ok" {
				body = m
			}
		}
	case "Commit":
		if s.BodyK == "ok" {
			m := J{}
			put := func(k, v string) {
				if v != "" {
					m[k] = v
				}
			}
			put("nonce", s.C.Nonce)
			put("topic", s.C.Topic)
			if s.C.State != noState {
				m["state"] = s.C.State
			}
			if s.C.Scheduled != nil {
				m["scheduled"] = y.ft(s.C.Scheduled)
			}
			if s.C.Payload != nil {
				m["payload"] = s.C.Payload
			}
			put("defer", s.C.Defer.S)
			body = m
		}
	case "ListTasks", "ListTopics", "ListPromises":
		if s.Limit.S != "" {
			q.Set("limit", s.Limit.S)
		}
		if s.Offset.S != "" {
			q.Set("offset", s.Offset.S)
		}
	}
	target := u.String()
	if len(q) > 0 {
		target += "?" + q.Encode()
	}
	if s.BadUTF == "query" {
		target += map[bool]string{true: "&", false: "?"}[len(q) > 0] + "consumer2=a%ffb"
	}
	var b io.Reader
	if s.BodyK == "bad" && !s.Query {
		b = bytes.NewBufferString(s.BadBody)
	} else if body != nil {
		d, err := json.Marshal(body)
		if err != nil {
			panic(err)
		}
		b = bytes.NewBuffer(d)
	}
	if y.base != "" {
		r, err := http.NewRequest(e.method, y.base+target, b)
		if err != nil {
			panic(err)
		}
		return r
	}
	return httptest.NewRequest(e.method, target, b)
}

// esc escapes a path segment, plus signs included.
func esc(s string) string {
	return string(bytes.ReplaceAll([]byte(url.PathEscape(s)), []byte("+"), []byte("%2B")))
}

func (y *HTTPSys) Do(ctx context.Context, k *Tok, s *Step) Result {
	if s.O == "Chore" {
		return res(retNone, y.g.Chore(ctx))
	}
	if s.O == "Pages" {
		return pages(y, ctx, k, s)
	}
	w := httptest.NewRecorder()
	y.h.ServeHTTP(w, y.request(s).WithContext(ctx))
	return decodeResponse(k, s, w.Code, w.Body.Bytes())
}

func decodeResponse(k *Tok, s *Step, code int, b []byte) Result {
	if code >= 400 {
		var e ratus.Error
		err := json.Unmarshal(b, &e)
		return Result{Code: code, Ret: retNone, ErrOK: err == nil && e.Error.Code == code && e.Error.Message != "", Note: string(b)}
	}
	garbage := func(err error) Result {
		return Result{Code: codeGarbage, Ret: retNone, Note: fmt.Sprint(code, err, string(b))}
	}
	r := Result{Code: code, Ret: retNone, ErrOK: true}
	switch s.O {
	case "InsertTask", "UpsertTask", "InsertTasks", "UpsertTasks":
		var v ratus.Updated
		if err := json.Unmarshal(b, &v); err != nil {
			return garbage(err)
		}
		r.Ret = k.rUpdated(&v)
	case "DeleteTask", "DeleteTasks", "DeleteTopic", "DeleteTopics", "DeletePromise", "DeletePromises":
		var v ratus.Deleted
		if err := json.Unmarshal(b, &v); err != nil {
			return garbage(err)
		}
		r.Ret = k.rDeleted(&v)
	case "Poll", "InsertPromise", "UpsertPromise", "Commit", "GetTask":
		var v ratus.Task
		if err := json.Unmarshal(b, &v); err != nil {
			return garbage(err)
		}
		r.Ret = k.rTask(&v)
	case "GetTopic":
		var v ratus.Topic
		if err := json.Unmarshal(b, &v); err != nil {
			return garbage(err)
		}
		r.Ret = k.rTopic(&v)
	case "GetPromise":
		var v ratus.Promise
		if err := json.Unmarshal(b, &v); err != nil {
			return garbage(err)
		}
		r.Ret = k.rPromise(&v)
	case "ListTasks":
		var v ratus.Tasks
		if err := json.Unmarshal(b, &v); err != nil || v.Data == nil {
			return garbage(err)
		}
		r.Ret = rList(k.lTasks(v.Data))
	case "ListPromises":
		var v ratus.Promises
		if err := json.Unmarshal(b, &v); err != nil || v.Data == nil {
			return garbage(err)
		}
		r.Ret = rList(k.lPromises(v.Data))
	case "ListTopics":
		var v ratus.Topics
		if err := json.Unmarshal(b, &v); err != nil || v.Data == nil {
			return garbage(err)
		}
		r.Ret = rList(k.lTopics(v.Data))
	}
	return r
}

// ---------------------------------------------------------------------------

// ClientSys uses the Go client against a server.
type ClientSys struct {
	c *ratus.Client
	g engine.Engine
}

func (y *ClientSys) Do(ctx context.Context, k *Tok, s *Step) Result {
	c := y.c
	spec := func(t *TaskSpec) *ratus.Task {
		u := t.task()
		u.Defer = t.Defer.S
		return u
	}
	ts := make([]*ratus.Task, len(s.Tasks))
	for i := range s.Tasks {
		ts[i] = spec(&s.Tasks[i])
	}
	p := s.P.promise()
	p.Timeout = s.P.Timeout.S
	res := func(ret J, err error) Result {
		r := res(ret, err)
		if err != nil {
			// an error that wraps no sentinel is a 500 only if it says so
			if r.Code == 500 && !errors.Is(err, ratus.ErrInternalServerError) {
				r.Code = codeGarbage
			}
		}
		return r
	}
	// What users get to see of payloads is what Decode makes of them.
	task := func(t *ratus.Task) J {
		if t == nil {
			return k.rTask(nil)
		}
		u := *t
		u.Payload = nil
		if err := t.Decode(&u.Payload); err != nil {
			u.Payload = "undecodable: " + err.Error()
		}
		return k.rTask(&u)
	}
	switch s.O {
	case "InsertTask":
		v, err := c.InsertTask(ctx, ts[0])
		return res(k.rUpdated(v), err)
	case "UpsertTask":
		v, err := c.UpsertTask(ctx, ts[0])
		return res(k.rUpdated(v), err)
	case "InsertTasks":
		v, err := c.InsertTasks(ctx, ts)
		return res(k.rUpdated(v), err)
	case "UpsertTasks":
		v, err := c.UpsertTasks(ctx, ts)
		return res(k.rUpdated(v), err)
	case "DeleteTask":
		v, err := c.DeleteTask(ctx, s.PID)
		return res(k.rDeleted(v), err)
	case "DeleteTasks":
		v, err := c.DeleteTasks(ctx, s.PTopic)
		return res(k.rDeleted(v), err)
	case "DeleteTopic":
		v, err := c.DeleteTopic(ctx, s.PTopic)
		return res(k.rDeleted(v), err)
	case "DeleteTopics":
		v, err := c.DeleteTopics(ctx)
		return res(k.rDeleted(v), err)
	case "Poll":
		if s.P.ID == "" && s.Query {
			x, err := c.Poll(ctx, s.PTopic, p)
			if err != nil {
				return res(nil, err)
			}
			return res(task(x.Task), nil)
		}
		v, err := c.PostPromises(ctx, s.PTopic, p)
		return res(task(v), err)
	case "InsertPromise":
		v, err := c.InsertPromise(ctx, p)
		return res(task(v), err)
	case "UpsertPromise":
		v, err := c.UpsertPromise(ctx, p)
		return res(task(v), err)
	case "DeletePromise":
		v, err := c.DeletePromise(ctx, s.PID)
		return res(k.rDeleted(v), err)
	case "DeletePromises":
		v, err := c.DeletePromises(ctx, s.PTopic)
		return res(k.rDeleted(v), err)
	case "Commit":
		m := &ratus.Commit{Nonce: s.C.Nonce, Topic: s.C.Topic, Scheduled: cp(s.C.Scheduled), Payload: s.C.Payload, Defer: s.C.Defer.S}
		if s.C.State != noState {
			st := ratus.TaskState(s.C.State)
			m.State = &st
		}
		v, err := c.PatchTask(ctx, s.PID, m)
		return res(task(v), err)
	case "Chore":
		return res(retNone, y.g.Chore(ctx))
	case "GetTask":
		v, err := c.GetTask(ctx, s.PID)
		return res(task(v), err)
	case "GetTopic":
		v, err := c.GetTopic(ctx, s.PTopic)
		return res(k.rTopic(v), err)
	case "GetPromise":
		v, err := c.GetPromise(ctx, s.PID)
		return res(k.rPromise(v), err)
	case "ListTasks":
		v, err := c.ListTasks(ctx, s.PTopic, s.Limit.N, s.Offset.N)
		return res(rList(k.lTasks(v)), err)
	case "ListPromises":
		v, err := c.ListPromises(ctx, s.PTopic, s.Limit.N, s.Offset.N)
		return res(rList(k.lPromises(v)), err)
	case "ListTopics":
		v, err := c.ListTopics(ctx, s.Limit.N, s.Offset.N)
		return res(rList(k.lTopics(v)), err)
	case "Pages":
		return pages(y, ctx, k, s)
	case "Ready":
		return res(retNone, c.GetReadiness(ctx))
	case "Live":
		return res(retNone, c.GetLiveness(ctx))
	}
	panic("unknown operation " + s.O)
}
