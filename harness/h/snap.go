package main

import (
	"bufio"
	"context"
	"encoding/json"
	"fmt"
	"math/rand"
	"os"
	"os/signal"
	"path/filepath"
	"runtime"
	"sort"
	"syscall"
	"time"

	"github.com/hyperonym/ratus"
	"github.com/hyperonym/ratus/internal/engine/memdb"
	"github.com/hyperonym/ratus/internal/zzverif/vtime"
)

// The snapshot driver runs under strace: one scenario of requests, background
// jobs, stops, crashes and restarts of an engine that writes snapshots. What it
// does is announced with pwrite64 to a marker file, so that the announcements
// are ordered with respect to the file operations of the code under test.

type SnapOptions struct {
	Seed  int64
	Steps int
	Dir   string // scratch directory
	Data  string // directory of the snapshot
	Env   bool   // let the environment interfere: file size limits, missing directories
	Load  string // instead: decode the directories described in this file
	Out   string
}

type snapDriver struct {
	o      *SnapOptions
	c      *memdb.Config
	g      *memdb.Engine
	fd     int
	off    int64
	images map[string]int
	list   []string
	k      *Tok
	img    int // image of the store after the last step
	gen    *Gen
}

// image returns the canonical form of the contents of an engine.
func image(g *memdb.Engine) (s string, err error) {
	defer func() {
		if p := recover(); p != nil {
			err = fmt.Errorf("panic: %v", p)
		}
	}()
	ctx := context.Background()
	var l []*ratus.Task
	tops, err := g.ListTopics(ctx, 1<<20, 0)
	if err != nil {
		return "", err
	}
	for _, t := range tops {
		v, err := g.ListTasks(ctx, t.Name, 1<<20, 0)
		if err != nil {
			return "", err
		}
		l = append(l, v...)
	}
	sort.Slice(l, func(i, j int) bool { return l[i].ID < l[j].ID })
	k := &Tok{raw: true}
	b := make([]any, 0)
	for _, t := range l {
		b = append(b, k.task(t))
	}
	x, err := json.Marshal(b)
	return string(x), err
}

func (d *snapDriver) number(s string) int {
	if n, ok := d.images[s]; ok {
		return n
	}
	d.list = append(d.list, s)
	d.images[s] = len(d.list)
	return len(d.list)
}

func (d *snapDriver) mark(v J) {
	b, err := json.Marshal(v)
	if err != nil {
		panic(err)
	}
	b = append(b, '\n')
	if _, err := syscall.Pwrite(d.fd, b, d.off); err != nil {
		panic(err)
	}
	d.off += int64(len(b))
}

func (d *snapDriver) now() []int64 { t := vtime.Peek(); return jt(&t) }

func (d *snapDriver) look() error {
	s, err := image(d.g)
	if err != nil {
		return err
	}
	d.img = d.number(s)
	return nil
}

// open starts an engine; it returns false if that did not work in a few attempts.
func (d *snapDriver) open() (bool, error) {
	for n := 0; n < 4; n++ {
		d.mark(J{"t": "open0"})
		g, err := memdb.New(d.c)
		if err == nil {
			err = g.Open(context.Background())
		}
		if err != nil {
			d.mark(J{"t": "open1", "ok": false, "img": 0, "now": d.now(), "note": err.Error()})
			continue
		}
		d.g = g
		if err := d.look(); err != nil {
			return false, err
		}
		d.mark(J{"t": "open1", "ok": true, "img": d.img, "now": d.now()})
		cur := map[string]*ratus.Task{}
		for _, id := range d.gen.ids {
			if t, err := g.GetTask(context.Background(), id); err == nil {
				cur[id] = t
			}
		}
		d.gen.observe(cur)
		return true, nil
	}
	return false, nil
}

// limited runs f while files may not grow beyond n bytes.
func limited(n int64, f func()) {
	var old syscall.Rlimit
	if err := syscall.Getrlimit(syscall.RLIMIT_FSIZE, &old); err != nil {
		panic(err)
	}
	l := old
	l.Cur = uint64(n)
	if err := syscall.Setrlimit(syscall.RLIMIT_FSIZE, &l); err != nil {
		panic(err)
	}
	defer syscall.Setrlimit(syscall.RLIMIT_FSIZE, &old)
	f()
}

func (d *snapDriver) env(f func()) {
	g := d.gen
	if d.o.Env && g.p(4) {
		d.mark(J{"t": "fault"})
		limited(int64(g.r.Intn(1500)), f)
		return
	}
	f()
}

func (d *snapDriver) chore() error {
	d.mark(J{"t": "chore0", "now": d.now()})
	var err error
	d.env(func() { err = d.g.Chore(context.Background()) })
	if e := d.look(); e != nil {
		return e
	}
	v := J{"t": "chore1", "ok": err == nil, "img": d.img, "now": d.now()}
	if err != nil {
		v["note"] = err.Error()
	}
	d.mark(v)
	return nil
}

func (d *snapDriver) close() {
	d.mark(J{"t": "close0"})
	var err error
	d.env(func() { err = d.g.Close(context.Background()) })
	v := J{"t": "close1", "ok": err == nil, "img": d.img, "now": d.now()}
	if err != nil {
		v["note"] = err.Error()
	}
	d.mark(v)
}

var snapNames = []string{"snapshot", "ratus.db", "a b", "x.y.z", ".hidden", "snap-1", "日本", "snap.tmp", "%d%s"}

func runSnap(o *SnapOptions) error {
	if o.Load != "" {
		return runSnapLoad(o)
	}
	runtime.LockOSThread()
	runtime.GOMAXPROCS(1)
	signal.Ignore(syscall.SIGXFSZ)
	r := rand.New(rand.NewSource(o.Seed))
	d := &snapDriver{o: o, images: map[string]int{}, k: newTok()}
	fd, err := syscall.Open(filepath.Join(o.Dir, "marker"), syscall.O_CREAT|syscall.O_WRONLY|syscall.O_TRUNC, 0o644)
	if err != nil {
		return err
	}
	d.fd = fd
	g := newGen(r, "engine", false, []string{"chore", "write", "mix", "commit"}[r.Intn(4)])
	if len(g.ids) > 6 && !g.p(4) {
		g.ids = g.ids[:6]
	}
	d.gen = g
	vtime.Set(g.now)
	iv := []time.Duration{0, 1, time.Millisecond, 700 * time.Millisecond, time.Second, time.Second, 90 * time.Second, 5 * time.Minute, 5 * time.Minute, 24 * time.Hour}[r.Intn(10)]
	name := snapNames[r.Intn(len(snapNames))]
	d.c = &memdb.Config{SnapshotPath: filepath.Join(o.Data, name), SnapshotInterval: iv, RetentionPeriod: g.retention}
	late := r.Intn(3) == 0
	if late && o.Env {
		d.mark(J{"t": "broken"})
	} else {
		late = false
		if err := os.Mkdir(o.Data, 0o755); err != nil {
			return err
		}
	}
	switch r.Intn(3) {
	case 0:
		if !late {
			if err := os.Chdir(o.Data); err != nil {
				return err
			}
			d.c.SnapshotPath = name
		}
	}
	d.mark(J{"t": "begin", "main": name, "intv": jd(iv), "intvns": int64(iv), "retention": int64(g.retention), "now": d.now(), "unix": g.now.UnixNano()})
	ok, err := d.open()
	if err != nil {
		return err
	}
	for n := 0; n < o.Steps && ok; n++ {
		if late && n == o.Steps/3 {
			late = false
			if err := os.Mkdir(o.Data, 0o755); err != nil {
				return err
			}
			d.mark(J{"t": "repaired"})
		}
		if v := g.advance(); v > 0 && v < 1000*time.Hour && g.p(2) {
			vtime.Advance(v)
		}
		switch x := r.Intn(20); {
		case x < 5:
			if d := []time.Duration{0, 0, iv - 1, iv, iv, iv + 1, iv / 2, 1}[r.Intn(8)]; d > 0 {
				vtime.Advance(d)
			}
			g.now = vtime.Peek()
			if err := d.chore(); err != nil {
				return err
			}
		case x == 5:
			d.close()
			if ok, err = d.open(); err != nil {
				return err
			}
		case x == 6:
			d.mark(J{"t": "kill"})
			if ok, err = d.open(); err != nil {
				return err
			}
		default:
			g.now = vtime.Peek()
			s := g.step()
			if s.O == "Chore" || isRead(s) || s.O == "Pages" {
				continue
			}
			(&EngineSys{d.g}).Do(context.Background(), &Tok{raw: true}, s)
			if err := d.look(); err != nil {
				return err
			}
			d.mark(J{"t": "op", "img": d.img})
		}
		if ok {
			cur := map[string]*ratus.Task{}
			for _, id := range g.ids {
				if t, err := d.g.GetTask(context.Background(), id); err == nil {
					cur[id] = t
				}
			}
			g.observe(cur)
		}
	}
	if ok {
		d.close()
		if _, err := d.open(); err != nil {
			return err
		}
	}
	for _, s := range d.list {
		d.mark(J{"t": "image", "s": s})
	}
	return nil
}

// ---------------------------------------------------------------------------

// snapCase is a directory as a crash may have left it.
type snapCase struct {
	Files     map[string][]byte `json:"files"`
	Main      string            `json:"main"`
	Interval  int64             `json:"interval"`
	Retention int64             `json:"retention"`
	Unix      int64             `json:"unix"`
}

type snapLoaded struct {
	Image string `json:"image"` // contents after opening, or the error
	OK    bool   `json:"ok"`
	Cont  string `json:"cont"` // what went wrong after that, if anything
}

func runSnapLoad(o *SnapOptions) error {
	f, err := os.Open(o.Load)
	if err != nil {
		return err
	}
	defer f.Close()
	w, err := os.Create(o.Out)
	if err != nil {
		return err
	}
	defer w.Close()
	enc := json.NewEncoder(w)
	dec := json.NewDecoder(bufio.NewReader(f))
	for n := 0; dec.More(); n++ {
		var c snapCase
		if err := dec.Decode(&c); err != nil {
			return err
		}
		d := filepath.Join(o.Dir, fmt.Sprintf("case-%d", n))
		if err := os.Mkdir(d, 0o755); err != nil {
			return err
		}
		for name, b := range c.Files {
			if err := os.WriteFile(filepath.Join(d, name), b, 0o644); err != nil {
				return err
			}
		}
		enc.Encode(c.try(d))
		os.RemoveAll(d)
	}
	return nil
}

func (c *snapCase) try(dir string) (r snapLoaded) {
	defer func() {
		if p := recover(); p != nil {
			if r.OK {
				r.Cont = fmt.Sprint("panic: ", p)
			} else {
				r.Image = fmt.Sprint("panic: ", p)
			}
		}
	}()
	vtime.Set(time.Unix(0, c.Unix))
	conf := &memdb.Config{SnapshotPath: filepath.Join(dir, c.Main), SnapshotInterval: time.Duration(c.Interval), RetentionPeriod: time.Duration(c.Retention)}
	ctx := context.Background()
	open := func() (*memdb.Engine, string, error) {
		g, err := memdb.New(conf)
		if err != nil {
			return nil, "", err
		}
		if err := g.Open(ctx); err != nil {
			return nil, "", err
		}
		s, err := image(g)
		return g, s, err
	}
	g, s, err := open()
	if err != nil {
		r.Image = err.Error()
		return r
	}
	r.Image, r.OK = s, true
	if _, err := g.InsertTask(ctx, &ratus.Task{ID: "zz-continued", Topic: "zz", Payload: "x"}); err != nil {
		r.Cont = "insert: " + err.Error()
		return r
	}
	vtime.Advance(time.Duration(c.Interval) + 1)
	if err := g.Chore(ctx); err != nil {
		r.Cont = "save by the background jobs: " + err.Error()
		return r
	}
	s, err = image(g)
	if err != nil {
		r.Cont = err.Error()
		return r
	}
	h, t, err := open()
	if err != nil {
		r.Cont = "open after saving: " + err.Error()
		return r
	}
	if s != t {
		r.Cont = "saved " + s + " restored " + t
		return r
	}
	if _, err := h.DeleteTask(ctx, "zz-continued"); err != nil {
		r.Cont = "delete: " + err.Error()
		return r
	}
	if s, err = image(h); err != nil {
		r.Cont = err.Error()
		return r
	}
	if err := h.Close(ctx); err != nil {
		r.Cont = "close: " + err.Error()
		return r
	}
	if _, t, err = open(); err != nil {
		r.Cont = "open after closing: " + err.Error()
		return r
	}
	if s != t {
		r.Cont = "closed with " + s + " restored " + t
	}
	return r
}
