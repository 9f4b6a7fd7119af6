package main

import (
	"context"
	"fmt"
	"math/rand"
	"os"
	"path/filepath"
	"reflect"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"go.mongodb.org/mongo-driver/bson"
	"go.mongodb.org/mongo-driver/bson/bsontype"

	"github.com/hyperonym/ratus"
	"github.com/hyperonym/ratus/internal/engine"
	"github.com/hyperonym/ratus/internal/engine/mongodb"
	"github.com/hyperonym/ratus/internal/zzverif/fakemongo"
	"github.com/hyperonym/ratus/internal/zzverif/vtime"
)

// Deployments: how the collection is sharded, and how the instances work.
//
//	mongo:KEY:MODE  KEY: none, id, topic; MODE: auto, atomic, fallback, nopoll, mixed
//
// "mongo" picks one at random.

type mongoKind struct{ key, mode string }

// mongoKinds that work: an instance that insists on atomic operations needs a
// collection that is not sharded.
var mongoKinds = []mongoKind{
	{"none", "auto"}, {"none", "atomic"}, {"none", "fallback"}, {"none", "nopoll"}, {"none", "mixed"},
	{"id", "auto"}, {"id", "fallback"}, {"id", "nopoll"},
	{"topic", "auto"}, {"topic", "fallback"}, {"topic", "nopoll"},
}

func parseMongo(s string, r *rand.Rand) mongoKind {
	p := strings.Split(s, ":")
	if len(p) == 3 {
		return mongoKind{p[1], p[2]}
	}
	return mongoKinds[r.Intn(len(mongoKinds))]
}

// deletesAndInserts tells whether upserts may have to delete and insert.
func (k mongoKind) deletesAndInserts() bool {
	return k.mode == "fallback" || k.mode == "mixed" || k.key == "topic" && k.mode != "atomic"
}

// mongoInst is one instance of the engine with a server of its own.
type mongoInst struct {
	srv  *fakemongo.Server
	g    *mongodb.Engine
	mode string
	hook atomic.Pointer[func(kind, name string) fakemongo.Action]
}

type mongoBackend struct {
	kind      mongoKind
	retention time.Duration
	db        *fakemongo.DB
	dir       string
	insts     []*mongoInst
	uses      int
	broken    bool // a request is stuck
}

// mongoView is the backend as seen by one of its instances.
type mongoView struct {
	*mongoBackend
	n int
}

func (v *mongoView) Engine() engine.Engine { return v.insts[v.n].g }

// hook has a function called before each command of an instance.
func (b *mongoBackend) hook(n int, f func(kind, name string) fakemongo.Action) {
	if f == nil {
		b.insts[n].hook.Store(nil)
		return
	}
	b.insts[n].hook.Store(&f)
}

var (
	mongoMux   sync.Mutex
	mongoPool  = map[string][]*mongoBackend{}
	mongoCount int
	// where the sockets are
	mongoScratch string
)

const mongoColl = "tasks"

var mongoRegistry = bson.NewRegistryBuilder().RegisterTypeMapEntry(bsontype.EmbeddedDocument, reflect.TypeOf(bson.M{})).Build()

// batches are the numbers of documents in an answer of the database.
var batches = []int{0, 1, 2, 5}

func newMongoBackend(spec string, retention time.Duration, r *rand.Rand) (Backend, error) {
	kind := parseMongo(spec, r)
	key := fmt.Sprint(kind, retention)
	mongoMux.Lock()
	defer mongoMux.Unlock()
	if l := mongoPool[key]; len(l) > 0 {
		b := l[len(l)-1]
		mongoPool[key] = l[:len(l)-1]
		b.clear()
		b.db.Batch = batches[r.Intn(len(batches))]
		return b, nil
	}
	mongoCount++
	b := &mongoBackend{kind: kind, retention: retention}
	b.db = fakemongo.NewDB(map[string]string{"none": "", "id": "_id", "topic": "topic"}[kind.key])
	b.db.Now = vtime.Peek
	b.db.Batch = batches[r.Intn(len(batches))]
	if r.Intn(2) == 0 {
		b.db.UpsertCode = 31025
	}
	var err error
	// the driver turns addresses into lower case, and sockets have short names
	dir := mongoScratch
	if abs, err := filepath.Abs(dir); err != nil || abs != strings.ToLower(abs) || len(abs) > 70 {
		dir = "/tmp"
	} else {
		dir = abs
	}
	if b.dir, err = os.MkdirTemp(dir, "fm"); err != nil {
		return nil, err
	}
	if _, err := b.inst(0); err != nil {
		return nil, err
	}
	return b, nil
}

// inst returns instance n.
func (b *mongoBackend) inst(n int) (*mongoInst, error) {
	for len(b.insts) <= n {
		i, err := b.start(len(b.insts))
		if err != nil {
			return nil, err
		}
		b.insts = append(b.insts, i)
	}
	return b.insts[n], nil
}

func (b *mongoBackend) start(n int) (*mongoInst, error) {
	i := &mongoInst{mode: b.kind.mode}
	if i.mode == "mixed" {
		i.mode = []string{"fallback", "atomic", "auto"}[n%3]
	}
	b.uses++
	path := filepath.Join(b.dir, fmt.Sprintf("%d-%d.sock", n, b.uses))
	srv, err := fakemongo.NewServer(b.db, "unix", path)
	if err != nil {
		return nil, err
	}
	srv.Hook = func(kind, name string) fakemongo.Action {
		if h := i.hook.Load(); h != nil {
			return (*h)(kind, name)
		}
		return fakemongo.Action{}
	}
	i.srv = srv
	uri := "mongodb://" + strings.ReplaceAll(path, "/", "%2F") + "/?serverSelectionTimeoutMS=5000"
	c := &mongodb.Config{URI: uri, Database: "ratus", Collection: mongoColl, RetentionPeriod: b.retention,
		DisableAutoFallback: i.mode == "atomic", DisableAtomicPoll: i.mode == "nopoll"}
	if i.g, err = mongodb.New(c); err != nil {
		return nil, err
	}
	if i.mode == "fallback" {
		i.g.Fallback(1)
	}
	ctx, cancel := context.WithTimeout(context.Background(), 10*time.Second)
	defer cancel()
	return i, i.g.Open(ctx)
}

// clear makes the backend as good as new.
func (b *mongoBackend) clear() {
	b.db.Clear(mongoColl)
	for _, i := range b.insts {
		i.hook.Store(nil)
		if i.mode == "auto" {
			i.g.Fallback(0)
		}
	}
}

func (b *mongoBackend) Engine() engine.Engine { return b.insts[0].g }
func (b *mongoBackend) CanRestart() bool      { return true }
func (b *mongoBackend) Expire()               { b.db.Expire(mongoColl) }

// Restart replaces the first instance.
func (b *mongoBackend) Restart(retention time.Duration) error {
	b.retention = retention
	old := b.insts[0]
	if err := old.g.Close(context.Background()); err != nil {
		return err
	}
	old.srv.Close()
	i, err := b.start(0)
	if err == nil {
		b.insts[0] = i
	}
	return err
}

func (b *mongoBackend) Close() {
	mongoMux.Lock()
	defer mongoMux.Unlock()
	key := fmt.Sprint(b.kind, b.retention)
	if b.broken {
		return
	}
	if len(mongoPool[key]) < 4 {
		mongoPool[key] = append(mongoPool[key], b)
		return
	}
	b.destroy()
}

func (b *mongoBackend) destroy() {
	for _, i := range b.insts {
		i.hook.Store(nil)
		i.g.Close(context.Background())
		i.srv.Close()
	}
	os.RemoveAll(b.dir)
}

// closeMongo ends all that is left.
func closeMongo() {
	mongoMux.Lock()
	defer mongoMux.Unlock()
	for _, l := range mongoPool {
		for _, b := range l {
			b.destroy()
		}
	}
	mongoPool = map[string][]*mongoBackend{}
}

func decodeMongo(d bson.D) (*ratus.Task, error) {
	raw, err := bson.Marshal(d)
	if err != nil {
		return nil, err
	}
	var t ratus.Task
	if err := bson.UnmarshalWithRegistry(mongoRegistry, raw, &t); err != nil {
		return nil, err
	}
	return &t, nil
}

// Observe looks into the database itself.
func (b *mongoBackend) Observe(id string) (*ratus.Task, error) {
	for _, d := range b.db.Docs(mongoColl) {
		if len(d) > 0 && d[0].Key == "_id" && d[0].Value == id {
			return decodeMongo(d)
		}
	}
	return nil, nil
}
