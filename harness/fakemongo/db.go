package fakemongo

import (
	"fmt"
	"hash/fnv"
	"sort"
	"strings"
	"sync"
	"time"

	"go.mongodb.org/mongo-driver/bson"
	"go.mongodb.org/mongo-driver/bson/primitive"
)

// Index of a collection.
type Index struct {
	Name    string
	Keys    bson.D
	Partial bson.D
	TTL     int64 // -1: none
	Unique  bool
	spec    bson.D
}

type record struct {
	rid int64
	doc bson.D
}

// Collection holds the documents.
type Collection struct {
	docs    []*record // by rid
	indexes []*Index
	next    int64
}

// DB is a deployment.
type DB struct {
	mux sync.Mutex
	// ShardKey is the field by which all collections are sharded; "" if they are not.
	ShardKey string
	// UpsertCode is the code of the error for an upsert that does not contain
	// the shard key.
	UpsertCode int
	Now        func() time.Time
	// Log is told about the commands that were executed.
	Log func(name string, cmd, reply bson.D)
	// Batch is the number of documents in an answer if a command does not say; 0 means MongoDB's 101.
	Batch int

	cursors map[int64]bson.A // what is left of them
	last    int64
	colls   map[string]*Collection
}

// NewDB returns an empty deployment.
func NewDB(shardKey string) *DB {
	return &DB{ShardKey: shardKey, UpsertCode: 61, Now: time.Now, cursors: map[int64]bson.A{}, colls: map[string]*Collection{}}
}

func (db *DB) coll(name string) *Collection {
	c := db.colls[name]
	if c == nil {
		c = &Collection{}
		db.colls[name] = c
	}
	return c
}

// Clear removes all documents, but not the indexes.
func (db *DB) Clear(coll string) {
	db.mux.Lock()
	defer db.mux.Unlock()
	db.coll(coll).docs = nil
}

// Docs returns all documents of a collection.
func (db *DB) Docs(coll string) []bson.D {
	db.mux.Lock()
	defer db.mux.Unlock()
	var l []bson.D
	for _, r := range db.coll(coll).docs {
		l = append(l, r.doc)
	}
	return l
}

// Indexes returns the indexes of a collection by name.
func (db *DB) Indexes(coll string) map[string]*Index {
	db.mux.Lock()
	defer db.mux.Unlock()
	m := map[string]*Index{}
	for _, x := range db.coll(coll).indexes {
		m[x.Name] = x
	}
	return m
}

// Expire deletes the documents that have exceeded the time set by a TTL index.
func (db *DB) Expire(coll string) int {
	db.mux.Lock()
	defer db.mux.Unlock()
	c := db.coll(coll)
	now := db.Now()
	n := 0
	for _, x := range c.indexes {
		if x.TTL < 0 || len(x.Keys) != 1 {
			continue
		}
		var keep []*record
		for _, r := range c.docs {
			v, _ := get(r.doc, x.Keys[0].Key)
			t, ok := v.(primitive.DateTime)
			if ok && covers(x, r.doc) && !t.Time().Add(time.Duration(x.TTL)*time.Second).After(now) {
				n++
				continue
			}
			keep = append(keep, r)
		}
		c.docs = keep
	}
	return n
}

func covers(x *Index, d bson.D) bool {
	m, err := matches(d, x.Partial)
	return m && err == nil
}

func hash(v any) uint64 {
	h := fnv.New64a()
	h.Write(encode(v))
	return h.Sum64()
}

// find returns the matching records in the order of the hinted index.
func (c *Collection) find(filter bson.D, hint any, srt bson.D) ([]*record, *failure) {
	var x *Index
	switch h := hint.(type) {
	case nil:
	case string:
		if h == "_id_" || h == "" {
			break
		}
		for _, y := range c.indexes {
			if y.Name == h {
				x = y
			}
		}
		if x == nil {
			return nil, badValue("error processing query: planner returned error: hint provided does not correspond to an existing index")
		}
	case bson.D:
		if len(h) == 1 && h[0].Key == "_id" {
			break
		}
		for _, y := range c.indexes {
			if equalDocs(y.Keys, h) {
				x = y
			}
		}
		if x == nil {
			return nil, badValue("error processing query: planner returned error: hint provided does not correspond to an existing index")
		}
	}
	var l []*record
	for _, r := range c.docs {
		// a hinted partial index does not know the other documents
		if x != nil && !covers(x, r.doc) {
			continue
		}
		m, err := matches(r.doc, filter)
		if err != nil {
			return nil, err
		}
		if m {
			l = append(l, r)
		}
	}
	if x != nil {
		sort.SliceStable(l, func(i, j int) bool {
			for _, k := range x.Keys {
				a, _ := lookup(l[i].doc, k.Key)
				b, _ := lookup(l[j].doc, k.Key)
				if k.Value == "hashed" {
					if g, h := hash(a), hash(b); g != h {
						return g < h
					}
					continue
				}
				if n := compare(a, b); n != 0 {
					s, _ := number(k.Value)
					return (n < 0) == (s > 0)
				}
			}
			return false
		})
	}
	if len(srt) > 0 {
		sort.SliceStable(l, func(i, j int) bool {
			for _, k := range srt {
				a, _ := lookup(l[i].doc, k.Key)
				b, _ := lookup(l[j].doc, k.Key)
				if n := compare(a, b); n != 0 {
					s, _ := number(k.Value)
					return (n < 0) == (s > 0)
				}
			}
			return false
		})
	}
	return l, nil
}

func (c *Collection) byID(id any) *record {
	for _, r := range c.docs {
		if v, _ := get(r.doc, "_id"); compare(v, id) == 0 {
			return r
		}
	}
	return nil
}

func (c *Collection) has(r *record) bool {
	i := sort.Search(len(c.docs), func(i int) bool { return c.docs[i].rid >= r.rid })
	return i < len(c.docs) && c.docs[i] == r
}

func (c *Collection) remove(r *record) {
	i := sort.Search(len(c.docs), func(i int) bool { return c.docs[i].rid >= r.rid })
	if i < len(c.docs) && c.docs[i] == r {
		c.docs = append(append([]*record{}, c.docs[:i]...), c.docs[i+1:]...)
	}
}

func (c *Collection) insert(d bson.D) *failure {
	id, ok := get(d, "_id")
	if !ok {
		d = append(bson.D{{Key: "_id", Value: primitive.NewObjectID()}}, d...)
	} else if c.byID(id) != nil {
		return fail(11000, "DuplicateKey", "E11000 duplicate key error collection: index: _id_ dup key")
	}
	for _, x := range c.indexes {
		if x.Unique {
			for _, r := range c.docs {
				same := covers(x, r.doc) && covers(x, d)
				for _, k := range x.Keys {
					a, _ := lookup(r.doc, k.Key)
					b, _ := lookup(d, k.Key)
					same = same && compare(a, b) == 0
				}
				if same {
					return fail(11000, "DuplicateKey", "E11000 duplicate key error collection: index: %s dup key", x.Name)
				}
			}
		}
	}
	c.next++
	c.docs = append(c.docs, &record{c.next, d})
	return nil
}

// checkShardKey refuses updates that change the shard key without knowing it.
func (db *DB) checkShardKey(old, new, filter bson.D, multi, retryable bool) *failure {
	if db.ShardKey == "" || db.ShardKey == "_id" {
		return nil
	}
	a, _ := get(old, db.ShardKey)
	b, _ := get(new, db.ShardKey)
	if compare(a, b) == 0 {
		return nil
	}
	if multi {
		return fail(72, "InvalidOptions", "Multi-update operations are not allowed when updating the shard key field.")
	}
	if _, ok := equality(filter, db.ShardKey); !ok {
		return fail(31025, "Location31025", "Shard key update is not allowed without specifying the full shard key in the query")
	}
	if !retryable {
		return fail(20, "IllegalOperation", "Must run update to shard key field in a multi-statement transaction or with retryWrites: true.")
	}
	return nil
}

func list(d bson.D, key string) bson.A {
	v, _ := get(d, key)
	l, _ := v.(bson.A)
	return l
}

func doc(d bson.D, key string) bson.D {
	v, _ := get(d, key)
	x, _ := v.(bson.D)
	return x
}

func integer(d bson.D, key string) int {
	v, _ := get(d, key)
	n, _ := number(v)
	return int(n)
}

func writeError(i int, f *failure) bson.D {
	return bson.D{{Key: "index", Value: int32(i)}, {Key: "code", Value: int32(f.code)}, {Key: "errmsg", Value: f.msg}}
}

func cursor(coll string, l bson.A) bson.D {
	if l == nil {
		l = bson.A{}
	}
	return ok(bson.E{Key: "cursor", Value: bson.D{{Key: "firstBatch", Value: l}, {Key: "id", Value: int64(0)}, {Key: "ns", Value: "db." + coll}}})
}

// batches answers with the first documents and keeps the others. A cursor of
// this server goes on with what there was when it was opened.
func (db *DB) batches(coll string, cmd bson.D, l bson.A) bson.D {
	n := db.Batch
	if n == 0 {
		n = 101
	}
	spec := cmd
	if _, ok := get(cmd, "cursor"); ok {
		spec = doc(cmd, "cursor")
	}
	if _, ok := get(spec, "batchSize"); ok {
		n = integer(spec, "batchSize")
	}
	single, _ := get(cmd, "singleBatch")
	if n >= len(l) {
		return cursor(coll, l)
	}
	id := int64(0)
	if !truth(single) {
		db.last++
		id = db.last
		db.cursors[id] = l[n:]
	}
	return ok(bson.E{Key: "cursor", Value: bson.D{{Key: "firstBatch", Value: l[:n]}, {Key: "id", Value: id}, {Key: "ns", Value: "db." + coll}}})
}

func (db *DB) getMore(cmd bson.D) (bson.D, *failure) {
	id, _ := cmd[0].Value.(int64)
	l, found := db.cursors[id]
	if !found {
		return nil, fail(43, "CursorNotFound", "cursor id %d not found", id)
	}
	n := db.Batch
	if b := integer(cmd, "batchSize"); b > 0 {
		n = b
	}
	coll, _ := get(cmd, "collection")
	if n == 0 || n >= len(l) {
		delete(db.cursors, id)
		id, n = 0, len(l)
	} else {
		db.cursors[id] = l[n:]
	}
	return ok(bson.E{Key: "cursor", Value: bson.D{{Key: "nextBatch", Value: l[:n]}, {Key: "id", Value: id}, {Key: "ns", Value: fmt.Sprintf("db.%v", coll)}}}), nil
}

// execute carries out a command. between is called without the lock before
// each document but the first that the command affects.
func (db *DB) execute(name string, cmd bson.D, between func()) bson.D {
	db.mux.Lock()
	defer db.mux.Unlock()
	yield := func() {
		db.mux.Unlock()
		between()
		db.mux.Lock()
	}
	r, f := db.run(name, cmd, yield)
	if f != nil {
		r = failed(f)
	}
	if db.Log != nil {
		db.Log(name, cmd, r)
	}
	return r
}

func (db *DB) run(name string, cmd bson.D, yield func()) (bson.D, *failure) {
	target, _ := cmd[0].Value.(string)
	_, retryable := get(cmd, "txnNumber")
	switch name {
	case "hello", "isMaster", "ismaster":
		r := bson.D{
			{Key: "helloOk", Value: true}, {Key: "ismaster", Value: true}, {Key: "isWritablePrimary", Value: true},
			{Key: "maxBsonObjectSize", Value: int32(16 << 20)}, {Key: "maxMessageSizeBytes", Value: int32(48000000)},
			{Key: "maxWriteBatchSize", Value: int32(100000)}, {Key: "localTime", Value: primitive.NewDateTimeFromTime(time.Now())},
			{Key: "minWireVersion", Value: int32(0)}, {Key: "maxWireVersion", Value: int32(13)}, {Key: "readOnly", Value: false},
		}
		if db.ShardKey != "" {
			r = append(r, bson.E{Key: "msg", Value: "isdbgrid"}, bson.E{Key: "logicalSessionTimeoutMinutes", Value: int32(30)})
		}
		return ok(r...), nil
	case "ping", "endSessions":
		return ok(), nil
	case "killCursors":
		l, _ := get(cmd, "cursors")
		a, _ := l.(bson.A)
		for _, id := range a {
			if n, is := id.(int64); is {
				delete(db.cursors, n)
			}
		}
		return ok(), nil
	case "getMore":
		return db.getMore(cmd)
	case "buildInfo":
		return ok(bson.E{Key: "version", Value: "5.0.0"}), nil
	case "createIndexes":
		return db.createIndexes(target, cmd)
	case "listIndexes":
		l := bson.A{bson.D{{Key: "v", Value: int32(2)}, {Key: "key", Value: bson.D{{Key: "_id", Value: int32(1)}}}, {Key: "name", Value: "_id_"}}}
		for _, x := range db.coll(target).indexes {
			l = append(l, x.document())
		}
		return cursor(target, l), nil
	case "dropIndexes":
		c := db.coll(target)
		v, _ := get(cmd, "index")
		var keep []*Index
		for _, x := range c.indexes {
			if v != "*" && v != x.Name {
				keep = append(keep, x)
			}
		}
		c.indexes = keep
		return ok(), nil
	case "collMod":
		spec := doc(cmd, "index")
		for _, x := range db.coll(target).indexes {
			if n, _ := get(spec, "name"); n == x.Name || equalDocs(doc(spec, "keyPattern"), x.Keys) {
				old := x.TTL
				if x.TTL < 0 {
					return nil, fail(72, "InvalidOptions", "no expireAfterSeconds field to update")
				}
				x.TTL = int64(integer(spec, "expireAfterSeconds"))
				return ok(bson.E{Key: "expireAfterSeconds_old", Value: old}, bson.E{Key: "expireAfterSeconds_new", Value: x.TTL}), nil
			}
		}
		return nil, fail(27, "IndexNotFound", "cannot find index")
	case "drop":
		if db.colls[target] == nil {
			return nil, fail(26, "NamespaceNotFound", "ns not found")
		}
		delete(db.colls, target)
		return ok(), nil
	case "find":
		c := db.coll(target)
		h, _ := get(cmd, "hint")
		l, f := c.find(doc(cmd, "filter"), h, doc(cmd, "sort"))
		if f != nil {
			return nil, f
		}
		l = window(l, integer(cmd, "skip"), integer(cmd, "limit"))
		a := bson.A{}
		for _, r := range l {
			a = append(a, project(r.doc, doc(cmd, "projection")))
		}
		return db.batches(target, cmd, a), nil
	case "aggregate":
		return db.aggregate(target, cmd)
	case "count":
		h, _ := get(cmd, "hint")
		l, f := db.coll(target).find(doc(cmd, "query"), h, nil)
		if f != nil {
			return nil, f
		}
		return ok(bson.E{Key: "n", Value: int32(len(window(l, integer(cmd, "skip"), integer(cmd, "limit"))))}), nil
	case "distinct":
		k, _ := get(cmd, "key")
		var vs bson.A
		for _, r := range db.coll(target).docs {
			m, f := matches(r.doc, doc(cmd, "query"))
			if f != nil {
				return nil, f
			}
			v, has := lookup(r.doc, k.(string))
			for _, w := range vs {
				has = has && compare(v, w) != 0
			}
			if m && has {
				vs = append(vs, v)
			}
		}
		return ok(bson.E{Key: "values", Value: vs}), nil
	case "insert":
		return db.insert(target, cmd, yield)
	case "update":
		return db.update(target, cmd, retryable, yield)
	case "delete":
		return db.delete(target, cmd, yield)
	case "findAndModify", "findandmodify":
		return db.findAndModify(target, cmd, retryable)
	}
	return nil, fail(59, "CommandNotFound", "no such command: '%s'", name)
}

func window(l []*record, skip, limit int) []*record {
	if skip > len(l) {
		skip = len(l)
	}
	l = l[skip:]
	if limit < 0 {
		limit = -limit
	}
	if limit > 0 && limit < len(l) {
		l = l[:limit]
	}
	return l
}

func (x *Index) document() bson.D {
	d := bson.D{{Key: "v", Value: int32(2)}, {Key: "key", Value: x.Keys}, {Key: "name", Value: x.Name}}
	if x.Partial != nil {
		d = append(d, bson.E{Key: "partialFilterExpression", Value: x.Partial})
	}
	if x.TTL >= 0 {
		d = append(d, bson.E{Key: "expireAfterSeconds", Value: int32(x.TTL)})
	}
	if x.Unique {
		d = append(d, bson.E{Key: "unique", Value: true})
	}
	return d
}

func (db *DB) createIndexes(target string, cmd bson.D) (bson.D, *failure) {
	c := db.coll(target)
	for _, v := range list(cmd, "indexes") {
		d := v.(bson.D)
		x := &Index{Keys: doc(d, "key"), Partial: doc(d, "partialFilterExpression"), TTL: -1}
		n, _ := get(d, "name")
		x.Name, _ = n.(string)
		if t, has := get(d, "expireAfterSeconds"); has {
			s, isnum := number(t)
			if !isnum || s < 0 || s > 2147483647 {
				return nil, fail(67, "CannotCreateIndex", "TTL index 'expireAfterSeconds' option must be within an acceptable range")
			}
			x.TTL = int64(s)
		}
		if u, has := get(d, "unique"); has && truth(u) {
			x.Unique = true
			if db.ShardKey != "" {
				return nil, fail(67, "CannotCreateIndex", "cannot create unique index over sharded collection")
			}
		}
		if strings.Contains(x.Name, "\x00") || x.Name == "" {
			return nil, fail(67, "CannotCreateIndex", "bad index name")
		}
		dup := false
		for _, y := range c.indexes {
			same := equalDocs(x.Keys, y.Keys) && equalDocs(x.Partial, y.Partial)
			switch {
			case same && x.TTL == y.TTL && x.Unique == y.Unique && x.Name == y.Name:
				dup = true
			case same && (x.TTL != y.TTL || x.Name != y.Name):
				return nil, fail(85, "IndexOptionsConflict", "An equivalent index already exists with a different name or options")
			case x.Name == y.Name:
				return nil, fail(86, "IndexKeySpecsConflict", "An existing index has the same name as the requested index")
			}
		}
		if !dup {
			c.indexes = append(c.indexes, x)
		}
	}
	return ok(bson.E{Key: "numIndexesAfter", Value: int32(len(c.indexes) + 1)}), nil
}

func (db *DB) insert(target string, cmd bson.D, yield func()) (bson.D, *failure) {
	ordered := true
	if v, has := get(cmd, "ordered"); has {
		ordered = truth(v)
	}
	n := 0
	var errs bson.A
	for i, v := range list(cmd, "documents") {
		if i > 0 {
			yield()
		}
		d := v.(bson.D)
		if db.ShardKey != "" && db.ShardKey != "_id" {
			if _, has := get(d, db.ShardKey); !has {
				d = append(d, bson.E{Key: db.ShardKey, Value: nil})
			}
		}
		if f := db.coll(target).insert(d); f != nil {
			errs = append(errs, writeError(i, f))
			if ordered {
				break
			}
			continue
		}
		n++
	}
	r := bson.D{{Key: "n", Value: int32(n)}}
	if errs != nil {
		r = append(r, bson.E{Key: "writeErrors", Value: errs})
	}
	return ok(r...), nil
}

func (db *DB) update(target string, cmd bson.D, retryable bool, yield func()) (bson.D, *failure) {
	ordered := true
	if v, has := get(cmd, "ordered"); has {
		ordered = truth(v)
	}
	n, modified := 0, 0
	var errs, upserted bson.A
	for i, v := range list(cmd, "updates") {
		if i > 0 {
			yield()
		}
		u := v.(bson.D)
		a, m, id, f := db.updateOne(target, u, retryable, yield)
		n += a
		modified += m
		if f != nil {
			errs = append(errs, writeError(i, f))
			if ordered {
				break
			}
			continue
		}
		if id != nil {
			upserted = append(upserted, bson.D{{Key: "index", Value: int32(i)}, {Key: "_id", Value: id}})
		}
	}
	r := bson.D{{Key: "n", Value: int32(n)}, {Key: "nModified", Value: int32(modified)}}
	if upserted != nil {
		r = append(r, bson.E{Key: "upserted", Value: upserted})
	}
	if errs != nil {
		r = append(r, bson.E{Key: "writeErrors", Value: errs})
	}
	return ok(r...), nil
}

func (db *DB) updateOne(target string, u bson.D, retryable bool, yield func()) (n, modified int, upserted any, f *failure) {
	c := db.coll(target)
	q := doc(u, "q")
	mod, _ := get(u, "u")
	mv, _ := get(u, "multi")
	uv, _ := get(u, "upsert")
	hint, _ := get(u, "hint")
	multi, upsert := truth(mv), truth(uv)
	if db.ShardKey != "" {
		_, key := equality(q, db.ShardKey)
		_, id := equality(q, "_id")
		if upsert && !key {
			return 0, 0, nil, fail(db.UpsertCode, map[int]string{61: "ShardKeyNotFound", 31025: "Location31025"}[db.UpsertCode],
				"Failed to target upsert by query :: could not extract exact shard key")
		}
		if !multi && !key && !id {
			return 0, 0, nil, fail(72, "InvalidOptions", "A single update on a sharded collection must contain an exact match on _id or contain the shard key")
		}
	}
	l, f := c.find(q, hint, nil)
	if f != nil {
		return 0, 0, nil, f
	}
	if len(l) == 0 && upsert {
		d, f := modify(nil, q, mod, true, db.Now())
		if f != nil {
			return 0, 0, nil, f
		}
		if _, has := get(d, "_id"); !has {
			d = append(bson.D{{Key: "_id", Value: primitive.NewObjectID()}}, d...)
		}
		if f := c.insert(d); f != nil {
			return 0, 0, nil, f
		}
		id, _ := get(d, "_id")
		return 1, 0, id, nil
	}
	for i, r := range l {
		if i > 0 {
			if !multi {
				break
			}
			yield()
			// others may have changed the document since
			if m, _ := matches(r.doc, q); !m || !c.has(r) {
				continue
			}
		}
		d, f := modify(r.doc, q, mod, false, db.Now())
		if f != nil {
			return n, modified, nil, f
		}
		if f := db.checkShardKey(r.doc, d, q, multi, retryable); f != nil {
			return n, modified, nil, f
		}
		n++
		if !equalDocs(r.doc, d) {
			r.doc = d
			modified++
		}
	}
	return n, modified, nil, nil
}

func (db *DB) delete(target string, cmd bson.D, yield func()) (bson.D, *failure) {
	ordered := true
	if v, has := get(cmd, "ordered"); has {
		ordered = truth(v)
	}
	c := db.coll(target)
	n := 0
	var errs bson.A
	for i, v := range list(cmd, "deletes") {
		if i > 0 {
			yield()
		}
		u := v.(bson.D)
		q := doc(u, "q")
		hint, _ := get(u, "hint")
		limit := integer(u, "limit")
		var f *failure
		if db.ShardKey != "" && limit == 1 {
			_, key := equality(q, db.ShardKey)
			_, id := equality(q, "_id")
			if !key && !id {
				f = fail(61, "ShardKeyNotFound", "A single delete on a sharded collection must contain an exact match on _id or contain the shard key")
			}
		}
		var l []*record
		if f == nil {
			l, f = c.find(q, hint, nil)
		}
		if f != nil {
			errs = append(errs, writeError(i, f))
			if ordered {
				break
			}
			continue
		}
		for j, r := range l {
			if j > 0 {
				if limit == 1 {
					break
				}
				yield()
				if m, _ := matches(r.doc, q); !m {
					continue
				}
			}
			if c.has(r) {
				c.remove(r)
				n++
			}
		}
	}
	r := bson.D{{Key: "n", Value: int32(n)}}
	if errs != nil {
		r = append(r, bson.E{Key: "writeErrors", Value: errs})
	}
	return ok(r...), nil
}

func (db *DB) findAndModify(target string, cmd bson.D, retryable bool) (bson.D, *failure) {
	c := db.coll(target)
	q := doc(cmd, "query")
	hint, _ := get(cmd, "hint")
	rv, _ := get(cmd, "remove")
	nv, _ := get(cmd, "new")
	uv, _ := get(cmd, "upsert")
	if db.ShardKey != "" {
		if _, key := equality(q, db.ShardKey); !key {
			return nil, fail(61, "ShardKeyNotFound", "Query for sharded findAndModify must contain the shard key")
		}
	}
	l, f := c.find(q, hint, doc(cmd, "sort"))
	if f != nil {
		return nil, f
	}
	none := func(n int, v any) bson.D {
		return ok(bson.E{Key: "lastErrorObject", Value: bson.D{{Key: "n", Value: int32(n)}, {Key: "updatedExisting", Value: n > 0 && v != nil}}}, bson.E{Key: "value", Value: v})
	}
	mod, _ := get(cmd, "update")
	if len(l) == 0 {
		if !truth(uv) {
			return none(0, nil), nil
		}
		d, f := modify(nil, q, mod, true, db.Now())
		if f != nil {
			return nil, f
		}
		if f := c.insert(d); f != nil {
			return nil, f
		}
		if truth(nv) {
			return none(1, project(d, doc(cmd, "fields"))), nil
		}
		return none(1, nil), nil
	}
	r := l[0]
	old := r.doc
	if truth(rv) {
		c.remove(r)
		return none(1, project(old, doc(cmd, "fields"))), nil
	}
	d, f := modify(old, q, mod, false, db.Now())
	if f != nil {
		return nil, f
	}
	if f := db.checkShardKey(old, d, q, false, retryable); f != nil {
		return nil, f
	}
	r.doc = d
	if truth(nv) {
		return none(1, project(d, doc(cmd, "fields"))), nil
	}
	return none(1, project(old, doc(cmd, "fields"))), nil
}

func (db *DB) aggregate(target string, cmd bson.D) (bson.D, *failure) {
	h, _ := get(cmd, "hint")
	c := db.coll(target)
	filter := bson.D{}
	stages := list(cmd, "pipeline")
	if len(stages) > 0 {
		if m, has := get(stages[0].(bson.D), "$match"); has {
			filter = m.(bson.D)
			stages = stages[1:]
		}
	}
	rs, f := c.find(filter, h, nil)
	if f != nil {
		return nil, f
	}
	var l []bson.D
	for _, r := range rs {
		l = append(l, r.doc)
	}
	for _, v := range stages {
		st := v.(bson.D)
		arg := st[0].Value
		switch st[0].Key {
		case "$match":
			var k []bson.D
			for _, d := range l {
				m, f := matches(d, arg.(bson.D))
				if f != nil {
					return nil, f
				}
				if m {
					k = append(k, d)
				}
			}
			l = k
		case "$skip":
			n, _ := number(arg)
			if n < 0 {
				return nil, fail(15956, "Location15956", "invalid argument to $skip stage")
			}
			if int(n) > len(l) {
				n = float64(len(l))
			}
			l = l[int(n):]
		case "$limit":
			n, _ := number(arg)
			if n <= 0 {
				return nil, fail(15958, "Location15958", "the limit must be positive")
			}
			if int(n) < len(l) {
				l = l[:int(n)]
			}
		case "$count":
			if len(l) > 0 {
				l = []bson.D{{{Key: arg.(string), Value: int32(len(l))}}}
			}
		case "$project":
			for i := range l {
				l[i] = project(l[i], arg.(bson.D))
			}
		case "$sort":
			srt := arg.(bson.D)
			sort.SliceStable(l, func(i, j int) bool {
				for _, k := range srt {
					a, _ := lookup(l[i], k.Key)
					b, _ := lookup(l[j], k.Key)
					if n := compare(a, b); n != 0 {
						s, _ := number(k.Value)
						return (n < 0) == (s > 0)
					}
				}
				return false
			})
		case "$group":
			g, f := group(l, arg.(bson.D))
			if f != nil {
				return nil, f
			}
			l = g
		default:
			return nil, fail(40324, "Location40324", "Unrecognized pipeline stage name: '%s'", st[0].Key)
		}
	}
	a := bson.A{}
	for _, d := range l {
		a = append(a, d)
	}
	return db.batches(target, cmd, a), nil
}

func value(d bson.D, e any) any {
	if s, isstr := e.(string); isstr && strings.HasPrefix(s, "$") {
		v, _ := lookup(d, s[1:])
		return v
	}
	return e
}

func group(l []bson.D, spec bson.D) ([]bson.D, *failure) {
	id, has := get(spec, "_id")
	if !has {
		return nil, fail(15955, "Location15955", "a group specification must include an _id")
	}
	var keys []any
	sets := map[int][]bson.D{}
	for _, d := range l {
		k := value(d, id)
		i := 0
		for i < len(keys) && compare(keys[i], k) != 0 {
			i++
		}
		if i == len(keys) {
			keys = append(keys, k)
		}
		sets[i] = append(sets[i], d)
	}
	var out []bson.D
	for i, k := range keys {
		r := bson.D{{Key: "_id", Value: k}}
		for _, e := range spec {
			if e.Key == "_id" {
				continue
			}
			acc, isd := e.Value.(bson.D)
			if !isd || len(acc) != 1 {
				return nil, badValue("bad accumulator")
			}
			switch acc[0].Key {
			case "$sum":
				s := 0.0
				for _, d := range sets[i] {
					n, _ := number(value(d, acc[0].Value))
					s += n
				}
				r = append(r, bson.E{Key: e.Key, Value: int32(s)})
			case "$first":
				r = append(r, bson.E{Key: e.Key, Value: value(sets[i][0], acc[0].Value)})
			default:
				return nil, badValue("accumulator %s is not supported by the stand-in", acc[0].Key)
			}
		}
		out = append(out, r)
	}
	return out, nil
}
