// Package fakemongo is a stand-in for a MongoDB deployment: it speaks the wire
// protocol and implements the commands, query and update operators, indexes
// and restrictions of sharded collections that a task queue relies on. All
// data are kept in memory; every command is one atomic step, except that
// commands that affect several documents take effect document by document.
package fakemongo

import (
	"bytes"
	"fmt"
	"strings"
	"time"

	"go.mongodb.org/mongo-driver/bson"
	"go.mongodb.org/mongo-driver/bson/primitive"
)

func get(d bson.D, key string) (any, bool) {
	for _, e := range d {
		if e.Key == key {
			return e.Value, true
		}
	}
	return nil, false
}

// lookup follows a dotted path.
func lookup(d bson.D, path string) (any, bool) {
	if v, ok := get(d, path); ok {
		return v, true
	}
	k, rest, ok := strings.Cut(path, ".")
	if !ok {
		return nil, false
	}
	v, ok := get(d, k)
	if !ok {
		return nil, false
	}
	if x, ok := v.(bson.D); ok {
		return lookup(x, rest)
	}
	return nil, false
}

func set(d bson.D, key string, v any) bson.D {
	for i := range d {
		if d[i].Key == key {
			n := append(bson.D{}, d...)
			n[i].Value = v
			return n
		}
	}
	return append(append(bson.D{}, d...), bson.E{Key: key, Value: v})
}

func unset(d bson.D, key string) bson.D {
	n := bson.D{}
	for _, e := range d {
		if e.Key != key {
			n = append(n, e)
		}
	}
	return n
}

func number(v any) (float64, bool) {
	switch x := v.(type) {
	case int32:
		return float64(x), true
	case int64:
		return float64(x), true
	case float64:
		return x, true
	case int:
		return float64(x), true
	}
	return 0, false
}

func truth(v any) bool {
	if b, ok := v.(bool); ok {
		return b
	}
	n, ok := number(v)
	return ok && n != 0
}

// rank orders the types as MongoDB compares them.
func rank(v any) int {
	switch v.(type) {
	case nil, primitive.Null, primitive.Undefined:
		return 1
	case int32, int64, float64, int, primitive.Decimal128:
		return 2
	case string, primitive.Symbol:
		return 3
	case bson.D, bson.M:
		return 4
	case bson.A:
		return 5
	case primitive.Binary:
		return 6
	case primitive.ObjectID:
		return 7
	case bool:
		return 8
	case primitive.DateTime, time.Time:
		return 9
	}
	return 10
}

func compare(a, b any) int {
	if x, y := rank(a), rank(b); x != y {
		return sign(int64(x - y))
	}
	switch x := a.(type) {
	case string:
		return strings.Compare(x, b.(string))
	case bool:
		y := b.(bool)
		if x == y {
			return 0
		} else if y {
			return -1
		}
		return 1
	case primitive.DateTime:
		if y, ok := b.(primitive.DateTime); ok {
			if x < y {
				return -1
			} else if x > y {
				return 1
			}
			return 0
		}
	case nil:
		return 0
	}
	if rank(a) == 2 {
		x, _ := number(a)
		y, _ := number(b)
		if x < y {
			return -1
		} else if x > y {
			return 1
		}
		return 0
	}
	return bytes.Compare(encode(a), encode(b))
}

func sign(n int64) int {
	if n < 0 {
		return -1
	} else if n > 0 {
		return 1
	}
	return 0
}

func encode(v any) []byte {
	b, err := bson.Marshal(bson.D{{Key: "v", Value: v}})
	if err != nil {
		panic(err)
	}
	return b
}

func equalDocs(a, b bson.D) bool { return bytes.Equal(encode(a), encode(b)) }

// failure is an error answer.
type failure struct {
	code int
	name string
	msg  string
}

func (f *failure) Error() string { return f.msg }

func fail(code int, name, format string, a ...any) *failure {
	return &failure{code, name, fmt.Sprintf(format, a...)}
}

func badValue(format string, a ...any) *failure { return fail(2, "BadValue", format, a...) }

// matches tells whether a document matches a filter.
func matches(d, filter bson.D) (bool, *failure) {
	for _, e := range filter {
		switch e.Key {
		case "$and", "$or", "$nor":
			l, ok := e.Value.(bson.A)
			if !ok {
				return false, badValue("%s must be an array", e.Key)
			}
			any, all := false, true
			for _, f := range l {
				m, err := matches(d, f.(bson.D))
				if err != nil {
					return false, err
				}
				any, all = any || m, all && m
			}
			if e.Key == "$and" && !all || e.Key == "$or" && !any || e.Key == "$nor" && any {
				return false, nil
			}
			continue
		case "$expr", "$where", "$text":
			return false, badValue("%s is not supported by the stand-in", e.Key)
		}
		v, ok := lookup(d, e.Key)
		m, err := matchValue(v, ok, e.Value)
		if err != nil || !m {
			return false, err
		}
	}
	return true, nil
}

func matchValue(v any, present bool, cond any) (bool, *failure) {
	if c, ok := cond.(bson.D); ok && len(c) > 0 && strings.HasPrefix(c[0].Key, "$") {
		for _, e := range c {
			m, err := operator(v, present, e.Key, e.Value)
			if err != nil || !m {
				return false, err
			}
		}
		return true, nil
	}
	return equals(v, present, cond), nil
}

func equals(v any, present bool, cond any) bool {
	if cond == nil {
		return !present || v == nil
	}
	return present && compare(v, cond) == 0
}

func operator(v any, present bool, op string, arg any) (bool, *failure) {
	switch op {
	case "$eq":
		return equals(v, present, arg), nil
	case "$ne":
		return !equals(v, present, arg), nil
	case "$lt", "$lte", "$gt", "$gte":
		// comparisons never cross types
		if !present || rank(v) != rank(arg) || rank(arg) == 1 && len(op) == 3 {
			return false, nil
		}
		c := compare(v, arg)
		return op == "$lt" && c < 0 || op == "$lte" && c <= 0 || op == "$gt" && c > 0 || op == "$gte" && c >= 0, nil
	case "$in", "$nin":
		l, ok := arg.(bson.A)
		if !ok {
			return false, badValue("%s needs an array", op)
		}
		found := false
		for _, x := range l {
			found = found || equals(v, present, x)
		}
		return found == (op == "$in"), nil
	case "$exists":
		return present == truth(arg), nil
	case "$type":
		return false, badValue("$type is not supported by the stand-in")
	case "$not":
		m, err := matchValue(v, present, arg)
		return !m, err
	}
	return false, badValue("unknown operator: %s", op)
}

// modify applies an update to a document; d is nil for an upsert.
func modify(d, query bson.D, update any, insert bool, now time.Time) (bson.D, *failure) {
	u, ok := update.(bson.D)
	if !ok {
		return nil, badValue("pipeline updates are not supported by the stand-in")
	}
	if len(u) == 0 || !strings.HasPrefix(u[0].Key, "$") {
		// replacement
		id, ok := get(u, "_id")
		var old any
		has := false
		if insert {
			old, has = equality(query, "_id")
		} else {
			old, has = get(d, "_id")
		}
		if ok && has && compare(id, old) != 0 {
			return nil, fail(66, "ImmutableField", "the _id field cannot be changed")
		}
		if !ok && has {
			return append(bson.D{{Key: "_id", Value: old}}, u...), nil
		}
		return append(bson.D{}, u...), nil
	}
	n := append(bson.D{}, d...)
	if insert {
		n = bson.D{}
		for _, e := range query {
			if v, ok := equality(query, e.Key); ok {
				n = set(n, e.Key, v)
			}
		}
	}
	for _, e := range u {
		fs, ok := e.Value.(bson.D)
		if !ok {
			return nil, fail(9, "FailedToParse", "modifiers operate on fields")
		}
		for _, f := range fs {
			if strings.Contains(f.Key, ".") {
				return nil, badValue("updates of embedded fields are not supported by the stand-in")
			}
			if f.Key == "_id" {
				if old, ok := get(d, "_id"); ok && compare(old, f.Value) != 0 {
					return nil, fail(66, "ImmutableField", "the _id field cannot be changed")
				}
			}
			switch e.Key {
			case "$set":
				n = set(n, f.Key, f.Value)
			case "$setOnInsert":
				if insert {
					n = set(n, f.Key, f.Value)
				}
			case "$unset":
				n = unset(n, f.Key)
			case "$currentDate":
				n = set(n, f.Key, primitive.NewDateTimeFromTime(now))
			case "$inc":
				old, _ := get(n, f.Key)
				x, _ := number(old)
				y, _ := number(f.Value)
				n = set(n, f.Key, int64(x+y))
			case "$min", "$max":
				old, ok := get(n, f.Key)
				if c := compare(f.Value, old); !ok || e.Key == "$min" && c < 0 || e.Key == "$max" && c > 0 {
					n = set(n, f.Key, f.Value)
				}
			default:
				return nil, fail(9, "FailedToParse", "Unknown modifier: %s", e.Key)
			}
		}
	}
	return n, nil
}

// equality returns the value a filter demands a field to be equal to.
func equality(filter bson.D, key string) (any, bool) {
	for _, e := range filter {
		if e.Key == "$and" {
			if l, ok := e.Value.(bson.A); ok {
				for _, f := range l {
					if v, ok := equality(f.(bson.D), key); ok {
						return v, true
					}
				}
			}
		}
		if e.Key != key {
			continue
		}
		c, ok := e.Value.(bson.D)
		if !ok {
			return e.Value, true
		}
		if len(c) == 0 || !strings.HasPrefix(c[0].Key, "$") {
			return c, true
		}
		if v, ok := get(c, "$eq"); ok {
			return v, true
		}
	}
	return nil, false
}

func project(d, p bson.D) bson.D {
	if len(p) == 0 {
		return d
	}
	inclusive := false
	for _, e := range p {
		if e.Key != "_id" && truth(e.Value) {
			inclusive = true
		}
	}
	if len(p) == 1 && p[0].Key == "_id" && truth(p[0].Value) {
		inclusive = true
	}
	n := bson.D{}
	for _, e := range d {
		v, ok := get(p, e.Key)
		switch {
		case ok && truth(v), !ok && !inclusive, !ok && e.Key == "_id":
			n = append(n, e)
		}
	}
	return n
}
