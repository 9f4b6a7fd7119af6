From 76e0605d551a12fcbefc231aadb3a0f7ac5e610e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:01:52 +0000
Subject: [PATCH 01/22] fix: keep MemDB polls from claiming tasks of other
 topics

The lower bound search of the scheduled index runs on into the topics that
sort after the polled one once the latter has no pending tasks left.
---
 internal/engine/memdb/queue.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/internal/engine/memdb/queue.go b/internal/engine/memdb/queue.go
index 795e2f2..6357c5f 100644
--- a/internal/engine/memdb/queue.go
+++ b/internal/engine/memdb/queue.go
@@ -83,8 +83,14 @@ func (g *Engine) Poll(ctx context.Context, topic string, p *ratus.Promise) (*rat
 		return nil, ratus.ErrNotFound
 	}
 
-	// Do not consume the task until the scheduled time.
+	// The lower bound search continues into the following topics when there are
+	// no more pending tasks in the specified topic.
 	t := r.(*ratus.Task)
+	if t.Topic != topic {
+		return nil, ratus.ErrNotFound
+	}
+
+	// Do not consume the task until the scheduled time.
 	if t.Scheduled != nil && t.Scheduled.After(n) {
 		return nil, ratus.ErrNotFound
 	}
-- 
2.43.0


From 7122ec687f0e1e3cf3d58a80f4b555353adaf7c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:01:53 +0000
Subject: [PATCH 02/22] fix: include times before 1970 in MemDB index scans

Polls and chores started their scans at the Unix epoch, so tasks with an
earlier scheduled time were never polled, and tasks with an earlier deadline
or consumed time were never recovered or expired.
---
 internal/engine/memdb/indexer.go | 4 ++++
 internal/engine/memdb/queue.go   | 6 +++---
 2 files changed, 7 insertions(+), 3 deletions(-)

diff --git a/internal/engine/memdb/indexer.go b/internal/engine/memdb/indexer.go
index 7707432..0cc071c 100644
--- a/internal/engine/memdb/indexer.go
+++ b/internal/engine/memdb/indexer.go
@@ -3,12 +3,16 @@ package memdb
 import (
 	"encoding/binary"
 	"fmt"
+	"math"
 	"reflect"
 	"time"
 
 	"github.com/hyperonym/ratus"
 )
 
+// minTime is the earliest time that can be represented in time field indexes.
+var minTime = time.UnixMilli(math.MinInt64)
+
 // StateFieldIndex encodes task state fields for index building.
 type StateFieldIndex struct {
 	Field string
diff --git a/internal/engine/memdb/queue.go b/internal/engine/memdb/queue.go
index 6357c5f..006fcd4 100644
--- a/internal/engine/memdb/queue.go
+++ b/internal/engine/memdb/queue.go
@@ -14,7 +14,7 @@ func (g *Engine) Chore(ctx context.Context) error {
 
 	// Recover tasks that have timed out.
 	n := time.Now()
-	it, err := txn.LowerBound(tableTask, indexActiveDeadline, ratus.TaskStateActive, time.UnixMilli(0))
+	it, err := txn.LowerBound(tableTask, indexActiveDeadline, ratus.TaskStateActive, minTime)
 	if err != nil {
 		return err
 	}
@@ -30,7 +30,7 @@ func (g *Engine) Chore(ctx context.Context) error {
 	}
 
 	// Delete completed tasks that have exceeded their retention period.
-	it, err = txn.LowerBound(tableTask, indexCompletedConsumed, ratus.TaskStateCompleted, time.UnixMilli(0))
+	it, err = txn.LowerBound(tableTask, indexCompletedConsumed, ratus.TaskStateCompleted, minTime)
 	if err != nil {
 		return err
 	}
@@ -74,7 +74,7 @@ func (g *Engine) Poll(ctx context.Context, topic string, p *ratus.Promise) (*rat
 
 	// Peek into the topic to get the next candidate task.
 	n := time.Now()
-	it, err := txn.LowerBound(tableTask, indexPendingTopicScheduled, ratus.TaskStatePending, topic, time.UnixMilli(0))
+	it, err := txn.LowerBound(tableTask, indexPendingTopicScheduled, ratus.TaskStatePending, topic, minTime)
 	if err != nil {
 		return nil, err
 	}
-- 
2.43.0


From 7d3a14c94fb6224b35b8aef798ee1777f068018d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:02:08 +0000
Subject: [PATCH 03/22] fix: keep null characters in MemDB keys from matching
 other keys

Strings were terminated but not escaped in the indexes, so the key of an ID
or topic was a prefix of the keys of those that continue with a null
character: lookups, listings and deletions matched them as well.
---
 internal/engine/memdb/indexer.go | 38 ++++++++++++++++++++++++++++++++
 internal/engine/memdb/memdb.go   |  8 +++----
 2 files changed, 42 insertions(+), 4 deletions(-)

diff --git a/internal/engine/memdb/indexer.go b/internal/engine/memdb/indexer.go
index 0cc071c..2ad374c 100644
--- a/internal/engine/memdb/indexer.go
+++ b/internal/engine/memdb/indexer.go
@@ -5,8 +5,11 @@ import (
 	"fmt"
 	"math"
 	"reflect"
+	"strings"
 	"time"
 
+	"github.com/hashicorp/go-memdb"
+
 	"github.com/hyperonym/ratus"
 )
 
@@ -74,6 +77,41 @@ func (i *StateFieldIndex) FromArgs(args ...any) ([]byte, error) {
 	return []byte{uint8(s)}, nil
 }
 
+// stringEscaper escapes the null terminator in the values of string fields
+// while preserving their order.
+var stringEscaper = strings.NewReplacer("\x00", "\x01\x01", "\x01", "\x01\x02")
+
+// StringFieldIndex encodes string fields for index building. Unlike the indexer
+// in the memdb package, no key is a prefix of another even if the values contain
+// null characters.
+type StringFieldIndex struct {
+	Field string
+}
+
+// FromObject implements the memdb.SingleIndexer interface.
+func (i *StringFieldIndex) FromObject(obj any) (bool, []byte, error) {
+	x := memdb.StringFieldIndex{Field: i.Field}
+	ok, b, err := x.FromObject(obj)
+	if !ok || err != nil {
+		return ok, b, err
+	}
+	return true, i.encodeString(string(b[:len(b)-1])), nil
+}
+
+// FromArgs implements the memdb.Indexer interface.
+func (i *StringFieldIndex) FromArgs(args ...any) ([]byte, error) {
+	x := memdb.StringFieldIndex{Field: i.Field}
+	b, err := x.FromArgs(args...)
+	if err != nil {
+		return nil, err
+	}
+	return i.encodeString(string(b[:len(b)-1])), nil
+}
+
+func (i *StringFieldIndex) encodeString(v string) []byte {
+	return []byte(stringEscaper.Replace(v) + "\x00")
+}
+
 // TimeFieldIndex encodes time fields for index building.
 type TimeFieldIndex struct {
 	Field string
diff --git a/internal/engine/memdb/memdb.go b/internal/engine/memdb/memdb.go
index e70981e..be6dc3d 100644
--- a/internal/engine/memdb/memdb.go
+++ b/internal/engine/memdb/memdb.go
@@ -72,13 +72,13 @@ func New(c *Config) (*Engine, error) {
 						Name:         indexID,
 						AllowMissing: false,
 						Unique:       true,
-						Indexer:      &memdb.StringFieldIndex{Field: keyID},
+						Indexer:      &StringFieldIndex{Field: keyID},
 					},
 					indexTopic: {
 						Name:         indexTopic,
 						AllowMissing: false,
 						Unique:       false,
-						Indexer:      &memdb.StringFieldIndex{Field: keyTopic},
+						Indexer:      &StringFieldIndex{Field: keyTopic},
 					},
 					indexPendingTopicScheduled: {
 						Name:         indexPendingTopicScheduled,
@@ -87,7 +87,7 @@ func New(c *Config) (*Engine, error) {
 						Indexer: &memdb.CompoundIndex{
 							Indexes: []memdb.Indexer{
 								&StateFieldIndex{Field: keyState, Filter: ratus.TaskStatePending},
-								&memdb.StringFieldIndex{Field: keyTopic},
+								&StringFieldIndex{Field: keyTopic},
 								&TimeFieldIndex{Field: keyScheduled},
 							},
 						},
@@ -110,7 +110,7 @@ func New(c *Config) (*Engine, error) {
 						Indexer: &memdb.CompoundIndex{
 							Indexes: []memdb.Indexer{
 								&StateFieldIndex{Field: keyState, Filter: ratus.TaskStateActive},
-								&memdb.StringFieldIndex{Field: keyTopic},
+								&StringFieldIndex{Field: keyTopic},
 							},
 						},
 					},
-- 
2.43.0


From ae7f2ca38347a0aec9dc064c8cdcbabf2770efce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:04:36 +0000
Subject: [PATCH 04/22] fix: reject task lists that contain null

A null element in the list was dereferenced, and the panic closed the
connection without a response.
---
 internal/middleware/task.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/internal/middleware/task.go b/internal/middleware/task.go
index 217a4b8..df51b2e 100644
--- a/internal/middleware/task.go
+++ b/internal/middleware/task.go
@@ -77,6 +77,11 @@ func Tasks() gin.HandlerFunc {
 
 func normalizeTask(t *ratus.Task, id, topic string) error {
 
+	// The elements of task lists may be null.
+	if t == nil {
+		return errors.New("task must not be null")
+	}
+
 	// Normalize and validate ID.
 	if t.ID == "" {
 		t.ID = id
-- 
2.43.0


From 18dea880b59667b4880610a3e3760e33225a6258 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:04:38 +0000
Subject: [PATCH 05/22] fix: reject malformed promises and commits

Request bodies and query parameters that could not be decoded were ignored,
so that a malformed commit completed its task and a malformed promise claimed
a task with the default timeout.
---
 internal/middleware/commit.go     |  5 ++++-
 internal/middleware/middleware.go | 13 +++++++++++++
 internal/middleware/promise.go    | 10 ++++++++--
 3 files changed, 25 insertions(+), 3 deletions(-)

diff --git a/internal/middleware/commit.go b/internal/middleware/commit.go
index 77b203b..cfb0dcc 100644
--- a/internal/middleware/commit.go
+++ b/internal/middleware/commit.go
@@ -16,7 +16,10 @@ func Commit() gin.HandlerFunc {
 		// All fields are optional in a commit.
 		// An empty commit sets the state of the task to "completed".
 		var m ratus.Commit
-		c.ShouldBindJSON(&m)
+		if err := bindOptionalJSON(c, &m); err != nil {
+			fail(c, fmt.Errorf("%w: %v", ratus.ErrBadRequest, err))
+			return
+		}
 
 		// Validate and normalize the commit.
 		if err := normalizeCommit(&m); err != nil {
diff --git a/internal/middleware/middleware.go b/internal/middleware/middleware.go
index b360bd2..45b3a6b 100644
--- a/internal/middleware/middleware.go
+++ b/internal/middleware/middleware.go
@@ -2,6 +2,8 @@
 package middleware
 
 import (
+	"io"
+
 	"github.com/gin-gonic/gin"
 
 	"github.com/hyperonym/ratus"
@@ -23,3 +25,14 @@ func fail(c *gin.Context, err error) {
 	e := ratus.NewError(err)
 	c.AbortWithStatusJSON(e.Error.Code, e)
 }
+
+// bindOptionalJSON binds the request body if there is one.
+func bindOptionalJSON(c *gin.Context, v any) error {
+	if c.Request.Body == nil {
+		return nil
+	}
+	if err := c.ShouldBindJSON(v); err != nil && err != io.EOF {
+		return err
+	}
+	return nil
+}
diff --git a/internal/middleware/promise.go b/internal/middleware/promise.go
index b1d42ad..8c9beba 100644
--- a/internal/middleware/promise.go
+++ b/internal/middleware/promise.go
@@ -17,8 +17,14 @@ func Promise() gin.HandlerFunc {
 		// Promise is a relatively simple data structure that can be submitted
 		// either through the request body or query parameters.
 		var p ratus.Promise
-		c.ShouldBindJSON(&p)
-		c.ShouldBindQuery(&p)
+		if err := bindOptionalJSON(c, &p); err != nil {
+			fail(c, fmt.Errorf("%w: %v", ratus.ErrBadRequest, err))
+			return
+		}
+		if err := c.ShouldBindQuery(&p); err != nil {
+			fail(c, fmt.Errorf("%w: %v", ratus.ErrBadRequest, err))
+			return
+		}
 
 		// Validate and normalize the promise.
 		if err := normalizePromise(&p, c.Param(ParamID)); err != nil {
-- 
2.43.0


From 9d596fd67279026bce3fede3dc47f7d924cc1d13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:04:39 +0000
Subject: [PATCH 06/22] fix: escape plus signs in the paths of client requests

IDs and topics with a plus sign and a character that is percent-encoded in
paths reached the server with a space in place of the plus sign.
---
 transport.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/transport.go b/transport.go
index 607611c..3d1758f 100644
--- a/transport.go
+++ b/transport.go
@@ -3,6 +3,7 @@ package ratus
 import (
 	"net/http"
 	"net/url"
+	"strings"
 )
 
 // maxIdleConnsPerHost is the maximum number of idle (keep-alive) connections.
@@ -53,6 +54,10 @@ func (t *transport) RoundTrip(r *http.Request) (*http.Response, error) {
 		r.URL.Host = t.host
 	}
 
+	// Escape plus signs in the path, which the router would otherwise unescape to
+	// spaces if the path contains other escaped characters.
+	r.URL.RawPath = strings.ReplaceAll(r.URL.EscapedPath(), "+", "%2B")
+
 	// Set common header fields.
 	for k, v := range t.headers {
 		if _, ok := r.Header[k]; !ok {
-- 
2.43.0


From fc2367e474356eea094014a3ea94c9c29e3540ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:03 +0000
Subject: [PATCH 07/22] fix: reject requests with invalid UTF-8 parameters

Such parameters ended up as labels of metrics, which panicked after the
operation had been carried out, and the connection was closed without a
response.
---
 internal/controller/controller.go |  1 +
 internal/middleware/prometheus.go |  4 +++-
 internal/middleware/utf8.go       | 33 +++++++++++++++++++++++++++++++
 3 files changed, 37 insertions(+), 1 deletion(-)
 create mode 100644 internal/middleware/utf8.go

diff --git a/internal/controller/controller.go b/internal/controller/controller.go
index 4bdaaf5..1448f7b 100644
--- a/internal/controller/controller.go
+++ b/internal/controller/controller.go
@@ -55,6 +55,7 @@ func (v *V1) Prefixes() []string {
 // Mount initializes group-level middlewares and mounts the endpoints.
 func (v *V1) Mount(r *gin.RouterGroup) {
 	r.Use(middleware.Prometheus())
+	r.Use(middleware.UTF8())
 
 	r.GET("/topics", v.Pagination, v.Topic.GetTopics)
 	r.DELETE("/topics", v.Topic.DeleteTopics)
diff --git a/internal/middleware/prometheus.go b/internal/middleware/prometheus.go
index 1d2eb0a..83c31d1 100644
--- a/internal/middleware/prometheus.go
+++ b/internal/middleware/prometheus.go
@@ -2,6 +2,7 @@ package middleware
 
 import (
 	"strconv"
+	"strings"
 	"time"
 
 	"github.com/gin-gonic/gin"
@@ -16,6 +17,7 @@ func Prometheus() gin.HandlerFunc {
 		c.Next()
 		d := time.Since(t).Seconds()
 		s := strconv.Itoa(c.Writer.Status())
-		metrics.RequestHistogram.WithLabelValues(c.Param(ParamTopic), c.Request.Method, c.FullPath(), s).Observe(d)
+		p := strings.ToValidUTF8(c.Param(ParamTopic), "\uFFFD")
+		metrics.RequestHistogram.WithLabelValues(p, c.Request.Method, c.FullPath(), s).Observe(d)
 	}
 }
diff --git a/internal/middleware/utf8.go b/internal/middleware/utf8.go
new file mode 100644
index 0000000..4cf65f6
--- /dev/null
+++ b/internal/middleware/utf8.go
@@ -0,0 +1,33 @@
+package middleware
+
+import (
+	"fmt"
+	"unicode/utf8"
+
+	"github.com/gin-gonic/gin"
+
+	"github.com/hyperonym/ratus"
+)
+
+// UTF8 returns a middleware that rejects invalid UTF-8 strings in parameters,
+// which can neither be represented in JSON nor be used as metrics labels.
+func UTF8() gin.HandlerFunc {
+	return func(c *gin.Context) {
+		for _, p := range c.Params {
+			if !utf8.ValidString(p.Value) {
+				fail(c, fmt.Errorf("%w: invalid path parameter %q", ratus.ErrBadRequest, p.Key))
+				return
+			}
+		}
+		for k, vs := range c.Request.URL.Query() {
+			for _, v := range vs {
+				if !utf8.ValidString(v) {
+					fail(c, fmt.Errorf("%w: invalid query parameter %q", ratus.ErrBadRequest, k))
+					return
+				}
+			}
+		}
+
+		c.Next()
+	}
+}
-- 
2.43.0


From 1bd710313e196219eb3992f2743f14eabed0faaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:38 +0000
Subject: [PATCH 08/22] fix: do not redirect requests with an empty ID or topic

The redirection of trailing slashes sent them to the endpoint of the whole
collection, where DeleteTopic("") of the client deleted all topics.
---
 docs/docs.go              | 3 +++
 internal/router/router.go | 4 ++++
 2 files changed, 7 insertions(+)

diff --git a/docs/docs.go b/docs/docs.go
index f391ca1..6c6201c 100644
--- a/docs/docs.go
+++ b/docs/docs.go
@@ -33,6 +33,9 @@ func (s *Swagger) Mount(r *gin.RouterGroup) {
 	r.GET("/", func(c *gin.Context) {
 		c.Writer.Write(index)
 	})
+	r.GET("/swagger-ui", func(c *gin.Context) {
+		c.Redirect(http.StatusMovedPermanently, "/swagger-ui/")
+	})
 	r.GET("/swagger-ui/*filepath", func(c *gin.Context) {
 		c.FileFromFS(path.Join("/swagger-ui/", c.Param("filepath")), fs)
 	})
diff --git a/internal/router/router.go b/internal/router/router.go
index c44e8e4..660964e 100644
--- a/internal/router/router.go
+++ b/internal/router/router.go
@@ -37,6 +37,10 @@ func New(groups ...Group) *gin.Engine {
 	r.UseRawPath = true
 	r.UnescapePathValues = true
 
+	// Do not redirect requests with an empty ID or topic to the endpoint of the
+	// whole collection: "DELETE /topics/" would otherwise delete all topics.
+	r.RedirectTrailingSlash = false
+
 	// Enable logging and profiling if not in release mode.
 	// Recommended to collect logs at load balancer level in production.
 	if gin.Mode() != gin.ReleaseMode {
-- 
2.43.0


From 021a94ea08f18c972ec56d54d24e42895e7f5aac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:07 +0000
Subject: [PATCH 09/22] fix: report snapshots that could not be completed

Errors of closing and renaming the temporary file were ignored, the snapshot
was then considered to be saved while the previous one, or an incomplete one,
was in place.
---
 internal/engine/memdb/memdb.go | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/internal/engine/memdb/memdb.go b/internal/engine/memdb/memdb.go
index be6dc3d..49c2d1f 100644
--- a/internal/engine/memdb/memdb.go
+++ b/internal/engine/memdb/memdb.go
@@ -245,14 +245,12 @@ func save(db *memdb.MemDB, path string) error {
 		return err
 	}
 
-	// Rename or delete the temporary file before returning.
+	// Delete the temporary file before returning if the operation failed.
 	var ok bool
 	defer func() {
-		f.Close()
 		if !ok {
+			f.Close()
 			os.Remove(p)
-		} else {
-			os.Rename(p, path)
 		}
 	}()
 
@@ -271,6 +269,14 @@ func save(db *memdb.MemDB, path string) error {
 	}
 	txn.Commit()
 
+	// Replace the previous snapshot with the completed file.
+	if err := f.Close(); err != nil {
+		return err
+	}
+	if err := os.Rename(p, path); err != nil {
+		return err
+	}
+
 	// Mark the operation as successful.
 	ok = true
 
-- 
2.43.0


From 48d1553e8bef9923fd2bcc4990a517ace3c6fa71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:08 +0000
Subject: [PATCH 10/22] fix: complete requests in progress before closing the
 storage engine

ListenAndServe returns as soon as the shutdown begins, so the storage engine
was closed and the process exited while requests were still being served:
acknowledged changes were missing from the final snapshot.
---
 cmd/ratus/main.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/cmd/ratus/main.go b/cmd/ratus/main.go
index 238073e..d67f4c9 100644
--- a/cmd/ratus/main.go
+++ b/cmd/ratus/main.go
@@ -150,7 +150,9 @@ func serve(ctx context.Context, h http.Handler, c *config.ServerConfig) error {
 	// Gracefully shut down the server when an interrupt or SIGTERM signal
 	// is received, or close the server immediately if the context has been
 	// canceled or another goroutine in the error group has return an error.
+	done := make(chan struct{})
 	go func() {
+		defer close(done)
 		select {
 		case <-ch:
 			log.Printf("stop listening on %s\n", a)
@@ -166,6 +168,10 @@ func serve(ctx context.Context, h http.Handler, c *config.ServerConfig) error {
 		return err
 	}
 
+	// Wait for the requests in progress to complete, their effects would
+	// otherwise be missing from the snapshot written when closing the engine.
+	<-done
+
 	return nil
 }
 
-- 
2.43.0


From f27bbd832ad0d3942a749b31ce2625bf15fb0013 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:03 +0000
Subject: [PATCH 11/22] fix: restore empty arrays in payloads from snapshots

Empty arrays turned into null when tasks were loaded from a snapshot.
---
 internal/engine/memdb/memdb.go | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/internal/engine/memdb/memdb.go b/internal/engine/memdb/memdb.go
index 49c2d1f..bb5060b 100644
--- a/internal/engine/memdb/memdb.go
+++ b/internal/engine/memdb/memdb.go
@@ -308,6 +308,7 @@ func load(db *memdb.MemDB, path string) error {
 			}
 			return err
 		}
+		t.Payload = restoreEmpty(t.Payload)
 		if err := txn.Insert(tableTask, &t); err != nil {
 			return err
 		}
@@ -316,3 +317,22 @@ func load(db *memdb.MemDB, path string) error {
 
 	return nil
 }
+
+// restoreEmpty replaces nil slices in the decoded payload with empty ones, as
+// the gob encoding does not tell them apart.
+func restoreEmpty(v any) any {
+	switch x := v.(type) {
+	case []any:
+		if x == nil {
+			return []any{}
+		}
+		for i := range x {
+			x[i] = restoreEmpty(x[i])
+		}
+	case map[string]any:
+		for k := range x {
+			x[k] = restoreEmpty(x[k])
+		}
+	}
+	return v
+}
-- 
2.43.0


From 80c5e88dccfee466881acbe931e7f55a7d8ab1ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:24:40 +0000
Subject: [PATCH 12/22] fix: report commits that fail because the task no
 longer exists

---
 client.go | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/client.go b/client.go
index 5ccea86..399a62d 100644
--- a/client.go
+++ b/client.go
@@ -139,6 +139,13 @@ func (c *Client) Subscribe(ctx context.Context, o *SubscribeOptions, f Subscribe
 					return ctx.Err()
 				case <-r.C:
 					x, err := c.Poll(ctx, o.Topic, p)
+					if errors.Is(err, ErrNotFound) {
+
+						// The topic has been emptied or no task has reached its
+						// scheduled time of execution, then poll again later.
+						r.Reset(dd)
+						break
+					}
 					if err != nil {
 						ec <- err
 						break
@@ -156,13 +163,6 @@ func (c *Client) Subscribe(ctx context.Context, o *SubscribeOptions, f Subscribe
 					r.Reset(o.PollInterval)
 				case err := <-ec:
 
-					// The topic has been emptied or no task has reached its
-					// scheduled time of execution, then poll again later.
-					if errors.Is(err, ErrNotFound) {
-						r.Reset(dd)
-						break
-					}
-
 					// Handle unexpected errors.
 					if ctx.Err() == nil {
 						f(nil, err)
-- 
2.43.0


From 7a30239d0809774b3347f3fdb2e1e05763e8d89b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:31:41 +0000
Subject: [PATCH 13/22] fix: reject timestamps that cannot be represented in
 UTC

---
 internal/middleware/commit.go  |  5 ++++-
 internal/middleware/promise.go |  5 ++++-
 internal/middleware/task.go    | 19 +++++++++++++++++++
 3 files changed, 27 insertions(+), 2 deletions(-)

diff --git a/internal/middleware/commit.go b/internal/middleware/commit.go
index cfb0dcc..b5ca568 100644
--- a/internal/middleware/commit.go
+++ b/internal/middleware/commit.go
@@ -45,7 +45,10 @@ func normalizeCommit(m *ratus.Commit) error {
 		return fmt.Errorf("invalid target state %d", *m.State)
 	}
 
-	// Normalize scheduled time.
+	// Validate and normalize scheduled time.
+	if err := validateTimes(m.Scheduled); err != nil {
+		return err
+	}
 	if m.Defer != "" && m.Scheduled == nil {
 		d, err := time.ParseDuration(m.Defer)
 		if err != nil {
diff --git a/internal/middleware/promise.go b/internal/middleware/promise.go
index 8c9beba..83db38d 100644
--- a/internal/middleware/promise.go
+++ b/internal/middleware/promise.go
@@ -49,7 +49,10 @@ func normalizePromise(p *ratus.Promise, id string) error {
 		return errors.New("promise ID is inconsistent with the path parameter")
 	}
 
-	// Normalize deadline time.
+	// Validate and normalize deadline time.
+	if err := validateTimes(p.Deadline); err != nil {
+		return err
+	}
 	if p.Deadline == nil {
 		if p.Timeout == "" {
 			p.Timeout = ratus.DefaultTimeout
diff --git a/internal/middleware/task.go b/internal/middleware/task.go
index df51b2e..79514d8 100644
--- a/internal/middleware/task.go
+++ b/internal/middleware/task.go
@@ -106,6 +106,11 @@ func normalizeTask(t *ratus.Task, id, topic string) error {
 		return fmt.Errorf("invalid state %d", t.State)
 	}
 
+	// Validate timestamps.
+	if err := validateTimes(t.Produced, t.Scheduled, t.Consumed, t.Deadline); err != nil {
+		return err
+	}
+
 	// Normalize produced time.
 	n := time.Now()
 	if t.Produced == nil {
@@ -130,3 +135,17 @@ func normalizeTask(t *ratus.Task, id, topic string) error {
 
 	return nil
 }
+
+// validateTimes returns an error if any of the timestamps could not be encoded
+// in JSON once converted to UTC, as storage engines may not keep the time zone.
+func validateTimes(ts ...*time.Time) error {
+	for _, t := range ts {
+		if t == nil {
+			continue
+		}
+		if y := t.UTC().Year(); y < 0 || y > 9999 {
+			return errors.New("timestamp is out of range")
+		}
+	}
+	return nil
+}
-- 
2.43.0


From 7d905728919205028e0274a6c0f4a9b0a299f463 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:31:41 +0000
Subject: [PATCH 14/22] fix: accept empty task lists on MongoDB

---
 internal/engine/mongodb/task.go | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/internal/engine/mongodb/task.go b/internal/engine/mongodb/task.go
index cb4d598..f069561 100644
--- a/internal/engine/mongodb/task.go
+++ b/internal/engine/mongodb/task.go
@@ -27,6 +27,12 @@ func (g *Engine) ListTasks(ctx context.Context, topic string, limit, offset int)
 
 // InsertTasks inserts a batch of tasks while ignoring existing ones.
 func (g *Engine) InsertTasks(ctx context.Context, ts []*ratus.Task) (*ratus.Updated, error) {
+
+	// Bulk writes must not be empty.
+	if len(ts) == 0 {
+		return &ratus.Updated{}, nil
+	}
+
 	w := make([]mongo.WriteModel, len(ts))
 	for i, t := range ts {
 		m := mongo.NewInsertOneModel()
@@ -51,6 +57,12 @@ func (g *Engine) InsertTasks(ctx context.Context, ts []*ratus.Task) (*ratus.Upda
 
 // UpsertTasks inserts or updates a batch of tasks.
 func (g *Engine) UpsertTasks(ctx context.Context, ts []*ratus.Task) (*ratus.Updated, error) {
+
+	// Bulk writes must not be empty.
+	if len(ts) == 0 {
+		return &ratus.Updated{}, nil
+	}
+
 	return branch(func() (*ratus.Updated, error) {
 		return g.upsertTasksReplace(ctx, ts)
 	}, func() (*ratus.Updated, error) {
-- 
2.43.0


From 60bb2b50982813ece8f0ee26c2fd4a611efcf87d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:31:41 +0000
Subject: [PATCH 15/22] fix: let the last of several tasks with the same ID win
 in fallback upserts on MongoDB

---
 internal/engine/mongodb/task.go | 19 ++++++++++++++++---
 1 file changed, 16 insertions(+), 3 deletions(-)

diff --git a/internal/engine/mongodb/task.go b/internal/engine/mongodb/task.go
index f069561..0932330 100644
--- a/internal/engine/mongodb/task.go
+++ b/internal/engine/mongodb/task.go
@@ -119,16 +119,29 @@ func (g *Engine) upsertTasksDeleteAndInsert(ctx context.Context, ts []*ratus.Tas
 		return nil, err
 	}
 
+	// Only the last one of the tasks with the same ID takes effect.
+	last := make(map[string]int, len(ts))
+	for i, t := range ts {
+		last[t.ID] = i
+	}
+	us := make([]*ratus.Task, 0, len(last))
+	for i, t := range ts {
+		if last[t.ID] == i {
+			us = append(us, t)
+		}
+	}
+
 	// Insert the tasks and ignore duplicate key errors in race conditions.
 	// This operation is expected to work on sharded collections using various
 	// sharding strategies.
-	if _, err := g.InsertTasks(ctx, ts); err != nil {
+	if _, err := g.InsertTasks(ctx, us); err != nil {
 		return nil, err
 	}
 
+	n := int64(len(us)) - r.DeletedCount
 	return &ratus.Updated{
-		Created: int64(len(ts)) - r.DeletedCount,
-		Updated: r.DeletedCount,
+		Created: n,
+		Updated: int64(len(ts)) - n,
 	}, nil
 }
 
-- 
2.43.0


From bfeee432ed774bf5d850dcadcc243781a9c5449b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:31:55 +0000
Subject: [PATCH 16/22] fix: keep zero timestamps of tasks on MongoDB

---
 ratus.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/ratus.go b/ratus.go
index 66b82d6..973e8fc 100644
--- a/ratus.go
+++ b/ratus.go
@@ -116,19 +116,19 @@ type Task struct {
 	// The time the task was created.
 	// Timestamps are generated by the instance running Ratus, remember to
 	// perform clock synchronization before running multiple instances.
-	Produced *time.Time `json:"produced,omitempty" bson:"produced,omitempty"`
+	Produced *time.Time `json:"produced,omitempty" bson:"produced"`
 	// The time the task is scheduled to be executed. Tasks will not be
 	// executed until the scheduled time arrives. After the scheduled time,
 	// excessive tasks will be executed in the order of the scheduled time.
-	Scheduled *time.Time `json:"scheduled,omitempty" bson:"scheduled,omitempty"`
+	Scheduled *time.Time `json:"scheduled,omitempty" bson:"scheduled"`
 	// The time the task was claimed by a consumer.
 	// Not to confuse this with the time of commit, which is not recorded.
-	Consumed *time.Time `json:"consumed,omitempty" bson:"consumed,omitempty"`
+	Consumed *time.Time `json:"consumed,omitempty" bson:"consumed"`
 	// The deadline for the completion of execution promised by the consumer.
 	// Consumer code needs to commit the task before this deadline, otherwise
 	// the task is determined to have timed out and will be reset to the
 	// "pending" state, allowing other consumers to retry.
-	Deadline *time.Time `json:"deadline,omitempty" bson:"deadline,omitempty"`
+	Deadline *time.Time `json:"deadline,omitempty" bson:"deadline"`
 
 	// A minimal descriptor of the task to be executed.
 	// It is not recommended to rely on Ratus as the main storage of tasks.
-- 
2.43.0


From 8116d38341fab082eaaab926fe77819aba0ad89e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:40:11 +0000
Subject: [PATCH 17/22] fix: round retention periods up to whole seconds on
 MongoDB

---
 internal/engine/mongodb/mongodb.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/internal/engine/mongodb/mongodb.go b/internal/engine/mongodb/mongodb.go
index f6a2ba1..36be61a 100644
--- a/internal/engine/mongodb/mongodb.go
+++ b/internal/engine/mongodb/mongodb.go
@@ -3,6 +3,7 @@ package mongodb
 
 import (
 	"context"
+	"math"
 	"reflect"
 	"sync/atomic"
 	"time"
@@ -214,7 +215,7 @@ func (g *Engine) createIndexes(ctx context.Context) error {
 	// exceeded their retention period.
 	e.Go(func() error {
 		k := bson.D{{Key: keyConsumed, Value: 1}}
-		s := int32(g.config.RetentionPeriod.Seconds())
+		s := int32(math.Ceil(g.config.RetentionPeriod.Seconds()))
 
 		// Attempt to create a new TTL index. This operation will fail if the
 		// specified TTL value does not match the value in the existing index.
-- 
2.43.0


From 0117e47a63842a7e1663e93071d50d651fd39edd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:24 +0000
Subject: [PATCH 18/22] fix: report storage errors when checking whether a task
 exists on MongoDB

---
 internal/engine/mongodb/mongodb.go |  7 +++++--
 internal/engine/mongodb/promise.go |  6 +++++-
 internal/engine/mongodb/queue.go   | 13 +++++++++----
 3 files changed, 19 insertions(+), 7 deletions(-)

diff --git a/internal/engine/mongodb/mongodb.go b/internal/engine/mongodb/mongodb.go
index 36be61a..2881e72 100644
--- a/internal/engine/mongodb/mongodb.go
+++ b/internal/engine/mongodb/mongodb.go
@@ -266,9 +266,12 @@ func (g *Engine) peek(ctx context.Context, filter, sort any, hint string) (*ratu
 }
 
 // exists returns whether a document that matches the filter criteria exists.
-func (g *Engine) exists(ctx context.Context, filter any, hint string) bool {
+func (g *Engine) exists(ctx context.Context, filter any, hint string) (bool, error) {
 	_, err := g.peek(ctx, filter, nil, hint)
-	return err == nil
+	if err == mongo.ErrNoDocuments {
+		return false, nil
+	}
+	return err == nil, err
 }
 
 // queryOpsPoll returns a document containing query operators to peek into the
diff --git a/internal/engine/mongodb/promise.go b/internal/engine/mongodb/promise.go
index ab3070d..a2297ee 100644
--- a/internal/engine/mongodb/promise.go
+++ b/internal/engine/mongodb/promise.go
@@ -100,7 +100,11 @@ func (g *Engine) insertPromiseAtomic(ctx context.Context, p *ratus.Promise) (*ra
 		// Check if the failure is due to a mismatch of state or the target
 		// task does not exist.
 		if err == mongo.ErrNoDocuments {
-			if g.exists(ctx, bson.D{{Key: keyID, Value: p.ID}}, indexID) {
+			ok, e := g.exists(ctx, bson.D{{Key: keyID, Value: p.ID}}, indexID)
+			if e != nil {
+				return nil, e
+			}
+			if ok {
 				err = ratus.ErrConflict
 			} else {
 				err = ratus.ErrNotFound
diff --git a/internal/engine/mongodb/queue.go b/internal/engine/mongodb/queue.go
index f3cb35a..e5bdd0c 100644
--- a/internal/engine/mongodb/queue.go
+++ b/internal/engine/mongodb/queue.go
@@ -130,10 +130,15 @@ func (g *Engine) commitAtomic(ctx context.Context, id string, m *ratus.Commit) (
 		// Check if the failure is due to a mismatch of nonce or the target
 		// task does not exist.
 		if err == mongo.ErrNoDocuments {
-			if m.Nonce != "" && g.exists(ctx, bson.D{{Key: keyID, Value: id}}, indexID) {
-				err = ratus.ErrConflict
-			} else {
-				err = ratus.ErrNotFound
+			err = ratus.ErrNotFound
+			if m.Nonce != "" {
+				ok, e := g.exists(ctx, bson.D{{Key: keyID, Value: id}}, indexID)
+				if e != nil {
+					return nil, e
+				}
+				if ok {
+					err = ratus.ErrConflict
+				}
 			}
 		}
 		return nil, err
-- 
2.43.0


From d9efda4e3638e090386070645ab9ab04c9f3fe26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:46 +0000
Subject: [PATCH 19/22] fix: flush snapshots to disk before replacing the
 previous one

---
 internal/engine/memdb/memdb.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/internal/engine/memdb/memdb.go b/internal/engine/memdb/memdb.go
index bb5060b..d3eb9da 100644
--- a/internal/engine/memdb/memdb.go
+++ b/internal/engine/memdb/memdb.go
@@ -269,6 +269,12 @@ func save(db *memdb.MemDB, path string) error {
 	}
 	txn.Commit()
 
+	// Flush the completed file to disk before it replaces the previous snapshot,
+	// which must not get lost when the machine crashes.
+	if err := f.Sync(); err != nil {
+		return err
+	}
+
 	// Replace the previous snapshot with the completed file.
 	if err := f.Close(); err != nil {
 		return err
-- 
2.43.0


From 1444474f284754dc7f52287dd5c2c457e3051ba6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:33 +0000
Subject: [PATCH 20/22] fix: report a final snapshot that could not be written

---
 cmd/ratus/main.go | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/cmd/ratus/main.go b/cmd/ratus/main.go
index d67f4c9..71e1135 100644
--- a/cmd/ratus/main.go
+++ b/cmd/ratus/main.go
@@ -73,7 +73,7 @@ func main() {
 	log.Println("shut down gracefully")
 }
 
-func run() error {
+func run() (err error) {
 
 	// Parse command line arguments.
 	var a args
@@ -83,10 +83,7 @@ func run() error {
 	ctx := context.Background()
 
 	// Create a storage engine instance of the specified type.
-	var (
-		g   engine.Engine
-		err error
-	)
+	var g engine.Engine
 	switch strings.ToLower(a.Engine) {
 	case "memdb":
 		g, err = memdb.New(&a.memdbConfig)
@@ -100,11 +97,16 @@ func run() error {
 	}
 
 	// Initialize the storage engine instance and defer the close method for
-	// graceful shutdown.
+	// graceful shutdown. Errors from closing must be reported as they indicate
+	// that the final snapshot could not be written.
 	if err := g.Open(ctx); err != nil {
 		return err
 	}
-	defer g.Close(ctx)
+	defer func(ctx context.Context) {
+		if e := g.Close(ctx); e != nil && err == nil {
+			err = e
+		}
+	}(ctx)
 
 	// Create router and mount API endpoints.
 	r := router.New(&controller.V1{
-- 
2.43.0


From 51e6c2dedf7321c23612b3d53c957653ccee7f16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:47 +0000
Subject: [PATCH 21/22] fix: do not miss termination signals that arrive while
 starting

---
 cmd/ratus/main.go | 30 ++++++++++++++++--------------
 1 file changed, 16 insertions(+), 14 deletions(-)

diff --git a/cmd/ratus/main.go b/cmd/ratus/main.go
index 71e1135..c16dc03 100644
--- a/cmd/ratus/main.go
+++ b/cmd/ratus/main.go
@@ -118,19 +118,29 @@ func run() (err error) {
 		Metrics:    controller.NewMetricsController(g),
 	}, &docs.Swagger{})
 
+	// Listen for termination signals before starting anything that stops on
+	// them. Otherwise, a signal that arrives early may only reach some of them.
+	ch := make(chan os.Signal, 1)
+	signal.Notify(ch, os.Interrupt, syscall.SIGTERM)
+	stop := make(chan struct{})
+	go func() {
+		<-ch
+		close(stop)
+	}()
+
 	// Start API server and background jobs.
 	e, ctx := errgroup.WithContext(ctx)
 	e.Go(func() error {
-		return serve(ctx, r.Handler(), &a.ServerConfig)
+		return serve(ctx, stop, r.Handler(), &a.ServerConfig)
 	})
 	e.Go(func() error {
-		return chore(ctx, g, &a.ChoreConfig)
+		return chore(ctx, stop, g, &a.ChoreConfig)
 	})
 
 	return e.Wait()
 }
 
-func serve(ctx context.Context, h http.Handler, c *config.ServerConfig) error {
+func serve(ctx context.Context, stop <-chan struct{}, h http.Handler, c *config.ServerConfig) error {
 
 	// A port number of zero will not start the API server.
 	// This allows the instance to be responsible for running background jobs only.
@@ -145,10 +155,6 @@ func serve(ctx context.Context, h http.Handler, c *config.ServerConfig) error {
 		Handler: h,
 	}
 
-	// Listen for termination signals.
-	ch := make(chan os.Signal, 1)
-	signal.Notify(ch, os.Interrupt, syscall.SIGTERM)
-
 	// Gracefully shut down the server when an interrupt or SIGTERM signal
 	// is received, or close the server immediately if the context has been
 	// canceled or another goroutine in the error group has return an error.
@@ -156,7 +162,7 @@ func serve(ctx context.Context, h http.Handler, c *config.ServerConfig) error {
 	go func() {
 		defer close(done)
 		select {
-		case <-ch:
+		case <-stop:
 			log.Printf("stop listening on %s\n", a)
 			s.Shutdown(context.Background())
 		case <-ctx.Done():
@@ -177,7 +183,7 @@ func serve(ctx context.Context, h http.Handler, c *config.ServerConfig) error {
 	return nil
 }
 
-func chore(ctx context.Context, g engine.Engine, c *config.ChoreConfig) error {
+func chore(ctx context.Context, stop <-chan struct{}, g engine.Engine, c *config.ChoreConfig) error {
 
 	// An interval of zero will not start the background jobs.
 	// This allows the instance to be responsible for handling requests only.
@@ -193,17 +199,13 @@ func chore(ctx context.Context, g engine.Engine, c *config.ChoreConfig) error {
 	}
 	d := time.Duration(c.InitialDelay.Seconds()*m*float64(time.Second) + 1)
 
-	// Listen for termination signals.
-	ch := make(chan os.Signal, 1)
-	signal.Notify(ch, os.Interrupt, syscall.SIGTERM)
-
 	// Start ticker for background jobs. The ticker will adjust the time
 	// interval or drop ticks to make up for slow receivers.
 	var n bool
 	r := time.NewTicker(d)
 	for {
 		select {
-		case <-ch:
+		case <-stop:
 			log.Println("stop running background jobs")
 			r.Stop()
 			return nil
-- 
2.43.0


From a8cb08d07614f4f5228e5f8256c52688b1372ea2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:23 +0000
Subject: [PATCH 22/22] fix: run the background jobs once per interval from the
 start

---
 cmd/ratus/main.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/cmd/ratus/main.go b/cmd/ratus/main.go
index c16dc03..6f94d6f 100644
--- a/cmd/ratus/main.go
+++ b/cmd/ratus/main.go
@@ -214,11 +214,14 @@ func chore(ctx context.Context, stop <-chan struct{}, g engine.Engine, c *config
 			return ctx.Err()
 		case <-r.C:
 
-			// Reset the timer to use the normal interval after the initial delay.
+			// Use the normal interval after the initial delay. The ticker is replaced
+			// instead of reset, so that no tick of the initial delay remains to run
+			// the jobs ahead of time.
 			if !n {
 				log.Println("start running background jobs")
 				n = true
-				r.Reset(c.Interval)
+				r.Stop()
+				r = time.NewTicker(c.Interval)
 			}
 
 			// Run background jobs and collect the elapsed time.
-- 
2.43.0

