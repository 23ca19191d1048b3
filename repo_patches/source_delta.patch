From 064361c18b27c85c5c4c83be887643667b40e19a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:34 +0000
Subject: [PATCH 01/53] fix: index the resource label with the resource of the
 sample itself

The resource label was emitted before the resource of the sample was known, so
it carried whatever resource the previously processed sample had. Scans without
filters returned samples of other resources and missed the first sample.
---
 internal/transform/transform.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/internal/transform/transform.go b/internal/transform/transform.go
index f84019f..4ee8880 100644
--- a/internal/transform/transform.go
+++ b/internal/transform/transform.go
@@ -46,9 +46,12 @@ func (c *Context) processSample(sample *v1.Sample) {
 	c.minTs = 0
 	c.maxTs = 0
 	c.positions = bitmaps.New()
-	c.init()
+	// c.label is reused across samples, never leak resource of the previous sample.
+	c.WithResource(v1.RESOURCE_UNKOWN)
 	c.WithSample(sample.Id).
 		data(sample.Data)
+	// The resource of this sample is only known after processing its data.
+	c.init()
 	sample.MinTs = c.minTs
 	sample.MaxTs = c.maxTs
 	c.batch.Add(
-- 
2.43.0


From a8333a78fcbe2a6cf357fd91bf02510695486cdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:23 +0000
Subject: [PATCH 02/53] fix: keep sample id and row number in sync for fresh
 views

A view that had no record yet was filled as if row 0 already existed, so the
first sample (with a non zero id) of every new year, month, day or hour was
stored one row before its id and read back as another sample.
---
 internal/dataframe/dataframe.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/internal/dataframe/dataframe.go b/internal/dataframe/dataframe.go
index e88c989..7e2393b 100644
--- a/internal/dataframe/dataframe.go
+++ b/internal/dataframe/dataframe.go
@@ -222,21 +222,21 @@ func (df *DataFrame) appendView(ctx context.Context, view string, samples []*v1.
 		}
 		// Sample ID == Row ID, for each view we need to store a contiguous rows
 		// starting from 0
-		var lastId uint64
+		var nextRow uint64
 		if r != nil {
-			lastId = uint64(r.NumRows()) - 1
+			nextRow = uint64(r.NumRows())
 			defer r.Release()
 		}
 		empty := &v1.Data{}
 		for _, s := range samples {
 			setSample(s)
-			for i := lastId + 1; i < s.Id; i++ {
+			for ; nextRow < s.Id; nextRow++ {
 				// we fill the blanks with empty data. All records in all views have the
 				// same number of columns
 				schema.Append(empty)
 			}
 			schema.Append(s.Data)
-			lastId = s.Id
+			nextRow = s.Id + 1
 		}
 		if r != nil {
 			b := schema.NewRecord()
-- 
2.43.0


From caec4a458bebd581395cee289a103efe36635bce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:17 +0000
Subject: [PATCH 03/53] fix: search views partially covered by a time range

ViewsByTimeRange only steps whole units from start, the unit that contains the
end of the range was skipped when start was later in its own unit, so scans
missed samples of the most recent hour, day, month or year.
---
 internal/dataframe/dataframe.go |  3 +--
 internal/shards/shards.go       |  8 +-----
 internal/view/view.go           | 45 ++++++++++++++++++++++++++++++---
 3 files changed, 44 insertions(+), 12 deletions(-)

diff --git a/internal/dataframe/dataframe.go b/internal/dataframe/dataframe.go
index 7e2393b..9d42dbf 100644
--- a/internal/dataframe/dataframe.go
+++ b/internal/dataframe/dataframe.go
@@ -12,7 +12,6 @@ import (
 	"github.com/apache/arrow/go/v17/arrow/memory"
 	"github.com/dgraph-io/badger/v4"
 	"github.com/gernest/arrow3"
-	"github.com/gernest/rbf/quantum"
 	v1 "github.com/gernest/requiemdb/gen/go/rq/v1"
 	"github.com/gernest/requiemdb/internal/arena"
 	"github.com/gernest/requiemdb/internal/batch"
@@ -79,7 +78,7 @@ func readRows(r arrow.Record, rows []int) []*v1.Data {
 }
 
 func (df *DataFrame) View(ctx context.Context, resource v1.Scan_SCOPE, start, end time.Time, columns []int, rows *bitmaps.Bitmap, f ViewFn) error {
-	all := quantum.ViewsByTimeRange(view.StdView, start, end, view.ChooseQuantum(end.Sub(start)))
+	all := view.Search(start, end)
 	var set string
 	switch resource {
 	case v1.Scan_METRICS:
diff --git a/internal/shards/shards.go b/internal/shards/shards.go
index 9faac59..1fa00f3 100644
--- a/internal/shards/shards.go
+++ b/internal/shards/shards.go
@@ -12,7 +12,6 @@ import (
 
 	"github.com/gernest/rbf"
 	"github.com/gernest/rbf/cfg"
-	"github.com/gernest/rbf/quantum"
 	"github.com/gernest/requiemdb/internal/bitmaps"
 	"github.com/gernest/requiemdb/internal/rows"
 	"github.com/gernest/requiemdb/internal/view"
@@ -20,8 +19,6 @@ import (
 	"github.com/gernest/roaring/shardwidth"
 )
 
-const stdView = view.StdView
-
 type Shards struct {
 	config cfg.Config
 	mu     sync.RWMutex
@@ -104,10 +101,7 @@ func (s *Shards) Rows(start, end time.Time, columns *bitmaps.Bitmap) (*bitmaps.B
 		shard := col / shardwidth.ShardWidth
 		m[shard] = append(m[shard], col)
 	}
-	views := quantum.ViewsByTimeRange(stdView, start, end, view.ChooseQuantum(
-		end.Sub(start),
-	))
-	return s.rows(views, m)
+	return s.rows(view.Search(start, end), m)
 }
 
 func (s *Shards) rows(views []string, columns map[uint64][]uint64) (r *bitmaps.Bitmap, err error) {
diff --git a/internal/view/view.go b/internal/view/view.go
index 8deb4ab..5d1be20 100644
--- a/internal/view/view.go
+++ b/internal/view/view.go
@@ -47,9 +47,48 @@ func ChooseQuantum(duration time.Duration) quantum.TimeQuantum {
 	return QH
 }
 
-func Search(start, end time.Time) []string {
-	return quantum.ViewsByTimeRange(StdView, start, end,
-		ChooseQuantum(end.Sub(start)))
+// Search returns all views, at the granularity chosen for the duration, with
+// data in the range [start, end). This includes views that are partially covered
+// by the range.
+func Search(start, end time.Time) (views []string) {
+	start, end = start.UTC(), end.UTC()
+	if !start.Before(end) {
+		return
+	}
+	q := ChooseQuantum(end.Sub(start))
+	for ts := floor(start, q); ts.Before(end); ts = next(ts, q) {
+		views = append(views, quantum.ViewsByTime(StdView, ts, q)...)
+	}
+	return
+}
+
+// floor returns the beginning of the unit q that contains ts.
+func floor(ts time.Time, q quantum.TimeQuantum) time.Time {
+	y, m, d := ts.Date()
+	switch q {
+	case QY:
+		return time.Date(y, 1, 1, 0, 0, 0, 0, time.UTC)
+	case QM:
+		return time.Date(y, m, 1, 0, 0, 0, 0, time.UTC)
+	case QD:
+		return time.Date(y, m, d, 0, 0, 0, 0, time.UTC)
+	default:
+		return time.Date(y, m, d, ts.Hour(), 0, 0, 0, time.UTC)
+	}
+}
+
+// next returns the beginning of the unit q that follows the one starting at ts.
+func next(ts time.Time, q quantum.TimeQuantum) time.Time {
+	switch q {
+	case QY:
+		return ts.AddDate(1, 0, 0)
+	case QM:
+		return ts.AddDate(0, 1, 0)
+	case QD:
+		return ts.AddDate(0, 0, 1)
+	default:
+		return ts.Add(time.Hour)
+	}
 }
 
 // Pos generates position in a bitmap
-- 
2.43.0


From f10b78cf66ae35dc2119fe554bc9f8f3ef7662c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:35 +0000
Subject: [PATCH 04/53] fix: query index shards that are on disk and require a
 match in all of them

Shards were only queried after a write had opened them, so nothing was found
after a restart. A shard without any match was ignored instead of resulting in
no match. Opening the same shard concurrently could open the database twice.
---
 internal/shards/shards.go | 80 ++++++++++++++++++++++++---------------
 1 file changed, 50 insertions(+), 30 deletions(-)

diff --git a/internal/shards/shards.go b/internal/shards/shards.go
index 1fa00f3..2515b41 100644
--- a/internal/shards/shards.go
+++ b/internal/shards/shards.go
@@ -4,6 +4,7 @@ import (
 	"errors"
 	"io"
 	"log/slog"
+	"os"
 	"path/filepath"
 	"slices"
 	"strconv"
@@ -68,13 +69,19 @@ func (s *Shards) Update(shard uint64, f func(tx *rbf.Tx) error) error {
 	return tx.Commit()
 }
 
-// AllShards iterate on all active shards and calling f with the database
+// AllShards iterate on all shards and calling f with the database
 // transaction. If f returns io.EOF it signals end of iterations which will
 // return a nil error.
 func (s *Shards) AllShards(f func(tx *rbf.Tx, shard uint64) error) error {
-	s.mu.RLock()
-	defer s.mu.RUnlock()
-	for shard, db := range s.db {
+	shards, err := s.list()
+	if err != nil {
+		return err
+	}
+	for _, shard := range shards {
+		db, err := s.get(shard)
+		if err != nil {
+			return err
+		}
 		tx, err := db.Begin(false)
 		if err != nil {
 			return err
@@ -105,18 +112,12 @@ func (s *Shards) Rows(start, end time.Time, columns *bitmaps.Bitmap) (*bitmaps.B
 }
 
 func (s *Shards) rows(views []string, columns map[uint64][]uint64) (r *bitmaps.Bitmap, err error) {
-	s.mu.RLock()
-	defer s.mu.RUnlock()
-
 	var tx *rbf.Tx
+	var db *rbf.DB
 	var fs []roaring.BitmapFilter
 	for k, f := range columns {
-		db, ok := s.db[k]
-		if !ok {
-			// Matches should be true for all filters.
-			if r != nil {
-				r.Clear()
-			}
+		db, err = s.get(k)
+		if err != nil {
 			return
 		}
 		tx, err = db.Begin(false)
@@ -139,22 +140,18 @@ func (s *Shards) rows(views []string, columns map[uint64][]uint64) (r *bitmaps.B
 			}
 		}
 		tx.Rollback()
-		if !b.IsEmpty() {
-			if r == nil {
-				// first column set
-				r = bitmaps.New()
-				r.Or(&b.Bitmap)
-			} else {
-				some := !r.IsEmpty()
-				r.And(&b.Bitmap)
-				if r.IsEmpty() && some {
-					// this shard resulted in no match. No need to keep searching
-					b.Release()
-					return
-				}
-			}
+		if r == nil {
+			// first column set
+			r = b
+		} else {
+			// Matches should be true for all filters.
+			r.And(&b.Bitmap)
+			b.Release()
+		}
+		if r.IsEmpty() {
+			// this shard resulted in no match. No need to keep searching
+			return
 		}
-		b.Release()
 	}
 	return
 }
@@ -200,6 +197,11 @@ func (s *Shards) get(shard uint64) (*rbf.DB, error) {
 		return r, nil
 	}
 	s.mu.RUnlock()
+	s.mu.Lock()
+	defer s.mu.Unlock()
+	if r, ok = s.db[shard]; ok {
+		return r, nil
+	}
 	path := filepath.Join(s.dir, strconv.FormatUint(shard, 10))
 	config := s.config
 	config.Logger = slog.Default().With(
@@ -210,12 +212,30 @@ func (s *Shards) get(shard uint64) (*rbf.DB, error) {
 	if err != nil {
 		return nil, err
 	}
-	s.mu.Lock()
 	s.db[shard] = r
-	s.mu.Unlock()
 	return r, nil
 }
 
+// list returns all shards found on disk.
+func (s *Shards) list() (shards []uint64, err error) {
+	ls, err := os.ReadDir(s.dir)
+	if err != nil {
+		if errors.Is(err, os.ErrNotExist) {
+			return nil, nil
+		}
+		return nil, err
+	}
+	for _, e := range ls {
+		shard, err := strconv.ParseUint(e.Name(), 10, 64)
+		if err != nil {
+			continue
+		}
+		shards = append(shards, shard)
+	}
+	slices.Sort(shards)
+	return
+}
+
 func (s *Shards) Close() error {
 	s.mu.Lock()
 	defer s.mu.Unlock()
-- 
2.43.0


From 3ec390add98419803f7c2c3c29985d9a2e88a63e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:50 +0000
Subject: [PATCH 05/53] fix: report failures of reading samples instead of an
 empty result

---
 internal/store/scan.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/internal/store/scan.go b/internal/store/scan.go
index c13c14c..52ffd98 100644
--- a/internal/store/scan.go
+++ b/internal/store/scan.go
@@ -66,6 +66,12 @@ func (s *Storage) Scan(ctx context.Context, scan *v1.Scan) (result *v1.Data, err
 	default:
 		return nil, fmt.Errorf("%d is not a supported resource", resource)
 	}
+	if err != nil {
+		return nil, err
+	}
+	if len(rs) == 0 {
+		return data.Zero(resource), nil
+	}
 	return data.Collapse(rs), nil
 }
 
-- 
2.43.0


From 809241b76b45a5fcf530bb7ab4431799c0fb4c05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:09 +0000
Subject: [PATCH 06/53] fix: apply limit and reverse of a scan

Both are part of the documented scan request but had no effect.
---
 internal/store/scan.go | 22 ++++++++++++++++++++++
 1 file changed, 22 insertions(+)

diff --git a/internal/store/scan.go b/internal/store/scan.go
index 52ffd98..7025139 100644
--- a/internal/store/scan.go
+++ b/internal/store/scan.go
@@ -5,6 +5,7 @@ import (
 	"errors"
 	"fmt"
 	"log/slog"
+	"slices"
 
 	"github.com/dgraph-io/badger/v4"
 	v1 "github.com/gernest/requiemdb/gen/go/rq/v1"
@@ -54,6 +55,8 @@ func (s *Storage) Scan(ctx context.Context, scan *v1.Scan) (result *v1.Data, err
 		last := samples.ReverseIterator().Next()
 		samples.Clear()
 		samples.Add(last)
+	} else if scan.Limit > 0 && scan.Limit < samples.GetCardinality() {
+		limit(samples, scan.Limit, scan.Reverse)
 	}
 	var rs []*v1.Data
 	switch resource {
@@ -72,9 +75,28 @@ func (s *Storage) Scan(ctx context.Context, scan *v1.Scan) (result *v1.Data, err
 	if len(rs) == 0 {
 		return data.Zero(resource), nil
 	}
+	if scan.Reverse {
+		slices.Reverse(rs)
+	}
 	return data.Collapse(rs), nil
 }
 
+// limit keeps the first n samples, or the last n samples if reverse is true.
+func limit(samples *bitmaps.Bitmap, n uint64, reverse bool) {
+	keep := make([]uint64, 0, n)
+	if reverse {
+		for it := samples.ReverseIterator(); uint64(len(keep)) < n && it.HasNext(); {
+			keep = append(keep, it.Next())
+		}
+	} else {
+		for it := samples.Iterator(); uint64(len(keep)) < n && it.HasNext(); {
+			keep = append(keep, it.Next())
+		}
+	}
+	samples.Clear()
+	samples.AddMany(keep)
+}
+
 func (s *Storage) CompileFilters(scan *v1.Scan, r *bitmaps.Bitmap) error {
 	lbl := labels.NewLabel()
 	defer lbl.Release()
-- 
2.43.0


From c33bde6d81828cba5c38c9411b7b871148e1e109 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:12 +0000
Subject: [PATCH 07/53] fix: index attributes of spans

Attribute filters never matched any trace.
---
 internal/transform/trace.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/internal/transform/trace.go b/internal/transform/trace.go
index 5805585..ec6c369 100644
--- a/internal/transform/trace.go
+++ b/internal/transform/trace.go
@@ -41,6 +41,7 @@ func (c *Context) transformTrace(rm *tracev1.ResourceSpans) {
 						WithKey(hex.EncodeToString(span.ParentSpanId))
 				})
 			}
+			c.attributes(v1.PREFIX_ATTRIBUTES, span.Attributes)
 			c.Range(span.StartTimeUnixNano, span.EndTimeUnixNano)
 		}
 	}
-- 
2.43.0


From bb3587a9d2103ef3f7839cb881131dcac6e72285 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:15 +0000
Subject: [PATCH 08/53] fix: ignore unknown timestamps when finding the
 earliest one

A zero timestamp restarted the search for the minimum, so the sample was filed
under the hour of a later timestamp and scans of its actual hour missed it.
---
 internal/transform/transform.go | 10 +++-------
 1 file changed, 3 insertions(+), 7 deletions(-)

diff --git a/internal/transform/transform.go b/internal/transform/transform.go
index 4ee8880..f603a3d 100644
--- a/internal/transform/transform.go
+++ b/internal/transform/transform.go
@@ -184,11 +184,7 @@ func (c *Context) attributes(prefix v1.PREFIX, kv []*commonv1.KeyValue) {
 }
 
 func (c *Context) Timestamp(ts uint64) {
-	if c.minTs == 0 {
-		c.minTs = ts
-	}
-	c.minTs = min(c.minTs, ts)
-	c.maxTs = max(c.maxTs, ts)
+	c.Range(ts, ts)
 }
 
 func (c *Context) Reset() {
@@ -200,9 +196,9 @@ func (c *Context) Reset() {
 }
 
 func (c *Context) Range(start, end uint64) {
-	if c.minTs == 0 {
+	// 0 means the timestamp is unknown.
+	if start != 0 && (c.minTs == 0 || start < c.minTs) {
 		c.minTs = start
 	}
-	c.minTs = min(c.minTs, start)
 	c.maxTs = max(c.maxTs, end)
 }
-- 
2.43.0


From ebb529377a636e7633aa52b2e1ea51fb59165a3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:42 +0000
Subject: [PATCH 09/53] fix: keep labels of attributes with = in the key apart

key a=b with value c had the same label as key a with value b=c.
---
 internal/labels/labels.go | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/internal/labels/labels.go b/internal/labels/labels.go
index 70efebf..47a9c95 100644
--- a/internal/labels/labels.go
+++ b/internal/labels/labels.go
@@ -2,6 +2,7 @@ package labels
 
 import (
 	"fmt"
+	"strings"
 	"sync"
 
 	v1 "github.com/gernest/requiemdb/gen/go/rq/v1"
@@ -40,13 +41,18 @@ func (l *Label) WithValue(v string) *Label {
 }
 
 func (l *Label) Encode() []byte {
-	l.buf = fmt.Appendf(l.buf[:0], "%d:%d:%s", l.Resource, l.Prefix, l.Key)
-	if l.Value != "" {
-		l.buf = fmt.Appendf(l.buf, "=%s", l.Value)
+	if l.Value == "" {
+		l.buf = fmt.Appendf(l.buf[:0], "%d:%d:%s", l.Resource, l.Prefix, l.Key)
+		return l.buf
 	}
+	// The first = that is not escaped separates key from value.
+	l.buf = fmt.Appendf(l.buf[:0], "%d:%d:%s=%s", l.Resource, l.Prefix,
+		escape.Replace(l.Key), l.Value)
 	return l.buf
 }
 
+var escape = strings.NewReplacer(`\`, `\\`, `=`, `\=`)
+
 func (l *Label) String() string {
 	return string(l.Encode())
 }
-- 
2.43.0


From 12350de279330ced9e7d5034912ea2fd176af102 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:14 +0000
Subject: [PATCH 10/53] fix: match attribute filters with attributes of data
 points

They were matched with attributes of the scope.
---
 internal/visit/visit.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/visit/visit.go b/internal/visit/visit.go
index 6a250ab..3c72391 100644
--- a/internal/visit/visit.go
+++ b/internal/visit/visit.go
@@ -115,7 +115,7 @@ func (o *All) Compile(filters ...*v1.Scan_Filter) {
 			case v1.Scan_SCOPE_ATTRIBUTES:
 				o.SetScopeAttr(e.Attr.Key, e.Attr.Value)
 			case v1.Scan_ATTRIBUTES:
-				o.SetScopeAttr(e.Attr.Key, e.Attr.Value)
+				o.SetAttr(e.Attr.Key, e.Attr.Value)
 			}
 		}
 	}
-- 
2.43.0


From d6fc51ac440ac552ba7b3be93ccd2334877ef886 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:14 +0000
Subject: [PATCH 11/53] fix: apply trace, span and parent span id filters to
 spans and logs

The parent span id filter was matched with the span id, the span id filter was
never applied to spans and neither it nor the trace id filter to logs.
---
 internal/visit/logs.go  | 2 ++
 internal/visit/trace.go | 3 ++-
 2 files changed, 4 insertions(+), 1 deletion(-)

diff --git a/internal/visit/logs.go b/internal/visit/logs.go
index 861ccbd..e001ed1 100644
--- a/internal/visit/logs.go
+++ b/internal/visit/logs.go
@@ -24,6 +24,8 @@ func (Logs) Visit(data *logsv1.LogsData, visitor *All) *logsv1.LogsData {
 			for _, ms := range sm.LogRecords {
 				if !(visitor.AcceptLogLevel(ms.SeverityText) &&
 					visitor.AcceptTimestamp(ms.TimeUnixNano) &&
+					visitor.AcceptTraceID(ms.TraceId) &&
+					visitor.AcceptSpanID(ms.SpanId) &&
 					visitor.AcceptAttributes(ms.Attributes)) {
 					continue
 				}
diff --git a/internal/visit/trace.go b/internal/visit/trace.go
index a610ad4..3a25c95 100644
--- a/internal/visit/trace.go
+++ b/internal/visit/trace.go
@@ -25,7 +25,8 @@ func (Trace) Visit(data *tracev1.TracesData, visitor *All) *tracev1.TracesData {
 				if !(visitor.AcceptName(ms.Name) &&
 					visitor.AcceptTimestamp(ms.StartTimeUnixNano) &&
 					visitor.AcceptTraceID(ms.TraceId) &&
-					visitor.AcceptParentSpanID(ms.SpanId) &&
+					visitor.AcceptSpanID(ms.SpanId) &&
+					visitor.AcceptParentSpanID(ms.ParentSpanId) &&
 					visitor.AcceptAttributes(ms.Attributes)) {
 					continue
 				}
-- 
2.43.0


From f3b1e3e14ee4109c7c760342a1d12e44846288ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:14 +0000
Subject: [PATCH 12/53] fix: match attribute filters of any length exactly

The digest of a filter was not initialized, so it was different from the one of
an equal attribute once key and value reached 32 bytes. Keys and values with =
in them could also match a different attribute.
---
 internal/visit/visit.go | 23 ++++++++++++++---------
 1 file changed, 14 insertions(+), 9 deletions(-)

diff --git a/internal/visit/visit.go b/internal/visit/visit.go
index 3c72391..bf14c12 100644
--- a/internal/visit/visit.go
+++ b/internal/visit/visit.go
@@ -1,6 +1,7 @@
 package visit
 
 import (
+	"encoding/binary"
 	"encoding/hex"
 	"sync"
 
@@ -158,16 +159,23 @@ func (a *All) SetResourceAttr(k, v string) {
 	a.resource_attr.Add(attr(k, v))
 }
 
-var sep = []byte("=")
-
-func attr(k, v string) uint64 {
-	var h xxhash.Digest
+// hashAttr hashes length of the key first to ensure what separates a key from a
+// value is not ambiguous.
+func hashAttr(h *xxhash.Digest, k, v string) uint64 {
+	var size [8]byte
+	binary.BigEndian.PutUint64(size[:], uint64(len(k)))
+	h.Write(size[:])
 	h.WriteString(k)
-	h.Write(sep)
 	h.WriteString(v)
 	return h.Sum64()
 }
 
+func attr(k, v string) uint64 {
+	var h xxhash.Digest
+	h.Reset()
+	return hashAttr(&h, k, v)
+}
+
 func (a *All) SetScopeSchema(schema string) {
 	a.scope_schema.Add(xxhash.Sum64String(schema))
 }
@@ -294,10 +302,7 @@ func matchAttr(a *roaring64.Bitmap, ls []*commonV1.KeyValue) bool {
 		switch e := k.Value.Value.(type) {
 		case *commonV1.AnyValue_StringValue:
 			h.Reset()
-			h.WriteString(k.Key)
-			h.Write(sep)
-			h.WriteString(e.StringValue)
-			b.Add(h.Sum64())
+			b.Add(hashAttr(&h, k.Key, e.StringValue))
 		}
 	}
 	// For labels, we use And to make sure we only take data points that have all
-- 
2.43.0


From d635100821f55671fdba94f8e8ee99f4cafae788 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:14 +0000
Subject: [PATCH 13/53] fix: accept attributes without a value when matching
 filters

---
 internal/visit/visit.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/visit/visit.go b/internal/visit/visit.go
index bf14c12..50962d7 100644
--- a/internal/visit/visit.go
+++ b/internal/visit/visit.go
@@ -299,7 +299,7 @@ func matchAttr(a *roaring64.Bitmap, ls []*commonV1.KeyValue) bool {
 	defer b.Release()
 	var h xxhash.Digest
 	for _, k := range ls {
-		switch e := k.Value.Value.(type) {
+		switch e := k.GetValue().GetValue().(type) {
 		case *commonV1.AnyValue_StringValue:
 			h.Reset()
 			b.Add(hashAttr(&h, k.Key, e.StringValue))
-- 
2.43.0


From cac9e0ad816c04875e3859cab8fe06ab4a055cf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:14 +0000
Subject: [PATCH 14/53] fix: return end of the time range of a visitor

---
 internal/visit/visit.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/visit/visit.go b/internal/visit/visit.go
index 50962d7..f329a49 100644
--- a/internal/visit/visit.go
+++ b/internal/visit/visit.go
@@ -270,7 +270,7 @@ func (a *All) AcceptAttributes(attr []*commonV1.KeyValue) bool {
 }
 
 func (a *All) TimeRange() (start, end uint64) {
-	return a.start_nano, a.start_nano
+	return a.start_nano, a.end_nano
 }
 
 func (a *All) AcceptLogLevel(lvl string) bool {
-- 
2.43.0


From 9bb512cb0a1c9f13220a3946d9e8203b89768056 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:14 +0000
Subject: [PATCH 15/53] fix: keep scope schema, description, unit and metadata
 of trimmed data

Query results lost them, units are used when rendering.
---
 internal/visit/logs.go    |  3 ++-
 internal/visit/metrics.go | 40 +++++++++++++++++++++++++++++----------
 internal/visit/trace.go   |  3 ++-
 3 files changed, 34 insertions(+), 12 deletions(-)

diff --git a/internal/visit/logs.go b/internal/visit/logs.go
index e001ed1..71017d4 100644
--- a/internal/visit/logs.go
+++ b/internal/visit/logs.go
@@ -31,7 +31,8 @@ func (Logs) Visit(data *logsv1.LogsData, visitor *All) *logsv1.LogsData {
 				}
 				if scope == nil {
 					scope = &logsv1.ScopeLogs{
-						Scope: sm.Scope,
+						Scope:     sm.Scope,
+						SchemaUrl: sm.SchemaUrl,
 					}
 				}
 				scope.LogRecords = append(scope.LogRecords, ms)
diff --git a/internal/visit/metrics.go b/internal/visit/metrics.go
index 886ebff..780f19d 100644
--- a/internal/visit/metrics.go
+++ b/internal/visit/metrics.go
@@ -38,11 +38,15 @@ func (Metrics) Visit(data *metricsV1.MetricsData, visitor *All) *metricsV1.Metri
 					if len(points) > 0 {
 						if scope == nil {
 							scope = &metricsV1.ScopeMetrics{
-								Scope: sm.Scope,
+								Scope:     sm.Scope,
+								SchemaUrl: sm.SchemaUrl,
 							}
 						}
 						scope.Metrics = append(scope.Metrics, &metricsV1.Metric{
-							Name: ms.Name,
+							Name:        ms.Name,
+							Description: ms.Description,
+							Unit:        ms.Unit,
+							Metadata:    ms.Metadata,
 							Data: &metricsV1.Metric_Gauge{
 								Gauge: &metricsV1.Gauge{
 									DataPoints: points,
@@ -62,11 +66,15 @@ func (Metrics) Visit(data *metricsV1.MetricsData, visitor *All) *metricsV1.Metri
 					if len(points) > 0 {
 						if scope == nil {
 							scope = &metricsV1.ScopeMetrics{
-								Scope: sm.Scope,
+								Scope:     sm.Scope,
+								SchemaUrl: sm.SchemaUrl,
 							}
 						}
 						scope.Metrics = append(scope.Metrics, &metricsV1.Metric{
-							Name: ms.Name,
+							Name:        ms.Name,
+							Description: ms.Description,
+							Unit:        ms.Unit,
+							Metadata:    ms.Metadata,
 							Data: &metricsV1.Metric_Sum{
 								Sum: &metricsV1.Sum{
 									DataPoints:             points,
@@ -89,11 +97,15 @@ func (Metrics) Visit(data *metricsV1.MetricsData, visitor *All) *metricsV1.Metri
 					if len(points) > 0 {
 						if scope == nil {
 							scope = &metricsV1.ScopeMetrics{
-								Scope: sm.Scope,
+								Scope:     sm.Scope,
+								SchemaUrl: sm.SchemaUrl,
 							}
 						}
 						scope.Metrics = append(scope.Metrics, &metricsV1.Metric{
-							Name: ms.Name,
+							Name:        ms.Name,
+							Description: ms.Description,
+							Unit:        ms.Unit,
+							Metadata:    ms.Metadata,
 							Data: &metricsV1.Metric_Histogram{
 								Histogram: &metricsV1.Histogram{
 									DataPoints:             points,
@@ -115,11 +127,15 @@ func (Metrics) Visit(data *metricsV1.MetricsData, visitor *All) *metricsV1.Metri
 					if len(points) > 0 {
 						if scope == nil {
 							scope = &metricsV1.ScopeMetrics{
-								Scope: sm.Scope,
+								Scope:     sm.Scope,
+								SchemaUrl: sm.SchemaUrl,
 							}
 						}
 						scope.Metrics = append(scope.Metrics, &metricsV1.Metric{
-							Name: ms.Name,
+							Name:        ms.Name,
+							Description: ms.Description,
+							Unit:        ms.Unit,
+							Metadata:    ms.Metadata,
 							Data: &metricsV1.Metric_ExponentialHistogram{
 								ExponentialHistogram: &metricsV1.ExponentialHistogram{
 									DataPoints:             points,
@@ -141,11 +157,15 @@ func (Metrics) Visit(data *metricsV1.MetricsData, visitor *All) *metricsV1.Metri
 					if len(points) > 0 {
 						if scope == nil {
 							scope = &metricsV1.ScopeMetrics{
-								Scope: sm.Scope,
+								Scope:     sm.Scope,
+								SchemaUrl: sm.SchemaUrl,
 							}
 						}
 						scope.Metrics = append(scope.Metrics, &metricsV1.Metric{
-							Name: ms.Name,
+							Name:        ms.Name,
+							Description: ms.Description,
+							Unit:        ms.Unit,
+							Metadata:    ms.Metadata,
 							Data: &metricsV1.Metric_Summary{
 								Summary: &metricsV1.Summary{
 									DataPoints: points,
diff --git a/internal/visit/trace.go b/internal/visit/trace.go
index 3a25c95..5c0aa20 100644
--- a/internal/visit/trace.go
+++ b/internal/visit/trace.go
@@ -32,7 +32,8 @@ func (Trace) Visit(data *tracev1.TracesData, visitor *All) *tracev1.TracesData {
 				}
 				if scope == nil {
 					scope = &tracev1.ScopeSpans{
-						Scope: sm.Scope,
+						Scope:     sm.Scope,
+						SchemaUrl: sm.SchemaUrl,
 					}
 				}
 				scope.Spans = append(scope.Spans, ms)
-- 
2.43.0


From 5f97c62e3656742aaf1b177fbd04afbf44d1a5db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:58 +0000
Subject: [PATCH 16/53] fix: only merge data points of metrics that are the
 same

Metrics were merged by name. With different types this panicked, with different
unit, description or aggregation the points ended up under the wrong one.
---
 internal/data/metrics.go |  6 +++---
 internal/data/sort.go    | 35 +++++++++++++++++++++++++++++++++--
 2 files changed, 36 insertions(+), 5 deletions(-)

diff --git a/internal/data/metrics.go b/internal/data/metrics.go
index 7ab6622..c3986bf 100644
--- a/internal/data/metrics.go
+++ b/internal/data/metrics.go
@@ -25,7 +25,7 @@ func CollapseMetrics(ds []*metricsV1.MetricsData) *metricsV1.MetricsData {
 					sh := xm.hashScope(rh, sm.SchemaUrl, sm.Scope)
 					xm.scope[sh] = sm
 					for _, m := range sm.Metrics {
-						mh := xm.hashMetrics(sh, m.Name)
+						mh := xm.hashMetrics(sh, m)
 						xm.metrics[mh] = m
 					}
 				}
@@ -38,13 +38,13 @@ func CollapseMetrics(ds []*metricsV1.MetricsData) *metricsV1.MetricsData {
 					xm.scope[sh] = sm
 					resource.ScopeMetrics = append(resource.ScopeMetrics, sm)
 					for _, m := range sm.Metrics {
-						mh := xm.hashMetrics(sh, m.Name)
+						mh := xm.hashMetrics(sh, m)
 						xm.metrics[mh] = m
 					}
 					continue
 				}
 				for _, m := range sm.Metrics {
-					mh := xm.hashMetrics(sh, m.Name)
+					mh := xm.hashMetrics(sh, m)
 					om, ok := xm.metrics[mh]
 					if !ok {
 						scope.Metrics = append(scope.Metrics, m)
diff --git a/internal/data/sort.go b/internal/data/sort.go
index c2f3401..58a563e 100644
--- a/internal/data/sort.go
+++ b/internal/data/sort.go
@@ -7,6 +7,7 @@ import (
 
 	"github.com/cespare/xxhash/v2"
 	commonv1 "go.opentelemetry.io/proto/otlp/common/v1"
+	metricsv1 "go.opentelemetry.io/proto/otlp/metrics/v1"
 	resourcev1 "go.opentelemetry.io/proto/otlp/resource/v1"
 	"google.golang.org/protobuf/proto"
 )
@@ -42,13 +43,43 @@ func newSorter[T any, R any, S any]() *Sorter[T, R, S] {
 	}
 }
 
-func (r *Sorter[T, R, S]) hashMetrics(scope uint64, name string) uint64 {
+// hashMetrics identifies a metric in a scope. Data points can only be merged when
+// everything that gives them meaning is the same.
+func (r *Sorter[T, R, S]) hashMetrics(scope uint64, m *metricsv1.Metric) uint64 {
 	r.h.Reset()
 	r.hashNum(scope)
-	r.h.WriteString(name)
+	r.hashString(m.Name)
+	r.hashString(m.Description)
+	r.hashString(m.Unit)
+	switch e := m.Data.(type) {
+	case *metricsv1.Metric_Gauge:
+		r.hashNum(1)
+	case *metricsv1.Metric_Sum:
+		r.hashNum(2)
+		r.hashNum(uint64(e.Sum.GetAggregationTemporality()))
+		if e.Sum.GetIsMonotonic() {
+			r.hashNum(1)
+		}
+	case *metricsv1.Metric_Histogram:
+		r.hashNum(3)
+		r.hashNum(uint64(e.Histogram.GetAggregationTemporality()))
+	case *metricsv1.Metric_ExponentialHistogram:
+		r.hashNum(4)
+		r.hashNum(uint64(e.ExponentialHistogram.GetAggregationTemporality()))
+	case *metricsv1.Metric_Summary:
+		r.hashNum(5)
+	}
+	r.attr(m.Metadata)
 	return r.h.Sum64()
 }
 
+// hashString hashes length of v first to ensure consecutive strings are not
+// ambiguous.
+func (r *Sorter[T, R, S]) hashString(v string) {
+	r.hashNum(uint64(len(v)))
+	r.h.WriteString(v)
+}
+
 func (r *Sorter[T, R, S]) hashNum(v uint64) {
 	binary.BigEndian.PutUint64(r.buf[:8], v)
 	r.h.Write(r.buf[:8])
-- 
2.43.0


From ca6f5617a4e52246f3c3737cb6823a6808fb8391 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:58 +0000
Subject: [PATCH 17/53] fix: keep scopes with different schema, name and
 version apart

They were hashed without a separator, data of scopes with equal concatenation of
the three was merged.
---
 internal/data/sort.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/internal/data/sort.go b/internal/data/sort.go
index 58a563e..1f895ea 100644
--- a/internal/data/sort.go
+++ b/internal/data/sort.go
@@ -88,7 +88,7 @@ func (r *Sorter[T, R, S]) hashNum(v uint64) {
 
 func (r *Sorter[T, R, S]) hashResource(schema string, resource *resourcev1.Resource) uint64 {
 	r.h.Reset()
-	r.h.WriteString(schema)
+	r.hashString(schema)
 	if resource != nil {
 		r.attr(resource.Attributes)
 	}
@@ -98,10 +98,10 @@ func (r *Sorter[T, R, S]) hashResource(schema string, resource *resourcev1.Resou
 func (r *Sorter[T, R, S]) hashScope(resource uint64, schema string, scope *commonv1.InstrumentationScope) uint64 {
 	r.h.Reset()
 	r.hashNum(resource)
-	r.h.WriteString(schema)
+	r.hashString(schema)
 	if scope != nil {
-		r.h.WriteString(scope.Name)
-		r.h.WriteString(scope.Version)
+		r.hashString(scope.Name)
+		r.hashString(scope.Version)
 		if scope.Attributes != nil {
 			r.attr(scope.Attributes)
 		}
-- 
2.43.0


From a15b0f16ef95cfc42c69c3faa78949e08f5ba3b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:46 +0000
Subject: [PATCH 18/53] fix: do not share memory between keys of the
 translation store

Keys were appended to the same backing array, so the sequence continued under the
key of ids once its first lease was used up and handed out the ids of the first
4096 labels again.
---
 internal/translate/translate.go | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/internal/translate/translate.go b/internal/translate/translate.go
index ff9da7b..5d28627 100644
--- a/internal/translate/translate.go
+++ b/internal/translate/translate.go
@@ -17,16 +17,21 @@ type Translate struct {
 }
 
 func New(db *badger.DB, prefix []byte) (*Translate, error) {
-	seq, err := db.GetSequence(append(prefix, []byte("seq")...), 4<<10)
+	seq, err := db.GetSequence(join(prefix, "seq"), 4<<10)
 	if err != nil {
 		return nil, err
 	}
 	return &Translate{db: db, seq: seq,
-		keys: append(prefix, []byte("keys")...),
-		ids:  append(prefix, []byte("ids")...),
+		keys: join(prefix, "keys"),
+		ids:  join(prefix, "ids"),
 	}, nil
 }
 
+// join returns a new slice. The result never shares memory with prefix.
+func join(prefix []byte, suffix string) []byte {
+	return append(bytes.Clone(prefix), suffix...)
+}
+
 func (t *Translate) Close() error {
 	return t.seq.Release()
 }
@@ -121,8 +126,11 @@ var kb = &sync.Pool{New: func() any { return new(bytes.Buffer) }}
 // Find finds translated key. Returns 0 if no key was found
 func (b *Translate) Find(key []byte) (n uint64, err error) {
 	err = b.db.Update(func(txn *badger.Txn) error {
-		k := append(b.keys, key...)
-		it, err := txn.Get(k)
+		g := get()
+		defer put(g)
+		g.Write(b.keys)
+		g.Write(key)
+		it, err := txn.Get(g.Bytes())
 		if err != nil {
 			return err
 		}
-- 
2.43.0


From 280f2c5d6434513e204aef725dee61b982b886d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:08 +0000
Subject: [PATCH 19/53] fix: save accepted samples on shutdown

Samples are buffered for up to a minute. Clients were told their export succeeded
and the buffer was dropped when the service stopped.
---
 internal/service/service.go | 33 ++++++++++++++++++++++++---------
 1 file changed, 24 insertions(+), 9 deletions(-)

diff --git a/internal/service/service.go b/internal/service/service.go
index 80e548f..159c8d4 100644
--- a/internal/service/service.go
+++ b/internal/service/service.go
@@ -33,6 +33,7 @@ type Service struct {
 	snippets *snippets.Snippets
 	store    *store.Storage
 	dataMu   sync.Mutex
+	flushMu  sync.Mutex
 	data     *samples.List
 	seq      *seq.Seq
 	stats    struct {
@@ -87,19 +88,31 @@ func (s *Service) start(ctx context.Context) {
 		case <-ctx.Done():
 			return
 		case <-tick.C:
-			s.dataMu.Lock()
-			ls := s.data
-			s.data = samples.Get()
-			s.dataMu.Unlock()
-			err := s.store.SaveSamples(ctx, ls)
-			if err != nil {
-				slog.Error("Failed to save samples", "err", err)
-			}
-			ls.Release()
+			// never stop half way through when we are shutting down.
+			s.flush(context.WithoutCancel(ctx))
 		}
 	}
 }
 
+// flush saves all samples accepted so far.
+func (s *Service) flush(ctx context.Context) {
+	s.flushMu.Lock()
+	defer s.flushMu.Unlock()
+
+	s.dataMu.Lock()
+	ls := s.data
+	s.data = samples.Get()
+	s.dataMu.Unlock()
+	defer ls.Release()
+	if len(ls.Items) == 0 {
+		return
+	}
+	err := s.store.SaveSamples(ctx, ls)
+	if err != nil {
+		slog.Error("Failed to save samples", "err", err)
+	}
+}
+
 func (s *Service) Save(data *v1.Data) error {
 	s.dataMu.Lock()
 	defer s.dataMu.Unlock()
@@ -110,7 +123,9 @@ func (s *Service) Save(data *v1.Data) error {
 	return nil
 }
 
+// Close saves samples that are already accepted before releasing resources.
 func (s *Service) Close() {
+	s.flush(context.Background())
 	s.store.Close()
 	s.snippets.Close()
 }
-- 
2.43.0


From db25499b6aa7f6e11232ff0031124babdac9084d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:22 +0000
Subject: [PATCH 20/53] fix: evaluate time ranges of a scan relative to its own
 now

Ranges like today() or ago() used the system time after now() was called.
---
 internal/js/rq.go   | 2 +-
 internal/js/scan.go | 3 +++
 2 files changed, 4 insertions(+), 1 deletion(-)

diff --git a/internal/js/rq.go b/internal/js/rq.go
index 42352a6..ffcaf2e 100644
--- a/internal/js/rq.go
+++ b/internal/js/rq.go
@@ -90,7 +90,7 @@ func (r *JS) Scan(a *v1.Scan) (*v1.Data, error) {
 		vs := visit.New()
 		defer vs.Release()
 
-		start, end := x.TimeBounds(x.UTC, a)
+		start, end := x.TimeBounds(r.GetNow, a)
 		vs.SetTimeRange(uint64(start.UnixNano()), uint64(end.UnixNano()))
 		vs.Compile(a.Filters...)
 		return vs.Visit(data), nil
diff --git a/internal/js/scan.go b/internal/js/scan.go
index b3f90a1..b0a8970 100644
--- a/internal/js/scan.go
+++ b/internal/js/scan.go
@@ -160,6 +160,9 @@ func (s *Scan) rangeTS(from, to time.Time) {
 }
 
 func (s *Scan) ts() time.Time {
+	if s.scan.Now != nil {
+		return s.scan.Now.AsTime()
+	}
 	return s.o.GetNow()
 }
 
-- 
2.43.0


From e1714e7892f7e70af564f1a0aa644c13cb9205d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:25 +0000
Subject: [PATCH 21/53] fix: accept attributes without a value when rendering
 and flattening

---
 internal/f2/attr.go          | 2 +-
 internal/render/attribute.go | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/internal/f2/attr.go b/internal/f2/attr.go
index 02112f2..ce42c2a 100644
--- a/internal/f2/attr.go
+++ b/internal/f2/attr.go
@@ -87,7 +87,7 @@ func (a *Attr) do(b *roaring64.Bitmap, kv []*v1.KeyValue) {
 }
 
 func toString(b *bytes.Buffer, a *v1.AnyValue) bool {
-	switch e := a.Value.(type) {
+	switch e := a.GetValue().(type) {
 	case *v1.AnyValue_StringValue:
 		b.WriteString(e.StringValue)
 		return true
diff --git a/internal/render/attribute.go b/internal/render/attribute.go
index 8a64086..fd07060 100644
--- a/internal/render/attribute.go
+++ b/internal/render/attribute.go
@@ -18,7 +18,7 @@ func attr(kv []*v1.KeyValue) string {
 }
 
 func value(b *bytes.Buffer, v *v1.AnyValue) {
-	switch e := v.Value.(type) {
+	switch e := v.GetValue().(type) {
 	case *v1.AnyValue_StringValue:
 		fmt.Fprintf(b, "%q", e.StringValue)
 	case *v1.AnyValue_BoolValue:
-- 
2.43.0


From 8721864acc22bb03965c888c418055f8eb58e1c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:57 +0000
Subject: [PATCH 22/53] fix: match all columns of a query wherever they are in
 a shard

---
 internal/shards/shards.go | 39 ++++++++++++++++++++++++++++++---------
 1 file changed, 30 insertions(+), 9 deletions(-)

diff --git a/internal/shards/shards.go b/internal/shards/shards.go
index 2515b41..8e30264 100644
--- a/internal/shards/shards.go
+++ b/internal/shards/shards.go
@@ -114,7 +114,6 @@ func (s *Shards) Rows(start, end time.Time, columns *bitmaps.Bitmap) (*bitmaps.B
 func (s *Shards) rows(views []string, columns map[uint64][]uint64) (r *bitmaps.Bitmap, err error) {
 	var tx *rbf.Tx
 	var db *rbf.DB
-	var fs []roaring.BitmapFilter
 	for k, f := range columns {
 		db, err = s.get(k)
 		if err != nil {
@@ -124,16 +123,9 @@ func (s *Shards) rows(views []string, columns map[uint64][]uint64) (r *bitmaps.B
 		if err != nil {
 			return
 		}
-		fs = slices.Grow(fs, len(f))[:0]
-		for i := range f {
-			fs = append(fs, roaring.NewBitmapColumnFilter(f[i]))
-		}
 		b := bitmaps.New()
 		for _, view := range views {
-			err = tx.ApplyFilter(view, 0, roaring.NewBitmapRowFilter(func(u uint64) error {
-				b.Add(u)
-				return nil
-			}, fs...))
+			err = viewRows(tx, view, f, b)
 			if err != nil {
 				tx.Rollback()
 				return
@@ -156,6 +148,35 @@ func (s *Shards) rows(views []string, columns map[uint64][]uint64) (r *bitmaps.B
 	return
 }
 
+// viewRows adds to b rows of view that have all columns set. Columns are looked
+// up one by one, a filter for all of them only matches rows with all columns in
+// the same container.
+func viewRows(tx *rbf.Tx, view string, columns []uint64, b *bitmaps.Bitmap) error {
+	match, next := bitmaps.New(), bitmaps.New()
+	defer match.Release()
+	defer next.Release()
+	for i, col := range columns {
+		next.Clear()
+		err := tx.ApplyFilter(view, 0, roaring.NewBitmapRowFilter(func(u uint64) error {
+			next.Add(u)
+			return nil
+		}, roaring.NewBitmapColumnFilter(col)))
+		if err != nil {
+			return err
+		}
+		if i == 0 {
+			match.Or(&next.Bitmap)
+		} else {
+			match.And(&next.Bitmap)
+		}
+		if match.IsEmpty() {
+			return nil
+		}
+	}
+	b.Or(&match.Bitmap)
+	return nil
+}
+
 func (s *Shards) Row(view string, rowID uint64) (*rows.Row, error) {
 	r := rows.NewRow()
 	err := s.AllShards(func(tx *rbf.Tx, shard uint64) error {
-- 
2.43.0


From 80f9053068bece3752f537de38528f61f551fdd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:58 +0000
Subject: [PATCH 23/53] fix: keep attributes apart when hashing lists of
 attributes

---
 internal/data/sort.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/internal/data/sort.go b/internal/data/sort.go
index 1f895ea..e287cec 100644
--- a/internal/data/sort.go
+++ b/internal/data/sort.go
@@ -144,6 +144,7 @@ func (r *Sorter[T, R, S]) Swap(i, j int) {
 
 func (r *Sorter[T, R, S]) attr(kv []*commonv1.KeyValue) {
 	for _, v := range kv {
+		r.hashNum(uint64(proto.Size(v)))
 		r.buf, _ = proto.MarshalOptions{}.MarshalAppend(r.buf[:0], v)
 		r.h.Write(r.buf)
 	}
-- 
2.43.0


From 6f6dfe2dcfcb3b2a521f6011af9a7a3a206f7f30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:24 +0000
Subject: [PATCH 24/53] fix: reading a compressed message after its end

---
 internal/compress/grpc.go | 19 +++++++++++++++++++
 1 file changed, 19 insertions(+)

diff --git a/internal/compress/grpc.go b/internal/compress/grpc.go
index d2398f8..1b2a80a 100644
--- a/internal/compress/grpc.go
+++ b/internal/compress/grpc.go
@@ -36,6 +36,9 @@ type writeCodec struct {
 }
 
 func (w *writeCodec) Close() (err error) {
+	if w.Encoder == nil {
+		return nil
+	}
 	err = w.Encoder.Close()
 	w.Reset(nil)
 	putEncoder(w.Encoder)
@@ -45,11 +48,17 @@ func (w *writeCodec) Close() (err error) {
 
 type readCodec struct {
 	*zstd.Decoder
+	// why reading ended, the decoder is back in its pool by then
+	err error
 }
 
 func (r *readCodec) Read(p []byte) (n int, err error) {
+	if r.Decoder == nil {
+		return 0, r.err
+	}
 	n, err = r.Decoder.Read(p)
 	if err != nil {
+		r.err = err
 		r.Reset(nil)
 		putDecoder(r.Decoder)
 		r.Decoder = nil
@@ -58,7 +67,17 @@ func (r *readCodec) Read(p []byte) (n int, err error) {
 }
 
 func (r *readCodec) WriteTo(w io.Writer) (n int64, err error) {
+	if r.Decoder == nil {
+		if r.err == io.EOF {
+			return 0, nil
+		}
+		return 0, r.err
+	}
 	n, err = r.Decoder.WriteTo(w)
+	r.err = err
+	if err == nil {
+		r.err = io.EOF
+	}
 	r.Reset(nil)
 	putDecoder(r.Decoder)
 	r.Decoder = nil
-- 
2.43.0


From ef453606db9f3e61d170ce1f11d120a12a810499 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:13 +0000
Subject: [PATCH 25/53] fix: reading a number of a table as a float

---
 internal/rows/row.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/rows/row.go b/internal/rows/row.go
index 906b73e..ec93ab8 100644
--- a/internal/rows/row.go
+++ b/internal/rows/row.go
@@ -103,7 +103,7 @@ func (v Value) Int() uint64 {
 }
 
 func (v Value) Float64() float64 {
-	if v.int != nil {
+	if v.double != nil {
 		return *v.double
 	}
 	return 0
-- 
2.43.0


From 310ceaece0ad25a7aaefa50f0971fc5170d37812 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:38 +0000
Subject: [PATCH 26/53] fix: a metric that can not be exported drops all
 metrics of the process

---
 internal/self/metrics.go | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/internal/self/metrics.go b/internal/self/metrics.go
index 40d62f6..74e7507 100644
--- a/internal/self/metrics.go
+++ b/internal/self/metrics.go
@@ -2,6 +2,7 @@ package self
 
 import (
 	"context"
+	"errors"
 
 	"github.com/gernest/requiemdb/internal/self/metrics/transform"
 	"go.opentelemetry.io/otel/sdk/metric"
@@ -19,16 +20,14 @@ var _ metric.Exporter = (*Metrics)(nil)
 
 func (m *Metrics) Export(ctx context.Context, rm *metricdata.ResourceMetrics) error {
 
+	// a metric that can not be transformed does not hold back the others
 	tlpRm, err := transform.ResourceMetrics(rm)
-	if err != nil {
-		return err
-	}
-	_, err = m.Collector.Export(ctx, &collector_metrics.ExportMetricsServiceRequest{
+	_, exportErr := m.Collector.Export(ctx, &collector_metrics.ExportMetricsServiceRequest{
 		ResourceMetrics: []*metricsv1.ResourceMetrics{
 			tlpRm,
 		},
 	})
-	return err
+	return errors.Join(err, exportErr)
 }
 
 func (m *Metrics) Temporality(kind metric.InstrumentKind) metricdata.Temporality {
-- 
2.43.0


From ec389e374072726a20538f442384bfa5b77e71cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:16 +0000
Subject: [PATCH 27/53] fix: copies of a row that was read from a file lose its
 first columns

---
 internal/rows/row.go | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/internal/rows/row.go b/internal/rows/row.go
index ec93ab8..d163980 100644
--- a/internal/rows/row.go
+++ b/internal/rows/row.go
@@ -249,11 +249,17 @@ func NewRowFromRoaring(data []byte) *Row {
 	bitmaps, shards := roaring.RoaringToBitmaps(data, shardwidth.ShardWidth)
 	r := &Row{Segments: make([]RowSegment, len(bitmaps))}
 	for i := range bitmaps {
+		// Copies of the bitmaps of a file don't find their first container.
+		data := roaring.NewSliceBitmap()
+		itr, _ := bitmaps[i].Containers.Iterator(0)
+		for itr.Next() {
+			data.Containers.Put(itr.Value())
+		}
 		segment := RowSegment{
 			shard:    shards[i],
-			data:     bitmaps[i],
+			data:     data,
 			writable: false,
-			n:        bitmaps[i].Count(),
+			n:        data.Count(),
 		}
 		r.Segments[i] = segment
 	}
-- 
2.43.0


From fc9bebcd74b6f73eb1f4db30caf720ac09569322 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:40 +0000
Subject: [PATCH 28/53] fix: text that is longer than a key of the database
 stops the process

---
 internal/labels/labels.go | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/internal/labels/labels.go b/internal/labels/labels.go
index 47a9c95..1d2812d 100644
--- a/internal/labels/labels.go
+++ b/internal/labels/labels.go
@@ -1,6 +1,7 @@
 package labels
 
 import (
+	"crypto/sha256"
 	"fmt"
 	"strings"
 	"sync"
@@ -8,6 +9,10 @@ import (
 	v1 "github.com/gernest/requiemdb/gen/go/rq/v1"
 )
 
+// MaxSize is the size up to which labels are kept as they are. There is a limit
+// to the size of keys in the database.
+const MaxSize = 32 << 10
+
 type Label struct {
 	Resource v1.RESOURCE
 	Prefix   v1.PREFIX
@@ -43,11 +48,21 @@ func (l *Label) WithValue(v string) *Label {
 func (l *Label) Encode() []byte {
 	if l.Value == "" {
 		l.buf = fmt.Appendf(l.buf[:0], "%d:%d:%s", l.Resource, l.Prefix, l.Key)
-		return l.buf
+		return l.limit()
 	}
 	// The first = that is not escaped separates key from value.
 	l.buf = fmt.Appendf(l.buf[:0], "%d:%d:%s=%s", l.Resource, l.Prefix,
 		escape.Replace(l.Key), l.Value)
+	return l.limit()
+}
+
+// limit cuts labels that exceed MaxSize. They end with the hash of all of the
+// label, which keeps them different from each other. They are longer than
+// MaxSize, which keeps them different from all that are not cut.
+func (l *Label) limit() []byte {
+	if len(l.buf) > MaxSize {
+		l.buf = fmt.Appendf(l.buf[:MaxSize], "%x", sha256.Sum256(l.buf))
+	}
 	return l.buf
 }
 
-- 
2.43.0


From dd6c4ce6c87077462fe205e8dc2671df17d2a15a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:06:18 +0000
Subject: [PATCH 29/53] fix: a run of a script that is cut short spoils later
 runs of it

The compiled script was written in place: when the write failed half way (a full
disk), the process was killed, or another run read it at the same time, a script
in part, or an empty one, was executed and reported success.
---
 internal/commands/query/query.go | 21 ++++++++++++++++++++-
 1 file changed, 20 insertions(+), 1 deletion(-)

diff --git a/internal/commands/query/query.go b/internal/commands/query/query.go
index 61b012b..54a64b1 100644
--- a/internal/commands/query/query.go
+++ b/internal/commands/query/query.go
@@ -86,7 +86,7 @@ func build(log *slog.Logger, data []byte) (*goja.Program, error) {
 			if err != nil {
 				return nil, err
 			}
-			err = os.WriteFile(key, cached, 0600)
+			err = store(key, cached)
 			if err != nil {
 				return nil, err
 			}
@@ -98,3 +98,22 @@ func build(log *slog.Logger, data []byte) (*goja.Program, error) {
 	}
 	return goja.Compile("scan.js", string(cached), true)
 }
+
+// store writes a compiled script under key. The file appears with all of its
+// content, a run that fails or is interrupted leaves no script in part that
+// later runs would execute.
+func store(key string, data []byte) error {
+	f, err := os.CreateTemp(filepath.Dir(key), "tmp-*")
+	if err != nil {
+		return err
+	}
+	_, err = f.Write(data)
+	err = errors.Join(err, f.Close())
+	if err == nil {
+		err = os.Rename(f.Name(), key)
+	}
+	if err != nil {
+		os.Remove(f.Name())
+	}
+	return err
+}
-- 
2.43.0


From cc6c3d3022ca26926fd0a13183d032f8a67d6e11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:06:18 +0000
Subject: [PATCH 30/53] fix: remove the folder of a script that can not be set
 up

---
 internal/compile/compile.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/internal/compile/compile.go b/internal/compile/compile.go
index 0b99183..3c5afc4 100644
--- a/internal/compile/compile.go
+++ b/internal/compile/compile.go
@@ -42,10 +42,12 @@ func createPackage(data []byte) (string, map[string]string, error) {
 	}
 	alias, err := setup(f)
 	if err != nil {
+		os.RemoveAll(f)
 		return "", nil, err
 	}
 	err = os.WriteFile(filepath.Join(f, "index.ts"), data, 0600)
 	if err != nil {
+		os.RemoveAll(f)
 		return "", nil, err
 	}
 	return f, alias, nil
-- 
2.43.0


From 9b46e5641879e8daa976ade3e4f802d6e8c241db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:06:18 +0000
Subject: [PATCH 31/53] fix: accepted samples are lost when the server is
 terminated

Samples are buffered for up to a minute and stored at shutdown, but only an
interrupt shut the server down. Service managers send SIGTERM.
---
 cmd/rq/main.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/cmd/rq/main.go b/cmd/rq/main.go
index d99c0a0..f8e3beb 100644
--- a/cmd/rq/main.go
+++ b/cmd/rq/main.go
@@ -8,6 +8,7 @@ import (
 	"os"
 	"os/signal"
 	"strconv"
+	"syscall"
 	"time"
 
 	"github.com/dgraph-io/badger/v4"
@@ -69,7 +70,7 @@ func main() {
 }
 
 func run(ctx context.Context, cmd *cli.Command) (exit error) {
-	ctx, cancel := signal.NotifyContext(ctx, os.Interrupt)
+	ctx, cancel := signal.NotifyContext(ctx, os.Interrupt, syscall.SIGTERM)
 	defer cancel()
 
 	data := cmd.Args().First()
-- 
2.43.0


From 24993260d7b0b66b26f7ed3fba3b4a15415fab1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:15 +0000
Subject: [PATCH 32/53] fix: after a crash each save costs gigabytes of memory

Ids are leased in blocks of 2^20 and what is left of a block is lost in a crash.
Rows of samples are their ids, so the next sample of every view was preceded by
a million blank rows.
---
 internal/seq/seq.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/internal/seq/seq.go b/internal/seq/seq.go
index 4bed430..83d072c 100644
--- a/internal/seq/seq.go
+++ b/internal/seq/seq.go
@@ -8,6 +8,11 @@ import (
 	"github.com/gernest/requiemdb/internal/logger"
 )
 
+// Number of ids taken from the database at once. What is left of them is lost in
+// a crash. A sample is stored in the row of its id, rows without a sample are
+// blank: a crash must not cost much more than what was stored before it.
+const lease = 1 << 10
+
 type Seq struct {
 	sample *badger.Sequence
 }
@@ -17,7 +22,7 @@ func New(db *badger.DB) (*Seq, error) {
 	seqKey := make([]byte, 8+4)
 	binary.LittleEndian.PutUint32(seqKey[8:], uint32(v1.RESOURCE_SAMPLE_ID))
 
-	sample, err := db.GetSequence(seqKey, 1<<20)
+	sample, err := db.GetSequence(seqKey, lease)
 	if err != nil {
 		return nil, err
 	}
-- 
2.43.0


From 1c3319690bf45ab3f9087ea0e052dc18a970217f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:00:16 +0000
Subject: [PATCH 33/53] fix: a scan over billions of years takes all memory

The units of a window are listed one by one. Samples have times in nanoseconds
since 1970, no unit outside of what these express can hold any.
---
 internal/view/view.go | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/internal/view/view.go b/internal/view/view.go
index 5d1be20..8194805 100644
--- a/internal/view/view.go
+++ b/internal/view/view.go
@@ -1,6 +1,7 @@
 package view
 
 import (
+	"math"
 	"time"
 
 	"github.com/gernest/rbf/quantum"
@@ -47,6 +48,12 @@ func ChooseQuantum(duration time.Duration) quantum.TimeQuantum {
 	return QH
 }
 
+// Samples have their time in nanoseconds, no view is outside of this range.
+var (
+	minTime = time.Unix(0, math.MinInt64).UTC()
+	maxTime = time.Unix(0, math.MaxInt64).UTC()
+)
+
 // Search returns all views, at the granularity chosen for the duration, with
 // data in the range [start, end). This includes views that are partially covered
 // by the range.
@@ -56,6 +63,13 @@ func Search(start, end time.Time) (views []string) {
 		return
 	}
 	q := ChooseQuantum(end.Sub(start))
+	// the range comes from a client and can be any number of years.
+	if start.Before(minTime) {
+		start = minTime
+	}
+	if end.After(maxTime) {
+		end = maxTime.Add(1)
+	}
 	for ts := floor(start, q); ts.Before(end); ts = next(ts, q) {
 		views = append(views, quantum.ViewsByTime(StdView, ts, q)...)
 	}
-- 
2.43.0


From d1f2f6680c690c09801cbacf7f6674a814811ac7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:00:16 +0000
Subject: [PATCH 34/53] fix: a script whose window begins before 1970 or ends
 after 2262 gets nothing

Nanoseconds of such times overflow.
---
 internal/js/rq.go | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/internal/js/rq.go b/internal/js/rq.go
index ffcaf2e..bd37fe6 100644
--- a/internal/js/rq.go
+++ b/internal/js/rq.go
@@ -4,6 +4,7 @@ import (
 	"errors"
 	"fmt"
 	"io"
+	"math"
 	"sync"
 	"time"
 
@@ -91,13 +92,25 @@ func (r *JS) Scan(a *v1.Scan) (*v1.Data, error) {
 		defer vs.Release()
 
 		start, end := x.TimeBounds(r.GetNow, a)
-		vs.SetTimeRange(uint64(start.UnixNano()), uint64(end.UnixNano()))
+		vs.SetTimeRange(unixNano(start), unixNano(end))
 		vs.Compile(a.Filters...)
 		return vs.Visit(data), nil
 	}
 	return nil, errors.New("RQ.Scan is not implemented")
 }
 
+// unixNano returns ts in nanoseconds since 1970. Times that can not be expressed
+// this way become the closest one that can.
+func unixNano(ts time.Time) uint64 {
+	if ts.Unix() < 0 {
+		return 0
+	}
+	if ts.After(time.Unix(0, math.MaxInt64)) {
+		return math.MaxUint64
+	}
+	return uint64(ts.UnixNano())
+}
+
 func (o *JS) Run(program *goja.Program) error {
 	_, err := o.Runtime.RunProgram(program)
 	return err
-- 
2.43.0


From f14cceac16d8cf845f00370697d0d744aed5f9a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:00:16 +0000
Subject: [PATCH 35/53] fix: a query whose answer is larger than 4 MB fails

---
 internal/commands/home.go | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/internal/commands/home.go b/internal/commands/home.go
index 0d3fa70..7920b68 100644
--- a/internal/commands/home.go
+++ b/internal/commands/home.go
@@ -1,6 +1,7 @@
 package commands
 
 import (
+	"math"
 	"os"
 	"path/filepath"
 
@@ -56,7 +57,13 @@ func FLags() []cli.Flag {
 }
 
 func Conn(cmd *cli.Command) (*grpc.ClientConn, error) {
-	return grpc.Dial(cmd.String("remoteAddress"), grpc.WithTransportCredentials(
-		insecure.NewCredentials(),
-	))
+	return grpc.Dial(cmd.String("remoteAddress"),
+		grpc.WithTransportCredentials(
+			insecure.NewCredentials(),
+		),
+		// a scan returns all samples that match in a single message.
+		grpc.WithDefaultCallOptions(
+			grpc.MaxCallRecvMsgSize(math.MaxInt32),
+		),
+	)
 }
-- 
2.43.0


From cf7c3040c3d05262788efaee102457c55b256ccb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:20:18 +0000
Subject: [PATCH 36/53] fix: telemetry of the server itself is lost when it
 stops

The context is done when the providers are shut down, so they exported
nothing of what was recorded since the last regular export.
---
 cmd/rq/main.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/cmd/rq/main.go b/cmd/rq/main.go
index f8e3beb..37cba9c 100644
--- a/cmd/rq/main.go
+++ b/cmd/rq/main.go
@@ -136,7 +136,8 @@ func run(ctx context.Context, cmd *cli.Command) (exit error) {
 		return err
 	}
 
-	defer providers.Shutdown(ctx)
+	// ctx is done when we are here, what is recorded so far is still exported.
+	defer providers.Shutdown(context.WithoutCancel(ctx))
 	store.MonitorSize(ctx, db)
 
 	go api.Start(ctx)
-- 
2.43.0


From 46dc7630a2a2136e639c6621ba42fceb5de98b07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:54:51 +0000
Subject: [PATCH 37/53] fix: rendering the result of a query that found nothing
 crashes

---
 internal/render/metrics.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/render/metrics.go b/internal/render/metrics.go
index a30182e..b03fcc4 100644
--- a/internal/render/metrics.go
+++ b/internal/render/metrics.go
@@ -23,7 +23,7 @@ func MetricsDataJSON(data *v1.MetricsData, o JSONOptions) ([]byte, error) {
 func MetricsData(md *v1.MetricsData, o MetricsFormatOption) string {
 	b := get()
 	defer put(b)
-	for i, rm := range md.ResourceMetrics {
+	for i, rm := range md.GetResourceMetrics() {
 		if i != 0 {
 			b.WriteByte('\n')
 		}
-- 
2.43.0


From fc5507fcfb45edd6a702c60a2fd52e3b7bd23f67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:54:51 +0000
Subject: [PATCH 38/53] fix: clients that compress with gzip are refused

---
 internal/compress/grpc.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/internal/compress/grpc.go b/internal/compress/grpc.go
index 1b2a80a..2ee463a 100644
--- a/internal/compress/grpc.go
+++ b/internal/compress/grpc.go
@@ -5,6 +5,8 @@ import (
 
 	"github.com/klauspost/compress/zstd"
 	"google.golang.org/grpc/encoding"
+	// what most clients compress with
+	_ "google.golang.org/grpc/encoding/gzip"
 )
 
 type codec struct{}
-- 
2.43.0


From af7b91c93061df1337ee25bcf00e607330b6f14d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:54:51 +0000
Subject: [PATCH 39/53] fix: an index is damaged by a commit that fails
 part-way

---
 internal/shards/shards.go | 47 +++++++++++++++++++++++++++++++++++++--
 1 file changed, 45 insertions(+), 2 deletions(-)

diff --git a/internal/shards/shards.go b/internal/shards/shards.go
index 8e30264..572e7f8 100644
--- a/internal/shards/shards.go
+++ b/internal/shards/shards.go
@@ -23,6 +23,7 @@ import (
 type Shards struct {
 	config cfg.Config
 	mu     sync.RWMutex
+	write  sync.Mutex
 	db     map[uint64]*rbf.DB
 	dir    string
 }
@@ -52,6 +53,9 @@ func (s *Shards) View(shard uint64, f func(tx *rbf.Tx) error) error {
 }
 
 func (s *Shards) Update(shard uint64, f func(tx *rbf.Tx) error) error {
+	// nobody writes to a shard between a commit that failed and the reset
+	s.write.Lock()
+	defer s.write.Unlock()
 	db, err := s.get(shard)
 	if err != nil {
 		return err
@@ -66,7 +70,26 @@ func (s *Shards) Update(shard uint64, f func(tx *rbf.Tx) error) error {
 		tx.Rollback()
 		return err
 	}
-	return tx.Commit()
+	err = tx.Commit()
+	if err != nil {
+		tx.Rollback()
+		return errors.Join(err, s.reset(shard))
+	}
+	return nil
+}
+
+// reset closes a shard after a commit that failed. The commit may have been
+// written in part, and what is committed after it would be read from the wrong
+// place. Opening the shard again drops what is incomplete.
+func (s *Shards) reset(shard uint64) error {
+	s.mu.Lock()
+	defer s.mu.Unlock()
+	db, ok := s.db[shard]
+	if !ok {
+		return nil
+	}
+	delete(s.db, shard)
+	return db.Close()
 }
 
 // AllShards iterate on all shards and calling f with the database
@@ -229,14 +252,34 @@ func (s *Shards) get(shard uint64) (*rbf.DB, error) {
 		slog.Uint64("shard", shard),
 	)
 	r = rbf.NewDB(path, &config)
-	err := r.Open()
+	err := discard(r.DataPath())
 	if err != nil {
 		return nil, err
 	}
+	err = r.Open()
+	if err != nil {
+		return nil, errors.Join(err, r.Close())
+	}
 	s.db[shard] = r
 	return r, nil
 }
 
+// discard removes a file of a shard whose creation failed part-way. Its first
+// pages are missing and nothing is stored in it.
+func discard(path string) error {
+	fi, err := os.Stat(path)
+	if err != nil {
+		if os.IsNotExist(err) {
+			return nil
+		}
+		return err
+	}
+	if fi.Size() >= 3*rbf.PageSize {
+		return nil
+	}
+	return os.Remove(path)
+}
+
 // list returns all shards found on disk.
 func (s *Shards) list() (shards []uint64, err error) {
 	ls, err := os.ReadDir(s.dir)
-- 
2.43.0


From c9863c37dd5bac7afc75d7c2dccd8bfbd7ef1421 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:55:52 +0000
Subject: [PATCH 40/53] fix: metrics of the server itself change while they
 wait to be saved

---
 internal/self/metrics/transform/metricdata.go | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/internal/self/metrics/transform/metricdata.go b/internal/self/metrics/transform/metricdata.go
index b6d0b76..a61c35b 100644
--- a/internal/self/metrics/transform/metricdata.go
+++ b/internal/self/metrics/transform/metricdata.go
@@ -10,6 +10,7 @@ package transform
 
 import (
 	"fmt"
+	"slices"
 	"time"
 
 	"go.opentelemetry.io/otel/sdk/metric/metricdata"
@@ -58,7 +59,8 @@ func ScopeMetrics(sms []metricdata.ScopeMetrics) ([]*mpb.ScopeMetrics, error) {
 
 // Metrics returns a slice of OTLP Metric generated from ms. If ms contains
 // invalid metric values, an error will be returned along with a slice that
-// contains partial OTLP Metrics.
+// contains partial OTLP Metrics. Nothing in it refers to memory of ms, which is
+// used for the next collection while the result still waits to be saved.
 func Metrics(ms []metricdata.Metrics) ([]*mpb.Metric, error) {
 	errs := &multiErr{datatype: "Metrics"}
 	out := make([]*mpb.Metric, 0, len(ms))
@@ -183,8 +185,8 @@ func HistogramDataPoints[N int64 | float64](dPts []metricdata.HistogramDataPoint
 			TimeUnixNano:      timeUnixNano(dPt.Time),
 			Count:             dPt.Count,
 			Sum:               &sum,
-			BucketCounts:      dPt.BucketCounts,
-			ExplicitBounds:    dPt.Bounds,
+			BucketCounts:      slices.Clone(dPt.BucketCounts),
+			ExplicitBounds:    slices.Clone(dPt.Bounds),
 			Exemplars:         Exemplars(dPt.Exemplars),
 		}
 		if v, ok := dPt.Min.Value(); ok {
@@ -252,7 +254,7 @@ func ExponentialHistogramDataPoints[N int64 | float64](dPts []metricdata.Exponen
 func ExponentialHistogramDataPointBuckets(bucket metricdata.ExponentialBucket) *mpb.ExponentialHistogramDataPoint_Buckets {
 	return &mpb.ExponentialHistogramDataPoint_Buckets{
 		Offset:       bucket.Offset,
-		BucketCounts: bucket.Counts,
+		BucketCounts: slices.Clone(bucket.Counts),
 	}
 }
 
@@ -292,8 +294,8 @@ func Exemplars[N int64 | float64](exemplars []metricdata.Exemplar[N]) []*mpb.Exe
 		e := &mpb.Exemplar{
 			FilteredAttributes: KeyValues(exemplar.FilteredAttributes),
 			TimeUnixNano:       timeUnixNano(exemplar.Time),
-			SpanId:             exemplar.SpanID,
-			TraceId:            exemplar.TraceID,
+			SpanId:             slices.Clone(exemplar.SpanID),
+			TraceId:            slices.Clone(exemplar.TraceID),
 		}
 		switch v := any(exemplar.Value).(type) {
 		case int64:
-- 
2.43.0


From 662b297822580ba2ae60385d91c8079b96897ac2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:49:45 +0000
Subject: [PATCH 41/53] fix: columns of labels with equal hashes are mistaken
 for one another

---
 internal/store/store.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/internal/store/store.go b/internal/store/store.go
index 3ea5e44..6f88ee7 100644
--- a/internal/store/store.go
+++ b/internal/store/store.go
@@ -4,7 +4,6 @@ import (
 	"context"
 	"time"
 
-	"github.com/cespare/xxhash/v2"
 	"github.com/dgraph-io/badger/v4"
 	"github.com/dgraph-io/ristretto"
 	"github.com/gernest/rbf"
@@ -56,7 +55,9 @@ func NewStore(db *badger.DB, rdb *shards.Shards, tr *translate.Translate, seq *s
 }
 
 func (s *Storage) Translate(key []byte) uint64 {
-	h := xxhash.Sum64(key)
+	// The cache tells keys apart by two hashes, one of them is different in every
+	// process. Clients choose the keys, a hash that they know is not enough.
+	h := string(key)
 	if v, ok := s.columnsCache.Get(h); ok {
 		return v.(uint64)
 	}
-- 
2.43.0


From 910323dc25daf3398dd5069552e309e4dec9d085 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:49:45 +0000
Subject: [PATCH 42/53] fix: resources and scopes with equal hashes are merged

---
 internal/data/sort.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/internal/data/sort.go b/internal/data/sort.go
index e287cec..9836f3e 100644
--- a/internal/data/sort.go
+++ b/internal/data/sort.go
@@ -2,10 +2,10 @@ package data
 
 import (
 	"encoding/binary"
+	"hash/maphash"
 	"slices"
 	"sort"
 
-	"github.com/cespare/xxhash/v2"
 	commonv1 "go.opentelemetry.io/proto/otlp/common/v1"
 	metricsv1 "go.opentelemetry.io/proto/otlp/metrics/v1"
 	resourcev1 "go.opentelemetry.io/proto/otlp/resource/v1"
@@ -13,7 +13,9 @@ import (
 )
 
 type Sorter[T any, R any, S any] struct {
-	h        xxhash.Digest
+	// Clients choose what is hashed. The seed is different in every process,
+	// nobody can make different things look the same.
+	h        maphash.Hash
 	resource map[uint64]R
 	scope    map[uint64]S
 	metrics  map[uint64]T
-- 
2.43.0


From 22fa7ca4904a1da82fd54f9d0d62dd26d9910769 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:49:45 +0000
Subject: [PATCH 43/53] fix: attributes with equal hashes pass filters of one
 another

---
 internal/visit/visit.go | 55 ++++++++++++++++++++++++-----------------
 1 file changed, 32 insertions(+), 23 deletions(-)

diff --git a/internal/visit/visit.go b/internal/visit/visit.go
index f329a49..8866e3a 100644
--- a/internal/visit/visit.go
+++ b/internal/visit/visit.go
@@ -3,10 +3,10 @@ package visit
 import (
 	"encoding/binary"
 	"encoding/hex"
+	"hash/maphash"
 	"sync"
 
 	"github.com/RoaringBitmap/roaring/roaring64"
-	"github.com/cespare/xxhash/v2"
 	v1 "github.com/gernest/requiemdb/gen/go/rq/v1"
 	"github.com/gernest/requiemdb/internal/bitmaps"
 	commonV1 "go.opentelemetry.io/proto/otlp/common/v1"
@@ -152,16 +152,24 @@ func (a *All) Release() {
 }
 
 func (a *All) SetResourceSchema(schema string) {
-	a.resource_schema.Add(xxhash.Sum64String(schema))
+	a.resource_schema.Add(hashString(schema))
 }
 
 func (a *All) SetResourceAttr(k, v string) {
 	a.resource_attr.Add(attr(k, v))
 }
 
+// Clients choose what is hashed. The seed is different in every process, nobody
+// can make different things look the same.
+var seed = maphash.MakeSeed()
+
+func hashString(v string) uint64 { return maphash.String(seed, v) }
+
+func hashBytes(v []byte) uint64 { return maphash.Bytes(seed, v) }
+
 // hashAttr hashes length of the key first to ensure what separates a key from a
 // value is not ambiguous.
-func hashAttr(h *xxhash.Digest, k, v string) uint64 {
+func hashAttr(h *maphash.Hash, k, v string) uint64 {
 	var size [8]byte
 	binary.BigEndian.PutUint64(size[:], uint64(len(k)))
 	h.Write(size[:])
@@ -171,20 +179,20 @@ func hashAttr(h *xxhash.Digest, k, v string) uint64 {
 }
 
 func attr(k, v string) uint64 {
-	var h xxhash.Digest
-	h.Reset()
+	var h maphash.Hash
+	h.SetSeed(seed)
 	return hashAttr(&h, k, v)
 }
 
 func (a *All) SetScopeSchema(schema string) {
-	a.scope_schema.Add(xxhash.Sum64String(schema))
+	a.scope_schema.Add(hashString(schema))
 }
 func (a *All) SetScopeName(name string) {
-	a.scope_name.Add(xxhash.Sum64String(name))
+	a.scope_name.Add(hashString(name))
 }
 
 func (a *All) SetScopVersion(version string) {
-	a.scope_version.Add(xxhash.Sum64String(version))
+	a.scope_version.Add(hashString(version))
 }
 
 func (a *All) SetScopeAttr(k, v string) {
@@ -196,7 +204,7 @@ func (a *All) SetAttr(k, v string) {
 }
 
 func (a *All) SetName(name string) {
-	a.name.Add(xxhash.Sum64String(name))
+	a.name.Add(hashString(name))
 }
 
 func (a *All) SetTraceID(id string) error {
@@ -204,7 +212,7 @@ func (a *All) SetTraceID(id string) error {
 	if err != nil {
 		return err
 	}
-	a.trace_id.Add(xxhash.Sum64(h))
+	a.trace_id.Add(hashBytes(h))
 	return nil
 }
 
@@ -213,7 +221,7 @@ func (a *All) SetSpanID(id string) error {
 	if err != nil {
 		return err
 	}
-	a.span_id.Add(xxhash.Sum64(h))
+	a.span_id.Add(hashBytes(h))
 	return nil
 }
 
@@ -222,12 +230,12 @@ func (a *All) SetParentSpanID(id string) error {
 	if err != nil {
 		return err
 	}
-	a.parent_span_id.Add(xxhash.Sum64(h))
+	a.parent_span_id.Add(hashBytes(h))
 	return nil
 }
 
 func (a *All) SetLogLevel(lvl string) {
-	a.log_level.Add(xxhash.Sum64String(lvl))
+	a.log_level.Add(hashString(lvl))
 }
 
 func (a *All) SetTimeRange(start, end uint64) {
@@ -238,7 +246,7 @@ func (a *All) AcceptResourceSchema(schema string) bool {
 	if a.resource_schema.IsEmpty() {
 		return true
 	}
-	return a.resource_schema.Contains(xxhash.Sum64String(schema))
+	return a.resource_schema.Contains(hashString(schema))
 }
 
 func (a *All) AcceptResourceAttributes(kv []*commonV1.KeyValue) bool {
@@ -246,15 +254,15 @@ func (a *All) AcceptResourceAttributes(kv []*commonV1.KeyValue) bool {
 }
 func (a *All) AcceptScopeSchema(schema string) bool {
 	return a.scope_schema.IsEmpty() ||
-		a.scope_schema.Contains(xxhash.Sum64String(schema))
+		a.scope_schema.Contains(hashString(schema))
 }
 func (a *All) AcceptScopeName(name string) bool {
 	return a.scope_name.IsEmpty() ||
-		a.scope_name.Contains(xxhash.Sum64String(name))
+		a.scope_name.Contains(hashString(name))
 }
 func (a *All) AcceptScopeVersion(version string) bool {
 	return a.scope_version.IsEmpty() ||
-		a.scope_version.Contains(xxhash.Sum64String(version))
+		a.scope_version.Contains(hashString(version))
 }
 func (a *All) AcceptScopeAttributes(attr []*commonV1.KeyValue) bool {
 	return matchAttr(&a.scope_attr, attr)
@@ -262,7 +270,7 @@ func (a *All) AcceptScopeAttributes(attr []*commonV1.KeyValue) bool {
 
 func (a *All) AcceptName(name string) bool {
 	return a.name.IsEmpty() ||
-		a.name.Contains(xxhash.Sum64String(name))
+		a.name.Contains(hashString(name))
 }
 
 func (a *All) AcceptAttributes(attr []*commonV1.KeyValue) bool {
@@ -275,16 +283,16 @@ func (a *All) TimeRange() (start, end uint64) {
 
 func (a *All) AcceptLogLevel(lvl string) bool {
 	return a.log_level.IsEmpty() ||
-		a.log_level.Contains(xxhash.Sum64String(lvl))
+		a.log_level.Contains(hashString(lvl))
 }
 func (a *All) AcceptTraceID(id []byte) bool {
-	return a.trace_id.IsEmpty() || a.trace_id.Contains(xxhash.Sum64(id))
+	return a.trace_id.IsEmpty() || a.trace_id.Contains(hashBytes(id))
 }
 func (a *All) AcceptSpanID(id []byte) bool {
-	return a.span_id.IsEmpty() || a.span_id.Contains(xxhash.Sum64(id))
+	return a.span_id.IsEmpty() || a.span_id.Contains(hashBytes(id))
 }
 func (a *All) AcceptParentSpanID(id []byte) bool {
-	return a.parent_span_id.IsEmpty() || a.parent_span_id.Contains(xxhash.Sum64(id))
+	return a.parent_span_id.IsEmpty() || a.parent_span_id.Contains(hashBytes(id))
 }
 
 func (a *All) AcceptTimestamp(ts uint64) bool {
@@ -297,7 +305,8 @@ func matchAttr(a *roaring64.Bitmap, ls []*commonV1.KeyValue) bool {
 	}
 	b := bitmaps.New()
 	defer b.Release()
-	var h xxhash.Digest
+	var h maphash.Hash
+	h.SetSeed(seed)
 	for _, k := range ls {
 		switch e := k.GetValue().GetValue().(type) {
 		case *commonV1.AnyValue_StringValue:
-- 
2.43.0


From 9329cf95044076aa05614771ddbbb53db8112a22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:49:45 +0000
Subject: [PATCH 44/53] fix: a script with the hash of another runs as that one

---
 internal/commands/query/query.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/internal/commands/query/query.go b/internal/commands/query/query.go
index 54a64b1..7fcc55e 100644
--- a/internal/commands/query/query.go
+++ b/internal/commands/query/query.go
@@ -2,6 +2,7 @@ package query
 
 import (
 	"context"
+	"crypto/sha256"
 	"errors"
 	"fmt"
 	"log/slog"
@@ -9,7 +10,6 @@ import (
 	"path/filepath"
 	"time"
 
-	"github.com/cespare/xxhash/v2"
 	"github.com/dop251/goja"
 	v1 "github.com/gernest/requiemdb/gen/go/rq/v1"
 	"github.com/gernest/requiemdb/internal/commands"
@@ -76,7 +76,7 @@ func run(ctx context.Context, cmd *cli.Command) error {
 }
 
 func build(log *slog.Logger, data []byte) (*goja.Program, error) {
-	hash := xxhash.Sum64(data)
+	hash := fmt.Sprintf("%x", sha256.Sum256(data))
 	key := filepath.Join(commands.Cache(), fmt.Sprint(hash))
 	cached, err := os.ReadFile(key)
 	if err != nil {
-- 
2.43.0


From 698179e625c521291d03579265982dd74d0906a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:49:45 +0000
Subject: [PATCH 45/53] fix: links of spans of the server itself lose their
 trace state

---
 internal/self/trace/tracetransform/span.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/internal/self/trace/tracetransform/span.go b/internal/self/trace/tracetransform/span.go
index ce69cfa..91ce823 100644
--- a/internal/self/trace/tracetransform/span.go
+++ b/internal/self/trace/tracetransform/span.go
@@ -149,6 +149,7 @@ func links(links []tracesdk.Link) []*tracepb.Span_Link {
 		sl = append(sl, &tracepb.Span_Link{
 			TraceId:                tid[:],
 			SpanId:                 sid[:],
+			TraceState:             otLink.SpanContext.TraceState().String(),
 			Attributes:             KeyValues(otLink.Attributes),
 			DroppedAttributesCount: uint32(otLink.DroppedAttributeCount),
 		})
-- 
2.43.0


From f3fa678a9b6c439494d481f448faaa8d08f66963 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:02:39 +0000
Subject: [PATCH 46/53] fix: resources and scopes with different counts of
 dropped attributes are not merged

---
 internal/data/sort.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/internal/data/sort.go b/internal/data/sort.go
index 9836f3e..815cd6c 100644
--- a/internal/data/sort.go
+++ b/internal/data/sort.go
@@ -94,6 +94,7 @@ func (r *Sorter[T, R, S]) hashResource(schema string, resource *resourcev1.Resou
 	if resource != nil {
 		r.attr(resource.Attributes)
 	}
+	r.hashNum(uint64(resource.GetDroppedAttributesCount()))
 	return r.h.Sum64()
 }
 
@@ -108,6 +109,7 @@ func (r *Sorter[T, R, S]) hashScope(resource uint64, schema string, scope *commo
 			r.attr(scope.Attributes)
 		}
 	}
+	r.hashNum(uint64(scope.GetDroppedAttributesCount()))
 	return r.h.Sum64()
 }
 
-- 
2.43.0


From c20b6121578337941714ebb7bdfb86681182cb22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:10:45 +0000
Subject: [PATCH 47/53] fix: columnar metrics keep attributes of resource and
 scope in the identity of a series

---
 internal/f2/attr.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/internal/f2/attr.go b/internal/f2/attr.go
index ce42c2a..559a9d7 100644
--- a/internal/f2/attr.go
+++ b/internal/f2/attr.go
@@ -25,12 +25,14 @@ func newAttr() *Attr {
 func (a *Attr) Resource(r *resouncev1.Resource) {
 	a.resource = a.resource[:0]
 	a.resource = append(a.resource, r.GetAttributes()...)
+	a.rb.Clear()
 	a.do(&a.rb, a.resource)
 }
 
 func (a *Attr) Scope(scope *v1.InstrumentationScope) {
 	a.scope = a.scope[:0]
 	a.scope = append(a.scope, scope.GetAttributes()...)
+	a.sb.Clear()
 	a.do(&a.sb, a.scope)
 }
 
@@ -74,8 +76,8 @@ func (a *Attr) name(name []byte) {
 	a.ab.Add(a.tr.Tr(a.b.Bytes()))
 }
 
+// do adds columns of kv to b.
 func (a *Attr) do(b *roaring64.Bitmap, kv []*v1.KeyValue) {
-	b.Clear()
 	for _, v := range kv {
 		a.b.Reset()
 		a.b.WriteString(v.Key)
-- 
2.43.0


From dd01736050675dafce10b798caaf78de3f11aa2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:11:45 +0000
Subject: [PATCH 48/53] fix: columnar metrics have values of sums as counters,
 and no value of the point before

---
 internal/f2/metrics.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/internal/f2/metrics.go b/internal/f2/metrics.go
index 652a7a2..9d9f430 100644
--- a/internal/f2/metrics.go
+++ b/internal/f2/metrics.go
@@ -113,6 +113,7 @@ func (m *Metrics) gauge(mx *v1.Metric, a *Attr, g *metricsv1.Gauge) {
 		mx.StartTimeUnixNano = dp.StartTimeUnixNano
 		mx.TimeUnixNano = dp.TimeUnixNano
 		mx.Exemplars = dp.Exemplars
+		mx.Gauge = nil
 		switch e := dp.Value.(type) {
 		case *metricsv1.NumberDataPoint_AsDouble:
 			mx.Gauge = &e.AsDouble
@@ -140,12 +141,13 @@ func (m *Metrics) sum(mx *v1.Metric, a *Attr, g *metricsv1.Sum) {
 		mx.StartTimeUnixNano = dp.StartTimeUnixNano
 		mx.TimeUnixNano = dp.TimeUnixNano
 		mx.Exemplars = dp.Exemplars
+		mx.Counter = nil
 		switch e := dp.Value.(type) {
 		case *metricsv1.NumberDataPoint_AsDouble:
-			mx.Gauge = &e.AsDouble
+			mx.Counter = &e.AsDouble
 		case *metricsv1.NumberDataPoint_AsInt:
 			f := float64(e.AsInt)
-			mx.Gauge = &f
+			mx.Counter = &f
 		}
 		mx.Attributes, columns, mx.Hash = a.Attr(name, dp.Attributes)
 		id := m.id.Next()
-- 
2.43.0


From 7f2bf5bb82f8a9ee68179d1480a1c1493990b7f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:12:07 +0000
Subject: [PATCH 49/53] fix: columnar metrics whose labels have the same hash
 are told apart

---
 internal/f2/translate.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/internal/f2/translate.go b/internal/f2/translate.go
index cb4734d..d9aa032 100644
--- a/internal/f2/translate.go
+++ b/internal/f2/translate.go
@@ -1,7 +1,6 @@
 package f2
 
 import (
-	"github.com/cespare/xxhash/v2"
 	"github.com/dgraph-io/badger/v4"
 	"github.com/dgraph-io/ristretto"
 	"github.com/gernest/requiemdb/internal/logger"
@@ -40,7 +39,9 @@ func newCacheTr(db *badger.DB, prefix []byte) (*cacheTr, error) {
 var _ Translate = (*cacheTr)(nil)
 
 func (b *cacheTr) Tr(key []byte) uint64 {
-	h := xxhash.Sum64(key)
+	// The cache tells keys apart by two hashes, one of them is different in every
+	// process. Clients choose the keys, a hash that they know is not enough.
+	h := string(key)
 	if k, ok := b.cache.Get(h); ok {
 		return k.(uint64)
 	}
-- 
2.43.0


From 184451be1c8d90478b2ffd69ad8dee53c8d49ffb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:16:05 +0000
Subject: [PATCH 50/53] fix: columnar metrics tell keys and values with = apart

---
 internal/f2/attr.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/internal/f2/attr.go b/internal/f2/attr.go
index 559a9d7..172baac 100644
--- a/internal/f2/attr.go
+++ b/internal/f2/attr.go
@@ -2,6 +2,7 @@ package f2
 
 import (
 	"bytes"
+	"strings"
 	"sync"
 
 	"github.com/RoaringBitmap/roaring/roaring64"
@@ -80,7 +81,7 @@ func (a *Attr) name(name []byte) {
 func (a *Attr) do(b *roaring64.Bitmap, kv []*v1.KeyValue) {
 	for _, v := range kv {
 		a.b.Reset()
-		a.b.WriteString(v.Key)
+		escape.WriteString(&a.b, v.Key)
 		a.b.Write(equal)
 		if toString(&a.b, v.Value) {
 			b.Add(a.tr.Tr(a.b.Bytes()))
@@ -88,6 +89,9 @@ func (a *Attr) do(b *roaring64.Bitmap, kv []*v1.KeyValue) {
 	}
 }
 
+// The first = that is not escaped separates key from value.
+var escape = strings.NewReplacer(`\`, `\\`, `=`, `\=`)
+
 func toString(b *bytes.Buffer, a *v1.AnyValue) bool {
 	switch e := a.GetValue().(type) {
 	case *v1.AnyValue_StringValue:
-- 
2.43.0


From 81cffbb48b20f76679bb46463522c44d8781440c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:31:21 +0000
Subject: [PATCH 51/53] fix: snippets whose sources have the same hash are told
 apart

---
 internal/snippets/snippets.go | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/internal/snippets/snippets.go b/internal/snippets/snippets.go
index e9b52a7..44a8125 100644
--- a/internal/snippets/snippets.go
+++ b/internal/snippets/snippets.go
@@ -1,7 +1,6 @@
 package snippets
 
 import (
-	"github.com/cespare/xxhash/v2"
 	"github.com/dgraph-io/ristretto"
 	"github.com/dop251/goja"
 )
@@ -27,15 +26,17 @@ func (s *Snippets) Close() {
 }
 
 func (s *Snippets) GetProgramData(data []byte) (*goja.Program, error) {
-	hash := xxhash.Sum64(data)
-	if o, ok := s.hashed.Get(hash); ok {
+	// The cache tells sources apart by two hashes, one of them is different in
+	// every process. Clients choose the sources, a hash that they know is not enough.
+	key := string(data)
+	if o, ok := s.hashed.Get(key); ok {
 		return o.(*goja.Program), nil
 	}
-	program, err := goja.Compile("index.js", string(data), true)
+	program, err := goja.Compile("index.js", key, true)
 	if err != nil {
 		return nil, err
 	}
 	cost := len(data)
-	s.hashed.Set(hash, program, int64(cost))
+	s.hashed.Set(key, program, int64(cost))
 	return program, nil
 }
-- 
2.43.0


From ef95eaaa9d1c5cbcbcfb0fe1aac7dd0f4c832cde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:36:47 +0000
Subject: [PATCH 52/53] fix: parquet files that could not be written whole are
 an error

---
 internal/arrow3/parquet.go | 32 ++++++++++++++++++++++++++++++--
 1 file changed, 30 insertions(+), 2 deletions(-)

diff --git a/internal/arrow3/parquet.go b/internal/arrow3/parquet.go
index 8752154..b1d158d 100644
--- a/internal/arrow3/parquet.go
+++ b/internal/arrow3/parquet.go
@@ -54,7 +54,8 @@ func (msg *message) WriteParquet(w io.Writer) error {
 // WriteParquetRecords writes multiple records sequentially. Similar to doing
 // concat on records and writing as a single record.
 func (msg *message) WriteParquetRecords(w io.Writer, records ...arrow.Record) error {
-	f, err := pqarrow.NewFileWriter(msg.schema, w,
+	out := &sink{w: w}
+	f, err := pqarrow.NewFileWriter(msg.schema, out,
 		parquet.NewWriterProperties(msg.props...),
 		pqarrow.NewArrowWriterProperties(),
 	)
@@ -69,6 +70,9 @@ func (msg *message) WriteParquetRecords(w io.Writer, records ...arrow.Record) er
 		}
 		a := arrow.NewChunked(chunk[0].DataType(), chunk)
 		err := f.WriteColumnChunked(a, 0, int64(a.Len()))
+		if err == nil {
+			err = out.err
+		}
 		if err != nil {
 			a.Release()
 			f.Close()
@@ -76,5 +80,29 @@ func (msg *message) WriteParquetRecords(w io.Writer, records ...arrow.Record) er
 		}
 		a.Release()
 	}
-	return f.Close()
+	if err := f.Close(); err != nil {
+		return err
+	}
+	return out.err
+}
+
+// sink keeps the first error of w to itself. The parquet writer panics when it can
+// not write the first bytes, and ignores errors of the last ones.
+type sink struct {
+	w   io.Writer
+	err error
+}
+
+func (s *sink) Write(b []byte) (int, error) {
+	if s.err == nil {
+		_, s.err = s.w.Write(b)
+	}
+	return len(b), nil
+}
+
+func (s *sink) Close() error {
+	if c, ok := s.w.(io.Closer); ok {
+		return c.Close()
+	}
+	return nil
 }
-- 
2.43.0


From 93be1f9d2386d6cc1a43b7a88bf65f40740265e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:09:10 +0000
Subject: [PATCH 53/53] fix: start after a crash while badger created or
 removed one of its logs

Such a crash leaves an empty file. badger makes it a valid log, but the attempt
to open the database with it failed.
---
 cmd/rq/main.go         |  2 +-
 internal/store/open.go | 23 +++++++++++++++++++++++
 2 files changed, 24 insertions(+), 1 deletion(-)
 create mode 100644 internal/store/open.go

diff --git a/cmd/rq/main.go b/cmd/rq/main.go
index 37cba9c..771ad41 100644
--- a/cmd/rq/main.go
+++ b/cmd/rq/main.go
@@ -82,7 +82,7 @@ func run(ctx context.Context, cmd *cli.Command) (exit error) {
 		)
 	o = setupLogging(cmd, o)
 	slog.Info("Setup  database", "path", dbPath)
-	db, err := badger.Open(o)
+	db, err := store.OpenDB(o)
 	if err != nil {
 		return err
 	}
diff --git a/internal/store/open.go b/internal/store/open.go
new file mode 100644
index 0000000..3aa61a3
--- /dev/null
+++ b/internal/store/open.go
@@ -0,0 +1,23 @@
+package store
+
+import (
+	"strings"
+
+	"github.com/dgraph-io/badger/v4"
+	"github.com/dgraph-io/ristretto/z"
+)
+
+// OpenDB opens a database. A crash while badger creates or removes one of its
+// logs leaves an empty file behind. badger makes it a valid log without entries,
+// but fails to open the database because it did not expect a new one.
+func OpenDB(o badger.Options) (*badger.DB, error) {
+	db, err := badger.Open(o)
+	// each attempt is done with one of the files
+	for i := 0; i < 16 && err != nil && strings.Contains(err.Error(), z.NewFile.Error()); i++ {
+		db, err = badger.Open(o)
+	}
+	if err != nil {
+		return nil, err
+	}
+	return db, nil
+}
-- 
2.43.0

