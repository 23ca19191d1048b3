// Signals do not mix: a scan of one signal only returns that signal, also when
// samples of different signals share everything that is searchable.
package c03

import (
	"strings"
	"testing"
	"time"

	v1 "github.com/gernest/requiemdb/gen/go/rq/v1"
	"github.com/gernest/requiemdb/internal/zzverif/kit"
	"google.golang.org/protobuf/proto"
	"pgregory.net/rapid"
)

func TestProperty(t *testing.T) {
	kit.Run(t, func(c *kit.Case) {
		h := kit.NewHistory(c)
		hours := []time.Time{h.Clock.Base, h.Clock.Hour()}
		h.Hours = func() time.Time { return kit.Of(c.T, "hour", hours) }
		// a resource and a scope that all samples share
		g := &kit.Gen{T: c.T}
		r, s := g.Resource(), g.Scope()
		schema := kit.Of(c.T, "schema", kit.Schemas)
		// and ids and names that samples of all signals may have
		share := rapid.Bool().Draw(c.T, "share ids")
		trace := kit.Of(c.T, "trace", []string{"0123456789abcdef", "\x00\x01", strings.Repeat("\xff", 16)})
		span := kit.Of(c.T, "span", []string{"01234567", "\x00", "\x00\x01"})
		name := kit.Of(c.T, "name", []string{"name", "", "a=b"})
		common := func(field string) bool {
			return share && rapid.IntRange(0, 2).Draw(c.T, "common "+field) > 0
		}
		h.Edit = func(d *v1.Data) {
			for _, x := range d.GetMetrics().GetResourceMetrics() {
				for _, y := range x.ScopeMetrics {
					for _, z := range y.Metrics {
						if common("name") {
							z.Name = name
						}
					}
				}
			}
			for _, x := range d.GetLogs().GetResourceLogs() {
				for _, y := range x.ScopeLogs {
					for _, z := range y.LogRecords {
						if common("ids") {
							z.TraceId, z.SpanId = []byte(trace), []byte(span)
						}
					}
				}
			}
			for _, x := range d.GetTraces().GetResourceSpans() {
				for _, y := range x.ScopeSpans {
					for _, z := range y.Spans {
						if common("ids") {
							z.TraceId, z.SpanId = []byte(trace), []byte(span)
						}
						if common("parent") {
							z.ParentSpanId = []byte(span)
						}
						if common("name") {
							z.Name = name
						}
					}
				}
			}
			for _, x := range d.GetMetrics().GetResourceMetrics() {
				x.Resource, x.SchemaUrl = r, schema
				for _, y := range x.ScopeMetrics {
					y.Scope = s
				}
			}
			for _, x := range d.GetLogs().GetResourceLogs() {
				x.Resource, x.SchemaUrl = r, schema
				for _, y := range x.ScopeLogs {
					y.Scope = s
				}
			}
			for _, x := range d.GetTraces().GetResourceSpans() {
				x.Resource, x.SchemaUrl = r, schema
				for _, y := range x.ScopeSpans {
					y.Scope = s
				}
			}
		}
		h.Fill(2, 4)
		kinds := map[kit.Kind]bool{}
		for _, s := range h.M.All {
			kinds[s.Kind] = true
		}
		shared, limited, latest := 0, 0, 0
		for i := 0; i < 9; i++ {
			k := kit.Kind(i % 3)
			start, end := h.Everything()
			var fs []*v1.Scan_Filter
			switch i / 3 {
			case 1:
				fs = h.M.Filters(c.T, kit.Kind(rapid.IntRange(0, 2).Draw(c.T, "labels.of")), 1)
			case 2:
				start, end = h.Window()
			}
			want := h.M.Matching(k, start, end, fs)
			other := 0
			for o := kit.KMetrics; o <= kit.KTraces; o++ {
				if o != k {
					other += len(h.M.Matching(o, start, end, fs))
				}
			}
			if other > 0 && len(want) > 0 {
				shared++
			}
			scan := kit.Range(k, start, end, fs...)
			if rapid.Bool().Draw(c.T, "limit") {
				// samples of other signals do not count
				scan.Limit = uint64(rapid.IntRange(1, len(want)+1).Draw(c.T, "limit.n"))
				scan.Reverse = rapid.Bool().Draw(c.T, "limit.reverse")
				if n := int(scan.Limit); n < len(want) {
					if scan.Reverse {
						want = want[len(want)-n:]
					} else {
						want = want[:n]
					}
					if other > 0 {
						limited++
					}
				}
			}
			got := h.Scan(scan)
			if d := kit.Diff(kit.AllPoints(want), kit.Points(got)); d != "" {
				c.Fatalf("scan %v must select samples %s\n%s", scan, kit.IDs(want), d)
			}
			// the most recent one of the signal, when others are more recent
			now := end
			if len(h.M.All) > 0 && rapid.Bool().Draw(c.T, "now.near") {
				now = kit.Of(c.T, "now.of", h.M.All).At().Add(time.Minute)
			}
			want = h.M.Matching(k, now.Add(-15*time.Minute), now, fs)
			for o := kit.KMetrics; o <= kit.KTraces; o++ {
				if x := h.M.Matching(o, now.Add(-15*time.Minute), now, fs); o != k && len(x) > 0 && len(want) > 0 && x[len(x)-1].ID > want[len(want)-1].ID {
					latest++
				}
			}
			inst := h.Scan(kit.Instant(k, now, 0, fs...))
			if len(want) == 0 {
				if ps := kit.Points(inst); len(ps) > 0 {
					c.Fatalf("instant scan of %s at %s with %v must be empty, got %v", k, now, fs, inst)
				}
			} else if last := want[len(want)-1]; !proto.Equal(kit.Normalize(inst), kit.Normalize(last.Data)) {
				c.Fatalf("instant scan of %s at %s with %v must return sample %d of %s\nwant %v\ngot  %v", k, now, fs, last.ID, kit.IDs(want), kit.Normalize(last.Data), kit.Normalize(inst))
			}
		}
		c.ClassIf(len(kinds) == 3, "all signals saved")
		c.ClassIf(shared > 0, "scan with matches in several signals")
		c.ClassIf(limited > 0, "limit below the number of matches, with matches in others")
		c.ClassIf(latest > 0, "another signal has a more recent match")
		c.NonTrivialIf(len(kinds) > 1 && shared > 0)
	})
}
