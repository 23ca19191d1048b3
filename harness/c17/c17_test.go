// Merging of samples: the points of all samples, once each, under one group for
// every resource.
package c17

import (
	"fmt"
	"testing"

	v1 "github.com/gernest/requiemdb/gen/go/rq/v1"
	"github.com/gernest/requiemdb/internal/data"
	"github.com/gernest/requiemdb/internal/zzverif/kit"
	commonv1 "go.opentelemetry.io/proto/otlp/common/v1"
	"google.golang.org/protobuf/proto"
	"pgregory.net/rapid"
)

func TestProperty(t *testing.T) {
	kit.Run(t, func(c *kit.Case) {
		clock := kit.NewClock(c.T)
		merged, several := 0, 0
		alike := false
		for round := rapid.IntRange(1, 2).Draw(c.T, "rounds"); round > 0; round-- {
			g := &kit.Gen{T: c.T, MaxResources: 3, MaxScopes: 3, MaxMetrics: 3, MaxPoints: 2, NilValues: true, NaN: true,
				Lean: rapid.Bool().Draw(c.T, "lean"),
				Time: func() uint64 { return uint64(clock.Any().UnixNano()) }}
			k := kit.Of(c.T, "kind", []kit.Kind{kit.KMetrics, kit.KLogs, kit.KTraces})
			var ds, keep []*v1.Data
			var want []*kit.Point
			var order []string
			twins := kit.DrawTwins(c.T, 6, map[string][]int{"names": {16}, "schemas": {8, 16}, "scopes": {24}, "version": {24}, "keys": {18}})
			alike = alike || twins != nil
			res, skip := map[string]int{}, map[string]bool{}
			most := map[string]int{}
			for i := rapid.IntRange(1, 5).Draw(c.T, "samples"); i > 0; i-- {
				var d *v1.Data
				if len(keep) > 0 && rapid.Bool().Draw(c.T, "like another") {
					d = proto.Clone(kit.Of(c.T, "other", keep)).(*v1.Data)
					change(c, d)
				} else {
					d = g.Data(k)
				}
				kit.Rename(d, twins)
				ds = append(ds, d)
				keep = append(keep, proto.Clone(d).(*v1.Data))
				c.Logf("%v", d)
				kit.Repeated(d, skip)
				for k, n := range kit.Groups(d) {
					most[k] = max(most[k], n)
				}
				want = append(want, kit.Points(keep[len(keep)-1])...)
				for _, r := range kit.AllResources(d) {
					if res[r] == 0 {
						order = append(order, r)
					}
					res[r]++
				}
			}
			c.Logf("--")
			got := data.Collapse(ds)
			if gk, ok := kit.KindOf(got); !ok || gk != k {
				c.Fatalf("%s became %v", k, got)
			}
			if s := kit.Diff(want, kit.Points(got)); s != "" {
				c.Fatalf("merge of %v\n%s", keep, s)
			}
			if s := kit.DiffOrder(want, kit.Points(got), skip); s != "" {
				c.Fatalf("merge of %v\n%s", keep, s)
			}
			if len(ds) > 1 {
				several++
				if r := kit.AllResources(got); fmt.Sprint(r) != fmt.Sprint(order) {
					c.Fatalf("merge of %v\nwant resources %v\ngot  resources %v", keep, order, r)
				}
				// Those that a sample itself has twice may stay apart.
				for k, n := range kit.Groups(got) {
					if n > most[k] {
						c.Fatalf("merge of %v\n%d groups of %s in\n%v", keep, n, k, got)
					}
				}
				for _, n := range res {
					if n > 1 {
						merged++
						break
					}
				}
			}
		}
		if x := data.Collapse(nil); x != nil {
			c.Fatalf("nothing became %v", x)
		}
		c.ClassIf(merged > 0, "same resource in several places")
		c.ClassIf(several > 1, "two merges in a row")
		c.ClassIf(alike && merged > 0, "different texts with the same hash")
		c.NonTrivialIf(merged > 0)
	})
}

// apart splits the first attribute with a key and a value.
func apart(c *kit.Case, kv []*commonv1.KeyValue) []*commonv1.KeyValue {
	if len(kv) == 0 || rapid.IntRange(0, 9).Draw(c.T, "apart") != 0 {
		return kv
	}
	o := []*commonv1.KeyValue{{Key: kv[0].Key}, {Value: kv[0].Value}}
	return append(o, kv[1:]...)
}

// change makes a small difference.
func change(c *kit.Case, d *v1.Data) {
	for _, r := range d.GetMetrics().GetResourceMetrics() {
		if r.Resource != nil {
			r.Resource.Attributes = apart(c, r.Resource.Attributes)
		}
		for _, s := range r.ScopeMetrics {
			if s.Scope != nil {
				s.Scope.Attributes = apart(c, s.Scope.Attributes)
			}
			for _, m := range s.Metrics {
				m.Metadata = apart(c, m.Metadata)
			}
		}
	}
	for _, r := range d.GetLogs().GetResourceLogs() {
		for _, s := range r.ScopeLogs {
			if s.Scope != nil {
				s.Scope.Attributes = apart(c, s.Scope.Attributes)
			}
		}
	}
	for _, r := range d.GetMetrics().GetResourceMetrics() {
		for _, s := range r.ScopeMetrics {
			for _, m := range s.Metrics {
				switch rapid.IntRange(0, 9).Draw(c.T, "change") {
				case 0:
					m.Unit += "x"
				case 1:
					m.Description, m.Unit = m.Description+m.Unit, ""
				case 2:
					m.Name, m.Description = m.Name+m.Description, ""
				case 3:
					if x := m.GetSum(); x != nil {
						x.IsMonotonic = !x.IsMonotonic
					}
				case 4:
					if x := m.GetSum(); x != nil {
						x.AggregationTemporality = (x.AggregationTemporality + 1) % 3
					}
					if x := m.GetHistogram(); x != nil {
						x.AggregationTemporality = (x.AggregationTemporality + 1) % 3
					}
					if x := m.GetExponentialHistogram(); x != nil {
						x.AggregationTemporality = (x.AggregationTemporality + 1) % 3
					}
				}
			}
			if x := s.Scope; x != nil && rapid.IntRange(0, 9).Draw(c.T, "change") == 0 {
				x.Name, x.Version = x.Name+x.Version, ""
			}
			if rapid.IntRange(0, 9).Draw(c.T, "change") == 0 {
				s.SchemaUrl, r.SchemaUrl = r.SchemaUrl, s.SchemaUrl
			}
		}
	}
	for _, r := range d.GetLogs().GetResourceLogs() {
		for _, s := range r.ScopeLogs {
			if x := s.Scope; x != nil && rapid.IntRange(0, 5).Draw(c.T, "change") == 0 {
				x.Name, x.Version = x.Name+x.Version, ""
			}
			if rapid.IntRange(0, 5).Draw(c.T, "change") == 0 {
				s.SchemaUrl, r.SchemaUrl = r.SchemaUrl, s.SchemaUrl
			}
		}
	}
	for _, r := range d.GetTraces().GetResourceSpans() {
		for _, s := range r.ScopeSpans {
			if x := s.Scope; x != nil && rapid.IntRange(0, 5).Draw(c.T, "change") == 0 {
				x.Name, x.Version = x.Name+x.Version, ""
			}
			if rapid.IntRange(0, 5).Draw(c.T, "change") == 0 {
				s.SchemaUrl, r.SchemaUrl = r.SchemaUrl, s.SchemaUrl
			}
		}
	}
}
