// Lossless storage: what was saved is what scans return.
package c01

import (
	"context"
	"fmt"
	"testing"
	"time"

	v1 "github.com/gernest/requiemdb/gen/go/rq/v1"
	"github.com/gernest/requiemdb/internal/zzverif/kit"
	"google.golang.org/protobuf/proto"
	"pgregory.net/rapid"
)

func TestProperty(t *testing.T) {
	kit.Run(t, func(c *kit.Case) {
		rt := c.T
		n, err := kit.Open(c.Dir(), true)
		c.Must(err, "open")
		c.Cleanup(func() { n.Close() })
		clock := kit.NewClock(rt)
		m := &kit.Model{}
		ctx := context.Background()
		batches := rapid.IntRange(1, 3).Draw(rt, "batches")
		hours := map[time.Time]bool{}
		for b := 0; b < batches; b++ {
			var ds []*v1.Data
			for i := rapid.IntRange(1, 3).Draw(rt, "samples"); i > 0; i-- {
				hour := clock.Hour()
				g := &kit.Gen{T: rt, MaxResources: 2, MaxScopes: 2, MaxMetrics: 2, MaxPoints: 2, NaN: true, NilValues: true, Long: true,
					Time: func() uint64 { return uint64(clock.In(hour).UnixNano()) }}
				k := kit.Kind(rapid.IntRange(0, 2).Draw(rt, "kind"))
				ds = append(ds, g.Data(k))
			}
			var keep []*v1.Data
			for _, d := range ds {
				keep = append(keep, proto.Clone(d).(*v1.Data))
			}
			ss, err := n.Save(ds...)
			c.Must(err, "save")
			for i, s := range ss {
				x := m.Add(s.Id, keep[i])
				hours[kit.Floor(x.At(), 'H')] = true
				c.Logf("batch %d sample %d %s at %s..%d: %v", b, s.Id, x.Kind, x.At(), x.Hi, x.Data)
			}
			check(ctx, c, n, m)
		}
		pts := 0
		for _, s := range m.All {
			pts += len(kit.Points(s.Data))
		}
		c.ClassIf(batches > 1, "several batches")
		c.ClassIf(len(hours) > 1, "several hours")
		c.ClassIf(len(m.All) > 2, "more than two samples")
		c.NonTrivialIf(pts > 0 && len(m.All) > 1)
	})
}

func check(ctx context.Context, c *kit.Case, n *kit.Node, m *kit.Model) {
	for k := kit.KMetrics; k <= kit.KTraces; k++ {
		// each hour on its own, where a single sample comes back unchanged
		seen := map[time.Time]bool{}
		for _, s := range m.All {
			h := kit.Floor(s.At(), 'H')
			if s.Kind != k || seen[h] {
				continue
			}
			seen[h] = true
			want := m.Matching(k, h, h.Add(time.Hour), nil)
			got, err := n.Store.Scan(ctx, kit.Range(k, h, h.Add(time.Hour)))
			c.Must(err, "scan hour")
			if gk, ok := kit.KindOf(got); !ok || gk != k {
				c.Fatalf("scan of %s at %s returned %v", k, h, got)
			}
			if len(want) == 1 && !proto.Equal(kit.Normalize(got), kit.Normalize(want[0].Data)) {
				c.Fatalf("%s sample %d at %s\nsaved    %v\nreturned %v", k, want[0].ID, h, kit.Normalize(want[0].Data), kit.Normalize(got))
			}
			if d := kit.Diff(kit.AllPoints(want), kit.Points(got)); d != "" {
				c.Fatalf("scan of %s in the hour %s with samples %s\n%s", k, h, kit.IDs(want), d)
			}
		}
		// all of it
		var want []*kit.Stored
		lo, hi := time.Unix(0, 0).UTC(), time.Unix(0, 0).UTC()
		for _, s := range m.All {
			if s.Kind == k {
				want = append(want, s)
				if s.At().After(hi) {
					hi = s.At()
				}
			}
		}
		got, err := n.Store.Scan(ctx, kit.Range(k, lo, hi.Add(1)))
		c.Must(err, "scan everything")
		if gk, ok := kit.KindOf(got); !ok || gk != k {
			c.Fatalf("scan of all %s returned %v", k, got)
		}
		if d := kit.Diff(kit.AllPoints(want), kit.Points(got)); d != "" {
			c.Fatalf("scan of all %s with samples %s\n%s", k, kit.IDs(want), d)
		}
	}
}

// TestLate: a database that has stored more than 65536 samples.
func TestLate(t *testing.T) {
	kit.Slow = 5 * time.Minute
	kit.Run(t, func(c *kit.Case) {
		before := rapid.Uint64Range(0, 6).Draw(c.T, "before")
		n, err := kit.OpenLate(c.Dir(), 65536-before)
		c.Must(err, "open")
		c.Cleanup(func() { n.Close() })
		clock := kit.NewClock(c.T)
		hour := clock.Hour()
		m := &kit.Model{}
		for b := rapid.IntRange(1, 2).Draw(c.T, "batches"); b > 0; b-- {
			var ds []*v1.Data
			for i := rapid.IntRange(1, 8).Draw(c.T, "samples"); i > 0; i-- {
				ds = append(ds, kit.Small(kit.Kind(rapid.IntRange(0, 2).Draw(c.T, "kind")), clock.In(hour), fmt.Sprintf("s%d", len(m.All)+len(ds))))
			}
			ss, err := n.Save(ds...)
			c.Must(err, "save")
			for i, s := range ss {
				m.Add(s.Id, kit.Clone(ds[i]))
				c.Logf("sample %d: %v", s.Id, ds[i])
			}
		}
		if d := kit.Bulk(func(ctx context.Context, s *v1.Scan) (*v1.Data, error) { return n.Store.Scan(ctx, s) }, m, 4); d != "" {
			c.Fatalf("%s", d)
		}
		k := kit.Kind(rapid.IntRange(0, 2).Draw(c.T, "limited kind"))
		want := m.Matching(k, hour, hour.Add(time.Hour), nil)
		q := kit.Range(k, hour, hour.Add(time.Hour))
		q.Limit, q.Reverse = rapid.Uint64Range(1, 4).Draw(c.T, "limit"), rapid.Bool().Draw(c.T, "reverse")
		if n := int(q.Limit); n < len(want) && q.Reverse {
			want = want[len(want)-n:]
		} else if n < len(want) {
			want = want[:n]
		}
		got, err := n.Store.Scan(context.Background(), q)
		c.Must(err, "scan with a limit")
		if d := kit.Diff(kit.AllPoints(want), kit.Points(got)); d != "" {
			c.Fatalf("%v: want %s\n%s", q, kit.IDs(want), d)
		}
		first, last := m.All[0].ID, m.All[len(m.All)-1].ID
		c.ClassIf(first < 65536 && last >= 65536, "on both sides")
		c.NonTrivialIf(last >= 65536)
	})
}
