// Trimming: a query keeps exactly the points that it asks for.
package c16

import (
	"testing"
	"time"

	v1 "github.com/gernest/requiemdb/gen/go/rq/v1"
	"github.com/gernest/requiemdb/internal/visit"
	"github.com/gernest/requiemdb/internal/zzverif/kit"
	"google.golang.org/protobuf/proto"
	"pgregory.net/rapid"
)

func TestProperty(t *testing.T) {
	kit.Run(t, func(c *kit.Case) {
		clock := kit.NewClock(c.T)
		hour := clock.Hour()
		g := &kit.Gen{T: c.T, MaxResources: 3, MaxScopes: 2, MaxMetrics: 3, MaxPoints: 3, NilValues: true, NaN: true,
			Lean: rapid.Bool().Draw(c.T, "lean"),
			Time: func() uint64 { return uint64(clock.In(hour).UnixNano()) },
			End: func(s uint64) uint64 {
				return s + uint64(kit.Of(c.T, "took", []time.Duration{0, 1, time.Minute, 24 * time.Hour}))
			}}
		dropped, kept := 0, 0
		fails := map[string]bool{}
		alike := false
		for q := rapid.IntRange(1, 3).Draw(c.T, "queries"); q > 0; q-- {
			k := kit.Of(c.T, "kind", []kit.Kind{kit.KMetrics, kit.KLogs, kit.KTraces})
			d := g.Data(k)
			twins := kit.DrawTwins(c.T, 6, map[string][]int{"names": {0}, "schemas": {0}, "scopes": {0}, "version": {0}, "levels": {0}, "keys": {8}, "values": {9, 9, 12, 11, 10, 13, 20}})
			kit.Rename(d, twins)
			alike = alike || twins != nil
			m := &kit.Model{}
			m.Add(0, d)
			keep := proto.Clone(d).(*v1.Data)
			v := visit.New()
			for i := rapid.IntRange(1, 2).Draw(c.T, "uses"); i > 0; i-- {
				fs := m.Filters(c.T, k, 3)
				// an unusual bound is a point in time of the data
				bound := func(name string, def time.Time) uint64 {
					ps := m.All[0]
					all := kit.Points(ps.Data)
					if len(all) > 0 && rapid.IntRange(0, 3).Draw(c.T, name) == 0 {
						return kit.Of(c.T, "point", all).Time + uint64(rapid.IntRange(0, 2).Draw(c.T, "around")) - 1
					}
					return uint64(def.UnixNano())
				}
				start, end := bound("start", hour), bound("end", hour.Add(time.Hour))
				v.Compile(fs...)
				v.SetTimeRange(start, end)
				if s, e := v.TimeRange(); s != start || e != end {
					c.Fatalf("time range [%d, %d) became [%d, %d)", start, end, s, e)
				}
				c.Logf("[%d, %d) filters %v: %v", start, end, fs, keep)
				var want []*kit.Point
				all := kit.Points(keep)
				for _, p := range all {
					if kit.Accepts(p, fs, start, end) {
						want = append(want, p)
						kept++
					} else {
						dropped++
					}
				}
				for _, f := range fs {
					if !kit.Accepts(&kit.Point{}, []*v1.Scan_Filter{f}, 0, 1) {
						fails[f.String()] = true
					}
				}
				for again := 0; again < 2; again++ {
					got := v.Visit(d)
					gk, ok := kit.KindOf(got)
					if !ok || gk != k {
						c.Fatalf("%s became %v", k, got)
					}
					if s := kit.Diff(want, kit.Points(got)); s != "" {
						c.Fatalf("filters %v [%d, %d) of\n%v\n%s", fs, start, end, keep, s)
					}
					if s := kit.DiffOrder(want, kit.Points(got), nil); s != "" {
						c.Fatalf("filters %v [%d, %d) of\n%v\n%s", fs, start, end, keep, s)
					}
					if !proto.Equal(keep, d) {
						c.Fatalf("the input changed\nfrom %v\nto   %v", keep, d)
					}
				}
				v.Reset()
			}
			v.Release()
			if got := (*visit.All)(nil).Visit(d); !proto.Equal(got, keep) {
				c.Fatalf("without a visitor %v became %v", keep, got)
			}
		}
		c.ClassIf(kept > 0 && dropped > 0, "some points are kept and some are not")
		c.ClassIf(kept > 0 && len(fails) > 0, "kept with filters")
		c.ClassIf(len(fails) > 1, "several filters")
		c.ClassIf(alike && kept > 0 && dropped > 0, "different texts with the same hash")
		c.NonTrivialIf(kept > 0 && dropped > 0)
	})
}
