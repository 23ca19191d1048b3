// Limit and reverse: a limited scan returns the first samples in the order of
// arrival, or the last ones in reverse.
package c06

import (
	"fmt"
	"testing"
	"time"

	v1 "github.com/gernest/requiemdb/gen/go/rq/v1"
	"github.com/gernest/requiemdb/internal/zzverif/kit"
	"pgregory.net/rapid"
)

func TestProperty(t *testing.T) {
	kit.Run(t, func(c *kit.Case) {
		h := kit.NewHistory(c)
		hours := []time.Time{h.Clock.Base, h.Clock.Base, h.Clock.Hour()}
		h.Hours = func() time.Time { return kit.Of(c.T, "hour", hours) }
		one := kit.Kind(rapid.IntRange(0, 2).Draw(c.T, "main"))
		h.Kinds = []kit.Kind{one, one, one, one, kit.KMetrics, kit.KLogs, kit.KTraces}
		h.Configure = func(g *kit.Gen) { g.MaxMetrics, g.MaxPoints = 1, 2 }
		h.Fill(3, 4)
		cut, reversed, above, ordered, huge := 0, 0, 0, 0, 0
		for i := 0; i < 10; i++ {
			fs := h.M.Filters(c.T, one, 1)
			start, end := h.Everything()
			if i%3 == 0 {
				start, end = h.Window()
			}
			s := kit.Range(one, start, end, fs...)
			all := h.M.Matching(one, start, end, fs)
			s.Limit = uint64(rapid.IntRange(0, len(all)+2).Draw(c.T, "limit"))
			if rapid.IntRange(0, 7).Draw(c.T, "huge") == 0 {
				// no limit at all, whatever its low bits are
				s.Limit += kit.Of(c.T, "beyond", []uint64{1 << 16, 1 << 31, 1 << 32, 1 << 33, 1 << 48, 1 << 62, 1 << 63, -uint64(len(all) + 3)})
				huge++
			}
			s.Reverse = rapid.Bool().Draw(c.T, "reverse")
			want := all
			if n := s.Limit; n > 0 && n < uint64(len(all)) {
				cut++
				want = all[:n]
				if s.Reverse {
					reversed++
					want = all[uint64(len(all))-n:]
				}
			} else if n > uint64(len(all)) {
				above++
			}
			got := h.Scan(s)
			if d := kit.Diff(kit.AllPoints(want), kit.Points(got)); d != "" {
				c.Fatalf("scan %v of samples %s must select %s\n%s", s, kit.IDs(all), kit.IDs(want), d)
			}
			unit := map[time.Time]bool{}
			var order []*kit.Point
			skip := map[string]bool{}
			for i := range want {
				x := want[i]
				if s.Reverse {
					x = want[len(want)-1-i]
				}
				unit[kit.Floor(x.At(), kit.Unit(end.Sub(start)))] = true
				kit.Repeated(x.Data, skip)
				order = append(order, kit.Points(x.Data)...)
			}
			if len(unit) > 1 {
				continue // order across units of time is by unit
			}
			if d := kit.DiffOrder(order, kit.Points(got), skip); d != "" {
				c.Fatalf("scan %v of samples %s: %s", s, kit.IDs(want), d)
			}
			var parts []*v1.Data
			for i := range want {
				x := want[i]
				if s.Reverse {
					x = want[len(want)-1-i]
				}
				parts = append(parts, x.Data)
			}
			if first, seen := kit.Resources(parts...), kit.Resources(got); fmt.Sprint(seen) != fmt.Sprint(first) {
				c.Fatalf("scan %v of samples %s\nwant resources %v\ngot  resources %v", s, kit.IDs(want), first, seen)
			}
			if len(want) > 1 {
				ordered++
			}
		}
		c.ClassIf(cut > 0, "limit below the number of matches")
		c.ClassIf(reversed > 0, "limit in reverse")
		c.ClassIf(above > 0, "limit above the number of matches")
		c.ClassIf(huge > 0, "limit of more than 16 bits")
		c.ClassIf(ordered > 0, "order of several samples compared")
		c.NonTrivialIf(cut > 0)
	})
}
