// Filters: a scan returns exactly samples that satisfy all of its filters.
package c02

import (
	"testing"
	"time"

	"github.com/gernest/requiemdb/internal/zzverif/kit"
	"pgregory.net/rapid"
)

func TestProperty(t *testing.T) {
	kit.Run(t, func(c *kit.Case) {
		h := kit.NewHistory(c)
		base := h.Clock.Base
		// few views: filters are what matters
		second := h.Clock.Hour()
		h.Hours = func() time.Time {
			if rapid.IntRange(0, 3).Draw(c.T, "second") == 0 {
				return second
			}
			return base
		}
		h.Configure = func(g *kit.Gen) { g.NilValues = true }
		one := kit.Kind(rapid.IntRange(0, 2).Draw(c.T, "main"))
		h.Kinds = []kit.Kind{one, one, one, kit.KMetrics, kit.KLogs, kit.KTraces}
		h.Fill(2, 4)
		some, none, multi, restrict := 0, 0, 0, 0
		for i := 0; i < 12; i++ {
			k := kit.Kind(rapid.IntRange(0, 2).Draw(c.T, "scan.kind"))
			if i < 8 {
				k = one
			}
			fs := h.M.Filters(c.T, k, 3)
			start, end := h.Everything()
			if i%3 == 0 {
				start, end = h.Window()
			}
			want := h.M.Matching(k, start, end, fs)
			got := h.Scan(kit.Range(k, start, end, fs...))
			if d := kit.Diff(kit.AllPoints(want), kit.Points(got)); d != "" {
				c.Fatalf("filters %v\nover [%s, %s) must select samples %s\n%s", fs, start, end, kit.IDs(want), d)
			}
			if len(fs) == 0 {
				continue
			}
			if len(want) > 0 {
				some++
				if len(fs) > 1 {
					multi++
				}
				if len(want) < len(h.M.Matching(k, start, end, nil)) {
					restrict++
				}
			} else {
				none++
			}
		}
		c.ClassIf(some > 0, "filter with a match")
		c.ClassIf(none > 0, "filter without a match")
		c.ClassIf(multi > 0, "several filters with a match")
		c.ClassIf(restrict > 0, "filter selects a strict subset")
		c.NonTrivialIf(some > 0 && none > 0)
	})
}
