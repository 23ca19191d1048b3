// Instant scans return the most recent matching sample of the last fifteen
// minutes, whole and alone.
package c05

import (
	"testing"
	"time"

	"github.com/gernest/requiemdb/internal/zzverif/kit"
	"google.golang.org/protobuf/proto"
	"pgregory.net/rapid"
)

func TestProperty(t *testing.T) {
	kit.Run(t, func(c *kit.Case) {
		h := kit.NewHistory(c)
		hours := []time.Time{h.Clock.Base, h.Clock.Base, h.Clock.Base.Add(time.Hour), h.Clock.Hour()}
		h.Hours = func() time.Time { return kit.Of(c.T, "hour", hours) }
		one := kit.Kind(rapid.IntRange(0, 2).Draw(c.T, "main"))
		h.Kinds = []kit.Kind{one, one, kit.KMetrics, kit.KLogs, kit.KTraces}
		h.Fill(3, 3)
		found, several, filtered, empty := 0, 0, 0, 0
		for i := 0; i < 10; i++ {
			k := one
			if i%4 == 3 {
				k = kit.Kind(rapid.IntRange(0, 2).Draw(c.T, "scan.kind"))
			}
			now := kit.Of(c.T, "now.of", h.M.All).At().Add(kit.Of(c.T, "now", []time.Duration{0, 1, time.Minute, 14 * time.Minute, 20 * time.Minute, time.Hour, 2 * time.Hour}))
			offset := kit.Of(c.T, "offset", []time.Duration{0, 0, time.Minute, time.Hour, 90 * time.Minute, -time.Hour})
			fs := h.M.Filters(c.T, k, 2)
			s := kit.Instant(k, now, offset, fs...)
			if rapid.IntRange(0, 3).Draw(c.T, "limit") == 0 {
				s.Limit = uint64(rapid.IntRange(1, 3).Draw(c.T, "limit.n"))
				s.Reverse = rapid.Bool().Draw(c.T, "limit.reverse")
			}
			end := now.Add(-offset)
			want := h.M.Matching(k, end.Add(-15*time.Minute), end, fs)
			got := h.Scan(s)
			if len(want) == 0 {
				empty++
				if ps := kit.Points(got); len(ps) > 0 {
					c.Fatalf("instant scan %v must be empty, got %v", s, got)
				}
				continue
			}
			found++
			if len(want) > 1 {
				several++
			}
			if len(fs) > 0 {
				filtered++
			}
			last := want[len(want)-1]
			if !proto.Equal(kit.Normalize(got), kit.Normalize(last.Data)) {
				c.Fatalf("instant scan %v must return sample %d of %s\nwant %v\ngot  %v", s, last.ID, kit.IDs(want), kit.Normalize(last.Data), kit.Normalize(got))
			}
		}
		c.ClassIf(found > 0, "found")
		c.ClassIf(several > 0, "several candidates")
		c.ClassIf(filtered > 0, "found with filters")
		c.ClassIf(empty > 0, "nothing to find")
		c.NonTrivialIf(several > 0)
	})
}
