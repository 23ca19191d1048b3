package c07

import (
	"context"
	"fmt"
	"testing"
	"time"

	"github.com/gernest/requiemdb/internal/zzverif/kit"
	"pgregory.net/rapid"
)

// Any number of small samples accepted before a shutdown is found after it.
func TestBurst(t *testing.T) {
	kit.Run(t, func(c *kit.Case) {
		ctx := context.Background()
		dir := c.Dir()
		m := &kit.Model{}
		base := time.Date(2024, 12, 31, 22, 10, 0, 0, time.UTC)
		most := 0
		for s := rapid.IntRange(1, 2).Draw(c.T, "sessions"); s > 0; s-- {
			n, err := kit.OpenParts(dir, false)
			c.Must(err, "open")
			svc, err := n.Service(ctx)
			c.Must(err, "service")
			count := kit.Of(c.T, "count", []int{1, 15, 16, 17, 99, 100, 255, 257, 999, 1000, 1023, 1025, 2049, 4095, 4096, 4097, 5000})
			if s == 1 && rapid.Bool().Draw(c.T, "more") {
				count = rapid.IntRange(1, 5000).Draw(c.T, "count")
			}
			most = max(most, count)
			kind := kit.Kind(rapid.IntRange(0, 2).Draw(c.T, "kind"))
			hours := rapid.IntRange(1, 4).Draw(c.T, "hours")
			c.Logf("%d %s over %d hours", count, kind, hours)
			for i := 0; i < count; i++ {
				d := kit.Small(kind, base.Add(time.Duration(i%hours)*time.Hour), fmt.Sprintf("%d-%d", s, i))
				m.Add(uint64(len(m.All)+1), kit.Clone(d))
				c.Must(kit.Export(ctx, svc, d), "export")
			}
			svc.Close()
			c.Must(n.CloseParts(), "close")
		}
		n, err := kit.Open(dir, false)
		c.Must(err, "open")
		defer n.Close()
		if d := kit.Bulk(n.Store.Scan, m, 97); d != "" {
			c.Fatalf("after the restart: %s", d)
		}
		c.ClassIf(most > 4096, "more than 4096 samples in one session")
		c.NonTrivialIf(len(m.All) > 1)
	})
}
