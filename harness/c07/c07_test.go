// Durability: everything accepted before a clean shutdown is there after any
// number of restarts, whether it was flushed or still buffered.
package c07

import (
	"context"
	"testing"
	"time"

	v1 "github.com/gernest/requiemdb/gen/go/rq/v1"
	"github.com/gernest/requiemdb/internal/zzverif/kit"
	"google.golang.org/protobuf/proto"
	"pgregory.net/rapid"
)

func TestProperty(t *testing.T) {
	kit.Run(t, func(c *kit.Case) {
		dir := c.Dir()
		clock := kit.NewClock(c.T)
		hours := []time.Time{clock.Hour(), clock.Hour()}
		m := &kit.Model{}
		ctx := context.Background()
		var id uint64
		draw := func() *v1.Data {
			hour := kit.Of(c.T, "hour", hours)
			g := &kit.Gen{T: c.T, MaxResources: 1, MaxScopes: 2, MaxMetrics: 2, MaxPoints: 2, Lean: true,
				Time: func() uint64 { return uint64(clock.In(hour).UnixNano()) }}
			return g.Data(kit.Kind(rapid.IntRange(0, 2).Draw(c.T, "kind")))
		}
		sessions := rapid.IntRange(2, 4).Draw(c.T, "sessions")
		buffered, stored := 0, 0
		var open *kit.Node
		c.Cleanup(func() {
			if open != nil {
				open.CloseParts()
			}
		})
		for s := 0; s < sessions; s++ {
			n, err := kit.OpenParts(dir, false)
			c.Must(err, "open")
			open = n
			svc := rapid.Bool().Draw(c.T, "service")
			batches := rapid.IntRange(0, 2).Draw(c.T, "batches")
			c.Logf("session %d service=%v", s, svc)
			if svc {
				x, err := n.Service(ctx)
				c.Must(err, "service")
				if d := kit.Verify(x.ScanSamples, m); d != "" {
					c.Fatalf("service after restart %d: %s", s, d)
				}
				for b := 0; b < batches; b++ {
					d := draw()
					keep := proto.Clone(d).(*v1.Data)
					c.Must(kit.Export(ctx, x, d), "export")
					id++
					c.Logf("exported %d: %v", id, keep)
					m.Add(id, keep)
					buffered++
				}
				x.Close()
			} else {
				c.Must(n.OpenStore(), "store")
				if d := kit.Verify(n.Store.Scan, m); d != "" {
					c.Fatalf("store after restart %d: %s", s, d)
				}
				for b := 0; b < batches; b++ {
					ds := []*v1.Data{draw()}
					if rapid.Bool().Draw(c.T, "two") {
						ds = append(ds, draw())
					}
					for _, d := range ds {
						id++
						m.Add(id, d)
						stored++
						c.Logf("saved %d: %v", id, d)
					}
					_, err := n.Save(ds...)
					c.Must(err, "save")
				}
				if rapid.IntRange(0, 2).Draw(c.T, "verify") == 0 {
					if d := kit.Verify(n.Store.Scan, m); d != "" {
						c.Fatalf("store in session %d: %s", s, d)
					}
				}
				c.Must(n.Store.Close(), "close store")
			}
			open = nil
			c.Must(n.CloseParts(), "close")
		}
		n, err := kit.Open(dir, false)
		c.Must(err, "open")
		defer n.Close()
		if d := kit.Verify(n.Store.Scan, m); d != "" {
			c.Fatalf("store after the last restart: %s", d)
		}
		c.ClassIf(buffered > 0, "samples buffered at shutdown")
		c.ClassIf(stored > 0, "samples stored before shutdown")
		c.ClassIf(buffered > 0 && stored > 0, "both")
		c.NonTrivialIf(len(m.All) > 1)
	})
}
