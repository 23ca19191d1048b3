package c09

import (
	"context"
	"fmt"
	"sync"
	"testing"
	"time"

	"github.com/gernest/requiemdb/internal/zzverif/kit"
	"pgregory.net/rapid"
)

// Many clients export small samples as fast as they can. Every sample is found
// under its own name and time.
func TestBurst(t *testing.T) {
	kit.Run(t, func(c *kit.Case) {
		n, err := kit.OpenParts(c.Dir(), true)
		c.Must(err, "open")
		defer n.CloseParts()
		ctx := context.Background()
		svc, err := n.Service(ctx)
		c.Must(err, "service")
		clients := rapid.IntRange(2, 24).Draw(c.T, "clients")
		each := rapid.IntRange(8, 60).Draw(c.T, "each")
		hours := rapid.IntRange(1, 6).Draw(c.T, "hours")
		kinds := make([]kit.Kind, clients)
		for i := range kinds {
			kinds[i] = kit.Of(c.T, "kind", all)
		}
		c.Logf("%d clients %v export %d samples each over %d hours", clients, kinds, each, hours)
		m := &kit.Model{}
		data := make([][]*kit.Stored, clients)
		base := time.Date(2024, 2, 28, 22, 10, 0, 0, time.UTC)
		for i := range data {
			for j := 0; j < each; j++ {
				s := m.Add(uint64(len(m.All)+1), kit.Small(kinds[i], base.Add(time.Duration((i+j)%hours)*time.Hour), fmt.Sprintf("%d-%d", i, j)))
				data[i] = append(data[i], s)
			}
		}
		var wg sync.WaitGroup
		errs := make(chan error, clients)
		start := make(chan struct{})
		for i := range data {
			wg.Add(1)
			go func() {
				defer wg.Done()
				<-start
				for _, s := range data[i] {
					if err := kit.Export(ctx, svc, kit.Clone(s.Data)); err != nil {
						errs <- err
						return
					}
				}
			}()
		}
		close(start)
		wg.Wait()
		svc.Close()
		select {
		case err := <-errs:
			c.Fatalf("export: %v", err)
		default:
		}
		c.Must(n.OpenStore(), "store")
		defer n.Store.Close()
		if d := kit.Bulk(n.Store.Scan, m, 97); d != "" {
			c.Fatalf("after %d clients exported %d samples each: %s", clients, each, d)
		}
		c.ClassIf(clients*each > 500, "more than 500 samples")
		c.NonTrivialIf(clients*each > 100)
	})
}
