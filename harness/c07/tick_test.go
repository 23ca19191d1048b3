package c07

import (
	"context"
	"fmt"
	"path/filepath"
	"sync"
	"testing"
	"time"

	"github.com/gernest/requiemdb/internal/zzverif/kit"
	"pgregory.net/rapid"
)

// A service is told to stop around the moment it begins to save in the
// background, which it does about once a minute, and what it accepted in the
// meantime is found like the rest. Several nodes share the wait.
func TestTick(t *testing.T) {
	kit.Slow = 6 * time.Minute
	kit.Run(t, func(c *kit.Case) {
		base := time.Date(2024, 12, 31, 22, 10, 0, 0, time.UTC)
		type node struct {
			dir          string
			before, then int
			hours        int
			at           time.Duration
			ticks        bool // also when it has been told to stop saving in the background
			m            *kit.Model
			err          error
		}
		root := c.Dir()
		ns := make([]*node, 10)
		for i := range ns {
			ns[i] = &node{dir: filepath.Join(root, fmt.Sprint(i)), before: rapid.IntRange(200, 2500).Draw(c.T, "before"), then: rapid.IntRange(1, 20).Draw(c.T, "then"),
				hours: rapid.IntRange(1, 48).Draw(c.T, "hours"), ticks: rapid.Bool().Draw(c.T, "ticks"), m: &kit.Model{},
				// after the minute, in steps that get longer
				at: time.Duration(i*i)*15*time.Millisecond + time.Duration(rapid.IntRange(0, 30).Draw(c.T, "ms"))*time.Millisecond}
			c.Logf("node %d: %d samples over %d hours, %d more at %s", i, ns[i].before, ns[i].hours, ns[i].then, ns[i].at)
		}
		run := func(i int, x *node) error {
			ctx, cancel := context.WithCancel(context.Background())
			defer cancel()
			n, err := kit.OpenParts(x.dir, false)
			if err != nil {
				return err
			}
			svc, err := n.Service(ctx)
			if err != nil {
				return err
			}
			save := func() error {
				j := len(x.m.All)
				d := kit.Small(kit.Kind((i+j)%3), base.Add(time.Duration(j%x.hours)*time.Hour), fmt.Sprintf("%d-%d", i, j))
				x.m.Add(uint64(j+1), kit.Clone(d))
				return kit.Export(ctx, svc, d)
			}
			svc.Start(ctx)
			begin := time.Now()
			for j := 0; j < x.before; j++ {
				if err := save(); err != nil {
					return err
				}
			}
			time.Sleep(time.Minute + x.at - time.Since(begin))
			for j := 0; j < x.then; j++ {
				if err := save(); err != nil {
					return err
				}
			}
			if !x.ticks {
				cancel()
			}
			svc.Close()
			return n.CloseParts()
		}
		var wg sync.WaitGroup
		for i, x := range ns {
			wg.Add(1)
			go func() {
				defer wg.Done()
				x.err = run(i, x)
			}()
		}
		wg.Wait()
		for i, x := range ns {
			c.Must(x.err, "session")
			n, err := kit.Open(x.dir, false)
			c.Must(err, "open")
			d := kit.Bulk(n.Store.Scan, x.m, 97)
			n.Close()
			if d != "" {
				c.Fatalf("node %d after the restart: %s", i, d)
			}
		}
		c.NonTrivialIf(true)
	})
}
