// Concurrency: nothing is lost, duplicated or seen in part while clients export
// and query at the same time.
package c09

import (
	"context"
	"fmt"
	"sync"
	"sync/atomic"
	"testing"
	"time"

	v1 "github.com/gernest/requiemdb/gen/go/rq/v1"
	"github.com/gernest/requiemdb/internal/zzverif/kit"
	"google.golang.org/protobuf/proto"
	"pgregory.net/rapid"
)

type source struct {
	clock *kit.Clock
	hours []time.Time
	n     int
}

func newSource(c *kit.Case) *source {
	s := &source{clock: kit.NewClock(c.T)}
	s.hours = []time.Time{s.clock.Hour(), s.clock.Hour()}
	return s
}

// draw a sample whose points are unlike those of all other samples.
func (s *source) draw(c *kit.Case, kinds ...kit.Kind) *v1.Data {
	hour := kit.Of(c.T, "hour", s.hours)
	g := &kit.Gen{T: c.T, MaxResources: 1, MaxScopes: 2, MaxMetrics: 2, MaxPoints: 2, Lean: true,
		Time: func() uint64 { return uint64(s.clock.In(hour).UnixNano()) }}
	d := g.Data(kit.Of(c.T, "kind", kinds))
	s.n++
	for _, p := range kit.Points(d) {
		kit.Tag(p, fmt.Sprint("sample-", s.n))
	}
	return d
}

var all = []kit.Kind{kit.KMetrics, kit.KLogs, kit.KTraces}

// Several clients export and query, then the service shuts down.
func TestExports(t *testing.T) {
	kit.Run(t, func(c *kit.Case) {
		src := newSource(c)
		n, err := kit.OpenParts(c.Dir(), true)
		c.Must(err, "open")
		defer n.CloseParts()
		ctx := context.Background()
		m := &kit.Model{}
		// samples of an earlier session
		c.Must(n.OpenStore(), "store")
		var first []*v1.Data
		for i := rapid.IntRange(0, 2).Draw(c.T, "before"); i > 0; i-- {
			first = append(first, src.draw(c, all...))
		}
		if len(first) > 0 {
			ss, err := n.Save(first...)
			c.Must(err, "save")
			for i, s := range ss {
				m.Add(s.Id, first[i])
			}
		}
		c.Must(n.Store.Close(), "close store")
		n.Store = nil
		svc, err := n.Service(ctx)
		c.Must(err, "service")
		clients := rapid.IntRange(2, 4).Draw(c.T, "clients")
		work := make([][]*v1.Data, clients)
		total := 0
		for i := range work {
			for k := rapid.IntRange(1, 4).Draw(c.T, "exports"); k > 0; k-- {
				work[i] = append(work[i], src.draw(c, all...))
				total++
			}
		}
		c.Logf("%d clients: %v", clients, work)
		before := &kit.Model{All: m.All}
		for _, ds := range work {
			for _, d := range ds {
				m.Add(1<<40+uint64(len(m.All)), d)
			}
		}
		var wg sync.WaitGroup
		errs := make(chan error, 64)
		stop := make(chan struct{})
		for i := range work {
			wg.Add(1)
			go func() {
				defer wg.Done()
				for _, d := range work[i] {
					if err := kit.Export(ctx, svc, proto.Clone(d).(*v1.Data)); err != nil {
						errs <- err
					}
				}
			}()
		}
		var rg sync.WaitGroup
		for i := 0; i < 2; i++ {
			rg.Add(1)
			go func() {
				defer rg.Done()
				for {
					select {
					case <-stop:
						return
					default:
					}
					if d := kit.Verify(svc.ScanSamples, before); d != "" {
						errs <- fmt.Errorf("query during exports: %s", d)
						return
					}
				}
			}()
		}
		wg.Wait()
		close(stop)
		rg.Wait()
		svc.Close()
		select {
		case err := <-errs:
			c.Fatalf("%v", err)
		default:
		}
		c.Must(n.OpenStore(), "store")
		defer n.Store.Close()
		for _, k := range all {
			var want []*kit.Stored
			for _, s := range m.All {
				if s.Kind == k {
					want = append(want, s)
				}
			}
			got, err := n.Store.Scan(ctx, kit.Range(k, time.Unix(0, 0), time.Date(2200, 1, 1, 0, 0, 0, 0, time.UTC)))
			c.Must(err, "scan")
			if d := kit.Diff(kit.AllPoints(want), kit.Points(got)); d != "" {
				c.Fatalf("%s after %d clients exported %d samples: %s", k, clients, total, d)
			}
		}
		c.ClassIf(clients > 2, "more than two clients")
		c.ClassIf(len(first) > 0, "queries find samples")
		c.NonTrivialIf(total > 2)
	})
}

// One writer saves batches while readers query. A query finds all samples that
// were saved before it started, and each sample as a whole.
func TestReaders(t *testing.T) {
	kit.Run(t, func(c *kit.Case) {
		src := newSource(c)
		n, err := kit.Open(c.Dir(), true)
		c.Must(err, "open")
		defer n.Close()
		k := kit.Of(c.T, "signal", all)
		var batches [][]*v1.Data
		for i := rapid.IntRange(1, 4).Draw(c.T, "batches"); i > 0; i-- {
			var ds []*v1.Data
			for j := rapid.IntRange(1, 3).Draw(c.T, "samples"); j > 0; j-- {
				ds = append(ds, src.draw(c, k, k, kit.KLogs))
			}
			batches = append(batches, ds)
			c.Logf("%v", ds)
		}
		lo, hi := time.Unix(0, 0), time.Date(2200, 1, 1, 0, 0, 0, 0, time.UTC)
		if rapid.Bool().Draw(c.T, "hour") {
			lo = kit.Of(c.T, "hour", src.hours)
			hi = lo.Add(time.Hour)
		}
		// models of all samples in the order of saving
		var ms []*kit.Stored
		var upto []int
		for _, ds := range batches {
			for _, d := range ds {
				ms = append(ms, kit.NewStored(uint64(len(ms)), d))
			}
			upto = append(upto, len(ms))
		}
		var acked, started atomic.Int64
		errs := make(chan error, 16)
		done := make(chan struct{})
		var wg sync.WaitGroup
		var during atomic.Int64
		for i := 0; i < 3; i++ {
			wg.Add(1)
			go func() {
				defer wg.Done()
				for last := false; !last; {
					select {
					case <-done:
						last = true
					default:
					}
					a := acked.Load()
					got, err := n.Store.Scan(context.Background(), kit.Range(k, lo, hi))
					b := started.Load()
					if err != nil {
						errs <- fmt.Errorf("scan: %w", err)
						return
					}
					if b > a {
						during.Add(1)
					}
					if err := explain(ms, int(a), int(b), k, lo, hi, got); err != nil {
						errs <- err
						return
					}
				}
			}()
		}
		for i, ds := range batches {
			var cp []*v1.Data
			for _, d := range ds {
				cp = append(cp, proto.Clone(d).(*v1.Data))
			}
			started.Store(int64(upto[i]))
			if _, err := n.Save(cp...); err != nil {
				errs <- fmt.Errorf("save: %w", err)
				break
			}
			acked.Store(int64(upto[i]))
		}
		close(done)
		wg.Wait()
		select {
		case err := <-errs:
			c.Fatalf("%v", err)
		default:
		}
		c.ClassIf(during.Load() > 0, "query during a save")
		c.NonTrivialIf(len(ms) > 1 && during.Load() > 0)
	})
}

func explain(ms []*kit.Stored, acked, started int, k kit.Kind, lo, hi time.Time, got *v1.Data) error {
	have := map[string]int{}
	for _, p := range kit.Points(got) {
		have[p.Key()]++
	}
	for i, s := range ms[:started] {
		if s.Kind != k || !kit.Touches(lo, hi, s.At()) {
			continue
		}
		need := map[string]int{}
		for _, p := range kit.Points(s.Data) {
			need[p.Key()]++
		}
		found := 0
		for key, n := range need {
			// points of a sample are unlike those of others
			if have[key] == n {
				found++
			} else if have[key] != 0 {
				return fmt.Errorf("point %s of sample %d is returned %d times, it was saved %d times", key, i, have[key], n)
			}
		}
		if found != 0 && found != len(need) {
			return fmt.Errorf("query returned %d of %d points of sample %d", found, len(need), i)
		}
		if found == 0 && len(need) > 0 && i < acked {
			return fmt.Errorf("sample %d was saved before the query started and is not in its result: %v", i, s.Data)
		}
		for key := range need {
			delete(have, key)
		}
	}
	if len(have) > 0 {
		return fmt.Errorf("query returned %d points that were not saved: %v", len(have), got)
	}
	return nil
}

// A running service saves what it accepted about once a minute, while clients go
// on exporting.
func TestTicker(t *testing.T) {
	kit.Slow = 6 * time.Minute
	kit.Run(t, func(c *kit.Case) {
		src := newSource(c)
		n, err := kit.OpenParts(c.Dir(), true)
		c.Must(err, "open")
		defer n.CloseParts()
		ctx, cancel := context.WithCancel(context.Background())
		defer cancel()
		svc, err := n.Service(ctx)
		c.Must(err, "service")
		var before []*v1.Data
		for i := rapid.IntRange(1, 5).Draw(c.T, "samples"); i > 0; i-- {
			before = append(before, src.draw(c, all...))
		}
		var during []*v1.Data
		for i := 0; i < 60; i++ {
			during = append(during, src.draw(c, all...))
		}
		svc.Start(ctx)
		start := time.Now()
		m := &kit.Model{}
		for _, d := range before {
			c.Must(kit.Export(ctx, svc, proto.Clone(d).(*v1.Data)), "export")
			m.Add(uint64(len(m.All)), d)
			c.Logf("%v", d)
		}
		stop := make(chan struct{})
		exported := make(chan int)
		go func() {
			// all around the minute
			for i, d := range during {
				wait := 58*time.Second + time.Duration(i)*50*time.Millisecond - time.Since(start)
				select {
				case <-stop:
					exported <- i
					return
				case <-time.After(wait):
				}
				kit.Export(ctx, svc, proto.Clone(d).(*v1.Data))
			}
			exported <- len(during)
		}()
		missing := ""
		for time.Since(start) < 110*time.Second {
			time.Sleep(time.Second)
			missing = ""
			for _, s := range m.All {
				h := kit.Floor(s.At(), 'H')
				got, err := svc.ScanSamples(ctx, kit.Range(s.Kind, h, h.Add(time.Hour)))
				if err != nil {
					missing = err.Error()
					break
				}
				have := map[string]bool{}
				for _, p := range kit.Points(got) {
					have[p.Key()] = true
				}
				for _, p := range kit.Points(s.Data) {
					if !have[p.Key()] {
						missing = p.String()
					}
				}
			}
			if missing == "" && time.Since(start) > 62*time.Second {
				break
			}
		}
		close(stop)
		done := <-exported
		if missing != "" {
			c.Fatalf("accepted %s ago and still not found: %s", time.Since(start), missing)
		}
		for _, d := range during[:done] {
			m.Add(uint64(len(m.All)), d)
		}
		svc.Close()
		c.Must(n.OpenStore(), "store")
		defer n.Store.Close()
		for _, k := range all {
			var want []*kit.Stored
			for _, s := range m.All {
				if s.Kind == k {
					want = append(want, s)
				}
			}
			got, err := n.Store.Scan(context.Background(), kit.Range(k, time.Unix(0, 0), time.Date(2200, 1, 1, 0, 0, 0, 0, time.UTC)))
			c.Must(err, "scan")
			if d := kit.Diff(kit.AllPoints(want), kit.Points(got)); d != "" {
				c.Fatalf("%s after %d exports around the flush: %s", k, done, d)
			}
		}
		c.NonTrivialIf(done > 10)
	})
}
