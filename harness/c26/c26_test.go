// The server process: what it acknowledges is there in later runs of it.
package c26

import (
	"context"
	"fmt"
	"os"
	"path/filepath"
	"strconv"
	"strings"
	"sync"
	"syscall"
	"testing"
	"time"

	v1 "github.com/gernest/requiemdb/gen/go/rq/v1"
	"github.com/gernest/requiemdb/internal/zzverif/kit"
	"google.golang.org/grpc"
	_ "google.golang.org/grpc/encoding/gzip"
	"pgregory.net/rapid"
)

func TestProperty(t *testing.T) {
	kit.Slow = 5 * time.Minute
	kit.Run(t, func(c *kit.Case) {
		ctx := context.Background()
		dir := c.Dir()
		clock := kit.NewClock(c.T)
		hours := []time.Time{clock.Hour(), clock.Hour()}
		m := &kit.Model{}
		var p *kit.Process
		c.Cleanup(func() {
			if p != nil {
				p.Stop(syscall.SIGKILL)
			}
		})
		tags := 0
		draw := func() *v1.Data {
			hour := kit.Of(c.T, "hour", hours)
			g := &kit.Gen{T: c.T, MaxResources: 2, MaxScopes: 1, MaxMetrics: 2, MaxPoints: 2, Lean: true,
				Time: func() uint64 { return uint64(clock.In(hour).UnixNano()) }}
			d := g.Data(kit.Kind(rapid.IntRange(0, 2).Draw(c.T, "kind")))
			kit.Own(d)
			for _, x := range kit.Points(d) {
				tags++
				kit.Tag(x, fmt.Sprint(tags))
			}
			return d
		}
		var opts []grpc.CallOption
		if z := kit.Of(c.T, "compress", []string{"", "zstd", "gzip"}); z != "" {
			opts = append(opts, grpc.UseCompressor(z))
			c.Class("requests in " + z)
		}
		sessions, busy, killed := rapid.IntRange(1, 3).Draw(c.T, "sessions"), 0, 0
		for s := 0; s <= sessions; s++ {
			var err error
			p, err = kit.Start(dir, opts...)
			c.Must(err, fmt.Sprintf("start %d", s))
			if d := kit.VerifyOwn(ctx, p.ScanSamples, m); d != "" {
				c.Fatalf("run %d of the server: %s", s+1, d)
			}
			if s == sessions {
				break
			}
			var mu sync.Mutex
			var ack, maybe []*v1.Data
			send := func(d *v1.Data) error {
				keep := kit.Clone(d)
				x, cancel := context.WithTimeout(ctx, 20*time.Second)
				defer cancel()
				err := p.Export(x, d)
				mu.Lock()
				defer mu.Unlock()
				if err == nil {
					ack = append(ack, keep)
				} else {
					maybe = append(maybe, keep)
				}
				return err
			}
			for i := rapid.IntRange(0, 3).Draw(c.T, "exports"); i > 0; i-- {
				d := draw()
				c.Logf("session %d: %v", s, d)
				c.Must(send(d), "export")
			}
			sig := kit.Of(c.T, "signal", []syscall.Signal{syscall.SIGINT, syscall.SIGTERM, syscall.SIGKILL})
			if sig == syscall.SIGKILL && s+1 < sessions {
				// what is buffered is lost, what was stored is not
				c.Logf("killed")
				killed++
				ack, maybe = nil, nil
				p.Stop(sig)
				p = nil
				if kind := kit.Of(c.T, "creating", []string{"", ".mem", ".vlog"}); kind != "" {
					// killed when it had created the next log
					ls, err := filepath.Glob(filepath.Join(dir, "node/data/db/*"+kind))
					c.Must(err, "list")
					last := strings.TrimSuffix(filepath.Base(ls[len(ls)-1]), kind)
					no, err := strconv.Atoi(last)
					c.Must(err, "number")
					name := filepath.Join(dir, "node/data/db", fmt.Sprintf("%0*d%s", len(last), no+1, kind))
					c.Must(os.WriteFile(name, nil, 0o666), "create")
					c.Logf("when it created %s", filepath.Base(name))
					c.Class("killed when it created a " + kind)
				}
				continue
			}
			if sig == syscall.SIGKILL {
				sig = syscall.SIGTERM
			}
			var wg sync.WaitGroup
			if rapid.Bool().Draw(c.T, "busy") {
				// clients that send while the server stops
				busy++
				first := make(chan bool, 4)
				for i := rapid.IntRange(1, 4).Draw(c.T, "clients"); i > 0; i-- {
					kind := kit.Kind(rapid.IntRange(0, 2).Draw(c.T, "kind"))
					at := kit.Of(c.T, "hour", hours).Add(time.Minute)
					wg.Add(1)
					name := fmt.Sprintf("s%d-c%d-", s, i)
					go func() {
						defer wg.Done()
						for j := 0; j < 400; j++ {
							d := kit.Small(kind, at, fmt.Sprint(name, j))
							kit.Own(d)
							err := send(d)
							if j == 5 || err != nil {
								select {
								case first <- true:
								default:
								}
							}
							if err != nil {
								return
							}
						}
					}()
				}
				<-first
			}
			c.Logf("session %d ends with %s", s, sig)
			err = p.Stop(sig)
			p = nil
			c.Must(err, "stop")
			wg.Wait()
			for _, d := range ack {
				m.Add(uint64(len(m.All)+1), d)
			}
			if len(maybe) > 0 {
				// the answer was lost, not the sample
				q, err := kit.Start(dir)
				c.Must(err, "start")
				for _, d := range maybe {
					x := kit.NewStored(0, d)
					h := kit.Floor(x.At(), 'H')
					id := kit.Attr(v1.Scan_RESOURCE_ATTRIBUTES, "id", kit.Points(d)[0].Resource.Attributes[0].Value.GetStringValue())
					got, err := q.ScanSamples(ctx, kit.Range(x.Kind, h, h.Add(time.Hour), id))
					c.Must(err, "scan")
					if len(kit.Points(got)) > 0 {
						m.Add(uint64(len(m.All)+1), d)
					}
				}
				c.Must(q.Stop(syscall.SIGINT), "stop")
			}
		}
		c.Must(script(c, p, dir, m), "script")
		err := p.Stop(syscall.SIGTERM)
		p = nil
		c.Must(err, "stop")
		c.ClassIf(busy > 0, "stopped while clients send")
		c.ClassIf(killed > 0, "killed")
		c.ClassIf(sessions > 1, "several sessions")
		c.NonTrivialIf(len(m.All) > 0)
	})
}

// script runs a script of the command line against the server.
func script(c *kit.Case, p *kit.Process, dir string, m *kit.Model) error {
	src, check := kit.MetricsScript(m)
	if src == "" {
		return nil
	}
	file := filepath.Join(dir, "script.ts")
	if err := os.WriteFile(file, []byte(src), 0600); err != nil {
		return err
	}
	out, err := kit.Client(dir, nil, "query", "--remoteAddress", p.Addr, file)
	if err != nil {
		return err
	}
	c.Class("a script that sees the data")
	return check(out)
}
