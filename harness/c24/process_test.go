package c24

import (
	"context"
	"fmt"
	"os"
	"path/filepath"
	"syscall"
	"testing"
	"time"

	v1 "github.com/gernest/requiemdb/gen/go/rq/v1"
	"github.com/gernest/requiemdb/internal/zzverif/kit"
	commonv1 "go.opentelemetry.io/proto/otlp/common/v1"
	tracev1 "go.opentelemetry.io/proto/otlp/trace/v1"
	"pgregory.net/rapid"
)

var services = []string{"opentelemetry.proto.collector.metrics.v1.MetricsService/Export", "opentelemetry.proto.collector.logs.v1.LogsService/Export",
	"opentelemetry.proto.collector.trace.v1.TraceService/Export", "v1.RQ/ScanSamples"}

// TestProcess looks at what a server stores about itself: the calls that it
// answered in its life, the last ones right before it was told to stop.
func TestProcess(t *testing.T) {
	kit.Slow = 5 * time.Minute
	kit.Run(t, func(c *kit.Case) {
		type session struct {
			data []*v1.Data // nil is a scan
			sig  syscall.Signal
		}
		var all []session
		for s := rapid.IntRange(1, 2).Draw(c.T, "sessions"); s > 0; s-- {
			x := session{sig: kit.Of(c.T, "signal", []syscall.Signal{syscall.SIGINT, syscall.SIGTERM})}
			g := &kit.Gen{T: c.T, MaxResources: 1, MaxScopes: 1, MaxMetrics: 1, MaxPoints: 1, Lean: true}
			at := kit.NewClock(c.T).Any()
			g.Time = func() uint64 { return uint64(at.UnixNano()) }
			for i := rapid.IntRange(1, 6).Draw(c.T, "calls"); i > 0; i-- {
				if k := rapid.IntRange(0, 3).Draw(c.T, "call"); k < 3 {
					x.data = append(x.data, g.Data(kit.Kind(k)))
				} else {
					x.data = append(x.data, nil)
				}
			}
			all = append(all, x)
		}
		// A call is recorded after its client has the answer.
		attempt := func(name string, wait time.Duration) string {
			dir := filepath.Join(c.Dir(), name)
			c.Must(os.Mkdir(dir, 0700), "mkdir")
			ctx := context.Background()
			from := time.Now()
			want := map[string]int{}
			own := kit.Attr(v1.Scan_RESOURCE_ATTRIBUTES, "service.name", "requiemdb")
			for _, s := range all {
				p, err := kit.Start(dir)
				c.Must(err, "start")
				for _, d := range s.data {
					if d != nil {
						k, _ := kit.KindOf(d)
						want[services[k]]++
						err = p.Export(ctx, kit.Clone(d))
					} else {
						want[services[3]]++
						_, err = p.ScanSamples(ctx, kit.Range(kit.KMetrics, from.Add(-time.Hour), from))
					}
					c.Must(err, "call")
				}
				time.Sleep(wait)
				c.Must(p.Stop(s.sig), "stop")
			}
			to := time.Now() // what follows is of the server that is asked
			p, err := kit.Start(dir)
			c.Must(err, "start")
			defer p.Stop(syscall.SIGKILL)
			spans, counts := map[string]int{}, map[string]int{}
			d, err := p.ScanSamples(ctx, kit.Range(kit.KTraces, from.Add(-time.Minute), to.Add(time.Minute), own))
			c.Must(err, "scan")
			for _, r := range d.GetTraces().GetResourceSpans() {
				for _, s := range r.ScopeSpans {
					for _, x := range s.Spans {
						if x.StartTimeUnixNano >= uint64(to.UnixNano()) {
							continue
						}
						spans[x.Name]++
						if x.Kind != tracev1.Span_SPAN_KIND_SERVER || x.StartTimeUnixNano < uint64(from.UnixNano()) || x.EndTimeUnixNano > uint64(to.UnixNano()) || x.EndTimeUnixNano < x.StartTimeUnixNano {
							c.Fatalf("calls of %s to %s: span %v", from, to, x)
						}
					}
				}
			}
			d, err = p.ScanSamples(ctx, kit.Range(kit.KMetrics, from.Add(-time.Minute), to.Add(time.Minute), own, kit.Base(v1.Scan_NAME, "rpc.server.duration")))
			c.Must(err, "scan")
			for _, r := range d.GetMetrics().GetResourceMetrics() {
				for _, s := range r.ScopeMetrics {
					for _, m := range s.Metrics {
						if m.Name != "rpc.server.duration" {
							continue
						}
						// counts of one process grow: the last of each start counts
						last := map[string]uint64{}
						for _, h := range m.GetHistogram().GetDataPoints() {
							if h.StartTimeUnixNano >= uint64(to.UnixNano()) {
								continue
							}
							k := fmt.Sprint(h.StartTimeUnixNano, " ", text(h.Attributes, "rpc.service"), "/", text(h.Attributes, "rpc.method"))
							last[k] = max(last[k], h.Count)
						}
						for k, n := range last {
							var at uint64
							var name string
							fmt.Sscan(k, &at, &name)
							counts[name] += int(n)
						}
					}
				}
			}
			// what it measures is there as well
			for name, unit := range map[string]string{"rq.db.size": "By", "runtime.uptime": "ms", "system.memory.usage": "By"} {
				d, err = p.ScanSamples(ctx, kit.Range(kit.KMetrics, from.Add(-time.Minute), to.Add(time.Minute), own, kit.Base(v1.Scan_NAME, name)))
				c.Must(err, "scan")
				n := 0
				for _, r := range d.GetMetrics().GetResourceMetrics() {
					for _, s := range r.ScopeMetrics {
						for _, m := range s.Metrics {
							if m.Name != name {
								continue
							}
							for _, x := range append(m.GetSum().GetDataPoints(), m.GetGauge().GetDataPoints()...) {
								if n++; m.Unit != unit || x.GetAsInt() < 0 || x.TimeUnixNano < uint64(from.UnixNano()) {
									c.Fatalf("calls of %s to %s: measured %v", from, to, m)
								}
							}
						}
					}
				}
				if n == 0 {
					return name + " is not stored"
				}
			}
			for _, k := range services {
				if spans[k] != want[k] {
					return fmt.Sprintf("%d calls of %s, spans of %d are stored: %v", want[k], k, spans[k], spans)
				}
				if counts[k] != want[k] {
					return fmt.Sprintf("%d calls of %s, %d are counted: %v", want[k], k, counts[k], counts)
				}
			}
			return ""
		}
		d := attempt("0", 300*time.Millisecond)
		if d != "" {
			d = attempt("1", 3*time.Second)
		}
		if d != "" {
			c.Fatalf("%s", d)
		}
		c.ClassIf(len(all) > 1, "several sessions")
		c.NonTrivial()
	})
}

func text(kv []*commonv1.KeyValue, key string) string {
	for _, a := range kv {
		if a.Key == key {
			return a.Value.GetStringValue()
		}
	}
	return ""
}
