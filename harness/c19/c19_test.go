// From a client to a script: what clients send is what scripts see.
package c19

import (
	"bytes"
	"context"
	"fmt"
	"math"
	"slices"
	"strings"
	"testing"
	"time"

	"github.com/dop251/goja"
	v1 "github.com/gernest/requiemdb/gen/go/rq/v1"
	"github.com/gernest/requiemdb/internal/compile"
	"github.com/gernest/requiemdb/internal/js"
	"github.com/gernest/requiemdb/internal/zzverif/kit"
	metricsv1 "go.opentelemetry.io/proto/otlp/metrics/v1"
	"google.golang.org/grpc"
	"google.golang.org/protobuf/encoding/protojson"
	"google.golang.org/protobuf/proto"
	"pgregory.net/rapid"
)

const show = `
import { Metrics, Logs, Trace, println } from "@requiemdb/rq";
function attrs(kind, list) {
	let tag = "";
	for (const kv of list || []) {
		if (kv.key === "tag") tag = kv.value.GetStringValue();
	}
	println(kind + " " + tag);
}
function metrics(d) {
	for (const r of d.resource_metrics || []) for (const s of r.scope_metrics || []) for (const m of s.metrics || []) {
		for (const x of [m.GetGauge(), m.GetSum(), m.GetHistogram(), m.GetExponentialHistogram(), m.GetSummary()]) {
			if (x) for (const p of x.data_points || []) attrs("point of " + m.name, p.attributes);
		}
	}
}
function logs(d) {
	for (const r of d.resource_logs || []) for (const s of r.scope_logs || []) for (const l of s.log_records || []) attrs("log " + l.severity_text, l.attributes);
}
function traces(d) {
	for (const r of d.resource_spans || []) for (const s of r.scope_spans || []) for (const l of s.spans || []) attrs("span " + l.name, l.attributes);
}
`

var farBegin = []time.Time{time.Unix(0, 0), time.UnixMilli(-1), time.UnixMilli(1), time.Date(1901, 1, 1, 0, 0, 0, 0, time.UTC),
	time.Date(1677, 1, 1, 0, 0, 0, 0, time.UTC), time.Date(1200, 6, 1, 0, 0, 0, 0, time.UTC), time.Date(1, 1, 1, 0, 0, 0, 0, time.UTC)}

func TestProperty(t *testing.T) {
	kit.Run(t, func(c *kit.Case) {
		ctx := context.Background()
		n, err := kit.OpenParts(c.Dir(), true)
		c.Must(err, "open")
		c.Cleanup(func() { n.CloseParts() })
		clock := kit.NewClock(c.T)
		hours := []time.Time{clock.Base, clock.Base, clock.Hour()}
		m := &kit.Model{}
		one := kit.Kind(rapid.IntRange(0, 2).Draw(c.T, "main"))
		tags := 0
		var opts []grpc.CallOption
		if rapid.Bool().Draw(c.T, "compress") {
			opts = append(opts, grpc.UseCompressor("zstd"))
			c.Class("compressed")
		}
		for s := rapid.IntRange(1, 2).Draw(c.T, "sessions"); s > 0; s-- {
			svc, err := n.Service(ctx)
			c.Must(err, "service")
			r, err := kit.Serve(svc, opts...)
			c.Must(err, "serve")
			for i := rapid.IntRange(1, 4).Draw(c.T, "exports"); i > 0; i-- {
				hour := kit.Of(c.T, "hour", hours)
				g := &kit.Gen{T: c.T, MaxResources: 2, MaxScopes: 1, MaxMetrics: 2, MaxPoints: 2, Lean: rapid.Bool().Draw(c.T, "lean"), NaN: true,
					Time: func() uint64 { return uint64(clock.In(hour).UnixNano()) }}
				d := g.Data(kit.Of(c.T, "kind", []kit.Kind{one, one, one, kit.KMetrics, kit.KLogs, kit.KTraces}))
				for _, p := range kit.Points(d) {
					tags++
					kit.Tag(p, fmt.Sprint(tags))
				}
				m.Add(uint64(len(m.All)+1), d)
				err := r.Export(ctx, d)
				c.Must(err, "export")
				c.Logf("exported %d: %v", len(m.All), d)
			}
			r.Close()
			svc.Close()
		}
		svc, err := n.Service(ctx)
		c.Must(err, "service")
		defer svc.Close()
		r, err := kit.Serve(svc, opts...)
		c.Must(err, "serve")
		defer r.Close()
		seen, trimmed := 0, 0
		for i := 0; i < 6; i++ {
			k := one
			if i%3 == 2 {
				k = kit.Kind(rapid.IntRange(0, 2).Draw(c.T, "kind"))
			}
			near := m.All
			for _, s := range m.All {
				if s.Kind == k && s.Lo != 0 {
					near = append(near[:0:0], s)
				}
			}
			at := kit.Of(c.T, "near", near).At().Add(kit.Of(c.T, "after", []time.Duration{time.Minute, time.Millisecond, 5 * time.Minute, 20 * time.Minute, time.Hour, 0}))
			q := kit.NewQuery(k, at)
			q.At(at)
			if rapid.IntRange(0, 3).Draw(c.T, "time") > 0 {
				if rapid.Bool().Draw(c.T, "ago") {
					q.Ago(kit.Of(c.T, "window", []time.Duration{time.Hour, 2 * time.Minute, 15 * time.Minute, 16 * time.Minute, time.Hour, 26 * time.Hour, 45 * 24 * time.Hour, 600000 * time.Hour, 2000000 * time.Hour}))
				} else if rapid.IntRange(0, 2).Draw(c.T, "far") == 0 {
					q.Between(kit.Of(c.T, "from", farBegin), kit.Of(c.T, "to", []time.Time{at, time.Unix(0, math.MaxInt64), time.Date(2262, 4, 12, 0, 0, 0, 0, time.UTC), time.Date(2600, 1, 1, 0, 0, 0, 0, time.UTC), time.Date(9999, 12, 31, 0, 0, 0, 0, time.UTC)}))
				} else {
					q.This(kit.Of(c.T, "this", []string{"today", "thisWeek", "thisMonth", "thisYear"}))
				}
			}
			if rapid.IntRange(0, 3).Draw(c.T, "limit") == 0 {
				q.Limit(uint64(rapid.IntRange(1, 2).Draw(c.T, "limit n")))
			}
			if rapid.IntRange(0, 3).Draw(c.T, "reverse") == 0 {
				q.Reverse()
			}
			if rapid.IntRange(0, 5).Draw(c.T, "offset") == 5 {
				q.Offset(kit.Of(c.T, "offset d", []time.Duration{time.Minute, time.Hour}))
			}
			for _, f := range m.Filters(c.T, k, i%3) {
				q.Filter(f)
			}
			// the model of the answer
			end := q.Now.Add(-q.Scan.Offset.AsDuration())
			start := end.Add(-15 * time.Minute)
			instant := q.Scan.TimeRange == nil
			if !instant {
				start, end = q.Scan.TimeRange.Start.AsTime(), q.Scan.TimeRange.End.AsTime()
			}
			stored := m.Matching(k, start, end, q.Scan.Filters)
			if l := int(q.Scan.Limit); instant {
				if len(stored) > 0 {
					stored = stored[len(stored)-1:]
				}
			} else if l > 0 && l < len(stored) {
				if q.Scan.Reverse {
					stored = stored[len(stored)-l:]
				} else {
					stored = stored[:l]
				}
			}
			var want []*kit.Point
			for _, p := range kit.AllPoints(stored) {
				if instant && len(q.Scan.Filters) == 0 || kit.Accepts(p, q.Scan.Filters, kit.Nanos(start), kit.Nanos(end)) {
					want = append(want, p)
				} else {
					trimmed++
				}
			}
			seen += len(want)
			src := show + map[kit.Kind]string{
				kit.KMetrics: "const d = " + q.Src + ".query();\nmetrics(d);\nprintln(\"--\");\nMetrics.renderJSON(d, {pretty: " + fmt.Sprint(i%2 == 0) + "});",
				kit.KLogs:    "logs(" + q.Src + ".query());",
				kit.KTraces:  "traces(" + q.Src + ".query());",
			}[k]
			c.Logf("%s", q.Src)
			code, err := compile.Compile([]byte(src))
			c.Must(err, "compile")
			program, err := goja.Compile("index.js", string(code), true)
			c.Must(err, "program")
			var out bytes.Buffer
			vm := js.New().WithOutput(&out).WithNow(func() time.Time { return n.Now }).WithScan(func(s *v1.Scan) (*v1.Data, error) {
				return r.ScanSamples(ctx, s)
			})
			err = vm.Run(program)
			vm.Release()
			c.Must(err, q.Src)
			text, doc, _ := strings.Cut(out.String(), "--\n")
			if d := compare(lines(want), text); d != "" {
				c.Fatalf("%s of samples %s: %s", q.Src, kit.IDs(stored), d)
			}
			if k == kit.KMetrics {
				var got metricsv1.MetricsData
				c.Must(protojson.Unmarshal([]byte(doc), &got), "json")
				if d := kit.Diff(want, kit.Points(&v1.Data{Data: &v1.Data_Metrics{Metrics: &got}})); d != "" {
					c.Fatalf("%s of samples %s as json\n%s", q.Src, kit.IDs(stored), d)
				}
			}
		}
		v, err := r.GetVersion(ctx, &v1.GetVersionRequest{})
		c.Must(err, "version")
		if proto.Size(v) == 0 {
			c.Fatalf("no version")
		}
		c.ClassIf(seen > 0 && trimmed > 0, "some points of samples are left out")
		c.NonTrivialIf(seen > 0)
	})
}

func lines(ps []*kit.Point) (o []string) {
	for _, p := range ps {
		tag := ""
		for _, kv := range p.Attrs {
			if kv.Key == "tag" {
				tag = kv.Value.GetStringValue()
			}
		}
		switch p.Type {
		case "log":
			o = append(o, "log "+level(p)+" "+tag)
		case "span":
			o = append(o, "span "+name(p)+" "+tag)
		default:
			o = append(o, "point of "+p.Metric.Name+" "+tag)
		}
	}
	return
}

func level(p *kit.Point) string {
	return p.Msg.(interface{ GetSeverityText() string }).GetSeverityText()
}
func name(p *kit.Point) string { return p.Msg.(interface{ GetName() string }).GetName() }

// compare compares output without its order.
func compare(want []string, text string) string {
	got := strings.Split(strings.TrimSuffix(text, "\n"), "\n")
	if text == "" {
		got = nil
	}
	slices.Sort(want)
	slices.Sort(got)
	w := strings.Join(want, "\n")
	// names may contain line breaks
	wl := strings.Split(w, "\n")
	if w == "" {
		wl = nil
	}
	slices.Sort(wl)
	if slices.Equal(wl, got) {
		return ""
	}
	return fmt.Sprintf("want %q\ngot  %q", wl, got)
}
