// Time windows: a scan of a time window returns every sample of the window and
// nothing outside of the units of time that the window touches.
package c04

import (
	"context"
	"fmt"
	"os"
	"testing"
	"time"

	v1 "github.com/gernest/requiemdb/gen/go/rq/v1"
	"github.com/gernest/requiemdb/internal/zzverif/kit"
	metricsv1 "go.opentelemetry.io/proto/otlp/metrics/v1"
	"pgregory.net/rapid"
)

func TestProperty(t *testing.T) {
	kit.Run(t, func(c *kit.Case) {
		h := kit.NewHistory(c)
		spread := func() uint64 { return 0 }
		h.Hours = func() time.Time {
			hour := h.Clock.Hour()
			wide := rapid.IntRange(0, 4).Draw(c.T, "wide") == 0
			spread = func() uint64 {
				if wide {
					return uint64(h.Clock.In(hour.Add(time.Duration(rapid.IntRange(0, 3).Draw(c.T, "wide.hours")) * time.Hour)).UnixNano())
				}
				if rapid.IntRange(0, 9).Draw(c.T, "unknown") == 0 {
					return 0
				}
				return uint64(h.Clock.In(hour).UnixNano())
			}
			return hour
		}
		h.Configure = func(g *kit.Gen) { g.Time = func() uint64 { return spread() } }
		h.Fill(3, 3)
		inside, outside, partial := 0, 0, 0
		units := map[byte]bool{}
		for i := 0; i < 14; i++ {
			k := kit.Kind(rapid.IntRange(0, 2).Draw(c.T, "scan.kind"))
			if len(h.M.All) > 0 && rapid.Bool().Draw(c.T, "scan.known") {
				k = kit.Of(c.T, "scan.of", h.M.All).Kind
			}
			start, end := h.Window()
			// known finding later-hours: a sample is only found in units of its
			// earliest timestamp. Windows that touch some of its units and not
			// that one are not compared.
			skip := false
			for _, s := range h.M.All {
				if s.Kind != k || kit.Touches(start, end, s.At()) {
					continue
				}
				for _, p := range kit.Points(s.Data) {
					skip = skip || p.Time != 0 && kit.Touches(start, end, time.Unix(0, int64(p.Time)))
				}
			}
			if skip {
				c.Exclude("window touches only later units of a sample")
				continue
			}
			want := h.M.Matching(k, start, end, nil)
			got := h.Scan(kit.Range(k, start, end))
			if d := kit.Diff(kit.AllPoints(want), kit.Points(got)); d != "" {
				c.Fatalf("scan of %s over [%s, %s) must select samples %s\n%s", k, start, end, kit.IDs(want), d)
			}
			for _, s := range h.M.All {
				if s.Kind != k {
					continue
				}
				in := !s.At().Before(start) && s.At().Before(end)
				switch {
				case in:
					inside++
				case kit.Touches(start, end, s.At()):
					partial++
				default:
					outside++
				}
			}
			if start.Before(end) {
				units[kit.Unit(end.Sub(start))] = true
			}
		}
		for u := range units {
			c.Class("unit " + string(u))
		}
		c.ClassIf(inside > 0, "samples inside")
		c.ClassIf(partial > 0, "samples in a partially covered unit")
		c.ClassIf(outside > 0, "samples outside")
		c.NonTrivialIf(inside > 0 && outside > 0)
	})
}

func TestKnown(t *testing.T) {
	kit.Known(t, "C04", map[string]func() (string, bool){"later-hours": laterHours})
}

// One sample with a point in one hour and another one two hours later. The later
// point is not in the result of a scan of its own hour.
func laterHours() (string, bool) {
	dir, err := os.MkdirTemp("", "known-")
	if err != nil {
		return "", false
	}
	defer os.RemoveAll(dir)
	n, err := kit.Open(dir, true)
	if err != nil {
		return "", false
	}
	defer n.Close()
	first := time.Date(2024, 4, 3, 14, 30, 0, 0, time.UTC)
	later := first.Add(2 * time.Hour)
	var ps []*metricsv1.NumberDataPoint
	for _, ts := range []time.Time{first, later} {
		ps = append(ps, &metricsv1.NumberDataPoint{TimeUnixNano: uint64(ts.UnixNano()), Value: &metricsv1.NumberDataPoint_AsInt{AsInt: 1}})
	}
	d := &v1.Data{Data: &v1.Data_Metrics{Metrics: &metricsv1.MetricsData{ResourceMetrics: []*metricsv1.ResourceMetrics{{
		ScopeMetrics: []*metricsv1.ScopeMetrics{{Metrics: []*metricsv1.Metric{{Name: "m", Data: &metricsv1.Metric_Gauge{Gauge: &metricsv1.Gauge{DataPoints: ps}}}}}}}}}}}
	if _, err := n.Save(d); err != nil {
		return "", false
	}
	got, err := n.Store.Scan(context.Background(), kit.Range(kit.KMetrics, later.Add(-time.Minute), later.Add(time.Minute)))
	if err != nil || len(kit.Points(got)) > 0 {
		return "", false
	}
	return fmt.Sprintf("a sample with points at %s and %s is not found by a scan of [%s, %s)", first.Format(time.RFC3339), later.Format(time.RFC3339),
		later.Add(-time.Minute).Format(time.RFC3339), later.Add(time.Minute).Format(time.RFC3339)), true
}
