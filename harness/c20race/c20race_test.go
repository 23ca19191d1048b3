// Tables that are rendered at the same time, under the race detector.
package c20race

import (
	"fmt"
	"sync"
	"testing"

	"github.com/gernest/requiemdb/internal/render"
	kit "github.com/gernest/requiemdb/internal/zzverif/kitlite"
	commonv1 "go.opentelemetry.io/proto/otlp/common/v1"
	metricsv1 "go.opentelemetry.io/proto/otlp/metrics/v1"
	"pgregory.net/rapid"
)

func TestTogether(t *testing.T) {
	kit.Run(t, func(c *kit.Case) {
		n := rapid.IntRange(2, 4).Draw(c.T, "docs")
		docs, want := make([]*metricsv1.MetricsData, n), make([]string, n)
		for i := range docs {
			var ps []*metricsv1.NumberDataPoint
			for j := rapid.IntRange(1, 40).Draw(c.T, "rows"); j > 0; j-- {
				ps = append(ps, &metricsv1.NumberDataPoint{TimeUnixNano: uint64(j) * 1e9, Value: &metricsv1.NumberDataPoint_AsInt{AsInt: int64(1000*(i+1) + j)},
					Attributes: []*commonv1.KeyValue{{Key: "doc", Value: &commonv1.AnyValue{Value: &commonv1.AnyValue_IntValue{IntValue: int64(i)}}}}})
			}
			m := &metricsv1.Metric{Name: fmt.Sprint("m", i), Data: &metricsv1.Metric_Gauge{Gauge: &metricsv1.Gauge{DataPoints: ps}}}
			if rapid.Bool().Draw(c.T, "sum") {
				m.Data = &metricsv1.Metric_Sum{Sum: &metricsv1.Sum{DataPoints: ps}}
			}
			g := &kit.Gen{T: c.T, Lean: true, Time: func() uint64 { return 1 }}
			docs[i] = &metricsv1.MetricsData{ResourceMetrics: []*metricsv1.ResourceMetrics{{Resource: g.Resource(),
				ScopeMetrics: []*metricsv1.ScopeMetrics{{Scope: g.Scope(), Metrics: []*metricsv1.Metric{m}}}}}}
			want[i] = render.MetricsData(docs[i], render.MetricsFormatOption{Resource: i%2 == 0, Scope: true, Metrics: true})
			c.Logf("%d rows", len(ps))
		}
		errs := make([]string, 4*n)
		var wg sync.WaitGroup
		for i := range errs {
			wg.Add(1)
			go func() {
				defer wg.Done()
				for r := 0; r < 6 && errs[i] == ""; r++ {
					k := i % n
					if got := render.MetricsData(docs[k], render.MetricsFormatOption{Resource: k%2 == 0, Scope: true, Metrics: true}); got != want[k] {
						errs[i] = fmt.Sprintf("text, together with others\nwant %s\ngot  %s", want[k], got)
					}
					if b, err := render.MetricsDataJSON(docs[k], render.JSONOptions{}); err != nil || len(b) == 0 {
						errs[i] = fmt.Sprint("json, together with others: ", err)
					}
				}
			}()
		}
		wg.Wait()
		for _, e := range errs {
			if e != "" {
				c.Fatalf("%s", e)
			}
		}
		c.NonTrivialIf(n > 1)
	})
}
