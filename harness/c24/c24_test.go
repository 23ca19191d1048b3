// The database hands its own telemetry to its collectors as it was recorded.
package c24

import (
	"bytes"
	"context"
	"errors"
	"fmt"
	"math"
	"reflect"
	"slices"
	"sort"
	"strings"
	"testing"
	"time"

	"github.com/gernest/requiemdb/internal/self"
	"github.com/gernest/requiemdb/internal/zzverif/kit"
	"go.opentelemetry.io/otel/attribute"
	"go.opentelemetry.io/otel/codes"
	"go.opentelemetry.io/otel/sdk/instrumentation"
	"go.opentelemetry.io/otel/sdk/metric/metricdata"
	"go.opentelemetry.io/otel/sdk/resource"
	sdktrace "go.opentelemetry.io/otel/sdk/trace"
	"go.opentelemetry.io/otel/sdk/trace/tracetest"
	"go.opentelemetry.io/otel/trace"
	cm "go.opentelemetry.io/proto/otlp/collector/metrics/v1"
	ct "go.opentelemetry.io/proto/otlp/collector/trace/v1"
	commonv1 "go.opentelemetry.io/proto/otlp/common/v1"
	metricsv1 "go.opentelemetry.io/proto/otlp/metrics/v1"
	tracev1 "go.opentelemetry.io/proto/otlp/trace/v1"
	"pgregory.net/rapid"
)

type metrics struct {
	cm.UnimplementedMetricsServiceServer
	got []*cm.ExportMetricsServiceRequest
	err error
}

func (m *metrics) Export(_ context.Context, r *cm.ExportMetricsServiceRequest) (*cm.ExportMetricsServiceResponse, error) {
	m.got = append(m.got, r)
	return &cm.ExportMetricsServiceResponse{}, m.err
}

type traces struct {
	ct.UnimplementedTraceServiceServer
	got []*ct.ExportTraceServiceRequest
	err error
}

func (m *traces) Export(_ context.Context, r *ct.ExportTraceServiceRequest) (*ct.ExportTraceServiceResponse, error) {
	m.got = append(m.got, r)
	return &ct.ExportTraceServiceResponse{}, m.err
}

var errDown = errors.New("collector is down")

// gen draws what an sdk records.
type gen struct {
	*kit.Case
	bad int // metrics that can not be converted
}

func (g gen) n(name string, lo, hi int) int { return rapid.IntRange(lo, hi).Draw(g.T, name) }

func (g gen) attr() attribute.KeyValue {
	k := kit.Of(g.T, "key", kit.Keys)
	switch g.n("attr", 0, 8) {
	case 0:
		return attribute.Bool(k, g.n("bool", 0, 1) == 1)
	case 1:
		return attribute.BoolSlice(k, []bool{true, false, true}[:g.n("len", 0, 3)])
	case 2:
		return attribute.Int64(k, kit.Of(g.T, "int", []int64{0, -1, math.MaxInt64, math.MinInt64, 1 << 40}))
	case 3:
		return attribute.Int64Slice(k, []int64{math.MinInt64, 0, 7}[:g.n("len", 0, 3)])
	case 4:
		return attribute.Float64(k, kit.Of(g.T, "float", []float64{0, -1.25, math.Inf(1), 1e300, 1 << 40}))
	case 5:
		return attribute.Float64Slice(k, []float64{1.5, math.Inf(-1), 0}[:g.n("len", 0, 3)])
	case 6:
		return attribute.StringSlice(k, []string{"", "a", "b=c"}[:g.n("len", 0, 3)])
	case 7:
		return attribute.String(k, rapid.StringN(0, 8, -1).Draw(g.T, "string"))
	default:
		return attribute.String(k, kit.Of(g.T, "string", kit.Values))
	}
}

func (g gen) attrs(max int) (o []attribute.KeyValue) {
	for i := g.n("attrs", 0, max); i > 0; i-- {
		o = append(o, g.attr())
	}
	return
}

func (g gen) set() attribute.Set { return attribute.NewSet(g.attrs(3)...) }

func (g gen) time() time.Time {
	if g.n("no time", 0, 9) == 0 {
		return time.Time{}
	}
	return g.at()
}

func (g gen) at() time.Time {
	t := time.Unix(0, int64(g.n("ns", 0, math.MaxInt32))*1_000_000_007)
	if g.n("zone", 0, 1) == 1 {
		t = t.In(time.FixedZone("z", 3600*g.n("hours", -12, 14)))
	}
	return t
}

// text of an attribute
func sdkAttr(kv attribute.KeyValue) string {
	return fmt.Sprintf("%q=%s:%v", kv.Key, kv.Value.Type(), list(kv.Value.AsInterface()))
}

func list(v any) string {
	switch x := v.(type) {
	case []bool:
		return quote(x)
	case []int64:
		return quote(x)
	case []float64:
		return quote(x)
	case []string:
		return quote(x)
	default:
		return fmt.Sprintf("%#v", x)
	}
}

func quote[T any](xs []T) string {
	var o []string
	for _, x := range xs {
		o = append(o, fmt.Sprintf("%#v", x))
	}
	return "[" + strings.Join(o, " ") + "]"
}

func sdkAttrs(kv []attribute.KeyValue) string {
	var o []string
	for _, a := range kv {
		o = append(o, sdkAttr(a))
	}
	return strings.Join(o, ",")
}

func otlpAttrs(kv []*commonv1.KeyValue) string {
	var o []string
	for _, a := range kv {
		t, v := otlpValue(a.Value)
		o = append(o, fmt.Sprintf("%q=%s:%v", a.Key, t, v))
	}
	return strings.Join(o, ",")
}

func otlpValue(a *commonv1.AnyValue) (string, string) {
	switch v := a.GetValue().(type) {
	case *commonv1.AnyValue_BoolValue:
		return "BOOL", fmt.Sprintf("%#v", v.BoolValue)
	case *commonv1.AnyValue_IntValue:
		return "INT64", fmt.Sprintf("%#v", v.IntValue)
	case *commonv1.AnyValue_DoubleValue:
		return "FLOAT64", fmt.Sprintf("%#v", v.DoubleValue)
	case *commonv1.AnyValue_StringValue:
		return "STRING", fmt.Sprintf("%#v", v.StringValue)
	case *commonv1.AnyValue_ArrayValue:
		t, o := "", []string(nil)
		for _, e := range v.ArrayValue.Values {
			et, ev := otlpValue(e)
			if t != "" && t != et {
				return "MIXED", ""
			}
			t = et
			o = append(o, ev)
		}
		return t + "SLICE", "[" + strings.Join(o, " ") + "]"
	}
	return fmt.Sprintf("%T", a.GetValue()), ""
}

// An empty list of otlp has no type of its elements.
func same(a, b string) bool {
	for _, t := range []string{"BOOL", "INT64", "FLOAT64", "STRING"} {
		a, b = strings.ReplaceAll(a, t+"SLICE:[]", "SLICE:[]"), strings.ReplaceAll(b, t+"SLICE:[]", "SLICE:[]")
	}
	return a == b
}

func ns(t time.Time) uint64 {
	if t.IsZero() {
		return 0
	}
	return uint64(t.Unix())*1e9 + uint64(t.Nanosecond())
}

type number interface{ int64 | float64 }

func num[N number](g gen, name string) N {
	var z N
	switch any(z).(type) {
	case int64:
		return N(kit.Of(g.T, name, []int64{0, 1, -5, math.MaxInt32, 1 << 50}))
	default:
		return N(kit.Of(g.T, name, []float64{0, 1.5, -2.25, 1e18, 3}))
	}
}

func exemplars[N number](g gen) (o []metricdata.Exemplar[N], text string) {
	for i := g.n("exemplars", 0, 2); i > 0; i-- {
		e := metricdata.Exemplar[N]{FilteredAttributes: g.attrs(2), Time: g.time(), Value: num[N](g, "exemplar"),
			SpanID: bytes.Clone(kit.Of(g.T, "span", kit.SpanID)), TraceID: bytes.Clone(kit.Of(g.T, "trace", kit.TraceID))}
		o = append(o, e)
		text += fmt.Sprintf("{%s %d %T:%v %x %x}", sdkAttrs(e.FilteredAttributes), ns(e.Time), e.Value, e.Value, e.SpanID, e.TraceID)
	}
	return
}

func otlpExemplars(es []*metricsv1.Exemplar) (text string) {
	for _, e := range es {
		var v any
		switch x := e.Value.(type) {
		case *metricsv1.Exemplar_AsInt:
			v = x.AsInt
		case *metricsv1.Exemplar_AsDouble:
			v = x.AsDouble
		}
		text += fmt.Sprintf("{%s %d %T:%v %x %x}", otlpAttrs(e.FilteredAttributes), e.TimeUnixNano, v, v, e.SpanId, e.TraceId)
	}
	return
}

func setText(s attribute.Set) string { return sdkAttrs(s.ToSlice()) }

func points[N number](g gen) (o []metricdata.DataPoint[N], text []string) {
	for i := g.n("points", 0, 3); i > 0; i-- {
		p := metricdata.DataPoint[N]{Attributes: g.set(), StartTime: g.time(), Time: g.time(), Value: num[N](g, "value")}
		var ex string
		p.Exemplars, ex = exemplars[N](g)
		o = append(o, p)
		text = append(text, fmt.Sprintf("%s %d %d %T:%v %s", setText(p.Attributes), ns(p.StartTime), ns(p.Time), p.Value, p.Value, ex))
	}
	return
}

func otlpPoints(ps []*metricsv1.NumberDataPoint) (text []string) {
	for _, p := range ps {
		var v any
		switch x := p.Value.(type) {
		case *metricsv1.NumberDataPoint_AsInt:
			v = x.AsInt
		case *metricsv1.NumberDataPoint_AsDouble:
			v = x.AsDouble
		}
		text = append(text, fmt.Sprintf("%s %d %d %T:%v %s", otlpAttrs(p.Attributes), p.StartTimeUnixNano, p.TimeUnixNano, v, v, otlpExemplars(p.Exemplars)))
	}
	return
}

func (g gen) extrema() bool { return g.n("extrema", 0, 1) == 1 }

func opt(v float64, ok bool) string {
	if !ok {
		return "-"
	}
	return fmt.Sprint(v)
}

func ptr(v *float64) string {
	if v == nil {
		return "-"
	}
	return fmt.Sprint(*v)
}

func hist[N number](g gen) (o []metricdata.HistogramDataPoint[N], text []string) {
	for i := g.n("points", 0, 2); i > 0; i-- {
		p := metricdata.HistogramDataPoint[N]{Attributes: g.set(), StartTime: g.time(), Time: g.time(), Count: uint64(g.n("count", 0, 9)),
			Bounds: []float64{1, 5, 10}[:g.n("bounds", 0, 3)], BucketCounts: []uint64{4, 0, math.MaxUint64, 1}[:g.n("buckets", 0, 4)], Sum: num[N](g, "sum")}
		lo, hi := g.extrema(), g.extrema()
		var vlo, vhi N
		if lo {
			vlo = num[N](g, "min")
			p.Min = metricdata.NewExtrema(vlo)
		}
		if hi {
			vhi = num[N](g, "max")
			p.Max = metricdata.NewExtrema(vhi)
		}
		var ex string
		p.Exemplars, ex = exemplars[N](g)
		o = append(o, p)
		text = append(text, fmt.Sprintf("%s %d %d %d %v %v %v %s %s %s", setText(p.Attributes), ns(p.StartTime), ns(p.Time), p.Count, p.Bounds, p.BucketCounts,
			float64(p.Sum), opt(float64(vlo), lo), opt(float64(vhi), hi), ex))
	}
	return
}

func exp[N number](g gen) (o []metricdata.ExponentialHistogramDataPoint[N], text []string) {
	bucket := func() metricdata.ExponentialBucket {
		return metricdata.ExponentialBucket{Offset: int32(g.n("offset", -3, 3)), Counts: []uint64{1, 0, 7, math.MaxUint64}[:g.n("counts", 0, 4)]}
	}
	for i := g.n("points", 0, 2); i > 0; i-- {
		p := metricdata.ExponentialHistogramDataPoint[N]{Attributes: g.set(), StartTime: g.time(), Time: g.time(), Count: uint64(g.n("count", 0, 9)),
			Sum: num[N](g, "sum"), Scale: int32(g.n("scale", -10, 20)), ZeroCount: uint64(g.n("zeros", 0, 4)), PositiveBucket: bucket(), NegativeBucket: bucket()}
		lo, hi := g.extrema(), g.extrema()
		var vlo, vhi N
		if lo {
			vlo = num[N](g, "min")
			p.Min = metricdata.NewExtrema(vlo)
		}
		if hi {
			vhi = num[N](g, "max")
			p.Max = metricdata.NewExtrema(vhi)
		}
		var ex string
		p.Exemplars, ex = exemplars[N](g)
		o = append(o, p)
		text = append(text, fmt.Sprintf("%s %d %d %d %v %d %d %d%v %d%v %s %s %s", setText(p.Attributes), ns(p.StartTime), ns(p.Time), p.Count, float64(p.Sum), p.Scale, p.ZeroCount,
			p.PositiveBucket.Offset, p.PositiveBucket.Counts, p.NegativeBucket.Offset, p.NegativeBucket.Counts, opt(float64(vlo), lo), opt(float64(vhi), hi), ex))
	}
	return
}

func (g *gen) metric() (m metricdata.Metrics, text string, ok bool) {
	m = metricdata.Metrics{Name: kit.Of(g.T, "name", kit.Names), Description: kit.Of(g.T, "description", kit.Values), Unit: kit.Of(g.T, "unit", kit.Units)}
	tmp := metricdata.DeltaTemporality
	tt := "AGGREGATION_TEMPORALITY_DELTA"
	ok = true
	switch g.n("temporality", 0, 9) {
	case 0:
		tmp, ok = metricdata.Temporality(kit.Of(g.T, "bad", []uint8{0, 9})), false
	case 1, 2, 3, 4:
		tmp, tt = metricdata.CumulativeTemporality, "AGGREGATION_TEMPORALITY_CUMULATIVE"
	}
	mono := g.n("monotonic", 0, 1) == 1
	var ps []string
	kind := ""
	switch k := g.n("kind", 0, 9); k {
	case 0:
		var d metricdata.Gauge[int64]
		d.DataPoints, ps = points[int64](*g)
		m.Data, kind, ok = d, "gauge", true
	case 1:
		var d metricdata.Gauge[float64]
		d.DataPoints, ps = points[float64](*g)
		m.Data, kind, ok = d, "gauge", true
	case 2:
		d := metricdata.Sum[int64]{Temporality: tmp, IsMonotonic: mono}
		d.DataPoints, ps = points[int64](*g)
		m.Data, kind = d, fmt.Sprintf("sum %s %v", tt, mono)
	case 3:
		d := metricdata.Sum[float64]{Temporality: tmp, IsMonotonic: mono}
		d.DataPoints, ps = points[float64](*g)
		m.Data, kind = d, fmt.Sprintf("sum %s %v", tt, mono)
	case 4:
		d := metricdata.Histogram[int64]{Temporality: tmp}
		d.DataPoints, ps = hist[int64](*g)
		m.Data, kind = d, "hist "+tt
	case 5:
		d := metricdata.Histogram[float64]{Temporality: tmp}
		d.DataPoints, ps = hist[float64](*g)
		m.Data, kind = d, "hist "+tt
	case 6:
		d := metricdata.ExponentialHistogram[int64]{Temporality: tmp}
		d.DataPoints, ps = exp[int64](*g)
		m.Data, kind = d, "exp "+tt
	case 7:
		d := metricdata.ExponentialHistogram[float64]{Temporality: tmp}
		d.DataPoints, ps = exp[float64](*g)
		m.Data, kind = d, "exp "+tt
	case 8:
		var d metricdata.Summary
		for i := g.n("points", 0, 2); i > 0; i-- {
			p := metricdata.SummaryDataPoint{Attributes: g.set(), StartTime: g.time(), Time: g.time(), Count: uint64(g.n("count", 0, 9)), Sum: num[float64](*g, "sum")}
			q := ""
			for j := g.n("quantiles", 0, 2); j > 0; j-- {
				v := metricdata.QuantileValue{Quantile: num[float64](*g, "quantile"), Value: num[float64](*g, "at")}
				p.QuantileValues = append(p.QuantileValues, v)
				q += fmt.Sprintf("%v:%v ", v.Quantile, v.Value)
			}
			d.DataPoints = append(d.DataPoints, p)
			ps = append(ps, fmt.Sprintf("%s %d %d %d %v %s", setText(p.Attributes), ns(p.StartTime), ns(p.Time), p.Count, p.Sum, q))
		}
		m.Data, kind, ok = d, "summary", true
	case 9:
		ok = false
	}
	if !ok {
		g.bad++
	}
	return m, fmt.Sprintf("%q %q %q %s\n  %s", m.Name, m.Description, m.Unit, kind, strings.Join(ps, "\n  ")), ok
}

func otlpMetric(m *metricsv1.Metric) string {
	var ps []string
	kind := fmt.Sprintf("%T", m.Data)
	switch d := m.Data.(type) {
	case *metricsv1.Metric_Gauge:
		kind, ps = "gauge", otlpPoints(d.Gauge.DataPoints)
	case *metricsv1.Metric_Sum:
		kind, ps = fmt.Sprintf("sum %s %v", d.Sum.AggregationTemporality, d.Sum.IsMonotonic), otlpPoints(d.Sum.DataPoints)
	case *metricsv1.Metric_Histogram:
		kind = fmt.Sprint("hist ", d.Histogram.AggregationTemporality)
		for _, p := range d.Histogram.DataPoints {
			ps = append(ps, fmt.Sprintf("%s %d %d %d %v %v %v %s %s %s", otlpAttrs(p.Attributes), p.StartTimeUnixNano, p.TimeUnixNano, p.Count, p.ExplicitBounds, p.BucketCounts,
				ptr(p.Sum), ptr(p.Min), ptr(p.Max), otlpExemplars(p.Exemplars)))
		}
	case *metricsv1.Metric_ExponentialHistogram:
		kind = fmt.Sprint("exp ", d.ExponentialHistogram.AggregationTemporality)
		for _, p := range d.ExponentialHistogram.DataPoints {
			ps = append(ps, fmt.Sprintf("%s %d %d %d %v %d %d %d%v %d%v %s %s %s", otlpAttrs(p.Attributes), p.StartTimeUnixNano, p.TimeUnixNano, p.Count, ptr(p.Sum), p.Scale, p.ZeroCount,
				p.Positive.GetOffset(), p.Positive.GetBucketCounts(), p.Negative.GetOffset(), p.Negative.GetBucketCounts(), ptr(p.Min), ptr(p.Max), otlpExemplars(p.Exemplars)))
		}
	case *metricsv1.Metric_Summary:
		kind = "summary"
		for _, p := range d.Summary.DataPoints {
			q := ""
			for _, v := range p.QuantileValues {
				q += fmt.Sprintf("%v:%v ", v.Quantile, v.Value)
			}
			ps = append(ps, fmt.Sprintf("%s %d %d %d %v %s", otlpAttrs(p.Attributes), p.StartTimeUnixNano, p.TimeUnixNano, p.Count, p.Sum, q))
		}
	}
	return fmt.Sprintf("%q %q %q %s\n  %s", m.Name, m.Description, m.Unit, kind, strings.Join(ps, "\n  "))
}

func (g gen) resource() *resource.Resource {
	a := attribute.NewSet(g.attrs(2)...)
	// one schema for each set of attributes
	return resource.NewWithAttributes([]string{"", "https://opentelemetry.io/schemas/1.24.0"}[a.Len()%2], a.ToSlice()...)
}

// reuse overwrites all memory of metrics but attribute sets.
func reuse(v reflect.Value) {
	switch v.Kind() {
	case reflect.Slice:
		for i := 0; i < v.Len(); i++ {
			reuse(v.Index(i))
			v.Index(i).SetZero()
		}
	case reflect.Interface:
		reuse(v.Elem())
	case reflect.Struct:
		if v.Type() == reflect.TypeFor[attribute.Set]() || v.Type() == reflect.TypeFor[attribute.KeyValue]() {
			return
		}
		for i := 0; i < v.NumField(); i++ {
			if v.Type().Field(i).IsExported() {
				reuse(v.Field(i))
			}
		}
	}
}

func TestProperty(t *testing.T) {
	kit.Run(t, func(c *kit.Case) {
		col := &metrics{}
		e := &self.Metrics{Collector: col}
		for n := c2(c, "exports", 1, 3); n > 0; n-- {
			g := &gen{Case: c}
			rm := &metricdata.ResourceMetrics{Resource: g.resource()}
			type scope struct {
				text string
				ms   []string
			}
			var want []scope
			total := 0
			for s := g.n("scopes", 0, 3); s > 0; s-- {
				sm := metricdata.ScopeMetrics{Scope: instrumentation.Scope{Name: kit.Of(c.T, "scope", kit.Scopes), Version: kit.Of(c.T, "version", kit.Version), SchemaURL: kit.Of(c.T, "schema", kit.Schemas)}}
				w := scope{text: fmt.Sprintf("%q %q %q", sm.Scope.Name, sm.Scope.Version, sm.Scope.SchemaURL)}
				for k := g.n("metrics", 0, 3); k > 0; k-- {
					m, text, ok := g.metric()
					sm.Metrics = append(sm.Metrics, m)
					if ok {
						total++
						w.ms = append(w.ms, text)
					}
				}
				rm.ScopeMetrics = append(rm.ScopeMetrics, sm)
				want = append(want, w)
			}
			col.got, col.err = nil, nil
			if g.n("down", 0, 9) == 0 {
				col.err = errDown
			}
			c.Logf("%v bad=%d down=%v", want, g.bad, col.err)
			err := e.Export(context.Background(), rm)
			if (g.bad > 0 || col.err != nil) != (err != nil) {
				c.Fatalf("%d metrics can not be converted, collector %v: export returned %v", g.bad, col.err, err)
			}
			if col.err != nil && !errors.Is(err, errDown) {
				c.Fatalf("the collector failed: export returned %v", err)
			}
			if len(col.got) != 1 || len(col.got[0].ResourceMetrics) != 1 {
				c.Fatalf("the collector got %v", col.got)
			}
			// the sdk collects into the same memory again
			reuse(reflect.ValueOf(rm.ScopeMetrics))
			got := col.got[0].ResourceMetrics[0]
			if a, b := otlpAttrs(got.Resource.GetAttributes()), sdkAttrs(rm.Resource.Attributes()); !same(a, b) || got.SchemaUrl != rm.Resource.SchemaURL() {
				c.Fatalf("resource %s %s, want %s %s", a, got.SchemaUrl, b, rm.Resource.SchemaURL())
			}
			i := 0
			for _, w := range want {
				if i < len(got.ScopeMetrics) {
					s := got.ScopeMetrics[i]
					text := fmt.Sprintf("%q %q %q", s.GetScope().GetName(), s.GetScope().GetVersion(), s.SchemaUrl)
					if text == w.text && len(s.Metrics) == len(w.ms) {
						for j, m := range s.Metrics {
							if x := otlpMetric(m); !same(x, w.ms[j]) {
								c.Fatalf("metric\n%s\nwant\n%s", x, w.ms[j])
							}
						}
						i++
						continue
					}
				}
				if len(w.ms) > 0 {
					c.Fatalf("scope %s is missing or other: %v", w.text, got)
				}
			}
			if i != len(got.ScopeMetrics) {
				c.Fatalf("%d scopes, want %d", len(got.ScopeMetrics), i)
			}
			c.ClassIf(g.bad > 0 && total > 0, "some can not be converted")
			c.NonTrivialIf(total > 0)
		}
	})
}

func c2(c *kit.Case, name string, lo, hi int) int { return rapid.IntRange(lo, hi).Draw(c.T, name) }

func (g gen) context() trace.SpanContext {
	cfg := trace.SpanContextConfig{}
	copy(cfg.TraceID[:], kit.Of(g.T, "trace", kit.TraceID))
	copy(cfg.SpanID[:], kit.Of(g.T, "span", kit.SpanID))
	if g.n("state", 0, 2) == 0 {
		s, err := trace.ParseTraceState("a=1,b=2")
		g.Must(err, "state")
		cfg.TraceState = s
	}
	return trace.NewSpanContext(cfg)
}

// TestSpans does the same for spans.
func TestSpans(t *testing.T) {
	kit.Run(t, func(c *kit.Case) {
		col := &traces{}
		e := &self.Trace{Collector: col}
		for n := c2(c, "exports", 1, 2); n > 0; n-- {
			g := gen{Case: c}
			var rs []*resource.Resource
			for i := g.n("resources", 1, 3); i > 0; i-- {
				rs = append(rs, g.resource())
			}
			var stubs tracetest.SpanStubs
			want := map[string][]string{}
			for i := g.n("spans", 1, 6); i > 0; i-- {
				s := tracetest.SpanStub{Name: kit.Of(c.T, "name", kit.Names), SpanContext: g.context(), Parent: g.context(), SpanKind: trace.SpanKind(g.n("kind", 0, 6)),
					StartTime: g.at(), EndTime: g.at(), Attributes: g.attrs(3),
					Status:            sdktrace.Status{Code: kit.Of(c.T, "code", []codes.Code{codes.Unset, codes.Error, codes.Ok}), Description: kit.Of(c.T, "description", kit.Values)},
					DroppedAttributes: g.n("dropped", 0, 5), DroppedEvents: g.n("dropped", 0, 5), DroppedLinks: g.n("dropped", 0, 5),
					Resource:               kit.Of(c.T, "resource", rs),
					InstrumentationLibrary: instrumentation.Scope{Name: kit.Of(c.T, "scope", kit.Scopes), Version: kit.Of(c.T, "version", kit.Version), SchemaURL: kit.Of(c.T, "schema", kit.Schemas)}}
				text := fmt.Sprintf("%q %s %s %q %s %d %d-%d %s %d %d %d %s:%q", s.Name, hexID(s.SpanContext.TraceID()), hexSpan(s.SpanContext.SpanID()), s.SpanContext.TraceState(), parent(s.Parent.SpanID()),
					kinds[s.SpanKind], ns(s.StartTime), ns(s.EndTime), sdkAttrs(s.Attributes), s.DroppedAttributes, s.DroppedEvents, s.DroppedLinks,
					map[codes.Code]string{codes.Unset: "UNSET", codes.Error: "ERROR", codes.Ok: "OK"}[s.Status.Code], s.Status.Description)
				for j := g.n("events", 0, 2); j > 0; j-- {
					ev := sdktrace.Event{Name: kit.Of(c.T, "event", kit.Names), Attributes: g.attrs(2), DroppedAttributeCount: g.n("dropped", 0, 3), Time: g.at()}
					s.Events = append(s.Events, ev)
					text += fmt.Sprintf("\n  event %q %d %s %d", ev.Name, ns(ev.Time), sdkAttrs(ev.Attributes), ev.DroppedAttributeCount)
				}
				for j := g.n("links", 0, 2); j > 0; j-- {
					l := sdktrace.Link{SpanContext: g.context(), Attributes: g.attrs(2), DroppedAttributeCount: g.n("dropped", 0, 3)}
					s.Links = append(s.Links, l)
					text += fmt.Sprintf("\n  link %s %s %q %s %d", hexID(l.SpanContext.TraceID()), hexSpan(l.SpanContext.SpanID()), l.SpanContext.TraceState(), sdkAttrs(l.Attributes), l.DroppedAttributeCount)
				}
				stubs = append(stubs, s)
				c.Logf("%s", text)
				lib := s.InstrumentationLibrary
				k := group(sdkAttrs(s.Resource.Attributes()), s.Resource.SchemaURL(), lib.Name, lib.Version, lib.SchemaURL)
				want[k] = append(want[k], text)
			}
			col.got, col.err = nil, nil
			if g.n("down", 0, 9) == 0 {
				col.err = errDown
			}
			err := e.ExportSpans(context.Background(), stubs.Snapshots())
			if !errors.Is(err, col.err) {
				c.Fatalf("the collector returned %v, export %v", col.err, err)
			}
			if len(col.got) != 1 {
				c.Fatalf("the collector got %v", col.got)
			}
			got := map[string][]string{}
			for _, r := range col.got[0].ResourceSpans {
				for _, s := range r.ScopeSpans {
					k := group(otlpAttrs(r.Resource.GetAttributes()), r.SchemaUrl, s.GetScope().GetName(), s.GetScope().GetVersion(), s.SchemaUrl)
					for _, sp := range s.Spans {
						got[k] = append(got[k], otlpSpan(sp))
					}
				}
			}
			if !same(flat(got), flat(want)) {
				c.Fatalf("spans\n%s\nwant\n%s", flat(got), flat(want))
			}
			c.ClassIf(len(want) > 1, "several groups")
			c.NonTrivialIf(len(stubs) > 1)
		}
	})
}

var kinds = map[trace.SpanKind]tracev1.Span_SpanKind{trace.SpanKindInternal: 1, trace.SpanKindServer: 2, trace.SpanKindClient: 3, trace.SpanKindProducer: 4, trace.SpanKindConsumer: 5}

func hexID(id trace.TraceID) string { return fmt.Sprintf("%x", id[:]) }

func hexSpan(id trace.SpanID) string { return fmt.Sprintf("%x", id[:]) }

func parent(id trace.SpanID) string {
	if id == (trace.SpanID{}) {
		return "-"
	}
	return fmt.Sprintf("%x", id[:])
}

func group(attrs, schema, name, version, scopeSchema string) string {
	for _, t := range []string{"BOOL", "INT64", "FLOAT64", "STRING"} {
		attrs = strings.ReplaceAll(attrs, t+"SLICE:[]", "SLICE:[]")
	}
	return fmt.Sprintf("%s %q %q %q %q", attrs, schema, name, version, scopeSchema)
}

func otlpSpan(s *tracev1.Span) string {
	p := "-"
	if len(s.ParentSpanId) > 0 {
		p = fmt.Sprintf("%x", s.ParentSpanId)
	}
	text := fmt.Sprintf("%q %x %x %q %s %d %d-%d %s %d %d %d %s:%q", s.Name, s.TraceId, s.SpanId, s.TraceState, p, s.Kind, s.StartTimeUnixNano, s.EndTimeUnixNano, otlpAttrs(s.Attributes),
		s.DroppedAttributesCount, s.DroppedEventsCount, s.DroppedLinksCount, strings.TrimPrefix(s.Status.GetCode().String(), "STATUS_CODE_"), s.Status.GetMessage())
	for _, e := range s.Events {
		text += fmt.Sprintf("\n  event %q %d %s %d", e.Name, e.TimeUnixNano, otlpAttrs(e.Attributes), e.DroppedAttributesCount)
	}
	for _, l := range s.Links {
		text += fmt.Sprintf("\n  link %x %x %q %s %d", l.TraceId, l.SpanId, l.TraceState, otlpAttrs(l.Attributes), l.DroppedAttributesCount)
	}
	return text
}

func flat(m map[string][]string) string {
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	var o []string
	for _, k := range ks {
		v := slices.Clone(m[k])
		slices.Sort(v)
		o = append(o, k+"\n "+strings.Join(v, "\n "))
	}
	return strings.Join(o, "\n")
}
