package kit

import (
	"fmt"
	"math"
	"sort"
	"strings"

	v1 "github.com/gernest/requiemdb/gen/go/rq/v1"
	commonv1 "go.opentelemetry.io/proto/otlp/common/v1"
	logsv1 "go.opentelemetry.io/proto/otlp/logs/v1"
	metricsv1 "go.opentelemetry.io/proto/otlp/metrics/v1"
	resourcev1 "go.opentelemetry.io/proto/otlp/resource/v1"
	tracev1 "go.opentelemetry.io/proto/otlp/trace/v1"
	"google.golang.org/protobuf/proto"
	"google.golang.org/protobuf/reflect/protoreflect"
	"pgregory.net/rapid"
)

// Gen generates OTLP data. Values come from small pools, so that different
// parts of a history collide often.
type Gen struct {
	T *rapid.T
	// Time draws a timestamp in nanoseconds.
	Time func() uint64
	// Max number of children at each level.
	MaxResources, MaxScopes, MaxMetrics, MaxPoints int
	// NilValues allows attributes without a value.
	NilValues bool
	// Lean leaves out parts that do not matter for indexing.
	Lean bool
	// End draws end time of a span that starts at a time.
	End func(start uint64) uint64
	// NaN allows not a number.
	NaN bool
	// Long allows text that exceeds limits of keys.
	Long bool
}

var (
	Keys    = []string{"a", "b", "service.name", "host", "a=b", `a\`, "state"}
	Values  = []string{"x", "y", "b=c", "c", "requiemdb", "", "=c", "a:b", strings.Repeat("long", 12), "世界"}
	Names   = []string{"cpu", "mem", "cpu=mem", "cpu.time", "GET /a?b=c", strings.Repeat("metric.", 8), "ü"}
	Schemas = []string{"", "s", "https://opentelemetry.io/schemas/1.24.0", "https://opentelemetry.io/schemas/1.25.0", "ss"}
	Scopes  = []string{"", "s", "lib", "libv", "go.opentelemetry.io/contrib/instrumentation/runtime"}
	Version = []string{"", "v", "1", "vv1", "0.49.0"}
	Levels  = []string{"", "INFO", "ERROR", "info", "WARN"}
	Units   = []string{"", "By", "ms", "1"}
	TraceID = [][]byte{nil, {1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16}, {0xff, 0xee, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 0}, {7}}
	SpanID  = [][]byte{nil, {1, 2, 3, 4, 5, 6, 7, 8}, {0xab, 0xcd, 3, 4, 5, 6, 7, 0}, {7}}
)

// Of draws one of xs.
func Of[T any](t *rapid.T, name string, xs []T) T {
	return xs[rapid.IntRange(0, len(xs)-1).Draw(t, name)]
}

func (g *Gen) n(name string, lo, hi int) int { return rapid.IntRange(lo, hi).Draw(g.T, name) }
func (g *Gen) bool(name string) bool         { return rapid.Bool().Draw(g.T, name) }

// chance is true once in n draws.
func (g *Gen) chance(name string, n int) bool { return rapid.IntRange(0, n-1).Draw(g.T, name) == n-1 }

// Long is text that differs in its last character.
func Long(t *rapid.T) string {
	return strings.Repeat("q", Of(t, "long", []int{1030, 33000, 66000})) + Of(t, "long end", []string{"x", "y", "z"})
}

func (g *Gen) str(name string, pool []string) string {
	if g.Long && g.chance(name+" long", 200) {
		return Long(g.T)
	}
	if g.chance(name+"?", 12) {
		return rapid.StringN(0, 12, -1).Draw(g.T, name)
	}
	return Of(g.T, name, pool)
}

func (g *Gen) double(name string) float64 {
	switch g.n(name+"?", 0, 9) {
	case 0:
		return 0
	case 1:
		return math.Inf(1)
	case 2:
		if g.NaN {
			return math.NaN()
		}
		return -1.5
	case 3:
		// cloning of messages loses the sign of zero
		return rapid.Float64().Draw(g.T, name) + 0
	default:
		return float64(g.n(name, -1000, 1000))/8 + 0
	}
}

func (g *Gen) int64(name string) int64 {
	switch g.n(name+"?", 0, 5) {
	case 0:
		return math.MaxInt64
	case 1:
		return math.MinInt64
	case 2:
		return 0
	default:
		return int64(g.n(name, -5000, 5000))
	}
}

func (g *Gen) uint64(name string) uint64 {
	if g.chance(name+"?", 8) {
		return math.MaxUint64
	}
	return uint64(g.n(name, 0, 3000))
}

// AnyValue draws an attribute value.
func (g *Gen) AnyValue(depth int) *commonv1.AnyValue {
	k := g.n("value.kind", 0, 11)
	if depth <= 0 && k >= 10 {
		k = 0
	}
	switch k {
	case 5:
		return &commonv1.AnyValue{Value: &commonv1.AnyValue_BoolValue{BoolValue: g.bool("value.bool")}}
	case 6:
		return &commonv1.AnyValue{Value: &commonv1.AnyValue_IntValue{IntValue: g.int64("value.int")}}
	case 7:
		return &commonv1.AnyValue{Value: &commonv1.AnyValue_DoubleValue{DoubleValue: g.double("value.double")}}
	case 8:
		return &commonv1.AnyValue{Value: &commonv1.AnyValue_BytesValue{BytesValue: []byte(Of(g.T, "value.bytes", Values) + "b")}}
	case 9:
		if g.NilValues {
			if g.bool("value.nil") {
				return nil
			}
			return &commonv1.AnyValue{}
		}
		return &commonv1.AnyValue{Value: &commonv1.AnyValue_StringValue{StringValue: "z"}}
	case 10:
		a := &commonv1.ArrayValue{}
		for i := g.n("value.array", 0, 3); i > 0; i-- {
			if v := g.AnyValue(depth - 1); v != nil {
				a.Values = append(a.Values, v)
			}
		}
		return &commonv1.AnyValue{Value: &commonv1.AnyValue_ArrayValue{ArrayValue: a}}
	case 11:
		return &commonv1.AnyValue{Value: &commonv1.AnyValue_KvlistValue{KvlistValue: &commonv1.KeyValueList{Values: g.KVs(2, depth-1)}}}
	default:
		return &commonv1.AnyValue{Value: &commonv1.AnyValue_StringValue{StringValue: g.str("value.str", Values)}}
	}
}

// KVs draws attributes. Keys are unique in the list.
func (g *Gen) KVs(max, depth int) (o []*commonv1.KeyValue) {
	seen := map[string]bool{}
	for i := g.n("attrs", 0, max); i > 0; i-- {
		k := g.str("key", Keys)
		if seen[k] {
			continue
		}
		seen[k] = true
		o = append(o, &commonv1.KeyValue{Key: k, Value: g.AnyValue(depth)})
	}
	return
}

// Resource draws a resource.
func (g *Gen) Resource() *resourcev1.Resource {
	if g.chance("resource.nil", 8) {
		return nil
	}
	r := &resourcev1.Resource{Attributes: g.KVs(2, 1)}
	if g.chance("resource.dropped", 4) {
		r.DroppedAttributesCount = 1 // tells resources apart as well
	}
	return r
}

// Scope draws an instrumentation scope.
func (g *Gen) Scope() *commonv1.InstrumentationScope {
	if g.chance("scope.nil", 8) {
		return nil
	}
	s := &commonv1.InstrumentationScope{
		Name: g.str("scope.name", Scopes), Version: g.str("scope.version", Version), Attributes: g.KVs(1, 1),
	}
	if g.chance("scope.dropped", 4) {
		s.DroppedAttributesCount = 2
	}
	return s
}

func (g *Gen) exemplars() (o []*metricsv1.Exemplar) {
	if g.Lean {
		return nil
	}
	for i := g.n("exemplars", 0, 1); i > 0; i-- {
		e := &metricsv1.Exemplar{
			FilteredAttributes: g.KVs(1, 0),
			TimeUnixNano:       g.uint64("exemplar.ts"),
			SpanId:             Of(g.T, "exemplar.span", SpanID),
			TraceId:            Of(g.T, "exemplar.trace", TraceID),
		}
		if g.bool("exemplar.int") {
			e.Value = &metricsv1.Exemplar_AsInt{AsInt: g.int64("exemplar.value")}
		} else {
			e.Value = &metricsv1.Exemplar_AsDouble{AsDouble: g.double("exemplar.value")}
		}
		o = append(o, e)
	}
	return
}

func (g *Gen) points() (o []*metricsv1.NumberDataPoint) {
	for i := g.n("points", 0, g.MaxPoints); i > 0; i-- {
		p := &metricsv1.NumberDataPoint{
			Attributes: g.KVs(2, 1), TimeUnixNano: g.Time(), Exemplars: g.exemplars(),
		}
		if !g.Lean {
			p.StartTimeUnixNano = g.uint64("start")
			p.Flags = uint32(g.n("flags", 0, 1))
		}
		switch g.n("point.kind", 0, 4) {
		case 0:
		case 1, 2:
			p.Value = &metricsv1.NumberDataPoint_AsInt{AsInt: g.int64("int")}
		default:
			p.Value = &metricsv1.NumberDataPoint_AsDouble{AsDouble: g.double("double")}
		}
		o = append(o, p)
	}
	return
}

func (g *Gen) opt(name string) *float64 {
	if g.bool(name + "?") {
		return nil
	}
	v := g.double(name)
	return &v
}

func (g *Gen) bucket(name string) *metricsv1.ExponentialHistogramDataPoint_Buckets {
	if g.chance(name, 3) {
		return nil
	}
	b := &metricsv1.ExponentialHistogramDataPoint_Buckets{Offset: int32(g.n("offset", -9, 9))}
	for i := g.n("buckets", 0, 3); i > 0; i-- {
		b.BucketCounts = append(b.BucketCounts, g.uint64("bucket"))
	}
	return b
}

// Metric draws a metric.
func (g *Gen) Metric() *metricsv1.Metric {
	m := &metricsv1.Metric{Name: g.str("metric.name", Names)}
	if !g.Lean || g.bool("metric.full") {
		m.Description = Of(g.T, "metric.description", []string{"", "d", "other", "in nanoseconds"})
		m.Unit = Of(g.T, "metric.unit", Units)
	}
	if !g.Lean && g.chance("metric.metadata", 6) {
		m.Metadata = g.KVs(1, 0)
	}
	tmp := metricsv1.AggregationTemporality(g.n("temporality", 0, 2))
	switch g.n("metric.type", 0, 8) {
	case 0:
	case 1, 2, 3:
		m.Data = &metricsv1.Metric_Gauge{Gauge: &metricsv1.Gauge{DataPoints: g.points()}}
	case 4, 5:
		m.Data = &metricsv1.Metric_Sum{Sum: &metricsv1.Sum{DataPoints: g.points(), AggregationTemporality: tmp, IsMonotonic: g.bool("monotonic")}}
	case 6:
		h := &metricsv1.Histogram{AggregationTemporality: tmp}
		for i := g.n("points", 0, g.MaxPoints); i > 0; i-- {
			p := &metricsv1.HistogramDataPoint{
				Attributes: g.KVs(2, 1), TimeUnixNano: g.Time(), StartTimeUnixNano: g.uint64("start"), Count: g.uint64("count"),
				Sum: g.opt("sum"), Min: g.opt("min"), Max: g.opt("max"), Exemplars: g.exemplars(),
			}
			for i := g.n("buckets", 0, 3); i > 0; i-- {
				p.BucketCounts = append(p.BucketCounts, g.uint64("bucket"))
				p.ExplicitBounds = append(p.ExplicitBounds, g.double("bound"))
			}
			h.DataPoints = append(h.DataPoints, p)
		}
		m.Data = &metricsv1.Metric_Histogram{Histogram: h}
	case 7:
		h := &metricsv1.ExponentialHistogram{AggregationTemporality: tmp}
		for i := g.n("points", 0, g.MaxPoints); i > 0; i-- {
			h.DataPoints = append(h.DataPoints, &metricsv1.ExponentialHistogramDataPoint{
				Attributes: g.KVs(2, 1), TimeUnixNano: g.Time(), StartTimeUnixNano: g.uint64("start"), Count: g.uint64("count"),
				Sum: g.opt("sum"), Min: g.opt("min"), Max: g.opt("max"), Scale: int32(g.n("scale", -4, 20)), ZeroCount: g.uint64("zero"),
				Positive: g.bucket("positive"), Negative: g.bucket("negative"), ZeroThreshold: g.double("threshold"), Exemplars: g.exemplars(),
			})
		}
		m.Data = &metricsv1.Metric_ExponentialHistogram{ExponentialHistogram: h}
	case 8:
		h := &metricsv1.Summary{}
		for i := g.n("points", 0, g.MaxPoints); i > 0; i-- {
			p := &metricsv1.SummaryDataPoint{
				Attributes: g.KVs(2, 1), TimeUnixNano: g.Time(), StartTimeUnixNano: g.uint64("start"), Count: g.uint64("count"), Sum: g.double("sum"),
			}
			for i := g.n("quantiles", 0, 2); i > 0; i-- {
				p.QuantileValues = append(p.QuantileValues, &metricsv1.SummaryDataPoint_ValueAtQuantile{Quantile: g.double("q"), Value: g.double("v")})
			}
			h.DataPoints = append(h.DataPoints, p)
		}
		m.Data = &metricsv1.Metric_Summary{Summary: h}
	}
	return m
}

// Metrics draws metrics data.
func (g *Gen) Metrics() *metricsv1.MetricsData {
	d := &metricsv1.MetricsData{}
	for i := g.n("resources", 0, g.MaxResources); i > 0; i-- {
		r := &metricsv1.ResourceMetrics{Resource: g.Resource(), SchemaUrl: g.str("resource.schema", Schemas)}
		for j := g.n("scopes", 0, g.MaxScopes); j > 0; j-- {
			s := &metricsv1.ScopeMetrics{Scope: g.Scope(), SchemaUrl: g.str("scope.schema", Schemas)}
			for k := g.n("metrics", 0, g.MaxMetrics); k > 0; k-- {
				s.Metrics = append(s.Metrics, g.Metric())
			}
			r.ScopeMetrics = append(r.ScopeMetrics, s)
		}
		d.ResourceMetrics = append(d.ResourceMetrics, r)
	}
	return d
}

// LogRecord draws a log record.
func (g *Gen) LogRecord() *logsv1.LogRecord {
	r := &logsv1.LogRecord{
		TimeUnixNano: g.Time(), SeverityText: g.str("level", Levels), Attributes: g.KVs(2, 1),
		TraceId: Of(g.T, "trace", TraceID), SpanId: Of(g.T, "span", SpanID),
	}
	if !g.Lean {
		r.ObservedTimeUnixNano = g.uint64("observed")
		r.SeverityNumber = logsv1.SeverityNumber(g.n("severity", 0, 24))
		if !g.chance("body.nil", 5) {
			r.Body = g.AnyValue(2)
		}
		r.DroppedAttributesCount = uint32(g.n("dropped", 0, 2))
		r.Flags = uint32(g.n("flags", 0, 2))
	}
	return r
}

// Logs draws logs data.
func (g *Gen) Logs() *logsv1.LogsData {
	d := &logsv1.LogsData{}
	for i := g.n("resources", 0, g.MaxResources); i > 0; i-- {
		r := &logsv1.ResourceLogs{Resource: g.Resource(), SchemaUrl: g.str("resource.schema", Schemas)}
		for j := g.n("scopes", 0, g.MaxScopes); j > 0; j-- {
			s := &logsv1.ScopeLogs{Scope: g.Scope(), SchemaUrl: g.str("scope.schema", Schemas)}
			for k := g.n("records", 0, g.MaxPoints); k > 0; k-- {
				s.LogRecords = append(s.LogRecords, g.LogRecord())
			}
			r.ScopeLogs = append(r.ScopeLogs, s)
		}
		d.ResourceLogs = append(d.ResourceLogs, r)
	}
	return d
}

// Span draws a span.
func (g *Gen) Span() *tracev1.Span {
	start := g.Time()
	end := start
	if g.End != nil {
		end = g.End(start)
	}
	s := &tracev1.Span{
		TraceId: Of(g.T, "trace", TraceID), SpanId: Of(g.T, "span", SpanID), ParentSpanId: Of(g.T, "parent", SpanID),
		Name: g.str("span.name", Names), StartTimeUnixNano: start, EndTimeUnixNano: end, Attributes: g.KVs(2, 1),
	}
	if g.chance("span.noname", 10) {
		s.Name = ""
	}
	if !g.Lean {
		s.TraceState = g.str("state", Values)
		s.Flags = uint32(g.n("flags", 0, 2))
		s.Kind = tracev1.Span_SpanKind(g.n("kind", 0, 5))
		s.DroppedAttributesCount = uint32(g.n("dropped", 0, 1))
		for i := g.n("events", 0, 1); i > 0; i-- {
			s.Events = append(s.Events, &tracev1.Span_Event{TimeUnixNano: g.uint64("event.ts"), Name: g.str("event", Names), Attributes: g.KVs(1, 0), DroppedAttributesCount: uint32(g.n("dropped", 0, 1))})
		}
		s.DroppedEventsCount = uint32(g.n("dropped", 0, 1))
		for i := g.n("links", 0, 1); i > 0; i-- {
			s.Links = append(s.Links, &tracev1.Span_Link{TraceId: Of(g.T, "link.trace", TraceID), SpanId: Of(g.T, "link.span", SpanID), TraceState: g.str("state", Values), Attributes: g.KVs(1, 0), Flags: uint32(g.n("flags", 0, 1))})
		}
		s.DroppedLinksCount = uint32(g.n("dropped", 0, 1))
		if g.bool("status") {
			s.Status = &tracev1.Status{Message: g.str("status.msg", Values), Code: tracev1.Status_StatusCode(g.n("status.code", 0, 2))}
		}
	}
	return s
}

// Traces draws traces data.
func (g *Gen) Traces() *tracev1.TracesData {
	d := &tracev1.TracesData{}
	for i := g.n("resources", 0, g.MaxResources); i > 0; i-- {
		r := &tracev1.ResourceSpans{Resource: g.Resource(), SchemaUrl: g.str("resource.schema", Schemas)}
		for j := g.n("scopes", 0, g.MaxScopes); j > 0; j-- {
			s := &tracev1.ScopeSpans{Scope: g.Scope(), SchemaUrl: g.str("scope.schema", Schemas)}
			for k := g.n("spans", 0, g.MaxPoints); k > 0; k-- {
				s.Spans = append(s.Spans, g.Span())
			}
			r.ScopeSpans = append(r.ScopeSpans, s)
		}
		d.ResourceSpans = append(d.ResourceSpans, r)
	}
	return d
}

// Kind of signal.
type Kind int

const (
	KMetrics Kind = iota
	KLogs
	KTraces
)

func (k Kind) String() string { return [...]string{"metrics", "logs", "traces"}[k] }

// Scope of scans for the kind.
func (k Kind) Scope() v1.Scan_SCOPE {
	return [...]v1.Scan_SCOPE{v1.Scan_METRICS, v1.Scan_LOGS, v1.Scan_TRACES}[k]
}

// Data draws data of a kind.
func (g *Gen) Data(k Kind) *v1.Data {
	switch k {
	case KMetrics:
		return &v1.Data{Data: &v1.Data_Metrics{Metrics: g.Metrics()}}
	case KLogs:
		return &v1.Data{Data: &v1.Data_Logs{Logs: g.Logs()}}
	default:
		return &v1.Data{Data: &v1.Data_Traces{Traces: g.Traces()}}
	}
}

// KindOf data.
func KindOf(d *v1.Data) (Kind, bool) {
	switch d.GetData().(type) {
	case *v1.Data_Metrics:
		return KMetrics, true
	case *v1.Data_Logs:
		return KLogs, true
	case *v1.Data_Traces:
		return KTraces, true
	}
	return 0, false
}

// Normalize clears singular messages without any content in m. A missing
// message and an empty one mean the same in OTLP.
func Normalize[T proto.Message](m T) T {
	c := proto.Clone(m)
	normalize(c.ProtoReflect())
	return c.(T)
}

func normalize(m protoreflect.Message) {
	m.Range(func(fd protoreflect.FieldDescriptor, v protoreflect.Value) bool {
		if fd.Message() == nil || fd.IsMap() {
			return true
		}
		if fd.IsList() {
			l := v.List()
			for i := 0; i < l.Len(); i++ {
				normalize(l.Get(i).Message())
			}
			return true
		}
		normalize(v.Message())
		if fd.ContainingOneof() == nil && proto.Size(v.Message().Interface()) == 0 {
			m.Clear(fd)
		}
		return true
	})
}

// Point is one data point, log record or span with everything that identifies
// it.
type Point struct {
	ResourceSchema string
	Resource       *resourcev1.Resource
	ScopeSchema    string
	Scope          *commonv1.InstrumentationScope
	Metric         *metricsv1.Metric // without points
	Type           string
	Msg            proto.Message
	Time           uint64
	Attrs          []*commonv1.KeyValue
	Group          int // number of the list that the point is part of
}

// Tag adds an attribute to the point.
func Tag(p *Point, v string) {
	kv := &commonv1.KeyValue{Key: "tag", Value: &commonv1.AnyValue{Value: &commonv1.AnyValue_StringValue{StringValue: v}}}
	switch e := p.Msg.(type) {
	case *metricsv1.NumberDataPoint:
		e.Attributes = append(e.Attributes, kv)
	case *metricsv1.HistogramDataPoint:
		e.Attributes = append(e.Attributes, kv)
	case *metricsv1.ExponentialHistogramDataPoint:
		e.Attributes = append(e.Attributes, kv)
	case *metricsv1.SummaryDataPoint:
		e.Attributes = append(e.Attributes, kv)
	case *logsv1.LogRecord:
		e.Attributes = append(e.Attributes, kv)
	case *tracev1.Span:
		e.Attributes = append(e.Attributes, kv)
	}
}

// Key is the canonical form of the point.
func (p *Point) Key() string {
	var b strings.Builder
	m := func(x proto.Message) {
		if x == nil || !x.ProtoReflect().IsValid() {
			b.WriteString("|-")
			return
		}
		d, err := proto.MarshalOptions{Deterministic: true}.Marshal(Normalize(x))
		if err != nil {
			panic(err)
		}
		if len(d) == 0 {
			b.WriteString("|-")
			return
		}
		fmt.Fprintf(&b, "|%x", d)
	}
	fmt.Fprintf(&b, "%s|%q", p.Type, p.ResourceSchema)
	m(p.Resource)
	fmt.Fprintf(&b, "|%q", p.ScopeSchema)
	m(p.Scope)
	m(p.Metric)
	m(p.Msg)
	return b.String()
}

func (p *Point) String() string {
	return fmt.Sprintf("%s{resource %q %v scope %q %v metric %v: %v}", p.Type, p.ResourceSchema, p.Resource, p.ScopeSchema, p.Scope, p.Metric, p.Msg)
}

// Points flattens data.
func Points(d *v1.Data) (o []*Point) {
	list := 0
	for _, r := range d.GetMetrics().GetResourceMetrics() {
		for _, s := range r.ScopeMetrics {
			for _, m := range s.Metrics {
				list++
				base := Point{Group: list, ResourceSchema: r.SchemaUrl, Resource: r.Resource, ScopeSchema: s.SchemaUrl, Scope: s.Scope}
				h := &metricsv1.Metric{Name: m.Name, Description: m.Description, Unit: m.Unit, Metadata: m.Metadata}
				base.Metric = h
				add := func(typ string, msg proto.Message, ts uint64, kv []*commonv1.KeyValue) {
					p := base
					p.Type, p.Msg, p.Time, p.Attrs = typ, msg, ts, kv
					o = append(o, &p)
				}
				switch e := m.Data.(type) {
				case *metricsv1.Metric_Gauge:
					for _, p := range e.Gauge.GetDataPoints() {
						add("gauge", p, p.TimeUnixNano, p.Attributes)
					}
				case *metricsv1.Metric_Sum:
					for _, p := range e.Sum.GetDataPoints() {
						add(fmt.Sprint("sum", e.Sum.AggregationTemporality, e.Sum.IsMonotonic), p, p.TimeUnixNano, p.Attributes)
					}
				case *metricsv1.Metric_Histogram:
					for _, p := range e.Histogram.GetDataPoints() {
						add(fmt.Sprint("histogram", e.Histogram.AggregationTemporality), p, p.TimeUnixNano, p.Attributes)
					}
				case *metricsv1.Metric_ExponentialHistogram:
					for _, p := range e.ExponentialHistogram.GetDataPoints() {
						add(fmt.Sprint("exponential", e.ExponentialHistogram.AggregationTemporality), p, p.TimeUnixNano, p.Attributes)
					}
				case *metricsv1.Metric_Summary:
					for _, p := range e.Summary.GetDataPoints() {
						add("summary", p, p.TimeUnixNano, p.Attributes)
					}
				}
			}
		}
	}
	for _, r := range d.GetLogs().GetResourceLogs() {
		for _, s := range r.ScopeLogs {
			list++
			for _, l := range s.LogRecords {
				o = append(o, &Point{Group: list, ResourceSchema: r.SchemaUrl, Resource: r.Resource, ScopeSchema: s.SchemaUrl, Scope: s.Scope,
					Type: "log", Msg: l, Time: l.TimeUnixNano, Attrs: l.Attributes})
			}
		}
	}
	for _, r := range d.GetTraces().GetResourceSpans() {
		for _, s := range r.ScopeSpans {
			list++
			for _, l := range s.Spans {
				o = append(o, &Point{Group: list, ResourceSchema: r.SchemaUrl, Resource: r.Resource, ScopeSchema: s.SchemaUrl, Scope: s.Scope,
					Type: "span", Msg: l, Time: l.StartTimeUnixNano, Attrs: l.Attributes})
			}
		}
	}
	return
}

// Diff compares two sets of points as multisets. It returns "" when they are
// the same.
func Diff(want, got []*Point) string {
	m := map[string]int{}
	ex := map[string]*Point{}
	for _, p := range want {
		k := p.Key()
		m[k]++
		ex[k] = p
	}
	for _, p := range got {
		k := p.Key()
		m[k]--
		if ex[k] == nil {
			ex[k] = p
		}
	}
	var ks []string
	for k, n := range m {
		if n != 0 {
			ks = append(ks, k)
		}
	}
	if len(ks) == 0 {
		return ""
	}
	sort.Strings(ks)
	var b strings.Builder
	for i, k := range ks {
		if i == 4 {
			fmt.Fprintf(&b, "... and %d more\n", len(ks)-i)
			break
		}
		if m[k] > 0 {
			fmt.Fprintf(&b, "missing x%d: %v\n", m[k], ex[k])
		} else {
			fmt.Fprintf(&b, "unexpected x%d: %v\n", -m[k], ex[k])
		}
	}
	return b.String()
}

// Groups counts scopes by their resource, and metrics by their scope, without
// those in scopes that have nothing.
func Groups(d *v1.Data) map[string]int {
	o := map[string]int{}
	add := func(rs string, r *resourcev1.Resource, ss string, s *commonv1.InstrumentationScope) {
		if proto.Size(s) != 0 {
			o[(&Point{ResourceSchema: rs, Resource: r, ScopeSchema: ss, Scope: s, Type: "scope"}).group()]++
		}
	}
	for _, r := range d.GetMetrics().GetResourceMetrics() {
		for _, s := range r.ScopeMetrics {
			add(r.SchemaUrl, r.Resource, s.SchemaUrl, s.Scope)
			for _, m := range s.Metrics {
				if proto.Size(s.Scope) == 0 {
					continue
				}
				x := proto.Clone(m).(*metricsv1.Metric)
				switch e := x.Data.(type) {
				case *metricsv1.Metric_Gauge:
					e.Gauge.DataPoints = nil
				case *metricsv1.Metric_Sum:
					e.Sum.DataPoints = nil
				case *metricsv1.Metric_Histogram:
					e.Histogram.DataPoints = nil
				case *metricsv1.Metric_ExponentialHistogram:
					e.ExponentialHistogram.DataPoints = nil
				case *metricsv1.Metric_Summary:
					e.Summary.DataPoints = nil
				}
				o[(&Point{ResourceSchema: r.SchemaUrl, Resource: r.Resource, ScopeSchema: s.SchemaUrl, Scope: s.Scope, Type: "metric", Metric: x}).group()]++
			}
		}
	}
	for _, r := range d.GetLogs().GetResourceLogs() {
		for _, s := range r.ScopeLogs {
			add(r.SchemaUrl, r.Resource, s.SchemaUrl, s.Scope)
		}
	}
	for _, r := range d.GetTraces().GetResourceSpans() {
		for _, s := range r.ScopeSpans {
			add(r.SchemaUrl, r.Resource, s.SchemaUrl, s.Scope)
		}
	}
	return o
}

// group is the identity of the list that a point belongs to.
func (p *Point) group() string {
	g := *p
	g.Msg = nil
	return g.Key()
}

// Repeated returns groups that do not have one clear list in data: groups that
// exist more than once, and those without anything in their scope.
func Repeated(d *v1.Data, o map[string]bool) map[string]bool {
	if o == nil {
		o = map[string]bool{}
	}
	in := map[string]int{}
	for _, p := range Points(d) {
		k := p.group()
		if n, ok := in[k]; ok && n != p.Group || p.Scope == nil || proto.Size(p.Scope) == 0 {
			o[k] = true
		}
		in[k] = p.Group
	}
	return o
}

// DiffOrder compares the order of points that belong together: those with the
// same resource, scope and metric. Groups in skip are not compared.
func DiffOrder(want, got []*Point, skip map[string]bool) string {
	group := func(ps []*Point) (map[string][]string, map[string]*Point) {
		m, ex := map[string][]string{}, map[string]*Point{}
		for _, p := range ps {
			k := p.group()
			m[k] = append(m[k], fmt.Sprint(Normalize(p.Msg)))
			ex[k] = p
		}
		return m, ex
	}
	w, _ := group(want)
	g, ex := group(got)
	for k, ms := range g {
		for i := range ms {
			if skip[k] {
				continue
			}
			if i >= len(w[k]) || w[k][i] != ms[i] {
				return fmt.Sprintf("in the group of %v\nwant order %v\ngot order  %v", ex[k], w[k], ms)
			}
		}
	}
	return ""
}

// Times returns the time span [lo, hi] of known timestamps in data the way it
// is documented for samples: start of spans, end of spans and time of points.
func Times(d *v1.Data) (lo, hi uint64) {
	for _, p := range Points(d) {
		if p.Time != 0 && (lo == 0 || p.Time < lo) {
			lo = p.Time
		}
		e := p.Time
		if s, ok := p.Msg.(*tracev1.Span); ok {
			e = s.EndTimeUnixNano
		}
		hi = max(hi, e)
	}
	return
}

// Resources lists identities of distinct resources in the order of their first
// occurrence.
func Resources(ds ...*v1.Data) (o []string) {
	known := map[string]bool{}
	for _, d := range ds {
		for _, r := range AllResources(d) {
			if !known[r] {
				known[r] = true
				o = append(o, r)
			}
		}
	}
	return
}

// AllResources lists identities of resources in order.
func AllResources(d *v1.Data) (o []string) {
	add := func(schema string, r *resourcev1.Resource) {
		b, err := proto.MarshalOptions{Deterministic: true}.Marshal(&resourcev1.Resource{Attributes: r.GetAttributes(), DroppedAttributesCount: r.GetDroppedAttributesCount()})
		if err != nil {
			panic(err)
		}
		o = append(o, fmt.Sprintf("%q|%x", schema, b))
	}
	for _, r := range d.GetMetrics().GetResourceMetrics() {
		add(r.SchemaUrl, r.Resource)
	}
	for _, r := range d.GetLogs().GetResourceLogs() {
		add(r.SchemaUrl, r.Resource)
	}
	for _, r := range d.GetTraces().GetResourceSpans() {
		add(r.SchemaUrl, r.Resource)
	}
	return
}
