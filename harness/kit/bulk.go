package kit

import (
	"context"
	"fmt"
	"time"

	v1 "github.com/gernest/requiemdb/gen/go/rq/v1"
	commonv1 "go.opentelemetry.io/proto/otlp/common/v1"
	logsv1 "go.opentelemetry.io/proto/otlp/logs/v1"
	metricsv1 "go.opentelemetry.io/proto/otlp/metrics/v1"
	resourcev1 "go.opentelemetry.io/proto/otlp/resource/v1"
	tracev1 "go.opentelemetry.io/proto/otlp/trace/v1"
	"google.golang.org/protobuf/proto"
)

// Clone of data.
func Clone(d *v1.Data) *v1.Data { return proto.Clone(d).(*v1.Data) }

// Small is a sample with one point, that has the resource attribute id=name.
func Small(k Kind, at time.Time, name string) *v1.Data {
	res := &resourcev1.Resource{Attributes: []*commonv1.KeyValue{{Key: "id", Value: &commonv1.AnyValue{Value: &commonv1.AnyValue_StringValue{StringValue: name}}}}}
	ts := uint64(at.UnixNano())
	switch k {
	case KMetrics:
		return &v1.Data{Data: &v1.Data_Metrics{Metrics: &metricsv1.MetricsData{ResourceMetrics: []*metricsv1.ResourceMetrics{{Resource: res,
			ScopeMetrics: []*metricsv1.ScopeMetrics{{Metrics: []*metricsv1.Metric{{Name: "m", Data: &metricsv1.Metric_Gauge{Gauge: &metricsv1.Gauge{
				DataPoints: []*metricsv1.NumberDataPoint{{TimeUnixNano: ts, Value: &metricsv1.NumberDataPoint_AsInt{AsInt: int64(len(name))}}}}}}}}}}}}}}
	case KLogs:
		return &v1.Data{Data: &v1.Data_Logs{Logs: &logsv1.LogsData{ResourceLogs: []*logsv1.ResourceLogs{{Resource: res,
			ScopeLogs: []*logsv1.ScopeLogs{{LogRecords: []*logsv1.LogRecord{{TimeUnixNano: ts, SeverityText: "INFO"}}}}}}}}}
	default:
		return &v1.Data{Data: &v1.Data_Traces{Traces: &tracev1.TracesData{ResourceSpans: []*tracev1.ResourceSpans{{Resource: res,
			ScopeSpans: []*tracev1.ScopeSpans{{Spans: []*tracev1.Span{{Name: "s", StartTimeUnixNano: ts, EndTimeUnixNano: ts + 1}}}}}}}}}
	}
}

// Bulk verifies many small samples: all of them by hour, and about n of them by
// their own attribute.
func Bulk(scan ScanFn, m *Model, n int) string {
	ctx := context.Background()
	hours := map[Kind]map[time.Time][]*Stored{}
	for _, s := range m.All {
		if hours[s.Kind] == nil {
			hours[s.Kind] = map[time.Time][]*Stored{}
		}
		h := Floor(s.At(), 'H')
		hours[s.Kind][h] = append(hours[s.Kind][h], s)
	}
	for k, hs := range hours {
		for h, want := range hs {
			got, err := scan(ctx, Range(k, h, h.Add(time.Hour)))
			if err != nil {
				return fmt.Sprintf("scan: unexpected error: %v", err)
			}
			if d := Diff(AllPoints(want), Points(got)); d != "" {
				return fmt.Sprintf("%s of hour %s: want %d points, got %d\n%s", k, h, len(want), len(Points(got)), d)
			}
		}
	}
	step := len(m.All)/n + 1
	for i := 0; i < len(m.All); i += step {
		s := m.All[i]
		h := Floor(s.At(), 'H')
		l := &v1.Scan_Filter{Value: &v1.Scan_Filter_Attr{Attr: &v1.Scan_AttrFilter{Prop: v1.Scan_RESOURCE_ATTRIBUTES, Key: "id", Value: Points(s.Data)[0].Resource.Attributes[0].Value.GetStringValue()}}}
		got, err := scan(ctx, Range(s.Kind, h, h.Add(time.Hour), l))
		if err != nil {
			return fmt.Sprintf("scan: unexpected error: %v", err)
		}
		if d := Diff(Points(s.Data), Points(got)); d != "" {
			return fmt.Sprintf("sample %d by its attribute %v\n%s", s.ID, l, d)
		}
	}
	return ""
}
