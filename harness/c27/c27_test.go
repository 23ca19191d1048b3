// Odd requests: nothing that a client can send stops the server or takes away
// what others stored.
package c27

import (
	"context"
	"encoding/binary"
	"fmt"
	"math"
	"os"
	"runtime/debug"
	"runtime/metrics"
	"strings"
	"testing"
	"time"

	v1 "github.com/gernest/requiemdb/gen/go/rq/v1"
	"github.com/gernest/requiemdb/internal/service"
	"github.com/gernest/requiemdb/internal/zzverif/kit"
	collector_logs "go.opentelemetry.io/proto/otlp/collector/logs/v1"
	collector_metrics "go.opentelemetry.io/proto/otlp/collector/metrics/v1"
	collector_trace "go.opentelemetry.io/proto/otlp/collector/trace/v1"
	commonv1 "go.opentelemetry.io/proto/otlp/common/v1"
	metricsv1 "go.opentelemetry.io/proto/otlp/metrics/v1"
	resourcev1 "go.opentelemetry.io/proto/otlp/resource/v1"
	"google.golang.org/protobuf/proto"
	"google.golang.org/protobuf/reflect/protoreflect"
	"google.golang.org/protobuf/types/known/durationpb"
	"google.golang.org/protobuf/types/known/timestamppb"
	"pgregory.net/rapid"
)

// A small request has no business with more memory than this.
const enough = 3 << 30

func init() {
	kit.Slow = -80 * time.Second
	debug.SetMemoryLimit(enough / 2)
	go func() {
		s := []metrics.Sample{{Name: "/memory/classes/heap/objects:bytes"}}
		for {
			metrics.Read(s)
			if s[0].Value.Uint64() > enough {
				kit.Stop("a request takes too much memory")
			}
			time.Sleep(20 * time.Millisecond)
		}
	}()
}

// fill sets random fields of any message to likely and unlikely values.
func fill(t *rapid.T, m protoreflect.Message, depth int) {
	fs := m.Descriptor().Fields()
	for i := 0; i < fs.Len(); i++ {
		f := fs.Get(i)
		// values that hold values
		if depth > 7 && f.Message() != nil || rapid.IntRange(0, 2).Draw(t, string(f.Name())) == 0 {
			continue
		}
		switch {
		case f.IsList():
			l := m.Mutable(f).List()
			n := rapid.IntRange(0, 2).Draw(t, "len")
			if depth > 3 {
				n = min(n, 1)
			}
			for ; n > 0; n-- {
				if f.Message() != nil {
					e := l.NewElement()
					fill(t, e.Message(), depth+1)
					l.Append(e)
				} else {
					l.Append(scalar(t, f))
				}
			}
		case f.Message() != nil:
			fill(t, m.Mutable(f).Message(), depth+1)
		default:
			m.Set(f, scalar(t, f))
		}
	}
}

var nanos = []uint64{0, 1, math.MaxInt64, math.MaxInt64 - 1, math.MaxInt64 + 1, math.MaxUint64, 1 << 60, 1e9,
	uint64(time.Date(2024, 4, 3, 14, 20, 0, 0, time.UTC).UnixNano()), uint64(time.Date(1999, 12, 31, 23, 59, 59, 0, time.UTC).UnixNano())}

func scalar(t *rapid.T, f protoreflect.FieldDescriptor) protoreflect.Value {
	k := rapid.IntRange(0, 5).Draw(t, "value")
	switch f.Kind() {
	case protoreflect.BoolKind:
		return protoreflect.ValueOfBool(k > 1)
	case protoreflect.EnumKind:
		return protoreflect.ValueOfEnum([]protoreflect.EnumNumber{0, 1, 2, 77, -1, math.MinInt32}[k])
	case protoreflect.Int32Kind, protoreflect.Sint32Kind, protoreflect.Sfixed32Kind:
		return protoreflect.ValueOfInt32([]int32{0, -1, math.MaxInt32, math.MinInt32, 1, 999999999}[k])
	case protoreflect.Uint32Kind, protoreflect.Fixed32Kind:
		return protoreflect.ValueOfUint32([]uint32{0, 1, math.MaxUint32, 1 << 31, 2, 3}[k])
	case protoreflect.Int64Kind, protoreflect.Sint64Kind, protoreflect.Sfixed64Kind:
		return protoreflect.ValueOfInt64([]int64{0, -1, math.MaxInt64, math.MinInt64, 1700000000, 253402300800}[k])
	case protoreflect.Uint64Kind, protoreflect.Fixed64Kind:
		return protoreflect.ValueOfUint64(kit.Of(t, "number", nanos))
	case protoreflect.FloatKind:
		return protoreflect.ValueOfFloat32([]float32{0, -1.5, math.MaxFloat32, float32(math.Inf(1)), 1, 2}[k])
	case protoreflect.DoubleKind:
		return protoreflect.ValueOfFloat64([]float64{0, -1.5, math.NaN(), math.Inf(-1), math.SmallestNonzeroFloat64, math.Inf(1)}[k])
	case protoreflect.StringKind:
		switch k {
		case 0:
			return protoreflect.ValueOfString("")
		case 1:
			return protoreflect.ValueOfString("a")
		case 2:
			return protoreflect.ValueOfString(kit.Of(t, "odd", []string{"\x00", "=", "a=\x00b", "\u2028", "%s%d", "../../x", "😀", "'; drop", "\xef\xbb\xbf", "std_2024"}))
		case 3:
			return protoreflect.ValueOfString(kit.Long(t))
		}
		return protoreflect.ValueOfString(rapid.StringN(0, 20, -1).Draw(t, "text"))
	case protoreflect.BytesKind:
		return protoreflect.ValueOfBytes([][]byte{{}, {0}, {0xff, 0, 1}, []byte("0123456789abcdef"), make([]byte, 40000), make([]byte, 8)}[k])
	}
	panic(f.Kind())
}

func value(v *commonv1.AnyValue, depth int, list bool) *commonv1.AnyValue {
	for ; depth > 0; depth-- {
		if list {
			v = &commonv1.AnyValue{Value: &commonv1.AnyValue_ArrayValue{ArrayValue: &commonv1.ArrayValue{Values: []*commonv1.AnyValue{v}}}}
		} else {
			v = &commonv1.AnyValue{Value: &commonv1.AnyValue_KvlistValue{KvlistValue: &commonv1.KeyValueList{Values: []*commonv1.KeyValue{{Key: "k", Value: v}}}}}
		}
	}
	return v
}

func text(s string) *commonv1.AnyValue {
	return &commonv1.AnyValue{Value: &commonv1.AnyValue_StringValue{StringValue: s}}
}

// Lists in lists: a request with a value of this depth can be decoded. See the
// known finding depth-limit.
const deepest = 4996

// large is a request with a lot of something.
func large(c *kit.Case, now time.Time) (string, proto.Message) {
	t := c.T
	p := &metricsv1.NumberDataPoint{TimeUnixNano: uint64(now.UnixNano()), Value: &metricsv1.NumberDataPoint_AsInt{AsInt: 1}}
	g := &metricsv1.Gauge{DataPoints: []*metricsv1.NumberDataPoint{p}}
	m := &metricsv1.Metric{Name: "large", Data: &metricsv1.Metric_Gauge{Gauge: g}}
	s := &metricsv1.ScopeMetrics{Metrics: []*metricsv1.Metric{m}}
	r := &metricsv1.ResourceMetrics{ScopeMetrics: []*metricsv1.ScopeMetrics{s}, Resource: &resourcev1.Resource{}}
	req := &collector_metrics.ExportMetricsServiceRequest{ResourceMetrics: []*metricsv1.ResourceMetrics{r}}
	n := kit.Of(t, "many", []int{100, 1000, 5000})
	switch what := rapid.IntRange(0, 7).Draw(t, "what"); what {
	case 0, 1:
		depth := kit.Of(t, "depth", []int{10, 300, 2000, 4980, 4990, 4994, deepest - 1, deepest, deepest + 1})
		if what == 0 && depth == deepest {
			c.Exclude("value as deep as a request can be")
			depth--
		}
		if what == 1 {
			depth = kit.Of(t, "depth", []int{10, 300, 2000, 3000, 3310, 3320, 3325, 3328, 3329, 3330})
		}
		p.Attributes = []*commonv1.KeyValue{{Key: "deep", Value: value(text("x"), depth, what == 0)}}
		return fmt.Sprintf("value of depth %d", depth), req
	case 2:
		for i := 0; i < n; i++ {
			p.Attributes = append(p.Attributes, &commonv1.KeyValue{Key: fmt.Sprint("k", i), Value: text("v")})
		}
		return fmt.Sprintf("%d attributes", n), req
	case 3:
		for i := 0; i < n; i++ {
			req.ResourceMetrics = append(req.ResourceMetrics, &metricsv1.ResourceMetrics{})
		}
		return fmt.Sprintf("%d empty resources", n), req
	case 4:
		for i := 0; i < n; i++ {
			q := proto.Clone(p).(*metricsv1.NumberDataPoint)
			q.TimeUnixNano += uint64(i) * uint64(time.Hour)
			g.DataPoints = append(g.DataPoints, q)
		}
		return fmt.Sprintf("%d points over hours", n), req
	case 5:
		m.Name = strings.Repeat("n", n*100)
		m.Description = m.Name
		r.Resource.Attributes = []*commonv1.KeyValue{{Key: m.Name, Value: text(m.Name)}}
		return fmt.Sprintf("texts of %d", n*100), req
	case 6:
		for i := 0; i < n; i++ {
			r.Resource.Attributes = append(r.Resource.Attributes, &commonv1.KeyValue{Key: "same", Value: text("same")})
		}
		return fmt.Sprintf("%d equal attributes", n), req
	default:
		for i := 0; i < n; i++ {
			s.Metrics = append(s.Metrics, &metricsv1.Metric{Name: fmt.Sprint(i)})
		}
		return fmt.Sprintf("%d metrics without data", n), req
	}
}

// mutate changes encoded messages in places.
func mutate(t *rapid.T, b []byte) []byte {
	for n := rapid.IntRange(1, 4).Draw(t, "mutations"); n > 0 && len(b) > 0; n-- {
		at := rapid.IntRange(0, len(b)-1).Draw(t, "at")
		switch rapid.IntRange(0, 4).Draw(t, "mutation") {
		case 0:
			b[at] ^= 1 << rapid.IntRange(0, 7).Draw(t, "bit")
		case 1:
			b = append(append([]byte{}, b[:at]...), b[min(len(b), at+rapid.IntRange(1, 6).Draw(t, "cut")):]...)
		case 2:
			to := rapid.IntRange(0, len(b)-1).Draw(t, "to")
			part := b[min(at, to):max(at, to)]
			b = append(append(append([]byte{}, b[:at]...), part...), b[at:]...)
		case 3:
			b = append(append(append([]byte{}, b[:at]...), rapid.SliceOfN(rapid.Byte(), 1, 4).Draw(t, "bytes")...), b[at:]...)
		case 4:
			if at+8 <= len(b) {
				binary.LittleEndian.PutUint64(b[at:], kit.Of(t, "number", nanos))
			}
		}
	}
	return b
}

func empty(k kit.Kind) proto.Message {
	switch k {
	case kit.KMetrics:
		return &collector_metrics.ExportMetricsServiceRequest{}
	case kit.KLogs:
		return &collector_logs.ExportLogsServiceRequest{}
	}
	return &collector_trace.ExportTraceServiceRequest{}
}

// request draws an export. It is nil when it does not decode.
func request(c *kit.Case, now time.Time) proto.Message {
	t := c.T
	k := kit.Kind(rapid.IntRange(0, 2).Draw(t, "kind"))
	req := empty(k)
	what := ""
	switch rapid.IntRange(0, 3).Draw(t, "odd") {
	case 0:
		what = "any fields"
		fill(t, req.ProtoReflect(), 0)
	case 1, 2:
		what = "mutated"
		g := &kit.Gen{T: t, MaxResources: 2, MaxScopes: 2, MaxMetrics: 2, MaxPoints: 2, NilValues: true, NaN: true,
			Time: func() uint64 { return uint64(now.UnixNano()) }}
		d := g.Data(k)
		// field 1 of the request is field 1 of the data
		b, err := proto.Marshal(map[kit.Kind]proto.Message{kit.KMetrics: d.GetMetrics(), kit.KLogs: d.GetLogs(), kit.KTraces: d.GetTraces()}[k])
		c.Must(err, "marshal")
		b = mutate(t, b)
		if err := proto.Unmarshal(b, req); err != nil {
			c.Class("does not decode")
			return nil
		}
	case 3:
		what, req = large(c, now)
	}
	b, err := proto.Marshal(req)
	c.Must(err, "marshal")
	r := req.ProtoReflect().New().Interface()
	if err := proto.Unmarshal(b, r); err != nil {
		c.Class("does not decode")
		return nil
	}
	c.Class(what)
	if len(b) < 5000 {
		c.Logf("export %s: %v", what, r)
	} else {
		c.Logf("export %s of %d bytes", what, len(b))
	}
	return r
}

func send(s *service.Service, m proto.Message) (err error) {
	ctx := context.Background()
	switch e := m.(type) {
	case *collector_metrics.ExportMetricsServiceRequest:
		_, err = s.Metrics().Export(ctx, e)
	case *collector_logs.ExportLogsServiceRequest:
		_, err = s.Logs().Export(ctx, e)
	case *collector_trace.ExportTraceServiceRequest:
		_, err = s.Trace().Export(ctx, e)
	}
	return
}

var seconds = []int64{0, 1, -1, math.MaxInt64, math.MinInt64, math.MaxInt64, math.MinInt64, 253402300799, 253402300800, -62135596800, -62135596801, 9223372036, 9223372037, -9223372036,
	1712152800, 1712152800 + 3600, 1 << 33, -1 << 40}

func ts(t *rapid.T, name string) *timestamppb.Timestamp {
	if rapid.IntRange(0, 4).Draw(t, name+" absent") == 0 {
		return nil
	}
	return &timestamppb.Timestamp{Seconds: kit.Of(t, name, seconds), Nanos: kit.Of(t, name+" nanos", []int32{0, -1, 1, 999999999, math.MaxInt32, math.MinInt32})}
}

func query(c *kit.Case) *v1.Scan {
	t := c.T
	s := &v1.Scan{}
	if rapid.Bool().Draw(t, "any scan") {
		fill(t, s.ProtoReflect(), 0)
		c.Class("scan of any fields")
	} else {
		s.Scope = v1.Scan_SCOPE(kit.Of(t, "scope", []int32{0, 1, 2, 3, 0, 1, 2, 3, -1, 77}))
		s.Limit = kit.Of(t, "limit", nanos)
		s.Reverse = rapid.Bool().Draw(t, "reverse")
		s.Now = ts(t, "now")
		if rapid.IntRange(0, 2).Draw(t, "range") > 0 {
			s.TimeRange = &v1.Scan_TimeRange{Start: ts(t, "start"), End: ts(t, "end")}
		}
		if rapid.IntRange(0, 2).Draw(t, "offset") == 0 {
			s.Offset = &durationpb.Duration{Seconds: kit.Of(t, "offset", seconds)}
		}
		c.Class("scan at odd times")
	}
	if rapid.IntRange(0, 2).Draw(t, "filter") == 0 {
		s.Filters = append(s.Filters, kit.FreeFilter(t))
	}
	b, err := proto.Marshal(s)
	c.Must(err, "marshal")
	if rapid.IntRange(0, 3).Draw(t, "mutate") == 0 {
		b = mutate(t, b)
	}
	r := &v1.Scan{}
	if proto.Unmarshal(b, r) != nil {
		return nil
	}
	return r
}

// transfer an answer to the client.
func transfer(c *kit.Case, d *v1.Data) *v1.Data {
	b, err := proto.Marshal(d)
	c.Must(err, "sending the answer")
	o := &v1.Data{}
	c.Must(proto.Unmarshal(b, o), "receiving the answer")
	return o
}

func TestProperty(t *testing.T) {
	kit.Run(t, func(c *kit.Case) {
		n, err := kit.OpenParts(c.Dir(), true)
		c.Must(err, "open")
		var open *service.Service
		c.Cleanup(func() {
			if open != nil {
				open.Close()
			}
			n.CloseParts()
		})
		clock := kit.NewClock(c.T)
		n.Now = clock.Base
		ctx := context.Background()
		m := &kit.Model{}
		serial := 0
		ours := func(id string) *v1.Scan_Filter { return kit.Attr(v1.Scan_RESOURCE_ATTRIBUTES, "id", id) }
		odd, scans := 0, 0
		for session := rapid.IntRange(1, 3).Draw(c.T, "sessions"); session > 0; session-- {
			svc, err := n.Service(ctx)
			c.Must(err, "service")
			open = svc
			for i := rapid.IntRange(1, 5).Draw(c.T, "steps"); i > 0; i-- {
				switch rapid.IntRange(0, 4).Draw(c.T, "step") {
				case 0:
					serial++
					d := kit.Small(kit.Kind(rapid.IntRange(0, 2).Draw(c.T, "kind")), clock.Any(), fmt.Sprintf("ours-%d", serial))
					m.Add(uint64(serial), d)
					c.Logf("export ours %d", serial)
					c.Must(kit.Export(ctx, svc, kit.Clone(d)), "export")
				case 1, 2:
					if r := request(c, clock.Any()); r != nil {
						odd++
						if err := send(svc, r); err != nil {
							c.Class("export refused")
						}
					}
				case 3, 4:
					if s := query(c); s != nil {
						scans++
						c.Logf("scan %v", s)
						d, err := svc.ScanSamples(ctx, s)
						if err != nil {
							c.Class("scan refused")
							continue
						}
						transfer(c, d)
					}
				}
			}
			open = nil
			svc.Close()
			c.Logf("saved")
			svc, err = n.Service(ctx)
			c.Must(err, "service")
			open = svc
			// what is ours is there, by itself and among all others
			for k := kit.KMetrics; k <= kit.KTraces; k++ {
				for _, s := range m.All {
					if s.Kind != k {
						continue
					}
					h := kit.Floor(s.At(), 'H')
					id := kit.Points(s.Data)[0].Resource.Attributes[0].Value.GetStringValue()
					d, err := svc.ScanSamples(ctx, kit.Range(k, h, h.Add(time.Hour), ours(id)))
					c.Must(err, "scan of "+id)
					if x := kit.Diff(kit.Points(s.Data), kit.Points(d)); x != "" {
						c.Fatalf("%s by its attribute: %s", id, x)
					}
				}
				for _, w := range [][2]time.Time{{time.Unix(0, 0), time.Unix(0, math.MaxInt64)}, {clock.Base, clock.Base.Add(time.Hour)}, {clock.Base.AddDate(0, 0, -2), clock.Base.AddDate(0, 0, 2)}} {
					d, err := svc.ScanSamples(ctx, kit.Range(k, w[0], w[1]))
					c.Must(err, fmt.Sprintf("scan of %s", w))
					d = transfer(c, d)
					if gk, ok := kit.KindOf(d); !ok || gk != k {
						c.Fatalf("scan of %s in %s returned %v", k, w, d)
					}
					got := map[string]int{}
					for _, p := range kit.Points(d) {
						got[p.Key()]++
					}
					for _, s := range m.All {
						if s.Kind == k && kit.Touches(w[0], w[1], s.At()) {
							if key := kit.Points(s.Data)[0].Key(); got[key] != 1 {
								c.Fatalf("scan of %s in %s has sample %d %d times: %s", k, w, s.ID, got[key], key)
							}
						}
					}
				}
			}
			open = nil
			svc.Close()
		}
		c.ClassIf(odd > 0 && len(m.All) > 0, "odd requests among ours")
		c.NonTrivialIf(odd > 0 && len(m.All) > 0 || scans > 0)
	})
}

func TestKnown(t *testing.T) {
	kit.Known(t, "C27", map[string]func() (string, bool){"depth-limit": depthLimit})
}

// A value that is nested as deeply as the decoder of requests allows is one level
// deeper in the answer of a scan, which no client decodes.
func depthLimit() (string, bool) {
	dir, err := os.MkdirTemp("", "known-")
	if err != nil {
		return "", false
	}
	defer os.RemoveAll(dir)
	n, err := kit.OpenParts(dir, true)
	if err != nil {
		return "", false
	}
	defer n.CloseParts()
	ctx := context.Background()
	at := time.Date(2024, 4, 3, 14, 30, 0, 0, time.UTC)
	d := kit.Small(kit.KMetrics, at, "deep")
	p := d.GetMetrics().ResourceMetrics[0].ScopeMetrics[0].Metrics[0].GetGauge().DataPoints[0]
	p.Attributes = []*commonv1.KeyValue{{Key: "deep", Value: value(text("x"), deepest, true)}}
	b, err := proto.Marshal(&collector_metrics.ExportMetricsServiceRequest{ResourceMetrics: d.GetMetrics().ResourceMetrics})
	if err != nil {
		return "", false
	}
	req := &collector_metrics.ExportMetricsServiceRequest{}
	if proto.Unmarshal(b, req) != nil {
		return "", false
	}
	svc, err := n.Service(ctx)
	if err != nil || send(svc, req) != nil {
		return "", false
	}
	svc.Close()
	if svc, err = n.Service(ctx); err != nil {
		return "", false
	}
	defer svc.Close()
	got, err := svc.ScanSamples(ctx, kit.Range(kit.KMetrics, at, at.Add(time.Minute)))
	if err != nil {
		return "", false
	}
	if b, err = proto.Marshal(got); err != nil {
		return "", false
	}
	if proto.Unmarshal(b, &v1.Data{}) == nil {
		return "", false
	}
	return fmt.Sprintf("an export with an attribute of %d lists in lists is accepted, and then the answer of a scan of its hour can not be decoded by any client", deepest), true
}
