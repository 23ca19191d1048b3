// Rendering: json holds everything, text lists every number.
package c20

import (
	"encoding/hex"
	"fmt"
	"math"
	"runtime/debug"
	"strconv"
	"strings"
	"sync"
	"testing"
	"time"
	"unicode"

	"github.com/dustin/go-humanize"
	v1 "github.com/gernest/requiemdb/gen/go/rq/v1"
	"github.com/gernest/requiemdb/internal/render"
	"github.com/gernest/requiemdb/internal/zzverif/kit"
	commonv1 "go.opentelemetry.io/proto/otlp/common/v1"
	metricsv1 "go.opentelemetry.io/proto/otlp/metrics/v1"
	"google.golang.org/protobuf/encoding/protojson"
	"google.golang.org/protobuf/proto"
	"google.golang.org/protobuf/reflect/protoreflect"
	"pgregory.net/rapid"
)

func TestProperty(t *testing.T) {
	kit.Run(t, func(c *kit.Case) {
		clock := kit.NewClock(c.T)
		points := kit.Of(c.T, "points", []int{3, 3, 12})
		// points of one time, as a batch of instruments has them
		last, alike := uint64(0), rapid.IntRange(0, 3).Draw(c.T, "alike")
		g := &kit.Gen{T: c.T, MaxResources: 2, MaxScopes: 2, MaxMetrics: 3, MaxPoints: points, NilValues: true, NaN: true,
			Lean: rapid.Bool().Draw(c.T, "lean"),
			Time: func() uint64 {
				if rapid.IntRange(0, 19).Draw(c.T, "no time") == 0 {
					return 0
				}
				if last == 0 || rapid.IntRange(0, 3).Draw(c.T, "other time") >= alike {
					last = uint64(clock.Any().UnixNano())
				}
				return last
			}}
		type doc struct {
			d *metricsv1.MetricsData
			o render.MetricsFormatOption
			j render.JSONOptions
		}
		var docs []doc
		rows := 0
		for n := rapid.IntRange(1, 3).Draw(c.T, "docs"); n > 0; n-- {
			d := g.Metrics()
			if rapid.IntRange(0, 29).Draw(c.T, "none") == 0 {
				// the result of a query that found nothing
				d = kit.Of(c.T, "empty", []*metricsv1.MetricsData{nil, {}})
			}
			plain(c, d.ProtoReflect())
			for _, p := range kit.Points(&v1.Data{Data: &v1.Data_Metrics{Metrics: d}}) {
				if x, ok := p.Msg.(*metricsv1.NumberDataPoint); ok {
					rows++
					if v := x.GetAsDouble(); math.IsInf(v, 0) || math.IsNaN(v) || math.Abs(v) > 1e6 {
						if rapid.Bool().Draw(c.T, "tame") {
							x.Value = &metricsv1.NumberDataPoint_AsDouble{AsDouble: 7}
						}
					}
				}
			}
			for _, r := range d.GetResourceMetrics() {
				for _, s := range r.ScopeMetrics {
					for _, m := range s.Metrics {
						if rapid.Bool().Draw(c.T, "unit") {
							m.Unit = kit.Of(c.T, "unit", []string{"h", "m", "s", "ms", "ns", "By", "", "{x}", "us"})
						}
					}
				}
			}
			o := render.MetricsFormatOption{Resource: rapid.Bool().Draw(c.T, "resource"), Scope: rapid.Bool().Draw(c.T, "scope"), Metrics: rapid.Bool().Draw(c.T, "metrics")}
			docs = append(docs, doc{d, o, render.JSONOptions{Pretty: rapid.Bool().Draw(c.T, "pretty")}})
			c.Logf("%+v %v", o, d)
		}
		// all of them at the same time
		errs := make([]string, len(docs)*2)
		var wg sync.WaitGroup
		for i := range docs {
			wg.Add(2)
			go func() {
				defer wg.Done()
				keep := proto.Clone(docs[i].d).(*metricsv1.MetricsData)
				errs[2*i] = text(docs[i].d, docs[i].o)
				if errs[2*i] == "" && !proto.Equal(keep, docs[i].d) {
					errs[2*i] = "data was changed"
				}
			}()
			go func() {
				defer wg.Done()
				errs[2*i+1] = doc2json(docs[i].d, docs[i].j)
			}()
		}
		wg.Wait()
		for _, e := range errs {
			if e != "" {
				c.Fatalf("%s", e)
			}
		}
		c.ClassIf(rows > 3, "more than three numbers")
		c.ClassIf(rows > 12, "more than twelve numbers")
		c.ClassIf(len(docs) > 1, "several at the same time")
		c.NonTrivialIf(rows > 0)
	})
}

func doc2json(d *metricsv1.MetricsData, o render.JSONOptions) string {
	b, err := render.MetricsDataJSON(d, o)
	if err != nil {
		return "json: " + err.Error()
	}
	var got metricsv1.MetricsData
	if err := protojson.Unmarshal(b, &got); err != nil {
		return "json: " + err.Error()
	}
	if d == nil {
		d = &metricsv1.MetricsData{}
	}
	if w := kit.Normalize(d); !proto.Equal(w, kit.Normalize(&got)) {
		return fmt.Sprintf("json of\n%v\nis\n%v", w, &got)
	}
	if strings.Contains(string(b), "\n") != (o.Pretty && len(d.GetResourceMetrics()) > 0) {
		return fmt.Sprintf("pretty %v: %s", o.Pretty, b)
	}
	return ""
}

// plain replaces control characters. Text is aligned in columns, what is around
// them is moved.
func plain(c *kit.Case, m protoreflect.Message) {
	fix := func(v protoreflect.Value) protoreflect.Value {
		s := strings.Map(func(r rune) rune {
			if unicode.IsControl(r) || unicode.IsSpace(r) {
				return '_'
			}
			return r
		}, v.String())
		if s != v.String() {
			c.Exclude("control characters and unusual spaces")
		}
		return protoreflect.ValueOfString(s)
	}
	m.Range(func(fd protoreflect.FieldDescriptor, v protoreflect.Value) bool {
		switch {
		case fd.IsList() && fd.Kind() == protoreflect.MessageKind:
			for i := 0; i < v.List().Len(); i++ {
				plain(c, v.List().Get(i).Message())
			}
		case fd.IsList():
		case fd.Kind() == protoreflect.MessageKind:
			plain(c, v.Message())
		case fd.Kind() == protoreflect.StringKind && !strings.Contains(v.String(), "nanoseconds"):
			m.Set(fd, fix(v))
		}
		return true
	})
}

func squeeze(s string) string { return strings.Join(strings.Fields(s), " ") }

// text compares words of the text with what must be listed.
func text(d *metricsv1.MetricsData, o render.MetricsFormatOption) string {
	var w []string
	add := func(s ...string) { w = append(w, s...) }
	for _, r := range d.GetResourceMetrics() {
		add("===", r.SchemaUrl)
		if o.Resource {
			add("resource.schema", r.SchemaUrl, "resource.attributes", attrs(r.Resource.GetAttributes()))
		}
		for _, s := range r.ScopeMetrics {
			add("-->", s.Scope.GetName())
			if o.Scope {
				add("scope.name", s.Scope.GetName(), "scope.schema", s.SchemaUrl, "scope.version", s.Scope.GetVersion(),
					"scope.attributes", attrs(s.Scope.GetAttributes()))
			}
			for _, m := range s.Metrics {
				unit := m.Unit
				if unit == "" && strings.Contains(m.Description, "nanoseconds") {
					unit = "ns"
				}
				add(m.Name)
				if o.Metrics {
					add("description", m.Description, "unit", unit)
				}
				var ps []*metricsv1.NumberDataPoint
				switch e := m.Data.(type) {
				case *metricsv1.Metric_Gauge:
					ps = e.Gauge.DataPoints
				case *metricsv1.Metric_Sum:
					ps = e.Sum.DataPoints
				default:
					continue
				}
				add("TIMESTAMP VALUE ATTRIBUTES")
				for _, p := range ps {
					add(time.Unix(0, int64(p.TimeUnixNano)).UTC().Format("2006-01-02 15:04:05"))
					add(number(p, unit))
					add(attrs(p.Attributes))
				}
			}
		}
	}
	want := squeeze(strings.Join(w, " "))
	got := squeeze(render.MetricsData(d, o))
	if want != got {
		return fmt.Sprintf("text of %v\nwant %s\ngot  %s", d, want, got)
	}
	return ""
}

func number(p *metricsv1.NumberDataPoint, unit string) string {
	v := p.GetAsDouble()
	if x, ok := p.Value.(*metricsv1.NumberDataPoint_AsInt); ok {
		v = float64(x.AsInt)
	}
	scale := map[string]float64{"h": 3600e9, "m": 60e9, "s": 1e9, "ms": 1e6, "ns": 1}[unit]
	if scale != 0 {
		return time.Duration(v * scale).String()
	}
	if unit == "By" {
		return humanize.IBytes(uint64(v))
	}
	return fmt.Sprint(v)
}

func attrs(kv []*commonv1.KeyValue) string {
	var ss []string
	for _, a := range kv {
		ss = append(ss, a.Key+" = "+value(a.Value))
	}
	if len(ss) == 0 {
		return "{}"
	}
	return "{ " + strings.Join(ss, ", ") + " }"
}

func value(v *commonv1.AnyValue) string {
	switch e := v.GetValue().(type) {
	case *commonv1.AnyValue_StringValue:
		return strconv.Quote(e.StringValue)
	case *commonv1.AnyValue_BoolValue:
		return fmt.Sprint(e.BoolValue)
	case *commonv1.AnyValue_IntValue:
		return fmt.Sprint(e.IntValue)
	case *commonv1.AnyValue_DoubleValue:
		return fmt.Sprint(e.DoubleValue)
	case *commonv1.AnyValue_BytesValue:
		return hex.EncodeToString(e.BytesValue)
	case *commonv1.AnyValue_ArrayValue:
		var ss []string
		for _, x := range e.ArrayValue.Values {
			ss = append(ss, value(x))
		}
		return "[" + strings.Join(ss, ", ") + "]"
	case *commonv1.AnyValue_KvlistValue:
		return attrs(e.KvlistValue.Values)
	}
	return ""
}

// TestTogether renders tables of many rows again and again at the same time.
func TestTogether(t *testing.T) {
	// collections empty the pools and make clients wait while they copy
	debug.SetGCPercent(2)
	kit.Run(t, func(c *kit.Case) {
		n := rapid.IntRange(2, 4).Draw(c.T, "docs")
		docs, want := make([]*metricsv1.MetricsData, n), make([]string, n)
		for i := range docs {
			var ps []*metricsv1.NumberDataPoint
			for j := rapid.IntRange(1, 60).Draw(c.T, "rows"); j > 0; j-- {
				ps = append(ps, &metricsv1.NumberDataPoint{TimeUnixNano: uint64(j) * 1e9, Value: &metricsv1.NumberDataPoint_AsInt{AsInt: int64(1000*(i+1) + j)},
					Attributes: []*commonv1.KeyValue{{Key: "doc", Value: &commonv1.AnyValue{Value: &commonv1.AnyValue_IntValue{IntValue: int64(i)}}}}})
			}
			c.Logf("%d rows", len(ps))
			m := &metricsv1.Metric{Name: fmt.Sprint("m", i), Data: &metricsv1.Metric_Gauge{Gauge: &metricsv1.Gauge{DataPoints: ps}}}
			if rapid.Bool().Draw(c.T, "sum") {
				m.Data = &metricsv1.Metric_Sum{Sum: &metricsv1.Sum{DataPoints: ps}}
			}
			docs[i] = &metricsv1.MetricsData{ResourceMetrics: []*metricsv1.ResourceMetrics{{ScopeMetrics: []*metricsv1.ScopeMetrics{{Metrics: []*metricsv1.Metric{m}}}}}}
			o := render.MetricsFormatOption{}
			if e := text(docs[i], o); e != "" {
				c.Fatalf("%s", e)
			}
			want[i] = render.MetricsData(docs[i], o)
		}
		errs := make([]string, 4*n)
		var wg sync.WaitGroup
		for i := range errs {
			wg.Add(1)
			go func() {
				defer wg.Done()
				for r := 0; r < 400 && errs[i] == ""; r++ {
					if got := render.MetricsData(docs[i%n], render.MetricsFormatOption{}); got != want[i%n] {
						errs[i] = fmt.Sprintf("text, together with others\nwant %s\ngot  %s", want[i%n], got)
					}
				}
			}()
		}
		wg.Wait()
		for _, e := range errs {
			if e != "" {
				c.Fatalf("%s", e)
			}
		}
		c.NonTrivialIf(n > 1)
	})
}
