// Metrics as columns: every point is a row of its own, with all that it has.
package c31

import (
	"fmt"
	"reflect"
	"slices"
	"sort"
	"strings"
	"testing"
	"unsafe"

	"github.com/RoaringBitmap/roaring/roaring64"
	"github.com/dgraph-io/badger/v4"
	v1 "github.com/gernest/requiemdb/gen/go/rq/v1"
	storev1 "github.com/gernest/requiemdb/gen/go/store/v1"
	"github.com/gernest/requiemdb/internal/arrow3"
	"github.com/gernest/requiemdb/internal/f2"
	"github.com/gernest/requiemdb/internal/zzverif/kit"
	"github.com/gernest/roaring/shardwidth"
	commonv1 "go.opentelemetry.io/proto/otlp/common/v1"
	metricsv1 "go.opentelemetry.io/proto/otlp/metrics/v1"
	"google.golang.org/protobuf/proto"
	"pgregory.net/rapid"
)

// part finds a part of m by its type. What is appended is kept in parts that
// have no names outside of the package.
func part[T any](m *f2.Metrics) *T {
	var find func(v reflect.Value, depth int) *T
	find = func(v reflect.Value, depth int) *T {
		if v.Type() == reflect.TypeFor[T]() {
			return (*T)(unsafe.Pointer(v.UnsafeAddr()))
		}
		if v.Kind() == reflect.Pointer && !v.IsNil() && depth > 0 {
			return find(v.Elem(), depth-1)
		}
		if v.Kind() == reflect.Struct && v.CanAddr() && depth > 0 {
			for i := 0; i < v.NumField(); i++ {
				if x := find(v.Field(i), depth-1); x != nil {
					return x
				}
			}
		}
		return nil
	}
	x := find(reflect.ValueOf(m), 5)
	if x == nil {
		panic(fmt.Sprintf("no %s in %T", reflect.TypeFor[T](), m))
	}
	return x
}

type row struct {
	want   *storev1.Metric
	labels string
}

// set is the identity of a series: its name and all of its texts.
func set(name string, ls ...[]*commonv1.KeyValue) (string, int) {
	m := map[string]bool{fmt.Sprintf("%q=%q", "__name__", name): true}
	for _, kv := range ls {
		for _, k := range kv {
			if s, ok := k.GetValue().GetValue().(*commonv1.AnyValue_StringValue); ok {
				m[fmt.Sprintf("%q=%q", k.Key, s.StringValue)] = true
			}
		}
	}
	o := make([]string, 0, len(m))
	for k := range m {
		o = append(o, k)
	}
	sort.Strings(o)
	return strings.Join(o, " "), len(m)
}

// expect lists rows of data, without ids and hashes.
func expect(d *metricsv1.MetricsData) (o []row) {
	for _, r := range d.ResourceMetrics {
		for _, s := range r.ScopeMetrics {
			for _, m := range s.Metrics {
				add := func(kind storev1.Metric_Kind, start, ts uint64, kv []*commonv1.KeyValue, ex []*metricsv1.Exemplar, f func(*storev1.Metric)) {
					all := slices.Concat(r.GetResource().GetAttributes(), s.GetScope().GetAttributes(), kv)
					x := &storev1.Metric{Name: m.Name, Description: m.Description, Unit: m.Unit, Kind: kind,
						Attributes: all, StartTimeUnixNano: start, TimeUnixNano: ts, Exemplars: ex}
					f(x)
					l, _ := set(m.Name, all)
					o = append(o, row{proto.Clone(x).(*storev1.Metric), l})
				}
				number := func(p *metricsv1.NumberDataPoint) *float64 {
					switch e := p.Value.(type) {
					case *metricsv1.NumberDataPoint_AsDouble:
						return proto.Float64(e.AsDouble)
					case *metricsv1.NumberDataPoint_AsInt:
						return proto.Float64(float64(e.AsInt))
					}
					return nil
				}
				switch e := m.Data.(type) {
				case *metricsv1.Metric_Gauge:
					for _, p := range e.Gauge.DataPoints {
						add(storev1.Metric_GAUGE, p.StartTimeUnixNano, p.TimeUnixNano, p.Attributes, p.Exemplars, func(x *storev1.Metric) { x.Gauge = number(p) })
					}
				case *metricsv1.Metric_Sum:
					for _, p := range e.Sum.DataPoints {
						add(storev1.Metric_SUM, p.StartTimeUnixNano, p.TimeUnixNano, p.Attributes, p.Exemplars, func(x *storev1.Metric) {
							x.Counter = number(p)
							x.AggregationTemporality, x.IsMonotonic = e.Sum.AggregationTemporality, e.Sum.IsMonotonic
						})
					}
				case *metricsv1.Metric_Histogram:
					for _, p := range e.Histogram.DataPoints {
						add(storev1.Metric_HISTOGRAM, p.StartTimeUnixNano, p.TimeUnixNano, p.Attributes, p.Exemplars, func(x *storev1.Metric) {
							x.AggregationTemporality = e.Histogram.AggregationTemporality
							x.Histogram = &storev1.HistogramDataPoint{Count: p.Count, Sum: p.Sum, BucketCounts: p.BucketCounts, ExplicitBounds: p.ExplicitBounds, Min: p.Min, Max: p.Max}
						})
					}
				case *metricsv1.Metric_ExponentialHistogram:
					for _, p := range e.ExponentialHistogram.DataPoints {
						add(storev1.Metric_EXPONENTIAL_HISTOGRAM, p.StartTimeUnixNano, p.TimeUnixNano, p.Attributes, p.Exemplars, func(x *storev1.Metric) {
							x.AggregationTemporality = e.ExponentialHistogram.AggregationTemporality
							x.ExponentialHistogram = &storev1.ExponentialHistogramDataPoint{Count: p.Count, Sum: p.Sum, Scale: p.Scale, ZeroCount: p.ZeroCount,
								Positive: p.Positive, Negative: p.Negative, Min: p.Min, Max: p.Max, ZeroThreshold: p.ZeroThreshold}
						})
					}
				case *metricsv1.Metric_Summary:
					for _, p := range e.Summary.DataPoints {
						add(storev1.Metric_SUMMARY, p.StartTimeUnixNano, p.TimeUnixNano, p.Attributes, nil, func(x *storev1.Metric) {
							x.Summary = &storev1.SummaryDataPoint{Count: p.Count, Sum: p.Sum, QuantileValues: p.QuantileValues}
						})
					}
				}
			}
		}
	}
	return
}

func TestProperty(t *testing.T) {
	kit.Run(t, func(c *kit.Case) {
		db, err := badger.Open(badger.DefaultOptions("").WithInMemory(true).WithLogger(nil).WithMemTableSize(8 << 20))
		c.Must(err, "open")
		defer db.Close()
		m, err := f2.NewMetrics(db)
		c.Must(err, "open")
		defer func() { m.Close() }()
		g := &kit.Gen{T: c.T, MaxResources: 2, MaxScopes: 2, MaxMetrics: 2, MaxPoints: 2, NilValues: true, NaN: true,
			Time: func() uint64 { return rapid.Uint64().Draw(c.T, "time") }}
		twins := kit.DrawTwins(c.T, 8, map[string][]int{"names": {9}, "keys": {0}, "values": {2}})
		hashOf, labelsOf := map[string]uint64{}, map[uint64]string{}
		rowsOf := map[string]string{}
		last, first := uint64(0), true
		total, equal, opened := 0, 0, 0
		for n := rapid.IntRange(1, 4).Draw(c.T, "batches"); n > 0; n-- {
			var want []row
			for k := rapid.IntRange(1, 2).Draw(c.T, "appends"); k > 0; k-- {
				d := g.Metrics()
				kit.Rename(&v1.Data{Data: &v1.Data_Metrics{Metrics: d}}, twins)
				c.Logf("append %v", d)
				keep := proto.Clone(d)
				m.Append(d)
				if !proto.Equal(keep, d) {
					c.Fatalf("append changed the metrics to %v", d)
				}
				want = append(want, expect(d)...)
			}
			s := *part[*arrow3.Schema[*storev1.Metric]](m)
			r := s.NewRecord()
			got := s.Proto(r, nil)
			r.Release()
			if len(got) != len(want) {
				c.Fatalf("%d points became %d rows", len(want), len(got))
			}
			index := part[roaring64.Bitmap](m)
			cols := map[uint64][]uint64{}
			for it := index.Iterator(); it.HasNext(); {
				p := it.Next()
				cols[p/shardwidth.ShardWidth] = append(cols[p/shardwidth.ShardWidth], p%shardwidth.ShardWidth)
			}
			for i, x := range got {
				w := want[i]
				if !first && x.Id <= last {
					c.Fatalf("row %d has id %d, which is not above %d", i, x.Id, last)
				}
				last, first = x.Id, false
				if h, ok := hashOf[w.labels]; ok && h != x.Hash {
					c.Fatalf("row %d: %s had the hash %d before and has %d", i, w.labels, h, x.Hash)
				} else if ok {
					equal++
				}
				if l, ok := labelsOf[x.Hash]; ok && l != w.labels {
					c.Fatalf("row %d: %s and %s have the same hash", i, l, w.labels)
				}
				hashOf[w.labels], labelsOf[x.Hash] = x.Hash, w.labels
				at := fmt.Sprint(cols[x.Id])
				if _, n := set(w.want.Name, w.want.Attributes); len(cols[x.Id]) != n {
					c.Fatalf("row %d: %s has columns %s", i, w.labels, at)
				}
				if l, ok := rowsOf[at]; ok && l != w.labels {
					c.Fatalf("row %d: %s and %s have the same columns %s", i, l, w.labels, at)
				}
				rowsOf[at] = w.labels
				y := proto.Clone(x).(*storev1.Metric)
				y.Id, y.Hash = 0, 0
				if !proto.Equal(kit.Normalize(y), kit.Normalize(w.want)) {
					c.Fatalf("row %d of %d: want\n%v\ngot\n%v", i, len(got), w.want, y)
				}
			}
			total += len(got)
			if rapid.IntRange(0, 3).Draw(c.T, "open again") == 3 {
				c.Logf("open again")
				c.Must(m.Close(), "close")
				m, err = f2.NewMetrics(db)
				c.Must(err, "open")
				opened++
			}
		}
		c.NonTrivialIf(total > 1)
		c.ClassIf(equal > 0, "rows of one series")
		c.ClassIf(twins != nil, "different texts with the same hash")
		c.ClassIf(opened > 0, "opened again")
	})
}
