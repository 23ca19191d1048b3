// Messages survive the way through columns and parquet files.
package c22

import (
	"bytes"
	"context"
	"errors"
	"fmt"
	"math"
	"slices"
	"testing"

	"github.com/apache/arrow/go/v17/arrow"
	"github.com/apache/arrow/go/v17/arrow/memory"
	"github.com/gernest/arrow3/gen/go/samples"
	v1 "github.com/gernest/requiemdb/gen/go/rq/v1"
	storev1 "github.com/gernest/requiemdb/gen/go/store/v1"
	"github.com/gernest/requiemdb/internal/arrow3"
	"github.com/gernest/requiemdb/internal/zzverif/kit"
	commonv1 "go.opentelemetry.io/proto/otlp/common/v1"
	logsv1 "go.opentelemetry.io/proto/otlp/logs/v1"
	metricsv1 "go.opentelemetry.io/proto/otlp/metrics/v1"
	tracev1 "go.opentelemetry.io/proto/otlp/trace/v1"
	"google.golang.org/protobuf/proto"
	"google.golang.org/protobuf/reflect/protoreflect"
	"pgregory.net/rapid"
)

// fill sets random fields of any message.
func fill(t *rapid.T, m protoreflect.Message, depth int) {
	if m.Descriptor().FullName() == "opentelemetry.proto.common.v1.AnyValue" {
		if rapid.IntRange(0, 9).Draw(t, "no value") > 0 {
			g := &kit.Gen{T: t, Time: func() uint64 { return 1 }}
			proto.Merge(m.Interface(), g.AnyValue(1))
		}
		return
	}
	fs := m.Descriptor().Fields()
	for i := 0; i < fs.Len(); i++ {
		f := fs.Get(i)
		if f.IsMap() || rapid.IntRange(0, 2).Draw(t, string(f.Name())) == 0 {
			continue
		}
		switch {
		case f.IsList():
			l := m.Mutable(f).List()
			n := rapid.IntRange(0, 3).Draw(t, "len")
			if depth > 2 {
				n = min(n, 1)
			}
			for ; n > 0; n-- {
				if f.Message() != nil {
					e := l.NewElement()
					fill(t, e.Message(), depth+1)
					l.Append(e)
				} else {
					l.Append(scalar(t, f))
				}
			}
		case f.Message() != nil:
			fill(t, m.Mutable(f).Message(), depth+1)
		default:
			m.Set(f, scalar(t, f))
		}
	}
}

func scalar(t *rapid.T, f protoreflect.FieldDescriptor) protoreflect.Value {
	k := rapid.IntRange(0, 3).Draw(t, "value")
	switch f.Kind() {
	case protoreflect.BoolKind:
		return protoreflect.ValueOfBool(k > 1)
	case protoreflect.EnumKind:
		return protoreflect.ValueOfEnum([]protoreflect.EnumNumber{0, 1, 2, 77}[k])
	case protoreflect.Int32Kind, protoreflect.Sint32Kind, protoreflect.Sfixed32Kind:
		return protoreflect.ValueOfInt32([]int32{0, -1, math.MaxInt32, math.MinInt32}[k])
	case protoreflect.Uint32Kind, protoreflect.Fixed32Kind:
		return protoreflect.ValueOfUint32([]uint32{0, 1, math.MaxUint32, 1 << 31}[k])
	case protoreflect.Int64Kind, protoreflect.Sint64Kind, protoreflect.Sfixed64Kind:
		return protoreflect.ValueOfInt64([]int64{0, -1, math.MaxInt64, math.MinInt64}[k])
	case protoreflect.Uint64Kind, protoreflect.Fixed64Kind:
		return protoreflect.ValueOfUint64([]uint64{0, 1, math.MaxUint64, 1 << 63}[k])
	case protoreflect.FloatKind:
		return protoreflect.ValueOfFloat32([]float32{0, -1.5, math.MaxFloat32, float32(math.Inf(1))}[k])
	case protoreflect.DoubleKind:
		return protoreflect.ValueOfFloat64([]float64{0, -1.5, math.NaN(), math.Inf(-1)}[k])
	case protoreflect.StringKind:
		return protoreflect.ValueOfString([]string{"", "a", "b=世界", rapid.StringN(0, 20, -1).Draw(t, "text")}[k])
	case protoreflect.BytesKind:
		return protoreflect.ValueOfBytes([][]byte{{}, {0}, {0xff, 0, 1}, []byte("0123456789abcdef")}[k])
	}
	panic(f.Kind())
}

func check[T proto.Message](c *kit.Case, s *arrow3.Schema[T]) {
	var zero T
	draw := func() T {
		m := zero.ProtoReflect().New()
		fill(c.T, m, 0)
		return m.Interface().(T)
	}
	same := func(what string, got []T, want []T) {
		if len(got) != len(want) {
			c.Fatalf("%s: %d messages came back as %d", what, len(want), len(got))
		}
		for i := range got {
			if !proto.Equal(got[i], want[i]) {
				c.Fatalf("%s: message %d of %d\n%v\ncame back as\n%v", what, i, len(want), want[i], got[i])
			}
		}
	}
	var all []T
	var records []arrow.Record
	c.Logf("%T", zero)
	set := 0
	for n := rapid.IntRange(1, 3).Draw(c.T, "records"); n > 0; n-- {
		var ms []T
		for k := rapid.IntRange(1, 4).Draw(c.T, "rows"); k > 0; k-- {
			m := draw()
			keep := proto.Clone(m)
			s.Append(m)
			if !proto.Equal(keep, m) {
				c.Fatalf("append changed %v", keep)
			}
			if proto.Size(m) > 0 {
				set++
			}
			ms = append(ms, m)
			c.Logf("%v", m)
		}
		r := s.NewRecord()
		if int(r.NumRows()) != len(ms) {
			c.Fatalf("%d messages made %d rows", len(ms), r.NumRows())
		}
		same("record", s.Proto(r, nil), ms)
		records = append(records, r)
		all = append(all, ms...)
	}
	if r := s.NewRecord(); r.NumRows() != 0 {
		c.Fatalf("%d rows are left in the builder", r.NumRows())
	}
	var b bytes.Buffer
	c.Must(s.WriteParquetRecords(&b, records...), "write")
	r, err := s.Read(context.Background(), bytes.NewReader(b.Bytes()), nil)
	c.Must(err, "read")
	same("file", s.Proto(r, nil), all)
	// selected rows, in any order
	rows := []int{}
	var want []T
	for k := rapid.IntRange(0, 5).Draw(c.T, "selected"); k > 0; k-- {
		i := rapid.IntRange(0, len(all)-1).Draw(c.T, "row")
		rows, want = append(rows, i), append(want, all[i])
	}
	same("selected", s.Proto(r, rows), want)
	// selected columns of messages that are flat
	if fs := zero.ProtoReflect().Descriptor().Fields(); s.Parquet().NumColumns() == fs.Len() && rapid.Bool().Draw(c.T, "columns") {
		var cols []int
		for i := 0; i < fs.Len(); i++ {
			if rapid.Bool().Draw(c.T, "column") {
				cols = append(cols, i)
			}
		}
		if len(cols) > 0 {
			rc, err := s.Read(context.Background(), bytes.NewReader(b.Bytes()), cols)
			c.Must(err, "read columns")
			var want []T
			for _, m := range all {
				m = proto.Clone(m).(T)
				for i := 0; i < fs.Len(); i++ {
					if !slices.Contains(cols, i) {
						m.ProtoReflect().Clear(fs.Get(i))
					}
				}
				want = append(want, m)
			}
			same("columns", s.Proto(rc, nil), want)
			rc.Release()
			c.Class("columns")
		}
	}
	// one more generation: append to what was read
	m := draw()
	s.Append(m)
	more := s.NewRecord()
	b.Reset()
	c.Must(s.WriteParquetRecords(&b, r, more), "write again")
	r2, err := s.Read(context.Background(), bytes.NewReader(b.Bytes()), nil)
	c.Must(err, "read again")
	same("second file", s.Proto(r2, nil), append(slices.Clone(all), m))
	// the builder writes what it holds
	s.Append(m)
	s.Append(all[0])
	b.Reset()
	c.Must(s.WriteParquet(&b), "write builder")
	r3, err := s.Read(context.Background(), bytes.NewReader(b.Bytes()), nil)
	c.Must(err, "read builder")
	same("file of the builder", s.Proto(r3, nil), []T{m, all[0]})
	faults(c, s, b.Bytes(), []T{m, all[0]}, r3, same)
	for _, x := range append(records, r, r2, r3, more) {
		x.Release()
	}
	c.NonTrivialIf(set > 0)
	c.ClassIf(len(records) > 1, "several records")
}

var errFault = errors.New("fault")

// limited fails when it has taken n bytes.
type limited struct{ n int }

func (l *limited) Write(b []byte) (int, error) {
	if len(b) > l.n {
		n := l.n
		l.n = 0
		return n, errFault
	}
	l.n -= len(b)
	return len(b), nil
}

// broken fails at the n-th read, and from then on when it stays.
type broken struct {
	*bytes.Reader
	n     int
	stays bool
}

func (b *broken) fails() bool {
	b.n--
	return b.n == 0 || b.stays && b.n < 0
}

func (b *broken) Read(p []byte) (int, error) {
	if b.fails() {
		return 0, errFault
	}
	return b.Reader.Read(p)
}

func (b *broken) ReadAt(p []byte, at int64) (int, error) {
	if b.fails() {
		return 0, errFault
	}
	return b.Reader.ReadAt(p, at)
}

// faults writes and reads while something fails. There is an error, or everything.
func faults[T proto.Message](c *kit.Case, s *arrow3.Schema[T], file []byte, want []T, rec arrow.Record, same func(string, []T, []T)) {
	switch rapid.IntRange(0, 3).Draw(c.T, "fault") {
	case 1:
		var whole bytes.Buffer
		c.Must(s.WriteParquetRecords(&whole, rec), "write")
		n := rapid.IntRange(0, whole.Len()-1).Draw(c.T, "bytes")
		if err := s.WriteParquetRecords(&limited{n}, rec); err == nil {
			c.Fatalf("there is no error when only %d bytes of a file of %d are written", n, whole.Len())
		}
		c.Class("failing writer")
	case 2:
		n := rapid.IntRange(0, len(file)-1).Draw(c.T, "bytes")
		if r, err := s.Read(context.Background(), bytes.NewReader(file[:n]), nil); err == nil {
			c.Fatalf("%d bytes of a file of %d are read as %v", n, len(file), s.Proto(r, nil))
		}
		c.Class("cut file")
	case 3:
		f := &broken{Reader: bytes.NewReader(file), n: rapid.IntRange(1, 12).Draw(c.T, "read"), stays: rapid.Bool().Draw(c.T, "stays")}
		r, err := s.Read(context.Background(), f, nil)
		if err == nil {
			same("file of which a read failed", s.Proto(r, nil), want)
			r.Release()
		} else {
			c.Class("failing reader")
		}
	default:
		return
	}
	// The next one is not affected.
	r, err := s.Read(context.Background(), bytes.NewReader(file), nil)
	c.Must(err, "read after a fault")
	same("file after a fault", s.Proto(r, nil), want)
	r.Release()
}

type checker interface{ run(c *kit.Case) }

type of[T proto.Message] struct{ s *arrow3.Schema[T] }

func (o of[T]) run(c *kit.Case) { check(c, o.s) }

func schema[T proto.Message]() checker {
	s, err := arrow3.New[T](memory.DefaultAllocator)
	if err != nil {
		panic(err)
	}
	return of[T]{s}
}

func TestCyclic(t *testing.T) {
	if s, err := arrow3.New[*samples.Cyclic](memory.DefaultAllocator); err == nil {
		t.Fatalf("a message that contains itself has a schema %v", s.Schema())
	}
}

func TestProperty(t *testing.T) {
	makers := []func() checker{
		schema[*samples.ScalarTypes], schema[*samples.ScalarTypesOptional], schema[*samples.ScalarTypesRepeated],
		schema[*samples.Nested], schema[*samples.Three], schema[*samples.OneOfScala], schema[*samples.SimpleOneOf], schema[*samples.Known],
		schema[*commonv1.KeyValue], schema[*metricsv1.MetricsData], schema[*logsv1.LogsData], schema[*tracev1.TracesData], schema[*v1.Data],
		schema[*storev1.Metric],
	}
	kit.Run(t, func(c *kit.Case) {
		i := rapid.IntRange(0, len(makers)-1).Draw(c.T, "type")
		c.Class(fmt.Sprint("type ", i))
		makers[i]().run(c)
	})
}
