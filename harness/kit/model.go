package kit

import (
	"encoding/hex"
	"fmt"
	"math"
	"sort"
	"strings"
	"time"

	v1 "github.com/gernest/requiemdb/gen/go/rq/v1"
	commonv1 "go.opentelemetry.io/proto/otlp/common/v1"
	logsv1 "go.opentelemetry.io/proto/otlp/logs/v1"
	tracev1 "go.opentelemetry.io/proto/otlp/trace/v1"
	"google.golang.org/protobuf/proto"
	"google.golang.org/protobuf/types/known/durationpb"
	"google.golang.org/protobuf/types/known/timestamppb"
	"pgregory.net/rapid"
)

// Clock draws timestamps that are close to boundaries of hours, days, months
// and years.
type Clock struct {
	T    *rapid.T
	Base time.Time
}

var bases = []time.Time{
	time.Date(2024, 4, 3, 14, 0, 0, 0, time.UTC),
	time.Date(2023, 12, 31, 23, 0, 0, 0, time.UTC),
	time.Date(2024, 2, 28, 23, 0, 0, 0, time.UTC),
	time.Date(2024, 3, 31, 0, 0, 0, 0, time.UTC),
	time.Date(2024, 1, 1, 0, 0, 0, 0, time.UTC),
	time.Date(2001, 9, 9, 1, 0, 0, 0, time.UTC),
	time.Date(2100, 2, 28, 22, 0, 0, 0, time.UTC),
}

// NewClock draws a base time.
func NewClock(t *rapid.T) *Clock { return &Clock{T: t, Base: Of(t, "base", bases)} }

var steps = []time.Duration{0, 0, 0, time.Hour, 2 * time.Hour, 9 * time.Hour, -time.Hour, 24 * time.Hour, 36 * time.Hour,
	31 * 24 * time.Hour, -33 * 24 * time.Hour, 366 * 24 * time.Hour, 5 * 24 * time.Hour}

// Hour draws the beginning of an hour.
func (c *Clock) Hour() time.Time { return c.Base.Add(Of(c.T, "step", steps)) }

var offsets = []time.Duration{0, 1, time.Minute, 5 * time.Minute, 14 * time.Minute, 15 * time.Minute, 30 * time.Minute, 50 * time.Minute, time.Hour - 1}

// In draws a time in the hour.
func (c *Clock) In(hour time.Time) time.Time { return hour.Add(Of(c.T, "offset", offsets)) }

// Any draws any time.
func (c *Clock) Any() time.Time { return c.In(c.Hour()) }

// Unit is the granularity of a search of a duration: a year from 360 days, a
// month from 30 days, a day from 24 hours and an hour otherwise.
func Unit(d time.Duration) byte {
	switch {
	case d >= 360*24*time.Hour:
		return 'Y'
	case d >= 30*24*time.Hour:
		return 'M'
	case d >= 24*time.Hour:
		return 'D'
	}
	return 'H'
}

// Floor returns beginning of the unit with t.
func Floor(t time.Time, unit byte) time.Time {
	t = t.UTC()
	switch unit {
	case 'Y':
		return time.Date(t.Year(), 1, 1, 0, 0, 0, 0, time.UTC)
	case 'M':
		return time.Date(t.Year(), t.Month(), 1, 0, 0, 0, 0, time.UTC)
	case 'D':
		return time.Date(t.Year(), t.Month(), t.Day(), 0, 0, 0, 0, time.UTC)
	}
	return time.Date(t.Year(), t.Month(), t.Day(), t.Hour(), 0, 0, 0, time.UTC)
}

// Touches is true when [start, end) touches the unit of ts.
func Touches(start, end, ts time.Time) bool {
	if !start.Before(end) {
		return false
	}
	u := Unit(end.Sub(start))
	f := Floor(ts, u)
	return !f.Before(Floor(start, u)) && f.Before(end)
}

// Label is a searchable property of a sample.
type Label struct {
	Prop       int32 // number of the property in the scan api, 0 for the signal
	Key, Value string
}

func (l Label) String() string { return fmt.Sprintf("%d:%q=%q", l.Prop, l.Key, l.Value) }

// Stored is the model of a stored sample.
type Stored struct {
	ID     uint64
	Data   *v1.Data
	Kind   Kind
	Lo, Hi uint64
	Labels map[Label]bool
}

// NewStored builds the model of a sample.
func NewStored(id uint64, d *v1.Data) *Stored {
	s := &Stored{ID: id, Data: proto.Clone(d).(*v1.Data), Labels: map[Label]bool{}}
	s.Kind, _ = KindOf(d)
	s.Lo, s.Hi = Times(d)
	s.labels()
	return s
}

// At is the time that the sample is filed under.
func (s *Stored) At() time.Time { return time.Unix(0, int64(s.Lo)).UTC() }

func (s *Stored) base(p v1.Scan_BaseProp, v string) {
	if v != "" || p == v1.Scan_NAME {
		s.Labels[Label{Prop: int32(p), Key: v}] = true
	}
}

func (s *Stored) attr(p v1.Scan_AttributeProp, kv []*commonv1.KeyValue) {
	for _, a := range kv {
		if v := a.GetValue().GetStringValue(); v != "" {
			s.Labels[Label{Prop: int32(p), Key: a.Key, Value: v}] = true
		}
	}
}

func (s *Stored) labels() {
	d := s.Data
	rs := func(schema string, kv []*commonv1.KeyValue) {
		s.base(v1.Scan_RESOURCE_SCHEMA, schema)
		s.attr(v1.Scan_RESOURCE_ATTRIBUTES, kv)
	}
	sc := func(schema string, x *commonv1.InstrumentationScope) {
		s.base(v1.Scan_SCOPE_SCHEMA, schema)
		s.base(v1.Scan_SCOPE_NAME, x.GetName())
		s.base(v1.Scan_SCOPE_VERSION, x.GetVersion())
		s.attr(v1.Scan_SCOPE_ATTRIBUTES, x.GetAttributes())
	}
	for _, r := range d.GetMetrics().GetResourceMetrics() {
		rs(r.SchemaUrl, r.Resource.GetAttributes())
		for _, x := range r.ScopeMetrics {
			sc(x.SchemaUrl, x.Scope)
			for _, m := range x.Metrics {
				s.base(v1.Scan_NAME, m.Name)
			}
		}
	}
	for _, r := range d.GetLogs().GetResourceLogs() {
		rs(r.SchemaUrl, r.Resource.GetAttributes())
		for _, x := range r.ScopeLogs {
			sc(x.SchemaUrl, x.Scope)
			for _, l := range x.LogRecords {
				s.base(v1.Scan_LOGS_LEVEL, l.SeverityText)
				s.base(v1.Scan_TRACE_ID, hex.EncodeToString(l.TraceId))
				s.base(v1.Scan_SPAN_ID, hex.EncodeToString(l.SpanId))
			}
		}
	}
	for _, r := range d.GetTraces().GetResourceSpans() {
		rs(r.SchemaUrl, r.Resource.GetAttributes())
		for _, x := range r.ScopeSpans {
			sc(x.SchemaUrl, x.Scope)
			for _, l := range x.Spans {
				if l.Name != "" {
					s.base(v1.Scan_NAME, l.Name)
				}
				s.base(v1.Scan_TRACE_ID, hex.EncodeToString(l.TraceId))
				s.base(v1.Scan_SPAN_ID, hex.EncodeToString(l.SpanId))
				s.base(v1.Scan_PARENT_SPAN_ID, hex.EncodeToString(l.ParentSpanId))
			}
		}
	}
	for _, p := range Points(d) {
		s.attr(v1.Scan_ATTRIBUTES, p.Attrs)
	}
}

// FilterLabel is the label that a filter asks for.
func FilterLabel(f *v1.Scan_Filter) Label {
	switch e := f.Value.(type) {
	case *v1.Scan_Filter_Base:
		return Label{Prop: int32(e.Base.Prop), Key: e.Base.Value}
	case *v1.Scan_Filter_Attr:
		return Label{Prop: int32(e.Attr.Prop), Key: e.Attr.Key, Value: e.Attr.Value}
	}
	return Label{}
}

// Base builds a filter.
func Base(p v1.Scan_BaseProp, v string) *v1.Scan_Filter {
	return &v1.Scan_Filter{Value: &v1.Scan_Filter_Base{Base: &v1.Scan_BaseFilter{Prop: p, Value: v}}}
}

// Attr builds a filter.
func Attr(p v1.Scan_AttributeProp, k, v string) *v1.Scan_Filter {
	return &v1.Scan_Filter{Value: &v1.Scan_Filter_Attr{Attr: &v1.Scan_AttrFilter{Prop: p, Key: k, Value: v}}}
}

var attrProps = map[int32]bool{1: true, 5: true, 7: true}

// ToFilter builds the filter of a label.
func (l Label) ToFilter() *v1.Scan_Filter {
	if attrProps[l.Prop] {
		return Attr(v1.Scan_AttributeProp(l.Prop), l.Key, l.Value)
	}
	return Base(v1.Scan_BaseProp(l.Prop), l.Key)
}

// Model of a database.
type Model struct {
	All []*Stored
}

// Add a sample.
func (m *Model) Add(id uint64, d *v1.Data) *Stored {
	s := NewStored(id, d)
	m.All = append(m.All, s)
	return s
}

// Matching returns samples that a scan must return before limits, ordered by
// id.
func (m *Model) Matching(k Kind, start, end time.Time, fs []*v1.Scan_Filter) (o []*Stored) {
	for _, s := range m.All {
		if s.Kind != k || !Touches(start, end, s.At()) {
			continue
		}
		ok := true
		for _, f := range fs {
			ok = ok && s.Labels[FilterLabel(f)]
		}
		if ok {
			o = append(o, s)
		}
	}
	sort.Slice(o, func(i, j int) bool { return o[i].ID < o[j].ID })
	return
}

// AllPoints of samples.
func AllPoints(ss []*Stored) (o []*Point) {
	for _, s := range ss {
		o = append(o, Points(s.Data)...)
	}
	return
}

// IDs of samples.
func IDs(ss []*Stored) string {
	var b strings.Builder
	for _, s := range ss {
		fmt.Fprintf(&b, "%d ", s.ID)
	}
	return b.String()
}

// Filters draws filters. Most of them are labels of a stored sample, so that
// scans match something.
func (m *Model) Filters(t *rapid.T, k Kind, max int) (o []*v1.Scan_Filter) {
	n := rapid.IntRange(0, max).Draw(t, "filters")
	if n == 0 {
		return nil
	}
	var of []*Stored
	for _, s := range m.All {
		if s.Kind == k && len(s.Labels) > 0 {
			of = append(of, s)
		}
	}
	var from *Stored
	if len(of) > 0 {
		from = Of(t, "filter.sample", of)
	}
	for i := 0; i < n; i++ {
		src := from
		if len(of) > 0 && rapid.IntRange(0, 3).Draw(t, "filter.other") == 0 {
			src = Of(t, "filter.sample", of)
		}
		if src == nil || rapid.IntRange(0, 7).Draw(t, "filter.free") == 0 {
			o = append(o, FreeFilter(t))
			continue
		}
		ls := Sorted(src.Labels)
		l := Of(t, "filter.label", ls)
		if attrProps[l.Prop] {
			// the same text split at another place is a different attribute
			all := l.Key + "=" + l.Value
			var cut []int
			for i := 1; i < len(all)-1; i++ {
				if all[i] == '=' && i != len(l.Key) {
					cut = append(cut, i)
				}
			}
			if len(cut) > 0 && rapid.Bool().Draw(t, "filter.cut") {
				i := Of(t, "filter.cut", cut)
				l.Key, l.Value = all[:i], all[i+1:]
			}
		}
		// long text that differs at its end
		for _, x := range []*string{&l.Key, &l.Value} {
			if n := len(*x); n > 1000 && rapid.Bool().Draw(t, "filter.long") {
				*x = Of(t, "filter.end", []string{(*x)[:n-1] + "x", (*x)[:n-1] + "y", (*x)[:n-1], *x + "x"})
			}
		}
		o = append(o, l.ToFilter())
	}
	return
}

var baseProps = []v1.Scan_BaseProp{v1.Scan_RESOURCE_SCHEMA, v1.Scan_SCOPE_SCHEMA, v1.Scan_SCOPE_NAME, v1.Scan_SCOPE_VERSION,
	v1.Scan_NAME, v1.Scan_TRACE_ID, v1.Scan_SPAN_ID, v1.Scan_PARENT_SPAN_ID, v1.Scan_LOGS_LEVEL}

var attrKinds = []v1.Scan_AttributeProp{v1.Scan_RESOURCE_ATTRIBUTES, v1.Scan_SCOPE_ATTRIBUTES, v1.Scan_ATTRIBUTES}

// FreeFilter draws a filter that may not match anything.
func FreeFilter(t *rapid.T) *v1.Scan_Filter {
	if rapid.Bool().Draw(t, "filter.attr") {
		v := Of(t, "filter.value", Values)
		if v == "" {
			v = "nope"
		}
		return Attr(Of(t, "filter.prop", attrKinds), Of(t, "filter.key", Keys), v)
	}
	p := Of(t, "filter.prop", baseProps)
	switch p {
	case v1.Scan_TRACE_ID:
		return Base(p, hex.EncodeToString(TraceID[1+rapid.IntRange(0, 2).Draw(t, "filter.id")]))
	case v1.Scan_SPAN_ID, v1.Scan_PARENT_SPAN_ID:
		return Base(p, hex.EncodeToString(SpanID[1+rapid.IntRange(0, 2).Draw(t, "filter.id")]))
	case v1.Scan_LOGS_LEVEL:
		return Base(p, Of(t, "filter.value", Levels[1:]))
	case v1.Scan_NAME:
		return Base(p, Of(t, "filter.value", Names))
	case v1.Scan_SCOPE_NAME:
		return Base(p, Of(t, "filter.value", Scopes[1:]))
	case v1.Scan_SCOPE_VERSION:
		return Base(p, Of(t, "filter.value", Version[1:]))
	default:
		return Base(p, Of(t, "filter.value", Schemas[1:]))
	}
}

// Range builds a scan of a time range.
func Range(k Kind, start, end time.Time, fs ...*v1.Scan_Filter) *v1.Scan {
	return &v1.Scan{Scope: k.Scope(), Filters: fs,
		TimeRange: &v1.Scan_TimeRange{Start: timestamppb.New(start), End: timestamppb.New(end)}}
}

// Instant builds a scan without a time range.
func Instant(k Kind, now time.Time, offset time.Duration, fs ...*v1.Scan_Filter) *v1.Scan {
	s := &v1.Scan{Scope: k.Scope(), Filters: fs, Now: timestamppb.New(now)}
	if offset != 0 {
		s.Offset = durationpb.New(offset)
	}
	return s
}

// Nanos is the closest number of nanoseconds since 1970.
func Nanos(t time.Time) uint64 {
	if t.Before(time.Unix(0, 0)) {
		return 0
	}
	if t.After(time.Unix(0, math.MaxInt64)) {
		return math.MaxUint64
	}
	return uint64(t.UnixNano())
}

// Accepts is the model of trimming: whether a point is part of the result of a
// query. Attribute filters must all match, a property with base filters must be
// one of them.
func Accepts(p *Point, fs []*v1.Scan_Filter, start, end uint64) bool {
	if p.Time < start || p.Time >= end {
		return false
	}
	base := map[v1.Scan_BaseProp][]string{}
	for _, f := range fs {
		switch e := f.Value.(type) {
		case *v1.Scan_Filter_Attr:
			var kv []*commonv1.KeyValue
			switch e.Attr.Prop {
			case v1.Scan_RESOURCE_ATTRIBUTES:
				kv = p.Resource.GetAttributes()
			case v1.Scan_SCOPE_ATTRIBUTES:
				kv = p.Scope.GetAttributes()
			case v1.Scan_ATTRIBUTES:
				kv = p.Attrs
			}
			ok := false
			for _, a := range kv {
				s, isString := a.GetValue().GetValue().(*commonv1.AnyValue_StringValue)
				ok = ok || isString && a.Key == e.Attr.Key && s.StringValue == e.Attr.Value
			}
			if !ok {
				return false
			}
		case *v1.Scan_Filter_Base:
			base[e.Base.Prop] = append(base[e.Base.Prop], e.Base.Value)
		}
	}
	for prop, vs := range base {
		var has string
		switch prop {
		case v1.Scan_RESOURCE_SCHEMA:
			has = p.ResourceSchema
		case v1.Scan_SCOPE_SCHEMA:
			has = p.ScopeSchema
		case v1.Scan_SCOPE_NAME:
			has = p.Scope.GetName()
		case v1.Scan_SCOPE_VERSION:
			has = p.Scope.GetVersion()
		default:
			var ok bool
			if has, ok = own(p, prop); !ok {
				continue // the property does not exist for this signal
			}
		}
		ok := false
		for _, v := range vs {
			ok = ok || v == has
		}
		if !ok {
			return false
		}
	}
	return true
}

// own returns a property of the point itself.
func own(p *Point, prop v1.Scan_BaseProp) (string, bool) {
	switch e := p.Msg.(type) {
	case *logsv1.LogRecord:
		switch prop {
		case v1.Scan_LOGS_LEVEL:
			return e.SeverityText, true
		case v1.Scan_TRACE_ID:
			return hex.EncodeToString(e.TraceId), true
		case v1.Scan_SPAN_ID:
			return hex.EncodeToString(e.SpanId), true
		}
	case *tracev1.Span:
		switch prop {
		case v1.Scan_NAME:
			return e.Name, true
		case v1.Scan_TRACE_ID:
			return hex.EncodeToString(e.TraceId), true
		case v1.Scan_SPAN_ID:
			return hex.EncodeToString(e.SpanId), true
		case v1.Scan_PARENT_SPAN_ID:
			return hex.EncodeToString(e.ParentSpanId), true
		}
	default:
		if prop == v1.Scan_NAME {
			return p.Metric.GetName(), true
		}
	}
	return "", false
}

// Sorted labels.
func Sorted(m map[Label]bool) []Label {
	ls := make([]Label, 0, len(m))
	for l := range m {
		ls = append(ls, l)
	}
	sort.Slice(ls, func(i, j int) bool { return ls[i].String() < ls[j].String() })
	return ls
}
