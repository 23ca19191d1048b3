package kit

import (
	"encoding/json"
	"fmt"
	"strings"
	"time"

	v1 "github.com/gernest/requiemdb/gen/go/rq/v1"
	"google.golang.org/protobuf/proto"
	"google.golang.org/protobuf/types/known/durationpb"
	"google.golang.org/protobuf/types/known/timestamppb"
	"pgregory.net/rapid"
)

// Query is a query of a script: its source and the scan that it asks for.
type Query struct {
	Src  string
	Scan *v1.Scan
	// Now is the time that the query is evaluated at.
	Now   time.Time
	Calls int
}

func quote(s string) string {
	b, err := json.Marshal(s)
	if err != nil {
		panic(err)
	}
	return string(b)
}

var method = map[int32]string{
	int32(v1.Scan_RESOURCE_SCHEMA): "resourceSchema", int32(v1.Scan_RESOURCE_ATTRIBUTES): "resourceAttr",
	int32(v1.Scan_SCOPE_SCHEMA): "scopeSchema", int32(v1.Scan_SCOPE_NAME): "scopeName", int32(v1.Scan_SCOPE_VERSION): "scopeVersion",
	int32(v1.Scan_SCOPE_ATTRIBUTES): "scopeAttr", int32(v1.Scan_NAME): "name", int32(v1.Scan_ATTRIBUTES): "attr",
	int32(v1.Scan_TRACE_ID): "traceId", int32(v1.Scan_SPAN_ID): "spanId", int32(v1.Scan_PARENT_SPAN_ID): "parentSpanId",
	int32(v1.Scan_LOGS_LEVEL): "logLevel",
}

var class = map[Kind]string{KMetrics: "Metrics", KLogs: "Logs", KTraces: "Trace"}

// NewQuery starts a query at a time.
func NewQuery(k Kind, now time.Time) *Query {
	return &Query{Src: "new " + class[k] + "()", Scan: &v1.Scan{Scope: k.Scope()}, Now: now}
}

func (q *Query) call(name string, args ...string) *Query {
	q.Src += "." + name + "(" + strings.Join(args, ", ") + ")"
	q.Calls++
	return q
}

// Filter adds a filter.
func (q *Query) Filter(f *v1.Scan_Filter) *Query {
	q.Scan.Filters = append(q.Scan.Filters, proto.Clone(f).(*v1.Scan_Filter))
	switch e := f.Value.(type) {
	case *v1.Scan_Filter_Base:
		if e.Base.Prop == v1.Scan_NAME && e.Base.Value != "" && q.Src == "new Metrics()" {
			q.Src = "new Metrics(" + quote(e.Base.Value) + ")"
			q.Calls++
			return q
		}
		return q.call(method[int32(e.Base.Prop)], quote(e.Base.Value))
	case *v1.Scan_Filter_Attr:
		return q.call(method[int32(e.Attr.Prop)], quote(e.Attr.Key), quote(e.Attr.Value))
	}
	panic(f)
}

// At sets the time of evaluation, which has milliseconds.
func (q *Query) At(t time.Time) *Query {
	t = t.Truncate(time.Millisecond)
	q.Now = t
	q.Scan.Now = timestamppb.New(t)
	return q.call("now", fmt.Sprintf("new Date(%d)", t.UnixMilli()))
}

// Limit sets the limit.
func (q *Query) Limit(n uint64) *Query {
	q.Scan.Limit = n
	return q.call("limit", fmt.Sprint(n))
}

// Reverse order.
func (q *Query) Reverse() *Query {
	q.Scan.Reverse = true
	return q.call("reverse")
}

// Offset before now.
func (q *Query) Offset(d time.Duration) *Query {
	q.Scan.Offset = durationpb.New(d)
	return q.call("offset", quote(d.String()))
}

// Range sets the time range to the one in milliseconds around the times.
func (q *Query) between(from, to time.Time) *Query {
	q.Scan.TimeRange = &v1.Scan_TimeRange{Start: timestamppb.New(from), End: timestamppb.New(to)}
	return q
}

// Between sets the time range to two times in milliseconds.
func (q *Query) Between(from, to time.Time) *Query {
	from, to = from.Truncate(time.Millisecond), to.Truncate(time.Millisecond)
	q.between(from, to)
	q.Src = fmt.Sprintf("(q => { q.ptr.TimeRange(%d, %d); return q })(%s)", from.UnixMilli(), to.UnixMilli(), q.Src)
	q.Calls++
	return q
}

// Ago sets the time range to the duration before now.
func (q *Query) Ago(d time.Duration) *Query {
	if d == 15*time.Minute && q.Calls%2 == 0 {
		return q.between(q.Now.Add(-d), q.Now).call("latest")
	}
	return q.between(q.Now.Add(-d), q.Now).call("ago", quote(d.String()))
}

// This sets the time range to the current day, week, month or year.
func (q *Query) This(unit string) *Query {
	y, m, d := q.Now.Date()
	day := time.Date(y, m, d, 0, 0, 0, 0, time.UTC)
	switch unit {
	case "today":
	case "thisWeek":
		day = day.AddDate(0, 0, -int(day.Weekday()))
	case "thisMonth":
		day = day.AddDate(0, 0, 1-d)
	case "thisYear":
		day = day.AddDate(0, 0, 1-day.YearDay())
	}
	return q.between(day, q.Now).call(unit)
}

var offs = []time.Duration{0, time.Nanosecond, time.Millisecond, 90 * time.Second, 15 * time.Minute, time.Hour, 25 * time.Hour,
	24 * 40 * time.Hour, -time.Hour, 1500 * time.Millisecond, 9000 * time.Hour}

// DrawQuery draws calls of a query.
func DrawQuery(t *rapid.T, k Kind, now time.Time, clock *Clock, max int) *Query {
	q := NewQuery(k, now)
	for n := rapid.IntRange(0, max).Draw(t, "calls"); n > 0; n-- {
		switch rapid.IntRange(0, 13).Draw(t, "call") {
		case 0:
			q.Limit(uint64(Of(t, "limit", []int{0, 1, 2, 3, 100, 1 << 40})))
		case 1:
			q.Reverse()
		case 2:
			q.Offset(Of(t, "offset", offs))
		case 3:
			q.At(clock.Any())
		case 4, 5:
			q.Ago(Of(t, "ago", offs))
		case 8:
			q.Between(clock.Any(), clock.Any())
		case 6, 7:
			q.This(Of(t, "this", []string{"today", "thisWeek", "thisMonth", "thisYear"}))
		default:
			f := FreeFilter(t)
			if b := f.GetBase(); b != nil && rapid.IntRange(0, 5).Draw(t, "odd") == 0 {
				b.Value = Of(t, "odd", append([]string{`"quoted"`, "a'b", "`x`", "</script>", "\u2028", "${x}", "new\nline", `\u0041`}, Values...))
			}
			q.Filter(f)
		}
	}
	return q
}
