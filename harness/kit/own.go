package kit

import (
	"context"
	"errors"
	"fmt"
	"os"
	"os/exec"
	"strings"
	"time"

	v1 "github.com/gernest/requiemdb/gen/go/rq/v1"
	commonv1 "go.opentelemetry.io/proto/otlp/common/v1"
	logsv1 "go.opentelemetry.io/proto/otlp/logs/v1"
	metricsv1 "go.opentelemetry.io/proto/otlp/metrics/v1"
	resourcev1 "go.opentelemetry.io/proto/otlp/resource/v1"
	tracev1 "go.opentelemetry.io/proto/otlp/trace/v1"
	"google.golang.org/grpc"
	"google.golang.org/protobuf/encoding/protojson"
)

// The server stores telemetry of its own. Ours has this attribute.
var ours = &commonv1.KeyValue{Key: "from", Value: &commonv1.AnyValue{Value: &commonv1.AnyValue_StringValue{StringValue: "clients of the check"}}}

func mark(r **resourcev1.Resource) {
	if *r == nil {
		*r = &resourcev1.Resource{}
	}
	(*r).Attributes = append((*r).Attributes, ours)
}

// Own marks data as ours.
func Own(d *v1.Data) {
	switch e := d.Data.(type) {
	case *v1.Data_Metrics:
		if len(e.Metrics.ResourceMetrics) == 0 {
			e.Metrics.ResourceMetrics = []*metricsv1.ResourceMetrics{{}}
		}
		for _, r := range e.Metrics.ResourceMetrics {
			mark(&r.Resource)
		}
	case *v1.Data_Logs:
		if len(e.Logs.ResourceLogs) == 0 {
			e.Logs.ResourceLogs = []*logsv1.ResourceLogs{{}}
		}
		for _, r := range e.Logs.ResourceLogs {
			mark(&r.Resource)
		}
	case *v1.Data_Traces:
		if len(e.Traces.ResourceSpans) == 0 {
			e.Traces.ResourceSpans = []*tracev1.ResourceSpans{{}}
		}
		for _, r := range e.Traces.ResourceSpans {
			mark(&r.Resource)
		}
	}
}

// FromOwn is the filter of our data.
func FromOwn() *v1.Scan_Filter {
	return Attr(v1.Scan_RESOURCE_ATTRIBUTES, ours.Key, ours.Value.GetStringValue())
}

type remoteScan func(ctx context.Context, s *v1.Scan, opts ...grpc.CallOption) (*v1.Data, error)

// VerifyOwn compares all of our data with the model.
func VerifyOwn(ctx context.Context, scan remoteScan, m *Model) string {
	run := func(k Kind, lo, hi time.Time, fs ...*v1.Scan_Filter) string {
		fs = append([]*v1.Scan_Filter{FromOwn()}, fs...)
		got, err := scan(ctx, Range(k, lo, hi, fs...))
		if err != nil {
			return fmt.Sprintf("scan: unexpected error: %v", err)
		}
		if d := Diff(AllPoints(m.Matching(k, lo, hi, fs)), Points(got)); d != "" {
			return fmt.Sprintf("%s of %s to %s with %v\n%s", k, lo, hi, fs, d)
		}
		return ""
	}
	for k := KMetrics; k <= KTraces; k++ {
		seen := map[time.Time]bool{}
		hi := time.Unix(0, 0).UTC()
		n := 0
		for _, s := range m.All {
			if s.At().After(hi) {
				hi = s.At()
			}
			h := Floor(s.At(), 'H')
			if s.Kind != k || seen[h] && n > 10 {
				continue
			}
			if !seen[h] {
				seen[h] = true
				if d := run(k, h, h.Add(time.Hour)); d != "" {
					return d
				}
			}
			n++
			for i, l := range Sorted(s.Labels) {
				if i < 3 {
					if d := run(k, h, h.Add(time.Hour), l.ToFilter()); d != "" {
						return d
					}
				}
			}
		}
		if d := run(k, time.Unix(0, 0).UTC(), hi.Add(1)); d != "" {
			return d
		}
	}
	return ""
}

// Client runs the program as a client, with its home in dir.
func Client(dir string, env []string, args ...string) ([]byte, error) {
	cmd := exec.Command(Program, args...)
	cmd.Dir = dir
	cmd.Env = append(append(os.Environ(), "HOME="+dir), env...)
	var fail strings.Builder
	cmd.Stderr = &fail
	out, err := cmd.Output()
	if err != nil {
		err = fmt.Errorf("%w\n%s", err, fail.String())
	}
	return out, err
}

// MetricsScript is a script that prints some of our metrics, and what judges
// its output. There is none if we have no metrics.
func MetricsScript(m *Model) (src string, check func(out []byte) error) {
	for _, s := range m.All {
		if s.Kind != KMetrics {
			continue
		}
		lo := Floor(s.At(), 'H')
		q := NewQuery(KMetrics, lo.Add(time.Hour)).At(lo.Add(time.Hour)).Filter(FromOwn()).Ago(time.Hour)
		src := "import { Metrics } from \"@requiemdb/rq\";\nMetrics.renderJSON(" + q.Src + ".query());\n"
		return src, func(out []byte) error {
			got := &metricsv1.MetricsData{}
			if err := protojson.Unmarshal(out, got); err != nil {
				return fmt.Errorf("%w: %s", err, out)
			}
			var want []*Point
			for _, x := range AllPoints(m.Matching(KMetrics, lo, lo.Add(time.Hour), q.Scan.Filters)) {
				if Accepts(x, q.Scan.Filters, uint64(lo.UnixNano()), uint64(lo.Add(time.Hour).UnixNano())) {
					want = append(want, x)
				}
			}
			if d := Diff(want, Points(&v1.Data{Data: &v1.Data_Metrics{Metrics: got}})); d != "" {
				return errors.New(src + d)
			}
			return nil
		}
	}
	return "", nil
}
