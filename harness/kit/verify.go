package kit

import (
	"context"
	"fmt"
	"time"

	v1 "github.com/gernest/requiemdb/gen/go/rq/v1"
	"google.golang.org/protobuf/proto"
)

// ScanFn is a scan of a store or of a service.
type ScanFn func(ctx context.Context, s *v1.Scan) (*v1.Data, error)

// Verify compares everything that scans return with the model. It returns ""
// when they agree.
func Verify(scan ScanFn, m *Model) string {
	ctx := context.Background()
	run := func(k Kind, s *v1.Scan, want []*Stored) string {
		got, err := scan(ctx, s)
		if err != nil {
			return fmt.Sprintf("scan %v: unexpected error: %v", s, err)
		}
		if gk, ok := KindOf(got); !ok || gk != k {
			return fmt.Sprintf("scan %v returned %v", s, got)
		}
		if d := Diff(AllPoints(want), Points(got)); d != "" {
			return fmt.Sprintf("scan %v must select samples %s\n%s", s, IDs(want), d)
		}
		return ""
	}
	for k := KMetrics; k <= KTraces; k++ {
		hi := time.Unix(0, 0).UTC()
		hours := map[time.Time]*Stored{}
		var order []time.Time
		for _, s := range m.All {
			if s.At().After(hi) {
				hi = s.At()
			}
			if s.Kind == k {
				h := Floor(s.At(), 'H')
				if hours[h] == nil {
					order = append(order, h)
				}
				hours[h] = s
			}
		}
		lo, end := time.Unix(0, 0).UTC(), hi.Add(1)
		if d := run(k, Range(k, lo, end), m.Matching(k, lo, end, nil)); d != "" {
			return d
		}
		if d := run(k, &v1.Scan{Scope: k.Scope(), TimeRange: Range(k, lo, end).TimeRange, Limit: 2, Reverse: true}, lastN(m.Matching(k, lo, end, nil), 2)); d != "" {
			return d
		}
		for _, h := range order {
			want := m.Matching(k, h, h.Add(time.Hour), nil)
			if d := run(k, Range(k, h, h.Add(time.Hour)), want); d != "" {
				return d
			}
			// the latest sample of the hour
			now := h.Add(30 * time.Minute)
			want = m.Matching(k, now.Add(-15*time.Minute), now, nil)
			got, err := scan(ctx, Instant(k, now, 0))
			if err != nil {
				return fmt.Sprintf("instant scan: unexpected error: %v", err)
			}
			last := want[len(want)-1]
			if !proto.Equal(Normalize(got), Normalize(last.Data)) {
				return fmt.Sprintf("instant scan of %s at %s must return sample %d of %s\nwant %v\ngot  %v", k, now, last.ID, IDs(want), Normalize(last.Data), Normalize(got))
			}
			// one label of the sample
			s := hours[h]
			for _, l := range Sorted(s.Labels) {
				f := []*v1.Scan_Filter{l.ToFilter()}
				if d := run(k, Range(k, h, h.Add(time.Hour), f...), m.Matching(k, h, h.Add(time.Hour), f)); d != "" {
					return d
				}
				break
			}
		}
	}
	return ""
}

func lastN(s []*Stored, n int) []*Stored {
	if len(s) > n {
		return s[len(s)-n:]
	}
	return s
}
