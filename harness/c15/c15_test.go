// Time: the units that a search looks at, the units that a sample is filed
// under and the bounds of a scan agree with each other for every pair of times.
package c15

import (
	"slices"
	"testing"
	"time"

	v1 "github.com/gernest/requiemdb/gen/go/rq/v1"
	"github.com/gernest/requiemdb/internal/batch"
	"github.com/gernest/requiemdb/internal/view"
	"github.com/gernest/requiemdb/internal/x"
	"github.com/gernest/requiemdb/internal/zzverif/kit"
	"google.golang.org/protobuf/types/known/durationpb"
	"google.golang.org/protobuf/types/known/timestamppb"
	"pgregory.net/rapid"
)

var layout = map[byte]string{'H': "2006010215", 'D': "20060102", 'M': "200601", 'Y': "2006"}

var windows = []time.Duration{0, 1, time.Minute, 15 * time.Minute, time.Hour - 1, time.Hour, time.Hour + 1, 5 * time.Hour, 24*time.Hour - 1,
	24 * time.Hour, 24*time.Hour + 1, 49 * time.Hour, 28 * 24 * time.Hour, 30*24*time.Hour - 1, 30 * 24 * time.Hour, 31 * 24 * time.Hour,
	61 * 24 * time.Hour, 359 * 24 * time.Hour, 360*24*time.Hour - 1, 360 * 24 * time.Hour, 366 * 24 * time.Hour, 800 * 24 * time.Hour, -1, -time.Hour}

var zones = []*time.Location{time.UTC, time.FixedZone("e", 5*3600+1800), time.FixedZone("w", -11*3600), time.FixedZone("x", 14*3600)}

func draw(t *rapid.T, clock *kit.Clock) time.Time {
	if rapid.IntRange(0, 3).Draw(t, "any time") == 0 {
		return time.Unix(rapid.Int64Range(0, 7e9).Draw(t, "sec"), rapid.Int64Range(0, 999999999).Draw(t, "ns")).UTC()
	}
	return clock.Any()
}

func TestProperty(t *testing.T) {
	kit.Run(t, func(c *kit.Case) {
		clock := kit.NewClock(c.T)
		start := draw(c.T, clock)
		d := kit.Of(c.T, "window", windows)
		if rapid.IntRange(0, 3).Draw(c.T, "any window") == 0 {
			d = time.Duration(rapid.Int64Range(0, int64(1500*24*time.Hour)).Draw(c.T, "window ns"))
		}
		end := start.Add(d)
		c.Logf("[%s, %s)", start, end)
		zs, ze := kit.Of(c.T, "zone", zones), kit.Of(c.T, "zone", zones)
		got := view.Search(start.In(zs), end.In(ze))

		// every unit with a time in [start, end), one small step at a time
		unit := kit.Unit(d)
		var want []string
		step := time.Hour
		if unit == 'M' || unit == 'Y' {
			step = 24 * time.Hour
		}
		for ts := kit.Floor(start, unit); ts.Before(end) && start.Before(end); ts = ts.Add(step) {
			v := "std_" + ts.Format(layout[unit])
			if len(want) == 0 || want[len(want)-1] != v {
				want = append(want, v)
			}
		}
		if !slices.Equal(want, got) {
			c.Fatalf("search of [%s, %s): want %v, got %v", start, end, want, got)
		}

		// what is written is found, and only there
		found := 0
		for i := rapid.IntRange(1, 8).Draw(c.T, "entries"); i > 0; i-- {
			ts := draw(c.T, clock)
			if rapid.Bool().Draw(c.T, "close") {
				ts = kit.Of(c.T, "edge", []time.Time{start, end, kit.Floor(start, unit), kit.Floor(end, unit)}).
					Add(kit.Of(c.T, "from edge", []time.Duration{0, -1, 1, time.Minute, -time.Minute, time.Hour, -time.Hour, d / 2}))
			}
			q := batch.NeqQuantumTime()
			q.Set(draw(c.T, clock)) // values are reused
			q.Set(ts)
			written, err := q.Views(batch.Quantum)
			c.Must(err, "views")
			if cl := q.Clone(); true {
				other, err := cl.Views(batch.Quantum)
				c.Must(err, "views of a clone")
				if !slices.Equal(written, other) {
					c.Fatalf("clone of %s has views %v, not %v", ts, other, written)
				}
				tm, err := cl.Time()
				c.Must(err, "time")
				if !tm.Equal(kit.Floor(ts, 'H')) {
					c.Fatalf("hour of %s is %s", ts, tm)
				}
				cl.Release()
			}
			q.Release()
			if std := view.Std(ts); !slices.Equal(std, written) {
				c.Fatalf("%s is filed under %v and expected under %v", ts, written, std)
			}
			hit := false
			for _, v := range written {
				hit = hit || slices.Contains(got, v)
			}
			if hit != kit.Touches(start, end, ts) {
				c.Fatalf("[%s, %s) and entry at %s: found %v", start, end, ts, hit)
			}
			if !ts.Before(start) && ts.Before(end) && !hit {
				c.Fatalf("[%s, %s) misses %s", start, end, ts)
			}
			if hit {
				found++
			}
		}

		// bounds of scans
		now := draw(c.T, clock)
		scan := &v1.Scan{}
		ref := now
		if rapid.Bool().Draw(c.T, "now") {
			ref = draw(c.T, clock)
			scan.Now = timestamppb.New(ref)
		}
		if rapid.Bool().Draw(c.T, "offset") {
			o := kit.Of(c.T, "offset", windows)
			scan.Offset = durationpb.New(o)
			ref = ref.Add(-o)
		}
		ws, we := ref.Add(-15*time.Minute), ref
		if rapid.Bool().Draw(c.T, "range") {
			ws, we = start, end
			scan.TimeRange = &v1.Scan_TimeRange{Start: timestamppb.New(start), End: timestamppb.New(end)}
		}
		gs, ge := x.TimeBounds(func() time.Time { return now }, scan)
		if !gs.Equal(ws) || !ge.Equal(we) {
			c.Fatalf("bounds of %v at %s: want [%s, %s), got [%s, %s)", scan, now, ws, we, gs, ge)
		}
		c.Class("granularity " + string(unit))
		c.ClassIf(found > 0, "entry in the window")
		c.ClassIf(len(got) == 0, "empty window")
		c.ClassIf(zs != time.UTC || ze != time.UTC, "other time zones")
		c.NonTrivialIf(len(got) > 0)
	})
}
