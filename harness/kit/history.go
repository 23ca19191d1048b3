package kit

import (
	"context"
	"time"

	v1 "github.com/gernest/requiemdb/gen/go/rq/v1"
	"google.golang.org/protobuf/proto"
	"pgregory.net/rapid"
)

// History is a store with generated samples and its model.
type History struct {
	C     *Case
	N     *Node
	M     *Model
	Clock *Clock
	// Kinds that are saved.
	Kinds []Kind
	// Configure changes the generator of a sample.
	Configure func(g *Gen)
	// Hours draws beginning of the hour of a sample.
	Hours func() time.Time
	// Edit changes data before it is saved.
	Edit func(d *v1.Data)
	// NoLog leaves out data from the description of the case.
	NoLog bool
}

// NewHistory opens a store in memory.
func NewHistory(c *Case) *History {
	n, err := OpenAt(c.Dir(), true, ShardEnd(c))
	c.Must(err, "open")
	h := &History{C: c, N: n, M: &Model{}, Clock: NewClock(c.T), Kinds: []Kind{KMetrics, KLogs, KTraces}}
	c.Cleanup(func() { h.N.Close() })
	h.Hours = h.Clock.Hour
	return h
}

// Draw a sample.
func (h *History) Draw() *v1.Data {
	t := h.C.T
	hour := h.Hours()
	g := &Gen{T: t, MaxResources: 2, MaxScopes: 2, MaxMetrics: 2, MaxPoints: 2, Lean: true, Long: true,
		Time: func() uint64 { return uint64(h.Clock.In(hour).UnixNano()) }}
	if h.Configure != nil {
		h.Configure(g)
	}
	d := g.Data(Of(t, "kind", h.Kinds))
	if h.Edit != nil {
		h.Edit(d)
	}
	return d
}

// Save a batch of samples.
func (h *History) Save(ds ...*v1.Data) []*Stored {
	var keep []*v1.Data
	for _, d := range ds {
		keep = append(keep, proto.Clone(d).(*v1.Data))
	}
	ss, err := h.N.Save(ds...)
	h.C.Must(err, "save")
	var o []*Stored
	for i, s := range ss {
		x := h.M.Add(s.Id, keep[i])
		o = append(o, x)
		if h.NoLog {
			h.C.Logf("saved %d %s at %s", s.Id, x.Kind, x.At().Format(time.RFC3339Nano))
		} else {
			h.C.Logf("saved %d %s at %s: %v", s.Id, x.Kind, x.At().Format(time.RFC3339Nano), x.Data)
		}
	}
	return o
}

// Fill saves batches of samples.
func (h *History) Fill(batches, samples int) {
	for b := rapid.IntRange(1, batches).Draw(h.C.T, "batches"); b > 0; b-- {
		var ds []*v1.Data
		for i := rapid.IntRange(1, samples).Draw(h.C.T, "samples"); i > 0; i-- {
			ds = append(ds, h.Draw())
		}
		h.Save(ds...)
		h.C.Logf("--")
	}
}

// Scan runs a scan that must not fail.
func (h *History) Scan(s *v1.Scan) *v1.Data {
	d, err := h.N.Store.Scan(context.Background(), s)
	h.C.Must(err, "scan")
	h.C.Logf("scan %v", s)
	if k, ok := KindOf(d); !ok || k.Scope() != s.Scope {
		h.C.Fatalf("scan of %s returned %v", s.Scope, d)
	}
	return d
}

// Window draws a time range close to the samples. It is rarely empty.
func (h *History) Window() (time.Time, time.Time) {
	t := h.C.T
	var a time.Time
	if len(h.M.All) > 0 && rapid.IntRange(0, 3).Draw(t, "window.at") > 0 {
		at := Of(t, "window.sample", h.M.All).At()
		switch rapid.IntRange(0, 5).Draw(t, "window.edge") {
		case 0:
			a = at
		case 1:
			a = at.Add(1)
		case 2:
			a = Floor(at, 'H')
		case 3:
			a = Floor(at, Of(t, "window.unit", []byte{'D', 'M', 'Y'}))
		case 4:
			a = at.Add(-Of(t, "window.back", durations))
		case 5:
			a = Floor(at, 'H').Add(-1)
		}
	} else {
		a = h.Clock.Any()
	}
	d := Of(t, "window", durations)
	return a, a.Add(d)
}

var durations = []time.Duration{0, 1, time.Minute, 15 * time.Minute, time.Hour - 1, time.Hour, time.Hour + 1, 90 * time.Minute,
	5 * time.Hour, 24*time.Hour - 1, 24 * time.Hour, 24*time.Hour + 1, 49 * time.Hour, 10 * 24 * time.Hour, 30*24*time.Hour - 1, 30 * 24 * time.Hour,
	31 * 24 * time.Hour, 70 * 24 * time.Hour, 360*24*time.Hour - 1, 360 * 24 * time.Hour, 400 * 24 * time.Hour, 800 * 24 * time.Hour}

// Everything is a window with all samples.
func (h *History) Everything() (time.Time, time.Time) {
	hi := time.Unix(0, 0).UTC()
	for _, s := range h.M.All {
		if s.At().After(hi) {
			hi = s.At()
		}
	}
	return time.Unix(0, 0).UTC(), hi.Add(1)
}
