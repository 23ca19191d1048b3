// What is indexed about a sample: the time span, the views and the searchable
// labels of each sample of a batch, and nothing of the other samples.
package c13

import (
	"fmt"
	"slices"
	"testing"
	"time"

	v1 "github.com/gernest/requiemdb/gen/go/rq/v1"
	"github.com/gernest/requiemdb/internal/batch"
	"github.com/gernest/requiemdb/internal/labels"
	"github.com/gernest/requiemdb/internal/transform"
	"github.com/gernest/requiemdb/internal/zzverif/kit"
	"github.com/gernest/roaring/shardwidth"
	"google.golang.org/protobuf/proto"
	"pgregory.net/rapid"
)

var prefixes = map[int32]v1.PREFIX{
	int32(v1.Scan_RESOURCE_SCHEMA):     v1.PREFIX_RESOURCE_SCHEMA,
	int32(v1.Scan_RESOURCE_ATTRIBUTES): v1.PREFIX_RESOURCE_ATTRIBUTES,
	int32(v1.Scan_SCOPE_SCHEMA):        v1.PREFIX_SCOPE_SCHEMA,
	int32(v1.Scan_SCOPE_NAME):          v1.PREFIX_SCOPE_NAME,
	int32(v1.Scan_SCOPE_VERSION):       v1.PREFIX_SCOPE_VERSION,
	int32(v1.Scan_SCOPE_ATTRIBUTES):    v1.PREFIX_SCOPE_ATTRIBUTES,
	int32(v1.Scan_NAME):                v1.PREFIX_NAME,
	int32(v1.Scan_ATTRIBUTES):          v1.PREFIX_ATTRIBUTES,
	int32(v1.Scan_TRACE_ID):            v1.PREFIX_TRACE_ID,
	int32(v1.Scan_SPAN_ID):             v1.PREFIX_SPAN_ID,
	int32(v1.Scan_PARENT_SPAN_ID):      v1.PREFIX_PARENT_SPAN_ID,
	int32(v1.Scan_LOGS_LEVEL):          v1.PREFIX_LOGS_LEVEL,
}

var resources = [...]v1.RESOURCE{v1.RESOURCE_METRICS, v1.RESOURCE_LOGS, v1.RESOURCE_TRACES}

func key(k kit.Kind, l *kit.Label) string {
	x := labels.Label{Resource: resources[k]}
	if l != nil {
		x.Prefix, x.Key, x.Value = prefixes[l.Prop], l.Key, l.Value
	}
	return string(x.Encode())
}

func TestProperty(t *testing.T) {
	kit.Run(t, func(c *kit.Case) {
		// columns are spread over shards
		cols, names := map[string]uint64{}, map[uint64]string{}
		gap := kit.Of(c.T, "column gap", []uint64{1, 1, 40000, shardwidth.ShardWidth/3 + 1, shardwidth.ShardWidth + 7})
		next := uint64(rapid.IntRange(0, 3).Draw(c.T, "first column"))
		ctx := transform.NewContext(func(b []byte) uint64 {
			k := string(b)
			if v, ok := cols[k]; ok {
				return v
			}
			v := next
			next += gap
			cols[k], names[v] = v, k
			return v
		})
		clock := kit.NewClock(c.T)
		g := &kit.Gen{T: c.T, MaxResources: 2, MaxScopes: 2, MaxMetrics: 2, MaxPoints: 2, NilValues: true, Long: true}
		hour := clock.Hour()
		g.Time = func() uint64 {
			switch rapid.IntRange(0, 9).Draw(c.T, "time") {
			case 0:
				return 0
			case 1:
				return uint64(clock.Any().UnixNano())
			}
			return uint64(clock.In(hour).UnixNano())
		}
		g.End = func(start uint64) uint64 {
			return kit.Of(c.T, "end", []uint64{start, start + 1, start + uint64(2*time.Hour), start / 2, 0})
		}
		id := uint64(rapid.IntRange(0, 3).Draw(c.T, "first id"))
		kinds := map[kit.Kind]bool{}
		nl, ns := 0, 0
		for b := rapid.IntRange(1, 3).Draw(c.T, "batches"); b > 0; b-- {
			var ls []*v1.Sample
			model := map[uint64]*kit.Stored{}
			for i := rapid.IntRange(1, 3).Draw(c.T, "samples"); i > 0; i-- {
				hour = clock.Hour()
				k := kit.Of(c.T, "kind", []kit.Kind{kit.KMetrics, kit.KLogs, kit.KTraces})
				d := g.Data(k)
				id += uint64(rapid.IntRange(1, 3).Draw(c.T, "gap"))
				ls = append(ls, &v1.Sample{Id: id, Data: d})
				model[id] = kit.NewStored(id, d)
				kinds[k] = true
				ns++
				nl += len(model[id].Labels)
				c.Logf("%d: %v", id, d)
			}
			before := make([]proto.Message, len(ls))
			for i, s := range ls {
				before[i] = proto.Clone(s.Data)
			}
			fs, err := ctx.ProcessSamples(ls...)
			c.Must(err, "process samples")
			for i, s := range ls {
				m := model[s.Id]
				if s.MinTs != m.Lo || s.MaxTs != m.Hi {
					c.Fatalf("sample %d: want time span [%d, %d], got [%d, %d]", s.Id, m.Lo, m.Hi, s.MinTs, s.MaxTs)
				}
				if !proto.Equal(before[i], s.Data) {
					c.Fatalf("sample %d: data was changed", s.Id)
				}
			}
			got := read(c, fs, names)
			want := map[string][]string{} // view/sample -> labels
			for _, m := range model {
				var keys []string
				keys = append(keys, key(m.Kind, nil))
				for l := range m.Labels {
					keys = append(keys, key(m.Kind, &l))
				}
				slices.Sort(keys)
				at := m.At()
				for _, f := range []string{"2006", "200601", "20060102", "2006010215"} {
					want[fmt.Sprintf("std_%s/%d", at.Format(f), m.ID)] = keys
				}
			}
			for k, w := range want {
				if !slices.Equal(w, got[k]) {
					c.Fatalf("index of %s:\nwant %q\ngot  %q", k, w, got[k])
				}
			}
			for k, g := range got {
				if want[k] == nil {
					c.Fatalf("unexpected index of %s: %q", k, g)
				}
			}
			c.Logf("--")
		}
		c.ClassIf(len(kinds) > 1, "several signals")
		c.ClassIf(nl > 10, "more than ten labels")
		c.ClassIf(gap > 60000, "columns in several blocks or shards")
		c.NonTrivialIf(nl > 0 && ns > 1)
	})
}

// The labels that a store lists for its samples.
func TestStored(t *testing.T) {
	kit.Run(t, func(c *kit.Case) {
		n, err := kit.OpenAt(c.Dir(), true, kit.ShardEnd(c))
		c.Must(err, "open")
		c.Cleanup(func() { n.Close() })
		clock := kit.NewClock(c.T)
		hour := clock.Hour()
		g := &kit.Gen{T: c.T, MaxResources: 2, MaxScopes: 2, MaxMetrics: 2, MaxPoints: 2, NilValues: true, Long: true,
			Time: func() uint64 { return uint64(clock.In(hour).UnixNano()) }}
		var all []*kit.Stored
		saves, nl := rapid.IntRange(1, 3).Draw(c.T, "saves"), 0
		for i := 0; i < saves; i++ {
			var ds []*v1.Data
			for k := rapid.IntRange(1, 3).Draw(c.T, "samples"); k > 0; k-- {
				hour = clock.Hour()
				ds = append(ds, g.Data(kit.Of(c.T, "kind", []kit.Kind{kit.KMetrics, kit.KLogs, kit.KTraces})))
				c.Logf("%v", ds[len(ds)-1])
			}
			ss, err := n.Save(ds...)
			c.Must(err, "save")
			for i, s := range ss {
				all = append(all, kit.NewStored(s.Id, ds[i]))
			}
			c.Logf("--")
			for _, s := range all {
				want := []string{key(s.Kind, nil)}
				for l := range s.Labels {
					want = append(want, key(s.Kind, &l))
				}
				slices.Sort(want)
				nl += len(want)
				at := s.At()
				for _, f := range []string{"2006", "200601", "20060102", "2006010215"} {
					view := "std_" + at.Format(f)
					got, err := n.Store.Labels(view, s.ID)
					c.Must(err, "labels")
					slices.Sort(got)
					if !slices.Equal(want, got) {
						c.Fatalf("labels of sample %d in %s:\nwant %q\ngot  %q", s.ID, view, want, got)
					}
				}
			}
		}
		c.ClassIf(saves > 1, "several saves")
		c.NonTrivialIf(len(all) > 1 && nl > len(all))
	})
}

func read(c *kit.Case, fs batch.Fragments, names map[uint64]string) map[string][]string {
	o := map[string][]string{}
	for shard, views := range fs {
		for view, bm := range views {
			for _, pos := range bm.Slice() {
				row := pos / shardwidth.ShardWidth
				col := shard*shardwidth.ShardWidth + pos%shardwidth.ShardWidth
				n, ok := names[col]
				if !ok {
					c.Fatalf("column %d of %s was not translated", col, view)
				}
				k := fmt.Sprintf("%s/%d", view, row)
				o[k] = append(o[k], n)
			}
		}
	}
	for k := range o {
		slices.Sort(o[k])
	}
	return o
}
