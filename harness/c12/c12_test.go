// The index: rows of a query are exactly those that have all columns in the
// views of the time range, whatever the shards of columns.
package c12

import (
	"slices"
	"testing"
	"time"

	"github.com/gernest/rbf"
	"github.com/gernest/rbf/cfg"
	"github.com/gernest/requiemdb/internal/batch"
	"github.com/gernest/requiemdb/internal/bitmaps"
	"github.com/gernest/requiemdb/internal/shards"
	"github.com/gernest/requiemdb/internal/zzverif/kit"
	"github.com/gernest/roaring/shardwidth"
	"pgregory.net/rapid"
)

type entry struct {
	id   uint64
	ts   time.Time
	cols map[uint64]bool
}

const width = shardwidth.ShardWidth

var columns = []uint64{0, 1, 2, 65535, 65536, width - 1, width, width + 1, 2*width - 1, 2 * width, 3*width + 7, 9 * width, 10*width + 3, 11 * width}

func TestProperty(t *testing.T) {
	kit.Run(t, func(c *kit.Case) {
		dir := c.Dir()
		open := func() *shards.Shards {
			x := cfg.NewDefaultConfig()
			x.FsyncEnabled = false
			return shards.New(dir, x)
		}
		s := open()
		c.Cleanup(func() { s.Close() })
		clock := kit.NewClock(c.T)
		model := map[uint64]*entry{}
		var order []uint64
		used := map[uint64]bool{}
		restarts, hits, empties, cross := 0, 0, 0, 0
		b := batch.New()
		var next uint64
		for i := rapid.IntRange(6, 24).Draw(c.T, "ops"); i > 0; i-- {
			switch rapid.SampledFrom([]string{"save", "save", "query", "query", "query", "row", "restart"}).Draw(c.T, "op") {
			case "save":
				for k := rapid.IntRange(1, 4).Draw(c.T, "entries"); k > 0; k-- {
					next += uint64(kit.Of(c.T, "gap", []int{1, 1, 1, 2, 100, 70000, width}))
					e := &entry{id: next, ts: clock.Any(), cols: map[uint64]bool{}}
					bm := bitmaps.New()
					for n := rapid.IntRange(0, 5).Draw(c.T, "columns"); n > 0; n-- {
						col := kit.Of(c.T, "column", columns)
						bm.Add(col)
						e.cols[col] = true
						used[col/width] = true
					}
					b.Add(e.id, e.ts, bm)
					model[e.id] = e
					order = append(order, e.id)
					c.Logf("entry %d at %s: %v", e.id, e.ts, keys(e.cols))
				}
				fs, err := b.Build()
				c.Must(err, "build")
				for shard, views := range fs {
					c.Must(s.Update(shard, func(tx *rbf.Tx) error {
						for name, bm := range views {
							if _, err := tx.AddRoaring(name, bm); err != nil {
								return err
							}
						}
						return nil
					}), "update")
				}
				c.Logf("--")
			case "restart":
				restarts++
				c.Logf("restart")
				c.Must(s.Close(), "close")
				s = open()
			case "query":
				want := bitmaps.New()
				var base *entry
				if len(order) > 0 && rapid.IntRange(0, 4).Draw(c.T, "known") > 0 {
					base = model[kit.Of(c.T, "entry", order)]
				}
				var have []uint64
				if base != nil {
					have = keys(base.cols)
				}
				sh := map[uint64]bool{}
				for n := rapid.IntRange(1, 3).Draw(c.T, "columns"); n > 0; n-- {
					col := kit.Of(c.T, "column", columns)
					if len(have) > 0 && rapid.IntRange(0, 4).Draw(c.T, "of entry") > 0 {
						col = kit.Of(c.T, "column", have)
					}
					want.Add(col)
					sh[col/width] = true
				}
				start := clock.Any()
				if base != nil && rapid.Bool().Draw(c.T, "near") {
					start = base.ts.Add(-kit.Of(c.T, "before", []time.Duration{0, time.Minute, time.Hour, 24 * time.Hour}))
				}
				end := start.Add(kit.Of(c.T, "window", []time.Duration{0, 1, time.Minute, time.Hour, 25 * time.Hour, 24 * time.Hour, 45 * 24 * time.Hour, 500 * 24 * time.Hour, 3000 * 24 * time.Hour}))
				got, err := s.Rows(start, end, want)
				c.Must(err, "rows")
				var ids []uint64
				if got != nil {
					ids = got.ToArray()
				}
				var exp []uint64
				for _, id := range order {
					e := model[id]
					ok := kit.Touches(start, end, e.ts)
					for _, col := range want.ToArray() {
						ok = ok && e.cols[col]
					}
					if ok {
						exp = append(exp, id)
					}
				}
				c.Logf("query %v in [%s, %s)", want.ToArray(), start, end)
				if !slices.Equal(ids, exp) {
					c.Fatalf("columns %v in [%s, %s): want %v, got %v", want.ToArray(), start, end, exp, ids)
				}
				if len(exp) > 0 {
					hits++
					if len(sh) > 1 {
						cross++
					}
				} else {
					empties++
				}
			case "row":
				if len(order) == 0 {
					continue
				}
				e := model[kit.Of(c.T, "entry", order)]
				o := model[kit.Of(c.T, "other", order)]
				unit := kit.Of(c.T, "unit", []byte{'H', 'D', 'M', 'Y'})
				view := "std_" + o.ts.Format(map[byte]string{'H': "2006010215", 'D': "20060102", 'M': "200601", 'Y': "2006"}[unit])
				r, err := s.Row(view, e.id)
				c.Must(err, "row")
				var exp []uint64
				if kit.Floor(e.ts, unit).Equal(kit.Floor(o.ts, unit)) {
					exp = keys(e.cols)
				}
				got := slices.Clone(r.Columns())
				slices.Sort(got)
				c.Logf("row %d in %s", e.id, view)
				if !slices.Equal(exp, got) {
					c.Fatalf("row %d in %s: want %v, got %v", e.id, view, exp, got)
				}
			}
		}
		n := 0
		c.Must(s.AllShards(func(tx *rbf.Tx, shard uint64) error {
			if used[shard] {
				n++
			}
			return nil
		}), "all shards")
		if n != len(used) {
			c.Fatalf("%d of %d shards are visited", n, len(used))
		}
		c.ClassIf(restarts > 0, "restart")
		c.ClassIf(hits > 0, "query with a match")
		c.ClassIf(empties > 0, "query without a match")
		c.ClassIf(cross > 0, "match with columns of several shards")
		c.ClassIf(len(used) > 2, "more than two shards")
		c.NonTrivialIf(hits > 0)
	})
}

func keys(m map[uint64]bool) (o []uint64) {
	for k := range m {
		o = append(o, k)
	}
	slices.Sort(o)
	return
}
