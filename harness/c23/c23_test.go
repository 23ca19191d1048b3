// Rows are sets of columns, and numbers in bit slices are numbers.
package c23

import (
	"encoding/json"
	"fmt"
	"math/bits"
	"slices"
	"testing"

	"github.com/gernest/requiemdb/internal/rows"
	"github.com/gernest/requiemdb/internal/zzverif/kit"
	"github.com/gernest/roaring"
	"github.com/gernest/roaring/shardwidth"
	"pgregory.net/rapid"
)

const width = shardwidth.ShardWidth

type set map[uint64]bool

func (s set) list() []uint64 {
	o := make([]uint64, 0, len(s))
	for k := range s {
		o = append(o, k)
	}
	slices.Sort(o)
	return o
}

// columns draws a set: single columns, clusters, runs, and dense pieces that
// use another kind of container.
func columns(c *kit.Case, name string) set {
	s := set{}
	for n := rapid.IntRange(0, 4).Draw(c.T, name+" parts"); n > 0; n-- {
		base := kit.Of(c.T, name+" shard", []uint64{0, 1, 2, 7, 1 << 30}) * width
		base += kit.Of(c.T, name+" container", []uint64{0, 0, 1, 3, width>>16 - 1}) << 16
		base += uint64(rapid.IntRange(0, 40).Draw(c.T, name+" at"))
		switch rapid.IntRange(0, 7).Draw(c.T, name+" part") {
		case 0, 1, 2:
			s[base] = true
		case 3, 4:
			for i := rapid.IntRange(1, 60).Draw(c.T, name+" some"); i > 0; i-- {
				s[base+uint64(rapid.IntRange(0, 200).Draw(c.T, name+" off"))] = true
			}
		case 5: // a run, maybe over the end of a container
			base += kit.Of(c.T, name+" end", []uint64{0, 65400, 65535})
			for i := uint64(rapid.IntRange(2, 300).Draw(c.T, name+" run")); i > 0; i-- {
				s[base+i] = true
			}
		case 6: // every second or third column
			step := uint64(rapid.IntRange(2, 3).Draw(c.T, name+" step"))
			for i := uint64(0); i < 4200+uint64(rapid.IntRange(-200, 200).Draw(c.T, name+" dense")); i++ {
				s[base+i*step] = true
			}
			c.Class("dense")
		case 7: // borders
			s[base|(width-1)] = true
			s[base&^(width-1)] = true
		}
	}
	return s
}

type row struct {
	r *rows.Row
	s set
}

func verify(c *kit.Case, what string, x row) {
	want := x.s.list()
	got := x.r.Columns()
	if !slices.Equal(got, want) {
		c.Fatalf("%s: %d columns, want %d: %s", what, len(got), len(want), diff(got, want))
	}
	if n := x.r.Count(); n != uint64(len(want)) {
		c.Fatalf("%s: counts %d, has %d", what, n, len(want))
	}
	if x.r.IsEmpty() != (len(want) == 0) || x.r.Any() == (len(want) == 0) {
		c.Fatalf("%s: %d columns, empty %v any %v", what, len(want), x.r.IsEmpty(), x.r.Any())
	}
}

func diff(got, want []uint64) string {
	for i := range got {
		if i >= len(want) || got[i] != want[i] {
			return fmt.Sprint("at ", i, " ", got[i:min(i+5, len(got))], " want ", want[min(i, len(want)):min(i+5, len(want))])
		}
	}
	return fmt.Sprint("missing ", want[len(got):min(len(got)+5, len(want))])
}

func TestProperty(t *testing.T) {
	kit.Run(t, func(c *kit.Case) {
		var pool []row
		used := map[string]bool{}
		fresh := func() row {
			s := columns(c, "set")
			x := row{s: s}
			how := rapid.SampledFrom([]string{"new", "bits", "bitmap", "builder"}).Draw(c.T, "how")
			switch how {
			case "new":
				x.r = rows.NewRow(s.list()...)
			case "bits":
				x.r = rows.NewRow()
				l := s.list()
				slices.Reverse(l)
				for i, k := range l {
					if i > 3000 {
						break
					}
					if !x.r.SetBit(k) || (i < 50 && x.r.SetBit(k)) {
						c.Fatalf("setting a new column does not tell so")
					}
				}
				for _, k := range l[min(len(l), 3001):] {
					x.r.SetBit(k)
				}
			case "bitmap":
				b := roaring.NewBitmap(s.list()...)
				if rapid.Bool().Draw(c.T, "optimize") {
					b.Optimize()
				}
				x.r = rows.NewRowFromBitmap(b)
			case "builder":
				var b rows.RowBuilder
				for _, k := range s.list() {
					b.Add(k)
				}
				x.r = b.Build()
				if e := b.Build(); e.Any() {
					c.Fatalf("a built row stays in the builder")
				}
			}
			l := s.list()
			c.Logf("%s %d %v", how, len(l), l[:min(len(l), 6)])
			used[how] = true
			verify(c, how, x)
			return x
		}
		pick := func() row {
			if len(pool) == 0 || rapid.IntRange(0, 3).Draw(c.T, "fresh") == 0 {
				pool = append(pool, fresh())
				return pool[len(pool)-1]
			}
			return kit.Of(c.T, "row", pool)
		}
		nt := 0
		for n := rapid.IntRange(1, 10).Draw(c.T, "ops"); n > 0; n-- {
			op := rapid.SampledFrom([]string{"union", "intersect", "difference", "xor", "merge", "clone", "roaring", "includes", "json", "table", "set"}).Draw(c.T, "op")
			a := pick()
			o := row{s: set{}}
			args := []row{a}
			c.Logf("%s", op)
			switch op {
			case "union", "difference":
				var others []*rows.Row
				for k := rapid.IntRange(1, 3).Draw(c.T, "others"); k > 0; k-- {
					b := pick()
					args = append(args, b)
					others = append(others, b.r)
				}
				for k := range a.s {
					o.s[k] = true
				}
				for _, b := range args[1:] {
					for k := range b.s {
						if op == "union" {
							o.s[k] = true
						} else {
							delete(o.s, k)
						}
					}
				}
				if op == "union" {
					o.r = a.r.Union(others...)
				} else {
					o.r = a.r.Difference(others...)
				}
			case "intersect", "xor", "merge":
				b := pick()
				args = append(args, b)
				for k := range a.s {
					if b.s[k] == (op == "intersect") || op == "merge" {
						o.s[k] = true
					}
				}
				for k := range b.s {
					if op == "merge" || (op == "xor" && !a.s[k]) {
						o.s[k] = true
					}
				}
				switch op {
				case "intersect":
					o.r = a.r.Intersect(b.r)
				case "xor":
					o.r = a.r.Xor(b.r)
				case "merge":
					o.r = a.r.Clone()
					o.r.Merge(b.r.Clone())
				}
			case "clone":
				o.r = a.r.Clone()
				for k := range a.s {
					o.s[k] = true
				}
			case "set":
				o.r = a.r.Clone()
				for k := range a.s {
					o.s[k] = true
				}
				for _, k := range rapid.Permutation(columns(c, "more").list()).Draw(c.T, "order") {
					if o.r.SetBit(k) == o.s[k] {
						c.Fatalf("setting %d, that was set is %v, tells otherwise", k, o.s[k])
					}
					o.s[k] = true
					if len(o.s) > len(a.s)+500 {
						break
					}
				}
			case "roaring":
				if len(a.s) == 0 {
					continue
				}
				o.r = rows.NewRowFromRoaring(a.r.Roaring())
				for k := range a.s {
					o.s[k] = true
				}
			case "includes":
				b := pick()
				for i, k := range append(b.s.list(), 0, 1, width-1, width, 7*width) {
					if i > 2000 {
						break
					}
					if a.r.Includes(k) != a.s[k] {
						c.Fatalf("includes %d is %v", k, !a.s[k])
					}
				}
				for i, k := range a.r.ShardColumns() {
					if k != int64(a.s.list()[min(i, len(a.s)-1)]%width) || i > 20 {
						if i > 20 {
							break
						}
						c.Fatalf("column %d of its shard is %d", i, k)
					}
				}
				continue
			case "json":
				var j struct {
					Columns []uint64 `json:"columns"`
				}
				b, err := json.Marshal(a.r)
				c.Must(err, "json")
				c.Must(json.Unmarshal(b, &j), "json")
				if !slices.Equal(j.Columns, a.s.list()) {
					c.Fatalf("json: %s", diff(j.Columns, a.s.list()))
				}
				continue
			case "table":
				tb, err := a.r.ToTable()
				c.Must(err, "table")
				l := a.s.list()
				if len(tb.Rows) != len(l) {
					c.Fatalf("table has %d rows for %d columns", len(tb.Rows), len(l))
				}
				for i, v := range tb.Rows {
					if len(v) != 1 || v[0].Int() != l[i] || v[0].String() != "" || v[0].Float64() != 0 || !v[0].Time().IsZero() {
						c.Fatalf("row %d of the table is not %d", i, l[i])
					}
				}
				if len(l) > 0 && (len(tb.Headers) != 1 || tb.Headers[0].Name != "_id" || tb.Headers[0].DataType != rows.Int64) {
					c.Fatalf("headers %v", tb.Headers)
				}
				continue
			}
			verify(c, op, o)
			for _, x := range args {
				verify(c, op+" (operand)", x)
			}
			if len(args) > 1 && len(args[0].s) > 0 && len(args[1].s) > 0 {
				nt++
				used[op] = true
			}
			pool = append(pool, o)
		}
		for i, x := range pool {
			verify(c, fmt.Sprint("at the end, row ", i), x)
		}
		for k := range used {
			c.Class(k)
		}
		c.NonTrivialIf(nt > 0)
	})
}

func sumBits(c *kit.Case, name string) uint64 {
	n := rapid.IntRange(0, 62).Draw(c.T, name+" bits")
	if n == 0 {
		return 0
	}
	return 1<<(n-1) | rapid.Uint64Range(0, 1<<(n-1)-1).Draw(c.T, name)
}

// TestNumbers: numbers in bit slices.
func TestNumbers(t *testing.T) {
	kit.Run(t, func(c *kit.Case) {
		var bx, by rows.BsiBuilder
		round := func() {
			x, y := map[uint64]uint64{}, map[uint64]uint64{}
			cols := columns(c, "columns").list()
			if len(cols) > 600 {
				cols = cols[:600]
			}
			for i, k := range cols {
				which := 3
				if i < 30 {
					which = rapid.IntRange(1, 3).Draw(c.T, "which")
				}
				vx, vy := uint64(i%5), uint64(i*i)
				if i < 30 {
					vx, vy = sumBits(c, "x"), sumBits(c, "y")
				}
				if which&1 != 0 {
					bx.Insert(k, vx)
					x[k] = vx
				}
				if which&2 != 0 {
					by.Insert(k, vy)
					y[k] = vy
				}
				if i < 30 {
					c.Logf("%d: %d %d %d", k, which, vx, vy)
				}
			}
			dx, dy := bx.Build(), by.Build()
			read := func(what string, d rows.BSIData, m map[uint64]uint64) {
				got := map[uint64]uint64{}
				last := ^uint64(0)
				d.PivotDescending(rows.NewRow().Union(d...), 0, nil, nil, func(v uint64, cols ...uint64) {
					if v >= last && last != ^uint64(0) || v == 0 {
						c.Fatalf("%s: %d after %d", what, v, last)
					}
					last = v
					for _, k := range cols {
						if _, ok := got[k]; ok {
							c.Fatalf("%s: column %d twice", what, k)
						}
						got[k] = v
					}
				})
				n := 0
				for k, v := range m {
					if v != 0 {
						n++
					}
					if got[k] != v {
						c.Fatalf("%s: column %d is %d, want %d", what, k, got[k], v)
					}
				}
				if n != len(got) {
					c.Fatalf("%s: %d columns, want %d", what, len(got), n)
				}
			}
			read("x", dx, x)
			read("y", dy, y)
			sum := map[uint64]uint64{}
			for k, v := range x {
				sum[k] = v
			}
			for k, v := range y {
				sum[k] += v
			}
			read("x+y", rows.AddBSI(dx, dy), sum)
			read("y+x", rows.AddBSI(dy, dx), sum)
			read("x after", dx, x)
			read("y after", dy, y)

			// a window of a selection
			filter := map[uint64]bool{}
			for _, k := range cols {
				if len(filter) < 200 && k%3 != 0 {
					filter[k] = true
				}
			}
			type pair struct{ v, k uint64 }
			var want []pair
			for k := range filter {
				want = append(want, pair{x[k], k})
			}
			slices.SortFunc(want, func(a, b pair) int {
				switch {
				case a.v != b.v && a.v > b.v, a.v == b.v && a.k < b.k:
					return -1
				default:
					return 1
				}
			})
			var limit, offset *uint64
			if rapid.Bool().Draw(c.T, "offset?") {
				o := uint64(rapid.IntRange(0, len(want)+1).Draw(c.T, "offset"))
				want = want[min(int(o), len(want)):]
				offset = &o
			}
			if rapid.Bool().Draw(c.T, "limit?") {
				l := uint64(rapid.IntRange(0, len(want)+1).Draw(c.T, "limit"))
				want = want[:min(int(l), len(want))]
				limit = &l
			}
			var got []pair
			dx.PivotDescending(rows.NewRow(set(filter).list()...), 0, limit, offset, func(v uint64, cols ...uint64) {
				for _, k := range cols {
					got = append(got, pair{v, k})
				}
			})
			if !slices.Equal(got, want) {
				c.Fatalf("window: %v want %v", got, want)
			}
			c.ClassIf(limit != nil && offset != nil, "limit and offset")
			big := 0
			for _, v := range sum {
				big = max(big, bits.Len64(v))
			}
			c.ClassIf(big > 32, "large numbers")
			c.NonTrivialIf(len(x) > 1 && len(y) > 1)
		}
		for n := rapid.IntRange(1, 2).Draw(c.T, "rounds"); n > 0; n-- {
			round()
		}
	})
}
