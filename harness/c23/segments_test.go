package c23

import (
	"errors"
	"fmt"
	"slices"
	"testing"

	"github.com/gernest/requiemdb/internal/rows"
	"github.com/gernest/requiemdb/internal/zzverif/kit"
	"github.com/gernest/roaring"
	"pgregory.net/rapid"
)

// TestSegments: what the operations of rows are made of, and rows that are
// changed after they came out of an operation.
func TestSegments(t *testing.T) {
	kit.Run(t, func(c *kit.Case) {
		fresh := func(name string) row {
			s := columns(c, name)
			x := row{rows.NewRow(), s}
			l := s.list()
			switch rapid.IntRange(0, 2).Draw(c.T, name+" how") {
			case 0:
				x.r = rows.NewRow(l...)
			case 1:
				b := roaring.NewBitmap(l...)
				if rapid.Bool().Draw(c.T, "optimize") {
					b.Optimize()
				}
				x.r = rows.NewRowFromBitmap(b)
			case 2:
				if len(l) > 0 {
					x.r = rows.NewRowFromRoaring(rows.NewRow(l...).Roaring())
				}
			}
			c.Logf("%s %d %v", name, len(l), l[:min(len(l), 6)])
			return x
		}
		a, b := fresh("a"), fresh("b")
		shard := func(x row, n uint64) set {
			s := set{}
			for k := range x.s {
				if k/width == n {
					s[k] = true
				}
			}
			return s
		}
		segment := func(what string, s *rows.RowSegment, n uint64, want set) {
			if s.Shard() != n {
				c.Fatalf("%s: shard %d, want %d", what, s.Shard(), n)
			}
			if got := s.Columns(); !slices.Equal(got, want.list()) {
				c.Fatalf("%s: %s", what, diff(got, want.list()))
			}
			if s.Count() != uint64(len(want)) {
				c.Fatalf("%s: counts %d of %d", what, s.Count(), len(want))
			}
			for i, k := range s.ShardColumns() {
				if uint64(k) != want.list()[i]%width {
					c.Fatalf("%s: column %d of the shard is %d", what, i, k)
				}
				if i > 20 {
					break
				}
			}
		}
		both := 0
		for i := range a.r.Segments {
			x := &a.r.Segments[i]
			n := x.Shard()
			segment("segment", x, n, shard(a, n))
			for j := range b.r.Segments {
				y := &b.r.Segments[j]
				if y.Shard() != n {
					continue
				}
				both++
				sx, sy := shard(a, n), shard(b, n)
				and, or, not, xor := set{}, set{}, set{}, set{}
				for k := range sx {
					or[k] = true
					if sy[k] {
						and[k] = true
					} else {
						not[k], xor[k] = true, true
					}
				}
				for k := range sy {
					or[k] = true
					if !sx[k] {
						xor[k] = true
					}
				}
				segment("intersect", x.Intersect(y), n, and)
				segment("union", x.Union(y), n, or)
				segment("union of three", x.Union(y, x), n, or)
				segment("difference", x.Difference(y), n, not)
				segment("difference of two", x.Difference(y, y), n, not)
				segment("xor", x.Xor(y), n, xor)
				if m := x.IntersectionCount(y); m != uint64(len(and)) {
					c.Fatalf("counts %d of an intersection of %d", m, len(and))
				}
				m := a.r.Clone()
				m.Segments[i].Merge(y)
				segment("merge", &m.Segments[i], n, or)
				segment("operand", x, n, sx)
				segment("operand", y, n, sy)
			}
		}
		// the result of an operation is changed, its operands stay
		o, so := a.r.Intersect(b.r), set{}
		switch op := rapid.SampledFrom([]string{"intersect", "difference", "xor", "file", "clone"}).Draw(c.T, "op"); op {
		case "intersect":
			for k := range a.s {
				if b.s[k] {
					so[k] = true
				}
			}
		case "difference", "xor":
			// what only one of them has is shared with it
			if len(a.r.Segments) != both || len(b.r.Segments) != both {
				return
			}
			for k := range a.s {
				if !b.s[k] {
					so[k] = true
				}
			}
			o = a.r.Difference(b.r)
			if op == "xor" {
				o = a.r.Xor(b.r)
				for k := range b.s {
					if !a.s[k] {
						so[k] = true
					}
				}
			}
		case "file":
			if len(a.s) == 0 {
				return
			}
			o = rows.NewRowFromRoaring(a.r.Roaring())
			for k := range a.s {
				so[k] = true
			}
		case "clone":
			if rapid.Bool().Draw(c.T, "freeze") {
				a.r.Freeze()
			}
			o = a.r.Clone()
			for k := range a.s {
				so[k] = true
			}
		}
		verify(c, "result", row{o, so})
		ks := append(columns(c, "change").list(), so.list()...)
		changes := 0
		for n := rapid.IntRange(0, 30).Draw(c.T, "changes"); n > 0 && len(ks) > 0; n-- {
			k := ks[rapid.IntRange(0, len(ks)-1).Draw(c.T, "column")]
			if rapid.Bool().Draw(c.T, "clear") {
				for i := range o.Segments {
					if o.Segments[i].Shard() == k/width {
						if o.Segments[i].ClearBit(k) != so[k] {
							c.Fatalf("clearing %d, that was set is %v, tells otherwise", k, so[k])
						}
						delete(so, k)
						changes++
					}
				}
				continue
			}
			if o.SetBit(k) == so[k] {
				c.Fatalf("setting %d, that was set is %v, tells otherwise", k, so[k])
			}
			so[k] = true
			changes++
		}
		verify(c, "result, changed", row{o, so})
		verify(c, "a", a)
		verify(c, "b", b)

		// shifts that stay in their shards
		if by := rapid.IntRange(0, 5).Draw(c.T, "shift"); len(a.s) < 2000 {
			sh := set{}
			for k := range a.s {
				if k/width != (k+uint64(by))/width {
					sh = nil
					c.Class("shift leaves its shard: not defined")
					break
				}
				sh[k+uint64(by)] = true
			}
			if sh != nil {
				r, err := a.r.Shift(int64(by))
				c.Must(err, "shift")
				verify(c, fmt.Sprint("shift by ", by), row{r, sh})
				verify(c, "shifted", a)
				c.ClassIf(by > 0 && len(sh) > 0, "shifted")
			}
			if _, err := a.r.Shift(-1); err == nil {
				c.Fatalf("a shift to the left is accepted")
			}
		}
		if a.r.Hash() != a.r.Clone().Hash() {
			c.Fatalf("a clone has another hash")
		}
		keys(c)
		c.ClassIf(changes > 0, "changed")
		c.NonTrivialIf(both > 0)
	})
}

// keys: rows of names.
func keys(c *kit.Case) {
	r := rows.NewRow(1, 2)
	r.Index, r.Field = "i", "f"
	for i := rapid.IntRange(1, 4).Draw(c.T, "keys"); i > 0; i-- {
		r.Keys = append(r.Keys, kit.Of(c.T, "key", []string{"", "a", "b", "a b", "é"}))
	}
	want := slices.Clone(r.Keys)
	k := r.Clone()
	r.Keys[0] += "x"
	if !slices.Equal(k.Keys, want) || k.Index != "i" || k.Field != "f" {
		c.Fatalf("clone of %q: %q %s %s", want, k.Keys, k.Index, k.Field)
	}
	tb, err := k.ToTable()
	c.Must(err, "table")
	var got []string
	for _, x := range tb.Rows {
		got = append(got, x[0].String())
	}
	if !slices.Equal(got, want) || len(tb.Headers) != 1 || tb.Headers[0].Name != "_id" || tb.Headers[0].DataType != rows.String {
		c.Fatalf("table of %q: %q %v", want, got, tb.Headers)
	}
	stop := errors.New("stop")
	n, at := 0, rapid.IntRange(1, 3).Draw(c.T, "stop")
	for _, x := range []*rows.Row{k, rows.NewRow(1, 5, 7)} {
		n = 0
		err = x.ToRows(func(*rows.RowResult) error {
			if n++; n == at {
				return stop
			}
			return nil
		})
		if all := max(len(x.Keys), int(x.Count())); len(x.Keys) == 0 || at <= len(want) {
			if !errors.Is(err, stop) || n != at {
				c.Fatalf("rows are sent until %d of %d, the error of %d is %v", n, all, at, err)
			}
		}
	}
}
