// Labels are translated one to one, and a label keeps its number forever.
package c11

import (
	"bytes"
	"errors"
	"fmt"
	"path/filepath"
	"slices"
	"strings"
	"sync"
	"testing"

	"github.com/dgraph-io/badger/v4"
	"github.com/gernest/requiemdb/internal/translate"
	"github.com/gernest/requiemdb/internal/zzverif/kit"
	"pgregory.net/rapid"
)

var pool = []string{"1:2:a", "1:2:a=b", "1:2:a\\=b=c", "", "a", "ids", "keys", "seq", "idsa", "\x00", "\xff\xfe", strings.Repeat("k", 200),
	"\x00\x00\x00\x00\x00\x00\x00\x01", "\x00\x00\x00\x00\x00\x00\x00\x00"}

type space struct {
	name string
	tr   *translate.Translate
	ids  map[string]uint64
	keys map[uint64]string
}

func TestProperty(t *testing.T) {
	kit.Run(t, func(c *kit.Case) {
		mem := rapid.IntRange(0, 2).Draw(c.T, "memory") == 0
		dir, copies := filepath.Join(c.Dir(), "0"), 0
		spaces := []*space{{name: "1"}, {name: "2"}, {name: "10"}}[:rapid.IntRange(1, 3).Draw(c.T, "spaces")]
		for _, s := range spaces {
			s.ids, s.keys = map[string]uint64{}, map[uint64]string{}
		}
		var db *badger.DB
		open := func() {
			var err error
			if db == nil || !mem {
				d := dir
				if mem {
					d = ""
				}
				db, err = kit.Badger(d)
				c.Must(err, "open")
			}
			for _, s := range spaces {
				s.tr, err = translate.New(db, append(make([]byte, 0, 64), s.name...))
				c.Must(err, "translate")
			}
		}
		open()
		c.Cleanup(func() { db.Close() })
		put := func(s *space, key string) {
			buf := []byte(key)
			id, err := s.tr.TranslateKey(buf)
			c.Must(err, "translate key")
			for i := range buf {
				buf[i] = '#' // callers reuse memory of keys
			}
			if was, ok := s.ids[key]; ok {
				if was != id {
					c.Fatalf("%q was %d and is now %d", key, was, id)
				}
				return
			}
			if k, ok := s.keys[id]; ok {
				c.Fatalf("%q and %q are both %d", k, key, id)
			}
			s.ids[key], s.keys[id] = id, key
		}
		draw := func() string {
			if rapid.Bool().Draw(c.T, "pooled") {
				return kit.Of(c.T, "key", pool)
			}
			return string(rapid.SliceOfN(rapid.Byte(), 0, 12).Draw(c.T, "bytes"))
		}
		check := func(s *space) {
			var ids []uint64
			n := 0
			for _, id := range sorted(s.keys) {
				key := s.keys[id]
				if n++; n > 50 {
					break
				}
				got, err := s.tr.Find([]byte(key))
				c.Must(err, "find")
				if got != id {
					c.Fatalf("find of %q returned %d, it is %d", key, got, id)
				}
				k, err := s.tr.TranslateID(id)
				c.Must(err, "translate id")
				if k != key {
					c.Fatalf("%d is %q, returned %q", id, key, k)
				}
				ids = append(ids, id)
			}
			slices.Reverse(ids)
			i := 0
			c.Must(s.tr.TranslateBulkID(ids, func(key []byte) error {
				if !bytes.Equal(key, []byte(s.keys[ids[i]])) {
					c.Fatalf("bulk: %d is %q, returned %q", ids[i], s.keys[ids[i]], key)
				}
				i++
				return nil
			}), "bulk")
			if i != len(ids) {
				c.Fatalf("bulk translated %d of %d", i, len(ids))
			}
		}
		restarts, crashes, many, missing, together, conflicts := 0, 0, 0, 0, 0, 0
		for i := rapid.IntRange(3, 20).Draw(c.T, "ops"); i > 0; i-- {
			s := kit.Of(c.T, "space", spaces)
			switch op := rapid.SampledFrom([]string{"put", "put", "put", "put", "find", "check", "restart", "crash", "many", "together", "together"}).Draw(c.T, "op"); op {
			case "put":
				k := draw()
				c.Logf("put %s %q", s.name, k)
				put(s, k)
			case "many":
				if many > 0 {
					continue
				}
				many++
				n := 4090 + rapid.IntRange(0, 20).Draw(c.T, "many")
				c.Logf("put %s %d keys", s.name, n)
				for j := 0; j < n; j++ {
					put(s, fmt.Sprint("m", j))
				}
			case "together":
				// several clients, some of them with the same key
				together++
				ks := make([]string, rapid.IntRange(2, 4).Draw(c.T, "clients"))
				of := make([]*space, len(ks))
				for j := range ks {
					ks[j], of[j] = draw(), s
					if j > 0 && rapid.IntRange(0, 2).Draw(c.T, "same") > 0 {
						ks[j] = ks[0]
					}
					if rapid.IntRange(0, 3).Draw(c.T, "elsewhere") == 0 {
						of[j] = kit.Of(c.T, "space", spaces)
					}
				}
				c.Logf("together %q", ks)
				rounds := rapid.IntRange(1, 20).Draw(c.T, "rounds")
				for r := 0; r < rounds; r++ {
					ids, errs := make([]uint64, len(ks)), make([]error, len(ks))
					start := make(chan struct{})
					var wg sync.WaitGroup
					for j := range ks {
						wg.Add(1)
						go func() {
							defer wg.Done()
							<-start
							ids[j], errs[j] = of[j].tr.TranslateKey([]byte(ks[j]))
						}()
					}
					close(start)
					wg.Wait()
					for j, k := range ks {
						if errs[j] != nil && !errors.Is(errs[j], badger.ErrConflict) {
							c.Fatalf("translate %q: %v", k, errs[j])
						}
						was, ok := of[j].ids[k]
						if errs[j] == nil {
							if o, has := of[j].keys[ids[j]]; (ok && was != ids[j]) || (has && o != k) {
								c.Fatalf("%q was %d and is now %d, which is %q", k, was, ids[j], o)
							}
							of[j].ids[k], of[j].keys[ids[j]] = ids[j], k
						}
					}
					for j, k := range ks {
						put(of[j], k)
						if r < rounds-1 && errs[j] != nil {
							conflicts++
						}
						ks[j] += string(rune('a' + r))
					}
				}
			case "find":
				k := draw()
				if rapid.IntRange(0, 3).Draw(c.T, "long") == 0 {
					k = strings.Repeat("long", kit.Of(c.T, "long", []int{16, 64, 250, 260, 1025, 4100, 15_000}))
				}
				c.Logf("find %s %.50q of %d bytes", s.name, k, len(k))
				for twice := 0; twice < 2; twice++ {
					id, err := s.tr.Find([]byte(k))
					if was, ok := s.ids[k]; ok {
						if err != nil || was != id {
							c.Fatalf("find of %q returned %d %v, it is %d", k, id, err, was)
						}
					} else {
						missing++
						if !errors.Is(err, badger.ErrKeyNotFound) {
							c.Fatalf("find of unknown %.50q of %d bytes returned %d %v", k, len(k), id, err)
						}
					}
				}
			case "check":
				c.Logf("check %s", s.name)
				check(s)
			case "restart":
				restarts++
				c.Logf("restart")
				for _, s := range spaces {
					c.Must(s.tr.Close(), "close")
				}
				if !mem {
					c.Must(db.Close(), "close")
				}
				open()
			case "crash":
				if mem || copies == 2 {
					continue
				}
				crashes++
				copies++
				c.Logf("crash")
				to := filepath.Join(c.Dir(), fmt.Sprint(copies))
				c.Must(kit.CopyDir(dir, to), "copy")
				db.Close()
				dir = to
				open()
			}
		}
		n := 0
		for _, s := range spaces {
			check(s)
			n += len(s.ids)
		}
		c.ClassIf(restarts > 0, "restart")
		c.ClassIf(crashes > 0, "crash")
		c.ClassIf(together > 0, "several clients at the same time")
		c.ClassIf(conflicts > 0, "clients in conflict")
		c.ClassIf(many > 0, "more keys than a lease")
		c.ClassIf(missing > 0, "find of an unknown key")
		c.ClassIf(len(spaces) > 1, "several spaces")
		c.NonTrivialIf(n > 1)
	})
}

func sorted(m map[uint64]string) (o []uint64) {
	for id := range m {
		o = append(o, id)
	}
	slices.Sort(o)
	return
}
