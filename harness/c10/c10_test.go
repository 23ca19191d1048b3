// Sample ids are unique and grow, also across restarts, crashes and between
// concurrent clients.
package c10

import (
	"fmt"
	"path/filepath"
	"sync"
	"testing"

	"github.com/dgraph-io/badger/v4"
	"github.com/gernest/requiemdb/internal/seq"
	"github.com/gernest/requiemdb/internal/translate"
	"github.com/gernest/requiemdb/internal/zzverif/kit"
	"pgregory.net/rapid"
)

func TestProperty(t *testing.T) {
	kit.Run(t, func(c *kit.Case) {
		copies := 0
		dir := filepath.Join(c.Dir(), "0")
		var db *badger.DB
		var s *seq.Seq
		var tr *translate.Translate
		open := func() {
			var err error
			db, err = kit.Badger(dir)
			c.Must(err, "open")
			s, err = seq.New(db)
			c.Must(err, "sequence")
			tr, err = translate.New(db, []byte("3"))
			c.Must(err, "translate")
		}
		open()
		c.Cleanup(func() { db.Close() })
		seen := map[uint64]bool{}
		var last uint64
		any := false
		add := func(id uint64) {
			if seen[id] {
				c.Fatalf("id %d was given twice", id)
			}
			seen[id] = true
		}
		restarts, crashes, parallel := 0, 0, 0
		ops := rapid.IntRange(2, 12).Draw(c.T, "ops")
		for i := 0; i < ops; i++ {
			switch op := rapid.SampledFrom([]string{"next", "next", "many", "parallel", "restart", "crash", "keys"}).Draw(c.T, "op"); op {
			case "next", "many":
				n := rapid.IntRange(1, 5).Draw(c.T, "n")
				if op == "many" {
					n = rapid.IntRange(500, 3000).Draw(c.T, "n")
				}
				c.Logf("next %d", n)
				for ; n > 0; n-- {
					id := s.SampleID()
					if any && id <= last {
						c.Fatalf("id %d follows %d", id, last)
					}
					add(id)
					last, any = id, true
				}
			case "parallel":
				parallel++
				w := rapid.IntRange(2, 4).Draw(c.T, "workers")
				n := rapid.IntRange(1, 200).Draw(c.T, "n")
				c.Logf("parallel %d*%d", w, n)
				got := make([][]uint64, w)
				var wg sync.WaitGroup
				for j := range got {
					wg.Add(1)
					go func() {
						defer wg.Done()
						for k := 0; k < n; k++ {
							got[j] = append(got[j], s.SampleID())
						}
					}()
				}
				wg.Wait()
				hi := last
				for _, ids := range got {
					p, ok := last, any
					for _, id := range ids {
						if ok && id <= p {
							c.Fatalf("id %d follows %d in a worker", id, p)
						}
						p, ok = id, true
						add(id)
						hi = max(hi, id)
					}
				}
				last, any = hi, true
			case "keys":
				// ids of labels come from another sequence
				n := rapid.IntRange(1, 20).Draw(c.T, "n")
				c.Logf("keys %d", n)
				for ; n > 0; n-- {
					_, err := tr.TranslateKey([]byte(fmt.Sprint("key", i, n)))
					c.Must(err, "translate")
				}
			case "restart":
				restarts++
				c.Logf("restart")
				c.Must(s.Release(), "release")
				c.Must(tr.Close(), "close")
				c.Must(db.Close(), "close")
				open()
			case "crash":
				if copies == 2 {
					continue
				}
				copies++
				crashes++
				c.Logf("crash")
				to := filepath.Join(c.Dir(), fmt.Sprint(copies))
				c.Must(kit.CopyDir(dir, to), "copy")
				db.Close()
				dir = to
				open()
			}
		}
		c.ClassIf(restarts > 0, "restart")
		c.ClassIf(crashes > 0, "crash")
		c.ClassIf(parallel > 0, "parallel")
		c.NonTrivialIf(len(seen) > 1 && restarts+crashes+parallel > 0)
	})
}
