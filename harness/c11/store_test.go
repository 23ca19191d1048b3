package c11

import (
	"errors"
	"fmt"
	"testing"
	"time"

	"github.com/dgraph-io/badger/v4"
	v1 "github.com/gernest/requiemdb/gen/go/rq/v1"
	"github.com/gernest/requiemdb/internal/labels"
	"github.com/gernest/requiemdb/internal/zzverif/kit"
	"pgregory.net/rapid"
)

// TestStore translates labels the way samples are saved, where numbers that are
// known already are kept in memory.
func TestStore(t *testing.T) {
	kit.Run(t, func(c *kit.Case) {
		mem := rapid.IntRange(0, 3).Draw(c.T, "memory") > 0
		n, err := kit.Open(c.Dir(), mem)
		c.Must(err, "open")
		c.Cleanup(func() { n.Close() })
		ids, keys := map[string]uint64{}, map[uint64]string{}
		// labels of a few texts, some of which have the same hash
		texts := append([]string{}, kit.Values...)
		at := kit.Of(c.T, "twins at", []int{4, 5, 7, 8, 9, 12, 16})
		for i := int64(1); i < 3; i++ {
			x, y := kit.Twins(at, i)
			texts = append(texts, x, y, x, y)
		}
		again, alike, restarts := 0, 0, 0
		seen := map[string]bool{}
		for i := rapid.IntRange(4, 24).Draw(c.T, "ops"); i > 0; i-- {
			switch kit.Of(c.T, "op", []string{"put", "put", "put", "put", "many", "wait", "restart"}) {
			case "put":
				l := labels.NewLabel().WithResource(v1.RESOURCE(rapid.IntRange(1, 3).Draw(c.T, "resource"))).
					WithPrefix(kit.Of(c.T, "prefix", []v1.PREFIX{v1.PREFIX_NAME, v1.PREFIX_ATTRIBUTES, v1.PREFIX_RESOURCE_ATTRIBUTES, v1.PREFIX_LOGS_LEVEL}))
				x := kit.Of(c.T, "text", texts)
				if at > 6 {
					// as the value of an attribute
					l.WithKey("keykeykeykeykeykey"[:at-5]).WithValue(x)
				} else {
					l.WithKey(x)
				}
				key := string(l.Encode())
				c.Logf("put %q", key)
				b := []byte(key)
				id := n.Store.Translate(b)
				for j := range b {
					b[j] = '#'
				}
				if was, ok := ids[key]; ok {
					again++
					if was != id {
						c.Fatalf("%q was %d and is now %d", key, was, id)
					}
				} else if o, ok := keys[id]; ok {
					c.Fatalf("%q and %q are both %d", o, key, id)
				}
				ids[key], keys[id] = id, key
				l.Release()
				if len(x) > 60 {
					for _, o := range texts {
						if o != x && len(o) == len(x) && seen[key[:len(key)-len(x)]+o] {
							alike++
						}
					}
				}
				seen[key] = true
				if rapid.Bool().Draw(c.T, "settle") {
					time.Sleep(2 * time.Millisecond)
				}
			case "many":
				from := rapid.IntRange(0, 300).Draw(c.T, "from")
				for j := from; j < from+100; j++ {
					key := fmt.Sprint("1:6:name", j)
					id := n.Store.Translate([]byte(key))
					if was, ok := ids[key]; ok && was != id {
						c.Fatalf("%q was %d and is now %d", key, was, id)
					} else if o, has := keys[id]; has && !ok {
						c.Fatalf("%q and %q are both %d", o, key, id)
					}
					ids[key], keys[id] = id, key
				}
			case "wait":
				time.Sleep(20 * time.Millisecond)
			case "restart":
				restarts++
				c.Must(n.Store.Close(), "close")
				if mem {
					c.Must(n.OpenStore(), "open")
					continue
				}
				c.Must(n.CloseParts(), "close")
				n, err = kit.Open(c.Dir(), false)
				c.Must(err, "open")
			}
		}
		for key, id := range ids {
			got, err := n.Tr.Find([]byte(key))
			c.Must(err, "find")
			k, err := n.Tr.TranslateID(id)
			c.Must(err, "translate id")
			if got != id || k != key {
				c.Fatalf("%q is %d, find returned %d, %d is %q", key, id, got, id, k)
			}
		}
		if _, err := n.Tr.Find([]byte("1:6:never")); !errors.Is(err, badger.ErrKeyNotFound) {
			c.Fatalf("find of an unknown label: %v", err)
		}
		c.ClassIf(again > 0, "a label again")
		c.ClassIf(alike > 0, "different labels with the same hash")
		c.ClassIf(restarts > 0, "restart")
		c.NonTrivialIf(again > 0 && len(ids) > 1)
	})
}
