package c29

import (
	"context"
	"os"
	"path/filepath"
	"strings"
	"syscall"
	"testing"
	"time"

	v1 "github.com/gernest/requiemdb/gen/go/rq/v1"
	"github.com/gernest/requiemdb/internal/zzverif/kit"
	"pgregory.net/rapid"
)

// crowded runs f while only few more files can be opened.
func crowded(room int, f func()) {
	var was syscall.Rlimit
	if err := syscall.Getrlimit(syscall.RLIMIT_NOFILE, &was); err != nil {
		panic(err)
	}
	free, err := syscall.Dup(2)
	if err != nil {
		panic(err)
	}
	syscall.Close(free)
	if err := syscall.Setrlimit(syscall.RLIMIT_NOFILE, &syscall.Rlimit{Cur: uint64(free + room), Max: was.Max}); err != nil {
		panic(err)
	}
	defer func() {
		if err := syscall.Setrlimit(syscall.RLIMIT_NOFILE, &was); err != nil {
			panic(err)
		}
	}()
	f()
}

// A shard of the index can not be opened: its folder is not there, something else
// is in its place, or the process has too many open files.
func TestAway(t *testing.T) {
	kit.Run(t, func(c *kit.Case) {
		dir, away := filepath.Join(c.Dir(), "live"), filepath.Join(c.Dir(), "away")
		c.Must(os.MkdirAll(dir, 0o755), "mkdir")
		c.Must(os.MkdirAll(away, 0o755), "mkdir")
		at := 1<<20*rapid.Uint64Range(1, 3).Draw(c.T, "shard") - rapid.Uint64Range(1, 20).Draw(c.T, "before")
		c.Logf("columns from %d", at)
		n, err := kit.OpenAt(dir, false, at)
		c.Must(err, "open")
		h := &kit.History{C: c, N: n, M: &kit.Model{}, Clock: kit.NewClock(c.T), Kinds: []kit.Kind{kit.KMetrics, kit.KLogs, kit.KTraces}}
		c.Cleanup(func() { h.N.Close() })
		hours := []time.Time{h.Clock.Hour(), h.Clock.Hour()}
		h.Hours = func() time.Time { return kit.Of(c.T, "hour", hours) }
		gone := map[string]bool{}
		back := func() {
			for s := range gone {
				p := filepath.Join(dir, "index", s)
				c.Must(os.RemoveAll(p), "remove")
				c.Must(os.Rename(filepath.Join(away, s), p), "back")
				delete(gone, s)
			}
		}
		shards := func() (o []string) {
			es, err := os.ReadDir(filepath.Join(dir, "index"))
			c.Must(err, "index")
			for _, e := range es {
				o = append(o, e.Name())
			}
			return
		}
		refused, answered, several := 0, 0, 0
		scan := func(must bool) {
			k := kit.Of(c.T, "of", h.M.All).Kind
			start, end := h.Everything()
			if rapid.Bool().Draw(c.T, "window") {
				start, end = h.Window()
			}
			var fs []*v1.Scan_Filter
			a, b := kit.Of(c.T, "a", h.M.All), kit.Of(c.T, "b", h.M.All)
			if both, only := common(a, b); len(both) > 0 && len(only) > 0 && rapid.IntRange(0, 2).Draw(c.T, "apart") > 0 {
				// tells apart samples that have labels in common
				k = a.Kind
				fs = append(fs, kit.Of(c.T, "both", both).ToFilter(), kit.Of(c.T, "only", only).ToFilter())
				start, end = h.Everything()
			} else {
				fs = h.M.Filters(c.T, k, 4)
			}
			got, err := h.N.Store.Scan(context.Background(), kit.Range(k, start, end, fs...))
			c.Logf("scan of %s [%s, %s) %v: %v", k, start, end, fs, err)
			if err != nil {
				if must {
					c.Fatalf("scan: %v", err)
				}
				refused++
				return
			}
			if !must {
				answered++
			}
			if d := kit.Diff(kit.AllPoints(h.M.Matching(k, start, end, fs)), kit.Points(got)); d != "" {
				c.Fatalf("%s", d)
			}
		}
		h.Fill(3, 3)
		for i := rapid.IntRange(2, 6).Draw(c.T, "ops"); i > 0; i-- {
			switch kit.Of(c.T, "op", []string{"save", "restart", "away", "away", "crowded", "crowded"}) {
			case "save":
				h.Fill(1, 2)
			case "restart":
				c.Logf("restart")
				c.Must(h.N.Close(), "close")
				h.N, err = kit.Open(dir, false)
				c.Must(err, "open")
			case "away":
				open := rapid.IntRange(0, 2).Draw(c.T, "open") == 0
				if !open {
					// open shards stay as they are when their files move
					c.Must(h.N.Close(), "close")
				}
				all := shards()
				if len(all) > 1 {
					several++
				}
				for j := rapid.IntRange(1, len(all)).Draw(c.T, "shards"); j > 0; j-- {
					s := kit.Of(c.T, "which", all)
					if gone[s] {
						continue
					}
					p := filepath.Join(dir, "index", s)
					c.Must(os.Rename(p, filepath.Join(away, s)), "away")
					gone[s] = true
					// a folder that is not there at all would be a new shard
					c.Must(os.WriteFile(p, nil, 0o600), "in its place")
					if !open && rapid.Bool().Draw(c.T, "folder") {
						c.Must(os.Remove(p), "remove")
						c.Must(os.MkdirAll(filepath.Join(p, "data", "x"), 0o700), "in its place")
					}
				}
				c.Logf("without shards %v of %s", gone, strings.Join(all, " "))
				if !open {
					h.N, err = kit.Open(dir, false)
					c.Must(err, "open")
				}
				for j := rapid.IntRange(3, 12).Draw(c.T, "scans"); j > 0; j-- {
					scan(false)
				}
				back()
			case "crowded":
				if rapid.IntRange(0, 2).Draw(c.T, "restart") > 0 {
					c.Must(h.N.Close(), "close")
					h.N, err = kit.Open(dir, false)
					c.Must(err, "open")
				}
				if len(shards()) > 1 {
					several++
				}
				room := rapid.IntRange(0, 4).Draw(c.T, "room")
				c.Logf("room for %d more files", room)
				crowded(room, func() {
					for j := rapid.IntRange(3, 12).Draw(c.T, "scans"); j > 0; j-- {
						scan(false)
					}
				})
			}
			for j := rapid.IntRange(0, 3).Draw(c.T, "scans"); j > 0; j-- {
				scan(true)
			}
		}
		if d := kit.Verify(h.N.Store.Scan, h.M); d != "" {
			c.Fatalf("%s", d)
		}
		c.ClassIf(refused > 0, "a scan is refused")
		c.ClassIf(refused > 0 && answered > 0, "some scans are refused")
		c.ClassIf(several > 0, "one of several shards is away")
		c.NonTrivialIf(refused > 0)
	})
}

// common are labels of both samples, and those of a only.
func common(a, b *kit.Stored) (both, only []kit.Label) {
	if a.Kind != b.Kind {
		return
	}
	for _, l := range kit.Sorted(a.Labels) {
		if b.Labels[l] {
			both = append(both, l)
		} else {
			only = append(only, l)
		}
	}
	return
}
