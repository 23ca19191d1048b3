// Failures: an answer is complete or an error, and a save that fails harms
// nothing but itself.
package c29

import (
	"bytes"
	"cmp"
	"context"
	"os"
	"path/filepath"
	"slices"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"testing"
	"time"

	"github.com/dgraph-io/badger/v4"
	v1 "github.com/gernest/requiemdb/gen/go/rq/v1"
	"github.com/gernest/requiemdb/internal/samples"
	"github.com/gernest/requiemdb/internal/zzverif/kit"
	collector_metrics "go.opentelemetry.io/proto/otlp/collector/metrics/v1"
	"pgregory.net/rapid"
)

// fading is a context that is cancelled after it was looked at n times.
type fading struct {
	context.Context
	left atomic.Int64
	once sync.Once
	end  context.CancelFunc
}

func fade(n int) *fading {
	f := &fading{}
	f.Context, f.end = context.WithCancel(context.Background())
	f.left.Store(int64(n))
	if n == 0 {
		f.end()
	}
	return f
}

func (f *fading) look() {
	if f.left.Add(-1) <= 0 {
		f.end()
	}
}

func (f *fading) Err() error            { f.look(); return f.Context.Err() }
func (f *fading) Done() <-chan struct{} { f.look(); return f.Context.Done() }
func (f *fading) Value(k any) any       { f.look(); return f.Context.Value(k) }

// limited runs f while no file can grow beyond size.
func limited(size int64, f func()) {
	var was syscall.Rlimit
	if err := syscall.Getrlimit(syscall.RLIMIT_FSIZE, &was); err != nil {
		panic(err)
	}
	if err := syscall.Setrlimit(syscall.RLIMIT_FSIZE, &syscall.Rlimit{Cur: uint64(size), Max: was.Max}); err != nil {
		panic(err)
	}
	defer func() {
		if err := syscall.Setrlimit(syscall.RLIMIT_FSIZE, &was); err != nil {
			panic(err)
		}
	}()
	f()
}

// wal is the size of the largest log of the index.
func wal(dir string) (n int64) {
	filepath.Walk(filepath.Join(dir, "index"), func(p string, fi os.FileInfo, err error) error {
		if err == nil && strings.HasSuffix(p, "wal") {
			n = max(n, fi.Size())
		}
		return nil
	})
	return
}

func TestProperty(t *testing.T) {
	kit.Run(t, func(c *kit.Case) {
		mem := rapid.IntRange(0, 3).Draw(c.T, "mem") > 0
		dir := c.Dir()
		n, err := kit.Open(dir, mem)
		c.Must(err, "open")
		c.Cleanup(func() { n.Close() })
		clock := kit.NewClock(c.T)
		hours := []time.Time{clock.Hour(), clock.Hour(), clock.Hour()}
		m := &kit.Model{}
		damaged := map[string][]byte{}
		failed, full, crowds, refused, damages, scans := 0, 0, 0, 0, 0, 0
		ctx := context.Background()
		scan := func(ctx context.Context, maybe []*kit.Stored) {
			if len(m.All) == 0 {
				return
			}
			s := kit.Of(c.T, "sample", m.All)
			scans++
			h := kit.Floor(s.At(), 'H')
			_, err, d := answer(ctx, n, m, maybe, s.Kind, h)
			if err != nil {
				refused++
			} else if d != "" {
				c.Fatalf("scan of the hour %s: %s", h, d)
			}
			c.Logf("scan of %s in the hour %s: %v", s.Kind, h, err)
		}
		for i := rapid.IntRange(2, 7).Draw(c.T, "ops"); i > 0; i-- {
			was := failed
			switch op := kit.Of(c.T, "op", []string{"save", "save", "save", "cancelled save", "full", "full", "crowded", "cancelled scan", "damage", "damage", "repair", "restart", "restart"}); op {
			case "save", "cancelled save", "full", "crowded":
				ls := samples.Get()
				var maybe []*kit.Stored
				for j := rapid.IntRange(1, 3).Draw(c.T, "samples"); j > 0; j-- {
					hour := kit.Of(c.T, "hour", hours)
					g := &kit.Gen{T: c.T, MaxResources: 2, MaxScopes: 1, MaxMetrics: 2, MaxPoints: 1, Lean: true, Time: func() uint64 { return uint64(clock.In(hour).UnixNano()) }}
					d := g.Data(kit.Kind(rapid.IntRange(0, 2).Draw(c.T, "kind")))
					x := &v1.Sample{Id: n.Seq.SampleID(), Data: d}
					ls.Items = append(ls.Items, x)
					maybe = append(maybe, kit.NewStored(x.Id, d))
					c.Logf("sample %d %s at %s", x.Id, maybe[len(maybe)-1].Kind, maybe[len(maybe)-1].At())
				}
				switch op {
				case "save":
					err = n.Store.SaveSamples(ctx, ls)
					if len(damaged) == 0 {
						c.Must(err, "save")
					}
				case "cancelled save":
					err = n.Store.SaveSamples(fade(rapid.IntRange(0, 40).Draw(c.T, "looks")), ls)
				case "full":
					limit := wal(dir)
					if rapid.IntRange(0, 3).Draw(c.T, "less") == 0 {
						// the index is opened with less room than it has taken
						limit = int64(rapid.IntRange(0, int(limit)).Draw(c.T, "limit"))
					}
					limit += int64(rapid.IntRange(0, 12*8192).Draw(c.T, "room"))
					limited(limit, func() {
						err = n.Store.SaveSamples(ctx, ls)
						for j := rapid.IntRange(0, 2).Draw(c.T, "scans"); j > 0 && err != nil; j-- {
							scan(ctx, maybe)
						}
					})
				case "crowded":
					crowded(rapid.IntRange(0, 4).Draw(c.T, "room"), func() {
						err = n.Store.SaveSamples(ctx, ls)
						for j := rapid.IntRange(0, 2).Draw(c.T, "scans"); j > 0 && err != nil; j-- {
							scan(ctx, maybe)
						}
					})
					if err != nil {
						crowds++
					}
				}
				ls.Release()
				c.Logf("%s: %v", op, err)
				if err == nil {
					for _, s := range maybe {
						m.Add(s.ID, s.Data)
					}
					break
				}
				failed++
				if op == "full" {
					full++
				}
				// whole or absent
				repair(c, n, damaged)
				var found []*kit.Stored
				for len(maybe) > 0 {
					s, now, later := maybe[0], []*kit.Stored{}, []*kit.Stored{}
					h := kit.Floor(s.At(), 'H')
					for _, x := range maybe {
						if x.Kind == s.Kind && kit.Floor(x.At(), 'H').Equal(h) {
							now = append(now, x)
						} else {
							later = append(later, x)
						}
					}
					in, err, d := answer(ctx, n, m, now, s.Kind, h)
					c.Must(err, "scan")
					if d != "" {
						c.Fatalf("after a save that failed: %s", d)
					}
					found = append(found, in...)
					maybe = later
				}
				slices.SortFunc(found, func(a, b *kit.Stored) int { return cmp.Compare(a.ID, b.ID) })
				for _, x := range found {
					m.Add(x.ID, x.Data)
				}
			case "cancelled scan":
				scan(fade(rapid.IntRange(0, 30).Draw(c.T, "looks")), nil)
			case "damage":
				// a file of samples can not be read
				keys := files(c, n)
				if len(keys) == 0 {
					continue
				}
				k := kit.Of(c.T, "file", keys)
				c.Must(n.DB.Update(func(tx *badger.Txn) error {
					it, err := tx.Get([]byte(k))
					if err != nil {
						return err
					}
					v, err := it.ValueCopy(nil)
					if err != nil {
						return err
					}
					if _, ok := damaged[k]; !ok {
						damaged[k] = v
					}
					x := [][]byte{{}, []byte("PAR1"), v[:len(v)/2], v[len(v)/2:], append(bytes.Clone(v), "lost"...), []byte(strings.Repeat("garbage ", 40))}[rapid.IntRange(0, 5).Draw(c.T, "damage")]
					return tx.Set([]byte(k), x)
				}), "damage")
				damages++
				c.Logf("damage %q", k)
				for j := rapid.IntRange(1, 3).Draw(c.T, "scans"); j > 0; j-- {
					scan(ctx, nil)
				}
			case "repair":
				repair(c, n, damaged)
			case "restart":
				if mem {
					continue
				}
				c.Must(n.Close(), "close")
				n, err = kit.Open(dir, mem)
				c.Must(err, "open")
				c.Logf("restart")
			}
			if failed > was && len(damaged) == 0 {
				if d := kit.Verify(n.Store.Scan, m); d != "" {
					c.Fatalf("%s", d)
				}
			}
		}
		repair(c, n, damaged)
		if d := kit.Verify(n.Store.Scan, m); d != "" {
			c.Fatalf("%s", d)
		}
		c.ClassIf(failed > 0, "a save fails")
		c.ClassIf(full > 0, "a save without room")
		c.ClassIf(crowds > 0, "a save without room for open files")
		c.ClassIf(refused > 0, "a scan is refused")
		c.ClassIf(damages > 0, "a file of samples is damaged")
		c.NonTrivialIf(failed > 0 || refused > 0)
	})
}

// files are the keys of files of samples.
func files(c *kit.Case, n *kit.Node) (o []string) {
	c.Must(n.DB.View(func(tx *badger.Txn) error {
		it := tx.NewIterator(badger.DefaultIteratorOptions)
		defer it.Close()
		for it.Rewind(); it.Valid(); it.Next() {
			err := it.Item().Value(func(v []byte) error {
				if bytes.HasPrefix(v, []byte("PAR1")) {
					o = append(o, string(it.Item().Key()))
				}
				return nil
			})
			if err != nil {
				return err
			}
		}
		return nil
	}), "list")
	return
}

func repair(c *kit.Case, n *kit.Node, damaged map[string][]byte) {
	for k, v := range damaged {
		c.Must(n.DB.Update(func(tx *badger.Txn) error { return tx.Set([]byte(k), v) }), "repair")
		c.Logf("repair %q", k)
		delete(damaged, k)
	}
}

// answer scans one hour. The answer has the samples of the model and some of
// those that are in doubt, which are returned.
func answer(ctx context.Context, n *kit.Node, m *kit.Model, maybe []*kit.Stored, k kit.Kind, h time.Time) ([]*kit.Stored, error, string) {
	got, err := n.Store.Scan(ctx, kit.Range(k, h, h.Add(time.Hour)))
	if err != nil {
		return nil, err, ""
	}
	want, first := m.Matching(k, h, h.Add(time.Hour), nil), ""
	for set := 0; set < 1<<len(maybe); set++ {
		var in []*kit.Stored
		for i, s := range maybe {
			if set&(1<<i) != 0 && s.Kind == k && kit.Floor(s.At(), 'H').Equal(h) {
				in = append(in, s)
			}
		}
		d := kit.Diff(kit.AllPoints(append(slices.Clone(want), in...)), kit.Points(got))
		if d == "" {
			return in, nil, ""
		}
		if set == 0 {
			first = d
		}
	}
	return nil, nil, first
}

func TestKnown(t *testing.T) {
	kit.Known(t, "C29", map[string]func() (string, bool){"given-up": givenUp})
}

// The service drops what it has acknowledged when the save of it fails.
func givenUp() (string, bool) {
	dir, err := os.MkdirTemp("", "known-")
	if err != nil {
		return "", false
	}
	defer os.RemoveAll(dir)
	n, err := kit.OpenParts(dir, true)
	if err != nil {
		return "", false
	}
	defer n.CloseParts()
	ctx := context.Background()
	at := time.Date(2024, 4, 3, 14, 30, 0, 0, time.UTC)
	if err := n.OpenStore(); err != nil {
		return "", false
	}
	defer n.Store.Close()
	if _, err := n.Save(kit.Small(kit.KMetrics, at, "before")); err != nil {
		return "", false
	}
	// no room while the service saves
	svc, err := n.Service(ctx)
	if err != nil {
		return "", false
	}
	d := kit.Small(kit.KMetrics, at, "lost")
	if _, err = svc.Metrics().Export(ctx, &collector_metrics.ExportMetricsServiceRequest{ResourceMetrics: d.GetMetrics().ResourceMetrics}); err != nil {
		return "", false
	}
	limited(wal(dir), svc.Close)
	// there is room again
	if svc, err = n.Service(ctx); err != nil {
		return "", false
	}
	svc.Close()
	got, err := n.Store.Scan(ctx, kit.Range(kit.KMetrics, at, at.Add(time.Minute), kit.Attr(v1.Scan_RESOURCE_ATTRIBUTES, "id", "lost")))
	if err != nil {
		return "", false
	}
	return "a sample that was acknowledged is dropped when it can not be saved at once", len(kit.Points(got)) == 0
}
