package c08

import (
	"context"
	"fmt"
	"math/rand"
	"os"
	"path/filepath"
	"strings"
	"sync"
	"sync/atomic"
	"testing"
	"time"

	"github.com/dgraph-io/badger/v4"
	"github.com/dgraph-io/ristretto/z"
	"github.com/gernest/rbf"
	v1 "github.com/gernest/requiemdb/gen/go/rq/v1"
	"github.com/gernest/requiemdb/internal/zzverif/kit"
	commonv1 "go.opentelemetry.io/proto/otlp/common/v1"
	resourcev1 "go.opentelemetry.io/proto/otlp/resource/v1"
	"google.golang.org/protobuf/proto"
	"pgregory.net/rapid"
)

// watch copies the files of dir before some of the writes to them. Half of the
// copies are for writes to the index. Late writes have more chances: a save
// begins with many small ones for new labels.
type watch struct {
	mu   sync.Mutex
	dir  string
	out  string
	rnd  *rand.Rand
	n    int
	made int
	db   strata
	idx  strata
	// around the creation and the removal of files of badger
	files strata
	err   error
	// shards of the index that were written to
	shards map[string]bool
}

type strata struct {
	slots int
	n     int
	have  []point
}

type point struct {
	dir  string
	n    int
	file string
	// the save has written to another shard of the index
	between bool
}

var watching atomic.Pointer[watch]

func init() {
	kit.LogSize = 2 << 20
	hook := func(path string) {
		if w := watching.Load(); w != nil {
			w.write(path)
		}
	}
	badger.VerifHook, rbf.VerifHook = hook, hook
	// files of the database are created or removed
	z.VerifHook = func(path string) {
		if w := watching.Load(); w != nil {
			w.event(path, &w.files)
		}
	}
}

func (w *watch) write(path string) {
	s := &w.db
	if strings.HasPrefix(path, w.dir+"/index/") {
		s = &w.idx
	}
	w.event(path, s)
}

func (w *watch) event(path string, s *strata) {
	if path != w.dir && !strings.HasPrefix(path, w.dir+"/") {
		return
	}
	w.mu.Lock()
	defer w.mu.Unlock()
	w.n++
	if s == &w.idx {
		defer func() { w.shards[filepath.Dir(path)] = true }()
	}
	between := len(w.shards) > 1 || len(w.shards) == 1 && !w.shards[filepath.Dir(path)]
	s.n++
	i := len(s.have)
	if i >= s.slots {
		if s.slots == 0 || w.rnd.Intn(s.n+1) >= 2*s.slots {
			return
		}
		i = w.rnd.Intn(s.slots)
		os.RemoveAll(s.have[i].dir)
	} else {
		s.have = append(s.have, point{})
	}
	w.made++
	to := filepath.Join(w.out, fmt.Sprint("point", w.made))
	if err := kit.CopyDir(w.dir, to); err != nil {
		w.err = err
	}
	s.have[i] = point{to, w.n, strings.TrimPrefix(path, w.dir), between}
}

// during returns what lies on disk at some writes of f.
func during(c *kit.Case, dir string, slots int, f func()) []point {
	w := &watch{dir: dir, shards: map[string]bool{}, db: strata{slots: slots - slots/2}, idx: strata{slots: slots / 2}, files: strata{slots: 1}, rnd: rand.New(rand.NewSource(rapid.Int64().Draw(c.T, "points")))}
	var err error
	w.out, err = os.MkdirTemp(c.Dir(), "at")
	c.Must(err, "mkdir")
	watching.Store(w)
	defer watching.Store(nil)
	f()
	watching.Store(nil)
	w.mu.Lock()
	defer w.mu.Unlock()
	c.Must(w.err, "copy")
	return append(append(w.db.have, w.idx.have...), w.files.have...)
}

// explain finds the set of samples in flight with which need is what n has.
func explain(n *kit.Node, need, maybe []*kit.Stored) (m *kit.Model, inflight int, bad string) {
	for mask := 0; mask < 1<<len(maybe); mask++ {
		m = &kit.Model{All: append([]*kit.Stored{}, need...)}
		inflight = 0
		for i, s := range maybe {
			if mask&(1<<i) != 0 {
				m.All = append(m.All, s)
				inflight++
			}
		}
		if bad = kit.Verify(n.Store.Scan, m); bad == "" {
			return
		}
	}
	return nil, 0, "no set of the samples in flight explains the result\n" + kit.Verify(n.Store.Scan, &kit.Model{All: need})
}

// Crashes right before writes: to the log and the manifest of badger, to the log
// and the pages of the index.
func TestPoints(t *testing.T) {
	kit.Run(t, func(c *kit.Case) {
		dir := filepath.Join(c.Dir(), "live")
		c.Must(os.MkdirAll(dir, 0o755), "mkdir")
		p := newPlan(c)
		m := &kit.Model{}
		var n *kit.Node
		opened := false
		c.Cleanup(func() {
			watching.Store(nil)
			if opened {
				n.Close()
			}
		})
		seen, inflights, recovering, files := 0, 0, 0, map[string]bool{}
		// check opens the files of a crash
		var check func(x point, what string, need, maybe []*kit.Stored, depth int) (*kit.Node, *kit.Model)
		check = func(x point, what string, need, maybe []*kit.Stored, depth int) (n *kit.Node, m *kit.Model) {
			seen++
			what = fmt.Sprintf("%s, before write %d, to %s", what, x.n, x.file)
			files[filepath.Base(filepath.Dir(x.file))] = true
			var err error
			open := func() { n, err = kit.Open(x.dir, false) }
			var again []point
			if depth > 0 && rapid.IntRange(0, 3).Draw(c.T, "crash again") == 0 {
				again = during(c, x.dir, 1, open)
			} else {
				open()
			}
			if err != nil {
				c.Fatalf("crash in %s: open: %v", what, err)
			}
			if x.between && len(maybe) > 0 {
				// known finding, see TestKnown: what is in flight may be there in part
				c.Exclude("crash between commits of a save to several shards of the index")
				for _, s := range need {
					h := kit.Floor(s.At(), 'H')
					got, err := n.Store.Scan(context.Background(), kit.Range(s.Kind, h, h.Add(time.Hour)))
					if err != nil {
						c.Fatalf("crash in %s: scan: %v", what, err)
					}
					have := map[string]bool{}
					for _, p := range kit.Points(got) {
						have[p.Key()] = true
					}
					for _, p := range kit.Points(s.Data) {
						if !have[p.Key()] {
							c.Fatalf("crash in %s: sample %d is not there: %v", what, s.ID, p)
						}
					}
				}
				return n, nil
			}
			m, k, bad := explain(n, need, maybe)
			if bad != "" {
				n.Close()
				c.Fatalf("crash in %s, with %d samples saved: %s", what, len(need), bad)
			}
			if k > 0 {
				inflights++
			}
			for _, y := range again {
				// nothing of what the first start found is lost in the second
				recovering++
				z, _ := check(y, "recovery from a crash in "+what, m.All, nil, depth-1)
				z.Close()
				os.RemoveAll(y.dir)
			}
			return
		}
		save := func(n *kit.Node, m *kit.Model, what string) (need, maybe []*kit.Stored) {
			need = m.All[:len(m.All):len(m.All)]
			var ds []*v1.Data
			for k := rapid.IntRange(1, 3).Draw(c.T, "samples"); k > 0; k-- {
				ds = append(ds, p.draw(c))
			}
			keep := make([]*v1.Data, len(ds))
			for i, d := range ds {
				keep[i] = proto.Clone(d).(*v1.Data)
				c.Logf("%s %v", what, d)
			}
			ss, err := n.Save(ds...)
			c.Must(err, what)
			for i, s := range ss {
				for _, o := range m.All {
					if o.ID >= s.Id {
						c.Fatalf("%s sample %d, sample %d exists", what, s.Id, o.ID)
					}
				}
				m.Add(s.Id, keep[i])
			}
			return need, m.All[len(need):]
		}
		n, err := kit.OpenAt(dir, false, kit.ShardEnd(c))
		c.Must(err, "open")
		opened = true
		for i := rapid.IntRange(1, 4).Draw(c.T, "ops"); i > 0; i-- {
			var need, maybe []*kit.Stored
			var ps []point
			op := kit.Of(c.T, "op", []string{"save", "save", "save", "restart"})
			slots := rapid.IntRange(1, 4).Draw(c.T, "slots")
			switch op {
			case "save":
				ps = during(c, dir, slots, func() { need, maybe = save(n, m, "save") })
			case "restart":
				c.Logf("restart")
				need = m.All
				ps = during(c, dir, slots, func() {
					opened = false
					c.Must(n.Close(), "close")
					n, err = kit.Open(dir, false)
					c.Must(err, "open")
					opened = true
				})
			}
			goOn := len(ps) > 0 && rapid.IntRange(0, 2).Draw(c.T, "go on") == 0
			for j, x := range ps {
				c.Logf("crash in %s before write %d, to %s", op, x.n, x.file)
				y, ym := check(x, op, need, maybe, 1)
				if ym == nil {
					y.Close()
					os.RemoveAll(x.dir)
					continue
				}
				if goOn && j == 0 {
					// the history continues after the crash
					c.Logf("go on from there")
					opened = false
					n.Close()
					os.RemoveAll(dir)
					dir, n, m, opened = x.dir, y, ym, true
					continue
				}
				if rapid.IntRange(0, 2).Draw(c.T, "then") == 0 {
					save(y, ym, "after the crash save")
					if d := kit.Verify(y.Store.Scan, ym); d != "" {
						y.Close()
						c.Fatalf("saved after the crash: %s", d)
					}
				}
				y.Close()
				os.RemoveAll(x.dir)
			}
		}
		c.ClassIf(inflights > 0, "a sample in flight survived")
		c.ClassIf(recovering > 0, "crash in a recovery")
		for f := range files {
			if f != "db" && f != "/" && f != "." {
				f = "index"
			}
			c.Class("crash before a write to " + f)
		}
		c.NonTrivialIf(seen > 0 && len(m.All) > 0)
	})
}

func TestKnown(t *testing.T) {
	kit.Known(t, "C08", map[string]func() (string, bool){"several-shards": severalShards})
}

// A save that has labels in several shards of the index commits to one after the
// other.
func severalShards() (string, bool) {
	root, err := os.MkdirTemp("", "known-")
	if err != nil {
		return "", false
	}
	defer os.RemoveAll(root)
	at := time.Date(2024, 4, 3, 14, 30, 0, 0, time.UTC)
	dir := filepath.Join(root, "live")
	n, err := kit.OpenAt(dir, false, 1<<20-4)
	if err != nil {
		return "", false
	}
	defer n.Close()
	w := &watch{dir: dir, out: root, rnd: rand.New(rand.NewSource(1)), idx: strata{slots: 50}, shards: map[string]bool{}}
	watching.Store(w)
	d := kit.Small(kit.KLogs, at, "in flight")
	rl := d.GetLogs().ResourceLogs[0]
	rl.Resource = &resourcev1.Resource{}
	for i := range 8 {
		rl.Resource.Attributes = append(rl.Resource.Attributes, &commonv1.KeyValue{Key: fmt.Sprint("k", i), Value: &commonv1.AnyValue{Value: &commonv1.AnyValue_StringValue{StringValue: "v"}}})
	}
	fs := kit.Sorted(kit.NewStored(1, d).Labels)
	_, err = n.Save(d)
	watching.Store(nil)
	if err != nil || w.err != nil {
		return "", false
	}
	for _, x := range w.idx.have {
		if !x.between {
			continue
		}
		y, err := kit.Open(x.dir, false)
		if err != nil {
			return "", false
		}
		defer y.Close()
		found := 0
		for _, f := range fs {
			got, err := y.Store.Scan(context.Background(), kit.Range(kit.KLogs, at, at.Add(time.Minute), f.ToFilter()))
			if err != nil {
				return "", false
			}
			if len(kit.Points(got)) > 0 {
				found++
			}
		}
		if found > 0 && found < len(fs) {
			return fmt.Sprintf("the process dies between the commits of a save to two shards of the index (which have a million labels each): its sample is found by %d of its %d labels", found, len(fs)), true
		}
	}
	return "", false
}
