// Package kit is the shared part of the property checks: it runs a property
// with rapid, counts what was generated and keeps the description of the last
// failing case.
package kit

import (
	"encoding/json"
	"fmt"
	"hash/fnv"
	"log/slog"
	"math/rand"
	"os"
	"path/filepath"
	"runtime"
	"sort"
	"strings"
	"sync/atomic"
	"testing"
	"time"

	"pgregory.net/rapid"
)

// Stats is written for the driver when a property finished.
type Stats struct {
	Evaluations int            `json:"evaluations"`
	NonTrivial  int            `json:"nontrivial"`
	Hashes      []uint64       `json:"hashes"`
	Classes     map[string]int `json:"classes"`
	Excluded    map[string]int `json:"excluded"`
	Samples     []string       `json:"samples"`
	Failed      bool           `json:"failed"`
	FailMessage string         `json:"fail_message"`
	FailCase    string         `json:"fail_case"`
}

// Case collects facts about one generated case.
type Case struct {
	T        *rapid.T
	nt       bool
	classes  map[string]bool
	excluded map[string]int
	log      strings.Builder
	h        []byte
	dir      string
	cleanup  []func()
}

// Class counts the case under a named class.
func (c *Case) Class(name string) { c.classes[name] = true }

// ClassIf counts the case under name when ok is true.
func (c *Case) ClassIf(ok bool, name string) {
	if ok {
		c.classes[name] = true
	}
}

// NonTrivial marks the case as non trivial.
func (c *Case) NonTrivial() { c.nt = true }

// NonTrivialIf marks the case as non trivial when ok.
func (c *Case) NonTrivialIf(ok bool) {
	if ok {
		c.nt = true
	}
}

// Exclude counts something that the generator avoids on purpose.
func (c *Case) Exclude(what string) { c.excluded[what]++ }

// Logf describes what the case does. The text is the identity of the case.
func (c *Case) Logf(format string, args ...any) {
	if c.log.Len() > 64<<10 {
		h := fnv.New64a()
		fmt.Fprintf(h, format, args...)
		c.h = h.Sum(c.h)
		return
	}
	fmt.Fprintf(&c.log, format, args...)
	c.log.WriteByte('\n')
}

// Fatalf fails the case.
func (c *Case) Fatalf(format string, args ...any) {
	c.T.Helper()
	c.T.Fatalf(format, args...)
}

// Must fails the case on an error that the property does not allow.
func (c *Case) Must(err error, what string) {
	if err != nil {
		c.T.Helper()
		c.T.Fatalf("%s: unexpected error: %v", what, err)
	}
}

// Cleanup runs f when the case is done.
func (c *Case) Cleanup(f func()) { c.cleanup = append(c.cleanup, f) }

// Dir is a scratch directory of this case.
func (c *Case) Dir() string {
	if c.dir == "" {
		d, err := os.MkdirTemp("", "case-")
		if err != nil {
			panic(err)
		}
		c.dir = d
	}
	return c.dir
}

func (c *Case) done() {
	for i := len(c.cleanup) - 1; i >= 0; i-- {
		c.cleanup[i]()
	}
	c.cleanup = nil
	if c.dir != "" {
		os.RemoveAll(c.dir)
	}
}

// Thorough is true in the thorough tier.
func Thorough() bool { return os.Getenv("VERIF_TIER") == "thorough" }

// Pick returns q in the quick tier and th in the thorough tier.
func Pick[T any](q, th T) T {
	if Thorough() {
		return th
	}
	return q
}

func init() {
	slog.SetDefault(slog.New(slog.NewTextHandler(discard{}, &slog.HandlerOptions{Level: slog.LevelError + 8})))
}

type discard struct{}

func (discard) Write(p []byte) (int, error) { return len(p), nil }

// A case takes milliseconds. One that takes this long does not make progress.
const stuckAfter = 2 * time.Minute

// Slow is set by checks with cases that wait.
var Slow time.Duration

func stuck() { Stop("the case does not finish") }

// Stop ends the process: the current case fails in a way that can not be shrunk.
func Stop(why string) {
	buf := make([]byte, 1<<20)
	buf = buf[:runtime.Stack(buf, true)]
	text := ""
	if c := current.Load(); c != nil {
		text = c.log.String()
	}
	fmt.Printf("%s\n%s\n%s\n", why, text, buf)
	os.Exit(70)
}

var current atomic.Pointer[Case]

// Run checks prop on generated cases.
func Run(t *testing.T, prop func(c *Case)) {
	out := os.Getenv("VERIF_OUT") // directory for this worker
	st := &Stats{Classes: map[string]int{}, Excluded: map[string]int{}}
	seen := map[uint64]bool{}
	failing := false
	var last string
	defer func() {
		if fuzz.stats != nil {
			return
		}
		st.Failed = t.Failed() || failing
		st.FailCase = last
		for h := range seen {
			st.Hashes = append(st.Hashes, h)
		}
		sort.Slice(st.Hashes, func(i, j int) bool { return st.Hashes[i] < st.Hashes[j] })
		if out == "" {
			b, _ := json.Marshal(map[string]any{"evaluations": st.Evaluations, "nontrivial": st.NonTrivial,
				"distinct": len(st.Hashes), "classes": st.Classes, "excluded": st.Excluded})
			fmt.Println(string(b))
			return
		}
		b, _ := json.Marshal(st)
		os.WriteFile(filepath.Join(out, "stats.json"), b, 0o600)
	}()
	n := 0
	check := rapid.Check
	if fuzz.stats != nil {
		// one case, in a process that counts all of them
		st, seen = fuzz.stats, fuzz.seen
		n = st.Evaluations
		check = func(_ rapid.TB, f func(*rapid.T)) { rapid.MakeFuzz(f)(t, fuzz.data) }
	}
	check(t, func(rt *rapid.T) {
		c := &Case{T: rt, classes: map[string]bool{}, excluded: map[string]int{}}
		current.Store(c)
		n++
		if out != "" {
			os.WriteFile(filepath.Join(out, "current"), []byte(fmt.Sprint(n)), 0o600)
		}
		ok := false
		w := time.AfterFunc(stuckAfter+Slow, stuck)
		defer w.Stop()
		defer func() {
			if !ok {
				// either a failure or a rejected case
				last = c.log.String()
				if rt.Failed() {
					failing = true
				}
			}
			c.done()
		}()
		prop(c)
		ok = true
		if failing {
			return
		}
		st.Evaluations++
		for k := range c.classes {
			st.Classes[k]++
		}
		for k, v := range c.excluded {
			st.Excluded[k] += v
		}
		if c.nt {
			st.NonTrivial++
			h := fnv.New64a()
			h.Write([]byte(c.log.String()))
			h.Write(c.h)
			s := h.Sum64()
			if !seen[s] {
				seen[s] = true
				if len(st.Samples) < 3 && c.log.Len() < 4000 {
					st.Samples = append(st.Samples, c.log.String())
				}
			}
		}
	})
}

var fuzz struct {
	data  []byte
	stats *Stats
	seen  map[uint64]bool
	saved time.Time
}

// Fuzz runs the property of test on cases whose random choices are mutated by
// what the code covers.
func Fuzz(f *testing.F, test func(*testing.T)) {
	rnd := rand.New(rand.NewSource(1))
	for i := 0; i < 40; i++ {
		b := make([]byte, 256<<(i%5))
		rnd.Read(b)
		if i%2 == 1 {
			// mostly small choices
			for k := range b {
				if k%8 != 0 || rnd.Intn(3) == 0 {
					b[k] = 0
				}
			}
		}
		f.Add(b)
	}
	fuzz.stats, fuzz.seen = &Stats{Classes: map[string]int{}, Excluded: map[string]int{}}, map[uint64]bool{}
	out := os.Getenv("VERIF_OUT")
	f.Fuzz(func(t *testing.T, data []byte) {
		// What is not given is random, but always the same.
		more := make([]byte, 64<<10)
		rand.New(rand.NewSource(int64(len(data)))).Read(more)
		fuzz.data = append(append(make([]byte, 0, len(data)+7+len(more)), data...), make([]byte, 7-(len(data)+7)%8)...)
		fuzz.data = append(fuzz.data, more...)
		test(t)
		// Processes are ended without notice.
		if out != "" && time.Since(fuzz.saved) > time.Second {
			s := *fuzz.stats
			s.Hashes = nil
			for h := range fuzz.seen {
				s.Hashes = append(s.Hashes, h)
			}
			b, _ := json.Marshal(s)
			name := filepath.Join(out, fmt.Sprintf("fuzz-%d.json", os.Getpid()))
			os.WriteFile(name+".tmp", b, 0o600)
			os.Rename(name+".tmp", name)
			fuzz.saved = time.Now()
		}
	})
}

// Known runs probes of known findings: probe reports whether the finding still
// fails. Only what is listed in the known-findings file is probed.
func Known(t *testing.T, property string, probes map[string]func() (string, bool)) {
	b, err := os.ReadFile(os.Getenv("VERIF_KNOWN"))
	if err != nil {
		return
	}
	for _, line := range strings.Split(string(b), "\n") {
		f := strings.Fields(line)
		// finding: property=C05 id=<key> <what fails>
		if len(f) < 3 || f[0] != "finding:" || f[1] != "property="+property {
			continue
		}
		key := strings.TrimPrefix(f[2], "id=")
		p, ok := probes[key]
		if !ok {
			continue
		}
		if what, fails := p(); fails {
			fmt.Printf("KNOWN-FINDING: property=%s %s: %s\n", property, key, what)
		}
	}
}
