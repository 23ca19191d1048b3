// Crashes: when the process dies, every acknowledged sample is found by the next
// start, and a sample in flight is there as a whole or not at all.
package c08

import (
	"bufio"
	"encoding/binary"
	"fmt"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"strings"
	"testing"
	"time"

	v1 "github.com/gernest/requiemdb/gen/go/rq/v1"
	"github.com/gernest/requiemdb/internal/zzverif/kit"
	"google.golang.org/protobuf/proto"
	"pgregory.net/rapid"
)

type plan struct {
	clock *kit.Clock
	hours []time.Time
}

func newPlan(c *kit.Case) *plan {
	p := &plan{clock: kit.NewClock(c.T)}
	p.hours = []time.Time{p.clock.Hour(), p.clock.Hour()}
	return p
}

func (p *plan) draw(c *kit.Case) *v1.Data {
	hour := kit.Of(c.T, "hour", p.hours)
	g := &kit.Gen{T: c.T, MaxResources: 1, MaxScopes: 2, MaxMetrics: 2, MaxPoints: 2, Lean: true,
		Time: func() uint64 { return uint64(p.clock.In(hour).UnixNano()) }}
	return g.Data(kit.Kind(rapid.IntRange(0, 2).Draw(c.T, "kind")))
}

// The files as they are between two operations, which is what is left when the
// process is killed there.
func TestStop(t *testing.T) {
	kit.Run(t, func(c *kit.Case) {
		dir := filepath.Join(c.Dir(), "live")
		p := newPlan(c)
		m := &kit.Model{}
		n, err := kit.Open(dir, false)
		c.Must(err, "open")
		closed := false
		c.Cleanup(func() {
			if !closed {
				n.Close()
			}
		})
		crashes, saves := 0, 0
		// goOn continues with the files that the crash left
		crash := func(goOn bool) {
			crashes++
			to := filepath.Join(c.Dir(), fmt.Sprint("crash", crashes))
			c.Must(kit.CopyDir(dir, to), "copy")
			x, err := kit.Open(to, false)
			if err != nil {
				c.Fatalf("open after a crash: %v", err)
			}
			defer func() {
				if goOn && err == nil {
					n.Close()
					os.RemoveAll(dir)
					dir, n = to, x
					return
				}
				x.Close()
				os.RemoveAll(to)
			}()
			if d := kit.Verify(x.Store.Scan, m); d != "" {
				c.Fatalf("after a crash: %s", d)
			}
			var last uint64
			for _, s := range m.All {
				last = max(last, s.ID)
			}
			if id := x.Seq.SampleID(); len(m.All) > 0 && id <= last {
				c.Fatalf("after a crash the next sample is %d, sample %d exists", id, last)
			}
		}
		crashed := false
		ops := rapid.IntRange(2, 6).Draw(c.T, "ops")
		for i := 0; i < ops; i++ {
			switch rapid.IntRange(0, 5).Draw(c.T, "op") {
			case 0:
				goOn := rapid.IntRange(0, 3).Draw(c.T, "go on") > 0
				c.Logf("crash, go on: %v", goOn)
				crash(goOn)
				crashed = crashed || goOn
			case 1:
				c.Logf("restart")
				closed = true
				c.Must(n.Close(), "close")
				n, err = kit.Open(dir, false)
				c.Must(err, "open")
				closed = false
			default:
				var ds []*v1.Data
				for k := rapid.IntRange(1, 3).Draw(c.T, "samples"); k > 0; k-- {
					ds = append(ds, p.draw(c))
				}
				var keep []*v1.Data
				for _, d := range ds {
					keep = append(keep, proto.Clone(d).(*v1.Data))
				}
				ss, err := n.Save(ds...)
				c.Must(err, "save")
				if crashed {
					saves++
				}
				for k, s := range ss {
					m.Add(s.Id, keep[k])
					c.Logf("saved %d: %v", s.Id, keep[k])
				}
			}
		}
		crash(false)
		c.ClassIf(saves > 0, "saves after a crash")
		c.ClassIf(crashes > 1, "several crashes")
		c.ClassIf(len(m.All) > 2, "more than two samples")
		c.NonTrivialIf(len(m.All) > 1)
	})
}

// A child process saves batches and is killed at a point of its work.
func TestKill(t *testing.T) {
	kit.Run(t, func(c *kit.Case) {
		dir := filepath.Join(c.Dir(), "live")
		c.Must(os.MkdirAll(dir, 0o755), "mkdir")
		p := newPlan(c)
		var batches [][]*v1.Data
		var in []byte
		for b := rapid.IntRange(1, 4).Draw(c.T, "batches"); b > 0; b-- {
			var ds []*v1.Data
			for k := rapid.IntRange(1, 3).Draw(c.T, "samples"); k > 0; k-- {
				ds = append(ds, p.draw(c))
			}
			batches = append(batches, ds)
			in = binary.AppendUvarint(in, uint64(len(ds)))
			for _, d := range ds {
				w, err := proto.Marshal(d)
				c.Must(err, "marshal")
				in = binary.AppendUvarint(in, uint64(len(w)))
				in = append(in, w...)
				c.Logf("%v", d)
			}
			c.Logf("--")
		}
		input := filepath.Join(c.Dir(), "input")
		c.Must(os.WriteFile(input, in, 0o600), "write")
		after := rapid.IntRange(0, len(batches)).Draw(c.T, "kill after")
		delay := time.Duration(rapid.IntRange(0, 200).Draw(c.T, "kill delay")) * time.Millisecond / 2
		c.Logf("kill %s after batch %d", delay, after)
		cmd := exec.Command(os.Args[0], "-test.run", "^TestChild$", "-test.timeout", "100s")
		cmd.Env = append(os.Environ(), "VERIF_CHILD="+dir, "VERIF_CHILD_INPUT="+input, "VERIF_OUT=")
		cmd.Stderr = io.Discard
		out, err := cmd.StdoutPipe()
		c.Must(err, "pipe")
		c.Must(cmd.Start(), "start")
		acked, killed := -1, false
		sc := bufio.NewScanner(out)
		kill := func() {
			killed = true
			time.AfterFunc(delay, func() { cmd.Process.Kill() })
		}
		var bad string
		for sc.Scan() {
			f := strings.Fields(sc.Text())
			if len(f) == 2 && f[0] == "acked" {
				fmt.Sscan(f[1], &acked)
				if acked == after && !killed {
					kill()
				}
			}
			if len(f) > 0 && f[0] == "error" {
				bad = sc.Text()
			}
		}
		cmd.Wait()
		if bad != "" {
			c.Fatalf("child: %s", bad)
		}
		if acked < 0 {
			c.Fatalf("child did not start")
		}
		n, err := kit.Open(dir, false)
		if err != nil {
			c.Fatalf("open after the process was killed: %v", err)
		}
		defer n.Close()
		// all of the acknowledged batches; samples in flight whole or not at all
		var need, maybe []*kit.Stored
		id := uint64(0)
		for b, ds := range batches {
			for _, d := range ds {
				s := kit.NewStored(id, d)
				id++
				if b < acked {
					need = append(need, s)
				} else if b == acked {
					maybe = append(maybe, s)
				}
			}
		}
		inflight := 0
		all := &kit.Model{}
		for mask := 0; mask < 1<<len(maybe); mask++ {
			m := &kit.Model{All: append([]*kit.Stored{}, need...)}
			for i, s := range maybe {
				if mask&(1<<i) != 0 {
					m.All = append(m.All, s)
				}
			}
			bad = kit.Verify(n.Store.Scan, m)
			if bad == "" {
				if mask != 0 {
					inflight++
				}
				all = m
				break
			}
		}
		if bad != "" {
			m := &kit.Model{All: need}
			c.Fatalf("after the process was killed with %d acknowledged batches: no set of the samples in flight explains the result\n%s", acked, kit.Verify(n.Store.Scan, m))
		}
		// and the database goes on
		if rapid.Bool().Draw(c.T, "go on") {
			d := p.draw(c)
			c.Logf("then %v", d)
			keep := proto.Clone(d).(*v1.Data)
			ss, err := n.Save(d)
			c.Must(err, "save after the process was killed")
			for _, s := range all.All {
				if ss[0].Id <= s.ID {
					c.Fatalf("after the process was killed the next sample is %d, sample %d exists", ss[0].Id, s.ID)
				}
			}
			all.Add(ss[0].Id, keep)
			if d := kit.Verify(n.Store.Scan, all); d != "" {
				c.Fatalf("saved after the process was killed: %s", d)
			}
		}
		c.ClassIf(acked < len(batches), "killed with a batch in flight")
		c.ClassIf(acked > 0, "killed after an acknowledged batch")
		c.ClassIf(inflight > 0, "batch in flight survived")
		c.NonTrivialIf(len(need) > 0)
	})
}

func TestChild(t *testing.T) {
	dir := os.Getenv("VERIF_CHILD")
	if dir == "" {
		t.Skip()
	}
	in, err := os.ReadFile(os.Getenv("VERIF_CHILD_INPUT"))
	fail := func(err error) {
		if err != nil {
			fmt.Println("error", err)
			os.Exit(3)
		}
	}
	fail(err)
	n, err := kit.Open(dir, false)
	fail(err)
	fmt.Println("acked 0")
	for b := 1; len(in) > 0; b++ {
		k, w := binary.Uvarint(in)
		in = in[w:]
		var ds []*v1.Data
		for ; k > 0; k-- {
			size, w := binary.Uvarint(in)
			in = in[w:]
			d := &v1.Data{}
			fail(proto.Unmarshal(in[:size], d))
			in = in[size:]
			ds = append(ds, d)
		}
		_, err := n.Save(ds...)
		fail(err)
		fmt.Println("acked", b)
	}
	time.Sleep(2 * time.Second)
	os.Exit(0)
}
