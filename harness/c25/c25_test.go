// Scripts from the command line: a run executes the script that it is given,
// whatever ran before it or runs at the same time.
package c25

import (
	"bytes"
	"context"
	"errors"
	"fmt"
	"net"
	"os"
	"os/exec"
	"path/filepath"
	"slices"
	"strings"
	"sync"
	"testing"
	"time"

	v1 "github.com/gernest/requiemdb/gen/go/rq/v1"
	"github.com/gernest/requiemdb/internal/compile"
	_ "github.com/gernest/requiemdb/internal/compress"
	"github.com/gernest/requiemdb/internal/zzverif/kit"
	logsv1 "go.opentelemetry.io/proto/otlp/logs/v1"
	metricsv1 "go.opentelemetry.io/proto/otlp/metrics/v1"
	tracev1 "go.opentelemetry.io/proto/otlp/trace/v1"
	"google.golang.org/grpc"
	"google.golang.org/protobuf/proto"
	"pgregory.net/rapid"
)

// server answers scans with nothing and remembers them.
type server struct {
	v1.UnimplementedRQServer
	mu   sync.Mutex
	got  []string
	fail bool
}

func id(s *v1.Scan) string {
	b, err := proto.MarshalOptions{Deterministic: true}.Marshal(s)
	if err != nil {
		panic(err)
	}
	return string(b)
}

func (s *server) ScanSamples(ctx context.Context, q *v1.Scan) (*v1.Data, error) {
	s.mu.Lock()
	defer s.mu.Unlock()
	s.got = append(s.got, id(q))
	if s.fail {
		return nil, errors.New("no such luck")
	}
	if n := large(q); n > 0 {
		text := strings.Repeat("text", 1<<18)
		sm := &metricsv1.ScopeMetrics{}
		for i := 0; i < n; i++ {
			sm.Metrics = append(sm.Metrics, &metricsv1.Metric{Name: q.Filters[0].GetBase().Value, Description: text,
				Data: &metricsv1.Metric_Gauge{Gauge: &metricsv1.Gauge{DataPoints: []*metricsv1.NumberDataPoint{{TimeUnixNano: uint64(q.Now.AsTime().Add(-time.Minute).UnixNano())}}}}})
		}
		return &v1.Data{Data: &v1.Data_Metrics{Metrics: &metricsv1.MetricsData{ResourceMetrics: []*metricsv1.ResourceMetrics{{ScopeMetrics: []*metricsv1.ScopeMetrics{sm}}}}}}, nil
	}
	switch q.Scope {
	case v1.Scan_LOGS:
		return &v1.Data{Data: &v1.Data_Logs{Logs: &logsv1.LogsData{}}}, nil
	case v1.Scan_TRACES:
		return &v1.Data{Data: &v1.Data_Traces{Traces: &tracev1.TracesData{}}}, nil
	}
	return &v1.Data{Data: &v1.Data_Metrics{Metrics: &metricsv1.MetricsData{}}}, nil
}

// large is how many megabytes the answer has.
func large(q *v1.Scan) (n int) {
	if len(q.Filters) == 1 {
		fmt.Sscanf(q.Filters[0].GetBase().GetValue(), "megabytes-%d", &n)
	}
	return
}

// script is the source of one script and what a run of it does.
type script struct {
	file  string
	src   string
	out   string
	scans []string
	fails bool
	// two texts, the first is in src
	twins [2]string
}

type result struct {
	out, err string
	code     int
	killed   bool
}

func (r result) String() string {
	return fmt.Sprintf("exit %d, output %q, errors %q", r.code, cut(r.out), cut(r.err))
}

func cut(s string) string {
	if len(s) > 700 {
		return s[:350] + "..." + s[len(s)-350:]
	}
	return s
}

type env struct {
	addr, home, tmp string
	// how the program is called in this case
	global, vars []string
	relative     bool
}

// run a script; at most limit KB of any file can be written.
func (e *env) run(s *script, limit int, kill time.Duration, args ...string) (r result) {
	file := s.file
	if e.relative {
		file = filepath.Base(file)
	}
	a := append([]string{filepath.Join(os.Getenv("VERIF_BIN"), "prog-rq")}, e.global...)
	a = append(a, "query", "--remoteAddress", e.addr, file)
	if limit > 0 {
		a = append([]string{"/bin/sh", "-c", `ulimit -f "$0"; exec "$@"`, fmt.Sprint(limit)}, a...)
	}
	cmd := exec.Command(a[0], a[1:]...)
	cmd.Env = append(os.Environ(), "HOME="+e.home, "TMPDIR="+e.tmp, "GOMAXPROCS=2", "GOGC=100")
	cmd.Env = append(cmd.Env, e.vars...)
	if e.relative {
		cmd.Dir = filepath.Dir(s.file)
	}
	cmd.WaitDelay = 5 * time.Second
	var out, fail bytes.Buffer
	cmd.Stdout, cmd.Stderr = &out, &fail
	if err := cmd.Start(); err != nil {
		panic(err)
	}
	if kill > 0 {
		t := time.AfterFunc(kill, func() { cmd.Process.Kill() })
		defer t.Stop()
	}
	cmd.Wait()
	r.out, r.err, r.code = out.String(), fail.String(), cmd.ProcessState.ExitCode()
	r.killed = kill > 0 && r.code == -1
	return
}

func TestProperty(t *testing.T) {
	srv := &server{}
	l, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		t.Fatal(err)
	}
	g := grpc.NewServer()
	v1.RegisterRQServer(g, srv)
	go g.Serve(l)
	defer g.Stop()
	kit.Run(t, func(c *kit.Case) {
		e := &env{addr: l.Addr().String(), home: filepath.Join(c.Dir(), "home"), tmp: filepath.Join(c.Dir(), "tmp")}
		c.Must(errors.Join(os.Mkdir(e.home, 0700), os.Mkdir(e.tmp, 0700)), "mkdir")
		level := kit.Of(c.T, "log level", []string{"", "", "debug", "info", "error", "odd"})
		if level != "" {
			if rapid.Bool().Draw(c.T, "by flag") {
				e.global = []string{"--logLevel", level}
			} else {
				e.vars = []string{"RQ_LOG_LEVEL=" + level}
			}
		}
		e.relative = rapid.Bool().Draw(c.T, "relative path")
		c.Logf("called with %q %q, relative %v", e.vars, e.global, e.relative)
		c.ClassIf(level == "debug", "debug log")
		srv.mu.Lock()
		srv.got, srv.fail = nil, false
		srv.mu.Unlock()
		var all []*script
		for n := rapid.IntRange(1, 3).Draw(c.T, "scripts"); n > 0; n-- {
			s := draw(c, all)
			s.file = filepath.Join(c.Dir(), fmt.Sprintf("s%d.%s", len(all), kit.Of(c.T, "extension", []string{"ts", "js", "ts", "js", "a b.ts", "js.js"})))
			c.Must(os.WriteFile(s.file, []byte(s.src), 0600), "script")
			c.Logf("script %d\n%s", len(all), cut(s.src))
			all = append(all, s)
		}
		runs, repeated, cutShort := map[*script]int{}, false, false
		check := func(s *script, rs ...result) {
			srv.mu.Lock()
			got := srv.got
			srv.got = nil
			srv.mu.Unlock()
			var want []string
			for _, r := range rs {
				if (r.code != 0) != s.fails {
					c.Fatalf("script %s: %s", s.file, r)
				}
				if r.out != s.out {
					c.Fatalf("script %s: %s, want %q", s.file, r, cut(s.out))
				}
				want = append(want, s.scans...)
				repeated = repeated || runs[s] > 0
				runs[s]++
			}
			slices.Sort(got)
			slices.Sort(want)
			if !slices.Equal(want, got) {
				c.Fatalf("script %s: queries\nwant %q\ngot  %q", s.file, want, got)
			}
		}
		for n := rapid.IntRange(2, 5).Draw(c.T, "steps"); n > 0; n-- {
			s := kit.Of(c.T, "script", all)
			switch op := kit.Of(c.T, "op", []string{"run", "run", "parallel", "edit", "full", "kill", "down"}); op {
			case "run":
				c.Logf("run %s", s.file)
				check(s, e.run(s, 0, 0))
			case "edit":
				// the script becomes another one, mostly of the same size
				x := draw(c, []*script{s})
				x.file = s.file
				old, err := os.Stat(s.file)
				c.Must(err, "stat")
				c.Must(os.WriteFile(s.file, []byte(x.src), 0600), "script")
				if rapid.Bool().Draw(c.T, "same time") {
					c.Must(os.Chtimes(s.file, old.ModTime(), old.ModTime()), "time")
				}
				c.Logf("edit %s\n%s", s.file, cut(x.src))
				c.ClassIf(runs[s] > 0, "a script is edited after a run")
				n := runs[s]
				*s = *x
				runs[s] = n
				check(s, e.run(s, 0, 0))
			case "parallel":
				n := rapid.IntRange(2, 4).Draw(c.T, "runs")
				c.Logf("%d times %s", n, s.file)
				rs := make([]result, n)
				var wg sync.WaitGroup
				for i := range rs {
					wg.Add(1)
					go func() {
						defer wg.Done()
						rs[i] = e.run(s, 0, 0)
					}()
				}
				wg.Wait()
				check(s, rs...)
			case "full":
				// files end early: the run works or fails
				kb := rapid.IntRange(1, 70).Draw(c.T, "kb")
				if code, err := compile.Compile([]byte(s.src)); err == nil && rapid.IntRange(0, 3).Draw(c.T, "below") > 0 {
					kb = len(code) / 1024
				}
				c.Logf("%s with room for %d KB", s.file, kb)
				r := e.run(s, kb*2, 0) // blocks of 512 bytes
				cutShort = cutShort || r.code != 0 && !s.fails
				if r.code == 0 {
					check(s, r)
				} else if !strings.HasPrefix(s.out, r.out) {
					c.Fatalf("script %s with room for %d KB: %s", s.file, kb, r)
				}
			case "kill":
				// mostly while it is compiled and its result stored
				d := time.Duration(rapid.IntRange(5, 90).Draw(c.T, "ms")) * time.Millisecond
				c.Logf("%s killed after %s", s.file, d)
				r := e.run(s, 0, d)
				if !r.killed {
					check(s, r)
				} else {
					os.RemoveAll(e.tmp)
					c.Must(os.Mkdir(e.tmp, 0700), "mkdir")
				}
				cutShort = cutShort || r.killed
			case "down":
				if len(s.scans) == 0 {
					continue
				}
				c.Logf("%s while queries fail", s.file)
				srv.mu.Lock()
				srv.fail = true
				srv.mu.Unlock()
				r := e.run(s, 0, 0)
				if r.code == 0 || !strings.Contains(r.err, "no such luck") && !s.fails {
					c.Fatalf("script %s, whose queries fail: %s", s.file, r)
				}
				srv.mu.Lock()
				srv.fail = false
				srv.mu.Unlock()
			}
			srv.mu.Lock()
			srv.got = nil
			srv.mu.Unlock()
			if left, _ := filepath.Glob(filepath.Join(e.tmp, "*")); len(left) > 0 {
				c.Fatalf("the run of %s leaves %v", s.file, left)
			}
			if b, err := os.ReadFile(s.file); err != nil || string(b) != s.src {
				c.Fatalf("the run changes the script %s", s.file)
			}
		}
		c.ClassIf(repeated, "a script runs again")
		c.ClassIf(cutShort, "a run is cut short")
		c.ClassIf(len(runs) > 1, "several scripts")
		c.NonTrivialIf(repeated)
	})
}

const tens = "0123456789"

func draw(c *kit.Case, all []*script) *script {
	// like another one but for a little
	if len(all) > 0 && rapid.Bool().Draw(c.T, "similar") {
		o := all[0]
		x := *o
		switch {
		case o.twins[0] != "":
			x.twins = [2]string{}
			x.src, x.out = strings.ReplaceAll(o.src, o.twins[0], o.twins[1]), strings.ReplaceAll(o.out, o.twins[0], o.twins[1])
			c.Class("different scripts with the same hash")
			return &x
		case rapid.Bool().Draw(c.T, "other end"):
			x.src += "println(1);\n"
			if !x.fails {
				x.out += "1\n"
			}
			return &x
		case strings.Contains(o.src, "value 7"):
			// as a reader could take for the same
			v := kit.Of(c.T, "nearly", []string{"value 8", "value  7", "value 7 ", " value 7", "Value 7", "value\u00a07", "value // 7", "value /* 7 */", "value 70", "value 7;", "valeu 7", "7 value", "value\u20287"})
			x.src, x.out = strings.ReplaceAll(o.src, "value 7", v), strings.ReplaceAll(o.out, "value 7", v)
			return &x
		case strings.Contains(o.src, tens):
			// one byte in a long one
			if i, j := strings.LastIndex(o.src, tens), strings.LastIndex(o.out, tens); j >= 0 || o.fails {
				if rapid.Bool().Draw(c.T, "first") {
					i, j = strings.Index(o.src, tens), strings.Index(o.out, tens)
				}
				x.src = o.src[:i] + "0123456780" + o.src[i+len(tens):]
				if j >= 0 {
					x.out = o.out[:j] + "0123456780" + o.out[j+len(tens):]
				}
				return &x
			}
		}
	}
	s := &script{}
	var b, out strings.Builder
	b.WriteString("import { Metrics, Logs, Trace, println } from \"@requiemdb/rq\";\n")
	clock := kit.NewClock(c.T)
	for n := rapid.IntRange(1, 4).Draw(c.T, "statements"); n > 0; n-- {
		if s.fails {
			break
		}
		switch kit.Of(c.T, "statement", []string{"print", "print", "query", "query", "types", "twins", "twins", "long", "large", "throw", "syntax", "import"}) {
		case "print":
			b.WriteString("println(\"value 7\");\n")
			out.WriteString("value 7\n")
		case "twins":
			b.WriteString("println(\"")
			x, y := kit.TwinsAfter(b.String(), 1)
			if s.twins[0] == "" {
				s.twins = [2]string{x, y}
			}
			b.WriteString(x + "\");\n")
			out.WriteString(x + "\n")
		case "types":
			b.WriteString("{ const x = [1, 2, 3].map(v => v * 2); println(x.join(\"+\")); }\n")
			out.WriteString("2+4+6\n")
		case "long":
			x := strings.Repeat(tens, kit.Of(c.T, "tens", []int{10, 400, 5000}))
			fmt.Fprintf(&b, "println(\"%s\");\n", x)
			out.WriteString(x + "\n")
		case "large":
			n := kit.Of(c.T, "megabytes", []int{1, 3, 4, 5, 11, 40})
			at := clock.Any()
			q := kit.NewQuery(kit.KMetrics, at).At(at).Filter(kit.Base(v1.Scan_NAME, fmt.Sprint("megabytes-", n)))
			s.scans = append(s.scans, id(q.Scan))
			fmt.Fprintf(&b, "println(%s.query().resource_metrics[0].scope_metrics[0].metrics.length);\n", q.Src)
			fmt.Fprintf(&out, "%d\n", n)
			c.ClassIf(n > 4, "answer of more than 4 MB")
		case "query":
			at := clock.Any()
			q := kit.NewQuery(kit.Kind(rapid.IntRange(0, 2).Draw(c.T, "kind")), at).At(at)
			for i := rapid.IntRange(0, 2).Draw(c.T, "filters"); i > 0; i-- {
				q.Filter(kit.FreeFilter(c.T))
			}
			if rapid.Bool().Draw(c.T, "ago") {
				q.Ago(time.Hour)
			}
			s.scans = append(s.scans, id(q.Scan))
			fmt.Fprintf(&b, "println(typeof %s.query());\n", q.Src)
			out.WriteString("object\n")
		case "throw":
			b.WriteString("throw new Error(\"on purpose\");\n")
			s.fails = true
		case "syntax":
			b.WriteString("const = ;\n")
			s.fails = true
			s.scans = nil
			out.Reset()
		case "import":
			b.WriteString("import * as fs from \"fs\";\nfs.open();\n")
			s.fails = true
			s.scans = nil
			out.Reset()
		}
	}
	s.src, s.out = b.String(), out.String()
	return s
}
