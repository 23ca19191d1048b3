// The library that scripts are written against is the one that they run with.
package c28

import (
	"bytes"
	"errors"
	"fmt"
	"math"
	"os"
	"path/filepath"
	"strings"
	"testing"
	"time"

	"github.com/dop251/goja"
	"github.com/evanw/esbuild/pkg/api"
	v1 "github.com/gernest/requiemdb/gen/go/rq/v1"
	"github.com/gernest/requiemdb/internal/compile"
	"github.com/gernest/requiemdb/internal/js"
	"github.com/gernest/requiemdb/internal/zzverif/kit"
	"google.golang.org/protobuf/proto"
	"pgregory.net/rapid"
)

// sources compiles a script with the sources of the library.
func sources(c *kit.Case, src string) (string, error) {
	file := filepath.Join(c.Dir(), "index.ts")
	c.Must(os.WriteFile(file, []byte(src), 0600), "write")
	r := api.Build(api.BuildOptions{Bundle: true, AbsWorkingDir: c.Dir(), EntryPoints: []string{"index.ts"},
		Alias: map[string]string{"@requiemdb/rq": filepath.Join(os.Getenv("VERIF_REPO"), "packages/rq/src/index.ts")}})
	if len(r.Errors) > 0 {
		return "", errors.New(r.Errors[0].Text)
	}
	return string(r.OutputFiles[0].Contents), nil
}

var methods = []string{"limit", "offset", "now", "reverse", "resourceSchema", "scopeSchema", "scopeName", "scopeVersion", "name", "traceId", "spanId", "parentSpanId", "logLevel",
	"resourceAttr", "scopeAttr", "attr", "latest", "today", "thisWeek", "thisMonth", "thisYear", "ago"}

var args = []string{"\"a\"", "\"b=c\"", "\"\"", "\"15m\"", "\"1h30m\"", "\"-2s\"", "\"x\"", "0", "1", "-1", "2.5", "1e30", "NaN", "undefined", "null", "true", "new Date(1712155060123)", "new Date(0)", "new Date(-1)",
	"new Date(NaN)", "[1, 2]", "{k: 1}", "`00f067aa0ba902b7`", "\"WARN\"", "Symbol.iterator", "() => 1"}

// draw draws statements of a script.
func draw(c *kit.Case) (src string, queries, odd int) {
	var b strings.Builder
	b.WriteString("import * as lib from \"@requiemdb/rq\";\n")
	b.WriteString("const { Metrics, Logs, Trace, Config, print, println } = lib;\nconst tell = (f: () => any) => { try { f() } catch (e) { println(\"failed\", String(e)) } };\n")
	n := func(name string, lo, hi int) int { return rapid.IntRange(lo, hi).Draw(c.T, name) }
	for i := n("statements", 1, 6); i > 0; i-- {
		switch n("statement", 0, 9) {
		case 0:
			b.WriteString("println(Object.keys(lib).sort().join());\n")
		case 1:
			// values of what is exported
			fmt.Fprintf(&b, "{ const e: any = (lib as any)[Object.keys(lib).sort()[%d]]; println(typeof e, typeof e === \"object\" ? JSON.stringify(e) : Object.getOwnPropertyNames(e?.prototype ?? {}).sort().join()); }\n", n("export", 0, 10))
		case 2:
			var as []string
			for j := n("args", 0, 3); j > 0; j-- {
				as = append(as, kit.Of(c.T, "arg", args[:len(args)-2]))
			}
			fmt.Fprintf(&b, "tell(() => %s(%s));\n", kit.Of(c.T, "print", []string{"print", "println"}), strings.Join(as, ", "))
		case 3:
			q, _ := query(c, true, &odd)
			fmt.Fprintf(&b, "tell(() => Metrics.%s);\n", kit.Of(c.T, "render", []string{
				"render(" + q + ".query())", "renderJSON(" + q + ".query())",
				"render(" + q + ".query(), {resource: true} as any)", "render(" + q + ".query(), {scope: true, metrics: true, resource: false})", "render(" + q + ".query(), {metrics: true} as any)",
				"renderJSON(" + q + ".query(), {pretty: true})", "renderJSON(" + q + ".query(), {pretty: false})", "render(undefined as any)", "renderJSON(null as any, undefined)"}))
			queries++
		default:
			q, own := query(c, false, &odd)
			end := "query()"
			if own || n("scan", 0, 3) == 0 {
				end = kit.Of(c.T, "end", []string{"scan()", "scan().GetMetrics()", "scan().GetLogs()", "scan().GetTraces()"})
			}
			fmt.Fprintf(&b, "tell(() => println(JSON.stringify((%s).%s)));\n", q, end)
			queries++
		}
	}
	return b.String(), queries, odd
}

// query draws calls, mostly such that work.
func query(c *kit.Case, metrics bool, odd *int) (q string, own bool) {
	n := func(name string, lo, hi int) int { return rapid.IntRange(lo, hi).Draw(c.T, name) }
	clock := kit.NewClock(c.T)
	k := kit.KMetrics
	if !metrics {
		k = kit.Kind(n("kind", 0, 2))
	}
	q = kit.DrawQuery(c.T, k, now, clock, 6).Src
	if strings.Contains(q, "ptr.TimeRange") {
		// the field is not of the library
		q = "new Metrics()"
	}
	switch n("start", 0, 9) {
	case 0:
		if !metrics {
			q, own = fmt.Sprintf("new Config(%s as any)", kit.Of(c.T, "resource", []string{"lib.RESOURCE.METRICS", "lib.RESOURCE.LOGS", "lib.RESOURCE.TRACES", "\"metrics\"", "\"none\""})), true
		}
	case 1:
		q = fmt.Sprintf("new Metrics(%s)", kit.Of(c.T, "name", []string{"\"\"", "\"m\"", "undefined", "null as any", "0 as any", "1 as any"}))
	}
	if n("odd", 0, 2) == 0 {
		*odd++
		for i := n("calls", 1, 3); i > 0; i-- {
			var as []string
			for j := n("args", 0, 2); j > 0; j-- {
				as = append(as, kit.Of(c.T, "arg", args))
			}
			q = fmt.Sprintf("(%s as any).%s(%s)", q, kit.Of(c.T, "method", methods), strings.Join(as, ", "))
		}
	}
	return
}

var now = time.Date(2024, 4, 3, 14, 37, 40, 5e6, time.UTC)

func TestProperty(t *testing.T) {
	kit.Run(t, func(c *kit.Case) {
		src, queries, odd := draw(c)
		c.Logf("%s", src)
		g := &kit.Gen{T: c.T, MaxResources: 2, MaxScopes: 2, MaxMetrics: 2, MaxPoints: 2, Lean: true}
		at := kit.NewClock(c.T).Any()
		g.Time = func() uint64 {
			if at.Year() < 1971 || at.Year() > 2200 {
				return math.MaxInt64 / 7
			}
			return uint64(at.UnixNano())
		}
		answer := map[v1.Scan_SCOPE]*v1.Data{}
		for _, k := range []kit.Kind{kit.KMetrics, kit.KLogs, kit.KTraces} {
			answer[k.Scope()] = g.Data(k)
		}
		down := rapid.IntRange(0, 9).Draw(c.T, "down") == 0
		run := func(code string) (out string, asked []*v1.Scan) {
			var buf bytes.Buffer
			vm := js.New().WithOutput(&buf).WithNow(func() time.Time { return now }).WithScan(func(s *v1.Scan) (*v1.Data, error) {
				asked = append(asked, proto.Clone(s).(*v1.Scan))
				if down {
					return nil, errors.New("database is gone")
				}
				if d, ok := answer[s.Scope]; ok {
					return kit.Clone(d), nil
				}
				return nil, errors.New("no such scope")
			})
			program, err := goja.Compile("scan.js", code, true)
			c.Must(err, "program")
			// what happens to arguments of odd types is up to goja
			var fail error
			panics := func() (r any) {
				defer func() { r = recover() }()
				fail = vm.Run(program)
				return nil
			}()
			c.Must(fail, "run")
			if panics != nil {
				return fmt.Sprint(buf.String(), "panic ", panics), asked
			}
			vm.Release()
			return buf.String(), asked
		}
		a, err := compile.Compile([]byte(src))
		c.Must(err, "compile with the embedded library")
		b, err := sources(c, src)
		c.Must(err, "compile with the sources of the library")
		outA, askA := run(string(a))
		outB, askB := run(b)
		if len(askA) != len(askB) {
			c.Fatalf("%d queries with the embedded library, %d with its sources", len(askA), len(askB))
		}
		for i, s := range askA {
			if !proto.Equal(s, askB[i]) {
				c.Fatalf("query %d\nembedded %v\nsources  %v", i+1, s, askB[i])
			}
		}
		if outA != outB {
			c.Fatalf("output with\nthe embedded library %q\nits sources          %q", outA, outB)
		}
		c.ClassIf(odd > 0, "odd arguments")
		c.ClassIf(len(askA) > 0, "queries that reach the database")
		c.ClassIf(strings.Contains(outA, "failed"), "failures")
		c.ClassIf(down, "the database fails")
		c.NonTrivialIf(queries > 0 && len(askA) > 0)
	})
}
